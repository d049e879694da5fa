package gopdf

import "fmt"

// C03, C05: objects are registered with the numbers, the owner and the key
// holder the objects that refer to them use.

func v_snapFonts(s []RelateFont) []RelateFont       { return append([]RelateFont{}, s...) }
func v_snapXobjs(s []RelateXobject) []RelateXobject { return append([]RelateXobject{}, s...) }

// sp_hasFont: a font of this family and style is among those listed.
func sp_hasFont(fs []RelateFont, n int, family string, style int) bool {
	return v_exists(0, n, func(j int) bool { return fs[j].Family == family && fs[j].Style == style })
}

// sp_kept: the objects registered before keep their numbers.
func sp_kept(objs, before []IObj) bool {
	return len(objs) >= len(before) && v_forall(0, len(before), func(j int) bool { return objs[j] == before[j] })
}

// @ contract (*RelateFonts).IsContainsFamilyAndStyle props=C03
func vc_IsContainsFamilyAndStyle(re *RelateFonts, family string, style int) bool {
	v_requires(re != nil)
	r := re.IsContainsFamilyAndStyle(family, style)
	v_ensures("C03.font-listed", v_iff(r, sp_hasFont(*re, len(*re), family, style)))
	return r
}

// @ loop (*RelateFonts).IsContainsFamilyAndStyle 0
func vl_IsContainsFamilyAndStyle(re *RelateFonts, family string, style int) {
	v_inv(!sp_hasFont(*re, v_loopCount(), family, style))
}

// @ contract (*GoPdf).setSubsetFontObject props=C03,C05,C10
func vc_setSubsetFontObject(gp *GoPdf, font *SubsetFontObj, family string, option TtfOption) error {
	v_requires(gp != nil && font != nil && sp_procsetOK(gp))
	pr := gp.pdfObjs[gp.indexOfProcSet].(*ProcSetObj)
	v_requires(!sp_isFontAmong(gp.pdfObjs, font))
	fonts := v_snapFonts(pr.Relates)
	before := v_snapObjs(gp.pdfObjs)
	n := len(before)
	count := gp.curr.CountOfFont
	style := option.Style &^ Underline
	had := sp_hasFont(fonts, len(fonts), family, style)
	v_modifies(&gp.pdfObjs, &gp.curr.CountOfFont, &pr.Relates, &font.indexObjCIDFont, &font.indexObjUnicodeMap, &font.CountOfFont)
	err := gp.setSubsetFontObject(font, family, option)
	objs := gp.pdfObjs
	v_ensures("C03.font-objects-registered", err == nil && len(objs) == n+5 && sp_kept(objs, before))
	u, okU := objs[n].(*UnicodeMap)
	d, okD := objs[n+1].(*PdfDictionaryObj)
	s, okS := objs[n+2].(*SubfontDescriptorObj)
	c, okC := objs[n+3].(*CIDFontObj)
	v_ensures("C03+C10.unicode-map", okU && u.PtrToSubsetFontObj == font)
	v_ensures("C05.unicode-map-secured", u.pdfProtection == gp.pdfProtection)
	v_ensures("C03+C10.font-program", okD && d.PtrToSubsetFontObj == font)
	v_ensures("C05.font-program-secured", d.pdfProtection == gp.pdfProtection)
	v_ensures("C03.descriptor", okS && s.PtrToSubsetFontObj == font && s.indexObjPdfDictionary == n+1)
	v_ensures("C03.descendant-font", okC && c.PtrToSubsetFontObj == font && c.indexObjSubfontDescriptor == n+2)
	v_ensures("C03.font", objs[n+4] == IObj(font) && font.indexObjCIDFont == n+3 && font.indexObjUnicodeMap == n)
	v_ensures("C03.font-in-resources", had || len(pr.Relates) == len(fonts)+1 && pr.Relates[len(fonts)].IndexOfObj == n+4 &&
		pr.Relates[len(fonts)].Family == family && pr.Relates[len(fonts)].Style == style)
	v_ensures("C03.font-number-of-its-own", had || pr.Relates[len(fonts)].CountOfFont == count && font.CountOfFont == count && gp.curr.CountOfFont == count+1)
	v_ensures("C03.font-known-already", !had || len(pr.Relates) == len(fonts) && gp.curr.CountOfFont == count)
	v_ensures("C03.listed-fonts-kept", v_forall(0, len(fonts), func(j int) bool { return pr.Relates[j] == fonts[j] }))
	return err
}

func sp_isFontAmong(objs []IObj, f *SubsetFontObj) bool {
	return v_exists(0, len(objs), func(j int) bool { return objs[j] == IObj(f) })
}

// @ contract (*GoPdf).SetFontWithStyle props=C03,C08
func vc_SetFontWithStyle(gp *GoPdf, family string, style int, size interface{}) error {
	v_requires(gp != nil && v_forall(0, len(gp.pdfObjs), func(j int) bool { return sp_setFontObj(gp.pdfObjs[j]) }))
	v_modifies(&gp.curr.FontSize, &gp.curr.FontStyle, &gp.curr.FontFontCount, &gp.curr.FontISubset)
	old := gp.curr.FontISubset
	err := gp.SetFontWithStyle(family, style, size)
	f := gp.curr.FontISubset
	v_ensures("C08.font-kept-on-error", err == nil || f == old)
	v_ensures("C03+C08.font-of-that-name", err != nil || f != nil && f.Family == family && f.ttfFontOption.Style == style&^Underline && gp.curr.FontFontCount == f.CountOfFont && gp.curr.FontStyle == style)
	v_ensures("C03.first-registered", err != nil || v_exists(0, len(gp.pdfObjs), func(j int) bool {
		return gp.pdfObjs[j] == IObj(f) && v_forall(0, j, func(k int) bool { return !sp_fontNamed(gp.pdfObjs[k], family, style&^Underline) })
	}))
	return err
}

// @ merge
func sp_setFontObj(o IObj) bool {
	if o == nil {
		return false
	}
	f, ok := o.(*SubsetFontObj)
	return !ok || f != nil
}

// @ merge
func sp_fontNamed(o IObj, family string, style int) bool {
	f, ok := o.(*SubsetFontObj)
	return ok && f.Family == family && f.ttfFontOption.Style == style
}

// @ loop (*GoPdf).SetFontWithStyle 0
func vl_SetFontWithStyle(gp *GoPdf, family string, style, i, max int, found bool) {
	v_inv(0 <= i && i <= max && max == len(gp.pdfObjs) && !found)
	v_inv(v_forall(0, i, func(k int) bool { return !sp_fontNamed(gp.pdfObjs[k], family, style&^Underline) }))
	v_decr(max - i)
}

// Masks, transparency groups and images.

func sp_smaskId(g int, s string) string { return fmt.Sprintf("S_%s;G_%d_0_R", s, g) }

// sp_smaskAt: a soft mask of this group and kind is registered under number i+1.
func sp_smaskAt(gp *GoPdf, i, g int, s string) bool {
	if i < 0 || i >= len(gp.pdfObjs) {
		return false
	}
	m, ok := gp.pdfObjs[i].(SMask)
	return ok && m.TransparencyXObjectGroupIndex == g && m.S == s
}

// sp_groupAt: a transparency group is registered under number i+1.
func sp_groupAt(gp *GoPdf, i int) bool {
	if i < 0 || i >= len(gp.pdfObjs) {
		return false
	}
	_, ok := gp.pdfObjs[i].(TransparencyXObjectGroup)
	return ok
}

func sp_smaskMapOK(gp *GoPdf) bool {
	t := gp.curr.sMasksMap.table
	return t != nil && v_forallStr(func(k string) bool {
		s, in := t[k]
		return !in || s.S == SMaskLuminositySubtype && sp_smaskAt(gp, s.Index, s.TransparencyXObjectGroupIndex, s.S) && k == sp_smaskId(s.TransparencyXObjectGroupIndex, SMaskLuminositySubtype)
	})
}

// @ lemma props=C03
func lm_smaskId(g, h int) {
	v_requires(sp_smaskId(g, SMaskLuminositySubtype) == sp_smaskId(h, SMaskLuminositySubtype))
	v_ensures("C03.mask-id-names-the-group", g == h)
}

// @ contract GetCachedMask props=C03
func vc_GetCachedMask(opts SMaskOptions, gp *GoPdf) SMask {
	v_requires(gp != nil && sp_smaskMapOK(gp) && string(opts.Subtype) == SMaskLuminositySubtype)
	before := v_snapObjs(gp.pdfObjs)
	n := len(before)
	v_modifies(&gp.pdfObjs, gp.curr.sMasksMap.table)
	r := GetCachedMask(SMaskOptions{Subtype: SMaskLuminositySubtype, TransparencyXObjectGroupIndex: opts.TransparencyXObjectGroupIndex}, gp)
	objs := gp.pdfObjs
	v_ensures("C03.mask-registered", sp_smaskAt(gp, r.Index, r.TransparencyXObjectGroupIndex, r.S))
	v_ensures("C03.mask-number", len(objs) == n || len(objs) == n+1)
	v_ensures("C03.mask-objects-kept", sp_kept(objs, before))
	v_ensures("C03.mask-map-sound", sp_smaskMapOK(gp))
	v_ensures("C03.mask-of-group", r.TransparencyXObjectGroupIndex == opts.TransparencyXObjectGroupIndex && r.S == SMaskLuminositySubtype)
	return r
}

// @ contract GetCachedTransparencyXObjectGroup props=C03,C05,C14
func vc_GetCachedTransparencyXObjectGroup(opts TransparencyXObjectGroupOptions, gp *GoPdf) (TransparencyXObjectGroup, error) {
	v_requires(gp != nil)
	before := v_snapObjs(gp.pdfObjs)
	n := len(before)
	v_modifies(&gp.pdfObjs)
	r, err := GetCachedTransparencyXObjectGroup(opts, gp)
	objs := gp.pdfObjs
	v_ensures("C03.group-registered", err == nil && r.Index == n && len(objs) == n+1 && sp_kept(objs, before) && sp_groupAt(gp, n))
	g := objs[n].(TransparencyXObjectGroup)
	v_ensures("C05.group-secured", g.pdfProtection == opts.Protection)
	v_ensures("C14.group-content", len(g.XObjects) == len(opts.XObjects) && v_forall(0, len(g.XObjects), func(j int) bool { return sp_sameImage(g.XObjects[j], opts.XObjects[j]) }))
	v_ensures("C14.group-box", g.BBox[0] == opts.BBox[0] && g.BBox[1] == opts.BBox[1] && g.BBox[2] == opts.BBox[2] && g.BBox[3] == opts.BBox[3])
	return r, err
}

// sp_sameImage: the same picture, placed the same way.
//
// @ merge
func sp_sameImage(a, b cacheContentImage) bool {
	return a.index == b.index && a.x == b.x && a.y == b.y && a.pageHeight == b.pageHeight && a.rect.W == b.rect.W && a.rect.H == b.rect.H && a.crop == b.crop &&
		a.withMask == b.withMask && a.maskAngle == b.maskAngle && a.imageAngle == b.imageAngle && a.verticalFlip == b.verticalFlip && a.horizontalFlip == b.horizontalFlip &&
		sp_sameInts(a.extGStateIndexes, b.extGStateIndexes)
}

// @ contract (*GoPdf).createTransparencyXObjectGroup props=C03,C05,C14
func vc_createTransparencyXObjectGroup(gp *GoPdf, image *cacheContentImage, opts MaskOptions) (int, error) {
	v_requires(gp != nil && image != nil && gp.curr.pageSize != nil && sp_procsetOK(gp) && sp_gsMapOK(gp) && sp_smaskMapOK(gp))
	before := v_snapObjs(gp.pdfObjs)
	n := len(before)
	pr := gp.pdfObjs[gp.indexOfProcSet].(*ProcSetObj)
	prot := gp.pdfProtection
	c := sp_contentOK(gp)
	v_modifies(&gp.pdfObjs, &pr.ExtGStates, gp.curr.extGStatesMap.table, gp.curr.sMasksMap.table)
	r, err := gp.createTransparencyXObjectGroup(image, opts)
	objs := gp.pdfObjs
	v_ensures("C03.mask-objects-kept", err == nil && len(objs) > n && sp_kept(objs, before))
	g, ok := objs[n].(TransparencyXObjectGroup)
	v_ensures("C03.mask-group", ok && len(g.XObjects) == 1)
	v_ensures("C14.mask-image", sp_sameImage(g.XObjects[0], *image))
	v_ensures("C05.mask-group-secured", g.pdfProtection == prot)
	v_ensures("C03.mask-state", sp_masksGroup(gp, r-1, n))
	v_ensures("C03.content-kept", !c || sp_contentOK(gp))
	v_ensures("C03.mask-caches-sound", sp_procsetOK(gp) && sp_gsMapOK(gp) && sp_smaskMapOK(gp))
	return r, err
}
