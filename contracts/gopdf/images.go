package gopdf

import (
	"bytes"
	"io"
)

// C03, C05, C13, C14: pictures are registered once, with the objects they
// refer to, and placed as asked for.

// @ uf sp_idOf

// sp_idOf: what identifies the picture of a caller's own holder.
func sp_idOf(h ImageHolder) string { return h.ID() }

// @ merge
func sp_imgID(h ImageHolder) string {
	if b, ok := h.(*imageBuff); ok {
		return b.id
	}
	return sp_idOf(h)
}

// @ merge
func sp_holder(h ImageHolder) bool {
	if h == nil {
		return false
	}
	b, ok := h.(*imageBuff)
	return !ok || b != nil
}

// @ interface ImageHolder.ID props=C03
func vi_ImageHolder_ID(h ImageHolder) string {
	v_requires(sp_holder(h))
	r := h.ID()
	v_ensures("C03.id", r == sp_imgID(h))
	return r
}

// @ contract (*ImageObj).SetImage props=C13
func vc_ImageObj_SetImage(i *ImageObj, r io.Reader) error {
	v_requires(i != nil && r != nil)
	v_modifies(&i.rawImgReader)
	err := i.SetImage(r)
	v_ensures("C13.data-kept-for-parsing", err != nil || i.rawImgReader != nil)
	return err
}

// sp_image: a picture is registered under number i+1.
//
// @ merge
func sp_imageAt(objs []IObj, i int) bool {
	if i < 0 || i >= len(objs) || objs[i] == nil {
		return false
	}
	m, ok := objs[i].(*ImageObj)
	return ok && m != nil
}

// sp_drawnAs: it can be drawn this way: as a mask, or with or without a mask
// of its own.
//
// @ merge
func sp_drawnAs(m *ImageObj, isMask, split bool) bool {
	return m.IsMask == isMask && (m.SplittedMask == split || len(m.imginfo.smask) == 0 && len(m.imginfo.trns) == 0)
}

// @ contract (*GoPdf).isImageObjFor props=C03
func vc_isImageObjFor(gp *GoPdf, index int, isMask, splittedMask bool) bool {
	v_requires(gp != nil && sp_imageAt(gp.pdfObjs, index))
	m := gp.pdfObjs[index].(*ImageObj)
	r := gp.isImageObjFor(index, isMask, splittedMask)
	v_ensures("C03.image-of-that-use", v_iff(r, sp_drawnAs(m, isMask, splittedMask)))
	return r
}

// sp_imgsOK: every remembered picture is registered and has a size.
func sp_imgsOK(gp *GoPdf) bool {
	t := gp.curr.ImgCaches
	return t != nil && v_forallInt(func(k int) bool {
		c, in := t[k]
		return !in || c.Index == k && c.Rect != nil && sp_imageAt(gp.pdfObjs, k)
	})
}

// @ contract (*ImageObj).getRect props=C13
func vc_ImageObj_getRect(i *ImageObj) (*Rect, error) {
	v_requires(i != nil && i.rawImgReader != nil)
	v_modAll("rd.pos")
	v_freshResult(0)
	r, err := i.getRect()
	v_ensures("C13.size-or-error", v_iff(err == nil, r != nil))
	return r, err
}

// @ contract parseImg props=C13 assumed=1
func vc_parseImg(raw *bytes.Reader) (imgInfo, error) {
	v_requires(raw != nil)
	v_modAll("rd.pos")
	r, err := parseImg(raw)
	return r, err
}

// @ contract (*ImageObj).parse props=C13
func vc_ImageObj_parse(i *ImageObj) error {
	v_requires(i != nil && i.rawImgReader != nil)
	v_modifies(&i.imginfo)
	v_modAll("rd.pos")
	err := i.parse()
	return err
}

// sp_sizeOf: the size of a picture as asked for; its own when none was given.
//
// @ merge
func sp_rectIs(r Rect, asked *Rect) bool {
	return asked == nil || r.W == asked.W && r.H == asked.H
}

// sp_placedImage: the element draws the picture with these options.
//
// @ merge
func sp_placedImage(e *cacheContentImage, o ImageOptions, h float64) bool {
	return e.x == o.X && e.y == o.Y && e.pageHeight == h && e.crop == o.Crop && e.verticalFlip == o.VerticalFlip && e.horizontalFlip == o.HorizontalFlip &&
		e.imageAngle == o.DegreeAngle && e.withMask == (o.Mask != nil) && sp_sameInts(e.extGStateIndexes, o.extGStateIndexes)
}

// sp_smaskOf: the soft mask of a picture is the object it names.
func sp_smaskOf(objs []IObj, m *ImageObj) bool {
	i := m.imginfo.smarkObjID
	if i < 0 || i >= len(objs) {
		return false
	}
	s, ok := objs[i].(*SMask)
	return ok && s != nil && string(s.data) == string(m.imginfo.smask) && s.w == m.imginfo.w && s.h == m.imginfo.h
}

func sp_smaskSecured(objs []IObj, m *ImageObj, p *PDFProtection) bool {
	s := objs[m.imginfo.smarkObjID].(*SMask)
	return s.pdfProtection == p
}

// sp_paletteOf: the palette of a picture is the object it names.
func sp_paletteOf(objs []IObj, m *ImageObj) bool {
	i := m.imginfo.deviceRGBObjID
	if i < 0 || i >= len(objs) {
		return false
	}
	d, ok := objs[i].(*DeviceRGBObj)
	return ok && d != nil && string(d.data) == string(m.imginfo.pal)
}

// @ contract (*GoPdf).imageByHolder props=C03,C05,C13,C14 timeout=600
func vc_imageByHolder(gp *GoPdf, img ImageHolder, opts ImageOptions) error {
	v_requires(sp_canDraw(gp) && sp_procsetOK(gp) && sp_imgsOK(gp) && sp_holder(img))
	var page *ContentObj
	if gp.indexOfContent >= 0 {
		page = gp.pdfObjs[gp.indexOfContent].(*ContentObj)
	}
	objs := v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	n := len(objs)
	h := gp.curr.pageSize.H
	pr := gp.pdfObjs[gp.indexOfProcSet].(*ProcSetObj)
	xs := v_snapXobjs(pr.RelateXobjs)
	id := sp_imgID(img)
	split := opts.Mask != nil
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&gp.pdfObjs, &gp.indexOfContent, &pr.RelateXobjs, &gp.curr.CountOfImg, gp.curr.ImgCaches)
	v_modAll("rd.pos")
	err := gp.imageByHolder(img, opts)
	now := gp.pdfObjs
	v_ensures("C03.refused-registers-nothing", err == nil || len(now) == n)
	if err == nil {
		c := page
		if page == nil {
			c = sp_page(gp)
		}
		v_ensures("C14.current-page", sp_contentOK(gp) && c != nil && gp.indexOfContent >= 0)
		v_ensures("C14.same-page", gp.pdfObjs[gp.indexOfContent] == IObj(c))
		l := c.listCache.caches
		v_ensures("C14.one-element", len(l) == len(before)+1)
		v_ensures("C14.elements-kept", v_forall(0, len(before), func(j int) bool { return l[j] == before[j] }))
		v_ensures("C03.objects-kept", sp_kept(gp.pdfObjs, objs))
		e, okE := l[len(before)].(*cacheContentImage)
		v_ensures("C14.picture", okE)
		v_ensures("C14.placed", sp_placedImage(e, opts, h))
		v_ensures("C06+C14.size", sp_rectIs(e.rect, opts.Rect))
		v_ensures("C03.picture-registered", sp_imageAt(now, e.index))
		m := now[e.index].(*ImageObj)
		v_ensures("C03.picture-of-that-use", sp_drawnAs(m, false, split))
		v_ensures("C03.picture-of-that-name", gp.curr.ImgCaches[e.index].Path == id)
		isNew := e.index >= n
		v_ensures("C03.new-picture-in-resources", !isNew || len(pr.RelateXobjs) == len(xs)+1 && pr.RelateXobjs[len(xs)].IndexOfObj == e.index)
		v_ensures("C03.known-picture-shared", isNew || page == nil || len(now) == n && len(pr.RelateXobjs) == len(xs))
		v_ensures("C05.picture-secured", !isNew || m.pdfProtection == gp.pdfProtection)
		hasMask := sp_both(isNew, len(m.imginfo.smask) > 0)
		v_ensures("C03+C13.alpha-channel", !hasMask || sp_smaskOf(now, m))
		v_ensures("C05.alpha-channel-secured", !hasMask || sp_smaskSecured(now, m, gp.pdfProtection))
		indexed := sp_both(isNew, m.imginfo.colspace == "Indexed")
		v_ensures("C03+C13.palette", !indexed || sp_paletteOf(now, m))
	}
	v_ensures("C03.pictures-known", sp_procsetOK(gp) && sp_imgsOK(gp))
	return err
}

// @ loop (*GoPdf).imageByHolder 0
func vl_imageByHolder(cacheImageIndex int) {
	v_inv(cacheImageIndex == -1)
}

// @ contract (*GoPdf).maskHolder props=C03,C05,C14 timeout=600
func vc_maskHolder(gp *GoPdf, img ImageHolder, opts MaskOptions) (int, error) {
	v_requires(sp_canDraw(gp) && sp_procsetOK(gp) && sp_imgsOK(gp) && sp_gsMapOK(gp) && sp_smaskMapOK(gp) && sp_holder(img))
	objs := v_snapObjs(gp.pdfObjs)
	n := len(objs)
	h := gp.curr.pageSize.H
	pr := gp.pdfObjs[gp.indexOfProcSet].(*ProcSetObj)
	id := sp_imgID(img)
	v_modifies(&gp.pdfObjs, &gp.indexOfContent, &pr.RelateXobjs, &pr.ExtGStates, &gp.curr.CountOfImg, gp.curr.ImgCaches, gp.curr.extGStatesMap.table, gp.curr.sMasksMap.table)
	v_modAll("rd.pos")
	r, err := gp.maskHolder(img, opts)
	now := gp.pdfObjs
	v_ensures("C03.objects-kept", sp_kept(now, objs))
	if err == nil {
		g := sp_groupOf(gp, r-1)
		v_ensures("C03.mask-state", g >= n && sp_masksGroup(gp, r-1, g))
		t, okT := now[g].(TransparencyXObjectGroup)
		v_ensures("C03.mask-group", okT && len(t.XObjects) == 1)
		v_ensures("C05.mask-group-secured", t.pdfProtection == gp.pdfProtection)
		v_ensures("C14.mask-placed", sp_placedImage(&t.XObjects[0], opts.ImageOptions, h))
		v_ensures("C06+C14.mask-size", sp_rectIs(t.XObjects[0].rect, opts.Rect))
		k := t.XObjects[0].index
		v_ensures("C03.mask-picture-registered", sp_imageAt(now, k))
		m := now[k].(*ImageObj)
		v_ensures("C03.mask-picture-of-that-use", sp_drawnAs(m, true, false))
		v_ensures("C03.mask-picture-of-that-name", gp.curr.ImgCaches[k].Path == id)
		v_ensures("C05.mask-picture-secured", k < n || m.pdfProtection == gp.pdfProtection)
	}
	v_ensures("C03.pictures-known", sp_procsetOK(gp) && sp_imgsOK(gp) && sp_gsMapOK(gp) && sp_smaskMapOK(gp) && sp_contentOK(gp))
	return r, err
}

// sp_groupOf: the group whose soft mask the state under number i+1 applies.
//
// @ merge
func sp_groupOf(gp *GoPdf, i int) int {
	if i < 0 || i >= len(gp.pdfObjs) {
		return 0
	}
	e, ok := gp.pdfObjs[i].(ExtGState)
	if !ok || e.SMaskIndex == nil {
		return 0
	}
	return sp_maskedGroup(gp.pdfObjs, *e.SMaskIndex)
}

// @ loop (*GoPdf).maskHolder 0
func vl_maskHolder(cacheImage *ImageCache) {
	v_inv(cacheImage == nil)
}

// sp_imageIn: where and how big, in points, a picture asked for at x, y is.
//
// @ merge
func sp_imageIn(e *cacheContentImage, x, y, f, h float64) bool {
	return v_eqF(e.x, x*f) && v_eqF(e.y, y*f) && e.pageHeight == h
}

// @ check (*GoPdf).ImageByHolder props=C06,C14,C18
func vc_ImageByHolder(gp *GoPdf, img ImageHolder, x, y float64, rect *Rect) error {
	v_requires(sp_canDraw(gp) && sp_procsetOK(gp) && sp_imgsOK(gp) && sp_holder(img))
	var page *ContentObj
	if gp.indexOfContent >= 0 {
		page = gp.pdfObjs[gp.indexOfContent].(*ContentObj)
	}
	objs := v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	h, f := gp.curr.pageSize.H, sp_docFactor(gp)
	pr := gp.pdfObjs[gp.indexOfProcSet].(*ProcSetObj)
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&gp.pdfObjs, &gp.indexOfContent, &pr.RelateXobjs, &gp.curr.CountOfImg, gp.curr.ImgCaches)
	v_modAll("rd.pos")
	err := gp.ImageByHolder(img, x, y, rect)
	if err == nil {
		c := page
		if page == nil {
			c = sp_page(gp)
		}
		v_ensures("C14.current-page", sp_contentOK(gp) && c != nil && gp.indexOfContent >= 0)
		v_ensures("C14.same-page", gp.pdfObjs[gp.indexOfContent] == IObj(c))
		l := c.listCache.caches
		v_ensures("C14.one-element", len(l) == len(before)+1)
		v_ensures("C14.elements-kept", v_forall(0, len(before), func(j int) bool { return l[j] == before[j] }))
		v_ensures("C03.objects-kept", sp_kept(gp.pdfObjs, objs))
		e, okE := l[len(before)].(*cacheContentImage)
		v_ensures("C06+C14.placed", okE && sp_imageIn(e, x, y, f, h))
		v_ensures("C14.whole-and-upright", e.crop == nil && !e.verticalFlip && !e.horizontalFlip && e.imageAngle == 0 && !e.withMask)
		v_ensures("C18.transparency", sp_current(gp, e.extGStateIndexes))
		if rect != nil {
			g := sp_boxFactor(rect.unitOverride, gp.config.Unit, gp.config.ConversionForUnit)
			v_ensures("C06+C14.size", v_eqF(e.rect.W, rect.W*g) && v_eqF(e.rect.H, rect.H*g))
		}
	}
	v_ensures("C03.pictures-known", sp_procsetOK(gp) && sp_imgsOK(gp))
	return err
}

// @ check (*GoPdf).Image props=C06,C14,C18
func vc_Image(gp *GoPdf, picPath string, x, y float64, rect *Rect) error {
	v_requires(sp_canDraw(gp) && sp_procsetOK(gp) && sp_imgsOK(gp))
	var page *ContentObj
	if gp.indexOfContent >= 0 {
		page = gp.pdfObjs[gp.indexOfContent].(*ContentObj)
	}
	objs := v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	h, f := gp.curr.pageSize.H, sp_docFactor(gp)
	pr := gp.pdfObjs[gp.indexOfProcSet].(*ProcSetObj)
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&gp.pdfObjs, &gp.indexOfContent, &pr.RelateXobjs, &gp.curr.CountOfImg, gp.curr.ImgCaches)
	v_modAll("rd.pos")
	err := gp.Image(picPath, x, y, rect)
	if err == nil {
		c := page
		if page == nil {
			c = sp_page(gp)
		}
		v_ensures("C14.current-page", sp_contentOK(gp) && c != nil && gp.indexOfContent >= 0)
		v_ensures("C14.same-page", gp.pdfObjs[gp.indexOfContent] == IObj(c))
		l := c.listCache.caches
		v_ensures("C14.one-element", len(l) == len(before)+1)
		v_ensures("C14.elements-kept", v_forall(0, len(before), func(j int) bool { return l[j] == before[j] }))
		v_ensures("C03.objects-kept", sp_kept(gp.pdfObjs, objs))
		e, okE := l[len(before)].(*cacheContentImage)
		v_ensures("C06+C14.placed", okE && sp_imageIn(e, x, y, f, h))
		v_ensures("C14.whole-and-upright", e.crop == nil && !e.verticalFlip && !e.horizontalFlip && e.imageAngle == 0 && !e.withMask)
		v_ensures("C18.transparency", sp_current(gp, e.extGStateIndexes))
		if rect != nil {
			g := sp_boxFactor(rect.unitOverride, gp.config.Unit, gp.config.ConversionForUnit)
			v_ensures("C06+C14.size", v_eqF(e.rect.W, rect.W*g) && v_eqF(e.rect.H, rect.H*g))
		}
	}
	v_ensures("C03.pictures-known", sp_procsetOK(gp) && sp_imgsOK(gp))
	return err
}

// @ check (*GoPdf).ImageByHolderWithOptions props=C06,C14,C18 timeout=600
func vc_ImageByHolderWithOptions(gp *GoPdf, img ImageHolder, opts ImageOptions) error {
	v_requires(sp_canDraw(gp) && sp_procsetOK(gp) && sp_imgsOK(gp) && sp_holder(img))
	v_requires(len(opts.extGStateIndexes) == 0 && opts.Mask == nil && opts.Transparency == nil)
	var page *ContentObj
	if gp.indexOfContent >= 0 {
		page = gp.pdfObjs[gp.indexOfContent].(*ContentObj)
	}
	objs := v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	h, f := gp.curr.pageSize.H, sp_docFactor(gp)
	pr := gp.pdfObjs[gp.indexOfProcSet].(*ProcSetObj)
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&gp.pdfObjs, &gp.indexOfContent, &pr.RelateXobjs, &gp.curr.CountOfImg, gp.curr.ImgCaches)
	v_modAll("rd.pos")
	err := gp.ImageByHolderWithOptions(img, opts)
	if err == nil {
		c := page
		if page == nil {
			c = sp_page(gp)
		}
		v_ensures("C14.current-page", sp_contentOK(gp) && c != nil && gp.indexOfContent >= 0)
		v_ensures("C14.same-page", gp.pdfObjs[gp.indexOfContent] == IObj(c))
		l := c.listCache.caches
		v_ensures("C14.one-element", len(l) == len(before)+1)
		v_ensures("C14.elements-kept", v_forall(0, len(before), func(j int) bool { return l[j] == before[j] }))
		v_ensures("C03.objects-kept", sp_kept(gp.pdfObjs, objs))
		e, okE := l[len(before)].(*cacheContentImage)
		v_ensures("C06+C14.placed", okE && sp_imageIn(e, opts.X, opts.Y, f, h))
		v_ensures("C14.flips", e.verticalFlip == opts.VerticalFlip && e.horizontalFlip == opts.HorizontalFlip && e.imageAngle == opts.DegreeAngle && !e.withMask)
		if opts.Rect != nil {
			g := sp_boxFactor(opts.Rect.unitOverride, gp.config.Unit, gp.config.ConversionForUnit)
			v_ensures("C06+C14.size", v_eqF(e.rect.W, opts.Rect.W*g) && v_eqF(e.rect.H, opts.Rect.H*g))
		}
		v_ensures("C06+C14.crop", sp_cropIs(e.crop, opts.Crop, f))
		gs := e.extGStateIndexes
		v_ensures("C18.current-transparency", sp_current(gp, gs))
	}
	v_ensures("C03.pictures-known", sp_procsetOK(gp) && sp_imgsOK(gp))
	return err
}

// @ check (*GoPdf).ImageByHolderWithOptions props=C18 timeout=600
func vc_ImageByHolderWithOptions_transparency(gp *GoPdf, img ImageHolder, opts ImageOptions) error {
	v_requires(sp_canDraw(gp) && sp_procsetOK(gp) && sp_imgsOK(gp) && sp_holder(img) && sp_transOK(gp) && sp_smaskMapOK(gp))
	v_requires(len(opts.extGStateIndexes) == 0 && opts.Mask == nil && opts.Transparency != nil && opts.Rect == nil && opts.Crop == nil)
	var page *ContentObj
	if gp.indexOfContent >= 0 {
		page = gp.pdfObjs[gp.indexOfContent].(*ContentObj)
	}
	objs := v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	pr := gp.pdfObjs[gp.indexOfProcSet].(*ProcSetObj)
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&gp.pdfObjs, &gp.indexOfContent, &pr.RelateXobjs, &gp.curr.CountOfImg, gp.curr.ImgCaches, &pr.ExtGStates, gp.curr.extGStatesMap.table, gp.curr.transparencyMap.table)
	v_modAll("rd.pos")
	err := gp.ImageByHolderWithOptions(img, opts)
	if err == nil {
		c := page
		if page == nil {
			c = sp_page(gp)
		}
		v_ensures("C14.current-page", sp_contentOK(gp) && c != nil && gp.indexOfContent >= 0)
		v_ensures("C14.same-page", gp.pdfObjs[gp.indexOfContent] == IObj(c))
		l := c.listCache.caches
		v_ensures("C14.one-element", len(l) == len(before)+1)
		v_ensures("C14.elements-kept", v_forall(0, len(before), func(j int) bool { return l[j] == before[j] }))
		v_ensures("C03.objects-kept", sp_kept(gp.pdfObjs, objs))
		e, okE := l[len(before)].(*cacheContentImage)
		v_ensures("C18.picture", okE)
		gs := e.extGStateIndexes
		alpha, mode := opts.Transparency.Alpha, sp_modeOf(opts.Transparency.BlendModeType)
		v_ensures("C18.own-transparency", len(gs) == 0 && alpha == 1 && mode == "/Normal" || len(gs) == 1 && sp_gsAt(gp, gs[0]-1, sp_stateId(alpha, mode)))
	}
	v_ensures("C03.pictures-known", sp_procsetOK(gp) && sp_imgsOK(gp))
	return err
}

// @ merge
func sp_cropIs(c, o *CropOptions, f float64) bool {
	if o == nil {
		return c == nil
	}
	return c != nil && v_eqF(c.X, o.X*f) && v_eqF(c.Y, o.Y*f) && v_eqF(c.Width, o.Width*f) && v_eqF(c.Height, o.Height*f)
}

// @ merge
func sp_both(a, b bool) bool { return a && b }
