package gopdf

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
	"strings"
	"unicode/utf16"
)

// C02, C03, C04, C05, C10, C13, C15, C16, C17, C18: what each object of the
// file writes between "N 0 obj" and "endobj".

//@ opaque sp_fontRefs sp_csRefs sp_xobjRefs sp_gsRefs sp_annotRefs sp_widths sp_images sp_maskRanges

// sp_sealed: the bytes of a stream, encrypted under the object's key when the
// document is protected.
// @ merge
func sp_sealed(p *PDFProtection, objID int, data string) string {
	if p == nil {
		return data
	}
	return v_rc4(sp_objectKey(string(p.encryptionKey), objID), data)
}

// sp_objectKey: the first ten bytes of the MD5 of the file key, the low three
// bytes of the object number and two bytes of generation number.
func sp_objectKey(fileKey string, objID int) string {
	n := uint32(objID)
	return v_md5(fileKey + string([]byte{byte(n), byte(n >> 8), byte(n >> 16), 0, 0}))[0:10]
}

// @ contract (*PDFProtection).objectkey props=C05
func vc_objectkey(p *PDFProtection, n int) []byte {
	v_requires(p != nil && len(p.encryptionKey) == 5 && cap(p.encryptionKey) == 5 && 0 <= n && n < 1<<31)
	v_freshResult(0)
	r := p.objectkey(n)
	v_ensures("C05.object-key", len(r) == 10 && string(r) == sp_objectKey(string(p.encryptionKey), n))
	return r
}

// @ contract rc4Cip props=C05
func vc_rc4Cip(key []byte, src []byte) ([]byte, error) {
	v_requires(len(key) >= 1 && len(key) <= 256)
	v_freshResult(0)
	r, err := rc4Cip(key, src)
	v_ensures("C05.rc4", err == nil && len(r) == len(src) && string(r) == v_rc4(string(key), string(src)))
	return r, err
}

// @ contract (*CatalogObj).write props=C03,C17
func vc_CatalogObj_write(c *CatalogObj, w io.Writer, objID int) error {
	v_requires(c != nil && w != nil)
	before := v_out(w)
	v_modOut(w)
	err := c.write(w, objID)
	v_ensures("C03+C17.catalog", v_failed(w) || err == nil && v_eqText(v_out(w), before+"<<\n  /Type /Catalog\n  /Pages 2 0 R\n"+
		sp_when(c.outlinesObjID >= 0, fmt.Sprintf("  /PageMode /UseOutlines\n  /Outlines %d 0 R\n", c.outlinesObjID))+">>\n"))
	return err
}

// @ contract (*PagesObj).write props=C02
func vc_PagesObj_write(p *PagesObj, w io.Writer, objID int) error {
	v_requires(p != nil && w != nil && p.getRoot != nil && p.getRoot() != nil)
	before := v_out(w)
	v_modOut(w)
	err := p.write(w, objID)
	size := p.getRoot().config.PageSize
	v_ensures("C02.page-tree", v_failed(w) || err == nil && v_eqText(v_out(w), before+
		fmt.Sprintf("<<\n  /Type /Pages\n  /MediaBox [ 0 0 %0.2f %0.2f ]\n  /Count %d\n  /Kids [ %s ]\n>>\n", size.W, size.H, p.PageCount, p.Kids)))
	return err
}

func sp_annotRefs(ids []int, n int) string {
	if n <= 0 {
		return ""
	}
	return sp_annotRefs(ids, n-1) + fmt.Sprintf("%d 0 R ", ids[n-1])
}

// @ merge
func sp_pageSize(o PageOption) string {
	if o.PageSize == nil {
		return ""
	}
	return fmt.Sprintf(" /MediaBox [ 0 0 %0.2f %0.2f ]\n", o.PageSize.W, o.PageSize.H)
}

// @ merge
func sp_trimBox(o PageOption) string {
	if o.TrimBox == nil || o.TrimBox.Top == 0 && o.TrimBox.Left == 0 && o.TrimBox.Bottom == 0 && o.TrimBox.Right == 0 {
		return ""
	}
	return fmt.Sprintf(" /TrimBox [ %0.2f %0.2f %0.2f %0.2f ]\n", o.TrimBox.Left, o.TrimBox.Top, o.TrimBox.Right, o.TrimBox.Bottom)
}

// @ contract (*PageObj).write props=C02,C16
func vc_PageObj_write(p *PageObj, w io.Writer, objID int) error {
	v_requires(p != nil && w != nil)
	before := v_out(w)
	v_modOut(w)
	err := p.write(w, objID)
	v_ensures("C02+C16.page", v_failed(w) || err == nil && v_eqText(v_out(w), before+"<<\n  /Type /Page\n  /Parent 2 0 R\n"+
		"  /Resources "+p.ResourcesRelate+"\n"+
		sp_when(len(p.LinkObjIds) > 0, "  /Annots ["+sp_annotRefs(p.LinkObjIds, len(p.LinkObjIds))+"]\n")+
		sp_when(p.Contents != "", "  /Contents "+p.Contents+"\n")+
		sp_pageSize(p.pageOption)+sp_trimBox(p.pageOption)+">>\n"))
	return err
}

// @ loop (*PageObj).write 0
func vl_PageObj_write(p *PageObj, w io.Writer, iter_ int) {
	v_inv(v_failed(w) || v_out(w) == v_entryStr(func() string { return v_out(w) })+sp_annotRefs(p.LinkObjIds, iter_))
}

// @ merge
func sp_contentData(level int, text string) string {
	if level == zlib.NoCompression {
		return text
	}
	return v_deflate(level, text)
}

func sp_contentReady(c *ContentObj) bool {
	return c.getRoot != nil && c.getRoot() != nil && sp_levelOK(c.getRoot().compressLevel) && sp_protOK(c.getRoot().pdfProtection) && sp_elements(&c.listCache)
}

func sp_levelOK(level int) bool { return level >= zlib.HuffmanOnly && level <= zlib.BestCompression }

// sp_protOK: the file key has been set up.
// @ merge
func sp_protOK(p *PDFProtection) bool {
	return p == nil || len(p.encryptionKey) == 5 && cap(p.encryptionKey) == 5
}

// @ contract (*ContentObj).write props=C04,C05
func vc_ContentObj_write(c *ContentObj, w io.Writer, objID int) error {
	v_requires(c != nil && w != nil && 0 <= objID && objID < 1<<31 && sp_contentReady(c))
	gp := c.getRoot()
	data := sp_contentData(gp.compressLevel, sp_contents(c.listCache.caches, len(c.listCache.caches)))
	before := v_out(w)
	v_modOut(w)
	err := c.write(w, objID)
	v_ensures("C04+C05.content-stream", v_failed(w) || err == nil && v_eqText(v_out(w), before+"<<\n"+
		sp_when(gp.compressLevel != 0, "/Filter/FlateDecode")+fmt.Sprintf("/Length %d\n>>\nstream\n", len(data))+
		sp_sealed(gp.pdfProtection, objID, data)+sp_when(gp.pdfProtection != nil || gp.compressLevel != 0, "\n")+"endstream\n"))
	return err
}

func sp_fontRefs(r RelateFonts, n int) string {
	if n <= 0 {
		return ""
	}
	return sp_fontRefs(r, n-1) + fmt.Sprintf("\t\t/F%d %d 0 R\n", r[n-1].CountOfFont+1, r[n-1].IndexOfObj+1)
}

func sp_csRefs(r RelateColorSpaces, n int) string {
	if n <= 0 {
		return ""
	}
	return sp_csRefs(r, n-1) + fmt.Sprintf("\t\t/CS%d %d 0 R\n", r[n-1].CountOfColorSpace+1, r[n-1].IndexOfObj+1)
}

func sp_xobjRefs(r RelateXobjects, n int) string {
	if n <= 0 {
		return ""
	}
	return sp_xobjRefs(r, n-1) + fmt.Sprintf("\t\t/I%d %d 0 R\n", r[n-1].IndexOfObj+1, r[n-1].IndexOfObj+1)
}

func sp_gsRefs(r []ExtGS, n int) string {
	if n <= 0 {
		return ""
	}
	return sp_gsRefs(r, n-1) + fmt.Sprintf("\t\t/GS%d %d 0 R\n", r[n-1].Index+1, r[n-1].Index+1)
}

func sp_resources1(pr *ProcSetObj) string {
	return "<<\n\t/ProcSet [/PDF /Text /ImageB /ImageC /ImageI]\n\t/Font <<\n" + sp_fontRefs(pr.Relates, len(pr.Relates)) +
		"\t>>\n\t/ColorSpace <<\n" + sp_csRefs(pr.RelateColorSpaces, len(pr.RelateColorSpaces)) +
		"\t>>\n\t/XObject <<\n" + sp_xobjRefs(pr.RelateXobjs, len(pr.RelateXobjs))
}

func sp_resources2(pr *ProcSetObj) string {
	return "\t>>\n\t/ExtGState <<\n" + sp_gsRefs(pr.ExtGStates, len(pr.ExtGStates)) + "\t>>\n>>\n"
}

// The names of imported templates stand between the two parts.
// @ contract (*ProcSetObj).write props=C03,C15,C18
func vc_ProcSetObj_write(pr *ProcSetObj, w io.Writer, objID int) error {
	v_requires(pr != nil && w != nil)
	before := v_out(w)
	v_modOut(w)
	err := pr.write(w, objID)
	v_ensures("C03+C15+C18.resources", v_failed(w) || err == nil && v_eqText(v_out(w), before+sp_resources1(pr)+v_some(1)+sp_resources2(pr)))
	return err
}

// @ loop (*ProcSetObj).write 0
func vl_ProcSet0(pr *ProcSetObj, fonts, entry_fonts string, iter_ int) {
	v_inv(fonts == entry_fonts+sp_fontRefs(pr.Relates, iter_))
}

// @ loop (*ProcSetObj).write 1
func vl_ProcSet1(pr *ProcSetObj, colorSpaces, entry_colorSpaces string, iter_ int) {
	v_inv(colorSpaces == entry_colorSpaces+sp_csRefs(pr.RelateColorSpaces, iter_))
}

// @ loop (*ProcSetObj).write 2
func vl_ProcSet2(pr *ProcSetObj, xobjects, entry_xobjects string, iter_ int) {
	v_inv(xobjects == entry_xobjects+sp_xobjRefs(pr.RelateXobjs, iter_))
}

// @ loop (*ProcSetObj).write 4
func vl_ProcSet4(pr *ProcSetObj, xobjects string, iter_ int) {
	v_inv(v_extends(xobjects, "\t/XObject <<\n"+sp_xobjRefs(pr.RelateXobjs, len(pr.RelateXobjs))))
}

// @ loop (*ProcSetObj).write 5
func vl_ProcSet5(pr *ProcSetObj, extGStates, entry_extGStates string, iter_ int) {
	v_inv(extGStates == entry_extGStates+sp_gsRefs(pr.ExtGStates, iter_))
}

// @ contract (*OutlinesObj).write props=C17
func vc_OutlinesObj_write(o *OutlinesObj, w io.Writer, objID int) error {
	v_requires(o != nil && w != nil)
	before := v_out(w)
	v_modOut(w)
	err := o.write(w, objID)
	v_ensures("C17.outlines", v_failed(w) || err == nil && v_eqText(v_out(w), before+fmt.Sprintf("<<\n\t/Type /Outlines\n\t/Count %d\n", o.count)+
		sp_when(o.first >= 0, fmt.Sprintf("\t/First %d 0 R\n", o.first))+sp_when(o.last >= 0, fmt.Sprintf("\t/Last %d 0 R\n", o.last))+">>\n"))
	return err
}

// @ contract (*OutlineObj).write props=C17
func vc_OutlineObj_write(o *OutlineObj, w io.Writer, objID int) error {
	v_requires(o != nil && w != nil)
	before := v_out(w)
	v_modOut(w)
	err := o.write(w, objID)
	v_ensures("C17.entry", v_failed(w) || err == nil && v_eqText(v_out(w), before+fmt.Sprintf("<<\n  /Parent %d 0 R\n", o.parent)+
		sp_when(o.prev >= 0, fmt.Sprintf("  /Prev %d 0 R\n", o.prev))+sp_when(o.next >= 0, fmt.Sprintf("  /Next %d 0 R\n", o.next))+
		sp_when(o.first > 0, fmt.Sprintf("  /First %d 0 R\n", o.first))+sp_when(o.last > 0, fmt.Sprintf("  /Last %d 0 R\n", o.last))+
		sp_when(o.count > 0, fmt.Sprintf("  /Count %d\n", o.count))+fmt.Sprintf("  /Dest [ %d 0 R /XYZ 90 %f 0 ]\n", o.dest, o.height)+"  /Title <FEFF"+encodeUtf8(o.title)+">\n>>\n"))
	return err
}

// sp_escaped: a text between parentheses.
func sp_escaped(s string) string {
	return strings.Replace(strings.Replace(strings.Replace(strings.Replace(s, "\\", "\\\\", -1), "(", "\\(", -1), ")", "\\)", -1), "\r", "\\r", -1)
}

func sp_annotRect(x, y, w, h float64) string {
	return fmt.Sprintf("<</Type /Annot /Subtype /Link /Rect [%.2f %.2f %.2f %.2f] /Border [0 0 0] ", x, y, x+w, y-h)
}

// @ merge
func sp_annot(o annotObj, objID int) string {
	if o.url != "" {
		return sp_annotRect(o.x, o.y, o.w, o.h) + "/A <</S /URI /URI (" + sp_escaped(sp_sealed(o.GetRoot().pdfProtection, objID, o.url)) + ")>>>>\n"
	}
	a, ok := o.GetRoot().anchors[o.anchor]
	if !ok {
		return fmt.Sprintf("<</Type /Annot /Subtype /Link /Rect [%.2f %.2f %.2f %.2f] /Border [0 0 0]>>\n", o.x, o.y, o.x+o.w, o.y-o.h)
	}
	return sp_annotRect(o.x, o.y, o.w, o.h) + fmt.Sprintf("/Dest [%d 0 R /XYZ 0 %.2f null]>>\n", a.page+1, a.y)
}

// @ contract (annotObj).write props=C16,C05
func vc_annotObj_write(o annotObj, w io.Writer, objID int) error {
	v_requires(w != nil && o.GetRoot != nil && o.GetRoot() != nil && sp_protOK(o.GetRoot().pdfProtection) && 0 <= objID && objID < 1<<31)
	before := v_out(w)
	v_modOut(w)
	err := o.write(w, objID)
	v_ensures("C16+C05.annotation", v_failed(w) || err == nil && v_eqText(v_out(w), before+sp_annot(o, objID)))
	return err
}

// @ contract (*EncryptionObj).write props=C05
func vc_EncryptionObj_write(e *EncryptionObj, w io.Writer, objID int) error {
	v_requires(e != nil && w != nil)
	before := v_out(w)
	v_modOut(w)
	err := e.write(w, objID)
	v_ensures("C05.encryption-dictionary", v_failed(w) || err == nil && v_eqText(v_out(w), before+"<<\n/Filter /Standard\n/V 1\n/R 2\n/O ("+
		sp_escaped(string(e.oValue))+")\n/U ("+sp_escaped(string(e.uValue))+fmt.Sprintf(")\n/P %d\n>>\n", e.pValue)))
	return err
}

// sp_fontOK: what reading a font file establishes.
func sp_fontOK(s *SubsetFontObj) bool {
	n := s.ttfp.NumberOfHMetrics()
	return s.ttfp.UnitsPerEm() > 0 && n > 0 && n <= uint(len(s.ttfp.Widths()))
}

// sp_pdfWidth: a glyph's advance in thousandths of the em; the last advance of
// the table stands for all glyphs beyond it.
// @ merge
func sp_pdfWidth(s *SubsetFontObj, g uint) uint {
	n := s.ttfp.NumberOfHMetrics()
	if g >= n {
		g = n - 1
	}
	return s.ttfp.Widths()[g] * 1000 / s.ttfp.UnitsPerEm()
}

// @ contract (*SubsetFontObj).GlyphIndexToPdfWidth props=C10,C07
func vc_GlyphIndexToPdfWidth(s *SubsetFontObj, g uint) uint {
	v_requires(s != nil && sp_fontOK(s))
	r := s.GlyphIndexToPdfWidth(g)
	v_ensures("C10+C07.advance", r == sp_pdfWidth(s, g))
	return r
}

func sp_widths(s *SubsetFontObj, gs []uint, n int) string {
	if n <= 0 {
		return ""
	}
	return sp_widths(s, gs, n-1) + fmt.Sprintf("%d[%d]", gs[n-1], sp_pdfWidth(s, gs[n-1]))
}

func sp_subsetName(family string) string {
	return strings.Replace(strings.Replace(family, " ", "+", -1), "/", "+", -1)
}

// @ contract (*CIDFontObj).write props=C10,C03
func vc_CIDFontObj_write(ci *CIDFontObj, w io.Writer, objID int) error {
	v_requires(ci != nil && w != nil && ci.PtrToSubsetFontObj != nil && sp_fontOK(ci.PtrToSubsetFontObj) && ci.PtrToSubsetFontObj.CharacterToGlyphIndex != nil)
	before := v_out(w)
	v_modOut(w)
	err := ci.write(w, objID)
	s := ci.PtrToSubsetFontObj
	gs := s.CharacterToGlyphIndex.Vals
	v_ensures("C10+C03.cid-font", v_failed(w) || err == nil && v_eqText(v_out(w), before+"<<\n/BaseFont /"+sp_subsetName(s.Family)+
		"\n/CIDSystemInfo\n<<\n  /Ordering (Identity)\n  /Registry (Adobe)\n  /Supplement 0\n>>\n"+
		fmt.Sprintf("/FontDescriptor %d 0 R\n", ci.indexObjSubfontDescriptor+1)+"/Subtype /CIDFontType2\n/Type /Font\n/W ["+
		sp_widths(s, gs, len(gs))+"]\n>>\n"))
	return err
}

// @ loop (*CIDFontObj).write 0
func vl_CIDFontObj_write(ci *CIDFontObj, w io.Writer, iter_ int) {
	v_inv(v_failed(w) || v_out(w) == v_entryStr(func() string { return v_out(w) })+sp_widths(ci.PtrToSubsetFontObj, ci.PtrToSubsetFontObj.CharacterToGlyphIndex.Vals, iter_))
}

// @ contract (*SubsetFontObj).write props=C03
func vc_SubsetFontObj_write(s *SubsetFontObj, w io.Writer, objID int) error {
	v_requires(s != nil && w != nil)
	before := v_out(w)
	v_modOut(w)
	err := s.write(w, objID)
	v_ensures("C03.font", v_failed(w) || err == nil && v_eqText(v_out(w), before+"<<\n/BaseFont /"+sp_subsetName(s.Family)+
		fmt.Sprintf("\n/DescendantFonts [%d 0 R]\n/Encoding /Identity-H\n/Subtype /Type0\n/ToUnicode %d 0 R\n/Type /Font\n>>\n", s.indexObjCIDFont+1, s.indexObjUnicodeMap+1)))
	return err
}

// @ contract (*SubfontDescriptorObj).write props=C03,C10
func vc_SubfontDescriptorObj_write(s *SubfontDescriptorObj, w io.Writer, objID int) error {
	v_requires(s != nil && w != nil && s.PtrToSubsetFontObj != nil)
	before := v_out(w)
	v_modOut(w)
	err := s.write(w, objID)
	t := s.PtrToSubsetFontObj.GetTTFParser()
	em := t.UnitsPerEm()
	v_ensures("C03+C10.font-descriptor", v_failed(w) || err == nil && v_eqText(v_out(w), before+"<<\n/Type /FontDescriptor\n"+
		fmt.Sprintf("/Ascent %d\n/CapHeight %d\n/Descent %d\n/Flags %d\n", DesignUnitsToPdf(t.Ascender(), em), DesignUnitsToPdf(t.CapHeight(), em), DesignUnitsToPdf(t.Descender(), em), t.Flag())+
		fmt.Sprintf("/FontBBox [%d %d %d %d]\n", DesignUnitsToPdf(t.XMin(), em), DesignUnitsToPdf(t.YMin(), em), DesignUnitsToPdf(t.XMax(), em), DesignUnitsToPdf(t.YMax(), em))+
		fmt.Sprintf("/FontFile2 %d 0 R\n", s.indexObjPdfDictionary+1)+"/FontName /"+sp_subsetName(s.PtrToSubsetFontObj.Family)+
		fmt.Sprintf("\n/ItalicAngle %d\n/StemV 0\n/XHeight %d\n>>\n", t.ItalicAngle(), DesignUnitsToPdf(t.XHeight(), em))))
	return err
}

// @ contract (*DeviceRGBObj).write props=C04,C05,C13
func vc_DeviceRGBObj_write(d *DeviceRGBObj, w io.Writer, objID int) error {
	v_requires(d != nil && w != nil && d.getRoot != nil && d.getRoot() != nil && sp_protOK(d.getRoot().pdfProtection) && 0 <= objID && objID < 1<<31)
	before := v_out(w)
	v_modOut(w)
	err := d.write(w, objID)
	p := d.getRoot().pdfProtection
	v_ensures("C04+C05+C13.palette-stream", v_failed(w) || err == nil && v_eqText(v_out(w), before+fmt.Sprintf("<<\n/Length %d\n>>\nstream\n", len(d.data))+
		sp_sealed(p, objID, string(d.data))+sp_when(p != nil, "\n")+"endstream\n"))
	return err
}

// @ merge
func sp_alphaEntry(name string, v *float64) string {
	if v == nil {
		return ""
	}
	return "\t/" + name + " " + fmt.Sprintf("%.3F\n", *v)
}

// @ merge
func sp_blendEntry(b *BlendModeType) string {
	if b == nil {
		return ""
	}
	return "\t/BM " + string(*b) + "\n"
}

// @ merge
func sp_maskEntry(i *int) string {
	if i == nil {
		return ""
	}
	return fmt.Sprintf("\t/SMask %d 0 R\n", *i+1)
}

// @ contract (ExtGState).write props=C18,C03
func vc_ExtGState_write(egs ExtGState, w io.Writer, objID int) error {
	v_requires(w != nil)
	before := v_out(w)
	v_modOut(w)
	err := egs.write(w, objID)
	v_ensures("C18+C03.graphics-state", v_failed(w) || err == nil && v_eqText(v_out(w), before+"<<\n\t/Type /ExtGState\n"+
		sp_alphaEntry("ca", egs.ca)+sp_alphaEntry("CA", egs.CA)+sp_blendEntry(egs.BM)+sp_maskEntry(egs.SMaskIndex)+">>\n"))
	return err
}

// @ contract (*ColorSpaceObj).write props=C15
func vc_ColorSpaceObj_write(cs *ColorSpaceObj, w io.Writer, objID int) error {
	v_requires(cs != nil && w != nil)
	before := v_out(w)
	v_modOut(w)
	err := cs.write(w, objID)
	v_ensures("C15.colour-space", v_failed(w) || err == nil && v_eqText(v_out(w), before+"[ /Separation "+cs.spaceName+" "+cs.space+
		"\n\t\t<< \n\t\t\t/FunctionType 2\n\t\t\t/Domain [0 1]\n\t\t\t/C0 ["+cs.colorString0+"]\n\t\t\t/C1 ["+cs.colorString1+"]\n\t\t\t/N 1\n\t\t>>\n]\n"))
	return err
}

// @ contract (*ImportedObj).write props=C03
func vc_ImportedObj_write(c *ImportedObj, w io.Writer, objID int) error {
	v_requires(c != nil && w != nil)
	before := v_out(w)
	v_modOut(w)
	err := c.write(w, objID)
	v_ensures("C03.imported-verbatim", v_failed(w) || err == nil && v_eqText(v_out(w), before+c.Data))
	return err
}

// sp_maskRanges: the colour-key mask, one range per component.
func sp_maskRanges(trns []byte, n int) string {
	if n <= 0 {
		return ""
	}
	return sp_maskRanges(trns, n-1) + fmt.Sprintf("\t\t%d \t\t%d ", trns[n-1], trns[n-1])
}

// @ merge
func sp_imageBase(i imgInfo, space string) string {
	cs := "\t/ColorSpace /" + space + "\n" + sp_when(i.colspace == "DeviceCMYK", "\t/Decode [1 0 1 0 1 0 1 0]\n")
	if i.colspace == "Indexed" {
		cs = fmt.Sprintf("\t/ColorSpace [/Indexed /DeviceRGB %d %d 0 R]\n", len(i.pal)/3-1, i.deviceRGBObjID+1)
	}
	return fmt.Sprintf("<<\n\t/Type /XObject\n\t/Subtype /Image\n\t/Width %d\n\t/Height %d\n", i.w, i.h) + cs +
		"\t/BitsPerComponent " + i.bitsPerComponent + "\n" + sp_when(strings.TrimSpace(i.filter) != "", "\t/Filter /"+i.filter+"\n")
}

// @ contract writeBaseImgProps props=C13
func vc_writeBaseImgProps(w io.Writer, imginfo imgInfo, colorSpace string) error {
	v_requires(w != nil)
	before := v_out(w)
	v_modOut(w)
	err := writeBaseImgProps(w, imginfo, colorSpace)
	v_ensures("C13.image-dictionary", v_failed(w) || err == nil && v_eqText(v_out(w), before+sp_imageBase(imginfo, colorSpace)))
	return err
}

func sp_imageProps(i imgInfo, split bool) string {
	return sp_imageBase(i, i.colspace) + sp_when(strings.TrimSpace(i.decodeParms) != "", "\t/DecodeParms <<"+i.decodeParms+">>\n") +
		sp_when(!split, sp_when(len(i.trns) > 0, "\t/Mask ["+sp_maskRanges(i.trns, len(i.trns))+"\t]\n")+
			sp_when(len(i.smask) > 0, fmt.Sprintf("\t/SMask %d 0 R\n", i.smarkObjID+1)))
}

// @ contract writeImgProps props=C13,C03
func vc_writeImgProps(w io.Writer, imginfo imgInfo, splittedMask bool) error {
	v_requires(w != nil)
	before := v_out(w)
	v_modOut(w)
	err := writeImgProps(w, imginfo, splittedMask)
	v_ensures("C13+C03.image-properties", v_failed(w) || err == nil && v_eqText(v_out(w), before+sp_imageProps(imginfo, splittedMask)))
	return err
}

// @ loop writeImgProps 0
func vl_writeImgProps(imginfo imgInfo, content, entry_content string, j int) {
	v_inv(0 <= j && j <= len(imginfo.trns))
	v_inv(content == entry_content+sp_maskRanges(imginfo.trns, j))
	v_decr(len(imginfo.trns) - j)
}

func sp_maskProps(i imgInfo) string {
	return sp_imageBase(i, "DeviceGray") + fmt.Sprintf("\t/DecodeParms <<\n\t\t/Predictor 15\n\t\t/Colors 1\n\t\t/BitsPerComponent 8\n\t\t/Columns %d\n\t>>\n", i.w)
}

// @ contract writeMaskImgProps props=C13
func vc_writeMaskImgProps(w io.Writer, imginfo imgInfo) error {
	v_requires(w != nil)
	before := v_out(w)
	v_modOut(w)
	err := writeMaskImgProps(w, imginfo)
	v_ensures("C13.mask-properties", v_failed(w) || err == nil && v_eqText(v_out(w), before+sp_maskProps(imginfo)))
	return err
}

// sp_imageHead, sp_imageData: dictionary and pixel data, or those of the alpha
// channel of an image used as a mask.
// @ merge
func sp_imageHead(i *ImageObj) string {
	if i.IsMask {
		return sp_maskProps(i.imginfo)
	}
	return sp_imageProps(i.imginfo, i.SplittedMask)
}

// @ merge
func sp_imageData(i *ImageObj) string {
	if i.IsMask {
		return string(i.imginfo.smask)
	}
	return string(i.imginfo.data)
}

// @ contract (*ImageObj).write props=C04,C05,C13
func vc_ImageObj_write(i *ImageObj, w io.Writer, objID int) error {
	v_requires(i != nil && w != nil && sp_protOK(i.pdfProtection) && 0 <= objID && objID < 1<<31)
	before := v_out(w)
	v_modOut(w)
	err := i.write(w, objID)
	data := sp_imageData(i)
	v_ensures("C04+C05+C13.image-stream", v_failed(w) || err == nil && v_eqText(v_out(w), before+sp_imageHead(i)+fmt.Sprintf("\t/Length %d\n>>\nstream\n", len(data))+
		sp_sealed(i.pdfProtection, objID, data)+sp_when(i.pdfProtection != nil, "\n")+"\nendstream\n"))
	return err
}

// @ merge
func sp_smask(s SMask, objID int) string {
	if s.TransparencyXObjectGroupIndex != 0 {
		return "<<\n\t/Type /Mask\n\t/S " + s.S + fmt.Sprintf("\n\t/G %d 0 R\n>>\n", s.TransparencyXObjectGroupIndex+1)
	}
	return sp_imageProps(s.imgInfo, false) + fmt.Sprintf("/Length %d\n>>\nstream\n", len(s.data)) +
		sp_sealed(s.pdfProtection, objID, string(s.data)) + sp_when(s.pdfProtection != nil, "\n") + "\nendstream\n"
}

// @ contract (SMask).write props=C03,C04,C05,C13
func vc_SMask_write(s SMask, w io.Writer, objID int) error {
	v_requires(w != nil && sp_protOK(s.pdfProtection) && 0 <= objID && objID < 1<<31)
	before := v_out(w)
	v_modOut(w)
	err := s.write(w, objID)
	v_ensures("C03+C04+C05+C13.soft-mask", v_failed(w) || err == nil && v_eqText(v_out(w), before+sp_smask(s, objID)))
	return err
}

func sp_images(xs []cacheContentImage, n int) string {
	if n <= 0 {
		return ""
	}
	return sp_images(xs, n-1) + sp_imageText(&xs[n-1])
}

// @ contract (TransparencyXObjectGroup).write props=C04,C05,C14
func vc_TransparencyXObjectGroup_write(s TransparencyXObjectGroup, w io.Writer, objID int) error {
	v_requires(w != nil && sp_protOK(s.pdfProtection) && 0 <= objID && objID < 1<<31)
	before := v_out(w)
	v_modOut(w)
	err := s.write(w, objID)
	data := sp_images(s.XObjects, len(s.XObjects))
	v_ensures("C04+C05+C14.group-stream", v_failed(w) || err == nil && v_eqText(v_out(w), before+"<<\n\t/FormType 1\n\t/Subtype /Form\n\t/Type /XObject\n\t/Matrix [1 0 0 1 0 0]\n"+
		fmt.Sprintf("\t/BBox [%.3F %.3F %.3F %.3F]\n", s.BBox[0], s.BBox[1], s.BBox[2], s.BBox[3])+"\t/Group<</CS /DeviceGray /S /Transparency>>\n"+
		fmt.Sprintf("\t/Length %d\n>>\nstream\n", len(data))+sp_sealed(s.pdfProtection, objID, data)+"endstream\n"))
	return err
}

// @ loop (TransparencyXObjectGroup).write 0
func vl_TransparencyXObjectGroup_write(s TransparencyXObjectGroup, streamBuff *bytes.Buffer, iter_ int) {
	v_inv(v_out(streamBuff) == sp_images(s.XObjects, iter_))
}

//@ opaque sp_lowGlyph sp_highGlyph sp_firstOf sp_firstInt sp_uniLines

// sp_charMapOK: the index of each character is where the character stands.
func sp_charMapOK(m *MapOfCharacterToGlyphIndex) bool {
	return m != nil && m.keyIndexs != nil && len(m.Keys) == len(m.Vals) &&
		v_forall(0, len(m.Keys), func(i int) bool {
			j, ok := m.keyIndexs[m.Keys[i]]
			return ok && j == i
		}) &&
		v_forallRune(func(r rune) bool {
			j, ok := m.keyIndexs[r]
			return !ok || 0 <= j && j < len(m.Keys) && m.Keys[j] == r
		})
}

func sp_lowGlyph(vals []uint, n int) int {
	if n <= 0 {
		return 65536
	}
	l := sp_lowGlyph(vals, n-1)
	if int(vals[n-1]) < l {
		return int(vals[n-1])
	}
	return l
}

func sp_highGlyph(vals []uint, n int) int {
	if n <= 0 {
		return -1
	}
	h := sp_highGlyph(vals, n-1)
	if int(vals[n-1]) > h {
		return int(vals[n-1])
	}
	return h
}

// sp_firstOf: where a glyph stands first among the first n, -1 for nowhere.
func sp_firstOf(vals []uint, n int, g uint) int {
	if n <= 0 {
		return -1
	}
	j := sp_firstOf(vals, n-1, g)
	if j >= 0 {
		return j
	}
	if vals[n-1] == g {
		return n - 1
	}
	return -1
}

// sp_firstInt: the same for plain numbers.
func sp_firstInt(vals []int, n int, g int) int {
	if n <= 0 {
		return -1
	}
	j := sp_firstInt(vals, n-1, g)
	if j >= 0 {
		return j
	}
	if vals[n-1] == g {
		return n - 1
	}
	return -1
}

// @ lemma props=C10
func lm_firstInt(vals []int, n int, g int) {
	v_requires(0 <= n && n <= len(vals))
	v_decr(n)
	v_proof(func() {
		if n > 0 {
			lm_firstInt(vals, n-1, g)
		}
	})
	r := sp_firstInt(vals, n, g)
	v_ensures("C10.first-int", -1 <= r && r < n && (r < 0 || vals[r] == g) && v_forall(0, n, func(j int) bool { return r >= 0 && j >= r || vals[j] != g }))
}

// @ lemma props=C10
func lm_sameFirst(ints []int, vals []uint, n int, g uint) {
	v_requires(0 <= n && n <= len(vals) && n <= len(ints) && v_forall(0, n, func(j int) bool { return ints[j] == int(vals[j]) }))
	v_decr(n)
	v_proof(func() {
		if n > 0 {
			lm_sameFirst(ints, vals, n-1, g)
		}
	})
	v_ensures("C10.same-first", sp_firstInt(ints, n, int(g)) == sp_firstOf(vals, n, g))
}

// @ lemma props=C10
func lm_firstOf(vals []uint, n int, g uint) {
	v_requires(0 <= n && n <= len(vals))
	v_decr(n)
	v_proof(func() {
		if n > 0 {
			lm_firstOf(vals, n-1, g)
		}
	})
	r := sp_firstOf(vals, n, g)
	v_ensures("C10.first-of", -1 <= r && r < n && (r < 0 || vals[r] == g) && v_forall(0, n, func(j int) bool { return r >= 0 && j >= r || vals[j] != g }))
}

// sp_uniLine: a glyph and the UTF-16 form of its character.
// @ merge
func sp_uniLine(g int, r rune) string {
	if r > 0xFFFF {
		a, b := utf16.EncodeRune(r)
		return fmt.Sprintf("<%04X><%04X><%04X%04X>\n", g, g, a, b)
	}
	return fmt.Sprintf("<%04X><%04X><%04X>\n", g, g, r)
}

func sp_uniLines(keys []rune, vals []uint, n int) string {
	if n <= 0 {
		return ""
	}
	return sp_uniLines(keys, vals, n-1) + sp_uniLine(int(vals[n-1]), keys[sp_firstOf(vals, len(vals), vals[n-1])])
}

func sp_unicodeText(m *MapOfCharacterToGlyphIndex) string {
	n := len(m.Vals)
	return "/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n/CIDSystemInfo << /Registry (Adobe)/Ordering (UCS)/Supplement 0>> def\n" +
		"/CMapName /Adobe-Identity-UCS def /CMapType 2 def\n1 begincodespacerange\n" +
		fmt.Sprintf("<%04X><%04X>\n", sp_lowGlyph(m.Vals, n), sp_highGlyph(m.Vals, n)) + "endcodespacerange\n" +
		fmt.Sprintf("%d beginbfrange\n", n) + sp_uniLines(m.Keys, m.Vals, n) +
		"endbfrange\nendcmap CMapName currentdict /CMap defineresource pop end end\n"
}

// @ contract (*mapGlyphIndexToCharacter).runeByIndex internal=1
func vc_runeByIndex(m *mapGlyphIndexToCharacter, index int) (rune, bool) {
	v_requires(m != nil && len(m.runes) == len(m.indexs))
	r, ok := m.runeByIndex(index)
	lm_firstInt(m.indexs, len(m.indexs), index)
	j := sp_firstInt(m.indexs, len(m.indexs), index)
	v_ensures("C10.first", ok == (j >= 0) && (!ok || r == m.runes[j]))
	return r, ok
}

// @ loop (*mapGlyphIndexToCharacter).runeByIndex 0
func vl_runeByIndex(m *mapGlyphIndexToCharacter, index int, iter_ int) {
	v_inv(v_forall(0, iter_, func(j int) bool { return m.indexs[j] != index }))
}

// @ contract (*UnicodeMap).write props=C10,C04,C05
func vc_UnicodeMap_write(u *UnicodeMap, w io.Writer, objID int) error {
	v_requires(u != nil && w != nil && u.PtrToSubsetFontObj != nil && sp_charMapOK(u.PtrToSubsetFontObj.CharacterToGlyphIndex) && sp_protOK(u.pdfProtection) && 0 <= objID && objID < 1<<31)
	before := v_out(w)
	v_modOut(w)
	err := u.write(w, objID)
	data := sp_unicodeText(u.PtrToSubsetFontObj.CharacterToGlyphIndex)
	v_ensures("C10+C04+C05.unicode-map", v_failed(w) || err == nil && v_eqText(v_out(w), before+fmt.Sprintf("<<\n/Length %d\n>>\nstream\n", len(data))+
		sp_sealed(u.pdfProtection, objID, data)+"endstream\n"))
	return err
}

// @ loop (*UnicodeMap).write 0
func vl_UnicodeMap0(u *UnicodeMap, glyphIndexToCharacter *mapGlyphIndexToCharacter, lowIndex, hiIndex int, iter_ int) {
	g, m := glyphIndexToCharacter, u.PtrToSubsetFontObj.CharacterToGlyphIndex
	v_inv(len(g.indexs) == iter_ && len(g.runes) == iter_)
	v_inv(v_forall(0, iter_, func(j int) bool { return g.indexs[j] == int(m.Vals[j]) && g.runes[j] == m.Keys[j] }))
	v_inv(lowIndex == sp_lowGlyph(m.Vals, iter_) && hiIndex == sp_highGlyph(m.Vals, iter_))
}

// @ loop (*UnicodeMap).write 1
func vl_UnicodeMap1(u *UnicodeMap, glyphIndexToCharacter *mapGlyphIndexToCharacter, buff *bytes.Buffer, iter_ int) {
	g, m := glyphIndexToCharacter, u.PtrToSubsetFontObj.CharacterToGlyphIndex
	if iter_ < len(m.Vals) {
		lm_firstOf(m.Vals, len(m.Vals), m.Vals[iter_])
		lm_sameFirst(g.indexs, m.Vals, len(m.Vals), m.Vals[iter_])
	}
	v_inv(v_out(buff) == v_entryStr(func() string { return v_out(buff) })+sp_uniLines(m.Keys, m.Vals, iter_))
}

// gh_font: the font program made last.
var gh_font string

// @ contract (*PdfDictionaryObj).makeFont props=C04 assumed=1
func vc_makeFont(p *PdfDictionaryObj) ([]byte, error) {
	v_requires(p != nil && p.PtrToSubsetFontObj != nil)
	v_freshResult(0)
	b, err := p.makeFont()
	gh_font = string(b)
	return b, err
}

// @ contract (*PdfDictionaryObj).write props=C04,C05,C11
func vc_PdfDictionaryObj_write(p *PdfDictionaryObj, w io.Writer, objID int) error {
	v_requires(p != nil && w != nil && p.PtrToSubsetFontObj != nil && sp_protOK(p.pdfProtection) && 0 <= objID && objID < 1<<31)
	before := v_out(w)
	v_modOut(w)
	err := p.write(w, objID)
	data := v_deflate(zlib.DefaultCompression, gh_font)
	v_ensures("C04+C05+C11.font-program", v_failed(w) || err != nil || v_eqText(v_out(w), before+fmt.Sprintf("<</Length %d\n/Filter /FlateDecode\n/Length1 %d\n>>\nstream\n", len(data), len(gh_font))+
		sp_sealed(p.pdfProtection, objID, data)+"\nendstream\n"))
	return err
}
