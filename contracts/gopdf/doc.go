package gopdf

import (
	"bytes"
	"fmt"
	"io"
	"strconv"
	"time"
	"unicode/utf16"
)

// C01, C02: the file skeleton and the page tree.

// @ opaque sp_body sp_zeros sp_xrefUpTo sp_utf16 sp_objReady
// @ uf encodeUtf8 infodate

// sp_objType: the kind of each object.
// @ merge
func sp_objType(o IObj) string {
	switch o.(type) {
	case *CatalogObj:
		return "Catalog"
	case *PagesObj:
		return "Pages"
	case *PageObj:
		return "Page"
	case *ContentObj:
		return "Content"
	case *FontObj:
		return "Font"
	case *EncryptionObj:
		return "Encryption"
	case *SubsetFontObj:
		return "SubsetFont"
	}
	return "other"
}

// @ interface IObj.getType props=C02
func vi_IObj_getType(o IObj) string {
	v_requires(o != nil)
	r := o.getType()
	v_ensures("C02.kind", r == sp_objType(o) || sp_objType(o) == "other" && r != "Catalog" && r != "Pages" && r != "Page" && r != "Content" && r != "Font" && r != "Encryption" && r != "SubsetFont")
	return r
}

// @ contract (*countingWriter).Write props=C01
func vc_countingWriter_Write(cw *countingWriter, b []byte) (int, error) {
	v_requires(cw != nil && cw.writer != nil && (cw.err != nil) == v_failed(cw.writer))
	before, at := v_out(cw.writer), cw.offset
	v_modifies(&cw.offset, &cw.err)
	w := cw.writer
	v_modOut(w)
	n, err := cw.Write(b)
	v_ensures("C01.count.writer", cw.writer == w && (cw.err != nil) == v_failed(w))
	v_ensures("C01.count", v_failed(w) || err == nil && n == len(b) && cw.offset == at+int64(len(b)) && v_eqText(v_out(w), before+string(b)))
	return n, err
}

// sp_objReady: an object that can be written. Objects of the kinds listed last
// are never registered: no exported function makes one part of a document.
// @ merge
func sp_objReady(o IObj) bool {
	switch v := o.(type) {
	case nil:
		return false
	case *ContentObj:
		return v != nil && sp_contentReady(v)
	case *PagesObj:
		return v != nil && v.getRoot != nil && v.getRoot() != nil
	case *DeviceRGBObj:
		return v != nil && v.getRoot != nil && v.getRoot() != nil && sp_protOK(v.getRoot().pdfProtection)
	case *ImageObj:
		return v != nil && sp_protOK(v.pdfProtection)
	case *CIDFontObj:
		return v != nil && v.PtrToSubsetFontObj != nil && sp_fontOK(v.PtrToSubsetFontObj) && v.PtrToSubsetFontObj.CharacterToGlyphIndex != nil
	case *SubfontDescriptorObj:
		return v != nil && v.PtrToSubsetFontObj != nil
	case *UnicodeMap:
		return v != nil && v.PtrToSubsetFontObj != nil && sp_charMapOK(v.PtrToSubsetFontObj.CharacterToGlyphIndex) && sp_protOK(v.pdfProtection)
	case *PdfDictionaryObj:
		return v != nil && v.PtrToSubsetFontObj != nil && sp_charMapOK(v.PtrToSubsetFontObj.CharacterToGlyphIndex) && sp_protOK(v.pdfProtection)
	case SMask:
		return sp_protOK(v.pdfProtection)
	case *SMask:
		return v != nil && sp_protOK(v.pdfProtection)
	case TransparencyXObjectGroup:
		return sp_protOK(v.pdfProtection)
	case annotObj:
		return v.GetRoot != nil && v.GetRoot() != nil && sp_protOK(v.GetRoot().pdfProtection)
	case *FontObj, *EncodingObj, *EmbedFontObj, *FontDescriptorObj, *TransparencyXObjectGroup, *annotObj, *ExtGState:
		return false
	}
	return true
}

// @ interface IObj.write props=C01 except=*gopdf.FontObj,*gopdf.EncodingObj,*gopdf.EmbedFontObj,*gopdf.FontDescriptorObj,*gopdf.TransparencyXObjectGroup,*gopdf.annotObj,*gopdf.ExtGState
func vi_IObj_write(o IObj, w io.Writer, objID int) error {
	v_requires(sp_objReady(o) && w != nil && 0 <= objID && objID < 1<<31)
	before := v_out(w)
	v_modOut(w)
	err := o.write(w, objID)
	v_ensures("C01.only-appends", v_failed(w) || err != nil || v_appended(v_out(w), before, objID))
	return err
}

const sp_header = "%PDF-1.7\n%\xe2\xe3\xcf\xd3\n\n"

// sp_body: objects 1..n, in order.
func sp_body(n int) string {
	if n <= 0 {
		return ""
	}
	return sp_body(n-1) + fmt.Sprintf("%d 0 obj\n", n) + v_written(n) + "endobj\n\n"
}

// sp_offset: where object n+1 starts.
func sp_offset(n int) int64 { return int64(len(sp_header) + len(sp_body(n))) }

func sp_zeros(n int) string {
	if n <= 0 {
		return ""
	}
	return "0" + sp_zeros(n-1)
}

// sp_pad10: the number with ten digits.
func sp_pad10(n int64) string {
	s := strconv.FormatInt(n, 10)
	return sp_zeros(10-len(s)) + s
}

// @ contract (*GoPdf).formatXrefline props=C01
func vc_formatXrefline(gp *GoPdf, n int64) string {
	r := gp.formatXrefline(n)
	v_ensures("C01.ten-digits", r == sp_pad10(n))
	return r
}

// @ loop (*GoPdf).formatXrefline 0
func vl_formatXrefline(str, entry_str string) {
	v_inv(len(str) >= len(entry_str) && v_eqText(str, sp_zeros(len(str)-len(entry_str))+entry_str))
	v_inv(len(str) == len(entry_str) || len(str) <= 10)
	v_decr(10 - len(str))
}

// sp_xrefUpTo: the table entries of objects 1..n.
func sp_xrefUpTo(n int) string {
	if n <= 0 {
		return ""
	}
	return sp_xrefUpTo(n-1) + sp_pad10(sp_offset(n-1)) + " 00000 n \n"
}

// @ merge
func sp_encrypt(gp *GoPdf) string {
	if !gp.config.Protection.UseProtection {
		return ""
	}
	return fmt.Sprintf("/Encrypt %d 0 R\n/ID [()()]\n", gp.encryptionObjID)
}

func sp_infoText(label, v string) string {
	return sp_when(v != "", "/"+label+" <FEFF"+encodeUtf8(v)+">\n")
}

// @ merge
func sp_infoDate(t time.Time) string {
	var zero time.Time
	if zero.Equal(t) {
		return ""
	}
	return "/CreationDate(D:" + infodate(t) + ")\n"
}

// @ merge
func sp_info(gp *GoPdf) string {
	if !gp.isUseInfo {
		return ""
	}
	i := gp.info
	return "/Info <<\n" + sp_infoText("Author", i.Author) + sp_infoText("Title", i.Title) + sp_infoText("Subject", i.Subject) +
		sp_infoText("Creator", i.Creator) + sp_infoText("Producer", i.Producer) + sp_infoDate(i.CreationDate) + " >>\n"
}

// sp_tail: cross-reference table, trailer and its position.
func sp_tail(gp *GoPdf, n int, at int64) string {
	return fmt.Sprintf("xref\n0 %d\n0000000000 65535 f \n", n+1) + sp_xrefUpTo(n) +
		fmt.Sprintf("trailer\n<<\n/Size %d\n/Root 1 0 R\n", n+1) + sp_encrypt(gp) + sp_info(gp) +
		fmt.Sprintf(">>\nstartxref\n%d\n%%%%EOF\n", at)
}

// @ contract (*GoPdf).writeInfo props=C01
func vc_writeInfo(gp *GoPdf, w io.Writer) {
	v_requires(gp != nil && w != nil && gp.isUseInfo && gp.info != nil)
	before := v_out(w)
	v_modOut(w)
	gp.writeInfo(w)
	v_ensures("C01.info", v_failed(w) || v_eqText(v_out(w), before+sp_info(gp)))
}

// @ contract (*GoPdf).xref props=C01
func vc_xref(gp *GoPdf, w io.Writer, at int64, linelens []int64, i int) error {
	v_requires(gp != nil && w != nil && i == len(linelens) && (!gp.isUseInfo || gp.info != nil))
	v_requires(v_failed(w) || v_forall(0, i, func(j int) bool { return linelens[j] == sp_offset(j) }))
	before := v_out(w)
	v_modOut(w)
	err := gp.xref(w, at, linelens, i)
	v_ensures("C01.xref", v_failed(w) || err == nil && v_eqText(v_out(w), before+sp_tail(gp, i, at)))
	return err
}

// @ loop (*GoPdf).xref 0
func vl_xref(w io.Writer, linelens []int64, j int) {
	v_inv(0 <= j && j <= len(linelens))
	v_inv(v_failed(w) || v_out(w) == v_entryStr(func() string { return v_out(w) })+sp_xrefUpTo(j))
	v_decr(len(linelens) - j)
}

// sp_file: the whole file.
func sp_file(gp *GoPdf) string {
	n := len(gp.pdfObjs)
	return sp_header + sp_body(n) + sp_tail(gp, n, sp_offset(n))
}

// @ contract (*GoPdf).compilePdf props=C01
func vc_compilePdf(gp *GoPdf, w io.Writer) (int64, error) {
	v_requires(gp != nil && sp_docOK(gp) && len(gp.pdfObjs) < 1<<31-2 && w != nil && !v_failed(w) && (!v_sameRef(w, &gp.buf) || v_out(w) == ""))
	before := v_out(w)
	catalog := gp.pdfObjs[0].(*CatalogObj)
	pages := gp.pdfObjs[1].(*PagesObj)
	v_modifies(&gp.pdfObjs, &gp.encryptionObjID, &gp.buf, catalog, pages)
	v_modAll("gopdf.PageObj.Contents")
	v_modOut(w)
	n, err := gp.compilePdf(w)
	v_ensures("C01.file", err != nil || v_eqText(v_out(w), before+sp_file(gp)))
	v_ensures("C01.written-count", err != nil || n == int64(len(v_out(w))-len(before)))
	v_ensures("C01.error-reported", !v_failed(w) || err != nil)
	v_ensures("C01.ready-again", sp_docOK(gp))
	return n, err
}

// @ loop (*GoPdf).compilePdf 0
func vl_compilePdf(gp *GoPdf, w io.Writer, writer *countingWriter, linelens []int64, i, max int) {
	v_inv(0 <= i && i <= max && max == len(gp.pdfObjs) && max == len(linelens))
	v_inv(sp_docOK(gp))
	v_inv(writer.writer == w && (writer.err != nil) == v_failed(w))
	v_inv(v_failed(w) || writer.offset == sp_offset(i))
	v_inv(v_failed(w) || v_eqText(v_out(w), v_entryStr(func() string { return v_out(w) })+sp_body(i)))
	v_inv(v_failed(w) || v_forall(0, i, func(j int) bool { return linelens[j] == sp_offset(j) }))
	v_decr(max - i)
}

// @ contract (*GoPdf).WriteTo props=C01
func vc_WriteTo(gp *GoPdf, w io.Writer) (int64, error) {
	v_requires(gp != nil && sp_docOK(gp) && len(gp.pdfObjs) < 1<<31-2 && w != nil && !v_failed(w) && (!v_sameRef(w, &gp.buf) || v_out(w) == ""))
	before := v_out(w)
	catalog := gp.pdfObjs[0].(*CatalogObj)
	pages := gp.pdfObjs[1].(*PagesObj)
	v_modifies(&gp.pdfObjs, &gp.encryptionObjID, &gp.buf, catalog, pages)
	v_modAll("gopdf.PageObj.Contents")
	v_modOut(w)
	n, err := gp.WriteTo(w)
	v_ensures("C01.file", err != nil || v_eqText(v_out(w), before+sp_file(gp)) && n == int64(len(v_out(w))-len(before)))
	v_ensures("C01.error-reported", !v_failed(w) || err != nil)
	v_ensures("C01.ready-again", sp_docOK(gp))
	return n, err
}

// @ contract (*GoPdf).Write props=C01
func vc_Write(gp *GoPdf, w io.Writer) error {
	v_requires(gp != nil && sp_docOK(gp) && len(gp.pdfObjs) < 1<<31-2 && w != nil && !v_failed(w) && (!v_sameRef(w, &gp.buf) || v_out(w) == ""))
	before := v_out(w)
	catalog := gp.pdfObjs[0].(*CatalogObj)
	pages := gp.pdfObjs[1].(*PagesObj)
	v_modifies(&gp.pdfObjs, &gp.encryptionObjID, &gp.buf, catalog, pages)
	v_modAll("gopdf.PageObj.Contents")
	v_modOut(w)
	err := gp.Write(w)
	v_ensures("C01.file", err != nil || v_eqText(v_out(w), before+sp_file(gp)))
	v_ensures("C01.error-reported", !v_failed(w) || err != nil)
	v_ensures("C01.ready-again", sp_docOK(gp))
	return err
}

// @ contract (*GoPdf).GetBytesPdfReturnErr props=C01
func vc_GetBytesPdfReturnErr(gp *GoPdf) ([]byte, error) {
	v_requires(gp != nil && sp_docOK(gp) && len(gp.pdfObjs) < 1<<31-2)
	catalog := gp.pdfObjs[0].(*CatalogObj)
	pages := gp.pdfObjs[1].(*PagesObj)
	v_modifies(&gp.pdfObjs, &gp.encryptionObjID, &gp.buf, catalog, pages)
	v_modAll("gopdf.PageObj.Contents")
	b, err := gp.GetBytesPdfReturnErr()
	v_ensures("C01.file", err != nil || v_eqText(string(b), sp_file(gp)))
	v_ensures("C01.ready-again", sp_docOK(gp))
	return b, err
}

// @ contract (*GoPdf).GetBytesPdf props=C01
func vc_GetBytesPdf(gp *GoPdf) []byte {
	v_requires(gp != nil && sp_docOK(gp) && len(gp.pdfObjs) < 1<<31-2)
	catalog := gp.pdfObjs[0].(*CatalogObj)
	pages := gp.pdfObjs[1].(*PagesObj)
	v_modifies(&gp.pdfObjs, &gp.encryptionObjID, &gp.buf, catalog, pages)
	v_modAll("gopdf.PageObj.Contents")
	b := gp.GetBytesPdf()
	v_ensures("C01.file", v_eqText(string(b), sp_file(gp)))
	v_ensures("C01.ready-again", sp_docOK(gp))
	return b
}

// sp_hex4: a UTF-16 code unit as four hexadecimal digits.
func sp_hex4(r rune) string {
	s := fmt.Sprintf("%X", r)
	return sp_zeros(4-len(s)) + s
}

// sp_utf16: the first n characters as UTF-16BE, in hexadecimal digits.
func sp_utf16(s string, n int) string {
	if n <= 0 {
		return ""
	}
	return sp_utf16(s, n-1) + sp_utf16Rune([]rune(s)[n-1])
}

// @ merge
func sp_utf16Rune(r rune) string {
	if r > 0xFFFF {
		a, b := utf16.EncodeRune(r)
		return fmt.Sprintf("%04X%04X", a, b)
	}
	return sp_hex4(r)
}

// @ contract encodeUtf8 props=C17
func vc_encodeUtf8(str string) string {
	r := encodeUtf8(str)
	v_ensures("C17+C01.title-utf16", r == sp_utf16(str, len([]rune(str))))
	return r
}

// @ loop encodeUtf8 0
func vl_encodeUtf8(str string, buff *bytes.Buffer, iter_ int) {
	v_inv(v_eqText(buff.String(), sp_utf16(str, iter_)))
}

// @ loop encodeUtf8 1
func vl_encodeUtf8_1(c string, entry_c string) {
	v_inv(len(c) >= len(entry_c) && v_eqText(c, sp_zeros(len(c)-len(entry_c))+entry_c))
	v_inv(len(c) <= 4)
	v_decr(4 - len(c))
}
