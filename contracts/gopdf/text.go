package gopdf

import (
	"fmt"
	"io"
	"math"
)

// C07, C08: text runs.

// @ uf nonSpaceBounds interiorSpaceCount convertTTFUnit2PDFUnit justifyAdjustment
// @ pure FormatFloatTrim (*cacheContentText).calX (*cacheContentText).calY
// @ opaque sp_pdfWidth sp_borders sp_underline sp_glyphRun sp_leftGlyph sp_leftRune sp_advance sp_kern

// sp_known: the character has been added to the font.
func sp_known(f *SubsetFontObj, r rune) bool {
	_, ok := f.CharacterToGlyphIndex.keyIndexs[r]
	return ok
}

// sp_glyph: the glyph the font's character table gives the character.
// @ merge
func sp_glyph(f *SubsetFontObj, r rune) uint {
	if sp_known(f, r) {
		return f.CharacterToGlyphIndex.Vals[f.CharacterToGlyphIndex.keyIndexs[r]]
	}
	return 0
}

// wf_font: a font that has been parsed and initialised.
func wf_font(f *SubsetFontObj) bool {
	return f != nil && f.CharacterToGlyphIndex != nil && f.CharacterToGlyphIndex.keyIndexs != nil &&
		sp_fontOK(f) && wf_charmap(f.CharacterToGlyphIndex)
}

// wf_charmap: every known character has its glyph at its index.
func wf_charmap(m *MapOfCharacterToGlyphIndex) bool {
	return m != nil && m.keyIndexs != nil && len(m.Keys) == len(m.Vals) && v_forallRune(func(r rune) bool {
		i, ok := m.keyIndexs[r]
		return !ok || 0 <= i && i < len(m.Keys) && m.Keys[i] == r
	})
}

// sp_leftGlyph: the glyph of the last known character before position n.
func sp_leftGlyph(f *SubsetFontObj, text string, n int) uint {
	if n <= 0 {
		return 0
	}
	r := []rune(text)[n-1]
	if sp_known(f, r) {
		return sp_glyph(f, r)
	}
	return sp_leftGlyph(f, text, n-1)
}

func sp_leftRune(f *SubsetFontObj, text string, n int) rune {
	if n <= 0 {
		return 0
	}
	r := []rune(text)[n-1]
	if sp_known(f, r) {
		return r
	}
	return sp_leftRune(f, text, n-1)
}

// sp_kern: the kerning of a pair, in font units, after the caller's override.
func sp_kern(f *SubsetFontObj, left, right rune, lg, rg uint) int16 {
	v := int16(0)
	if f.ttfFontOption.UseKerning && f.ttfp.Kern() != nil {
		if m, ok := f.ttfp.Kern().Kerning[lg]; ok {
			if k, ok := m[rg]; ok {
				v = k
			}
		}
	}
	if f.funcKernOverride != nil {
		v = f.funcKernOverride(left, right, lg, rg, v)
	}
	return v
}

// sp_kernUnits: the kerning before character n of the text, in thousandths.
// @ merge
func sp_kernUnits(f *SubsetFontObj, text string, n int) int {
	if n <= 0 || !f.ttfFontOption.UseKerning {
		return 0
	}
	r := []rune(text)[n]
	return convertTTFUnit2PDFUnit(int(sp_kern(f, sp_leftRune(f, text, n), r, sp_leftGlyph(f, text, n), sp_glyph(f, r))), int(f.ttfp.UnitsPerEm()))
}

// sp_glyphRun: the first n characters of the text, as the inside of a TJ
// array: glyph numbers, kerning and widened blanks.
func sp_glyphRun(f *SubsetFontObj, text string, n int, widen bool, adj, first, last int) string {
	if n <= 0 {
		return ""
	}
	before := sp_glyphRun(f, text, n-1, widen, adj, first, last)
	r := []rune(text)[n-1]
	if !sp_known(f, r) {
		return before
	}
	s := before
	if k := sp_kernUnits(f, text, n-1); k != 0 {
		s += fmt.Sprintf(">%d<", -k)
	}
	s += fmt.Sprintf("%04X", sp_glyph(f, r))
	if widen && r == ' ' && v_runeOff(text, n-1) > first && v_runeOff(text, n-1) < last {
		s += fmt.Sprintf(">%d<", adj)
	}
	return s
}

// @ merge
func sp_textX(c *cacheContentText) float64 {
	if c.contentType == ContentTypeText {
		return c.x
	}
	if c.cellOpt.Align&Right != 0 {
		return c.x + (c.cellWidthPdfUnit - c.textWidthPdfUnit)
	}
	if c.cellOpt.Align&Center != 0 {
		return c.x + (c.cellWidthPdfUnit-c.textWidthPdfUnit)/2
	}
	return c.x
}

func sp_typo(v int, f *SubsetFontObj, size float64) float64 {
	return float64(v) * size / float64(f.ttfp.UnitsPerEm())
}

// @ merge
func sp_textY(c *cacheContentText) float64 {
	top := c.pageheight - c.y
	if c.contentType == ContentTypeText {
		return top
	}
	asc, desc := sp_typo(c.fontSubset.ttfp.TypoAscender(), c.fontSubset, c.fontSize), sp_typo(c.fontSubset.ttfp.TypoDescender(), c.fontSubset, c.fontSize)
	if c.cellOpt.Align&Bottom != 0 {
		return top - c.cellHeightPdfUnit - desc
	}
	if c.cellOpt.Align&Middle != 0 {
		return top - c.cellHeightPdfUnit/2 - (asc+desc)/2
	}
	return top - asc
}

// @ merge
func sp_adjust(c *cacheContentText) int {
	if c.contentType != ContentTypeCell || c.cellOpt.Align&Justify == 0 || c.rectangle == nil {
		return 0
	}
	return justifyAdjustment(c.cellWidthPdfUnit-c.textWidthPdfUnit, interiorSpaceCount(c.text), c.fontSize)
}

func sp_strokeLine(x1, y1, x2, y2 float64) string {
	return fmt.Sprintf("%0.2f %0.2f m %0.2f %0.2f l s\n", x1, y1, x2, y2)
}

// @ merge
func sp_borders0(c *cacheContentText) string {
	s := ""
	o := c.lineWidth / 2
	top, bottom := c.pageheight-c.y, c.pageheight-c.y-c.cellHeightPdfUnit
	l, r := c.x, c.x+c.cellWidthPdfUnit
	if c.cellOpt.Border&Top != 0 {
		s += sp_strokeLine(l-o, top, r+o, top)
	}
	if c.cellOpt.Border&Left != 0 {
		s += sp_strokeLine(l, top, l, bottom)
	}
	if c.cellOpt.Border&Right != 0 {
		s += sp_strokeLine(r, top, r, bottom)
	}
	if c.cellOpt.Border&Bottom != 0 {
		s += sp_strokeLine(l-o, bottom, r+o, bottom)
	}
	return s
}

func sp_borders(c *cacheContentText) string { return sp_borders0(c) }

// @ merge
func sp_coef(v float64) float64 {
	if v == 0 {
		return 1
	}
	return v
}

func sp_underline(c *cacheContentText) string {
	f := c.fontSubset
	asc, desc := sp_typo(f.ttfp.Ascender(), f, c.fontSize), sp_typo(f.ttfp.Descender(), f, c.fontSize)
	leading := (asc - desc - sp_coef(c.cellOpt.CoefLineHeight)*c.fontSize) / 2
	y := c.pageheight - c.y + sp_typo(f.ttfp.UnderlinePosition(), f, c.fontSize)*sp_coef(c.cellOpt.CoefUnderlinePosition) - asc - leading
	return fmt.Sprintf("%0.2f %0.2f %0.2f %0.2f re f\n", c.x, y, c.cellWidthPdfUnit, sp_typo(f.ttfp.UnderlineThickness(), f, c.fontSize)*sp_coef(c.cellOpt.CoefUnderlineThickness))
}

// @ merge
func sp_when(b bool, s string) string {
	if b {
		return s
	}
	return ""
}

// @ merge
func sp_firstNonSpace(adj int, text string) int {
	if adj == 0 {
		return -1
	}
	first, _ := nonSpaceBounds(text)
	return first
}

// @ merge
func sp_lastNonSpace(adj int, text string) int {
	if adj == 0 {
		return -1
	}
	_, last := nonSpaceBounds(text)
	return last
}

// sp_textRun: one text object.
func sp_textRun(c *cacheContentText) string {
	gs := c.cellOpt.extGStateIndexes
	adj := sp_adjust(c)
	glyphs := sp_glyphRun(c.fontSubset, c.text, len([]rune(c.text)), adj != 0, adj, sp_firstNonSpace(adj, c.text), sp_lastNonSpace(adj, c.text))
	return sp_when(len(gs) > 0, "q\n") + sp_gsUpTo(gs, len(gs)) +
		"BT\n" + fmt.Sprintf("%0.2f %0.2f TD\n", sp_textX(c), sp_textY(c)) +
		fmt.Sprintf("/F%d %s Tf %s Tc\n", c.fontCountIndex, FormatFloatTrim(c.fontSize), FormatFloatTrim(c.charSpacing)) +
		sp_when(c.txtColorMode == "color", sp_textColor(c.textColor)) +
		"[<" + glyphs + ">] TJ\nET\n" +
		sp_when(c.fontStyle&Underline != 0, sp_underline(c)) +
		sp_borders(c) +
		sp_when(len(gs) > 0, "Q\n")
}

// @ opaque sp_textColor

// sp_textColor: the colour operator of a run.
func sp_textColor(c ICacheColorText) string { return sp_textColor0(c) }

// @ merge
func sp_textColor0(c ICacheColorText) string {
	switch a := c.(type) {
	case *cacheContentTextColorRGB:
		return sp_rgbText(a.r, a.g, a.b, "rg")
	case *cacheContentTextColorCMYK:
		return sp_cmykText(a.c, a.m, a.y, a.k, "k")
	case cacheContentTextColorRGB:
		return sp_rgbText(a.r, a.g, a.b, "rg")
	case cacheContentTextColorCMYK:
		return sp_cmykText(a.c, a.m, a.y, a.k, "k")
	}
	return ""
}

// @ interface ICacheColorText.write props=C08,C15
func vi_ICacheColorText_write(c ICacheColorText, w io.Writer, protection *PDFProtection) error {
	v_requires(c != nil && w != nil)
	before := v_out(w)
	text := sp_textColor(c)
	v_modOut(w)
	err := c.write(w, protection)
	v_ensures("C08+C15.text-colour", v_failed(w) || err == nil && v_eqText(v_out(w), before+text))
	return err
}

// sp_textReady: what createContent and the setters guarantee of a text run.
func sp_textReady(c *cacheContentText) bool {
	return c.fontSubset != nil && c.fontSubset.CharacterToGlyphIndex != nil && c.fontSubset.ttfp.UnitsPerEm() > 0 && (c.contentType == ContentTypeText || c.contentType == ContentTypeCell) && (c.txtColorMode != "color" || c.textColor != nil)
}

// @ loop (*cacheContentText).write 0
func vl_text_gs(c *cacheContentText, w io.Writer, iter_ int) {
	v_inv(v_out(w) == v_entryStr(func() string { return v_out(w) })+sp_gsUpTo(c.cellOpt.extGStateIndexes, iter_))
}

// @ loop (*cacheContentText).write 1
func vl_text_glyphs(c *cacheContentText, w io.Writer, justify bool, tjAdjust, firstNonSpace, lastNonSpace int, leftRune rune, leftRuneIndex uint, iter_ int) {
	v_inv(v_failed(w) || v_out(w) == v_entryStr(func() string { return v_out(w) })+sp_glyphRun(c.fontSubset, c.text, iter_, justify, tjAdjust, firstNonSpace, lastNonSpace))
	v_inv(leftRune == sp_leftRune(c.fontSubset, c.text, iter_))
	v_inv(leftRuneIndex == sp_leftGlyph(c.fontSubset, c.text, iter_))
}

// @ contract (*cacheContentText).write props=C08,C07
func vc_text_write(c *cacheContentText, w io.Writer, protection *PDFProtection) error {
	v_requires(c != nil && w != nil && sp_textReady(c))
	before := v_out(w)
	text := sp_textRun(c)
	v_modOut(w)
	err := c.write(w, protection)
	v_ensures("C07+C08.run", v_failed(w) || err == nil && v_eqText(v_out(w), before+text))
	return err
}

// @ contract (*cacheContentText).drawBorder props=C07,C08
func vc_text_drawBorder(c *cacheContentText, w io.Writer) error {
	v_requires(c != nil && w != nil)
	before := v_out(w)
	text := sp_borders(c)
	v_modOut(w)
	err := c.drawBorder(w)
	v_ensures("C07+C08.borders", v_failed(w) || err == nil && v_eqText(v_out(w), before+text))
	return err
}

// @ contract (*cacheContentText).underline props=C07,C08
func vc_text_underline(c *cacheContentText, w io.Writer) error {
	v_requires(c != nil && w != nil && c.fontSubset != nil && c.fontSubset.ttfp.UnitsPerEm() > 0)
	before := v_out(w)
	text := sp_underline(c)
	v_modOut(w)
	err := c.underline(w)
	v_ensures("C07+C08.underline", v_failed(w) || err == nil && v_eqText(v_out(w), before+text))
	return err
}

// @ contract kern props=C07,C08
func vc_kern(f *SubsetFontObj, leftRune rune, rightRune rune, leftIndex uint, rightIndex uint) int16 {
	v_requires(f != nil)
	r := kern(f, leftRune, rightRune, leftIndex, rightIndex)
	v_ensures("C07+C08.kerning", r == sp_kern(f, leftRune, rightRune, leftIndex, rightIndex))
	return r
}

// @ check convertTTFUnit2PDFUnit props=C07,C08,C10
func vc_convertTTFUnit2PDFUnit(n int, upem int) int {
	v_requires(upem > 0)
	r := convertTTFUnit2PDFUnit(n, upem)
	// n/upem em in thousandths of an em, rounded towards zero
	v_ensures("C07+C08+C10.thousandths", v_implies(n >= 0, r == n*1000/upem) && v_implies(n < 0, r == -((-n)*1000/upem)))
	return r
}

// @ check justifyAdjustment props=C07
func vc_justifyAdjustment(slack float64, gaps int, size float64) int {
	r := justifyAdjustment(slack, gaps, size)
	want := 0
	if gaps > 0 && slack > 0 && size > 0 {
		want = int(math.Round(-(slack / float64(gaps) * 1000 / size)))
	}
	v_ensures("C07.justified-gap", r == want)
	return r
}

// sp_glyphWidth: the advance of a character's glyph in thousandths of an em.
func sp_glyphWidth(f *SubsetFontObj, r rune) int {
	return int(sp_pdfWidth(f, sp_glyph(f, r)))
}

// sp_spaceUnits: the extra space after each character, in whole thousandths.
func sp_spaceUnits(f *SubsetFontObj, size, spacing float64) int {
	return convertTTFUnit2PDFUnit(int(float64(int(f.ttfp.UnitsPerEm()))/size*spacing), int(f.ttfp.UnitsPerEm()))
}

// sp_advance: how far the first n characters of the text take the cursor.
func sp_advance(f *SubsetFontObj, text string, n int, space int) int {
	if n <= 0 {
		return 0
	}
	before := sp_advance(f, text, n-1, space)
	r := []rune(text)[n-1]
	if !sp_known(f, r) {
		return before
	}
	return before + sp_glyphWidth(f, r) + sp_kernUnits(f, text, n-1) + space
}

// sp_sameRunes: two texts begin with the same n characters.
func sp_sameRunes(a, b string, n int) bool {
	return len([]rune(a)) >= n && len([]rune(b)) >= n && v_forall(0, n, func(j int) bool { return []rune(a)[j] == []rune(b)[j] })
}

// @ lemma props=C07
func lm_sameRunes(f *SubsetFontObj, a, b string, n int, space int) {
	v_requires(f != nil && f.CharacterToGlyphIndex != nil)
	v_decr(n)
	v_proof(func() {
		if n > 0 {
			lm_sameRunes(f, a, b, n-1, space)
		}
	})
	same := sp_sameRunes(a, b, n)
	v_ensures("C07.same-left", !same || sp_leftRune(f, a, n) == sp_leftRune(f, b, n) && sp_leftGlyph(f, a, n) == sp_leftGlyph(f, b, n))
	v_ensures("C07.same-advance", !same || sp_advance(f, a, n, space) == sp_advance(f, b, n, space))
}

// sp_textWidth: the width of a text in points.
func sp_textWidth(f *SubsetFontObj, text string, size, spacing float64) float64 {
	return float64(sp_advance(f, text, len([]rune(text)), sp_spaceUnits(f, size, spacing))) * (size / 1000)
}

// sp_lineHeight: the height of a line of text in points.
func sp_lineHeight(f *SubsetFontObj, size float64) float64 {
	return sp_typo(f.ttfp.TypoAscender(), f, size) - sp_typo(f.ttfp.TypoDescender(), f, size)
}

// @ check (*SubsetFontObj).CharWidth props=C07,C10
func vc_CharWidth(f *SubsetFontObj, r rune) (uint, error) {
	v_requires(wf_font(f))
	w, err := f.CharWidth(r)
	v_ensures("C07+C10.char-width", (err == nil) == sp_known(f, r) && v_implies(err == nil, int(w) == sp_glyphWidth(f, r)))
	return w, err
}

// @ loop createContent 0
func vl_createContent(f *SubsetFontObj, text string, fontSize float64, charSpacing float64, unitsPerEm int, leftRune rune, leftRuneIndex uint, sumWidth int, iter_ int) {
	v_inv(sumWidth == sp_advance(f, text, iter_, sp_spaceUnits(f, fontSize, charSpacing)))
	v_inv(leftRune == sp_leftRune(f, text, iter_))
	v_inv(leftRuneIndex == sp_leftGlyph(f, text, iter_))
}

// @ contract createContent props=C07
func vc_createContent(f *SubsetFontObj, text string, fontSize float64, charSpacing float64, rectangle *Rect) (float64, float64, float64, error) {
	v_requires(wf_font(f))
	w, h, tw, err := createContent(f, text, fontSize, charSpacing, rectangle)
	v_ensures("C07.measured", err == nil && v_eqF(tw, sp_textWidth(f, text, fontSize, charSpacing)))
	v_ensures("C07.cell-size", v_implies(rectangle != nil, w == rectangle.W && h == rectangle.H))
	v_ensures("C07.line-size", v_implies(rectangle == nil, w == tw && v_eqF(h, sp_lineHeight(f, fontSize))))
	return w, h, tw, err
}

// @ interface ICacheColorText.equal props=C08
func vi_ICacheColorText_equal(c ICacheColorText, other ICacheColorText) bool {
	v_requires(c != nil)
	a, b := sp_textColor(c), sp_textColor(other)
	r := c.equal(other)
	v_ensures("C08.same-colour", v_implies(r, other != nil && v_eqText(a, b)))
	return r
}

// sp_agree: the attributes that two texts of one run share.
func sp_agree(a, b *cacheContentText) bool {
	return a.rectangle == nil && b.rectangle == nil && sp_sameLook(a, b)
}

func sp_sameLook(a, b *cacheContentText) bool {
	return a.fontCountIndex == b.fontCountIndex && a.fontSize == b.fontSize && a.fontStyle == b.fontStyle && a.charSpacing == b.charSpacing &&
		a.txtColorMode == b.txtColorMode && (a.textColor == nil) == (b.textColor == nil) && (a.textColor == nil || v_eqText(sp_textColor(a.textColor), sp_textColor(b.textColor))) &&
		a.contentType == b.contentType && a.lineWidth == b.lineWidth && a.isPlaceHolder == b.isPlaceHolder && sp_sameOption(a, b)
}

func sp_sameOption(a, b *cacheContentText) bool {
	o, p := &a.cellOpt, &b.cellOpt
	return o.Align == p.Align && o.Border == p.Border && o.Float == p.Float && o.CoefUnderlinePosition == p.CoefUnderlinePosition &&
		o.CoefLineHeight == p.CoefLineHeight && o.CoefUnderlineThickness == p.CoefUnderlineThickness &&
		sp_sameInts(o.extGStateIndexes, p.extGStateIndexes)
}

func sp_sameInts(a, b []int) bool {
	return len(a) == len(b) && v_forall(0, len(a), func(j int) bool { return a[j] == b[j] })
}

// @ loop (CellOption).isSameTextOption 0
func vl_isSameTextOption(c CellOption, opt CellOption, iter_ int) {
	v_inv(v_forall(0, iter_, func(j int) bool { return c.extGStateIndexes[j] == opt.extGStateIndexes[j] }))
}

// @ contract (*cacheContentText).isSame props=C08
func vc_isSame(c *cacheContentText, cache cacheContentText) bool {
	v_requires(c != nil)
	r := c.isSame(cache)
	v_ensures("C08.merged-only-if-alike", v_implies(r, sp_agree(c, &cache)))
	v_ensures("C08.merged-only-if-adjacent", v_implies(r, c.y == cache.y && c.x+c.textWidthPdfUnit == cache.x))
	return r
}

// sp_lastRun: the text run at the end of a content stream, if any.
// @ merge
func sp_lastRun(items []ICacheContent) *cacheContentText {
	if len(items) == 0 {
		return nil
	}
	if t, ok := items[len(items)-1].(*cacheContentText); ok {
		return t
	}
	return nil
}

// sp_placed: the run has the font, size, rectangle and page of the given one.
func sp_placed(t, c *cacheContentText) bool {
	return t.fontSubset == c.fontSubset && t.rectangle == c.rectangle && t.pageheight == c.pageheight && t.x == c.x && t.y == c.y && t.setXCount == c.setXCount
}

// sp_measured: the run's widths are those of its text.
func sp_measured(t *cacheContentText) bool {
	return v_eqF(t.textWidthPdfUnit, sp_textWidth(t.fontSubset, t.text, t.fontSize, t.charSpacing))
}

func sp_celled(t *cacheContentText) bool {
	return v_implies(t.rectangle != nil, t.cellWidthPdfUnit == t.rectangle.W && t.cellHeightPdfUnit == t.rectangle.H) &&
		v_implies(t.rectangle == nil, t.cellWidthPdfUnit == t.textWidthPdfUnit && v_eqF(t.cellHeightPdfUnit, sp_lineHeight(t.fontSubset, t.fontSize)))
}

// sp_fontNumbered: a run with this font number is of this font.
// @ merge
func sp_fontNumbered(t *cacheContentText, number int, f *SubsetFontObj) bool {
	return t == nil || t.fontCountIndex != number || t.fontSubset == f
}

// @ contract (*listCacheContent).appendContentText props=C07,C08
func vc_appendContentText(l *listCacheContent, cache cacheContentText, text string) (float64, float64, error) {
	last := sp_lastRun(l.caches)
	v_requires(l != nil && wf_font(cache.fontSubset) && sp_fontNumbered(last, cache.fontCountIndex, cache.fontSubset))
	before := v_snapItems(l.caches)
	n := len(before)
	oldText := ""
	if last != nil {
		oldText = last.text
	}
	v_modifies(&l.caches, &last.text, &last.cellWidthPdfUnit, &last.cellHeightPdfUnit, &last.textWidthPdfUnit)
	x, y, err := l.appendContentText(cache, text)
	after := l.caches
	t := sp_lastRun(after)
	merged := len(after) == n
	v_ensures("C08.in-order", (merged || len(after) == n+1) && v_forall(0, n, func(j int) bool { return after[j] == before[j] }))
	v_ensures("C08.run-kept", t != nil && v_implies(merged, t == last && t.text == oldText+text && sp_agree(t, &cache)))
	v_ensures("C08.run-added", v_implies(!merged, t.text == cache.text+text && sp_placed(t, &cache) && sp_sameLook(t, &cache)))
	v_ensures("C07.no-error", err == nil)
	v_ensures("C07.run-measured", sp_measured(t))
	v_ensures("C07.run-celled", sp_celled(t))
	v_ensures("C07.cursor-x", v_eqF(x, sp_cursorX(t, cache.x)))
	v_ensures("C07.cursor-y", v_eqF(y, sp_cursorY(t, cache.y)))
	return x, y, err
}

// sp_cursorX: after text the cursor stands behind it; after a cell, behind the
// cell if it floats right.
// @ merge
func sp_cursorX(t *cacheContentText, x float64) float64 {
	if t.contentType == ContentTypeText || t.cellOpt.Float == 0 || t.cellOpt.Float&Right != 0 {
		return t.x + t.cellWidthPdfUnit
	}
	return x
}

// @ merge
func sp_cursorY(t *cacheContentText, y float64) float64 {
	if t.cellOpt.Float&Bottom != 0 {
		return t.y + t.cellHeightPdfUnit
	}
	return y
}
