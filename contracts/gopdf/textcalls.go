package gopdf

// C06, C07, C08, C10, C18: the calls that place text.

// sp_canWrite: a page and a font are set.
func sp_canWrite(gp *GoPdf) bool {
	return gp != nil && sp_contentOK(gp) && gp.curr.pageSize != nil && sp_fontReady(gp.curr.FontISubset) &&
		sp_fontNumbered(sp_lastRun(sp_items(sp_page(gp))), gp.curr.FontFontCount+1, gp.curr.FontISubset)
}

func sp_fontReady(f *SubsetFontObj) bool {
	return wf_font(f) && wf_cmap(f) && sp_faithful(f)
}

// sp_run: the run the page's content ends with.
// @ merge
func sp_run(gp *GoPdf) *cacheContentText { return sp_lastRun(sp_items(sp_page(gp))) }

// sp_grown: the content that was current has the elements it had, and at most
// one more.
func sp_grown(gp *GoPdf, page *ContentObj, before []ICacheContent, objs []IObj) bool {
	n, c := len(before), sp_page(gp)
	return sp_contentOK(gp) && c != nil && (page == nil || c == page) && (len(c.listCache.caches) == n || len(c.listCache.caches) == n+1) &&
		v_forall(0, n, func(j int) bool { return c.listCache.caches[j] == before[j] }) &&
		len(gp.pdfObjs) >= len(objs) && v_forall(0, len(objs), func(j int) bool { return gp.pdfObjs[j] == objs[j] })
}

// sp_shown: out is the text with the characters the font lacks replaced.
func sp_shown(f *SubsetFontObj, text, out string) bool {
	return len([]rune(out)) == len([]rune(text)) &&
		v_forall(0, len([]rune(out)), func(j int) bool { return sp_known(f, []rune(out)[j]) && sp_picked(f, []rune(text)[j], []rune(out)[j]) })
}

// sp_asSet: the run looks as the document is set to.
func sp_asSet(t *cacheContentText, gp *GoPdf) bool {
	return t.fontCountIndex == gp.curr.FontFontCount+1 && t.fontSize == gp.curr.FontSize && t.fontStyle == gp.curr.FontStyle && t.charSpacing == gp.curr.CharSpacing &&
		t.txtColorMode == gp.curr.txtColorMode && (t.textColor == nil) == (gp.curr.txtColor == nil) && (t.textColor == nil || v_eqText(sp_textColor(t.textColor), sp_textColor(gp.curr.txtColor))) &&
		t.lineWidth == gp.curr.lineWidth && !t.isPlaceHolder
}

// @ check (*GoPdf).Text props=C07,C08,C10,C18
func vc_GoPdf_Text(gp *GoPdf, text string) error {
	v_requires(sp_canWrite(gp))
	if gp.indexOfContent != -1 {
		v_requires(sp_contentOf(gp, gp.pdfObjs[gp.indexOfContent]))
	}
	page, objs := sp_page(gp), v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	last := sp_lastRun(before)
	x, y := gp.curr.X, gp.curr.Y
	f := gp.curr.FontISubset
	m := f.CharacterToGlyphIndex
	old := ""
	if last != nil {
		old = last.text
	}
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&last.text, &last.cellWidthPdfUnit, &last.cellHeightPdfUnit, &last.textWidthPdfUnit)
	v_modifies(&gp.pdfObjs, &gp.indexOfContent, &gp.curr.X, &gp.curr.Y)
	v_modifies(&m.Keys, &m.Vals, m.keyIndexs, &f.addCharsBuff)
	err := gp.Text(text)
	t := sp_run(gp)
	merged := len(sp_items(sp_page(gp))) == len(before)
	v_ensures("C08.in-order", err == nil && sp_grown(gp, page, before, objs) && t != nil)
	v_ensures("C08.run-as-set", sp_asSet(t, gp) && t.contentType == ContentTypeText)
	v_ensures("C08+C10.text-shown", v_implies(!merged, sp_shown(f, text, t.text)))
	v_ensures("C08.run-continued", v_implies(merged, t == last))
	v_ensures("C07.run-placed", v_implies(!merged, t.x == x && t.y == y && t.pageheight == gp.curr.pageSize.H))
	v_ensures("C07.run-measured", sp_measured(t) && sp_celled(t))
	v_ensures("C07.cursor", v_eqF(gp.curr.X, t.x+t.textWidthPdfUnit) && gp.curr.Y == y)
	v_ensures("C18.transparency", sp_current(gp, t.cellOpt.extGStateIndexes))
	_ = old
	return err
}

// sp_allPresent: the font has every character of the text.
func sp_allPresent(f *SubsetFontObj, text string) bool {
	return v_forall(0, len([]rune(text)), func(j int) bool { return sp_hasGlyph(f, []rune(text)[j]) })
}

// @ contract (*GoPdf).MeasureTextWidth props=C06,C07,C10
func vc_MeasureTextWidth(gp *GoPdf, text string) (float64, error) {
	v_requires(gp != nil && sp_fontReady(gp.curr.FontISubset))
	f := gp.curr.FontISubset
	m := f.CharacterToGlyphIndex
	size, spacing := gp.curr.FontSize, gp.curr.CharSpacing
	v_modifies(&m.Keys, &m.Vals, m.keyIndexs, &f.addCharsBuff)
	w, err := gp.MeasureTextWidth(text)
	lm_sameRunes(f, v_callStr("AddChars"), text, len([]rune(text)), sp_spaceUnits(f, size, spacing))
	v_ensures("C07.measures", err == nil && sp_fontReady(f))
	v_ensures("C06+C07.measured-width", !sp_allPresent(f, text) || v_eqF(w*sp_docFactor(gp), sp_textWidth(f, text, size, spacing)))
	return w, err
}

// @ contract (*GoPdf).MeasureCellHeightByText props=C06,C07,C10
func vc_MeasureCellHeightByText(gp *GoPdf, text string) (float64, error) {
	v_requires(gp != nil && sp_fontReady(gp.curr.FontISubset))
	f := gp.curr.FontISubset
	m := f.CharacterToGlyphIndex
	v_modifies(&m.Keys, &m.Vals, m.keyIndexs, &f.addCharsBuff)
	h, err := gp.MeasureCellHeightByText(text)
	v_ensures("C07.measures", err == nil && sp_fontReady(f))
	v_ensures("C06+C07.measured-height", v_eqF(h*sp_docFactor(gp), sp_lineHeight(f, gp.curr.FontSize)))
	return h, err
}

// sp_scaledRect: the run's cell in points.
// @ merge
func sp_scaledRect(r *Rect, gp *GoPdf) float64 {
	if r.unitOverride.Unit != UnitUnset {
		return sp_factor(r.unitOverride.Unit, r.unitOverride.ConversionForUnit)
	}
	return sp_docFactor(gp)
}

// sp_optionsOf: the run has the look the caller asked for.
func sp_optionsOf(t *cacheContentText, o *CellOption) bool {
	p := &t.cellOpt
	return p.Align == o.Align && p.Border == o.Border && p.Float == o.Float && p.CoefUnderlinePosition == o.CoefUnderlinePosition &&
		p.CoefLineHeight == o.CoefLineHeight && p.CoefUnderlineThickness == o.CoefUnderlineThickness
}

// @ check (*GoPdf).CellWithOption props=C06,C07,C08,C10,C18
func vc_CellWithOption(gp *GoPdf, rectangle *Rect, text string, opt CellOption) error {
	v_requires(sp_canWrite(gp) && opt.Transparency == nil && len(opt.extGStateIndexes) == 0)
	if gp.indexOfContent != -1 {
		v_requires(sp_contentOf(gp, gp.pdfObjs[gp.indexOfContent]))
	}
	page, objs := sp_page(gp), v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	last := sp_lastRun(before)
	x, y := gp.curr.X, gp.curr.Y
	f := gp.curr.FontISubset
	m := f.CharacterToGlyphIndex
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&last.text, &last.cellWidthPdfUnit, &last.cellHeightPdfUnit, &last.textWidthPdfUnit)
	v_modifies(&gp.pdfObjs, &gp.indexOfContent, &gp.curr.X, &gp.curr.Y)
	v_modifies(&m.Keys, &m.Vals, m.keyIndexs, &f.addCharsBuff)
	err := gp.CellWithOption(rectangle, text, opt)
	t := sp_run(gp)
	merged := len(sp_items(sp_page(gp))) == len(before)
	v_ensures("C08.in-order", err == nil && sp_grown(gp, page, before, objs) && t != nil)
	v_ensures("C08.run-as-set", sp_asSet(t, gp) && t.contentType == ContentTypeCell)
	v_ensures("C08.run-options", sp_optionsOf(t, &opt))
	v_ensures("C08+C10.text-shown", v_implies(!merged, sp_shown(f, text, t.text)))
	v_ensures("C08.run-continued", v_implies(merged, t == last && rectangle == nil))
	v_ensures("C07.run-placed", v_implies(!merged, t.x == x && t.y == y && t.pageheight == gp.curr.pageSize.H))
	v_ensures("C06+C07.cell", v_implies(rectangle != nil, v_eqF(t.cellWidthPdfUnit, rectangle.W*sp_scaledRect(rectangle, gp)) && v_eqF(t.cellHeightPdfUnit, rectangle.H*sp_scaledRect(rectangle, gp))))
	v_ensures("C07.run-measured", sp_measured(t))
	v_ensures("C07.cursor-x", v_eqF(gp.curr.X, sp_cursorX(t, x)))
	v_ensures("C07.cursor-y", v_eqF(gp.curr.Y, sp_cursorY(t, y)))
	v_ensures("C18.current-transparency", sp_current(gp, t.cellOpt.extGStateIndexes))
	return err
}

// @ check (*GoPdf).CellWithOption props=C08,C18 timeout=300
func vc_CellWithTransparency(gp *GoPdf, rectangle *Rect, text string, opt CellOption) error {
	v_requires(sp_canWrite(gp) && sp_transOK(gp) && opt.Transparency != nil && len(opt.extGStateIndexes) == 0)
	if gp.indexOfContent != -1 {
		v_requires(sp_contentOf(gp, gp.pdfObjs[gp.indexOfContent]))
	}
	page, objs := sp_page(gp), v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	last := sp_lastRun(before)
	f := gp.curr.FontISubset
	m := f.CharacterToGlyphIndex
	tr := opt.Transparency
	alpha, mode := sp_alphaOf(tr), sp_modeAsked(tr)
	pr := gp.pdfObjs[gp.indexOfProcSet].(*ProcSetObj)
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&last.text, &last.cellWidthPdfUnit, &last.cellHeightPdfUnit, &last.textWidthPdfUnit)
	v_modifies(&gp.pdfObjs, &gp.indexOfContent, &gp.curr.X, &gp.curr.Y)
	v_modifies(&m.Keys, &m.Vals, m.keyIndexs, &f.addCharsBuff)
	v_modifies(&pr.ExtGStates, gp.curr.extGStatesMap.table, gp.curr.transparencyMap.table)
	err := gp.CellWithOption(rectangle, text, opt)
	v_ensures("C18.refused", v_iff(err == nil, tr == nil || 0 <= alpha && alpha <= 1 && sp_knownMode(mode)))
	if err != nil {
		v_ensures("C08.refused-shows-nothing", gp.indexOfContent == -1 || len(sp_items(sp_page(gp))) == len(before))
		return err
	}
	t := sp_run(gp)
	v_ensures("C08.in-order", sp_grown(gp, page, before, objs) && t != nil)
	gs := t.cellOpt.extGStateIndexes
	v_ensures("C18.own-transparency", len(gs) == 0 && alpha == 1 && mode == "/Normal" || len(gs) == 1 && sp_gsAt(gp, gs[0]-1, sp_stateId(alpha, mode)))
	v_ensures("C08.run-options", sp_optionsOf(t, &opt))
	return nil
}
