package gopdf

// C19: page, margin and cursor state. Lengths are kept in points; the calls
// take and give them in the document's unit.

// @ check (*GoPdf).SetX props=C06,C19
func vc_SetX(gp *GoPdf, x float64) {
	v_requires(gp != nil)
	v_modifies(&gp.curr.X, &gp.curr.setXCount)
	n := gp.curr.setXCount
	gp.SetX(x)
	v_ensures("C06+C19.x", v_eqF(gp.curr.X, x*sp_docFactor(gp)) && gp.curr.setXCount == n+1)
	v_ensures("C06+C19.x-reads-back", v_eqF(gp.GetX(), x))
}

// @ check (*GoPdf).SetY props=C06,C19
func vc_SetY(gp *GoPdf, y float64) {
	v_requires(gp != nil)
	v_modifies(&gp.curr.Y)
	gp.SetY(y)
	v_ensures("C06+C19.y", v_eqF(gp.curr.Y, y*sp_docFactor(gp)))
	v_ensures("C06+C19.y-reads-back", v_eqF(gp.GetY(), y))
}

// @ check (*GoPdf).SetXY props=C06,C19
func vc_SetXY(gp *GoPdf, x, y float64) {
	v_requires(gp != nil)
	v_modifies(&gp.curr.X, &gp.curr.Y, &gp.curr.setXCount)
	n := gp.curr.setXCount
	gp.SetXY(x, y)
	v_ensures("C06+C19.xy", v_eqF(gp.curr.X, x*sp_docFactor(gp)) && v_eqF(gp.curr.Y, y*sp_docFactor(gp)) && gp.curr.setXCount == n+1)
	gx, gy := gp.GetX(), gp.GetY()
	v_ensures("C06+C19.xy-reads-back", v_eqF(gx, x) && v_eqF(gy, y))
}

// @ check (*GoPdf).Br props=C06,C19
func vc_Br(gp *GoPdf, h float64) {
	v_requires(gp != nil)
	y := gp.curr.Y
	v_modifies(&gp.curr.X, &gp.curr.Y)
	gp.Br(h)
	v_ensures("C06+C19.line-break", gp.curr.X == gp.margins.Left && v_eqF(gp.curr.Y, y+h*sp_docFactor(gp)))
}

// @ check (*GoPdf).SetMargins props=C06,C19
func vc_SetMargins(gp *GoPdf, l, t, r, b float64) {
	v_requires(gp != nil)
	v_modifies(&gp.margins)
	gp.SetMargins(l, t, r, b)
	f := sp_docFactor(gp)
	m := gp.margins
	v_ensures("C06+C19.margins", v_eqF(m.Left, l*f) && v_eqF(m.Top, t*f) && v_eqF(m.Right, r*f) && v_eqF(m.Bottom, b*f))
	a, c, d, e := gp.Margins()
	v_ensures("C06+C19.margins-read-back", v_eqF(a, l) && v_eqF(c, t) && v_eqF(d, r) && v_eqF(e, b))
}

// @ check (*GoPdf).SetMarginLeft props=C06,C19
func vc_SetMarginLeft(gp *GoPdf, m float64) {
	v_requires(gp != nil)
	v_modifies(&gp.margins.Left)
	gp.SetMarginLeft(m)
	back := gp.MarginLeft()
	v_ensures("C06+C19.margin", v_eqF(gp.margins.Left, m*sp_docFactor(gp)) && v_eqF(back, m))
}

// @ check (*GoPdf).SetMarginTop props=C06,C19
func vc_SetMarginTop(gp *GoPdf, m float64) {
	v_requires(gp != nil)
	v_modifies(&gp.margins.Top)
	gp.SetMarginTop(m)
	back := gp.MarginTop()
	v_ensures("C06+C19.margin", v_eqF(gp.margins.Top, m*sp_docFactor(gp)) && v_eqF(back, m))
}

// @ check (*GoPdf).SetMarginRight props=C06,C19
func vc_SetMarginRight(gp *GoPdf, m float64) {
	v_requires(gp != nil)
	v_modifies(&gp.margins.Right)
	gp.SetMarginRight(m)
	back := gp.MarginRight()
	v_ensures("C06+C19.margin", v_eqF(gp.margins.Right, m*sp_docFactor(gp)) && v_eqF(back, m))
}

// @ check (*GoPdf).SetMarginBottom props=C06,C19
func vc_SetMarginBottom(gp *GoPdf, m float64) {
	v_requires(gp != nil)
	v_modifies(&gp.margins.Bottom)
	gp.SetMarginBottom(m)
	back := gp.MarginBottom()
	v_ensures("C06+C19.margin", v_eqF(gp.margins.Bottom, m*sp_docFactor(gp)) && v_eqF(back, m))
}

// @ check (*GoPdf).SetLeftMargin props=C06,C19
func vc_SetLeftMargin(gp *GoPdf, m float64) {
	v_requires(gp != nil)
	v_modifies(&gp.margins.Left)
	gp.SetLeftMargin(m)
	v_ensures("C06+C19.margin", v_eqF(gp.margins.Left, m*sp_docFactor(gp)))
}

// @ check (*GoPdf).SetTopMargin props=C06,C19
func vc_SetTopMargin(gp *GoPdf, m float64) {
	v_requires(gp != nil)
	v_modifies(&gp.margins.Top)
	gp.SetTopMargin(m)
	v_ensures("C06+C19.margin", v_eqF(gp.margins.Top, m*sp_docFactor(gp)))
}

// @ contract (*GoPdf).AddPage props=C02,C19
func vc_AddPage(gp *GoPdf) {
	v_requires(gp != nil && gp.headerFunc == nil && gp.footerFunc == nil)
	before := v_snapObjs(gp.pdfObjs)
	n := len(before)
	left, top := gp.margins.Left, gp.margins.Top
	pages := gp.numOfPagesObj
	v_modifies(&gp.pdfObjs, &gp.indexOfContent, &gp.indexOfFirstPageObj, &gp.numOfPagesObj, &gp.curr)
	gp.AddPage()
	objs := gp.pdfObjs
	v_ensures("C02.page-appended", len(objs) == n+1 && v_forall(0, n, func(j int) bool { return objs[j] == before[j] }) && sp_isPage(objs[n]))
	v_ensures("C19.current-page", gp.curr.IndexOfPageObj == n && gp.indexOfContent == -1 && gp.numOfPagesObj == pages+1)
	v_ensures("C19.cursor", gp.curr.X == left && gp.curr.Y == top)
	v_ensures("C19.size", gp.curr.pageSize == &gp.config.PageSize)
}

// @ check (*GoPdf).SetNewY props=C19
func vc_SetNewY(gp *GoPdf, y, h float64) {
	v_requires(gp != nil && gp.headerFunc == nil && gp.footerFunc == nil && gp.curr.pageSize != nil)
	f := sp_docFactor(gp)
	fits := !(gp.curr.Y+h*f > gp.curr.pageSize.H-gp.margins.Bottom)
	n, top := len(gp.pdfObjs), gp.margins.Top
	v_modifies(&gp.pdfObjs, &gp.indexOfContent, &gp.indexOfFirstPageObj, &gp.numOfPagesObj, &gp.curr)
	gp.SetNewY(y, h)
	v_ensures("C19.stays-on-page", v_implies(fits, len(gp.pdfObjs) == n && v_eqF(gp.curr.Y, y*f)))
	v_ensures("C19.new-page", v_implies(!fits, len(gp.pdfObjs) == n+1 && sp_isPage(gp.pdfObjs[n]) && gp.curr.Y == top))
}

// @ check (*GoPdf).SetNewYIfNoOffset props=C19
func vc_SetNewYIfNoOffset(gp *GoPdf, y, h float64) {
	v_requires(gp != nil && gp.headerFunc == nil && gp.footerFunc == nil && gp.curr.pageSize != nil)
	f := sp_docFactor(gp)
	fits := !(y*f+h*f > gp.curr.pageSize.H-gp.margins.Bottom)
	n, top := len(gp.pdfObjs), gp.margins.Top
	v_modifies(&gp.pdfObjs, &gp.indexOfContent, &gp.indexOfFirstPageObj, &gp.numOfPagesObj, &gp.curr)
	gp.SetNewYIfNoOffset(y, h)
	v_ensures("C19.stays-on-page", v_implies(fits, len(gp.pdfObjs) == n && v_eqF(gp.curr.Y, y*f)))
	v_ensures("C19.new-page", v_implies(!fits, len(gp.pdfObjs) == n+1 && sp_isPage(gp.pdfObjs[n]) && gp.curr.Y == top))
}

// @ check (*GoPdf).SetNewXY props=C19
func vc_SetNewXY(gp *GoPdf, y, x, h float64) {
	v_requires(gp != nil && gp.headerFunc == nil && gp.footerFunc == nil && gp.curr.pageSize != nil)
	f := sp_docFactor(gp)
	fits := !(gp.curr.Y+h*f > gp.curr.pageSize.H-gp.margins.Bottom)
	n, top := len(gp.pdfObjs), gp.margins.Top
	v_modifies(&gp.pdfObjs, &gp.indexOfContent, &gp.indexOfFirstPageObj, &gp.numOfPagesObj, &gp.curr)
	gp.SetNewXY(y, x, h)
	v_ensures("C19.stays-on-page", v_implies(fits, len(gp.pdfObjs) == n && v_eqF(gp.curr.Y, y*f)))
	v_ensures("C19.new-page", v_implies(!fits, len(gp.pdfObjs) == n+1 && sp_isPage(gp.pdfObjs[n]) && gp.curr.Y == top))
	v_ensures("C19.x", v_eqF(gp.curr.X, x*f))
}

// sp_contentAt: the last content stream of page number no among the first n
// objects, -1 if it has none.
func sp_contentAt(objs []IObj, no, n int) int {
	if n <= 0 {
		return -1
	}
	if sp_isContent(objs[n-1]) && sp_npages(objs, n) == no {
		return n - 1
	}
	return sp_contentAt(objs, no, n-1)
}

// sp_pageNo: the index of page number no among the first n objects, -1 if there is none.
func sp_pageNo(objs []IObj, no, n int) int {
	if n <= 0 {
		return -1
	}
	if sp_isPage(objs[n-1]) && sp_npages(objs, n) == no {
		return n - 1
	}
	return sp_pageNo(objs, no, n-1)
}

// @ check (*GoPdf).SetPage props=C19
func vc_SetPage(gp *GoPdf, pageno int) error {
	v_requires(gp != nil && v_forall(0, len(gp.pdfObjs), func(j int) bool { return gp.pdfObjs[j] != nil }))
	objs := gp.pdfObjs
	n := len(objs)
	page, content := sp_pageNo(objs, pageno, n), sp_contentAt(objs, pageno, n)
	v_modifies(&gp.indexOfContent, &gp.curr)
	err := gp.SetPage(pageno)
	v_ensures("C19.no-such-page", page >= 0 || err != nil)
	v_ensures("C19.switched", err != nil || page >= 0 && gp.indexOfContent == content && gp.curr.IndexOfPageObj == page)
	v_ensures("C19.blank-page", err != nil || content >= 0 || sp_npages(objs, n) == pageno)
	v_ensures("C19.page-found", page < 0 || content < 0 || err == nil)
	v_ensures("C19.page-size", err != nil || gp.curr.pageSize == sp_sizeOfPage(gp, objs[page].(*PageObj)))
	return err
}

// @ merge
func sp_sizeOfPage(gp *GoPdf, p *PageObj) *Rect {
	if p.pageOption.PageSize != nil {
		return p.pageOption.PageSize
	}
	return &gp.config.PageSize
}

// @ loop (*GoPdf).SetPage 0
func vl_SetPage(gp *GoPdf, pageno, indexOfPage, indexOfContent, pages, iter_ int) {
	objs := gp.pdfObjs
	v_inv(pages == sp_npages(objs, iter_) && indexOfPage == sp_pageNo(objs, pageno, iter_) && indexOfContent == sp_contentAt(objs, pageno, iter_))
	v_inv(-1 <= indexOfPage && indexOfPage < iter_ && (indexOfPage == -1 || sp_isPage(objs[indexOfPage])))
	v_inv(-1 <= indexOfContent && pages >= 0 && (indexOfPage >= 0) == (1 <= pageno && pageno <= pages))
}
