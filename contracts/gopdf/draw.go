package gopdf

import "strings"

// C14, C15, C06, C18, C19: the drawing calls. Each appends one element to the
// current page's content, after those that are there.

// @ merge
func sp_canDraw(gp *GoPdf) bool {
	return gp != nil && sp_contentOK(gp) && gp.curr.pageSize != nil
}

// sp_page: the content stream drawing goes to, nil while the page has none.
// @ merge
func sp_page(gp *GoPdf) *ContentObj {
	if gp.indexOfContent < 0 {
		return nil
	}
	return gp.pdfObjs[gp.indexOfContent].(*ContentObj)
}

func sp_items(c *ContentObj) []ICacheContent {
	if c == nil {
		return nil
	}
	return c.listCache.caches
}

// sp_added: exactly one element was appended to the content that was current.
func sp_added(gp *GoPdf, page *ContentObj, before []ICacheContent, objs []IObj) bool {
	n, c := len(before), sp_page(gp)
	return sp_contentOK(gp) && c != nil && (page == nil || c == page) && len(c.listCache.caches) == n+1 &&
		v_forall(0, n, func(j int) bool { return c.listCache.caches[j] == before[j] }) &&
		len(gp.pdfObjs) >= len(objs) && v_forall(0, len(objs), func(j int) bool { return gp.pdfObjs[j] == objs[j] })
}

func sp_newest(gp *GoPdf) ICacheContent {
	l := sp_page(gp).listCache.caches
	return l[len(l)-1]
}

// sp_gsOf: the graphics states an element is drawn with.
// @ merge
func sp_gsOf(c ICacheContent) []int {
	switch a := c.(type) {
	case *cacheContentLine:
		return a.opts.extGStateIndexes
	case *cacheContentPolygon:
		return a.opts.extGStateIndexes
	case cacheContentRectangle:
		return a.extGStateIndexes
	case *cacheContentRectangle:
		return a.extGStateIndexes
	case *cacheContentOval:
		return a.extGStateIndexes
	case *cacheContentCurve:
		return a.extGStateIndexes
	case *cacheContentImage:
		return a.extGStateIndexes
	}
	return nil
}

// sp_current: the graphics states of the current transparency.
func sp_current(gp *GoPdf, gs []int) bool {
	t := gp.curr.transparency
	if t == nil {
		return len(gs) == 0
	}
	return len(gs) == 1 && gs[0] == t.extGStateIndex
}

// sp_points: the points in points (1/72 inch).
func sp_points(p, q []Point, f float64) bool {
	return len(p) == len(q) && v_forall(0, len(p), func(i int) bool { return v_eqF(p[i].X, q[i].X*f) && v_eqF(p[i].Y, q[i].Y*f) })
}

// @ check (*GoPdf).SetLineWidth props=C06,C14
func vc_SetLineWidth(gp *GoPdf, width float64) {
	v_requires(sp_canDraw(gp))
	page, objs := sp_page(gp), v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	h, f := gp.curr.pageSize.H, sp_docFactor(gp)
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&gp.pdfObjs, &gp.indexOfContent, &gp.curr.lineWidth)
	gp.SetLineWidth(width)
	v_ensures("C14.appended", sp_added(gp, page, before, objs))
	v_ensures("C06+C14.line-width", v_eqText(sp_text(sp_newest(gp)), sp_lineWidthText(width*f)))
	v_ensures("C06+C14.border-width", v_eqF(gp.curr.lineWidth, width*f))
	_, _ = h, f
}

// @ check (*GoPdf).SetLineType props=C14
func vc_SetLineType(gp *GoPdf, t string) {
	v_requires(sp_canDraw(gp))
	page, objs := sp_page(gp), v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	h, f := gp.curr.pageSize.H, sp_docFactor(gp)
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&gp.pdfObjs, &gp.indexOfContent)
	gp.SetLineType(t)
	v_ensures("C14.appended", sp_added(gp, page, before, objs))
	v_ensures("C14.line-type", v_eqText(sp_text(sp_newest(gp)), sp_lineTypeText(t)))
	_, _ = h, f
}

// @ check (*GoPdf).SetCustomLineType props=C06,C14
func vc_SetCustomLineType(gp *GoPdf, dashes []float64, phase float64) {
	v_requires(sp_canDraw(gp))
	page, objs := sp_page(gp), v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	h, f := gp.curr.pageSize.H, sp_docFactor(gp)
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&gp.pdfObjs, &gp.indexOfContent)
	gp.SetCustomLineType(dashes, phase)
	v_ensures("C14.appended", sp_added(gp, page, before, objs))
	c, ok := sp_newest(gp).(*cacheContentCustomLineType)
	v_ensures("C06+C14.dashes", ok && len(c.dashArray) == len(dashes) && v_eqF(c.dashPhase, phase*f) && v_forall(0, len(dashes), func(i int) bool { return v_eqF(c.dashArray[i], dashes[i]*f) }))
	_, _ = h, f
}

// @ check (*GoPdf).Line props=C06,C14,C18
func vc_Line(gp *GoPdf, x1, y1, x2, y2 float64) {
	v_requires(sp_canDraw(gp))
	page, objs := sp_page(gp), v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	h, f := gp.curr.pageSize.H, sp_docFactor(gp)
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&gp.pdfObjs, &gp.indexOfContent)
	gp.Line(x1, y1, x2, y2)
	v_ensures("C14.appended", sp_added(gp, page, before, objs))
	v_ensures("C06+C14.line", v_eqText(sp_text(sp_newest(gp)), sp_lineText(h, x1*f, y1*f, x2*f, y2*f, sp_gsOf(sp_newest(gp)))))
	v_ensures("C18.current-transparency", sp_current(gp, sp_gsOf(sp_newest(gp))))
	_, _ = h, f
}

// @ check (*GoPdf).Oval props=C06,C14,C18
func vc_Oval(gp *GoPdf, x1, y1, x2, y2 float64) {
	v_requires(sp_canDraw(gp))
	page, objs := sp_page(gp), v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	h, f := gp.curr.pageSize.H, sp_docFactor(gp)
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&gp.pdfObjs, &gp.indexOfContent)
	gp.Oval(x1, y1, x2, y2)
	v_ensures("C14.appended", sp_added(gp, page, before, objs))
	v_ensures("C06+C14.oval", v_eqText(sp_text(sp_newest(gp)), sp_ovalText(h, x1*f, y1*f, x2*f, y2*f, sp_gsOf(sp_newest(gp)))))
	v_ensures("C18.current-transparency", sp_current(gp, sp_gsOf(sp_newest(gp))))
	_, _ = h, f
}

// @ check (*GoPdf).Curve props=C06,C14,C18
func vc_Curve(gp *GoPdf, x0, y0, x1, y1, x2, y2, x3, y3 float64, style string) {
	v_requires(sp_canDraw(gp))
	page, objs := sp_page(gp), v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	h, f := gp.curr.pageSize.H, sp_docFactor(gp)
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&gp.pdfObjs, &gp.indexOfContent)
	gp.Curve(x0, y0, x1, y1, x2, y2, x3, y3, style)
	v_ensures("C14.appended", sp_added(gp, page, before, objs))
	v_ensures("C06+C14.curve", v_eqText(sp_text(sp_newest(gp)), sp_curveText(h, x0*f, y0*f, x1*f, y1*f, x2*f, y2*f, x3*f, y3*f, strings.ToUpper(strings.TrimSpace(style)), sp_gsOf(sp_newest(gp)))))
	v_ensures("C18.current-transparency", sp_current(gp, sp_gsOf(sp_newest(gp))))
	_, _ = h, f
}

// @ check (*GoPdf).RectFromLowerLeft props=C06,C14,C18
func vc_RectFromLowerLeft(gp *GoPdf, x, y, w, ht float64) {
	v_requires(sp_canDraw(gp))
	page, objs := sp_page(gp), v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	h, f := gp.curr.pageSize.H, sp_docFactor(gp)
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&gp.pdfObjs, &gp.indexOfContent)
	gp.RectFromLowerLeft(x, y, w, ht)
	v_ensures("C14.appended", sp_added(gp, page, before, objs))
	v_ensures("C06+C14.rectangle", v_eqText(sp_text(sp_newest(gp)), sp_rectText(h, x*f, y*f, w*f, ht*f, "S", sp_gsOf(sp_newest(gp)))))
	v_ensures("C18.current-transparency", sp_current(gp, sp_gsOf(sp_newest(gp))))
	_, _ = h, f
}

// @ check (*GoPdf).RectFromLowerLeftWithStyle props=C06,C14,C18
func vc_RectFromLowerLeftWithStyle(gp *GoPdf, x, y, w, ht float64, style string) {
	v_requires(sp_canDraw(gp))
	page, objs := sp_page(gp), v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	h, f := gp.curr.pageSize.H, sp_docFactor(gp)
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&gp.pdfObjs, &gp.indexOfContent)
	gp.RectFromLowerLeftWithStyle(x, y, w, ht, style)
	v_ensures("C14.appended", sp_added(gp, page, before, objs))
	v_ensures("C06+C14.rectangle", v_eqText(sp_text(sp_newest(gp)), sp_rectText(h, x*f, y*f, w*f, ht*f, sp_rectStyle(style), sp_gsOf(sp_newest(gp)))))
	v_ensures("C18.current-transparency", sp_current(gp, sp_gsOf(sp_newest(gp))))
	_, _ = h, f
}

// @ check (*GoPdf).RectFromUpperLeft props=C06,C14,C18
func vc_RectFromUpperLeft(gp *GoPdf, x, y, w, ht float64) {
	v_requires(sp_canDraw(gp))
	page, objs := sp_page(gp), v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	h, f := gp.curr.pageSize.H, sp_docFactor(gp)
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&gp.pdfObjs, &gp.indexOfContent)
	gp.RectFromUpperLeft(x, y, w, ht)
	v_ensures("C14.appended", sp_added(gp, page, before, objs))
	v_ensures("C06+C14.rectangle", v_eqText(sp_text(sp_newest(gp)), sp_rectText(h, x*f, (y+ht)*f, w*f, ht*f, "S", sp_gsOf(sp_newest(gp)))))
	v_ensures("C18.current-transparency", sp_current(gp, sp_gsOf(sp_newest(gp))))
	_, _ = h, f
}

// @ check (*GoPdf).RectFromUpperLeftWithStyle props=C06,C14,C18
func vc_RectFromUpperLeftWithStyle(gp *GoPdf, x, y, w, ht float64, style string) {
	v_requires(sp_canDraw(gp))
	page, objs := sp_page(gp), v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	h, f := gp.curr.pageSize.H, sp_docFactor(gp)
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&gp.pdfObjs, &gp.indexOfContent)
	gp.RectFromUpperLeftWithStyle(x, y, w, ht, style)
	v_ensures("C14.appended", sp_added(gp, page, before, objs))
	v_ensures("C06+C14.rectangle", v_eqText(sp_text(sp_newest(gp)), sp_rectText(h, x*f, (y+ht)*f, w*f, ht*f, sp_rectStyle(style), sp_gsOf(sp_newest(gp)))))
	v_ensures("C18.current-transparency", sp_current(gp, sp_gsOf(sp_newest(gp))))
	_, _ = h, f
}

// sp_rectStyle: the paint operator of a style.
// @ merge
func sp_rectStyle(style string) string {
	switch style {
	case "F":
		return "f"
	case "FD", "DF":
		return "B"
	}
	return "S"
}

// @ check (*GoPdf).Polygon props=C06,C14,C18
func vc_Polygon(gp *GoPdf, points []Point, style string) {
	v_requires(sp_canDraw(gp))
	page, objs := sp_page(gp), v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	h, f := gp.curr.pageSize.H, sp_docFactor(gp)
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&gp.pdfObjs, &gp.indexOfContent)
	gp.Polygon(points, style)
	v_ensures("C14.appended", sp_added(gp, page, before, objs))
	c, ok := sp_newest(gp).(*cacheContentPolygon)
	v_ensures("C06+C14.corners", ok && sp_points(c.points, points, f))
	v_ensures("C14.polygon", v_eqText(sp_text(sp_newest(gp)), sp_polyText(h, c.points, style, sp_gsOf(sp_newest(gp)))))
	v_ensures("C18.current-transparency", sp_current(gp, sp_gsOf(sp_newest(gp))))
	_, _ = h, f
}

// @ check (*GoPdf).ClipPolygon props=C06,C14
func vc_ClipPolygon(gp *GoPdf, points []Point) {
	v_requires(sp_canDraw(gp))
	page, objs := sp_page(gp), v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	h, f := gp.curr.pageSize.H, sp_docFactor(gp)
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&gp.pdfObjs, &gp.indexOfContent)
	gp.ClipPolygon(points)
	v_ensures("C14.appended", sp_added(gp, page, before, objs))
	c, ok := sp_newest(gp).(*cacheContentClipPolygon)
	v_ensures("C06+C14.corners", ok && sp_points(c.points, points, f))
	v_ensures("C14.clip", v_eqText(sp_text(sp_newest(gp)), sp_clipText(h, c.points)))
	_, _ = h, f
}

// @ loop (*GoPdf).SetCustomLineType 0
func vl_SetCustomLineType(gp *GoPdf, dashArray, dashes []float64, iter_ int) {
	f := sp_docFactor(gp)
	v_inv(len(dashes) == len(dashArray) && v_forall(0, iter_, func(i int) bool { return v_eqF(dashes[i], dashArray[i]*f) }))
}

// @ loop (*GoPdf).Polygon 0
func vl_Polygon(gp *GoPdf, points, pointReals []Point, iter_ int) {
	f := sp_docFactor(gp)
	v_inv(len(pointReals) == iter_ && v_forall(0, iter_, func(i int) bool {
		return v_eqF(pointReals[i].X, points[i].X*f) && v_eqF(pointReals[i].Y, points[i].Y*f)
	}))
}

// @ loop (*GoPdf).ClipPolygon 0
func vl_ClipPolygon(gp *GoPdf, points, pointReals []Point, iter_ int) {
	f := sp_docFactor(gp)
	v_inv(len(pointReals) == iter_ && v_forall(0, iter_, func(i int) bool {
		return v_eqF(pointReals[i].X, points[i].X*f) && v_eqF(pointReals[i].Y, points[i].Y*f)
	}))
}

// @ check (*GoPdf).Rotate props=C06,C14
func vc_Rotate(gp *GoPdf, angle, x, y float64) {
	v_requires(sp_canDraw(gp))
	page, objs := sp_page(gp), v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	h, f := gp.curr.pageSize.H, sp_docFactor(gp)
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&gp.pdfObjs, &gp.indexOfContent)
	gp.Rotate(angle, x, y)
	v_ensures("C14.appended", sp_added(gp, page, before, objs))
	v_ensures("C06+C14.rotation", v_eqText(sp_text(sp_newest(gp)), sp_rotateText(false, x*f, y*f, angle, h)))
	_, _ = h, f
}

// @ check (*GoPdf).RotateReset props=C14
func vc_RotateReset(gp *GoPdf) {
	v_requires(sp_canDraw(gp))
	page, objs := sp_page(gp), v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	h, f := gp.curr.pageSize.H, sp_docFactor(gp)
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&gp.pdfObjs, &gp.indexOfContent)
	gp.RotateReset()
	v_ensures("C14.appended", sp_added(gp, page, before, objs))
	v_ensures("C14.restored", v_eqText(sp_text(sp_newest(gp)), "Q\n"))
	_, _ = h, f
}

// @ check (*GoPdf).SaveGraphicsState props=C14
func vc_SaveGraphicsState(gp *GoPdf) {
	v_requires(sp_canDraw(gp))
	page, objs := sp_page(gp), v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	h, f := gp.curr.pageSize.H, sp_docFactor(gp)
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&gp.pdfObjs, &gp.indexOfContent)
	gp.SaveGraphicsState()
	v_ensures("C14.appended", sp_added(gp, page, before, objs))
	v_ensures("C14.saved", v_eqText(sp_text(sp_newest(gp)), "q\n"))
	_, _ = h, f
}

// @ check (*GoPdf).RestoreGraphicsState props=C14
func vc_RestoreGraphicsState(gp *GoPdf) {
	v_requires(sp_canDraw(gp))
	page, objs := sp_page(gp), v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	h, f := gp.curr.pageSize.H, sp_docFactor(gp)
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&gp.pdfObjs, &gp.indexOfContent)
	gp.RestoreGraphicsState()
	v_ensures("C14.appended", sp_added(gp, page, before, objs))
	v_ensures("C14.restored", v_eqText(sp_text(sp_newest(gp)), "Q\n"))
	_, _ = h, f
}

// @ check (*GoPdf).SetStrokeColor props=C15
func vc_SetStrokeColor(gp *GoPdf, r, g, b uint8) {
	v_requires(sp_canDraw(gp))
	page, objs := sp_page(gp), v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	h, f := gp.curr.pageSize.H, sp_docFactor(gp)
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&gp.pdfObjs, &gp.indexOfContent)
	gp.SetStrokeColor(r, g, b)
	v_ensures("C14.appended", sp_added(gp, page, before, objs))
	v_ensures("C15.stroke-colour", v_eqText(sp_text(sp_newest(gp)), sp_rgbText(r, g, b, "RG")))
	_, _ = h, f
}

// @ check (*GoPdf).SetFillColor props=C15
func vc_SetFillColor(gp *GoPdf, r, g, b uint8) {
	v_requires(sp_canDraw(gp))
	page, objs := sp_page(gp), v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	h, f := gp.curr.pageSize.H, sp_docFactor(gp)
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&gp.pdfObjs, &gp.indexOfContent)
	gp.SetFillColor(r, g, b)
	v_ensures("C14.appended", sp_added(gp, page, before, objs))
	v_ensures("C15.fill-colour", v_eqText(sp_text(sp_newest(gp)), sp_rgbText(r, g, b, "rg")))
	_, _ = h, f
}

// @ check (*GoPdf).SetStrokeColorCMYK props=C15
func vc_SetStrokeColorCMYK(gp *GoPdf, c, m, y, k uint8) {
	v_requires(sp_canDraw(gp))
	page, objs := sp_page(gp), v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	h, f := gp.curr.pageSize.H, sp_docFactor(gp)
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&gp.pdfObjs, &gp.indexOfContent)
	gp.SetStrokeColorCMYK(c, m, y, k)
	v_ensures("C14.appended", sp_added(gp, page, before, objs))
	v_ensures("C15.stroke-colour", v_eqText(sp_text(sp_newest(gp)), sp_cmykText(c, m, y, k, "K")))
	_, _ = h, f
}

// @ check (*GoPdf).SetFillColorCMYK props=C15
func vc_SetFillColorCMYK(gp *GoPdf, c, m, y, k uint8) {
	v_requires(sp_canDraw(gp))
	page, objs := sp_page(gp), v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	h, f := gp.curr.pageSize.H, sp_docFactor(gp)
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&gp.pdfObjs, &gp.indexOfContent)
	gp.SetFillColorCMYK(c, m, y, k)
	v_ensures("C14.appended", sp_added(gp, page, before, objs))
	v_ensures("C15.fill-colour", v_eqText(sp_text(sp_newest(gp)), sp_cmykText(c, m, y, k, "k")))
	_, _ = h, f
}

// sp_clamp: a gray level within its range.
// @ merge
func sp_clamp(v float64) float64 {
	if v < 0 {
		return 0
	}
	if v > 1 {
		return 1
	}
	return v
}

// @ check (*GoPdf).SetGrayFill props=C15
func vc_SetGrayFill(gp *GoPdf, v float64) {
	v_requires(sp_canDraw(gp))
	page, objs := sp_page(gp), v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	h, f := gp.curr.pageSize.H, sp_docFactor(gp)
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&gp.pdfObjs, &gp.indexOfContent, &gp.curr.txtColorMode, &gp.curr.grayFill)
	gp.SetGrayFill(v)
	v_ensures("C14.appended", sp_added(gp, page, before, objs))
	v_ensures("C15.fill-gray", v_eqText(sp_text(sp_newest(gp)), sp_grayText(sp_clamp(v), "g")))
	v_ensures("C15.text-gray", gp.curr.txtColorMode == "gray" && gp.curr.grayFill == v)
	_, _ = h, f
}

// @ check (*GoPdf).SetGrayStroke props=C15
func vc_SetGrayStroke(gp *GoPdf, v float64) {
	v_requires(sp_canDraw(gp))
	page, objs := sp_page(gp), v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	h, f := gp.curr.pageSize.H, sp_docFactor(gp)
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&gp.pdfObjs, &gp.indexOfContent, &gp.curr.grayStroke)
	gp.SetGrayStroke(v)
	v_ensures("C14.appended", sp_added(gp, page, before, objs))
	v_ensures("C15.stroke-gray", v_eqText(sp_text(sp_newest(gp)), sp_grayText(sp_clamp(v), "G")))
	_, _ = h, f
}

// @ check (*GoPdf).SetTextColor props=C15
func vc_SetTextColor(gp *GoPdf, r, g, b uint8) {
	v_requires(gp != nil)
	v_modifies(&gp.curr.txtColorMode, &gp.curr.txtColor)
	gp.SetTextColor(r, g, b)
	v_ensures("C15.text-colour", gp.curr.txtColorMode == "color" && v_eqText(sp_text(gp.curr.txtColor), sp_rgbText(r, g, b, "rg")))
}

// @ check (*GoPdf).SetTextColorCMYK props=C15
func vc_SetTextColorCMYK(gp *GoPdf, c, m, y, k uint8) {
	v_requires(gp != nil)
	v_modifies(&gp.curr.txtColorMode, &gp.curr.txtColor)
	gp.SetTextColorCMYK(c, m, y, k)
	v_ensures("C15.text-colour", gp.curr.txtColorMode == "color" && v_eqText(sp_text(gp.curr.txtColor), sp_cmykText(c, m, y, k, "k")))
}

// @ check (*GoPdf).RectFromLowerLeftWithOpts props=C06,C14,C18
func vc_RectFromLowerLeftWithOpts(gp *GoPdf, opts DrawableRectOptions) error {
	v_requires(sp_canDraw(gp) && sp_transOK(gp) && len(opts.extGStateIndexes) == 0)
	page, objs := sp_page(gp), v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	h, f := gp.curr.pageSize.H, sp_docFactor(gp)
	t := opts.Transparency
	alpha, mode := sp_alphaOf(t), sp_modeAsked(t)
	pr := gp.pdfObjs[gp.indexOfProcSet].(*ProcSetObj)
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&gp.pdfObjs, &gp.indexOfContent, &pr.ExtGStates, gp.curr.extGStatesMap.table, gp.curr.transparencyMap.table)
	err := gp.RectFromLowerLeftWithOpts(opts)
	v_ensures("C18.refused", v_iff(err == nil, t == nil || 0 <= alpha && alpha <= 1 && sp_knownMode(mode)))
	if err != nil {
		v_ensures("C14.refused-draws-nothing", gp.indexOfContent == -1 || len(sp_items(sp_page(gp))) == len(before))
		return err
	}
	gs := sp_gsOf(sp_newest(gp))
	v_ensures("C14.appended", sp_added(gp, page, before, objs))
	v_ensures("C06+C14.rectangle", v_eqText(sp_text(sp_newest(gp)), sp_rectText(h, opts.X*f, opts.Y*f, opts.W*f, opts.H*f, sp_paint(string(opts.PaintStyle)), gs)))
	v_ensures("C18.current-transparency", t != nil || sp_current(gp, gs))
	v_ensures("C18.own-transparency", t == nil || len(gs) == 0 && alpha == 1 && mode == "/Normal" || len(gs) == 1 && sp_gsAt(gp, gs[0]-1, sp_stateId(alpha, mode)))
	return nil
}

// @ check (*GoPdf).RectFromUpperLeftWithOpts props=C06,C14,C18
func vc_RectFromUpperLeftWithOpts(gp *GoPdf, opts DrawableRectOptions) error {
	v_requires(sp_canDraw(gp) && sp_transOK(gp) && len(opts.extGStateIndexes) == 0)
	page, objs := sp_page(gp), v_snapObjs(gp.pdfObjs)
	before := v_snapItems(sp_items(page))
	h, f := gp.curr.pageSize.H, sp_docFactor(gp)
	t := opts.Transparency
	alpha, mode := sp_alphaOf(t), sp_modeAsked(t)
	pr := gp.pdfObjs[gp.indexOfProcSet].(*ProcSetObj)
	if page != nil {
		v_modifies(&page.listCache.caches)
	}
	v_modifies(&gp.pdfObjs, &gp.indexOfContent, &pr.ExtGStates, gp.curr.extGStatesMap.table, gp.curr.transparencyMap.table)
	err := gp.RectFromUpperLeftWithOpts(opts)
	v_ensures("C18.refused", v_iff(err == nil, t == nil || 0 <= alpha && alpha <= 1 && sp_knownMode(mode)))
	if err != nil {
		v_ensures("C14.refused-draws-nothing", gp.indexOfContent == -1 || len(sp_items(sp_page(gp))) == len(before))
		return err
	}
	gs := sp_gsOf(sp_newest(gp))
	v_ensures("C14.appended", sp_added(gp, page, before, objs))
	v_ensures("C06+C14.rectangle", v_eqText(sp_text(sp_newest(gp)), sp_rectText(h, opts.X*f, (opts.Y+opts.H)*f, opts.W*f, opts.H*f, sp_paint(string(opts.PaintStyle)), gs)))
	v_ensures("C18.current-transparency", t != nil || sp_current(gp, gs))
	v_ensures("C18.own-transparency", t == nil || len(gs) == 0 && alpha == 1 && mode == "/Normal" || len(gs) == 1 && sp_gsAt(gp, gs[0]-1, sp_stateId(alpha, mode)))
	return nil
}

// @ merge
func sp_paint(style string) string {
	if style == "" {
		return "S"
	}
	return style
}

// @ merge
func sp_alphaOf(t *Transparency) float64 {
	if t == nil {
		return 1
	}
	return t.Alpha
}

// @ merge
func sp_modeAsked(t *Transparency) string {
	if t == nil {
		return "/Normal"
	}
	return sp_modeOf(t.BlendModeType)
}
