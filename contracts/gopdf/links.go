package gopdf

// C16: links and anchors.

// sp_pageOK: a page has been added and is the current one.
// @ merge
func sp_pageOK(gp *GoPdf) bool {
	i := gp.curr.IndexOfPageObj
	return gp.curr.pageSize != nil && 0 <= i && i < len(gp.pdfObjs) && sp_isPage(gp.pdfObjs[i]) && gp.pdfObjs[i].(*PageObj) != nil
}

// sp_linked: one annotation was added, as the last object and as the last link
// of the current page; nothing else changed.
func sp_linked(gp *GoPdf, before []IObj, links []int, page *PageObj) bool {
	n, k := len(before), len(links)
	objs := gp.pdfObjs
	return len(objs) == n+1 && v_forall(0, n, func(j int) bool { return objs[j] == before[j] }) &&
		len(page.LinkObjIds) == k+1 && page.LinkObjIds[k] == n+1 && v_forall(0, k, func(j int) bool { return page.LinkObjIds[j] == links[j] })
}

// sp_annotAt: the annotation has this rectangle: lower left corner, width and
// height in points, upwards from the bottom of the page.
func sp_annotAt(o IObj, gp *GoPdf, x, y, w, h float64) bool {
	a, ok := o.(annotObj)
	return ok && a.GetRoot != nil && a.GetRoot() == gp && v_eqF(a.x, x) && v_eqF(a.y, y) && v_eqF(a.w, w) && v_eqF(a.h, h)
}

// @ contract (*GoPdf).AddExternalLink props=C16,C06
func vc_AddExternalLink(gp *GoPdf, url string, x, y, w, h float64) {
	v_requires(gp != nil && sp_pageOK(gp))
	before := v_snapObjs(gp.pdfObjs)
	page := gp.pdfObjs[gp.curr.IndexOfPageObj].(*PageObj)
	links := v_snapInts(page.LinkObjIds)
	height := gp.curr.pageSize.H
	f := sp_factor(gp.config.Unit, gp.config.ConversionForUnit)
	v_modifies(&gp.pdfObjs, &page.LinkObjIds)
	gp.AddExternalLink(url, x, y, w, h)
	v_ensures("C16.one-annotation-on-this-page", sp_linked(gp, before, links, page))
	v_ensures("C16+C06.rectangle", sp_annotAt(gp.pdfObjs[len(before)], gp, x*f, height-y*f, w*f, h*f))
	v_ensures("C16.address", gp.pdfObjs[len(before)].(annotObj).url == url && gp.pdfObjs[len(before)].(annotObj).anchor == "")
}

// @ contract (*GoPdf).AddInternalLink props=C16,C06
func vc_AddInternalLink(gp *GoPdf, anchor string, x, y, w, h float64) {
	v_requires(gp != nil && sp_pageOK(gp))
	before := v_snapObjs(gp.pdfObjs)
	page := gp.pdfObjs[gp.curr.IndexOfPageObj].(*PageObj)
	links := v_snapInts(page.LinkObjIds)
	height := gp.curr.pageSize.H
	f := sp_factor(gp.config.Unit, gp.config.ConversionForUnit)
	v_modifies(&gp.pdfObjs, &page.LinkObjIds)
	gp.AddInternalLink(anchor, x, y, w, h)
	v_ensures("C16.one-annotation-on-this-page", sp_linked(gp, before, links, page))
	v_ensures("C16+C06.rectangle", sp_annotAt(gp.pdfObjs[len(before)], gp, x*f, height-y*f, w*f, h*f))
	v_ensures("C16.anchor", gp.pdfObjs[len(before)].(annotObj).anchor == anchor && gp.pdfObjs[len(before)].(annotObj).url == "")
}

func v_snapAnchors(m map[string]anchorOption) map[string]anchorOption {
	c := map[string]anchorOption{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

// @ contract (*GoPdf).SetAnchor props=C16
func vc_SetAnchor(gp *GoPdf, name string) {
	v_requires(gp != nil && sp_pageOK(gp) && gp.anchors != nil)
	before := v_snapAnchors(gp.anchors)
	v_modifies(gp.anchors)
	gp.SetAnchor(name)
	a, ok := gp.anchors[name]
	v_ensures("C16.anchor-here", ok && a.page == gp.curr.IndexOfPageObj && v_eqF(a.y, gp.curr.pageSize.H-gp.curr.Y+gp.curr.FontSize))
	v_ensures("C16.other-anchors-kept", v_forallStr(func(k string) bool {
		p, in := gp.anchors[k]
		q, was := before[k]
		return k == name || in == was && (!in || p == q)
	}))
}
