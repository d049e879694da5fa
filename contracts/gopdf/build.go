package gopdf

import (
	"fmt"

	"github.com/phpdave11/gofpdi"
)

// C02: collecting the pages and their contents before a document is written.

//@ opaque sp_pageNo sp_contentAt sp_kids sp_npages sp_pageAt sp_pageContents sp_encAt

// sp_kids: the references to the pages among the first n objects, in order.
func sp_kids(objs []IObj, n int) string {
	if n <= 0 {
		return ""
	}
	return sp_kids(objs, n-1) + sp_when(sp_isPage(objs[n-1]), fmt.Sprintf(" %d 0 R ", n))
}

// @ merge
func sp_isPage(o IObj) bool {
	_, ok := o.(*PageObj)
	return ok
}

// @ merge
func sp_isContent(o IObj) bool {
	_, ok := o.(*ContentObj)
	return ok
}

// @ merge
func sp_isEncryption(o IObj) bool {
	_, ok := o.(*EncryptionObj)
	return ok
}

func sp_npages(objs []IObj, n int) int {
	if n <= 0 {
		return 0
	}
	if sp_isPage(objs[n-1]) {
		return sp_npages(objs, n-1) + 1
	}
	return sp_npages(objs, n-1)
}

// sp_pageAt: the index of the last page among the first n objects, -1 if none.
func sp_pageAt(objs []IObj, n int) int {
	if n <= 0 {
		return -1
	}
	if sp_isPage(objs[n-1]) {
		return n - 1
	}
	return sp_pageAt(objs, n-1)
}

// sp_pageContents: the references, among the first n objects, to the contents
// of the page at index p: those that stand between it and the next page.
func sp_pageContents(objs []IObj, p, n int) string {
	if n <= p+1 || n <= 0 {
		return ""
	}
	return sp_pageContents(objs, p, n-1) + sp_ownContent(objs, p, n)
}

// @ merge
func sp_ownContent(objs []IObj, p, n int) string {
	if sp_isContent(objs[n-1]) && sp_pageAt(objs, n-1) == p {
		return fmt.Sprintf(" %d 0 R ", n)
	}
	return ""
}

// sp_encAt: the number of the last encryption object among the first n, or or.
func sp_encAt(objs []IObj, n, or int) int {
	if n <= 0 {
		return or
	}
	if sp_isEncryption(objs[n-1]) {
		return n
	}
	return sp_encAt(objs, n-1, or)
}

// sp_docOK: what the calls that build a document keep true of its objects.
func sp_docOK(gp *GoPdf) bool {
	objs := gp.pdfObjs
	n := len(objs)
	return n >= 4 && gp.indexOfCatalogObj == 0 && gp.indexOfPagesObj == 1 && gp.indexOfOutlinesObj == 2 && gp.indexOfProcSet == 3 &&
		sp_isCatalog(objs[0]) && sp_isPages(objs[1]) && gp.outlines != nil &&
		sp_extrasOK(gp) &&
		v_forall(0, n, func(j int) bool { return sp_objReady(objs[j]) }) &&
		v_forall(2, n, func(j int) bool { return !sp_isCatalog(objs[j]) && !sp_isPages(objs[j]) && !sp_isFont(objs[j]) }) &&
		v_forall(0, n, func(j int) bool {
			return v_forall(0, n, func(k int) bool { return j == k || !sp_samePage(objs[j], objs[k]) })
		})
}

// @ merge
func sp_extrasOK(gp *GoPdf) bool {
	return (!gp.config.Protection.UseProtection || gp.pdfProtection != nil && sp_protOK(gp.pdfProtection)) && (!gp.isUseInfo || gp.info != nil)
}

// @ merge
func sp_samePage(a, b IObj) bool {
	p, ok := a.(*PageObj)
	q, ok2 := b.(*PageObj)
	return ok && ok2 && p == q
}

// @ merge
func sp_isFont(o IObj) bool {
	_, ok := o.(*FontObj)
	return ok
}

// @ merge
func sp_isCatalog(o IObj) bool {
	_, ok := o.(*CatalogObj)
	return ok
}

// @ merge
func sp_isPages(o IObj) bool {
	_, ok := o.(*PagesObj)
	return ok
}

// @ contract (*GoPdf).prepare props=C02 internal=1
func vc_prepare(gp *GoPdf) {
	v_requires(gp != nil && sp_docOK(gp))
	before := v_snapObjs(gp.pdfObjs)
	n0 := len(before)
	enc := gp.config.Protection.UseProtection && gp.encryptionObjID == 0
	catalog := gp.pdfObjs[0].(*CatalogObj)
	pages := gp.pdfObjs[1].(*PagesObj)
	encID := gp.encryptionObjID
	v_modifies(&gp.pdfObjs, &gp.encryptionObjID, catalog, pages)
	v_modAll("gopdf.PageObj.Contents")
	gp.prepare()
	objs := gp.pdfObjs
	n := len(objs)
	v_ensures("C02.objects-kept", n >= n0 && v_forall(0, n0, func(j int) bool { return objs[j] == before[j] }))
	v_ensures("C02.encryption-object-added", v_iff(enc, n == n0+1) && (n == n0 || n == n0+1 && sp_isEncryption(objs[n0])))
	v_ensures("C02.kids", pages.Kids == sp_kids(objs, n))
	v_ensures("C02.count", pages.PageCount == sp_npages(objs, n))
	v_ensures("C02.contents", v_forall(0, n, func(p int) bool {
		return !sp_isPage(objs[p]) || objs[p].(*PageObj).Contents == sp_pageContents(objs, p, n)
	}))
	v_ensures("C02.encryption-number", gp.encryptionObjID == sp_encAt(objs, n, encID))
	v_ensures("C02.outlines-listed", gp.outlines.Count() <= 0 || catalog.outlinesObjID == 3)
	v_ensures("C02.ready", sp_docOK(gp))
}

// @ loop (*GoPdf).prepare 0
func vl_prepare(gp *GoPdf, i, max, indexCurrPage int, pagesObj *PagesObj) {
	objs := gp.pdfObjs
	v_inv(0 <= i && i <= max && max == len(objs) && sp_docOK(gp))
	v_inv(objs[1].(*PagesObj) == pagesObj)
	v_inv(i >= len(objs) || !sp_isFont(objs[i]))
	v_inv(pagesObj.Kids == sp_kids(objs, i) && pagesObj.PageCount == sp_npages(objs, i))
	v_inv(indexCurrPage == sp_pageAt(objs, i) && -1 <= indexCurrPage && indexCurrPage < i)
	v_inv(gp.encryptionObjID == sp_encAt(objs, i, v_entryInt(func() int { return gp.encryptionObjID })))
	v_inv(v_forall(0, i, func(p int) bool {
		return !sp_isPage(objs[p]) || objs[p].(*PageObj).Contents == sp_pageContents(objs, p, i)
	}))
	v_decr(max - i)
}

// @ check (*GoPdf).addObj props=C01,C02,C03
func vc_addObj(gp *GoPdf, o IObj) int {
	v_requires(gp != nil)
	before := v_snapObjs(gp.pdfObjs)
	v_modifies(&gp.pdfObjs)
	i := gp.addObj(o)
	objs := gp.pdfObjs
	v_ensures("C01+C02+C03.registered-last", i == len(before) && len(objs) == i+1 && objs[i] == o)
	v_ensures("C01+C02+C03.numbers-kept", v_forall(0, len(before), func(j int) bool { return objs[j] == before[j] }))
	return i
}

// sp_content: the content stream drawing goes to.
//
// @ merge
func sp_contentOK(gp *GoPdf) bool {
	i := gp.indexOfContent
	return -1 <= i && i < len(gp.pdfObjs) && (i == -1 || sp_contentOf(gp, gp.pdfObjs[i]))
}

// @ merge
func sp_contentOf(gp *GoPdf, o IObj) bool {
	c, ok := o.(*ContentObj)
	return ok && c != nil && c.getRoot != nil && c.getRoot() == gp
}

// @ check (*GoPdf).getContent props=C02,C14,C19
func vc_getContent(gp *GoPdf) *ContentObj {
	v_requires(gp != nil && sp_contentOK(gp))
	before := v_snapObjs(gp.pdfObjs)
	at := gp.indexOfContent
	v_modifies(&gp.pdfObjs, &gp.indexOfContent)
	c := gp.getContent()
	objs := gp.pdfObjs
	v_ensures("C02+C14+C19.current-content", 0 <= gp.indexOfContent && gp.indexOfContent < len(objs) && objs[gp.indexOfContent] == IObj(c))
	v_ensures("C02+C14+C19.content-of-document", sp_contentOK(gp))
	v_ensures("C02+C14+C19.content-kept", at == -1 || gp.indexOfContent == at && len(objs) == len(before))
	v_ensures("C02+C14+C19.new-content-last", at != -1 || gp.indexOfContent == len(before) && len(objs) == len(before)+1 && c != nil && c.getRoot() == gp && len(c.listCache.caches) == 0)
	v_ensures("C01+C02.numbers-kept", v_forall(0, len(before), func(j int) bool { return objs[j] == before[j] }))
	return c
}

// @ contract (*GoPdf).AddPageWithOption props=C02,C19
func vc_AddPageWithOption(gp *GoPdf, opt PageOption) {
	v_requires(gp != nil && gp.headerFunc == nil && gp.footerFunc == nil)
	v_requires(opt.PageSize == nil || opt.PageSize.unitOverride.getUnit() == UnitUnset)
	before := v_snapObjs(gp.pdfObjs)
	n := len(before)
	cfg := gp.config
	left, top := gp.margins.Left, gp.margins.Top
	first, pages := gp.indexOfFirstPageObj, gp.numOfPagesObj
	v_modifies(&gp.pdfObjs, &gp.indexOfContent, &gp.indexOfFirstPageObj, &gp.numOfPagesObj, &gp.curr)
	var size *Rect
	if opt.PageSize != nil {
		size = &Rect{W: opt.PageSize.W, H: opt.PageSize.H}
	}
	gp.AddPageWithOption(opt)
	objs := gp.pdfObjs
	v_ensures("C02.page-appended", len(objs) == n+1 && v_forall(0, n, func(j int) bool { return objs[j] == before[j] }) && sp_isPage(objs[n]))
	p := objs[n].(*PageObj)
	v_ensures("C02.page-resources", v_eqText(p.ResourcesRelate, fmt.Sprintf("%d 0 R", gp.indexOfProcSet+1)))
	v_ensures("C02.page-links", len(p.LinkObjIds) == 0 && p.getRoot() == gp)
	v_ensures("C19.current-page", gp.curr.IndexOfPageObj == n && gp.indexOfContent == -1 && gp.numOfPagesObj == pages+1)
	v_ensures("C19.first-page", gp.indexOfFirstPageObj == n && first == -1 || gp.indexOfFirstPageObj == first)
	v_ensures("C19.cursor", gp.curr.X == left && gp.curr.Y == top)
	v_ensures("C19+C02.default-size", size != nil || p.pageOption.PageSize == nil && gp.curr.pageSize == &gp.config.PageSize && gp.curr.trimBox == &gp.config.TrimBox)
	v_ensures("C19+C02+C06.own-size", size == nil || p.pageOption.PageSize == gp.curr.pageSize && gp.curr.pageSize != nil &&
		v_eqF(gp.curr.pageSize.W, size.W*sp_factor(cfg.Unit, cfg.ConversionForUnit)) && v_eqF(gp.curr.pageSize.H, size.H*sp_factor(cfg.Unit, cfg.ConversionForUnit)))
}

// @ contract (*GoPdf).start props=C01,C02,C05,C19
func vc_start(gp *GoPdf, config Config, importer ...*gofpdi.Importer) {
	v_requires(gp != nil && (!config.Protection.UseProtection || 0 <= config.Protection.Permissions && config.Protection.Permissions < 256))
	v_modifies(gp)
	gp.start(config, importer...)
	v_ensures("C01+C02.basic-objects", len(gp.pdfObjs) == 4 && sp_docOK(gp))
	v_ensures("C01+C02.fresh-document", gp.indexOfContent == -1 && gp.indexOfFirstPageObj == -1 && gp.curr.IndexOfPageObj == -1 && gp.encryptionObjID == 0 && !gp.isUseInfo)
	v_ensures("C05.protection-on-request", config.Protection.UseProtection == (gp.pdfProtection != nil))
	f := sp_factor(config.Unit, config.ConversionForUnit)
	v_ensures("C06+C19.page-size-in-points", config.PageSize.unitOverride.Unit != UnitUnset || v_eqF(gp.config.PageSize.W, config.PageSize.W*f) && v_eqF(gp.config.PageSize.H, config.PageSize.H*f))
	v_ensures("C19.default-margins", v_eqF(gp.margins.Left, 10) && v_eqF(gp.margins.Top, 10) && v_eqF(gp.margins.Right, 10) && v_eqF(gp.margins.Bottom, 10))
}
