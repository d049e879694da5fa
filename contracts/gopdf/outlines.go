package gopdf

import "fmt"

// C17: the outline.

// sp_outlinesOK: what adding entries keeps true of an outline. The numbers it
// holds are those of its entries at top level.
// @ merge
func sp_outlinesOK(o *OutlinesObj) bool {
	return o != nil && o.getRoot != nil && o.getRoot() != nil && (o.last <= 0) == (o.lastObj == nil) && (o.first <= 0) == (o.last <= 0)
}

// sp_entryAdded: what adding an entry does: the new entry is the last object,
// the one before it at top level leads to it.
func sp_entryAdded(o *OutlinesObj, before []IObj, oo *OutlineObj, was *OutlineObj, first, last, count int) bool {
	objs := o.getRoot().pdfObjs
	n := len(before)
	return len(objs) == n+1 && v_forall(0, n, func(j int) bool { return objs[j] == before[j] }) && objs[n] == IObj(oo) && oo != nil &&
		o.last == n+1 && o.lastObj == oo && o.count == count+1 && (first <= 0 && o.first == n+1 || first > 0 && o.first == first) &&
		(was == nil || was == oo || was.next == n+1)
}

// sp_entry: the entry itself.
func sp_entry(oo *OutlineObj, o *OutlinesObj, n, dest int, title string, height float64, prev int) bool {
	return oo.title == title && oo.dest == dest && oo.parent == o.index+1 && oo.prev == prev && oo.next == -1 && oo.index == n+1 &&
		oo.first <= 0 && oo.last <= 0 && oo.count == 0 && oo.height == height && oo.root == o
}

// @ contract (*OutlinesObj).AddOutline props=C17
func vc_AddOutline(o *OutlinesObj, dest int, title string) {
	v_requires(sp_outlinesOK(o))
	root := o.getRoot()
	before := v_snapObjs(root.pdfObjs)
	n := len(before)
	was, first, last, count := o.lastObj, o.first, o.last, o.count
	v_modifies(&root.pdfObjs, &o.first, &o.last, &o.lastObj, &o.count)
	if was != nil {
		v_modifies(&was.next)
	}
	o.AddOutline(dest, title)
	v_ensures("C17.entry-added", sp_outlinesOK(o) && sp_entryAdded(o, before, o.lastObj, was, first, last, count))
	v_ensures("C17.entry-fields", sp_entry(o.lastObj, o, n, dest, title, 0, last))
}

// @ contract (*OutlinesObj).AddOutlinesWithPosition props=C17
func vc_AddOutlinesWithPosition(o *OutlinesObj, dest int, title string, y float64) *OutlineObj {
	v_requires(sp_outlinesOK(o))
	root := o.getRoot()
	before := v_snapObjs(root.pdfObjs)
	n := len(before)
	was, first, last, count := o.lastObj, o.first, o.last, o.count
	v_modifies(&root.pdfObjs, &o.first, &o.last, &o.lastObj, &o.count)
	if was != nil {
		v_modifies(&was.next)
	}
	v_freshResult(0)
	r := o.AddOutlinesWithPosition(dest, title, y)
	v_ensures("C17.entry-added", sp_outlinesOK(o) && o.lastObj == r && sp_entryAdded(o, before, r, was, first, last, count))
	v_ensures("C17.entry-fields", sp_entry(r, o, n, dest, title, y, last))
	return r
}

// @ contract (*GoPdf).AddOutline props=C17
func vc_GoPdf_AddOutline(gp *GoPdf, title string) {
	v_requires(gp != nil && sp_outlinesOK(gp.outlines) && gp.outlines.getRoot() == gp && sp_pageOK(gp))
	o := gp.outlines
	was, first, last, count := o.lastObj, o.first, o.last, o.count
	before := v_snapObjs(gp.pdfObjs)
	v_modifies(&gp.pdfObjs, &o.first, &o.last, &o.lastObj, &o.count)
	if was != nil {
		v_modifies(&was.next)
	}
	gp.AddOutline(title)
	v_ensures("C17.entry-added", sp_outlinesOK(o) && sp_entryAdded(o, before, o.lastObj, was, first, last, count))
	v_ensures("C17.to-the-current-page", sp_entry(o.lastObj, o, len(before), gp.curr.IndexOfPageObj+1, title, 0, last))
}

// @ contract (*GoPdf).AddOutlineWithPosition props=C17
func vc_GoPdf_AddOutlineWithPosition(gp *GoPdf, title string) *OutlineObj {
	v_requires(gp != nil && sp_outlinesOK(gp.outlines) && gp.outlines.getRoot() == gp && sp_pageOK(gp))
	o := gp.outlines
	was, first, last, count := o.lastObj, o.first, o.last, o.count
	before := v_snapObjs(gp.pdfObjs)
	v_modifies(&gp.pdfObjs, &o.first, &o.last, &o.lastObj, &o.count)
	if was != nil {
		v_modifies(&was.next)
	}
	v_freshResult(0)
	r := gp.AddOutlineWithPosition(title)
	v_ensures("C17.entry-added", sp_outlinesOK(o) && o.lastObj == r && sp_entryAdded(o, before, r, was, first, last, count))
	v_ensures("C17.to-the-current-page", sp_entry(r, o, len(before), gp.curr.IndexOfPageObj+1, title, gp.curr.pageSize.H-gp.curr.Y+20, last))
	return r
}

var _ = fmt.Sprint

// A forest of outline nodes, described by numbering them in preorder: node k
// is sp_node(k), its descendants are k+1..sp_end(k)-1, its j-th child is
// sp_child(k, j), its parent sp_par(k), its place among the children sp_pos(k).
// Every finite forest of distinct nodes and entries has such a numbering.
//
// @ uf sp_node sp_end sp_child sp_par sp_pos sp_num sp_label
func sp_node(k int) *OutlineNode { return v_nodes[k].n }
func sp_end(k int) int           { return v_nodes[k].end }
func sp_par(k int) int           { return v_nodes[k].par }
func sp_pos(k int) int           { return v_nodes[k].pos }
func sp_num() int                { return len(v_nodes) }
func sp_child(k, j int) int {
	c := k + 1
	for ; j > 0; j-- {
		c = v_nodes[c].end
	}
	return c
}
func sp_label(o *OutlineObj) int {
	for k, n := range v_nodes {
		if n.n.Obj == o {
			return k
		}
	}
	return -1
}

// v_nodes: the forest of a replay, in preorder.
var v_nodes []v_numbered

type v_numbered struct {
	n             *OutlineNode
	end, par, pos int
}

func v_number(nodes []*OutlineNode, par int) {
	if par < 0 {
		v_nodes = nil
	}
	for j, n := range nodes {
		k := len(v_nodes)
		v_nodes = append(v_nodes, v_numbered{n: n, par: par, pos: j})
		v_number(n.Children, k)
		v_nodes[k].end = len(v_nodes)
	}
}

func sp_kidsOf(k int) []*OutlineNode { return sp_node(k).Children }
func sp_obj(k int) *OutlineObj       { return sp_node(k).Obj }

// sp_numbered: the numbering fits the nodes.
func sp_numbered() bool {
	return v_forall(0, sp_num(), func(k int) bool {
		return sp_node(k) != nil && sp_obj(k) != nil && sp_label(sp_obj(k)) == k && k < sp_end(k) && sp_end(k) <= sp_num() &&
			sp_child(k, 0) == k+1 && sp_child(k, len(sp_kidsOf(k))) == sp_end(k)
	}) && v_forall(0, sp_num(), func(k int) bool {
		return v_forall(0, len(sp_kidsOf(k)), func(j int) bool {
			c := sp_child(k, j)
			return k < c && c < sp_end(k) && sp_kidsOf(k)[j] == sp_node(c) && sp_child(k, j+1) == sp_end(c) && sp_par(c) == k && sp_pos(c) == j
		})
	})
}

// sp_linksRight: what leads from entry k to its parent and its siblings.
func sp_linksRight(k int) bool {
	o, p, j := sp_obj(k), sp_par(k), sp_pos(k)
	return o.parent == sp_obj(p).index &&
		(j == 0 && o.prev == -1 || j > 0 && o.prev == sp_obj(sp_child(p, j-1)).index) &&
		(j == len(sp_kidsOf(p))-1 && o.next == -1 || j < len(sp_kidsOf(p))-1 && o.next == sp_obj(sp_child(p, j+1)).index)
}

// sp_endsRight: what leads from entry k to its first and last child.
func sp_endsRight(k int) bool {
	o, n := sp_obj(k), len(sp_kidsOf(k))
	return n == 0 || o.first == sp_obj(sp_child(k, 0)).index && o.last == sp_obj(sp_child(k, n-1)).index
}

// sp_keptLinks, sp_keptEnds: entry m is as it was.
func sp_keptLinks(m int) bool {
	o := sp_obj(m)
	return o.parent == v_entryInt(func() int { return sp_obj(m).parent }) && o.prev == v_entryInt(func() int { return sp_obj(m).prev }) &&
		o.next == v_entryInt(func() int { return sp_obj(m).next })
}

func sp_keptEnds(m int) bool {
	o := sp_obj(m)
	return o.first == v_entryInt(func() int { return sp_obj(m).first }) && o.last == v_entryInt(func() int { return sp_obj(m).last }) &&
		o.count == v_entryInt(func() int { return sp_obj(m).count })
}

// @ contract (OutlineNode).Parse props=C17 timeout=500
func vc_OutlineNode_Parse(obj OutlineNode) {
	k := sp_label(obj.Obj)
	v_requires(0 <= k && k < sp_num() && sp_numbered() && obj.Obj == sp_obj(k) && sp_sameKids(obj.Children, sp_kidsOf(k)))
	v_modAll("gopdf.OutlineObj.first")
	v_modAll("gopdf.OutlineObj.last")
	v_modAll("gopdf.OutlineObj.count")
	v_modAll("gopdf.OutlineObj.parent")
	v_modAll("gopdf.OutlineObj.prev")
	v_modAll("gopdf.OutlineObj.next")
	obj.Parse()
	v_ensures("C17.descendants-linked", v_forall(k+1, sp_end(k), func(m int) bool { return sp_linksRight(m) }))
	v_ensures("C17.parents-lead-to-children", v_forall(k, sp_end(k), func(m int) bool { return sp_endsRight(m) }))
	v_ensures("C17.counts", v_forall(k, sp_end(k), func(m int) bool { return sp_obj(m).count == sp_end(m)-m-1 }))
	v_ensures("C17.others-kept", v_forall(0, k+1, func(m int) bool { return sp_keptLinks(m) }) && v_forall(sp_end(k), sp_num(), func(m int) bool { return sp_keptLinks(m) && sp_keptEnds(m) }) &&
		v_forall(0, k, func(m int) bool { return sp_keptEnds(m) }))
}

// @ merge
func sp_sameKids(a, b []*OutlineNode) bool {
	return len(a) == len(b) && v_forall(0, len(a), func(i int) bool { return a[i] == b[i] })
}

// @ loop (OutlineNode).Parse 0
func vl_OutlineNode_Parse(obj OutlineNode, iter_ int) {
	k := sp_label(obj.Obj)
	n := len(obj.Children)
	c := sp_child(k, iter_)
	o := obj.Obj
	v_inv(0 <= iter_ && iter_ <= n && n > 0 && k < c && c <= sp_end(k))
	v_inv(v_forall(k+1, c, func(m int) bool { return sp_linksRight(m) && sp_endsRight(m) && sp_obj(m).count == sp_end(m)-m-1 }))
	v_inv(o.count == c-k-1 && (iter_ == 0 || o.first == sp_obj(sp_child(k, 0)).index) && (iter_ < n || o.last == sp_obj(sp_child(k, n-1)).index))
	v_inv(v_forall(0, k+1, func(m int) bool { return sp_keptLinks(m) }) && v_forall(c, sp_num(), func(m int) bool { return sp_keptLinks(m) && sp_keptEnds(m) }) &&
		v_forall(0, k, func(m int) bool { return sp_keptEnds(m) }))
	v_decr(n - iter_)
}

// sp_rooted: the nodes of the list are the ones at top level, and they are
// entries of this outline.
func sp_rooted(objs OutlineNodes, r *OutlinesObj) bool {
	n := len(objs)
	return sp_child(-1, 0) == 0 && sp_child(-1, n) == sp_num() && v_forall(0, n, func(j int) bool {
		c := sp_child(-1, j)
		return 0 <= c && c < sp_num() && objs[j] == sp_node(c) && sp_obj(c).root == r && sp_child(-1, j+1) == sp_end(c) && sp_par(c) == -1 && sp_pos(c) == j &&
			v_forall(c+1, sp_end(c), func(m int) bool { return sp_par(m) >= 0 })
	})
}

// sp_topRight: what leads from top entry c to the outline and its siblings.
func sp_topRight(c, n int, r *OutlinesObj) bool {
	o, j := sp_obj(c), sp_pos(c)
	return o.parent == r.index+1 && (j == 0 && o.prev == -1 || j > 0 && o.prev == sp_obj(sp_child(-1, j-1)).index) &&
		(j == n-1 && o.next == -1 || j < n-1 && o.next == sp_obj(sp_child(-1, j+1)).index)
}

func sp_entryRight(m, n int, r *OutlinesObj) bool {
	return (sp_par(m) == -1 && sp_topRight(m, n, r) || sp_par(m) >= 0 && sp_linksRight(m)) && sp_endsRight(m) && sp_obj(m).count == sp_end(m)-m-1
}

// @ contract (OutlineNodes).Parse props=C17 timeout=400
func vc_OutlineNodes_Parse(objs OutlineNodes) {
	n := len(objs)
	v_requires(n > 0 && objs[0] != nil && objs[0].Obj != nil && objs[0].Obj.root != nil)
	r := objs[0].Obj.root
	v_requires(sp_numbered() && sp_rooted(objs, r))
	v_modAll("gopdf.OutlineObj.first")
	v_modAll("gopdf.OutlineObj.last")
	v_modAll("gopdf.OutlineObj.count")
	v_modAll("gopdf.OutlineObj.parent")
	v_modAll("gopdf.OutlineObj.prev")
	v_modAll("gopdf.OutlineObj.next")
	v_modAll("gopdf.OutlinesObj.first")
	v_modAll("gopdf.OutlinesObj.last")
	objs.Parse()
	v_ensures("C17.tree-as-given", v_forall(0, sp_num(), func(m int) bool { return sp_entryRight(m, n, r) }))
	v_ensures("C17.outline-leads-to-top-entries", r.first == objs[0].Obj.index && r.last == objs[n-1].Obj.index && r.lastObj == objs[n-1].Obj)
}

// @ loop (OutlineNodes).Parse 0
func vl_OutlineNodes_Parse(objs OutlineNodes, iter_ int) {
	n := len(objs)
	c := sp_child(-1, iter_)
	r := objs[0].Obj.root
	v_inv(0 <= iter_ && iter_ <= n && 0 <= c && c <= sp_num())
	v_inv(v_forall(0, c, func(m int) bool { return sp_entryRight(m, n, r) }))
	v_inv((iter_ == 0 || r.first == objs[0].Obj.index) && (iter_ < n || r.last == objs[n-1].Obj.index && r.lastObj == objs[n-1].Obj))
	v_decr(n - iter_)
}
