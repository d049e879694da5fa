seed("C16-escape-order","C16","an address with a parenthesis in it",
"The backslash of an escaped parenthesis is escaped once more, so the string in the annotation ends at the parenthesis and the address is cut off.",
[("annot_obj.go",'''	url = strings.Replace(url, "\\\\", "\\\\\\\\", -1)
	url = strings.Replace(url, "(", "\\\\(", -1)
''','''	url = strings.Replace(url, "(", "\\\\(", -1)
	url = strings.Replace(url, "\\\\", "\\\\\\\\", -1)
''')],
'''
func TestSeedDemo(t *testing.T) {
	gp := &GoPdf{}
	gp.Start(Config{PageSize: *PageSizeA4})
	gp.AddPage()
	gp.AddExternalLink("http://a/b(c)", 1, 2, 3, 4)
	var b bytes.Buffer
	gp.WriteTo(&b)
	if !strings.Contains(b.String(), "/URI (http://a/b\\\\(c\\\\))") {
		t.Fatalf("demo: address not written as given")
	}
}
''',"bytes strings")
seed("C16-first-anchor","C16","an anchor that is set a second time under the same name",
"An anchor keeps the place where its name was used first.",
[("gopdf.go","	gp.anchors[name] = anchorOption{gp.curr.IndexOfPageObj, y}","	if a, ok := gp.anchors[name]; !ok || a.page == gp.curr.IndexOfPageObj {\n		gp.anchors[name] = anchorOption{gp.curr.IndexOfPageObj, y}\n	}")],
'''
func TestSeedDemo(t *testing.T) {
	gp := &GoPdf{}
	gp.Start(Config{PageSize: *PageSizeA4})
	gp.AddPage()
	gp.SetAnchor("a")
	gp.AddPage()
	gp.SetAnchor("a")
	if gp.anchors["a"].page != gp.curr.IndexOfPageObj {
		t.Fatalf("demo: the anchor does not lead to where it was set last")
	}
}
''')
seed("C17-prev-third","C17","an outline entry with at least three children",
"Every child after the first names the first child as the one before it.",
[("outlines_obj.go","children.Obj.SetPrev(obj.Children[i-1].Obj.GetIndex())","children.Obj.SetPrev(obj.Obj.first)")],
'''
func TestSeedDemo(t *testing.T) {
	gp := &GoPdf{}
	gp.Start(Config{PageSize: *PageSizeA4})
	gp.AddPage()
	p := &OutlineNode{Obj: gp.AddOutlineWithPosition("p")}
	for i := 0; i < 3; i++ {
		p.Children = append(p.Children, &OutlineNode{Obj: gp.AddOutlineWithPosition("c")})
	}
	OutlineNodes{p}.Parse()
	if p.Children[2].Obj.prev != p.Children[1].Obj.index {
		t.Fatalf("demo: third child follows %d, not %d", p.Children[2].Obj.prev, p.Children[1].Obj.index)
	}
}
''')
seed("C17-deep","C17","outline entries nested at least three deep below an entry that is not the first of its parent",
"Only the first child's own children are linked.",
[("outlines_obj.go","		children.Obj.SetParent(obj.Obj.GetIndex())\n		children.Parse()","		children.Obj.SetParent(obj.Obj.GetIndex())\n		if i == 0 || len(children.Children) > 0 && children.Children[0].Children == nil {\n			children.Parse()\n		}")],
'''
func TestSeedDemo(t *testing.T) {
	gp := &GoPdf{}
	gp.Start(Config{PageSize: *PageSizeA4})
	gp.AddPage()
	n := func(c ...*OutlineNode) *OutlineNode {
		return &OutlineNode{Obj: gp.AddOutlineWithPosition("n"), Children: c}
	}
	leaf := n()
	inner := n(leaf)
	mid := n(inner)
	top := n(n(), mid)
	OutlineNodes{top}.Parse()
	if mid.Obj.first != inner.Obj.index || inner.Obj.first != leaf.Obj.index {
		t.Fatalf("demo: deep entries are not linked")
	}
}
''')
