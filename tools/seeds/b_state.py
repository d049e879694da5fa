seed("C01-xref-kib","C01","an object that begins at a byte offset of 100000 or more",
"Offsets of six digits get an eleventh digit in the cross-reference table, so its entries no longer have the fixed width readers index by.",
[("gopdf.go","	for len(str) < 10 {\n		str = \"0\" + str\n	}","	if pad := 10 - len(str); pad > 5 {\n		str = \"0000000000\"[:pad] + str\n	} else if pad > 0 {\n		str = \"00000\" + str\n	}")],
'''
func TestSeedDemo(t *testing.T) {
	gp := &GoPdf{}
	for n := int64(0); n < 5000000000; n = n*10 + 1 {
		if s := gp.formatXrefline(n); len(s) != 10 {
			t.Fatalf("demo: entry %q is not ten digits wide", s)
		}
	}
}
''',"")
seed("C02-trimbox","C02","a page with its own size and a trim box that is not symmetric, on a document with a second page box",
"The trim box of a page is written with its right and bottom edges swapped.",
[("page_obj.go","trimBox.Left, trimBox.Top, trimBox.Right, trimBox.Bottom)","trimBox.Left, trimBox.Top, trimBox.Bottom, trimBox.Right)")],
'''
func TestSeedDemo(t *testing.T) {
	gp := &GoPdf{}
	gp.Start(Config{PageSize: *PageSizeA4})
	gp.AddPageWithOption(PageOption{PageSize: PageSizeA5, TrimBox: &Box{Left: 1, Top: 2, Right: 300, Bottom: 500}})
	var b bytes.Buffer
	gp.WriteTo(&b)
	if !strings.Contains(b.String(), "/TrimBox [ 1.00 2.00 300.00 500.00 ]") {
		t.Fatalf("demo: trim box is not the one given")
	}
}
''',"bytes strings")
seed("C04-group-length","C04","a transparency group with more than one image, or a group stream of several writes",
"The declared length of a transparency group counts only the part of the stream its last image wrote.",
[("transparency_xobject_group.go","	for _, XObject := range s.XObjects {\n		if err","	length := 0\n	for _, XObject := range s.XObjects {\n		start := streamBuff.Len()\n		if err"),
 ("transparency_xobject_group.go","			return err\n		}\n	}\n\n	content :=","			return err\n		}\n		length = streamBuff.Len() - start\n	}\n\n	content :="),
 ("transparency_xobject_group.go","len(streamBuff.Bytes()))","length)")],
'''
func TestSeedDemo(t *testing.T) {
	img := cacheContentImage{withMask: true, pageHeight: 100, rect: Rect{W: 10, H: 10}}
	g := TransparencyXObjectGroup{XObjects: []cacheContentImage{img, img}}
	var b bytes.Buffer
	if err := g.write(&b, 7); err != nil {
		t.Fatal(err)
	}
	s := b.String()
	i, j := strings.Index(s, "stream\\n")+7, strings.LastIndex(s, "endstream")
	n := -1
	fmt.Sscanf(s[strings.Index(s, "/Length ")+8:], "%d", &n)
	if n != j-i && n != j-i-1 {
		t.Fatalf("demo: /Length %d, stream of %d bytes", n, j-i)
	}
}
''',"bytes strings fmt")
seed("C18-state-key","C18","two settings whose opacities differ in the third decimal only, set one after the other",
"The key of a graphics state rounds the stroke and fill opacity to two decimals while settings are told apart by three: the second setting shares the first one's state object and is drawn with its opacity.",
[("ext_g_state_obj.go",'"CA_%.3f;"','"CA_%.2f;"'),("ext_g_state_obj.go",'"ca_%.3f;"','"ca_%.2f;"')],
'''
func TestSeedDemo(t *testing.T) {
	gp := &GoPdf{}
	gp.Start(Config{PageSize: *PageSizeA4})
	gp.AddPage()
	for _, a := range []float64{0.5, 0.501, 0.504} {
		if err := gp.SetTransparency(Transparency{Alpha: a, BlendModeType: Darken}); err != nil {
			t.Fatal(err)
		}
		gs := gp.pdfObjs[gp.curr.transparency.extGStateIndex-1].(ExtGState)
		if fmt.Sprintf("%.3f", *gs.ca) != fmt.Sprintf("%.3f", a) {
			t.Fatalf("demo: opacity %v is drawn as %v", a, *gs.ca)
		}
	}
}
''',"fmt")
seed("C18-mode-prefix","C18","two settings with the same opacity and blend modes whose names begin alike",
"A setting is remembered under its opacity and the first six letters of its blend mode only, so ColorDodge is taken for ColorBurn.",
[("transparency.go",'	keyStr := fmt.Sprintf("%.3f_%s", t.Alpha, t.BlendModeType)','	keyStr := fmt.Sprintf("%.3f_%.6s", t.Alpha, t.BlendModeType)')],
'''
func TestSeedDemo(t *testing.T) {
	gp := &GoPdf{}
	gp.Start(Config{PageSize: *PageSizeA4})
	gp.AddPage()
	for _, m := range []BlendModeType{SoftLight, Screen, ColorBurn, ColorDodge, Hue, HardLight} {
		if err := gp.SetTransparency(Transparency{Alpha: 0.5, BlendModeType: m}); err != nil {
			t.Fatal(err)
		}
		gs := gp.pdfObjs[gp.curr.transparency.extGStateIndex-1].(ExtGState)
		if *gs.BM != m {
			t.Fatalf("demo: mode %v is drawn as %v", m, *gs.BM)
		}
	}
}
''',"")
seed("C19-header-reset","C19","pages added after the margins were changed",
"The cursor of a new page is put at the margins in force when the document started, not the current ones, if the page has its own size.",
[("gopdf.go","	gp.indexOfContent = -1\n	gp.resetCurrXY()\n","	gp.indexOfContent = -1\n	if opt.isEmpty() {\n		gp.resetCurrXY()\n	} else {\n		gp.curr.X, gp.curr.Y = defaultMargin, defaultMargin\n	}\n")],
'''
func TestSeedDemo(t *testing.T) {
	gp := &GoPdf{}
	gp.Start(Config{PageSize: *PageSizeA4})
	gp.SetMargins(30, 40, 50, 60)
	gp.AddPage()
	gp.SetXY(100, 100)
	gp.AddPageWithOption(PageOption{PageSize: PageSizeA5})
	if gp.GetX() != 30 || gp.GetY() != 40 {
		t.Fatalf("demo: cursor at %v, %v", gp.GetX(), gp.GetY())
	}
}
''',"")
seed("C06-small-factor","C06","a custom conversion factor below one",
"Custom factors below one are ignored when units are turned into points, though not the other way round.",
[("config.go","	if unitCfg.getConversionForUnit() != 0 {\n		return u * ","	if unitCfg.getConversionForUnit() >= 1 {\n		return u * ")],
'''
func TestSeedDemo(t *testing.T) {
	gp := &GoPdf{}
	gp.Start(Config{ConversionForUnit: 0.5, PageSize: *PageSizeA4})
	gp.AddPage()
	gp.SetXY(100, 60)
	if gp.GetX() != 100 || gp.curr.Y != 30 {
		t.Fatalf("demo: x reads back as %v, y is kept as %v points", gp.GetX(), gp.curr.Y)
	}
}
''',"")
seed("C14-upper-left","C14","a rectangle drawn from its upper-left corner with a style, in a document whose unit is not the point",
"The height is added to the vertical position before it is converted to points.",
[("gopdf.go","	opts.Y += opts.H\n\n",""),("gopdf.go","	opts := DrawableRectOptions{\n		X: x,\n		Y: y,\n		Rect: Rect{\n			H: hght,\n			W: wdth,\n		},\n		PaintStyle: parseStyle(style),\n	}\n	gp.RectFromUpperLeftWithOpts(opts)","	opts := DrawableRectOptions{\n		X: x,\n		Y: y + gp.UnitsToPoints(hght),\n		Rect: Rect{\n			H: hght,\n			W: wdth,\n		},\n		PaintStyle: parseStyle(style),\n	}\n	gp.RectFromUpperLeftWithOpts(opts)")],
'''
func TestSeedDemo(t *testing.T) {
	gp := &GoPdf{}
	gp.Start(Config{Unit: UnitMM, PageSize: *PageSizeA4})
	gp.AddPage()
	gp.RectFromUpperLeftWithStyle(10, 20, 30, 40, "F")
	gp.RectFromUpperLeftWithOpts(DrawableRectOptions{X: 10, Y: 20, Rect: Rect{W: 30, H: 40}, PaintStyle: FillPaintStyle})
	l := gp.getContent().listCache.caches
	for _, c := range l {
		y := c.(cacheContentRectangle).y
		if d := y - 60*72/25.4; d > 0.001 || d < -0.001 {
			t.Fatalf("demo: lower edge at %v", y)
		}
	}
}
''',"")
