seed("C14-crop-flip","C14","an image that is cropped and flipped vertically",
"The mirrored vertical position of a cropped image uses the crop height where the full image height is needed, so the image shows up shifted.",
[("cache_content_image.go","		y += c.crop.Y - height\n		if c.verticalFlip {\n			y = -y - height","		y += c.crop.Y - height\n		if c.verticalFlip {\n			y = -y - c.crop.Height")],
'''
func TestSeedDemo(t *testing.T) {
	c := &cacheContentImage{withMask: true, verticalFlip: true, x: 10, y: 20, pageHeight: 800, rect: Rect{W: 100, H: 200}, crop: &CropOptions{X: 5, Y: 7, Width: 50, Height: 60}}
	var b bytes.Buffer
	if err := c.write(&b, nil); err != nil {
		t.Fatal(err)
	}
	// the image occupies y in [800-20+7-200, ...]; under the mirror it starts at -(587)-200
	if !strings.Contains(b.String(), " 5.00 -787.00 cm /I1 Do") {
		t.Fatalf("demo: mirrored image misplaced: %s", b.String())
	}
}
''',"bytes strings")
seed("C14-polygon-restore","C14","a filled-and-drawn polygon (style DF) with a transparency",
"The polygon keeps its graphics state open when it is both filled and stroked in the order DF, so later drawing inherits its transparency.",
[("cache_content_polygon.go",'''	fmt.Fprintf(w, "Q\\n")
	return nil''','''	if c.style != "DF" {
		fmt.Fprintf(w, "Q\\n")
	}
	return nil''')],
'''
func TestSeedDemo(t *testing.T) {
	for _, style := range []string{"D", "F", "FD", "DF"} {
		c := &cacheContentPolygon{pageHeight: 100, style: style, points: []Point{{1, 2}, {3, 4}, {5, 6}}, opts: polygonOptions{extGStateIndexes: []int{3}}}
		var b bytes.Buffer
		c.write(&b, nil)
		if strings.Count(b.String(), "q\\n") != strings.Count(b.String(), "Q\\n") {
			t.Fatalf("demo: %s: state not restored: %q", style, b.String())
		}
	}
}
''',"bytes strings")
seed("C14-oval","C14","an oval whose width differs from its height",
"One control point of the oval uses the horizontal radius for the vertical offset, right only for circles.",
[("cache_content_oval.go","v4[0], v4[1]-(y2-y1)/2*cp, v1[0]-(x2-x1)/2*cp, v1[1], v1[0], v1[1],","v4[0], v4[1]-(x2-x1)/2*cp, v1[0]-(x2-x1)/2*cp, v1[1], v1[0], v1[1],")],
'''
func TestSeedDemo(t *testing.T) {
	c := &cacheContentOval{pageHeight: 800, x1: 10, y1: 20, x2: 110, y2: 60}
	var b bytes.Buffer
	c.write(&b, nil)
	// left vertex (10, 760), control point below it at 760 - 20*0.55228
	if !strings.Contains(b.String(), "c\\n10.00 748.95 ") {
		t.Fatalf("demo: wrong control point: %s", b.String())
	}
}
''',"bytes strings")
seed("C15-cmyk-text","C15","a CMYK text colour with different cyan and black components at full scale (100)",
"The CMYK text colour is scaled by 255 instead of 100.",
[("cache_content_text_color_cmyk.go","float64(c.k)/100","float64(c.k)/255")],
'''
func TestSeedDemo(t *testing.T) {
	c := cacheContentTextColorCMYK{c: 10, m: 20, y: 30, k: 100}
	var b bytes.Buffer
	c.write(&b, nil)
	if b.String() != "0.10 0.20 0.30 1.00 k\\n" {
		t.Fatalf("demo: %q", b.String())
	}
}
''',"bytes")
seed("C08-tj-last-space","C08","a justified cell whose text ends in several blanks",
"A justified run also widens the first of the blanks after the last word, so the text runs past its cell.",
[("cache_content_text.go","justify && r == ' ' && i > firstNonSpace && i < lastNonSpace {","justify && r == ' ' && i > firstNonSpace && i <= lastNonSpace+1 {")],
'''
func TestSeedDemo(t *testing.T) {
	pdf := GoPdf{}
	pdf.Start(Config{PageSize: *PageSizeA4})
	pdf.AddPage()
	if err := pdf.AddTTFFont("f", "./test/res/LiberationSerif-Regular.ttf"); err != nil {
		t.Fatal(err)
	}
	pdf.SetFont("f", "", 14)
	if _, err := pdf.curr.FontISubset.AddChars("AB CD  "); err != nil {
		t.Fatal(err)
	}
	c := &cacheContentText{fontSubset: pdf.curr.FontISubset, fontSize: 14, text: "AB CD  ", rectangle: &Rect{W: 300, H: 20}, contentType: ContentTypeCell, cellOpt: CellOption{Align: Justify}, cellWidthPdfUnit: 300, textWidthPdfUnit: 50}
	var b bytes.Buffer
	if err := c.write(&b, nil); err != nil {
		t.Fatal(err)
	}
	if n := strings.Count(b.String(), ">-"); n != 1 {
		t.Fatalf("demo: %d widened gaps: %s", n, b.String())
	}
}
''',"bytes strings")
seed("C07-middle","C07","a cell aligned to the middle with a font whose descender is not zero",
"Middle alignment subtracts the descender instead of adding it, so the text is not centred.",
[("cache_content_text.go","c.cellHeightPdfUnit*0.5 - (c.calTypoDescender()+c.calTypoAscender())*0.5","c.cellHeightPdfUnit*0.5 - (c.calTypoAscender()-c.calTypoDescender())*0.5")],
'''
func TestSeedDemo(t *testing.T) {
	pdf := GoPdf{}
	pdf.Start(Config{PageSize: *PageSizeA4})
	pdf.AddPage()
	if err := pdf.AddTTFFont("f", "./test/res/LiberationSerif-Regular.ttf"); err != nil {
		t.Fatal(err)
	}
	pdf.SetFont("f", "", 20)
	c := &cacheContentText{fontSubset: pdf.curr.FontISubset, fontSize: 20, pageheight: 800, y: 100, contentType: ContentTypeCell, cellOpt: CellOption{Align: Middle}, cellHeightPdfUnit: 50}
	y, err := c.calY()
	if err != nil {
		t.Fatal(err)
	}
	top := y + c.calTypoAscender()
	bottom := y + c.calTypoDescender()
	if math.Abs((top+bottom)/2-(800-100-25)) > 1e-6 {
		t.Fatalf("demo: text spans %v..%v, cell centre %v", bottom, top, 800-100-25)
	}
}
''',"math")
seed("C07-border","C07","a cell with a right border and a non-zero line width",
"The right border of a cell is moved by half the line width.",
[("cache_content_text.go",'''		startX := c.x + c.cellWidthPdfUnit
		startY := c.pageHeight() - c.y
		endX := c.x + c.cellWidthPdfUnit
		endY := startY - c.cellHeightPdfUnit''','''		startX := c.x + c.cellWidthPdfUnit + lineOffset
		startY := c.pageHeight() - c.y
		endX := c.x + c.cellWidthPdfUnit + lineOffset
		endY := startY - c.cellHeightPdfUnit''')],
'''
func TestSeedDemo(t *testing.T) {
	c := &cacheContentText{pageheight: 800, x: 10, y: 20, cellWidthPdfUnit: 100, cellHeightPdfUnit: 30, lineWidth: 4, cellOpt: CellOption{Border: Right}}
	var b bytes.Buffer
	c.drawBorder(&b)
	if b.String() != "110.00 780.00 m 110.00 750.00 l s\\n" {
		t.Fatalf("demo: %q", b.String())
	}
}
''',"bytes")
seed("C06-rect-override","C06","a rectangle with its own unit override, in a document using another unit",
"A rectangle with its own unit is converted with the document's unit instead.",
[("rect.go",'''	unitCfg := defaultUnitConfig{Unit: t}
	if rect.unitOverride.getUnit() != UnitUnset {
		unitCfg = rect.unitOverride
	}

	r = &Rect{W: rect.W, H: rect.H}
	unitsToPointsVar(unitCfg, &r.W, &r.H)''','''	unitCfg := defaultUnitConfig{Unit: t}
	if rect.unitOverride.getUnit() != UnitUnset && t == UnitUnset {
		unitCfg = rect.unitOverride
	}

	r = &Rect{W: rect.W, H: rect.H}
	unitsToPointsVar(unitCfg, &r.W, &r.H)''')],
'''
func TestSeedDemo(t *testing.T) {
	r := &Rect{W: 2, H: 3, unitOverride: defaultUnitConfig{Unit: UnitPT}}
	p := r.UnitsToPoints(UnitIN)
	if p.W != 2 || p.H != 3 {
		t.Fatalf("demo: %v", p)
	}
}
''')
