seed("C03-smask-guess","C03","a picture with an alpha channel that is the first thing drawn on a page",
"The picture names the page's content stream as its soft mask.",
[("gopdf.go",'''			imgobj.imginfo.smarkObjID = gp.addObj(smaskObj)
''','''			gp.addObj(smaskObj)
			imgobj.imginfo.smarkObjID = index + 1
''')],
'''
func TestSeedDemo(t *testing.T) {
next:
	for _, first := range []bool{false, true} {
		pdf := &GoPdf{}
		pdf.Start(Config{PageSize: *PageSizeA4})
		pdf.AddPage()
		if !first {
			pdf.Line(1, 2, 3, 4)
		}
		if err := pdf.Image("test/res/PNG_transparency_demonstration_1.png", 10, 10, nil); err != nil {
			t.Fatal(err)
		}
		for _, o := range pdf.pdfObjs {
			if i, ok := o.(*ImageObj); ok && i.haveSMask() {
				if _, ok := pdf.pdfObjs[i.imginfo.smarkObjID].(*SMask); !ok {
					t.Fatalf("demo: soft mask is %T", pdf.pdfObjs[i.imginfo.smarkObjID])
				}
				continue next
			}
		}
		t.Log("no alpha channel")
	}
}
''',"")
seed("C03-font-style","C03","two fonts of one family, the plain one added before the bold one",
"Asking for the bold font of a family selects the plain one when that was added first.",
[("gopdf.go",'''				if sub.GetFamily() == family && sub.GetTtfFontOption().Style == style&^Underline {
''','''				if sub.GetFamily() == family && sub.GetTtfFontOption().Style&style == sub.GetTtfFontOption().Style {
''')],
'''
func TestSeedDemo(t *testing.T) {
	pdf := &GoPdf{}
	pdf.Start(Config{PageSize: *PageSizeA4})
	pdf.AddPage()
	for _, s := range []int{Regular, Bold} {
		if err := pdf.AddTTFFontWithOption("f", "test/res/LiberationSerif-Regular.ttf", TtfOption{Style: s}); err != nil {
			t.Fatal(err)
		}
	}
	if err := pdf.SetFontWithStyle("f", Bold, 12); err != nil {
		t.Fatal(err)
	}
	if s := pdf.curr.FontISubset.ttfFontOption.Style; s != Bold {
		t.Fatalf("demo: style %d", s)
	}
}
''',"")
seed("C03-shared-mask","C03","two pictures drawn with masks in one document",
"All masked pictures of a document share the mask of the first.",
[("smask_obj.go",'''id := fmt.Sprintf("S_%s;G_%d_0_R", smask.Subtype, smask.TransparencyXObjectGroupIndex)''','''id := fmt.Sprintf("S_%s;G_0_R", smask.Subtype)''')] ,
'''
func TestSeedDemo(t *testing.T) {
	pdf := &GoPdf{}
	pdf.Start(Config{PageSize: *PageSizeA4})
	pdf.AddPage()
	a := GetCachedMask(SMaskOptions{Subtype: SMaskLuminositySubtype, TransparencyXObjectGroupIndex: 3}, pdf)
	b := GetCachedMask(SMaskOptions{Subtype: SMaskLuminositySubtype, TransparencyXObjectGroupIndex: 5}, pdf)
	if a.Index == b.Index || pdf.pdfObjs[b.Index].(SMask).TransparencyXObjectGroupIndex != 5 {
		t.Fatalf("demo: %d %d", a.Index, b.Index)
	}
}
''',"")
seed("C05-key-third-byte","C05","a protected document with more than 65535 objects",
"The key of an object is derived from the low two bytes of its number only.",
[("pdf_protection.go","tmp2 := append(p.encryptionKey, tmp[0], tmp[1], tmp[2], 0, 0)","tmp2 := append(p.encryptionKey, tmp[0], tmp[1], 0, 0, 0)")],
'''
func TestSeedDemo(t *testing.T) {
	p := &PDFProtection{encryptionKey: []byte{1, 2, 3, 4, 5}}
	sum := md5.Sum([]byte{1, 2, 3, 4, 5, 0x70, 0x11, 1, 0, 0})
	if string(p.Objectkey(0x11170)) != string(sum[0:10]) {
		t.Fatal("demo: wrong key")
	}
}
''',"crypto/md5")
seed("C05-alpha-plain","C05","a protected document with a picture that has an alpha channel",
"The alpha channel of a picture is written unencrypted.",
[("image_obj.go",'''	smk.setProtection(i.protection())
''','''	if i.SplittedMask {
		smk.setProtection(i.protection())
	}
''')],
'''
func TestSeedDemo(t *testing.T) {
	pdf := &GoPdf{}
	pdf.Start(Config{PageSize: *PageSizeA4, Protection: PDFProtectionConfig{UseProtection: true, OwnerPass: []byte("o"), UserPass: []byte("u")}})
	pdf.AddPage()
	if err := pdf.Image("test/res/PNG_transparency_demonstration_1.png", 10, 10, nil); err != nil {
		t.Fatal(err)
	}
	for n, o := range pdf.pdfObjs {
		if s, ok := o.(*SMask); ok {
			var b bytes.Buffer
			if err := s.write(&b, n+1); err != nil {
				t.Fatal(err)
			}
			if bytes.Contains(b.Bytes(), s.data) {
				t.Fatal("demo: not encrypted")
			}
			return
		}
	}
	t.Log("no alpha channel")
}
''',"bytes")
seed("C05-mask-group-plain","C05","a protected document with a picture drawn with a mask",
"The group that draws a mask is written unencrypted unless it is given a box.",
[("gopdf.go",'''	groupOpts := TransparencyXObjectGroupOptions{
		Protection:       gp.protection(),
''','''	var protection *PDFProtection
	if opts.BBox != nil {
		protection = gp.protection()
	}
	groupOpts := TransparencyXObjectGroupOptions{
		Protection:       protection,
''')],
'''
func TestSeedDemo(t *testing.T) {
	pdf := &GoPdf{}
	pdf.Start(Config{PageSize: *PageSizeA4, Protection: PDFProtectionConfig{UseProtection: true, OwnerPass: []byte("o"), UserPass: []byte("u")}})
	pdf.AddPage()
	img, err := ImageHolderByPath("test/res/gopher01.jpg")
	if err != nil {
		t.Fatal(err)
	}
	mask, err := ImageHolderByPath("test/res/mask.png")
	if err != nil {
		t.Fatal(err)
	}
	err = pdf.ImageByHolderWithOptions(img, ImageOptions{X: 10, Y: 10, Rect: &Rect{W: 50, H: 50}, Mask: &MaskOptions{Holder: mask, ImageOptions: ImageOptions{X: 10, Y: 10, Rect: &Rect{W: 50, H: 50}}}})
	if err != nil {
		t.Fatal(err)
	}
	for _, o := range pdf.pdfObjs {
		if g, ok := o.(TransparencyXObjectGroup); ok && g.pdfProtection == nil {
			t.Fatal("demo: not encrypted")
		}
	}
}
''',"")
