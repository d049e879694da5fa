From f9bc7676fc0b7d8aed50afbf7e1a5a38857e3da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 01/30] fix: do not shift an imported template every time its
 page is written

---
 cache_content_imported_object.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cache_content_imported_object.go b/cache_content_imported_object.go
index a7dca9a..6c90260 100644
--- a/cache_content_imported_object.go
+++ b/cache_content_imported_object.go
@@ -15,7 +15,6 @@ type cacheContentImportedTemplate struct {
 }
 
 func (c *cacheContentImportedTemplate) write(w io.Writer, protection *PDFProtection) error {
-	c.tY += c.pageHeight
-	fmt.Fprintf(w, "q 0 J 1 w 0 j 0 G 0 g q %.4F 0 0 %.4F %.4F %.4F cm %s Do Q Q\n", c.scaleX, c.scaleY, c.tX, c.tY, c.tplName)
+	fmt.Fprintf(w, "q 0 J 1 w 0 j 0 G 0 g q %.4F 0 0 %.4F %.4F %.4F cm %s Do Q Q\n", c.scaleX, c.scaleY, c.tX, c.tY+c.pageHeight, c.tplName)
 	return nil
 }
-- 
2.43.0


From fdc44192ea5aaa3b9188a049182c20027afc62c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:59 +0000
Subject: [PATCH 02/30] fix: report write errors from WriteTo, Write and Read

---
 gopdf.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 44c4435..382f7c0 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1057,18 +1057,23 @@ func (gp *GoPdf) compilePdf(w io.Writer) (n int64, err error) {
 		linelens[i] = writer.offset
 		pdfObj := gp.pdfObjs[i]
 		fmt.Fprintf(writer, "%d 0 obj\n", objID)
-		pdfObj.write(writer, objID)
+		if err := pdfObj.write(writer, objID); err != nil {
+			return writer.offset, err
+		}
 		io.WriteString(writer, "endobj\n\n")
 		i++
 	}
-	gp.xref(writer, writer.offset, linelens, i)
-	return writer.offset, nil
+	if err := gp.xref(writer, writer.offset, linelens, i); err != nil {
+		return writer.offset, err
+	}
+	return writer.offset, writer.err
 }
 
 type (
 	countingWriter struct {
 		offset int64
 		writer io.Writer
+		err    error // first error of writer, after which nothing more is written
 	}
 )
 
@@ -1077,8 +1082,12 @@ func newCountingWriter(w io.Writer) *countingWriter {
 }
 
 func (cw *countingWriter) Write(b []byte) (int, error) {
+	if cw.err != nil {
+		return 0, cw.err
+	}
 	n, err := cw.writer.Write(b)
 	cw.offset += int64(n)
+	cw.err = err
 	return n, err
 }
 
-- 
2.43.0


From 32c673dbcdd0a15896fa015cfa026b3410295066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 03/30] fix: list each page and content stream once when a
 document is written again

---
 gopdf.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gopdf.go b/gopdf.go
index 382f7c0..29b3fa6 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2244,7 +2244,7 @@ func (gp *GoPdf) protection() *PDFProtection {
 
 func (gp *GoPdf) prepare() {
 
-	if gp.isUseProtection() {
+	if gp.isUseProtection() && gp.encryptionObjID == 0 {
 		encObj := gp.pdfProtection.encryptionObj()
 		gp.addObj(encObj)
 	}
@@ -2257,6 +2257,8 @@ func (gp *GoPdf) prepare() {
 	if gp.indexOfPagesObj != -1 {
 		indexCurrPage := -1
 		pagesObj := gp.pdfObjs[gp.indexOfPagesObj].(*PagesObj)
+		pagesObj.Kids = ""
+		pagesObj.PageCount = 0
 		i := 0 //gp.indexOfFirstPageObj
 		max := len(gp.pdfObjs)
 		for i < max {
@@ -2265,6 +2267,7 @@ func (gp *GoPdf) prepare() {
 			case "Page":
 				pagesObj.Kids = fmt.Sprintf("%s %d 0 R ", pagesObj.Kids, i+1)
 				pagesObj.PageCount++
+				gp.pdfObjs[i].(*PageObj).Contents = ""
 				indexCurrPage = i
 			case "Content":
 				if indexCurrPage != -1 {
-- 
2.43.0


From 121d7b94caa7dfb5feb696cc2df614441948158c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:06 +0000
Subject: [PATCH 04/30] fix: write characters beyond U+FFFF in outline titles
 and document information as UTF-16

---
 gopdf.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gopdf.go b/gopdf.go
index 29b3fa6..1dc3053 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -16,6 +16,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf16"
 
 	"github.com/phpdave11/gofpdi"
 )
@@ -2390,6 +2391,11 @@ func (gp *GoPdf) getContent() *ContentObj {
 func encodeUtf8(str string) string {
 	var buff bytes.Buffer
 	for _, r := range str {
+		if r > 0xFFFF { // surrogate pair
+			r1, r2 := utf16.EncodeRune(r)
+			fmt.Fprintf(&buff, "%04X%04X", r1, r2)
+			continue
+		}
 		c := fmt.Sprintf("%X", r)
 		for len(c) < 4 {
 			c = "0" + c
-- 
2.43.0


From 58732672d0ec9efe9f87c3feca6566641bc2ffaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:08 +0000
Subject: [PATCH 05/30] fix: keep the minutes of the time zone in the creation
 date

---
 gopdf.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 1dc3053..a0b21c4 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2406,8 +2406,9 @@ func encodeUtf8(str string) string {
 }
 
 func infodate(t time.Time) string {
-	ft := t.Format("20060102150405-07'00'")
-	return ft
+	ft := t.Format("20060102150405-0700")
+	n := len(ft) - 2
+	return ft[:n] + "'" + ft[n:] + "'"
 }
 
 // SetTransparency sets transparency.
-- 
2.43.0


From 1aa3ec4172bd054e8911c38559a2b7c8bd537e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:10 +0000
Subject: [PATCH 06/30] fix: map glyphs of characters beyond U+FFFF to UTF-16
 in the Unicode map

---
 unicode_map.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/unicode_map.go b/unicode_map.go
index 5094482..fc166a7 100644
--- a/unicode_map.go
+++ b/unicode_map.go
@@ -3,6 +3,7 @@ package gopdf
 import (
 	"fmt"
 	"io"
+	"unicode/utf16"
 )
 
 // UnicodeMap unicode map
@@ -73,6 +74,11 @@ func (u *UnicodeMap) write(w io.Writer, objID int) error {
 	indexs := glyphIndexToCharacter.allIndexs()
 	for _, k := range indexs {
 		v, _ := glyphIndexToCharacter.runeByIndex(k)
+		if v > 0xFFFF { // surrogate pair
+			v1, v2 := utf16.EncodeRune(v)
+			fmt.Fprintf(buff, "<%04X><%04X><%04X%04X>\n", k, k, v1, v2)
+			continue
+		}
 		fmt.Fprintf(buff, "<%04X><%04X><%04X>\n", k, k, v)
 	}
 	buff.WriteString("endbfrange\n")
-- 
2.43.0


From 64f47a09841824c2f3405bfaf4c939c6b691c160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 07/30] fix: embed the components of composite glyphs at every
 depth

---
 pdf_dictionary_obj.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf_dictionary_obj.go b/pdf_dictionary_obj.go
index 5f771e1..06c5a8d 100644
--- a/pdf_dictionary_obj.go
+++ b/pdf_dictionary_obj.go
@@ -293,9 +293,9 @@ func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGly
 		glyphArray = append(glyphArray, 0)
 	}
 
+	// AddCompositeGlyphs appends the components, which may be composite in turn.
 	i := 0
-	count := len(glyphs)
-	for i < count {
+	for i < len(glyphArray) {
 		p.AddCompositeGlyphs(&glyphArray, glyphArray[i])
 		i++
 	}
-- 
2.43.0


From 58af2be0b02b19d6ef6af0f5027955358c3e7c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:15 +0000
Subject: [PATCH 08/30] fix: encrypt transparency groups of protected documents

---
 gopdf.go                      |  1 +
 transparency_xobject_group.go | 10 +++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/gopdf.go b/gopdf.go
index a0b21c4..868d138 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -623,6 +623,7 @@ func (gp *GoPdf) createTransparencyXObjectGroup(image *cacheContentImage, opts M
 	}
 
 	groupOpts := TransparencyXObjectGroupOptions{
+		Protection:       gp.protection(),
 		BBox:             *bbox,
 		ExtGStateIndexes: opts.extGStateIndexes,
 		XObjects:         []cacheContentImage{*image},
diff --git a/transparency_xobject_group.go b/transparency_xobject_group.go
index e58b1cc..bdf07ef 100644
--- a/transparency_xobject_group.go
+++ b/transparency_xobject_group.go
@@ -80,7 +80,15 @@ func (s TransparencyXObjectGroup) write(w io.Writer, objId int) error {
 		return err
 	}
 
-	if _, err := w.Write(streamBuff.Bytes()); err != nil {
+	stream := streamBuff.Bytes()
+	if s.protection() != nil {
+		tmp, err := rc4Cip(s.protection().objectkey(objId), stream)
+		if err != nil {
+			return err
+		}
+		stream = tmp
+	}
+	if _, err := w.Write(stream); err != nil {
 		return err
 	}
 
-- 
2.43.0


From c45e053819be23dd12f3eafc11f39aa998144727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:30 +0000
Subject: [PATCH 09/30] fix: refer to the outlines object as parent and to the
 preceding entry as previous

---
 outlines_obj.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/outlines_obj.go b/outlines_obj.go
index 13cae66..0c27be2 100644
--- a/outlines_obj.go
+++ b/outlines_obj.go
@@ -53,7 +53,7 @@ func (o *OutlinesObj) SetIndexObjOutlines(index int) {
 }
 
 func (o *OutlinesObj) AddOutline(dest int, title string) {
-	oo := &OutlineObj{title: title, dest: dest, parent: o.index, prev: o.last, next: -1}
+	oo := &OutlineObj{title: title, dest: dest, parent: o.index + 1, prev: o.last, next: -1}
 	o.last = o.getRoot().addObj(oo) + 1
 	if o.first <= 0 {
 		o.first = o.last
@@ -67,7 +67,7 @@ func (o *OutlinesObj) AddOutline(dest int, title string) {
 
 // AddOutlinesWithPosition add outlines with position
 func (o *OutlinesObj) AddOutlinesWithPosition(dest int, title string, y float64) *OutlineObj {
-	oo := &OutlineObj{title: title, dest: dest, parent: o.index, prev: o.last, next: -1, height: y}
+	oo := &OutlineObj{title: title, dest: dest, parent: o.index + 1, prev: o.last, next: -1, height: y}
 	o.last = o.getRoot().addObj(oo) + 1
 	if o.first <= 0 {
 		o.first = o.last
@@ -180,7 +180,7 @@ func (objs OutlineNodes) Parse() {
 		if i == 0 {
 			obj.Obj.SetPrev(-1)
 		} else {
-			obj.Obj.SetNext(objs[i-1].Obj.GetIndex())
+			obj.Obj.SetPrev(objs[i-1].Obj.GetIndex())
 		}
 		if i == len(objs)-1 {
 			obj.Obj.SetNext(-1)
-- 
2.43.0


From d9ed67398e3da3b1dbb34a1d125a2faa56522985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 10/30] fix: list imported templates in a fixed order

---
 procset_obj.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/procset_obj.go b/procset_obj.go
index 77da7ac..fe22751 100644
--- a/procset_obj.go
+++ b/procset_obj.go
@@ -3,6 +3,7 @@ package gopdf
 import (
 	"fmt"
 	"io"
+	"sort"
 )
 
 // ProcSetObj is a PDF procSet object.
@@ -47,8 +48,13 @@ func (pr *ProcSetObj) write(w io.Writer, objID int) error {
 		xobjects += fmt.Sprintf("\t\t/I%d %d 0 R\n", XObject.IndexOfObj+1, XObject.IndexOfObj+1)
 	}
 	// Write imported template name and their ids
-	for tplName, objID := range pr.ImportedTemplateIds {
-		xobjects += fmt.Sprintf("\t\t%s %d 0 R\n", tplName, objID)
+	tplNames := make([]string, 0, len(pr.ImportedTemplateIds))
+	for tplName := range pr.ImportedTemplateIds {
+		tplNames = append(tplNames, tplName)
+	}
+	sort.Strings(tplNames)
+	for _, tplName := range tplNames {
+		xobjects += fmt.Sprintf("\t\t%s %d 0 R\n", tplName, pr.ImportedTemplateIds[tplName])
 	}
 	xobjects += "\t>>\n"
 
-- 
2.43.0


From 81f54ff116205c32b4cd1af04b9be544ece0d4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:37 +0000
Subject: [PATCH 11/30] fix: do not write the password padding into the
 passwords given by the caller

---
 pdf_protection.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pdf_protection.go b/pdf_protection.go
index 6190938..b0892b3 100644
--- a/pdf_protection.go
+++ b/pdf_protection.go
@@ -49,9 +49,10 @@ func (p *PDFProtection) setProtection(permissions int, userPass []byte, ownerPas
 
 func (p *PDFProtection) generateEncryptionKey(userPass []byte, ownerPass []byte, protection int) error {
 
-	userPass = append(userPass, protectionPadding...)
+	// copy first: appending must not write into the caller's arrays
+	userPass = append(append([]byte{}, userPass...), protectionPadding...)
 	userPassWithPadding := userPass[0:32]
-	ownerPass = append(ownerPass, protectionPadding...)
+	ownerPass = append(append([]byte{}, ownerPass...), protectionPadding...)
 	ownerPassWithPadding := ownerPass[0:32]
 
 	//oValue
@@ -103,7 +104,7 @@ func (p *PDFProtection) createUValue(userPassWithPadding []byte, oValue []byte,
 	m.Write([]byte{byte(protection), byte(0xff), byte(0xff), byte(0xff)})
 
 	tmp2 := m.Sum(nil)
-	p.encryptionKey = tmp2[0:5]
+	p.encryptionKey = tmp2[0:5:5]
 	cip, err := rc4.NewCipher(p.encryptionKey)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 038cf5cb1dddafdf5fb8d0ab123ce6e8562c8008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:12 +0000
Subject: [PATCH 12/30] fix: convert rectangles and boxes with the custom
 conversion too

---
 gopdf.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 868d138..dc0612e 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -489,7 +489,7 @@ func (gp *GoPdf) SetXY(x, y float64) {
 func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect) error {
 	gp.UnitsToPointsVar(&x, &y)
 
-	rect = rect.UnitsToPoints(gp.config.Unit)
+	rect = rect.unitsToPoints(gp.config)
 
 	imageOptions := ImageOptions{
 		X:    x,
@@ -503,7 +503,7 @@ func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect
 func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) error {
 	gp.UnitsToPointsVar(&opts.X, &opts.Y)
 
-	opts.Rect = opts.Rect.UnitsToPoints(gp.config.Unit)
+	opts.Rect = opts.Rect.unitsToPoints(gp.config)
 
 	imageTransparency, err := gp.getCachedTransparency(opts.Transparency)
 	if err != nil {
@@ -525,7 +525,7 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 		}
 
 		gp.UnitsToPointsVar(&opts.Mask.ImageOptions.X, &opts.Mask.ImageOptions.Y)
-		opts.Mask.ImageOptions.Rect = opts.Mask.ImageOptions.Rect.UnitsToPoints(gp.config.Unit)
+		opts.Mask.ImageOptions.Rect = opts.Mask.ImageOptions.Rect.unitsToPoints(gp.config)
 
 		extGStateIndex, err := gp.maskHolder(opts.Mask.Holder, *opts.Mask)
 		if err != nil {
@@ -734,7 +734,7 @@ func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
 // Image : draw image
 func (gp *GoPdf) Image(picPath string, x float64, y float64, rect *Rect) error {
 	gp.UnitsToPointsVar(&x, &y)
-	rect = rect.UnitsToPoints(gp.config.Unit)
+	rect = rect.unitsToPoints(gp.config)
 	imgh, err := ImageHolderByPath(picPath)
 	if err != nil {
 		return err
@@ -764,7 +764,7 @@ func (gp *GoPdf) ImageFromWithOption(img image.Image, opts ImageFromOption) erro
 	}
 
 	gp.UnitsToPointsVar(&opts.X, &opts.Y)
-	opts.Rect = opts.Rect.UnitsToPoints(gp.config.Unit)
+	opts.Rect = opts.Rect.unitsToPoints(gp.config)
 	r, w := io.Pipe()
 	go func() {
 		bw := bufio.NewWriter(w)
@@ -806,8 +806,8 @@ func (gp *GoPdf) AddPage() {
 
 // AddPageWithOption  : add new page with option
 func (gp *GoPdf) AddPageWithOption(opt PageOption) {
-	opt.TrimBox = opt.TrimBox.UnitsToPoints(gp.config.Unit)
-	opt.PageSize = opt.PageSize.UnitsToPoints(gp.config.Unit)
+	opt.TrimBox = opt.TrimBox.unitsToPoints(gp.config)
+	opt.PageSize = opt.PageSize.unitsToPoints(gp.config)
 
 	page := new(PageObj)
 	page.init(func() *GoPdf {
@@ -1139,7 +1139,7 @@ func (gp *GoPdf) CellWithOption(rectangle *Rect, text string, opt CellOption) er
 		opt.extGStateIndexes = append(opt.extGStateIndexes, transparency.extGStateIndex)
 	}
 
-	rectangle = rectangle.UnitsToPoints(gp.config.Unit)
+	rectangle = rectangle.unitsToPoints(gp.config)
 	text, err = gp.curr.FontISubset.AddChars(text)
 	if err != nil {
 		return err
@@ -1154,7 +1154,7 @@ func (gp *GoPdf) CellWithOption(rectangle *Rect, text string, opt CellOption) er
 // Cell : create cell of text ( use current x,y is upper-left corner of cell)
 // Note that this has no effect on Rect.H pdf (now). Fix later :-)
 func (gp *GoPdf) Cell(rectangle *Rect, text string) error {
-	rectangle = rectangle.UnitsToPoints(gp.config.Unit)
+	rectangle = rectangle.unitsToPoints(gp.config)
 	defaultopt := CellOption{
 		Align:  Left | Top,
 		Border: 0,
-- 
2.43.0


From 793975885a96b75e4dc8941e4a6a2c961ef36eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:15 +0000
Subject: [PATCH 13/30] fix: compare and set heights in points in SetNewY and
 its variants

---
 gopdf.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index dc0612e..3929a63 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -384,9 +384,9 @@ func (gp *GoPdf) GetX() float64 {
 func (gp *GoPdf) SetNewY(y float64, h float64) {
 	gp.UnitsToPointsVar(&y)
 	gp.UnitsToPointsVar(&h)
-	if gp.curr.Y+h > gp.curr.pageSize.H-gp.MarginBottom() {
+	if gp.curr.Y+h > gp.curr.pageSize.H-gp.margins.Bottom {
 		gp.AddPage()
-		y = gp.MarginTop() // reset to top of the page.
+		y = gp.margins.Top // reset to top of the page.
 	}
 	gp.curr.Y = y
 }
@@ -400,9 +400,9 @@ func (gp *GoPdf) SetNewY(y float64, h float64) {
 func (gp *GoPdf) SetNewYIfNoOffset(y float64, h float64) {
 	gp.UnitsToPointsVar(&y)
 	gp.UnitsToPointsVar(&h)
-	if y+h > gp.curr.pageSize.H-gp.MarginBottom() { // using new y(*y) instead of gp.curr.Y
+	if y+h > gp.curr.pageSize.H-gp.margins.Bottom { // using new y(*y) instead of gp.curr.Y
 		gp.AddPage()
-		y = gp.MarginTop() // reset to top of the page.
+		y = gp.margins.Top // reset to top of the page.
 	}
 	gp.curr.Y = y
 }
@@ -417,9 +417,9 @@ func (gp *GoPdf) SetNewYIfNoOffset(y float64, h float64) {
 func (gp *GoPdf) SetNewXY(y float64, x, h float64) {
 	gp.UnitsToPointsVar(&y)
 	gp.UnitsToPointsVar(&h)
-	if gp.curr.Y+h > gp.curr.pageSize.H-gp.MarginBottom() {
+	if gp.curr.Y+h > gp.curr.pageSize.H-gp.margins.Bottom {
 		gp.AddPage()
-		y = gp.MarginTop() // reset to top of the page.
+		y = gp.margins.Top // reset to top of the page.
 	}
 	gp.curr.Y = y
 	gp.SetX(x)
@@ -430,9 +430,9 @@ func (gp *GoPdf) SetNewXY(y float64, x, h float64) {
 func (gp *GoPdf) SetNewY(y float64, h float64) float64 {
 	gp.UnitsToPointsVar(&y)
 	gp.UnitsToPointsVar(&h)
-	if gp.curr.Y+h > gp.curr.pageSize.H-gp.MarginBottom() {
+	if gp.curr.Y+h > gp.curr.pageSize.H-gp.margins.Bottom {
 		gp.AddPage()
-		y = gp.MarginTop() // reset to top of the page.
+		y = gp.margins.Top // reset to top of the page.
 	}
 	gp.curr.Y = y
 	return gp.GetY()
@@ -442,9 +442,9 @@ func (gp *GoPdf) SetNewY(y float64, h float64) float64 {
 func (gp *GoPdf) SetNewYIfNoOffset(y float64, h float64) float64 {
 	gp.UnitsToPointsVar(&y)
 	gp.UnitsToPointsVar(&h)
-	if y+h > gp.curr.pageSize.H-gp.MarginBottom() { // using new y(*y) instead of gp.curr.Y
+	if y+h > gp.curr.pageSize.H-gp.margins.Bottom { // using new y(*y) instead of gp.curr.Y
 		gp.AddPage()
-		y = gp.MarginTop() // reset to top of the page.
+		y = gp.margins.Top // reset to top of the page.
 	}
 	gp.curr.Y = y
 	return gp.GetY()
@@ -454,9 +454,9 @@ func (gp *GoPdf) SetNewYIfNoOffset(y float64, h float64) float64 {
 func (gp *GoPdf) SetNewXY(y float64, x, h float64) float64{
 	gp.UnitsToPointsVar(&y)
 	gp.UnitsToPointsVar(&h)
-	if gp.curr.Y+h > gp.curr.pageSize.H-gp.MarginBottom() {
+	if gp.curr.Y+h > gp.curr.pageSize.H-gp.margins.Bottom {
 		gp.AddPage()
-		y = gp.MarginTop() // reset to top of the page.
+		y = gp.margins.Top // reset to top of the page.
 	}
 	gp.curr.Y = y
 	gp.SetX(x)
-- 
2.43.0


From 273ccb13f1deb18844f675c92f4a277bf1a06153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:17 +0000
Subject: [PATCH 14/30] fix: measure place holders in points, with their own
 font

---
 gopdf.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 3929a63..665ce8b 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1419,7 +1419,7 @@ func (gp *GoPdf) PlaceHolderText(placeHolderName string, placeHolderWidth float6
 		return err
 	}
 
-	gp.PointsToUnitsVar(&placeHolderWidth)
+	gp.UnitsToPointsVar(&placeHolderWidth)
 	err = gp.getContent().appendStreamPlaceHolderText(placeHolderWidth)
 	if err != nil {
 		return err
@@ -1468,11 +1468,10 @@ func (gp *GoPdf) FillInPlaceHoldText(placeHolderName string, text string, align
 		contentText.text = text
 
 		//Calculate position
-		_, _, textWidthPdfUnit, err := createContent(gp.curr.FontISubset, text, info.fontSize, info.charSpacing, nil)
+		_, _, width, err := createContent(info.fontISubset, text, info.fontSize, info.charSpacing, nil)
 		if err != nil {
 			return err
 		}
-		width := pointsToUnits(gp.config, textWidthPdfUnit)
 
 		if align == Right {
 			diff := info.placeHolderWidth - width
-- 
2.43.0


From 2fcbc4e2a760d98ac17fde61b4ddf6597bc6e22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:33 +0000
Subject: [PATCH 15/30] fix: switch page size and page object with the content
 in SetPage

---
 gopdf.go | 54 ++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 665ce8b..3b22fe1 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -816,15 +816,8 @@ func (gp *GoPdf) AddPageWithOption(opt PageOption) {
 
 	if !opt.isEmpty() { //use page option
 		page.setOption(opt)
-		gp.curr.pageSize = opt.PageSize
-
-		if opt.isTrimBoxSet() {
-			gp.curr.trimBox = opt.TrimBox
-		}
-	} else { //use default
-		gp.curr.pageSize = &gp.config.PageSize
-		gp.curr.trimBox = &gp.config.TrimBox
 	}
+	gp.setCurrentPageOption(opt)
 
 	page.ResourcesRelate = strconv.Itoa(gp.indexOfProcSet+1) + " 0 R"
 	index := gp.addObj(page)
@@ -2498,19 +2491,48 @@ func (gp *GoPdf) IsCurrFontContainGlyph(r rune) (bool, error) {
 
 // SetPage set current page
 func (gp *GoPdf) SetPage(pageno int) error {
-	var pageIndex int
-	for i := 0; i < len(gp.pdfObjs); i++ {
-		switch gp.pdfObjs[i].(type) {
+	indexOfPage, indexOfContent := -1, -1
+	pages := 0
+	for i, obj := range gp.pdfObjs {
+		switch obj.(type) {
+		case *PageObj:
+			pages++
+			if pages == pageno {
+				indexOfPage = i
+			}
 		case *ContentObj:
-			pageIndex += 1
-			if pageIndex == pageno {
-				gp.indexOfContent = i
-				return nil
+			if pages == pageno {
+				indexOfContent = i
 			}
 		}
 	}
 
-	return errors.New("invalid page number")
+	if indexOfPage == -1 {
+		return errors.New("invalid page number")
+	}
+	if indexOfContent == -1 && pages != pageno { //new content would land on the last page
+		return errors.New("page has no content")
+	}
+
+	gp.indexOfContent = indexOfContent
+	gp.curr.IndexOfPageObj = indexOfPage
+	gp.setCurrentPageOption(gp.pdfObjs[indexOfPage].(*PageObj).pageOption)
+
+	return nil
+}
+
+// setCurrentPageOption makes the page size and trim box of a page the current ones
+func (gp *GoPdf) setCurrentPageOption(opt PageOption) {
+	if !opt.isEmpty() { //use page option
+		gp.curr.pageSize = opt.PageSize
+
+		if opt.isTrimBoxSet() {
+			gp.curr.trimBox = opt.TrimBox
+		}
+	} else { //use default
+		gp.curr.pageSize = &gp.config.PageSize
+		gp.curr.trimBox = &gp.config.TrimBox
+	}
 }
 
 func (gp *GoPdf) SetColorSpace(name string) error {
-- 
2.43.0


From 0179107fa7df2a97b1cce03103d1bf62dde696da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:51 +0000
Subject: [PATCH 16/30] fix: merge texts only if every attribute agrees

---
 cache_content_text.go |  9 +++++++--
 cell_option.go        | 18 ++++++++++++++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/cache_content_text.go b/cache_content_text.go
index e6d01ff..4c44733 100644
--- a/cache_content_text.go
+++ b/cache_content_text.go
@@ -45,7 +45,7 @@ type cacheContentText struct {
 }
 
 func (c *cacheContentText) isSame(cache cacheContentText) bool {
-	if c.rectangle != nil {
+	if c.rectangle != nil || cache.rectangle != nil {
 		//if rectangle != nil we assume this is not same content
 		return false
 	}
@@ -59,8 +59,13 @@ func (c *cacheContentText) isSame(cache cacheContentText) bool {
 		c.fontStyle == cache.fontStyle &&
 		c.charSpacing == cache.charSpacing &&
 		c.setXCount == cache.setXCount &&
+		c.x+c.textWidthPdfUnit == cache.x &&
 		c.y == cache.y &&
-		c.isPlaceHolder == cache.isPlaceHolder {
+		c.isPlaceHolder == cache.isPlaceHolder &&
+		c.txtColorMode == cache.txtColorMode &&
+		c.contentType == cache.contentType &&
+		c.lineWidth == cache.lineWidth &&
+		c.cellOpt.isSameTextOption(cache.cellOpt) {
 		return true
 	}
 
diff --git a/cell_option.go b/cell_option.go
index 6a1134b..10d8201 100644
--- a/cell_option.go
+++ b/cell_option.go
@@ -30,3 +30,21 @@ type CellOption struct {
 
 	extGStateIndexes []int
 }
+
+// isSameTextOption tells whether texts with these options may share one run
+func (c CellOption) isSameTextOption(opt CellOption) bool {
+	if len(c.extGStateIndexes) != len(opt.extGStateIndexes) {
+		return false
+	}
+	for i, index := range c.extGStateIndexes {
+		if index != opt.extGStateIndexes[i] {
+			return false
+		}
+	}
+	return c.Align == opt.Align &&
+		c.Border == opt.Border &&
+		c.Float == opt.Float &&
+		c.CoefUnderlinePosition == opt.CoefUnderlinePosition &&
+		c.CoefLineHeight == opt.CoefLineHeight &&
+		c.CoefUnderlineThickness == opt.CoefUnderlineThickness
+}
-- 
2.43.0


From 76bde4e910399c9c3222c437d901a5c62590b50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:53 +0000
Subject: [PATCH 17/30] fix: apply the current transparency to Text, Cell and
 place holders too

---
 content_obj.go |  6 ++++++
 gopdf.go       | 16 ++--------------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/content_obj.go b/content_obj.go
index 6dad489..17178a7 100644
--- a/content_obj.go
+++ b/content_obj.go
@@ -114,6 +114,9 @@ func (c *ContentObj) appendStreamPlaceHolderText(placeHolderWidth float64) error
 	fontSubset := c.getRoot().curr.FontISubset
 
 	cellOption := CellOption{Transparency: c.getRoot().curr.transparency}
+	if transparency := c.getRoot().curr.transparency; transparency != nil {
+		cellOption.extGStateIndexes = append(cellOption.extGStateIndexes, transparency.extGStateIndex)
+	}
 
 	cache := cacheContentText{
 		fontSubset:     fontSubset,
@@ -162,6 +165,9 @@ func (c *ContentObj) AppendStreamText(text string) error {
 	fontSubset := c.getRoot().curr.FontISubset
 
 	cellOption := CellOption{Transparency: c.getRoot().curr.transparency}
+	if transparency := c.getRoot().curr.transparency; transparency != nil {
+		cellOption.extGStateIndexes = append(cellOption.extGStateIndexes, transparency.extGStateIndex)
+	}
 
 	cache := cacheContentText{
 		fontSubset:     fontSubset,
diff --git a/gopdf.go b/gopdf.go
index 3b22fe1..c9508ae 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1147,23 +1147,11 @@ func (gp *GoPdf) CellWithOption(rectangle *Rect, text string, opt CellOption) er
 // Cell : create cell of text ( use current x,y is upper-left corner of cell)
 // Note that this has no effect on Rect.H pdf (now). Fix later :-)
 func (gp *GoPdf) Cell(rectangle *Rect, text string) error {
-	rectangle = rectangle.unitsToPoints(gp.config)
-	defaultopt := CellOption{
+	return gp.CellWithOption(rectangle, text, CellOption{
 		Align:  Left | Top,
 		Border: 0,
 		Float:  Right,
-	}
-
-	text, err := gp.curr.FontISubset.AddChars(text)
-	if err != nil {
-		return err
-	}
-	err = gp.getContent().AppendStreamSubsetFont(rectangle, text, defaultopt)
-	if err != nil {
-		return err
-	}
-
-	return nil
+	})
 }
 
 // MultiCell : create of text with line breaks ( use current x,y is upper-left corner of cell)
-- 
2.43.0


From cf2cc1fc735c129d6d2a5fa260a96905bee340d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:26 +0000
Subject: [PATCH 18/30] fix: transparency settings given as literals were
 neither checked nor copied, and opaque ones lost their blend mode

---
 gopdf.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index c9508ae..09bdea5 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2429,15 +2429,22 @@ func (gp *GoPdf) getCachedTransparency(transparency *Transparency) (*Transparenc
 }
 
 func (gp *GoPdf) saveTransparency(transparency *Transparency) (*Transparency, error) {
+	// a checked copy: the caller may change his own setting later
+	setting, err := NewTransparency(transparency.Alpha, string(transparency.BlendModeType))
+	if err != nil {
+		return nil, err
+	}
+	transparency = &setting
+
 	cached, ok := gp.curr.transparencyMap.Find(*transparency)
 	if ok {
 		return &cached, nil
-	} else if transparency.Alpha != DefaultAplhaValue {
-		bm := transparency.BlendModeType
+	} else if transparency.Alpha != DefaultAplhaValue || transparency.BlendModeType != NormalBlendMode {
+		bm, alpha := transparency.BlendModeType, transparency.Alpha
 		opts := ExtGStateOptions{
 			BlendMode:     &bm,
-			StrokingCA:    &transparency.Alpha,
-			NonStrokingCa: &transparency.Alpha,
+			StrokingCA:    &alpha,
+			NonStrokingCa: &alpha,
 		}
 
 		extGState, err := GetCachedExtGState(opts, gp)
-- 
2.43.0


From 4f2491542a199b9f63b557772e5585fa584e3cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:02 +0000
Subject: [PATCH 19/30] fix: SetCustomLineType converted the dash lengths in
 the slice of the caller, so a second call with it converted them again

---
 gopdf.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 09bdea5..58f8926 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -206,11 +206,12 @@ func (gp *GoPdf) SetLineType(linetype string) {
 //	pdf.SetCustomLineType([]float64{0.8, 0.8}, 0)
 //	pdf.Line(50, 200, 550, 200)
 func (gp *GoPdf) SetCustomLineType(dashArray []float64, dashPhase float64) {
-	for i := range dashArray {
-		gp.UnitsToPointsVar(&dashArray[i])
+	dashes := make([]float64, len(dashArray))
+	for i, dash := range dashArray {
+		dashes[i] = gp.UnitsToPoints(dash)
 	}
 	gp.UnitsToPointsVar(&dashPhase)
-	gp.getContent().AppendStreamSetCustomLineType(dashArray, dashPhase)
+	gp.getContent().AppendStreamSetCustomLineType(dashes, dashPhase)
 }
 
 // Line : draw line
-- 
2.43.0


From 4cdf4442ce645f5581fd2be9a4e0a1e0d142d20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:03 +0000
Subject: [PATCH 20/30] fix: SetCompressLevel ignored a level it said it would
 replace by the best compression

---
 gopdf.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gopdf.go b/gopdf.go
index 58f8926..d6f53ba 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -178,7 +178,6 @@ func (gp *GoPdf) SetCompressLevel(level int) {
 	} else if level > zlib.BestCompression {
 		fmt.Fprintf(os.Stderr, errfmt, "big", "BestCompression")
 		level = zlib.BestCompression
-		return
 	}
 	// sanity check complete
 	gp.compressLevel = level
-- 
2.43.0


From af04e6a9f678adf4fd79200c328ca4c0ecde83a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:05 +0000
Subject: [PATCH 21/30] fix: Oval, Curve and the rectangles without style
 ignored the current transparency

---
 cache_content_oval.go   | 13 +++++++++++++
 cache_contnent_curve.go | 14 ++++++++++++++
 content_obj.go          | 10 ++++++++++
 gopdf.go                | 10 +++-------
 4 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/cache_content_oval.go b/cache_content_oval.go
index f3b2df9..810deab 100644
--- a/cache_content_oval.go
+++ b/cache_content_oval.go
@@ -11,6 +11,8 @@ type cacheContentOval struct {
 	y1         float64
 	x2         float64
 	y2         float64
+
+	extGStateIndexes []int
 }
 
 func (c *cacheContentOval) write(w io.Writer, protection *PDFProtection) error {
@@ -27,6 +29,13 @@ func (c *cacheContentOval) write(w io.Writer, protection *PDFProtection) error {
 	v3 := [2]float64{x1 + (x2-x1)/2, h - y1}   // .. Upper
 	v4 := [2]float64{x1, h - (y1 + (y2-y1)/2)} // .. Left
 
+	if len(c.extGStateIndexes) > 0 {
+		fmt.Fprint(w, "q\n")
+		for _, extGStateIndex := range c.extGStateIndexes {
+			fmt.Fprintf(w, "/GS%d gs\n", extGStateIndex)
+		}
+	}
+
 	fmt.Fprintf(w, "%0.2f %0.2f m\n", v1[0], v1[1])
 	fmt.Fprintf(w,
 		"%0.2f %0.2f %0.2f %0.2f %0.2f %0.2f c\n",
@@ -45,5 +54,9 @@ func (c *cacheContentOval) write(w io.Writer, protection *PDFProtection) error {
 		v4[0], v4[1]-(y2-y1)/2*cp, v1[0]-(x2-x1)/2*cp, v1[1], v1[0], v1[1],
 	)
 
+	if len(c.extGStateIndexes) > 0 {
+		fmt.Fprint(w, "Q\n")
+	}
+
 	return nil
 }
diff --git a/cache_contnent_curve.go b/cache_contnent_curve.go
index e60a503..080c3a8 100644
--- a/cache_contnent_curve.go
+++ b/cache_contnent_curve.go
@@ -16,6 +16,8 @@ type cacheContentCurve struct {
 	x3         float64
 	y3         float64
 	style      string
+
+	extGStateIndexes []int
 }
 
 func (c *cacheContentCurve) write(w io.Writer, protection *PDFProtection) error {
@@ -31,6 +33,13 @@ func (c *cacheContentCurve) write(w io.Writer, protection *PDFProtection) error
 	y3 := c.y3
 	style := c.style
 
+	if len(c.extGStateIndexes) > 0 {
+		fmt.Fprint(w, "q\n")
+		for _, extGStateIndex := range c.extGStateIndexes {
+			fmt.Fprintf(w, "/GS%d gs\n", extGStateIndex)
+		}
+	}
+
 	//cp := 0.55228
 	fmt.Fprintf(w, "%0.2f %0.2f m\n", x0, h-y0)
 	fmt.Fprintf(w,
@@ -44,5 +53,10 @@ func (c *cacheContentCurve) write(w io.Writer, protection *PDFProtection) error
 		op = "B"
 	}
 	fmt.Fprintf(w, " %s\n", op)
+
+	if len(c.extGStateIndexes) > 0 {
+		fmt.Fprint(w, "Q\n")
+	}
+
 	return nil
 }
diff --git a/content_obj.go b/content_obj.go
index 17178a7..adbcd1e 100644
--- a/content_obj.go
+++ b/content_obj.go
@@ -268,9 +268,18 @@ func (c *ContentObj) AppendStreamRectangle(opts DrawableRectOptions) {
 	c.listCache.append(cache)
 }
 
+// currentExtGStates graphics state of the current transparency
+func (c *ContentObj) currentExtGStates() []int {
+	if transparency := c.getRoot().curr.transparency; transparency != nil {
+		return []int{transparency.extGStateIndex}
+	}
+	return nil
+}
+
 // AppendStreamOval append oval
 func (c *ContentObj) AppendStreamOval(x1 float64, y1 float64, x2 float64, y2 float64) {
 	var cache cacheContentOval
+	cache.extGStateIndexes = c.currentExtGStates()
 	cache.pageHeight = c.getRoot().curr.pageSize.H
 	cache.x1 = x1
 	cache.y1 = y1
@@ -290,6 +299,7 @@ func (c *ContentObj) AppendStreamOval(x1 float64, y1 float64, x2 float64, y2 flo
 //     DF or FD: draw and fill
 func (c *ContentObj) AppendStreamCurve(x0 float64, y0 float64, x1 float64, y1 float64, x2 float64, y2 float64, x3 float64, y3 float64, style string) {
 	var cache cacheContentCurve
+	cache.extGStateIndexes = c.currentExtGStates()
 	cache.pageHeight = c.getRoot().curr.pageSize.H
 	cache.x0 = x0
 	cache.y0 = y0
diff --git a/gopdf.go b/gopdf.go
index d6f53ba..e384b96 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -237,8 +237,6 @@ func (gp *GoPdf) Line(x1 float64, y1 float64, x2 float64, y2 float64) {
 
 // RectFromLowerLeft : draw rectangle from lower-left corner (x, y)
 func (gp *GoPdf) RectFromLowerLeft(x float64, y float64, wdth float64, hght float64) {
-	gp.UnitsToPointsVar(&x, &y, &wdth, &hght)
-
 	opts := DrawableRectOptions{
 		X:          x,
 		Y:          y,
@@ -246,21 +244,19 @@ func (gp *GoPdf) RectFromLowerLeft(x float64, y float64, wdth float64, hght floa
 		Rect:       Rect{W: wdth, H: hght},
 	}
 
-	gp.getContent().AppendStreamRectangle(opts)
+	gp.RectFromLowerLeftWithOpts(opts)
 }
 
 // RectFromUpperLeft : draw rectangle from upper-left corner (x, y)
 func (gp *GoPdf) RectFromUpperLeft(x float64, y float64, wdth float64, hght float64) {
-	gp.UnitsToPointsVar(&x, &y, &wdth, &hght)
-
 	opts := DrawableRectOptions{
 		X:          x,
-		Y:          y + hght,
+		Y:          y,
 		PaintStyle: DrawPaintStyle,
 		Rect:       Rect{W: wdth, H: hght},
 	}
 
-	gp.getContent().AppendStreamRectangle(opts)
+	gp.RectFromUpperLeftWithOpts(opts)
 }
 
 // RectFromLowerLeftWithStyle : draw rectangle from lower-left corner (x, y)
-- 
2.43.0


From 756ccfffa9dcd334656a46a19babee9ee9280377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:13 +0000
Subject: [PATCH 22/30] fix: links, anchors and outline heights follow the size
 of the current page

---
 gopdf.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index e384b96..55711b2 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -845,7 +845,7 @@ func (gp *GoPdf) AddOutline(title string) {
 
 // AddOutlineWithPosition add an outline with position
 func (gp *GoPdf) AddOutlineWithPosition(title string) *OutlineObj {
-	return gp.outlines.AddOutlinesWithPosition(gp.curr.IndexOfPageObj+1, title, gp.config.PageSize.H-gp.curr.Y+20)
+	return gp.outlines.AddOutlinesWithPosition(gp.curr.IndexOfPageObj+1, title, gp.currPageHeight()-gp.curr.Y+20)
 }
 
 // AddHeader - add a header function, if present this will be automatically called by AddPage()
@@ -1689,11 +1689,19 @@ func (gp *GoPdf) ImportTemplates(tpls map[string]int) {
 	}
 }
 
+// currPageHeight returns the height of the current page in points.
+func (gp *GoPdf) currPageHeight() float64 {
+	if gp.curr.pageSize != nil {
+		return gp.curr.pageSize.H
+	}
+	return gp.config.PageSize.H
+}
+
 // AddExternalLink adds a new external link.
 func (gp *GoPdf) AddExternalLink(url string, x, y, w, h float64) {
 	gp.UnitsToPointsVar(&x, &y, &w, &h)
 
-	linkOpt := linkOption{x, gp.config.PageSize.H - y, w, h, url, ""}
+	linkOpt := linkOption{x, gp.currPageHeight() - y, w, h, url, ""}
 	gp.addLink(linkOpt)
 }
 
@@ -1701,7 +1709,7 @@ func (gp *GoPdf) AddExternalLink(url string, x, y, w, h float64) {
 func (gp *GoPdf) AddInternalLink(anchor string, x, y, w, h float64) {
 	gp.UnitsToPointsVar(&x, &y, &w, &h)
 
-	linkOpt := linkOption{x, gp.config.PageSize.H - y, w, h, "", anchor}
+	linkOpt := linkOption{x, gp.currPageHeight() - y, w, h, "", anchor}
 	gp.addLink(linkOpt)
 }
 
@@ -1715,7 +1723,7 @@ func (gp *GoPdf) addLink(option linkOption) {
 
 // SetAnchor creates a new anchor.
 func (gp *GoPdf) SetAnchor(name string) {
-	y := gp.config.PageSize.H - gp.curr.Y + float64(gp.curr.FontSize)
+	y := gp.currPageHeight() - gp.curr.Y + float64(gp.curr.FontSize)
 	gp.anchors[name] = anchorOption{gp.curr.IndexOfPageObj, y}
 }
 
-- 
2.43.0


From 8a61458d9853c03c20e39f748db2cff016c93ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:16 +0000
Subject: [PATCH 23/30] fix: a link to an anchor that was never set is written
 as an empty object

---
 annot_obj.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/annot_obj.go b/annot_obj.go
index dd10a7a..ce3b33f 100644
--- a/annot_obj.go
+++ b/annot_obj.go
@@ -49,7 +49,10 @@ func (o annotObj) writeExternalLink(w io.Writer, l linkOption, objID int) error
 func (o annotObj) writeInternalLink(w io.Writer, l linkOption) error {
 	a, ok := o.GetRoot().anchors[l.anchor]
 	if !ok {
-		return nil
+		// the anchor was never set: a link that leads nowhere
+		_, err := fmt.Fprintf(w, "<</Type /Annot /Subtype /Link /Rect [%.2f %.2f %.2f %.2f] /Border [0 0 0]>>\n",
+			l.x, l.y, l.x+l.w, l.y-l.h)
+		return err
 	}
 	_, err := fmt.Fprintf(w, "<</Type /Annot /Subtype /Link /Rect [%.2f %.2f %.2f %.2f] /Border [0 0 0] /Dest [%d 0 R /XYZ 0 %.2f null]>>\n",
 		l.x, l.y, l.x+l.w, l.y-l.h, a.page+1, a.y)
-- 
2.43.0


From 4d0956e1f49e779f90cabf018e93e5cc99d695c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:50 +0000
Subject: [PATCH 24/30] fix: a nested outline names as its last entry one that
 is not at its top level

---
 outlines_obj.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/outlines_obj.go b/outlines_obj.go
index 0c27be2..eca2f25 100644
--- a/outlines_obj.go
+++ b/outlines_obj.go
@@ -53,7 +53,7 @@ func (o *OutlinesObj) SetIndexObjOutlines(index int) {
 }
 
 func (o *OutlinesObj) AddOutline(dest int, title string) {
-	oo := &OutlineObj{title: title, dest: dest, parent: o.index + 1, prev: o.last, next: -1}
+	oo := &OutlineObj{title: title, dest: dest, parent: o.index + 1, prev: o.last, next: -1, root: o}
 	o.last = o.getRoot().addObj(oo) + 1
 	if o.first <= 0 {
 		o.first = o.last
@@ -63,11 +63,12 @@ func (o *OutlinesObj) AddOutline(dest int, title string) {
 	}
 	o.lastObj = oo
 	o.count++
+	oo.index = o.last
 }
 
 // AddOutlinesWithPosition add outlines with position
 func (o *OutlinesObj) AddOutlinesWithPosition(dest int, title string, y float64) *OutlineObj {
-	oo := &OutlineObj{title: title, dest: dest, parent: o.index + 1, prev: o.last, next: -1, height: y}
+	oo := &OutlineObj{title: title, dest: dest, parent: o.index + 1, prev: o.last, next: -1, height: y, root: o}
 	o.last = o.getRoot().addObj(oo) + 1
 	if o.first <= 0 {
 		o.first = o.last
@@ -96,6 +97,7 @@ type OutlineObj struct { //impl IObj
 	first  int
 	last   int
 	height float64
+	root   *OutlinesObj
 }
 
 func (o *OutlineObj) init(funcGetRoot func() *GoPdf) {
@@ -187,6 +189,16 @@ func (objs OutlineNodes) Parse() {
 		} else {
 			obj.Obj.SetNext(objs[i+1].Obj.GetIndex())
 		}
+		if root := obj.Obj.root; root != nil {
+			obj.Obj.SetParent(root.index + 1)
+			if i == 0 {
+				root.first = obj.Obj.GetIndex()
+			}
+			if i == len(objs)-1 {
+				root.last = obj.Obj.GetIndex()
+				root.lastObj = obj.Obj
+			}
+		}
 		obj.Parse()
 	}
 
-- 
2.43.0


From 6f9f6099044a30ae05b524a764b2051f65eac333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:53 +0000
Subject: [PATCH 25/30] fix: outline entries with entries below them have no
 count, which the outline counts as shown

---
 outlines_obj.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/outlines_obj.go b/outlines_obj.go
index eca2f25..05eb821 100644
--- a/outlines_obj.go
+++ b/outlines_obj.go
@@ -98,6 +98,7 @@ type OutlineObj struct { //impl IObj
 	last   int
 	height float64
 	root   *OutlinesObj
+	count  int
 }
 
 func (o *OutlineObj) init(funcGetRoot func() *GoPdf) {
@@ -161,6 +162,9 @@ func (o *OutlineObj) write(w io.Writer, objID int) error {
 	if o.last > 0 {
 		fmt.Fprintf(w, "  /Last %d 0 R\n", o.last)
 	}
+	if o.count > 0 {
+		fmt.Fprintf(w, "  /Count %d\n", o.count)
+	}
 	fmt.Fprintf(w, "  /Dest [ %d 0 R /XYZ 90 %f 0 ]\n", o.dest, o.height)
 	fmt.Fprintf(w, "  /Title <FEFF%s>\n", encodeUtf8(o.title))
 	io.WriteString(w, ">>\n")
@@ -206,6 +210,7 @@ func (objs OutlineNodes) Parse() {
 
 // Parse parse outline
 func (obj OutlineNode) Parse() {
+	obj.Obj.count = 0
 	if obj.Children == nil || len(obj.Children) == 0 {
 		return
 	}
@@ -226,5 +231,6 @@ func (obj OutlineNode) Parse() {
 		}
 		children.Obj.SetParent(obj.Obj.GetIndex())
 		children.Parse()
+		obj.Obj.count += children.Obj.count + 1
 	}
 }
-- 
2.43.0


From 5ca2ebc55749159df17f7d84e1c7568e7ea9a2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:32 +0000
Subject: [PATCH 26/30] fix: look up a character the last segment does not
 reach, or whose range offset leads out of the glyph array, as not found

---
 subset_font_obj.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/subset_font_obj.go b/subset_font_obj.go
index cb37664..965052d 100644
--- a/subset_font_obj.go
+++ b/subset_font_obj.go
@@ -262,7 +262,7 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat4(r rune) (uint, error) {
 		seg++
 	}
 	//fmt.Printf("\ncccc--->%#v\n", me.ttfp.Chars())
-	if value < s.ttfp.StartCount[seg] {
+	if seg >= segCount || value < s.ttfp.StartCount[seg] {
 		return 0, ErrGlyphNotFound
 	}
 
@@ -271,13 +271,16 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat4(r rune) (uint, error) {
 		return (value + s.ttfp.IdDelta[seg]) & 0xFFFF, nil
 	}
 	//fmt.Printf("IdRangeOffset=%d\n", me.ttfp.IdRangeOffset[seg])
-	idx := s.ttfp.IdRangeOffset[seg]/2 + (value - s.ttfp.StartCount[seg]) - (segCount - seg)
+	idx := int(s.ttfp.IdRangeOffset[seg]/2+(value-s.ttfp.StartCount[seg])) - int(segCount-seg)
+	if idx < 0 || idx >= len(s.ttfp.GlyphIdArray) {
+		return 0, ErrGlyphNotFound
+	}
 
-	if s.ttfp.GlyphIdArray[int(idx)] == uint(0) {
+	if s.ttfp.GlyphIdArray[idx] == uint(0) {
 		return 0, nil
 	}
 
-	return (s.ttfp.GlyphIdArray[int(idx)] + s.ttfp.IdDelta[seg]) & 0xFFFF, nil
+	return (s.ttfp.GlyphIdArray[idx] + s.ttfp.IdDelta[seg]) & 0xFFFF, nil
 }
 
 // CharCodeToGlyphIndex gets glyph index from char code.
-- 
2.43.0


From 222c7d02f6b143bb16ec4dc794a743b6b7d2b09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:00 +0000
Subject: [PATCH 27/30] fix: a picture used as a mask and as an image gets an
 object for each use

---
 gopdf.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 55711b2..64a084a 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -539,7 +539,7 @@ func (gp *GoPdf) maskHolder(img ImageHolder, opts MaskOptions) (int, error) {
 	var cacheContentImage *cacheContentImage
 
 	for _, imgcache := range gp.curr.ImgCaches {
-		if img.ID() == imgcache.Path {
+		if img.ID() == imgcache.Path && gp.isImageObjFor(imgcache.Index, true, false) {
 			cacheImage = &imgcache
 			break
 		}
@@ -645,11 +645,21 @@ func (gp *GoPdf) createTransparencyXObjectGroup(image *cacheContentImage, opts M
 	return extGState.Index + 1, nil
 }
 
+// isImageObjFor reports whether the image object can be drawn as a mask, or as
+// a picture with or without a mask of its own.
+func (gp *GoPdf) isImageObjFor(index int, isMask bool, splittedMask bool) bool {
+	imgobj, ok := gp.pdfObjs[index].(*ImageObj)
+	if !ok || imgobj.IsMask != isMask {
+		return false
+	}
+	return imgobj.SplittedMask == splittedMask || len(imgobj.imginfo.smask) == 0 && len(imgobj.imginfo.trns) == 0
+}
+
 func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
 	cacheImageIndex := -1
 
 	for _, imgcache := range gp.curr.ImgCaches {
-		if img.ID() == imgcache.Path {
+		if img.ID() == imgcache.Path && gp.isImageObjFor(imgcache.Index, false, opts.Mask != nil) {
 			cacheImageIndex = imgcache.Index
 			break
 		}
-- 
2.43.0


From 714f05037f3e4e34393aa60ec6ea2a5235863b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:03 +0000
Subject: [PATCH 28/30] fix: drawing an image with a mask leaves the options of
 the caller alone

---
 gopdf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gopdf.go b/gopdf.go
index 64a084a..b273f70 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -511,6 +511,9 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 	}
 
 	if opts.Mask != nil {
+		mask := *opts.Mask // converted and extended below, the caller keeps his own
+		opts.Mask = &mask
+
 		maskTransparency, err := gp.getCachedTransparency(opts.Mask.ImageOptions.Transparency)
 		if err != nil {
 			return err
-- 
2.43.0


From 9a73bcd6d002b4ed005db8af4fccec9f2f94f1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:00 +0000
Subject: [PATCH 29/30] fix: convert the lengths of a crop with the unit of the
 document

---
 gopdf.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gopdf.go b/gopdf.go
index b273f70..1833be9 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -123,6 +123,15 @@ type CropOptions struct {
 	Height float64
 }
 
+func (crop *CropOptions) unitsToPoints(unitCfg unitConfigurator) *CropOptions {
+	if crop == nil {
+		return nil
+	}
+	c := *crop
+	unitsToPointsVar(unitCfg, &c.X, &c.Y, &c.Width, &c.Height)
+	return &c
+}
+
 type ImageOptions struct {
 	DegreeAngle    float64
 	VerticalFlip   bool
@@ -500,6 +509,7 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 	gp.UnitsToPointsVar(&opts.X, &opts.Y)
 
 	opts.Rect = opts.Rect.unitsToPoints(gp.config)
+	opts.Crop = opts.Crop.unitsToPoints(gp.config)
 
 	imageTransparency, err := gp.getCachedTransparency(opts.Transparency)
 	if err != nil {
@@ -525,6 +535,7 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 
 		gp.UnitsToPointsVar(&opts.Mask.ImageOptions.X, &opts.Mask.ImageOptions.Y)
 		opts.Mask.ImageOptions.Rect = opts.Mask.ImageOptions.Rect.unitsToPoints(gp.config)
+		opts.Mask.ImageOptions.Crop = opts.Mask.ImageOptions.Crop.unitsToPoints(gp.config)
 
 		extGStateIndex, err := gp.maskHolder(opts.Mask.Holder, *opts.Mask)
 		if err != nil {
-- 
2.43.0


From 95b741c2501e4dc76f109a429ddf54836b1edd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:02 +0000
Subject: [PATCH 30/30] fix: images drawn without options follow the current
 transparency, too

---
 gopdf.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gopdf.go b/gopdf.go
index 1833be9..917837a 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -501,6 +501,9 @@ func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect
 		Y:    y,
 		Rect: rect,
 	}
+	if gp.curr.transparency != nil {
+		imageOptions.extGStateIndexes = append(imageOptions.extGStateIndexes, gp.curr.transparency.extGStateIndex)
+	}
 
 	return gp.imageByHolder(img, imageOptions)
 }
@@ -765,6 +768,9 @@ func (gp *GoPdf) Image(picPath string, x float64, y float64, rect *Rect) error {
 		Y:    y,
 		Rect: rect,
 	}
+	if gp.curr.transparency != nil {
+		imageOptions.extGStateIndexes = append(imageOptions.extGStateIndexes, gp.curr.transparency.extGStateIndex)
+	}
 
 	return gp.imageByHolder(imgh, imageOptions)
 }
@@ -814,6 +820,9 @@ func (gp *GoPdf) ImageFromWithOption(img image.Image, opts ImageFromOption) erro
 		Y:    opts.Y,
 		Rect: opts.Rect,
 	}
+	if gp.curr.transparency != nil {
+		imageOptions.extGStateIndexes = append(imageOptions.extGStateIndexes, gp.curr.transparency.extGStateIndex)
+	}
 
 	return gp.imageByHolder(imgh, imageOptions)
 }
-- 
2.43.0

