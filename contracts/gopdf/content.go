package gopdf

import (
	"fmt"
	"io"
	"math"
)

// C14, C15: what each drawing element writes into a page's content stream.
// The texts below are the PDF operators of each element, with the caller's
// top-left coordinates flipped to the page's bottom-left origin.

// @ opaque sp_content

// sp_gsFrom: the graphics states selected before an element is painted.
func sp_gsUpTo(gs []int, n int) string {
	if n <= 0 {
		return ""
	}
	return sp_gsUpTo(gs, n-1) + fmt.Sprintf("/GS%d gs\n", gs[n-1])
}

func sp_lineText(h, x1, y1, x2, y2 float64, gs []int) string {
	return "q\n" + sp_gsUpTo(gs, len(gs)) + fmt.Sprintf("%0.2f %0.2f m %0.2f %0.2f l S\n", x1, h-y1, x2, h-y2) + "Q\n"
}

func sp_rectText(h, x, y, w, ht float64, style string, gs []int) string {
	return "q\n" + sp_gsUpTo(gs, len(gs)) + fmt.Sprintf("%0.2f %0.2f %0.2f %0.2f re %s\n", x, h-y, w, ht, style) + "Q\n"
}

// sp_bezier: one cubic Bézier segment.
func sp_bezier(a, b, c, d, e, f float64) string {
	return fmt.Sprintf("%0.2f %0.2f %0.2f %0.2f %0.2f %0.2f c", a, b, c, d, e, f)
}

// sp_within: drawn with these graphics states, which end with it.
// @ merge
func sp_within(gs []int, s string) string {
	if len(gs) == 0 {
		return s
	}
	return "q\n" + sp_gsUpTo(gs, len(gs)) + s + "Q\n"
}

// sp_ovalText: four Bézier quarter arcs round the centre, from the bottom
// counter-clockwise.
func sp_ovalText(h, x1, y1, x2, y2 float64, gs []int) string {
	const k = 0.55228
	cx, cy := (x1+x2)/2, h-(y1+y2)/2
	rx, ry := (x2-x1)/2, (y2-y1)/2
	return sp_within(gs, fmt.Sprintf("%0.2f %0.2f m\n", cx, cy-ry)+
		sp_bezier(cx+k*rx, cy-ry, cx+rx, cy-k*ry, cx+rx, cy)+"\n"+
		sp_bezier(cx+rx, cy+k*ry, cx+k*rx, cy+ry, cx, cy+ry)+"\n"+
		sp_bezier(cx-k*rx, cy+ry, cx-rx, cy+k*ry, cx-rx, cy)+"\n"+
		sp_bezier(cx-rx, cy-k*ry, cx-k*rx, cy-ry, cx, cy-ry)+" S\n")
}

func sp_curveText(h, x0, y0, x1, y1, x2, y2, x3, y3 float64, style string, gs []int) string {
	op := "S"
	if style == "F" {
		op = "f"
	}
	if style == "FD" || style == "DF" {
		op = "B"
	}
	return sp_within(gs, fmt.Sprintf("%0.2f %0.2f m\n", x0, h-y0)+sp_bezier(x1, h-y1, x2, h-y2, x3, h-y3)+" "+op+"\n")
}

// sp_pathUpTo: the first n corners of a polygon, as a path.
func sp_pathUpTo(h float64, p []Point, n int) string {
	if n <= 0 {
		return ""
	}
	op := " l "
	if n == 1 {
		op = " m "
	}
	return sp_pathUpTo(h, p, n-1) + fmt.Sprintf("%.2f %.2f", p[n-1].X, h-p[n-1].Y) + op
}

func sp_polyText(h float64, p []Point, style string, gs []int) string {
	op := " s\n"
	if style == "F" {
		op = " f\n"
	}
	if style == "FD" || style == "DF" {
		op = " b\n"
	}
	return "q\n" + sp_gsUpTo(gs, len(gs)) + sp_pathUpTo(h, p, len(p)) + op + "Q\n"
}

func sp_clipText(h float64, p []Point) string {
	return sp_pathUpTo(h, p, len(p)) + "h W n\n"
}

// sp_rotation: turn by the angle about (x, y).
func sp_rotation(x, y, degrees, h float64) string {
	a := degrees * (math.Pi / 180)
	c, s := math.Cos(a), math.Sin(a)
	return fmt.Sprintf("%.5f %.5f %.5f\n %.5f %.2f %.2f cm\n 1 0 0\n 1 %.2f %.2f cm\n", c, s, -s, c, x, h-y, -x, y-h)
}

func sp_rotateText(reset bool, x, y, degrees, h float64) string {
	if reset {
		return "Q\n"
	}
	return "q\n " + sp_rotation(x, y, degrees, h)
}

// @ merge
func sp_lineTypeText(t string) string {
	switch t {
	case "dashed":
		return "[5] 2 d\n"
	case "dotted":
		return "[2 3] 11 d\n"
	}
	return "[] 0 d\n"
}

func sp_lineWidthText(w float64) string { return fmt.Sprintf("%.2f w\n", w) }

func sp_templateText(h float64, name string, sx, sy, tx, ty float64) string {
	return fmt.Sprintf("q 0 J 1 w 0 j 0 G 0 g q %.4F 0 0 %.4F %.4F %.4F cm %s Do Q Q\n", sx, sy, tx, ty+h, name)
}

func sp_rgbText(r, g, b uint8, op string) string {
	return fmt.Sprintf("%.3f %.3f %.3f %s\n", float64(r)/255, float64(g)/255, float64(b)/255, op)
}

func sp_cmykText(c, m, y, k uint8, op string) string {
	return fmt.Sprintf("%.2f %.2f %.2f %.2f %s\n", float64(c)/100, float64(m)/100, float64(y)/100, float64(k)/100, op)
}

func sp_grayText(v float64, op string) string { return fmt.Sprintf("%.2f %s\n", v, op) }

func sp_sign(neg bool, v string) string {
	if neg {
		return "-" + v
	}
	return v
}

// sp_mirrored: the coordinate that, under the mirroring cm operator, shows an
// extent of the given length starting at v.
// @ merge
func sp_mirrored(flip bool, v, length float64) float64 {
	if flip {
		return -v - length
	}
	return v
}

// sp_imageText: the image drawn in its rectangle (or its cropped part in the
// crop rectangle), mirrored and turned as asked.
// @ merge
func sp_imageText(c *cacheContentImage) string {
	w, h := c.rect.W, c.rect.H
	open, end := "", ""
	if !c.withMask {
		rw, rh := w, h
		if c.crop != nil {
			rw, rh = c.crop.Width, c.crop.Height
		}
		open = sp_rotateText(false, c.x+rw/2, c.y+rh/2, c.imageAngle, c.pageHeight)
		end = "Q\n"
	}
	mirror := ""
	if c.horizontalFlip && c.verticalFlip {
		mirror = "-1 0 0 -1 0 0 cm\n"
	} else if c.horizontalFlip {
		mirror = "-1 0 0 1 0 0 cm\n"
	} else if c.verticalFlip {
		mirror = "1 0 0 -1 0 0 cm\n"
	}
	clip := ""
	x := c.x
	y := c.pageHeight - c.y - h
	if c.crop != nil {
		cx := sp_mirrored(c.horizontalFlip, c.x, c.crop.Width)
		cy := sp_mirrored(c.verticalFlip, c.pageHeight-c.y-c.crop.Height, c.crop.Height)
		clip = fmt.Sprintf("%0.2f %0.2f %0.2f %0.2f re W* n\n", cx, cy, c.crop.Width, c.crop.Height)
		x = c.x - c.crop.X
		y = c.pageHeight - c.y + c.crop.Y - h
	}
	x = sp_mirrored(c.horizontalFlip, x, w)
	y = sp_mirrored(c.verticalFlip, y, h)
	turn := ""
	if c.withMask && c.maskAngle+c.imageAngle != 0 {
		turn = sp_rotation(c.x+w/2, c.y+h/2, c.maskAngle+c.imageAngle, c.pageHeight)
	}
	return open + "q\n" + sp_gsUpTo(c.extGStateIndexes, len(c.extGStateIndexes)) + mirror + clip +
		fmt.Sprintf("q\n %s %0.2f 0 0\n %0.2f %0.2f %0.2f cm /I%d Do \nQ\n", turn, w, h, x, y, c.index+1) + "Q\n" + end
}

// sp_text: what an element writes.
// @ merge
func sp_text(c ICacheContent) string {
	switch a := c.(type) {
	case *cacheContentLine:
		return sp_lineText(a.pageHeight, a.x1, a.y1, a.x2, a.y2, a.opts.extGStateIndexes)
	case *cacheContentRectangle:
		return sp_rectText(a.pageHeight, a.x, a.y, a.width, a.height, string(a.style), a.extGStateIndexes)
	case cacheContentRectangle:
		return sp_rectText(a.pageHeight, a.x, a.y, a.width, a.height, string(a.style), a.extGStateIndexes)
	case *cacheContentOval:
		return sp_ovalText(a.pageHeight, a.x1, a.y1, a.x2, a.y2, a.extGStateIndexes)
	case *cacheContentCurve:
		return sp_curveText(a.pageHeight, a.x0, a.y0, a.x1, a.y1, a.x2, a.y2, a.x3, a.y3, a.style, a.extGStateIndexes)
	case *cacheContentPolygon:
		return sp_polyText(a.pageHeight, a.points, a.style, a.opts.extGStateIndexes)
	case *cacheContentClipPolygon:
		return sp_clipText(a.pageHeight, a.points)
	case *cacheContentRotate:
		return sp_rotateText(a.isReset, a.x, a.y, a.angle, a.pageHeight)
	case *cacheContentLineWidth:
		return sp_lineWidthText(a.width)
	case *cacheContentLineType:
		return sp_lineTypeText(a.lineType)
	case *cacheContentCustomLineType:
		return fmt.Sprintf("%0.2f %0.2f d\n", a.dashArray, a.dashPhase)
	case *cacheContentSaveGraphicsState:
		return "q\n"
	case *cacheContentRestoreGraphicsState:
		return "Q\n"
	case *cacheContentImportedTemplate:
		return sp_templateText(a.pageHeight, a.tplName, a.scaleX, a.scaleY, a.tX, a.tY)
	case *cacheContentImage:
		return sp_imageText(a)
	case *cacheContentColorRGB:
		return sp_rgbText(a.r, a.g, a.b, a.colorType)
	case *cacheContentColorCMYK:
		return sp_cmykText(a.c, a.m, a.y, a.k, a.colorType)
	case *cacheContentGray:
		return sp_grayText(a.scale, a.grayType)
	case *cacheContentTextColorRGB:
		return sp_rgbText(a.r, a.g, a.b, "rg")
	case *cacheContentTextColorCMYK:
		return sp_cmykText(a.c, a.m, a.y, a.k, "k")
	case cacheContentTextColorRGB:
		return sp_rgbText(a.r, a.g, a.b, "rg")
	case cacheContentTextColorCMYK:
		return sp_cmykText(a.c, a.m, a.y, a.k, "k")
	case *cacheContentText:
		return sp_textRun(a)
	case *CacheContent:
		return sp_textRun(&a.cacheContentText)
	case *cacheColorSpace:
		return fmt.Sprintf("/CS%d CS 1.0000 SCN\n", a.countOfSpaceColor+1)
	}
	return ""
}

func sp_content(c ICacheContent) string { return sp_text(c) }

// sp_element: an element of a page's content (a list of elements is not one).
// @ merge
func sp_element(c ICacheContent) bool {
	if t, ok := c.(*cacheContentText); ok && !sp_textReady(t) {
		return false
	}
	if t, ok := c.(*CacheContent); ok && !sp_textReady(&t.cacheContentText) {
		return false
	}
	_, nested := c.(*listCacheContent)
	return c != nil && !nested
}

func sp_elements(l *listCacheContent) bool {
	return v_forall(0, len(l.caches), func(i int) bool { return sp_element(l.caches[i]) })
}

// @ interface ICacheContent.write props=C14,C15,C08 except=*gopdf.listCacheContent
func vi_ICacheContent_write(c ICacheContent, w io.Writer, protection *PDFProtection) error {
	v_requires(sp_element(c) && w != nil)
	before := v_out(w)
	text := sp_content(c)
	v_modOut(w)
	err := c.write(w, protection)
	v_ensures("C14+C15+C08.text", v_failed(w) || err == nil && v_eqText(v_out(w), before+text))
	return err
}

// sp_contents: the first n elements of a page's content, in order.
func sp_contents(cs []ICacheContent, n int) string {
	if n <= 0 {
		return ""
	}
	return sp_contents(cs, n-1) + sp_content(cs[n-1])
}

// @ contract (*listCacheContent).write props=C14,C08,C15
func vc_listCacheContent_write(l *listCacheContent, w io.Writer, protection *PDFProtection) error {
	v_requires(l != nil && w != nil)
	v_requires(sp_elements(l))
	before := v_out(w)
	text := sp_contents(l.caches, len(l.caches))
	v_modOut(w)
	err := l.write(w, protection)
	v_ensures("C14+C15+C08.all-elements-in-order", v_failed(w) || err == nil && v_eqText(v_out(w), before+text))
	return err
}

// @ loop (*listCacheContent).write 0
func vl_listCacheContent_write(l *listCacheContent, w io.Writer, iter_ int) {
	v_inv(v_failed(w) || v_out(w) == v_entryStr(func() string { return v_out(w) })+sp_contents(l.caches, iter_))
}

// @ loop (*cacheContentLine).write 0
func vl_line(c *cacheContentLine, w io.Writer, iter_ int) {
	v_inv(v_out(w) == v_entryStr(func() string { return v_out(w) })+sp_gsUpTo(c.opts.extGStateIndexes, iter_))
}

// @ loop (*cacheContentPolygon).write 0
func vl_poly(c *cacheContentPolygon, w io.Writer, iter_ int) {
	v_inv(v_out(w) == v_entryStr(func() string { return v_out(w) })+sp_gsUpTo(c.opts.extGStateIndexes, iter_))
}

// @ loop (*cacheContentPolygon).write 1
func vl_poly2(c *cacheContentPolygon, w io.Writer, iter_ int) {
	v_inv(v_out(w) == v_entryStr(func() string { return v_out(w) })+sp_pathUpTo(c.pageHeight, c.points, iter_))
}

// @ loop (*cacheContentClipPolygon).write 0
func vl_clip(c *cacheContentClipPolygon, w io.Writer, iter_ int) {
	v_inv(v_out(w) == v_entryStr(func() string { return v_out(w) })+sp_pathUpTo(c.pageHeight, c.points, iter_))
}

// @ loop (cacheContentRectangle).write 0
func vl_rect(c cacheContentRectangle, stream, entry_stream string, iter_ int) {
	v_inv(stream == entry_stream+sp_gsUpTo(c.extGStateIndexes, iter_))
}

// @ loop (*cacheContentImage).write 0
func vl_image(c *cacheContentImage, contentStream, entry_contentStream string, iter_ int) {
	v_inv(contentStream == entry_contentStream+sp_gsUpTo(c.extGStateIndexes, iter_))
}

// @ loop (*cacheContentOval).write 0
func vl_oval(c *cacheContentOval, w io.Writer, iter_ int) {
	v_inv(v_out(w) == v_entryStr(func() string { return v_out(w) })+sp_gsUpTo(c.extGStateIndexes, iter_))
}

// @ loop (*cacheContentCurve).write 0
func vl_curve(c *cacheContentCurve, w io.Writer, iter_ int) {
	v_inv(v_out(w) == v_entryStr(func() string { return v_out(w) })+sp_gsUpTo(c.extGStateIndexes, iter_))
}
