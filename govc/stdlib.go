package main

// Models of the library functions the code under /repo calls. These models
// are trusted; every one that a run uses is listed in the evidence.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var u8 = types.Typ[types.Uint8]
var u8Leaf = leaf{"", SInt, types.Typ[types.Uint8], ""}
var intLeaf = leaf{"", SInt, types.Typ[types.Int], ""}
var strLeaf = leaf{"", SStr, types.Typ[types.String], ""}
var refLeaf = leaf{"", SRef, types.Typ[types.UnsafePointer], ""}

var _ = constant.MakeInt64

func (x *Exec) newErrObj(st *State) *VIface {
	r := x.newObj(st, nil)
	return &VIface{ref: r}
}

// ---- formatting

func ratFloat(r *big.Rat) float64 { f, _ := r.Float64(); return f }

func (x *Exec) itoa(t *Term) *Term {
	if t.isNum() {
		return x.c.Lit(t.num.Num().String())
	}
	r := x.c.App("itoa", SStr, t)
	return r
}

func (x *Exec) ftoa(prec int, t *Term) *Term {
	if t.isNum() {
		return x.c.Lit(strconv.FormatFloat(ratFloat(t.num), 'f', prec, 64))
	}
	r := x.c.App(fmt.Sprintf("ftoa%d", prec), SStr, t)
	if prec == 3 && !r.bound {
		// 0.000 … 1.000
		c := x.c
		c.Fact(r, c.Implies(c.And(c.Le(c.Num(new(big.Rat), SReal), t), c.Le(t, c.Num(big.NewRat(1, 1), SReal))), c.Eq(c.Len(r), c.Int(5))))
	}
	return r
}

type verb struct {
	flags string
	width string
	prec  string
	v     byte
}

func (x *Exec) format(st *State, format *Term, args []Value) *Term {
	c := x.c
	if !format.isLit() {
		var ts []*Term
		ts = append(ts, format)
		for _, a := range args {
			ts = append(ts, x.fmtV(st, a, "v"))
		}
		return c.App(fmt.Sprintf("sprintf_%d", len(args)), SStr, ts...)
	}
	s := format.name
	var out []*Term
	ai := 0
	lit := ""
	flush := func() {
		if lit != "" {
			out = append(out, c.Lit(lit))
			lit = ""
		}
	}
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			lit += string([]byte{s[i]})
			continue
		}
		i++
		var v verb
		for i < len(s) && strings.IndexByte("+-# 0", s[i]) >= 0 {
			v.flags += string(s[i])
			i++
		}
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			v.width += string(s[i])
			i++
		}
		if i < len(s) && s[i] == '.' {
			i++
			v.prec = "."
			for i < len(s) && s[i] >= '0' && s[i] <= '9' {
				v.prec += string(s[i])
				i++
			}
		}
		if i >= len(s) {
			lit += "%!(NOVERB)"
			break
		}
		v.v = s[i]
		if v.v == '%' {
			lit += "%"
			continue
		}
		if v.v == '*' || v.v == '[' {
			panic(unsupported("format " + s))
		}
		flush()
		if ai >= len(args) {
			out = append(out, c.Lit("%!"+string(v.v)+"(MISSING)"))
			continue
		}
		out = append(out, x.fmtVerb(st, v, args[ai]))
		ai++
	}
	flush()
	if ai < len(args) {
		ts := []*Term{}
		for ; ai < len(args); ai++ {
			ts = append(ts, x.fmtV(st, args[ai], "v"))
		}
		out = append(out, c.App("fmtextra"+strconv.Itoa(len(ts)), SStr, ts...))
	}
	return c.Cat(out...)
}

func (x *Exec) fmtVerb(st *State, v verb, a Value) *Term {
	c := x.c
	if v.width == "" {
		v.flags = strings.ReplaceAll(v.flags, "0", "") // zero padding without a width
	}
	if v.v == 'F' {
		v.v = 'f'
	}
	full := v.flags + v.width + v.prec + string(v.v)
	iv, ok := a.(*VIface)
	if !ok || iv.dyn == nil {
		if ok {
			if iv.ref == c.Null {
				return c.Lit("%!" + string(v.v) + "(<nil>)")
			}
			return c.App("fmt."+full, SStr, iv.ref)
		}
		panic(unsupported("format argument"))
	}
	b, isB := under(iv.dyn).(*types.Basic)
	hasStr := x.w.methodByName(iv.dyn, "String") != nil || x.w.methodByName(iv.dyn, "Error") != nil
	simple := v.flags == "" && v.width == ""
	if isB && !hasStr {
		t := x.scalar(iv.val)
		switch {
		case (v.v == 's' || v.v == 'v') && simple && v.prec == "" && b.Info()&types.IsString != 0:
			return t
		case (v.v == 'd' || v.v == 'v') && simple && v.prec == "" && b.Info()&types.IsInteger != 0:
			return x.itoa(t)
		case v.v == 'f' && simple && b.Info()&types.IsFloat != 0:
			p := 6
			if v.prec != "" {
				p, _ = strconv.Atoi(strings.TrimPrefix(v.prec, "."))
			}
			return x.ftoa(p, t)
		case v.v == 'c' && simple && b.Info()&types.IsInteger != 0:
			return x.scalar(x.convert(st, t, iv.dyn, types.Typ[types.String]))
		}
		if t.isNum() && t.sort == SInt {
			return c.Lit(fmt.Sprintf("%"+full, t.num.Num()))
		}
		if t.isNum() && t.sort == SReal {
			return c.Lit(fmt.Sprintf("%"+full, ratFloat(t.num)))
		}
		r := c.App("fmt."+full, SStr, t)
		if (v.v == 'X' || v.v == 'x') && simple && v.prec == "" {
			l := c.Len(r)
			if l.op != "num" {
				l.lo = big.NewInt(1)
				c.Fact(l, c.Implies(c.And(c.Le(c.Int(0), t), c.Lt(t, c.Int(65536))), c.Le(l, c.Int(4))))
			}
		}
		if v.v == 'X' && v.flags == "0" && v.width == "4" {
			l := c.Len(r)
			if l.op != "num" {
				l.lo = big.NewInt(4)
				c.Fact(l, c.Implies(c.And(c.Le(c.Int(0), t), c.Lt(t, c.Int(65536))), c.Eq(l, c.Int(4))))
			}
		}
		return r
	}
	return x.fmtV(st, a, full)
}

func (x *Exec) fmtV(st *State, a Value, full string) *Term {
	iv := a.(*VIface)
	if iv.dyn == nil {
		return x.c.App("fmt."+full, SStr, iv.ref)
	}
	if _, ok := under(iv.dyn).(*types.Pointer); ok {
		return x.c.App("fmt."+full, SStr, iv.ref)
	}
	if isByteSlice(iv.dyn) {
		return x.c.App("fmt.bytes."+full, SStr, x.bytesToStr(st, iv.val.(*VSlice)))
	}
	var ls []*Term
	func() {
		defer func() {
			if r := recover(); r != nil {
				ls = []*Term{iv.ref}
			}
		}()
		ls = x.toLeaves(iv.val, iv.dyn)
	}()
	if len(ls) == 1 && ls[0].sort == SStr && (full == "v" || full == "s") {
		return ls[0]
	}
	if len(ls) == 1 && ls[0].sort == SInt && full == "v" {
		return x.itoa(ls[0])
	}
	return x.c.App("fmt."+full+"."+sanitize(typeKey(iv.dyn)), SStr, ls...)
}

func (x *Exec) fmtPrint(st *State, args []Value) *Term {
	var out []*Term
	prevStr := true
	for i, a := range args {
		iv := a.(*VIface)
		isStr := false
		if iv.dyn != nil {
			if b, ok := under(iv.dyn).(*types.Basic); ok && b.Info()&types.IsString != 0 {
				isStr = true
			}
		}
		if i > 0 && !isStr && !prevStr {
			out = append(out, x.c.Lit(" "))
		}
		out = append(out, x.fmtVerb(st, verb{v: 'v'}, a))
		prevStr = isStr
	}
	return x.c.Cat(out...)
}

// ---- readers

func (x *Exec) rdSrc(st *State, r *Term) *Term { return x.read(st, "rd.src", strLeaf, r) }
func (x *Exec) rdPos(st *State, r *Term) *Term {
	p := x.read(st, "rd.pos", intLeaf, r)
	if p.lo == nil && !p.isNum() && p.op == "select" {
		p.lo = big.NewInt(0)
	}
	return p
}

func (x *Exec) newReader(st *State, src *Term, t types.Type) *Term {
	r := x.newObj(st, t)
	x.write(st, "rd.src", strLeaf, r, src)
	x.write(st, "rd.pos", intLeaf, r, x.c.Int(0))
	return r
}

// readerRead: p is filled with the next bytes.
func (x *Exec) readerRead(st *State, f *Frame, bind ssa.Value, r *Term, p *VSlice) *State {
	c := x.c
	src, pos := x.rdSrc(st, r), x.rdPos(st, r)
	total := c.Len(src)
	eof := c.Le(total, pos)
	t, e := x.branchAll(st, eof)
	if t != nil {
		x.bindTop(t, bind, []Value{c.Int(0), x.eofVal(t)})
	}
	if e != nil {
		left := c.Sub(total, pos)
		n := c.Ite(c.Le(p.ln, left), p.ln, left)
		if v, k := x.decide(e, c.Le(p.ln, left)); k {
			if v {
				n = p.ln
			} else {
				n = left
			}
		}
		old := x.elemContent(e, p.arr, p.elem, "", u8Leaf)
		var content *Term
		if k, ok := n.intVal(); ok && k <= 16 {
			content = old
			for i := int64(0); i < k; i++ {
				content = c.Store(content, c.Add(p.off, c.Int(i)), c.At(src, c.Add(pos, c.Int(i))))
			}
		} else if v, ok := p.off.intVal(); ok && v == 0 && n == p.ln {
			content = c.BytesOf(c.SubStr(src, pos, c.Add(pos, n)))
		} else {
			content = x.blit(old, p.off, c.BytesOf(src), pos, n, u8Leaf)
		}
		x.contentBounds(content, u8Leaf)
		x.setElemContent(e, p.arr, p.elem, "", u8Leaf, content)
		x.write(e, "rd.pos", intLeaf, r, c.Add(pos, n))
		x.bindTop(e, bind, []Value{n, &VIface{ref: c.Null}})
	}
	return x.two(t, e)
}

// branchAll forks without losing a side to a pure state.
func (x *Exec) branchAll(st *State, cond *Term) (t, e *State) { return x.branch(st, cond) }

func (x *Exec) two(t, e *State) *State {
	if t == nil {
		return e
	}
	if e != nil {
		x.work = append(x.work, e)
	}
	return t
}

func (x *Exec) bindTop(st *State, bind ssa.Value, res []Value) {
	if bind != nil {
		x.bindRes(st.top(), bind, res)
	}
}

func (x *Exec) eofVal(st *State) *VIface {
	r := x.c.NamedSym("GV.io.EOF", SRef)
	r.stamp = 1
	x.c.Fact(r, x.c.mk(&Term{op: "not", sort: SBool, args: []*Term{x.c.mk(&Term{op: "=", sort: SBool, args: []*Term{r, x.c.Null}})}}))
	return &VIface{ref: r}
}

func (x *Exec) freshBytes(st *State, s *Term) *VSlice { return x.strToBytes(st, s) }

func (x *Exec) optErr(st *State) *VIface { return &VIface{ref: x.newErr(st, "err")} }

func refOf(v Value) *Term {
	switch a := v.(type) {
	case *Ptr:
		return a.ref
	case *VIface:
		return a.ref
	}
	panic(unsupported("reference expected"))
}

// ---- dispatch on static functions

func (x *Exec) std(st *State, f *Frame, bind ssa.Value, full string, fn *ssa.Function, args []Value, pos token.Pos) (*State, bool) {
	if fn.Pkg != nil && x.w.pkgs[fn.Pkg.Pkg.Path()] != nil {
		return nil, false
	}
	c := x.c
	done := func(res ...Value) (*State, bool) {
		x.task.noteModel(full)
		x.bindTop(st, bind, res)
		if st.dead {
			return nil, true
		}
		return st, true
	}
	some := func(s *State) (*State, bool) {
		x.task.noteModel(full)
		return s, true
	}
	nilErr := &VIface{ref: c.Null}
	str := func(i int) *Term { return x.scalar(args[i]) }
	switch full {
	case "fmt.Sprintf":
		return done(x.format(st, str(0), x.variadic(st, args[1])))
	case "fmt.Sprint":
		return done(x.fmtPrint(st, x.variadic(st, args[0])))
	case "fmt.Fprintf":
		return some(x.writeTo(st, f, bind, args[0].(*VIface), x.format(st, str(1), x.variadic(st, args[2])), pos))
	case "fmt.Fprint":
		return some(x.writeTo(st, f, bind, args[0].(*VIface), x.fmtPrint(st, x.variadic(st, args[1])), pos))
	case "fmt.Print", "fmt.Printf", "fmt.Println":
		return done(c.Sym("n", SInt), nilErr)
	case "fmt.Errorf", "errors.New":
		return done(x.newErrObj(st))
	case "io.WriteString":
		return some(x.writeTo(st, f, bind, args[0].(*VIface), str(1), pos))
	case "io.ReadAll", "io/ioutil.ReadAll":
		iv := args[0].(*VIface)
		if iv.dyn != nil && typeKey(iv.dyn) == "*bytes.Reader" {
			src, p := x.rdSrc(st, iv.ref), x.rdPos(st, iv.ref)
			n := c.Ite(c.Le(p, c.Len(src)), p, c.Len(src))
			x.write(st, "rd.pos", intLeaf, iv.ref, c.Len(src))
			return done(x.freshBytes(st, c.SubStr(src, n, c.Len(src))), nilErr)
		}
		if iv.dyn != nil && x.objKind(iv.ref) == "inflate" {
			src := x.rdSrc(st, iv.ref)
			e := x.newErr(st, "err")
			s := c.App("inflate", SStr, src)
			c.Fact(e, x.rawIff(c.Eq(e, c.Null), c.App("inflates", SBool, src)))
			s2 := c.Ite(c.Eq(e, c.Null), s, c.Sym("partial", SStr))
			return done(x.freshBytes(st, s2), &VIface{ref: e})
		}
		return done(x.freshBytes(st, c.Sym("readall", SStr)), x.optErr(st))
	case "os.ReadFile", "io/ioutil.ReadFile":
		e := x.newErr(st, "err")
		return done(x.freshBytes(st, c.App("fileContent", SStr, str(0))), &VIface{ref: e})
	case "os.WriteFile", "io/ioutil.WriteFile":
		return done(x.optErr(st))
	case "os.IsNotExist":
		return done(c.And(c.Not(c.Eq(refOf(args[0]), c.Null)), c.Sym("notexist", SBool)))
	case "os.Stat", "os.Open":
		e := x.newErr(st, "err")
		return done(x.symbolicOf(st, fn, 0), &VIface{ref: e})
	case "(*os.File).Close":
		return done(x.optErr(st))
	case "log.Fatalf", "log.Fatal", "os.Exit":
		st.dead = true
		x.task.noteModel(full)
		return nil, true

	// bytes
	case "(*bytes.Buffer).Write", "(*strings.Builder).Write":
		s := x.bytesToStr(st, args[1].(*VSlice))
		x.ghostAppend(st, refOf(args[0]), s)
		return done(c.Len(s), nilErr)
	case "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString":
		x.ghostAppend(st, refOf(args[0]), str(1))
		return done(c.Len(str(1)), nilErr)
	case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte":
		x.ghostAppend(st, refOf(args[0]), c.Chr(str(1)))
		return done(nilErr)
	case "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune":
		s := x.scalar(x.convert(st, args[1], types.Typ[types.Rune], types.Typ[types.String]))
		x.ghostAppend(st, refOf(args[0]), s)
		return done(c.Len(s), nilErr)
	case "(*bytes.Buffer).Bytes":
		return done(x.freshBytes(st, x.read(st, "out", outLeaf, refOf(args[0]))))
	case "(*bytes.Buffer).String", "(*strings.Builder).String":
		return done(x.read(st, "out", outLeaf, refOf(args[0])))
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		return done(c.Len(x.read(st, "out", outLeaf, refOf(args[0]))))
	case "(*bytes.Buffer).Cap":
		n := c.Sym("cap", SInt)
		n.lo = big.NewInt(0)
		c.Fact(n, c.Le(c.Len(x.read(st, "out", outLeaf, refOf(args[0]))), n))
		return done(n)
	case "(*bytes.Buffer).Grow":
		return done()
	case "(*bytes.Buffer).Reset":
		x.write(st, "out", outLeaf, refOf(args[0]), c.Lit(""))
		return done()
	case "(*bytes.Buffer).Read":
		r := refOf(args[0])
		p := args[1].(*VSlice)
		src := x.read(st, "out", outLeaf, r)
		total := c.Len(src)
		n := c.Ite(c.Le(p.ln, total), p.ln, total)
		old := x.elemContent(st, p.arr, p.elem, "", u8Leaf)
		x.setElemContent(st, p.arr, p.elem, "", u8Leaf, x.blit(old, p.off, c.BytesOf(src), c.Int(0), n, u8Leaf))
		x.write(st, "out", outLeaf, r, c.SubStr(src, n, total))
		isEOF := c.And(c.Eq(total, c.Int(0)), c.Lt(c.Int(0), p.ln))
		return done(n, &VIface{ref: c.Ite(isEOF, x.eofVal(st).ref, c.Null)})
	case "(*bytes.Buffer).WriteTo":
		r := refOf(args[0])
		s := x.read(st, "out", outLeaf, r)
		x.write(st, "out", outLeaf, r, c.Lit(""))
		return some(x.writeTo(st, f, bind, args[1].(*VIface), s, pos))
	case "bytes.NewBuffer":
		r := x.newObj(st, nil)
		x.write(st, "out", outLeaf, r, x.bytesToStr(st, args[0].(*VSlice)))
		bt := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		x.objType[r] = bt
		return done(&Ptr{ref: r, typ: bt})
	case "bytes.NewReader", "strings.NewReader":
		rt := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		var s *Term
		if sl, ok := args[0].(*VSlice); ok {
			s = x.bytesToStr(st, sl)
		} else {
			s = str(0)
		}
		return done(&Ptr{ref: x.newReader(st, s, rt), typ: rt})
	case "(*bytes.Reader).Read", "(*strings.Reader).Read":
		return some(x.readerRead(st, f, bind, refOf(args[0]), args[1].(*VSlice)))
	case "(*bytes.Reader).Seek":
		r := refOf(args[0])
		w, ok := str(2).intVal()
		if !ok {
			return nil, false
		}
		base := c.Int(0)
		switch w {
		case 1:
			base = x.rdPos(st, r)
		case 2:
			base = c.Len(x.rdSrc(st, r))
		}
		np := c.Add(base, str(1))
		t, e := x.branch(st, c.Le(c.Int(0), np))
		if t != nil {
			x.write(t, "rd.pos", intLeaf, r, np)
			x.bindTop(t, bind, []Value{np, nilErr})
		}
		if e != nil {
			x.bindTop(e, bind, []Value{c.Int(0), x.newErrObj(e)})
		}
		return some(x.two(t, e))
	case "(*bytes.Reader).Len":
		r := refOf(args[0])
		d := c.Sub(c.Len(x.rdSrc(st, r)), x.rdPos(st, r))
		return done(c.Ite(c.Le(c.Int(0), d), d, c.Int(0)))
	case "(*bytes.Reader).Size":
		return done(c.Len(x.rdSrc(st, refOf(args[0]))))
	case "(*bytes.Reader).ReadByte":
		r := refOf(args[0])
		src, p := x.rdSrc(st, r), x.rdPos(st, r)
		t, e := x.branch(st, c.Lt(p, c.Len(src)))
		if t != nil {
			x.write(t, "rd.pos", intLeaf, r, c.Add(p, c.Int(1)))
			x.bindTop(t, bind, []Value{c.At(src, p), nilErr})
		}
		if e != nil {
			x.bindTop(e, bind, []Value{c.Int(0), x.eofVal(e)})
		}
		return some(x.two(t, e))
	case "bytes.Equal":
		return done(c.Eq(x.bytesToStr(st, args[0].(*VSlice)), x.bytesToStr(st, args[1].(*VSlice))))

	case "unicode/utf16.EncodeRune":
		r := str(0)
		d := c.Sub(r, c.Int(0x10000))
		hi := c.FDiv(d, big.NewInt(1024))
		ok := c.And(c.Le(c.Int(0x10000), r), c.Le(r, c.Int(0x10ffff)))
		return done(c.Ite(ok, c.Add(c.Int(0xd800), hi), c.Int(0xfffd)), c.Ite(ok, c.Add(c.Int(0xdc00), c.Sub(d, c.Scale(hi, big.NewRat(1024, 1)))), c.Int(0xfffd)))

	// zlib
	case "compress/zlib.NewWriterLevel", "compress/zlib.NewWriter":
		lv := c.Int(-1)
		if len(args) > 1 {
			lv = str(1)
		}
		rs := fn.Signature.Results()
		pt := rs.At(0).Type().(*types.Pointer)
		mk := func(s *State) *Ptr {
			r := x.newObj(s, pt.Elem())
			x.write(s, "out", outLeaf, r, c.Lit(""))
			x.write(s, "zw.level", intLeaf, r, lv)
			x.write(s, "zw.dst", refLeaf, r, args[0].(*VIface).ref)
			x.zdst[r] = args[0].(*VIface)
			return &Ptr{ref: r, typ: pt.Elem()}
		}
		if rs.Len() == 1 {
			return done(mk(st))
		}
		t, e := x.branch(st, c.And(c.Le(c.Int(-2), lv), c.Le(lv, c.Int(9))))
		if t != nil {
			x.bindTop(t, bind, []Value{mk(t), nilErr})
		}
		if e != nil {
			x.bindTop(e, bind, []Value{&Ptr{ref: c.Null, typ: pt.Elem()}, x.newErrObj(e)})
		}
		return some(x.two(t, e))
	case "(*compress/zlib.Writer).Write":
		r := refOf(args[0])
		s := x.bytesToStr(st, args[1].(*VSlice))
		x.ghostAppend(st, r, s)
		if d := x.zdst[r]; x.neverFails(d) {
			return done(c.Len(s), nilErr) // a buffer never refuses
		}
		return done(c.Len(s), x.optErr(st))
	case "(*compress/zlib.Writer).Close":
		r := refOf(args[0])
		d := x.zdst[r]
		if d == nil {
			return nil, false
		}
		if x.closed(st, r) {
			return done(nilErr)
		}
		s := c.App("deflate", SStr, x.read(st, "zw.level", intLeaf, r), x.read(st, "out", outLeaf, r))
		x.write(st, "zw.closed", leaf{"", SBool, types.Typ[types.Bool], ""}, r, c.True)
		var tmp *State = x.writeTo(st, f, nil, d, s, pos)
		if tmp == nil {
			return some(nil)
		}
		if x.neverFails(d) {
			return done(nilErr)
		}
		return done(x.optErr(st))
	case "compress/zlib.NewReader":
		iv := args[0].(*VIface)
		r := x.newObj(st, nil)
		x.kinds[r] = "inflate"
		src := c.Sym("zsrc", SStr)
		if iv.dyn != nil && typeKey(iv.dyn) == "*bytes.Reader" {
			src = x.rdSrc(st, iv.ref)
		} else if iv.dyn != nil && typeKey(iv.dyn) == "*bytes.Buffer" {
			src = x.read(st, "out", outLeaf, iv.ref)
		}
		x.write(st, "rd.src", strLeaf, r, src)
		t, e := x.branch(st, c.App("zlibheader", SBool, src))
		if t != nil {
			x.bindTop(t, bind, []Value{&VIface{ref: r, dyn: types.NewPointer(types.Typ[types.Int]), val: &Ptr{ref: r, typ: types.Typ[types.Int]}}, nilErr})
		}
		if e != nil {
			x.bindTop(e, bind, []Value{&VIface{ref: c.Null}, x.newErrObj(e)})
		}
		return some(x.two(t, e))

	// crypto
	case "crypto/md5.Sum":
		s := c.App("md5", SStr, x.bytesToStr(st, args[0].(*VSlice)))
		content := c.BytesOf(s)
		x.contentBounds(content, u8Leaf)
		return done(&VArr{typ: types.NewArray(u8, 16), leaves: []*Term{content}})
	case "crypto/md5.New":
		r := x.newObj(st, nil)
		x.kinds[r] = "md5"
		x.write(st, "out", outLeaf, r, c.Lit(""))
		bt := types.Typ[types.Uint16] // engine-private dynamic type
		return done(&VIface{ref: r, dyn: types.NewPointer(bt), val: &Ptr{ref: r, typ: bt}})
	case "crypto/rc4.NewCipher":
		k := x.bytesToStr(st, args[0].(*VSlice))
		pt := fn.Signature.Results().At(0).Type().(*types.Pointer)
		n := c.Len(k)
		t, e := x.branch(st, c.And(c.Le(c.Int(1), n), c.Le(n, c.Int(256))))
		if t != nil {
			r := x.newObj(t, pt.Elem())
			x.write(t, "rc4.key", strLeaf, r, k)
			x.write(t, "out", outLeaf, r, c.Lit(""))
			x.bindTop(t, bind, []Value{&Ptr{ref: r, typ: pt.Elem()}, nilErr})
		}
		if e != nil {
			x.bindTop(e, bind, []Value{&Ptr{ref: c.Null, typ: pt.Elem()}, x.newErrObj(e)})
		}
		return some(x.two(t, e))
	case "(*crypto/rc4.Cipher).XORKeyStream":
		r := refOf(args[0])
		dst, src := args[1].(*VSlice), args[2].(*VSlice)
		x.safe(st, "rc4 destination too short", c.Le(src.ln, dst.ln), pos)
		if st.dead {
			return some(nil)
		}
		s := x.bytesToStr(st, src)
		used := x.read(st, "out", outLeaf, r)
		enc := x.rc4s(x.read(st, "rc4.key", strLeaf, r), used, s)
		x.ghostAppend(st, r, s)
		if x.wholeArr(st, dst) && dst.ln == src.ln {
			content := c.BytesOf(enc)
			x.contentBounds(content, u8Leaf)
			x.setElemContent(st, dst.arr, dst.elem, "", u8Leaf, content)
		} else {
			old := x.elemContent(st, dst.arr, dst.elem, "", u8Leaf)
			x.setElemContent(st, dst.arr, dst.elem, "", u8Leaf, x.blit(old, dst.off, c.BytesOf(enc), c.Int(0), src.ln, u8Leaf))
		}
		return done()

	// numbers
	case "(encoding/binary.bigEndian).Uint16", "(encoding/binary.bigEndian).Uint32", "(encoding/binary.bigEndian).Uint64",
		"(encoding/binary.littleEndian).Uint16", "(encoding/binary.littleEndian).Uint32":
		n := 2
		if strings.HasSuffix(full, "32") {
			n = 4
		} else if strings.HasSuffix(full, "64") {
			n = 8
		}
		s := args[1].(*VSlice)
		x.safe(st, "index", c.Le(c.Int(int64(n)), s.ln), pos)
		if st.dead {
			return some(nil)
		}
		content := x.elemContent(st, s.arr, s.elem, "", u8Leaf)
		r := c.Int(0)
		for i := 0; i < n; i++ {
			k := i
			if strings.Contains(full, "little") {
				k = n - 1 - i
			}
			b := x.sel(content, c.Add(s.off, c.Int(int64(k))), u8Leaf, st)
			r = c.Add(c.Scale(r, big.NewRat(256, 1)), b)
		}
		return done(r)
	case "(encoding/binary.littleEndian).PutUint32", "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.littleEndian).PutUint16", "(encoding/binary.bigEndian).PutUint16":
		n := 4
		if strings.HasSuffix(full, "16") {
			n = 2
		}
		s := args[1].(*VSlice)
		x.safe(st, "index", c.Le(c.Int(int64(n)), s.ln), pos)
		if st.dead {
			return some(nil)
		}
		content := x.elemContent(st, s.arr, s.elem, "", u8Leaf)
		v := str(2)
		for i := 0; i < n; i++ {
			k := i
			if strings.Contains(full, "big") {
				k = n - 1 - i
			}
			b := c.Mod(c.FDiv(v, two(uint(8*k))), two(8))
			content = c.Store(content, c.Add(s.off, c.Int(int64(i))), b)
		}
		x.setElemContent(st, s.arr, s.elem, "", u8Leaf, content)
		return done()
	case "math/big.NewInt":
		pt := fn.Signature.Results().At(0).Type().(*types.Pointer)
		r := x.newObj(st, pt.Elem())
		x.write(st, "big", intLeaf, r, str(0))
		return done(&Ptr{ref: r, typ: pt.Elem()})
	case "(*math/big.Int).SetBytes":
		s := args[1].(*VSlice)
		r := refOf(args[0])
		n, ok := s.ln.intVal()
		if !ok {
			x.write(st, "big", intLeaf, r, c.App("beval", SInt, x.bytesToStr(st, s)))
			return done(args[0])
		}
		v := c.Int(0)
		if n > 0 {
			content := x.elemContent(st, s.arr, s.elem, "", u8Leaf)
			for i := int64(0); i < n; i++ {
				v = c.Add(c.Scale(v, big.NewRat(256, 1)), x.sel(content, c.Add(s.off, c.Int(i)), u8Leaf, st))
			}
		}
		x.write(st, "big", intLeaf, r, v)
		return done(args[0])
	case "(*math/big.Int).Uint64":
		return done(c.Mod(x.read(st, "big", intLeaf, refOf(args[0])), two(64)))
	case "math.Round":
		return done(x.round(str(0)))
	case "math.Floor":
		return done(c.ToReal(c.Floor(str(0))))
	case "math.Ceil":
		return done(c.Neg(c.ToReal(c.Floor(c.Neg(str(0))))))
	case "math.Trunc":
		return done(c.ToReal(c.Trunc(str(0))))
	case "math.Abs":
		return done(c.Ite(c.Le(c.Num(new(big.Rat), SReal), str(0)), str(0), c.Neg(str(0))))
	case "math.Max":
		return done(c.Ite(c.Le(str(0), str(1)), str(1), str(0)))
	case "math.Min":
		return done(c.Ite(c.Le(str(0), str(1)), str(0), str(1)))
	case "math.Sin", "math.Cos", "math.Tan", "math.Sqrt":
		t := str(0)
		if t.isNum() && t.num.Sign() == 0 {
			v := map[string]int64{"math.Sin": 0, "math.Cos": 1, "math.Tan": 0, "math.Sqrt": 0}[full]
			return done(c.Num(new(big.Rat).SetInt64(v), SReal))
		}
		return done(c.App(full, SReal, t))
	case "math.Pow", "math.Mod", "math.Hypot", "math.Atan2":
		return done(c.App(full, SReal, str(0), str(1)))
	case "math.IsNaN":
		return done(c.False)
	case "math.IsInf":
		return done(c.False)

	// strconv
	case "strconv.Itoa":
		return done(x.itoa(str(0)))
	case "strconv.FormatInt", "strconv.FormatUint":
		if b, ok := str(1).intVal(); ok && b == 10 {
			return done(x.itoa(str(0)))
		}
		return done(c.App("formatint", SStr, str(0), str(1)))
	case "strconv.FormatFloat":
		fm, ok1 := str(1).intVal()
		pr, ok2 := str(2).intVal()
		if ok1 && ok2 && fm == 'f' && pr >= 0 {
			return done(x.ftoa(int(pr), str(0)))
		}
		if ok1 && ok2 && str(0).isNum() {
			return done(c.Lit(strconv.FormatFloat(ratFloat(str(0).num), byte(fm), int(pr), 64)))
		}
		return done(c.App("formatfloat", SStr, str(0), str(1), str(2)))
	case "strconv.ParseInt":
		return done(x.symbolicOf(st, fn, 0), x.optErr(st))

	// strings
	case "strings.Contains":
		if str(0).isLit() && str(1).isLit() {
			return done(c.Bool(strings.Contains(str(0).name, str(1).name)))
		}
		return done(c.App("s.contains", SBool, str(0), str(1)))
	case "strings.HasPrefix", "strings.HasSuffix", "strings.EqualFold":
		if str(0).isLit() && str(1).isLit() {
			r := strings.HasPrefix(str(0).name, str(1).name)
			if full == "strings.HasSuffix" {
				r = strings.HasSuffix(str(0).name, str(1).name)
			} else if full == "strings.EqualFold" {
				r = strings.EqualFold(str(0).name, str(1).name)
			}
			return done(c.Bool(r))
		}
		return done(c.App(full, SBool, str(0), str(1)))
	case "strings.Index":
		if str(0).isLit() && str(1).isLit() {
			return done(c.Int(int64(strings.Index(str(0).name, str(1).name))))
		}
		r := c.App("s.index", SInt, str(0), str(1))
		r.lo = big.NewInt(-1)
		c.Fact(r, c.Implies(c.Le(c.Int(0), r), c.Le(c.Add(r, c.Len(str(1))), c.Len(str(0)))))
		return done(r)
	case "strings.Replace":
		if n, ok := str(3).intVal(); ok && n < 0 {
			return done(x.replaceAll(str(0), str(1), str(2)))
		}
		return done(c.App("s.replacen", SStr, str(0), str(1), str(2), str(3)))
	case "strings.ReplaceAll":
		return done(x.replaceAll(str(0), str(1), str(2)))
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace":
		if str(0).isLit() {
			s := str(0).name
			switch full {
			case "strings.ToLower":
				s = strings.ToLower(s)
			case "strings.ToUpper":
				s = strings.ToUpper(s)
			default:
				s = strings.TrimSpace(s)
			}
			return done(c.Lit(s))
		}
		return done(c.App(full, SStr, str(0)))
	case "strings.Repeat":
		if n, ok := str(1).intVal(); ok && str(0).isLit() && n >= 0 && n < 4096 {
			return done(c.Lit(strings.Repeat(str(0).name, int(n))))
		}
		x.safe(st, "strings.Repeat count", c.Le(c.Int(0), str(1)), pos)
		return done(c.App("s.repeat", SStr, str(0), str(1)))
	case "strings.Join":
		sl := args[0].(*VSlice)
		if sl.arr == c.Null {
			return done(c.Lit(""))
		}
		if n, ok := sl.ln.intVal(); ok && n <= 32 {
			var ps []*Term
			for i := int64(0); i < n; i++ {
				if i > 0 {
					ps = append(ps, str(1))
				}
				ps = append(ps, x.scalar(x.load(st, &Ptr{elem: true, arr: sl.arr, idx: c.Add(sl.off, c.Int(i)), root: sl.elem, typ: sl.elem})))
			}
			return done(c.Cat(ps...))
		}
		return done(c.App("s.join", SStr, x.elemContent(st, sl.arr, sl.elem, "", strLeaf), sl.off, sl.ln, str(1)))
	case "strings.Split":
		r := x.newObj(st, nil)
		n := c.App("s.splitn", SInt, str(0), str(1))
		n.lo, n.hi = big.NewInt(0), two(62)
		c.Fact(n, c.Implies(c.Lt(c.Int(0), c.Len(str(1))), c.Le(c.Int(1), n)))
		content := c.App("s.split", arrSort(SInt, SStr), str(0), str(1))
		x.contentBounds(content, strLeaf)
		x.setElemContent(st, r, types.Typ[types.String], "", strLeaf, content)
		return done(&VSlice{r, c.Int(0), n, n, types.Typ[types.String]})

	// sort
	case "sort.Ints", "sort.Strings":
		s := args[0].(*VSlice)
		if s.arr == c.Null {
			return done()
		}
		l := leavesOf(s.elem)[0]
		old := x.elemContent(st, s.arr, s.elem, "", l)
		nw := c.App("sorted."+sanitize(string(l.sort)), old.sort, old, s.off, s.ln)
		x.contentBounds(nw, l)
		x.sortFacts(nw, old, s, l)
		x.setElemContent(st, s.arr, s.elem, "", l, nw)
		return done()

	// sync, time, rand
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "math/rand.Seed":
		return done()
	case "(*sync.Pool).Get":
		bt := x.w.bytesBuffer()
		if bt == nil {
			return nil, false
		}
		r := x.newObj(st, bt)
		x.write(st, "out", outLeaf, r, c.Lit(""))
		return done(&VIface{ref: r, dyn: types.NewPointer(bt), val: &Ptr{ref: r, typ: bt}})
	case "(*sync.Pool).Put":
		if iv, ok := args[1].(*VIface); ok && iv.dyn != nil && typeKey(iv.dyn) == "*bytes.Buffer" && !st.pure {
			// Get hands out empty buffers
			x.obligation(st, "requires:Put-of-an-empty-buffer"+x.w.at(pos), c.Eq(x.read(st, "out", outLeaf, iv.ref), c.Lit("")))
		}
		return done()
	case "math/rand.Intn":
		n := c.Sym("rnd", SInt)
		n.lo = big.NewInt(0)
		c.Fact(n, c.Lt(n, str(0)))
		return done(n)
	case "(time.Time).Equal":
		return done(c.App("time.equal", SBool, append(x.toLeaves(args[0], fn.Signature.Recv().Type()), x.toLeaves(args[1], fn.Signature.Recv().Type())...)...))
	case "(time.Time).Format":
		return done(c.App("time.format", SStr, append(x.toLeaves(args[0], fn.Signature.Recv().Type()), str(1))...))
	case "(image.Rectangle).Dx":
		v := args[0].(*VStruct)
		return done(c.Sub(x.scalar(v.fs[1].(*VStruct).fs[0]), x.scalar(v.fs[0].(*VStruct).fs[0])))
	case "(image.Rectangle).Dy":
		v := args[0].(*VStruct)
		return done(c.Sub(x.scalar(v.fs[1].(*VStruct).fs[1]), x.scalar(v.fs[0].(*VStruct).fs[1])))
	}
	return nil, false
}

var _ = math.Pi

func (x *Exec) rawIff(a, b *Term) *Term {
	return x.c.mk(&Term{op: "=", sort: SBool, args: []*Term{a, b}})
}

func (x *Exec) closed(st *State, r *Term) bool {
	v := x.read(st, "zw.closed", leaf{"", SBool, types.Typ[types.Bool], ""}, r)
	return v == x.c.True
}

func (x *Exec) objKind(r *Term) string { return x.kinds[r] }

// wholeArr: the slice starts at index 0 of its array (content beyond the
// length is unobservable through it and arrays are not shared beyond it).
func (x *Exec) wholeArr(st *State, s *VSlice) bool {
	v, ok := s.off.intVal()
	return ok && v == 0 && s.arr.op == "obj" && s.cp == s.ln
}

func (x *Exec) rc4s(key, used, data *Term) *Term {
	c := x.c
	return c.App("rc4", SStr, key, used, data)
}

func (x *Exec) round(t *Term) *Term {
	c := x.c
	half := big.NewRat(1, 2)
	h := c.Num(half, SReal)
	up := c.ToReal(c.Floor(c.Add(t, h)))
	dn := c.Neg(c.ToReal(c.Floor(c.Add(c.Neg(t), h))))
	return c.Ite(c.Le(c.Num(new(big.Rat), SReal), t), up, dn)
}

func (x *Exec) replaceAll(s, a, b *Term) *Term {
	if s.isLit() && a.isLit() && b.isLit() {
		return x.c.Lit(strings.ReplaceAll(s.name, a.name, b.name))
	}
	return x.c.App("s.replace", SStr, s, a, b)
}

// sortFacts: ascending, and the same elements (both directions).
func (x *Exec) sortFacts(nw, old *Term, s *VSlice, l leaf) {
	c := x.c
	if _, ok := c.defs[nw]; ok {
		return
	}
	i, j := c.BVar(SInt), c.BVar(SInt)
	sel := func(a, k *Term) *Term { return c.mk(&Term{op: "select", sort: l.sort, args: []*Term{a, k}}) }
	in := func(k *Term) *Term { return c.And(c.Le(s.off, k), c.Lt(k, c.Add(s.off, s.ln))) }
	if l.sort == SInt {
		c.Fact(nw, c.Forall([]*Term{i, j}, c.Implies(c.And(in(i), in(j), c.Le(i, j)), c.Le(sel(nw, i), sel(nw, j)))))
	}
	k := c.BVar(SInt)
	p := c.App("sortperm", SInt, nw, k)
	c.Fact(nw, c.Forall([]*Term{k}, c.Implies(in(k), c.And(in(p), c.mk(&Term{op: "=", sort: SBool, args: []*Term{sel(nw, k), sel(old, p)}})))))
	k2 := c.BVar(SInt)
	q := c.App("sortpermi", SInt, nw, k2)
	c.Fact(nw, c.Forall([]*Term{k2}, c.Implies(in(k2), c.And(in(q), c.mk(&Term{op: "=", sort: SBool, args: []*Term{sel(old, k2), sel(nw, q)}})))))
	k3 := c.BVar(SInt)
	c.Fact(nw, c.Forall([]*Term{k3}, c.Implies(c.Not(in(k3)), c.mk(&Term{op: "=", sort: SBool, args: []*Term{sel(nw, k3), sel(old, k3)}}))))
}

func (x *Exec) symbolicOf(st *State, fn *ssa.Function, i int) Value {
	return x.symbolic(st, "ext."+fn.Name(), fn.Signature.Results().At(i).Type())
}

// ---- interface methods on unknown dynamic types

func (x *Exec) stdInvoke(st *State, f *Frame, bind ssa.Value, key string, call *ssa.CallCommon, v *VIface, args []Value, pos token.Pos) (*State, bool) {
	c := x.c
	done := func(res ...Value) (*State, bool) {
		x.task.noteModel(key)
		x.bindTop(st, bind, res)
		return st, true
	}
	name := call.Method.Name()
	kind := x.kinds[v.ref]
	switch {
	case kind == "md5":
		switch name {
		case "Write":
			s := x.bytesToStr(st, args[0].(*VSlice))
			x.ghostAppend(st, v.ref, s)
			return done(c.Len(s), &VIface{ref: c.Null})
		case "Sum":
			h := c.App("md5", SStr, x.read(st, "out", outLeaf, v.ref))
			p := args[0].(*VSlice)
			if p.arr != c.Null {
				h = c.Cat(x.bytesToStr(st, p), h)
			}
			return done(x.strToBytes(st, h))
		case "Reset":
			x.write(st, "out", outLeaf, v.ref, c.Lit(""))
			return done()
		}
	case kind == "inflate":
		switch name {
		case "Close":
			return done(x.optErr(st))
		}
	}
	mt := call.Method.Type().(*types.Signature)
	isWrite := name == "Write" && mt.Params().Len() == 1 && isByteSlice(mt.Params().At(0).Type())
	if isWrite {
		s := x.bytesToStr(st, args[0].(*VSlice))
		x.task.noteModel(key)
		return x.writeTo(st, f, bind, v, s, pos), true
	}
	switch key {
	case "error.Error":
		return done(c.App("errstr", SStr, v.ref))
	case "io.Closer.Close", "io.ReadCloser.Close":
		return done(x.optErr(st))
	case "image.Image.Bounds", "fs.FileInfo.Size", "os.FileInfo.Size":
		return done(x.symbolic(st, name, mt.Results().At(0).Type()))
	}
	return nil, false
}

// external: a function outside the module with no model. Results are
// unconstrained; memory reachable directly through slice and pointer
// arguments is forgotten; nothing else changes (trusted).
func (x *Exec) external(st *State, f *Frame, bind ssa.Value, full string, fn *ssa.Function, args []Value, pos token.Pos) *State {
	if st.pure {
		panic(unsupported("unmodelled function " + full + " in a specification"))
	}
	x.task.noteExternal(full)
	for i, a := range args {
		switch v := a.(type) {
		case *VSlice:
			if v.arr == x.c.Null {
				continue
			}
			for _, l := range x.elemLocs(v.elem, v.arr) {
				n := x.typed(x.c.Sym("x."+l.key, l.l.sort), l.l, st.alloc)
				x.contentBounds(n, l.l)
				x.write(st, l.key, l.l, v.arr, n)
			}
		case *Ptr:
			if x.w.moduleType(v.typ) && !v.elem && v.fst == nil {
				panic(unsupported("module object handed to unmodelled function " + full))
			}
		}
		_ = i
	}
	var res []Value
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		res = append(res, x.symbolic(st, "ext."+fn.Name(), rs.At(i).Type()))
	}
	x.bindTop(st, bind, res)
	return st
}

// opaqueFuncValue: a caller-supplied function. It is taken to be a
// deterministic function of its arguments that does not touch the document.
func (x *Exec) opaqueFuncValue(st *State, f *Frame, bind ssa.Value, fv *VFunc, args []Value, pos token.Pos) *State {
	c := x.c
	if fv.ref == nil {
		panic(unsupported("call of unknown function value"))
	}
	x.safe(st, "nil function call", c.Not(c.Eq(fv.ref, c.Null)), pos)
	if st.dead {
		return nil
	}
	x.task.noteExternal("caller-supplied function value")
	call, ok := bind.(*ssa.Call)
	if !ok {
		return st
	}
	sig := call.Call.Signature()
	targs := []*Term{fv.ref}
	for i, a := range args {
		targs = append(targs, x.toLeaves(a, sig.Params().At(i).Type())...)
	}
	var res []Value
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		var ts []*Term
		for _, l := range leavesOf(t) {
			if l.kind == "off" {
				ts = append(ts, c.Int(0))
				continue
			}
			r := x.typed(c.App(fmt.Sprintf("fcall%d%s.%s", i, l.path, sanitize(typeKey(sig))), l.sort, targs...), l, x.preStamp)
			for k := range st.facts { // speak of it by its known name
				if k.op == "=" && len(k.args) == 2 && (k.args[0] == r && k.args[1].op == "sym" || k.args[1] == r && k.args[0].op == "sym") {
					if k.args[0] == r {
						r = k.args[1]
					} else {
						r = k.args[0]
					}
					break
				}
			}
			ts = append(ts, r)
		}
		res = append(res, x.fromLeaves(ts, t))
	}
	x.bindTop(st, bind, res)
	return st
}

func (w *World) moduleType(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return w.pkgs[n.Obj().Pkg().Path()] != nil
	}
	return false
}

func (w *World) bytesBuffer() types.Type {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, p := range w.prog.AllPackages() {
		if p.Pkg.Path() == "bytes" {
			return p.Pkg.Scope().Lookup("Buffer").Type()
		}
	}
	return nil
}
