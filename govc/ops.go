package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// wrap reduces an arithmetic result to its machine type where that matters.
// int/int64/uint64 addition and multiplication are treated as unbounded.
func (x *Exec) wrap(t *Term, typ types.Type) *Term {
	b, ok := under(typ).(*types.Basic)
	if !ok || t.sort != SInt {
		return t
	}
	return x.wrapKind(t, b.Kind(), false)
}

func (x *Exec) wrapKind(t *Term, k types.BasicKind, force bool) *Term {
	c := x.c
	var bits uint
	signed := false
	switch k {
	case types.Uint8:
		bits = 8
	case types.Uint16:
		bits = 16
	case types.Uint32:
		bits = 32
	case types.Uint, types.Uint64, types.Uintptr:
		bits = 64
	case types.Int8:
		bits, signed = 8, true
	case types.Int16:
		bits, signed = 16, true
	case types.Int32:
		bits, signed = 32, true
	case types.Int, types.Int64:
		bits, signed = 64, true
	default:
		return t
	}
	lo, hi := new(big.Int), new(big.Int).Sub(two(bits), big.NewInt(1))
	if signed {
		lo = new(big.Int).Neg(two(bits - 1))
		hi = new(big.Int).Sub(two(bits-1), big.NewInt(1))
	}
	l, h := c.bounds(t)
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return t
	}
	if bits == 64 && !force && !t.isNum() {
		return t
	}
	if !signed {
		return c.Mod(t, two(bits))
	}
	half := c.BigInt(two(bits - 1))
	return c.Sub(c.Mod(c.Add(t, half), two(bits)), half)
}

func (x *Exec) binop(st *State, f *Frame, i *ssa.BinOp) Value {
	a, b := x.val(st, f, i.X), x.val(st, f, i.Y)
	return x.binopV(st, i.Op, a, b, i.X.Type(), i.Y.Type(), i.Type(), i.Pos())
}

func isNilConstLike(v Value, c *Ctx) bool {
	switch a := v.(type) {
	case *Term:
		return a == c.Null
	case *Ptr:
		return !a.elem && a.fst == nil && a.ref == c.Null
	case *VIface:
		return a.ref == c.Null
	case *VSlice:
		return a.arr == c.Null
	case *VFunc:
		return a.ref == c.Null
	}
	return false
}

func (x *Exec) eqVal(st *State, a, b Value, t types.Type) *Term {
	c := x.c
	if pa, ok := a.(*Ptr); ok && (pa.elem || pa.fst != nil) {
		if isNilConstLike(b, c) {
			return c.False
		}
		pb, ok := b.(*Ptr)
		if ok && pb.elem == pa.elem && pb.fst == pa.fst && pb.fi == pa.fi {
			if pa.elem {
				return c.And(c.Eq(pa.arr, pb.arr), c.Eq(pa.idx, pb.idx))
			}
			return c.Eq(pa.ref, pb.ref)
		}
		if pb, ok := b.(*Ptr); ok && !pb.elem && pb.fst == nil && (pb.ref.op == "obj" || pb.ref == c.Null) {
			return c.False
		}
		panic(unsupported("comparison of element addresses"))
	}
	if pb, ok := b.(*Ptr); ok && (pb.elem || pb.fst != nil) {
		return x.eqVal(st, b, a, t)
	}
	ia, ok1 := a.(*VIface)
	ib, ok2 := b.(*VIface)
	if ok1 && ok2 && ia.ref != ib.ref {
		// boxed values compare by content
		ba, o1 := x.boxes[ia.ref]
		bb, o2 := x.boxes[ib.ref]
		if o1 && o2 {
			if !types.Identical(ba.typ, bb.typ) {
				return c.False
			}
			return x.eqVal(st, ba.val, bb.val, ba.typ)
		}
	}
	if sa, ok := a.(*VSlice); ok {
		if isNilConstLike(b, c) {
			return c.Eq(sa.arr, c.Null)
		}
		if sb, ok := b.(*VSlice); ok && isNilConstLike(a, c) {
			return c.Eq(sb.arr, c.Null)
		}
	}
	la, lb := x.toLeaves(a, t), x.toLeaves(b, t)
	var es []*Term
	for i := range la {
		es = append(es, c.Eq(la[i], lb[i]))
	}
	return c.And(es...)
}

func (x *Exec) binopV(st *State, op token.Token, a, b Value, ta, tb, tr types.Type, pos token.Pos) Value {
	c := x.c
	switch op {
	case token.EQL, token.NEQ:
		t := ta
		if _, ok := under(ta).(*types.Basic); ok && ta.Underlying().(*types.Basic).Kind() == types.UntypedNil {
			t = tb
		}
		if types.IsInterface(ta) && !types.IsInterface(tb) {
			b = x.makeIface(st, b, tb)
		} else if types.IsInterface(tb) && !types.IsInterface(ta) {
			a = x.makeIface(st, a, ta)
			t = tb
		}
		e := x.eqVal(st, a, b, t)
		if op == token.NEQ {
			e = c.Not(e)
		}
		return e
	}
	p, q := x.scalar(a), x.scalar(b)
	if p.sort == SReal && q.sort == SInt {
		q = c.ToReal(q)
	}
	switch op {
	case token.LSS:
		if p.sort == SStr {
			return c.App("strlt", SBool, p, q)
		}
		return c.Lt(p, q)
	case token.LEQ:
		if p.sort == SStr {
			return c.Not(c.App("strlt", SBool, q, p))
		}
		return c.Le(p, q)
	case token.GTR:
		if p.sort == SStr {
			return c.App("strlt", SBool, q, p)
		}
		return c.Lt(q, p)
	case token.GEQ:
		if p.sort == SStr {
			return c.Not(c.App("strlt", SBool, p, q))
		}
		return c.Le(q, p)
	case token.ADD:
		if p.sort == SStr {
			return c.Cat(p, q)
		}
		return x.wrap(c.Add(p, q), tr)
	case token.SUB:
		r := c.Sub(p, q)
		if bk, ok := under(tr).(*types.Basic); ok && bk.Info()&types.IsUnsigned != 0 {
			return x.wrapKind(r, bk.Kind(), true)
		}
		return x.wrap(r, tr)
	case token.MUL:
		return x.wrap(c.Mul(p, q), tr)
	case token.QUO:
		if p.sort == SReal {
			if q.isNum() && q.num.Sign() == 0 {
				panic(unsupported("floating-point division by constant zero"))
			}
			return c.RDiv(p, q)
		}
		x.safe(st, "division by zero", c.Not(c.Eq(q, c.Int(0))), pos)
		return x.intDiv(p, q)
	case token.REM:
		x.safe(st, "division by zero", c.Not(c.Eq(q, c.Int(0))), pos)
		return c.Sub(p, c.Mul(q, x.intDiv(p, q)))
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		if p.sort == SBool {
			if op == token.AND {
				return c.And(p, q)
			}
			if op == token.OR {
				return c.Or(p, q)
			}
		}
		return x.bitop(st, op, p, q, tr)
	}
	panic(unsupported("operator " + op.String()))
}

// intDiv is truncated division.
func (x *Exec) intDiv(p, q *Term) *Term {
	c := x.c
	if q.isNum() && q.num.Sign() > 0 {
		k := q.num.Num()
		lo, hi := c.bounds(p)
		if lo != nil && lo.Sign() >= 0 {
			return c.FDiv(p, k)
		}
		if hi != nil && hi.Sign() <= 0 {
			return c.Neg(c.FDiv(c.Neg(p), k))
		}
		return c.Ite(c.Le(c.Int(0), p), c.FDiv(p, k), c.Neg(c.FDiv(c.Neg(p), k)))
	}
	if q.isNum() && q.num.Sign() < 0 {
		return c.Neg(x.intDiv(p, c.Neg(q)))
	}
	lo, _ := c.bounds(p)
	lq, _ := c.bounds(q)
	d := func(a, b *Term) *Term { return c.mk(&Term{op: "div", sort: SInt, args: []*Term{a, b}}) }
	if lo != nil && lo.Sign() >= 0 && lq != nil && lq.Sign() >= 0 {
		return d(p, q)
	}
	return c.App("tdiv", SInt, p, q)
}

func (x *Exec) bitop(st *State, op token.Token, p, q *Term, tr types.Type) Value {
	c := x.c
	switch op {
	case token.SHL:
		if k, ok := q.intVal(); ok && k >= 0 && k < 200 {
			bk, _ := under(tr).(*types.Basic)
			r := c.Scale(p, new(big.Rat).SetInt(two(uint(k))))
			if bk != nil {
				return x.wrapKind(r, bk.Kind(), true)
			}
			return r
		}
		r := c.Mul(p, x.pow2(q))
		return r
	case token.SHR:
		if k, ok := q.intVal(); ok && k >= 0 && k < 200 {
			return c.FDiv(p, two(uint(k)))
		}
		return c.mk(&Term{op: "div", sort: SInt, args: []*Term{p, x.pow2(q)}})
	case token.AND:
		if p.isNum() && !q.isNum() {
			p, q = q, p
		}
		if p.isNum() && q.isNum() {
			return c.BigInt(new(big.Int).And(p.num.Num(), q.num.Num()))
		}
		if q.isNum() {
			return x.andConst(p, q.num.Num())
		}
	case token.AND_NOT:
		if q.isNum() {
			return c.Sub(p, x.andConst(p, q.num.Num()))
		}
		if p.isNum() || true {
			return x.bitUF("bvandnot", p, q, tr)
		}
	case token.OR, token.XOR:
		if p.isNum() && q.isNum() {
			if op == token.OR {
				return c.BigInt(new(big.Int).Or(p.num.Num(), q.num.Num()))
			}
			return c.BigInt(new(big.Int).Xor(p.num.Num(), q.num.Num()))
		}
		if p.isNum() && p.num.Sign() == 0 {
			return q
		}
		if q.isNum() && q.num.Sign() == 0 {
			return p
		}
		if x.disjointBits(p, q) || x.disjointBits(q, p) {
			return c.Add(p, q)
		}
		// one side constant: x | k = x + k - (x & k);  x ^ k = x + k - 2*(x & k)
		if p.isNum() {
			p, q = q, p
		}
		if q.isNum() && q.num.Sign() >= 0 {
			an := x.andConst(p, q.num.Num())
			s := int64(-1)
			if op == token.XOR {
				s = -2
			}
			return c.Add(c.Add(p, q), c.Scale(an, big.NewRat(s, 1)))
		}
	}
	if p.id > q.id {
		p, q = q, p
	}
	names := map[token.Token]string{token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor"}
	return x.bitUF(names[op], p, q, tr)
}

func (x *Exec) bitUF(n string, p, q *Term, tr types.Type) *Term {
	t := x.c.App(n, SInt, p, q)
	if t.lo == nil {
		t.lo, t.hi = intBounds(tr)
	}
	return t
}

func (x *Exec) pow2(q *Term) *Term {
	t := x.c.App("pow2", SInt, q)
	t.lo = big.NewInt(1)
	return t
}

// andConst is p & k by extracting runs of bits (floor semantics match two's complement).
func (x *Exec) andConst(p *Term, k *big.Int) *Term {
	c := x.c
	if k.Sign() < 0 { // x & ^m = x - (x & m)
		m := new(big.Int).Not(k)
		return c.Sub(p, x.andConst(p, m))
	}
	r := c.Int(0)
	i := 0
	for i < k.BitLen() {
		if k.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < k.BitLen() && k.Bit(j) == 1 {
			j++
		}
		run := c.Mod(c.FDiv(p, two(uint(i))), two(uint(j-i)))
		r = c.Add(r, c.Scale(run, new(big.Rat).SetInt(two(uint(i)))))
		i = j
	}
	return r
}

// disjointBits: p is a multiple of 2^k and 0 <= q < 2^k.
func (x *Exec) disjointBits(p, q *Term) bool {
	c := x.c
	lo, hi := c.bounds(q)
	if lo == nil || hi == nil || lo.Sign() < 0 {
		return false
	}
	k := uint(hi.BitLen())
	m := two(k)
	for _, mo := range c.monosOf(p) {
		if !mo.c.IsInt() || new(big.Int).Mod(mo.c.Num(), m).Sign() != 0 {
			return false
		}
	}
	return true
}

func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(s.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isRuneSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(s.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Int32
}

// bytesToStr reads a byte slice as a string.
func (x *Exec) bytesToStr(st *State, s *VSlice) *Term {
	if s.arr == x.c.Null {
		return x.c.Lit("")
	}
	l := leaf{"", SInt, s.elem, ""}
	content := x.elemContent(st, s.arr, s.elem, "", l)
	if content.isApp("bytes_of") {
		if v, ok := s.off.intVal(); ok && v == 0 && s.ln == x.c.Len(content.args[0]) {
			return content.args[0]
		}
	}
	return x.c.BytesStr(content, s.off, s.ln)
}

func (x *Exec) strToBytes(st *State, s *Term) *VSlice {
	r := x.newObj(st, nil)
	et := types.Typ[types.Uint8]
	l := leaf{"", SInt, et, ""}
	var content *Term
	if s.isLit() && len(s.name) <= 64 {
		content = x.c.ConstArr(arrSort(SInt, SInt), x.c.Int(0))
		for i := 0; i < len(s.name); i++ {
			content = x.c.Store(content, x.c.Int(int64(i)), x.c.Int(int64(s.name[i])))
		}
	} else {
		content = x.c.BytesOf(s)
		x.contentBounds(content, l)
	}
	x.setElemContent(st, r, et, "", l, content)
	n := x.c.Len(s)
	return &VSlice{r, x.c.Int(0), n, n, et}
}

func (x *Exec) convert(st *State, v Value, from, to types.Type) Value {
	c := x.c
	uf, ut := under(from), under(to)
	if bt, ok := ut.(*types.Basic); ok {
		switch {
		case bt.Info()&types.IsString != 0:
			switch {
			case isByteSlice(from):
				return x.bytesToStr(st, v.(*VSlice))
			case isRuneSlice(from):
				s := v.(*VSlice)
				l := leaf{"", SInt, s.elem, ""}
				if s.arr == c.Null {
					return c.Lit("")
				}
				return c.RunesStr(x.elemContent(st, s.arr, s.elem, "", l), s.off, s.ln)
			}
			if bf, ok := uf.(*types.Basic); ok {
				if bf.Info()&types.IsString != 0 {
					return v
				}
				if bf.Info()&types.IsInteger != 0 {
					t := x.scalar(v)
					if k, ok := t.intVal(); ok {
						return c.Lit(string(rune(k)))
					}
					arr := c.Store(c.ConstArr(arrSort(SInt, SInt), c.Int(0)), c.Int(0), t)
					return c.RunesStr(arr, c.Int(0), c.Int(1))
				}
			}
		case bt.Info()&types.IsInteger != 0:
			t := x.scalar(v)
			if t.sort == SReal {
				return x.wrapKind(c.Trunc(t), bt.Kind(), false)
			}
			if t.sort == SInt {
				if fb, ok := uf.(*types.Basic); ok && is64(fb.Kind()) && is64(bt.Kind()) {
					return x.wrapKind(t, bt.Kind(), false)
				}
				return x.wrapKind(t, bt.Kind(), true)
			}
		case bt.Info()&types.IsFloat != 0:
			t := x.scalar(v)
			return c.ToReal(t)
		case bt.Kind() == types.UnsafePointer:
			panic(unsupported("unsafe.Pointer"))
		}
	}
	if isByteSlice(to) {
		if t, ok := v.(*Term); ok && t.sort == SStr {
			return x.strToBytes(st, t)
		}
	}
	if isRuneSlice(to) {
		if t, ok := v.(*Term); ok && t.sort == SStr {
			r := x.newObj(st, nil)
			et := ut.(*types.Slice).Elem()
			l := leaf{"", SInt, et, ""}
			content := c.RunesOf(t)
			if t.isLit() {
				content = c.ConstArr(arrSort(SInt, SInt), c.Int(0))
				for i, ru := range []rune(t.name) {
					content = c.Store(content, c.Int(int64(i)), c.Int(int64(ru)))
				}
			}
			x.setElemContent(st, r, et, "", l, content)
			n := c.NRunes(t)
			return &VSlice{r, c.Int(0), n, n, et}
		}
	}
	if types.Identical(uf, ut) {
		return v
	}
	panic(unsupported("conversion " + from.String() + " to " + to.String()))
}

// ---- builtins

func (x *Exec) builtin(st *State, f *Frame, bind ssa.Value, b *ssa.Builtin, call *ssa.CallCommon, args []Value, pos token.Pos) *State {
	c := x.c
	set := func(v Value) *State {
		if bind != nil {
			f.env[bind] = v
		}
		return st
	}
	switch b.Name() {
	case "len", "cap":
		switch v := args[0].(type) {
		case *Term:
			if v.sort == SStr {
				return set(c.Len(v))
			}
			// map
			mt := under(call.Args[0].Type()).(*types.Map)
			return set(x.mapLen(st, v, mt))
		case *VSlice:
			if b.Name() == "cap" {
				return set(v.cp)
			}
			return set(v.ln)
		case *VArr:
			return set(c.Int(v.typ.Len()))
		case *Ptr:
			if a, ok := isArray(v.typ); ok {
				return set(c.Int(a.Len()))
			}
		}
	case "append":
		return set(x.appendOp(st, args[0], args[1], call))
	case "copy":
		dst := args[0].(*VSlice)
		var src *VSlice
		if s, ok := args[1].(*VSlice); ok {
			src = s
		} else {
			src = x.strToBytes(st, x.scalar(args[1]))
		}
		n := c.Ite(c.Le(src.ln, dst.ln), src.ln, dst.ln)
		for _, l := range leavesOf(dst.elem) {
			sc := x.elemContent(st, src.arr, src.elem, l.path, l)
			dc := x.elemContent(st, dst.arr, dst.elem, l.path, l)
			x.setElemContent(st, dst.arr, dst.elem, l.path, l, x.blit(dc, dst.off, sc, src.off, n, l))
		}
		return set(n)
	case "delete":
		mt := under(call.Args[0].Type()).(*types.Map)
		x.mapDelete(st, args[0].(*Term), mt, x.mapKey(args[1], mt))
		return st
	case "print", "println":
		return st
	case "min", "max":
		r := x.scalar(args[0])
		for _, a := range args[1:] {
			t := x.scalar(a)
			cond := c.Le(r, t)
			if b.Name() == "max" {
				cond = c.Le(t, r)
			}
			r = c.Ite(cond, r, t)
		}
		return set(r)
	case "ssa:wrapnilchk":
		return set(args[0])
	case "recover":
		return set(&VIface{ref: c.Null})
	}
	panic(unsupported("builtin " + b.Name()))
}

// blit gives dst with n elements of src copied in.
func (x *Exec) blit(dst, doff, src, soff, n *Term, l leaf) *Term {
	c := x.c
	if k, ok := n.intVal(); ok && k <= 16 {
		r := dst
		for i := int64(0); i < k; i++ {
			r = c.Store(r, c.Add(doff, c.Int(i)), c.Select(src, c.Add(soff, c.Int(i))))
		}
		return r
	}
	t := c.App("blit_"+sanitize(string(l.sort)), dst.sort, dst, doff, src, soff, n)
	if _, done := c.defs[t]; !done && !t.bound {
		v := c.BVar(SInt)
		in := c.And(c.Le(doff, v), c.Lt(v, c.Add(doff, n)))
		sel := c.mk(&Term{op: "select", sort: l.sort, args: []*Term{t, v}})
		c.Fact(t, c.Forall([]*Term{v}, c.mk(&Term{op: "=", sort: SBool, args: []*Term{sel,
			c.mk(&Term{op: "ite", sort: l.sort, args: []*Term{in,
				c.mk(&Term{op: "select", sort: l.sort, args: []*Term{src, c.Add(soff, c.Sub(v, doff))}}),
				c.mk(&Term{op: "select", sort: l.sort, args: []*Term{dst, v}})}})}})))
	}
	x.contentTyp[t] = l.typ
	return t
}

func (x *Exec) appendOp(st *State, av, bv Value, call *ssa.CallCommon) Value {
	c := x.c
	a := av.(*VSlice)
	var b *VSlice
	if s, ok := bv.(*VSlice); ok {
		b = s
	} else {
		b = x.strToBytes(st, x.scalar(bv))
	}
	if b.arr == c.Null {
		return a
	}
	r := x.newObj(st, nil)
	for _, l := range leavesOf(a.elem) {
		var base *Term
		if a.arr == c.Null {
			base = c.ConstArr(arrSort(SInt, l.sort), x.zeroTerm(l.sort))
		} else {
			base = x.elemContent(st, a.arr, a.elem, l.path, l)
		}
		if v, ok := a.off.intVal(); !ok || v != 0 {
			base = x.shiftArr(base, a.off, l)
		}
		src := x.elemContent(st, b.arr, a.elem, l.path, l)
		var content *Term
		if k, ok := b.ln.intVal(); ok && k <= 64 {
			content = base
			for i := int64(0); i < k; i++ {
				content = c.Store(content, c.Add(a.ln, c.Int(i)), c.Select(src, c.Add(b.off, c.Int(i))))
			}
		} else if n, ok := a.ln.intVal(); ok && n == 0 && b.off == c.Int(0) {
			content = src // only indices below the length matter
		} else if isByteSlice(types.NewSlice(a.elem)) {
			s := c.Cat(c.BytesStr(base, c.Int(0), a.ln), c.BytesStr(src, b.off, b.ln))
			content = c.BytesOf(s)
			_ = s
		} else {
			content = x.blit(base, a.ln, src, b.off, b.ln, l)
		}
		if content.op == "app:bytes_of" {
			x.contentTyp[content] = l.typ
		}
		x.setElemContent(st, r, a.elem, l.path, l, content)
	}
	n := c.Add(a.ln, b.ln)
	cp := c.Sym("cap", SInt)
	cp.lo = big.NewInt(0)
	c.Fact(cp, c.Le(n, cp))
	res := &VSlice{r, c.Int(0), n, cp, a.elem}
	// appending nothing keeps a nil slice nil
	if lo, _ := c.bounds(b.ln); lo == nil || lo.Sign() <= 0 {
		if k, ok := b.ln.intVal(); ok && k == 0 {
			return a
		}
		if a.arr == c.Null {
			res.arr = c.Ite(c.Eq(b.ln, c.Int(0)), c.Null, r)
			if res.arr != r {
				// keep the object reference simple: nil-ness of an empty result is not tracked
				res.arr = r
			}
		}
	}
	return res
}

func (x *Exec) shiftArr(a, off *Term, l leaf) *Term {
	c := x.c
	t := c.App("shift_"+sanitize(string(l.sort)), a.sort, a, off)
	if _, done := c.defs[t]; !done && !t.bound {
		v := c.BVar(SInt)
		c.Fact(t, c.Forall([]*Term{v}, c.mk(&Term{op: "=", sort: SBool, args: []*Term{
			c.mk(&Term{op: "select", sort: l.sort, args: []*Term{t, v}}),
			c.mk(&Term{op: "select", sort: l.sort, args: []*Term{a, c.Add(v, off)}})}})))
	}
	x.contentTyp[t] = l.typ
	return t
}

// ---- maps

func mapKeyStr(mt *types.Map) string { return "map:" + typeKey(mt) }

func (x *Exec) mapKey(v Value, mt *types.Map) *Term {
	if _, ok := scalarSort(mt.Key()); ok {
		if iv, ok := v.(*VIface); ok {
			if b, ok := x.boxes[iv.ref]; ok {
				// interface-keyed maps: key by content is not modelled
				_ = b
				panic(unsupported("map keyed by interface"))
			}
		}
		return x.scalar(v)
	}
	// structural key: injective tuple
	ls := x.toLeaves(v, mt.Key())
	return x.tupleKey(mt, ls)
}

func (x *Exec) tupleKey(mt *types.Map, ls []*Term) *Term {
	name := "tuple." + typeKey(mt.Key())
	t := x.c.App(name, SRef, ls...)
	if t.stamp == 0 {
		t.stamp = 1
	}
	if !t.bound {
		for i, l := range ls {
			p := x.c.App(fmt.Sprintf("%s.p%d", name, i), l.sort, t)
			x.c.Fact(t, x.c.mk(&Term{op: "=", sort: SBool, args: []*Term{p, l}}))
		}
	}
	return t
}

func (x *Exec) mapKeySort(mt *types.Map) Sort {
	if s, ok := scalarSort(mt.Key()); ok {
		return s
	}
	return SRef
}

func (x *Exec) mapDomLeaf(mt *types.Map) leaf {
	return leaf{"#dom", arrSort(x.mapKeySort(mt), SBool), types.Typ[types.Bool], "content"}
}

func (x *Exec) mapInit(st *State, r *Term, mt *types.Map) {
	k := mapKeyStr(mt)
	dl := x.mapDomLeaf(mt)
	x.write(st, k+"#dom", dl, r, x.c.ConstArr(dl.sort, x.c.False))
	x.write(st, k+"#n", leaf{"", SInt, types.Typ[types.Int], "len"}, r, x.c.Int(0))
	for _, l := range leavesOf(mt.Elem()) {
		as := arrSort(x.mapKeySort(mt), l.sort)
		x.write(st, k+"#val"+l.path, leaf{"", as, l.typ, "content"}, r, x.c.ConstArr(as, x.zeroTerm(l.sort)))
	}
}

func (x *Exec) mapDom(st *State, m *Term, mt *types.Map) *Term {
	if m == x.c.Null {
		dl := x.mapDomLeaf(mt)
		return x.c.ConstArr(dl.sort, x.c.False)
	}
	return x.read(st, mapKeyStr(mt)+"#dom", x.mapDomLeaf(mt), m)
}

func (x *Exec) mapLen(st *State, m *Term, mt *types.Map) *Term {
	if m == x.c.Null {
		return x.c.Int(0)
	}
	t := x.read(st, mapKeyStr(mt)+"#n", leaf{"", SInt, types.Typ[types.Int], "len"}, m)
	if t.lo == nil && !t.isNum() && t.op != "poly" {
		t.lo = big.NewInt(0)
	}
	return t
}

func (x *Exec) mapVal(st *State, m *Term, mt *types.Map, k *Term, in *Term) Value {
	var ts []*Term
	for _, l := range leavesOf(mt.Elem()) {
		as := arrSort(x.mapKeySort(mt), l.sort)
		var t *Term
		if m == x.c.Null {
			t = x.zeroTerm(l.sort)
		} else {
			cont := x.read(st, mapKeyStr(mt)+"#val"+l.path, leaf{"", as, l.typ, "content"}, m)
			t = x.c.Select(cont, k)
			if t.op == "select" {
				x.typed(t, l, st.alloc)
			}
			t = x.c.Ite(in, t, x.zeroTerm(l.sort))
			if t.op == "ite" {
				x.typed(t, l, st.alloc)
			}
		}
		ts = append(ts, t)
	}
	return x.fromLeaves(ts, mt.Elem())
}

func (x *Exec) lookup(st *State, f *Frame, i *ssa.Lookup) *State {
	c := x.c
	if b, ok := under(i.X.Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s := x.term(st, f, i.X)
		idx := x.term(st, f, i.Index)
		x.safe(st, "index", c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.Len(s))), i.Pos())
		if st.dead {
			return nil
		}
		f.env[i] = c.At(s, idx)
		return st
	}
	mt := under(i.X.Type()).(*types.Map)
	m := x.term(st, f, i.X)
	k := x.mapKey(x.val(st, f, i.Index), mt)
	in := c.Select(x.mapDom(st, m, mt), k)
	if m.op != "obj" && m != c.Null {
		// a nil map has no entries
		if !m.bound && !k.bound && in.op == "select" {
			c.Fact(in, c.Implies(c.Eq(m, c.Null), c.Not(in)))
		}
	}
	in = x.simp(st, in)
	if st.pure || i.CommaOk == false {
		v := x.mapVal(st, m, mt, k, in)
		if i.CommaOk {
			f.env[i] = &VTuple{[]Value{v, in}}
		} else {
			f.env[i] = v
		}
		return st
	}
	t, e := x.branch(st, in)
	if e != nil {
		e.top().env[i] = &VTuple{[]Value{x.zero(mt.Elem()), c.False}}
		if t == nil {
			return e
		}
		x.work = append(x.work, e)
	}
	if t != nil {
		t.top().env[i] = &VTuple{[]Value{x.mapVal(t, m, mt, k, c.True), c.True}}
	}
	return t
}

func (x *Exec) mapUpdate(st *State, f *Frame, i *ssa.MapUpdate) {
	mt := under(i.Map.Type()).(*types.Map)
	m := x.term(st, f, i.Map)
	x.safe(st, "assignment to nil map", x.c.Not(x.c.Eq(m, x.c.Null)), i.Pos())
	if st.dead {
		return
	}
	k := x.mapKey(x.val(st, f, i.Key), mt)
	x.mapSet(st, m, mt, k, x.val(st, f, i.Value))
}

func (x *Exec) mapSet(st *State, m *Term, mt *types.Map, k *Term, v Value) {
	c := x.c
	key := mapKeyStr(mt)
	dom := x.mapDom(st, m, mt)
	in := c.Select(dom, k)
	n := x.mapLen(st, m, mt)
	x.write(st, key+"#n", leaf{"", SInt, types.Typ[types.Int], "len"}, m, c.Ite(in, n, c.Add(n, c.Int(1))))
	x.write(st, key+"#dom", x.mapDomLeaf(mt), m, c.Store(dom, k, c.True))
	ts := x.toLeaves(v, mt.Elem())
	for j, l := range leavesOf(mt.Elem()) {
		as := arrSort(x.mapKeySort(mt), l.sort)
		ll := leaf{"", as, l.typ, "content"}
		cont := x.read(st, key+"#val"+l.path, ll, m)
		x.write(st, key+"#val"+l.path, ll, m, c.Store(cont, k, ts[j]))
	}
}

func (x *Exec) mapDelete(st *State, m *Term, mt *types.Map, k *Term) {
	c := x.c
	key := mapKeyStr(mt)
	dom := x.mapDom(st, m, mt)
	in := c.Select(dom, k)
	n := x.mapLen(st, m, mt)
	x.write(st, key+"#n", leaf{"", SInt, types.Typ[types.Int], "len"}, m, c.Ite(in, c.Sub(n, c.Int(1)), n))
	x.write(st, key+"#dom", x.mapDomLeaf(mt), m, c.Store(dom, k, c.False))
}

// runeOff: the byte offset of the k-th character of a string.
func (x *Exec) runeOff(s, k *Term) *Term {
	c := x.c
	if v, ok := k.intVal(); ok && v == 0 {
		return c.Int(0)
	}
	if s.isLit() {
		if n, o := k.intVal(); o {
			off := 0
			for i, r := range []rune(s.name) {
				if i == int(n) {
					break
				}
				off += len(string(r))
			}
			return c.Int(int64(off))
		}
	}
	idx := c.App("runeoff", SInt, s, k)
	if idx.lo == nil {
		idx.lo = big.NewInt(0)
		ok := c.And(c.Le(c.Int(0), k), c.Lt(k, c.NRunes(s)))
		c.Fact(idx, c.Implies(ok, c.Lt(idx, c.Len(s))), c.Implies(c.Eq(k, c.Int(0)), c.Eq(idx, c.Int(0))), c.Implies(ok, c.Le(k, idx)))
	}
	return idx
}

// next advances a string or map iterator.
func (x *Exec) next(st *State, f *Frame, i *ssa.Next) *State {
	c := x.c
	it, ok := x.val(st, f, i.Iter).(*VIter)
	if !ok {
		panic(unsupported("iterator"))
	}
	il := leaf{"", SInt, types.Typ[types.Int], ""}
	k := x.read(st, "iter", il, it.cell)
	x.write(st, "iter", il, it.cell, c.Add(k, c.Int(1)))
	if i.IsString {
		ok := c.And(c.Le(c.Int(0), k), c.Lt(k, c.NRunes(it.str)))
		var idx, ru *Term
		if it.str.isLit() {
			if n, o := k.intVal(); o {
				rs := []rune(it.str.name)
				if int(n) < len(rs) {
					off := 0
					for _, r := range rs[:n] {
						off += len(string(r))
					}
					f.env[i] = &VTuple{[]Value{c.True, c.Int(int64(off)), c.Int(int64(rs[n]))}}
					return st
				}
				f.env[i] = &VTuple{[]Value{c.False, c.Int(0), c.Int(0)}}
				return st
			}
		}
		ru = c.Select(c.RunesOf(it.str), k)
		if ru.op == "select" {
			x.typed(ru, leaf{"", SInt, types.Typ[types.Rune], ""}, 0)
			if !ru.bound {
				ru.lo = big.NewInt(0)
			}
		}
		idx = x.runeOff(it.str, k)
		f.env[i] = &VTuple{[]Value{ok, idx, ru}}
		return st
	}
	// map: an arbitrary key of the domain, in an arbitrary order
	mt := it.mt
	more := c.Lt(k, x.mapLen(st, it.m, mt))
	key := c.App("mapkey."+typeKey(mt), x.mapKeySort(mt), it.m, it.cell, k)
	kl := leavesOf(mt.Key())
	var kv Value
	if _, sc := scalarSort(mt.Key()); sc {
		x.typed(key, kl[0], st.alloc)
		kv = x.fromScalar(key, mt.Key())
	} else {
		var ts []*Term
		for j, l := range kl {
			ts = append(ts, x.typed(c.App(fmt.Sprintf("tuple.%s.p%d", typeKey(mt.Key()), j), l.sort, key), l, st.alloc))
		}
		kv = x.fromLeaves(ts, mt.Key())
	}
	in := c.Select(x.mapDom(st, it.m, mt), key)
	x.assume(st, c.Implies(more, in))
	v := x.mapVal(st, it.m, mt, key, c.True)
	f.env[i] = &VTuple{[]Value{more, kv, v}}
	return st
}

func hasPrefixAny(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

func is64(k types.BasicKind) bool { return k == types.Int || k == types.Int64 }
