package main

// Strings: an uninterpreted sort with concatenation kept as a flat rope.

import "math/big"

func (c *Ctx) Lit(s string) *Term {
	k := c.key(&Term{op: "lit", sort: SStr, name: s})
	if o, ok := c.tab[k]; ok {
		return o
	}
	t := c.mk(&Term{op: "lit", sort: SStr, name: s})
	c.lits = append(c.lits, t)
	return t
}

func (c *Ctx) pieces(t *Term) []*Term {
	switch t.op {
	case "cat":
		return t.args
	case "lit":
		if t.name == "" {
			return nil
		}
	}
	return []*Term{t}
}

func (c *Ctx) Cat(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		for _, p := range c.pieces(t) {
			if n := len(out); n > 0 {
				last := out[n-1]
				if last.isLit() && p.isLit() {
					out[n-1] = c.Lit(last.name + p.name)
					continue
				}
				// sub(s,a,b) ++ sub(s,b,e) = sub(s,a,e)
				if last.isApp("ssub") && p.isApp("ssub") && last.args[0] == p.args[0] && last.args[2] == p.args[1] {
					out[n-1] = c.SubStr(last.args[0], last.args[1], p.args[2])
					continue
				}
				// runes
				if last.isApp("str_runes") && p.isApp("str_runes") && last.args[0] == p.args[0] && c.Add(last.args[1], last.args[2]) == p.args[1] {
					out[n-1] = c.RunesStr(last.args[0], last.args[1], c.Add(last.args[2], p.args[2]))
					continue
				}
			}
			out = append(out, p)
		}
	}
	switch len(out) {
	case 0:
		return c.Lit("")
	case 1:
		return out[0]
	}
	return c.mk(&Term{op: "cat", sort: SStr, args: out})
}

func (c *Ctx) Len(s *Term) *Term {
	switch {
	case s.isLit():
		return c.Int(int64(len(s.name)))
	case s.op == "cat":
		r := c.Int(0)
		for _, p := range s.args {
			r = c.Add(r, c.Len(p))
		}
		return r
	case s.isApp("chr"):
		return c.Int(1)
	case s.op == "ite":
		return c.Ite(s.args[0], c.Len(s.args[1]), c.Len(s.args[2]))
	case s.isApp("str_bytes"):
		return s.args[2]
	case s.isApp("rc4"):
		return c.Len(s.args[2])
	}
	if n, ok := c.fixedLen(s); ok {
		return c.Int(int64(n))
	}
	if s.isApp("ssub") {
		lo, ok1 := s.args[1].intVal()
		hi, ok2 := s.args[2].intVal()
		if ok1 && ok2 && 0 <= lo && lo <= hi {
			if b, _ := c.bounds(c.Len(s.args[0])); b != nil && b.Cmp(big.NewInt(hi)) >= 0 {
				return c.Int(hi - lo)
			}
		}
	}
	t := c.App("slen", SInt, s)
	if t.lo == nil {
		t.lo = new(big.Int)
	}
	if s.isApp("ssub") {
		c.Fact(t, c.Implies(c.And(c.Le(c.Int(0), s.args[1]), c.Le(s.args[1], s.args[2]), c.Le(s.args[2], c.Len(s.args[0]))), c.Eq(t, c.Sub(s.args[2], s.args[1]))))
	}
	return t
}

// fixedLen: formatting applications with a known output length.
func (c *Ctx) fixedLen(s *Term) (int, bool) {
	if n, ok := fixedLenFuns[s.op]; ok {
		return n, true
	}
	return 0, false
}

var fixedLenFuns = map[string]int{"app:md5": 16}

func (c *Ctx) Chr(b *Term) *Term {
	if v, ok := b.intVal(); ok && v >= 0 && v < 256 {
		return c.Lit(string([]byte{byte(v)}))
	}
	return c.App("chr", SStr, b)
}

// At is the byte at index i.
func (c *Ctx) At(s, i *Term) *Term {
	if v, ok := i.intVal(); ok {
		if s.isLit() && v >= 0 && int(v) < len(s.name) {
			return c.Int(int64(s.name[v]))
		}
		if s.isApp("chr") && v == 0 {
			return s.args[0]
		}
		if s.op == "cat" {
			for _, p := range s.args {
				n, ok := c.Len(p).intVal()
				if !ok {
					break
				}
				if v < n {
					return c.At(p, c.Int(v))
				}
				v -= n
			}
		}
	}
	if s.isApp("str_bytes") {
		return c.Select(s.args[0], c.Add(s.args[1], i))
	}
	t := c.App("sat", SInt, s, i)
	if t.lo == nil {
		t.lo, t.hi = new(big.Int), big.NewInt(255)
	}
	return t
}

func (c *Ctx) SubStr(s, a, b *Term) *Term {
	if a == b {
		return c.Lit("")
	}
	if v, ok := a.intVal(); ok && v == 0 && b == c.Len(s) {
		return s
	}
	if s.isLit() {
		x, ok1 := a.intVal()
		y, ok2 := b.intVal()
		if ok1 && ok2 && 0 <= x && x <= y && int(y) <= len(s.name) {
			return c.Lit(s.name[x:y])
		}
	}
	if s.isApp("ssub") {
		return c.SubStr(s.args[0], c.Add(s.args[1], a), c.Add(s.args[1], b))
	}
	return c.App("ssub", SStr, s, a, b)
}

// BytesOf gives the content array of []byte(s) (index 0..len-1).
func (c *Ctx) BytesOf(s *Term) *Term {
	if s.isApp("str_bytes") {
		if v, ok := s.args[1].intVal(); ok && v == 0 {
			return s.args[0]
		}
	}
	t := c.App("bytes_of", arrSort(SInt, SInt), s)
	return t
}

// BytesStr is the string of bytes arr[off..off+n).
func (c *Ctx) BytesStr(arr, off, n *Term) *Term {
	if v, ok := n.intVal(); ok {
		if v == 0 {
			return c.Lit("")
		}
		if v <= 64 && arr.op == "store" {
			var ps []*Term
			okAll := true
			for i := int64(0); i < v; i++ {
				e := c.Select(arr, c.Add(off, c.Int(i)))
				if e.op == "select" {
					okAll = false
					break
				}
				ps = append(ps, c.Chr(e))
			}
			if okAll {
				return c.Cat(ps...)
			}
		}
	}
	if arr.isApp("bytes_of") {
		return c.SubStr(arr.args[0], off, c.Add(off, n))
	}
	if arr.op == "store" {
		// a byte stored last, or outside the range
		d := c.Sub(arr.args[1], c.Add(off, n))
		if v, ok := d.intVal(); ok {
			if v >= 0 {
				return c.BytesStr(arr.args[0], off, n)
			}
			if v == -1 {
				if lo, _ := c.bounds(n); lo != nil && lo.Sign() > 0 {
					return c.Cat(c.BytesStr(arr.args[0], off, c.Sub(n, c.Int(1))), c.Chr(arr.args[2]))
				}
			}
		} else if lo, _ := c.bounds(d); lo != nil && lo.Cmp(big.NewInt(-1)) >= 0 {
			// a prefix of the bytes up to the one stored last
			m := c.Sub(c.Add(arr.args[1], c.Int(1)), off)
			if lo, _ := c.bounds(m); lo != nil && lo.Sign() > 0 {
				return c.SubStr(c.BytesStr(arr, off, m), c.Int(0), n)
			}
		}
		if v, ok := c.Sub(arr.args[1], off).intVal(); ok && v < 0 {
			return c.BytesStr(arr.args[0], off, n)
		}
	}
	if arr.op == "ite" {
		return c.Ite(arr.args[0], c.BytesStr(arr.args[1], off, n), c.BytesStr(arr.args[2], off, n))
	}
	return c.App("str_bytes", SStr, arr, off, n)
}

func (c *Ctx) RunesOf(s *Term) *Term {
	if s.isApp("str_runes") {
		if v, ok := s.args[1].intVal(); ok && v == 0 {
			return s.args[0]
		}
		a, off := s.args[0], s.args[1]
		t := c.App("shift_"+sanitize(string(SInt)), a.sort, a, off)
		if _, done := c.defs[t]; !done && !t.bound {
			v := c.BVar(SInt)
			c.Fact(t, c.Forall([]*Term{v}, c.mk(&Term{op: "=", sort: SBool, args: []*Term{
				c.mk(&Term{op: "select", sort: SInt, args: []*Term{t, v}}),
				c.mk(&Term{op: "select", sort: SInt, args: []*Term{a, c.Add(v, off)}})}})))
		}
		return t
	}
	return c.App("runes_of", arrSort(SInt, SInt), s)
}

func (c *Ctx) NRunes(s *Term) *Term {
	if s.isLit() {
		return c.Int(int64(len([]rune(s.name))))
	}
	if s.isApp("str_runes") {
		return s.args[2]
	}
	if s.op == "cat" {
		// only exact when every piece is valid UTF-8; assumed
		r := c.Int(0)
		for _, p := range s.args {
			r = c.Add(r, c.NRunes(p))
		}
		return r
	}
	t := c.App("nrunes", SInt, s)
	if t.lo == nil {
		t.lo = new(big.Int)
		c.Fact(t, c.Le(t, c.Len(s)), c.Eq(c.Eq(t, c.Int(0)), c.Eq(c.Len(s), c.Int(0))))
	}
	return t
}

func (c *Ctx) RunesStr(arr, off, n *Term) *Term {
	if v, ok := n.intVal(); ok && v == 0 {
		return c.Lit("")
	}
	if arr.isApp("runes_of") {
		if v, ok := off.intVal(); ok && v == 0 && n == c.NRunes(arr.args[0]) {
			return arr.args[0]
		}
	}
	t := c.App("str_runes", SStr, arr, off, n)
	return t
}

func (c *Ctx) strEq(a, b *Term) *Term {
	if a.isLit() && b.isLit() {
		return c.Bool(a.name == b.name)
	}
	pa, pb := append([]*Term{}, c.pieces(a)...), append([]*Term{}, c.pieces(b)...)
	// strip common prefix and suffix (free monoid cancellation)
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if x == y {
			pa, pb = pa[1:], pb[1:]
			continue
		}
		if x.isLit() && y.isLit() {
			n := 0
			for n < len(x.name) && n < len(y.name) && x.name[n] == y.name[n] {
				n++
			}
			if n < len(x.name) && n < len(y.name) {
				return c.False
			}
			if n == len(x.name) {
				pa = pa[1:]
			} else {
				pa[0] = c.Lit(x.name[n:])
			}
			if n == len(y.name) {
				pb = pb[1:]
			} else {
				pb[0] = c.Lit(y.name[n:])
			}
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[len(pa)-1], pb[len(pb)-1]
		if x == y {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			continue
		}
		if x.isLit() && y.isLit() {
			n := 0
			lx, ly := len(x.name), len(y.name)
			for n < lx && n < ly && x.name[lx-1-n] == y.name[ly-1-n] {
				n++
			}
			if n < lx && n < ly {
				return c.False
			}
			if n == lx {
				pa = pa[:len(pa)-1]
			} else {
				pa[len(pa)-1] = c.Lit(x.name[:lx-n])
			}
			if n == ly {
				pb = pb[:len(pb)-1]
			} else {
				pb[len(pb)-1] = c.Lit(y.name[:ly-n])
			}
			continue
		}
		break
	}
	// single-character pieces compare by code
	for len(pa) > 0 && len(pb) > 0 && pa[0].isApp("chr") && pb[0].isApp("chr") && len(pa) == 1 && len(pb) == 1 {
		return c.Eq(pa[0].args[0], pb[0].args[0])
	}
	// so do decimal numerals
	if len(pa) == 1 && len(pb) == 1 && pa[0].isApp("itoa") && pb[0].isApp("itoa") {
		return c.Eq(pa[0].args[0], pb[0].args[0])
	}
	x, y := c.Cat(pa...), c.Cat(pb...)
	if x == y {
		return c.True
	}
	if x.isLit() && y.isLit() {
		return c.Bool(x.name == y.name)
	}
	if x.id > y.id {
		x, y = y, x
	}
	// emptiness by length
	if x.isLit() && x.name == "" || y.isLit() && y.name == "" {
		z := x
		if x.isLit() {
			z = y
		}
		l := c.Len(z)
		if lo, _ := c.bounds(l); lo != nil && lo.Sign() > 0 {
			return c.False
		}
		eq := c.mk(&Term{op: "=", sort: SBool, args: []*Term{x, y}})
		if !z.bound {
			c.Fact(eq, c.mk(&Term{op: "=", sort: SBool, args: []*Term{eq, c.Eq(l, c.Int(0))}}))
		}
		return eq
	}
	return c.mk(&Term{op: "=", sort: SBool, args: []*Term{x, y}})
}
