package main

// Hash-consed SMT terms with light normalisation: polynomials over Int and
// Real, ropes over strings, references with allocation stamps.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort string

const (
	SInt  Sort = "Int"
	SReal Sort = "Real"
	SBool Sort = "Bool"
	SStr  Sort = "Str"
	SRef  Sort = "Ref"
)

func arrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// elem: what an array with a plain key holds.
func (s Sort) elem() Sort {
	t := strings.TrimSuffix(strings.TrimPrefix(string(s), "(Array "), ")")
	if i := strings.Index(t, " "); i >= 0 && !strings.HasPrefix(t, "(") {
		return Sort(t[i+1:])
	}
	return s
}

func (s Sort) isArr() bool { return strings.HasPrefix(string(s), "(Array ") }

// arrElem gives the value sort of an array sort.
func (s Sort) arrKV() (Sort, Sort) {
	body := string(s)[len("(Array ") : len(s)-1]
	depth := 0
	for i, c := range body {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(body[:i]), Sort(body[i+1:])
			}
		}
	}
	panic("bad array sort " + string(s))
}

type mono struct {
	c  *big.Rat
	fs []*Term // sorted by id, possibly repeated
}

type Term struct {
	id    int
	op    string // "sym","num","lit","true","false","poly", or SMT operator / function name
	args  []*Term
	sort  Sort
	name  string   // sym name, lit contents
	num   *big.Rat // num
	monos []mono   // poly
	// for Ref: every object this term may denote has allocation id < stamp (0 = unknown)
	stamp int
	// for Ref: every object this term may denote, if not null, has id >= low (0 = unknown)
	low int
	// creation index of the newest symbol inside
	newest int
	// inclusive bounds for Int terms when known
	lo, hi *big.Int
	// contains a bound (quantified) variable
	bound bool
	size  int
}

type funDecl struct {
	name string
	args []Sort
	ret  Sort
	idx  int
}

// Ctx is the term context of one verification task.
type Ctx struct {
	tab      map[string]*Term
	n        int
	symN     int
	objN     int
	funs     map[string]*funDecl
	funOrder []string
	lits     []*Term // string literals
	True     *Term
	False    *Term
	Null     *Term
	symDecl  []*Term
	axioms   []*Term           // global axioms (definitional facts on symbols), each valid on its own
	axSet    map[*Term]bool    // dedupe
	axFor    map[int][]*Term   // symbol/app id -> axioms attached
	defs     map[*Term][]*Term // term -> facts always true about it (emitted when term occurs)
	defs2    map[*Term][]*Term // second-tier facts (unfoldings of opaque functions)
}

func newCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, funs: map[string]*funDecl{}, axSet: map[*Term]bool{}, defs: map[*Term][]*Term{}, defs2: map[*Term][]*Term{}}
	c.True = c.mk(&Term{op: "true", sort: SBool})
	c.False = c.mk(&Term{op: "false", sort: SBool})
	c.Null = c.mk(&Term{op: "null", sort: SRef, stamp: 1})
	return c
}

func (c *Ctx) key(t *Term) string {
	var b strings.Builder
	b.WriteString(t.op)
	b.WriteByte('|')
	b.WriteString(string(t.sort))
	b.WriteByte('|')
	switch t.op {
	case "sym", "lit", "bvar":
		b.WriteString(t.name)
	case "num":
		b.WriteString(t.num.RatString())
	case "poly":
		for _, m := range t.monos {
			b.WriteString(m.c.RatString())
			for _, f := range m.fs {
				b.WriteByte('*')
				b.WriteString(strconv.Itoa(f.id))
			}
			b.WriteByte('+')
		}
	default:
		for _, a := range t.args {
			b.WriteString(strconv.Itoa(a.id))
			b.WriteByte(',')
		}
	}
	return b.String()
}

func (c *Ctx) mk(t *Term) *Term {
	k := c.key(t)
	if o, ok := c.tab[k]; ok {
		return o
	}
	c.n++
	t.id = c.n
	t.size = 1
	add := func(a *Term) {
		if a.newest > t.newest {
			t.newest = a.newest
		}
		if a.bound {
			t.bound = true
		}
		t.size += a.size
	}
	for _, a := range t.args {
		add(a)
	}
	for _, m := range t.monos {
		for _, a := range m.fs {
			add(a)
		}
	}
	if t.op == "bvar" {
		t.bound = true
	}
	c.tab[k] = t
	return t
}

// fresh symbol
func (c *Ctx) Sym(prefix string, s Sort) *Term {
	c.symN++
	t := c.mk(&Term{op: "sym", sort: s, name: fmt.Sprintf("%s!%d", sanitize(prefix), c.symN)})
	t.newest = c.symN
	c.symDecl = append(c.symDecl, t)
	return t
}

func (c *Ctx) NamedSym(name string, s Sort) *Term {
	k := c.key(&Term{op: "sym", sort: s, name: sanitize(name)})
	if o, ok := c.tab[k]; ok {
		return o
	}
	t := c.mk(&Term{op: "sym", sort: s, name: sanitize(name)})
	c.symDecl = append(c.symDecl, t)
	return t
}

func (c *Ctx) BVar(s Sort) *Term {
	c.symN++
	t := c.mk(&Term{op: "bvar", sort: s, name: fmt.Sprintf("q!%d", c.symN)})
	t.newest = c.symN
	return t
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) Num(r *big.Rat, s Sort) *Term {
	t := c.mk(&Term{op: "num", sort: s, num: new(big.Rat).Set(r)})
	return t
}
func (c *Ctx) Int(i int64) *Term       { return c.Num(new(big.Rat).SetInt64(i), SInt) }
func (c *Ctx) BigInt(i *big.Int) *Term { return c.Num(new(big.Rat).SetInt(i), SInt) }

func (t *Term) isNum() bool { return t.op == "num" }
func (t *Term) isLit() bool { return t.op == "lit" }
func (t *Term) intVal() (int64, bool) {
	if t.op == "num" && t.num.IsInt() && t.num.Num().IsInt64() {
		return t.num.Num().Int64(), true
	}
	return 0, false
}

// ---- arithmetic

func (c *Ctx) monosOf(t *Term) []mono {
	switch t.op {
	case "num":
		if t.num.Sign() == 0 {
			return nil
		}
		return []mono{{c: t.num}}
	case "poly":
		return t.monos
	}
	return []mono{{c: big.NewRat(1, 1), fs: []*Term{t}}}
}

func monoKey(fs []*Term) string {
	var b strings.Builder
	for _, f := range fs {
		b.WriteString(strconv.Itoa(f.id))
		b.WriteByte('*')
	}
	return b.String()
}

func (c *Ctx) fromMonos(ms []mono, s Sort) *Term {
	acc := map[string]*mono{}
	var keys []string
	for _, m := range ms {
		k := monoKey(m.fs)
		if e, ok := acc[k]; ok {
			e.c = new(big.Rat).Add(e.c, m.c)
		} else {
			acc[k] = &mono{c: new(big.Rat).Set(m.c), fs: m.fs}
			keys = append(keys, k)
		}
	}
	var out []mono
	for _, k := range keys {
		if acc[k].c.Sign() != 0 {
			out = append(out, *acc[k])
		}
	}
	if len(out) == 0 {
		return c.Num(new(big.Rat), s)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i].fs, out[j].fs
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k].id != b[k].id {
				return a[k].id < b[k].id
			}
		}
		return len(a) > len(b)
	})
	if len(out) == 1 && len(out[0].fs) == 0 {
		return c.Num(out[0].c, s)
	}
	if len(out) == 1 && len(out[0].fs) == 1 && out[0].c.Cmp(big.NewRat(1, 1)) == 0 {
		return out[0].fs[0]
	}
	return c.mk(&Term{op: "poly", sort: s, monos: out})
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.isNum() && a.num.Sign() == 0 {
		return b
	}
	if b.isNum() && b.num.Sign() == 0 {
		return a
	}
	ms := append(append([]mono{}, c.monosOf(a)...), c.monosOf(b)...)
	return c.fromMonos(ms, a.sort)
}

func (c *Ctx) Neg(a *Term) *Term { return c.Scale(a, big.NewRat(-1, 1)) }

func (c *Ctx) Scale(a *Term, r *big.Rat) *Term {
	var ms []mono
	for _, m := range c.monosOf(a) {
		ms = append(ms, mono{c: new(big.Rat).Mul(m.c, r), fs: m.fs})
	}
	return c.fromMonos(ms, a.sort)
}

func (c *Ctx) Sub(a, b *Term) *Term { return c.Add(a, c.Neg(b)) }

func (c *Ctx) Mul(a, b *Term) *Term {
	var ms []mono
	for _, x := range c.monosOf(a) {
		for _, y := range c.monosOf(b) {
			fs := append(append([]*Term{}, x.fs...), y.fs...)
			sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
			fs = c.cancelInv(fs)
			ms = append(ms, mono{c: new(big.Rat).Mul(x.c, y.c), fs: fs})
		}
	}
	return c.fromMonos(ms, a.sort)
}

// inv(x)*x is kept (x may be zero); nothing to cancel.
func (c *Ctx) cancelInv(fs []*Term) []*Term { return fs }

// RDiv is real division.
func (c *Ctx) RDiv(a, b *Term) *Term {
	if b.isNum() && b.num.Sign() != 0 {
		return c.Scale(a, new(big.Rat).Inv(b.num))
	}
	// normalise b to unit leading coefficient
	ms := c.monosOf(b)
	if len(ms) > 0 {
		lead := ms[0].c
		if lead.Cmp(big.NewRat(1, 1)) != 0 {
			nb := c.Scale(b, new(big.Rat).Inv(lead))
			return c.Scale(c.RDiv(a, nb), new(big.Rat).Inv(lead))
		}
	}
	inv := c.mk(&Term{op: "inv", sort: SReal, args: []*Term{b}})
	if _, ok := c.defs[inv]; !ok && !b.bound {
		c.defs[inv] = []*Term{c.Implies(c.Not(c.Eq(b, c.Num(new(big.Rat), SReal))), c.mk(&Term{op: "=", sort: SBool, args: []*Term{c.mk(&Term{op: "rawmul", sort: SReal, args: []*Term{inv, b}}), c.Num(big.NewRat(1, 1), SReal)}}))}
	}
	return c.Mul(a, inv)
}

func two(k uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), k) }

// bounds of Int term (best effort)
func (c *Ctx) bounds(t *Term) (lo, hi *big.Int) {
	switch t.op {
	case "num":
		if t.num.IsInt() {
			return t.num.Num(), t.num.Num()
		}
		return nil, nil
	case "mod":
		if t.args[1].isNum() {
			h := new(big.Int).Sub(t.args[1].num.Num(), big.NewInt(1))
			l0, h0 := c.bounds(t.args[0])
			if l0 != nil && h0 != nil && l0.Sign() >= 0 && h0.Cmp(h) < 0 {
				h = h0
			}
			return big.NewInt(0), h
		}
	case "div":
		if t.args[1].isNum() && t.args[1].num.Sign() > 0 {
			l, h := c.bounds(t.args[0])
			d := t.args[1].num.Num()
			var l2, h2 *big.Int
			if l != nil {
				l2 = floorDiv(l, d)
			}
			if h != nil {
				h2 = floorDiv(h, d)
			}
			return l2, h2
		}
	case "ite":
		l1, h1 := c.bounds(t.args[1])
		l2, h2 := c.bounds(t.args[2])
		var l, h *big.Int
		if l1 != nil && l2 != nil {
			l = l1
			if l2.Cmp(l1) < 0 {
				l = l2
			}
		}
		if h1 != nil && h2 != nil {
			h = h1
			if h2.Cmp(h1) > 0 {
				h = h2
			}
		}
		return l, h
	case "poly":
		lo, hi = new(big.Int), new(big.Int)
		for _, m := range t.monos {
			if !m.c.IsInt() {
				return nil, nil
			}
			ml, mh := big.NewInt(1), big.NewInt(1)
			if len(m.fs) == 1 {
				ml, mh = c.bounds(m.fs[0])
			} else if len(m.fs) > 1 {
				ml, mh = big.NewInt(1), big.NewInt(1)
				for _, f := range m.fs {
					l, h := c.bounds(f)
					if ml == nil || l == nil || l.Sign() < 0 {
						ml, mh = nil, nil
						break
					}
					ml = new(big.Int).Mul(ml, l)
					if h == nil || mh == nil {
						mh = nil
					} else {
						mh = new(big.Int).Mul(mh, h)
					}
				}
			}
			k := m.c.Num()
			if k.Sign() < 0 {
				ml, mh = mh, ml
			}
			if ml == nil || lo == nil {
				lo = nil
			} else {
				lo = new(big.Int).Add(lo, new(big.Int).Mul(k, ml))
			}
			if mh == nil || hi == nil {
				hi = nil
			} else {
				hi = new(big.Int).Add(hi, new(big.Int).Mul(k, mh))
			}
		}
		return lo, hi
	}
	return t.lo, t.hi
}

func floorDiv(a, b *big.Int) *big.Int { // b>0
	q, m := new(big.Int).DivMod(a, b, new(big.Int)) // Euclidean; b>0 => floor
	_ = m
	return q
}

// Mod is the Euclidean mod by a positive constant.
func (c *Ctx) Mod(a *Term, k *big.Int) *Term {
	if a.isNum() {
		return c.BigInt(new(big.Int).Mod(a.num.Num(), k))
	}
	lo, hi := c.bounds(a)
	if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(k) < 0 {
		return a
	}
	// reduce coefficients modulo k when single monomials
	if a.op == "poly" {
		var keep []mono
		changed := false
		for _, m := range a.monos {
			if m.c.IsInt() {
				r := new(big.Int).Mod(m.c.Num(), k)
				if r.Sign() == 0 {
					changed = true
					continue
				}
				if len(m.fs) == 1 && m.fs[0].op == "mod" && m.c.Cmp(big.NewRat(1, 1)) == 0 {
					// (x mod m2) with k | m2
					m2 := m.fs[0].args[1].num.Num()
					if new(big.Int).Mod(m2, k).Sign() == 0 {
						for _, mm := range c.monosOf(m.fs[0].args[0]) {
							keep = append(keep, mm)
						}
						changed = true
						continue
					}
				}
				// a div term: d*(x div d) with k... leave
			}
			keep = append(keep, m)
		}
		if changed {
			return c.Mod(c.fromMonos(keep, SInt), k)
		}
	}
	if a.op == "mod" {
		m2 := a.args[1].num.Num()
		if new(big.Int).Mod(m2, k).Sign() == 0 {
			return c.Mod(a.args[0], k)
		}
	}
	return c.mk(&Term{op: "mod", sort: SInt, args: []*Term{a, c.BigInt(k)}})
}

// FDiv is floor division by a positive constant.
func (c *Ctx) FDiv(a *Term, k *big.Int) *Term {
	if k.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if a.isNum() {
		return c.BigInt(floorDiv(a.num.Num(), k))
	}
	lo, hi := c.bounds(a)
	if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(k) < 0 {
		return c.Int(0)
	}
	if a.op == "div" { // (x div m) div k
		return c.FDiv(a.args[0], new(big.Int).Mul(a.args[1].num.Num(), k))
	}
	if a.op == "poly" {
		// split monomials divisible by k: floor((k*p + q)/k) = p + floor(q/k)
		var div, rest []mono
		for _, m := range a.monos {
			if m.c.IsInt() && new(big.Int).Mod(m.c.Num(), k).Sign() == 0 {
				div = append(div, mono{c: new(big.Rat).Quo(m.c, new(big.Rat).SetInt(k)), fs: m.fs})
			} else {
				rest = append(rest, m)
			}
		}
		if len(div) > 0 {
			p := c.fromMonos(div, SInt)
			if len(rest) == 0 {
				return p
			}
			return c.Add(p, c.FDiv(c.fromMonos(rest, SInt), k))
		}
	}
	if a.op == "mod" { // (x mod m) div k with k | m : (x div k) mod (m/k)
		m := a.args[1].num.Num()
		if new(big.Int).Mod(m, k).Sign() == 0 {
			return c.Mod(c.FDiv(a.args[0], k), new(big.Int).Div(m, k))
		}
	}
	return c.mk(&Term{op: "div", sort: SInt, args: []*Term{a, c.BigInt(k)}})
}

func (c *Ctx) ToReal(a *Term) *Term {
	if a.sort == SReal {
		return a
	}
	var ms []mono
	for _, m := range c.monosOf(a) {
		var fs []*Term
		for _, f := range m.fs {
			fs = append(fs, c.mk(&Term{op: "to_real", sort: SReal, args: []*Term{f}}))
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
		ms = append(ms, mono{c: m.c, fs: fs})
	}
	return c.fromMonos(ms, SReal)
}

// Trunc: real to int, toward zero.
func (c *Ctx) Trunc(a *Term) *Term {
	if a.isNum() {
		q := new(big.Int).Quo(a.num.Num(), a.num.Denom())
		return c.BigInt(q)
	}
	if a.op == "to_real" {
		return a.args[0]
	}
	zero := c.Num(new(big.Rat), SReal)
	fl := func(x *Term) *Term { return c.mk(&Term{op: "to_int", sort: SInt, args: []*Term{x}}) }
	return c.Ite(c.Le(zero, a), fl(a), c.Neg(fl(c.Neg(a))))
}

func (c *Ctx) Floor(a *Term) *Term {
	if a.isNum() {
		return c.BigInt(floorDiv(a.num.Num(), a.num.Denom()))
	}
	if a.op == "to_real" {
		return a.args[0]
	}
	return c.mk(&Term{op: "to_int", sort: SInt, args: []*Term{a}})
}

func (c *Ctx) cmp0(op string, d *Term) *Term { // d op 0
	if d.isNum() {
		s := d.num.Sign()
		if op == "<=" {
			return c.Bool(s <= 0)
		}
		return c.Bool(s < 0)
	}
	if d.sort == SInt {
		lo, hi := c.bounds(d)
		if op == "<=" {
			if hi != nil && hi.Sign() <= 0 {
				return c.True
			}
			if lo != nil && lo.Sign() > 0 {
				return c.False
			}
		} else {
			if hi != nil && hi.Sign() < 0 {
				return c.True
			}
			if lo != nil && lo.Sign() >= 0 {
				return c.False
			}
		}
	}
	ms := c.monosOf(d)
	// scale by |leading coeff|
	lead := new(big.Rat).Abs(ms[0].c)
	if lead.Cmp(big.NewRat(1, 1)) != 0 && (d.sort == SReal) {
		d = c.Scale(d, new(big.Rat).Inv(lead))
	}
	return c.mk(&Term{op: op, sort: SBool, args: []*Term{d, c.Num(new(big.Rat), d.sort)}})
}

func (c *Ctx) Le(a, b *Term) *Term {
	d := c.Sub(a, b)
	return c.cmp0("<=", d)
}
func (c *Ctx) Lt(a, b *Term) *Term {
	if a.sort == SInt {
		return c.Le(c.Add(a, c.Int(1)), b)
	}
	return c.cmp0("<", c.Sub(a, b))
}

// ---- booleans

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return c.False
	case "false":
		return c.True
	case "not":
		return a.args[0]
	case "<=":
		if a.args[0].sort == SInt {
			// not (d<=0)  ==  1-d <= 0
			return c.cmp0("<=", c.Sub(c.Int(1), a.args[0]))
		}
		return c.cmp0("<", c.Neg(a.args[0]))
	case "<":
		return c.cmp0("<=", c.Neg(a.args[0]))
	}
	return c.mk(&Term{op: "not", sort: SBool, args: []*Term{a}})
}

func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(a *Term) bool
	rec = func(a *Term) bool {
		if a == c.True || seen[a] {
			return true
		}
		if a == c.False || seen[c.Not(a)] {
			return false
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !rec(x) {
					return false
				}
			}
			return true
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !rec(a) {
			return c.False
		}
	}
	if len(out) == 0 {
		return c.True
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{op: "and", sort: SBool, args: out})
}

func (c *Ctx) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(a *Term) bool
	rec = func(a *Term) bool {
		if a == c.False || seen[a] {
			return true
		}
		if a == c.True || seen[c.Not(a)] {
			return false
		}
		if a.op == "or" {
			for _, x := range a.args {
				if !rec(x) {
					return false
				}
			}
			return true
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !rec(a) {
			return c.True
		}
	}
	if len(out) == 0 {
		return c.False
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{op: "or", sort: SBool, args: out})
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond == c.True || a == b {
		return a
	}
	if cond == c.False {
		return b
	}
	if cond.op == "not" {
		return c.Ite(cond.args[0], b, a)
	}
	if a.sort == SBool {
		if a == c.True && b == c.False {
			return cond
		}
		if a == c.False && b == c.True {
			return c.Not(cond)
		}
		if a == c.True {
			return c.Or(cond, b)
		}
		if b == c.False {
			return c.And(cond, a)
		}
		if a == c.False {
			return c.And(c.Not(cond), b)
		}
		if b == c.True {
			return c.Or(c.Not(cond), a)
		}
	}
	// collapse nested with same condition
	if a.op == "ite" && a.args[0] == cond {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == cond {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	t := c.mk(&Term{op: "ite", sort: a.sort, args: []*Term{cond, a, b}})
	if a.sort == SRef && t.stamp == 0 {
		t.stamp = maxStamp(a, b)
	}
	return t
}

func maxStamp(a, b *Term) int {
	sa, sb := a.refStamp(), b.refStamp()
	if sa == 0 || sb == 0 {
		return 0
	}
	if sa > sb {
		return sa
	}
	return sb
}

func (t *Term) refStamp() int {
	switch t.op {
	case "obj":
		n, _ := t.args[0].intVal()
		return int(n) + 1
	case "sub":
		return t.args[0].refStamp()
	case "ite":
		if t.stamp != 0 {
			return t.stamp
		}
		m := 0
		for _, a := range t.args[1:] {
			s := a.refStamp()
			if a.op == "null" {
				s = 1
			}
			if s == 0 {
				return 0
			}
			if s > m {
				m = s
			}
		}
		return m
	}
	return t.stamp
}

// refLow: a lower bound for the ids of the objects t may denote, 0 if unknown.
func (t *Term) refLow() int {
	switch t.op {
	case "obj":
		n, _ := t.args[0].intVal()
		return int(n)
	case "null":
		return 1 << 40
	case "sub":
		return t.args[0].refLow()
	case "ite":
		a, b := t.args[1].refLow(), t.args[2].refLow()
		if b < a {
			a = b
		}
		return a
	}
	return t.low
}

// apart: an object t and a written object w cannot be the same.
func apart(t, w *Term) bool {
	if s, l := w.refStamp(), t.refLow(); s != 0 && l >= s && t.op != "null" {
		return true
	}
	if s, l := t.refStamp(), w.refLow(); s != 0 && l >= s && w.op != "null" {
		return true
	}
	return false
}

// refRoot strips sub().
func (t *Term) refRoot() *Term {
	for t.op == "sub" {
		t = t.args[0]
	}
	return t
}

func (c *Ctx) Obj(id int) *Term {
	return c.mk(&Term{op: "obj", sort: SRef, args: []*Term{c.Int(int64(id))}})
}
func (c *Ctx) SubRef(base *Term, fld int) *Term {
	t := c.mk(&Term{op: "sub", sort: SRef, args: []*Term{base, c.Int(int64(fld))}})
	return t
}

// refDistinct: provably different objects.
func (c *Ctx) refDistinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.op == "null" && (b.op == "obj" || b.op == "sub") || b.op == "null" && (a.op == "obj" || a.op == "sub") {
		return true
	}
	if a.op == "obj" && b.op == "obj" {
		return true
	}
	if a.op == "sub" && b.op == "sub" {
		if a.args[1] != b.args[1] {
			return true
		}
		return c.refDistinct(a.args[0], b.args[0])
	}
	if a.op == "obj" && b.op == "sub" || a.op == "sub" && b.op == "obj" {
		return true
	}
	ra, rb := a.refRoot(), b.refRoot()
	if ra.op == "obj" && rb.op != "obj" {
		n, _ := ra.args[0].intVal()
		if s := rb.refStamp(); s != 0 && int(n) >= s {
			return true
		}
	}
	if rb.op == "obj" && ra.op != "obj" {
		n, _ := rb.args[0].intVal()
		if s := ra.refStamp(); s != 0 && int(n) >= s {
			return true
		}
	}
	if a.op == "ite" && !(b.op == "ite") {
		return c.refDistinct(a.args[1], b) && c.refDistinct(a.args[2], b)
	}
	if b.op == "ite" && !(a.op == "ite") {
		return c.refDistinct(a, b.args[1]) && c.refDistinct(a, b.args[2])
	}
	return false
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.sort != b.sort {
		if a.sort == SInt && b.sort == SReal {
			a = c.ToReal(a)
		} else if b.sort == SInt && a.sort == SReal {
			b = c.ToReal(b)
		} else {
			panic(unsupported(fmt.Sprintf("equality between sorts %s and %s", a.sort, b.sort)))
		}
	}
	switch a.sort {
	case SBool:
		if a == c.True {
			return b
		}
		if b == c.True {
			return a
		}
		if a == c.False {
			return c.Not(b)
		}
		if b == c.False {
			return c.Not(a)
		}
		if a == c.Not(b) {
			return c.False
		}
	case SInt, SReal:
		d := c.Sub(a, b)
		if d.isNum() {
			return c.Bool(d.num.Sign() == 0)
		}
		if d.sort == SInt {
			lo, hi := c.bounds(d)
			if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
				return c.False
			}
		}
		// x == const over an ite of constants
		// split sides: positive monomials left, negative right
		ms := c.monosOf(d)
		if ms[0].c.Sign() < 0 {
			d = c.Neg(d)
			ms = c.monosOf(d)
		}
		if d.sort == SReal {
			lead := ms[0].c
			if lead.Cmp(big.NewRat(1, 1)) != 0 {
				d = c.Scale(d, new(big.Rat).Inv(lead))
				ms = c.monosOf(d)
			}
		}
		var l, r []mono
		for _, m := range ms {
			if m.c.Sign() > 0 {
				l = append(l, m)
			} else {
				r = append(r, mono{c: new(big.Rat).Neg(m.c), fs: m.fs})
			}
		}
		lt, rt := c.fromMonos(l, d.sort), c.fromMonos(r, d.sort)
		if lt.op == "ite" && rt.isNum() {
			return c.iteEq(lt, rt)
		}
		return c.mk(&Term{op: "=", sort: SBool, args: []*Term{lt, rt}})
	case SRef:
		if c.refDistinct(a, b) {
			return c.False
		}
		if a.op == "sub" && b.op == "sub" && a.args[1] == b.args[1] {
			return c.Eq(a.args[0], b.args[0])
		}
		if a.op == "ite" && (b.op == "null" || b.op == "obj") {
			return c.iteEq(a, b)
		}
		if b.op == "ite" && (a.op == "null" || a.op == "obj") {
			return c.iteEq(b, a)
		}
	case SStr:
		return c.strEq(a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: "=", sort: SBool, args: []*Term{a, b}})
}

func (c *Ctx) iteEq(a, b *Term) *Term {
	return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
}

// ---- functions

func (c *Ctx) declFun(name string, args []Sort, ret Sort) {
	if _, ok := c.funs[name]; !ok {
		c.funs[name] = &funDecl{name: name, args: args, ret: ret}
		c.funOrder = append(c.funOrder, name)
	}
}

// App applies an uninterpreted function.
func (c *Ctx) App(name string, ret Sort, args ...*Term) *Term {
	name = sanitize(name)
	if f, ok := c.funs[name]; ok {
		if len(f.args) != len(args) {
			name = fmt.Sprintf("%s_%d", name, len(args))
		} else {
			for i := range args {
				if f.args[i] != args[i].sort {
					var sfx []string
					for _, a := range args {
						sfx = append(sfx, sanitize(string(a.sort)))
					}
					name = name + "_" + strings.Join(sfx, "_")
					break
				}
			}
		}
	}
	if _, ok := c.funs[name]; !ok {
		var ss []Sort
		for _, a := range args {
			ss = append(ss, a.sort)
		}
		c.declFun(name, ss, ret)
	}
	if c.funs[name].ret != ret {
		panic("function " + name + " with two result sorts")
	}
	return c.mk(&Term{op: "app:" + name, sort: ret, args: args})
}

func (t *Term) isApp(name string) bool { return t.op == "app:"+name }

// Fact attaches an always-true fact to a term; it is emitted with every
// query in which the term occurs.
func (c *Ctx) Fact(t *Term, facts ...*Term) {
	for _, f := range facts {
		if f == c.True {
			continue
		}
		dup := false
		for _, e := range c.defs[t] {
			if e == f {
				dup = true
			}
		}
		if !dup {
			c.defs[t] = append(c.defs[t], f)
		}
	}
}

func (c *Ctx) Select(a, i *Term) *Term {
	_, v := a.sort.arrKV()
	for {
		if a.op == "store" {
			if a.args[1] == i {
				return a.args[2]
			}
			if c.definitelyNe(a.args[1], i) {
				a = a.args[0]
				continue
			}
		}
		if a.op == "constarr" {
			return a.args[0]
		}
		break
	}
	if a.op == "ite" && a.size < 200 {
		return c.Ite(a.args[0], c.Select(a.args[1], i), c.Select(a.args[2], i))
	}
	return c.mk(&Term{op: "select", sort: v, args: []*Term{a, i}})
}

func (c *Ctx) definitelyNe(a, b *Term) bool {
	if a == b {
		return false
	}
	return c.Eq(a, b) == c.False
}

func (c *Ctx) Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	return c.mk(&Term{op: "store", sort: a.sort, args: []*Term{a, i, v}})
}

func (c *Ctx) ConstArr(s Sort, v *Term) *Term {
	return c.mk(&Term{op: "constarr", sort: s, args: []*Term{v}})
}

// Forall over Int/other bound variables.
func (c *Ctx) Forall(vars []*Term, body *Term) *Term {
	if !body.bound || body == c.True || body == c.False {
		return body
	}
	args := append(append([]*Term{}, vars...), body)
	t := c.mk(&Term{op: "forall", sort: SBool, args: args})
	// still "bound" only if other bvars occur
	t.bound = c.hasOtherBVars(body, vars)
	return t
}

func (c *Ctx) hasOtherBVars(t *Term, vars []*Term) bool {
	seen := map[*Term]bool{}
	ex := map[*Term]bool{}
	for _, v := range vars {
		ex[v] = true
	}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if !x.bound || seen[x] {
			return false
		}
		seen[x] = true
		if x.op == "bvar" {
			return !ex[x]
		}
		if x.op == "forall" {
			return false
		}
		for _, a := range x.args {
			if rec(a) {
				return true
			}
		}
		for _, m := range x.monos {
			for _, a := range m.fs {
				if rec(a) {
					return true
				}
			}
		}
		return false
	}
	return rec(t)
}

// Subst replaces symbols (pointer identity) in t.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(x *Term) *Term
	rec = func(x *Term) *Term {
		if r, ok := m[x]; ok {
			return r
		}
		if len(x.args) == 0 && len(x.monos) == 0 {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		var r *Term
		if x.op == "poly" {
			r = c.Num(new(big.Rat), x.sort)
			for _, mo := range x.monos {
				p := c.Num(mo.c, x.sort)
				for _, f := range mo.fs {
					p = c.Mul(p, rec(f))
				}
				r = c.Add(r, p)
			}
		} else {
			as := make([]*Term, len(x.args))
			ch := false
			for i, a := range x.args {
				as[i] = rec(a)
				if as[i] != a {
					ch = true
				}
			}
			if !ch {
				r = x
			} else {
				r = c.rebuild(x, as)
				if r.op == x.op && r.op != "poly" {
					if r.stamp == 0 {
						r.stamp = x.stamp
					}
					if r.low == 0 {
						r.low = x.low
					}
					if r.lo == nil && r.hi == nil && !r.isNum() {
						r.lo, r.hi = x.lo, x.hi
					}
				}
			}
		}
		memo[x] = r
		return r
	}
	return rec(t)
}

func (c *Ctx) rebuild(x *Term, as []*Term) *Term {
	switch x.op {
	case "not":
		return c.Not(as[0])
	case "and":
		return c.And(as...)
	case "or":
		return c.Or(as...)
	case "ite":
		return c.Ite(as[0], as[1], as[2])
	case "=":
		return c.Eq(as[0], as[1])
	case "<=":
		return c.Le(as[0], as[1])
	case "<":
		return c.Lt(as[0], as[1])
	case "select":
		return c.Select(as[0], as[1])
	case "store":
		return c.Store(as[0], as[1], as[2])
	case "cat":
		return c.Cat(as...)
	case "mod":
		if as[1].num != nil {
			return c.Mod(as[0], as[1].num.Num())
		}
	case "div":
		if as[1].num != nil {
			return c.FDiv(as[0], as[1].num.Num())
		}
	case "to_real":
		return c.ToReal(as[0])
	case "inv":
		return c.RDiv(c.Num(big.NewRat(1, 1), SReal), as[0])
	}
	if x.isApp("slen") {
		return c.Len(as[0])
	}
	n := &Term{op: x.op, sort: x.sort, args: as, stamp: x.stamp, low: x.low, lo: x.lo, hi: x.hi}
	return c.mk(n)
}

// contains reports whether sub occurs in t.
func contains(t, sub *Term) bool {
	seen := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if x == sub {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, a := range x.args {
			if rec(a) {
				return true
			}
		}
		for _, m := range x.monos {
			for _, a := range m.fs {
				if rec(a) {
					return true
				}
			}
		}
		return false
	}
	return rec(t)
}

// size counts nodes, up to a limit.
func (t *Term) nodes(limit int) int {
	n := 0
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if n >= limit || seen[t] {
			return
		}
		seen[t] = true
		n++
		for _, a := range t.args {
			walk(a)
		}
		for _, m := range t.monos {
			for _, f := range m.fs {
				walk(f)
			}
		}
	}
	walk(t)
	return n
}
