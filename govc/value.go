package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// unsupported marks a construct outside the modelled subset; the
// obligations of the function become undischarged.
type unsupportedErr struct{ msg string }

func unsupported(msg string) unsupportedErr { return unsupportedErr{msg} }

type Value interface{}

type Ptr struct {
	ref  *Term // object reference (ordinary pointers)
	elem bool  // element of a slice/array: arr[idx].path
	arr  *Term
	idx  *Term
	root types.Type // element type of arr
	path string     // leaf path prefix inside the element
	typ  types.Type // pointee type
	fst  types.Type // non-nil: pointer to field fi of the struct of type fst at ref
	fi   int
}

type VSlice struct {
	arr, off, ln, cp *Term
	elem             types.Type
}

type VStruct struct {
	typ types.Type
	fs  []Value
}

type VArr struct { // array value: one content array per leaf of the element type
	typ    *types.Array
	leaves []*Term
}

type VIface struct {
	ref *Term
	dyn types.Type // known dynamic type or nil
	val Value      // known dynamic value or nil
}

type VTuple struct{ vs []Value }

type VFunc struct {
	fn   *ssa.Function
	bind []Value
	ref  *Term // opaque function value
	bi   *ssa.Builtin
}

type VIter struct {
	str  *Term // string iteration
	pos  int   // concrete position count for unrolled loops
	k    *Term
	m    *Term // map ref
	mt   *types.Map
	cell *Term // ghost cell holding k
}

type leaf struct {
	path string
	sort Sort
	typ  types.Type // Go type of the scalar (for bounds)
	kind string     // "", "arr","off","len","cap"
}

func under(t types.Type) types.Type { return t.Underlying() }

func scalarSort(t types.Type) (Sort, bool) {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool, true
		case u.Info()&types.IsInteger != 0:
			return SInt, true
		case u.Info()&types.IsFloat != 0:
			return SReal, true
		case u.Info()&types.IsString != 0:
			return SStr, true
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return SRef, true
		}
	case *types.Pointer, *types.Map, *types.Signature, *types.Interface, *types.Chan:
		return SRef, true
	}
	return "", false
}

// leavesOf flattens a type to scalar leaves (register or element form).
func leavesOf(t types.Type) []leaf {
	if s, ok := scalarSort(t); ok {
		return []leaf{{"", s, t, ""}}
	}
	switch u := under(t).(type) {
	case *types.Slice:
		return []leaf{{"#arr", SRef, t, "arr"}, {"#off", SInt, t, "off"}, {"#len", SInt, t, "len"}, {"#cap", SInt, t, "cap"}}
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leavesOf(u.Field(i).Type()) {
				out = append(out, leaf{fmt.Sprintf(".%s%s", u.Field(i).Name(), l.path), l.sort, l.typ, l.kind})
			}
		}
		return out
	case *types.Array:
		var out []leaf
		for _, l := range leavesOf(u.Elem()) {
			out = append(out, leaf{"[]" + l.path, arrSort(SInt, l.sort), l.typ, "content"})
		}
		return out
	}
	panic(unsupported("type " + t.String()))
}

func typeKey(t types.Type) string {
	if k, ok := typeKeys.Load(t); ok {
		return k.(string)
	}
	k := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	k = uint8Re.ReplaceAllString(k, "byte")
	k = int32Re.ReplaceAllString(k, "rune")
	typeKeys.Store(t, k)
	return k
}

var (
	typeKeys sync.Map
	uint8Re  = regexp.MustCompile(`\buint8\b`)
	int32Re  = regexp.MustCompile(`\bint32\b`)
)

// toLeaves decomposes a value of type t.
func (x *Exec) toLeaves(v Value, t types.Type) []*Term {
	if _, ok := scalarSort(t); ok {
		return []*Term{x.scalar(v)}
	}
	switch u := under(t).(type) {
	case *types.Slice:
		s := v.(*VSlice)
		return []*Term{s.arr, s.off, s.ln, s.cp}
	case *types.Struct:
		s, ok := v.(*VStruct)
		if !ok {
			panic(unsupported(fmt.Sprintf("struct value %T", v)))
		}
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, x.toLeaves(s.fs[i], u.Field(i).Type())...)
		}
		return out
	case *types.Array:
		return v.(*VArr).leaves
	}
	panic(unsupported("toLeaves " + t.String()))
}

// scalar turns a value into a single term.
func (x *Exec) scalar(v Value) *Term {
	switch a := v.(type) {
	case *Term:
		return a
	case *Ptr:
		if a.elem {
			r := x.c.App("elemref."+typeKey(a.root)+a.path, SRef, a.arr, a.idx)
			x.innerPtrs[r] = a
			if !r.bound {
				x.c.Fact(r, x.c.mk(&Term{op: "not", sort: SBool, args: []*Term{x.c.mk(&Term{op: "=", sort: SBool, args: []*Term{r, x.c.Null}})}}))
			}
			return r
		}
		if a.fst != nil {
			r := x.c.SubRef(a.ref, a.fi)
			x.innerPtrs[r] = a
			return r
		}
		return a.ref
	case *VIface:
		return a.ref
	case *VFunc:
		return x.funcRef(a)
	case nil:
		panic(unsupported("use of an undefined value"))
	}
	panic(unsupported(fmt.Sprintf("value %T used as scalar", v)))
}

func (x *Exec) funcRef(f *VFunc) *Term {
	if f.ref != nil {
		return f.ref
	}
	name := "func"
	if f.fn != nil {
		name = f.fn.String()
	}
	if len(f.bind) == 0 {
		f.ref = x.c.NamedSym("fn."+name, SRef)
		x.funcs[f.ref] = f
		x.c.Fact(f.ref, x.c.Not(x.c.Eq(f.ref, x.c.Null)))
		return f.ref
	}
	f.ref = x.c.Sym("closure", SRef)
	x.funcs[f.ref] = f
	x.c.Fact(f.ref, x.c.Not(x.c.Eq(f.ref, x.c.Null)))
	return f.ref
}

// fromLeaves composes a value of type t; returns the number consumed.
func (x *Exec) fromLeaves(ts []*Term, t types.Type) Value {
	v, n := x.fromLeavesN(ts, t)
	_ = n
	return v
}

func (x *Exec) fromScalar(tm *Term, t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Pointer:
		if p, ok := x.innerPtrs[tm]; ok {
			return p
		}
		if len(x.innerPtrs) > 0 && (tm.op == "ite" || tm.op == "select") && x.mentionsInner(tm) {
			panic(unsupported("choice between addresses of fields or elements"))
		}
		return &Ptr{ref: tm, typ: u.Elem()}
	case *types.Interface:
		return x.ifaceOf(tm)
	case *types.Signature:
		if f, ok := x.funcs[tm]; ok {
			return f
		}
		return &VFunc{ref: tm}
	}
	return tm
}

func (x *Exec) mentionsInner(t *Term) bool {
	if _, ok := x.innerPtrs[t]; ok {
		return true
	}
	if t.op != "ite" && t.op != "select" && t.op != "store" {
		return false
	}
	for _, a := range t.args {
		if x.mentionsInner(a) {
			return true
		}
	}
	return false
}

func (x *Exec) ifaceOf(tm *Term) *VIface {
	if b, ok := x.boxes[tm]; ok {
		return &VIface{ref: tm, dyn: b.typ, val: b.val}
	}
	if t, ok := x.objType[tm]; ok {
		return &VIface{ref: tm, dyn: types.NewPointer(t), val: &Ptr{ref: tm, typ: t}}
	}
	return &VIface{ref: tm}
}

func (x *Exec) fromLeavesN(ts []*Term, t types.Type) (Value, int) {
	if _, ok := scalarSort(t); ok {
		return x.fromScalar(ts[0], t), 1
	}
	switch u := under(t).(type) {
	case *types.Slice:
		return &VSlice{ts[0], ts[1], ts[2], ts[3], u.Elem()}, 4
	case *types.Struct:
		s := &VStruct{typ: t}
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			f, k := x.fromLeavesN(ts[n:], u.Field(i).Type())
			s.fs = append(s.fs, f)
			n += k
		}
		return s, n
	case *types.Array:
		k := len(leavesOf(t))
		return &VArr{typ: u, leaves: ts[:k:k]}, k
	}
	panic(unsupported("fromLeaves " + t.String()))
}

func (x *Exec) zeroTerm(s Sort) *Term {
	switch s {
	case SInt, SReal:
		return x.c.Num(new(big.Rat), s)
	case SBool:
		return x.c.False
	case SStr:
		return x.c.Lit("")
	case SRef:
		return x.c.Null
	}
	if s.isArr() {
		_, v := s.arrKV()
		return x.c.ConstArr(s, x.zeroTerm(v))
	}
	panic("zero of " + string(s))
}

func (x *Exec) zero(t types.Type) Value {
	ls := leavesOf(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = x.zeroTerm(l.sort)
	}
	return x.fromLeaves(ts, t)
}

func intBounds(t types.Type) (lo, hi *big.Int) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return nil, nil
	}
	switch b.Kind() {
	case types.Uint8:
		return big.NewInt(0), big.NewInt(255)
	case types.Uint16:
		return big.NewInt(0), big.NewInt(65535)
	case types.Uint32:
		return big.NewInt(0), new(big.Int).Sub(two(32), big.NewInt(1))
	case types.Uint, types.Uint64, types.Uintptr:
		return big.NewInt(0), new(big.Int).Sub(two(64), big.NewInt(1))
	case types.Int8:
		return big.NewInt(-128), big.NewInt(127)
	case types.Int16:
		return big.NewInt(-32768), big.NewInt(32767)
	case types.Int32:
		return new(big.Int).Neg(two(31)), new(big.Int).Sub(two(31), big.NewInt(1))
	case types.Int, types.Int64:
		return new(big.Int).Neg(two(63)), new(big.Int).Sub(two(63), big.NewInt(1))
	}
	return nil, nil
}

// typed attaches what the Go type says about a freshly introduced term.
func (x *Exec) typed(t *Term, l leaf, stamp int) *Term {
	if t.sort == SInt && l.kind == "" {
		if t.lo == nil && t.hi == nil {
			t.lo, t.hi = intBounds(l.typ)
		}
	}
	if t.sort == SInt && (l.kind == "len" || l.kind == "cap" || l.kind == "off") {
		t.lo = big.NewInt(0)
		t.hi = two(62)
	}
	if t.sort.isArr() && t.stamp == 0 && (strings.HasPrefix(t.op, "app:") || t.op == "sym") {
		t.stamp = stamp
	}
	if t.sort == SRef && t.op == "select" {
		if s := contentStamp(t.args[0]); s != 0 && s < stamp {
			stamp = s
		}
	}
	if t.sort == SRef && t.stamp == 0 {
		t.stamp = stamp
	}
	return t
}

// contentStamp: like refStamp, for all references an array holds.
func contentStamp(t *Term) int {
	max := func(a, b int) int {
		if a == 0 || b == 0 {
			return 0
		}
		if a > b {
			return a
		}
		return b
	}
	ref := func(r *Term) int {
		if r.op == "null" {
			return 1
		}
		return r.refStamp()
	}
	switch t.op {
	case "store":
		return max(contentStamp(t.args[0]), ref(t.args[2]))
	case "ite":
		return max(contentStamp(t.args[1]), contentStamp(t.args[2]))
	case "sym":
		return t.stamp
	}
	if strings.HasPrefix(t.op, "app:") {
		return t.stamp
	}
	return 0
}

// symbolic creates an arbitrary value of type t.
func (x *Exec) symbolic(st *State, name string, t types.Type) Value {
	ls := leavesOf(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		if l.kind == "off" {
			ts[i] = x.c.Int(0)
			continue
		}
		ts[i] = x.typed(x.c.Sym(name+l.path, l.sort), l, st.alloc)
		if l.kind == "len" {
			x.c.Fact(ts[i], x.c.Implies(x.c.Eq(ts[i-2], x.c.Null), x.c.Eq(ts[i], x.c.Int(0))))
		}
		if l.kind == "cap" {
			x.c.Fact(ts[i], x.c.Le(ts[i-1], ts[i]))
		}
		if l.kind == "content" {
			x.contentBounds(ts[i], l)
		}
	}
	return x.fromLeaves(ts, t)
}

// contentBounds: element ranges of a symbolic array.
func (x *Exec) contentBounds(a *Term, l leaf) { x.contentTyp[a] = l.typ }

// ite merges two values of type t.
func (x *Exec) iteVal(c *Term, a, b Value, t types.Type) Value {
	if a == b {
		return a
	}
	if tt, ok := t.(*types.Tuple); ok {
		av, bv := a.(*VTuple), b.(*VTuple)
		r := &VTuple{}
		for i := 0; i < tt.Len(); i++ {
			r.vs = append(r.vs, x.iteVal(c, av.vs[i], bv.vs[i], tt.At(i).Type()))
		}
		return r
	}
	if pa, ok := a.(*Ptr); ok && pa.elem {
		if pb, ok := b.(*Ptr); ok && pb.elem && pa.arr == pb.arr && pa.idx == pb.idx && pa.path == pb.path {
			return a
		}
	}
	la, lb := x.toLeaves(a, t), x.toLeaves(b, t)
	out := make([]*Term, len(la))
	for i := range la {
		out[i] = x.c.Ite(c, la[i], lb[i])
	}
	return x.fromLeaves(out, t)
}

// ---- heap

type chain struct {
	kind  int // 0 base, 1 write, 2 havoc-newer
	key   string
	sym   string
	leaf  leaf
	ref   *Term
	val   *Term
	prev  *chain
	stamp int // base/havoc: stamp for loaded refs
	since int // havoc: objects with id >= since may have changed; older keep prev
	depth int
}

func (x *Exec) getChain(st *State, key string, l leaf) *chain {
	if ch, ok := st.heap[key]; ok {
		return ch
	}
	ch, ok := x.bases[key]
	if !ok {
		ch = &chain{kind: 0, key: key, sym: "H." + key, leaf: l, stamp: x.preStamp}
		x.bases[key] = ch
	}
	st.heap[key] = ch
	return ch
}

func (x *Exec) readChain(st *State, ch *chain, ref *Term) *Term {
	c := x.c
	if ref.op == "sym" && strings.HasPrefix(ref.name, "GA.") && strings.HasPrefix(ch.key, "elem:") {
		if v := x.constElems()[ref]; v != nil {
			return v
		}
	}
	if ref.op == "ite" && (ref.args[1].op == "obj" || ref.args[2].op == "obj" || ref.args[1].op == "null" || ref.args[2].op == "null") {
		if ref.args[1].op == "null" {
			return x.readChain(st, ch, ref.args[2])
		}
		if ref.args[2].op == "null" {
			return x.readChain(st, ch, ref.args[1])
		}
		return c.Ite(ref.args[0], x.readChain(st, ch, ref.args[1]), x.readChain(st, ch, ref.args[2]))
	}
	var conds []*Term
	var vals []*Term
	cur := ch
	for {
		switch cur.kind {
		case 0:
			v := x.baseRead(cur, ref)
			for i := len(conds) - 1; i >= 0; i-- {
				v = c.Ite(conds[i], vals[i], v)
			}
			return v
		case 1:
			eq := c.Eq(ref, cur.ref)
			if eq == c.True || st.knows(eq) {
				v := cur.val
				for i := len(conds) - 1; i >= 0; i-- {
					v = c.Ite(conds[i], vals[i], v)
				}
				return v
			}
			ghost := x.ghostObjs[cur.ref] && ref.op != "ite" // no real reference leads to a snapshot
			if eq != c.False && !ghost && !apart(ref, cur.ref) && !st.knows(c.Not(eq)) {
				conds = append(conds, eq)
				vals = append(vals, cur.val)
				if len(conds) > 40 {
					panic(unsupported("too many possible aliases for " + cur.key))
				}
			}
			cur = cur.prev
		case 2:
			root := ref.refRoot()
			if root.op == "obj" {
				n, _ := root.args[0].intVal()
				if int(n) < cur.since {
					cur = cur.prev
					continue
				}
			} else if l := root.refLow(); l >= cur.since && cur.since > 0 && root.op != "null" {
				// may have changed
			} else if s := root.refStamp(); s != 0 && s <= cur.since && cur.since > 0 {
				cur = cur.prev
				continue
			}
			v := x.baseRead(cur, ref)
			for i := len(conds) - 1; i >= 0; i-- {
				v = c.Ite(conds[i], vals[i], v)
			}
			return v
		}
	}
}

func (x *Exec) baseRead(ch *chain, ref *Term) *Term {
	c := x.c
	l := ch.leaf
	if l.kind == "off" && !ref.bound {
		return c.Int(0)
	}
	if l.kind == "off" {
		return c.Int(0)
	}
	t := c.App(ch.sym, l.sort, ref)
	// what an object holds may be as young as the object
	stamp := ch.stamp
	root := ref.refRoot()
	if n, ok := x.madeBy[root]; ok {
		if n > stamp {
			stamp = n
		}
	} else if root.op != "obj" && root.op != "null" {
		if n := root.refStamp(); n > stamp {
			stamp = n
		}
	}
	x.typed(t, l, stamp)
	if l.kind == "len" && !ref.bound {
		base := strings.TrimSuffix(ch.key, "#len")
		if _, ok := x.bases[base+"#arr"]; ok {
			// arr symbol shares the naming scheme
			arr := c.App(strings.TrimSuffix(ch.sym, "#len")+"#arr", SRef, ref)
			if arr.stamp == 0 {
				arr.stamp = stamp
			}
			c.Fact(t, c.Implies(c.Eq(arr, c.Null), c.Eq(t, c.Int(0))))
		}
	}
	if l.kind == "cap" && !ref.bound {
		ln := c.App(strings.TrimSuffix(ch.sym, "#cap")+"#len", SInt, ref)
		ln.lo = big.NewInt(0)
		c.Fact(t, c.Le(ln, t))
	}
	if l.sort.isArr() {
		x.contentTyp[t] = l.typ
	}
	return t
}

// localRef: an object the specification function being unfolded made itself.
func (x *Exec) localRef(ref *Term) bool {
	root := ref.refRoot()
	if root.op != "obj" {
		return false
	}
	n, _ := root.args[0].intVal()
	return int(n) >= x.footSince
}

func (x *Exec) read(st *State, key string, l leaf, ref *Term) *Term {
	if x.footprint != nil && !x.localRef(ref) {
		x.footprint[key] = x.getChain(st, key, l)
	}
	return x.readChain(st, x.getChain(st, key, l), ref)
}

func (x *Exec) write(st *State, key string, l leaf, ref, val *Term) {
	ch := x.getChain(st, key, l)
	if val.sort != l.sort {
		panic(fmt.Sprintf("sort mismatch writing %s: %s vs %s", key, val.sort, l.sort))
	}
	if st.pure {
		root := ref.refRoot()
		n, _ := int64(0), false
		if root.op == "obj" {
			n, _ = root.args[0].intVal()
		}
		if root.op != "obj" || int(n) < st.pureSince {
			panic(unsupported("side effect in a specification"))
		}
	}
	st.writes = append(st.writes, wrec{key, ref, l, 0})
	if ch.kind == 1 && ch.ref == ref {
		ch = ch.prev
	}
	st.heap[key] = &chain{kind: 1, key: key, leaf: l, ref: ref, val: val, prev: ch, depth: ch.depth + 1}
}

// havocAll forgets everything known about key for objects with id >= since;
// op numbers the havoc operation, so that the parts of one slice stay linked.
func (x *Exec) havocAll(st *State, key string, l leaf, since int, op int) {
	ch := x.getChain(st, key, l)
	st.writes = append(st.writes, wrec{key, nil, l, since})
	base := strings.SplitN(key, "#", 2)
	sym := fmt.Sprintf("H.%s!h%d", base[0], op)
	if len(base) == 2 {
		sym += "#" + base[1]
	}
	st.heap[key] = &chain{kind: 2, key: key, sym: sym, leaf: l, prev: ch, stamp: st.alloc, since: since, depth: ch.depth + 1}
}

type wrec struct {
	key   string
	ref   *Term // nil: every object with id >= since
	l     leaf
	since int
}

// ---- typed memory access

func isArray(t types.Type) (*types.Array, bool) {
	a, ok := under(t).(*types.Array)
	return a, ok
}

// load reads a value of type p.typ at p.
func (x *Exec) load(st *State, p *Ptr) Value {
	if p.elem {
		ls := leavesOf(p.typ)
		ts := make([]*Term, len(ls))
		for i, l := range ls {
			content := x.elemContent(st, p.arr, p.root, p.path+l.path, l)
			ts[i] = x.sel(content, p.idx, l, st)
		}
		return x.fromLeaves(ts, p.typ)
	}
	if p.fst != nil {
		return x.loadField(st, p.ref, p.fst, p.fi)
	}
	return x.loadAt(st, p.ref, p.typ, "")
}

func (x *Exec) sel(content, idx *Term, l leaf, st *State) *Term {
	if l.kind == "off" {
		if content.op != "store" && content.op != "constarr" {
			return x.c.Int(0)
		}
	}
	t := x.c.Select(content, idx)
	if t.op == "select" {
		if o := x.older(st, t.args[0], idx); o != nil {
			return x.sel(o, idx, l, st)
		}
		x.typed(t, l, st.alloc)
		if l.kind == "cap" {
			// linked to len by naming only
		}
	}
	return t
}

// elemKey is the heap key of one leaf of the elements of slices of type elem.
func elemKey(elem types.Type, path string) string { return "elem:" + typeKey(elem) + path }

func (x *Exec) elemContent(st *State, arr *Term, elem types.Type, path string, l leaf) *Term {
	al := leaf{path, arrSort(SInt, l.sort), l.typ, "content"}
	if l.kind != "" && l.kind != "content" {
		al.typ = types.Typ[types.UnsafePointer]
	}
	return x.read(st, elemKey(elem, path), al, arr)
}

func (x *Exec) setElemContent(st *State, arr *Term, elem types.Type, path string, l leaf, v *Term) {
	al := leaf{path, arrSort(SInt, l.sort), l.typ, "content"}
	if l.kind != "" && l.kind != "content" {
		al.typ = types.Typ[types.UnsafePointer]
	}
	x.write(st, elemKey(elem, path), al, arr, v)
}

func (x *Exec) loadAt(st *State, ref *Term, t types.Type, _ string) Value {
	if s, ok := under(t).(*types.Struct); ok {
		v := &VStruct{typ: t}
		for i := 0; i < s.NumFields(); i++ {
			v.fs = append(v.fs, x.loadField(st, ref, t, i))
		}
		return v
	}
	if a, ok := isArray(t); ok {
		r := &VArr{typ: a}
		for _, l := range leavesOf(a.Elem()) {
			r.leaves = append(r.leaves, x.elemContent(st, ref, a.Elem(), l.path, l))
		}
		return r
	}
	return x.loadLeaves(st, "cell:"+typeKey(t), ref, t)
}

func (x *Exec) loadLeaves(st *State, key string, ref *Term, t types.Type) Value {
	ls := leavesOf(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = x.read(st, key+l.path, l, ref)
	}
	return x.fromLeaves(ts, t)
}

func fieldKey(structT types.Type, i int) string {
	s := under(structT).(*types.Struct)
	return typeKey(structT) + "." + s.Field(i).Name()
}

func (x *Exec) loadField(st *State, ref *Term, structT types.Type, i int) Value {
	s := under(structT).(*types.Struct)
	ft := s.Field(i).Type()
	if _, ok := under(ft).(*types.Struct); ok {
		return x.loadAt(st, x.c.SubRef(ref, i), ft, "")
	}
	if _, ok := isArray(ft); ok {
		return x.loadAt(st, x.c.SubRef(ref, i), ft, "")
	}
	return x.loadLeaves(st, fieldKey(structT, i), ref, ft)
}

func (x *Exec) store(st *State, p *Ptr, v Value) {
	if p.elem {
		ls := leavesOf(p.typ)
		ts := x.toLeaves(v, p.typ)
		for i, l := range ls {
			content := x.elemContent(st, p.arr, p.root, p.path+l.path, l)
			x.setElemContent(st, p.arr, p.root, p.path+l.path, l, x.c.Store(content, p.idx, ts[i]))
		}
		return
	}
	if p.fst != nil {
		x.storeField(st, p.ref, p.fst, p.fi, v)
		return
	}
	x.storeAt(st, p, p.ref, p.typ, v)
}

func (x *Exec) storeAt(st *State, p *Ptr, ref *Term, t types.Type, v Value) {
	if s, ok := under(t).(*types.Struct); ok {
		sv, ok := v.(*VStruct)
		if !ok {
			panic(unsupported(fmt.Sprintf("store of %T as struct", v)))
		}
		if typeKey(t) == "bytes.Buffer" { // its text is ghost state; only the empty buffer is ever assigned
			zs := x.toLeaves(x.zero(t), t)
			for i, l := range x.toLeaves(sv, t) {
				if l != zs[i] {
					panic(unsupported("copy of a bytes.Buffer"))
				}
			}
			x.write(st, "out", outLeaf, ref, x.c.Lit(""))
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			x.storeField(st, ref, t, i, sv.fs[i])
		}
		return
	}
	if a, ok := isArray(t); ok {
		av := v.(*VArr)
		for i, l := range leavesOf(a.Elem()) {
			x.setElemContent(st, ref, a.Elem(), l.path, l, av.leaves[i])
		}
		return
	}
	x.storeLeaves(st, "cell:"+typeKey(t), ref, t, v)
}

func (x *Exec) storeLeaves(st *State, key string, ref *Term, t types.Type, v Value) {
	ls := leavesOf(t)
	ts := x.toLeaves(v, t)
	for i, l := range ls {
		x.write(st, key+l.path, l, ref, ts[i])
	}
}

func (x *Exec) storeField(st *State, ref *Term, structT types.Type, i int, v Value) {
	s := under(structT).(*types.Struct)
	ft := s.Field(i).Type()
	if _, ok := under(ft).(*types.Struct); ok {
		x.storeAt(st, nil, x.c.SubRef(ref, i), ft, v)
		return
	}
	if _, ok := isArray(ft); ok {
		x.storeAt(st, nil, x.c.SubRef(ref, i), ft, v)
		return
	}
	x.storeLeaves(st, fieldKey(structT, i), ref, ft, v)
}
