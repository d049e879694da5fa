package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var outLeaf = leaf{"", SStr, types.Typ[types.String], ""}
var errLeaf = leaf{"", SBool, types.Typ[types.Bool], ""}

// variadic elements of a []interface{} argument
func (x *Exec) variadic(st *State, v Value) []Value {
	s := v.(*VSlice)
	if s.arr == x.c.Null {
		return nil
	}
	n, ok := s.ln.intVal()
	if !ok {
		panic(unsupported("variadic call with unknown number of arguments"))
	}
	var out []Value
	for i := int64(0); i < n; i++ {
		p := &Ptr{elem: true, arr: s.arr, idx: x.c.Add(s.off, x.c.Int(i)), root: s.elem, typ: s.elem}
		out = append(out, x.load(st, p))
	}
	return out
}

func strArg(v Value) string {
	t := v.(*Term)
	if !t.isLit() {
		panic(unsupported("label must be a literal"))
	}
	return t.name
}

// harnessFrame is the innermost frame with a contract role.
func (st *State) roleFrame() *Frame {
	for i := len(st.frames) - 1; i >= 0; i-- {
		if st.frames[i].mode != mCode {
			return st.frames[i]
		}
	}
	return nil
}

func (x *Exec) intrinsic(st *State, f *Frame, bind ssa.Value, fn *ssa.Function, args []Value, pos token.Pos) *State {
	c := x.c
	set := func(v Value) *State {
		if bind != nil {
			f.env[bind] = v
		}
		if st.dead {
			return nil
		}
		return st
	}
	rf := st.roleFrame()
	name := fn.Name()
	switch name {
	case "v_requires":
		t := x.scalar(args[0])
		if rf != nil && rf.mode == mApply {
			x.obligation(st, "requires:"+rf.h.targetName+"@"+x.w.callerName(st, rf), t)
		}
		x.assume(st, t)
		return set(nil)
	case "v_assume":
		x.task.noteAssume(rf, x.w.at(pos))
		x.assume(st, x.scalar(args[0]))
		return set(nil)
	case "v_ensures", "v_assert":
		t := x.scalar(args[1])
		if rf == nil || rf.mode == mVerify {
			x.obligation(st, strArg(args[0]), t)
		} else if rf.mode == mInvAssert || rf.mode == mInvAssume {
			panic(unsupported("ensures in an invariant"))
		}
		if rf != nil && rf.mode == mApply && rf.ap.syms != nil {
			x.learn(st, rf, t)
		} else {
			x.assume(st, t)
		}
		return set(nil)
	case "v_inv":
		t := x.scalar(args[0])
		if rf.mode == mInvAssert {
			x.obligation(st, fmt.Sprintf("loop%d of %s:%s", rf.lc.l.ord, fnName(rf.lc.l.header.Parent()), rf.label), t)
		}
		x.assume(st, t)
		return set(nil)
	case "v_decr":
		t := x.scalar(args[0])
		if rf.lc == nil { // a lemma
			if rf.mode == mVerify {
				rf.ap.measure = t
				return set(nil)
			}
			for _, g := range st.frames {
				if g.mode == mVerify && g.fn == rf.fn {
					x.obligation(st, "induction of "+rf.fn.Name(), c.And(c.Le(c.Int(0), t), c.Lt(t, g.ap.measure)))
				}
			}
			return set(nil)
		}
		lf := st.frames[rf.lc.frameIx]
		switch {
		case rf.mode == mInvAssume:
			n := len(lf.loops)
			cp := *lf.loops[n-1]
			cp.measure = t
			lf.loops[n-1] = &cp
		case rf.mode == mInvAssert && rf.label == "preserved" && rf.lc.measure != nil:
			x.obligation(st, fmt.Sprintf("loop%d of %s:terminates", rf.lc.l.ord, fnName(rf.lc.l.header.Parent())),
				c.And(c.Le(c.Int(0), rf.lc.measure), c.Lt(t, rf.lc.measure)))
		}
		return set(nil)
	case "v_proof":
		if rf.mode != mVerify {
			return set(nil)
		}
		fv := args[0].(*VFunc)
		return x.push(st, fv.fn, fv.bind, nil, nil, nil)
	case "v_nopanic":
		if rf != nil && rf.mode == mVerify {
			st.nopanic = true
		}
		return set(nil)
	case "v_modifies":
		for _, v := range x.variadic(st, args[0]) {
			iv := v.(*VIface)
			m := modItem{}
			switch val := iv.val.(type) {
			case *Ptr:
				m.p = val
			case *VSlice:
				m.elems = val
			case *Term:
				mt, ok := under(iv.dyn).(*types.Map)
				if !ok {
					panic(unsupported("v_modifies argument"))
				}
				m.m, m.mt = val, mt
			default:
				panic(unsupported(fmt.Sprintf("v_modifies argument %T", iv.val)))
			}
			f.ap.mods = append(f.ap.mods, m)
		}
		return set(nil)
	case "v_modOut":
		iv := args[0].(*VIface)
		f.ap.mods = append(f.ap.mods, modItem{out: iv})
		return set(nil)
	case "v_modAll": // every location whose heap key has the given prefix
		f.ap.mods = append(f.ap.mods, modItem{keyAll: strArg(args[0])})
		return set(nil)
	case "v_freshResult":
		k, _ := x.scalar(args[0]).intVal()
		if f.ap.fresh == nil {
			f.ap.fresh = map[int]bool{}
		}
		nf := map[int]bool{int(k): true}
		for a := range f.ap.fresh {
			nf[a] = true
		}
		f.ap.fresh = nf
		return set(nil)
	case "v_out":
		return x.outOf(st, f, bind, args[0].(*VIface))
	case "v_failed":
		iv := args[0].(*VIface)
		if x.neverFails(iv) {
			return set(c.False)
		}
		if iv.dyn != nil {
			if g := x.w.ghostFails[typeKey(iv.dyn)]; g != nil {
				return set(x.pureCall(st, g, nil, []Value{iv.val}))
			}
		}
		return set(x.read(st, "werr", errLeaf, iv.ref))
	case "v_forall", "v_exists", "v_forallInt", "v_forallRune", "v_forallStr", "v_forallUint":
		var lo, hi *Term
		var cl *VFunc
		srt := SInt
		if name == "v_forall" || name == "v_exists" {
			lo, hi = x.scalar(args[0]), x.scalar(args[1])
			cl = args[2].(*VFunc)
		} else {
			cl = args[0].(*VFunc)
			if name == "v_forallStr" {
				srt = SStr
			}
		}
		// small concrete ranges are expanded
		if lo != nil {
			a, ok1 := lo.intVal()
			b, ok2 := hi.intVal()
			if ok1 && ok2 && b-a <= 24 {
				r := c.Bool(name == "v_forall")
				for i := a; i < b; i++ {
					t := x.scalar(x.pureCall(st, cl.fn, cl.bind, []Value{c.Int(i)}))
					if name == "v_forall" {
						r = c.And(r, t)
					} else {
						r = c.Or(r, t)
					}
				}
				return set(r)
			}
		}
		v := c.BVar(srt)
		if srt == SInt && lo == nil {
			lo0, hi0 := intBounds(cl.fn.Params[0].Type())
			v.lo, v.hi = lo0, hi0
		}
		s2 := st
		rng := c.True
		if lo != nil {
			rng = c.And(c.Le(lo, v), c.Lt(v, hi))
		}
		body := x.scalar(x.pureCallUnder(s2, cl.fn, cl.bind, []Value{v}, rng))
		if lo == nil && v.lo != nil {
			rng = c.And(c.mk(&Term{op: "rawle", sort: SBool, args: []*Term{c.BigInt(v.lo), v}}), c.mk(&Term{op: "rawle", sort: SBool, args: []*Term{v, c.BigInt(v.hi)}}))
		}
		if name == "v_exists" {
			return set(c.Not(c.Forall([]*Term{v}, c.Implies(rng, c.Not(body)))))
		}
		return set(c.Forall([]*Term{v}, c.Implies(rng, body)))
	case "v_entryStr", "v_entryInt", "v_entryF64", "v_entryBool":
		cl := args[0].(*VFunc)
		var entry *State // of the loop, or of the function under contract
		if rf.lc != nil {
			entry = rf.lc.entry
		} else if rf.ap != nil && rf.ap.entry != nil {
			entry = rf.ap.entry
		} else {
			panic(unsupported(name + " before the call under contract"))
		}
		s2 := st.clone()
		s2.heap = map[string]*chain{}
		for k, v := range entry.heap {
			s2.heap[k] = v
		}
		// locals of the invariant function itself live above the entry heap
		for k, v := range st.heap {
			if strings.HasPrefix(k, "cell:") {
				s2.heap[k] = v
			}
		}
		return set(x.pureCall(s2, cl.fn, cl.bind, nil))
	case "v_runeOff":
		return set(x.runeOff(x.scalar(args[0]), x.scalar(args[1])))
	case "v_eqF", "v_eqText":
		return set(c.Eq(x.scalar(args[0]), x.scalar(args[1])))
	case "v_expr":
		cl := args[0].(*VFunc)
		return set(x.pureCall(st.clone(), cl.fn, cl.bind, nil))
	case "v_lazy": // the second where the first holds
		a := x.scalar(args[0])
		if a == c.False {
			return set(c.True)
		}
		s2 := st.clone()
		x.assume(s2, a)
		if s2.dead {
			return set(c.True)
		}
		cl := args[1].(*VFunc)
		return set(c.Implies(a, x.scalar(x.pureCall(s2, cl.fn, cl.bind, nil))))
	case "v_implies":
		return set(c.Implies(x.scalar(args[0]), x.scalar(args[1])))
	case "v_iff":
		return set(c.Eq(x.scalar(args[0]), x.scalar(args[1])))
	case "v_sameRef": // both are, or point to, the same object
		return set(c.Eq(args[0].(*VIface).ref, args[1].(*VIface).ref))
	case "v_isFresh": // the object was allocated by the call under contract
		return set(x.isFresh(st, rf, args[0].(*VIface)))
	case "v_written": // the text the object with this number wrote (each number is written once)
		return set(c.App("written", SStr, x.scalar(args[0])))
	case "v_appended": // out is before and then v_written(id); proved of a write when out extends before
		out, before := x.scalar(args[0]), x.scalar(args[1])
		if rf == nil || rf.mode == mVerify {
			return set(c.App("v_extends", SBool, out, before))
		}
		return set(c.Eq(out, c.Cat(before, c.App("written", SStr, x.scalar(args[2])))))
	case "v_extends": // out starts with before
		return set(c.App("v_extends", SBool, x.scalar(args[0]), x.scalar(args[1])))
	case "v_some": // any text (in obligations only, each tag once)
		return set(c.App("v_some", SStr, x.scalar(args[0])))
	case "v_md5":
		return set(c.App("md5", SStr, x.scalar(args[0])))
	case "v_rc4":
		return set(x.rc4s(x.scalar(args[0]), c.Lit(""), x.scalar(args[1])))
	case "v_deflate":
		return set(c.App("deflate", SStr, x.scalar(args[0]), x.scalar(args[1])))
	case "v_fileContent":
		return set(c.App("fileContent", SStr, x.scalar(args[0])))
	case "v_callStr": // what the last call of the function by this name returned; for lemmas only
		for r := st.calls; r != nil; r = r.prev {
			if r.name == strArg(args[0]) && len(r.res) > 0 {
				if t, ok := r.res[0].(*Term); ok && t.sort == SStr {
					return set(t)
				}
			}
		}
		return set(c.Sym("nocall", SStr))
	case "v_loopCount":
		return set(rf.lc.k)
	}
	if mt, ok := under(fn.Params[0].Type()).(*types.Map); ok && strings.HasPrefix(name, "v_snap") {
		m := x.scalar(args[0])
		r := x.newObj(st, nil)
		x.ghostObjs[r] = true
		x.mapInit(st, r, mt)
		if m == c.Null {
			return set(r)
		}
		k := mapKeyStr(mt)
		x.write(st, k+"#dom", x.mapDomLeaf(mt), r, x.mapDom(st, m, mt))
		x.write(st, k+"#n", leaf{"", SInt, types.Typ[types.Int], "len"}, r, x.mapLen(st, m, mt))
		for _, l := range leavesOf(mt.Elem()) {
			vl := leaf{"", arrSort(x.mapKeySort(mt), l.sort), l.typ, "content"}
			x.write(st, k+"#val"+l.path, vl, r, x.read(st, k+"#val"+l.path, vl, m))
		}
		return set(r)
	}
	if strings.HasPrefix(name, "v_snap") {
		s := args[0].(*VSlice)
		r := x.newObj(st, nil)
		x.ghostObjs[r] = true
		for _, l := range leavesOf(s.elem) {
			x.setElemContent(st, r, s.elem, l.path, l, x.elemContent(st, s.arr, s.elem, l.path, l))
		}
		return set(&VSlice{r, s.off, s.ln, s.cp, s.elem})
	}
	panic(unsupported("intrinsic " + name))
}

func (x *Exec) pureCallUnder(st *State, fn *ssa.Function, free, args []Value, hyp *Term) Value {
	s := st.clone()
	if hyp.op == "and" {
		for _, a := range hyp.args {
			s.facts[a] = true
		}
	} else {
		s.facts[hyp] = true
	}
	v := x.pureCall(s, fn, free, args)
	return v
}

func (x *Exec) isFresh(st *State, rf *Frame, v *VIface) *Term {
	return x.c.Bool(rf != nil && rf.ap != nil && v.ref.refLow() >= rf.ap.entryAl)
}

// outOf evaluates the ghost output of a writer.
func (x *Exec) outOf(st *State, f *Frame, bind ssa.Value, w *VIface) *State {
	set := func(t Value) *State {
		if bind != nil {
			f.env[bind] = t
		}
		return st
	}
	if w.dyn != nil {
		if g := x.w.ghostOut(w.dyn); g != nil {
			return set(x.pureCall(st, g, nil, []Value{w.val}))
		}
	}
	return set(x.read(st, "out", outLeaf, w.ref))
}

// neverFails: in-memory buffers, and compressors writing to them.
func (x *Exec) neverFails(w *VIface) bool {
	if w == nil || w.dyn == nil {
		return false
	}
	switch typeKey(w.dyn) {
	case "*bytes.Buffer", "*strings.Builder":
		return true
	case "*zlib.Writer":
		return x.zdst[w.ref] != nil && x.neverFails(x.zdst[w.ref])
	}
	return false
}

func (x *Exec) ghostAppend(st *State, ref, s *Term) {
	old := x.read(st, "out", outLeaf, ref)
	x.write(st, "out", outLeaf, ref, x.c.Cat(old, s))
}

// writeTo hands the bytes s to writer w; results are (n int, err error).
func (x *Exec) writeTo(st *State, f *Frame, bind ssa.Value, w *VIface, s *Term, pos token.Pos) *State {
	c := x.c
	set := func(n *Term, err *Term) *State {
		if bind != nil {
			x.bindRes(f, bind, []Value{n, &VIface{ref: err}})
		}
		return st
	}
	x.safe(st, "nil writer", c.Not(c.Eq(w.ref, c.Null)), pos)
	if st.dead {
		return nil
	}
	if w.dyn != nil {
		tk := typeKey(w.dyn)
		switch tk {
		case "*bytes.Buffer", "*strings.Builder":
			x.ghostAppend(st, w.ref, s)
			return set(c.Len(s), c.Null)
		}
		if fn := x.w.methodByName(w.dyn, "Write"); fn != nil && x.w.inModule(fn) {
			b := x.strToBytes(st, s)
			return x.callFunc(st, f, bind, &VFunc{fn: fn}, []Value{w.val, b}, pos)
		}
	}
	if st.pure {
		panic(unsupported("write to a writer in a specification"))
	}
	x.ghostAppend(st, w.ref, s)
	if x.neverFails(w) {
		return set(c.Len(s), c.Null)
	}
	e := x.newErr(st, "werr")
	old := x.read(st, "werr", errLeaf, w.ref)
	x.write(st, "werr", errLeaf, w.ref, c.Or(old, c.Not(c.Eq(e, c.Null))))
	n := c.Sym("n", SInt)
	c.Fact(n, c.Implies(c.Eq(e, c.Null), c.Eq(n, c.Len(s))), c.Le(c.Int(0), n), c.Le(n, c.Len(s)))
	return set(c.Ite(c.Eq(e, c.Null), c.Len(s), n), e)
}

func (x *Exec) newErr(st *State, name string) *Term {
	e := x.c.Sym(name, SRef)
	e.stamp = 1
	return e
}

// ---- contracts at call sites

func (x *Exec) applyContract(st *State, bind ssa.Value, h *Harness, args []Value, site string, pos token.Pos) *State {
	x.task.noteApplied(h)
	x.push(st, h.fn, nil, args, bind, nil)
	fr := st.top()
	fr.mode = mApply
	fr.h = h
	fr.ap = &applyInfo{site: site}
	return st
}

// modLoc is one havocked location.
type modLoc struct {
	key string
	l   leaf
	ref *Term
}

func (x *Exec) structLocs(t types.Type, ref *Term) []modLoc {
	var out []modLoc
	if s, ok := under(t).(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if _, ok := under(ft).(*types.Struct); ok {
				out = append(out, x.structLocs(ft, x.c.SubRef(ref, i))...)
				continue
			}
			if a, ok := isArray(ft); ok {
				out = append(out, x.elemLocs(a.Elem(), x.c.SubRef(ref, i))...)
				continue
			}
			for _, l := range leavesOf(ft) {
				out = append(out, modLoc{fieldKey(t, i) + l.path, l, ref})
			}
		}
		// ghost state of embedded buffers
		if typeKey(t) == "bytes.Buffer" {
			out = []modLoc{{"out", outLeaf, ref}}
		}
		return out
	}
	if a, ok := isArray(t); ok {
		return x.elemLocs(a.Elem(), ref)
	}
	for _, l := range leavesOf(t) {
		out = append(out, modLoc{"cell:" + typeKey(t) + l.path, l, ref})
	}
	return out
}

func (x *Exec) elemLocs(et types.Type, arr *Term) []modLoc {
	var out []modLoc
	for _, l := range leavesOf(et) {
		al := leaf{l.path, arrSort(SInt, l.sort), l.typ, "content"}
		out = append(out, modLoc{elemKey(et, l.path), al, arr})
	}
	return out
}

func (x *Exec) modLocs(m modItem) []modLoc {
	switch {
	case m.p != nil && m.p.elem:
		return x.elemLocs(m.p.root, m.p.arr)
	case m.p != nil && m.p.fst != nil:
		var out []modLoc
		for _, l := range leavesOf(m.p.typ) {
			out = append(out, modLoc{fieldKey(m.p.fst, m.p.fi) + l.path, l, m.p.ref})
		}
		return out
	case m.p != nil:
		return x.structLocs(m.p.typ, m.p.ref)
	case m.elems != nil:
		return x.elemLocs(m.elems.elem, m.elems.arr)
	case m.mt != nil:
		k := mapKeyStr(m.mt)
		ref := m.m.(*Term)
		out := []modLoc{{k + "#dom", x.mapDomLeaf(m.mt), ref}, {k + "#n", leaf{"", SInt, types.Typ[types.Int], "len"}, ref}}
		for _, l := range leavesOf(m.mt.Elem()) {
			out = append(out, modLoc{k + "#val" + l.path, leaf{"", arrSort(x.mapKeySort(m.mt), l.sort), l.typ, "content"}, ref})
		}
		return out
	case m.out != nil:
		return []modLoc{{"out", outLeaf, m.out.ref}, {"werr", errLeaf, m.out.ref}}
	}
	return nil
}

// applyEffects performs the call of the target inside its contract: forget
// what it may modify and introduce its results.
func (x *Exec) applyEffects(st *State, f *Frame, fn *ssa.Function, args []Value, bind ssa.Value) {
	c := x.c
	x.havocN++
	op := x.havocN
	f.ap.entryAl = c.objN + 1
	c.objN++
	st.alloc = c.objN + 1
	var sig *types.Signature
	if fn != nil {
		sig = fn.Signature
	} else {
		sig = f.h.method.Type().(*types.Signature)
	}
	// the objects the call returns as new: what it modifies may lead to them
	newRefs := map[int]*Term{}
	for i := 0; i < sig.Results().Len(); i++ {
		if !f.ap.fresh[i] {
			continue
		}
		switch u := under(sig.Results().At(i).Type()).(type) {
		case *types.Pointer:
			newRefs[i] = x.newObj(st, u.Elem())
		case *types.Slice, *types.Map:
			newRefs[i] = x.newObj(st, nil)
		}
	}
	if len(newRefs) > 0 {
		c.objN++
		st.alloc = c.objN + 1
		for _, r := range newRefs {
			x.madeBy[r] = st.alloc
		}
	}
	var outs []*VIface
	symMark0 := len(c.symDecl)
	for _, m := range f.ap.mods {
		if m.keyAll != "" {
			var ks []string
			for k := range st.heap {
				if strings.HasPrefix(k, m.keyAll) {
					ks = append(ks, k)
				}
			}
			for k := range x.bases {
				if _, ok := st.heap[k]; !ok && strings.HasPrefix(k, m.keyAll) {
					ks = append(ks, k)
				}
			}
			sort.Strings(ks)
			for _, k := range ks {
				ch := st.heap[k]
				if ch == nil {
					ch = x.bases[k]
				}
				x.havocAll(st, k, ch.leaf, 0, op)
			}
			continue
		}
		if m.out != nil && m.out.dyn != nil {
			if typeKey(m.out.dyn) != "*bytes.Buffer" && x.w.ghostOut(m.out.dyn) != nil {
				outs = append(outs, m.out)
				continue
			}
		}
		for _, loc := range x.modLocs(m) {
			var v *Term
			if loc.l.kind == "off" {
				v = c.Int(0)
			} else {
				v = x.typed(c.Sym("m."+loc.key, loc.l.sort), loc.l, st.alloc)
				if loc.l.sort.isArr() {
					x.contentBounds(v, loc.l)
				}
			}
			if loc.key == "werr" { // a writer that failed once has failed
				v = c.Or(x.read(st, "werr", errLeaf, loc.ref), v)
			}
			if m.out != nil && loc.key == "out" {
				v = c.Cat(x.read(st, "out", outLeaf, loc.ref), v)
			}
			if loc.key == "werr" && x.neverFails(m.out) {
				continue
			}
			if loc.l.kind == "len" {
				// len/cap consistency
				pk := strings.TrimSuffix(loc.key, "#len") + "#arr"
				if ch, ok := st.heap[pk]; ok && ch.kind == 1 && ch.ref == loc.ref {
					c.Fact(v, c.Implies(c.Eq(ch.val, c.Null), c.Eq(v, c.Int(0))))
				}
			}
			if loc.l.kind == "cap" {
				pk := strings.TrimSuffix(loc.key, "#cap") + "#len"
				if ch, ok := st.heap[pk]; ok && ch.kind == 1 && ch.ref == loc.ref {
					c.Fact(v, c.Le(ch.val, v))
				}
			}
			x.write(st, loc.key, loc.l, loc.ref, v)
		}
	}
	var res []Value
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		if f.ap.fresh[i] {
			r := newRefs[i]
			switch u := under(t).(type) {
			case *types.Pointer:
				res = append(res, &Ptr{ref: r, typ: u.Elem()})
				continue
			case *types.Slice:
				v := x.symbolic(st, "r", t).(*VSlice)
				res = append(res, &VSlice{r, c.Int(0), v.ln, v.cp, u.Elem()})
				continue
			case *types.Map:
				res = append(res, r)
				continue
			}
		}
		res = append(res, x.symbolic(st, "res."+f.h.name, t))
	}
	f.ap.results = res
	f.ap.syms = map[*Term]bool{}
	for _, t := range c.symDecl[symMark0:] {
		f.ap.syms[t] = true
	}
	if bind != nil {
		x.bindRes(f, bind, res)
	}
	for _, w := range outs {
		s := c.Sym("written", SStr)
		x.writeTo(st, st.top(), nil, w, s, token.NoPos)
	}
}

// frameCheck: the target changed nothing outside its modifies clause.
func (x *Exec) frameCheck(st *State, hf *Frame, res []Value) {
	if x.dry != nil || st.pure {
		return
	}
	ap := hf.ap
	allowed := map[string]map[*Term]bool{}
	var prefixes []string
	var outKeys []string
	for _, m := range ap.mods {
		if m.keyAll != "" {
			prefixes = append(prefixes, m.keyAll)
			continue
		}
		for _, l := range x.modLocs(m) {
			if allowed[l.key] == nil {
				allowed[l.key] = map[*Term]bool{}
			}
			allowed[l.key][l.ref] = true
		}
	}
	_ = outKeys
	type kr struct {
		k string
		r *Term
	}
	seen := map[kr]bool{}
	for _, w := range st.writes[ap.entryWr:] {
		if w.key == "iter" || hasPrefixAny(w.key, prefixes...) || w.ref != nil && w.ref.op == "sym" && strings.HasPrefix(w.ref.name, "G.") && strings.Contains(w.ref.name, ".gh_") {
			continue // ghost variables belong to the contracts
		}
		if w.ref == nil {
			if w.since >= ap.entryAl || seen[kr{w.key, nil}] {
				continue
			}
			seen[kr{w.key, nil}] = true
			x.obligation(st, "frame:"+w.key, x.c.False)
			continue
		}
		if seen[kr{w.key, w.ref}] {
			continue
		}
		seen[kr{w.key, w.ref}] = true
		if w.ref.refLow() >= ap.entryAl {
			continue
		}
		if allowed[w.key][w.ref] {
			continue
		}
		now := x.readChain(st, st.heap[w.key], w.ref)
		before := x.readChain(ap.entry, x.getChain(ap.entry, w.key, w.l), w.ref)
		if now == before {
			continue
		}
		goal := x.c.Eq(now, before)
		var al []*Term
		for r := range allowed[w.key] {
			al = append(al, r)
		}
		sort.Slice(al, func(i, j int) bool { return al[i].id < al[j].id })
		for _, r := range al {
			goal = x.c.Or(goal, x.c.Eq(w.ref, r))
		}
		x.obligation(st, "frame:"+w.key, goal)
	}
	for i := range ap.fresh {
		if !ap.fresh[i] {
			continue
		}
		var ref *Term
		switch v := res[i].(type) {
		case *Ptr:
			ref = v.ref
		case *VSlice:
			ref = v.arr
		case *Term:
			ref = v
		}
		ok := false
		if ref != nil {
			ok = ref.refLow() >= ap.entryAl
		}
		x.obligation(st, fmt.Sprintf("fresh result %d", i), x.c.Bool(ok))
	}
}

// learn assumes a postcondition of an applied contract; equations that define
// one of the unknowns the call introduced are solved by substitution.
func (x *Exec) learn(st *State, rf *Frame, t *Term) map[*Term]*Term {
	c := x.c
	if len(rf.ap.gone) > 0 {
		t = c.Subst(t, rf.ap.gone) // read from where the unknown has not been replaced
	}
	if t.op == "and" {
		all := map[*Term]*Term{}
		for _, a := range t.args {
			if len(all) > 0 {
				a = c.Subst(a, all)
			}
			for s, v := range x.learn(st, rf, a) {
				for o, w := range all {
					all[o] = c.Subst(w, map[*Term]*Term{s: v})
				}
				all[s] = v
			}
			if st.dead {
				break
			}
		}
		return all
	}
	s, v := x.solved(rf, t)
	if s == nil {
		x.assume(st, t)
		return nil
	}
	m := map[*Term]*Term{s: v}
	ap := *rf.ap // other executions forked from this one keep theirs
	ap.gone = make(map[*Term]*Term, len(rf.ap.gone)+1)
	for o, w := range rf.ap.gone {
		ap.gone[o] = c.Subst(w, m)
	}
	ap.gone[s] = v
	ap.results = make([]Value, len(rf.ap.results))
	for i, r := range rf.ap.results {
		ap.results[i] = x.substVal(r, m)
	}
	rf.ap = &ap
	for k, val := range rf.env {
		rf.env[k] = x.substVal(val, m)
	}
	for key, ch := range st.heap {
		if ch.kind == 1 && (contains(ch.val, s)) {
			n := *ch
			n.val = c.Subst(ch.val, m)
			if ct, ok := x.contentTyp[ch.val]; ok && n.val != ch.val {
				if _, has := x.contentTyp[n.val]; !has {
					x.contentTyp[n.val] = ct
				}
			}
			st.heap[key] = &n
		}
	}
	npc := make([]*Term, 0, len(st.pc)+1)
	facts := make(map[*Term]bool, len(st.facts))
	for _, p := range st.pc {
		if contains(p, s) {
			q := c.Subst(p, m)
			if q == c.True {
				continue
			}
			if q == c.False {
				st.dead = true
				return m
			}
			p = q
		}
		npc = append(npc, p)
		facts[p] = true
	}
	st.pc, st.facts = npc, facts
	// the range facts of the unknown carry over to its value
	if s.sort == SInt && (s.lo != nil || s.hi != nil) {
		if s.lo != nil {
			x.assume(st, c.Le(c.BigInt(s.lo), v))
		}
		if s.hi != nil {
			x.assume(st, c.Le(v, c.BigInt(s.hi)))
		}
	}
	return m
}

// solved finds an unknown the equation defines.
func (x *Exec) solved(rf *Frame, t *Term) (*Term, *Term) {
	c := x.c
	ok := func(s, v *Term) bool {
		if len(c.defs[s]) > 0 && s.sort != SStr {
			return false
		}
		return rf.ap.syms[s] && !contains(v, s)
	}
	if t.op == "sym" && t.sort == SBool && ok(t, c.True) {
		return t, c.True
	}
	if t.op == "not" && t.args[0].op == "sym" && ok(t.args[0], c.False) {
		return t.args[0], c.False
	}
	if t.op != "=" || t.bound {
		return nil, nil
	}
	a, b := t.args[0], t.args[1]
	if a.op == "sym" && ok(a, b) {
		return a, b
	}
	if b.op == "sym" && ok(b, a) {
		return b, a
	}
	if a.sort == SInt || a.sort == SReal {
		d := c.Sub(a, b)
		for _, m := range c.monosOf(d) {
			if len(m.fs) != 1 || m.fs[0].op != "sym" || !rf.ap.syms[m.fs[0]] {
				continue
			}
			if !(m.c.IsInt() && (m.c.Num().Int64() == 1 || m.c.Num().Int64() == -1)) {
				continue
			}
			s := m.fs[0]
			rest := c.Sub(d, c.Scale(s, m.c)) // m.c*s + rest = 0
			v := c.Neg(rest)
			if m.c.Sign() < 0 {
				v = rest
			}
			if ok(s, v) {
				return s, v
			}
		}
	}
	return nil, nil
}

func (x *Exec) substVal(v Value, m map[*Term]*Term) Value {
	c := x.c
	sub := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		return c.Subst(t, m)
	}
	switch a := v.(type) {
	case *Term:
		return sub(a)
	case *Ptr:
		q := *a
		q.ref, q.arr, q.idx = sub(a.ref), sub(a.arr), sub(a.idx)
		if a.ref != nil && q.ref != a.ref {
			if p, ok := x.innerPtrs[q.ref]; ok {
				return p
			}
		}
		return &q
	case *VSlice:
		return &VSlice{sub(a.arr), sub(a.off), sub(a.ln), sub(a.cp), a.elem}
	case *VStruct:
		n := &VStruct{typ: a.typ}
		for _, f := range a.fs {
			n.fs = append(n.fs, x.substVal(f, m))
		}
		return n
	case *VArr:
		n := &VArr{typ: a.typ}
		for _, l := range a.leaves {
			n.leaves = append(n.leaves, sub(l))
		}
		return n
	case *VIface:
		r := sub(a.ref)
		if r != a.ref {
			if a.dyn == nil {
				return x.ifaceOf(r)
			}
			return &VIface{ref: r, dyn: a.dyn, val: x.substVal(a.val, m)}
		}
		return a
	case *VTuple:
		n := &VTuple{}
		for _, f := range a.vs {
			n.vs = append(n.vs, x.substVal(f, m))
		}
		return n
	}
	return v
}
