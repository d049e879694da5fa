package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---- natural loops

type loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	ord    int
}

type loopInfo struct {
	byHeader map[*ssa.BasicBlock]*loop
	list     []*loop
}

func computeLoops(fn *ssa.Function) *loopInfo {
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b->s
				l := li.byHeader[s]
				if l == nil {
					l = &loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					li.byHeader[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					y := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range y.Preds {
						if !l.body[p] {
							l.body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	for _, l := range li.byHeader {
		li.list = append(li.list, l)
	}
	// source order: by block index is stable and follows the text for structured code
	pos := func(l *loop) int {
		best := 1 << 60
		for b := range l.body {
			for _, i := range b.Instrs {
				if _, phi := i.(*ssa.Phi); phi {
					continue // a phi stands where its variable was declared
				}
				if p := int(i.Pos()); p > 0 && p < best {
					best = p
				}
			}
		}
		return best
	}
	sort.Slice(li.list, func(i, j int) bool {
		pi, pj := pos(li.list[i]), pos(li.list[j])
		if pi != pj {
			return pi < pj
		}
		return li.list[i].header.Index < li.list[j].header.Index
	})
	for i, l := range li.list {
		l.ord = i
	}
	return li
}

type loopCtx struct {
	l        *loop
	entry    *State // state at loop entry (heap only is used)
	k        *Term  // iteration count
	mark     int    // symbols newer than this are not loop-stable
	phis     map[*ssa.Phi]Value
	inv      *ssa.Function
	measure  *Term // decreases, at the start of the iteration
	frameIx  int
	dry      *dryRun
	guarded  bool
	entryPhi map[*ssa.Phi]Value
	objMark  int
	depth0   int
	check    *havocSet // back edges are checked against these effects
	wr0      int
	objHead  int
}

type dryRun struct {
	lc     *loopCtx
	backs  []dryBack
	parent *dryRun
	trunc  bool // a path was given up
}

type dryBack struct {
	phis map[*ssa.Phi]Value
	heap map[string]*chain
	st   *State
	wr   []wrec
}

// jump moves control to block b of the top frame, handling loop headers.
func (x *Exec) jump(st *State, f *Frame, b *ssa.BasicBlock) *State {
	from := f.block
	// leaving cut loops
	for len(f.loops) > 0 {
		lc := f.loops[len(f.loops)-1]
		if lc.l.body[b] {
			break
		}
		if lc.dry != nil {
			// loop exit inside a dry run: record the effects and stop
			lc.dry.exit(st)
			return nil
		}
		f.loops = f.loops[:len(f.loops)-1]
	}
	li := x.w.loops(f.fn)
	l := li.byHeader[b]
	if l == nil {
		x.enterBlock(st, f, from, b, nil)
		return st
	}
	back := l.body[from]
	if back {
		if len(f.loops) > 0 && f.loops[len(f.loops)-1].l == l {
			return x.backEdge(st, f, from, l)
		}
	} else if f.unroll != nil {
		delete(f.unroll, b)
	}
	// unroll or cut
	inv := x.w.invariant(f.fn, l.ord)
	if inv == nil || x.w.isGhost(f.fn) {
		n := 0
		if f.unroll != nil {
			n = f.unroll[b]
		}
		if n < 70 {
			if ok := x.headerConcrete(st, from, b); ok {
				if f.unroll == nil {
					f.unroll = map[*ssa.BasicBlock]int{}
				}
				f.unroll[b] = n + 1
				x.enterBlock(st, f, from, b, nil)
				return st
			}
		}
		if st.pure {
			panic(unsupported("loop with symbolic bound in a specification: " + f.fn.String()))
		}
	}
	return x.cutLoop(st, f, from, l, inv)
}

func (x *Exec) phiValues(st *State, f *Frame, from, b *ssa.BasicBlock) map[*ssa.Phi]Value {
	r := map[*ssa.Phi]Value{}
	idx := -1
	for i, p := range b.Preds {
		if p == from {
			idx = i
		}
	}
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		r[p] = x.val(st, f, p.Edges[idx])
	}
	return r
}

func (x *Exec) enterBlock(st *State, f *Frame, from, b *ssa.BasicBlock, phis map[*ssa.Phi]Value) {
	if phis == nil {
		phis = x.phiValues(st, f, from, b)
	}
	for p, v := range phis {
		f.env[p] = v
	}
	f.prev = from
	f.block = b
	f.pc = len(phis)
}

// headerConcrete: does the header's branch resolve without a fork?
func (x *Exec) headerConcrete(st *State, from, b *ssa.BasicBlock) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	res := false
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(unsupportedErr); !ok {
					panic(e)
				}
				res = false
			}
		}()
		y := x.sub()
		y.dry = &dryRun{parent: x.dry}
		s := st.clone()
		f := s.top()
		y.enterBlock(s, f, from, b, nil)
		for f.pc < len(b.Instrs)-1 {
			ins := b.Instrs[f.pc]
			switch ins.(type) {
			case *ssa.Call:
				if cl := ins.(*ssa.Call); cl.Call.IsInvoke() {
					return
				} else if _, ok := cl.Call.Value.(*ssa.Builtin); !ok {
					return
				}
			}
			f.pc++
			if y.exec(s, f, ins) == nil {
				return
			}
			if s.top() != f {
				return
			}
		}
		cond := y.term(s, f, iff.Cond)
		_, res = y.decide(s, cond)
	}()
	return res
}

type havocSet struct {
	phi  map[*ssa.Phi][]bool
	low  map[*ssa.Phi][]int
	heap map[string]*heapHavoc
}

type heapHavoc struct {
	l     leaf
	refs  map[*Term]bool
	low   map[*Term]int // for cells holding references: ids are at least this
	since int           // objects with at least this id, 0 for none
	all   bool
}

func (x *Exec) cutLoop(st *State, f *Frame, from *ssa.BasicBlock, l *loop, inv *ssa.Function) *State {
	entryPhis := x.phiValues(st, f, from, l.header)
	lc := &loopCtx{l: l, inv: inv, entry: st.clone(), mark: x.c.symN, entryPhi: entryPhis, frameIx: len(st.frames) - 1, objMark: x.c.objN, depth0: len(st.frames)}
	lc.entry.havocMark = x.havocN
	// position the frame at the header so that invariants can see entry values
	x.enterBlock(st, f, from, l.header, entryPhis)
	if inv != nil && x.dry == nil {
		lc0 := *lc
		lc0.k = x.c.Int(0)
		lc0.phis = entryPhis
		return x.pushInv(st, &lc0, mInvAssert, "entry", func(s *State) { x.afterEntry(s, lc) })
	}
	x.afterEntry(st, lc)
	if st.dead {
		return nil
	}
	return st
}

// afterEntry computes what the loop changes, forgets it, assumes the
// invariant and lets the path continue at the header.
func (x *Exec) afterEntry(st *State, lc *loopCtx) {
	hs, shapes := x.loopEffects(st, lc)
	f := st.frames[lc.frameIx]
	lc.k = x.c.Sym("k", SInt)
	lc.k.lo = big.NewInt(0)
	lc.mark2(x.c.symN)
	lc.phis = x.havocPhis(st, lc, hs, shapes)
	x.havocHeap(st, lc, hs, shapes)
	lc.wr0 = len(st.writes)
	lc.objHead = x.c.objN
	for p, v := range lc.phis {
		f.env[p] = v
	}
	f.loops = append(f.loops, lc)
	if lc.inv != nil && x.dry == nil {
		x.pushInv(st, lc, mInvAssume, "", func(s *State) {})
	}
}

func (lc *loopCtx) mark2(n int) {}

// widen: objects with id >= since change.
func (h *heapHavoc) widen(since, mark int) bool {
	since = clampLow(since, mark)
	if h.since == 0 || since < h.since {
		h.since = since
		return true
	}
	return false
}

func clampLow(l, mark int) int {
	if l > mark+1 {
		return mark + 1
	}
	return l
}

type shapeInfo struct {
	step       map[*ssa.Phi][]*big.Rat // per leaf: constant increment (nil: unknown)
	heapPrefix map[string]map[*Term]bool
	heapStep   map[string]map[*Term]*big.Rat
}

// loopEffects runs the body symbolically without obligations until the set
// of changed variables and locations is stable.
func (x *Exec) loopEffects(st *State, lc *loopCtx) (*havocSet, *shapeInfo) {
	hs := &havocSet{phi: map[*ssa.Phi][]bool{}, low: map[*ssa.Phi][]int{}, heap: map[string]*heapHavoc{}}
	for p := range lc.entryPhi {
		n := 0
		if isPtrElem(lc.entryPhi[p]) {
			n = 1
		} else {
			n = len(leavesOf(p.Type()))
		}
		hs.phi[p] = make([]bool, n)
		hs.low[p] = make([]int, n)
		if !isPtrElem(lc.entryPhi[p]) {
			for i, t := range x.toLeaves(lc.entryPhi[p], p.Type()) {
				if t.sort == SRef {
					hs.low[p][i] = clampLow(t.refLow(), lc.objMark)
				}
			}
		}
	}
	var shapes *shapeInfo
	for round := 0; ; round++ {
		if round > 12 {
			panic(unsupported("loop effects do not stabilise"))
		}
		y := x.sub()
		s := st.clone()
		s.noSolver = true
		f := s.frames[lc.frameIx]
		lc2 := *lc
		lc2.k = x.c.Sym("kd", SInt)
		lc2.k.lo = big.NewInt(0)
		symMark := x.c.symN
		objMark := x.c.objN
		lc2.objMark = objMark
		d := &dryRun{lc: &lc2, parent: x.dry}
		lc2.dry = d
		lc2.phis = y.havocPhis(s, &lc2, hs, nil)
		y.havocHeap(s, &lc2, hs, nil)
		entryHeap := map[string]*chain{}
		for k, v := range s.heap {
			entryHeap[k] = v
		}
		for p, v := range lc2.phis {
			f.env[p] = v
		}
		f.loops = append(f.loops, &lc2)
		s.writes = nil
		y.dry = d
		y.baseDepth = lc.frameIx // returning from the frame ends the path
		y.terminals = func(t *State, res []Value) { d.exit(t) }
		y.maxPaths = 3000
		y.paths = 0
		y.run(s)
		x.havocN = y.havocN
		x.steps = y.steps
		if y.z3 != x.z3 {
			x.setZ3(y.z3)
		}
		if d.trunc {
			lc.check = hs
		}
		changed := false
		shapes = &shapeInfo{step: map[*ssa.Phi][]*big.Rat{}, heapPrefix: map[string]map[*Term]bool{}, heapStep: map[string]map[*Term]*big.Rat{}}
		for _, b := range d.backs {
			// heap
			for _, w := range b.wr {
				h := hs.heap[w.key]
				if h == nil {
					h = &heapHavoc{l: w.l, refs: map[*Term]bool{}, low: map[*Term]int{}}
					hs.heap[w.key] = h
					changed = true
				}
				if w.ref == nil && w.since > 0 {
					changed = h.widen(w.since, lc.objMark) || changed
					continue
				}
				if w.ref == nil {
					if !h.all {
						h.all = true
						changed = true
					}
					continue
				}
				root := w.ref.refRoot()
				if root.op == "obj" {
					n, _ := root.args[0].intVal()
					if int(n) > objMark {
						// allocated in the body
						changed = h.widen(lc.objMark+1, lc.objMark) || changed
						continue
					}
				}
				if w.ref.newest > symMark && root.refLow() > 0 {
					changed = h.widen(root.refLow(), lc.objMark) || changed
					continue
				}
				if w.ref.newest > symMark-0 || x.unstableRef(w.ref, symMark, lc) {
					if !h.all {
						h.all = true
						changed = true
					}
					continue
				}
				if !h.refs[w.ref] {
					h.refs[w.ref] = true
					if h.l.sort == SRef {
						h.low[w.ref] = clampLow(x.readChain(lc.entry, x.getChain(lc.entry, w.key, w.l), w.ref).refLow(), lc.objMark)
					}
					changed = true
				}
			}
			if b.phis == nil {
				continue
			}
			for key, h := range hs.heap {
				if h.l.sort != SRef || h.all {
					continue
				}
				for r := range h.refs {
					if l := clampLow(x.readChain(b.st, x.getChain(b.st, key, h.l), r).refLow(), lc.objMark); l < h.low[r] {
						h.low[r] = l
						changed = true
					}
				}
			}
			for p, v := range b.phis {
				if isPtrElem(v) || isPtrElem(lc2.phis[p]) {
					if v != lc2.phis[p] {
						panic(unsupported("element pointer changes in a loop"))
					}
					continue
				}
				nv := x.toLeaves(v, p.Type())
				ov := x.toLeaves(lc2.phis[p], p.Type())
				for i := range nv {
					if nv[i] != ov[i] && !hs.phi[p][i] {
						hs.phi[p][i] = true
						changed = true
					}
					if nv[i].sort == SRef && nv[i] != ov[i] {
						if l := clampLow(nv[i].refLow(), lc.objMark); l < hs.low[p][i] {
							hs.low[p][i] = l
							changed = true
						}
					}
				}
			}
		}
		if changed {
			continue
		}
		if lc.check != nil {
			return hs, &shapeInfo{step: map[*ssa.Phi][]*big.Rat{}, heapPrefix: map[string]map[*Term]bool{}, heapStep: map[string]map[*Term]*big.Rat{}}
		}
		// shapes from the final round
		first := true
		for _, b := range d.backs {
			if b.phis == nil {
				continue
			}
			for p, v := range b.phis {
				if isPtrElem(v) {
					continue
				}
				nv := x.toLeaves(v, p.Type())
				ov := x.toLeaves(lc2.phis[p], p.Type())
				st0 := shapes.step[p]
				if first || st0 == nil {
					st0 = make([]*big.Rat, len(nv))
					for i := range nv {
						if nv[i].sort == SInt || nv[i].sort == SReal {
							d := x.c.Sub(nv[i], ov[i])
							if d.isNum() {
								st0[i] = d.num
							}
						}
					}
					shapes.step[p] = st0
					continue
				}
				for i := range nv {
					if st0[i] != nil {
						d := x.c.Sub(nv[i], ov[i])
						if !d.isNum() || d.num.Cmp(st0[i]) != 0 {
							st0[i] = nil
						}
					}
				}
			}
			first = false
		}
		// numeric cells that change by a constant
		for key, h := range hs.heap {
			if h.l.sort != SInt && h.l.sort != SReal || h.all {
				continue
			}
			shapes.heapStep[key] = map[*Term]*big.Rat{}
			for r := range h.refs {
				before := x.readChain(s, entryHeap[key], r)
				var step *big.Rat
				ok := true
				for _, b := range d.backs {
					if b.phis == nil {
						continue
					}
					df := x.c.Sub(x.readChain(b.st, b.st.heap[key], r), before)
					if !df.isNum() || step != nil && step.Cmp(df.num) != 0 {
						ok = false
						break
					}
					step = df.num
				}
				if ok && step != nil {
					shapes.heapStep[key][r] = step
				}
			}
		}
		// ghost output only grows
		for key, h := range hs.heap {
			if h.l.sort != SStr || h.all {
				continue
			}
			shapes.heapPrefix[key] = map[*Term]bool{}
			for r := range h.refs {
				before := x.readChain(s, entryHeap[key], r)
				ok := true
				for _, b := range d.backs {
					if b.phis == nil {
						continue
					}
					after := x.readChain(b.st, b.st.heap[key], r)
					ps := x.c.pieces(after)
					bp := x.c.pieces(before)
					if len(ps) < len(bp) {
						ok = false
						break
					}
					for i := range bp {
						if ps[i] != bp[i] {
							ok = false
						}
					}
				}
				shapes.heapPrefix[key][r] = ok
			}
		}
		return hs, shapes
	}
}

func isPtrElem(v Value) bool {
	switch p := v.(type) {
	case *Ptr:
		return p.elem || p.fst != nil
	case *VIter:
		return true
	case *VTuple:
		return true
	}
	return false
}

// unstableRef: does the reference depend on something the loop changes?
func (x *Exec) unstableRef(r *Term, symMark int, lc *loopCtx) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == "sym" && t.newest > lc.mark {
			return true
		}
		if len(t.op) > 6 && t.op[:6] == "app:H." {
			// reads of havocked heap versions created after loop entry
			if n := havocNumber(t.op); n > 0 && x.havocAfter(n, lc) {
				return true
			}
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		for _, m := range t.monos {
			for _, a := range m.fs {
				if rec(a) {
					return true
				}
			}
		}
		return false
	}
	return rec(r)
}

func havocNumber(op string) int {
	n := 0
	for i := 0; i+2 < len(op); i++ {
		if op[i] == '!' && op[i+1] == 'h' {
			j := i + 2
			n = 0
			for j < len(op) && op[j] >= '0' && op[j] <= '9' {
				n = n*10 + int(op[j]-'0')
				j++
			}
		}
	}
	return n
}

func (x *Exec) havocAfter(n int, lc *loopCtx) bool { return n > lc.entryHavoc() }

func (lc *loopCtx) entryHavoc() int { return lc.entry.havocMark }

// exit: a path that leaves the loop; its effects are executed explicitly later.
func (d *dryRun) exit(st *State) {}

func (x *Exec) havocPhis(st *State, lc *loopCtx, hs *havocSet, sh *shapeInfo) map[*ssa.Phi]Value {
	// objects allocated by earlier iterations lie above the mark
	x.c.objN++
	st.alloc = x.c.objN + 1
	r := map[*ssa.Phi]Value{}
	c := x.c
	var order []*ssa.Phi
	for p := range lc.entryPhi {
		order = append(order, p)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].Name() < order[j].Name() })
	for _, p := range order {
		v := lc.entryPhi[p]
		if isPtrElem(v) {
			r[p] = v
			continue
		}
		ls := leavesOf(p.Type())
		ts := append([]*Term{}, x.toLeaves(v, p.Type())...)
		any := false
		for i, ch := range hs.phi[p] {
			if !ch {
				continue
			}
			any = true
			if sh != nil && sh.step[p] != nil && sh.step[p][i] != nil {
				k := lc.k
				if ls[i].sort == SReal {
					k = c.ToReal(k)
				}
				ts[i] = c.Add(ts[i], c.Scale(k, sh.step[p][i]))
				continue
			}
			name := p.Comment
			if name == "" {
				name = "phi"
			}
			ts[i] = x.typed(c.Sym(name+ls[i].path, ls[i].sort), ls[i], st.alloc)
			if ts[i].sort == SRef {
				ts[i].low = hs.low[p][i]
			}
			if ls[i].kind == "len" {
				c.Fact(ts[i], c.Implies(c.Eq(ts[i-2], c.Null), c.Eq(ts[i], c.Int(0))))
			}
			if ls[i].kind == "cap" {
				c.Fact(ts[i], c.Le(ts[i-1], ts[i]))
			}
			if ls[i].kind == "content" {
				x.contentBounds(ts[i], ls[i])
			}
		}
		if !any {
			r[p] = v
			continue
		}
		r[p] = x.fromLeaves(ts, p.Type())
	}
	return r
}

func (x *Exec) havocHeap(st *State, lc *loopCtx, hs *havocSet, sh *shapeInfo) {
	var keys []string
	for k := range hs.heap {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	x.havocN++
	op := x.havocN
	for _, k := range keys {
		h := hs.heap[k]
		if h.all {
			x.havocAll(st, k, h.l, 0, op)
			continue
		}
		if h.since > 0 {
			x.havocAll(st, k, h.l, h.since, op)
		}
		var refs []*Term
		for r := range h.refs {
			refs = append(refs, r)
		}
		sort.Slice(refs, func(i, j int) bool { return refs[i].id < refs[j].id })
		for _, r := range refs {
			var v *Term
			if h.l.kind == "off" {
				v = x.c.Sym(k, SInt)
				v.lo = big.NewInt(0)
			} else {
				v = x.typed(x.c.Sym(k, h.l.sort), h.l, st.alloc)
				if h.l.kind == "content" {
					x.contentBounds(v, h.l)
				}
				if h.l.sort == SRef {
					v.low = h.low[r]
				}
			}
			if sh != nil && sh.heapStep[k][r] != nil {
				kk := lc.k
				if h.l.sort == SReal {
					kk = x.c.ToReal(kk)
				}
				v = x.c.Add(x.readChain(st, x.getChain(lc.entry, k, h.l), r), x.c.Scale(kk, sh.heapStep[k][r]))
			}
			if k == "werr" {
				v = x.c.Or(x.readChain(st, x.getChain(lc.entry, k, h.l), r), v)
			}
			if sh != nil && sh.heapPrefix[k][r] {
				v = x.c.Cat(x.readChain(st, x.getChain(lc.entry, k, h.l), r), v)
			}
			x.write(st, k, h.l, r, v)
		}
	}
}

// backEdge: the end of one arbitrary iteration.
func (x *Exec) backEdge(st *State, f *Frame, from *ssa.BasicBlock, l *loop) *State {
	lc := f.loops[len(f.loops)-1]
	nv := x.phiValues(st, f, from, l.header)
	if lc.dry != nil {
		lc.dry.backs = append(lc.dry.backs, dryBack{phis: nv, wr: append([]wrec{}, st.writes...), st: st})
		return nil
	}
	if lc.check != nil && x.dry == nil {
		x.checkEffects(st, lc, nv)
	}
	if x.dry != nil || lc.inv == nil {
		x.termination(st, lc)
		return nil
	}
	lc1 := *lc
	lc1.k = x.c.Add(lc.k, x.c.Int(1))
	lc1.phis = nv
	for p, v := range nv {
		f.env[p] = v
	}
	f.block = l.header
	return x.pushInv(st, &lc1, mInvAssert, "preserved", func(s *State) {
		x.termination(s, lc)
		s.dead = true
	})
}

// checkEffects: the iteration changed nothing the dry run did not foresee.
func (x *Exec) checkEffects(st *State, lc *loopCtx, nv map[*ssa.Phi]Value) {
	hs := lc.check
	for _, w := range st.writes[lc.wr0:] {
		if w.ref != nil {
			if root := w.ref.refRoot(); root.op == "obj" {
				if n, _ := root.args[0].intVal(); int(n) > lc.objHead {
					continue // made in this iteration
				}
			}
		}
		h := hs.heap[w.key]
		ok := h != nil && (h.all || w.ref != nil && h.refs[w.ref] || h.since > 0 && (w.ref == nil && w.since >= h.since || w.ref != nil && w.ref.refLow() >= h.since))
		if !ok {
			panic(unsupported("an effect of the loop on " + w.key + " was not foreseen"))
		}
	}
	for p, v := range nv {
		if isPtrElem(v) || isPtrElem(lc.phis[p]) {
			continue
		}
		a, b := x.toLeaves(v, p.Type()), x.toLeaves(lc.phis[p], p.Type())
		for i := range a {
			if a[i] != b[i] && !hs.phi[p][i] {
				panic(unsupported("a change of " + p.Name() + " by the loop was not foreseen"))
			}
			if a[i].sort == SRef && a[i].refLow() < hs.low[p][i] {
				panic(unsupported("a change of " + p.Name() + " by the loop was not foreseen"))
			}
		}
	}
}

func (x *Exec) termination(st *State, lc *loopCtx) {}

// pushInv runs the invariant function of the loop as ghost code.
func (x *Exec) pushInv(st *State, lc *loopCtx, mode int, label string, k func(*State)) *State {
	f := st.frames[lc.frameIx]
	var args []Value
	for _, p := range lc.inv.Params {
		args = append(args, x.resolve(st, lc, p.Name(), p.Type(), f))
	}
	n := len(st.frames)
	x.push(st, lc.inv, nil, args, nil, func(s *State, res []Value) {
		if len(s.frames) != n {
			panic("invariant frame depth")
		}
		k(s)
	})
	g := st.top()
	g.mode = mode
	g.lc = lc
	g.label = label
	return st
}

// resolve finds the value of a variable named in an invariant.
func (x *Exec) resolve(st *State, lc *loopCtx, name string, t types.Type, f *Frame) Value {
	switch name {
	case "iter_":
		return lc.k
	}
	if len(name) > 6 && name[:6] == "entry_" {
		// value the loop variable had on entry
		for p, v := range lc.entryPhi {
			if p.Comment == name[6:] && types.Identical(p.Type(), t) {
				return v
			}
		}
	}
	for p, v := range lc.phis {
		if p.Comment == name && types.Identical(p.Type(), t) {
			return v
		}
	}
	if v := x.lookupVar(st, f, name, t, lc.l.header); v != nil {
		return v
	}
	for i := lc.frameIx - 1; i >= 0; i-- {
		if v := x.lookupVar(st, st.frames[i], name, t, st.frames[i].block); v != nil {
			return v
		}
	}
	panic(unsupported(fmt.Sprintf("invariant %s: no variable %s of type %s", lc.inv.Name(), name, t)))
}

func (x *Exec) lookupVar(st *State, f *Frame, name string, t types.Type, at *ssa.BasicBlock) Value {
	vars := x.w.debugVars(f.fn)[name]
	var best Value
	var bestBlock *ssa.BasicBlock
	bestIdx := -1
	for _, dv := range vars {
		if dv.block != at && !dv.block.Dominates(at) {
			continue
		}
		v, ok := f.env[dv.val]
		if !ok {
			switch k := dv.val.(type) {
			case *ssa.Const:
				v = x.constVal(k)
			default:
				continue
			}
		}
		if dv.addr {
			p, isP := v.(*Ptr)
			if !isP {
				continue
			}
			if pt, ok := t.(*types.Pointer); ok && types.Identical(p.typ, pt.Elem()) {
				// an invariant speaks of a struct variable through its address
			} else if !types.Identical(p.typ, t) {
				continue
			} else {
				v = x.load(st, p)
			}
		} else if !types.Identical(dv.val.Type(), t) {
			continue
		}
		if bestBlock == nil || bestBlock == dv.block && dv.idx > bestIdx || bestBlock != dv.block && bestBlock.Dominates(dv.block) {
			best, bestBlock, bestIdx = v, dv.block, dv.idx
		}
	}
	if best != nil {
		return best
	}
	for _, p := range f.fn.Params {
		if p.Name() == name && types.Identical(p.Type(), t) {
			return f.env[p]
		}
	}
	for _, p := range f.fn.FreeVars {
		if p.Name() == name {
			if ptr, ok := f.env[p].(*Ptr); ok && types.Identical(ptr.typ, t) {
				return x.load(st, ptr)
			}
		}
	}
	return nil
}

type debugVar struct {
	val   ssa.Value
	addr  bool
	block *ssa.BasicBlock
	idx   int
}

func collectDebugVars(fn *ssa.Function) map[string][]debugVar {
	r := map[string][]debugVar{}
	for _, b := range fn.Blocks {
		for i, ins := range b.Instrs {
			switch d := ins.(type) {
			case *ssa.DebugRef:
				id, ok := d.Expr.(*ast.Ident)
				if !ok {
					continue
				}
				r[id.Name] = append(r[id.Name], debugVar{d.X, d.IsAddr, b, i})
			case *ssa.Alloc:
				if d.Comment != "" {
					r[d.Comment] = append(r[d.Comment], debugVar{d, true, b, i})
				}
			case *ssa.Phi:
				if d.Comment != "" {
					r[d.Comment] = append(r[d.Comment], debugVar{d, false, b, i})
				}
			}
		}
	}
	return r
}

// guardBound: the header's condition held at the start of every earlier iteration.
func (x *Exec) guardBound(st *State, f *Frame, cond *Term) {
	if len(f.loops) == 0 {
		return
	}
	lc := f.loops[len(f.loops)-1]
	if lc.l.header != f.block || lc.k == nil || lc.guarded {
		return
	}
	inTrue, inFalse := lc.l.body[f.block.Succs[0]], lc.l.body[f.block.Succs[1]]
	g := cond
	if inTrue == inFalse {
		return
	}
	if inFalse {
		g = x.c.Not(cond)
	}
	// only loop-stable terms and k
	if !contains(g, lc.k) {
		return
	}
	probe := x.c.Subst(g, map[*Term]*Term{lc.k: x.c.Int(0)})
	if x.unstableRef(probe, 0, lc) {
		return
	}
	prev := x.c.Subst(g, map[*Term]*Term{lc.k: x.c.Sub(lc.k, x.c.Int(1))})
	x.assume(st, x.c.Or(x.c.Le(lc.k, x.c.Int(0)), prev))
}
