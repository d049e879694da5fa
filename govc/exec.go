package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	fn       *ssa.Function
	env      map[ssa.Value]Value
	block    *ssa.BasicBlock
	pc       int
	prev     *ssa.BasicBlock
	bind     ssa.Value // value in the caller's frame that receives the result
	onReturn func(st *State, res []Value)
	defers   []deferred
	loops    []*loopCtx
	unroll   map[*ssa.BasicBlock]int
	h        *Harness // harness frames
	mode     int      // mCode, mVerify, mApply, mInvAssert, mInvAssume
	ap       *applyInfo
	lc       *loopCtx // for invariant frames
	label    string
	depth    int
}

type deferred struct {
	fn   *VFunc
	args []Value
	call *ssa.CallCommon
	recv Value
}

const (
	mCode = iota
	mVerify
	mApply
	mInvAssert
	mInvAssume
)

type applyInfo struct {
	mods    []modItem
	results []Value
	called  bool
	fresh   map[int]bool
	args    []Value
	invoke  bool
	site    string
	entryWr int
	entryAl int
	measure *Term // of a lemma under verification
	entry   *State
	target  *ssa.Function
	syms    map[*Term]bool  // unknowns introduced by the call
	gone    map[*Term]*Term // those of them that postconditions defined
}

type modItem struct {
	p      *Ptr // location
	out    *VIface
	elems  *VSlice
	all    types.Type // every object of this type
	keyAll string
	m      Value // map
	mt     *types.Map
}

type factNode struct {
	t    *Term
	prev *factNode
}

type State struct {
	frames    []*Frame
	heap      map[string]*chain
	pc        []*Term
	facts     map[*Term]bool
	alloc     int
	writes    []wrec
	nopanic   bool
	pure      bool
	pureSince int
	dead      bool
	havocMark int
	noSolver  bool
	calls     *callRec // the calls applied by contract so far, last first
}

type callRec struct {
	name string
	res  []Value
	prev *callRec
}

func (st *State) clone() *State {
	n := &State{havocMark: st.havocMark, alloc: st.alloc, nopanic: st.nopanic, pure: st.pure, pureSince: st.pureSince, noSolver: st.noSolver, calls: st.calls}
	n.heap = make(map[string]*chain, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.pc = append([]*Term{}, st.pc...)
	n.facts = make(map[*Term]bool, len(st.facts))
	for k := range st.facts {
		n.facts[k] = true
	}
	n.writes = append([]wrec{}, st.writes...)
	for _, f := range st.frames {
		n.frames = append(n.frames, f.clone())
	}
	return n
}

func (f *Frame) clone() *Frame {
	g := *f
	g.env = make(map[ssa.Value]Value, len(f.env))
	for k, v := range f.env {
		g.env[k] = v
	}
	g.defers = append([]deferred{}, f.defers...)
	g.loops = append([]*loopCtx{}, f.loops...)
	if f.unroll != nil {
		g.unroll = map[*ssa.BasicBlock]int{}
		for k, v := range f.unroll {
			g.unroll[k] = v
		}
	}
	if f.ap != nil {
		a := *f.ap
		a.mods = append([]modItem{}, f.ap.mods...)
		g.ap = &a
	}
	return &g
}

func (st *State) knows(t *Term) bool { return st.facts[t] }

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

type box struct {
	typ types.Type
	val Value
}

// Exec verifies one task (harness) in its own term context.
type Exec struct {
	w          *World
	c          *Ctx
	task       *Task
	z3         *z3proc
	bases      map[string]*chain
	preStamp   int
	funcs      map[*Term]*VFunc
	boxes      map[*Term]box
	objType    map[*Term]types.Type
	madeBy     map[*Term]int // new results of calls: what they hold is older than this
	contentTyp map[*Term]types.Type
	work       []*State
	kept       map[*Term]*keptFact
	terminals  func(st *State, res []Value) // called when the outermost frame returns
	baseDepth  int
	dry        *dryRun
	footprint  map[string]*chain
	footSince  int
	foldStack  []*ssa.Function
	armDied    bool
	havocN     int
	paths      int
	maxPaths   int
	steps      int
	inPure     int
	foldKeys   map[*ssa.Function]map[string]bool
	ghostObjs  map[*Term]bool                    // snapshots taken by contracts
	foldExtra  map[*ssa.Function]map[string]bool // found by an earlier attempt at the same harness
	foldUsed   map[*ssa.Function]int
	foldBusy   map[*ssa.Function]bool
	chainIDs   map[chainKey]int
	noUnfold   int
	inputs     []inputTerm
	deadline   time.Time
	feasN      int
	parent     *Exec
	assumed    map[string]bool
	applied    map[string]bool
	inlined    map[string]bool
	coverPre   bool
	entrySt    *State
	endpoints  int
	globals    map[*ssa.Global]*Term
	zdst       map[*Term]*VIface
	kinds      map[*Term]string
	innerPtrs  map[*Term]*Ptr
}

type inputTerm struct {
	path string
	t    *Term
	typ  types.Type
}

func (x *Exec) sub() *Exec {
	y := *x
	y.work = nil
	y.parent = x
	y.inPure = x.inPure
	return &y
}

func (x *Exec) newObj(st *State, t types.Type) *Term {
	x.c.objN++
	r := x.c.Obj(x.c.objN)
	st.alloc = x.c.objN + 1
	if t != nil {
		x.objType[r] = t
	}
	return r
}

// ---- path conditions

// extendsIn: what the claims in t that one text extends another mean as
// assumptions.
func extendsIn(c *Ctx, t *Term, m map[*Term]*Term) map[*Term]*Term {
	if t.sort != SBool {
		return m
	}
	if t.isApp("v_extends") {
		if m == nil {
			m = map[*Term]*Term{}
		}
		m[t] = c.Eq(t.args[0], c.Cat(t.args[1], c.App("s.rest", SStr, c.Sym("rest", SInt))))
		return m
	}
	if t.op == "or" || t.op == "and" {
		for _, a := range t.args {
			m = extendsIn(c, a, m)
		}
	}
	return m
}

func (x *Exec) assume(st *State, t *Term) {
	if t == x.c.True {
		return
	}
	if t == x.c.False {
		st.dead = true
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			x.assume(st, a)
		}
		return
	}
	if t.op == "not" && t.args[0].op == "or" {
		st.facts[t] = true
		for _, a := range t.args[0].args {
			x.assume(st, x.c.Not(a))
		}
		return
	}
	if m := extendsIn(x.c, t, nil); m != nil {
		t = x.c.Subst(t, m)
		if t.op == "and" || t == x.c.True || t == x.c.False {
			x.assume(st, t)
			return
		}
	}
	if st.facts[x.c.Not(t)] {
		st.dead = true
		return
	}
	if st.facts[t] {
		return
	}
	if t.op == "or" {
		if u := x.leftOf(st, t); u != t {
			x.assume(st, u)
			return
		}
	}
	st.facts[t] = true
	st.pc = append(st.pc, t)
	if d := x.splitText(t, 6); d != nil {
		x.assume(st, d)
	}
	if t.op != "or" && t.op != "forall" {
		for i := 0; i < len(st.pc) && !st.dead; i++ {
			if p := st.pc[i]; p.op == "or" {
				if u := x.leftOf(st, p); u != p && u.op != "or" {
					x.assume(st, u)
				}
			}
		}
	}
}

// leftOf: the alternatives that what is known does not rule out.
func (x *Exec) leftOf(st *State, t *Term) *Term {
	c := x.c
	var left []*Term
	for _, d := range t.args {
		out := st.facts[c.Not(d)]
		if !out && d.op == "and" {
			for _, a := range d.args {
				if st.facts[c.Not(a)] {
					out = true
					break
				}
			}
		}
		if !out {
			left = append(left, d)
		}
	}
	if len(left) == len(t.args) {
		return t
	}
	r := c.False
	for _, d := range left {
		r = c.Or(r, d)
	}
	return r
}

// splitText: texts that are equal and start with pieces of the same length
// agree on these pieces and on what follows.
func (x *Exec) splitText(t *Term, depth int) *Term {
	c := x.c
	if depth == 0 || t.op != "=" || len(t.args) != 2 || t.args[0].op != "cat" || t.args[1].op != "cat" {
		return nil
	}
	a, b := t.args[0], t.args[1]
	p, q := a.args[0], b.args[0]
	if p.op != q.op || !strings.HasPrefix(p.op, "app:ftoa") {
		return nil
	}
	rest := c.Eq(c.Cat(a.args[1:]...), c.Cat(b.args[1:]...))
	if m := x.splitText(rest, depth-1); m != nil {
		rest = c.And(rest, m)
	}
	return c.Implies(c.Eq(c.Len(p), c.Len(q)), c.And(c.Eq(p, q), rest))
}

// decide reports whether cond is already settled on this path.
func (x *Exec) decide(st *State, cond *Term) (val, known bool) {
	c := x.c
	cond = x.simp(st, cond)
	if cond == c.True {
		return true, true
	}
	if cond == c.False {
		return false, true
	}
	if st.facts[cond] {
		return true, true
	}
	if st.facts[c.Not(cond)] {
		return false, true
	}
	return false, false
}

// simp uses the recorded facts to simplify boolean structure.
func (x *Exec) simp(st *State, t *Term) *Term {
	c := x.c
	if st.facts[t] {
		return c.True
	}
	if st.facts[c.Not(t)] {
		return c.False
	}
	switch t.op {
	case "and":
		var as []*Term
		for _, a := range t.args {
			as = append(as, x.simp(st, a))
		}
		return c.And(as...)
	case "or":
		var as []*Term
		for _, a := range t.args {
			as = append(as, x.simp(st, a))
		}
		return c.Or(as...)
	case "ite":
		if t.sort == SBool {
			return c.Ite(x.simp(st, t.args[0]), x.simp(st, t.args[1]), x.simp(st, t.args[2]))
		}
	}
	return t
}

// deepSimp also decides the conditions of inner choices.
func (x *Exec) deepSimp(st *State, t *Term) *Term {
	c := x.c
	memo := map[*Term]*Term{}
	val := map[*Term]*Term{}
	for _, p := range st.pc {
		if p.op == "=" {
			if p.args[1].isNum() {
				val[p.args[0]] = p.args[1]
			} else if p.args[0].isNum() {
				val[p.args[1]] = p.args[0]
			}
		}
	}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.op == "=" {
			for i := 0; i < 2; i++ {
				if v := val[t.args[i]]; v != nil && t.args[1-i].isNum() && v != t.args[1-i] {
					return c.False
				}
			}
		}
		if len(t.args) == 0 && len(t.monos) == 0 {
			if t.sort == SBool {
				return x.simp(st, t)
			}
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		switch {
		case t.bound || t.op == "forall":
			r = t
		case t.op == "ite":
			switch cond := rec(t.args[0]); cond {
			case c.True:
				r = rec(t.args[1])
			case c.False:
				r = rec(t.args[2])
			default:
				r = c.Ite(cond, rec(t.args[1]), rec(t.args[2]))
			}
		case t.op == "poly":
			r = c.Num(new(big.Rat), t.sort)
			for _, mo := range t.monos {
				p := c.Num(mo.c, t.sort)
				for _, f := range mo.fs {
					p = c.Mul(p, rec(f))
				}
				r = c.Add(r, p)
			}
		default:
			as := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				as[i] = rec(a)
				ch = ch || as[i] != a
			}
			r = t
			if ch {
				r = c.rebuild(t, as)
			}
			if r.sort == SBool {
				r = x.simp(st, r)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// opened replaces the opaque applications of the goal by their definitions.
func (x *Exec) opened(st *State, goal *Term) *Term { return x.openedOnly(st, goal, "") }

// openNames: the opaque functions applied in the goal.
func (x *Exec) openNames(goal *Term) []string {
	var names []string
	have := map[string]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if _, ok := x.task.bodies[t]; ok && !have[t.op] {
			have[t.op] = true
			names = append(names, t.op)
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, mo := range t.monos {
			for _, f := range mo.fs {
				walk(f)
			}
		}
	}
	walk(goal)
	sort.Strings(names)
	return names
}

func (x *Exec) openedOnly(st *State, goal *Term, name string) *Term {
	m := map[*Term]*Term{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if b, ok := x.task.bodies[t]; ok && (name == "" || name == t.op) {
			m[t] = b
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, mo := range t.monos {
			for _, f := range mo.fs {
				walk(f)
			}
		}
	}
	walk(goal)
	if len(m) == 0 {
		return goal
	}
	return x.deepSimp(st, x.c.Subst(goal, m))
}

func (x *Exec) feasible(st *State, cond *Term) bool {
	if st.pure || st.noSolver || x.dry != nil {
		return true
	}
	x.feasN++
	script := x.c.script(append(append([]*Term{}, st.pc...), cond), nil, false, false)
	r := x.query(script, 400)
	return r != "unsat"
}

func (x *Exec) query(script string, ms int) string {
	if x.z3 == nil {
		z, err := startZ3()
		if err != nil {
			return "unknown"
		}
		x.setZ3(z)
	}
	t0 := time.Now()
	r, _, alive := x.z3.check(script, ms)
	x.task.solverTime("z3", time.Since(t0))
	if !alive {
		x.z3.kill()
		x.setZ3(nil)
	}
	return r
}

func (x *Exec) setZ3(z *z3proc) {
	for e := x; e != nil; e = e.parent {
		e.z3 = z
	}
}

// fork continues with cond true in st; pushes a copy with cond false.
// Either side may be dropped when infeasible; st.dead is set if the true side is.
func (x *Exec) branch(st *State, cond *Term) (t, f *State) {
	if v, known := x.decide(st, cond); known {
		if v {
			return st, nil
		}
		return nil, st
	}
	nc := x.c.Not(cond)
	ft := x.feasible(st, cond)
	ff := true
	if ft {
		ff = x.feasible(st, nc)
	}
	if !ft && !ff {
		ff = true
	}
	if ft && !ff {
		x.assume(st, cond)
		if st.dead {
			return nil, nil
		}
		return st, nil
	}
	if !ft {
		x.assume(st, nc)
		if st.dead {
			return nil, nil
		}
		return nil, st
	}
	o := st.clone()
	x.assume(st, cond)
	x.assume(o, nc)
	t, f = st, o
	if st.dead {
		t = nil
	}
	if o.dead {
		f = nil
	}
	return
}

// safe handles a run-time check: an obligation when panics are ruled out, an assumption otherwise.
func (x *Exec) safe(st *State, what string, cond *Term, pos token.Pos) {
	if cond == x.c.True {
		return
	}
	if st.nopanic && !st.pure && !x.inGhost(st) {
		x.obligation(st, "panic:"+what+x.w.at(pos), cond)
	}
	if !st.pure && len(st.frames) > 0 && x.inGhost(st) {
		// what a contract says must mean something
		switch rf := st.roleFrame(); {
		case rf == nil:
		case rf.mode == mVerify && rf.h != nil && rf.h.kind != "lemma" && rf.ap != nil && rf.ap.called:
			x.obligation(st, "defined:"+what, cond)
		case rf.mode == mApply && !rf.ap.called:
			x.obligation(st, "requires:"+rf.h.targetName+"@"+x.w.callerName(st, rf), cond)
		case rf.mode == mInvAssert:
			x.obligation(st, fmt.Sprintf("loop%d of %s:%s", rf.lc.l.ord, fnName(rf.lc.l.header.Parent()), rf.label), cond)
		}
	}
	x.assume(st, cond)
}

func (x *Exec) inGhost(st *State) bool {
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		if f.mode != mCode {
			return f.mode != mVerify || i == len(st.frames)-1
		}
		if x.w.isGhost(f.fn) {
			return true
		}
	}
	return false
}

// closedIface: an interface with unexported methods is only implemented by the
// types of the module.
func (x *Exec) closedIface(v Value, t types.Type) {
	iv, ok := v.(*VIface)
	if !ok || iv.dyn != nil || iv.ref == nil || !x.w.moduleType(t) {
		return
	}
	it := under(t).(*types.Interface)
	closed := false
	for k := 0; k < it.NumMethods(); k++ {
		closed = closed || !it.Method(k).Exported()
	}
	if !closed || iv.ref.bound {
		return
	}
	or := []*Term{x.c.Eq(iv.ref, x.c.Null)}
	for _, im := range x.w.implementersBoth(t) {
		or = append(or, x.c.Eq(x.c.App("typ", SInt, iv.ref), x.typeID(im)))
	}
	x.c.Fact(iv.ref, x.c.Or(or...))
}

// ---- running

func (x *Exec) run(st *State) {
	x.work = append(x.work, st)
	for len(x.work) > 0 {
		s := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.paths++
		if x.maxPaths > 0 && x.paths > x.maxPaths {
			panic(unsupported(fmt.Sprintf("more than %d paths", x.maxPaths)))
		}
		if x.dry != nil {
			x.dryPath(s)
			continue
		}
		for s != nil && !s.dead {
			if len(s.frames) <= x.baseDepth {
				break
			}
			s = x.step(s)
		}
	}
}

// dryPath: a dry run may reach calls that no real execution reaches; the path
// is given up there and the loop's back edges are checked against what was
// found.
func (x *Exec) dryPath(s *State) {
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupportedErr)
			if !ok || !strings.HasPrefix(u.msg, "call of ") {
				panic(r)
			}
			for d := x.dry; d != nil; d = d.parent {
				d.trunc = true
			}
		}
	}()
	for s != nil && !s.dead {
		if len(s.frames) <= x.baseDepth {
			break
		}
		s = x.step(s)
	}
}

func (x *Exec) step(st *State) *State {
	x.steps++
	if x.steps&0xf == 0 && !x.deadline.IsZero() && time.Now().After(x.deadline) {
		panic(unsupported("time limit for the function"))
	}
	f := st.top()
	if f.pc >= len(f.block.Instrs) {
		panic("fell off block")
	}
	ins := f.block.Instrs[f.pc]
	f.pc++
	return x.exec(st, f, ins)
}

func (x *Exec) val(st *State, f *Frame, v ssa.Value) Value {
	switch a := v.(type) {
	case *ssa.Const:
		return x.constVal(a)
	case *ssa.Global:
		return x.globalPtr(st, a)
	case *ssa.Function:
		return &VFunc{fn: a}
	case *ssa.Builtin:
		return &VFunc{bi: a}
	}
	r, ok := f.env[v]
	if !ok {
		panic(unsupported("value " + v.Name() + " of " + f.fn.String() + " not available"))
	}
	return r
}

func (x *Exec) globalPtr(st *State, g *ssa.Global) Value {
	t := g.Type().(*types.Pointer).Elem()
	r := x.c.NamedSym("G."+g.Pkg.Pkg.Path()+"."+g.Name(), SRef)
	r.stamp = 1
	x.c.Fact(r, x.c.Not(x.c.mk(&Term{op: "=", sort: SBool, args: []*Term{r, x.c.Null}})))
	x.globalRefs()[r] = g
	return &Ptr{ref: r, typ: t}
}

func (x *Exec) globalRefs() map[*Term]*ssa.Global { return x.w.globalRefsFor(x.c) }

func (x *Exec) constVal(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return x.zero(t)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return x.c.Bool(constant.BoolVal(k.Value))
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(k.Value)
			r, ok := new(big.Rat).SetString(v.ExactString())
			if !ok {
				panic(unsupported("constant"))
			}
			return x.c.Num(r, SInt)
		case u.Info()&types.IsFloat != 0:
			v := constant.ToFloat(k.Value)
			r, ok := new(big.Rat).SetString(v.ExactString())
			if !ok {
				panic(unsupported("constant " + v.ExactString()))
			}
			return x.c.Num(r, SReal)
		case u.Info()&types.IsString != 0:
			return x.c.Lit(constant.StringVal(k.Value))
		}
	}
	panic(unsupported("constant of type " + t.String()))
}

func (x *Exec) term(st *State, f *Frame, v ssa.Value) *Term { return x.scalar(x.val(st, f, v)) }

func (x *Exec) setEnv(f *Frame, v ssa.Value, val Value) { f.env[v] = val }

// exec runs one instruction and gives the state to continue with (nil: path over).
func (x *Exec) exec(st *State, f *Frame, ins ssa.Instruction) *State {
	c := x.c
	switch i := ins.(type) {
	case *ssa.DebugRef:
		return st
	case *ssa.Alloc:
		t := i.Type().(*types.Pointer).Elem()
		r := x.newObj(st, t)
		if _, ok := isArray(t); ok {
			delete(x.objType, r)
		}
		p := &Ptr{ref: r, typ: t}
		x.initZero(st, p)
		f.env[i] = p
		return st
	case *ssa.Phi:
		panic("phi executed directly")
	case *ssa.BinOp:
		f.env[i] = x.binop(st, f, i)
		return st
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			p, ok := x.val(st, f, i.X).(*Ptr)
			if !ok {
				panic(unsupported("load through non-pointer"))
			}
			x.nilcheck(st, p, i.Pos())
			if st.dead {
				return nil
			}
			if g, ok := x.globalRefs()[p.ref]; ok && !p.elem && p.fst == nil {
				if v := x.globalValue(st, g, p); v != nil {
					f.env[i] = v
					return st
				}
			}
			f.env[i] = x.load(st, p)
		case token.NOT:
			f.env[i] = c.Not(x.term(st, f, i.X))
		case token.SUB:
			v := c.Neg(x.term(st, f, i.X))
			f.env[i] = x.wrap(v, i.Type())
		case token.XOR:
			v := x.term(st, f, i.X) // ^x = -x-1
			f.env[i] = x.wrap(c.Sub(c.Neg(v), c.Int(1)), i.Type())
		default:
			panic(unsupported("unary " + i.Op.String()))
		}
		return st
	case *ssa.Store:
		p, ok := x.val(st, f, i.Addr).(*Ptr)
		if !ok {
			panic(unsupported("store through non-pointer"))
		}
		x.nilcheck(st, p, i.Pos())
		if st.dead {
			return nil
		}
		x.store(st, p, x.val(st, f, i.Val))
		return st
	case *ssa.FieldAddr:
		p, ok := x.val(st, f, i.X).(*Ptr)
		if !ok {
			panic(unsupported("field of non-pointer"))
		}
		x.nilcheck(st, p, i.Pos())
		if st.dead {
			return nil
		}
		f.env[i] = x.fieldAddr(p, i.Field)
		return st
	case *ssa.Field:
		v, ok := x.val(st, f, i.X).(*VStruct)
		if !ok {
			panic(unsupported("field of non-struct value"))
		}
		f.env[i] = v.fs[i.Field]
		return st
	case *ssa.IndexAddr:
		f.env[i] = x.indexAddr(st, f, i)
		if st.dead {
			return nil
		}
		return st
	case *ssa.Index:
		idx := x.term(st, f, i.Index)
		switch v := x.val(st, f, i.X).(type) {
		case *VArr:
			x.safe(st, "index", c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.Int(v.typ.Len()))), i.Pos())
			ls := leavesOf(v.typ.Elem())
			var ts []*Term
			for k, l := range ls {
				ts = append(ts, x.sel(v.leaves[k], idx, l, st))
			}
			f.env[i] = x.fromLeaves(ts, v.typ.Elem())
		case *Term: // string
			x.safe(st, "index", c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.Len(v))), i.Pos())
			f.env[i] = c.At(v, idx)
		default:
			panic(unsupported("index of value"))
		}
		if st.dead {
			return nil
		}
		return st
	case *ssa.Lookup:
		return x.lookup(st, f, i)
	case *ssa.MapUpdate:
		x.mapUpdate(st, f, i)
		if st.dead {
			return nil
		}
		return st
	case *ssa.MakeMap:
		r := x.newObj(st, nil)
		mt := under(i.Type()).(*types.Map)
		x.mapInit(st, r, mt)
		f.env[i] = r
		return st
	case *ssa.MakeSlice:
		n := x.term(st, f, i.Len)
		cp := x.term(st, f, i.Cap)
		x.safe(st, "makeslice", c.And(c.Le(c.Int(0), n), c.Le(n, cp), c.Le(cp, c.BigInt(two(40)))), i.Pos())
		if st.dead {
			return nil
		}
		et := under(i.Type()).(*types.Slice).Elem()
		r := x.newObj(st, nil)
		for _, l := range leavesOf(et) {
			x.setElemContent(st, r, et, l.path, l, c.ConstArr(arrSort(SInt, l.sort), x.zeroTerm(l.sort)))
		}
		f.env[i] = &VSlice{r, c.Int(0), n, cp, et}
		return st
	case *ssa.Slice:
		f.env[i] = x.slice(st, f, i)
		if st.dead {
			return nil
		}
		return st
	case *ssa.MakeInterface:
		f.env[i] = x.makeIface(st, x.val(st, f, i.X), i.X.Type())
		return st
	case *ssa.ChangeInterface:
		v := x.val(st, f, i.X)
		x.closedIface(v, i.X.Type())
		f.env[i] = v
		return st
	case *ssa.ChangeType:
		v := x.val(st, f, i.X)
		switch a := v.(type) {
		case *VStruct:
			v = &VStruct{typ: i.Type(), fs: a.fs}
		case *Ptr:
			q := *a
			q.typ = under(i.Type()).(*types.Pointer).Elem()
			v = &q
		case *VSlice:
			q := *a
			if s, ok := under(i.Type()).(*types.Slice); ok {
				q.elem = s.Elem()
			}
			v = &q
		}
		f.env[i] = v
		return st
	case *ssa.Convert:
		f.env[i] = x.convert(st, x.val(st, f, i.X), i.X.Type(), i.Type())
		return st
	case *ssa.MakeClosure:
		var b []Value
		for _, v := range i.Bindings {
			b = append(b, x.val(st, f, v))
		}
		f.env[i] = &VFunc{fn: i.Fn.(*ssa.Function), bind: b}
		return st
	case *ssa.TypeAssert:
		return x.typeAssert(st, f, i)
	case *ssa.Extract:
		t, ok := x.val(st, f, i.Tuple).(*VTuple)
		if !ok {
			panic(unsupported("extract from non-tuple"))
		}
		f.env[i] = t.vs[i.Index]
		return st
	case *ssa.Range:
		switch u := under(i.X.Type()).(type) {
		case *types.Basic:
			cell := x.newObj(st, nil)
			x.write(st, "iter", leaf{"", SInt, types.Typ[types.Int], ""}, cell, c.Int(0))
			f.env[i] = &VIter{str: x.term(st, f, i.X), cell: cell}
		case *types.Map:
			cell := x.newObj(st, nil)
			x.write(st, "iter", leaf{"", SInt, types.Typ[types.Int], ""}, cell, c.Int(0))
			f.env[i] = &VIter{m: x.term(st, f, i.X), mt: u, cell: cell}
		default:
			panic(unsupported("range"))
		}
		return st
	case *ssa.Next:
		return x.next(st, f, i)
	case *ssa.If:
		cond := x.term(st, f, i.Cond)
		x.guardBound(st, f, cond)
		if _, known := x.decide(st, cond); !known {
			if s := x.tryMerge(st, f, cond); s != nil {
				return s
			}
		}
		t, e := x.branch(st, cond)
		if t != nil && e != nil {
			// e explored later
			if s := x.jump(e, e.top(), f.block.Succs[1]); s != nil {
				x.work = append(x.work, s)
			}
			return x.jump(t, t.top(), f.block.Succs[0])
		}
		if t != nil {
			return x.jump(t, t.top(), t.top().block.Succs[0])
		}
		if e != nil {
			return x.jump(e, e.top(), e.top().block.Succs[1])
		}
		return nil
	case *ssa.Jump:
		return x.jump(st, f, f.block.Succs[0])
	case *ssa.Return:
		var res []Value
		for _, r := range i.Results {
			res = append(res, x.val(st, f, r))
		}
		return x.ret(st, f, res)
	case *ssa.Panic:
		x.safe(st, "explicit panic", c.False, i.Pos())
		return nil
	case *ssa.Call:
		return x.callInstr(st, f, i, &i.Call, i)
	case *ssa.Defer:
		d := deferred{call: &i.Call}
		if i.Call.IsInvoke() {
			d.recv = x.val(st, f, i.Call.Value)
		} else {
			d.fn, _ = x.val(st, f, i.Call.Value).(*VFunc)
		}
		for _, a := range i.Call.Args {
			d.args = append(d.args, x.val(st, f, a))
		}
		f.defers = append(f.defers, d)
		return st
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			f.pc--
			if d.recv != nil {
				return x.invoke(st, f, nil, d.call, d.recv, d.args, i.Pos())
			}
			return x.callFunc(st, f, nil, d.fn, d.args, i.Pos())
		}
		return st
	}
	panic(unsupported(fmt.Sprintf("instruction %T in %s", ins, f.fn)))
}

func (x *Exec) initZero(st *State, p *Ptr) {
	w := len(st.writes)
	x.store(st, p, x.zero(p.typ))
	_ = w
}

func (x *Exec) nilcheck(st *State, p *Ptr, pos token.Pos) {
	if p.elem {
		return
	}
	if p.ref == x.c.Null {
		x.safe(st, "nil dereference", x.c.False, pos)
		return
	}
	cond := x.c.Not(x.c.Eq(p.ref, x.c.Null))
	if cond == x.c.True || st.knows(cond) {
		return
	}
	x.safe(st, "nil dereference", cond, pos)
}

func (x *Exec) fieldAddr(p *Ptr, i int) *Ptr {
	s := under(p.typ).(*types.Struct)
	ft := s.Field(i).Type()
	if p.elem {
		return &Ptr{elem: true, arr: p.arr, idx: p.idx, root: p.root, path: p.path + "." + s.Field(i).Name(), typ: ft}
	}
	if p.fst != nil {
		panic(unsupported("field of a field pointer"))
	}
	if _, ok := under(ft).(*types.Struct); ok {
		return &Ptr{ref: x.c.SubRef(p.ref, i), typ: ft}
	}
	if _, ok := isArray(ft); ok {
		return &Ptr{ref: x.c.SubRef(p.ref, i), typ: ft}
	}
	return &Ptr{ref: p.ref, fst: p.typ, fi: i, typ: ft}
}

func (x *Exec) indexAddr(st *State, f *Frame, i *ssa.IndexAddr) Value {
	c := x.c
	idx := x.term(st, f, i.Index)
	switch v := x.val(st, f, i.X).(type) {
	case *VSlice:
		x.safe(st, "index", c.And(c.Le(c.Int(0), idx), c.Lt(idx, v.ln)), i.Pos())
		return &Ptr{elem: true, arr: v.arr, idx: c.Add(v.off, idx), root: v.elem, typ: v.elem}
	case *Ptr:
		a, ok := isArray(v.typ)
		if !ok || v.elem {
			panic(unsupported("address of array element"))
		}
		x.nilcheck(st, v, i.Pos())
		x.safe(st, "index", c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.Int(a.Len()))), i.Pos())
		return &Ptr{elem: true, arr: v.ref, idx: idx, root: a.Elem(), typ: a.Elem()}
	}
	panic(unsupported("IndexAddr"))
}

func (x *Exec) slice(st *State, f *Frame, i *ssa.Slice) Value {
	c := x.c
	var lo, hi, mx *Term
	if i.Low != nil {
		lo = x.term(st, f, i.Low)
	} else {
		lo = c.Int(0)
	}
	if i.High != nil {
		hi = x.term(st, f, i.High)
	}
	if i.Max != nil {
		mx = x.term(st, f, i.Max)
	}
	switch v := x.val(st, f, i.X).(type) {
	case *Term:
		if v.sort != SStr {
			break
		}
		if hi == nil {
			hi = c.Len(v)
		}
		x.safe(st, "slice bounds", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, c.Len(v))), i.Pos())
		return c.SubStr(v, lo, hi)
	case *VSlice:
		if hi == nil {
			hi = v.ln
		}
		lim := v.cp
		if mx != nil {
			x.safe(st, "slice bounds", c.And(c.Le(hi, mx), c.Le(mx, v.cp)), i.Pos())
			lim = mx
		}
		if i.High == nil && i.Low == nil && i.Max == nil {
			return v
		}
		cond := c.And(c.Le(c.Int(0), lo), c.Le(lo, hi))
		if hi != v.ln {
			cond = c.And(cond, c.Le(hi, v.cp))
		}
		x.safe(st, "slice bounds", cond, i.Pos())
		return &VSlice{v.arr, c.Add(v.off, lo), c.Sub(hi, lo), c.Sub(lim, lo), v.elem}
	case *Ptr:
		a, ok := isArray(v.typ)
		if !ok || v.elem {
			break
		}
		n := c.Int(a.Len())
		if hi == nil {
			hi = n
		}
		x.safe(st, "slice bounds", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, n)), i.Pos())
		return &VSlice{v.ref, lo, c.Sub(hi, lo), c.Sub(n, lo), a.Elem()}
	}
	panic(unsupported("slice expression"))
}

func (x *Exec) typeID(t types.Type) *Term { return x.c.Int(int64(x.w.typeID(t))) }

func (x *Exec) makeIface(st *State, v Value, t types.Type) *VIface {
	if vi, ok := v.(*VIface); ok {
		return vi
	}
	if _, ok := under(t).(*types.Pointer); ok {
		p, ok := v.(*Ptr)
		if !ok {
			panic(unsupported("pointer value"))
		}
		if p.elem || p.fst != nil {
			// boxed address: usable only by engine-level consumers
			r := x.newObj(st, nil)
			x.boxes[r] = box{t, v}
			return &VIface{ref: r, dyn: t, val: v}
		}
		if p.ref == x.c.Null {
			r := x.c.NamedSym("typednil."+typeKey(t), SRef)
			x.boxes[r] = box{t, v}
			return &VIface{ref: r, dyn: t, val: v}
		}
		ty := x.c.App("typ", SInt, p.ref)
		if !p.ref.bound {
			x.c.Fact(ty, x.c.Eq(ty, x.typeID(t)))
			if p.ref.op == "obj" {
				x.c.Fact(p.ref, x.c.mk(&Term{op: "=", sort: SBool, args: []*Term{ty, x.typeID(t)}}))
			}
		}
		x.objType[p.ref] = p.typ
		return &VIface{ref: p.ref, dyn: t, val: v}
	}
	r := x.newObj(st, nil)
	delete(x.objType, r)
	x.boxes[r] = box{t, v}
	if _, ok := under(t).(*types.Struct); ok && types.NewMethodSet(t).Len() > 0 {
		raw := func(a, b *Term) { x.c.Fact(r, x.c.mk(&Term{op: "=", sort: SBool, args: []*Term{a, b}})) }
		raw(x.c.App("typ", SInt, r), x.typeID(t))
		ts := x.toLeaves(v, t)
		for k, l := range leavesOf(t) {
			if ts[k].bound {
				continue
			}
			u := x.typed(x.c.App("unbox."+typeKey(t)+l.path, l.sort, r), l, r.refStamp())
			raw(u, ts[k])
		}
	}
	return &VIface{ref: r, dyn: t, val: v}
}

func (x *Exec) typeAssert(st *State, f *Frame, i *ssa.TypeAssert) *State {
	c := x.c
	v, ok := x.val(st, f, i.X).(*VIface)
	if !ok {
		panic(unsupported("type assertion operand"))
	}
	finish := func(okT *Term, val Value) *State {
		if i.CommaOk {
			f.env[i] = &VTuple{[]Value{val, okT}}
			return st
		}
		x.safe(st, "type assertion", okT, i.Pos())
		if st.dead {
			return nil
		}
		f.env[i] = val
		return st
	}
	if it, isI := under(i.AssertedType).(*types.Interface); isI {
		if v.ref == c.Null {
			return finish(c.False, x.zero(i.AssertedType))
		}
		nn := c.Not(c.Eq(v.ref, c.Null))
		if it.NumMethods() == 0 {
			return finish(nn, v)
		}
		if v.dyn != nil {
			if types.Implements(v.dyn, it) {
				return finish(c.True, v)
			}
			return finish(c.False, x.zero(i.AssertedType))
		}
		okT := c.And(nn, c.App("impl."+typeKey(i.AssertedType), SBool, c.App("typ", SInt, v.ref)))
		return finish(okT, &VIface{ref: c.Ite(okT, v.ref, c.Null)})
	}
	// concrete type
	if v.ref == c.Null {
		return finish(c.False, x.zero(i.AssertedType))
	}
	if v.dyn != nil {
		if types.Identical(v.dyn, i.AssertedType) {
			return finish(c.True, v.val)
		}
		return finish(c.False, x.zero(i.AssertedType))
	}
	okT := c.And(c.Not(c.Eq(v.ref, c.Null)), c.Eq(c.App("typ", SInt, v.ref), x.typeID(i.AssertedType)))
	if pt, isP := under(i.AssertedType).(*types.Pointer); isP {
		if kv, kn := x.decide(st, okT); kn {
			if kv {
				return finish(c.True, &Ptr{ref: v.ref, typ: pt.Elem()})
			}
			return finish(c.False, x.zero(i.AssertedType))
		}
		if !i.CommaOk {
			return finish(okT, &Ptr{ref: v.ref, typ: pt.Elem()})
		}
		if st.pure {
			return finish(okT, &Ptr{ref: c.Ite(okT, v.ref, c.Null), typ: pt.Elem()})
		}
		// fork: keeps the pointer syntactic
		t, e := x.branch(st, okT)
		if e != nil {
			e.top().env[i] = &VTuple{[]Value{x.zero(i.AssertedType), c.False}}
			if t == nil {
				return e
			}
			x.work = append(x.work, e)
		}
		if t != nil {
			t.top().env[i] = &VTuple{[]Value{&Ptr{ref: v.ref, typ: pt.Elem()}, c.True}}
		}
		return t
	}
	ls := leavesOf(i.AssertedType)
	ts := make([]*Term, len(ls))
	for k, l := range ls {
		// what a box holds is no younger than the box
		ts[k] = x.typed(c.App("unbox."+typeKey(i.AssertedType)+l.path, l.sort, v.ref), l, v.ref.refStamp())
		if i.CommaOk {
			ts[k] = c.Ite(okT, ts[k], x.zeroTerm(l.sort))
		}
	}
	return finish(okT, x.fromLeaves(ts, i.AssertedType))
}

// ---- return and calls

func (x *Exec) ret(st *State, f *Frame, res []Value) *State {
	// leaving a harness in apply mode delivers the target's results
	if f.mode == mApply && f.h.kind != "lemma" {
		res = f.ap.results
		if !f.ap.called {
			panic(unsupported("contract " + f.h.name + " ends without calling its target"))
		}
		if f.h.target != nil {
			st.calls = &callRec{f.h.target.Name(), res, st.calls}
		}
	}
	if f.mode == mVerify {
		x.task.endpoint(x, st)
	}
	st.frames = st.frames[:len(st.frames)-1]
	if f.onReturn != nil {
		f.onReturn(st, res)
		if st.dead {
			return nil
		}
		return st
	}
	if len(st.frames) <= x.baseDepth {
		if x.terminals != nil {
			x.terminals(st, res)
		}
		return nil
	}
	if f.bind != nil {
		x.bindRes(st.top(), f.bind, res)
	}
	return st
}

func (x *Exec) bindRes(f *Frame, v ssa.Value, res []Value) {
	if v == nil {
		return
	}
	if _, ok := v.Type().(*types.Tuple); ok {
		f.env[v] = &VTuple{res}
		return
	}
	if len(res) == 1 {
		f.env[v] = res[0]
	}
}

func (x *Exec) callInstr(st *State, f *Frame, bind ssa.Value, call *ssa.CallCommon, ins ssa.CallInstruction) *State {
	var args []Value
	for _, a := range call.Args {
		args = append(args, x.val(st, f, a))
	}
	if call.IsInvoke() {
		return x.invoke(st, f, bind, call, x.val(st, f, call.Value), args, ins.Pos())
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		return x.builtin(st, f, bind, b, call, args, ins.Pos())
	}
	fv, ok := x.val(st, f, call.Value).(*VFunc)
	if !ok {
		panic(unsupported("call of unknown function value"))
	}
	return x.callFunc(st, f, bind, fv, args, ins.Pos())
}

func (x *Exec) invoke(st *State, f *Frame, bind ssa.Value, call *ssa.CallCommon, recv Value, args []Value, pos token.Pos) *State {
	v, ok := recv.(*VIface)
	if !ok {
		panic(unsupported("invoke on non-interface"))
	}
	if f.h != nil && f.mode == mApply && f.ap != nil && !f.ap.called && f.h.method != nil && f.h.method.Name() == call.Method.Name() {
		f.ap.called = true
		x.applyEffects(st, f, nil, args, bind)
		return st
	}
	x.safe(st, "nil interface call", x.c.Not(x.c.Eq(v.ref, x.c.Null)), pos)
	if st.dead {
		return nil
	}
	if v.dyn == nil {
		// a known type fact?
		for _, im := range x.w.implementers(call.Value.Type()) {
			t := x.c.Eq(x.c.App("typ", SInt, v.ref), x.typeID(im))
			if st.knows(t) {
				if pt, ok := im.(*types.Pointer); ok {
					v = &VIface{ref: v.ref, dyn: im, val: &Ptr{ref: v.ref, typ: pt.Elem()}}
				}
				break
			}
		}
	}
	if v.dyn != nil {
		if fn := x.w.method(v.dyn, call.Method); fn != nil {
			return x.callFunc(st, f, bind, &VFunc{fn: fn}, append([]Value{v.val}, args...), pos)
		}
	}
	key := typeKey(call.Value.Type()) + "." + call.Method.Name()
	h := x.w.ifaceContract(key)
	if h == nil {
		h = x.w.ifaceM[call.Method]
	}
	if h != nil {
		x.closedIface(v, call.Value.Type())
		return x.applyContract(st, bind, h, append([]Value{v}, args...), key, pos)
	}
	if r, ok := x.stdInvoke(st, f, bind, key, call, v, args, pos); ok {
		return r
	}
	panic(unsupported("call of " + key + " on an unknown dynamic type"))
}

func (x *Exec) callFunc(st *State, f *Frame, bind ssa.Value, fv *VFunc, args []Value, pos token.Pos) *State {
	if fv == nil {
		panic(unsupported("call of unknown function value"))
	}
	if fv.bi != nil {
		return x.builtin(st, f, bind, fv.bi, nil, args, pos)
	}
	if fv.fn == nil {
		return x.opaqueFuncValue(st, f, bind, fv, args, pos)
	}
	fn := fv.fn
	// contract intrinsics
	if x.w.isGhost(fn) && strings.HasPrefix(fn.Name(), "v_") {
		return x.intrinsic(st, f, bind, fn, args, pos)
	}
	// standard library models
	full := fnName(fn)
	if r, ok := x.std(st, f, bind, full, fn, args, pos); ok {
		return r
	}
	// in a harness: the call of its own target
	if f.h != nil && f.ap != nil && f.h.target == fn && !f.ap.called {
		f.ap.called = true
		if f.mode == mApply {
			f.ap.entry = st.clone()
			x.applyEffects(st, f, fn, args, bind)
			return st
		}
		if f.mode == mVerify {
			f.ap.entryWr = len(st.writes)
			f.ap.entryAl = st.alloc
			e := st.clone()
			f.ap.entry = e
			depth := len(st.frames)
			return x.push(st, fn, fv.bind, args, bind, func(s *State, res []Value) {
				hf := s.frames[depth-1]
				if bind != nil {
					x.bindRes(hf, bind, res)
				}
				x.frameCheck(s, hf, res)
			})
		}
	}
	if len(fn.Blocks) == 0 {
		return x.external(st, f, bind, full, fn, args, pos)
	}
	ghost := x.w.isGhost(fn)
	if h := x.w.lemmas[fn]; h != nil {
		if f.mode == mApply && f.h != nil && f.h.kind != "lemma" {
			return st // a step of the contract's own proof
		}
		if st.pure {
			panic(unsupported("lemma inside a specification: " + fn.Name()))
		}
		for _, g := range st.frames {
			if g.mode == mVerify && x.w.lemmas[g.fn] != nil && (g.fn.Pos() < fn.Pos() || g.fn == fn && g.ap.measure == nil) {
				panic(unsupported("lemma " + g.fn.Name() + " rests on a later lemma or on itself without a measure"))
			}
		}
		return x.applyContract(st, bind, h, args, fn.Name(), pos)
	}
	if ghost && x.w.uf[full] { // an arbitrary function of its arguments
		if x.foldKeys[fn] == nil {
			x.foldKeys[fn] = map[string]bool{}
		}
		x.noUnfold++
		r := x.fold(st, fn, args, false)
		x.noUnfold--
		if bind != nil {
			f.env[bind] = r
		}
		return st
	}
	if ghost {
		if x.w.opaque[full] && !x.w.isRecursive(fn) {
			r := x.fold(st, fn, args, false)
			if bind != nil {
				f.env[bind] = r
			}
			return st
		}
		if x.w.isRecursive(fn) {
			r := x.fold(st, fn, args, !x.w.opaque[full])
			if bind != nil {
				f.env[bind] = r
			}
			return st
		}
		if x.w.pureMerge[fn] || st.pure {
			r := x.pureCall(st, fn, fv.bind, args)
			if bind != nil {
				f.env[bind] = r
			}
			return st
		}
		return x.push(st, fn, fv.bind, args, bind, nil)
	}
	if !x.w.inModule(fn) {
		return x.external(st, f, bind, full, fn, args, pos)
	}
	if x.w.opaque[full] {
		r := x.fold(st, fn, args, false)
		if bind != nil {
			f.env[bind] = r
		}
		return st
	}
	if x.w.uf[full] {
		if x.foldKeys[fn] == nil {
			x.foldKeys[fn] = map[string]bool{}
		}
		x.noUnfold++
		r := x.fold(st, fn, args, false)
		x.noUnfold--
		if bind != nil {
			f.env[bind] = r
		}
		x.task.noteModel("uninterpreted here, under its own contract: " + full)
		return st
	}
	if x.w.pureFn[full] {
		r := x.pureCall(st, fn, fv.bind, args)
		if bind != nil {
			f.env[bind] = r
		}
		return st
	}
	if h := x.w.contracts[full]; h != nil && !h.verifyOnly && !x.task.inlineOnly[full] {
		if st.pure {
			panic(unsupported("contract application inside a specification: " + full))
		}
		return x.applyContract(st, bind, h, args, full, pos)
	}
	// inline
	depth := 0
	for _, g := range st.frames {
		if g.fn == fn {
			depth++
		}
	}
	if depth > 3 {
		panic(unsupported("recursion without a contract: " + full))
	}
	x.task.noteInlined(full)
	return x.push(st, fn, fv.bind, args, bind, nil)
}

func (x *Exec) push(st *State, fn *ssa.Function, free []Value, args []Value, bind ssa.Value, onRet func(*State, []Value)) *State {
	if len(st.frames) > 60 {
		panic(unsupported("call depth"))
	}
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body: " + fn.String()))
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, block: fn.Blocks[0], bind: bind, onReturn: onRet}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, v := range fn.FreeVars {
		fr.env[v] = free[i]
	}
	st.frames = append(st.frames, fr)
	return st
}

func fnName(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	s := fn.RelString(nil)
	return s
}

// pureCall evaluates a side-effect-free function and merges its paths.
func (x *Exec) pureCall(st *State, fn *ssa.Function, free []Value, args []Value) Value {
	y := x.sub()
	s := st.clone()
	s.pure = true
	if !st.pure {
		s.pureSince = x.c.objN + 1
	}
	base := len(s.pc)
	y.baseDepth = len(s.frames)
	y.maxPaths = 4000
	y.paths = 0
	type out struct {
		cond *Term
		res  []Value
	}
	var outs []out
	maxAlloc := st.alloc
	y.terminals = func(t *State, res []Value) {
		outs = append(outs, out{x.c.And(t.pc[base:]...), res})
		if t.alloc > maxAlloc {
			maxAlloc = t.alloc
		}
	}
	y.push(s, fn, free, args, nil, nil)
	y.run(s)
	x.z3 = y.z3
	x.havocN = y.havocN
	x.steps = y.steps
	if len(outs) == 0 {
		if rs := fn.Signature.Results(); fn.Parent() != nil && rs.Len() == 1 && isBool(rs.At(0).Type()) {
			return x.c.Sym("undefined", SBool) // where nothing is in range
		}
		panic(unsupported("pure function " + fn.String() + " has no result"))
	}
	rt := fn.Signature.Results()
	if rt.Len() == 0 {
		return nil
	}
	st.alloc = x.c.objN + 1
	_ = maxAlloc
	var r []Value
	for k := 0; k < rt.Len(); k++ {
		v := outs[len(outs)-1].res[k]
		for i := len(outs) - 2; i >= 0; i-- {
			v = x.iteVal(outs[i].cond, outs[i].res[k], v, rt.At(k).Type())
		}
		r = append(r, v)
	}
	if len(r) == 1 {
		return r[0]
	}
	return &VTuple{r}
}

// fold treats fn as an uninterpreted function of its arguments and of the
// heap it reads, with its body as a definitional fact.
func (x *Exec) fold(st *State, fn *ssa.Function, args []Value, recursive bool) Value {
	c := x.c
	sig := fn.Signature
	var pts []types.Type
	for _, p := range fn.Params {
		pts = append(pts, p.Type())
	}
	var targs []*Term
	for i, a := range args {
		switch pt := under(pts[i]).(type) {
		case *types.Pointer:
			p := a.(*Ptr)
			if p.elem || p.fst != nil {
				panic(unsupported("element address passed to a specification function"))
			}
			_ = pt
		}
		targs = append(targs, x.toLeaves(a, pts[i])...)
	}
	rts := sig.Results()
	mkApp := func(keys map[string]bool) Value {
		var ks []string
		for k := range keys {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		tag := ""
		var chs []*chain
		for _, k := range ks {
			ch, ok := st.heap[k]
			if !ok {
				ch, ok = x.bases[k]
				if !ok {
					continue
				}
			}
			chs = append(chs, ch)
		}
		limit := reachLimit(targs, chs)
		for _, ch := range chs {
			tag += fmt.Sprintf("_%d", x.chainID(ch, limit))
		}
		var vs []Value
		for i := 0; i < rts.Len(); i++ {
			ls := leavesOf(rts.At(i).Type())
			ts := make([]*Term, len(ls))
			for k, l := range ls {
				if l.kind == "off" {
					ts[k] = c.Int(0)
					continue
				}
				nm := fmt.Sprintf("F.%s.%d%s%s", fn.Name(), i, l.path, tag)
				stamp := st.alloc
				free := x.w.isGhost(fn) && x.w.uf[fnName(fn)] // leads to nothing the code under contract makes
				if free {
					stamp = x.preStamp
				}
				ts[k] = x.typed(c.App(nm, l.sort, targs...), l, stamp)
				if i == 0 && k == 0 && !free {
					if _, had := x.task.foldApps["app:"+nm]; !had {
						h := make(map[string]*chain, len(st.heap))
						for k, v := range st.heap {
							h[k] = v
						}
						x.task.foldApps["app:"+nm] = foldApp{fn, recursive, h}
					}
				}
			}
			vs = append(vs, x.fromLeaves(ts, rts.At(i).Type()))
		}
		if len(vs) == 1 {
			return vs[0]
		}
		return &VTuple{vs}
	}
	if x.foldBusy[fn] { // inside its own unfolding
		if n := len(x.foldStack); n > 0 && x.foldStack[n-1] != fn {
			panic(unsupported("mutually recursive specification functions " + fn.Name() + " and " + x.foldStack[n-1].Name()))
		}
		return mkApp(x.foldKeys[fn])
	}
	anyBound := false
	for _, t := range targs {
		if t.bound {
			anyBound = true
		}
	}
	unfoldAt := func(args []Value) Value {
		x.foldBusy[fn] = true
		x.foldStack = append(x.foldStack, fn)
		saved := x.footprint
		x.footprint = map[string]*chain{}
		since := x.footSince
		x.footSince = c.objN + 1
		defer func() {
			x.footSince = since
			x.foldBusy[fn] = false
			x.foldStack = x.foldStack[:len(x.foldStack)-1]
			for k, v := range x.footprint {
				if saved != nil {
					saved[k] = v
				}
				_ = v
			}
			x.footprint = saved
		}()
		// the definition holds on every path, so nothing of this path enters it
		st0 := st.clone()
		st0.pc = nil
		st0.facts = map[*Term]bool{}
		r := x.pureCall(st0, fn, nil, args)
		st.alloc = st0.alloc
		grew := false
		for k := range x.footprint {
			if strings.HasPrefix(k, "cell:") || k == "iter" {
				// locals of the specification itself
			}
			if !x.foldKeys[fn][k] {
				debugf("footprint of %s gains %s", fn.Name(), k)
				x.foldKeys[fn][k] = true
				grew = true
			}
		}
		if grew {
			return nil
		}
		return r
	}
	unfold := func() Value { return unfoldAt(args) }
	if _, ok := x.foldKeys[fn]; !ok {
		// which parts of the heap the function reads, whatever its arguments
		x.foldKeys[fn] = map[string]bool{}
		x.discover(fn, func() {
			st1 := st.clone()
			var any []Value
			for i, p := range fn.Params {
				any = append(any, x.symbolic(st1, fmt.Sprintf("any%d", i), p.Type()))
			}
			unfoldAt(any)
		})
		unfold()
		for k := range x.foldExtra[fn] {
			x.foldKeys[fn][k] = true
		}
	}
	app := mkApp(x.foldKeys[fn])
	if x.footprint != nil {
		for k := range x.foldKeys[fn] {
			if ch, ok := st.heap[k]; ok {
				x.footprint[k] = ch
			} else if ch, ok := x.bases[k]; ok {
				x.footprint[k] = ch
			}
		}
	}
	if x.noUnfold > 0 || anyBound {
		return app
	}
	var key *Term
	var at []*Term
	for i := 0; i < rts.Len(); i++ {
		var v Value = app
		if rts.Len() > 1 {
			v = app.(*VTuple).vs[i]
		}
		at = append(at, x.toLeaves(v, rts.At(i).Type())...)
	}
	for _, t := range at {
		if !t.isNum() {
			key = t
			break
		}
	}
	if key == nil {
		return app
	}
	if x.task.unfolded[key] {
		return app
	}
	x.task.unfolded[key] = true
	x.noUnfold++
	var body Value
	for tries := 0; tries < 4 && body == nil; tries++ {
		body = unfold()
	}
	x.noUnfold--
	if body == nil {
		panic(unsupported("heap footprint of " + fn.String()))
	}
	if n := len(x.foldKeys[fn]); x.foldUsed[fn] > 0 && x.foldUsed[fn] != n {
		x.foldExtra[fn] = x.foldKeys[fn]
		x.task.again = true
		panic(unsupported("heap footprint of " + fn.String() + " grew"))
	} else {
		x.foldUsed[fn] = n
	}
	if app2 := mkApp(x.foldKeys[fn]); rts.Len() == 1 {
		app = app2
		at = x.toLeaves(app, rts.At(0).Type())
	}
	var bt []*Term
	for i := 0; i < rts.Len(); i++ {
		v := body
		if rts.Len() > 1 {
			v = body.(*VTuple).vs[i]
		}
		bt = append(bt, x.toLeaves(v, rts.At(i).Type())...)
	}
	for i := range at {
		if at[i].isNum() {
			continue
		}
		eq := x.rawEq(at[i], bt[i])
		debugf("unfold %v %s = %s", recursive, clip(x.c.show(at[i]), 300), clip(x.c.show(bt[i]), 300))
		if recursive {
			c.Fact(at[i], eq)
		} else {
			c.defs2[at[i]] = append(c.defs2[at[i]], eq)
			if !at[i].bound && !bt[i].bound {
				x.task.bodies[at[i]] = bt[i]
			}
		}
	}
	return app
}

func (x *Exec) discover(fn *ssa.Function, f func()) {
	stack, keys := len(x.foldStack), x.noUnfold
	saved := x.footprint
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupportedErr); !ok {
				panic(r)
			}
			debugf("footprint of %s: %v", fn, r)
			x.foldStack = x.foldStack[:stack]
			x.noUnfold = keys
			x.footprint = saved
			x.foldBusy[fn] = false
		}
	}()
	x.noUnfold++
	f()
	x.noUnfold--
}

func (x *Exec) rawEq(a, b *Term) *Term {
	if b.op == "ite" {
		return x.c.Ite(b.args[0], x.rawEq(a, b.args[1]), x.rawEq(a, b.args[2]))
	}
	if a == b {
		return x.c.True
	}
	return x.c.mk(&Term{op: "=", sort: SBool, args: []*Term{a, b}})
}

// chainID names what the chain says of the objects older than limit (0: of
// all): what was written to newer objects is left out.
func (x *Exec) chainID(ch *chain, limit int) int {
	for limit > 0 && ch.newerThan(limit) {
		ch = ch.prev
	}
	k := chainKey{limit: limit, ch: ch}
	if n, ok := x.chainIDs[k]; ok {
		return n
	}
	sig := chainKey{ch: ch}
	if ch.kind == 1 {
		sig = chainKey{prev: x.chainID(ch.prev, limit), ref: ch.ref, val: ch.val}
	} else if ch.kind == 2 {
		sig = chainKey{prev: x.chainID(ch.prev, limit), ch: ch}
	}
	sig.sig = true
	n, ok := x.chainIDs[sig]
	if !ok {
		n = len(x.chainIDs) + 1
		x.chainIDs[sig] = n
	}
	x.chainIDs[k] = n
	return n
}

type chainKey struct {
	limit int
	ch    *chain
	sig   bool
	prev  int
	ref   *Term
	val   *Term
}

// newerThan: the topmost entry concerns objects with ids from limit on only.
func (ch *chain) newerThan(limit int) bool {
	switch ch.kind {
	case 1:
		return ch.ref.op != "null" && ch.ref.refRoot().refLow() >= limit
	case 2:
		return ch.since >= limit
	}
	return false
}

// reachLimit: everything that can be reached from the arguments through the
// chains has an id below the result (0: not known).
func reachLimit(args []*Term, chs []*chain) int {
	limit := 1
	seen := func(t *Term) bool {
		n := 0
		switch {
		case t.op == "null":
			return true
		case t.sort == SRef:
			n = t.refRoot().refStamp()
		case t.sort.isArr():
			switch t.sort.elem() {
			case SInt, SReal, SBool, SStr:
				return true
			}
			n = contentStamp(t)
		case t.sort == SInt || t.sort == SReal || t.sort == SBool || t.sort == SStr:
			return true
		}
		if n == 0 {
			return false
		}
		if n > limit {
			limit = n
		}
		return true
	}
	for _, a := range args {
		if !seen(a) {
			return 0
		}
	}
	for again := true; again; {
		was := limit
		for _, ch := range chs {
			for ; ch != nil; ch = ch.prev {
				if ch.newerThan(limit) {
					continue
				}
				switch ch.kind {
				case 1:
					if !seen(ch.val) {
						return 0
					}
				default:
					plain := ch.leaf.sort
					if plain.isArr() {
						plain = plain.elem()
					}
					switch plain {
					case SInt, SReal, SBool, SStr:
					default:
						if ch.stamp == 0 {
							return 0
						}
						if ch.stamp > limit {
							limit = ch.stamp
						}
					}
				}
			}
		}
		again = limit != was
	}
	return limit
}

// ---- obligations

func (x *Exec) obligation(st *State, name string, goal *Term) {
	if x.dry != nil || st.pure {
		return
	}
	x.task.obligation(x, st, name, goal)
}

func debugf(format string, a ...interface{}) {
	if os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, format+"\n", a...)
	}
}

type foldApp struct {
	fn        *ssa.Function
	recursive bool
	heap      map[string]*chain // where it was first spoken of
}

// skolem: to prove a statement for all values, prove it for a new one; what
// is known for all values and what the specification functions say is spelled
// out for that one.
func (x *Exec) skolem(st *State, goal *Term) (*State, *Term) {
	c := x.c
	var all []*Term
	var pos func(t *Term) *Term
	pos = func(t *Term) *Term {
		switch t.op {
		case "forall":
			m := map[*Term]*Term{}
			var sks []*Term
			for _, v := range t.args[:len(t.args)-1] {
				m[v] = c.Sym("sk", v.sort)
				sks = append(sks, m[v])
			}
			all = append(all, sks...)
			return pos(x.stored(c.Subst(t.args[len(t.args)-1], m), sks))
		case "ite":
			if hasForall(t) {
				return c.And(pos(c.Or(c.Not(t.args[0]), t.args[1])), pos(c.Or(t.args[0], t.args[2])))
			}
		case "or", "and":
			as := make([]*Term, len(t.args))
			for i, a := range t.args {
				as[i] = pos(a)
			}
			if t.op == "or" {
				return c.Or(as...)
			}
			return c.And(as...)
		}
		return t
	}
	if goal.bound {
		return st, goal
	}
	if !hasForall(goal) {
		return st, goal
	}
	goal = pos(goal)
	if len(all) == 0 {
		return st, goal
	}
	st2 := st.clone()
	have := map[*Term]bool{}
	for _, s := range all {
		have[s] = true
	}
	visited := map[*Term]bool{}
	var indexes func(t *Term)
	indexes = func(t *Term) {
		if visited[t] || t.op == "forall" {
			return
		}
		visited[t] = true
		if t.op == "select" && t.args[1].sort == SInt && !t.args[1].isNum() && !t.args[1].bound && !have[t.args[1]] {
			have[t.args[1]] = true
			all = append(all, t.args[1])
		}
		for _, a := range t.args {
			indexes(a)
		}
		for _, mo := range t.monos {
			for _, f := range mo.fs {
				indexes(f)
			}
		}
	}
	if nsk := len(all); nsk <= 2 {
		indexes(goal)
		if len(all) > nsk+2 {
			all = all[:nsk+2]
		}
	}
	if len(all) <= 4 {
		var inst func(p *Term, depth int)
		inst = func(p *Term, depth int) {
			switch {
			case p.op == "and":
				for _, a := range p.args {
					inst(a, depth)
				}
			case p.op == "forall" && len(p.args) == 2:
				for _, s := range all {
					if s.sort == p.args[0].sort {
						q := c.Subst(p.args[1], map[*Term]*Term{p.args[0]: s})
						st2.pc = append(st2.pc, q)
						if depth == 0 && q.op == "or" {
							// guard -> forall
							for i, a := range q.args {
								if a.op == "forall" {
									rest := append(append([]*Term{}, q.args[:i]...), q.args[i+1:]...)
									for _, s2 := range all {
										if s2.sort == a.args[0].sort && len(a.args) == 2 {
											st2.pc = append(st2.pc, c.Or(append(append([]*Term{}, rest...), c.Subst(a.args[1], map[*Term]*Term{a.args[0]: s2}))...))
										}
									}
								}
							}
						}
					}
				}
			}
		}
		for _, p := range st.pc {
			inst(p, 0)
		}
	}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || t.op == "forall" {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		for _, mo := range t.monos {
			for _, f := range mo.fs {
				walk(f)
			}
		}
		fa, ok := x.task.foldApps[t.op]
		if !ok || t.bound || x.task.unfolded[t] {
			return
		}
		var args []Value
		n := 0
		for _, p := range fa.fn.Params {
			k := len(leavesOf(p.Type()))
			if n+k > len(t.args) {
				return
			}
			args = append(args, x.fromLeaves(t.args[n:n+k], p.Type()))
			n += k
		}
		if n != len(t.args) {
			return
		}
		st3 := st.clone()
		st3.heap = fa.heap
		x.noUnfold++
		same := x.fold(st3, fa.fn, args, fa.recursive)
		x.noUnfold--
		if ls := x.toLeaves(firstOf(same), fa.fn.Signature.Results().At(0).Type()); ls[0] != t {
			debugf("unfolding %s: %s is not %s", fa.fn.Name(), ls[0].op, t.op)
			return
		}
		x.unfoldQuietly(st3, fa, args)
	}
	walk(goal)
	for _, p := range st2.pc[len(st.pc):] {
		walk(p)
	}
	return st2, x.simp(st, goal)
}

// atKeys: what is known for all values, spelled out for the keys and indices
// at which the goal reads maps and arrays (texts built from pieces are compared
// here, not by the solvers).
func (x *Exec) atKeys(st *State, goal *Term, sort Sort) *State {
	c := x.c
	var facts []*Term
	for _, p := range st.pc {
		if p.op == "forall" && len(p.args) == 2 && p.args[0].sort == sort {
			facts = append(facts, p)
		}
	}
	if len(facts) == 0 || len(facts) > 20 {
		return st
	}
	var keys []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || t.op == "forall" || len(keys) > 3 {
			return
		}
		seen[t] = true
		if t.op == "select" && t.args[1].sort == sort && !t.args[1].bound && !t.args[1].isLit() {
			have := false
			for _, k := range keys {
				have = have || k == t.args[1]
			}
			if !have {
				keys = append(keys, t.args[1])
			}
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, mo := range t.monos {
			for _, f := range mo.fs {
				walk(f)
			}
		}
	}
	walk(goal)
	if len(keys) == 0 || len(keys) > 3 {
		return st
	}
	st2 := st.clone()
	for _, p := range facts {
		for _, k := range keys {
			if q := c.Subst(p.args[1], map[*Term]*Term{p.args[0]: k}); q != c.True {
				st2.pc = append(st2.pc, q)
			}
		}
	}
	return st2
}

// unfoldQuietly: an unfolding that does not work out is left out.
func (x *Exec) unfoldQuietly(st *State, fa foldApp, args []Value) {
	stack, keys, saved, since := len(x.foldStack), x.noUnfold, x.footprint, x.footSince
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupportedErr)
			if !ok || !strings.Contains(u.msg, "has no result") {
				panic(r)
			}
			for _, f := range x.foldStack[stack:] {
				x.foldBusy[f] = false
			}
			x.foldStack = x.foldStack[:stack]
			x.noUnfold, x.footprint, x.footSince = keys, saved, since
			x.foldBusy[fa.fn] = false
			debugf("unfolding %s: %s", fa.fn.Name(), u.msg)
		}
	}()
	x.fold(st, fa.fn, args, fa.recursive)
}

// stored: where the goal reads elements that were written one by one, the
// written ones are cases of their own.
func (x *Exec) stored(g *Term, sks []*Term) *Term {
	c := x.c
	isSk := map[*Term]bool{}
	for _, s := range sks {
		isSk[s] = true
	}
	type cas struct{ sk, at *Term }
	var cases []cas
	had := map[cas]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "select" && isSk[t.args[1]] {
			for a := t.args[0]; a.op == "store"; a = a.args[0] {
				if k := (cas{t.args[1], a.args[1]}); !had[k] && !k.at.bound {
					had[k] = true
					cases = append(cases, k)
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, mo := range t.monos {
			for _, f := range mo.fs {
				walk(f)
			}
		}
	}
	walk(g)
	if len(cases) == 0 || len(cases) > 4 {
		return g
	}
	out := []*Term{}
	rest := []*Term{g}
	for _, k := range cases {
		out = append(out, c.Subst(g, map[*Term]*Term{k.sk: k.at}))
		rest = append(rest, c.Eq(k.sk, k.at))
	}
	return c.And(append(out, c.Or(rest...))...)
}

func hasForall(t *Term) bool {
	if t.op == "forall" {
		return true
	}
	if t.op == "or" || t.op == "and" || t.op == "ite" && t.sort == SBool {
		for _, a := range t.args {
			if hasForall(a) {
				return true
			}
		}
	}
	return false
}

func firstOf(v Value) Value {
	if t, ok := v.(*VTuple); ok {
		return t.vs[0]
	}
	return v
}
