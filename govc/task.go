package main

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obl is one named obligation (all its instances on the explored paths).
type Obl struct {
	Name      string            `json:"name"`
	Instances int               `json:"instances"`
	Status    string            `json:"status"` // proved, refuted, undecided
	Backends  map[string]int    `json:"backends"`
	Millis    int64             `json:"ms"`
	Detail    string            `json:"detail,omitempty"`
	Model     map[string]string `json:"model,omitempty"`
	failed    int
}

// Task verifies one harness.
type Task struct {
	again      bool // a specification function turned out to read more of the heap: start over
	h          *Harness
	w          *World
	prop       string
	all        bool // report every obligation, whatever its prefix
	obls       map[string]*Obl
	order      []string
	solver     map[string]time.Duration
	queries    int
	endpoints  int
	covered    bool
	paths      int
	feas       int
	inlined    map[string]bool
	appliedH   map[string]*Harness
	models     map[string]bool
	externals  map[string]bool
	assumes    map[string]bool
	unfolded   map[*Term]bool
	bodies     map[*Term]*Term
	foldApps   map[string]foldApp
	inlineOnly map[string]bool
	err        string
	millis     int64
	failures   int
	factor     int
	skipped    int
	x          *Exec
	pending    []pendingObl
}

type pendingObl struct{}

func newTask(w *World, h *Harness, prop string) *Task {
	t := &Task{h: h, w: w, prop: prop, obls: map[string]*Obl{}, solver: map[string]time.Duration{}, inlined: map[string]bool{}, appliedH: map[string]*Harness{},
		models: map[string]bool{}, externals: map[string]bool{}, assumes: map[string]bool{}, unfolded: map[*Term]bool{}, bodies: map[*Term]*Term{}, foldApps: map[string]foldApp{}, inlineOnly: map[string]bool{}, factor: 1}
	for _, n := range h.inline {
		t.inlineOnly[n] = true
	}
	return t
}

func (t *Task) solverTime(n string, d time.Duration) { t.solver[n] += d; t.queries++ }
func (t *Task) noteInlined(n string)                 { t.inlined[n] = true }
func (t *Task) noteApplied(h *Harness) {
	if h.assumed {
		t.assumes[h.name+": the whole contract of "+h.targetName+" (not verified)"] = true
		return
	}
	t.appliedH[h.name] = h
}
func (t *Task) noteModel(n string)    { t.models[n] = true }
func (t *Task) noteExternal(n string) { t.externals[n] = true }
func (t *Task) noteAssume(rf *Frame, at string) {
	n := ""
	if rf != nil && rf.h != nil {
		n = rf.h.name
	}
	t.assumes[n+" "+at] = true
}

func (t *Task) endpoint(x *Exec, st *State) {
	t.endpoints++
	if !t.covered {
		script := x.c.script(st.pc, nil, false, true)
		if x.query(script, 1500) != "unsat" {
			t.covered = true
		} else if d := os.Getenv("GOVC_VAC"); d != "" {
			os.WriteFile(fmt.Sprintf("%s/%s-%d.smt2", d, t.h.name, t.endpoints), []byte(script), 0o644)
		}
	}
}

var propPrefix = regexp.MustCompile(`^(C\d\d(?:\+C\d\d)*)\.`)

// wanted: an obligation labelled with another property is left to that property's check.
func (t *Task) wanted(name string) bool {
	if t.all || t.prop == "" {
		return true
	}
	m := propPrefix.FindStringSubmatch(name)
	return m == nil || strings.Contains(m[1], t.prop)
}

func (t *Task) get(name string) *Obl {
	o := t.obls[name]
	if o == nil {
		o = &Obl{Name: name, Status: "proved", Backends: map[string]int{}}
		t.obls[name] = o
		t.order = append(t.order, name)
	}
	return o
}

func (t *Task) obligation(x *Exec, st *State, name string, goal *Term) {
	if !t.wanted(name) {
		t.skipped++
		return
	}
	o := t.get(name)
	goal = x.simp(st, goal)
	if goal != x.c.True {
		// not for all, as a premise, is for all, as the goal
		for i, p := range st.pc {
			if p.op == "not" && p.args[0].op == "forall" {
				st = st.clone()
				st.pc = append(append([]*Term{}, st.pc[:i]...), st.pc[i+1:]...)
				goal = x.c.Or(goal, p.args[0])
				break
			}
		}
	}
	if hasForall(goal) {
		st, goal = x.skolem(st, goal)
		for _, g := range conjuncts(x.c, goal, 64) {
			t.one(x, st, o, g)
		}
		return
	}
	if goal.op == "and" {
		for _, g := range goal.args {
			t.one(x, st, o, g)
		}
		return
	}
	t.one(x, st, o, goal)
}

// conjuncts splits a goal into parts that can be proved one by one.
func conjuncts(c *Ctx, g *Term, max int) []*Term {
	switch g.op {
	case "and":
		var out []*Term
		for _, a := range g.args {
			out = append(out, conjuncts(c, a, max-len(out))...)
		}
		return out
	case "or":
		for i, a := range g.args {
			if a.op != "and" || len(a.args) > max {
				continue
			}
			rest := append(append([]*Term{}, g.args[:i]...), g.args[i+1:]...)
			var out []*Term
			for _, b := range a.args {
				out = append(out, conjuncts(c, c.Or(append([]*Term{b}, rest...)...), max-len(out))...)
			}
			return out
		}
	}
	return []*Term{g}
}

func (t *Task) one(x *Exec, st *State, o *Obl, goal *Term) {
	o.Instances++
	if goal == x.c.True {
		o.Backends["simplifier"]++
		return
	}
	if o.failed >= 1 || t.failures >= 6 {
		if o.Status == "proved" {
			o.Status = "undecided"
			o.Detail = "not attempted after earlier failures"
		}
		return
	}
	t0 := time.Now()
	if anyForall(st.pc) {
		st = x.atKeys(x.atKeys(st, goal, SStr), goal, SInt)
	}
	if anyForall(st.pc) && (goal.op == "=" || goal.op == "or") && goal.nodes(2000) < 2000 {
		// what is known for all values may settle a text at once
		if r, _ := t.ask(x, x.c.script(st.pc, goal, false, false), 250*t.factor); r == "unsat" {
			o.Backends["z3-new"]++
			o.Millis += time.Since(t0).Milliseconds()
			return
		}
	}
	if t.alignGoal(x, st.pc, goal) {
		o.Backends["z3-new"]++
		o.Millis += time.Since(t0).Milliseconds()
		return
	}
	if goal.isApp("v_extends") {
		o.failed++
		t.failures++
		o.Status = "undecided"
		o.Detail = "what was written does not visibly extend what was there: " + clip(x.c.show(goal), 4000)
		return
	}
	if g := groundFirst(st.pc); len(g) > 1 && goal.nodes(4000) < 4000 {
		for i, ms := range []int{250, 250, 700} {
			if r, _ := t.ask(x, x.c.script(g[i%2], goal, false, false), ms*t.factor); r == "unsat" {
				o.Backends["z3-new"]++
				o.Millis += time.Since(t0).Milliseconds()
				return
			}
		}
	}
	// equal texts known by name, spelled out: pieces are compared here
	for i := 0; i < len(st.pc); i++ {
		p := st.pc[i]
		if p.op != "=" || p.args[0].sort != SStr || len(st.pc) > 400 {
			continue
		}
		if q := x.opened(st, p); q == x.c.False {
			o.Backends["simplifier"]++
			o.Millis += time.Since(t0).Milliseconds()
			return
		} else if q != p && q != x.c.True && q.nodes(1000) < 1000 {
			st = st.clone()
			st.pc = append(append([]*Term{}, st.pc...), q)
		}
	}
	if g := x.opened(st, goal); g != goal {
		if os.Getenv("GOVC_GOAL") != "" {
			fmt.Fprintln(os.Stderr, "GOAL", clip(x.c.show(goal), 6000))
			os.WriteFile(os.Getenv("GOVC_GOAL"), []byte(x.c.script(st.pc, goal, false, false)+"(check-sat)\n"), 0o644)
		}
		if g == x.c.True {
			o.Backends["simplifier"]++
			return
		}
		if ns := x.openNames(goal); len(ns) > 1 && len(ns) <= 4 {
			for _, n := range ns {
				h := x.openedOnly(st, goal, n)
				if h == goal || h == g || h.nodes(4000) >= 4000 {
					continue
				}
				r, _ := t.ask(x, x.c.script(st.pc, h, false, false), 300*t.factor)
				if os.Getenv("GOVC_GOAL") != "" {
					fmt.Fprintln(os.Stderr, "OPENED", n, r, clip(x.c.show(h), 6000))
				}
				if r == "unsat" {
					o.Backends["z3-new"]++
					o.Millis += time.Since(t0).Milliseconds()
					return
				}
			}
		}
		if g.nodes(4000) < 4000 {
			if r, _ := t.ask(x, x.c.script(st.pc, g, false, false), 1500*t.factor); r == "unsat" {
				o.Backends["z3-new"]++
				o.Millis += time.Since(t0).Milliseconds()
				return
			}
			if anyForall(st.pc) {
				// what is known for all values may speak of the unopened form
				if r, _ := t.ask(x, x.c.script(st.pc, goal, false, false), 1500*t.factor); r == "unsat" {
					o.Backends["z3-new"]++
					o.Millis += time.Since(t0).Milliseconds()
					return
				}
			}
			goal = g
		}
	}
	res, backend, why := t.discharge(x, st, goal)
	o.Millis += time.Since(t0).Milliseconds()
	if res == "unsat" {
		o.Backends[backend]++
		return
	}
	o.failed++
	t.failures++
	o.Status = "undecided"
	if res == "sat" {
		o.Status = "refuted"
	}
	o.Detail = fmt.Sprintf("%s (%s) goal: %s", why, backend, clip(x.c.show(goal), 12000))
	if os.Getenv("GOVC_PC") != "" {
		for _, p := range st.pc {
			o.Detail += "\n    pc: " + clip(x.c.show(p), 600)
		}
	}
	var terms []*Term
	for _, in := range x.rootInputs() {
		terms = append(terms, in.t)
	}
	m := x.c.model(st.pc, goal, terms, 4000)
	o.Model = map[string]string{}
	for _, in := range x.rootInputs() {
		if v, ok := m[in.t]; ok {
			o.Model[in.path] = v
		}
	}
	if d := os.Getenv("GOVC_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/%s-%s.smt2", d, t.h.name, sanitize(o.Name)), []byte(x.c.script(st.pc, goal, true, true)+"(check-sat)\n"), 0o644)
	}
}

func (x *Exec) rootInputs() []inputTerm {
	for x.parent != nil {
		x = x.parent
	}
	return x.inputs
}

// ask puts a script to the resident solver.
func (t *Task) ask(x *Exec, script string, ms int) (string, string) {
	if x.z3 == nil {
		z, err := startZ3()
		if err != nil {
			return "unknown", err.Error()
		}
		x.setZ3(z)
	}
	t0 := time.Now()
	r, reason, alive := x.z3.check(script, ms)
	t.solverTime("z3-new", time.Since(t0))
	if d := time.Since(t0); d > 200*time.Millisecond && os.Getenv("GOVC_SLOW") != "" {
		var pcs [4]uintptr
		n := runtime.Callers(2, pcs[:])
		fr := runtime.CallersFrames(pcs[:n])
		fmt.Fprintf(os.Stderr, "SLOW %s %v of %dms %s", t.h.name, d.Round(time.Millisecond), ms, r)
		for {
			f, more := fr.Next()
			fmt.Fprintf(os.Stderr, " %s:%d", f.Function, f.Line)
			if !more {
				break
			}
		}
		fmt.Fprintln(os.Stderr)
	}
	if !alive {
		x.z3.kill()
		x.setZ3(nil)
	}
	return r, reason
}

// discharge runs the solver tiers on pc => goal.
func (t *Task) discharge(x *Exec, st *State, goal *Term) (res, backend, why string) {
	f := t.factor
	q := func(script string, ms int) (string, string) { return t.ask(x, script, ms) }
	r, reason := q(x.c.script(st.pc, goal, false, false), 2500*f)
	if r == "unsat" {
		return "unsat", "z3-new", ""
	}
	s2 := x.c.script(st.pc, goal, true, true)
	r2, reason2 := q(s2, 7000*f)
	if r2 == "unsat" {
		return "unsat", "z3-new", ""
	}
	if r2 == "sat" {
		return "sat", "z3-new", "counterexample"
	}
	t0 := time.Now()
	r3, _ := runCVC5(s2, 8000*f)
	t.solverTime("cvc5", time.Since(t0))
	if r3 == "unsat" {
		return "unsat", "cvc5", ""
	}
	t0 = time.Now()
	r4, _ := runZ3Old(s2, 6000*f)
	t.solverTime("z3-4.8", time.Since(t0))
	if r4 == "unsat" {
		return "unsat", "z3-4.8", ""
	}
	return "unknown", "z3-new,cvc5,z3-4.8", "no solver settled it: " + r + " " + reason + " / " + r2 + " " + reason2
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// ---- running a harness

var memSem = make(chan struct{}, 16)

func runHarness(w *World, h *Harness, prop string, limit time.Duration, factor int) (t *Task) {
	extra := map[*ssa.Function]map[string]bool{}
	for i := 0; ; i++ {
		t = runHarness1(w, h, prop, limit, factor, extra)
		if !t.again || i == 5 {
			return t
		}
	}
}

func runHarness1(w *World, h *Harness, prop string, limit time.Duration, factor int, extra map[*ssa.Function]map[string]bool) (t *Task) {
	t = newTask(w, h, prop)
	t.factor = factor
	t0 := time.Now()
	defer func() { t.millis = time.Since(t0).Milliseconds() }()
	x := &Exec{w: w, c: newCtx(), task: t, bases: map[string]*chain{}, preStamp: 1, funcs: map[*Term]*VFunc{}, boxes: map[*Term]box{}, madeBy: map[*Term]int{}, objType: map[*Term]types.Type{},
		contentTyp: map[*Term]types.Type{}, foldKeys: map[*ssa.Function]map[string]bool{}, foldExtra: extra, ghostObjs: map[*Term]bool{}, foldUsed: map[*ssa.Function]int{}, foldBusy: map[*ssa.Function]bool{}, globals: map[*ssa.Global]*Term{}, chainIDs: map[chainKey]int{}, zdst: map[*Term]*VIface{}, kinds: map[*Term]string{}, innerPtrs: map[*Term]*Ptr{}, maxPaths: 6000}
	t.x = x
	if h.timeout > 0 {
		limit = time.Duration(h.timeout) * time.Second
	}
	x.deadline = t0.Add(limit)
	if !w.hardStop.IsZero() && x.deadline.After(w.hardStop) {
		x.deadline = w.hardStop
	}
	defer func() {
		if x.z3 != nil {
			x.z3.kill()
		}
		t.paths = x.paths
		t.feas = x.feasN
		t.x = nil
	}()
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				t.err = u.msg
				if os.Getenv("GOVC_TRACE") != "" {
					panic(r)
				}
				return
			}
			if os.Getenv("GOVC_TRACE") != "" {
				panic(r)
			}
			t.err = fmt.Sprintf("internal error: %v", r)
		}
	}()
	st := &State{heap: map[string]*chain{}, facts: map[*Term]bool{}, alloc: 1}
	fr := &Frame{fn: h.fn, env: map[ssa.Value]Value{}, block: h.fn.Blocks[0], h: h, mode: mVerify, ap: &applyInfo{}}
	for i, p := range h.fn.Params {
		v := x.symbolic(st, p.Name(), p.Type())
		if i == 0 && h.recvType != nil {
			d := x.symbolic(st, "recv", h.recvType)
			if dp, ok := d.(*Ptr); ok {
				x.assume(st, x.c.Not(x.c.Eq(dp.ref, x.c.Null)))
			}
			v = x.makeIface(st, d, h.recvType)
		}
		if h.dynParam != "" && p.Name() == h.dynParam {
			d := x.symbolic(st, p.Name(), h.dynType)
			if dp, ok := d.(*Ptr); ok {
				x.assume(st, x.c.Not(x.c.Eq(dp.ref, x.c.Null)))
			}
			v = x.makeIface(st, d, h.dynType)
		}
		fr.env[p] = v
		x.recordInput(p.Name(), v, p.Type())
	}
	st.frames = []*Frame{fr}
	x.baseDepth = 0
	x.run(st)
	if t.err == "" && !t.covered {
		t.err = "vacuous: no execution reaches the end of the contract"
	}
	return t
}

func (x *Exec) recordInput(name string, v Value, t types.Type) {
	switch a := v.(type) {
	case *Term:
		if a.sort == SInt || a.sort == SReal || a.sort == SBool {
			x.inputs = append(x.inputs, inputTerm{name, a, t})
		} else if a.sort == SStr {
			x.inputs = append(x.inputs, inputTerm{"len(" + name + ")", x.c.Len(a), types.Typ[types.Int]})
		}
	case *VStruct:
		s := under(t).(*types.Struct)
		for i, f := range a.fs {
			x.recordInput(name+"."+s.Field(i).Name(), f, s.Field(i).Type())
		}
	case *VSlice:
		x.inputs = append(x.inputs, inputTerm{"len(" + name + ")", a.ln, types.Typ[types.Int]})
	}
}

// ---- a whole property

type Result struct {
	prop      string
	tasks     []*Task
	closure   map[string]bool
	dropped   []string
	elapsed   time.Duration
	harnesses int
}

func hasProp(h *Harness, p string) bool {
	for _, q := range h.props {
		if q == p {
			return true
		}
	}
	return false
}

// checkProp verifies every harness of the property and, transitively, every
// contract those verifications rely on.
func checkProp(w *World, prop, tier string, only *regexp.Regexp, workers int, limit time.Duration, follow bool) *Result {
	t0 := time.Now()
	r := &Result{prop: prop, closure: map[string]bool{}}
	byName := map[string][]*Harness{}
	for _, h := range w.harnesses {
		byName[h.name] = append(byName[h.name], h)
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, workers)
	started := map[string]bool{}
	factor := 1
	if tier == "thorough" {
		factor = 4
		limit *= 3
	}
	var start func(h *Harness)
	start = func(h *Harness) {
		mu.Lock()
		defer mu.Unlock()
		if started[h.id()] {
			return
		}
		started[h.id()] = true
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			t := runHarness(w, h, prop, limit, factor)
			<-sem
			mu.Lock()
			r.tasks = append(r.tasks, t)
			mu.Unlock()
			if follow {
				for n := range t.appliedH {
					for _, g := range byName[n] {
						start(g)
					}
				}
			}
		}()
	}
	for _, h := range w.harnesses {
		if only != nil && !only.MatchString(h.id()) {
			continue
		}
		if prop != "" && !hasProp(h, prop) {
			continue
		}
		if h.tier == "thorough" && tier != "thorough" {
			continue
		}
		start(h)
	}
	wg.Wait()
	sort.Slice(r.tasks, func(i, j int) bool { return r.tasks[i].h.id() < r.tasks[j].h.id() })
	r.elapsed = time.Since(t0)
	return r
}

var _ = strings.Join

func anyForall(pc []*Term) bool {
	for _, p := range pc {
		if hasForall(p) {
			return true
		}
	}
	return false
}
