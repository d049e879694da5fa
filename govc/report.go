package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func keys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

type finding struct {
	Property   string `json:"property"`
	Harness    string `json:"harness"`
	Obligation string `json:"obligation"`
	What       string `json:"what"`
}

type findingsFile struct {
	Findings []finding `json:"findings"`
	Fixed    []string  `json:"fixed"`
}

type failure struct {
	Harness    string            `json:"harness"`
	Target     string            `json:"target"`
	Contract   string            `json:"contract_at"`
	Obligation string            `json:"obligation"`
	Status     string            `json:"status"`
	Detail     string            `json:"verifier_output"`
	Model      map[string]string `json:"counterexample,omitempty"`
}

func seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func writeJSON(path string, v interface{}) {
	b, _ := json.MarshalIndent(v, "", "  ")
	os.MkdirAll(filepath.Dir(path), 0o755)
	os.WriteFile(path, append(b, '\n'), 0o644)
}

func reportLoadFailure(verif, prop string, err error) int {
	rp := filepath.Join(verif, "evidence", "replay", prop+".json")
	writeJSON(rp, map[string]interface{}{"property": prop, "obligation": "the code and its contracts type-check", "verifier_output": err.Error()})
	writeJSON(filepath.Join(verif, "evidence", prop+".json"), map[string]interface{}{"property": prop, "tier": tierName(os.Getenv("VERIF_TIER")), "seed": seed(), "level": "proof",
		"coverage": map[string]interface{}{"obligations": 1, "discharged": 0, "checker_cmd": "govc check -prop " + prop, "trusted_base": []string{"govc"}}, "wall_s": 0.0, "violations": 1})
	fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
	return 1
}

func tierName(t string) string {
	if t == "thorough" {
		return t
	}
	return "quick"
}

func failed(t *Task) bool {
	if t.err != "" {
		return true
	}
	for _, o := range t.obls {
		if o.Status != "proved" {
			return true
		}
	}
	return false
}

func failuresOf(t *Task) []failure {
	var fs []failure
	mk := func(ob, st, d string, m map[string]string) failure {
		return failure{Harness: t.h.id(), Target: t.h.targetName, Contract: t.h.pos, Obligation: ob, Status: st, Detail: d, Model: m}
	}
	for _, k := range t.order {
		o := t.obls[k]
		if o.Status != "proved" && !strings.HasPrefix(o.Detail, "not attempted") {
			fs = append(fs, mk(o.Name, o.Status, o.Detail, o.Model))
		}
	}
	if t.err != "" {
		fs = append(fs, mk("every obligation of the contract is generated and settled", "undecided", t.err, nil))
	}
	return fs
}

func report(w *World, repo, verif, prop, tier string, workers int, limit, load time.Duration) int {
	t0 := time.Now()
	tier = tierName(tier)
	own := 0
	for _, h := range w.harnesses {
		if hasProp(h, prop) {
			own++
		}
	}
	budget := 500 * time.Second
	if tier == "thorough" {
		budget = 3 * time.Hour
	}
	w.hardStop = t0.Add(budget - 100*time.Second)
	r := checkProp(w, prop, tier, nil, workers, limit, true)
	tasks := map[string]*Task{}
	for _, t := range r.tasks {
		tasks[t.h.id()] = t
	}
	retry := func(bad []*Task, factor int, lim time.Duration) {
		done := make(chan *Task)
		sem := make(chan struct{}, workers)
		for _, t := range bad {
			go func(h *Harness) {
				sem <- struct{}{}
				n := runHarness(w, h, prop, lim, factor)
				<-sem
				done <- n
			}(t.h)
		}
		for range bad {
			n := <-done
			o := tasks[n.h.id()]
			if failed(o) || !failed(n) {
				tasks[n.h.id()] = n
			}
		}
	}
	badTasks := func() []*Task {
		var b []*Task
		for _, t := range tasks {
			if failed(t) {
				b = append(b, t)
			}
		}
		sort.Slice(b, func(i, j int) bool { return b[i].h.id() < b[j].h.id() })
		return b
	}
	// a loaded machine is not a defect: what failed is tried again with more time
	if b := badTasks(); len(b) > 0 && time.Since(t0) < budget/2 {
		var again []*Task
		for _, t := range b {
			// a quick, definite refutation needs no second try
			if t.h.bounded == "" {
				again = append(again, t)
			}
		}
		left := budget - time.Since(t0) - 120*time.Second
		lim := left / 2
		if len(again) > workers {
			lim = left / time.Duration(2*(len(again)+workers-1)/workers)
		}
		if lim > 300*time.Second {
			lim = 300 * time.Second
		}
		if lim > 15*time.Second {
			w.hardStop = t0.Add(budget - 120*time.Second)
			retry(again, 3, lim)
		}
	}
	var notes []string
	// Internal contracts that no longer hold are set aside and the callers that
	// relied on them are verified against the bodies instead.
	bad := badTasks()
	setAside := map[string]bool{}
	for _, t := range bad {
		if t.h.kind == "contract" && !observable(t.h) && !t.h.must && w.contracts[t.h.targetName] == t.h {
			setAside[t.h.name] = true
		}
	}
	if len(setAside) > 0 && time.Since(t0) < budget*2/3 {
		saved := map[string]*Harness{}
		for n, h := range w.contracts {
			if setAside[h.name] {
				saved[n] = h
				delete(w.contracts, n)
			}
		}
		var dep []*Task
		anyDep := map[string]bool{}
		for _, t := range tasks {
			if setAside[t.h.name] {
				continue
			}
			use := false
			for n := range t.appliedH {
				if setAside[n] {
					use = true
					anyDep[n] = true
				}
			}
			if use {
				dep = append(dep, t)
			}
		}
		lim := (budget - time.Since(t0) - 100*time.Second) / 2
		if lim > 120*time.Second {
			lim = 120 * time.Second
		}
		if lim > 10*time.Second && len(dep) > 0 {
			w.hardStop = time.Now().Add(2 * lim)
			done := make(chan *Task)
			sem := make(chan struct{}, workers)
			for _, t := range dep {
				go func(h *Harness) {
					sem <- struct{}{}
					n := runHarness(w, h, prop, lim, 2)
					<-sem
					done <- n
				}(t.h)
			}
			ok := true
			var redone []*Task
			for range dep {
				n := <-done
				redone = append(redone, n)
				if failed(n) {
					ok = false
				}
			}
			if ok {
				for _, n := range redone {
					tasks[n.h.id()] = n
				}
				for id, t := range tasks {
					if setAside[t.h.name] && anyDep[t.h.name] {
						notes = append(notes, "internal contract "+id+" no longer holds; every caller was verified against the body instead")
						delete(tasks, id)
					}
				}
			}
		}
		for n, h := range saved {
			w.contracts[n] = h
		}
	}
	var fs []failure
	for _, t := range badTasks() {
		fs = append(fs, failuresOf(t)...)
	}
	// contracts dropped because they no longer compile against the code
	for _, d := range w.dropped {
		p := strings.SplitN(d, "\x00", 3)
		if len(p) < 3 || !strings.Contains(p[1], prop) {
			if len(p) == 3 && strings.Contains(p[1], "props=") {
				continue
			}
		}
		if strings.HasPrefix(p[2], "no function ") || strings.HasPrefix(p[2], "no method ") || strings.HasPrefix(p[2], "no interface ") {
			notes = append(notes, "contract "+p[0]+" has no target any more ("+p[2]+")")
			continue
		}
		if len(p) == 3 && strings.Contains(p[1], "contract ") && undefinedTarget(p[1], p[2]) {
			notes = append(notes, "contract "+p[0]+" has no target any more ("+p[2]+")")
			continue
		}
		fs = append(fs, failure{Harness: p[0], Obligation: "the contract still fits the code", Status: "undecided", Detail: p[2]})
	}
	if own == 0 {
		fs = append(fs, failure{Harness: prop, Obligation: "the property has contracts", Status: "undecided", Detail: "no contract of this property has a target any more"})
	}
	var ff findingsFile
	if b, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &ff); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			return 2
		}
	}
	var open []failure
	var known []string
	for _, f := range fs {
		hit := false
		for _, k := range ff.Findings {
			if k.Property == prop && k.Harness == f.Harness && k.Obligation == f.Obligation {
				hit = true
				known = append(known, fmt.Sprintf("KNOWN-FINDING: property=%s %s (%s, obligation %s)", prop, k.What, f.Harness, f.Obligation))
			}
		}
		if !hit {
			open = append(open, f)
		}
	}
	var all []*Task
	for _, t := range tasks {
		all = append(all, t)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].h.id() < all[j].h.id() })
	rp := filepath.Join(verif, "evidence", "replay", prop+".json")
	os.Remove(rp)
	concrete := false
	var replayOut interface{}
	if len(open) > 0 {
		hits, raw := replay(w, repo, verif, prop, tier, all, open, r)
		replayOut = raw
		concrete = len(hits) > 0
		writeJSON(rp, map[string]interface{}{"property": prop, "failed_obligations": open, "replay": raw, "failing_inputs": hits,
			"rerun": "cd /verif && ./check " + prop + " (deterministic under VERIF_SEED)"})
	}
	_ = replayOut
	evidence(w, verif, prop, tier, all, open, known, notes, load, time.Since(t0)+load)
	for _, k := range known {
		fmt.Println(k)
	}
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	if len(open) > 0 {
		for _, f := range open {
			fmt.Printf("failed obligation %s / %s (%s): %s\n", f.Harness, f.Obligation, f.Status, clip(f.Detail, 600))
		}
		if concrete {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
		}
		return 1
	}
	fmt.Printf("property %s holds: %d contracts verified in %.1fs\n", prop, len(all), time.Since(t0).Seconds())
	return 0
}

func undefinedTarget(directive, msg string) bool {
	return strings.Contains(msg, "undefined") && !strings.Contains(msg, "undefined: sp_")
}

var allObservable bool

// observable: the contract speaks about something a user of the package can
// call or see in the file.
func observable(h *Harness) bool {
	if allObservable {
		return true
	}
	if h.internal {
		return false
	}
	if h.kind == "interface" || h.kind == "lemma" {
		return true
	}
	if h.target == nil {
		return false
	}
	n := h.target.Name()
	return n == "write" || n != "" && n[0] >= 'A' && n[0] <= 'Z'
}

func evidence(w *World, verif, prop, tier string, tasks []*Task, open []failure, known, notes []string, load, wall time.Duration) {
	obl, dis, inst := 0, 0, 0
	back := map[string]int{}
	solver := map[string]float64{}
	var under, samples []string
	inl, mod, ext, asm := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	var bounded []string
	paths, queries := 0, 0
	for _, t := range tasks {
		if t.h.targetName != "" {
			under = append(under, t.h.targetName+" ["+t.h.id()+"]")
		} else {
			under = append(under, "lemma ["+t.h.id()+"]")
		}
		for _, k := range t.order {
			o := t.obls[k]
			if t.h.bounded != "" {
				bounded = append(bounded, t.h.id()+": "+o.Name+" (bound: "+t.h.bounded+")")
				continue
			}
			obl++
			inst += o.Instances
			if o.Status == "proved" {
				dis++
			}
			for b, n := range o.Backends {
				back[b] += n
			}
			if len(samples) < 25 {
				samples = append(samples, t.h.id()+" / "+o.Name+": "+o.Status)
			}
		}
		for n, d := range t.solver {
			solver[n] += d.Seconds()
		}
		for n := range t.inlined {
			inl[n] = true
		}
		for n := range t.models {
			mod[n] = true
		}
		for n := range t.externals {
			ext[n] = true
		}
		for n := range t.assumes {
			asm[n] = true
		}
		paths += t.paths
		queries += t.queries
	}
	sort.Strings(under)
	trusted := []string{
		"govc, the verification-condition generator under /verif/govc (its symbolic semantics of go/ssa)",
		"golang.org/x/tools go/packages and go/ssa; z3 (z3-new 4.x), cvc5, z3 4.8",
		"machine arithmetic: float64 treated as real numbers; 64-bit integers treated as unbounded in +,-,*; narrower integers wrap exactly",
	}
	for n := range mod {
		trusted = append(trusted, "library model: "+n)
	}
	for n := range ext {
		trusted = append(trusted, "unmodelled external function, result unconstrained: "+n)
	}
	sort.Strings(trusted[3:])
	var assumptions []string
	for n := range asm {
		assumptions = append(assumptions, "assumed in contract: "+n)
	}
	sort.Strings(assumptions)
	assumptions = append(assumptions,
		"writes append to the destination; a failing write raises the destination's sticky failed flag, under which output clauses are vacuous",
		"no goroutine of the caller changes the objects during a call",
		"every call terminates unless its contract has a v_nopanic/v_decr obligation (partial correctness)")
	if samples == nil {
		samples = []string{}
	}
	cov := map[string]interface{}{
		"obligations": obl, "discharged": dis, "checker_cmd": "/verif/check " + prop + " (govc check -prop " + prop + " -tier " + tier + ")", "trusted_base": trusted,
		"obligation_instances": inst, "functions_under_contract": under, "functions_inlined_in_proofs": keys(inl), "backends": back, "solver_seconds": solver,
		"solver_queries": queries, "paths": paths, "load_s": load.Seconds(), "samples": samples, "bounded_not_counted_as_proved": bounded, "notes": notes, "known_findings": known,
	}
	writeJSON(filepath.Join(verif, "evidence", prop+".json"), map[string]interface{}{"property": prop, "tier": tier, "seed": seed(), "level": "proof", "coverage": cov,
		"assumptions": assumptions, "wall_s": wall.Seconds(), "violations": len(open)})
}

// ---- replay on the real code

type replayHit struct {
	Harness, Obligation, Input, Panic string
	Iteration, Ran                    int
}

func replay(w *World, repo, verif, prop, tier string, tasks []*Task, open []failure, r *Result) ([]replayHit, interface{}) {
	dir, err := os.MkdirTemp("", "govc-replay")
	if err != nil {
		return nil, err.Error()
	}
	defer os.RemoveAll(dir)
	names := map[string][]*Harness{} // package name -> harnesses
	failing := map[string]bool{}
	for _, f := range open {
		failing[f.Harness] = true
	}
	// the failed contracts, the contracts of the property that rely on them,
	// and then every other observable contract of the property
	var consts, strs []string
	seen := map[string]bool{}
	for _, f := range open {
		for _, v := range f.Model {
			if !seen[v] {
				seen[v] = true
				consts = append(consts, smtNumber(v))
			}
		}
	}
	for _, t := range tasks {
		if !observable(t.h) || t.h.kind == "lemma" || t.h.noReplay {
			continue
		}
		rel := failing[t.h.id()]
		if !rel {
			for n := range t.appliedH {
				for id := range failing {
					if id == n || strings.HasPrefix(id, n+"[") {
						rel = true
					}
				}
			}
		}
		if rel || prop == "" || hasProp(t.h, prop) {
			pk := t.h.fn.Pkg.Pkg.Name()
			names[pk] = append(names[pk], t.h)
		}
	}
	var hits []replayHit
	raw := map[string]interface{}{}
	for pk, hs := range names {
		h, out := replayPkg(w, repo, verif, prop, dir, pk, hs, consts, strs)
		hits = append(hits, h...)
		raw[pk] = out
	}
	return hits, raw
}

func smtNumber(v string) string {
	v = strings.TrimSpace(v)
	neg := false
	if strings.HasPrefix(v, "(- ") {
		neg = true
		v = strings.TrimSuffix(strings.TrimPrefix(v, "(- "), ")")
	}
	v = strings.TrimSpace(v)
	f := 0.0
	if strings.HasPrefix(v, "(/ ") {
		var a, b float64
		fmt.Sscanf(strings.Trim(v, "(/)"), "%g %g", &a, &b)
		if b == 0 {
			return "0"
		}
		f = a / b
	} else if _, err := fmt.Sscanf(v, "%g", &f); err != nil {
		return "x"
	}
	if neg {
		f = -f
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

func replayPkg(w *World, repo, verif, prop, dir, pk string, hs []*Harness, consts, strs []string) ([]replayHit, interface{}) {
	dst := repo
	if pk == "core" {
		dst = filepath.Join(repo, "fontmaker/core")
	}
	ov := map[string]string{}
	put := func(name string, data []byte) {
		p := filepath.Join(dir, pk+"_"+name)
		os.WriteFile(p, data, 0o644)
		ov[filepath.Join(dst, name)] = p
	}
	for f, b := range w.overlay {
		if filepath.Dir(f) == dst {
			put(filepath.Base(f), b)
		}
	}
	run, _ := os.ReadFile(filepath.Join(verif, "replay", "run.go.txt"))
	put("zz_verif_run_test.go", []byte(strings.Replace(string(run), "package PKG", "package "+pk, 1)))
	gen, err := os.ReadFile(filepath.Join(verif, "replay", "gen_"+pk+".go.txt"))
	if err != nil {
		gen = []byte("package " + pk + "\n\nimport \"reflect\"\n\nfunc vr_custom() map[reflect.Type]func(g *vr_gen) reflect.Value { return nil }\n")
	}
	put("zz_verif_gen_test.go", gen)
	put("zz_verif_table_test.go", []byte(replayTable(w, pk, hs)))
	ovp := filepath.Join(dir, pk+"_overlay.json")
	writeJSON(ovp, map[string]interface{}{"Replace": ov})
	var ns []string
	for _, h := range hs {
		ns = append(ns, h.id())
	}
	secs := 40
	if len(ns) > 20 {
		secs = 2 * len(ns)
	}
	if secs > 120 {
		secs = 120
	}
	outp := filepath.Join(dir, pk+"_out.json")
	job := filepath.Join(dir, pk+"_job.json")
	writeJSON(job, map[string]interface{}{"Prop": prop, "Seed": seed(), "Seconds": secs, "Names": ns, "Constants": consts, "Strings": strs, "Out": outp})
	cmd := exec.Command("go", "test", "-vet=off", "-overlay", ovp, "-run", "^TestVerifReplay$", "-timeout", "200s", ".")
	cmd.Dir = dst
	cmd.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "VERIF_REPLAY="+job, "GOMEMLIMIT=6GiB")
	b, err := cmd.CombinedOutput()
	var res struct {
		Hits  []replayHit
		Stats map[string][2]int
	}
	data, rerr := os.ReadFile(outp)
	if rerr != nil {
		return nil, "replay did not run: " + clip(string(b), 4000)
	}
	json.Unmarshal(data, &res)
	return res.Hits, map[string]interface{}{"runs_total_and_not_skipped": res.Stats}
}

func replayTable(w *World, pk string, hs []*Harness) string {
	var b strings.Builder
	pkg := hs[0].fn.Pkg.Pkg
	imports := map[string]string{}
	qual := func(p *types.Package) string {
		if p == pkg {
			return ""
		}
		imports[p.Path()] = p.Name()
		return p.Name()
	}
	rt := func(t types.Type) string {
		return "reflect.TypeOf((*" + types.TypeString(t, qual) + ")(nil)).Elem()"
	}
	b.WriteString("func vr_table() []vr_entry {\n\treturn []vr_entry{\n")
	for _, h := range hs {
		dyn := ""
		if h.recvType != nil {
			dyn = "0: " + rt(h.recvType)
		}
		if h.dynParam != "" {
			for i := 0; i < h.fn.Signature.Params().Len(); i++ {
				if h.fn.Signature.Params().At(i).Name() == h.dynParam {
					dyn = fmt.Sprintf("%d: %s", i, rt(h.dynType))
				}
			}
		}
		fmt.Fprintf(&b, "\t\t{%q, %s, map[int]reflect.Type{%s}},\n", h.id(), h.fn.Name(), dyn)
	}
	b.WriteString("\t}\n}\n\nfunc vr_impls() map[reflect.Type][]reflect.Type {\n\treturn map[reflect.Type][]reflect.Type{\n")
	sc := pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || !types.IsInterface(tn.Type()) {
			continue
		}
		ims := w.implementersAny(tn.Type())
		var l []string
		for _, im := range ims {
			if p, ok := im.(*types.Pointer); ok {
				if nm, ok := p.Elem().(*types.Named); ok && nm.Obj().Pkg() != pkg && !nm.Obj().Exported() {
					continue
				}
			}
			l = append(l, rt(im))
		}
		if len(l) > 0 {
			fmt.Fprintf(&b, "\t\t%s: {%s},\n", rt(tn.Type()), strings.Join(l, ", "))
		}
	}
	b.WriteString("\t}\n}\n")
	head := "package " + pk + "\n\nimport (\n\t\"reflect\"\n"
	var ps []string
	for p := range imports {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		head += fmt.Sprintf("\t%q\n", p)
	}
	return head + ")\n\n" + b.String()
}

var _ *ssa.Function
