package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// printer renders terms with sharing.
type printer struct {
	c      *Ctx
	nl     bool // print nonlinear products with the solver's own multiplication
	tier2  bool
	memo   map[*Term]string
	defs   []string
	syms   map[*Term]bool
	funs   map[string]bool
	lits   []*Term
	litSet map[*Term]bool
	facts  []*Term
	seenF  map[*Term]bool
	useCat bool
	useLen bool
	useNl  bool
	nd     int
	sorts  map[string]bool
	refs   []*Term // references older than some object
	maxObj int
}

func newPrinter(c *Ctx, nl, tier2 bool) *printer {
	return &printer{c: c, nl: nl, tier2: tier2, memo: map[*Term]string{}, syms: map[*Term]bool{}, funs: map[string]bool{}, litSet: map[*Term]bool{}, seenF: map[*Term]bool{}}
}

func numStr(r *big.Rat, s Sort) string {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var str string
	if s == SInt {
		str = a.Num().String()
	} else if a.IsInt() {
		str = a.Num().String() + ".0"
	} else {
		str = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
	}
	if neg {
		return "(- " + str + ")"
	}
	return str
}

func (p *printer) noteFacts(t *Term) {
	if p.seenF[t] {
		return
	}
	p.seenF[t] = true
	if t.bound {
		return
	}
	if fs, ok := p.c.defs[t]; ok {
		p.facts = append(p.facts, fs...)
	}
	if p.tier2 {
		if fs, ok := p.c.defs2[t]; ok {
			p.facts = append(p.facts, fs...)
		}
	}
	if t.sort == SInt && !t.isNum() && t.op != "poly" && t.op != "mod" && t.op != "ite" {
		if t.lo != nil {
			p.facts = append(p.facts, p.c.mk(&Term{op: "rawle", sort: SBool, args: []*Term{p.c.BigInt(t.lo), t}}))
		}
		if t.hi != nil {
			p.facts = append(p.facts, p.c.mk(&Term{op: "rawle", sort: SBool, args: []*Term{t, p.c.BigInt(t.hi)}}))
		}
	}
}

func (p *printer) str(t *Term) string {
	if s, ok := p.memo[t]; ok {
		return s
	}
	s := p.raw(t)
	if len(s) > 60 && !t.bound && t.op != "forall" {
		p.nd++
		n := fmt.Sprintf("d!%d", p.nd)
		p.defs = append(p.defs, fmt.Sprintf("(define-fun %s () %s %s)", n, t.sort, s))
		s = n
	}
	p.memo[t] = s
	p.noteFacts(t)
	if t.sort == SRef && !t.bound {
		if t.op == "obj" {
			if n, _ := t.args[0].intVal(); int(n) > p.maxObj {
				p.maxObj = int(n)
			}
		} else if t.stamp > 0 && (t.op == "sym" || t.op == "select" || strings.HasPrefix(t.op, "app:")) {
			p.refs = append(p.refs, t)
		}
	}
	return s
}

func emptyBranch(t *Term) bool {
	return t.op == "ite" && (isEmptyLit(t.args[1]) || isEmptyLit(t.args[2]))
}

func isEmptyLit(t *Term) bool { return t.op == "lit" && t.name == "" }

func (p *printer) choose(it *Term, with func(string) string, without string) string {
	if isEmptyLit(it.args[1]) {
		return "(ite " + p.str(it.args[0]) + " " + without + " " + with(p.str(it.args[2])) + ")"
	}
	return "(ite " + p.str(it.args[0]) + " " + with(p.str(it.args[1])) + " " + without + ")"
}

func (p *printer) raw(t *Term) string {
	switch t.op {
	case "sym":
		p.syms[t] = true
		return "|" + t.name + "|"
	case "bvar":
		return "|" + t.name + "|"
	case "num":
		return numStr(t.num, t.sort)
	case "true", "false":
		return t.op
	case "null":
		return "null"
	case "lit":
		if !p.litSet[t] {
			p.litSet[t] = true
			p.lits = append(p.lits, t)
		}
		return "lit!" + strconv.Itoa(t.id)
	case "obj", "sub":
		var as []string
		for _, a := range t.args {
			as = append(as, p.str(a))
		}
		return "(" + t.op + " " + strings.Join(as, " ") + ")"
	case "poly":
		var as []string
		for _, m := range t.monos {
			as = append(as, p.mono(m, t.sort))
		}
		if len(as) == 1 {
			return as[0]
		}
		return "(+ " + strings.Join(as, " ") + ")"
	case "rawmul":
		return p.prod(t.args, t.sort)
	case "rawle":
		return "(<= " + p.str(t.args[0]) + " " + p.str(t.args[1]) + ")"
	case "inv":
		p.funs["inv"] = true
		return "(inv " + p.str(t.args[0]) + ")"
	case "cat":
		p.useCat = true
		// a choice with an empty branch does not stay inside: x+"" is x
		last := t.args[len(t.args)-1]
		s := p.str(last)
		for i := len(t.args) - 2; i >= 0; i-- {
			a := t.args[i]
			if i == len(t.args)-2 && emptyBranch(last) && !t.bound {
				y := p.str(a)
				s = p.choose(last, func(b string) string { return "(cat " + y + " " + b + ")" }, y)
				continue
			}
			if emptyBranch(a) && !t.bound {
				if len(s) > 30 {
					p.nd++
					n := fmt.Sprintf("d!%d", p.nd)
					p.defs = append(p.defs, fmt.Sprintf("(define-fun %s () %s %s)", n, t.sort, s))
					s = n
				}
				y := s
				s = p.choose(a, func(b string) string { return "(cat " + b + " " + y + ")" }, y)
				continue
			}
			s = "(cat " + p.str(a) + " " + s + ")"
		}
		return s
	case "constarr":
		return "((as const " + string(t.sort) + ") " + p.str(t.args[0]) + ")"
	case "forall":
		vs := t.args[:len(t.args)-1]
		body := t.args[len(t.args)-1]
		var vd []string
		for _, v := range vs {
			vd = append(vd, "(|"+v.name+"| "+string(v.sort)+")")
		}
		b := p.str(body)
		pats := p.patterns(vs, body)
		if pats != "" {
			b = "(! " + b + " " + pats + ")"
		}
		return "(forall (" + strings.Join(vd, " ") + ") " + b + ")"
	}
	op := t.op
	if strings.HasPrefix(op, "app:") {
		op = op[4:]
		p.funs[op] = true
		if op == "slen" {
			p.useLen = true
		}
		op = "|" + op + "|"
		if len(t.args) == 0 {
			return op
		}
	}
	var as []string
	for _, a := range t.args {
		as = append(as, p.str(a))
	}
	return "(" + op + " " + strings.Join(as, " ") + ")"
}

// plain: fit for a trigger.
func plain(t *Term) bool {
	switch t.op {
	case "ite", "and", "or", "not", "=", "<=", "forall":
		return false
	}
	for _, a := range t.args {
		if !plain(a) {
			return false
		}
	}
	for _, m := range t.monos {
		for _, f := range m.fs {
			if !plain(f) {
				return false
			}
		}
	}
	return true
}

// patterns picks instantiation triggers: function applications or selects
// that have a bound variable as a direct argument.
func (p *printer) patterns(vs []*Term, body *Term) string {
	if len(vs) != 1 {
		return ""
	}
	v := vs[0]
	var out []string
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !t.bound || t.op == "forall" {
			return
		}
		seen[t] = true
		direct := false
		others := false
		if strings.HasPrefix(t.op, "app:") || t.op == "select" {
			for _, a := range t.args {
				if a == v {
					direct = true
				} else if a.bound {
					others = true
				}
			}
			if direct && !others && plain(t) {
				out = append(out, ":pattern ("+p.str(t)+")")
			}
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.monos {
			for _, a := range m.fs {
				rec(a)
			}
		}
	}
	rec(body)
	if len(out) > 4 {
		out = out[:4]
	}
	return strings.Join(out, " ")
}

func (p *printer) prod(fs []*Term, s Sort) string {
	if len(fs) == 1 {
		return p.str(fs[0])
	}
	if p.nl {
		var as []string
		for _, f := range fs {
			as = append(as, p.str(f))
		}
		return "(* " + strings.Join(as, " ") + ")"
	}
	p.useNl = true
	n := "nlmulR"
	if s == SInt {
		n = "nlmulI"
	}
	r := p.str(fs[0])
	for _, f := range fs[1:] {
		r = "(" + n + " " + r + " " + p.str(f) + ")"
	}
	return r
}

func (p *printer) mono(m mono, s Sort) string {
	if len(m.fs) == 0 {
		return numStr(m.c, s)
	}
	pr := p.prod(m.fs, s)
	if m.c.Cmp(big.NewRat(1, 1)) == 0 {
		return pr
	}
	return "(* " + numStr(m.c, s) + " " + pr + ")"
}

const prelude = `(declare-sort Str 0)
(declare-datatypes ((Ref 0)) (((null) (obj (oid Int)) (sub (sbase Ref) (sfld Int)))))
`

// script builds a query: assumptions and negated goal.
func (c *Ctx) script(asm []*Term, goal *Term, nl, tier2 bool) string {
	p := newPrinter(c, nl, tier2)
	var asserts []string
	seen := map[*Term]bool{}
	for _, a := range asm {
		if seen[a] || a == c.True {
			continue
		}
		seen[a] = true
		asserts = append(asserts, "(assert "+p.str(a)+")")
	}
	if goal != nil {
		asserts = append(asserts, "(assert (not "+p.str(goal)+"))")
	}
	rounds := 0
	for len(p.facts) > 0 && rounds < 12 {
		rounds++
		fs := p.facts
		p.facts = nil
		if rounds > 3 {
			// unfoldings only follow a few levels
			p.tier2 = false
		}
		for _, f := range fs {
			if !seen[f] {
				seen[f] = true
				asserts = append(asserts, "(assert "+p.str(f)+")")
			}
		}
	}
	for _, t := range p.refs {
		if t.stamp <= p.maxObj {
			r := p.memo[t]
			asserts = append(asserts, fmt.Sprintf("(assert (=> ((_ is obj) %s) (< (oid %s) %d)))", r, r, t.stamp))
		}
	}
	var b strings.Builder
	b.WriteString(prelude)
	var sy []*Term
	for s := range p.syms {
		sy = append(sy, s)
	}
	sort.Slice(sy, func(i, j int) bool { return sy[i].id < sy[j].id })
	for _, s := range sy {
		fmt.Fprintf(&b, "(declare-fun |%s| () %s)\n", s.name, s.sort)
	}
	for _, n := range c.funOrder {
		if p.funs[n] {
			f := c.funs[n]
			var as []string
			for _, a := range f.args {
				as = append(as, string(a))
			}
			if n == "tdiv" && nl {
				b.WriteString("(define-fun |tdiv| ((a Int) (b Int)) Int (ite (>= a 0) (ite (> b 0) (div a b) (- (div a (- b)))) (ite (> b 0) (- (div (- a) b)) (div (- a) (- b)))))\n")
				continue
			}
			fmt.Fprintf(&b, "(declare-fun |%s| (%s) %s)\n", n, strings.Join(as, " "), f.ret)
		}
	}
	if p.funs["inv"] {
		b.WriteString("(declare-fun inv (Real) Real)\n")
	}
	if p.useNl {
		b.WriteString("(declare-fun nlmulR (Real Real) Real)\n(declare-fun nlmulI (Int Int) Int)\n")
	}
	if p.useCat {
		b.WriteString("(declare-fun cat (Str Str) Str)\n")
		if tier2 {
			b.WriteString("(assert (forall ((a Str) (b Str) (c Str)) (! (= (cat (cat a b) c) (cat a (cat b c))) :pattern ((cat (cat a b) c)))))\n")
			if p.useLen {
				b.WriteString("(assert (forall ((a Str) (b Str)) (! (= (|slen| (cat a b)) (+ (|slen| a) (|slen| b))) :pattern ((|slen| (cat a b))))))\n")
			}
		}
	}
	for _, l := range p.lits {
		fmt.Fprintf(&b, "(declare-fun lit!%d () Str) ; %q\n", l.id, l.name)
	}
	if p.useCat {
		for _, l := range p.lits {
			if l.name == "" {
				fmt.Fprintf(&b, "(assert (forall ((a Str)) (! (= (cat lit!%d a) a) :pattern ((cat lit!%d a)))))\n", l.id, l.id)
				fmt.Fprintf(&b, "(assert (forall ((a Str)) (! (= (cat a lit!%d) a) :pattern ((cat a lit!%d)))))\n", l.id, l.id)
			}
		}
	}
	if len(p.lits) > 1 {
		b.WriteString("(assert (distinct")
		for _, l := range p.lits {
			fmt.Fprintf(&b, " lit!%d", l.id)
		}
		b.WriteString("))\n")
	}
	if p.useLen {
		for _, l := range p.lits {
			fmt.Fprintf(&b, "(assert (= (|slen| lit!%d) %d))\n", l.id, len(l.name))
		}
	}
	for _, d := range p.defs {
		b.WriteString(d)
		b.WriteByte('\n')
	}
	for _, a := range asserts {
		b.WriteString(a)
		b.WriteByte('\n')
	}
	return b.String()
}

// ---- persistent z3 process

type z3proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	ch  chan string
	n   int
}

func startZ3() (*z3proc, error) {
	cmd := exec.Command("z3-new", "-in", "-smt2")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	z := &z3proc{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<16), ch: make(chan string, 64)}
	go func() {
		for {
			l, err := z.out.ReadString('\n')
			if err != nil {
				close(z.ch)
				return
			}
			z.ch <- strings.TrimSpace(l)
		}
	}()
	return z, nil
}

func (z *z3proc) kill() {
	z.in.Close()
	z.cmd.Process.Kill()
	z.cmd.Wait()
}

// check runs one query; answer "unsat","sat","unknown" plus solver's reason.
func (z *z3proc) check(script string, ms int) (string, string, bool) {
	z.n++
	mark := fmt.Sprintf("done-%d", z.n)
	q := fmt.Sprintf("(reset)\n(set-option :timeout %d)\n%s(check-sat)\n(get-info :reason-unknown)\n(echo \"%s\")\n", ms, script, mark)
	if _, err := io.WriteString(z.in, q); err != nil {
		return "unknown", "z3 process gone", false
	}
	res, reason := "unknown", ""
	tm := time.After(time.Duration(ms)*time.Millisecond*2 + 3*time.Second)
	first := true
	for {
		select {
		case l, ok := <-z.ch:
			if !ok {
				return "unknown", "z3 process ended", false
			}
			if l == mark || l == "\""+mark+"\"" {
				return res, reason, true
			}
			if strings.HasPrefix(l, "(error") && !strings.Contains(l, "reason-unknown") && !strings.Contains(l, "unknown") {
				reason = l
				if os.Getenv("GOVC_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "Z3ERR", l)
					os.WriteFile("/tmp/govc_z3err.smt2", []byte(script), 0o644)
				}
				continue
			}
			if first && (l == "sat" || l == "unsat" || l == "unknown" || l == "timeout") {
				res = l
				first = false
				if l == "timeout" {
					res = "unknown"
				}
			} else if strings.HasPrefix(l, "(:reason-unknown") {
				reason = l
			}
		case <-tm:
			return "unknown", "hard timeout", false
		}
	}
}

func runSolver(bin string, args []string, script string, ms int) (string, string) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms+1500)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Stdin = strings.NewReader(script)
	var o bytes.Buffer
	cmd.Stdout = &o
	cmd.Stderr = &o
	cmd.Run()
	for _, l := range strings.Split(o.String(), "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" {
			return l, ""
		}
		if l == "unknown" {
			return l, o.String()
		}
	}
	s := o.String()
	if len(s) > 300 {
		s = s[:300]
	}
	return "unknown", s
}

func runCVC5(script string, ms int) (string, string) {
	return runSolver("cvc5", []string{"--lang=smt2", "--tlimit=" + strconv.Itoa(ms), "-"}, "(set-logic ALL)\n"+script+"(check-sat)\n", ms)
}

func runZ3Old(script string, ms int) (string, string) {
	return runSolver("z3", []string{"-in", "-smt2", "-t:" + strconv.Itoa(ms)}, script+"(check-sat)\n", ms)
}

func runZ3New(script string, ms int) (string, string) {
	return runSolver("z3-new", []string{"-in", "-smt2", "-t:" + strconv.Itoa(ms)}, script+"(check-sat)\n", ms)
}

// model asks z3 for the values of the given terms.
func (c *Ctx) model(asm []*Term, goal *Term, terms []*Term, ms int) map[*Term]string {
	if len(terms) == 0 {
		return nil
	}
	p := append(append([]*Term{}, asm...))
	// mention every term so it is declared
	for _, t := range terms {
		p = append(p, c.mk(&Term{op: "=", sort: SBool, args: []*Term{t, t}}))
	}
	pr := c.script(p, goal, true, true)
	pp := newPrinter(c, true, true)
	var names []string
	for _, t := range terms {
		pp.defs = nil
		names = append(names, pp.str(t))
	}
	_ = names
	var b strings.Builder
	b.WriteString(pr)
	b.WriteString("(check-sat)\n")
	for i, t := range terms {
		fmt.Fprintf(&b, "(echo \"v%d\")\n(eval %s :completion true)\n", i, flat(c, t))
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms+1500)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(ctx, "z3-new", "-in", "-smt2", "-t:"+strconv.Itoa(ms))
	cmd.Stdin = strings.NewReader(b.String())
	o, _ := cmd.Output()
	lines := strings.Split(string(o), "\n")
	res := map[*Term]string{}
	for i := 0; i+1 < len(lines); i++ {
		l := strings.Trim(strings.TrimSpace(lines[i]), "\"")
		if strings.HasPrefix(l, "v") {
			if n, err := strconv.Atoi(l[1:]); err == nil && n < len(terms) {
				res[terms[n]] = strings.TrimSpace(lines[i+1])
			}
		}
	}
	return res
}

// flat prints a term without definitions.
func flat(c *Ctx, t *Term) string {
	p := newPrinter(c, true, false)
	var rec func(t *Term) string
	rec = func(t *Term) string {
		s := p.raw(t)
		return s
	}
	// force memo without defs
	return rec(t)
}
