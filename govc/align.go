package main

import (
	"fmt"
	"os"
	"strings"
)

// Texts are compared piece by piece before the whole equation goes to the
// solvers: pieces of one kind in the same place are proved equal one at a time,
// and choices (ite) are settled by the path condition or split into cases.
// Every step is sufficient for equality, so a failure only means falling back.

func (t *Task) alignGoal(x *Exec, pc []*Term, goal *Term) bool {
	if goal.isApp("v_extends") {
		return t.extends(x, pc, goal.args[0], goal.args[1])
	}
	switch goal.op {
	case "or":
		for _, g := range goal.args {
			if t.alignGoal(x, pc, g) {
				return true
			}
		}
		return false
	case "=":
		if goal.args[0].sort == SStr {
			budget := 150
			m := strDefs(x, pc)
			if len(m) > 0 {
				goal = x.c.Subst(goal, m)
				if goal == x.c.True {
					return true
				}
				if goal.op != "=" || goal.args[0].sort != SStr {
					return t.proveEq(x, pc, goal)
				}
			}
			return t.align(x, pc, goal.args[0], goal.args[1], 0, &budget)
		}
	}
	return false
}

// strDefs: text symbols the path condition defines.
func strDefs(x *Exec, pc []*Term) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, p := range pc {
		if p.op == "=" && p.args[0].sort == SStr {
			for k := 0; k < 2; k++ {
				v, d := p.args[k], p.args[1-k]
				if v.op == "sym" && d.op != "sym" && m[v] == nil && !mentions(d, v) {
					if len(m) > 0 {
						d = x.c.Subst(d, m)
					}
					if !mentions(d, v) {
						m[v] = d
					}
					break
				}
			}
		}
	}
	return m
}

// extends: out starts with before.
func (t *Task) extends(x *Exec, pc []*Term, out, before *Term) bool {
	if m := strDefs(x, pc); len(m) > 0 {
		out, before = x.c.Subst(out, m), x.c.Subst(before, m)
	}
	budget := 150
	return t.align(x, pc, out, x.c.Cat(before, x.c.App("v_some", SStr, x.c.Int(-1))), 0, &budget)
}

// anyTail: the rope that stands for every text.
func (c *Ctx) anyTail(ps []*Term) bool {
	return len(ps) == 1 && ps[0].isApp("v_some") && ps[0].args[0] == c.Int(-1)
}

func iteAt(ps []*Term) int {
	for i, p := range ps {
		if p.op == "ite" {
			return i
		}
	}
	return -1
}

// groundFirst: premises about all values only where the others do not do.
func groundFirst(pc []*Term) [][]*Term {
	if !anyForall(pc) {
		return [][]*Term{pc}
	}
	var g []*Term
	for _, p := range pc {
		if !hasForall(p) {
			g = append(g, p)
		}
	}
	return [][]*Term{g, pc}
}

func (t *Task) settle(x *Exec, pc []*Term, cond *Term) int {
	for i, p := range groundFirst(pc) {
		ms := 700
		if i > 0 {
			ms = 250
		}
		if r, _ := t.ask(x, x.c.script(p, cond, false, false), ms); r == "unsat" {
			return 1
		}
		if r, _ := t.ask(x, x.c.script(p, x.c.Not(cond), false, false), ms); r == "unsat" {
			return 0
		}
	}
	return -1
}

func (t *Task) align(x *Exec, pc []*Term, a, b *Term, depth int, budget *int) bool {
	c := x.c
	for {
		if *budget--; *budget < 0 || depth > 5 {
			return false
		}
		if c.anyTail(c.pieces(a)) || c.anyTail(c.pieces(b)) {
			return true
		}
		e := c.strEq(a, b)
		if e == c.True {
			return true
		}
		if e == c.False || e.op != "=" || e.args[0].sort != SStr {
			return t.proveEq(x, pc, e)
		}
		pa, pb := c.pieces(e.args[0]), c.pieces(e.args[1])
		if c.anyTail(pa) || c.anyTail(pb) {
			return true
		}
		i, j := iteAt(pa), iteAt(pb)
		if i >= 0 || j >= 0 {
			ps, k := pa, i
			if i < 0 {
				ps, k = pb, j
			}
			it := ps[k]
			if i >= 0 && j >= 0 && i == 0 && j == 0 && pa[0].args[0] == pb[0].args[0] {
				// the same choice on both sides
				w := pa[0].args[0]
				ok := t.align(x, append(pc[:len(pc):len(pc)], w), pa[0].args[1], pb[0].args[1], depth+1, budget) &&
					t.align(x, append(pc[:len(pc):len(pc)], c.Not(w)), pa[0].args[2], pb[0].args[2], depth+1, budget)
				if ok {
					a, b = c.Cat(pa[1:]...), c.Cat(pb[1:]...)
					continue
				}
			}
			put := func(v *Term) (*Term, *Term) {
				n := append([]*Term{}, ps...)
				n[k] = v
				if i < 0 {
					return c.Cat(pa...), c.Cat(n...)
				}
				return c.Cat(n...), c.Cat(pb...)
			}
			switch t.settle(x, pc, it.args[0]) {
			case 1:
				a, b = put(it.args[1])
				continue
			case 0:
				a, b = put(it.args[2])
				continue
			}
			a1, b1 := put(it.args[1])
			a2, b2 := put(it.args[2])
			return t.align(x, append(pc[:len(pc):len(pc)], it.args[0]), a1, b1, depth+1, budget) &&
				t.align(x, append(pc[:len(pc):len(pc)], c.Not(it.args[0])), a2, b2, depth+1, budget)
		}
		if len(pa) == 0 || len(pb) == 0 {
			return t.proveEq(x, pc, e)
		}
		// v_some stands for any text of which nothing more is known
		if pa[0].isApp("v_some") || pb[0].isApp("v_some") {
			if pb[0].isApp("v_some") {
				pa, pb = pb, pa
			}
			a, b = c.Cat(pa[1:]...), c.Cat(pb...)
			if pb[0].isApp("s.rest") {
				b = c.Cat(pb[1:]...)
			}
			continue
		}
		if t.samePiece(x, pc, pa[0], pb[0], depth, budget) {
			a, b = c.Cat(pa[1:]...), c.Cat(pb[1:]...)
			continue
		}
		if n, m := len(pa), len(pb); n > 1 && !pb[m-1].isApp("v_some") && !pa[n-1].isApp("v_some") && m > 1 && t.samePiece(x, pc, pa[n-1], pb[m-1], depth, budget) {
			a, b = c.Cat(pa[:n-1]...), c.Cat(pb[:m-1]...)
			continue
		}
		if q, ok := t.openPiece(x, pa, pb); ok {
			a = q
			continue
		}
		if q, ok := t.openPiece(x, pb, pa); ok {
			b = q
			continue
		}
		if t.emptyPiece(x, pc, pa[0]) {
			a = c.Cat(pa[1:]...)
			continue
		}
		if t.emptyPiece(x, pc, pb[0]) {
			b = c.Cat(pb[1:]...)
			continue
		}
		return t.proveEq(x, pc, e)
	}
}

// openPiece replaces a specification function at an end of the rope by its
// definition, where the other rope has something else.
func (t *Task) openPiece(x *Exec, ps, qs []*Term) (*Term, bool) {
	for end := 0; end < 2; end++ {
		k, o := 0, qs[0]
		if end == 1 {
			k, o = len(ps)-1, qs[len(qs)-1]
		}
		if b, ok := t.bodies[ps[k]]; ok && b != ps[k] && o != ps[k] && (!hasOp(qs, ps[k].op) || len(ps) == 1 && len(qs) > 1) {
			n := append([]*Term{}, ps...)
			n[k] = b
			return x.c.Cat(n...), true
		}
	}
	return nil, false
}

func hasOp(ps []*Term, op string) bool {
	for _, p := range ps {
		if p.op == op {
			return true
		}
	}
	return false
}

func (t *Task) emptyPiece(x *Exec, pc []*Term, p *Term) bool {
	if p.op == "lit" {
		return false
	}
	r, _ := t.ask(x, x.c.script(pc, x.c.Eq(p, x.c.Lit("")), false, false), 1000*t.factor)
	return r == "unsat"
}

func (t *Task) proveEq(x *Exec, pc []*Term, e *Term) bool {
	if e == x.c.True {
		return true
	}
	if e == x.c.False {
		return false
	}
	ms := 2000
	if e.op == "=" && e.args[0].sort == SStr {
		ms = 700
	}
	for _, p := range groundFirst(pc) {
		if r, _ := t.ask(x, x.c.script(p, e, false, false), ms*t.factor); r == "unsat" {
			return true
		}
	}
	if ms < 2000 {
		if os.Getenv("GOVC_ALIGN") != "" {
			fmt.Fprintf(os.Stderr, "ALIGN %s str:", t.h.name)
			for _, sd := range e.args {
				for _, q := range x.c.pieces(sd) {
					fmt.Fprintf(os.Stderr, " %s", clip(q.op+"|"+x.c.show(q), 60))
				}
				fmt.Fprintf(os.Stderr, " =?= ")
			}
			fmt.Fprintln(os.Stderr)
		}
		return false
	}
	r, _ := t.ask(x, x.c.script(pc, e, true, true), 3000*t.factor)
	if r != "unsat" && os.Getenv("GOVC_ALIGN") != "" {
		fmt.Fprintf(os.Stderr, "ALIGN %s %s: %s\n", t.h.name, r, clip(x.c.show(e), 3000))
	}
	return r == "unsat"
}

// samePiece: two applications of one function to arguments that are equal here.
func (t *Task) samePiece(x *Exec, pc []*Term, p, q *Term, depth int, budget *int) bool {
	if p == q {
		return true
	}
	if p.op != q.op || p.name != q.name || len(p.args) != len(q.args) || len(p.args) == 0 || p.bound || q.bound {
		return false
	}
	if *budget--; *budget < 0 {
		return false
	}
	if !strings.HasPrefix(p.op, "app:") {
		return false
	}
	for k := range p.args {
		if p.args[k].sort != q.args[k].sort {
			return false
		}
	}
	for k := range p.args {
		if p.args[k] == q.args[k] {
			continue
		}
		if p.args[k].sort == SStr {
			if !t.align(x, pc, p.args[k], q.args[k], depth+1, budget) {
				return false
			}
			continue
		}
		if !t.proveEq(x, pc, x.c.Eq(p.args[k], q.args[k])) {
			if os.Getenv("GOVC_ALIGN") != "" {
				fmt.Fprintf(os.Stderr, "ALIGN %s argument %d of %s\n", t.h.name, k, p.op)
			}
			return false
		}
	}
	return true
}

func mentions(t, v *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		for _, m := range t.monos {
			for _, f := range m.fs {
				if walk(f) {
					return true
				}
			}
		}
		return false
	}
	return walk(t)
}
