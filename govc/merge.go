package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Branches whose arms only compute values (no writes, no calls of unknown
// effect) are not split into paths: the arms are evaluated side by side and the
// values that differ become choices on the branch conditions.

type ifRegion struct {
	join   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func (w *World) regionOf(b *ssa.BasicBlock) *ifRegion {
	w.mu.Lock()
	r, ok := w.regions[b]
	w.mu.Unlock()
	if ok {
		return r
	}
	r = w.computeRegion(b)
	w.mu.Lock()
	w.regions[b] = r
	w.mu.Unlock()
	return r
}

func (w *World) computeRegion(b *ssa.BasicBlock) *ifRegion {
	li := w.loops(b.Parent())
	// candidates for the join: grow the region in block order until every edge
	// out of it leads to one block
	reg := map[*ssa.BasicBlock]bool{}
	for round := 0; round < 14; round++ {
		exits := map[*ssa.BasicBlock]bool{}
		add := func(p *ssa.BasicBlock) {
			for _, s := range p.Succs {
				if !reg[s] {
					exits[s] = true
				}
			}
		}
		add(b)
		for p := range reg {
			add(p)
		}
		if len(exits) == 1 && len(reg) > 0 {
			for j := range exits {
				if j == b || li.byHeader[j] != nil || len(j.Instrs) == 0 {
					return nil
				}
				for _, ins := range j.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					bt, ok := under(ph.Type()).(*types.Basic)
					if !ok || bt.Info()&(types.IsBoolean|types.IsNumeric) == 0 {
						return nil
					}
				}
				return &ifRegion{join: j, blocks: reg}
			}
		}
		// take in an exit all of whose predecessors are inside
		var pick *ssa.BasicBlock
		for e := range exits {
			inside := true
			for _, p := range e.Preds {
				if p != b && !reg[p] {
					inside = false
				}
			}
			if inside && w.quiet(e) && li.byHeader[e] == nil && e != b && (pick == nil || e.Index < pick.Index) {
				pick = e
			}
		}
		if pick == nil {
			return nil
		}
		reg[pick] = true
	}
	return nil
}

// quiet: the block only computes values.
func (w *World) quiet(b *ssa.BasicBlock) bool {
	for _, ins := range b.Instrs {
		switch i := ins.(type) {
		case *ssa.BinOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Convert, *ssa.ChangeType, *ssa.Extract, *ssa.Field, *ssa.Index, *ssa.DebugRef, *ssa.Lookup:
			if cv, ok := i.(*ssa.Convert); ok {
				if _, ok := under(cv.Type()).(*types.Basic); !ok {
					return false
				}
			}
		case *ssa.UnOp:
			if i.Op.String() == "<-" {
				return false
			}
		case *ssa.Call:
			if i.Call.IsInvoke() {
				return false
			}
			if bi, ok := i.Call.Value.(*ssa.Builtin); ok {
				if bi.Name() != "len" && bi.Name() != "cap" {
					return false
				}
				continue
			}
			fn := i.Call.StaticCallee()
			if fn == nil {
				return false
			}
			n := fnName(fn)
			if w.pureFn[n] || w.uf[n] || w.opaque[n] || w.pureMerge[fn] {
				continue
			}
			if fn.Pkg != nil && fn.Pkg.Pkg.Path() == "math" && !strings.Contains(fn.Name(), "rand") {
				continue
			}
			return false
		default:
			return false
		}
	}
	return true
}

type armOut struct {
	cond *Term
	phis map[*ssa.Phi]Value
	more []*Term
}

// tryMerge evaluates the branch at the end of f.block without splitting.
func (x *Exec) tryMerge(st *State, f *Frame, cond *Term) *State {
	if st.pure || x.w.noMerge {
		return nil
	}
	r := x.w.regionOf(f.block)
	if r == nil {
		return nil
	}
	for _, lc := range f.loops {
		if !lc.l.body[r.join] {
			return nil
		}
	}
	var outs []armOut
	ok := func() (ok bool) {
		x.armDied = false
		defer func() {
			if e := recover(); e != nil {
				if _, is := e.(unsupportedErr); is {
					ok = false
					return
				}
				panic(e)
			}
		}()
		return x.arms(st, f.block, cond, r, x.c.True, 0, &outs)
	}()
	if !ok || len(outs) == 0 || len(outs) > 24 {
		return nil
	}
	vals := map[*ssa.Phi]Value{}
	for p := range outs[0].phis {
		if bt, ok := under(p.Type()).(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
			// a condition: the arms under which it is true, or the negation of
			// those under which it is false, whichever are fewer
			var pos, neg []*Term
			np, nn := 0, 0
			for _, o := range outs {
				t := x.scalar(o.phis[p])
				if t != x.c.False {
					np++
				}
				if t != x.c.True {
					nn++
				}
				pos = append(pos, x.c.And(o.cond, t))
				neg = append(neg, x.c.And(o.cond, x.c.Not(t)))
			}
			if np <= nn {
				vals[p] = x.c.Or(pos...)
			} else {
				vals[p] = x.c.Not(x.c.Or(neg...))
			}
			continue
		}
		v := outs[len(outs)-1].phis[p]
		for i := len(outs) - 2; i >= 0; i-- {
			v = x.iteVal(outs[i].cond, outs[i].phis[p], v, p.Type())
		}
		vals[p] = v
	}
	var alive []*Term
	for _, o := range outs {
		alive = append(alive, o.cond)
	}
	if x.armDied {
		x.assume(st, x.c.Or(alive...))
	}
	for _, o := range outs {
		for _, m := range o.more {
			x.assume(st, x.c.Implies(o.cond, m))
		}
	}
	from := f.block
	for b := range r.blocks {
		for _, s := range b.Succs {
			if s == r.join {
				from = b
			}
		}
	}
	x.enterBlock(st, f, from, r.join, vals)
	return st
}

func (x *Exec) arms(st *State, b *ssa.BasicBlock, cond *Term, r *ifRegion, acc *Term, depth int, outs *[]armOut) bool {
	if depth > 10 || len(*outs) > 24 {
		return false
	}
	for k, side := range []*Term{cond, x.c.Not(cond)} {
		if side == x.c.False {
			continue
		}
		s := st.clone()
		n0 := len(s.pc)
		x.assume(s, side)
		if s.dead {
			continue // contradicts what is known
		}
		n1 := len(s.pc)
		if !x.arm(s, b, b.Succs[k], r, x.c.And(acc, side), depth, n0, n1, outs) {
			return false
		}
	}
	return true
}

func (x *Exec) arm(s *State, from, b *ssa.BasicBlock, r *ifRegion, acc *Term, depth, n0, n1 int, outs *[]armOut) bool {
	f := s.top()
	nf := len(s.frames)
	for {
		if b == r.join {
			o := armOut{cond: acc, phis: x.phiValues(s, f, from, b)}
			for _, m := range s.pc[n1:] {
				o.more = append(o.more, m)
			}
			*outs = append(*outs, o)
			return true
		}
		if !r.blocks[b] {
			return false
		}
		x.enterBlock(s, f, from, b, nil)
		var next *ssa.BasicBlock
		for next == nil {
			ins := b.Instrs[f.pc]
			f.pc++
			switch i := ins.(type) {
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.If:
				c := x.term(s, f, i.Cond)
				if v, known := x.decide(s, c); known {
					if v {
						next = b.Succs[0]
					} else {
						next = b.Succs[1]
					}
					break
				}
				ok := x.armsFrom(s, b, c, r, acc, depth+1, n1, outs)
				return ok
			default:
				t := x.exec(s, f, ins)
				if t == nil || t.dead {
					x.armDied = true
					return true // this arm cannot be taken
				}
				if t != s || len(s.frames) != nf {
					return false
				}
			}
		}
		from, b = b, next
	}
}

func (x *Exec) armsFrom(st *State, b *ssa.BasicBlock, cond *Term, r *ifRegion, acc *Term, depth, n1 int, outs *[]armOut) bool {
	if depth > 10 || len(*outs) > 24 {
		return false
	}
	for k, side := range []*Term{cond, x.c.Not(cond)} {
		if side == x.c.False {
			continue
		}
		s := st.clone()
		n0 := len(s.pc)
		x.assume(s, side)
		if s.dead {
			continue // contradicts what is known
		}
		// the branch condition itself is part of acc, not of the extra facts
		extra := append([]*Term{}, s.pc[n1:n0]...)
		base := len(s.pc)
		if len(extra) > 0 {
			s.pc = append(s.pc, extra...)
		}
		if !x.arm(s, b, b.Succs[k], r, x.c.And(acc, side), depth, n0, base, outs) {
			return false
		}
	}
	return true
}
