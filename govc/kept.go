package main

// keptFact is what a fact "for all q in a range, a[q] = b[q]" says.
type keptFact struct {
	q, rng *Term
	eqs    map[*Term]*Term // the newer array -> the older one
}

// keptOf reads such a fact.
func (x *Exec) keptOf(p *Term) *keptFact {
	if k, ok := x.kept[p]; ok {
		return k
	}
	if x.kept == nil {
		x.kept = map[*Term]*keptFact{}
	}
	x.kept[p] = nil
	if len(p.args) != 2 || p.args[1].op != "or" || len(p.args[1].args) != 2 {
		return nil
	}
	q := p.args[0]
	for i := 0; i < 2; i++ {
		rng, body := x.c.Not(p.args[1].args[i]), p.args[1].args[1-i]
		var eqs []*Term
		if body.op == "=" {
			eqs = []*Term{body}
		} else if body.op == "and" {
			eqs = body.args
		}
		k := &keptFact{q: q, rng: rng, eqs: map[*Term]*Term{}}
		for _, e := range eqs {
			if e.op != "=" {
				continue
			}
			a, b := e.args[0], e.args[1]
			if a.op != "select" || b.op != "select" || a.args[1] != q || b.args[1] != q || a.args[0].bound || b.args[0].bound {
				continue
			}
			a, b = a.args[0], b.args[0]
			if a.newest < b.newest {
				a, b = b, a
			}
			if a.newest > b.newest {
				k.eqs[a] = b
			}
		}
		if len(k.eqs) > 0 {
			x.kept[p] = k
			return k
		}
	}
	return nil
}

// older: the array that holds the same at this index as far as is known, and
// was there before.
func (x *Exec) older(st *State, a, idx *Term) *Term {
	if idx.bound || a.op == "store" || a.op == "ite" {
		return nil
	}
	for _, p := range st.pc {
		if p.op != "forall" {
			continue
		}
		k := x.keptOf(p)
		if k == nil || k.eqs[a] == nil {
			continue
		}
		if v, ok := x.decide(st, x.c.Subst(k.rng, map[*Term]*Term{k.q: idx})); ok && v {
			return k.eqs[a]
		}
	}
	return nil
}
