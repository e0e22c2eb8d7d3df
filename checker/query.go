package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Logic over conditions.  Conditions are combined as diagrams; facts about
// the atoms that occur (exclusive constants, orders, dynamic types, nil and
// emptiness, witnesses of "some element" and instances of "no element") are
// added until nothing new appears.

type facts struct {
	wits  []*Term // index terms that are known to be indices of their collection
	extra []B
	// notes for reports
	rounds int
}

// wit names an arbitrary index of a collection.
func wit(name string, coll *Term) *Term {
	return mkT(OWit, name, types.Typ[types.Int], coll)
}

// elemOf is the element of coll at a witness.
func elemOf(coll, w *Term) *Term { return mkAt(coll, w, elemType(coll.typ)) }

// satisfiable decides whether cond can hold; the remaining condition is
// returned for reports.  A candidate assignment of the diagram is checked
// against the facts about its own literals (witnesses of "some element",
// instances of "no element", exclusive constants, order, nil and emptiness);
// facts it breaks are conjoined until no candidate or no broken fact is left.
func satisfiable(cond B, wits []*Term, extra ...B) (bool, B) {
	f := cond
	for _, e := range extra {
		f = bAnd(f, e)
	}
	done := map[string]bool{}
	for steps := 0; ; steps++ {
		if f == bFalse {
			return false, bFalse
		}
		if steps > 4000 {
			panic(undecided("a path condition needs too many facts"))
		}
		cube := bCube(f)
		val := map[*Term]bool{}
		var atoms []*Term
		for _, l := range cube {
			val[l.atom] = l.pos
			atoms = append(atoms, l.atom)
		}
		sortTerms(atoms)
		ax := bTrue
		n := 0
		add := func(key string, mk func() B) bool {
			if done[key] || n > 12 {
				return false
			}
			b := mk()
			if bHolds(b, val) {
				return false
			}
			done[key] = true
			ax = bAnd(ax, b)
			n++
			return true
		}
		// index terms in play
		known := map[*Term]bool{}
		for _, w := range wits {
			known[w] = true
		}
		for _, a := range atoms {
			mentions(a, func(x *Term) bool {
				switch x.op {
				case OWit, OFirst, OLast:
					if len(freeVars(x)) == 0 {
						known[x] = true
					}
				}
				return false
			})
		}
		var idx []*Term
		for k := range known {
			idx = append(idx, k)
		}
		sortTerms(idx)
		axioms(atoms, add)
		for _, x := range idx {
			x := x
			if x.op == OWit && x.args[0].op != OOpaque && len(x.args) == 1 {
				add(fmt.Sprintf("nx%d", x.id), func() B { return bNot(mkEmpty(x.args[0])) })
			}
			if x.op == OFirst || x.op == OLast {
				var bound *Term
				if len(x.args) > 2 {
					bound = x.args[2]
				}
				add(fmt.Sprintf("pick%d", x.id), func() B {
					e := mkExists(x.args[0], x.args[1], bound, x.gs[0])
					c := newSubst(x.args[1], x).b(x.gs[0])
					if bound != nil {
						c = bAnd(c, mkBefore(x, bound))
					}
					return bImp(e, c)
				})
			}
		}
		for _, a := range atoms {
			a := a
			if a.op != OExists || len(freeVars(a)) > 0 {
				continue
			}
			coll, lv := a.args[0], a.args[1]
			var bound *Term
			if len(a.args) > 2 {
				bound = a.args[2]
			}
			at := func(x *Term) B {
				c := newSubst(lv, x).b(a.gs[0])
				if bound != nil {
					c = bAnd(c, mkBefore(x, bound))
				}
				return c
			}
			if val[a] {
				add(fmt.Sprintf("sk%d", a.id), func() B {
					w := mkT(OWit, fmt.Sprintf("w%d", a.id), types.Typ[types.Int], coll)
					return bImp(bVar(a), bAnd(at(w), bNot(mkEmpty(coll))))
				})
				continue
			}
			for _, x := range idx {
				if x.args[0] != coll {
					continue
				}
				x := x
				add(fmt.Sprintf("i%d,%d", a.id, x.id), func() B { return bImp(at(x), bVar(a)) })
			}
		}
		for _, a := range atoms {
			a := a
			if a.op == OExists && len(freeVars(a)) == 0 {
				add(fmt.Sprintf("xe%d", a.id), func() B { return bNot(bAnd(bVar(a), mkEmpty(a.args[0]))) })
			}
		}
		if n == 0 {
			return true, f
		}
		f = bAnd(f, ax)
	}
}

// bHolds reports whether a partial assignment already makes b true.
func bHolds(b B, val map[*Term]bool) bool {
	memo := map[B]bool{}
	var walk func(B) bool
	walk = func(b B) bool {
		if b == bTrue || b == bFalse {
			return b == bTrue
		}
		if r, ok := memo[b]; ok {
			return r
		}
		n := mgr.nodes[b]
		var r bool
		if v, ok := val[mgr.atoms[n.v]]; ok {
			if v {
				r = walk(n.hi)
			} else {
				r = walk(n.lo)
			}
		} else {
			r = walk(n.hi) && walk(n.lo)
		}
		memo[b] = r
		return r
	}
	return walk(b)
}

// axioms adds exclusivity and order facts between atoms.
func axioms(atoms []*Term, add func(string, func() B) bool) bool {
	ch := false
	byEq := map[*Term][]*Term{}    // term -> Eq(const, term) atoms
	byType := map[*Term][]*Term{}  // term -> TypeIs atoms
	byLt := map[*Term][]*Term{}    // term -> Lt(term, const)
	empties := map[*Term]*Term{}   // term -> Empty atom
	nils := map[*Term]*Term{}      // term -> IsNil atom
	eqs := map[[2]*Term]*Term{}    // Eq between symbolic terms
	nodes := map[*Term][]*Term{}   // adjacency of symbolic equalities
	befores := map[[2]*Term]bool{} // order atoms
	for _, a := range atoms {
		switch a.op {
		case OEq:
			if a.args[0].op == OConst {
				byEq[a.args[1]] = append(byEq[a.args[1]], a)
			} else {
				eqs[[2]*Term{a.args[0], a.args[1]}] = a
				nodes[a.args[0]] = append(nodes[a.args[0]], a.args[1])
				nodes[a.args[1]] = append(nodes[a.args[1]], a.args[0])
			}
		case OTypeIs:
			byType[a.args[0]] = append(byType[a.args[0]], a)
		case OLt:
			if _, ok := a.args[1].constInt(); ok {
				byLt[a.args[0]] = append(byLt[a.args[0]], a)
			}
		case OEmpty:
			empties[a.args[0]] = a
		case OIsNil:
			nils[a.args[0]] = a
		case OBefore:
			befores[[2]*Term{a.args[0], a.args[1]}] = true
		}
	}
	for t, as := range byEq {
		for i := range as {
			if e := empties[t]; e != nil {
				i := i
				if add(fmt.Sprintf("ee%d,%d", as[i].id, e.id), func() B { return bNot(bAnd(bVar(as[i]), bVar(e))) }) {
					ch = true
				}
			}
			for j := i + 1; j < len(as); j++ {
				i, j := i, j
				if add(fmt.Sprintf("eq%d,%d", as[i].id, as[j].id), func() B { return bNot(bAnd(bVar(as[i]), bVar(as[j]))) }) {
					ch = true
				}
			}
		}
	}
	for _, as := range byType {
		for i := range as {
			for j := i + 1; j < len(as); j++ {
				i, j := i, j
				ti, tj := as[i].aux.(types.Type), as[j].aux.(types.Type)
				_, ii := ti.Underlying().(*types.Interface)
				_, ij := tj.Underlying().(*types.Interface)
				if ii || ij {
					continue
				}
				if add(fmt.Sprintf("ty%d,%d", as[i].id, as[j].id), func() B { return bNot(bAnd(bVar(as[i]), bVar(as[j]))) }) {
					ch = true
				}
			}
			if n := nils[as[i].args[0]]; n != nil {
				i := i
				if add(fmt.Sprintf("tn%d", as[i].id), func() B { return bNot(bAnd(bVar(as[i]), bVar(n))) }) {
					ch = true
				}
			}
		}
	}
	for t, as := range byLt {
		for i := range as {
			ci, _ := as[i].args[1].constInt()
			for j := range as {
				cj, _ := as[j].args[1].constInt()
				if ci < cj {
					i, j := i, j
					if add(fmt.Sprintf("lt%d,%d", as[i].id, as[j].id), func() B { return bImp(bVar(as[i]), bVar(as[j])) }) {
						ch = true
					}
				}
			}
			for _, e := range byEq[t] {
				if v, ok := e.args[0].constInt(); ok {
					i, e := i, e
					if add(fmt.Sprintf("le%d,%d", as[i].id, e.id), func() B {
						if v < ci {
							return bImp(bVar(e), bVar(as[i]))
						}
						return bImp(bVar(e), bNot(bVar(as[i])))
					}) {
						ch = true
					}
				}
			}
			if t.op == OLen {
				if e := empties[t.args[0]]; e != nil && ci >= 1 {
					i := i
					if add(fmt.Sprintf("lz%d,%d", as[i].id, e.id), func() B { return bImp(bVar(e), bVar(as[i])) }) {
						ch = true
					}
				}
			}
		}
	}
	for t, n := range nils {
		if e := empties[t]; e != nil {
			n, e := n, e
			if add(fmt.Sprintf("ne%d,%d", n.id, e.id), func() B { return bImp(bVar(n), bVar(e)) }) {
				ch = true
			}
		}
	}
	// the order of indices is total and transitive
	for p := range befores {
		p := p
		if add(fmt.Sprintf("asym%d,%d", p[0].id, p[1].id), func() B {
			return bNot(bAnd(mkBefore(p[0], p[1]), mkBefore(p[1], p[0])))
		}) {
			ch = true
		}
		for q := range befores {
			if p[1] == q[0] && p[0] != q[1] {
				q := q
				if add(fmt.Sprintf("tr%d,%d,%d", p[0].id, p[1].id, q[1].id), func() B {
					return bImp(bAnd(mkBefore(p[0], p[1]), mkBefore(q[0], q[1])), mkBefore(p[0], q[1]))
				}) {
					ch = true
				}
			}
		}
	}
	// equality: constants through symbolic equalities, transitivity, emptiness
	for p, e := range eqs {
		p, e := p, e
		for k := 0; k < 2; k++ {
			x, y := p[k], p[1-k]
			for _, c := range byEq[x] {
				c := c
				if add(fmt.Sprintf("ec%d,%d", e.id, c.id), func() B {
					return bImp(bAnd(bVar(e), bVar(c)), mkEq(c.args[0], y))
				}) {
					ch = true
				}
			}
			if em := empties[x]; em != nil {
				if add(fmt.Sprintf("em%d,%d", e.id, em.id), func() B {
					return bImp(bAnd(bVar(e), bVar(em)), mkEmpty(y))
				}) {
					ch = true
				}
			}
			for _, z := range nodes[y] {
				if z == x {
					continue
				}
				z := z
				if add(fmt.Sprintf("et%d,%d,%d", x.id, y.id, z.id), func() B {
					return bImp(bAnd(bVar(e), mkEq(y, z)), mkEq(x, z))
				}) {
					ch = true
				}
			}
		}
	}
	// membership is a function of the key
	type memb struct{ m, k *Term }
	var ms []*Term
	for _, a := range atoms {
		if a.op == OInMap {
			ms = append(ms, a)
		}
	}
	for _, a := range ms {
		a := a
		for _, e := range []*Term{empties[a.args[0]], nils[a.args[0]]} {
			if e := e; e != nil {
				if add(fmt.Sprintf("im%d,%d", a.id, e.id), func() B { return bNot(bAnd(bVar(a), bVar(e))) }) {
					ch = true
				}
			}
		}
	}
	for i := range ms {
		for j := range ms {
			if i < j && ms[i].args[0] == ms[j].args[0] {
				i, j := i, j
				if add(fmt.Sprintf("in%d,%d", ms[i].id, ms[j].id), func() B {
					return bImp(mkEq(ms[i].args[1], ms[j].args[1]), bIff(bVar(ms[i]), bVar(ms[j])))
				}) {
					ch = true
				}
			}
		}
	}
	return ch
}

// implies decides p ⇒ q; on failure it describes a counterexample.
func implies(p, q B, wits []*Term, extra ...B) (bool, string) {
	ok, rest := satisfiable(bAnd(p, bNot(q)), wits, extra...)
	if !ok {
		return true, ""
	}
	return false, describe(rest)
}

func describe(f B) string {
	var ss []string
	for _, l := range bCube(f) {
		s := l.atom.str(3)
		if r := []rune(s); len(r) > 160 {
			s = string(r[:160]) + "…"
		}
		if !l.pos {
			s = "not " + s
		}
		ss = append(ss, s)
		if len(ss) > 14 {
			ss = append(ss, "…")
			break
		}
	}
	return strings.Join(ss, "; ")
}
