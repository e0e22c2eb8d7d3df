package main

import (
	"go/token"
	"go/types"
	"strings"
)

const (
	keptEntries   = 25 // entries of a matrix that are kept in any case
	keptVariables = 10 // variables of a matrix that are kept in any case
)

func init() {
	register(&Check{id: "V08", minObs: 20,
		rule: "guarded value flow of matrix.Parse and Axis.String on arbitrary input equals the reference; the entries of named lists are the numbers below the product of the sizes of the lists (as a loop invariant), and the value of a variable is the one at the remainder by the size of its list after division by the sizes of the lists before it (mixed-radix digits, so that every combination is given once); no index, division or map write panics",
		run: func(c *Ctx) {
			s := "yaml/converter/legacy/" + specDir
			f := c.w.fn("yaml/converter/legacy/matrix", "Parse")
			where := c.fnPos(f)
			weights := c.axes(s, where)
			c.pairFns("String", c.w.fn(s, "UseAxisString"), c.w.fn(s, "RefAxisString"), c.fnPos(c.w.method("yaml/converter/legacy/matrix", "Axis", "String", false)), "Axis.String")
			c.pairFns("ParseString", c.w.fn(s, "UseAxesString"), c.w.fn(s, "RefAxesString"), c.fnPos(c.w.fn("yaml/converter/legacy/matrix", "ParseString")), "matrix.ParseString", opaque("yaml/converter/legacy/matrix.Parse"))
			m := c.panicMachine()
			c.call(m, f, c.param("data", f.Params[0].Type()))
			if weights {
				// the product of the sizes of some of the lists, which is not 0
				m.events = without(m.events, func(e Event) bool {
					if e.kind != "danger" || e.name != "division" {
						return false
					}
					w := e.args[0]
					return w.op == OBin && w.aux == token.QUO && isBefore(w.args[0]) && w.args[1].op == OLen && w.args[0].args[1].op == OCall && w.args[0].args[1].sym == "fold.all"
				})
			}
			c.noPanic("Parse", m, bTrue)
		}})
}

func without(in []Event, drop func(Event) bool) []Event {
	var out []Event
	for _, e := range in {
		if !drop(e) {
			out = append(out, e)
		}
	}
	return out
}

// axes compares how the matrix section is read, and looks at what the entries
// of named lists are made of.
//
// It reports whether entries are divided by products of sizes.
func (c *Ctx) axes(spec, where string) bool {
	use, ref := c.w.fn(spec, "UseAxes"), c.w.fn(spec, "RefAxes")
	d := c.param("d", use.Params[0].Type())
	m1, m2 := c.machine(), c.machine()
	combine := bFalse
	var lists *Term
	m2.models[ref.Pkg.Pkg.Path()+".combined"] = func(fr *frame, k *callInfo) (*Term, bool) {
		combine = bOr(combine, fr.cur)
		lists = k.args[0]
		return mkT(OCall, "combined", k.typ, k.args[0]), true
	}
	r1, g1 := c.call(m1, use, d)
	r2, g2 := c.call(m2, ref, d)
	c.equiv("Parse.returns", g1, g2, nil, where, "matrix.Parse returns: this")
	res := use.Signature.Results()
	care := bAnd(g1, g2)
	for i := 0; i < res.Len(); i++ {
		k := care
		if i == 0 {
			k = bAnd(k, bNot(combine))
		}
		t := res.At(i).Type()
		c.sameResult("Parse.result"+string(rune('0'+i)), k, m1, tupleAt(r1, i, t), m2, tupleAt(r2, i, t), t, where, "matrix.Parse")
	}
	care = bAnd(care, combine)
	t := res.At(0).Type()
	x := &matrixRule{c: c, where: where, care: care}
	x.list = restrictDeep(lists, care)
	x.typ = types.NewSlice(types.Typ[types.String])
	x.combinations(restrictDeep(m1.deep(tupleAt(r1, 0, t), t), care))
	return x.weights
}

// matrixRule shows that a list of entries is every combination of the values
// of named lists.
//
// The number of entries is the product of the sizes of the lists; entry p
// gives the variable k the value at (p / w) % n, where n is the size of k's
// list and w the product of the sizes of the lists before it. Numbers below
// the product and tuples of such digits correspond one to one.
type matrixRule struct {
	c     *Ctx
	where string
	care  B
	list  *Term // the named lists, by variable
	typ   types.Type

	at, key, vals, size *Term // an arbitrary variable
	none                B     // it has no values
	weights             bool  // the number of an entry is divided by a product of sizes
	exact               bool  // the number of entries is the product itself
}

func (x *matrixRule) give(what string) { panic(undecided("matrix.Parse: " + what)) }

func (x *matrixRule) combinations(t *Term) {
	c := x.c
	x.at = wit("variable", x.list)
	x.key = mkT(OMapKey, "", types.Typ[types.String], x.list, x.at)
	v, _ := mkLookup(x.list, x.key, x.typ)
	x.vals, x.size, x.none = v, mkLen(v), mkEmpty(v)

	if t.op != OSeq {
		x.give("the entries are no list made in a loop: " + clip(t.str(3)))
	}
	var rng, lv, entry, stop *Term
	whole, part, last := bFalse, bFalse, bFalse
	for _, s := range t.segs {
		g := bRestrict(s.g, x.care)
		if unsatisfiable(bAnd(x.care, g)) {
			continue
		}
		switch s.kind {
		case SegEach:
			if s.coll.op != OCall || s.coll.sym != "range" || rng != nil && rng != s.coll || len(s.body) != 1 || s.body[0].kind != SegSingle {
				x.give("the entries are not one for each number")
			}
			if !unsatisfiable(bAnd(x.care, bAnd(g, bNot(s.body[0].g)))) {
				x.give("some numbers have no entry")
			}
			e := s.body[0].val
			if rng == nil {
				rng, lv, entry = s.coll, s.lv, e
			} else if newSubst(s.lv, lv).term(e) != entry {
				x.give("the entries are made in two ways")
			}
			if s.bound == nil {
				c.ob("Combinations.once", unsatisfiable(bAnd(x.care, bAnd(g, whole))), x.where, "an entry is in the list twice")
				whole = bOr(whole, g)
				continue
			}
			if part != bFalse {
				x.give("the list is cut in two ways")
			}
			part, stop = g, s.bound
		case SegSingle:
			if stop == nil || newSubst(lv, stop).term(entry) != s.val {
				x.give("an entry is added on its own")
			}
			c.ob("Combinations.last", last == bFalse && unsatisfiable(bAnd(x.care, bAnd(g, bNot(part)))), x.where, "the last entry of a list that is cut is in the list twice")
			last = g
		default:
			x.give("the entries come from another list")
		}
	}
	if rng == nil {
		x.give("there are no entries")
	}
	some := bNot(x.none)
	if lv := mkLVar(x.list, 0); true {
		some = mkExists(x.list, lv, nil, newSubst(x.at, lv).b(some))
	}
	ok, why := implies(bAnd(x.care, some), bOr(whole, part), nil)
	c.ob("Combinations.all", ok, x.where, "matrix.Parse leaves the entries out when: "+why)
	c.ob("Combinations.whole", unsatisfiable(bAnd(x.care, bAnd(whole, part))), x.where, "matrix.Parse gives the entries twice")
	if stop != nil {
		ok := false
		if stop.op == OFirst && stop.args[0] == rng {
			p := wit("entry", rng)
			cond := newSubst(stop.args[1], p).b(stop.gs[0])
			ok = unsatisfiable(bAnd(cond, mkLt(p, mkInt(keptEntries))))
		}
		c.ob("Combinations.cut", ok, x.where, "the entries of a matrix end before the limit of 25: "+clip(stop.str(4)))
	}
	n := x.uncut(rng.args[0])
	if x.product(n) == 1 {
		c.ob("Product.nothing", unsatisfiable(bAnd(bAnd(x.care, bNot(some)), bOr(whole, part))), x.where, "a matrix without values gives an entry")
	}
	x.digits(entry, lv, n)
}

// uncut is the number of entries without a limit to them.
func (x *matrixRule) uncut(n *Term) *Term {
	if n.op != OIte {
		return n
	}
	var all *Term
	for i, a := range n.args {
		g := bAnd(x.care, n.gs[i])
		if unsatisfiable(g) {
			continue
		}
		if k, ok := a.constInt(); ok && k >= keptEntries {
			continue
		}
		if all != nil && all != a {
			x.give("the number of entries is computed in two ways: " + clip(n.str(4)))
		}
		all = a
	}
	if all == nil {
		x.give("the number of entries does not depend on the lists")
	}
	for i, a := range n.args {
		if k, ok := a.constInt(); ok && k >= keptEntries {
			x.c.unsat("Combinations.limit", bAnd(bAnd(x.care, n.gs[i]), mkLt(all, mkInt(k))), nil, x.where, "there are more entries than combinations")
		}
	}
	return all
}

// unfold takes a loop over the variables apart: what it starts with, what it
// keeps, and one step of it, for an arbitrary variable.
func (x *matrixRule) unfold(t *Term) (coll, init, step *Term) {
	coll = t.args[0]
	step = t.args[2]
	var pos *Term
	mentions(step, func(y *Term) bool {
		if y.op == OOpaque && strings.HasPrefix(y.sym, "fold.lv") && len(y.args) == 1 && y.args[0] == coll {
			pos = y
		}
		return false
	})
	if pos != nil {
		step = x.atVariable(step, coll, pos)
	}
	return coll, t.args[1], step
}

// atVariable looks at the element that a walk over the variables is at.
func (x *matrixRule) atVariable(t, coll, pos *Term) *Term {
	switch {
	case coll == x.list:
		return newSubst(pos, x.at).term(t)
	case coll == backwards(x.list):
		return newSubst(backIdx(x.list, pos), x.at).term(t)
	}
	x.give("the loop is not over the variables of the matrix: " + clip(coll.str(3)))
	return nil
}

// norm looks at the arbitrary variable wherever t speaks of the variable that
// a walk is at.
func (x *matrixRule) norm(t *Term) *Term {
	for _, coll := range []*Term{x.list, backwards(x.list)} {
		var pos *Term
		mentions(t, func(y *Term) bool {
			if y.op == OOpaque && strings.HasPrefix(y.sym, "fold.lv") && len(y.args) == 1 && y.args[0] == coll {
				pos = y
			}
			return false
		})
		if pos != nil {
			t = x.atVariable(t, coll, pos)
		}
	}
	return t
}

// kept is what a step of a loop starts from.
func kept(step *Term) *Term {
	var out *Term
	mentions(step, func(y *Term) bool {
		if y.op == OOpaque && strings.HasPrefix(y.sym, "fold.self") {
			out = y
		}
		return false
	})
	return out
}

// product shows that n is the product of the sizes of the lists that have
// values, 0 if there is none
// (or 1). Products above the limit need not be exact.
func (x *matrixRule) product(n *Term) int64 {
	c := x.c
	if n.op != OCall || n.sym != "fold.all" || len(n.args) != 3 {
		x.give("the number of entries is not computed in a loop over the variables: " + clip(n.str(4)))
	}
	_, init, step := x.unfold(n)
	first, ok := init.constInt()
	if !ok || first != 0 && first != 1 {
		x.give("the number of entries starts from neither 0 nor 1")
	}
	s := kept(step)
	if s == nil {
		x.give("the number of entries is not a product")
	}
	some := bNot(x.none)
	zero := mkEq(s, mkInt(0))
	pos := bNot(mkLt(s, mkInt(0)))
	times := mkBin(token.MUL, s, x.size, types.Typ[types.Int])
	c.sameUnder("Product.none", x.none, step, s, nil, x.where, "the number of entries after a variable without values")
	if first == 1 {
		zero = bFalse
	}
	c.sameUnder("Product.first", bAnd(some, zero), step, x.size, nil, x.where, "the number of entries after the first variable")
	c.sameUnder("Product.next", bAnd(bAnd(some, pos), bAnd(bNot(zero), mkLt(s, mkInt(keptEntries)))), step, times, nil, x.where, "the number of entries after another variable")
	big := bAnd(bAnd(some, pos), bAnd(bNot(zero), bNot(mkLt(s, mkInt(keptEntries)))))
	if x.exact = unsatisfiable(bAnd(big, bNot(valueEq(step, times)))); !x.exact {
		c.ob("Product.large", unsatisfiable(bAnd(big, bAnd(bNot(valueEq(step, times)), bNot(valueEq(step, s))))), x.where, "the number of entries of a large matrix is neither kept nor multiplied: "+clip(step.str(4)))
	}
	return first
}

// digits shows that the entry p gives each variable its digit of p.
func (x *matrixRule) digits(entry, p, n *Term) {
	c := x.c
	if entry.op == OSeq && len(entry.segs) == 1 && entry.segs[0].kind == SegSplice {
		entry = entry.segs[0].val
	}
	var coll, pos *Term
	var s Seg
	switch {
	case entry.op == OCall && entry.sym == "fold.all" && len(entry.args) == 3:
		if i := entry.args[1]; i.op != OSeq || len(i.segs) != 0 {
			x.give("an entry is not empty at first")
		}
		pos = mkT(OOpaque, "", types.Typ[types.Int])
		mentions(entry.args[2], func(y *Term) bool {
			if y.op == OOpaque && strings.HasPrefix(y.sym, "fold.lv") && len(y.args) == 1 && y.args[0] == entry.args[0] {
				pos = y
			}
			return false
		})
		var step *Term
		coll, _, step = x.unfold(entry)
		if step.op != OSeq || len(step.segs) != 2 || step.segs[0].kind != SegSplice || step.segs[0].g != bTrue || step.segs[1].kind != SegSingle ||
			step.segs[0].val.op != OOpaque || !strings.HasPrefix(step.segs[0].val.sym, "fold.self") {
			x.give("an entry is not given one value for each variable: " + clip(step.str(4)))
		}
		s = step.segs[1]
	case entry.op == OSeq && len(entry.segs) == 1 && entry.segs[0].kind == SegEach:
		e := entry.segs[0]
		coll, pos = e.coll, e.lv
		if e.bound != nil || len(e.body) != 1 || e.body[0].kind != SegSingle {
			x.give("an entry is not given one value for each variable")
		}
		s = e.body[0]
		s.g = bAnd(s.g, e.g)
		one := mkSeq("map", entry.typ, []Seg{s})
		s = x.atVariable(one, coll, pos).segs[0]
	default:
		x.give("an entry is not filled in a loop over the variables: " + clip(entry.str(4)))
	}
	if coll == x.list {
		pos = x.at
	}
	care := bAnd(x.care, bNot(x.none))
	c.unsat("Digits.none", bAnd(bAnd(x.care, x.none), s.g), nil, x.where, "a variable without values is given one")
	few := bTrue
	mentionsB(s.g, func(y *Term) bool {
		if y.op == OSegIdx {
			few = bAnd(few, mkLt(y, mkInt(keptVariables)))
		}
		return false
	})
	c.unsat("Digits.all", bAnd(bAnd(care, few), bNot(s.g)), nil, x.where, "a variable with values is given none")
	c.sameUnder("Digits.key", bAnd(care, s.g), s.key, x.key, nil, x.where, "the name of a variable")
	v := restrictTerm(s.val, bAnd(care, s.g))
	if v.op != OAt {
		x.give("the value of a variable is not an element of a list: " + clip(v.str(4)))
	}
	if !c.ob("Digits.own", v.args[0] == x.vals, x.where, "a variable is given an element of something else than its list: "+clip(v.str(4))) {
		return
	}
	d := v.args[1]
	if d.op != OBin || d.aux != token.REM || d.args[1] != x.size {
		x.give("the value of a variable is not found by a remainder by the size of its list: " + clip(d.str(5)))
	}
	d = d.args[0]
	switch {
	case isBefore(d):
		// what is left of p after the divisions by the sizes so far
		c.ob("Digits.number", x.quotients(d, coll, p, pos), x.where, "the place of a value is not what is left of the number of the entry after division by the sizes of the lists before: "+clip(d.str(6)))
	case d.op == OBin && d.aux == token.QUO && x.norm(d.args[0]) == x.norm(p):
		// p divided by the product of the sizes of the lists that follow
		w := d.args[1]
		ok := x.exact && w.op == OBin && w.aux == token.QUO && w.args[1] == x.size && isBefore(w.args[0]) && x.quotients(w.args[0], coll, n, pos)
		x.weights = ok
		c.ob("Digits.number", ok, x.where, "the number of the entry is not divided by the product of the sizes of the lists that follow: "+clip(d.str(6)))
	default:
		x.give("the place of a value is not a digit of the number of the entry: " + clip(d.str(6)))
	}
}

func isBefore(t *Term) bool {
	return t.op == OCall && t.sym == "fold.before" && len(t.args) == 4
}

// quotients shows that t is init, divided by the sizes of the lists that come
// before pos in the walk.
func (x *matrixRule) quotients(t, walk, init, pos *Term) bool {
	coll, i, step := x.unfold(t)
	if coll != walk || x.norm(i) != x.norm(init) || t.args[3] != pos {
		return false
	}
	s := kept(step)
	if s == nil {
		return false
	}
	q := mkBin(token.QUO, s, x.size, types.Typ[types.Int])
	return unsatisfiable(bAnd(x.none, bNot(valueEq(step, s)))) && unsatisfiable(bAnd(bNot(x.none), bNot(valueEq(step, q))))
}
