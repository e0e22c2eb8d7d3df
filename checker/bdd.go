package main

// A small reduced ordered binary decision diagram package.  Path conditions
// of the analysed program are kept as BDDs over atoms (hash-consed boolean
// terms), so that conditions that are re-arranged, negated, pre-computed or
// split over several statements still compare equal.

type B int32

const (
	bFalse B = 0
	bTrue  B = 1
)

type bnode struct {
	v      int32
	lo, hi B
}

type bddMgr struct {
	nodes []bnode
	uniq  map[bnode]B
	iteC  map[[3]B]B
	resC  map[[2]B]B
	atoms []*Term
}

const leafVar = int32(1 << 30)

func newBdd() *bddMgr {
	m := &bddMgr{uniq: map[bnode]B{}, iteC: map[[3]B]B{}, resC: map[[2]B]B{}}
	m.nodes = append(m.nodes, bnode{leafVar, 0, 0}, bnode{leafVar, 1, 1})
	return m
}

var mgr = newBdd()

func (m *bddMgr) mk(v int32, lo, hi B) B {
	if lo == hi {
		return lo
	}
	k := bnode{v, lo, hi}
	if r, ok := m.uniq[k]; ok {
		return r
	}
	r := B(len(m.nodes))
	m.nodes = append(m.nodes, k)
	m.uniq[k] = r
	if len(m.nodes) > 20000000 {
		panic(undecided("path-condition diagram too large"))
	}
	return r
}

func bVar(t *Term) B {
	if t.bv == 0 {
		mgr.atoms = append(mgr.atoms, t)
		t.bv = int32(len(mgr.atoms))
	}
	return mgr.mk(t.bv-1, bFalse, bTrue)
}

func bIte(f, g, h B) B {
	if f == bTrue {
		return g
	}
	if f == bFalse {
		return h
	}
	if g == h {
		return g
	}
	if g == bTrue && h == bFalse {
		return f
	}
	k := [3]B{f, g, h}
	if r, ok := mgr.iteC[k]; ok {
		return r
	}
	nf, ng, nh := mgr.nodes[f], mgr.nodes[g], mgr.nodes[h]
	v := nf.v
	if ng.v < v {
		v = ng.v
	}
	if nh.v < v {
		v = nh.v
	}
	co := func(b B, n bnode, hi bool) B {
		if n.v != v {
			return b
		}
		if hi {
			return n.hi
		}
		return n.lo
	}
	hi := bIte(co(f, nf, true), co(g, ng, true), co(h, nh, true))
	lo := bIte(co(f, nf, false), co(g, ng, false), co(h, nh, false))
	r := mgr.mk(v, lo, hi)
	mgr.iteC[k] = r
	return r
}

func bNot(a B) B    { return bIte(a, bFalse, bTrue) }
func bAnd(a, b B) B { return bIte(a, b, bFalse) }
func bOr(a, b B) B  { return bIte(a, bTrue, b) }
func bImp(a, b B) B { return bIte(a, b, bTrue) }
func bIff(a, b B) B { return bIte(a, b, bNot(b)) }

func bAll(xs ...B) B {
	r := bTrue
	for _, x := range xs {
		r = bAnd(r, x)
	}
	return r
}

func bAny(xs ...B) B {
	r := bFalse
	for _, x := range xs {
		r = bOr(r, x)
	}
	return r
}

// bRestrict simplifies f under the care set c (Coudert-Madre restrict): the
// result agrees with f wherever c holds.
func bRestrict(f, c B) B {
	if c == bFalse || c == bTrue || f == bTrue || f == bFalse {
		return f
	}
	if !bMeets(f, c, true) {
		return bFalse
	}
	if !bMeets(f, c, false) {
		return bTrue
	}
	return bRes(f, c)
}

type meetKey struct {
	f, c B
	pos  bool
}

var meetCache = map[meetKey]bool{}

// bMeets tells whether f (or its negation, without pos) and c hold together,
// without building their conjunction.
func bMeets(f, c B, pos bool) bool {
	switch {
	case c == bFalse:
		return false
	case f == bTrue || f == bFalse:
		return (f == bTrue) == pos
	case c == bTrue:
		return true
	}
	k := meetKey{f, c, pos}
	if r, ok := meetCache[k]; ok {
		return r
	}
	nf, nc := mgr.nodes[f], mgr.nodes[c]
	var r bool
	switch {
	case nc.v < nf.v:
		r = bMeets(f, nc.lo, pos) || bMeets(f, nc.hi, pos)
	case nf.v < nc.v:
		r = bMeets(nf.lo, c, pos) || bMeets(nf.hi, c, pos)
	default:
		r = bMeets(nf.lo, nc.lo, pos) || bMeets(nf.hi, nc.hi, pos)
	}
	meetCache[k] = r
	return r
}

func bRes(f, c B) B {
	if c == bTrue || f == bTrue || f == bFalse || c == bFalse {
		return f
	}
	if f == c {
		return bTrue
	}
	k := [2]B{f, c}
	if r, ok := mgr.resC[k]; ok {
		return r
	}
	nf, nc := mgr.nodes[f], mgr.nodes[c]
	var r B
	switch {
	case nc.v < nf.v:
		r = bRes(f, bOr(nc.lo, nc.hi))
	case nf.v < nc.v:
		r = mgr.mk(nf.v, bRes(nf.lo, c), bRes(nf.hi, c))
	default:
		if nc.lo == bFalse {
			r = bRes(nf.hi, nc.hi)
		} else if nc.hi == bFalse {
			r = bRes(nf.lo, nc.lo)
		} else {
			r = mgr.mk(nf.v, bRes(nf.lo, nc.lo), bRes(nf.hi, nc.hi))
		}
	}
	mgr.resC[k] = r
	return r
}

// bSupport lists the atoms a diagram depends on, in variable order.
func bSupport(f B) []*Term {
	seen := map[B]bool{}
	vars := map[int32]bool{}
	var walk func(B)
	walk = func(b B) {
		if b == bTrue || b == bFalse || seen[b] {
			return
		}
		seen[b] = true
		n := mgr.nodes[b]
		vars[n.v] = true
		walk(n.lo)
		walk(n.hi)
	}
	walk(f)
	var out []*Term
	for i := int32(0); i < int32(len(mgr.atoms)); i++ {
		if vars[i] {
			out = append(out, mgr.atoms[i])
		}
	}
	return out
}

// bMapAtoms rebuilds f with every atom replaced by a formula.
func bMapAtoms(f B, fn func(*Term) B) B {
	memo := map[B]B{bTrue: bTrue, bFalse: bFalse}
	am := map[int32]B{}
	var walk func(B) B
	walk = func(b B) B {
		if r, ok := memo[b]; ok {
			return r
		}
		n := mgr.nodes[b]
		a, ok := am[n.v]
		if !ok {
			a = fn(mgr.atoms[n.v])
			am[n.v] = a
		}
		r := bIte(a, walk(n.hi), walk(n.lo))
		memo[b] = r
		return r
	}
	return walk(f)
}

type literal struct {
	atom *Term
	pos  bool
}

// bCube returns one satisfying assignment (shortest over the diagram).
func bCube(f B) []literal {
	if f == bFalse {
		return nil
	}
	memo := map[B]int{}
	var cost func(B) int
	cost = func(b B) int {
		if b == bTrue {
			return 0
		}
		if b == bFalse {
			return 1 << 20
		}
		if c, ok := memo[b]; ok {
			return c
		}
		n := mgr.nodes[b]
		l, h := cost(n.lo), cost(n.hi)
		if h < l {
			l = h
		}
		memo[b] = l + 1
		return l + 1
	}
	var out []literal
	for f != bTrue {
		n := mgr.nodes[f]
		if cost(n.hi) <= cost(n.lo) {
			out = append(out, literal{mgr.atoms[n.v], true})
			f = n.hi
		} else {
			out = append(out, literal{mgr.atoms[n.v], false})
			f = n.lo
		}
	}
	return out
}

var normTab = map[B]B{}

// eqGroup is the value that an atom compares with a constant.
func eqGroup(a *Term) *Term {
	switch a.op {
	case OEq:
		if a.args[0].op == OConst {
			return a.args[1]
		}
		if a.args[1].op == OConst {
			return a.args[0]
		}
	case OEmpty:
		return a.args[0]
	}
	return nil
}

// bNorm drops tests that other tests of the same value with other constants
// already decide, so that the order of such tests does not matter.
func bNorm(f B) B {
	if f == bTrue || f == bFalse {
		return f
	}
	if r, ok := normTab[f]; ok {
		return r
	}
	groups := map[*Term][]*Term{}
	multi := false
	for _, a := range bSupport(f) {
		if x := eqGroup(a); x != nil {
			groups[x] = append(groups[x], a)
			multi = multi || len(groups[x]) > 1
		}
	}
	r := f
	if multi {
		for changed := true; changed; {
			changed = false
			for _, v := range bSupport(r) {
				x := eqGroup(v)
				if x == nil || len(groups[x]) < 2 {
					continue
				}
				others := bTrue
				for _, o := range groups[x] {
					if o != v {
						others = bAnd(others, bNot(bVar(o)))
					}
				}
				hi, lo := bRestrict(r, bVar(v)), bRestrict(r, bNot(bVar(v)))
				if bAnd(others, bNot(bIff(hi, lo))) == bFalse {
					r = lo
					changed = true
					break
				}
			}
		}
	}
	if multi {
		// a canonical choice for the combinations that cannot occur
		excl := bTrue
		left := map[*Term][]B{}
		for _, v := range bSupport(r) {
			if x := eqGroup(v); x != nil {
				for _, o := range left[x] {
					excl = bAnd(excl, bNot(bAnd(o, bVar(v))))
				}
				left[x] = append(left[x], bVar(v))
			}
		}
		r = bConstrain(r, excl)
	}
	normTab[f] = r
	normTab[r] = r
	return r
}

// bConstrain is the generalised cofactor: equal results for functions that
// agree on c.
func bConstrain(f, c B) B {
	memo := map[[2]B]B{}
	var walk func(f, c B) B
	walk = func(f, c B) B {
		if c == bTrue || c == bFalse || f == bTrue || f == bFalse {
			return f
		}
		k := [2]B{f, c}
		if r, ok := memo[k]; ok {
			return r
		}
		nf, nc := mgr.nodes[f], mgr.nodes[c]
		v := nf.v
		if nc.v < v {
			v = nc.v
		}
		f0, f1, c0, c1 := f, f, c, c
		if nf.v == v {
			f0, f1 = nf.lo, nf.hi
		}
		if nc.v == v {
			c0, c1 = nc.lo, nc.hi
		}
		var r B
		switch {
		case c0 == bFalse:
			r = walk(f1, c1)
		case c1 == bFalse:
			r = walk(f0, c0)
		default:
			r = mgr.mk(v, walk(f0, c0), walk(f1, c1))
		}
		memo[k] = r
		return r
	}
	return walk(f, c)
}
