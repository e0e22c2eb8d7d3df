package main

import (
	"go/types"
	"strings"
)

// Lists that are made with their final length and then filled by position:
//
//	out := make([]T, len(in))
//	for i, x := range in {
//		out[i] = f(x)
//	}

// isMade tells whether t is a list made with a length.
func isMade(t *Term) bool { return t.op == OOpaque && strings.HasPrefix(t.sym, "make@") }

func listLoc(t *Term) *Term { return mkT(OListOf, "", t.typ, t) }

// filled gives the elements of a list that was made with its final length,
// once they are all known.
func (m *Machine) filled(t *Term) *Term {
	if m.made == 0 {
		return t
	}
	switch t.op {
	case OOpaque:
		if isMade(t) {
			if v, ok := m.heapGet(listLoc(t)); ok {
				return v
			}
		}
	case OIte:
		for _, a := range t.args {
			if isMade(a) {
				return lift(t, m.filled)
			}
		}
	}
	return t
}

// fill works out the lists that a loop over the whole of coll has filled.
func (lp *loopRun) fill(coll *Term, normal B) {
	fr := lp.fr
	m := fr.m
	if normal == bFalse || m.made == 0 {
		return
	}
	var ms []*Term
	seen := map[*Term]bool{}
	var keys []*Term
	for k := range m.heap {
		keys = append(keys, k)
	}
	sortTerms(keys)
	for _, k := range keys {
		for k.op == OFieldRef {
			k = k.args[0]
		}
		if k.op != OIdxRef || !isMade(k.args[0]) || seen[k.args[0]] {
			continue
		}
		l := k.args[0]
		seen[l] = true
		if isStringish(l.typ) || len(l.args)-1 != len(m.lstack) || m.heap[listLoc(l)] != nil {
			continue
		}
		if segs, ok := m.allSet(l, normal); ok {
			seq := mkSeq("list", l.typ, segs)
			m.heap[listLoc(l)] = mkIte([]alt{{normal, seq}, {bNot(normal), l}})
			for k := range m.heap {
				if k.op != OListOf && rootChain(k)[len(rootChain(k))-1] == l {
					delete(m.heap, k)
				}
			}
			continue
		}
		if coll != nil && restrictTerm(l.args[0], normal) == mkLen(restrictTerm(coll, normal)) {
			ms = append(ms, l)
		}
	}
	sortTerms(ms)
	for _, l := range ms {
		et := l.typ.Underlying().(*types.Slice).Elem()
		ok := true
		var used []*Term
		at := func(idx *Term) *Term {
			p := mkT(OIdxRef, "", types.NewPointer(et), l, idx)
			used = append(used, p)
			v := restrictTerm(restrictTerm(m.load(p, et), normal), lp.stay)
			// what was not set is zero
			sub := newSubst(tUnit, tUnit)
			mentions(v, func(x *Term) bool {
				if x.op == OAt && x.args[0] == l && x.args[1] == idx && x.typ != nil {
					sub.from[x] = zeroOf(x.typ)
				}
				return false
			})
			v = sub.term(v)
			if mentions(v, func(x *Term) bool { return x == l }) {
				ok = false
			}
			return v
		}
		var walk func(c *Term, depth int) []Seg
		var seg func(seq *Term, s Seg, depth int) []Seg
		seg = func(seq *Term, s Seg, depth int) []Seg {
			switch s.kind {
			case SegSingle:
				idx := mkT(OSegIdx, "", types.Typ[types.Int], seq, s.val)
				return []Seg{{kind: SegSingle, g: s.g, val: at(idx)}}
			case SegSplice:
				v := s.val
				if v.op == OSeq || v.op == OIte || v.op == ONil {
					return walk(v, depth)
				}
				lv := mkLVar(v, depth)
				el := mkAt(v, lv, elemType(v.typ))
				idx := mkT(OSegIdx, "", types.Typ[types.Int], seq, el)
				return []Seg{{kind: SegEach, g: s.g, coll: v, lv: lv, body: []Seg{{kind: SegSingle, g: bTrue, val: at(idx)}}}}
			}
			lv := mkLVar(s.coll, depth)
			body, cond := s.body, s.g
			if lv != s.lv {
				sb := newSubst(s.lv, lv)
				body, _ = sb.segs(body)
				cond = sb.b(cond)
			}
			var out []Seg
			for _, b := range body {
				out = append(out, seg(seq, b, depth+1)...)
			}
			return []Seg{{kind: SegEach, g: cond, coll: s.coll, lv: lv, bound: s.bound, body: out}}
		}
		walk = func(c *Term, depth int) []Seg {
			switch {
			case c.op == ONil:
				return nil
			case c.op == OIte:
				ok = false
				return nil
			case c.op == OSeq && c.sym != "str":
				var out []Seg
				for _, s := range c.segs {
					out = append(out, seg(c, s, depth)...)
				}
				return out
			}
			lv := mkLVar(c, depth)
			return []Seg{{kind: SegEach, g: bTrue, coll: c, lv: lv, body: []Seg{{kind: SegSingle, g: bTrue, val: at(lv)}}}}
		}
		segs := walk(restrictTerm(coll, normal), lp.depth(coll))
		if !ok {
			continue
		}
		seq := mkSeq("list", l.typ, segs)
		m.heap[listLoc(l)] = mkIte([]alt{{normal, seq}, {bNot(normal), l}})
		// the places are no longer of interest
		for k := range m.heap {
			for _, u := range used {
				if k == u || k.op == OFieldRef && chainHas(k, u) {
					delete(m.heap, k)
				}
			}
		}
	}
}

// allSet gives the elements of a list of known length all of which were set.
func (m *Machine) allSet(l *Term, normal B) ([]Seg, bool) {
	n, ok := l.args[0].constInt()
	if !ok || n < 1 || n > 32 {
		return nil, false
	}
	et := l.typ.Underlying().(*types.Slice).Elem()
	var out []Seg
	for i := int64(0); i < n; i++ {
		p := mkT(OIdxRef, "", types.NewPointer(et), l, mkInt(i))
		v := restrictTerm(m.load(p, et), normal)
		if mentions(v, func(x *Term) bool { return x == l }) {
			return nil, false
		}
		out = append(out, Seg{kind: SegSingle, g: bTrue, val: v})
	}
	return out, true
}

func rootMade(loc *Term) bool {
	for loc.op == OFieldRef || loc.op == OIdxRef {
		loc = loc.args[0]
	}
	return isMade(loc)
}

func chainHas(k, u *Term) bool {
	for _, q := range rootChain(k) {
		if q == u {
			return true
		}
	}
	return false
}
