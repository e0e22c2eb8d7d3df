package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
)

// Comparison of computed values by content.

type binder struct{ coll, w *Term }

// leaf is one generic element of a computed list: the collections it ranges
// over (with an arbitrary index each), the condition under which it is
// there, and its value.
type leaf struct {
	binders []binder
	g       B
	val     *Term
}

func (l leaf) over(coll *Term) bool { return len(l.binders) == 1 && l.binders[0].coll == coll }

// leaves lists the generic elements of a list.
func leaves(t *Term) []leaf {
	var out []leaf
	var walk func(segs []Seg, bs []binder, g B)
	var whole func(t *Term, bs []binder, g B)
	whole = func(t *Term, bs []binder, g B) {
		for _, a := range alts(t) {
			ag := bAnd(g, a.g)
			if ag == bFalse || a.t.op == ONil {
				continue
			}
			if a.t.op == OSeq {
				walk(a.t.segs, bs, ag)
				continue
			}
			if c, ok := a.t.constStr(); ok && c == "" {
				continue
			}
			w := wit(fmt.Sprintf("e%d", len(bs)), a.t)
			out = append(out, leaf{append(append([]binder{}, bs...), binder{a.t, w}), bAnd(ag, bNot(mkEmpty(a.t))), elemOf(a.t, w)})
		}
	}
	walk = func(segs []Seg, bs []binder, g B) {
		for _, s := range segs {
			switch s.kind {
			case SegSingle:
				out = append(out, leaf{bs, bAnd(g, s.g), s.val})
			case SegSplice:
				whole(s.val, bs, bAnd(g, s.g))
			case SegEach:
				w := wit(fmt.Sprintf("e%d", len(bs)), s.coll)
				sb := newSubst(s.lv, w)
				body, _ := sb.segs(s.body)
				eg := bAnd(g, bAnd(sb.b(s.g), bNot(mkEmpty(s.coll))))
				if s.bound != nil {
					eg = bAnd(eg, mkBefore(w, s.bound))
				}
				walk(body, append(append([]binder{}, bs...), binder{s.coll, w}), eg)
			}
		}
	}
	whole(t, nil, bTrue)
	return out
}

// anyValue in a reference stands for a value the rule leaves open.
const anyValue = "<?>"

const objMark = "obj:"

// deep replaces allocated objects by their content.
func (m *Machine) deep(t *Term, typ types.Type) *Term { return m.deepN(t, typ, 0) }

func (m *Machine) deepN(t *Term, typ types.Type, n int) *Term {
	if typ == nil || n > 10 {
		return t
	}
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		return lift(t, func(t *Term) *Term {
			if t.op != OObj {
				return t
			}
			st, ok := isStruct(u.Elem())
			if !ok || opaqueStruct(u.Elem()) {
				return t
			}
			args := make([]*Term, st.NumFields())
			for i := range args {
				ft := st.Field(i).Type()
				args[i] = m.deepN(m.load(fieldRef(t, u.Elem(), i), ft), ft, n+1)
			}
			return mkT(OStruct, objMark+typeKey(u.Elem()), typ, args...)
		})
	case *types.Struct:
		return lift(t, func(t *Term) *Term {
			if t.op != OStruct || len(t.args) != u.NumFields() {
				return t
			}
			args := make([]*Term, len(t.args))
			for i := range args {
				args[i] = m.deepN(t.args[i], u.Field(i).Type(), n+1)
			}
			return mkT(OStruct, t.sym, typ, args...)
		})
	case *types.Slice:
		if isStringish(typ) {
			return t
		}
		return lift(t, func(t *Term) *Term {
			if f := m.filled(t); f != t {
				return m.deepN(f, typ, n+1)
			}
			if t.op != OSeq {
				return m.written(t, typ, u.Elem(), n)
			}
			var conv func(segs []Seg) []Seg
			conv = func(segs []Seg) []Seg {
				out := make([]Seg, len(segs))
				for i, s := range segs {
					switch s.kind {
					case SegSingle:
						s.val = m.deepN(s.val, u.Elem(), n+1)
					case SegSplice:
						s.val = m.deepN(s.val, typ, n+1)
					case SegEach:
						s.body = conv(s.body)
					}
					out[i] = s
				}
				return out
			}
			return mkSeq(t.sym, typ, conv(t.segs))
		})
	case *types.Map:
		return lift(t, func(t *Term) *Term {
			if t.op == ONil {
				return mkSeq("map", typ, nil)
			}
			c := m.mapContent(t)
			return lift(c, func(c *Term) *Term {
				if c.op != OSeq {
					return c
				}
				var conv func(segs []Seg) []Seg
				conv = func(segs []Seg) []Seg {
					out := make([]Seg, len(segs))
					for i, s := range segs {
						switch s.kind {
						case SegSingle:
							s.val = m.deepN(s.val, u.Elem(), n+1)
						case SegSplice:
							s.val = m.deepN(s.val, typ, n+1)
						case SegEach:
							s.body = conv(s.body)
						}
						out[i] = s
					}
					return out
				}
				return mkSeq("map", typ, conv(c.segs))
			})
		})
	case *types.Interface:
		return lift(t, func(t *Term) *Term {
			if t.op == OIface {
				it := t.aux.(types.Type)
				return mkIface(m.deepN(t.args[0], it, n+1), it)
			}
			return t
		})
	}
	return t
}

// written is a list whose elements were stored to by a loop over it.
func (m *Machine) written(t *Term, typ, et types.Type, n int) *Term {
	if t.op == ONil || len(m.heap) == 0 {
		return t
	}
	if _, ok := isStruct(et); ok {
		return t
	}
	lv := mkLVar(t, 0)
	v, ok := m.heap[mkT(OIdxRef, "", types.NewPointer(et), t, lv)]
	if !ok {
		gt, back := generalise(t)
		if back == nil {
			return t
		}
		glv := mkLVar(gt, 0)
		v, ok = m.heap[mkT(OIdxRef, "", types.NewPointer(et), gt, glv)]
		if !ok {
			return t
		}
		for i := len(back) - 1; i >= 0; i-- {
			v = back[i].term(v)
		}
	}
	return mkSeq("list", typ, []Seg{{kind: SegEach, g: bTrue, coll: t, lv: lv, body: []Seg{{kind: SegSingle, g: bTrue, val: m.deepN(v, et, n+1)}}}})
}

// comparer decides equality of two computed values under a condition.
type comparer struct {
	m     *Machine
	extra []B
	why   string
	path  []string
	steps int
	// m2 is the state the expected values belong to, when it is not m; new
	// objects and identifiers of the two sides correspond one to one
	m2   *Machine
	pair map[*Term]*Term
	back map[*Term]*Term
}

// matched pairs values that are new on both sides.
func (k *comparer) matched(a, b *Term) bool {
	if k.m2 == nil || a.op != b.op || len(a.args) != len(b.args) {
		return false
	}
	isNew := a.op == OObj && a.aux != "sym" && b.aux != "sym" && sameType(a.typ, b.typ) ||
		a.op == OOpaque && strings.HasPrefix(a.sym, "fresh#") && strings.HasPrefix(b.sym, "fresh#") ||
		a.op == OOpaque && strings.HasPrefix(a.sym, "at#") && strings.HasPrefix(b.sym, "at#")
	if !isNew {
		return false
	}
	for i := range a.args {
		if a.args[i] != b.args[i] {
			return false
		}
	}
	ka, kb := mkT(a.op, a.sym, a.typ), mkT(b.op, b.sym, b.typ)
	if k.pair == nil {
		k.pair, k.back = map[*Term]*Term{}, map[*Term]*Term{}
	}
	if k.pair[ka] == nil && k.back[kb] == nil {
		k.pair[ka], k.back[kb] = kb, ka
	}
	return k.pair[ka] == kb && k.back[kb] == ka
}

func sameType(a, b types.Type) bool {
	return a != nil && b != nil && types.Identical(a, b)
}

func (k *comparer) sat(b B) (bool, B) { return satisfiable(b, nil, k.extra...) }

func (k *comparer) at(p string, f func() bool) bool {
	k.path = append(k.path, p)
	defer func() { k.path = k.path[:len(k.path)-1] }()
	return f()
}

func (k *comparer) where() string { return strings.Join(k.path, "") }

func (k *comparer) fail(care B, a, b *Term, what string) bool {
	_, rest := k.sat(care)
	k.why = fmt.Sprintf("%s%s: it is %s, expected %s; when: %s", k.where(), what, clip(a.str(3)), clip(b.str(3)), describe(rest))
	return false
}

func (k *comparer) same(care B, a, b *Term, typ types.Type) bool {
	k.steps++
	if k.steps > 20000 {
		panic(undecided("comparison of " + k.where() + " is too large"))
	}
	if care == bFalse || a == b && (k.m2 == nil || !mentions(a, isFreshPart)) {
		return true
	}
	if k.matched(a, b) {
		return true
	}
	if c, ok := b.constStr(); ok && c == anyValue {
		return true
	}
	if a.op == OBool || b.op == OBool {
		x := bAnd(care, bNot(bIff(toB(a), toB(b))))
		if ok, _ := k.sat(x); ok {
			return k.fail(x, a, b, "")
		}
		return true
	}
	if a.op == OIte || b.op == OIte {
		for _, x := range alts(a) {
			for _, y := range alts(b) {
				g := bAnd(care, bAnd(x.g, y.g))
				if x.t == y.t || g == bFalse {
					continue
				}
				if ok, _ := k.sat(g); !ok {
					continue
				}
				if !k.same(g, x.t, y.t, typ) {
					return false
				}
			}
		}
		return true
	}
	dead := func(t *Term) bool { return t.op == OOpaque && t.sym == "dead" }
	if dead(a) || dead(b) {
		if ok, _ := k.sat(care); ok {
			return k.fail(care, a, b, "")
		}
		return true
	}
	if typ == nil {
		typ = a.typ
	}
	isObj := func(t *Term) bool { return t.op == OStruct && strings.HasPrefix(t.sym, objMark) }
	if isObj(a) != isObj(b) && (isObj(a) || isObj(b)) {
		// one side copies the object: compare the contents
		x, y := a, b
		if isObj(y) {
			x, y = y, x
		}
		pt, ok := typ.Underlying().(*types.Pointer)
		if ok && y.op != ONil {
			isnil := bAnd(care, mkIsNil(y))
			if sat, _ := k.sat(isnil); sat {
				return k.fail(isnil, a, b, "")
			}
			st, _ := isStruct(pt.Elem())
			for i := range x.args {
				ft := st.Field(i).Type()
				yv := k.m.deep(k.m.load(fieldRef(y, pt.Elem(), i), ft), ft)
				xv := x.args[i]
				if isObj(b) {
					xv, yv = yv, xv
				}
				if !k.at("."+st.Field(i).Name(), func() bool { return k.same(care, xv, yv, ft) }) {
					return false
				}
			}
			return true
		}
		if sat, _ := k.sat(care); sat {
			return k.fail(care, a, b, "")
		}
		return true
	}
	if (a.op == OStruct || a.op == OTuple) && a.op == b.op && len(a.args) == len(b.args) {
		var st *types.Struct
		if typ != nil {
			st, _ = isStruct(typ)
			if pt, ok := typ.Underlying().(*types.Pointer); ok {
				st, _ = isStruct(pt.Elem())
			}
		}
		for i := range a.args {
			var ft types.Type
			name := fmt.Sprintf("#%d", i)
			if st != nil && i < st.NumFields() {
				ft = st.Field(i).Type()
				name = "." + st.Field(i).Name()
			}
			if !k.at(name, func() bool { return k.same(care, a.args[i], b.args[i], ft) }) {
				return false
			}
		}
		return true
	}
	fl := ""
	for _, t := range []*Term{a, b} {
		if t.op == OSeq {
			fl = t.sym
		}
	}
	if fl == "" && typ != nil {
		if f := flavorOf(typ); f == "map" {
			fl = "map"
		}
	}
	switch fl {
	case "map":
		return k.sameMap(care, a, b, typ)
	case "list", "str":
		sa, _ := segsOf(fl, a)
		sb, _ := segsOf(fl, b)
		return k.sameSegs(care, fl, sa, sb, a, b, elemType(typ))
	}
	if a.op == OIface && b.op == OIface && a.sym == b.sym {
		return k.same(care, a.args[0], b.args[0], a.aux.(types.Type))
	}
	x := bAnd(care, bNot(valueEq(a, b)))
	if ok, _ := k.sat(x); !ok {
		return true
	}
	// simplify below calls, then compare argument by argument
	ra, rb := restrictDeep(a, care), restrictDeep(b, care)
	if ra != a || rb != b {
		return k.same(care, ra, rb, typ)
	}
	if a.op == b.op && a.sym == b.sym && len(a.args) == len(b.args) && len(a.args) > 0 && len(a.gs) == 0 {
		switch a.op {
		case OCall, OConv, OBin, OExtract, OAt, OLookup, OLoad, OFieldRef, OCast, OIface, OLen, OTuple:
			eq := true
			for i := range a.args {
				if !k.same(care, a.args[i], b.args[i], nil) {
					eq = false
					break
				}
			}
			if eq {
				return true
			}
		}
	}
	if os.Getenv("VERIF_TRACE") != "" {
		fmt.Fprintln(os.Stderr, "inner:", k.why)
	}
	return k.fail(x, a, b, "")
}

// fixed lists the values that a condition fixes to a constant.
func fixed(care B) map[*Term]*Term {
	out := map[*Term]*Term{}
	for _, a := range bSupport(care) {
		var x, v *Term
		switch {
		case a.op == OEq && a.args[0].op == OConst:
			x, v = a.args[1], a.args[0]
		case a.op == OEq && a.args[1].op == OConst:
			x, v = a.args[0], a.args[1]
		case a.op == OEmpty && isStringish(a.args[0].typ):
			x, v = a.args[0], mkStr("")
		default:
			continue
		}
		if bAnd(care, bNot(bVar(a))) == bFalse {
			out[x] = v
		}
	}
	return out
}

// restrictDeep simplifies the alternatives anywhere inside a value under care.
func restrictDeep(t *Term, care B) *Term {
	if care == bTrue || care == bFalse {
		return t
	}
	memo := map[*Term]*Term{}
	for x, v := range fixed(care) {
		memo[x] = v
	}
	var segs func(in []Seg) ([]Seg, bool)
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		memo[t] = t
		switch t.op {
		case OExists, OLVar, OWit, OParam, OConst, OClosure, OObj, OGlobal, ONil:
			return t
		}
		ch := false
		if t.op == OFirst || t.op == OLast {
			var bound *Term
			if len(t.args) > 2 {
				bound = t.args[2]
			}
			r := mkPick(t.op, t.args[0], t.args[1], bound, bRestrict(t.gs[0], care))
			memo[t] = r
			return r
		}
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = walk(a)
			ch = ch || args[i] != a
		}
		gs := make([]B, len(t.gs))
		for i, g := range t.gs {
			gs[i] = bRestrict(g, care)
			ch = ch || gs[i] != g
		}
		ss, c2 := segs(t.segs)
		r := t
		if ch || c2 {
			r = rebuild(t, args, gs, ss)
		}
		memo[t] = r
		return r
	}
	segs = func(in []Seg) ([]Seg, bool) {
		out := make([]Seg, len(in))
		ch := false
		for i, s := range in {
			o := s
			o.g = bRestrict(s.g, care)
			ch = ch || o.g != s.g
			if s.key != nil {
				o.key = walk(s.key)
				ch = ch || o.key != s.key
			}
			if s.val != nil {
				o.val = walk(s.val)
				ch = ch || o.val != s.val
			}
			if len(s.body) > 0 {
				var c2 bool
				o.body, c2 = segs(s.body)
				ch = ch || c2
			}
			out[i] = o
		}
		return out, ch
	}
	return walk(t)
}

func (k *comparer) sameMap(care B, a, b *Term, typ types.Type) bool {
	mt, ok := typ.Underlying().(*types.Map)
	if !ok {
		panic(undecided("map comparison at " + k.where()))
	}
	key := symb(mkT(OParam, fmt.Sprintf("key%d", len(k.path)), mt.Key()))
	va, oa := mkLookup(a, key, mt.Elem())
	vb, ob := mkLookup(b, key, mt.Elem())
	return k.at("["+key.sym+"]", func() bool {
		x := bAnd(care, bNot(bIff(oa, ob)))
		if ok, _ := k.sat(x); ok {
			return k.fail(x, mkBool(oa), mkBool(ob), " present")
		}
		return k.same(bAnd(care, bAnd(oa, ob)), va, vb, mt.Elem())
	})
}

// sameSegs compares two sequences part by part, splitting on the conditions
// under which the parts are there.
func (k *comparer) sameSegs(care B, fl string, sa, sb []Seg, a, b *Term, et types.Type) bool {
	k.steps++
	if k.steps > 20000 {
		panic(undecided("comparison of " + k.where() + " is too large"))
	}
	if ok, _ := k.sat(care); !ok {
		return true
	}
	if fl == "str" {
		sa, sb = k.leadSep(care, sa), k.leadSep(care, sb)
	}
	sa, sb = k.strip(care, fl, sa, sb, a, b, et)
	if len(sa) == 0 && len(sb) == 0 {
		return true
	}
	prune := func(segs []Seg) ([]Seg, B) {
		var out []Seg
		split := bTrue
		for _, s := range segs {
			if s.kind == SegEach {
				if s.coll.op != OSeq {
					if e := mkEmpty(s.coll); e != bFalse {
						if ok, _ := k.sat(bAnd(care, bNot(e))); !ok {
							continue
						}
					}
				}
				// the part of the condition that is the same for every index
				outer, inner := splitOuter(s.lv, s.g)
				if outer != bTrue {
					if ok, _ := k.sat(bAnd(care, outer)); !ok {
						continue
					} else if ok, _ := k.sat(bAnd(care, bNot(outer))); !ok {
						s.g = inner
					} else if split == bTrue {
						split = outer
					}
				}
				out = append(out, s)
				continue
			}
			if s.kind == SegSplice && fl != "str" && s.val != nil && s.val.op != OSeq && s.val.op != OIte {
				if ok, _ := k.sat(bAnd(care, bNot(mkEmpty(s.val)))); !ok {
					continue
				}
			}
			if s.g != bTrue {
				if r := bRestrict(s.g, care); r == bTrue || r == bFalse {
					if r == bFalse {
						continue
					}
					s.g = bTrue
				} else if ok, _ := k.sat(bAnd(care, s.g)); !ok {
					continue
				} else if ok, _ := k.sat(bAnd(care, bNot(s.g))); !ok {
					s.g = bTrue
				} else if split == bTrue {
					split = s.g
				}
			}
			if s.val != nil && s.val.op == OIte && split == bTrue {
				split = s.val.gs[0]
				if r := bRestrict(split, care); r == bTrue || r == bFalse {
					s.val = restrictTerm(s.val, care)
					split = bTrue
				}
			}
			out = append(out, s)
		}
		return out, split
	}
	pa, s1 := prune(sa)
	pb, s2 := prune(sb)
	if s1 == bTrue {
		s1 = s2
	}
	if s1 != bTrue {
		return k.sameSegs(bAnd(care, s1), fl, pa, pb, a, b, et) && k.sameSegs(bAnd(care, bNot(s1)), fl, pa, pb, a, b, et)
	}
	norm := func(segs []Seg) []Seg {
		t := mkSeq(fl, nil, segs)
		out, _ := segsOf(fl, t)
		for i := range out {
			if fl != "str" && out[i].kind == SegSplice {
				coll := out[i].val
				if coll.op == OSeq || coll.op == OIte {
					continue
				}
				lv := mkLVar(coll, 0)
				out[i] = Seg{kind: SegEach, g: bTrue, coll: coll, lv: lv, body: []Seg{{kind: SegSingle, g: bTrue, val: mkAt(coll, lv, et)}}}
			}
		}
		return out
	}
	pa, pb = norm(pa), norm(pb)
	if fl == "str" {
		pa, pb = k.leadSep(care, pa), k.leadSep(care, pb)
	}
	if len(pa) != len(pb) {
		ra, _ := segsOf(fl, restrictDeep(mkSeq(fl, nil, pa), care))
		rb, _ := segsOf(fl, restrictDeep(mkSeq(fl, nil, pb), care))
		if len(ra) == len(rb) {
			pa, pb = ra, rb
		}
	}
	if len(pa) != len(pb) {
		if os.Getenv("VERIF_TRACE") != "" {
			for _, x := range append(append([]Seg{}, pa...), pb...) {
				fmt.Fprintln(os.Stderr, "part", x.kind, x.body, x.coll.str(1), x.bound != nil, bString(x.g, 0))
			}
		}
		// parts over empty collections may be missing on one side
		return k.fail(care, mkSeq(fl, nil, pa), mkSeq(fl, nil, pb), fmt.Sprintf(" (%d parts, expected %d)", len(pa), len(pb)))
	}
	for i := range pa {
		x, y := pa[i], pb[i]
		if x.kind != y.kind {
			return k.fail(care, a, b, fmt.Sprintf(" (part %d)", i))
		}
		ok := k.at(fmt.Sprintf("[%d]", i), func() bool {
			if x.kind == SegEach {
				return k.sameEach(care, fl, x, y, a, b, et)
			}
			return k.same(care, x.val, y.val, et)
		})
		if !ok {
			return false
		}
	}
	return true
}

// strip removes the parts at both ends that are there under the same
// conditions on both sides.
func (k *comparer) strip(care B, fl string, sa, sb []Seg, a, b *Term, et types.Type) ([]Seg, []Seg) {
	sameG := func(g, h B) bool {
		if g == h || bRestrict(g, care) == bRestrict(h, care) {
			return true
		}
		ok, _ := k.sat(bAnd(care, bNot(bIff(g, h))))
		return !ok
	}
	match := func(x, y Seg) bool {
		if x.kind != y.kind || x.key != y.key {
			return false
		}
		switch x.kind {
		case SegSingle, SegSplice:
			return x.val == y.val && sameG(x.g, y.g)
		case SegEach:
			if x.coll != y.coll || x.bound != y.bound || fl != "str" && fl != "list" {
				return false
			}
			why := k.why
			if k.sameEach(care, fl, x, y, a, b, et) {
				return true
			}
			k.why = why
		}
		return false
	}
	for len(sa) > 0 && len(sb) > 0 {
		x, y := sa[0], sb[0]
		if match(x, y) {
			sa, sb = sa[1:], sb[1:]
			continue
		}
		if fl == "str" && x.kind == SegSingle && y.kind == SegSingle && x.val != nil && y.val != nil {
			// one text begins with the other
			p, ok1 := x.val.constStr()
			q, ok2 := y.val.constStr()
			if ok1 && ok2 && p != "" && q != "" && (strings.HasPrefix(p, q) || strings.HasPrefix(q, p)) && sameG(x.g, y.g) {
				if len(p) > len(q) {
					x.val = mkStr(p[len(q):])
					sa = append([]Seg{x}, sa[1:]...)
					sb = sb[1:]
				} else {
					y.val = mkStr(q[len(p):])
					sb = append([]Seg{y}, sb[1:]...)
					sa = sa[1:]
				}
				continue
			}
		}
		// an alternative that is listed later on the other side
		moved := false
		for j := 1; j < 4 && j < len(sb) && sb[j].kind == SegSingle && !moved; j++ {
			if !match(x, sb[j]) {
				continue
			}
			apart := true
			for _, o := range sb[:j] {
				if ok, _ := k.sat(bAnd(care, bAnd(o.g, sb[j].g))); ok || o.kind != SegSingle {
					apart = false
					break
				}
			}
			if apart {
				rest := append([]Seg{}, sb[:j]...)
				sa, sb = sa[1:], append(rest, sb[j+1:]...)
				moved = true
			}
			break
		}
		if !moved {
			break
		}
	}
	for len(sa) > 0 && len(sb) > 0 && match(sa[len(sa)-1], sb[len(sb)-1]) {
		sa, sb = sa[:len(sa)-1], sb[:len(sb)-1]
	}
	return sa, sb
}

// leadSep makes a separator that follows every entry but the last, with one in
// front of the list, the beginning of every entry.
func (k *comparer) leadSep(care B, segs []Seg) []Seg {
	changed := false
	for i := 1; i < len(segs); i++ {
		p, e := segs[i-1], segs[i]
		if p.kind != SegSingle || e.kind != SegEach || e.bound != nil || len(e.body) == 0 || freeVarsB(e.g)[e.lv] {
			continue
		}
		b := e.body[0]
		if b.kind != SegSingle || b.g != bNot(mkEq(mkInt(0), e.lv)) {
			continue
		}
		ps, ok1 := p.val.constStr()
		bs, ok2 := b.val.constStr()
		if !ok1 || !ok2 || !strings.HasSuffix(ps, bs) {
			continue
		}
		if ok, _ := k.sat(bAnd(care, bNot(bIff(p.g, bAnd(e.g, bNot(mkEmpty(e.coll))))))); ok {
			continue
		}
		if !changed {
			segs = append([]Seg{}, segs...)
			changed = true
		}
		b.g = bTrue
		e.body = append([]Seg{b}, e.body[1:]...)
		p.val = mkStr(strings.TrimSuffix(ps, bs))
		segs[i-1], segs[i] = p, e
	}
	if !changed {
		return segs
	}
	out, _ := segsOf("str", mkSeq("str", nil, segs))
	return out
}

func (k *comparer) sameEach(care B, fl string, x, y Seg, a, b *Term, et types.Type) bool {
	if x.coll != y.coll || (x.bound == nil) != (y.bound == nil) || x.bound != y.bound {
		return k.fail(care, mkSeq(fl, nil, []Seg{x}), mkSeq(fl, nil, []Seg{y}), " (repetition)")
	}
	w := wit(fmt.Sprintf("q%d", len(k.path)), x.coll)
	s1, s2 := newSubst(x.lv, w), newSubst(y.lv, w)
	b1, _ := s1.segs(x.body)
	b2, _ := s2.segs(y.body)
	g1, g2 := s1.b(x.g), s2.b(y.g)
	in := bNot(mkEmpty(x.coll))
	if x.bound != nil {
		in = bAnd(in, mkBefore(w, x.bound))
	}
	return k.sameSegs(bAnd(care, in), fl, guardEach(b1, g1), guardEach(b2, g2), a, b, et)
}

func guardEach(segs []Seg, g B) []Seg {
	if g == bTrue {
		return segs
	}
	return guardSegs(segs, g)
}

// same requires two computed values to have the same content whenever care holds.
func (c *Ctx) same(m *Machine, key string, care B, got, want *Term, typ types.Type, where, what string, extra ...B) bool {
	k := &comparer{m: m, extra: extra, path: []string{what}}
	ok := k.same(care, m.deep(got, typ), m.deep(want, typ), typ)
	d := ""
	if !ok {
		d = k.why
	}
	return c.ob(key, ok, where, d)
}

func isFreshPart(x *Term) bool {
	return x.op == OObj || x.op == OOpaque && (strings.HasPrefix(x.sym, "fresh#") || strings.HasPrefix(x.sym, "at#"))
}

// rooted tells whether a location belongs to something that existed before
// the analysed call (and not to a package variable).
func rooted(loc *Term) bool {
	for loc.op == OFieldRef || loc.op == OIdxRef || loc.op == OMapOf || loc.op == OBufOf || loc.op == OListOf {
		loc = loc.args[0]
	}
	if loc.op == OLoad && !mentions(loc, func(x *Term) bool { return x.op == OParam || x.op == OCall }) {
		return false
	}
	for b := loc; ; b = b.args[0] {
		switch b.op {
		case OFieldRef, OIdxRef, OMapOf, OBufOf, OListOf, OLoad, OAt, OLookup, OExtract:
			continue
		case OCall:
			// what a document was decoded into is made by the call
			if strings.HasPrefix(b.sym, "decoded:") {
				return false
			}
		}
		break
	}
	return loc.op != OObj && loc.op != OGlobal && !isMade(loc)
}

// sameEffect requires two analysed calls to leave everything that existed
// before in the same state.
func (c *Ctx) sameEffect(key string, care B, got, want *Machine, where, what string, extra ...B) int {
	locs := map[*Term]bool{}
	for _, m := range []*Machine{got, want} {
		for l := range m.heap {
			if rooted(l) {
				locs[l] = true
			}
		}
	}
	var order []*Term
	for l := range locs {
		order = append(order, l)
	}
	sortTerms(order)
	read := func(m *Machine, l *Term) (*Term, types.Type) {
		switch l.op {
		case OMapOf:
			t := l.args[0].typ
			return m.deep(m.mapContent(l.args[0]), t), t
		case OBufOf:
			return m.bufGet(l.args[0]), types.Typ[types.String]
		}
		t := deref(l.typ)
		return m.deep(m.load(l, t), t), t
	}
	k := &comparer{m: got, m2: want, extra: extra}
	for _, l := range order {
		a, t := read(got, l)
		b, _ := read(want, l)
		care := care
		for lv := range freeVars(l) {
			sb := newSubst(lv, wit("at", lv.args[0]))
			a, b = sb.term(a), sb.term(b)
			care = bAnd(care, bNot(mkEmpty(lv.args[0])))
		}
		k.path, k.why = []string{what + " " + l.str(2)}, ""
		ok := k.same(care, a, b, t)
		c.ob(key+"."+l.str(2), ok, where, k.why)
	}
	return len(order)
}

// sameResult requires two analysed calls to give the same result.
func (c *Ctx) sameResult(key string, care B, got *Machine, a *Term, want *Machine, b *Term, typ types.Type, where, what string, extra ...B) bool {
	k := &comparer{m: got, m2: want, extra: extra, path: []string{what}}
	ok := k.same(care, got.deep(a, typ), want.deep(b, typ), typ)
	return c.ob(key, ok, where, k.why)
}
