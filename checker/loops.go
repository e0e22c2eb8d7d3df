package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// iteration describes how a loop walks a collection.
type iteration struct {
	kind    string // list, map, count, while
	coll    *Term
	phi     *ssa.Phi  // index phi
	idxVal  ssa.Value // value that equals the current index
	prevVal ssa.Value // value that equals index-1 (range loops keep it in the phi)
	next    *ssa.Next
	enter   int // successor of the header that enters the body
	typ     types.Type
	reverse bool
	stride  int64
	cond    *ssa.BasicBlock // block with the condition on the index
	stop    *ssa.Phi        // variable that ends the loop when it changes
	keep    *Term           // its value while the loop goes on
	stopAt  edgeKey         // the edge on which it ends the loop
	consume bool            // phi is what is left of the list
	above   bool            // phi is one more than the index
	down    bool            // the list is made of known parts and walked from its end
}

// recognise works out what a loop iterates over.
//
// A second condition of the loop, on a variable that is set in its body
// (err == nil && i < n), is taken as the body's last step: as long as the
// loop goes on the variable has its first value.
func (fr *frame) recognise(l *loopInfo, cur map[*ssa.Phi]*Term) *iteration {
	h := l.header
	if st := fr.stopCheck(l, h, cur); st != nil {
		b := h.Succs[1-st.stopAt.i]
		if len(b.Preds) == 1 && evaluatesOnly(b) {
			if it := fr.recogniseAt(l, b); it != nil && it.phi != nil {
				it.stop, it.keep, it.stopAt = st.stop, st.keep, st.stopAt
				return it
			}
		}
		return nil
	}
	it := fr.recogniseAt(l, h)
	if it == nil || it.phi == nil {
		return it
	}
	b := h.Succs[it.enter]
	if len(b.Preds) != 1 || !evaluatesOnly(b) {
		return it
	}
	if st := fr.stopCheck(l, b, cur); st != nil && st.stop != it.phi && sameTarget(h, 1-it.enter, b, st.stopAt.i) {
		it.stop, it.keep, it.stopAt = st.stop, st.keep, st.stopAt
	}
	return it
}

// evaluatesOnly tells whether a block only evaluates a condition.
func evaluatesOnly(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.If, *ssa.DebugRef:
		case *ssa.Call:
			if x, ok := in.Call.Value.(*ssa.Builtin); !ok || x.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// sameTarget tells whether two edges lead to the same place in the same state.
func sameTarget(a *ssa.BasicBlock, i int, b *ssa.BasicBlock, j int) bool {
	t := a.Succs[i]
	if b.Succs[j] != t {
		return false
	}
	x, y := -1, -1
	for k, e := range predEdges(t) {
		if e == (edgeKey{a, i}) {
			x = k
		}
		if e == (edgeKey{b, j}) {
			y = k
		}
	}
	for _, in := range t.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if phi.Edges[x] != phi.Edges[y] {
			return false
		}
	}
	return true
}

// stopCheck recognises a block that leaves the loop unless a variable still
// has the value it had before the loop.
func (fr *frame) stopCheck(l *loopInfo, b *ssa.BasicBlock, cur map[*ssa.Phi]*Term) *iteration {
	ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || l.blocks[b.Succs[0]] == l.blocks[b.Succs[1]] {
		return nil
	}
	stay := 0
	if l.blocks[b.Succs[1]] {
		stay = 1
	}
	want := stay == 0
	c := ifi.Cond
	for {
		u, ok := c.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		c, want = u.X, !want
	}
	var phi *ssa.Phi
	var keep *Term
	switch x := c.(type) {
	case *ssa.Phi:
		phi, keep = x, mkBool(bTrue)
		if !want {
			keep = mkBool(bFalse)
		}
	case *ssa.BinOp:
		p, ok1 := x.X.(*ssa.Phi)
		k, ok2 := x.Y.(*ssa.Const)
		if !ok1 || !ok2 || x.Op != token.EQL && x.Op != token.NEQ {
			return nil
		}
		if (x.Op == token.EQL) != want {
			return nil
		}
		phi, keep = p, fixNil(fr.val(k), p.Type())
	default:
		return nil
	}
	if phi.Block() != l.header || cur[phi] != keep {
		return nil
	}
	for _, in := range b.Instrs {
		switch in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.UnOp, *ssa.If, *ssa.DebugRef:
		default:
			return nil
		}
	}
	return &iteration{stop: phi, keep: keep, stopAt: edgeKey{b, 1 - stay}}
}

func (fr *frame) recogniseAt(l *loopInfo, cond *ssa.BasicBlock) *iteration {
	it := fr.recogniseCond(l, cond)
	if it != nil {
		it.cond = cond
	}
	return it
}

func (fr *frame) recogniseCond(l *loopInfo, cond *ssa.BasicBlock) *iteration {
	h := l.header
	ifi, ok := cond.Instrs[len(cond.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	enter := -1
	for i, s := range cond.Succs {
		if l.blocks[s] {
			if enter >= 0 {
				return nil
			}
			enter = i
		}
	}
	if enter < 0 {
		return nil
	}
	// map and string ranges
	for _, in := range h.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if ex, ok := ifi.Cond.(*ssa.Extract); ok && ex.Tuple == nx && ex.Index == 0 && enter == 0 {
				r := nx.Iter.(*ssa.Range)
				x := fr.val(r.X)
				it := &iteration{kind: "map", coll: x, next: nx, enter: enter, typ: r.X.Type()}
				if nx.IsString {
					it.kind = "str"
				} else {
					it.coll = fr.m.mapContent(x)
				}
				return it
			}
			return nil
		}
	}
	cmp, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	x, y, op := cmp.X, cmp.Y, cmp.Op
	if enter == 1 {
		switch op {
		case token.GEQ:
			op = token.LSS
		case token.GTR:
			op = token.LEQ
		case token.LEQ:
			op = token.GTR
		case token.LSS:
			op = token.GEQ
		case token.EQL:
			op = token.NEQ
		default:
			return nil
		}
	}
	if it := fr.consuming(l, x, y, op); it != nil {
		it.enter = enter
		return it
	}
	asIdx := func(v ssa.Value) (phi *ssa.Phi, plus int64) {
		if p, ok := v.(*ssa.Phi); ok && p.Block() == h {
			return p, 0
		}
		if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD && b.Block() == h {
			if p, ok := b.X.(*ssa.Phi); ok && p.Block() == h {
				if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil {
					return p, c.Int64()
				}
			}
		}
		return nil, 0
	}
	phi, plus := asIdx(x)
	if phi == nil {
		if phi, plus = asIdx(y); phi == nil {
			return nil
		}
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	step := int64(0)
	var start *Term
	for i, e := range predEdges(h) {
		ev := phi.Edges[i]
		if l.blocks[e.b] {
			s := int64(0)
			if b, ok := ev.(*ssa.BinOp); ok && b.X == phi {
				var c int64
				known := false
				if t := fr.boundVal(b.Y, l); t != nil {
					c, known = t.constInt()
				}
				if known && b.Op == token.ADD {
					s = c
				} else if known && b.Op == token.SUB {
					s = -c
				}
			}
			if s == 0 || step != 0 && s != step {
				return nil
			}
			step = s
		} else {
			v := fr.val(ev)
			if fr.edges[e] == bFalse {
				continue
			}
			if start != nil && start != v {
				return nil
			}
			start = v
		}
	}
	if start == nil {
		return nil
	}
	n := fr.boundVal(y, l)
	if n == nil {
		return nil
	}
	if step == 1 && (op == token.LSS || op == token.NEQ) {
		c, ok := start.constInt()
		if !ok || c+plus != 0 {
			return nil
		}
		it := &iteration{phi: phi, idxVal: x, enter: enter}
		if plus == 1 {
			it.prevVal = phi
		}
		if n.op == OLen {
			it.kind, it.coll = "list", n.args[0]
			return it
		}
		if c, ok := n.constInt(); ok && c >= 0 && c <= 64 {
			// walking a literal list or a fixed count
			var segs []Seg
			for i := int64(0); i < c; i++ {
				segs = append(segs, Seg{kind: SegSingle, g: bTrue, val: mkInt(i)})
			}
			it.kind, it.coll = "count", mkSeq("list", nil, segs)
			return it
		}
		if n.op == OIte {
			ok := true
			for _, a := range n.args {
				if _, isC := a.constInt(); !isC && a.op != OLen {
					ok = false
				}
			}
			if ok {
				var as []alt
				for i, a := range n.args {
					if a.op == OLen {
						as = append(as, alt{n.gs[i], a.args[0]})
					} else if c, _ := a.constInt(); c <= 64 {
						var segs []Seg
						for j := int64(0); j < c; j++ {
							segs = append(segs, Seg{kind: SegSingle, g: bTrue, val: mkInt(j)})
						}
						as = append(as, alt{n.gs[i], mkSeq("list", nil, segs)})
					}
				}
				it.kind = "list"
				it.coll = intern(OIte, "", nil, termsOf(as), guardsOf(as), nil)
				return it
			}
		}
		it.kind, it.coll = "range", mkT(OCall, "range", nil, n)
		return it
	}
	if step > 1 && plus == 0 && op == token.LSS {
		if c, ok := start.constInt(); !ok || c != 0 {
			return nil
		}
		it := &iteration{phi: phi, idxVal: x, enter: enter, stride: step}
		it.kind = "list"
		it.coll = lift(n, func(n *Term) *Term { return mkT(OCall, "steps", nil, n, mkInt(step)) })
		return it
	}
	if step == -1 && plus == 0 && start.op == OLen {
		// the index is one less than what is counted down
		z, ok := n.constInt()
		if ok && (z == 0 && (op == token.GTR || op == token.NEQ) || z == 1 && op == token.GEQ) {
			return fromEnd(start.args[0], &iteration{phi: phi, idxVal: phi, enter: enter, above: true})
		}
	}
	if step == -1 && plus == 0 && (op == token.GEQ || op == token.GTR) {
		z, ok := n.constInt()
		if !ok || !(op == token.GEQ && z == 0 || op == token.GTR && z == -1) {
			return nil
		}
		// start must be len(xs)-1
		if start.op == OBin && start.aux == token.ADD && start.args[0].op == OLen {
			if c, ok := start.args[1].constInt(); ok && c == -1 {
				return fromEnd(start.args[0].args[0], &iteration{phi: phi, idxVal: phi, enter: enter})
			}
		}
	}
	return nil
}

// fromEnd completes the description of a loop over xs from its last element.
func fromEnd(xs *Term, it *iteration) *iteration {
	it.kind = "list"
	if xs.op == OSeq {
		var segs []Seg
		for i, s := range xs.segs {
			if s.kind != SegSingle || s.g != bTrue {
				segs = nil
				break
			}
			segs = append([]Seg{{kind: SegSingle, g: bTrue, val: mkInt(int64(i))}}, segs...)
		}
		if len(segs) == len(xs.segs) {
			it.kind, it.coll = "count", mkSeq("list", nil, segs)
			return it
		}
	}
	if xs.op == OSeq || xs.op == OIte {
		if !unbounded(xs) {
			return nil
		}
		it.coll, it.down = xs, true
		return it
	}
	it.coll, it.reverse = backwards(xs), true
	return it
}

// unbounded reports that no part of a list ends before its collection does.
func unbounded(t *Term) bool {
	var each func(segs []Seg) bool
	each = func(segs []Seg) bool {
		for _, s := range segs {
			if s.bound != nil || s.kind == SegSplice && !unbounded(s.val) || !each(s.body) {
				return false
			}
		}
		return true
	}
	switch t.op {
	case OIte:
		for _, a := range t.args {
			if !unbounded(a) {
				return false
			}
		}
	case OSeq:
		return each(t.segs)
	}
	return true
}

// backwards is a collection walked from its end.
func backwards(coll *Term) *Term { return mkT(OCall, "reversed", coll.typ, coll) }

// backIdx is the place in a collection of the element at i from its end.
func backIdx(coll, i *Term) *Term { return mkT(OCall, "ridx", types.Typ[types.Int], coll, i) }

// consuming recognises a loop that takes the first element off a list until
// the list is empty: for len(xs) > 0 { x := xs[0]; xs = xs[1:]; ... }
func (fr *frame) consuming(l *loopInfo, x, y ssa.Value, op token.Token) *iteration {
	con, ok := y.(*ssa.Const)
	if !ok || con.Value == nil || !isInt(con.Type()) {
		return nil
	}
	switch c := con.Int64(); {
	case (op == token.GTR || op == token.NEQ) && c == 0, op == token.GEQ && c == 1:
	default:
		return nil
	}
	size, ok := x.(*ssa.Call)
	if b, is := builtin(size); !ok || !is || b != "len" {
		return nil
	}
	phi, ok := size.Call.Args[0].(*ssa.Phi)
	if !ok || phi.Block() != l.header {
		return nil
	}
	if _, ok := phi.Type().Underlying().(*types.Slice); !ok {
		return nil
	}
	for _, v := range l.liveOuts {
		if v == phi {
			return nil
		}
	}
	var coll *Term
	rest := map[ssa.Value]bool{}
	for i, e := range predEdges(l.header) {
		ev := phi.Edges[i]
		if l.blocks[e.b] {
			s, ok := ev.(*ssa.Slice)
			if !ok || s.X != phi || s.High != nil || s.Max != nil || !isConst(s.Low, 1) {
				return nil
			}
			rest[s] = true
			continue
		}
		if fr.edges[e] == bFalse {
			continue
		}
		if v := fr.val(ev); coll == nil {
			coll = v
		} else if coll != v {
			return nil
		}
	}
	if coll == nil || len(rest) == 0 {
		return nil
	}
	for _, r := range *phi.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Call:
			if r == size {
				continue
			}
		case *ssa.IndexAddr:
			if r.X == phi && isConst(r.Index, 0) {
				continue
			}
		case *ssa.Slice:
			if rest[r] {
				continue
			}
		}
		return nil
	}
	for s := range rest {
		for _, r := range *s.Referrers() {
			if _, ok := r.(*ssa.DebugRef); !ok && r != phi {
				return nil
			}
		}
	}
	for s := range rest {
		if l.blocks[s.(*ssa.Slice).Block()] {
			fr.m.taken[s] = true
		}
	}
	return &iteration{kind: "list", coll: coll, phi: phi, idxVal: phi, consume: true}
}

func builtin(c *ssa.Call) (string, bool) {
	if c == nil {
		return "", false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok {
		return "", false
	}
	return b.Name(), true
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isConst(v ssa.Value, n int64) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && isInt(c.Type()) && c.Int64() == n
}

func termsOf(as []alt) []*Term {
	var out []*Term
	for _, a := range as {
		out = append(out, a.t)
	}
	return out
}

func guardsOf(as []alt) []B {
	var out []B
	for _, a := range as {
		out = append(out, a.g)
	}
	return out
}

// boundVal evaluates the loop bound; it must not change inside the loop.
func (fr *frame) boundVal(v ssa.Value, l *loopInfo) *Term {
	in, ok := v.(ssa.Instruction)
	if !ok || in.Block() == nil || !l.blocks[in.Block()] {
		return fr.val(v)
	}
	switch x := v.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if t := fr.boundVal(x.Call.Args[0], l); t != nil {
				if _, ok := x.Call.Args[0].Type().Underlying().(*types.Map); ok {
					return nil
				}
				return mkLen(t)
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			p := fr.boundVal(x.X, l)
			if p == nil || fr.storesTo(l, x.X) {
				return nil
			}
			return fr.m.load(p, x.Type())
		}
	case *ssa.FieldAddr:
		if p := fr.boundVal(x.X, l); p != nil {
			return fieldRef(p, deref(x.X.Type()), x.Field)
		}
	}
	return nil
}

// storesTo reports whether the loop itself may assign the place.
func (fr *frame) storesTo(l *loopInfo, addr ssa.Value) bool {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if st.Addr == addr {
				return true
			}
			fa, ok1 := st.Addr.(*ssa.FieldAddr)
			fb, ok2 := addr.(*ssa.FieldAddr)
			if ok1 && ok2 && fa.Field == fb.Field && types.Identical(fa.X.Type(), fb.X.Type()) {
				return true
			}
		}
	}
	return false
}

// evalLoop computes the effect of a whole loop entered under guard g.
func (fr *frame) evalLoop(l *loopInfo, g B) {
	m := fr.m
	h := l.header
	cur := map[*ssa.Phi]*Term{}
	var order []*ssa.Phi
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var as []alt
		for i, e := range predEdges(h) {
			if l.blocks[e.b] {
				continue
			}
			if eg := fr.edges[e]; eg != bFalse {
				as = append(as, alt{bRestrict(eg, g), fr.val(phi.Edges[i])})
			}
		}
		cur[phi] = fixNil(mkIte(as), phi.Type())
		order = append(order, phi)
	}
	it := fr.recognise(l, cur)
	drop := func(phi *ssa.Phi) {
		delete(cur, phi)
		for i, p := range order {
			if p == phi {
				order = append(order[:i:i], order[i+1:]...)
				break
			}
		}
	}
	if it != nil && it.phi != nil {
		drop(it.phi)
	}
	if it != nil && it.stop != nil {
		drop(it.stop)
	}
	savePhis, saveExits := fr.phis[l], fr.exits[l]
	fr.phis[l] = cur
	fr.exits[l] = nil
	lp := &loopRun{fr: fr, l: l, it: it, order: order, stay: bTrue}
	var normal B
	leave := m.enter(fmt.Sprintf("loop %s:%d", fr.fn.String(), h.Index))
	if it != nil {
		fr.force[it.cond] = it.enter
		if it.stop != nil {
			fr.force[it.stopAt.b] = 1 - it.stopAt.i
		}
		normal = lp.runColl(it.coll, g, it.kind)
		delete(fr.force, it.cond)
		if it.stop != nil {
			delete(fr.force, it.stopAt.b)
		}
		lp.fill(it.coll, normal)
	} else if lp.unroll(g) {
		lp.fill(nil, g)
		// a known number of iterations
	} else {
		coll := mkT(OOpaque, fmt.Sprintf("while#%d", m.ctx), nil, m.lvArgs()...)
		normal = lp.generic(coll, mkLVar(coll, lp.depth(coll)), nil, g, func(g B, lv *Term) B {
			return lp.body(g, nil)
		}, true)
	}
	leave()
	for v := range fr.over {
		if in, ok := v.(ssa.Instruction); ok && l.blocks[in.Block()] && fr.inner[in.Block()] == l {
			delete(fr.over, v)
		}
	}
	recs := fr.exits[l]
	// the exit taken when the collection is exhausted
	if it != nil {
		vals := map[ssa.Value]*Term{}
		for _, v := range l.liveOuts {
			if p, ok := v.(*ssa.Phi); ok && p.Block() == h {
				if p == it.phi {
					vals[v] = mkT(OLen, "", v.Type(), it.coll)
					continue
				}
				if p == it.stop {
					vals[v] = it.keep
					continue
				}
				vals[v] = fr.phis[l][p]
			}
		}
		recs = append(recs, exitRec{edgeKey{it.cond, 1 - it.enter}, normal, vals})
	}
	fr.phis[l], fr.exits[l] = savePhis, saveExits
	fr.clearEdges(l)
	all := bFalse
	for _, r := range recs {
		fr.edges[r.e] = bOr(fr.edges[r.e], r.g)
		all = bOr(all, r.g)
	}
	for _, v := range l.liveOuts {
		var as []alt
		for _, r := range recs {
			if t, ok := r.vals[v]; ok && r.g != bFalse {
				as = append(as, alt{bRestrict(r.g, all), t})
			}
		}
		if len(as) > 0 {
			fr.env[v] = mkIte(as)
		}
	}
}

type loopRun struct {
	fr    *frame
	l     *loopInfo
	it    *iteration
	order []*ssa.Phi
	stay  B // the iterations do not leave the loop
}

// unroll runs a loop whose condition is known before each iteration.
func (lp *loopRun) unroll(g B) bool {
	fr, l := lp.fr, lp.l
	m := fr.m
	if _, ok := lp.known(); !ok {
		return false
	}
	heap, havoc := copyHeap(m.heap), copyHeap(m.havoc)
	phis, evN, exN := fr.phis[l], len(m.events), len(fr.exits[l])
	for n := 0; n < 64; n++ {
		more, ok := lp.known()
		if !ok {
			break
		}
		leave := m.enter(fmt.Sprintf("iteration %d", n))
		g = lp.body(g, nil)
		leave()
		if !more || g == bFalse {
			return true
		}
	}
	m.heap, m.havoc, m.events = heap, havoc, m.events[:evN]
	fr.phis[l], fr.exits[l] = phis, fr.exits[l][:exN]
	return false
}

func copyHeap(h map[*Term]*Term) map[*Term]*Term {
	out := make(map[*Term]*Term, len(h))
	for k, v := range h {
		out[k] = v
	}
	return out
}

// known evaluates the condition of a loop that depends on constants only.
func (lp *loopRun) known() (more, ok bool) {
	fr, h := lp.fr, lp.l.header
	vals := map[ssa.Value]*Term{}
	val := func(v ssa.Value) *Term {
		if t, ok := vals[v]; ok {
			return t
		}
		if in, ok := v.(ssa.Instruction); ok && lp.l.blocks[in.Block()] {
			return nil
		}
		return fr.val(v)
	}
	for _, in := range h.Instrs {
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			vals[in] = fr.phis[lp.l][in]
		case *ssa.BinOp:
			x, y := val(in.X), val(in.Y)
			if x == nil || y == nil || x.op != OConst || y.op != OConst {
				return false, false
			}
			vals[in] = mkBin(in.Op, x, y, in.Type())
		case *ssa.If:
			c := val(in.Cond)
			if c == nil || c != tTrue && c != mkBool(bFalse) || !lp.l.blocks[h.Succs[0]] || lp.l.blocks[h.Succs[1]] {
				return false, false
			}
			return c == tTrue, true
		default:
			return false, false
		}
	}
	return false, false
}

func (lp *loopRun) depth(coll *Term) int {
	d := 0
	for {
		used := false
		lv := mkLVar(coll, d)
		for _, x := range lp.fr.m.lstack {
			if x.lv == lv {
				used = true
			}
		}
		if !used {
			return d
		}
		d++
	}
}

// body runs one iteration; bind sets the loop variables.
func (lp *loopRun) body(g B, bind func()) B {
	fr, l := lp.fr, lp.l
	if g == bFalse {
		return bFalse
	}
	for p, v := range fr.phis[l] {
		fr.env[p] = v
	}
	if it := lp.it; it != nil && it.stop != nil {
		fr.env[it.stop] = it.keep
	}
	if bind != nil {
		bind()
	}
	fr.clearEdges(l)
	fr.evalRegion(l, l.header, g)
	latch := bFalse
	preds := predEdges(l.header)
	for _, e := range preds {
		if l.blocks[e.b] {
			latch = bOr(latch, fr.edges[e])
		}
	}
	// exits
	for _, b := range fr.rpo {
		if !l.blocks[b] {
			continue
		}
		for i, s := range b.Succs {
			if l.blocks[s] {
				continue
			}
			e := edgeKey{b, i}
			if xg := fr.edges[e]; xg != bFalse {
				vals := map[ssa.Value]*Term{}
				for _, v := range l.liveOuts {
					if t, ok := fr.env[v]; ok {
						vals[v] = t
					}
				}
				fr.exits[l] = append(fr.exits[l], exitRec{e, xg, vals})
			}
		}
	}
	carried := func(p *ssa.Phi) *Term {
		var as []alt
		for i, e := range preds {
			if l.blocks[e.b] {
				if eg := fr.edges[e]; eg != bFalse {
					as = append(as, alt{bRestrict(eg, latch), fr.val(p.Edges[i])})
				}
			}
		}
		if len(as) == 0 {
			return nil
		}
		return fixNil(mkIte(as), p.Type())
	}
	stopped := bFalse
	if it := lp.it; it != nil && it.stop != nil && latch != bFalse {
		nv := carried(it.stop)
		goes := bFalse
		if nv != nil {
			goes = bAnd(latch, mkEq(nv, it.keep))
			stopped = bAnd(latch, bNot(goes))
		}
		if stopped != bFalse {
			vals := map[ssa.Value]*Term{}
			for _, v := range l.liveOuts {
				if p, ok := v.(*ssa.Phi); ok && p.Block() == l.header {
					if t := carried(p); t != nil {
						vals[v] = restrictTerm(t, stopped)
					}
				} else if t, ok := fr.env[v]; ok {
					vals[v] = restrictTerm(t, stopped)
				}
			}
			fr.exits[l] = append(fr.exits[l], exitRec{it.stopAt, stopped, vals})
		}
	}
	before := latch
	latch = bAnd(latch, bNot(stopped))
	next := map[*ssa.Phi]*Term{}
	for _, p := range lp.order {
		old := fr.phis[l][p]
		nv := carried(p)
		if nv == nil || latch == bFalse && before != bFalse {
			next[p] = old
			continue
		}
		if latch != g {
			nv = mkIte([]alt{{latch, nv}, {bNot(latch), old}})
		}
		next[p] = nv
	}
	fr.phis[l] = next
	return latch
}

func (lp *loopRun) bindElem(idx, elem, key *Term) func() {
	fr, it := lp.fr, lp.it
	return func() {
		switch it.kind {
		case "map":
			fr.over[it.next] = mkT(OTuple, "", nil, tTrue, key, elem)
		case "str":
			fr.over[it.next] = mkT(OTuple, "", nil, tTrue, idx, elem)
		default:
			if it.reverse {
				idx = backIdx(it.coll.args[0], idx)
			}
			if it.consume {
				fr.env[it.phi] = it.coll
				fr.first[it.phi] = idx
				return
			}
			if it.above {
				idx = mkBin(token.ADD, idx, mkInt(1), types.Typ[types.Int])
			}
			if it.stride > 1 {
				idx = mkBin(token.MUL, idx, mkInt(it.stride), types.Typ[types.Int])
			}
			fr.over[it.idxVal] = idx
			if it.phi != it.idxVal {
				fr.over[it.phi] = mkBin(token.ADD, idx, mkInt(-1), types.Typ[types.Int])
			}
			fr.env[it.phi] = fr.over[it.phi]
			if it.phi == it.idxVal {
				fr.env[it.phi] = idx
			}
		}
	}
}

func (lp *loopRun) runColl(coll *Term, g B, kind string) B {
	if g == bFalse {
		return bFalse
	}
	switch {
	case coll.op == OIte:
		normal := bFalse
		rest := g
		for i, a := range coll.args {
			gi := bAnd(g, coll.gs[i])
			rest = bAnd(rest, bNot(coll.gs[i]))
			leave := lp.fr.m.enter("alt" + strconv.Itoa(i))
			normal = bOr(normal, lp.guarded(gi, func() B { return lp.runColl(a, gi, kind) }))
			leave()
		}
		return normal
	case coll.op == ONil:
		return g
	case coll.op == OSeq && coll.sym != "str":
		normal := g
		for i := range coll.segs {
			if lp.it.down {
				i = len(coll.segs) - 1 - i
			}
			leave := lp.fr.m.enter("seg" + strconv.Itoa(i))
			normal = lp.runSeg(coll, coll.segs[i], normal, kind)
			leave()
		}
		return normal
	}
	if lp.it.down {
		back := backwards(coll)
		lv := mkLVar(back, lp.depth(back))
		return lp.generic(back, lv, nil, g, func(g B, lv *Term) B {
			return lp.body(g, func() { lp.bindSym(coll, backIdx(coll, lv), kind)() })
		}, false)
	}
	lv := mkLVar(coll, lp.depth(coll))
	return lp.generic(coll, lv, nil, g, func(g B, lv *Term) B {
		return lp.body(g, func() { lp.bindSym(coll, lv, kind)() })
	}, false)
}

func (lp *loopRun) bindSym(coll, lv *Term, kind string) func() {
	switch kind {
	case "map":
		mt, _ := lp.it.typ.Underlying().(*types.Map)
		var kt, vt types.Type
		if mt != nil {
			kt, vt = mt.Key(), mt.Elem()
		}
		key := mkT(OMapKey, "", kt, coll, lv)
		v, _ := mkLookup(coll, key, vt)
		return lp.bindElem(lv, v, key)
	case "str":
		return lp.bindElem(lv, mkAt(coll, lv, types.Typ[types.Rune]), nil)
	}
	return lp.bindElem(lv, nil, nil)
}

// guarded runs f, which is only reached under g, and keeps the loop-carried
// values of the other paths.
func (lp *loopRun) guarded(g B, f func() B) B {
	fr, l := lp.fr, lp.l
	before := map[*ssa.Phi]*Term{}
	for k, v := range fr.phis[l] {
		before[k] = v
	}
	n := f()
	after := fr.phis[l]
	merged := map[*ssa.Phi]*Term{}
	for k, v := range after {
		if before[k] == v {
			merged[k] = v
			continue
		}
		merged[k] = mkIte([]alt{{g, v}, {bNot(g), before[k]}})
	}
	fr.phis[l] = merged
	return n
}

func (lp *loopRun) runSeg(seq *Term, s Seg, g B, kind string) B {
	fr := lp.fr
	m := fr.m
	in := bAnd(g, s.g)
	out := bAnd(g, bNot(s.g))
	switch s.kind {
	case SegSingle:
		if in == bFalse {
			return g
		}
		idx := mkT(OSegIdx, "", types.Typ[types.Int], seq, s.val)
		if kind == "count" {
			idx = s.val
		}
		latch := lp.guarded(in, func() B {
			return lp.body(in, lp.bindElem(idx, s.val, s.key))
		})
		return bOr(out, latch)
	case SegSplice:
		if in == bFalse {
			return g
		}
		v := s.val
		n := lp.guarded(in, func() B {
			if v.op == OSeq || v.op == OIte || v.op == ONil {
				return lp.runColl(v, in, kind)
			}
			over := v
			if lp.it.down {
				over = backwards(v)
			}
			lv := mkLVar(over, lp.depth(over))
			return lp.generic(over, lv, nil, in, func(g B, lv *Term) B {
				if kind == "map" {
					return lp.body(g, lp.bindSym(v, lv, kind))
				}
				if lp.it.down {
					lv = backIdx(v, lv)
				}
				el := mkAt(v, lv, elemType(v.typ))
				return lp.body(g, lp.bindElem(mkT(OSegIdx, "", types.Typ[types.Int], seq, el), el, nil))
			}, false)
		})
		return bOr(out, n)
	}
	// one element per index of another collection
	over := s.coll
	if lp.it.down {
		over = backwards(over)
	}
	lv := mkLVar(over, lp.depth(over))
	at := lv
	if lp.it.down {
		at = backIdx(s.coll, lv)
	}
	body := s.body
	cond := s.g
	if at != s.lv {
		sb := newSubst(s.lv, at)
		body, _ = sb.segs(body)
		cond = sb.b(cond)
	}
	return lp.generic(over, lv, s.bound, g, func(g B, lv *Term) B {
		ig := bAnd(g, cond)
		skip := bAnd(g, bNot(cond))
		n := lp.guarded(ig, func() B {
			n := ig
			for i := range body {
				if lp.it.down {
					i = len(body) - 1 - i
				}
				b := body[i]
				leave := m.enter("b" + strconv.Itoa(i))
				n = lp.runSeg(seq, b, n, kind)
				leave()
			}
			return n
		})
		return bOr(skip, n)
	}, false)
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	}
	return nil
}

var carrySeq int

// loopStep is one arbitrary iteration of a loop that walks no collection,
// from an arbitrary state of what it changes.
type loopStep struct {
	fn            *ssa.Function
	enter, latch  B
	before, after map[*Term]*Term
	carries       []*stepCarry
	events        []Event
	exits         []exitRec
}

type stepCarry struct {
	phi                    *ssa.Phi
	loc, carry, init, next *Term
	typ                    types.Type
	during                 *Term // its value as later code sees it
}

// generic evaluates the iterations over all indices lv of coll at once.
func (lp *loopRun) generic(coll, lv, bound *Term, g B, step func(g B, lv *Term) B, while bool) B {
	fr, l := lp.fr, lp.l
	m := fr.m
	m.lstack = append(m.lstack, loopCtx{lv, bound})
	defer func() { m.lstack = m.lstack[:len(m.lstack)-1] }()

	snap := m.heap
	snapHavoc := m.havoc
	initPhis := fr.phis[l]
	evN := len(m.events)
	exN := len(fr.exits[l])

	carryLoc := map[*Term]*Term{}
	var locOrder []*Term
	carryPhi := map[*ssa.Phi]*Term{}
	carries := map[*Term]bool{}
	mkCarry := func(label string, typ types.Type) *Term {
		carrySeq++
		raw := mkT(OCarry, fmt.Sprintf("%s#%d", label, carrySeq), typ)
		carries[raw] = true
		return symb(raw)
	}
	for _, p := range lp.order {
		carryPhi[p] = mkCarry(p.Comment, p.Type())
	}
	initLoc := map[*Term]*Term{}
	run := func(locs map[*Term]*Term, phis map[*ssa.Phi]*Term) B {
		m.events = m.events[:evN]
		fr.exits[l] = fr.exits[l][:exN]
		m.heap = make(map[*Term]*Term, len(snap)+8)
		for k, v := range snap {
			m.heap[k] = v
		}
		m.havoc = make(map[*Term]*Term, len(snapHavoc))
		for k, v := range snapHavoc {
			m.havoc[k] = v
		}
		for k, v := range locs {
			m.heap[k] = v
		}
		ph := map[*ssa.Phi]*Term{}
		for k, v := range phis {
			ph[k] = v
		}
		fr.phis[l] = ph
		return step(g, lv)
	}
	var latch B
	for round := 0; ; round++ {
		if round > 12 {
			panic(undecided("loop state does not stabilise in " + fr.fn.String()))
		}
		latch = run(carryLoc, carryPhi)
		added := false
		for k, v := range m.heap {
			if _, ok := carryLoc[k]; ok {
				continue
			}
			if snap[k] == v {
				continue
			}
			if freeVars(k)[lv] {
				continue
			}
			if old, ok := snap[k]; ok && restrictTerm(old, g) == restrictTerm(v, g) {
				continue
			}
			_, had := snap[k]
			init := snap[k]
			if !had {
				save := m.heap
				m.heap = snap
				init = m.initial(k, v)
				m.heap = save
				if init == nil {
					continue
				}
				if init == v {
					continue
				}
			}
			initLoc[k] = init
			typ := v.typ
			if typ == nil {
				typ = init.typ
			}
			if k.op == OBufOf {
				typ = types.Typ[types.String]
			}
			carryLoc[k] = mkCarry("mem:"+k.str(4), typ)
			locOrder = append(locOrder, k)
			added = true
		}
		if !added {
			break
		}
	}
	sortTerms(locOrder)

	type rec struct {
		phi   *ssa.Phi
		loc   *Term
		carry *Term
		init  *Term
		nv    *Term
		typ   types.Type
		bef   *Term
		aft   *Term
		done  bool
	}
	var recs []*rec
	for _, p := range lp.order {
		recs = append(recs, &rec{phi: p, carry: carryPhi[p], init: initPhis[p], nv: restrictTerm(fr.phis[l][p], latch), typ: p.Type()})
	}
	for _, k := range locOrder {
		nv, ok := m.heap[k]
		if !ok {
			nv = carryLoc[k]
		}
		recs = append(recs, &rec{loc: k, carry: carryLoc[k], init: initLoc[k], nv: restrictTerm(nv, latch), typ: carryLoc[k].typ})
	}
	if while {
		st := loopStep{fn: fr.fn, enter: g, latch: latch, before: snap, after: m.heap, events: append([]Event{}, m.events[evN:]...), exits: append([]exitRec{}, fr.exits[l][exN:]...)}
		for _, r := range recs {
			st.carries = append(st.carries, &stepCarry{r.phi, r.loc, r.carry, r.init, r.nv, r.typ, nil})
		}
		m.steps = append(m.steps, st)
		defer func() {
			for i, r := range recs {
				st.carries[i].during = r.bef
			}
		}()
	}
	if latch == bFalse {
		// at most one iteration
		for _, r := range recs {
			r.bef, r.aft, r.done = r.init, r.init, true
		}
	}
	solved := newSubst(tUnit, tUnit)
	solved.from = map[*Term]*Term{}
	isCarry := func(x *Term) bool { return x.op == OCarry && carries[x] }
	rawOf := func(c *Term) *Term {
		if c.op == OBool {
			return bSupport(c.gs[0])[0]
		}
		return c
	}
	sc := &solver{coll: coll, lv: lv, bound: bound}
	for progress := true; progress; {
		progress = false
		for _, r := range recs {
			if r.done {
				continue
			}
			solved.memo = map[*Term]*Term{}
			nv := solved.term(r.nv)
			self := rawOf(r.carry)
			if mentions(nv, func(x *Term) bool { return isCarry(x) && x != self }) {
				continue
			}
			bef, aft, ok := sc.solve(self, r.carry, r.init, nv, r.typ)
			if !ok {
				continue
			}
			r.bef, r.aft, r.done = bef, aft, true
			solved.from[self] = bef
			progress = true
		}
	}
	for _, r := range recs {
		if r.done {
			continue
		}
		// a fold over its own value alone is named by what it computes
		solved.memo = map[*Term]*Term{}
		nv := solved.term(r.nv)
		self := rawOf(r.carry)
		if while || mentions(nv, func(x *Term) bool { return isCarry(x) && x != self || x.op == OObj && x.aux != "sym" }) {
			continue
		}
		init, typ := restrictTerm(r.init, g), r.typ
		if s1, s2, ok := asSet(self, nv, init, r.typ); ok {
			// which keys are there is all there is to know
			nv, init, typ = s1, s2, setType
			s := mkT(OOpaque, "fold.set", typ)
			nv = newSubst(self, s).term(nv)
			self = s
		}
		sub := newSubst(self, mkT(OOpaque, "fold.self"+lv.sym, typ))
		sub.from[lv] = mkT(OOpaque, "fold.lv"+lv.sym, lv.typ, coll)
		body := sub.term(restrictDeep(nv, bNot(mkEmpty(coll))))
		args := []*Term{coll, init, body}
		if bound != nil {
			args = append(args, bound)
		}
		r.bef = symb(mkT(OCall, "fold.before", typ, append(args[:3:3], lv)...))
		r.aft = symb(mkT(OCall, "fold.all", typ, args...))
		r.done = true
		solved.from[rawOf(r.carry)] = r.bef
	}
	for _, r := range recs {
		if !r.done {
			carrySeq++
			lab := ""
			if r.loc != nil {
				lab = r.loc.str(3)
			} else {
				lab = r.phi.Comment
			}
			r.bef = symb(mkT(OOpaque, "carry:"+lab+"#"+strconv.Itoa(carrySeq), r.typ, m.lvArgs()...))
			r.aft = symb(mkT(OOpaque, "carried:"+lab+"#"+strconv.Itoa(carrySeq), r.typ, m.lvArgs()[:len(m.lstack)-1]...))
			r.done = true
		}
	}
	locs := map[*Term]*Term{}
	phis := map[*ssa.Phi]*Term{}
	for _, r := range recs {
		if r.loc != nil {
			locs[r.loc] = r.bef
		} else {
			phis[r.phi] = r.bef
		}
	}
	latch2 := run(locs, phis)

	// early exits
	x := bFalse
	newExits := fr.exits[l][exN:]
	for _, e := range newExits {
		x = bOr(x, e.g)
	}
	// iterations in which the program stops
	dead := bFalse
	if !while {
		dead = bRestrict(bAnd(g, bAnd(bNot(latch2), bNot(x))), g)
		if dead != bFalse {
			x = bOr(x, bAnd(g, dead))
		}
	}
	normal := g
	ex := bFalse
	if x != bFalse {
		xr := bRestrict(x, g)
		lp.stay = bAnd(lp.stay, bNot(xr))
		first := mkPick(OFirst, coll, lv, bound, xr)
		sb := newSubst(lv, first)
		if while {
			ex = g
			normal = bFalse
		} else {
			ex = bAnd(g, mkExists(coll, lv, bound, xr))
			normal = bAnd(g, bNot(ex))
		}
		out := append([]exitRec{}, fr.exits[l][:exN]...)
		left := ex
		for i, e := range newExits {
			// under ex exactly one of the exits is taken at the first index
			ng := bAnd(left, sb.b(bRestrict(bRestrict(e.g, g), x)))
			if i == len(newExits)-1 && dead == bFalse {
				ng = left
			}
			left = bAnd(left, bNot(ng))
			vals := map[ssa.Value]*Term{}
			for k, v := range e.vals {
				vals[k] = sb.term(v)
			}
			out = append(out, exitRec{e.e, ng, vals})
		}
		fr.exits[l] = out
		for _, r := range recs {
			if r.loc == nil {
				continue
			}
			end, ok := m.heap[r.loc]
			if !ok {
				end = r.bef
			}
			part := sb.term(restrictTerm(end, x))
			m.heap[r.loc] = mkIte([]alt{{normal, r.aft}, {ex, part}, {bNot(g), r.init}})
		}
		// what an iteration does to its own element happens only when no
		// earlier iteration has left
		if !while {
			d, _ := strconv.Atoi(lv.sym)
			mu := mkLVar(coll, d+1)
			gone := mkExists(coll, mu, lv, newSubst(lv, mu).b(xr))
			for k, v := range m.heap {
				if snap[k] == v || !freeVars(k)[lv] || rootNew(k) || rootMade(k) {
					continue
				}
				old, ok := snap[k]
				if !ok {
					save := m.heap
					m.heap = snap
					old = m.initial(k, v)
					m.heap = save
				}
				if old == nil || old == v {
					continue
				}
				m.heap[k] = mkIte([]alt{{bNot(gone), v}, {gone, old}})
			}
		}
	} else {
		if while {
			normal = bFalse
		}
		for _, r := range recs {
			if r.loc == nil {
				continue
			}
			if r.aft == r.init {
				m.heap[r.loc] = r.init
				continue
			}
			m.heap[r.loc] = mkIte([]alt{{g, r.aft}, {bNot(g), r.init}})
		}
	}
	ph := map[*ssa.Phi]*Term{}
	for _, r := range recs {
		if r.phi != nil {
			ph[r.phi] = r.aft
		}
	}
	fr.phis[l] = ph
	return normal
}

// setType marks a map of which only the keys matter.
var setType = types.NewMap(types.Typ[types.String], types.NewStruct(nil, nil))

// asSet reads a map that holds true or nothing at each of its keys as the set
// of its keys.
func asSet(self, nv, init *Term, typ types.Type) (*Term, *Term, bool) {
	if typ == nil {
		return nil, nil, false
	}
	mt, ok := typ.Underlying().(*types.Map)
	if !ok || flavorOf(mt.Key()) != "str" && !isStringish(mt.Key()) {
		return nil, nil, false
	}
	unit := false
	if st, ok := isStruct(mt.Elem()); ok && st.NumFields() == 0 {
		unit = true
	} else if !isBoolType(mt.Elem()) {
		return nil, nil, false
	}
	var plain func(t *Term) *Term
	var segs func(in []Seg) ([]Seg, bool)
	segs = func(in []Seg) ([]Seg, bool) {
		out := make([]Seg, len(in))
		for i, s := range in {
			switch s.kind {
			case SegSingle:
				if !unit && s.val != mkBool(bTrue) {
					return nil, false
				}
				s.val = tUnit
			case SegSplice:
				v := plain(s.val)
				if v == nil {
					return nil, false
				}
				s.val = v
			case SegEach:
				b, ok := segs(s.body)
				if !ok {
					return nil, false
				}
				s.body = b
			}
			out[i] = s
		}
		return out, true
	}
	plain = func(t *Term) *Term {
		switch {
		case t == self || t.typ == setType:
			return t
		case t.op == ONil:
			return mkSeq("map", setType, nil)
		case t.op == OIte:
			as := alts(t)
			for i := range as {
				v := plain(as[i].t)
				if v == nil {
					return nil
				}
				as[i].t = v
			}
			return mkIte(as)
		case t.op == OSeq && t.sym == "map":
			if ss, ok := segs(t.segs); ok {
				return mkSeq("map", setType, ss)
			}
		}
		return nil
	}
	if !unit {
		sub := newSubst(tUnit, tUnit)
		mentions(nv, func(x *Term) bool {
			if x.op == OLookup && x.args[0] == self {
				_, in := mkLookup(self, x.args[1], mt.Elem())
				sub.from[x] = mkBool(in)
			}
			return false
		})
		nv = sub.term(nv)
	}
	a, b := plain(nv), plain(init)
	return a, b, a != nil && b != nil
}

// rootNew tells whether a place belongs to an object made during the analysed call.
func rootNew(loc *Term) bool {
	for loc.op == OFieldRef || loc.op == OIdxRef || loc.op == OMapOf || loc.op == OBufOf || loc.op == OListOf {
		loc = loc.args[0]
	}
	return loc.op == OObj
}

func sortTerms(ts []*Term) {
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j].id < ts[j-1].id; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
}

// plainInsert drops the condition of an entry that is added to a map only
// when the map does not hold that very entry yet.
func plainInsert(nv, carry *Term, typ types.Type) *Term {
	if typ == nil {
		return nv
	}
	mt, ok := typ.Underlying().(*types.Map)
	if !ok {
		return nv
	}
	seq := nv
	g := bTrue
	if nv.op == OIte && len(nv.args) == 2 {
		for i, a := range nv.args {
			if a != carry && nv.args[1-i] == carry {
				seq, g = a, nv.gs[i]
			}
		}
	}
	if seq.op != OSeq || seq.sym != "map" || len(seq.segs) != 2 {
		return nv
	}
	first, s := seq.segs[0], seq.segs[1]
	if first.kind != SegSplice || first.val != carry || first.g != bTrue || s.kind != SegSingle {
		return nv
	}
	sg := bAnd(g, s.g)
	val, in := mkLookup(carry, s.key, mt.Elem())
	// outside the part of the condition about the map
	if sg == bTrue {
		return nv
	}
	keep := bAnd(in, valueEq(val, s.val))
	if st, ok := isStruct(mt.Elem()); ok && st.NumFields() == 0 {
		keep = in
	}
	// sg = outer ∧ ¬keep: the entry may be set whenever outer holds
	outer := bMapAtoms(sg, func(a *Term) B {
		for _, k := range bSupport(keep) {
			if a == k {
				if bAnd(keep, bNot(bVar(a))) == bFalse {
					return bFalse
				}
			}
		}
		return bVar(a)
	})
	if bAnd(outer, bNot(keep)) != sg {
		return nv
	}
	s.g = outer
	return mkSeq("map", seq.typ, []Seg{first, s})
}

// initial gives the content of a place before the loop.
func (m *Machine) initial(k, v *Term) *Term {
	switch k.op {
	case OMapOf:
		return m.mapContent(k.args[0])
	case OBufOf:
		return mkStr("")
	}
	if k.typ == nil {
		return nil
	}
	return m.load(k, deref(k.typ))
}

// solver turns loop recurrences into closed forms.
type solver struct {
	coll, lv, bound *Term
}

// solve returns the value before iteration lv and the value after the loop.
func (s *solver) solve(self, carry, init, nv *Term, typ types.Type) (*Term, *Term, bool) {
	if nv == carry {
		return init, init, true
	}
	d, _ := strconv.Atoi(s.lv.sym)
	mu := mkLVar(s.coll, d+1)
	toMu := newSubst(s.lv, mu)
	before := func(c B) B { // some earlier iteration satisfied c
		return mkExists(s.coll, mu, s.lv, toMu.b(c))
	}
	after := func(c B) B { return mkExists(s.coll, s.lv, s.bound, c) }
	has := func(t *Term) bool { return mentions(t, func(x *Term) bool { return x == self }) }
	hasB := func(b B) bool { return mentionsB(b, func(x *Term) bool { return x == self }) }
	// boolean flags
	if nv.op == OBool {
		c := toB(carry)
		f := nv.gs[0]
		pos := bMapAtoms(f, func(a *Term) B {
			if a == self {
				return bTrue
			}
			return bVar(a)
		})
		neg := bMapAtoms(f, func(a *Term) B {
			if a == self {
				return bFalse
			}
			return bVar(a)
		})
		if hasB(pos) || hasB(neg) {
			return nil, nil, false
		}
		_ = c
		i := toB(init)
		if pos == bTrue { // f = c or neg
			return mkBool(bOr(i, before(neg))), mkBool(bOr(i, after(neg))), true
		}
		if neg == bFalse { // f = c and pos
			return mkBool(bAnd(i, bNot(before(bNot(pos))))), mkBool(bAnd(i, bNot(after(bNot(pos))))), true
		}
		if pos == neg {
			// overwritten by every iteration
			last := mkPick(OLast, s.coll, s.lv, s.bound, bTrue)
			lastB := mkPick(OLast, s.coll, mu, s.lv, bTrue)
			fb := newSubst(s.lv, lastB).b(f)
			fa := newSubst(s.lv, last).b(f)
			nb, na := before(bTrue), after(bTrue)
			return mkBool(bIte(nb, fb, i)), mkBool(bIte(na, fa, i)), true
		}
		return nil, nil, false
	}
	nv = plainInsert(nv, carry, typ)
	// accumulating sequences
	if nv.op == OSeq && len(nv.segs) > 0 {
		first := nv.segs[0]
		if first.g == bTrue && first.val == carry && (first.kind == SegSplice || first.kind == SegSingle && nv.sym == "str") {
			rest := nv.segs[1:]
			if mentions(intern(OSeq, nv.sym, nil, nil, nil, rest), func(x *Term) bool { return x == self }) {
				return nil, nil, false
			}
			isegs, ok := segsOf(nv.sym, init)
			if init.op == OIte {
				k := SegSplice
				if nv.sym == "str" {
					k = SegSingle
				}
				isegs, ok = []Seg{{kind: k, g: bTrue, val: init}}, true
			}
			if !ok {
				return nil, nil, false
			}
			mrest, _ := toMu.segs(rest)
			bs := append(append([]Seg{}, isegs...), Seg{kind: SegEach, g: bTrue, coll: s.coll, lv: mu, bound: s.lv, body: mrest})
			as := append(append([]Seg{}, isegs...), Seg{kind: SegEach, g: bTrue, coll: s.coll, lv: s.lv, bound: s.bound, body: rest})
			t := nv.typ
			if t == nil {
				t = typ
			}
			return mkSeq(nv.sym, t, bs), mkSeq(nv.sym, t, as), true
		}
	}
	// counters in step with the index
	if nv.op == OBin && nv.aux == token.ADD && nv.args[0] == carry {
		if c, ok := nv.args[1].constInt(); ok && c == 1 {
			return mkBin(token.ADD, s.lv, init, typ), mkBin(token.ADD, mkLen(s.coll), init, typ), true
		}
	}
	// counters that go up under a condition
	if nv.op == OIte || nv.op == OBin {
		var u []B      // u[i]: by more than i
		var more []alt // by the length of a list
		ok := true
		for _, x := range alts(nv) {
			a, g := x.t, x.g
			if a == carry {
				continue
			}
			c, cok := int64(0), false
			if a.op == OBin && a.aux == token.ADD && len(a.args) == 2 {
				by := a.args[1]
				if by == carry {
					by = a.args[0]
				}
				if a.args[0] == carry {
					c, cok = by.constInt()
				}
				if by != a && (a.args[0] == carry || a.args[1] == carry) && by.op == OLen && isList(by.args[0]) && !has(by) && !hasB(g) {
					more = append(more, alt{g, by.args[0]})
					continue
				}
			}
			if !cok || c < 1 || c > 4 || hasB(g) {
				ok = false
				break
			}
			for j := 0; j < int(c); j++ {
				if j == len(u) {
					u = append(u, bFalse)
				}
				u[j] = bOr(u[j], g)
			}
		}
		if ok && len(u)+len(more) > 0 {
			count := func(lv, bound *Term, in func(B) B, inT func(*Term) *Term) *Term {
				seg := Seg{kind: SegEach, g: bTrue, coll: s.coll, lv: lv, bound: bound}
				for _, g := range u {
					seg.body = append(seg.body, Seg{kind: SegSingle, g: in(g), val: mkInt(1)})
				}
				for _, a := range more {
					seg.body = append(seg.body, Seg{kind: SegSplice, g: in(a.g), val: inT(a.t)})
				}
				return mkBin(token.ADD, init, mkLen(mkSeq("list", nil, []Seg{seg})), typ)
			}
			same := func(t *Term) *Term { return t }
			return count(mu, s.lv, toMu.b, toMu.term), count(s.lv, s.bound, func(b B) B { return b }, same), true
		}
	}
	// overwritten under a condition
	if nv.op != OIte || !has(nv) {
		if has(nv) {
			return nil, nil, false
		}
		last := mkPick(OLast, s.coll, s.lv, s.bound, bTrue)
		lastB := mkPick(OLast, s.coll, mu, s.lv, bTrue)
		vb, va := newSubst(s.lv, lastB).term(nv), newSubst(s.lv, last).term(nv)
		nb, na := before(bTrue), after(bTrue)
		return mkIte([]alt{{nb, vb}, {bNot(nb), init}}), mkIte([]alt{{na, va}, {bNot(na), init}}), true
	}
	var keep, u B = bFalse, bFalse
	var as []alt
	for i, a := range nv.args {
		if a == carry {
			keep = bOr(keep, nv.gs[i])
			continue
		}
		if has(a) {
			return nil, nil, false
		}
		as = append(as, alt{nv.gs[i], a})
		u = bOr(u, nv.gs[i])
	}
	if hasB(u) {
		// "set once": the condition requires the value to be unset still
		isnil := mkIsNil(carry)
		if bAnd(u, bNot(isnil)) != bFalse {
			return nil, nil, false
		}
		for _, a := range as {
			if mkIsNil(a.t) != bFalse {
				return nil, nil, false
			}
		}
		u2 := bRestrict(u, isnil)
		if hasB(u2) || mkIsNil(init) != bTrue {
			return nil, nil, false
		}
		fb := mkPick(OFirst, s.coll, mu, s.lv, toMu.b(u2))
		fa := mkPick(OFirst, s.coll, s.lv, s.bound, u2)
		for i := range as {
			as[i].g = bRestrict(as[i].g, isnil)
			if hasB(as[i].g) {
				return nil, nil, false
			}
		}
		vb := newSubst(s.lv, fb).term(mkIte(as))
		va := newSubst(s.lv, fa).term(mkIte(as))
		nb, na := before(u2), after(u2)
		return mkIte([]alt{{nb, vb}, {bNot(nb), init}}), mkIte([]alt{{na, va}, {bNot(na), init}}), true
	}
	nb, na := before(u), after(u)
	lb := mkPick(OLast, s.coll, mu, s.lv, toMu.b(u))
	la := mkPick(OLast, s.coll, s.lv, s.bound, u)
	for i := range as {
		as[i].g = bRestrict(as[i].g, u)
	}
	v := mkIte(as)
	vb := newSubst(s.lv, lb).term(v)
	va := newSubst(s.lv, la).term(v)
	if len(freeVars(v)) == 0 || !freeVars(v)[s.lv] {
		vb, va = v, v
	}
	return mkIte([]alt{{nb, vb}, {bNot(nb), init}}), mkIte([]alt{{na, va}, {bNot(na), init}}), true
}
