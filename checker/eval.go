package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is an effect recorded while a function's value flow is computed.
type Event struct {
	kind  string // store, mapupdate, call, deref, panic, assert
	name  string
	args  []*Term
	g     B
	res   *Term
	pos   token.Pos
	fn    *ssa.Function
	stack []string
	lvs   []loopCtx
	seq   int
}

type loopCtx struct {
	lv    *Term
	bound *Term
}

// Machine computes guarded values: every store, merge and call is kept with
// the condition under which it happens; paths are never enumerated.
type Machine struct {
	w       *World
	made    int // lists made with a length
	heap    map[*Term]*Term
	havoc   map[*Term]*Term
	events  []Event
	ctx     int
	ctxTab  map[string]int
	lstack  []loopCtx
	stack   []*ssa.Function
	recvs   []*Term         // the receivers of the functions on the stack
	opaque  map[string]bool // functions that are not looked into
	steps   []loopStep
	attr    map[*Term]*Term // what an object was made from
	models  map[string]modelFn
	taken   map[ssa.Value]bool // tails taken of a list that has an element
	derefs  bool
	dangers []danger // places that could panic
	facts   B        // what library calls guarantee
	visited map[*ssa.Function]bool
	blocks  int
	instrs  int
	inited  map[*ssa.Package]bool
	stepLim int
	initing bool
	allocG  map[*Term]B
}

type modelFn func(fr *frame, c *callInfo) (*Term, bool)

type callInfo struct {
	name string
	args []*Term
	site ssa.CallInstruction
	typ  types.Type
	pos  token.Pos
	sig  *types.Signature
}

func newMachine(w *World) *Machine {
	m := &Machine{w: w, taken: map[ssa.Value]bool{}, heap: map[*Term]*Term{}, havoc: map[*Term]*Term{}, ctxTab: map[string]int{},
		opaque: map[string]bool{}, models: map[string]modelFn{}, visited: map[*ssa.Function]bool{}, inited: map[*ssa.Package]bool{}, stepLim: 3000000, allocG: map[*Term]B{}}
	for k, v := range repoModels {
		m.models[k] = v
	}
	for _, k := range pureOpaque {
		m.opaque[modPath+k] = true
	}
	var paths []string
	for p := range w.pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		m.initPkg(w.pkgs[p])
	}
	m.visited = map[*ssa.Function]bool{}
	m.blocks, m.instrs = 0, 0
	return m
}

type edgeKey struct {
	b *ssa.BasicBlock
	i int
}

type loopInfo struct {
	header   *ssa.BasicBlock
	blocks   map[*ssa.BasicBlock]bool
	parent   *loopInfo
	liveOuts []ssa.Value
}

type exitRec struct {
	e    edgeKey
	g    B
	vals map[ssa.Value]*Term
}

type retRec struct {
	g B
	v *Term
}

type deferRec struct {
	g    B
	call *ssa.Defer
	fn   *Term
	args []*Term
}

type frame struct {
	m      *Machine
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	edges  map[edgeKey]B
	rpo    []*ssa.BasicBlock
	loops  map[*ssa.BasicBlock]*loopInfo // by header
	inner  map[*ssa.BasicBlock]*loopInfo // innermost loop of a block
	rets   []retRec
	defers []deferRec
	cur    B
	over   map[ssa.Value]*Term
	first  map[*ssa.Phi]*Term      // where a list that a loop consumes stands
	force  map[*ssa.BasicBlock]int // header -> successor index that enters the body
	phis   map[*loopInfo]map[*ssa.Phi]*Term
	exits  map[*loopInfo][]exitRec
}

// --- control structure ----------------------------------------------------

type cfgInfo struct {
	rpo   []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*loopInfo
	inner map[*ssa.BasicBlock]*loopInfo
}

var cfgCache = map[*ssa.Function]*cfgInfo{}

func cfgOf(fn *ssa.Function) *cfgInfo {
	if c, ok := cfgCache[fn]; ok {
		return c
	}
	c := &cfgInfo{loops: map[*ssa.BasicBlock]*loopInfo{}, inner: map[*ssa.BasicBlock]*loopInfo{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		c.rpo = append(c.rpo, post[i])
	}
	num := map[*ssa.BasicBlock]int{}
	for i, b := range c.rpo {
		num[b] = i
	}
	for _, b := range c.rpo {
		for _, s := range b.Succs {
			if num[s] <= num[b] {
				if !s.Dominates(b) {
					panic(undecided("irreducible control flow in " + fn.String()))
				}
				l := c.loops[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					c.loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	var all []*loopInfo
	for _, l := range c.loops {
		all = append(all, l)
	}
	sort.Slice(all, func(i, j int) bool {
		if len(all[i].blocks) != len(all[j].blocks) {
			return len(all[i].blocks) < len(all[j].blocks)
		}
		return all[i].header.Index < all[j].header.Index
	})
	for i, l := range all {
		for b := range l.blocks {
			if c.inner[b] == nil {
				c.inner[b] = l
			}
		}
		for _, o := range all[i+1:] {
			if o.blocks[l.header] && o != l {
				l.parent = o
				break
			}
		}
	}
	for _, l := range all {
		for _, b := range c.rpo {
			if !l.blocks[b] {
				continue
			}
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || v.Referrers() == nil {
					continue
				}
				for _, r := range *v.Referrers() {
					rb := r.Block()
					if rb == nil {
						continue
					}
					if !l.blocks[rb] {
						l.liveOuts = append(l.liveOuts, v)
						break
					}
				}
			}
		}
	}
	cfgCache[fn] = c
	return c
}

// predEdges lists the incoming edges of b in the order of b.Preds.
func predEdges(b *ssa.BasicBlock) []edgeKey {
	used := map[edgeKey]bool{}
	var out []edgeKey
	for _, p := range b.Preds {
		for i, s := range p.Succs {
			k := edgeKey{p, i}
			if s == b && !used[k] {
				used[k] = true
				out = append(out, k)
				break
			}
		}
	}
	return out
}

// --- heap ---------------------------------------------------------------

func fieldRef(p *Term, st types.Type, i int) *Term {
	s, _ := isStruct(st)
	name := s.Field(i).Name()
	return lift(p, func(p *Term) *Term {
		r := mkT(OFieldRef, name, types.NewPointer(s.Field(i).Type()), p)
		r.aux = i
		return r
	})
}

// prefixes lists p and the places containing it.
func rootChain(p *Term) []*Term {
	out := []*Term{p}
	for p.op == OFieldRef || p.op == OIdxRef {
		p = p.args[0]
		out = append(out, p)
	}
	return out
}

// collsIn lists the index terms (other than generic level-0 ones) inside t.
func generalise(t *Term) (*Term, []*subst) {
	var back []*subst
	for n := 0; n < 6; n++ {
		var found *Term
		mentions(t, func(x *Term) bool {
			ok := x.op == OWit || x.op == OFirst || x.op == OLast || (x.op == OLVar && x.sym != "0")
			if !ok {
				return false
			}
			// outermost collections first
			inner := mentions(x.args[0], func(y *Term) bool {
				return y.op == OWit || y.op == OFirst || y.op == OLast || (y.op == OLVar && y.sym != "0")
			})
			if !inner {
				found = x
				return true
			}
			return false
		})
		if found == nil {
			break
		}
		lv := mkLVar(found.args[0], 0)
		if freeVars(t)[lv] {
			return t, nil
		}
		t = newSubst(found, lv).term(t)
		back = append(back, newSubst(lv, found))
	}
	return t, back
}

func (m *Machine) heapGet(p *Term) (*Term, bool) {
	if v, ok := m.heap[p]; ok {
		return v, true
	}
	gp, back := generalise(p)
	if gp != p && back != nil {
		if v, ok := m.heap[gp]; ok {
			for i := len(back) - 1; i >= 0; i-- {
				v = back[i].term(v)
			}
			return v, true
		}
	}
	return nil, false
}

func (m *Machine) load(p *Term, typ types.Type) *Term {
	if p.op == OIte {
		return lift(p, func(x *Term) *Term { return m.load(x, typ) })
	}
	if s, ok := isStruct(typ); ok && !opaqueStruct(typ) {
		args := make([]*Term, s.NumFields())
		for i := range args {
			args[i] = m.load(fieldRef(p, typ, i), s.Field(i).Type())
		}
		return mkT(OStruct, typeKey(typ), typ, args...)
	}
	if at, ok := smallArray(typ); ok {
		var segs []Seg
		for i := int64(0); i < at.Len(); i++ {
			v := m.load(mkT(OIdxRef, "", types.NewPointer(at.Elem()), p, mkInt(i)), at.Elem())
			segs = append(segs, Seg{kind: SegSingle, g: bTrue, val: v})
		}
		return mkSeq("list", typ, segs)
	}
	if v, ok := m.heapGet(p); ok {
		return v
	}
	if p.op == OGlobal && strings.HasSuffix(p.sym, ".init$guard") {
		return tFalse
	}
	chain := rootChain(p)
	for _, q := range chain {
		if inst, ok := m.havoc[q]; ok {
			return symb(mkT(OLoad, "inst", typ, p, inst))
		}
		if gq, back := generalise(q); back != nil {
			if inst, ok := m.havoc[gq]; ok {
				for i := len(back) - 1; i >= 0; i-- {
					inst = back[i].term(inst)
				}
				return symb(mkT(OLoad, "inst", typ, p, inst))
			}
		}
	}
	root := chain[len(chain)-1]
	switch p.op {
	case OIdxRef:
		if in := p.args[0]; in.op == OIdxRef && in.args[0].op != OObj && in.args[0].op != OIdxRef {
			// an element of an array that is an element of a list
			return mkAt(mkAt(in.args[0], in.args[1], deref(in.typ)), p.args[1], typ)
		}
		if p.args[0].op != OObj {
			return mkAt(p.args[0], p.args[1], typ)
		}
		if _, ok := p.args[1].constInt(); !ok {
			return symb(mkT(OAt, "", typ, p.args[0], p.args[1]))
		}
	case OFieldRef:
		fields := []*Term{p}
		b := p.args[0]
		for b.op == OFieldRef {
			fields = append(fields, b)
			b = b.args[0]
		}
		if b.op == OIdxRef && (b.args[0].op == OSeq || b.args[0].op == OIte || b.args[1].op == OSegIdx || b.args[1].op == OIte) {
			e := mkAt(b.args[0], b.args[1], b.typ)
			return lift(e, func(e *Term) *Term {
				for i := len(fields) - 1; i >= 0; i-- {
					if e.op != OStruct {
						return symb(mkT(OLoad, "", typ, p))
					}
					e = mkFieldOf(e, fields[i].aux.(int), fields[i].typ)
				}
				return e
			})
		}
	}
	if root.op == OObj {
		if root.aux == "sym" {
			return symb(mkT(OLoad, "", typ, p))
		}
		return zeroOf(typ)
	}
	if p.op == OMapOf || p.op == OBufOf {
		panic("content location loaded as a place")
	}
	return symb(mkT(OLoad, "", typ, p))
}

func (m *Machine) store(p, v *Term, g B, typ types.Type) {
	if g == bFalse {
		return
	}
	if p.op == OIte {
		for _, a := range alts(p) {
			m.store(a.t, v, bAnd(g, a.g), typ)
		}
		return
	}
	if s, ok := isStruct(typ); ok && !opaqueStruct(typ) {
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			m.store(fieldRef(p, typ, i), mkFieldOf(v, i, ft), g, ft)
		}
		return
	}
	if at, ok := smallArray(typ); ok {
		for i := int64(0); i < at.Len(); i++ {
			m.store(mkT(OIdxRef, "", types.NewPointer(at.Elem()), p, mkInt(i)), mkAt(v, mkInt(i), at.Elem()), g, at.Elem())
		}
		return
	}
	chain := rootChain(p)
	if ag, ok := m.allocG[chain[len(chain)-1]]; ok {
		g = bRestrict(g, ag)
	}
	if isBuf(typ) && v == zeroOf(typ) {
		old := m.bufGet(p)
		m.heap[mkT(OBufOf, "", nil, p)] = mkIte([]alt{{g, mkStr("")}, {bNot(g), old}})
	}
	if g == bTrue {
		m.heap[p] = v
		return
	}
	old := m.load(p, typ)
	m.heap[p] = mkIte([]alt{{g, v}, {bNot(g), old}})
}

// mapContent reads the content of a map value.
func (m *Machine) mapContent(t *Term) *Term {
	return lift(t, func(t *Term) *Term {
		if t.op == ONil {
			return mkSeq("map", nil, nil)
		}
		if t.op == OSeq {
			return t
		}
		loc := mkT(OMapOf, "", t.typ, t)
		if v, ok := m.heapGet(loc); ok {
			return v
		}
		if t.op == OObj {
			return mkSeq("map", t.typ, nil)
		}
		return t
	})
}

func (m *Machine) mapUpdate(t, k, v *Term, g B) {
	for _, a := range alts(t) {
		gg := bAnd(g, a.g)
		if gg == bFalse || a.t.op == ONil {
			continue
		}
		if ag, ok := m.allocG[a.t]; ok {
			gg = bRestrict(gg, ag)
		}
		old := m.mapContent(a.t)
		segs, _ := segsOf("map", old)
		if old.op == OIte {
			segs = []Seg{{kind: SegSplice, g: bTrue, val: old}}
		}
		segs = append(append([]Seg{}, segs...), Seg{kind: SegSingle, g: gg, key: k, val: v})
		m.heap[mkT(OMapOf, "", a.t.typ, a.t)] = mkSeq("map", a.t.typ, segs)
	}
}

func (m *Machine) bufGet(w *Term) *Term {
	loc := mkT(OBufOf, "", nil, w)
	if v, ok := m.heapGet(loc); ok {
		return v
	}
	for _, q := range rootChain(w) {
		if inst, ok := m.havoc[q]; ok && q.op == OObj && q.aux == "pooled" {
			return symb(mkT(OLoad, "content", types.Typ[types.String], w, inst))
		}
	}
	return mkStr("")
}

// isBuf tells whether a type collects text.
func isBuf(t types.Type) bool {
	k := pkgType(t)
	return k == "bytes.Buffer" || k == "strings.Builder"
}

func (m *Machine) bufWrite(w, s *Term, g B) {
	for _, a := range alts(w) {
		gg := bAnd(g, a.g)
		if gg == bFalse {
			continue
		}
		t := a.t
		if t.op == OIface {
			t = t.args[0]
		}
		for _, x := range alts(t) {
			g2 := bAnd(gg, x.g)
			if g2 == bFalse {
				continue
			}
			loc := mkT(OBufOf, "", nil, x.t)
			if ag, ok := m.allocG[x.t]; ok {
				g2 = bRestrict(g2, ag)
			}
			old := m.bufGet(x.t)
			osegs, _ := segsOf("str", old)
			segs := append([]Seg{}, osegs...)
			for _, sa := range alts(s) {
				segs = append(segs, Seg{kind: SegSingle, g: bAnd(g2, sa.g), val: sa.t})
			}
			m.heap[loc] = mkSeq("str", types.Typ[types.String], segs)
		}
	}
}

// --- contexts and events --------------------------------------------------

func (m *Machine) enter(key string) func() {
	old := m.ctx
	k := fmt.Sprintf("%d/%s", old, key)
	id, ok := m.ctxTab[k]
	if !ok {
		id = len(m.ctxTab) + 1
		m.ctxTab[k] = id
	}
	m.ctx = id
	return func() { m.ctx = old }
}

func (m *Machine) lvArgs() []*Term {
	var out []*Term
	for _, l := range m.lstack {
		out = append(out, l.lv)
	}
	return out
}

func (m *Machine) newObj(label string, typ types.Type) *Term {
	return mkT(OObj, fmt.Sprintf("%s#%d", label, m.ctx), typ, m.lvArgs()...)
}

func (fr *frame) event(kind, name string, args []*Term, res *Term, pos token.Pos) {
	m := fr.m
	if fr.cur == bFalse {
		return
	}
	var st []string
	for _, f := range m.stack {
		st = append(st, f.String())
	}
	m.events = append(m.events, Event{kind: kind, name: name, args: args, g: fr.cur, res: res, pos: pos, fn: fr.fn, stack: st, lvs: append([]loopCtx{}, m.lstack...), seq: len(m.events)})
}

// --- functions ------------------------------------------------------------

func (m *Machine) initPkg(p *ssa.Package) {
	if p == nil || m.inited[p] {
		return
	}
	m.inited[p] = true
	if !strings.HasPrefix(p.Pkg.Path(), modPath) && !strings.HasPrefix(p.Pkg.Path(), "verif/") {
		return
	}
	f := p.Func("init")
	if f == nil || len(f.Blocks) == 0 {
		return
	}
	sl, ss, sr, sc := m.lstack, m.stack, m.recvs, m.ctx
	m.lstack, m.stack, m.recvs, m.ctx = nil, nil, nil, 0
	old := m.initing
	m.initing = true
	ev := len(m.events)
	defer m.enter("init " + p.Pkg.Path())()
	m.callFn(f, nil, nil, bTrue)
	m.events = m.events[:ev]
	m.initing = old
	m.lstack, m.stack, m.recvs, m.ctx = sl, ss, sr, sc
}

// callFn computes the value flow of fn applied to args under guard g and
// returns the result together with the condition of a normal return.
func (m *Machine) callFn(fn *ssa.Function, args, binds []*Term, g B) (*Term, B) {
	m.visited[fn] = true
	c := cfgOf(fn)
	fr := &frame{m: m, fn: fn, env: map[ssa.Value]*Term{}, edges: map[edgeKey]B{}, rpo: c.rpo, loops: c.loops, inner: c.inner,
		over: map[ssa.Value]*Term{}, first: map[*ssa.Phi]*Term{}, force: map[*ssa.BasicBlock]int{}, phis: map[*loopInfo]map[*ssa.Phi]*Term{}, exits: map[*loopInfo][]exitRec{}}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = mkT(OOpaque, "param", p.Type())
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			fr.env[p] = binds[i]
		}
	}
	m.stack = append(m.stack, fn)
	var recv *Term
	if fn.Signature.Recv() != nil && len(args) > 0 {
		recv = args[0]
	}
	m.recvs = append(m.recvs, recv)
	if len(m.stack) > 60 {
		panic(undecided("call depth exceeded at " + fn.String()))
	}
	fr.evalRegion(nil, fn.Blocks[0], g)
	m.stack, m.recvs = m.stack[:len(m.stack)-1], m.recvs[:len(m.recvs)-1]
	rg := bFalse
	var as []alt
	for _, r := range fr.rets {
		rg = bOr(rg, r.g)
		as = append(as, alt{r.g, r.v})
	}
	if len(as) == 0 {
		return mkT(OOpaque, "dead", nil), bFalse
	}
	return restrictTerm(mkIte(as), rg), rg
}

func (fr *frame) evalRegion(region *loopInfo, entry *ssa.BasicBlock, g B) {
	for _, b := range fr.rpo {
		in := fr.inner[b]
		if region != nil && !region.blocks[b] {
			continue
		}
		if in != region {
			// only headers of direct children are visited here
			l := fr.loops[b]
			if l == nil || l.parent != region {
				continue
			}
			lg := bFalse
			for _, e := range predEdges(b) {
				if !l.blocks[e.b] {
					lg = bOr(lg, fr.edges[e])
				}
			}
			fr.clearEdges(l)
			if lg != bFalse {
				fr.evalLoop(l, lg)
			}
			continue
		}
		bg := bFalse
		if b == entry {
			bg = g
		} else {
			for _, e := range predEdges(b) {
				bg = bOr(bg, fr.edges[e])
			}
		}
		for i := range b.Succs {
			delete(fr.edges, edgeKey{b, i})
		}
		if bg == bFalse {
			continue
		}
		fr.evalBlock(b, bg, region != nil && b == entry)
	}
}

func (fr *frame) clearEdges(l *loopInfo) {
	for b := range l.blocks {
		for i := range b.Succs {
			delete(fr.edges, edgeKey{b, i})
		}
	}
}

// segIdx recognises an index of a list that the current path has narrowed down.
func (fr *frame) segIdx(x, i *Term) *Term {
	if i.op == OSegIdx && x.op == OSeq && i.args[0] != x && restrictTerm(i.args[0], fr.cur) == x {
		return mkT(OSegIdx, "", i.typ, x, i.args[1])
	}
	return i
}

func (fr *frame) evalBlock(b *ssa.BasicBlock, g B, phisSet bool) {
	m := fr.m
	m.blocks++
	fr.cur = g
	var phiVals []*Term
	var phiNodes []*ssa.Phi
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if phisSet {
			continue
		}
		var as []alt
		for i, e := range predEdges(b) {
			if eg := fr.edges[e]; eg != bFalse {
				as = append(as, alt{bRestrict(eg, g), fr.val(phi.Edges[i])})
			}
		}
		phiNodes = append(phiNodes, phi)
		phiVals = append(phiVals, fixNil(mkIte(as), phi.Type()))
	}
	for i, p := range phiNodes {
		fr.env[p] = phiVals[i]
	}
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		m.instrs++
		if m.instrs > m.stepLim {
			panic(undecided("analysis budget exceeded"))
		}
		switch in := in.(type) {
		case *ssa.If:
			if k, ok := fr.force[b]; ok {
				fr.edges[edgeKey{b, k}] = fr.cur
				return
			}
			c := toB(fr.val(in.Cond))
			fr.edges[edgeKey{b, 0}] = bAnd(fr.cur, c)
			fr.edges[edgeKey{b, 1}] = bAnd(fr.cur, bNot(c))
			return
		case *ssa.Jump:
			fr.edges[edgeKey{b, 0}] = fr.cur
			return
		case *ssa.Return:
			vs := make([]*Term, len(in.Results))
			for i, r := range in.Results {
				vs[i] = fr.val(r)
			}
			var v *Term
			switch len(vs) {
			case 0:
				v = tUnit
			case 1:
				v = vs[0]
			default:
				v = mkT(OTuple, "", nil, vs...)
			}
			fr.rets = append(fr.rets, retRec{fr.cur, v})
			return
		case *ssa.Panic:
			fr.danger("panic", bTrue, in.Pos())
			fr.event("panic", "panic", []*Term{fr.val(in.X)}, nil, in.Pos())
			return
		default:
			fr.instr(in)
			if fr.cur == bFalse {
				return
			}
		}
	}
}

func fixNil(t *Term, typ types.Type) *Term {
	if t.op == ONil && typ != nil {
		return zeroOf(typ)
	}
	return t
}

// val gives the value of an SSA operand.
func (fr *frame) val(v ssa.Value) *Term {
	t := fr.raw(v)
	if t.op == OSegIdx {
		return fr.plainIdx(t)
	}
	return fr.m.filled(t)
}

// plainIdx gives the position an index of a list of several parts has when
// the path leaves one part only.
func (fr *frame) plainIdx(t *Term) *Term {
	s, el := restrictTerm(t.args[0], fr.cur), t.args[1]
	if s.op == OSeq && len(s.segs) == 1 && s.segs[0].g == bTrue && s.segs[0].kind == SegSplice {
		s = s.segs[0].val
	}
	if s.op == OSeq {
		// the length of the parts before, and the place in its own part
		off := mkInt(0)
		var at *Term
		for _, e := range s.segs {
			g := e.g
			e.g = bTrue
			here, n := segPos(e, el)
			if here != nil && at != nil || n == nil && at == nil && here == nil {
				return t
			}
			if here != nil {
				at = here
				if c, ok := off.constInt(); !ok || c != 0 {
					at = lift(off, func(off *Term) *Term { return mkBin(token.ADD, off, here, t.typ) })
				}
			}
			if at == nil {
				if e.kind == SegEach || e.kind == SegSplice {
					if ne := bNot(mkEmpty(n.args[0])); ne != bTrue {
						g = bAnd(g, ne)
					}
				}
				if g != bTrue {
					if _, inner := splitOuter(e.lv, g); e.kind == SegEach && inner != bTrue {
						return t
					}
					n = mkIte([]alt{{g, n}, {bNot(g), mkInt(0)}})
				}
				off = lift(off, func(x *Term) *Term {
					return lift(n, func(y *Term) *Term {
						if c, ok := x.constInt(); ok && c == 0 {
							return y
						}
						return mkBin(token.ADD, x, y, t.typ)
					})
				})
			}
		}
		if at == nil {
			return t
		}
		return at
	}
	if el.op == OAt && el.args[0] == s && el.args[1].op == OLVar {
		return el.args[1]
	}
	return t
}

// segPos gives the place of an element in a part of a list, nil if it is not
// there, and the length of the part.
func segPos(e Seg, el *Term) (*Term, *Term) {
	switch e.kind {
	case SegSingle:
		if e.val == el {
			return mkInt(0), mkInt(1)
		}
		return nil, mkInt(1)
	case SegSplice:
		if e.val.op == OSeq || e.val.op == OIte || e.val.op == ONil {
			return nil, nil
		}
		if el.op == OAt && el.args[0] == e.val && el.args[1].op == OLVar {
			return el.args[1], mkLen(e.val)
		}
		return nil, mkLen(e.val)
	}
	if e.bound != nil || len(e.body) != 1 || e.body[0].kind != SegSingle || e.body[0].g != bTrue {
		return nil, nil
	}
	for lv := range freeVars(el) {
		if lv.args[0] == e.coll && newSubst(e.lv, lv).term(e.body[0].val) == el {
			return lv, mkLen(e.coll)
		}
	}
	return nil, mkLen(e.coll)
}

func (fr *frame) raw(v ssa.Value) *Term {
	if t, ok := fr.over[v]; ok {
		return t
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroOf(v.Type())
		}
		return mkConst(v.Value, v.Type())
	case *ssa.Global:
		t := mkT(OGlobal, v.String(), v.Type())
		return t
	case *ssa.Function:
		t := mkT(OClosure, v.String(), v.Type())
		t.aux = v
		return t
	case *ssa.Builtin:
		return mkT(OClosure, "builtin "+v.Name(), nil)
	}
	return mkT(OOpaque, "undef:"+fr.fn.String()+":"+v.Name(), v.Type())
}

func (fr *frame) deref(p *Term, pos token.Pos) {
	if !fr.m.derefs {
		return
	}
	fr.danger("nil pointer", mkIsNil(p), pos, p)
}

// danger notes a condition under which the program would panic.
func (fr *frame) danger(kind string, cond B, pos token.Pos, about ...*Term) {
	m := fr.m
	if !m.derefs {
		return
	}
	d := danger{pos, kind, fr.fn}
	known := false
	for _, x := range m.dangers {
		known = known || x == d
	}
	if !known {
		m.dangers = append(m.dangers, d)
	}
	g := bAnd(fr.cur, cond)
	if g == bFalse {
		return
	}
	m.events = append(m.events, Event{kind: "danger", name: kind, args: about, g: g, pos: pos, fn: fr.fn, lvs: append([]loopCtx{}, m.lstack...), seq: len(m.events)})
}

// danger is a place that could panic.
type danger struct {
	pos  token.Pos
	kind string
	fn   *ssa.Function
}

// outOfArray is the condition under which i is no index of an array of n elements.
func outOfArray(n int64, i *Term) B {
	if c, ok := i.constInt(); ok {
		return constB(c < 0 || c >= n)
	}
	return bOr(mkLt(i, mkInt(0)), bNot(mkLt(i, mkInt(n))))
}

// outOfRange is the condition under which i is no index of x.
func outOfRange(x, i *Term) B {
	if x.op == OIte {
		return liftB(x, func(x *Term) B { return outOfRange(x, i) })
	}
	if i.op == OIte {
		return liftB(i, func(i *Term) B { return outOfRange(x, i) })
	}
	if i.op == OSegIdx || (i.op == OLVar || i.op == OWit || i.op == OFirst || i.op == OLast) && i.args[0] == x {
		return bFalse
	}
	return bOr(mkLt(i, mkInt(0)), bNot(mkLt(i, mkLen(x))))
}

func (fr *frame) set(v ssa.Value, t *Term) {
	if o, ok := fr.over[v]; ok {
		t = o
	}
	fr.env[v] = t
}

func (fr *frame) instr(in ssa.Instruction) {
	m := fr.m
	switch in := in.(type) {
	case *ssa.DebugRef, *ssa.RunDefers:
		if _, ok := in.(*ssa.RunDefers); ok {
			fr.runDefers()
		}
	case *ssa.Alloc:
		lab := in.Comment
		if lab == "" || lab == "complit" || lab == "new" || lab == "varargs" {
			lab = shortType(typeKey(in.Type()))
		}
		o := m.newObj(fmt.Sprintf("%s#%s.%s", lab, fr.fn.Name(), in.Name()), in.Type())
		if o.pos == 0 {
			o.pos = in.Pos()
		}
		fr.resetObj(o)
		fr.set(in, o)
	case *ssa.UnOp:
		x := fr.val(in.X)
		switch in.Op {
		case token.MUL:
			fr.deref(x, in.Pos())
			fr.set(in, restrictTerm(m.load(x, in.Type()), fr.cur))
		case token.NOT:
			fr.set(in, mkBool(bNot(toB(x))))
		case token.SUB:
			fr.set(in, mkBin(token.SUB, mkInt(0), x, in.Type()))
		default:
			fr.set(in, mkT(OOpaque, fmt.Sprintf("unop%s@%d", in.Op, m.ctx), in.Type(), x))
		}
	case *ssa.BinOp:
		x, y := fr.val(in.X), fr.val(in.Y)
		if in.Op == token.ADD && isStringish(in.Type()) {
			fr.set(in, catLift(x, y))
			break
		}
		if b, ok := in.Type().Underlying().(*types.Basic); ok && (in.Op == token.QUO || in.Op == token.REM) && b.Info()&types.IsInteger != 0 {
			fr.danger("division", mkEq(y, mkInt(0)), in.Pos(), y)
		}
		fr.set(in, restrictTerm(mkBin(in.Op, x, y, in.Type()), fr.cur))
	case *ssa.FieldAddr:
		x := fr.val(in.X)
		fr.deref(x, in.Pos())
		fr.set(in, fieldRef(x, deref(in.X.Type()), in.Field))
	case *ssa.Field:
		fr.set(in, mkFieldOf(fr.val(in.X), in.Field, in.Type()))
	case *ssa.IndexAddr:
		x, i := fr.val(in.X), fr.raw(in.Index)
		if p, ok := in.X.(*ssa.Phi); ok && fr.first[p] != nil {
			i = fr.first[p]
		}
		if i.op != OSegIdx && x.op == OSeq {
			x = restrictTerm(x, fr.cur)
		}
		if _, ok := in.X.Type().Underlying().(*types.Slice); ok && m.derefs {
			fr.danger("index", outOfRange(x, i), in.Pos(), x, i)
		}
		if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			fr.deref(x, in.Pos())
			fr.danger("index", outOfArray(pt.Elem().Underlying().(*types.Array).Len(), i), in.Pos(), x, i)
		}
		fr.set(in, lift(x, func(x *Term) *Term {
			return lift(i, func(i *Term) *Term { return mkT(OIdxRef, "", in.Type(), x, fr.segIdx(x, i)) })
		}))
	case *ssa.Index:
		x, i := fr.val(in.X), fr.raw(in.Index)
		if a, ok := in.X.Type().Underlying().(*types.Array); ok {
			fr.danger("index", outOfArray(a.Len(), i), in.Pos(), x, i)
		} else if m.derefs {
			fr.danger("index", outOfRange(x, i), in.Pos(), x, i)
		}
		fr.set(in, mkAt(x, fr.segIdx(x, i), in.Type()))
	case *ssa.Lookup:
		x, k := fr.val(in.X), fr.val(in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			vt := in.X.Type().Underlying().(*types.Map).Elem()
			v, o := mkLookup(m.mapContent(x), k, vt)
			v = restrictTerm(v, fr.cur)
			if in.CommaOk {
				fr.set(in, mkT(OTuple, "", nil, v, mkBool(bRestrict(o, fr.cur))))
			} else {
				fr.set(in, v)
			}
			break
		}
		if m.derefs {
			fr.danger("index", outOfRange(x, k), in.Pos(), x, k)
		}
		fr.set(in, mkAt(x, k, in.Type()))
	case *ssa.MapUpdate:
		mt, k, v := fr.val(in.Map), fr.val(in.Key), fr.val(in.Value)
		fr.danger("nil map", mkIsNil(mt), in.Pos(), mt)
		fr.event("mapupdate", "", []*Term{mt, k, v}, nil, in.Pos())
		m.mapUpdate(mt, k, v, fr.cur)
	case *ssa.MakeMap:
		o := m.newObj(fmt.Sprintf("map#%s.%s", fr.fn.Name(), in.Name()), in.Type())
		if o.pos == 0 {
			o.pos = in.Pos()
		}
		m.allocG[o] = fr.cur
		m.heap[mkT(OMapOf, "", o.typ, o)] = mkSeq("map", o.typ, nil)
		fr.set(in, o)
	case *ssa.MakeSlice:
		n := fr.val(in.Len)
		if c, ok := n.constInt(); ok && c == 0 {
			fr.set(in, zeroOf(in.Type()))
			break
		}
		m.made++
		fr.set(in, mkT(OOpaque, fmt.Sprintf("make@%d.%s", m.ctx, in.Name()), in.Type(), append([]*Term{n}, m.lvArgs()...)...))
	case *ssa.Slice:
		fr.set(in, fr.slice(in))
	case *ssa.MakeInterface:
		fr.set(in, lift(fr.val(in.X), func(x *Term) *Term { return mkIface(x, in.X.Type()) }))
	case *ssa.ChangeInterface:
		fr.set(in, fr.val(in.X))
	case *ssa.ChangeType:
		fr.set(in, fr.val(in.X))
	case *ssa.Convert:
		fr.set(in, fr.convert(fr.val(in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		fr.set(in, fr.val(in.X))
	case *ssa.TypeAssert:
		x := fr.val(in.X)
		ok := mkTypeIs(x, in.AssertedType)
		v := mkCast(x, in.AssertedType)
		if in.CommaOk {
			zero := zeroOf(in.AssertedType)
			rv := mkIte([]alt{{ok, v}, {bNot(ok), zero}})
			fr.set(in, mkT(OTuple, "", nil, restrictTerm(rv, fr.cur), mkBool(ok)))
		} else {
			fr.danger("type", bNot(ok), in.Pos(), x)
			fr.event("assert", typeKey(in.AssertedType), []*Term{x}, nil, in.Pos())
			fr.cur = bAnd(fr.cur, ok)
			fr.set(in, v)
		}
	case *ssa.Extract:
		fr.set(in, mkExtract(fr.val(in.Tuple), in.Index, in.Type()))
	case *ssa.MakeClosure:
		f := in.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, fr.val(b))
		}
		t := mkT(OClosure, f.String(), in.Type(), bs...)
		t.aux = f
		fr.set(in, t)
	case *ssa.Range:
		fr.set(in, fr.val(in.X))
	case *ssa.Next:
		// only reached outside a recognised loop
		fr.set(in, mkT(OOpaque, fmt.Sprintf("next@%d", m.ctx), in.Type(), m.lvArgs()...))
	case *ssa.Store:
		p, v := fr.val(in.Addr), fr.val(in.Val)
		fr.deref(p, in.Pos())
		fr.event("store", "", []*Term{p, v}, nil, in.Pos())
		m.store(p, v, fr.cur, in.Val.Type())
		if l, ok := in.Val.(*ssa.UnOp); ok && l.Op == token.MUL && opaqueStruct(in.Val.Type()) {
			// a literal of a library type: its fields move along
			if st, ok := in.Val.Type().Underlying().(*types.Struct); ok {
				from := fr.val(l.X)
				for i := 0; i < st.NumFields() && from.op == OObj; i++ {
					if fv, ok := m.heapGet(fieldRef(from, in.Val.Type(), i)); ok {
						m.store(fieldRef(p, in.Val.Type(), i), fv, fr.cur, st.Field(i).Type())
					}
				}
			}
		}
	case *ssa.Call:
		r := fr.call(in, &in.Call, in.Pos())
		fr.set(in, fixNil(r, in.Type()))
	case *ssa.Defer:
		var args []*Term
		for _, a := range in.Call.Args {
			args = append(args, fr.val(a))
		}
		fr.defers = append(fr.defers, deferRec{fr.cur, in, fr.val(in.Call.Value), args})
	case *ssa.Go:
		fr.event("call", "go", nil, nil, in.Pos())
	default:
		if v, ok := in.(ssa.Value); ok {
			fr.set(v, mkT(OOpaque, fmt.Sprintf("%T@%d.%s", in, m.ctx, v.Name()), v.Type()))
		}
	}
}

// resetObj forgets stale content of an allocation that is evaluated again.
func (fr *frame) resetObj(o *Term) {
	m := fr.m
	m.allocG[o] = fr.cur
	delete(m.havoc, o)
	for k := range m.heap {
		if k == o {
			delete(m.heap, k)
			continue
		}
		if k.op == OFieldRef || k.op == OIdxRef || k.op == OBufOf || k.op == OMapOf || k.op == OListOf {
			q := k
			for q.op == OFieldRef || q.op == OIdxRef || q.op == OBufOf || q.op == OMapOf || q.op == OListOf {
				q = q.args[0]
			}
			if q == o {
				delete(m.heap, k)
			}
		}
	}
}

func (fr *frame) runDefers() {
	save := fr.cur
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		fr.cur = bAnd(save, d.g)
		if fr.cur == bFalse {
			continue
		}
		fr.callCommon(d.call, &d.call.Call, d.fn, d.args, d.call.Pos())
	}
	fr.cur = save
}

func catLift(x, y *Term) *Term {
	if x.op == OIte || y.op == OIte {
		if len(alts(x))*len(alts(y)) > 64 {
			return mkCat(x, y)
		}
		return lift(x, func(a *Term) *Term { return lift(y, func(b *Term) *Term { return mkCat(a, b) }) })
	}
	return mkCat(x, y)
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (fr *frame) slice(in *ssa.Slice) *Term {
	x := fr.val(in.X)
	var lo, hi *Term
	if in.Low != nil {
		lo = fr.val(in.Low)
		if c, ok := lo.constInt(); ok && c == 0 {
			lo = nil
		}
	}
	if in.High != nil {
		hi = fr.val(in.High)
	}
	if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		if at, ok := pt.Elem().Underlying().(*types.Array); ok {
			n := at.Len()
			if hi != nil {
				c, ok := hi.constInt()
				if !ok || c > n {
					return mkT(OOpaque, fmt.Sprintf("slice@%d.%s", fr.m.ctx, in.Name()), in.Type())
				}
				n = c
			}
			if lo == nil && n <= 4096 {
				return lift(x, func(x *Term) *Term {
					var segs []Seg
					for i := int64(0); i < n; i++ {
						v := fr.m.load(mkT(OIdxRef, "", types.NewPointer(at.Elem()), x, mkInt(i)), at.Elem())
						segs = append(segs, Seg{kind: SegSingle, g: bTrue, val: v})
					}
					if isStringish(in.Type()) {
						if b, ok := constBytes(segs); ok {
							return mkStr(b)
						}
						return mkT(OCall, "bytes", in.Type(), listOf(segs)...)
					}
					return mkSeq("list", in.Type(), segs)
				})
			}
			return mkT(OOpaque, fmt.Sprintf("slice@%d.%s", fr.m.ctx, in.Name()), in.Type())
		}
	}
	if hi != nil && hi.op == OLen && hi.args[0] == x {
		hi = nil
	}
	if fr.m.derefs && (lo != nil || hi != nil) && !fr.m.taken[in] {
		bad, from := bFalse, mkInt(0)
		if lo != nil {
			bad, from = bOr(bad, mkLt(lo, mkInt(0))), lo
		}
		if hi != nil {
			bad = bOr(bad, bOr(mkLt(mkLen(x), hi), mkLt(hi, from)))
		} else {
			bad = bOr(bad, mkLt(mkLen(x), from))
		}
		fr.danger("slice", bad, in.Pos(), x)
	}
	if lo == nil && hi == nil {
		return x
	}
	if hi != nil {
		if c, ok := hi.constInt(); ok && c == 0 {
			return zeroOf(in.Type())
		}
	}
	if lo != nil && hi == nil && x.op == OSeq && x.sym == "list" {
		if c, ok := lo.constInt(); ok && int(c) <= len(x.segs) {
			ok := true
			for _, s := range x.segs[:c] {
				if s.kind != SegSingle || s.g != bTrue {
					ok = false
				}
			}
			if ok {
				return mkSeq("list", in.Type(), x.segs[c:])
			}
		}
	}
	if lo != nil {
		lo = restrictTerm(lo, fr.cur)
	}
	if hi != nil {
		hi = restrictTerm(hi, fr.cur)
	}
	if t := fr.trimmed(x, lo, hi); t != nil {
		return t
	}
	n := func(t *Term) *Term {
		if t == nil {
			return tNil
		}
		return t
	}
	return lift(x, func(x *Term) *Term { return mkT(OCall, "slice", in.Type(), x, n(lo), n(hi)) })
}

func listOf(segs []Seg) []*Term {
	var out []*Term
	for _, s := range segs {
		out = append(out, s.val)
	}
	return out
}

func (fr *frame) convert(x *Term, from, to types.Type) *Term {
	if isStringish(from) && isStringish(to) {
		return x
	}
	if isIntType(from) && isIntType(to) {
		if c, ok := x.constInt(); !narrows(from, to) || ok && c >= 0 && c < 128 {
			return x
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	return lift(x, func(x *Term) *Term { return mkT(OConv, typeKey(to), to, x) })
}

// narrows tells whether a conversion of integers can lose bits; changes of the
// sign alone are not looked at.
func narrows(from, to types.Type) bool {
	size := func(t types.Type) int64 {
		return (&types.StdSizes{WordSize: 8, MaxAlign: 8}).Sizeof(t.Underlying())
	}
	return size(to) < size(from)
}

// --- calls ------------------------------------------------------------------

func (fr *frame) call(site ssa.CallInstruction, c *ssa.CallCommon, pos token.Pos) *Term {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, fr.val(a))
	}
	return fr.callCommon(site, c, fr.val(c.Value), args, pos)
}

func (fr *frame) callCommon(site ssa.CallInstruction, c *ssa.CallCommon, fv *Term, args []*Term, pos token.Pos) *Term {
	typ := resultType(c.Signature())
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return fr.builtin(b.Name(), c, args, typ, pos)
	}
	var out []alt
	start := fr.cur
	norm := bFalse
	for _, a := range alts(fv) {
		g := bAnd(start, a.g)
		if g == bFalse {
			continue
		}
		fr.cur = g
		var r *Term
		if c.IsInvoke() {
			r = fr.invoke(site, c, a.t, args, typ, pos)
		} else {
			r = fr.callTerm(site, c, a.t, args, typ, pos)
		}
		out = append(out, alt{bRestrict(fr.cur, start), r})
		norm = bOr(norm, fr.cur)
	}
	fr.cur = norm
	return mkIte(out)
}

func resultType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func (fr *frame) invoke(site ssa.CallInstruction, c *ssa.CallCommon, recv *Term, args []*Term, typ types.Type, pos token.Pos) *Term {
	m := fr.m
	if recv.op == OIface {
		t := recv.aux.(types.Type)
		f := m.w.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name())
		if f != nil {
			return fr.static(site, c, f, append([]*Term{recv.args[0]}, args...), nil, typ, pos)
		}
		return fr.external(site, c, "("+typeKey(t)+")."+c.Method.Name(), append([]*Term{recv.args[0]}, args...), typ, pos)
	}
	if recv.op == ONil {
		fr.danger("nil interface", bTrue, pos)
		fr.event("deref", "nil interface", []*Term{recv}, nil, pos)
		fr.cur = bFalse
		return mkT(OOpaque, "dead", typ)
	}
	fr.deref(recv, pos)
	it := c.Value.Type()
	return fr.external(site, c, "("+typeKey(it)+")."+c.Method.Name(), append([]*Term{recv}, args...), typ, pos)
}

func (fr *frame) callTerm(site ssa.CallInstruction, c *ssa.CallCommon, f *Term, args []*Term, typ types.Type, pos token.Pos) *Term {
	if f.op == OClosure {
		if fn, ok := f.aux.(*ssa.Function); ok {
			return fr.static(site, c, fn, args, f.args, typ, pos)
		}
	}
	if f.op == ONil {
		fr.danger("nil function", bTrue, pos)
		fr.event("deref", "nil function", []*Term{f}, nil, pos)
		fr.cur = bFalse
		return mkT(OOpaque, "dead", typ)
	}
	fr.deref(f, pos)
	return fr.external(site, c, "dyn", append([]*Term{f}, args...), typ, pos)
}

func (m *Machine) inModule(f *ssa.Function) bool {
	p := f.Pkg
	if p == nil && f.Parent() != nil {
		p = f.Parent().Pkg
	}
	if p == nil {
		if r := f.Signature.Recv(); r != nil && f.Synthetic != "" && len(f.Blocks) > 0 {
			// a method promoted to a type of the module
			if n, ok := deref(r.Type()).(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
				return true
			}
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), modPath) || strings.HasPrefix(o.Pkg().Path(), "verif/")
		}
		// wrappers (bound methods, promoted methods)
		return f.Synthetic != "" && len(f.Blocks) > 0
	}
	return strings.HasPrefix(p.Pkg.Path(), modPath) || strings.HasPrefix(p.Pkg.Path(), "verif/")
}

func (fr *frame) static(site ssa.CallInstruction, c *ssa.CallCommon, fn *ssa.Function, args, binds []*Term, typ types.Type, pos token.Pos) *Term {
	m := fr.m
	name := fn.String()
	if o := fn.Origin(); o != nil && o != fn {
		name = o.String()
	}
	inl := len(fn.Blocks) > 0 && m.inModule(fn) && !m.opaque[name]
	if inl {
		n := 0
		other := fn.Signature.Recv() != nil && len(args) > 0 && args[0].op == OObj
		for i, f := range m.stack {
			if f == fn {
				n++
				if m.recvs[i] == nil || m.recvs[i].op != OObj || m.recvs[i] == args[0] {
					other = false
				}
			}
		}
		// a method may call itself on another object
		if n > 0 && (n > 4 || !other && !knownDynamic(fn, args)) {
			inl = false
		}
	}
	if inl {
		if mf, ok := m.models[name]; ok {
			ci := &callInfo{name: name, args: args, site: site, typ: typ, pos: pos, sig: c.Signature()}
			if r, ok := mf(fr, ci); ok {
				return r
			}
		}
		if fn.Name() == "init" && fn.Pkg != nil && strings.HasPrefix(name, fn.Pkg.Pkg.Path()+".init") && fn.Synthetic != "" {
			m.initPkg(fn.Pkg)
			return tUnit
		}
		var id string
		if site != nil {
			id = fmt.Sprintf("%s:%d:%d", fr.fn.String(), site.Block().Index, instrIndex(site))
		}
		leave := m.enter(id)
		save := fr.cur
		r, rg := m.callFn(fn, args, binds, fr.cur)
		leave()
		if rg != save {
			fr.cur = bAnd(save, rg)
		}
		return restrictTerm(r, fr.cur)
	}
	return fr.external(site, c, name, args, typ, pos)
}

// knownDynamic tells whether a function that calls itself is given interface
// values of known types only, which bounds how often it does.
func knownDynamic(fn *ssa.Function, args []*Term) bool {
	found := false
	for i, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Interface); !ok || i >= len(args) {
			continue
		}
		for _, a := range alts(args[i]) {
			if a.t.op != OIface && a.t.op != ONil {
				return false
			}
			found = true
		}
	}
	return found
}

var instrIdx = map[ssa.Instruction]int{}

func instrIndex(in ssa.Instruction) int {
	if i, ok := instrIdx[in]; ok {
		return i
	}
	for i, x := range in.Block().Instrs {
		instrIdx[x] = i
	}
	return instrIdx[in]
}

func (fr *frame) builtin(name string, c *ssa.CallCommon, args []*Term, typ types.Type, pos token.Pos) *Term {
	m := fr.m
	switch name {
	case "len":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			return mkLen(m.mapContent(args[0]))
		}
		return mkLen(args[0])
	case "cap":
		return mkT(OCall, "cap", typ, args[0])
	case "append":
		fl := flavorOf(c.Args[0].Type())
		if fl == "str" {
			return catLift(args[0], args[1])
		}
		return appendLists(args[0], args[1], c.Args[0].Type())
	case "copy":
		fr.event("call", "copy", args, nil, pos)
		return mkT(OOpaque, fmt.Sprintf("copy@%d", m.ctx), typ)
	case "delete":
		fr.event("call", "delete", args, nil, pos)
		for _, a := range alts(args[0]) {
			loc := mkT(OMapOf, "", a.t.typ, a.t)
			m.heap[loc] = mkT(OOpaque, fmt.Sprintf("deleted@%d", m.ctx), a.t.typ, append([]*Term{args[1]}, m.lvArgs()...)...)
		}
		return tUnit
	case "ssa:wrapnilchk":
		return args[0]
	case "min", "max":
		return mkT(OCall, name, typ, args...)
	}
	fr.event("call", "builtin "+name, args, nil, pos)
	if typ == nil {
		return tUnit
	}
	return mkT(OOpaque, fmt.Sprintf("%s@%d", name, m.ctx), typ, args...)
}

func appendLists(a, b *Term, typ types.Type) *Term {
	asegs, _ := segsOf("list", a)
	if a.op == OIte {
		asegs = []Seg{{kind: SegSplice, g: bTrue, val: a}}
	}
	segs := append([]Seg{}, asegs...)
	segs = append(segs, Seg{kind: SegSplice, g: bTrue, val: b})
	return mkSeq("list", typ, segs)
}

// external handles a call whose body is not looked into.
func (fr *frame) external(site ssa.CallInstruction, c *ssa.CallCommon, name string, args []*Term, typ types.Type, pos token.Pos) *Term {
	m := fr.m
	if strings.HasSuffix(name, ".init") && typ == nil && m.initing {
		return tUnit
	}
	for i, a := range args {
		if a.op == OIte {
			if r := restrictTerm(a, fr.cur); r != a {
				args = append([]*Term{}, args...)
				args[i] = r
			}
		}
	}
	ci := &callInfo{name: name, args: args, site: site, typ: typ, pos: pos, sig: c.Signature()}
	if mf, ok := m.models[name]; ok {
		if r, ok := mf(fr, ci); ok {
			return r
		}
	}
	if strings.Contains(name, kingpinPath) {
		if r, ok := kingpinModel(fr, ci); ok {
			return r
		}
	}
	if mf, ok := stdModels[name]; ok {
		if r, ok := mf(fr, ci); ok {
			return r
		}
	}
	var id string
	if site != nil {
		id = fmt.Sprintf("%s:%d:%d", fr.fn.String(), site.Block().Index, instrIndex(site))
	}
	dec := isDecode(name, c.Signature())
	if dec && !isStateful(name) {
		if r, ok := fr.decode(name, args, typ, pos); ok {
			return r
		}
	}
	if strings.HasSuffix(name, ".Marshal") && len(args) == 1 && !isStateful(name) {
		args = []*Term{fr.encoded(name, args[0])}
	}
	t := mkCall(fr, name, args, typ, id)
	t.pos = pos
	res := t
	if typ == nil {
		res = tUnit
	}
	if isBoolType(typ) {
		res = symb(t)
	}
	fr.event("call", name, args, res, pos)
	if dec {
		for _, a := range args {
			fr.havocArg(a, t)
		}
	}
	return res
}

func mkCall(fr *frame, name string, args []*Term, typ types.Type, id string) *Term {
	m := fr.m
	if isStateful(name) {
		defer m.enter(id)()
		// arguments do not identify the result of a stateful call: its place does
		inst := mkT(OOpaque, "at#"+strconv.Itoa(m.ctx), nil, m.lvArgs()...)
		return mkT(OCall, name, typ, append(append([]*Term{}, args...), inst)...)
	}
	return mkT(OCall, name, typ, args...)
}

// decode models a call that fills the object its last argument points to:
// the new content and the result are functions of the other arguments and of
// the content the object had.
func (fr *frame) decode(name string, args []*Term, typ types.Type, pos token.Pos) (*Term, bool) {
	m := fr.m
	if len(args) == 0 {
		return nil, false
	}
	last := len(args) - 1
	strip := func(t *Term) (*Term, types.Type) {
		var pt types.Type
		if t.op == OIface {
			pt = t.aux.(types.Type)
			t = t.args[0]
		} else {
			pt = t.typ
		}
		if !isPtr(pt) {
			return nil, nil
		}
		return t, pt.Underlying().(*types.Pointer).Elem()
	}
	as := alts(args[last])
	for _, a := range as {
		x, _ := strip(a.t)
		if x == nil {
			return nil, false
		}
		for _, b := range alts(x) {
			if b.t.op != OObj && b.t.op != OFieldRef && b.t.op != OParam && b.t.op != OLoad && b.t.op != OAt {
				return nil, false
			}
		}
	}
	var out []alt
	for _, a := range as {
		x, et := strip(a.t)
		targets := alts(x)
		if in := m.pointee(x, et); in != nil {
			// a pointer to a pointer that is set: the object it points to is filled
			targets, et = in, et.Underlying().(*types.Pointer).Elem()
		}
		for _, b := range targets {
			g := bAnd(a.g, b.g)
			old := restrictTerm(m.deep(m.load(b.t, et), et), bAnd(fr.cur, g))
			into := "into:" + typeKey(et)
			st, plain := isStruct(et)
			var keys []string
			if plain && !hasUnmarshal(et) {
				keys = decodeKeys(name, st)
				var ks []string
				for i, k := range keys {
					if k != "" {
						ks = append(ks, k+" "+typeKey(st.Field(i).Type()))
					}
				}
				sort.Strings(ks)
				into = "into:" + strings.Join(ks, ",")
			}
			zero := old == m.deep(zeroOf(et), et)
			if zero {
				old = tUnit
			}
			in := append(append([]*Term{}, args[:last]...), mkT(OTuple, into, nil, old))
			call := mkT(OCall, name, typ, in...)
			call.pos = pos
			save := m.heap
			m.heap = map[*Term]*Term{}
			var nv *Term
			if keys != nil && zero {
				// a key of a document is decoded on its own
				fs := make([]*Term, st.NumFields())
				for i := range fs {
					ft := st.Field(i).Type()
					if keys[i] == "" {
						fs[i] = zeroOf(ft)
						continue
					}
					fs[i] = m.load(mkT(OCall, "decoded:"+name+":"+keys[i], types.NewPointer(ft), args[:last]...), ft)
				}
				nv = mkT(OStruct, typeKey(et), et, fs...)
			} else {
				nv = m.load(mkT(OCall, "decoded:"+name, types.NewPointer(et), in...), et)
			}
			m.heap = save
			_, basic := et.Underlying().(*types.Basic)
			if _, list := et.Underlying().(*types.Slice); basic || list && hasUnmarshal(et) {
				// a scalar that cannot be decoded is left as it was, and so is a
				// list that decodes itself (V05 checks those)
				was := m.load(b.t, et)
				okB := mkIsNil(call)
				nv = mkIte([]alt{{okB, nv}, {bNot(okB), was}})
			}
			if _, isMap := et.Underlying().(*types.Map); isMap && m.derefs {
				// a map that is there stays when the content is none
				m.facts = bAnd(m.facts, bAny(mkIsNil(m.load(b.t, et)), mkIsNil(call), bNot(mkIsNil(nv))))
			}
			m.store(b.t, nv, bAnd(fr.cur, g), et)
			out = append(out, alt{g, call})
		}
	}
	res := mkIte(out)
	fr.event("call", name, args, res, pos)
	return res, true
}

// encoded gives what the text made from a value depends on: the content of an
// object, by document key for a plain struct.
func (fr *frame) encoded(name string, v *Term) *Term {
	m := fr.m
	return lift(v, func(v *Term) *Term {
		if v.op != OIface {
			return v
		}
		pt := v.aux.(types.Type)
		if !isPtr(pt) {
			return v
		}
		et := deref(pt)
		st, plain := isStruct(et)
		if !plain || hasMarshal(et) {
			return v
		}
		return lift(v.args[0], func(x *Term) *Term {
			if x.op != OObj {
				return mkIface(x, pt)
			}
			keys := decodeKeys(name, st)
			var ks []string
			by := map[string]*Term{}
			for i, k := range keys {
				if k == "" {
					continue
				}
				ft := st.Field(i).Type()
				id := k + " " + typeKey(ft)
				ks = append(ks, id)
				by[id] = restrictTerm(m.deep(m.load(fieldRef(x, et, i), ft), ft), fr.cur)
			}
			sort.Strings(ks)
			var fs []*Term
			for _, k := range ks {
				fs = append(fs, by[k])
			}
			return mkT(OTuple, "from:"+strings.Join(ks, ","), nil, fs...)
		})
	})
}

// hasMarshal tells whether a type encodes itself.
func hasMarshal(t types.Type) bool {
	ms := types.NewMethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "MarshalJSON", "MarshalYAML", "MarshalText":
			return true
		}
	}
	return false
}

// pointee gives the objects behind a pointer to a pointer, if all are known.
func (m *Machine) pointee(x *Term, et types.Type) []alt {
	if !isPtr(et) {
		return nil
	}
	var out []alt
	for _, a := range alts(x) {
		for _, b := range alts(m.load(a.t, et)) {
			if b.t.op != OObj && b.t.op != OFieldRef {
				return nil
			}
			out = append(out, alt{bAnd(a.g, b.g), b.t})
		}
	}
	return out
}

// decodeKeys gives the document key of each field ("" for a field that is not decoded).
func decodeKeys(decoder string, st *types.Struct) []string {
	lib := "yaml"
	if strings.Contains(decoder, "json") {
		lib = "json"
	}
	out := make([]string, st.NumFields())
	for i := range out {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		tag := strings.Split(reflect.StructTag(st.Tag(i)).Get(lib), ",")
		switch {
		case tag[0] == "-" && len(tag) == 1:
		case tag[0] != "":
			out[i] = tag[0]
		default:
			out[i] = strings.ToLower(f.Name())
		}
		for _, t := range tag[1:] {
			if t == "inline" {
				out[i] = "inline:" + f.Name()
			}
		}
	}
	return out
}

// hasUnmarshal tells whether a type decodes itself.
func hasUnmarshal(t types.Type) bool {
	ms := types.NewMethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "UnmarshalJSON", "UnmarshalYAML", "UnmarshalText":
			return true
		}
	}
	return false
}

func (fr *frame) havocArg(a, inst *Term) {
	m := fr.m
	for _, x := range alts(a) {
		t := x.t
		if t.op == OIface {
			fr.havocArg(t.args[0], inst)
			continue
		}
		if t.op == OObj || t.op == OFieldRef || t.op == OIdxRef || (t.op == OLoad || t.op == OParam) && isPtr(t.typ) {
			for k := range m.heap {
				for _, q := range rootChain(k) {
					if q == t {
						delete(m.heap, k)
						break
					}
				}
			}
			m.havoc[t] = inst
		}
	}
}

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// isDecode recognises calls that fill the value their argument points to.
func isDecode(name string, sig *types.Signature) bool {
	for _, s := range []string{".Unmarshal", ".UnmarshalStrict", ".Decode", ".Scan", ".Sscanf", ".Sscan"} {
		if strings.HasSuffix(name, s) {
			return true
		}
	}
	if name == "dyn" && sig.Params().Len() == 1 && sig.Results().Len() == 1 {
		if it, ok := sig.Params().At(0).Type().Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
			return true
		}
	}
	return false
}

func isStateful(name string) bool {
	n := strings.TrimLeft(name, "(*")
	if n == "os.Getenv" || n == "os.LookupEnv" || strings.HasPrefix(n, "net/url.") {
		return false // nothing here sets the environment
	}
	for _, p := range []string{"bufio.", "io.", "os.", "math/rand.", "crypto/rand.", "time.", "io/ioutil.", "github.com/dchest/uniuri.", "net/", "gopkg.in/alecthomas/kingpin"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	if strings.HasSuffix(n, ".Decode") || strings.HasSuffix(n, ".Read") || strings.HasSuffix(n, ".Scan") {
		return true
	}
	return false
}

// constBytes is the text of a list of constant bytes.
func constBytes(segs []Seg) (string, bool) {
	var b []byte
	for _, s := range segs {
		c, ok := s.val.constInt()
		if !ok || s.kind != SegSingle || s.g != bTrue || c < 0 || c > 255 {
			return "", false
		}
		b = append(b, byte(c))
	}
	return string(b), true
}
