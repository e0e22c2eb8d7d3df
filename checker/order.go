package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Order analysis: nothing the program produces may depend on the order in
// which the entries of a map happen to be visited.
//
// A loop over a map (or over a list whose order is unspecified) is harmless
// when what survives it does not depend on the order: counts, flags, entries
// stored under the visited key.  A list built in such a loop has an
// unspecified order until it is sorted; what is done with it before that is
// followed through assignments, calls and results.

type orderIssue struct {
	pos  token.Pos
	fn   *ssa.Function
	what string
}

type orderLint struct {
	w        *World
	fns      []*ssa.Function
	inRepo   map[*ssa.Function]bool
	issues   map[string]orderIssue
	loops    int
	roots    int
	visited  map[string]bool
	resTaint map[*ssa.Function]map[int]token.Pos
	callers  map[*ssa.Function][]*ssa.Call
	closures map[*ssa.Function][]*ssa.MakeClosure
	effects  map[*ssa.Function]*fnEffects
	work     []func()
	checked  []string
}

type fnEffects struct {
	params map[int]bool // what the parameter refers to is changed
	free   map[int]bool
	global bool
	done   bool
}

type natLoop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func (l *natLoop) has(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return ok && l.blocks[in.Block()]
}

// natLoops lists the natural loops of a function by header.
func natLoops(f *ssa.Function) map[*ssa.BasicBlock]*natLoop {
	out := map[*ssa.BasicBlock]*natLoop{}
	for _, b := range f.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := out[h]
			if l == nil {
				l = &natLoop{h, map[*ssa.BasicBlock]bool{h: true}}
				out[h] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return out
}

func innermost(ls map[*ssa.BasicBlock]*natLoop, b *ssa.BasicBlock) *natLoop {
	var best *natLoop
	for _, l := range ls {
		if l.blocks[b] && (best == nil || len(l.blocks) < len(best.blocks)) {
			best = l
		}
	}
	return best
}

func newOrderLint(w *World) *orderLint {
	o := &orderLint{w: w, inRepo: map[*ssa.Function]bool{}, issues: map[string]orderIssue{}, visited: map[string]bool{},
		resTaint: map[*ssa.Function]map[int]token.Pos{}, callers: map[*ssa.Function][]*ssa.Call{},
		closures: map[*ssa.Function][]*ssa.MakeClosure{}, effects: map[*ssa.Function]*fnEffects{}}
	o.fns = w.repoFns()
	for _, f := range o.fns {
		o.inRepo[f] = true
	}
	for _, f := range o.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Call:
					if g := in.Call.StaticCallee(); g != nil {
						o.callers[g] = append(o.callers[g], in)
					}
				case *ssa.MakeClosure:
					g := in.Fn.(*ssa.Function)
					o.closures[g] = append(o.closures[g], in)
				}
			}
		}
	}
	return o
}

// repoFns lists the functions of the repository (not the overlay's), methods
// and function literals included, in a stable order.
func (w *World) repoFns() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || f.Synthetic != "" && !strings.HasPrefix(f.Synthetic, "package init") {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, g := range f.AnonFuncs {
			add(g)
		}
	}
	for path, p := range w.pkgs {
		if strings.HasSuffix(path, "/"+specDir) || path != modPath && !strings.HasPrefix(path, modPath+"/") {
			continue
		}
		for _, mem := range p.Members {
			switch mem := mem.(type) {
			case *ssa.Function:
				add(mem)
			case *ssa.Type:
				for _, t := range []types.Type{mem.Type(), types.NewPointer(mem.Type())} {
					ms := w.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := w.prog.MethodValue(ms.At(i))
						if f != nil && f.Pkg == p {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].String() != out[j].String() {
			return out[i].String() < out[j].String()
		}
		return out[i].Pos() < out[j].Pos()
	})
	return out
}

func (o *orderLint) report(f *ssa.Function, pos token.Pos, format string, args ...interface{}) {
	if !pos.IsValid() {
		pos = f.Pos()
	}
	what := fmt.Sprintf(format, args...)
	key := o.w.posn(pos) + what
	if _, ok := o.issues[key]; !ok {
		o.issues[key] = orderIssue{pos, f, what}
	}
}

func (o *orderLint) run() {
	for _, f := range o.fns {
		loops := natLoops(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Next:
					r, ok := in.Iter.(*ssa.Range)
					if !ok {
						continue
					}
					if _, ok := r.X.Type().Underlying().(*types.Map); !ok {
						continue
					}
					o.loops++
					o.checked = append(o.checked, o.w.posn(r.Pos()))
					if l := loops[b]; l != nil {
						keys := map[ssa.Value]bool{}
						for _, ref := range *in.Referrers() {
							if e, ok := ref.(*ssa.Extract); ok && e.Index == 1 {
								keys[e] = true
							}
						}
						o.loop(f, l, keys, "the entries of a map")
					} else {
						// at most one entry is visited: which one is arbitrary
						for _, ref := range *in.Referrers() {
							if e, ok := ref.(*ssa.Extract); ok && e.Index > 0 && len(*e.Referrers()) > 0 {
								o.report(f, r.Pos(), "an arbitrary entry of a map is used")
							}
						}
					}
				case *ssa.Call:
					if g := in.Call.StaticCallee(); g != nil {
						switch calleeName(g) {
						case "(reflect.Value).MapKeys", "maps.Keys", "maps.Values", "golang.org/x/exp/maps.Keys", "golang.org/x/exp/maps.Values":
							o.loops++
							o.root(f, in, nil, "the keys of a map")
						case "(reflect.Value).MapRange":
							o.report(f, in.Pos(), "the entries of a map are visited through reflection")
						}
					}
				case *ssa.Go:
					o.report(f, in.Pos(), "work is done concurrently")
				case *ssa.Select:
					o.report(f, in.Pos(), "the outcome depends on which channel is ready first")
				}
			}
		}
	}
	for len(o.work) > 0 {
		w := o.work[0]
		o.work = o.work[1:]
		w()
	}
}

func calleeName(g *ssa.Function) string {
	if g.Origin() != nil {
		g = g.Origin()
	}
	return g.String()
}

// --- loops -----------------------------------------------------------------

type updateKind int

const (
	upNone updateKind = iota
	upConst
	upCommute
	upList
	upBad
)

// loop checks that what survives a loop over src does not depend on the order.
func (o *orderLint) loop(f *ssa.Function, l *natLoop, keys map[ssa.Value]bool, src string) {
	id := fmt.Sprintf("loop %s %d", f, l.head.Index)
	if o.visited[id] {
		return
	}
	o.visited[id] = true
	early := o.earlyExits(f, l)
	running := map[ssa.Value]bool{}
	for _, in := range l.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		kind, why := o.phiUpdate(l, p)
		switch kind {
		case upBad:
			if o.usedBeyondUpdate(l, p) {
				o.report(f, firstPos(p.Pos(), l), "%s depends on the order in which %s are visited (%s)", valueName(p), src, why)
			}
		case upList:
			running[p] = true
			o.root(f, p, l, src)
			o.partial(f, l, p, early, src)
		case upCommute:
			running[p] = true
			o.partial(f, l, p, early, src)
		}
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			o.loopInstr(f, l, in, keys, running, src)
		}
	}
	// a value of the visited entry must not leave the loop early
	for b := range l.blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil || isErrorType(v.Type()) {
				continue
			}
			if _, ok := in.(*ssa.Phi); ok && b == l.head {
				continue
			}
			for _, ref := range *v.Referrers() {
				if l.blocks[ref.Block()] {
					continue
				}
				if _, ok := ref.(*ssa.DebugRef); ok {
					continue
				}
				if ph, ok := ref.(*ssa.Phi); ok && o.deadPhi(ph) {
					continue
				}
				if o.onlyError(ref, v) {
					continue
				}
				if o.allEqualIn(v) {
					continue
				}
				o.report(f, firstPos(ref.Pos(), l), "the first entry that matches decides, and %s are visited in no particular order", src)
			}
		}
	}
	// different ways of leaving early must not lead to different outcomes
	if len(early) > 1 {
		outs := map[string]bool{}
		for _, e := range early {
			outs[exitOutcome(e)] = true
		}
		if len(outs) > 1 {
			o.report(f, firstPos(token.NoPos, l), "which of several early exits is taken depends on the order in which %s are visited", src)
		}
	}
}

func firstPos(p token.Pos, l *natLoop) token.Pos {
	if p.IsValid() {
		return p
	}
	for _, b := range l.head.Parent().Blocks {
		if !l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

func valueName(v ssa.Value) string {
	if p, ok := v.(*ssa.Phi); ok && p.Comment != "" {
		return p.Comment
	}
	return v.Name()
}

type exitEdge struct{ from, to *ssa.BasicBlock }

// earlyExits lists the edges that leave a loop elsewhere than at its head.
func (o *orderLint) earlyExits(f *ssa.Function, l *natLoop) []exitEdge {
	var out []exitEdge
	for _, b := range f.Blocks {
		if !l.blocks[b] || b == l.head {
			continue
		}
		for _, s := range b.Succs {
			if !l.blocks[s] && !panics(s) {
				out = append(out, exitEdge{b, s})
			}
		}
	}
	return out
}

func panics(b *ssa.BasicBlock) bool {
	if len(b.Instrs) == 0 {
		return false
	}
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
	return ok
}

// exitOutcome describes where an early exit leads, ignoring errors.
func exitOutcome(e exitEdge) string {
	b := e.to
	if len(b.Instrs) == 0 {
		return fmt.Sprint(b.Index)
	}
	var parts []string
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi:
			for i, p := range b.Preds {
				if p == e.from {
					parts = append(parts, in.Edges[i].String())
				}
			}
		case *ssa.Return:
			if len(parts) == 0 {
				s := "return"
				for _, r := range in.Results {
					if isErrorType(r.Type()) {
						if c, ok := r.(*ssa.Const); ok && c.IsNil() {
							s += " nil"
						} else {
							return "error" // which error is reported may differ
						}
						continue
					}
					s += " " + r.String()
				}
				return s
			}
		}
	}
	return fmt.Sprint(b.Index, parts)
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (o *orderLint) deadPhi(p *ssa.Phi) bool {
	for _, r := range *p.Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok {
			return false
		}
	}
	return true
}

// allEqualIn tells that a value is the same for every entry.
func (o *orderLint) allEqualIn(v ssa.Value) bool {
	_, ok := v.(*ssa.Const)
	return ok
}

// onlyError tells whether a use outside the loop only serves an error.
func (o *orderLint) onlyError(ref ssa.Instruction, v ssa.Value) bool {
	seen := map[ssa.Instruction]bool{}
	var rec func(in ssa.Instruction) bool
	rec = func(in ssa.Instruction) bool {
		if seen[in] {
			return true
		}
		seen[in] = true
		switch in := in.(type) {
		case *ssa.Call:
			if isErrorType(in.Type()) {
				return true
			}
			return false
		case *ssa.Return, *ssa.If, *ssa.MapUpdate, *ssa.Send, *ssa.Panic:
			if r, ok := in.(*ssa.Return); ok {
				for _, x := range r.Results {
					if isErrorType(x.Type()) {
						if c, ok := x.(*ssa.Const); !ok || !c.IsNil() {
							return true
						}
					}
				}
			}
			_, ok := in.(*ssa.Panic)
			return ok
		case *ssa.Store:
			// into the arguments of a message
			if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
				if al, ok := ia.X.(*ssa.Alloc); ok {
					for _, r := range *al.Referrers() {
						if s, ok := r.(*ssa.Slice); ok {
							for _, r2 := range *s.Referrers() {
								if !rec(r2) {
									return false
								}
							}
						}
					}
					return true
				}
			}
			return false
		case ssa.Value:
			if isErrorType(in.Type()) {
				return true
			}
			for _, r := range *in.Referrers() {
				if !rec(r) {
					return false
				}
			}
			return true
		}
		return false
	}
	return rec(ref)
}

// partial: a running value used on a path that left the loop early.
func (o *orderLint) partial(f *ssa.Function, l *natLoop, p *ssa.Phi, early []exitEdge, src string) {
	if len(early) == 0 {
		return
	}
	reach := map[*ssa.BasicBlock]bool{}
	var work []*ssa.BasicBlock
	for _, e := range early {
		work = append(work, e.to)
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if reach[b] || l.blocks[b] {
			continue
		}
		reach[b] = true
		work = append(work, b.Succs...)
	}
	for _, v := range o.chain(l, p) {
		for _, ref := range *v.Referrers() {
			if l.blocks[ref.Block()] || !reach[ref.Block()] {
				continue
			}
			if _, ok := ref.(*ssa.DebugRef); ok {
				continue
			}
			if ph, ok := ref.(*ssa.Phi); ok {
				// only the edges that come from the loop's early exits matter
				bad := false
				for i, e := range ph.Edges {
					pr := ph.Block().Preds[i]
					if e == v && (reach[pr] || l.blocks[pr] && pr != l.head) {
						bad = true
					}
				}
				if !bad {
					continue
				}
			}
			if o.onlyError(ref, v) {
				continue
			}
			o.report(f, firstPos(ref.Pos(), l), "what was collected when the loop is left early depends on the order in which %s are visited", src)
		}
	}
}

// chain lists the values inside the loop that are versions of a carried one.
func (o *orderLint) chain(l *natLoop, p *ssa.Phi) []ssa.Value {
	out := []ssa.Value{p}
	seen := map[ssa.Value]bool{p: true}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] || !l.has(v) {
			return
		}
		switch v := v.(type) {
		case *ssa.Phi:
			seen[v] = true
			out = append(out, v)
			for _, e := range v.Edges {
				rec(e)
			}
		case *ssa.BinOp, *ssa.Call:
			if dependsOn(v, p, l) {
				seen[v] = true
				out = append(out, v)
				var ops []*ssa.Value
				ops = v.(ssa.Instruction).Operands(ops)
				for _, op := range ops {
					if *op != nil {
						rec(*op)
					}
				}
			}
		}
	}
	for i, e := range p.Edges {
		if l.blocks[p.Block().Preds[i]] {
			rec(e)
		}
	}
	return out
}

func dependsOn(v ssa.Value, p ssa.Value, l *natLoop) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if v == p {
			return true
		}
		if seen[v] || !l.has(v) {
			return false
		}
		seen[v] = true
		var ops []*ssa.Value
		for _, op := range v.(ssa.Instruction).Operands(ops) {
			if *op != nil && rec(*op) {
				return true
			}
		}
		return false
	}
	return rec(v)
}

// phiUpdate classifies how a carried value changes from entry to entry.
func (o *orderLint) phiUpdate(l *natLoop, p *ssa.Phi) (updateKind, string) {
	u := &update{o: o, l: l, p: p, seen: map[ssa.Value]bool{}, consts: map[string]bool{}}
	for i, e := range p.Edges {
		if l.blocks[p.Block().Preds[i]] {
			u.rec(e)
		}
	}
	return u.result()
}

type update struct {
	o      *orderLint
	l      *natLoop
	p      *ssa.Phi
	same   func(v ssa.Value) bool // v is the earlier value
	seen   map[ssa.Value]bool
	consts map[string]bool
	list   bool
	comm   bool
	bad    string
}

func (u *update) result() (updateKind, string) {
	switch {
	case u.bad != "":
		return upBad, u.bad
	case len(u.consts) > 1:
		return upBad, "it is set to different values"
	case len(u.consts) == 1 && (u.list || u.comm):
		return upBad, "it is reset by some entries"
	case u.list:
		return upList, ""
	case u.comm:
		return upCommute, ""
	case len(u.consts) == 1:
		return upConst, ""
	}
	return upNone, ""
}

func (u *update) isPrev(v ssa.Value) bool {
	return u.p != nil && v == ssa.Value(u.p) || u.same != nil && u.same(v)
}

func (u *update) dep(v ssa.Value) bool {
	if u.p != nil {
		return dependsOn(v, u.p, u.l)
	}
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if u.same(v) {
			return true
		}
		if seen[v] || !u.l.has(v) {
			return false
		}
		seen[v] = true
		var ops []*ssa.Value
		for _, op := range v.(ssa.Instruction).Operands(ops) {
			if *op != nil && rec(*op) {
				return true
			}
		}
		return false
	}
	return rec(v)
}

func (u *update) rec(v ssa.Value) {
	if u.isPrev(v) || u.seen[v] {
		return
	}
	u.seen[v] = true
	if !u.l.has(v) {
		u.consts[constKey(v)] = true
		return
	}
	if !u.dep(v) {
		u.bad = "the last entry visited decides"
		return
	}
	switch v := v.(type) {
	case *ssa.Phi:
		if u.extremum(v) || u.firstOr(v) {
			u.comm = true
			return
		}
		for _, e := range v.Edges {
			u.rec(e)
		}
		return
	case *ssa.ChangeType:
		u.rec(v.X)
		return
	case *ssa.BinOp:
		b, _ := v.Type().Underlying().(*types.Basic)
		comm := false
		switch v.Op {
		case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
			comm = b != nil && b.Info()&(types.IsInteger|types.IsBoolean) != 0
		}
		dx, dy := u.dep(v.X), u.dep(v.Y)
		if v.Op == token.SUB && b != nil && b.Info()&types.IsInteger != 0 && !dy {
			comm = true
		}
		if comm && dx != dy {
			u.comm = true
			if dx {
				u.rec(v.X)
			} else {
				u.rec(v.Y)
			}
			return
		}
		u.bad = "it is combined in that order"
		return
	case *ssa.Call:
		if bi, ok := v.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			u.list = true
			for _, a := range v.Call.Args {
				if u.dep(a) {
					u.rec(a)
				}
			}
			return
		}
		if _, ok := v.Type().Underlying().(*types.Slice); ok {
			n := 0
			for _, a := range v.Call.Args {
				if u.dep(a) {
					u.rec(a)
					n++
				}
			}
			if n == 1 {
				u.list = true
				return
			}
		}
	case *ssa.Slice:
		if v.Low == nil && v.High == nil {
			u.rec(v.X)
			return
		}
	}
	u.bad = "it is combined in that order"
}

// extremum recognises "if x is better than the best so far, keep it".
func (u *update) extremum(v *ssa.Phi) bool {
	if len(v.Edges) != 2 {
		return false
	}
	var other ssa.Value
	switch {
	case u.isPrev(v.Edges[0]):
		other = v.Edges[1]
	case u.isPrev(v.Edges[1]):
		other = v.Edges[0]
	default:
		return false
	}
	if u.dep(other) {
		return false
	}
	for _, ref := range *other.Referrers() {
		b, ok := ref.(*ssa.BinOp)
		if !ok || !(b.X == other && u.isPrev(b.Y) || b.Y == other && u.isPrev(b.X)) {
			continue
		}
		switch b.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			for _, r2 := range *b.Referrers() {
				if _, ok := r2.(*ssa.If); ok {
					return true
				}
			}
		}
	}
	return false
}

// firstOr recognises "the first value starts the total, later ones are combined
// with it": x = x*v, or v where that is still zero.
func (u *update) firstOr(v *ssa.Phi) bool {
	if len(v.Edges) != 2 {
		return false
	}
	for i := 0; i < 2; i++ {
		comb, ok := v.Edges[i].(*ssa.BinOp)
		first := v.Edges[1-i]
		if !ok || comb.Op != token.MUL && comb.Op != token.ADD || u.dep(first) {
			continue
		}
		b, _ := comb.Type().Underlying().(*types.Basic)
		if b == nil || b.Info()&types.IsInteger == 0 {
			continue
		}
		if !(u.isPrev(comb.X) && sameValue(comb.Y, first) || u.isPrev(comb.Y) && sameValue(comb.X, first)) {
			continue
		}
		// the choice must be made by the total being zero
		for _, x := range []ssa.Value{comb, ssa.Value(u.p)} {
			if x == nil || x.Referrers() == nil {
				continue
			}
			for _, ref := range *x.Referrers() {
				c, ok := ref.(*ssa.BinOp)
				if !ok || c.Op != token.EQL && c.Op != token.NEQ {
					continue
				}
				if constKey(c.X) != "0" && constKey(c.Y) != "0" {
					continue
				}
				for _, r2 := range *c.Referrers() {
					if _, ok := r2.(*ssa.If); ok {
						return true
					}
				}
			}
		}
	}
	return false
}

// sameValue: the same value, or the same length taken twice.
func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	ca, ok1 := a.(*ssa.Call)
	cb, ok2 := b.(*ssa.Call)
	if !ok1 || !ok2 {
		return false
	}
	ba, ok1 := ca.Call.Value.(*ssa.Builtin)
	bb, ok2 := cb.Call.Value.(*ssa.Builtin)
	return ok1 && ok2 && ba.Name() == "len" && bb.Name() == "len" && ca.Call.Args[0] == cb.Call.Args[0]
}

func constKey(v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok {
		if c.Value == nil {
			return "nil"
		}
		if c.Value.Kind() == constant.Bool {
			return c.Value.String()
		}
		return c.Value.ExactString()
	}
	return v.Name()
}

// usedBeyondUpdate tells whether a carried value matters outside its own
// computation.
func (o *orderLint) usedBeyondUpdate(l *natLoop, p *ssa.Phi) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch ref := ref.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				if o.deadPhi(ref) {
					continue
				}
				if rec(ref) {
					return true
				}
			case *ssa.BinOp:
				if rec(ref) {
					return true
				}
			default:
				return true
			}
		}
		return false
	}
	return rec(p)
}

// --- effects inside a loop ---------------------------------------------------

// baseOf follows an address to the value it is part of.
func baseOf(v ssa.Value) (base ssa.Value, path string, idx []ssa.Value) {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			path = fmt.Sprintf(".%d", x.Field) + path
			v = x.X
		case *ssa.IndexAddr:
			path = "[]" + path
			idx = append(idx, x.Index)
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v, path, idx
			}
			path = "*" + path
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.Extract:
			if t, ok := x.Tuple.(*ssa.TypeAssert); ok {
				v = t.X
				continue
			}
			return v, path, idx
		default:
			return v, path, idx
		}
	}
}

// shared tells whether what v refers to lives longer than one iteration.
func (o *orderLint) shared(l *natLoop, v ssa.Value) bool {
	if !refers(v.Type()) {
		return false
	}
	base, _, idx := baseOf(v)
	if l.has(base) {
		return false
	}
	if _, ok := base.(*ssa.Const); ok {
		return false
	}
	for _, i := range idx {
		if l.has(i) && fromEntry(l, i) {
			// an element chosen by the visited entry
			return false
		}
	}
	if _, ok := base.(*ssa.Function); ok {
		return false
	}
	return true
}

// fromEntry: the value is computed from the entry that is visited.
func fromEntry(l *natLoop, v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] || !l.has(v) {
			return false
		}
		seen[v] = true
		if n, ok := v.(*ssa.Next); ok {
			return n.Block() == l.head
		}
		var ops []*ssa.Value
		for _, op := range v.(ssa.Instruction).Operands(ops) {
			if *op != nil && rec(*op) {
				return true
			}
		}
		return false
	}
	return rec(v)
}

func refers(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface, *types.Signature, *types.Chan:
		return true
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if refers(t.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (o *orderLint) loopInstr(f *ssa.Function, l *natLoop, in ssa.Instruction, keys, running map[ssa.Value]bool, src string) {
	switch in := in.(type) {
	case *ssa.Store:
		base, path, idx := baseOf(in.Addr)
		if l.has(base) {
			return
		}
		if _, ok := in.Val.(*ssa.Const); ok && len(idx) == 0 {
			// the same content for every entry, unless others differ
			if o.soleStore(l, in) {
				return
			}
		}
		if len(idx) > 0 {
			if _, ok := base.(*ssa.Alloc); ok && o.varargs(base.(*ssa.Alloc)) {
				return
			}
			if o.fromKey(keys, idx[0]) {
				return
			}
			if !l.has(idx[0]) && o.soleStore(l, in) && !l.has(in.Val) {
				return
			}
			if v, ok := in.Addr.(*ssa.IndexAddr); ok && !strings.Contains(strings.TrimPrefix(path, "[]"), "[") {
				o.rootOf(f, v.X, l, src, in.Pos())
				return
			}
			o.report(f, in.Pos(), "an element is stored in the order in which %s are visited", src)
			return
		}
		u := &update{o: o, l: l, seen: map[ssa.Value]bool{}, consts: map[string]bool{}}
		u.same = func(v ssa.Value) bool {
			ld, ok := v.(*ssa.UnOp)
			if !ok || ld.Op != token.MUL {
				return false
			}
			b2, p2, _ := baseOf(ld.X)
			return b2 == base && p2 == path
		}
		u.rec(in.Val)
		kind, why := u.result()
		switch kind {
		case upBad:
			if al, ok := base.(*ssa.Alloc); ok && !o.readAfter(al, l) {
				return
			}
			o.report(f, in.Pos(), "what is stored depends on the order in which %s are visited (%s)", src, why)
		case upList:
			o.rootPlace(f, in.Addr, l, src, in.Pos())
		case upConst:
			if !o.soleStore(l, in) {
				o.report(f, in.Pos(), "what is stored depends on the order in which %s are visited", src)
			}
		}
	case *ssa.MapUpdate:
		base, _, _ := baseOf(in.Map)
		if l.has(base) {
			return
		}
		if !l.has(in.Value) {
			return
		}
		if o.fromKey(keys, in.Key) {
			return
		}
		// counters
		u := &update{o: o, l: l, seen: map[ssa.Value]bool{}, consts: map[string]bool{}}
		u.same = func(v ssa.Value) bool {
			lk, ok := v.(*ssa.Lookup)
			return ok && lk.Index == in.Key
		}
		u.rec(in.Value)
		if k, _ := u.result(); k == upCommute || k == upConst || k == upNone {
			return
		}
		if o.functionOf(in.Value, in.Key) {
			return
		}
		o.report(f, in.Pos(), "entries stored under the same key overwrite each other in the order in which %s are visited", src)
	case *ssa.Call:
		o.loopCall(f, l, in, &in.Call, in.Pos(), src)
	case *ssa.Defer:
		o.report(f, in.Pos(), "deferred calls run in the order in which %s are visited", src)
	case *ssa.Send:
		o.report(f, in.Pos(), "messages are sent in the order in which %s are visited", src)
	}
}

// functionOf: the value depends on nothing of the entry but the key stored under.
func (o *orderLint) functionOf(v, key ssa.Value) bool { return v == key }

func (o *orderLint) varargs(a *ssa.Alloc) bool {
	return a.Comment == "varargs"
}

// soleStore: every store to the place inside the loop stores the same constant.
func (o *orderLint) soleStore(l *natLoop, st *ssa.Store) bool {
	base, path, _ := baseOf(st.Addr)
	for b := range l.blocks {
		for _, in := range b.Instrs {
			s2, ok := in.(*ssa.Store)
			if !ok || s2 == st {
				continue
			}
			b2, p2, _ := baseOf(s2.Addr)
			if b2 == base && p2 == path && constKey(s2.Val) != constKey(st.Val) {
				return false
			}
		}
	}
	return true
}

func (o *orderLint) readAfter(al *ssa.Alloc, l *natLoop) bool {
	for _, ref := range *al.Referrers() {
		switch ref := ref.(type) {
		case *ssa.Store:
			if ref.Addr == al {
				continue
			}
			return true
		case *ssa.DebugRef:
			continue
		case *ssa.UnOp:
			if l.blocks[ref.Block()] {
				continue
			}
			return true
		default:
			return true
		}
	}
	return false
}

// fromKey: the value determines the visited key.
func (o *orderLint) fromKey(keys map[ssa.Value]bool, v ssa.Value) bool {
	if keys[v] {
		return true
	}
	switch x := v.(type) {
	case *ssa.ChangeType:
		return o.fromKey(keys, x.X)
	case *ssa.MakeInterface:
		return o.fromKey(keys, x.X)
	case *ssa.TypeAssert:
		return o.fromKey(keys, x.X)
	case *ssa.Extract:
		if t, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return o.fromKey(keys, t.X)
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			_, cx := x.X.(*ssa.Const)
			_, cy := x.Y.(*ssa.Const)
			return cx && o.fromKey(keys, x.Y) || cy && o.fromKey(keys, x.X)
		}
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil {
			return false
		}
		switch calleeName(g) {
		case "fmt.Sprint", "fmt.Sprintf":
			// formatting of the key alone tells keys of one type apart
			for _, a := range varargValues(x) {
				if o.fromKey(keys, a) {
					return true
				}
			}
		}
	case *ssa.UnOp:
		// a variable that holds the key
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			n := 0
			for _, ref := range *al.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == al {
					n++
					if !o.fromKey(keys, s.Val) {
						return false
					}
				}
			}
			return n > 0
		}
	}
	return false
}

// varargValues are the values passed in the variadic part of a call.
func varargValues(c *ssa.Call) []ssa.Value {
	var out []ssa.Value
	for _, a := range c.Call.Args {
		s, ok := a.(*ssa.Slice)
		if !ok {
			continue
		}
		al, ok := s.X.(*ssa.Alloc)
		if !ok {
			continue
		}
		for _, ref := range *al.Referrers() {
			ia, ok := ref.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok {
					out = append(out, st.Val)
				}
			}
		}
	}
	return out
}

func (o *orderLint) loopCall(f *ssa.Function, l *natLoop, in ssa.Instruction, c *ssa.CallCommon, pos token.Pos, src string) {
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		if bi.Name() == "copy" && o.shared(l, c.Args[0]) {
			o.report(f, pos, "content is copied in the order in which %s are visited", src)
		}
		return
	}
	bad := func(what string) {
		o.report(f, pos, "%s in the order in which %s are visited", what, src)
	}
	if c.IsInvoke() {
		if o.shared(l, c.Value) && !pureName(c.Method.Name()) {
			bad("the object behind an interface is changed by " + c.Method.Name())
		}
		return
	}
	g := c.StaticCallee()
	if g == nil {
		// a function value
		for _, t := range o.targets(f, c.Value) {
			e := o.effectsOf(t)
			if e.global {
				bad("a shared variable is changed")
			}
			for i := range e.params {
				if i < len(c.Args) && o.shared(l, c.Args[i]) {
					bad("an argument is changed")
				}
			}
			for _, mc := range o.closures[t] {
				for i := range e.free {
					if mc.Parent() == f && l.blocks[mc.Block()] && !o.sharedBinding(l, mc.Bindings[i]) {
						continue
					}
					if mc.Parent() == f && o.captured(f, l, t, i, mc.Bindings[i], src, pos) {
						continue
					}
					bad("a captured variable is changed")
				}
			}
		}
		return
	}
	if !o.inRepo[g] {
		if what := externalEffect(g, c, func(v ssa.Value) bool { return o.shared(l, v) }); what != "" {
			bad(what)
		}
		return
	}
	e := o.effectsOf(g)
	if e.global {
		bad("a shared variable is changed by " + g.Name())
	}
	for i := range e.params {
		if i < len(c.Args) && o.shared(l, c.Args[i]) {
			bad("an argument of " + g.Name() + " is changed")
		}
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		for i := range e.free {
			if o.sharedBinding(l, mc.Bindings[i]) && !o.captured(f, l, g, i, mc.Bindings[i], src, pos) {
				bad("a captured variable is changed by " + g.Name())
			}
		}
	}
}

// captured: what a function literal called in the loop does to a captured
// variable is harmless, or makes it a list of unspecified order.
func (o *orderLint) captured(f *ssa.Function, l *natLoop, g *ssa.Function, i int, binding ssa.Value, src string, pos token.Pos) bool {
	fv := g.FreeVars[i]
	all := &natLoop{g.Blocks[0], map[*ssa.BasicBlock]bool{}}
	for _, b := range g.Blocks {
		all.blocks[b] = true
	}
	list := false
	for _, ref := range *fv.Referrers() {
		switch ref := ref.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
			if ld, ok := ref.(*ssa.UnOp); ok && refers(ld.Type()) {
				for _, r2 := range *ld.Referrers() {
					switch r2 := r2.(type) {
					case *ssa.Call:
						if _, ok := r2.Call.Value.(*ssa.Builtin); !ok {
							return false
						}
					case *ssa.DebugRef:
					default:
						return false
					}
				}
			}
		case *ssa.Store:
			if ref.Addr != fv {
				return false
			}
			u := &update{o: o, l: all, seen: map[ssa.Value]bool{}, consts: map[string]bool{}}
			u.same = func(v ssa.Value) bool {
				ld, ok := v.(*ssa.UnOp)
				return ok && ld.Op == token.MUL && ld.X == fv
			}
			u.rec(ref.Val)
			switch k, _ := u.result(); k {
			case upBad:
				return false
			case upConst:
				if !o.soleStore(all, ref) {
					return false
				}
			case upList:
				list = true
			}
		default:
			return false
		}
	}
	if list {
		o.rootPlace(f, binding, l, src, pos)
	}
	return true
}

func (o *orderLint) sharedBinding(l *natLoop, v ssa.Value) bool {
	base, _, _ := baseOf(v)
	return !l.has(base)
}

func pureName(n string) bool {
	switch n {
	case "Error", "String", "Len", "Less", "Kind", "Name", "IsZero", "GoString":
		return true
	}
	return strings.HasPrefix(n, "Get") || strings.HasPrefix(n, "Is") || strings.HasPrefix(n, "Has")
}

// externalEffect tells what a function outside the repository does to shared
// objects or to the world.
func externalEffect(g *ssa.Function, c *ssa.CallCommon, shared func(ssa.Value) bool) string {
	if g.Origin() != nil {
		g = g.Origin()
	}
	pkg := ""
	if g.Pkg != nil {
		pkg = g.Pkg.Pkg.Path()
	} else if g.Object() != nil && g.Object().Pkg() != nil {
		pkg = g.Object().Pkg().Path()
	}
	name := g.Name()
	if recv := g.Signature.Recv(); recv != nil {
		if _, ok := recv.Type().Underlying().(*types.Pointer); ok && len(c.Args) > 0 && shared(c.Args[0]) && !pureName(name) {
			switch pkg {
			case "regexp", "text/template", "html/template", "time", "reflect":
				return ""
			}
			return "an object is changed by " + name
		}
		return ""
	}
	switch pkg {
	case "fmt":
		if strings.HasPrefix(name, "Fprint") && shared(c.Args[0]) {
			return "text is written"
		}
		if strings.HasPrefix(name, "Print") {
			return "text is printed"
		}
	case "io", "io/ioutil", "bufio":
		if len(c.Args) > 0 && shared(c.Args[0]) {
			return "data is written"
		}
	case "os", "log":
		switch name {
		case "Getenv", "LookupEnv", "Stat", "ReadFile", "Exit", "Fatal", "Fatalf", "Fatalln":
			return ""
		}
		return "the outside world is changed"
	}
	if strings.HasPrefix(name, "Unmarshal") && len(c.Args) > 1 && shared(c.Args[len(c.Args)-1]) {
		return "a value is decoded into a shared place"
	}
	return ""
}

// targets lists the functions a function value may denote.
func (o *orderLint) targets(f *ssa.Function, v ssa.Value) []*ssa.Function {
	seen := map[ssa.Value]bool{}
	out := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function, v ssa.Value)
	rec = func(f *ssa.Function, v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Function:
			out[v] = true
		case *ssa.MakeClosure:
			out[v.Fn.(*ssa.Function)] = true
		case *ssa.Phi:
			for _, e := range v.Edges {
				rec(f, e)
			}
		case *ssa.Parameter:
			for i, p := range f.Params {
				if p == v {
					for _, c := range o.callers[f] {
						if i < len(c.Call.Args) {
							rec(c.Parent(), c.Call.Args[i])
						}
					}
				}
			}
		case *ssa.ChangeType:
			rec(f, v.X)
		case *ssa.UnOp:
			if al, ok := v.X.(*ssa.Alloc); ok {
				for _, ref := range *al.Referrers() {
					if s, ok := ref.(*ssa.Store); ok && s.Addr == al {
						rec(f, s.Val)
					}
				}
			}
		}
	}
	rec(f, v)
	var fs []*ssa.Function
	for g := range out {
		fs = append(fs, g)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	return fs
}

// effectsOf summarises which of the objects a function is given it changes.
func (o *orderLint) effectsOf(g *ssa.Function) *fnEffects {
	if e := o.effects[g]; e != nil {
		return e
	}
	e := &fnEffects{params: map[int]bool{}, free: map[int]bool{}}
	o.effects[g] = e
	mark := func(v ssa.Value) {
		o.markOrigin(e, g, v, map[ssa.Value]bool{})
	}
	for pass := 0; pass < 2; pass++ {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					mark(in.Addr)
				case *ssa.MapUpdate:
					mark(in.Map)
				case *ssa.Send:
					mark(in.Chan)
				case *ssa.Call:
					c := &in.Call
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						if bi.Name() == "copy" || bi.Name() == "delete" {
							mark(c.Args[0])
						}
						continue
					}
					if c.IsInvoke() {
						if !pureName(c.Method.Name()) {
							mark(c.Value)
						}
						continue
					}
					h := c.StaticCallee()
					if h == nil {
						for _, t := range o.targets(g, c.Value) {
							e2 := o.effectsOf(t)
							e.global = e.global || e2.global
							for i := range e2.params {
								if i < len(c.Args) {
									mark(c.Args[i])
								}
							}
						}
						continue
					}
					if !o.inRepo[h] {
						if len(h.Blocks) == 0 || h.Pkg != nil {
							for _, a := range c.Args {
								a := a
								if externalEffect(h, c, func(v ssa.Value) bool { return v == a && refers(v.Type()) }) != "" {
									mark(a)
								}
							}
							if externalEffect(h, c, func(v ssa.Value) bool { return false }) != "" {
								e.global = true
							}
						}
						continue
					}
					e2 := o.effectsOf(h)
					e.global = e.global || e2.global
					for i := range e2.params {
						if i < len(c.Args) {
							mark(c.Args[i])
						}
					}
					if mc, ok := c.Value.(*ssa.MakeClosure); ok {
						for i := range e2.free {
							mark(mc.Bindings[i])
						}
					}
				}
			}
		}
	}
	e.done = true
	return e
}

// markOrigin notes where the object that is changed came from.
func (o *orderLint) markOrigin(e *fnEffects, g *ssa.Function, v ssa.Value, seen map[ssa.Value]bool) {
	base, _, _ := baseOf(v)
	if seen[base] {
		return
	}
	seen[base] = true
	switch b := base.(type) {
	case *ssa.Parameter:
		for i, p := range g.Params {
			if p == b {
				e.params[i] = true
			}
		}
	case *ssa.FreeVar:
		for i, p := range g.FreeVars {
			if p == b {
				e.free[i] = true
			}
		}
	case *ssa.Global:
		e.global = true
	case *ssa.Phi:
		for _, x := range b.Edges {
			o.markOrigin(e, g, x, seen)
		}
	case *ssa.Alloc:
		// a variable that holds a pointer to something else
		if v != ssa.Value(b) {
			for _, ref := range *b.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == b && refers(s.Val.Type()) {
					if _, p, _ := baseOf(v); strings.Contains(p, "*") {
						o.markOrigin(e, g, s.Val, seen)
					}
				}
			}
		}
	case *ssa.Lookup:
		o.markOrigin(e, g, b.X, seen)
	case *ssa.Extract:
		switch t := b.Tuple.(type) {
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok {
				o.markOrigin(e, g, r.X, seen)
			}
		case *ssa.Lookup:
			o.markOrigin(e, g, t.X, seen)
		}
	}
}

// --- lists of unspecified order -----------------------------------------------

// rootOf treats the list v denotes as being of unspecified order.
func (o *orderLint) rootOf(f *ssa.Function, v ssa.Value, l *natLoop, src string, pos token.Pos) {
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		o.rootPlace(f, ld.X, l, src, pos)
		return
	}
	if s, ok := v.(*ssa.Slice); ok {
		o.rootOf(f, s.X, l, src, pos)
		return
	}
	if p, ok := v.(*ssa.Parameter); ok {
		o.report(f, pos, "a list of the caller (%s) is filled in the order in which %s are visited", p.Name(), src)
		return
	}
	o.root(f, v, l, src)
}

// root follows a list of unspecified order.
func (o *orderLint) root(f *ssa.Function, v ssa.Value, l *natLoop, src string) {
	id := fmt.Sprintf("root %s %s", f, v.Name())
	if o.visited[id] {
		return
	}
	o.visited[id] = true
	o.roots++
	t := &listTaint{o: o, f: f, l: l, src: src, vals: map[ssa.Value]bool{}, places: map[string]ssa.Value{}}
	t.addVal(v)
	t.check()
}

// rootPlace follows a place that holds a list of unspecified order.
func (o *orderLint) rootPlace(f *ssa.Function, addr ssa.Value, l *natLoop, src string, pos token.Pos) {
	base, path, _ := baseOf(addr)
	id := fmt.Sprintf("place %s %s%s", f, base.Name(), path)
	if o.visited[id] {
		return
	}
	o.visited[id] = true
	o.roots++
	t := &listTaint{o: o, f: f, l: l, src: src, vals: map[ssa.Value]bool{}, places: map[string]ssa.Value{}}
	t.addPlace(addr, pos)
	t.check()
}

type listTaint struct {
	o      *orderLint
	f      *ssa.Function
	l      *natLoop
	src    string
	vals   map[ssa.Value]bool   // values that denote the list
	order  []ssa.Value          // the same, in the order found
	places map[string]ssa.Value // places that hold it
	escape []ssa.Instruction    // stores into places that outlive the function
	sorts  []ssa.Instruction
}

func placeKey(addr ssa.Value) (string, ssa.Value) {
	base, path, _ := baseOf(addr)
	return fmt.Sprintf("%p%s", base, path), base
}

func (t *listTaint) addVal(v ssa.Value) {
	if t.vals[v] {
		return
	}
	t.vals[v] = true
	t.order = append(t.order, v)
	if v.Referrers() == nil {
		return
	}
	for _, ref := range *v.Referrers() {
		switch ref := ref.(type) {
		case *ssa.Phi:
			t.addVal(ref)
		case *ssa.ChangeType:
			t.addVal(ref)
		case *ssa.MakeInterface:
			t.addVal(ref)
		case *ssa.Slice:
			if ref.X == v && ref.Low == nil && ref.High == nil {
				t.addVal(ref)
			}
		case *ssa.Store:
			if ref.Val == v {
				t.addPlace(ref.Addr, ref.Pos())
				if base, _, _ := baseOf(ref.Addr); !isLocalAlloc(base) {
					t.escape = append(t.escape, ref)
				}
			}
		case *ssa.Call:
			if bi, ok := ref.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && ref.Call.Args[0] == v {
				t.addVal(ref)
			}
		}
	}
}

// isLocalAlloc: a variable nothing else refers to.
func isLocalAlloc(v ssa.Value) bool {
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	seen := map[ssa.Value]bool{}
	var local func(v ssa.Value) bool
	local = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch ref := ref.(type) {
			case *ssa.DebugRef, *ssa.MakeClosure:
			case *ssa.UnOp:
				// a copy of a whole object takes the list along
				if _, ok := ref.Type().Underlying().(*types.Struct); ok {
					return false
				}
			case *ssa.Store:
				if ref.Val == v {
					return false
				}
			case *ssa.FieldAddr:
				if !local(ref) {
					return false
				}
			case *ssa.IndexAddr:
				if !local(ref) {
					return false
				}
			case *ssa.Slice:
			default:
				return false
			}
		}
		return true
	}
	return local(al)
}

func (t *listTaint) addPlace(addr ssa.Value, pos token.Pos) {
	key, base := placeKey(addr)
	if t.places[key] != nil {
		return
	}
	t.places[key] = base
	for _, b := range t.f.Blocks {
		for _, in := range b.Instrs {
			ld, ok := in.(*ssa.UnOp)
			if !ok || ld.Op != token.MUL {
				continue
			}
			if k, _ := placeKey(ld.X); k == key {
				t.addVal(ld)
			}
		}
	}
	if t.l != nil && !isLocalAlloc(base) {
		for b := range t.l.blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if k, _ := placeKey(s.Addr); k == key {
						t.escape = append(t.escape, s)
					}
				}
			}
		}
	}
}

// isSort tells whether a call sorts its argument completely.
func (t *listTaint) isSort(c *ssa.Call) bool {
	g := c.Call.StaticCallee()
	if g == nil {
		return false
	}
	switch calleeName(g) {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort", "slices.Sorted":
		return true
	case "sort.Sort", "sort.Stable":
		return t.total(c.Call.Args[0])
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		return t.total(c.Call.Args[1])
	}
	if t.o.inRepo[g] {
		for i, a := range c.Call.Args {
			if t.vals[a] && t.o.sortsParam(g, i) {
				return true
			}
		}
	}
	return false
}

// total: the comparison orders by the elements themselves or by one part of
// them, not by something several elements may share such as a length.
func (t *listTaint) total(less ssa.Value) bool {
	var f *ssa.Function
	switch x := less.(type) {
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && calleeName(g) == "sort.Reverse" {
			return t.total(x.Call.Args[0])
		}
	case *ssa.MakeClosure:
		f = x.Fn.(*ssa.Function)
	case *ssa.Function:
		f = x
	case *ssa.MakeInterface:
		ms := t.o.w.prog.MethodSets.MethodSet(x.X.Type())
		if sel := ms.Lookup(less.Parent().Pkg.Pkg, "Less"); sel != nil {
			f = t.o.w.prog.MethodValue(sel)
		}
	}
	if f == nil || f.Blocks == nil {
		return true
	}
	if f.Synthetic != "" {
		return true
	}
	direct := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.BinOp:
				switch in.Op {
				case token.LSS, token.GTR:
					if plainElem(in.X) && plainElem(in.Y) {
						direct = true
					}
				}
			case *ssa.Call:
				if g := in.Call.StaticCallee(); g != nil {
					switch calleeName(g) {
					case "strings.Compare", "cmp.Compare":
						if plainElem(in.Call.Args[0]) && plainElem(in.Call.Args[1]) {
							direct = true
						}
					}
				}
			}
		}
	}
	return direct
}

// plainElem: an element of a list, or a field of it.
func plainElem(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Parameter:
		return true
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		b, _ := x.Type().Underlying().(*types.Basic)
		return b != nil && b.Info()&(types.IsString|types.IsNumeric) != 0
	case *ssa.Field:
		return true
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && calleeName(g) == "(reflect.Value).String" {
			return true
		}
	}
	return false
}

// sortsParam: on every path the function sorts the list it is given.
func (o *orderLint) sortsParam(g *ssa.Function, i int) bool {
	if i >= len(g.Params) || len(g.Blocks) == 0 {
		return false
	}
	t := &listTaint{o: o, f: g, vals: map[ssa.Value]bool{}, places: map[string]ssa.Value{}}
	id := fmt.Sprintf("sorts %s %d", g, i)
	if o.visited[id] {
		return false
	}
	o.visited[id] = true
	t.addVal(g.Params[i])
	t.findSorts()
	o.visited[id] = false
	return len(t.sorts) > 0 && !t.exitUnsorted(g.Blocks[0], -1)
}

func (t *listTaint) findSorts() {
	for _, v := range append([]ssa.Value{}, t.order...) {
		if v.Referrers() == nil {
			continue
		}
		for _, ref := range *v.Referrers() {
			if c, ok := ref.(*ssa.Call); ok && t.isSort(c) {
				t.sorts = append(t.sorts, c)
			}
			// sort.Sort(sort.StringSlice(x)), sort.StringSlice(x).Sort()
			if c, ok := ref.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && strings.HasPrefix(calleeName(g), "(sort.") && g.Name() == "Sort" {
					t.sorts = append(t.sorts, c)
				}
			}
		}
	}
}

// exitUnsorted: the function can be left from there without sorting.
func (t *listTaint) exitUnsorted(b *ssa.BasicBlock, after int) bool {
	sorted := map[*ssa.BasicBlock]int{}
	for _, s := range t.sorts {
		i := instrPos(s)
		if j, ok := sorted[s.Block()]; !ok || i < j {
			sorted[s.Block()] = i
		}
	}
	if i, ok := sorted[b]; ok && i > after {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{b}
	first := true
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if !first {
			if seen[x] {
				continue
			}
			seen[x] = true
			if _, ok := sorted[x]; ok {
				continue
			}
		}
		first = false
		if len(x.Instrs) > 0 {
			if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok {
				return true
			}
		}
		work = append(work, x.Succs...)
	}
	return false
}

func instrPos(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

// sortedBefore: every path from the loop that filled the list to the
// instruction sorts it, unless it has at most one element.
func (t *listTaint) sortedBefore(in ssa.Instruction) bool {
	if len(t.sorts) == 0 {
		return false
	}
	sorted := map[*ssa.BasicBlock][]int{}
	for _, s := range t.sorts {
		if t.l != nil && t.l.blocks[s.Block()] {
			continue
		}
		if s == in {
			return true
		}
		sorted[s.Block()] = append(sorted[s.Block()], instrPos(s))
	}
	at := instrPos(in)
	for _, i := range sorted[in.Block()] {
		if i < at {
			return true
		}
	}
	origin := map[*ssa.BasicBlock]bool{t.f.Blocks[0]: true}
	if t.l != nil {
		for b := range t.l.blocks {
			origin[b] = true
		}
	} else if len(t.order) > 0 {
		if d, ok := t.order[0].(ssa.Instruction); ok {
			origin[d.Block()] = true
		}
	}
	if origin[in.Block()] {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{in.Block()}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		for _, p := range b.Preds {
			if t.atMostOne(p, b) || len(sorted[p]) > 0 {
				continue
			}
			if origin[p] {
				return false
			}
			work = append(work, p)
		}
	}
	return true
}

// atMostOne: the edge is taken only when the list has at most one element.
func (t *listTaint) atMostOne(p, b *ssa.BasicBlock) bool {
	iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok || p.Succs[0] == p.Succs[1] {
		return false
	}
	c, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	isLen := func(v ssa.Value) bool {
		call, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		bi, ok := call.Call.Value.(*ssa.Builtin)
		return ok && bi.Name() == "len" && t.vals[call.Call.Args[0]]
	}
	op, x, y := c.Op, c.X, c.Y
	if isLen(y) {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	k, ok := y.(*ssa.Const)
	if !isLen(x) || !ok || k.Value == nil {
		return false
	}
	n, ok := constant.Int64Val(k.Value)
	if !ok {
		return false
	}
	if p.Succs[1] == b { // the condition is false
		switch op {
		case token.GTR:
			return n <= 1
		case token.GEQ:
			return n <= 2
		case token.NEQ:
			return n <= 1
		}
		return false
	}
	switch op {
	case token.LSS:
		return n <= 2
	case token.LEQ:
		return n <= 1
	case token.EQL:
		return n <= 1
	}
	return false
}

func (t *listTaint) check() {
	t.findSorts()
	o, f := t.o, t.f
	// stores that outlive the function must be sorted before it returns
	for _, st := range t.escape {
		if t.sortedBefore(st) {
			continue
		}
		if t.exitUnsorted(st.Block(), instrPos(st)) {
			o.report(f, st.Pos(), "a list in the order in which %s were visited is stored without being sorted", t.src)
		}
	}
	for _, v := range t.order {
		if v.Referrers() == nil {
			continue
		}
		for _, ref := range *v.Referrers() {
			if t.sortedBefore(ref) {
				continue
			}
			t.use(v, ref)
		}
	}
}

func (t *listTaint) use(v ssa.Value, ref ssa.Instruction) {
	o, f := t.o, t.f
	inside := t.l != nil && t.l.blocks[ref.Block()]
	switch ref := ref.(type) {
	case *ssa.DebugRef, *ssa.Phi, *ssa.ChangeType, *ssa.MakeInterface:
		return
	case *ssa.Slice:
		if ref.X == v && !t.vals[ref] && !inside {
			o.root(f, ref, nil, t.src) // a part of it
		}
		return
	case *ssa.Store:
		if ref.Val == v {
			base, _, idx := baseOf(ref.Addr)
			if al, ok := base.(*ssa.Alloc); ok && len(idx) > 0 && al.Comment == "varargs" {
				o.report(f, t.pos(ref), "a list in the order in which %s were visited is used without being sorted", t.src)
			}
		}
		return
	case *ssa.BinOp:
		return // comparison with nil
	case *ssa.IndexAddr:
		if inside {
			return
		}
		loops := natLoops(f)
		l := innermost(loops, ref.Block())
		if l == nil {
			o.report(f, t.pos(ref), "an element of a list in the order in which %s were visited is used without the list being sorted", t.src)
			return
		}
		keys := map[ssa.Value]bool{}
		for _, r2 := range *ref.Referrers() {
			if ld, ok := r2.(*ssa.UnOp); ok {
				keys[ld] = true
			}
		}
		o.loop(f, l, keys, t.src)
	case *ssa.Return:
		for i, r := range ref.Results {
			if r == v {
				t.returned(i, ref.Pos())
			}
		}
	case *ssa.MakeClosure:
		return
	case *ssa.UnOp, *ssa.FieldAddr, *ssa.TypeAssert:
		return
	case *ssa.Call:
		c := &ref.Call
		if bi, ok := c.Value.(*ssa.Builtin); ok {
			if bi.Name() == "copy" && c.Args[1] == v && !inside {
				o.rootOf(f, c.Args[0], nil, t.src, ref.Pos())
			}
			if bi.Name() == "append" && !t.vals[ref] {
				o.root(f, ref, nil, t.src)
			}
			return
		}
		if inside {
			return // the loop's own rules apply
		}
		g := c.StaticCallee()
		if g != nil && o.inRepo[g] {
			for i, a := range c.Args {
				if a == v && i < len(g.Params) {
					p := g.Params[i]
					src := t.src
					o.work = append(o.work, func() { o.root(g, p, nil, src) })
				}
			}
			return
		}
		if g != nil {
			switch calleeName(g) {
			case "slices.Contains", "reflect.ValueOf", "reflect.DeepEqual":
				return
			case "slices.Collect", "slices.AppendSeq":
				o.root(f, ref, nil, t.src)
				return
			}
			if strings.HasPrefix(calleeName(g), "(sort.") || strings.HasPrefix(calleeName(g), "sort.") || strings.HasPrefix(calleeName(g), "slices.Sort") {
				o.report(f, t.pos(ref), "a list in the order in which %s were visited is sorted by something several of its elements may share", t.src)
				return
			}
		}
		o.report(f, t.pos(ref), "a list in the order in which %s were visited is used without being sorted", t.src)
	case *ssa.Range:
		return
	default:
		o.report(f, t.pos(ref), "a list in the order in which %s were visited is used without being sorted", t.src)
	}
}

func (t *listTaint) pos(in ssa.Instruction) token.Pos {
	if in.Pos().IsValid() {
		return in.Pos()
	}
	for _, x := range in.Block().Instrs {
		if x.Pos().IsValid() {
			return x.Pos()
		}
	}
	return t.f.Pos()
}

// returned: the callers get a list of unspecified order.
func (t *listTaint) returned(i int, pos token.Pos) {
	o, f := t.o, t.f
	calls := o.callers[f]
	if len(calls) == 0 {
		o.report(f, pos, "a list in the order in which %s were visited is returned without being sorted", t.src)
		return
	}
	src := t.src
	for _, c := range calls {
		c := c
		o.work = append(o.work, func() {
			if f.Signature.Results().Len() == 1 {
				o.root(c.Parent(), c, nil, src)
				return
			}
			for _, ref := range *c.Referrers() {
				if e, ok := ref.(*ssa.Extract); ok && e.Index == i {
					o.root(c.Parent(), e, nil, src)
				}
			}
		})
	}
}
