package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Lists that are extended: an append writes behind the end of its list when
// there is room.  Two appends to the same list then write to the same place,
// and what the first returned is changed by the second.  The value-flow
// analysis takes lists as values, which is right when every append is either
// to a list without room or to one that no other append extends.
//
// For each append the list it extends is followed to where it comes from:
// literals and decoded or fresh lists of a fixed length have no room, the
// result of an append has.  With room, it has to be the only append to that
// list: not executed again for the same list, and without a second one.

type appendSite struct {
	f    *ssa.Function
	call *ssa.Call
}

type aliasLint struct {
	w      *World
	fns    []*ssa.Function
	inRepo map[*ssa.Function]bool
	sites  []appendSite
	calls  map[*ssa.Function][]ssa.CallInstruction
	stores map[string][]*ssa.Store // by cell
	loops  map[*ssa.Function]map[*ssa.BasicBlock]*natLoop
	issues map[string]orderIssue
	exact  int
	linear int
}

func newAliasLint(w *World) *aliasLint {
	a := &aliasLint{w: w, inRepo: map[*ssa.Function]bool{}, calls: map[*ssa.Function][]ssa.CallInstruction{},
		stores: map[string][]*ssa.Store{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*natLoop{}, issues: map[string]orderIssue{}}
	a.fns = w.repoFns()
	for _, f := range a.fns {
		a.inRepo[f] = true
		a.loops[f] = natLoops(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if k := place(in.Addr); k != "" {
						a.stores[k] = append(a.stores[k], in)
					}
				case ssa.CallInstruction:
					if g := in.Common().StaticCallee(); g != nil {
						a.calls[g] = append(a.calls[g], in)
					}
					if c, ok := in.(*ssa.Call); ok && isAppend(c) {
						a.sites = append(a.sites, appendSite{f, c})
					}
				}
			}
		}
	}
	return a
}

func isAppend(c *ssa.Call) bool {
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "append"
}

// place names what an address denotes: a field, an element, a package
// variable; local variables are told apart by their allocation.
func place(addr ssa.Value) string {
	switch a := addr.(type) {
	case *ssa.Global:
		return "var " + a.String()
	case *ssa.Alloc:
		return fmt.Sprintf("local %s %s %d", a.Parent(), a.Name(), a.Pos())
	case *ssa.FreeVar:
		return fmt.Sprintf("captured %s %s", a.Parent(), a.Name())
	}
	return cell(addr)
}

// room tells whether the list may have room behind its end that another
// list could use as well.
func (a *aliasLint) room(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return false
	case *ssa.ChangeType:
		return a.room(v.X, seen)
	case *ssa.Convert:
		return true // text to bytes: the capacity is rounded up
	case *ssa.Phi:
		for _, e := range v.Edges {
			if a.room(e, seen) {
				return true
			}
		}
		return false
	case *ssa.MakeSlice:
		return v.Len != v.Cap && !sameConst(v.Len, v.Cap)
	case *ssa.Slice:
		if v.Max != nil {
			return v.Max != v.High && !sameConst(v.Max, v.High)
		}
		if v.High == nil {
			if _, ok := v.X.Type().Underlying().(*types.Pointer); ok {
				return false // all of an array
			}
			return a.room(v.X, seen)
		}
		return true
	case *ssa.Call:
		if isAppend(v) {
			return true
		}
		g := v.Call.StaticCallee()
		if g == nil {
			return v.Call.IsInvoke()
		}
		if a.inRepo[g] {
			return a.resultRoom(g, 0, seen)
		}
		switch calleeName(g) {
		case "(*bytes.Buffer).Bytes", "slices.Grow", "slices.Insert", "slices.Delete", "slices.Concat", "slices.Collect", "slices.Sorted",
			"slices.DeleteFunc", "slices.Compact", "io/ioutil.ReadAll", "io.ReadAll", "os.ReadFile", "io/ioutil.ReadFile":
			return true
		}
		return false
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			if g := c.Call.StaticCallee(); g != nil && a.inRepo[g] {
				return a.resultRoom(g, v.Index, seen)
			}
		}
		return false
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return false
		}
		for _, st := range a.stores[place(v.X)] {
			if a.room(st.Val, seen) {
				return true
			}
		}
		if fv, ok := v.X.(*ssa.FreeVar); ok {
			return a.capturedRoom(fv, seen)
		}
		return false
	case *ssa.FreeVar:
		return a.capturedRoom(v, seen)
	case *ssa.Parameter:
		f := v.Parent()
		i := -1
		for j, p := range f.Params {
			if p == v {
				i = j
			}
		}
		if f.Object() != nil && f.Object().Exported() && len(a.calls[f]) == 0 {
			return true
		}
		for _, c := range a.calls[f] {
			if i < len(c.Common().Args) && a.room(c.Common().Args[i], seen) {
				return true
			}
		}
		return f.Object() != nil && f.Object().Exported()
	}
	return false
}

func sameConst(x, y ssa.Value) bool {
	c, ok := x.(*ssa.Const)
	d, ok2 := y.(*ssa.Const)
	if ok && ok2 && c.Value != nil && d.Value != nil {
		return c.Int64() == d.Int64()
	}
	// len(x) computed twice
	lx, ok := x.(*ssa.Call)
	ly, ok2 := y.(*ssa.Call)
	if ok && ok2 {
		bx, ok := lx.Call.Value.(*ssa.Builtin)
		by, ok2 := ly.Call.Value.(*ssa.Builtin)
		return ok && ok2 && bx.Name() == "len" && by.Name() == "len" && lx.Call.Args[0] == ly.Call.Args[0]
	}
	return x == y
}

func (a *aliasLint) resultRoom(g *ssa.Function, i int, seen map[ssa.Value]bool) bool {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok && i < len(r.Results) && a.room(r.Results[i], seen) {
				return true
			}
		}
	}
	return false
}

func (a *aliasLint) capturedRoom(fv *ssa.FreeVar, seen map[ssa.Value]bool) bool {
	for _, f := range a.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mc, ok := in.(*ssa.MakeClosure)
				if !ok || mc.Fn != ssa.Value(fv.Parent()) {
					continue
				}
				for i, x := range fv.Parent().FreeVars {
					if x != fv {
						continue
					}
					if _, ok := x.Type().Underlying().(*types.Pointer); ok {
						for _, st := range a.stores[place(mc.Bindings[i])] {
							if a.room(st.Val, seen) {
								return true
							}
						}
					} else if a.room(mc.Bindings[i], seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

// origin is the value an append extends, without conversions.
func origin(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Slice:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				return v
			}
			if x.Max != nil {
				return v
			}
			v = x.X
		default:
			return v
		}
	}
}

func samePlace(x, y ssa.Value) bool {
	if x == y {
		return true
	}
	switch p := x.(type) {
	case *ssa.FieldAddr:
		q, ok := y.(*ssa.FieldAddr)
		return ok && p.Field == q.Field && samePlace(p.X, q.X)
	case *ssa.IndexAddr:
		q, ok := y.(*ssa.IndexAddr)
		return ok && p.Index == q.Index && samePlace(p.X, q.X)
	case *ssa.UnOp:
		q, ok := y.(*ssa.UnOp)
		return ok && p.Op == token.MUL && q.Op == token.MUL && samePlace(p.X, q.X)
	}
	return false
}

func (a *aliasLint) report(s appendSite, format string, args ...interface{}) {
	what := fmt.Sprintf(format, args...)
	a.issues[a.w.posn(s.call.Pos())+what] = orderIssue{s.call.Pos(), s.f, what}
}

func (a *aliasLint) run() {
	for _, s := range a.sites {
		base := s.call.Call.Args[0]
		if !a.room(base, map[ssa.Value]bool{}) {
			a.exact++
			continue
		}
		n := len(a.issues)
		a.site(s, origin(base))
		if len(a.issues) == n {
			a.linear++
		}
	}
}

func (a *aliasLint) site(s appendSite, o ssa.Value) {
	if l, ok := o.(*ssa.UnOp); ok && l.Op == token.MUL {
		a.loaded(s, l)
		return
	}
	if _, ok := o.(*ssa.Parameter); ok {
		a.passed(s, o.(*ssa.Parameter))
	}
	if _, ok := o.(*ssa.FreeVar); ok {
		a.report(s, "an append to a captured list that keeps its end: calls overwrite each other's entries")
		return
	}
	a.value(s, o, map[ssa.Value]bool{})
}

// value looks for other appends to the same value, and for the same append
// to it in another round of a loop.
func (a *aliasLint) value(s appendSite, o ssa.Value, seen map[ssa.Value]bool) {
	if seen[o] {
		return
	}
	seen[o] = true
	if phi, ok := o.(*ssa.Phi); ok {
		for _, l := range a.loops[s.f] {
			if l.blocks[s.call.Block()] && !l.blocks[phi.Block()] && !a.throughPhi(l, s.call, o) {
				a.report(s, "an append in a loop to a list made before it: the rounds overwrite each other's entries")
				return
			}
		}
		for _, e := range phi.Edges {
			e = origin(e)
			if !a.room(e, map[ssa.Value]bool{}) {
				continue
			}
			if c, ok := e.(*ssa.Call); ok && isAppend(c) && a.carried(phi, c) {
				a.others(s, e, seen)
				continue
			}
			a.value(s, e, seen)
		}
		a.others(s, phi, seen)
		return
	}
	// executed again for the same value?
	if in, ok := o.(ssa.Instruction); ok {
		for _, l := range a.loops[s.f] {
			if l.blocks[s.call.Block()] && !l.blocks[in.Block()] && !a.throughPhi(l, s.call, o) {
				a.report(s, "an append in a loop to a list made before it: the rounds overwrite each other's entries")
				return
			}
		}
	} else {
		for _, l := range a.loops[s.f] {
			if l.blocks[s.call.Block()] && !a.throughPhi(l, s.call, o) {
				a.report(s, "an append in a loop to a list made before it: the rounds overwrite each other's entries")
				return
			}
		}
	}
	a.others(s, o, seen)
}

// throughPhi tells whether the append extends the value through a variable
// that the loop carries on, so that each round extends what the last left.
func (a *aliasLint) throughPhi(l *natLoop, c *ssa.Call, o ssa.Value) bool {
	b := origin(c.Call.Args[0])
	work, seen := []ssa.Value{b}, map[ssa.Value]bool{}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[v] {
			continue
		}
		seen[v] = true
		phi, ok := v.(*ssa.Phi)
		if !ok {
			continue
		}
		if phi.Block() == l.head {
			return true
		}
		for _, e := range phi.Edges {
			work = append(work, origin(e))
		}
	}
	return false
}

// carried tells whether the phi's value is the append's own result carried
// around a loop.
func (a *aliasLint) carried(phi *ssa.Phi, c *ssa.Call) bool {
	seen := map[ssa.Value]bool{}
	var from func(v ssa.Value) bool
	from = func(v ssa.Value) bool {
		v = origin(v)
		if v == ssa.Value(phi) {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			for _, e := range v.Edges {
				if from(e) {
					return true
				}
			}
		case *ssa.Call:
			return isAppend(v) && from(v.Call.Args[0])
		}
		return false
	}
	return from(c)
}

// others looks for another append to the same value.
func (a *aliasLint) others(s appendSite, o ssa.Value, seen map[ssa.Value]bool) {
	for _, t := range a.sites {
		if t.call == s.call || t.f != s.f || origin(t.call.Call.Args[0]) != o {
			continue
		}
		if a.after(t.call, s.call, o) || a.after(s.call, t.call, o) {
			a.report(s, "two appends to the same list: the second overwrites entries of the first (%s)", a.w.posn(t.call.Pos()))
			return
		}
	}
}

// after tells whether y can be executed after x for the same value of o.
func (a *aliasLint) after(x, y ssa.Instruction, o ssa.Value) bool {
	if x.Block() == y.Block() {
		for _, in := range x.Block().Instrs {
			if in == x {
				return true
			}
			if in == y {
				break
			}
		}
	}
	// a path from x to y that does not define o again
	var stop *ssa.BasicBlock
	if in, ok := o.(ssa.Instruction); ok {
		stop = in.Block()
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, x.Block().Succs...)
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] || b == stop {
			continue
		}
		seen[b] = true
		if b == y.Block() {
			return true
		}
		work = append(work, b.Succs...)
	}
	return false
}

// loaded checks an append to the list kept in a place: the result goes back
// there, or nobody else extends it.
func (a *aliasLint) loaded(s appendSite, l *ssa.UnOp) {
	if a.storedBack(s.call, l.X, map[ssa.Value]bool{}) {
		return
	}
	a.report(s, "an append to the list kept in %s, which keeps its old end: a later append overwrites the entries", placeName(l.X))
}

func placeName(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		st := v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		return "field " + st.Field(v.Field).Name()
	case *ssa.IndexAddr:
		return "an element"
	}
	return v.Name()
}

// storedBack tells whether the result of an append ends up in the place its
// list was read from.
func (a *aliasLint) storedBack(v ssa.Value, addr ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Val == v && samePlace(r.Addr, addr) {
				return true
			}
		case *ssa.Call:
			if isAppend(r) && r.Call.Args[0] == v && a.storedBack(r, addr, seen) {
				return true
			}
		case *ssa.ChangeType:
			if a.storedBack(r, addr, seen) {
				return true
			}
		case *ssa.Phi:
			if a.storedBack(r, addr, seen) {
				return true
			}
		}
	}
	return false
}

// passed checks an append to a parameter: the callers extend the list they
// pass no further.
func (a *aliasLint) passed(s appendSite, p *ssa.Parameter) {
	f := p.Parent()
	i := 0
	for j, q := range f.Params {
		if q == p {
			i = j
		}
	}
	for _, c := range a.calls[f] {
		if i >= len(c.Common().Args) {
			continue
		}
		arg := c.Common().Args[i]
		if !a.room(arg, map[ssa.Value]bool{}) {
			continue
		}
		v, _ := c.(*ssa.Call)
		if v == nil {
			continue
		}
		o := origin(arg)
		if l, ok := o.(*ssa.UnOp); ok {
			if !a.storedBack(v, l.X, map[ssa.Value]bool{}) {
				a.report(s, "an append to a list that the caller keeps (%s)", a.w.posn(c.Pos()))
			}
			continue
		}
		fn := c.Parent()
		for _, l := range a.loops[fn] {
			in, isIn := o.(ssa.Instruction)
			if l.blocks[c.Block()] && (!isIn || !l.blocks[in.Block()]) {
				a.report(s, "an append in a loop to a list made before it (%s)", a.w.posn(c.Pos()))
			}
		}
		for _, t := range a.sites {
			if t.f == fn && origin(t.call.Call.Args[0]) == o && (a.after(t.call, c, o) || a.after(c, t.call, o)) {
				a.report(s, "an append to a list that the caller extends as well (%s)", a.w.posn(t.call.Pos()))
			}
		}
		for _, c2 := range a.calls[f] {
			if c2 != c && c2.Parent() == fn && origin(c2.Common().Args[i]) == o && (a.after(c, c2, o) || a.after(c2, c, o)) {
				a.report(s, "an append to a list that is passed twice (%s)", a.w.posn(c2.Pos()))
			}
		}
	}
}

func init() {
	register(&Check{id: "G03", minObs: 20,
		rule: "ownership analysis of the lists extended by append over the SSA form of the whole module: the list either has no room behind its end (a literal, a list of fixed length, decoded) or is extended by this append only, in one round of a loop, and its owner takes the result",
		run: func(c *Ctx) {
			a := newAliasLint(c.w)
			a.run()
			var keys []string
			for k := range a.issues {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			bad := map[token.Pos]bool{}
			for _, k := range keys {
				is := a.issues[k]
				where := c.w.posn(is.pos) + " (" + shortType(is.fn.String()) + ")"
				c.ob("list "+where, false, where, is.what)
				bad[is.pos] = true
			}
			for _, s := range a.sites {
				c.extraFns[s.f.String()] = true
				if !bad[s.call.Pos()] {
					c.ob("append "+c.w.posn(s.call.Pos()), true, c.w.posn(s.call.Pos()), "")
				}
			}
			c.notes = append(c.notes, fmt.Sprintf("%d appends: %d to lists without room, %d the only one", len(a.sites), a.exact, a.linear))
		}})
}
