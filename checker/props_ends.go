package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// endsLint shows that every loop and every recursion of the module ends.
type endsLint struct {
	w      *World
	fns    []*ssa.Function
	inRepo map[*ssa.Function]bool
	writes map[*ssa.Function]map[string]bool // fields and variables a function may assign, calls included
	edges  map[*ssa.Function][]recEdge
	cells  map[*ssa.Alloc][]ssa.Value

	calledBy map[*ssa.Function][]recEdge
}

// recEdge is a call that may be part of a recursion. Arc i->j says that
// argument j of the callee is (part of) parameter i of the caller.
type recEdge struct {
	from, to *ssa.Function
	arcs     map[[2]int]bool // true: a proper part
	pos      token.Pos
	what     string
	args     []ssa.Value
	need     map[int]types.Type // the dynamic types of the caller's parameters
	give     map[int]types.Type // and of the callee's
}

func newEndsLint(w *World) *endsLint {
	e := &endsLint{w: w, fns: w.repoFns(), inRepo: map[*ssa.Function]bool{}, edges: map[*ssa.Function][]recEdge{}, cells: map[*ssa.Alloc][]ssa.Value{}, calledBy: map[*ssa.Function][]recEdge{}}
	for _, f := range e.fns {
		e.inRepo[f] = true
	}
	for _, f := range e.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if a, ok := st.Addr.(*ssa.Alloc); ok {
						e.cells[a] = append(e.cells[a], st.Val)
					}
				}
			}
		}
	}
	for _, f := range e.fns {
		e.calls(f)
	}
	e.effects()
	return e
}

// --- loops -------------------------------------------------------------------

// place names what an address refers to: a field of a type, a variable.
func cellName(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		return fmt.Sprintf("%s.%d", v.X.Type().Underlying().(*types.Pointer).Elem().String(), v.Field)
	case *ssa.Global:
		return v.String()
	case *ssa.Alloc, *ssa.FreeVar, *ssa.Parameter:
		return v.Name() + "@" + v.Parent().String()
	}
	return "*" + v.Type().String()
}

func (e *endsLint) effects() {
	e.writes = map[*ssa.Function]map[string]bool{}
	for _, f := range e.fns {
		set := map[string]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					set[cellName(st.Addr)] = true
				}
			}
		}
		e.writes[f] = set
	}
	for again := true; again; {
		again = false
		for _, f := range e.fns {
			for _, ed := range e.edges[f] {
				for k := range e.writes[ed.to] {
					if !e.writes[f][k] {
						e.writes[f][k] = true
						again = true
					}
				}
			}
		}
	}
}

// assigned says whether the rounds of a loop may assign to a place.
func (e *endsLint) assigned(l *loopInfo, pl string) bool {
	f := l.header.Parent()
	for b := range l.blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if cellName(in.Addr) == pl {
					return true
				}
			case ssa.CallInstruction:
				for _, ed := range e.edges[f] {
					if ed.pos == in.Pos() && e.writes[ed.to][pl] {
						return true
					}
				}
			}
		}
	}
	return false
}

// steady says whether a value is the same in every round of a loop.
func (e *endsLint) steady(v ssa.Value, l *loopInfo) bool {
	in, ok := v.(ssa.Instruction)
	if !ok || !l.blocks[in.Block()] {
		return true
	}
	switch v := v.(type) {
	case *ssa.BinOp:
		return e.steady(v.X, l) && e.steady(v.Y, l)
	case *ssa.FieldAddr:
		return e.steady(v.X, l)
	case *ssa.Field:
		return e.steady(v.X, l)
	case *ssa.Convert:
		return e.steady(v.X, l)
	case *ssa.ChangeType:
		return e.steady(v.X, l)
	case *ssa.Slice:
		return e.steady(v.X, l) && (v.Low == nil || e.steady(v.Low, l)) && (v.High == nil || e.steady(v.High, l))
	case *ssa.IndexAddr:
		return e.steady(v.X, l) && e.steady(v.Index, l)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return e.steady(v.X, l) && !e.assigned(l, cellName(v.X))
		}
		return e.steady(v.X, l)
	case *ssa.Call:
		if b, ok := builtin(v); ok && (b == "len" || b == "cap" || b == "min" || b == "max") {
			for _, a := range v.Call.Args {
				if !e.steady(a, l) {
					return false
				}
			}
			return true
		}
		// a query without effect on what is not changed
		if g := v.Call.StaticCallee(); g != nil {
			if e.inRepo[g] && len(e.writes[g]) > 0 {
				return false
			}
			for _, a := range v.Call.Args {
				if !e.steady(a, l) {
					return false
				}
			}
			return e.inRepo[g] || pureQuery(g)
		}
	}
	return false
}

func pureQuery(g *ssa.Function) bool {
	if g.Pkg == nil {
		return false
	}
	switch g.Pkg.Pkg.Path() {
	case "strings", "bytes", "path", "path/filepath", "unicode", "unicode/utf8", "strconv":
		return g.Signature.Recv() == nil
	case "reflect":
		return true
	}
	return false
}

// toward gives the direction in which every round moves an index: the phi's
// values in the next round are the phi plus a positive (or negative) constant.
func (e *endsLint) toward(v ssa.Value, l *loopInfo) (dir int) {
	dir, _ = e.moves(v, l, map[ssa.Value]bool{})
	return dir
}

// base strips constants added to an index.
func base(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.BinOp:
			if _, ok := x.Y.(*ssa.Const); ok && (x.Op == token.ADD || x.Op == token.SUB) {
				v = x.X
				continue
			}
		case *ssa.Convert:
			if isInt(x.Type()) && isInt(x.X.Type()) {
				v = x.X
				continue
			}
		}
		return v
	}
}

func (e *endsLint) moves(v ssa.Value, l *loopInfo, seen map[ssa.Value]bool) (int, bool) {
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.QUO || b.Op == token.SHR) {
		v = b.X
	}
	phi, ok := base(v).(*ssa.Phi)
	if !ok || phi.Block() != l.header {
		return 0, false
	}
	dir := 0
	for i, e2 := range predEdges(l.header) {
		if !l.blocks[e2.b] {
			continue
		}
		d, ok := e.delta(phi.Edges[i], phi, l, map[ssa.Value]bool{})
		if !ok || d == 0 || dir != 0 && d != dir {
			return 0, false
		}
		dir = d
	}
	return dir, dir != 0
}

// delta is the sign of v - phi, where v is computed in a round from phi; 2 if
// v is the shorter rest of a list or text.
func (e *endsLint) delta(v ssa.Value, phi *ssa.Phi, l *loopInfo, seen map[ssa.Value]bool) (int, bool) {
	if v == phi {
		return 0, true
	}
	if seen[v] {
		return 0, true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.BinOp:
		d, ok := e.delta(x.X, phi, l, seen)
		c, isC := x.Y.(*ssa.Const)
		if x.Op == token.QUO || x.Op == token.SHR {
			if ok && d == 0 && isC && c.Value != nil && constant.Sign(c.Value) > 0 && !(x.Op == token.QUO && c.Int64() == 1) {
				return -1, true
			}
			return 0, false
		}
		if !ok && x.Op == token.ADD {
			d, ok = e.delta(x.Y, phi, l, seen)
			if cx, is := x.X.(*ssa.Const); is {
				c, isC = cx, true
			}
		}
		if !ok {
			return 0, false
		}
		s := 0
		switch {
		case isC && c.Value != nil && isInt(c.Type()):
			s = constant.Sign(c.Value)
		case d == 0 && e.width(x.Y):
			s = 1
		case d == 0 && x.Op == token.ADD && e.width(x.X):
			s = 1
		default:
			return 0, false
		}
		switch x.Op {
		case token.SUB:
			s = -s
		case token.ADD:
		default:
			return 0, false
		}
		if d != 0 && s != 0 && d != s {
			return 0, false
		}
		if s == 0 {
			s = d
		}
		return s, true
	case *ssa.Phi:
		if !l.blocks[x.Block()] {
			return 0, false
		}
		inner := x.Block() != l.header && cfgOf(x.Parent()).loops[x.Block()] != nil
		dir, first := 0, true
		for i, ed := range x.Edges {
			d, ok := e.delta(ed, phi, l, seen)
			if !ok {
				return 0, false
			}
			if inner && cfgOf(x.Parent()).loops[x.Block()].blocks[x.Block().Preds[i]] {
				// what an inner loop adds only counts if it agrees
				if d != 0 && dir != 0 && d != dir {
					return 0, false
				}
				continue
			}
			if !first && d != dir {
				return 0, false
			}
			dir, first = d, false
		}
		return dir, true
	case *ssa.Slice:
		d, ok := e.delta(x.X, phi, l, seen)
		if !ok {
			return 0, false
		}
		if c, isC := x.Low.(*ssa.Const); isC && c.Value != nil && constant.Sign(c.Value) > 0 {
			return 2, true
		}
		if x.High != nil && lessThanLen(x.High, x.X) {
			return 2, true
		}
		if d == 2 {
			return 2, true
		}
		if x.Low != nil && e.width(x.Low) {
			return 2, true
		}
		if b, ok := x.Low.(*ssa.BinOp); ok && b.Op == token.ADD {
			// past something found: i+1, i+len(sep)
			return 2, true
		}
		return 0, false
	case *ssa.Extract:
		// what is left after a separator
		if call, ok := x.Tuple.(*ssa.Call); ok && x.Index == 1 {
			if g := call.Call.StaticCallee(); g != nil && (g.String() == "strings.Cut" || g.String() == "bytes.Cut") {
				if _, ok := e.delta(call.Call.Args[0], phi, l, seen); ok {
					return 2, true
				}
			}
		}
	case *ssa.Call:
		// what is left of a text that has the prefix
		if g := x.Call.StaticCallee(); g != nil && (g.String() == "strings.Replace" || g.String() == "strings.ReplaceAll") {
			from, ok1 := text(x.Call.Args[1])
			to, ok2 := text(x.Call.Args[2])
			if _, ok := e.delta(x.Call.Args[0], phi, l, seen); ok && ok1 && ok2 && from != "" && !strings.Contains(to, from) {
				return 2, true
			}
		}
		if g := x.Call.StaticCallee(); g != nil && g.Pkg != nil && (g.Pkg.Pkg.Path() == "strings" || g.Pkg.Pkg.Path() == "bytes") && strings.HasPrefix(g.Name(), "Trim") && len(x.Call.Args) > 0 {
			if _, ok := e.delta(x.Call.Args[0], phi, l, seen); ok {
				return 2, true
			}
		}
	}
	return 0, false
}

func text(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

// width recognises the length of a text that is not empty.
func (e *endsLint) width(v ssa.Value) bool { return e.widthAt(v, 0) }

func (e *endsLint) widthAt(v ssa.Value, level int) bool {
	if level > 4 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Phi:
		for _, x := range v.Edges {
			if call, ok := x.(*ssa.Call); ok {
				// all that is left
				if n, ok := builtin(call); ok && n == "len" {
					if _, ok := call.Call.Args[0].(*ssa.Phi); ok {
						continue
					}
				}
			}
			if !e.widthAt(x, level+1) {
				return false
			}
		}
		return len(v.Edges) > 0
	case *ssa.Extract:
		if call, ok := v.Tuple.(*ssa.Call); ok && v.Index == 1 {
			g := call.Call.StaticCallee()
			return g != nil && strings.HasPrefix(g.String(), "unicode/utf8.Decode")
		}
	case *ssa.Call:
		if n, ok := builtin(v); ok && n == "len" {
			c, ok := v.Call.Args[0].(*ssa.Const)
			return ok && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) != ""
		}
	}
	return e.positive(v, 0)
}

// positive says whether a number is more than zero whenever it is used.
func (e *endsLint) positive(v ssa.Value, level int) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value != nil && v.Value.Kind() == constant.Int && constant.Sign(v.Value) > 0
	case *ssa.Convert:
		return isInt(v.Type()) && isInt(v.X.Type()) && e.positive(v.X, level)
	case *ssa.BinOp:
		return (v.Op == token.ADD || v.Op == token.MUL) && e.positive(v.X, level) && e.positive(v.Y, level)
	case *ssa.UnOp:
		if a, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
			for _, x := range e.cells[a] {
				if !e.positive(x, level) {
					return false
				}
			}
			return len(e.cells[a]) > 0
		}
	case *ssa.Parameter:
		f := v.Parent()
		if level > 3 || token.IsExported(f.Name()) && f.Parent() == nil {
			return false
		}
		n := 0
		for _, ed := range e.calledBy[f] {
			if ed.args == nil {
				return false
			}
			for j, p := range f.Params {
				if p == v {
					if j >= len(ed.args) || ed.args[j] == nil || !e.positive(ed.args[j], level+1) {
						return false
					}
					n++
				}
			}
		}
		return n > 0
	}
	return false
}

// lessThanLen recognises len(x)-c.
func lessThanLen(v, x ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.SUB {
		return false
	}
	c, ok := b.Y.(*ssa.Const)
	if !ok || c.Value == nil || constant.Sign(c.Value) <= 0 {
		return false
	}
	call, ok := b.X.(*ssa.Call)
	n, is := builtin(call)
	return ok && is && n == "len" && call.Call.Args[0] == x
}

// ends says how a loop ends, or "" if that is not known.
func (e *endsLint) ends(l *loopInfo) string {
	every := func(b *ssa.BasicBlock) bool {
		for _, p := range l.header.Preds {
			if l.blocks[p] && !b.Dominates(p) {
				return false
			}
		}
		return true
	}
	inner := cfgOf(l.header.Parent()).inner
	why := ""
	leaves := false
	for _, b := range l.header.Parent().Blocks {
		if !l.blocks[b] {
			continue
		}
		for _, s := range b.Succs {
			if !l.blocks[s] {
				leaves = true
			}
		}
		if len(b.Succs) == 0 {
			leaves = true
		}
		if inner[b] != l || !every(b) {
			continue
		}
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil && c.Call.StaticCallee().String() == "crypto/rand.Read" {
				why = "waits for random bytes"
			}
		}
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		out := -1
		for i, s := range b.Succs {
			if !l.blocks[s] {
				out = i
			}
		}
		if out < 0 {
			continue
		}
		if w := e.measure(ifi.Cond, out == 0, l); w != "" {
			return w
		}
	}
	if leaves {
		return why
	}
	return ""
}

// measure says why a condition eventually has the value that ends the loop.
func (e *endsLint) measure(c ssa.Value, onTrue bool, l *loopInfo) string {
	switch c := c.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return e.measure(c.X, !onTrue, l)
		}
	case *ssa.Extract:
		if nx, ok := c.Tuple.(*ssa.Next); ok && c.Index == 0 && !onTrue {
			if r, ok := nx.Iter.(*ssa.Range); ok && !l.blocks[r.Block()] {
				return "ranges over a map or text"
			}
		}
		if call, ok := c.Tuple.(*ssa.Call); ok && !onTrue && readsInput(call) {
			return "reads its input to the end"
		}
	case *ssa.Call:
		if !onTrue && readsInput(c) {
			return "reads its input to the end"
		}
		if !onTrue && e.asks(c, l) {
			return "takes from a text"
		}
	case *ssa.BinOp:
		x, y, op := c.X, c.Y, c.Op
		if onTrue {
			neg := map[token.Token]token.Token{token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.LSS: token.GEQ, token.EQL: token.NEQ, token.NEQ: token.EQL}
			op = neg[op]
		}
		// op: the condition under which the loop goes on
		flip := map[token.Token]token.Token{token.GEQ: token.LEQ, token.GTR: token.LSS, token.LEQ: token.GEQ, token.LSS: token.GTR, token.EQL: token.EQL, token.NEQ: token.NEQ}
		for i := 0; i < 2; i++ {
			if w := e.compare(x, op, y, l); w != "" {
				return w
			}
			x, y, op = y, x, flip[op]
		}
	}
	return ""
}

func (e *endsLint) compare(x ssa.Value, op token.Token, y ssa.Value, l *loopInfo) string {
	if call, ok := x.(*ssa.Call); ok && op != token.EQL && e.asks(call, l) {
		return "takes from a text"
	}
	// the rest of a list or text
	if call, ok := x.(*ssa.Call); ok {
		if n, is := builtin(call); is && n == "len" && (op == token.GTR || op == token.GEQ || op == token.NEQ) && e.steady(y, l) {
			if e.toward(call.Call.Args[0], l) == 2 {
				return "takes from a list"
			}
		}
	}
	if ex, ok := x.(*ssa.Extract); ok && op == token.EQL {
		if call, ok := ex.Tuple.(*ssa.Call); ok && readsInput(call) {
			if k, ok := y.(*ssa.Const); ok && k.IsNil() {
				return "reads its input to the end"
			}
		}
	}
	if op == token.NEQ && e.toward(x, l) == 2 {
		return "takes from a text"
	}
	if !isInt(x.Type()) || !e.steady(y, l) {
		return ""
	}
	switch d := e.toward(x, l); {
	case d == 1 && (op == token.LSS || op == token.LEQ || op == token.NEQ):
		return "counts up to a bound"
	case d == -1 && (op == token.GTR || op == token.GEQ || op == token.NEQ):
		return "counts down to a bound"
	}
	return ""
}

// asks says whether a call searches the text that the rounds of a loop take from.
func (e *endsLint) asks(c *ssa.Call, l *loopInfo) bool {
	g := c.Call.StaticCallee()
	if g == nil || g.Pkg == nil || len(c.Call.Args) == 0 || g.Pkg.Pkg.Path() != "strings" && g.Pkg.Pkg.Path() != "bytes" {
		return false
	}
	return e.toward(c.Call.Args[0], l) == 2
}

// reads says whether a call takes more of a finite input.
func readsInput(c *ssa.Call) bool {
	g := c.Call.StaticCallee()
	name := ""
	switch {
	case g != nil && g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath):
		name = g.Name()
	case c.Call.IsInvoke():
		name = c.Call.Method.Name()
	}
	switch name {
	case "Scan", "Decode", "ReadString", "ReadBytes", "ReadLine", "ReadByte", "ReadRune", "Read", "Next", "ReadSlice", "Token":
		return true
	}
	return false
}

// --- recursion -----------------------------------------------------------------

// params numbers the parameters of a function and then what a closure holds.
func params(f *ssa.Function) []ssa.Value {
	var out []ssa.Value
	for _, p := range f.Params {
		out = append(out, p)
	}
	for _, v := range f.FreeVars {
		out = append(out, v)
	}
	return out
}

// derived says that a value is a part of a parameter, that many levels down
// (a value put into a new one is one level up).
type derived struct {
	param int // -1: unknown, -2: none (a constant)
	depth int
}

func (e *endsLint) from(v ssa.Value, seen map[ssa.Value]bool) derived {
	unknown := derived{-1, 0}
	if seen[v] {
		return derived{-2, 0}
	}
	seen[v] = true
	part := func(x ssa.Value) derived {
		d := e.from(x, seen)
		d.depth++
		return d
	}
	whole := func(d derived) derived {
		d.depth--
		return d
	}
	join := func(vs []ssa.Value) derived {
		out := derived{-2, 0}
		for _, x := range vs {
			d := e.from(x, seen)
			switch {
			case d.param == -2:
			case d.param == -1 || out.param >= 0 && out.param != d.param:
				return unknown
			case out.param == -2 || d.depth < out.depth:
				out = d
			}
		}
		return out
	}
	switch x := v.(type) {
	case *ssa.Const:
		return derived{-2, 0}
	case *ssa.Parameter, *ssa.FreeVar:
		for i, p := range params(v.Parent()) {
			if p == v {
				return derived{i, 0}
			}
		}
	case *ssa.FieldAddr:
		return part(x.X)
	case *ssa.Field:
		return part(x.X)
	case *ssa.IndexAddr:
		return part(x.X)
	case *ssa.Index:
		return part(x.X)
	case *ssa.Lookup:
		return part(x.X)
	case *ssa.Range:
		return e.from(x.X, seen)
	case *ssa.Next:
		return part(x.Iter)
	case *ssa.Extract:
		return e.from(x.Tuple, seen)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return e.from(x.X, seen)
		}
	case *ssa.Alloc:
		if vs := e.cells[x]; len(vs) > 0 {
			return join(vs)
		}
		var vs []ssa.Value
		for _, r := range *x.Referrers() {
			fa, ok := r.(ssa.Value)
			if !ok {
				continue
			}
			switch fa.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr:
				for _, r := range *fa.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == fa {
						vs = append(vs, st.Val)
					}
				}
			}
		}
		if len(vs) > 0 {
			return whole(join(vs))
		}
		return unknown
	case *ssa.MakeMap:
		var vs []ssa.Value
		for _, r := range *x.Referrers() {
			if mu, ok := r.(*ssa.MapUpdate); ok && mu.Map == x {
				vs = append(vs, mu.Value)
			}
		}
		if len(vs) > 0 {
			return whole(join(vs))
		}
		return derived{-2, 0}
	case *ssa.Phi:
		return join(x.Edges)
	case *ssa.MakeInterface:
		return e.from(x.X, seen)
	case *ssa.ChangeInterface:
		return e.from(x.X, seen)
	case *ssa.ChangeType:
		return e.from(x.X, seen)
	case *ssa.Convert:
		return e.from(x.X, seen)
	case *ssa.TypeAssert:
		return e.from(x.X, seen)
	case *ssa.Slice:
		if c, ok := x.Low.(*ssa.Const); ok && c.Value != nil && constant.Sign(c.Value) > 0 {
			return part(x.X)
		}
		if x.High != nil && lessThanLen(x.High, x.X) {
			return part(x.X)
		}
		return e.from(x.X, seen)
	case *ssa.BinOp:
		if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil && isInt(c.Type()) && x.Op == token.SUB && constant.Sign(c.Value) > 0 {
			return part(x.X)
		}
	case *ssa.Call:
		if b, ok := builtin(x); ok && b == "append" {
			return join(x.Call.Args)
		}
		if g := x.Call.StaticCallee(); g != nil && len(x.Call.Args) > 0 {
			if g.Pkg != nil && g.Pkg.Pkg.Path() == "reflect" {
				switch g.Name() {
				case "Elem", "Index", "Field", "FieldByName", "MapIndex", "MapKeys", "MapRange", "Key", "Value":
					return part(x.Call.Args[0])
				}
				return e.from(x.Call.Args[0], seen)
			}
			// what a function makes from its arguments is no larger than they are
			if e.inRepo[g] {
				return join(x.Call.Args)
			}
		}
	}
	return unknown
}

// needs gives the dynamic types that parameters have where a block is reached.
func (e *endsLint) needs(f *ssa.Function, b *ssa.BasicBlock) map[int]types.Type {
	out := map[int]types.Type{}
	for i, p := range f.Params {
		refs := p.Referrers()
		if refs == nil {
			continue
		}
		for _, r := range *refs {
			ta, ok := r.(*ssa.TypeAssert)
			if !ok || types.IsInterface(ta.AssertedType) {
				continue
			}
			if !ta.CommaOk {
				if ta.Block().Dominates(b) && ta.Block() != b {
					out[i] = ta.AssertedType
				}
				continue
			}
			for _, r := range *ta.Referrers() {
				ex, ok := r.(*ssa.Extract)
				if !ok || ex.Index != 1 {
					continue
				}
				for _, r := range *ex.Referrers() {
					ifi, ok := r.(*ssa.If)
					if !ok {
						continue
					}
					if then := ifi.Block().Succs[0]; len(then.Preds) == 1 && then.Dominates(b) {
						out[i] = ta.AssertedType
					}
				}
			}
		}
	}
	return out
}

func (e *endsLint) add(f, g *ssa.Function, b *ssa.BasicBlock, args []ssa.Value, pos token.Pos, what string) {
	if g == nil || !e.inRepo[g] {
		return
	}
	arcs := map[[2]int]bool{}
	for j, a := range args {
		if a == nil {
			continue
		}
		if d := e.from(a, map[ssa.Value]bool{}); d.param >= 0 && d.depth >= 0 {
			arcs[[2]int{d.param, j}] = d.depth > 0
		}
	}
	give := map[int]types.Type{}
	for j, a := range args {
		if mi, ok := a.(*ssa.MakeInterface); ok {
			give[j] = mi.X.Type()
		}
	}
	e.edges[f] = append(e.edges[f], recEdge{from: f, to: g, arcs: arcs, pos: pos, what: what, args: args, need: e.needs(f, b), give: give})
	e.calledBy[g] = append(e.calledBy[g], e.edges[f][len(e.edges[f])-1])
}

// declared gives the function of the module that a method of a type runs,
// wrappers of embedded fields undone.
func (e *endsLint) declared(t types.Type, name string) *ssa.Function {
	if types.IsInterface(t) {
		return nil
	}
	for _, t := range []types.Type{t} {
		ms := e.w.prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() != name {
				continue
			}
			fn, _ := ms.At(i).Obj().(*types.Func)
			if fn == nil {
				return nil
			}
			if g := e.w.prog.FuncValue(fn); g != nil && e.inRepo[g] {
				return g
			}
		}
	}
	return nil
}

func (e *endsLint) calls(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok {
				g := mc.Fn.(*ssa.Function)
				args := make([]ssa.Value, len(g.Params))
				e.add(f, g, b, append(args, mc.Bindings...), in.Pos(), "")
				continue
			}
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						e.add(f, g, b, nil, in.Pos(), "")
					}
				}
				// what a MarshalYAML method returns is encoded in turn
				if r, ok := in.(*ssa.Return); ok && (f.Name() == "MarshalYAML" || f.Name() == "MarshalText") && len(r.Results) > 0 {
					e.returned(f, b, r.Results[0], f.Name(), r.Pos())
				}
				continue
			}
			c := call.Common()
			for _, a := range c.Args {
				if g, ok := a.(*ssa.Function); ok {
					e.add(f, g, b, nil, in.Pos(), "")
				}
			}
			if c.IsInvoke() {
				for _, g := range e.fns {
					if g.Name() != c.Method.Name() || g.Signature.Recv() == nil {
						continue
					}
					it, _ := c.Value.Type().Underlying().(*types.Interface)
					if it != nil && types.Implements(g.Signature.Recv().Type(), it) {
						e.add(f, g, b, append([]ssa.Value{c.Value}, c.Args...), in.Pos(), "")
					}
				}
				continue
			}
			g := c.StaticCallee()
			if g != nil && e.inRepo[g] {
				if _, isMC := c.Value.(*ssa.MakeClosure); !isMC {
					e.add(f, g, b, c.Args, in.Pos(), "")
				}
				continue
			}
			name := "function value"
			if g != nil {
				if g.Pkg == nil {
					continue
				}
				name = g.Pkg.Pkg.Path() + "." + g.Name()
			} else if _, ok := c.Value.(*ssa.Builtin); ok {
				continue
			}
			for _, a := range c.Args {
				switch {
				case g == nil || strings.HasSuffix(name, "Unmarshal") || strings.HasSuffix(name, "Decode") || strings.HasSuffix(name, "UnmarshalStrict"):
					if mi, ok := a.(*ssa.MakeInterface); ok {
						for _, m := range []string{"UnmarshalYAML", "UnmarshalJSON", "UnmarshalText"} {
							// the library follows pointers, and takes the address of what it fills
							t := mi.X.Type()
							for isPtr(t) {
								t = deref(t)
							}
							if types.IsInterface(t) {
								continue
							}
							if h := e.declared(types.NewPointer(t), m); h != nil {
								e.add(f, h, b, nil, in.Pos(), "decodes into a "+shortType(mi.X.Type().String())+", which decodes itself by this method")
							}
						}
					}
				case strings.HasSuffix(name, "Marshal") || strings.HasSuffix(name, "Encode") || strings.HasSuffix(name, "MarshalIndent"):
					for _, m := range []string{"MarshalYAML", "MarshalJSON", "MarshalText"} {
						e.encoded(f, b, a, m, in.Pos())
					}
				}
			}
			if strings.HasPrefix(name, "fmt.") {
				e.printed(f, b, c, in.Pos())
			}
		}
	}
}

func (e *endsLint) encoded(f *ssa.Function, b *ssa.BasicBlock, v ssa.Value, method string, pos token.Pos) {
	for _, mi := range boxes(v, map[ssa.Value]bool{}) {
		if h := e.declared(mi.X.Type(), method); h != nil {
			e.add(f, h, b, []ssa.Value{mi.X}, pos, "encodes a "+shortType(mi.X.Type().String())+", which encodes itself by this method")
		}
	}
}

// returned: what a MarshalYAML method returns is encoded without asking the
// value itself again, but asking what it points to and its entries.
func (e *endsLint) returned(f *ssa.Function, b *ssa.BasicBlock, v ssa.Value, method string, pos token.Pos) {
	for _, mi := range boxes(v, map[ssa.Value]bool{}) {
		t := mi.X.Type()
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			if h := e.declared(u.Elem(), method); h != nil {
				e.add(f, h, b, []ssa.Value{mi.X}, pos, "returns a "+shortType(t.String())+", which encodes itself by this method")
			}
		case *types.Slice, *types.Map, *types.Array:
			if h := e.declared(elemType(t), method); h != nil {
				args := entries(mi.X)
				if len(args) == 0 {
					e.add(f, h, b, nil, pos, "returns a "+shortType(t.String())+", whose entries encode themselves by this method")
				}
				for _, a := range args {
					e.add(f, h, b, []ssa.Value{a}, pos, "returns a "+shortType(t.String())+", whose entries encode themselves by this method")
				}
			}
			for _, a := range entries(mi.X) {
				e.encoded(f, b, a, method, pos)
			}
		}
	}
}

// entries lists what is stored in a list or map that is built here.
func entries(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	switch v := v.(type) {
	case *ssa.MakeMap:
		for _, r := range *v.Referrers() {
			if mu, ok := r.(*ssa.MapUpdate); ok && mu.Map == v {
				out = append(out, mu.Value)
			}
		}
	case *ssa.Slice:
		al, ok := v.X.(*ssa.Alloc)
		if !ok {
			return nil
		}
		for _, r := range *al.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, r := range *ia.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ia {
					out = append(out, st.Val)
				}
			}
		}
	}
	return out
}

func boxes(v ssa.Value, seen map[ssa.Value]bool) []*ssa.MakeInterface {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return []*ssa.MakeInterface{v}
	case *ssa.Phi:
		var out []*ssa.MakeInterface
		for _, x := range v.Edges {
			out = append(out, boxes(x, seen)...)
		}
		return out
	}
	return nil
}

// printed: fmt calls the String or Error method of what it is given.
func (e *endsLint) printed(f *ssa.Function, b *ssa.BasicBlock, c *ssa.CallCommon, pos token.Pos) {
	for _, a := range c.Args {
		for _, x := range entries(a) {
			for _, mi := range boxes(x, map[ssa.Value]bool{}) {
				for _, m := range []string{"String", "Error"} {
					if h := e.declared(mi.X.Type(), m); h != nil {
						e.add(f, h, b, []ssa.Value{mi.X}, pos, "prints a "+shortType(mi.X.Type().String())+", which is printed by this method")
					}
				}
			}
		}
	}
}

// components finds the groups of functions that may call each other.
func (e *endsLint) components() map[*ssa.Function]int {
	index, low, comp := map[*ssa.Function]int{}, map[*ssa.Function]int{}, map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	n, k := 0, 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		index[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		for _, ed := range e.edges[f] {
			if index[ed.to] == 0 {
				visit(ed.to)
				if low[ed.to] < low[f] {
					low[f] = low[ed.to]
				}
			} else if on[ed.to] && index[ed.to] < low[f] {
				low[f] = index[ed.to]
			}
		}
		if low[f] == index[f] {
			k++
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				comp[g] = k
				if g == f {
					break
				}
			}
		}
	}
	for _, f := range e.fns {
		if index[f] == 0 {
			visit(f)
		}
	}
	return comp
}

// recursion applies the size-change principle to a group of functions: every
// way round the group that can be repeated passes on a proper part of
// something it was given.
func (e *endsLint) recursion(group []recEdge) (bad *recEdge, n int) {
	key := func(r recEdge) string {
		var ks []string
		for a, s := range r.arcs {
			ks = append(ks, fmt.Sprintf("%d>%d:%v", a[0], a[1], s))
		}
		for i, t := range r.need {
			ks = append(ks, fmt.Sprintf("n%d:%s", i, t))
		}
		for i, t := range r.give {
			ks = append(ks, fmt.Sprintf("g%d:%s", i, t))
		}
		sort.Strings(ks)
		return r.from.String() + "|" + r.to.String() + "|" + strings.Join(ks, ",")
	}
	seen := map[string]bool{}
	var all []recEdge
	work := append([]recEdge{}, group...)
	for len(work) > 0 && len(all) < 4000 {
		r := work[0]
		work = work[1:]
		k := key(r)
		if seen[k] {
			continue
		}
		seen[k] = true
		all = append(all, r)
		for _, s := range all {
			if follows(r, s) {
				work = append(work, compose(r, s))
			}
			if follows(s, r) {
				work = append(work, compose(s, r))
			}
		}
	}
	for i := range all {
		r := all[i]
		if !follows(r, r) || key(compose(r, r)) != key(r) {
			continue
		}
		n++
		ok := false
		for a, strict := range r.arcs {
			if a[0] == a[1] && strict {
				ok = true
			}
		}
		if !ok {
			return &r, n
		}
	}
	return nil, n
}

// follows says whether the call s can happen in the function that r calls.
func follows(r, s recEdge) bool {
	if r.to != s.from {
		return false
	}
	for i, t := range r.give {
		if u, ok := s.need[i]; ok && !types.Identical(t, u) {
			return false
		}
	}
	return true
}

func compose(r, s recEdge) recEdge {
	arcs := map[[2]int]bool{}
	for a, x := range r.arcs {
		for b, y := range s.arcs {
			if a[1] == b[0] {
				k := [2]int{a[0], b[1]}
				arcs[k] = arcs[k] || x || y
			}
		}
	}
	what := r.what
	if what == "" {
		what = s.what
	}
	return recEdge{r.from, s.to, arcs, r.pos, what, nil, r.need, s.give}
}

func init() {
	register(&Check{id: "G04", minObs: 40,
		rule: "termination analysis over the SSA form of the whole module: every loop ranges over a collection, counts towards a bound that stays, takes from a list or text, or reads a finite input in every round; for every group of functions that may call each other (method calls by interface, function values, decoding and encoding of values with methods of their own included) the size-change principle holds: each repeatable round passes on a proper part of an argument",
		run: func(c *Ctx) {
			e := newEndsLint(c.w)
			kinds := map[string]int{}
			for _, f := range e.fns {
				info := cfgOf(f)
				for _, b := range info.rpo {
					l := info.loops[b]
					if l == nil {
						continue
					}
					pos := token.NoPos
					for _, x := range append([]*ssa.BasicBlock{b}, b.Succs...) {
						for _, in := range x.Instrs {
							if _, ok := in.(*ssa.Phi); ok || pos.IsValid() || !in.Pos().IsValid() {
								continue
							}
							pos = in.Pos()
						}
					}
					if !pos.IsValid() {
						pos = f.Pos()
					}
					where := c.w.posn(pos) + " (" + shortType(f.String()) + ")"
					how := e.ends(l)
					kinds[how]++
					c.extraFns[f.String()] = true
					c.ob("loop "+where, how != "", where, "the loop is not shown to end: no condition that is tested in every round moves towards its end")
				}
			}
			comp := e.components()
			groups := map[int][]recEdge{}
			for _, f := range e.fns {
				for _, ed := range e.edges[f] {
					if comp[ed.from] == comp[ed.to] {
						groups[comp[f]] = append(groups[comp[f]], ed)
					}
				}
			}
			var ids []int
			for k := range groups {
				ids = append(ids, k)
			}
			sort.Ints(ids)
			for _, k := range ids {
				bad, n := e.recursion(groups[k])
				where := c.w.posn(groups[k][0].pos) + " (" + shortType(groups[k][0].from.String()) + ")"
				what := ""
				if bad != nil {
					where = c.w.posn(bad.pos) + " (" + shortType(bad.from.String()) + ")"
					what = "the recursion is not shown to end: it can return to " + shortType(bad.to.String()) + " without passing on a part of what it was given"
					if bad.what != "" {
						what += "; it " + bad.what
					}
				}
				c.ob("recursion "+where, bad == nil, where, what)
				_ = n
			}
			var ks []string
			for k, n := range kinds {
				ks = append(ks, fmt.Sprintf("%s: %d", k, n))
			}
			sort.Strings(ks)
			c.notes = append(c.notes, fmt.Sprintf("%d functions; loops: %s; %d groups of recursive functions", len(e.fns), strings.Join(ks, ", "), len(groups)))
		}})
}
