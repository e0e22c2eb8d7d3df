package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
)

// Op is the constructor of a term of the value-flow graph.
type Op int

const (
	OConst    Op = iota // literal; sym carries kind and value
	ONil                // nil of any type
	OBool               // a path condition used as a value (gs[0])
	OIte                // guarded alternatives (args[i] under gs[i])
	OSeq                // list, string or map content made of segments
	OStruct             // struct value, args are the fields
	OTuple              // multi-value result
	OParam              // symbolic input
	OGlobal             // address of a package variable
	OObj                // address of an allocation site (ctx, loop indices)
	OFieldRef           // address of a field
	OIdxRef             // address of an element
	OLoad               // initial content of a symbolic place
	OAt                 // element of a symbolic list
	OMapKey             // key of the idx-th entry of a symbolic map
	OLookup             // value of a symbolic map at a key
	OInMap              // membership of a key in a symbolic map (atom)
	OLVar               // generic index of a collection
	OWit                // a named arbitrary index of a collection
	OFirst              // first index at which a condition holds
	OLast               // last index at which a condition holds
	OExists             // some index satisfies the condition (atom)
	OBefore             // index order (atom)
	OSegIdx             // index of an element of a known sequence
	OCall               // uninterpreted call
	OExtract            // component of an uninterpreted tuple
	OLen                // length
	OEq                 // equality (atom)
	OLt                 // integer order (atom)
	OIsNil              // nil test (atom)
	OEmpty              // length zero (atom)
	OTypeIs             // dynamic type test (atom)
	OIface              // value boxed in an interface
	OCast               // value of a symbolic interface at a type
	OClosure            // function value with bindings
	OBin                // arithmetic and other binary operators
	OConv               // representation-changing conversion
	OMapOf              // location of the content of a map object
	OListOf             // location of the elements of a made list
	OBufOf              // location of the content of a writer
	OCarry              // loop-carried unknown (discovery pass)
	OOpaque             // unknown value
)

// SegKind distinguishes the parts of a sequence.
type SegKind int

const (
	SegSingle SegKind = iota
	SegEach
	SegSplice
)

// Seg is one part of a sequence: a single guarded element, one element per
// index of a collection, or a whole symbolic sequence.
type Seg struct {
	kind  SegKind
	g     B
	key   *Term // maps only
	val   *Term
	coll  *Term // SegEach
	lv    *Term // SegEach
	bound *Term // SegEach: only indices before bound (may be nil)
	body  []Seg // SegEach
}

// Term is a hash-consed node of the value-flow graph.
type Term struct {
	op   Op
	sym  string
	typ  types.Type
	args []*Term
	gs   []B
	segs []Seg
	id   int
	bv   int32
	pos  token.Pos
	aux  interface{}
	fv   map[*Term]bool
	fvOK bool
}

var termTab = map[string]*Term{}
var termCount int

func segKey(sb *strings.Builder, segs []Seg) {
	for _, s := range segs {
		fmt.Fprintf(sb, "<%d,%d", s.kind, s.g)
		for _, t := range []*Term{s.key, s.val, s.coll, s.lv, s.bound} {
			if t == nil {
				sb.WriteString(",-")
			} else {
				fmt.Fprintf(sb, ",%d", t.id)
			}
		}
		segKey(sb, s.body)
		sb.WriteString(">")
	}
}

func intern(op Op, sym string, typ types.Type, args []*Term, gs []B, segs []Seg) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|", op, sym)
	for _, a := range args {
		fmt.Fprintf(&sb, "%d,", a.id)
	}
	sb.WriteString("|")
	for _, g := range gs {
		fmt.Fprintf(&sb, "%d,", g)
	}
	segKey(&sb, segs)
	k := sb.String()
	if t, ok := termTab[k]; ok {
		if t.typ == nil {
			t.typ = typ
		}
		return t
	}
	termCount++
	if termCount > 4000000 {
		panic(undecided("value-flow graph too large"))
	}
	t := &Term{op: op, sym: sym, typ: typ, args: args, gs: gs, segs: segs, id: termCount}
	termTab[k] = t
	return t
}

func mkT(op Op, sym string, typ types.Type, args ...*Term) *Term {
	return intern(op, sym, typ, args, nil, nil)
}

var tTrue, tFalse, tNil, tUnit *Term

func init() {
	tTrue = intern(OBool, "", types.Typ[types.Bool], nil, []B{bTrue}, nil)
	tFalse = intern(OBool, "", types.Typ[types.Bool], nil, []B{bFalse}, nil)
	tNil = mkT(ONil, "", nil)
	tUnit = mkT(OTuple, "", nil)
}

func mkBool(b B) *Term {
	return intern(OBool, "", types.Typ[types.Bool], nil, []B{b}, nil)
}

func mkStr(s string) *Term { return mkT(OConst, "s:"+s, types.Typ[types.String]) }
func mkInt(i int64) *Term  { return mkT(OConst, "i:"+strconv.FormatInt(i, 10), types.Typ[types.Int]) }

func (t *Term) constStr() (string, bool) {
	if t.op == OConst && strings.HasPrefix(t.sym, "s:") {
		return t.sym[2:], true
	}
	return "", false
}

func (t *Term) constInt() (int64, bool) {
	if t.op == OConst && strings.HasPrefix(t.sym, "i:") {
		i, err := strconv.ParseInt(t.sym[2:], 10, 64)
		return i, err == nil
	}
	return 0, false
}

func mkConst(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return zeroOf(typ)
	}
	switch v.Kind() {
	case constant.Bool:
		if constant.BoolVal(v) {
			return tTrue
		}
		return tFalse
	case constant.String:
		return mkT(OConst, "s:"+constant.StringVal(v), typ)
	case constant.Int:
		return mkT(OConst, "i:"+v.ExactString(), typ)
	default:
		return mkT(OConst, "f:"+v.ExactString(), typ)
	}
}

func mkSeq(flavor string, typ types.Type, segs []Seg) *Term {
	var out []Seg
	var add func(segs []Seg)
	add = func(segs []Seg) {
		for _, s := range segs {
			if s.g == bFalse {
				continue
			}
			if s.kind == SegEach && len(s.body) == 0 {
				continue
			}
			if s.kind == SegSplice || (flavor == "str" && s.kind == SegSingle) {
				if s.val.op == OSeq && s.val.sym == flavor {
					if s.g == bTrue {
						add(s.val.segs)
						continue
					}
					if !anyEach(s.val.segs) || true {
						add(guardSegs(s.val.segs, s.g))
						continue
					}
				}
				if s.val.op == ONil {
					continue
				}
				if s.val.op == OIte && (flavor != "str" || hasSeqAlt(s.val)) {
					for i, a := range s.val.args {
						s2 := s
						s2.g = bAnd(s.g, s.val.gs[i])
						s2.val = a
						add([]Seg{s2})
					}
					continue
				}
			}
			if flavor == "str" {
				if c, ok := s.val0().constStr(); ok && s.kind == SegSingle {
					if c == "" {
						continue
					}
					if n := len(out); n > 0 && out[n-1].kind == SegSingle && out[n-1].g == s.g {
						if p, ok := out[n-1].val.constStr(); ok {
							out[n-1].val = mkStr(p + c)
							continue
						}
					}
				}
			}
			out = append(out, s)
		}
	}
	add(segs)
	if flavor == "str" {
		if len(out) == 0 {
			return mkStr("")
		}
		if len(out) == 1 && out[0].kind == SegSingle && out[0].g == bTrue {
			return out[0].val
		}
	}
	if len(out) == 1 && out[0].kind == SegSplice && out[0].g == bTrue {
		return out[0].val
	}
	return intern(OSeq, flavor, typ, nil, nil, out)
}

func (s Seg) val0() *Term {
	if s.val == nil {
		return tNil
	}
	return s.val
}

func anyEach(segs []Seg) bool {
	for _, s := range segs {
		if s.kind == SegEach {
			return true
		}
	}
	return false
}

func hasSeqAlt(t *Term) bool {
	for _, a := range t.args {
		if a.op == OSeq {
			return true
		}
	}
	return false
}

func guardSegs(segs []Seg, g B) []Seg {
	out := make([]Seg, len(segs))
	for i, s := range segs {
		s.g = bAnd(s.g, g)
		out[i] = s
	}
	return out
}

// --- structure of values -------------------------------------------------

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isStruct(t types.Type) (*types.Struct, bool) {
	if t == nil {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

func isStringish(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok {
			return b.Kind() == types.Byte || b.Kind() == types.Rune
		}
	}
	return false
}

func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func flavorOf(t types.Type) string {
	if t == nil {
		return ""
	}
	if isStringish(t) {
		return "str"
	}
	switch t.Underlying().(type) {
	case *types.Slice:
		return "list"
	case *types.Map:
		return "map"
	}
	return ""
}

// opaqueStruct reports library structs that are handled as single cells.
func opaqueStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	if strings.HasPrefix(p, modPath) || strings.HasPrefix(p, "github.com/drone/drone-runtime") || strings.HasPrefix(p, "verif/") {
		return false
	}
	// a library struct whose fields are all open is a plain value
	s, ok := n.Underlying().(*types.Struct)
	for i := 0; ok && i < s.NumFields(); i++ {
		if !s.Field(i).Exported() {
			return true
		}
	}
	return !ok || s.NumFields() == 0
}

// smallArray tells whether values of a type are handled element by element.
func smallArray(t types.Type) (*types.Array, bool) {
	if t == nil {
		return nil, false
	}
	at, ok := t.Underlying().(*types.Array)
	if !ok || at.Len() > 64 {
		return nil, false
	}
	b, basic := at.Elem().Underlying().(*types.Basic)
	return at, !basic || b.Kind() != types.Uint8
}

func zeroOf(t types.Type) *Term {
	if t == nil {
		return tNil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return mkT(OConst, "i:0", t)
		case u.Kind() == types.UntypedNil:
			return tNil
		default:
			return mkT(OConst, "f:0", t)
		}
	case *types.Struct:
		if opaqueStruct(t) {
			return mkT(OOpaque, "zero:"+typeKey(t), t)
		}
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = zeroOf(u.Field(i).Type())
		}
		return mkT(OStruct, typeKey(t), t, args...)
	case *types.Slice:
		if isStringish(t) {
			return mkStr("")
		}
		return mkSeq("list", t, nil)
	case *types.Array:
		if at, ok := smallArray(t); ok {
			var segs []Seg
			for i := int64(0); i < at.Len(); i++ {
				segs = append(segs, Seg{kind: SegSingle, g: bTrue, val: zeroOf(at.Elem())})
			}
			return mkSeq("list", t, segs)
		}
		return tNil
	case *types.Tuple:
		args := make([]*Term, u.Len())
		for i := range args {
			args[i] = zeroOf(u.At(i).Type())
		}
		return mkT(OTuple, "", nil, args...)
	}
	return tNil
}

func typeKey(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, nil)
}

// --- guarded alternatives -----------------------------------------------

type alt struct {
	g B
	t *Term
}

func alts(t *Term) []alt {
	if t.op == OIte {
		out := make([]alt, len(t.args))
		for i := range t.args {
			out[i] = alt{t.gs[i], t.args[i]}
		}
		return out
	}
	return []alt{{bTrue, t}}
}

const maxAlts = 160

func mkIte(as []alt) *Term {
	var flat []alt
	for _, a := range as {
		if a.g == bFalse {
			continue
		}
		if a.t.op == OIte {
			for i := range a.t.args {
				if g := bAnd(a.g, a.t.gs[i]); g != bFalse {
					flat = append(flat, alt{g, a.t.args[i]})
				}
			}
			continue
		}
		flat = append(flat, a)
	}
	if len(flat) == 0 {
		return mkT(OOpaque, "dead", nil)
	}
	flat = expandFixed(flat)
	allBool, allStruct, anySeq, flavor := true, true, false, ""
	for _, a := range flat {
		if a.t.op == OOpaque && a.t.sym == "dead" {
			continue
		}
		if a.t.op != OBool {
			allBool = false
		}
		if a.t.op != OStruct && a.t.op != OTuple {
			allStruct = false
		}
		if a.t.op == OSeq {
			anySeq = true
			flavor = a.t.sym
		}
	}
	if allBool {
		r := bFalse
		for _, a := range flat {
			if a.t.op == OBool {
				r = bOr(r, bAnd(a.g, a.t.gs[0]))
			}
		}
		return mkBool(r)
	}
	// merge equal alternatives
	idx := map[*Term]int{}
	var out []alt
	for _, a := range flat {
		if i, ok := idx[a.t]; ok {
			out[i].g = bOr(out[i].g, a.g)
			continue
		}
		idx[a.t] = len(out)
		out = append(out, a)
	}
	for i := range out {
		out[i].g = bNorm(out[i].g)
	}
	// drop dead alternatives when there is something else
	if len(out) > 1 {
		var live []alt
		for _, a := range out {
			if !(a.t.op == OOpaque && a.t.sym == "dead") {
				live = append(live, a)
			}
		}
		out = live
	}
	if len(out) == 1 {
		return out[0].t
	}
	if allStruct {
		n := -1
		ok := true
		for _, a := range out {
			if n >= 0 && len(a.t.args) != n {
				ok = false
			}
			n = len(a.t.args)
		}
		if ok {
			args := make([]*Term, n)
			for i := range args {
				var fs []alt
				for _, a := range out {
					fs = append(fs, alt{a.g, a.t.args[i]})
				}
				args[i] = mkIte(fs)
			}
			return mkT(out[0].t.op, out[0].t.sym, out[0].t.typ, args...)
		}
	}
	if anySeq {
		if s := mergeSeqs(flavor, out); s != nil {
			return s
		}
	}
	if r := mergeCounts(out); r != nil {
		return r
	}
	if len(out) == 2 && isIntType(out[0].t.typ) {
		// the smaller or the larger of two numbers
		x, y := out[0], out[1]
		if x.t.id > y.t.id {
			x, y = y, x
		}
		if x.t.op != OConst || y.t.op != OConst {
			lt, gt := mkLt(x.t, y.t), mkLt(y.t, x.t)
			if y.g == gt && x.g == bNot(gt) {
				x.g, y.g = lt, bNot(lt)
			} else if x.g == gt && y.g == bNot(gt) {
				y.g, x.g = lt, bNot(lt)
			}
			out[0], out[1] = x, y
		}
	}
	if len(out) > maxAlts {
		panic(undecided("too many alternatives for one value"))
	}
	sort.Slice(out, func(i, j int) bool { return out[i].t.id < out[j].t.id })
	args := make([]*Term, len(out))
	gs := make([]B, len(out))
	for i, a := range out {
		args[i], gs[i] = a.t, a.g
	}
	return intern(OIte, "", out[0].t.typ, args, gs, nil)
}

// expandFixed replaces, in each alternative, values that its condition fixes
// to one of a few constants.
func expandFixed(as []alt) []alt {
	out := as[:0:0]
	changed := false
	for _, a := range as {
		if a.t.op != OSeq || a.t.sym != "str" && a.t.sym != "list" || a.g == bTrue {
			out = append(out, a)
			continue
		}
		groups := map[*Term][]*Term{}
		var order []*Term
		for _, v := range bSupport(a.g) {
			if v.op != OEq {
				continue
			}
			if x := eqGroup(v); x != nil && x.op != OConst {
				if groups[x] == nil {
					order = append(order, x)
				}
				groups[x] = append(groups[x], v)
			}
		}
		done := false
		for _, x := range order {
			none := a.g
			for _, v := range groups[x] {
				none = bAnd(none, bNot(bVar(v)))
			}
			if none != bFalse || !mentions(a.t, func(y *Term) bool { return y == x }) {
				continue
			}
			for _, v := range groups[x] {
				g := bAnd(a.g, bVar(v))
				if g == bFalse {
					continue
				}
				c := v.args[0]
				if c.op != OConst {
					c = v.args[1]
				}
				for _, o := range groups[x] {
					if o != v {
						g = bRestrict(g, bNot(bVar(o)))
					}
				}
				out = append(out, alt{g, newSubst(x, c).term(a.t)})
			}
			done, changed = true, true
			break
		}
		if !done {
			out = append(out, a)
		}
	}
	if !changed {
		return as
	}
	return out
}

func segsOf(flavor string, t *Term) ([]Seg, bool) {
	if t.op == OSeq && t.sym == flavor {
		return t.segs, true
	}
	if t.op == ONil {
		return nil, true
	}
	if flavor == "str" {
		if c, ok := t.constStr(); ok && c == "" {
			return nil, true
		}
		return []Seg{{kind: SegSingle, g: bTrue, val: t}}, true
	}
	return []Seg{{kind: SegSplice, g: bTrue, val: t}}, true
}

func sameSeg(a, b Seg) bool {
	if a.kind != b.kind || a.g != b.g || a.key != b.key || a.val != b.val || a.coll != b.coll || a.lv != b.lv || a.bound != b.bound || len(a.body) != len(b.body) {
		return false
	}
	for i := range a.body {
		if !sameSeg(a.body[i], b.body[i]) {
			return false
		}
	}
	return true
}

// mergeSeqs joins alternatives of one sequence: the common prefix is kept,
// the remainders become guarded segments.
func mergeSeqs(flavor string, as []alt) *Term {
	if flavor == "str" {
		// only merge text when one alternative extends the others
		nonEmptyCommon := false
		for _, a := range as {
			if c, ok := a.t.constStr(); ok && c == "" {
				nonEmptyCommon = true
			}
		}
		if !nonEmptyCommon {
			var first *Seg
			ok := true
			for _, a := range as {
				s, _ := segsOf(flavor, a.t)
				if first == nil {
					first = &s[0]
					continue
				}
				if !sameSeg(*first, s[0]) {
					// allow constants with a common textual prefix
					c1, ok1 := first.val0().constStr()
					c2, ok2 := s[0].val0().constStr()
					if !(ok1 && ok2 && (strings.HasPrefix(c1, c2) || strings.HasPrefix(c2, c1))) {
						ok = false
					}
				}
			}
			if !ok {
				return nil
			}
		}
	}
	lists := make([][]Seg, len(as))
	for i, a := range as {
		s, ok := segsOf(flavor, a.t)
		if !ok {
			return nil
		}
		lists[i] = s
	}
	var typ types.Type
	for _, a := range as {
		if a.t.typ != nil {
			typ = a.t.typ
		}
	}
	n := 0
	for {
		same := true
		for i := range lists {
			if n >= len(lists[i]) {
				same = false
				break
			}
			if i > 0 && !sameSeg(lists[0][n], lists[i][n]) {
				same = false
				break
			}
		}
		if !same {
			break
		}
		n++
	}
	out := append([]Seg{}, lists[0][:n]...)
	// split constants with a common textual prefix
	if flavor == "str" {
		var cs []string
		for i := range lists {
			if n < len(lists[i]) && lists[i][n].kind == SegSingle && lists[i][n].g == bTrue {
				if c, ok := lists[i][n].val.constStr(); ok {
					cs = append(cs, c)
					continue
				}
			}
			cs = nil
			break
		}
		if len(cs) == len(lists) && len(cs) > 1 {
			p := cs[0]
			for _, c := range cs[1:] {
				for !strings.HasPrefix(c, p) {
					p = p[:len(p)-1]
				}
			}
			if p != "" {
				out = append(out, Seg{kind: SegSingle, g: bTrue, val: mkStr(p)})
				for i := range lists {
					l := append([]Seg{}, lists[i]...)
					l[n].val = mkStr(cs[i][len(p):])
					lists[i] = l
				}
			}
		}
	}
	// common suffix
	suf := 0
	for {
		same := true
		for i := range lists {
			k := len(lists[i]) - 1 - suf
			if k < n {
				same = false
				break
			}
			if i > 0 && !sameSeg(lists[0][len(lists[0])-1-suf], lists[i][k]) {
				same = false
				break
			}
		}
		if !same {
			break
		}
		suf++
	}
	var care B = bFalse
	for _, a := range as {
		care = bOr(care, a.g)
	}
	for i := range lists {
		mid := lists[i][n : len(lists[i])-suf]
		out = append(out, guardSegs(mid, bRestrict(as[i].g, care))...)
	}
	out = append(out, lists[0][len(lists[0])-suf:]...)
	return mkSeq(flavor, typ, out)
}

func lift(t *Term, f func(*Term) *Term) *Term {
	if t.op != OIte {
		return f(t)
	}
	var out []alt
	for i := range t.args {
		out = append(out, alt{t.gs[i], f(t.args[i])})
	}
	return mkIte(out)
}

func liftB(t *Term, f func(*Term) B) B {
	if t.op != OIte {
		return f(t)
	}
	r := bFalse
	for i := range t.args {
		r = bOr(r, bAnd(t.gs[i], f(t.args[i])))
	}
	return r
}

// toB reads a boolean value as a condition.
func toB(t *Term) B {
	return liftB(t, func(t *Term) B {
		switch t.op {
		case OBool:
			return t.gs[0]
		case OOpaque:
			if t.sym == "dead" {
				return bFalse
			}
		}
		return bVar(t)
	})
}

// symb wraps a raw symbolic term as a value of its type.
func symb(t *Term) *Term {
	if isBoolType(t.typ) && t.op != OBool && t.op != OIte {
		return mkBool(bVar(t))
	}
	return t
}

func restrictTerm(t *Term, care B) *Term {
	if care == bTrue || care == bFalse {
		return t
	}
	switch t.op {
	case OIte:
		var out []alt
		for i := range t.args {
			out = append(out, alt{bRestrict(t.gs[i], care), t.args[i]})
		}
		return mkIte(out)
	case OBool:
		return mkBool(bRestrict(t.gs[0], care))
	case OSeq:
		if len(t.segs) > 32 {
			return t
		}
		var segs []Seg
		for _, s := range t.segs {
			s.g = bRestrict(s.g, care)
			segs = append(segs, s)
		}
		return mkSeq(t.sym, t.typ, segs)
	case OStruct, OTuple:
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = restrictTerm(a, care)
		}
		return mkT(t.op, t.sym, t.typ, args...)
	}
	return t
}

// --- free indices and substitution ------------------------------------

func freeVars(t *Term) map[*Term]bool {
	if t.fvOK {
		return t.fv
	}
	fv := map[*Term]bool{}
	add := func(m map[*Term]bool) {
		for k := range m {
			fv[k] = true
		}
	}
	if t.op == OLVar {
		fv[t] = true
	}
	for _, a := range t.args {
		add(freeVars(a))
	}
	for _, g := range t.gs {
		add(freeVarsB(g))
	}
	add(freeVarsSegs(t.segs))
	if (t.op == OExists || t.op == OFirst || t.op == OLast) && len(t.args) > 1 {
		delete(fv, t.args[1])
	}
	t.fv, t.fvOK = fv, true
	return fv
}

var fvBCache = map[B]map[*Term]bool{}

func freeVarsB(b B) map[*Term]bool {
	if b == bTrue || b == bFalse {
		return nil
	}
	if r, ok := fvBCache[b]; ok {
		return r
	}
	out := map[*Term]bool{}
	for _, a := range bSupport(b) {
		for k := range freeVars(a) {
			out[k] = true
		}
	}
	fvBCache[b] = out
	return out
}

func freeVarsSegs(segs []Seg) map[*Term]bool {
	out := map[*Term]bool{}
	add := func(m map[*Term]bool) {
		for k := range m {
			out[k] = true
		}
	}
	for _, s := range segs {
		if s.kind == SegEach {
			add(eachScope(s, true))
		} else {
			add(freeVarsB(s.g))
		}
		for _, x := range []*Term{s.key, s.val, s.coll, s.bound} {
			if x != nil {
				add(freeVars(x))
			}
		}
	}
	return out
}

// eachScope lists the free indices of the condition and body of an Each
// segment, with or without the segment's own index.
func eachScope(s Seg, closed bool) map[*Term]bool {
	m := freeVarsSegs(s.body)
	for k := range freeVarsB(s.g) {
		m[k] = true
	}
	if closed {
		delete(m, s.lv)
	}
	return m
}

type subst struct {
	from map[*Term]*Term
	memo map[*Term]*Term
}

func newSubst(from, to *Term) *subst {
	return &subst{from: map[*Term]*Term{from: to}, memo: map[*Term]*Term{}}
}

var touchCache = map[*Term]map[*Term]bool{}

// mentions reports whether t contains term x anywhere.
func mentions(t *Term, pred func(*Term) bool) bool {
	seen := map[*Term]bool{}
	seenB := map[B]bool{}
	var wt func(t *Term) bool
	var wb func(b B) bool
	var ws func(s []Seg) bool
	wb = func(b B) bool {
		if b == bTrue || b == bFalse || seenB[b] {
			return false
		}
		seenB[b] = true
		for _, a := range bSupport(b) {
			if wt(a) {
				return true
			}
		}
		return false
	}
	ws = func(segs []Seg) bool {
		for _, s := range segs {
			if wb(s.g) || ws(s.body) {
				return true
			}
			for _, x := range []*Term{s.key, s.val, s.coll, s.lv, s.bound} {
				if x != nil && wt(x) {
					return true
				}
			}
		}
		return false
	}
	wt = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if pred(t) {
			return true
		}
		for _, a := range t.args {
			if wt(a) {
				return true
			}
		}
		for _, g := range t.gs {
			if wb(g) {
				return true
			}
		}
		return ws(t.segs)
	}
	return wt(t)
}

func mentionsB(b B, pred func(*Term) bool) bool {
	for _, a := range bSupport(b) {
		if mentions(a, pred) {
			return true
		}
	}
	return false
}

// under prepares the substitution for the scope of a bound index.
// scope holds the free indices of what lv binds.
func (s *subst) under(lv *Term, scope map[*Term]bool) *subst {
	_, shadow := s.from[lv]
	coll := s.term(lv.args[0])
	clash := func(cand *Term, self bool) bool {
		if !self && scope[cand] {
			return true
		}
		for k, v := range s.from {
			if k == lv {
				continue
			}
			if !self && k == cand || freeVars(v)[cand] {
				return true
			}
		}
		return false
	}
	d, _ := strconv.Atoi(lv.sym)
	to := mkLVar(coll, d)
	bad := clash(to, to == lv)
	if !shadow && !bad && to == lv {
		return s
	}
	n := &subst{from: map[*Term]*Term{}, memo: map[*Term]*Term{}}
	for k, v := range s.from {
		if k != lv {
			n.from[k] = v
		}
	}
	for bad {
		d++
		to = mkLVar(coll, d)
		bad = clash(to, false)
	}
	if to != lv {
		n.from[lv] = to
	}
	return n
}

func mkLVar(coll *Term, d int) *Term {
	return mkT(OLVar, strconv.Itoa(d), types.Typ[types.Int], coll)
}

func (s *subst) term(t *Term) *Term {
	if r, ok := s.from[t]; ok {
		return r
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	if len(t.args) == 0 && len(t.gs) == 0 && len(t.segs) == 0 {
		return t
	}
	s.memo[t] = t
	changed := false
	args := make([]*Term, len(t.args))
	gs := make([]B, len(t.gs))
	if t.op == OExists || t.op == OFirst || t.op == OLast {
		in := s.under(t.args[1], freeVarsB(t.gs[0]))
		args[0] = s.term(t.args[0])
		args[1] = in.term(t.args[1])
		if args[1].op != OLVar || args[1].args[0] != args[0] {
			args[1] = mkLVar(args[0], 0)
		}
		if len(args) > 2 {
			args[2] = s.term(t.args[2])
		}
		gs[0] = in.b(t.gs[0])
		for i := range args {
			changed = changed || args[i] != t.args[i]
		}
		changed = changed || gs[0] != t.gs[0]
	} else {
		for i, a := range t.args {
			args[i] = s.term(a)
			changed = changed || args[i] != a
		}
		for i, g := range t.gs {
			gs[i] = s.b(g)
			changed = changed || gs[i] != g
		}
	}
	segs, ch := s.segs(t.segs)
	changed = changed || ch
	r := t
	if changed {
		r = rebuild(t, args, gs, segs)
	}
	s.memo[t] = r
	return r
}

func (s *subst) segs(in []Seg) ([]Seg, bool) {
	if len(in) == 0 {
		return nil, false
	}
	out := make([]Seg, len(in))
	ch := false
	for i, x := range in {
		y := x
		f := func(sub *subst, t *Term) *Term {
			if t == nil {
				return nil
			}
			r := sub.term(t)
			ch = ch || r != t
			return r
		}
		y.key, y.val = f(s, x.key), f(s, x.val)
		if x.kind == SegEach {
			sub := s.under(x.lv, eachScope(x, false))
			y.coll, y.bound = f(s, x.coll), f(s, x.bound)
			y.lv = f(sub, x.lv)
			y.g = sub.b(x.g)
			var c2 bool
			y.body, c2 = sub.segs(x.body)
			ch = ch || c2
		} else {
			y.g = s.b(x.g)
		}
		ch = ch || y.g != x.g
		out[i] = y
	}
	return out, ch
}

func (s *subst) b(b B) B {
	if b == bTrue || b == bFalse {
		return b
	}
	return bMapAtoms(b, func(a *Term) B { return toB(s.term(a)) })
}

// rebuild re-applies the smart constructor of a term.
func rebuild(t *Term, args []*Term, gs []B, segs []Seg) *Term {
	switch t.op {
	case OIte:
		as := make([]alt, len(args))
		for i := range args {
			as[i] = alt{gs[i], args[i]}
		}
		return mkIte(as)
	case OBool:
		return mkBool(gs[0])
	case OSeq:
		return mkSeq(t.sym, t.typ, segs)
	case OEq:
		return mkBool(mkEq(args[0], args[1]))
	case OLt:
		return mkBool(mkLt(args[0], args[1]))
	case OIsNil:
		return mkBool(mkIsNil(args[0]))
	case OEmpty:
		return mkBool(mkEmpty(args[0]))
	case OBefore:
		return mkBool(mkBefore(args[0], args[1]))
	case OTypeIs:
		return mkBool(mkTypeIs(args[0], t.aux.(types.Type)))
	case OInMap:
		_, ok := mkLookup(args[0], args[1], nil)
		return mkBool(ok)
	case OLookup:
		v, _ := mkLookup(args[0], args[1], t.typ)
		return v
	case OExists:
		var bound *Term
		if len(args) > 2 {
			bound = args[2]
		}
		return mkBool(mkExists(args[0], args[1], bound, gs[0]))
	case OLen:
		return mkLen(args[0])
	case OCast:
		return mkCast(args[0], t.aux.(types.Type))
	case OExtract:
		if strings.HasPrefix(t.sym, "f") {
			i, _ := strconv.Atoi(t.sym[1:])
			return mkFieldOf(args[0], i, t.typ)
		}
		i, _ := strconv.Atoi(t.sym)
		return mkExtract(args[0], i, t.typ)
	case OAt:
		return mkAt(args[0], args[1], t.typ)
	case OBin:
		return mkBin(token.Token(t.aux.(token.Token)), args[0], args[1], t.typ)
	case OFieldRef:
		return lift(args[0], func(p *Term) *Term {
			r := mkT(OFieldRef, t.sym, t.typ, p)
			r.aux = t.aux
			return r
		})
	case OCall:
		r := intern(t.op, t.sym, t.typ, args, gs, segs)
		if r.aux == nil {
			r.aux = t.aux
		}
		if isBoolType(r.typ) {
			return symb(r)
		}
		return r
	}
	r := intern(t.op, t.sym, t.typ, args, gs, segs)
	if r.aux == nil {
		r.aux = t.aux
	}
	if r.pos == 0 {
		r.pos = t.pos
	}
	return symb(r)
}

// --- smart constructors --------------------------------------------------

func isFresh(t *Term) bool { return t.op == OObj || t.op == OGlobal || t.op == OClosure }

func neverNil(t *Term) bool {
	switch t.op {
	case OObj, OGlobal, OClosure, OFieldRef, OIdxRef, OIface, OConst, OStruct, OBool:
		return true
	case OCall:
		switch t.sym {
		case "errors.New", "fmt.Errorf", "bytes", "strings.NewReader", "bytes.NewReader":
			return true
		}
	case OCast:
		// an interface in the input holds no nil pointer
		return isPtr(t.typ)
	case OAt:
		// the parser gives no empty entries (P02)
		if b := t.args[0]; b.op == OExtract && b.args[0].op == OCall && strings.HasPrefix(b.args[0].sym, modPath+"/yaml.ParseRaw") {
			return true
		}
	}
	return false
}

func mkIsNil(t *Term) B {
	return liftB(t, func(t *Term) B {
		switch {
		case t.op == ONil:
			return bTrue
		case neverNil(t):
			return bFalse
		case t.op == OSeq:
			return mkEmpty(t)
		}
		return bVar(mkT(OIsNil, "", types.Typ[types.Bool], t))
	})
}

func mkEmpty(t *Term) B {
	return liftB(t, func(t *Term) B {
		if c, ok := t.constStr(); ok {
			if c == "" {
				return bTrue
			}
			return bFalse
		}
		switch t.op {
		case ONil:
			return bTrue
		case OSeq:
			r := bTrue
			for _, s := range t.segs {
				r = bAnd(r, bNot(segNonEmpty(t.sym, s)))
			}
			return r
		}
		if t.op == OCall && t.sym == "reversed" {
			return mkEmpty(t.args[0])
		}
		if t.op == OCall && t.sym == "steps" {
			return mkLt(t.args[0], mkInt(1))
		}
		if splitMax(t) != 0 {
			return bFalse
		}
		return bVar(mkT(OEmpty, "", types.Typ[types.Bool], t))
	})
}

func segNonEmpty(flavor string, s Seg) B {
	switch s.kind {
	case SegSplice:
		return bAnd(s.g, bNot(mkEmpty(s.val)))
	case SegSingle:
		if flavor == "str" {
			return bAnd(s.g, bNot(mkEmpty(s.val)))
		}
		return s.g
	}
	body := bFalse
	for _, x := range s.body {
		body = bOr(body, segNonEmpty(flavor, x))
	}
	return mkExists(s.coll, s.lv, s.bound, bAnd(s.g, body))
}

func mkLen(t *Term) *Term {
	return lift(t, func(t *Term) *Term {
		if c, ok := t.constStr(); ok {
			return mkInt(int64(len(c)))
		}
		if t.op == ONil {
			return mkInt(0)
		}
		if isMade(t) {
			return t.args[0]
		}
		if t.op == OCall && t.sym == "reversed" {
			return mkLen(t.args[0])
		}
		if n := splitMax(t); n > 0 {
			// at most n of all the parts
			all := mkLen(splitAll(t.args[0], t.args[1]))
			few := mkLt(all, mkInt(int64(n)))
			return mkIte([]alt{{few, all}, {bNot(few), mkInt(int64(n))}})
		}
		if t.op == OSeq && t.sym != "str" {
			n := int64(0)
			exact := true
			for _, s := range t.segs {
				if s.kind != SegSingle || s.g != bTrue {
					exact = false
				}
				n++
			}
			if exact {
				return mkInt(n)
			}
			if sum := countSegs(t.segs); sum != nil {
				return sum
			}
		}
		return mkT(OLen, "", types.Typ[types.Int], t)
	})
}

// countSegs is the number of elements of parts that are there in any case:
// single ones, and one for each element of another list (up to a bound).
func countSegs(segs []Seg) *Term {
	var sum *Term
	one := int64(0)
	for _, s := range segs {
		if s.g != bTrue {
			return nil
		}
		if s.kind == SegSingle {
			one++
			continue
		}
		ranged := s.kind == SegEach && s.coll.op == OCall && s.coll.sym == "range"
		if sum != nil || s.kind != SegEach || !ranged && !isList(s.coll) || len(s.body) != 1 || s.body[0].kind != SegSingle || s.body[0].g != bTrue {
			return nil
		}
		switch {
		case s.bound == nil && ranged:
			return nil
		case s.bound == nil:
			sum = mkLen(s.coll)
		case (s.bound.op == OLVar || s.bound.op == OWit) && s.bound.args[0] == s.coll:
			sum = s.bound
		default:
			return nil
		}
	}
	switch {
	case sum == nil:
		return mkInt(one)
	case one == 0:
		return sum
	}
	return mkBin(token.ADD, sum, mkInt(one), types.Typ[types.Int])
}

func mkEq(a, b *Term) B {
	if a == b {
		return bTrue
	}
	if a.op == OIte {
		return liftB(a, func(x *Term) B { return mkEq(x, b) })
	}
	if b.op == OIte {
		return liftB(b, func(x *Term) B { return mkEq(a, x) })
	}
	if a.op == OBool && b.op == OBool {
		return bIff(a.gs[0], b.gs[0])
	}
	if a.op == ONil {
		return mkIsNil(b)
	}
	if b.op == ONil {
		return mkIsNil(a)
	}
	// slices and maps are only ever compared with nil
	if a.op == OSeq && a.sym != "str" && len(a.segs) == 0 {
		return mkIsNil(b)
	}
	if b.op == OSeq && b.sym != "str" && len(b.segs) == 0 {
		return mkIsNil(a)
	}
	if a.op == OConst && b.op == OConst {
		if a.sym == b.sym {
			return bTrue
		}
		return bFalse
	}
	if a.op == OIface && b.op == OIface {
		if a.sym != b.sym {
			return bFalse
		}
		return mkEq(a.args[0], b.args[0])
	}
	if a.op == OIface && b.op != OIface {
		if a.typ != nil {
			return bAnd(mkTypeIs(b, a.aux.(types.Type)), mkEq(a.args[0], mkCast(b, a.aux.(types.Type))))
		}
	}
	if b.op == OIface && a.op != OIface {
		return mkEq(b, a)
	}
	if isFresh(a) && isFresh(b) {
		if len(freeVars(a)) == 0 && len(freeVars(b)) == 0 || a.sym != b.sym {
			return bFalse
		}
	}
	if isFresh(a) && (b.op == OParam || b.op == OLoad || b.op == OAt) || isFresh(b) && (a.op == OParam || a.op == OLoad || a.op == OAt) {
		return bFalse
	}
	if a.op == OStruct && b.op == OStruct && len(a.args) == len(b.args) {
		r := bTrue
		for i := range a.args {
			r = bAnd(r, mkEq(a.args[i], b.args[i]))
		}
		return r
	}
	// length comparisons against constants become emptiness or order tests
	if b.op == OConst {
		a, b = b, a
	}
	if a.op == OConst {
		if c, ok := a.constStr(); ok && c == "" {
			return mkEmpty(b)
		}
		if c, ok := a.constInt(); ok && b.op == OLen {
			if c == 0 {
				return mkEmpty(b.args[0])
			}
			if c < 0 {
				return bFalse
			}
			return bAnd(bNot(mkLt(b, mkInt(c))), mkLt(b, mkInt(c+1)))
		}
		if c, ok := a.constInt(); ok && b.op == OBin && b.aux == token.ADD && b.args[0].op == OLen {
			if k, ok := b.args[1].constInt(); ok {
				return mkEq(mkInt(c-k), b.args[0])
			}
		}
		if c, ok := a.constInt(); ok && c < 0 && b.op == OCall && b.sym == "index.found" {
			return bFalse
		}
		if c, ok := a.constInt(); ok && c == 0 && (b.op == OLVar || b.op == OWit || b.op == OFirst || b.op == OLast || b.op == OSegIdx) {
			return mkLt(b, mkInt(1))
		}
		if c, ok := a.constInt(); ok && c == 0 && b.op == OBin && b.aux == token.ADD && nonnegSum(b) {
			return mkLt(b, mkInt(1))
		}
		return bVar(mkT(OEq, "", types.Typ[types.Bool], a, b))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return bVar(mkT(OEq, "", types.Typ[types.Bool], a, b))
}

// splitMax is the largest number of parts a split at a known separator can
// have, -1 when there is no bound, and 0 for anything else.
func splitMax(t *Term) int {
	if t.op != OCall || len(t.args) < 2 {
		return 0
	}
	if sep, ok := t.args[1].constStr(); !ok || sep == "" {
		return 0
	}
	switch {
	case t.sym == "strings.Split" && len(t.args) == 2:
		return -1
	case t.sym == "strings.SplitN" && len(t.args) == 3:
		n, ok := t.args[2].constInt()
		if !ok {
			return 0
		}
		if n < 0 {
			return -1
		}
		return int(n)
	}
	return 0
}

// wideCount recognises counters with many possible values, which are kept as a
// sum of steps instead of one alternative for each value.
func wideCount(t *Term) bool {
	switch t.op {
	case OIte:
		return len(t.args) > 4 && nonnegSum(t)
	case OBin:
		return t.aux == token.ADD && wideCount(t.args[0])
	}
	return false
}

// mergeCounts joins counters step by step, so that the number of alternatives
// does not grow with the number of steps.
func mergeCounts(as []alt) *Term {
	var steps [][]*Term
	wide := false
	for _, a := range as {
		var s []*Term
		t := a.t
		for wideCount(t) && t.op == OBin {
			s = append(s, t.args[1])
			t = t.args[0]
			wide = true
		}
		if c, ok := t.constInt(); t.op != OIte && !ok || ok && c < 0 {
			return nil
		}
		for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
			s[i], s[j] = s[j], s[i]
		}
		steps = append(steps, append([]*Term{t}, s...))
	}
	if !wide {
		return nil
	}
	var r *Term
	for k := 0; ; k++ {
		var col []alt
		more := false
		for i, a := range as {
			if k < len(steps[i]) {
				col = append(col, alt{a.g, steps[i][k]})
				more = true
			} else {
				col = append(col, alt{a.g, mkInt(0)})
			}
		}
		if !more {
			return r
		}
		t := mkIte(col)
		if r == nil {
			r = t
		} else {
			r = mkBin(token.ADD, r, t, as[0].t.typ)
		}
	}
}

// nonnegSum recognises sums of lengths and non-negative constants.
func nonnegSum(t *Term) bool {
	switch t.op {
	case OLen:
		return true
	case OIte:
		for _, a := range t.args {
			if !nonnegSum(a) {
				return false
			}
		}
		return true
	case OConst:
		c, ok := t.constInt()
		return ok && c >= 0
	case OBin:
		return t.aux == token.ADD && len(t.args) == 2 && nonnegSum(t.args[0]) && nonnegSum(t.args[1])
	}
	return false
}

// mkLt is the integer comparison a < b.
func mkLt(a, b *Term) B {
	if a.op == OIte {
		return liftB(a, func(x *Term) B { return mkLt(x, b) })
	}
	if b.op == OIte {
		return liftB(b, func(x *Term) B { return mkLt(a, x) })
	}
	if a == b {
		return bFalse
	}
	if inRange(a, b) {
		return bTrue
	}
	if inRange(b, a) {
		return bFalse
	}
	if insideText(a, b) {
		return bFalse
	}
	if c, ok := moreBy(a, b); ok {
		return constB(c < 0)
	}
	if c, ok := moreBy(b, a); ok {
		return constB(c > 0)
	}
	ca, oka := a.constInt()
	cb, okb := b.constInt()
	if oka && okb {
		if ca < cb {
			return bTrue
		}
		return bFalse
	}
	if oka { // c < b  <=>  not (b < c+1)
		return bNot(mkLt(b, mkInt(ca+1)))
	}
	if okb {
		if a.op == OBin && a.aux == token.ADD && nonnegTerm(a.args[0]) {
			if k, ok := a.args[1].constInt(); ok && k != 0 {
				return mkLt(a.args[0], mkInt(cb-k))
			}
		}
		if cb <= atLeast(a) {
			return bFalse
		}
		if cb == 1 && (a.op == OLVar || a.op == OWit) {
			// the first position has none before it
			return bNot(mkExists(a.args[0], mkLVar(a.args[0], 0), a, bTrue))
		}
		if a.op == OLen && cb == 1 {
			return mkEmpty(a.args[0])
		}
		if a.op == OLen {
			n := splitMax(a.args[0])
			if n > 0 && cb > int64(n) {
				return bTrue
			}
			if n == -1 && cb > 2 && cb <= 8 {
				// fewer parts are also fewer than a larger number
				return bOr(mkLt(a, mkInt(cb-1)), bVar(mkT(OLt, "", types.Typ[types.Bool], a, b)))
			}
		}
		// a sum of lengths is zero when each of them is
		if a.op == OBin && a.aux == token.ADD && cb == 1 && nonnegSum(a) {
			return bAnd(mkLt(a.args[0], b), mkLt(a.args[1], b))
		}
	}
	return bVar(mkT(OLt, "", types.Typ[types.Bool], a, b))
}

// insideText tells whether b is a place in the text whose length is a: up to the
// end of a separator found in it.
func insideText(a, b *Term) bool {
	k := int64(0)
	if b.op == OBin && b.aux == token.ADD {
		c, ok := b.args[1].constInt()
		if !ok {
			return false
		}
		b, k = b.args[0], c
	}
	if a.op != OLen || b.op != OCall || b.sym != "index.found" || b.args[0] != a.args[0] {
		return false
	}
	sep, _ := b.args[1].constStr()
	return k <= int64(len(sep))
}

// atLeast is a number that t is not below.
func atLeast(t *Term) int64 {
	if !nonnegTerm(t) {
		return math.MinInt64
	}
	switch t.op {
	case OConst:
		c, _ := t.constInt()
		return c
	case OBin:
		if t.aux == token.ADD {
			return atLeast(t.args[0]) + atLeast(t.args[1])
		}
	case OLen:
		if s := t.args[0]; s.op == OSeq && s.sym == "list" {
			n := int64(0)
			for _, e := range s.segs {
				if e.kind == SegSingle && e.g == bTrue {
					n++
				}
			}
			return n
		}
	}
	return 0
}

// moreBy gives c when a is b+c.
func moreBy(a, b *Term) (int64, bool) {
	if a.op != OBin || a.aux != token.ADD || a.args[0] != b {
		return 0, false
	}
	return a.args[1].constInt()
}

// inRange tells whether i is a position of a loop that ends before n.
func inRange(i, n *Term) bool {
	is := func(t *Term, what string) bool { return t.op == OCall && t.sym == what }
	switch i.op {
	case OLVar, OWit:
		c := i.args[0]
		return n.op == OLen && n.args[0] == c || is(c, "range") && c.args[0] == n
	case OBin:
		v, k := i.args[0], i.args[1]
		if i.aux == token.REM && k == n {
			return nonnegTerm(n) // a division by 0 has no result
		}
		if i.aux != token.MUL || v.op != OLVar && v.op != OWit {
			return false
		}
		c := v.args[0]
		return is(c, "steps") && c.args[0] == n && c.args[1] == k
	case OCall:
		return i.sym == "ridx" && n.op == OLen && n.args[0] == i.args[0]
	}
	return false
}

// nonnegTerm tells whether t is made of lengths and positions by sums,
// products, quotients and remainders, also over the steps of a loop.
func nonnegTerm(t *Term) bool { return nonnegIn(t, false) }

// nonnegIn takes the value before a step for not negative if it is in one.
func nonnegIn(t *Term, step bool) bool {
	switch t.op {
	case OLen, OLVar, OWit, OFirst, OLast, OSegIdx:
		return true
	case OConst:
		c, ok := t.constInt()
		return ok && c >= 0
	case OOpaque:
		return step && strings.HasPrefix(t.sym, "fold.self")
	case OIte:
		for _, a := range t.args {
			if !nonnegIn(a, step) {
				return false
			}
		}
		return true
	case OCall:
		switch t.sym {
		case "ridx", "index.found":
			return true
		case "fold.before", "fold.all":
			return nonnegIn(t.args[1], step) && nonnegIn(t.args[2], true)
		}
	case OBin:
		switch t.aux {
		case token.ADD, token.MUL, token.QUO:
			return nonnegIn(t.args[0], step) && nonnegIn(t.args[1], step)
		case token.REM:
			return nonnegIn(t.args[0], step)
		}
	}
	return false
}

func mkBefore(a, b *Term) B {
	if a == b {
		return bFalse
	}
	return bVar(mkT(OBefore, "", types.Typ[types.Bool], a, b))
}

func mkTypeIs(t *Term, typ types.Type) B {
	return liftB(t, func(t *Term) B {
		if t.op == ONil {
			return bFalse
		}
		if t.op == OIface {
			if _, ok := typ.Underlying().(*types.Interface); ok {
				if types.Implements(t.aux.(types.Type), typ.Underlying().(*types.Interface)) {
					return bTrue
				}
				return bFalse
			}
			if types.Identical(t.aux.(types.Type), typ) {
				return bTrue
			}
			return bFalse
		}
		r := mkT(OTypeIs, typeKey(typ), types.Typ[types.Bool], t)
		r.aux = typ
		return bVar(r)
	})
}

func mkCast(t *Term, typ types.Type) *Term {
	return lift(t, func(t *Term) *Term {
		if _, ok := typ.Underlying().(*types.Interface); ok {
			return t
		}
		if t.op == OIface {
			if types.Identical(t.aux.(types.Type), typ) {
				return t.args[0]
			}
			return zeroOf(typ)
		}
		if t.op == ONil {
			return zeroOf(typ)
		}
		r := mkT(OCast, typeKey(typ), typ, t)
		r.aux = typ
		return symb(r)
	})
}

func mkIface(v *Term, typ types.Type) *Term {
	r := mkT(OIface, typeKey(typ), typ, v)
	r.aux = typ
	return r
}

func mkExtract(t *Term, i int, typ types.Type) *Term {
	return lift(t, func(t *Term) *Term {
		if t.op == OTuple {
			if i < len(t.args) {
				return t.args[i]
			}
			return mkT(OOpaque, "extract", typ)
		}
		return symb(mkT(OExtract, strconv.Itoa(i), typ, t))
	})
}

// mkAt reads element idx of list (or string) value c.
func mkAt(c, idx *Term, typ types.Type) *Term {
	if c.op == OIte {
		return lift(c, func(x *Term) *Term { return mkAt(x, idx, typ) })
	}
	if idx.op == OIte {
		return lift(idx, func(x *Term) *Term { return mkAt(c, x, typ) })
	}
	if idx.op == OSegIdx && idx.args[0] == c {
		return idx.args[1]
	}
	if c.op == OSeq && c.sym == "list" {
		if n, ok := idx.constInt(); ok {
			for i, s := range c.segs {
				if s.kind != SegSingle || s.g != bTrue {
					if i == 0 && s.kind == SegSplice && s.g == bTrue && len(c.segs) == 1 {
						return mkAt(s.val, idx, typ)
					}
					break
				}
				if int64(i) == n {
					return s.val
				}
			}
		}
		if idx.op == OBin && idx.aux == token.ADD && idx.args[0].op == OLen && idx.args[0].args[0] == c {
			// the last element
			if n, ok := idx.args[1].constInt(); ok && n == -1 {
				if s := c.segs[len(c.segs)-1]; s.kind == SegSingle && s.g == bTrue {
					return s.val
				}
			}
		}
		// element of a single per-index segment without filter
		if len(c.segs) == 1 && c.segs[0].kind == SegEach && c.segs[0].g == bTrue && c.segs[0].bound == nil &&
			len(c.segs[0].body) == 1 && c.segs[0].body[0].kind == SegSingle && c.segs[0].body[0].g == bTrue {
			e := c.segs[0]
			if idx.op == OLVar && idx.args[0] == e.coll || idx.op == OWit && idx.args[0] == e.coll {
				return newSubst(e.lv, idx).term(e.body[0].val)
			}
		}
	}
	if n, ok := idx.constInt(); ok && splitMax(c) > 0 {
		// the last of limited parts may be a rest with further separators
		most := int64(splitMax(c))
		part := symb(mkT(OAt, "", typ, splitAll(c.args[0], c.args[1]), idx))
		if n < most-1 {
			return part
		}
		exact := mkLt(mkLen(splitAll(c.args[0], c.args[1])), mkInt(most+1))
		return mkIte([]alt{{exact, part}, {bNot(exact), symb(mkT(OAt, "", typ, c, idx))}})
	}
	return symb(mkT(OAt, "", typ, c, idx))
}

// mkExists is "some index of coll (before bound) satisfies cond".
func mkExists(coll, lv, bound *Term, cond B) B {
	if cond == bFalse {
		return bFalse
	}
	if coll.op == ONil {
		return bFalse
	}
	if !freeVarsB(cond)[lv] {
		if bound == nil {
			return bAnd(cond, bNot(mkEmpty(coll)))
		}
	}
	outer, cond := splitOuter(lv, cond)
	if outer != bTrue {
		return bAnd(outer, mkExists(coll, lv, bound, cond))
	}
	if coll.op == OCall && coll.sym == "reversed" && bound == nil {
		// the order does not matter for "some element"
		xs := coll.args[0]
		nv := mkLVar(xs, 0)
		for d := 1; freeVarsB(cond)[nv]; d++ {
			nv = mkLVar(xs, d)
		}
		c := newSubst(mkT(OCall, "ridx", types.Typ[types.Int], xs, lv), nv).b(cond)
		if !freeVarsB(c)[lv] {
			return mkExists(xs, nv, nil, c)
		}
	}
	args := []*Term{coll, lv}
	if bound != nil {
		args = append(args, bound)
	}
	cond = bNorm(cond)
	args[1], cond = canonLVar(coll, lv, bound, cond)
	return bVar(intern(OExists, "", types.Typ[types.Bool], args, []B{cond}, nil))
}

// canonLVar gives a bound index its canonical name.
func canonLVar(coll, lv, bound *Term, cond B) (*Term, B) {
	if lv.op != OLVar || lv.args[0] != coll {
		return lv, cond
	}
	for d := 0; d < 20; d++ {
		c := mkLVar(coll, d)
		if bound != nil && freeVars(bound)[c] {
			continue
		}
		if c == lv {
			return lv, cond
		}
		if freeVarsB(cond)[c] {
			continue
		}
		return c, newSubst(lv, c).b(cond)
	}
	return lv, cond
}

// splitOuter separates the conjuncts that do not depend on the index.
func splitOuter(lv *Term, cond B) (outer, inner B) {
	outer = bTrue
	if !freeVarsB(cond)[lv] {
		return cond, bTrue
	}
	for _, a := range bSupport(cond) {
		if freeVars(a)[lv] {
			continue
		}
		v := bVar(a)
		if bAnd(cond, bNot(v)) == bFalse {
			outer = bAnd(outer, v)
			cond = bRestrict(cond, v)
		} else if bAnd(cond, v) == bFalse {
			outer = bAnd(outer, bNot(v))
			cond = bRestrict(cond, bNot(v))
		}
	}
	return outer, cond
}

func isList(coll *Term) bool {
	if coll.typ == nil {
		return false
	}
	_, ok := coll.typ.Underlying().(*types.Slice)
	return ok
}

// mkPick is an index at which cond holds (meaningful only when there is one).
func mkPick(op Op, coll, lv, bound *Term, cond B) *Term {
	if cond != bFalse {
		_, cond = splitOuter(lv, cond)
		cond = bNorm(cond)
	}
	if op == OLast && cond == bTrue && bound != nil && isList(coll) && (bound.op == OLVar || bound.op == OWit) && bound.args[0] == coll {
		return mkBin(token.ADD, bound, mkInt(-1), types.Typ[types.Int])
	}
	lv, cond = canonLVar(coll, lv, bound, cond)
	args := []*Term{coll, lv}
	if bound != nil {
		args = append(args, bound)
	}
	return intern(op, "", types.Typ[types.Int], args, []B{cond}, nil)
}

// renameEach gives an Each segment an index that is not in avoid.
func renameEach(s Seg, avoid map[*Term]bool) Seg {
	if !avoid[s.lv] {
		return s
	}
	scope := eachScope(s, false)
	d, _ := strconv.Atoi(s.lv.sym)
	for {
		d++
		lv := mkLVar(s.coll, d)
		if avoid[lv] || scope[lv] {
			continue
		}
		sb := newSubst(s.lv, lv)
		s.body, _ = sb.segs(s.body)
		s.g = sb.b(s.g)
		s.lv = lv
		return s
	}
}

// byOwnKey tells whether the entries of a segment carry the keys of the map it
// goes through.
func byOwnKey(s Seg) bool {
	for _, b := range s.body {
		if b.kind != SegSingle || b.key == nil || b.key.op != OMapKey || b.key.args[0] != s.coll || b.key.args[1] != s.lv {
			return false
		}
	}
	return true
}

// mkLookup reads a map value: the value and the membership condition.
func mkLookup(m, k *Term, typ types.Type) (*Term, B) {
	if m.op == OIte {
		var vs []alt
		ok := bFalse
		for i := range m.args {
			v, o := mkLookup(m.args[i], k, typ)
			vs = append(vs, alt{m.gs[i], v})
			ok = bOr(ok, bAnd(m.gs[i], o))
		}
		return mkIte(vs), ok
	}
	if k.op == OIte {
		var vs []alt
		ok := bFalse
		for i := range k.args {
			v, o := mkLookup(m, k.args[i], typ)
			vs = append(vs, alt{k.gs[i], v})
			ok = bOr(ok, bAnd(k.gs[i], o))
		}
		return mkIte(vs), ok
	}
	if m.op == ONil {
		return zeroOf(typ), bFalse
	}
	if m.typ == setType && isBoolType(typ) {
		_, in := mkLookup(m, k, setType.Elem())
		return mkBool(in), in
	}
	if m.op == OSeq {
		val := zeroOf(typ)
		ok := bFalse
		var walk func(segs []Seg, wrap func(B) B, sub func(*Term) *Term)
		walk = func(segs []Seg, wrap func(B) B, sub func(*Term) *Term) {
			for _, s := range segs {
				s := s
				switch s.kind {
				case SegSingle:
					hit := wrap(bAnd(s.g, mkEq(s.key, k)))
					val = mkIte([]alt{{hit, sub(s.val)}, {bNot(hit), val}})
					ok = bOr(ok, hit)
				case SegSplice:
					v, o := mkLookup(s.val, k, typ)
					hit := wrap(bAnd(s.g, o))
					val = mkIte([]alt{{hit, sub(v)}, {bNot(hit), val}})
					ok = bOr(ok, hit)
				case SegEach:
					s = renameEach(s, freeVars(k))
					if k.op == OMapKey && k.args[0] == s.coll && s.bound == nil && byOwnKey(s) {
						// the keys of a map differ: only this iteration counts
						sb := newSubst(s.lv, k.args[1])
						body, _ := sb.segs(s.body)
						g := sb.b(s.g)
						walk(body, func(c B) B { return wrap(bAnd(g, c)) }, sub)
						continue
					}
					walk(s.body, func(c B) B {
						return wrap(mkExists(s.coll, s.lv, s.bound, bAnd(s.g, c)))
					}, func(v *Term) *Term {
						if freeVars(v)[s.lv] {
							hit := bFalse
							for _, b := range s.body {
								if b.kind == SegSingle {
									hit = bOr(hit, bAnd(b.g, mkEq(b.key, k)))
								}
							}
							return sub(newSubst(s.lv, mkPick(OLast, s.coll, s.lv, s.bound, bAnd(s.g, hit))).term(v))
						}
						return sub(v)
					})
				}
			}
		}
		walk(m.segs, func(b B) B { return b }, func(t *Term) *Term { return t })
		return val, ok
	}
	// the key of an entry of the map itself is a member
	if k.op == OMapKey && k.args[0] == m {
		return symb(mkT(OLookup, "", typ, m, k)), bTrue
	}
	in := bVar(mkT(OInMap, "", types.Typ[types.Bool], m, k))
	v := symb(mkT(OLookup, "", typ, m, k))
	return mkIte([]alt{{in, v}, {bNot(in), zeroOf(typ)}}), in
}

func mkBin(op token.Token, a, b *Term, typ types.Type) *Term {
	if op == token.ADD && wideCount(a) && nonnegSum(b) {
		if c, ok := b.constInt(); ok && c == 0 {
			return a
		}
		r := mkT(OBin, op.String(), typ, a, b)
		r.aux = op
		return r
	}
	if a.op == OIte {
		return lift(a, func(x *Term) *Term { return mkBin(op, x, b, typ) })
	}
	if b.op == OIte {
		return lift(b, func(x *Term) *Term { return mkBin(op, a, x, typ) })
	}
	switch op {
	case token.EQL:
		return mkBool(mkEq(a, b))
	case token.NEQ:
		return mkBool(bNot(mkEq(a, b)))
	case token.LSS:
		return mkBool(mkLt(a, b))
	case token.GTR:
		return mkBool(mkLt(b, a))
	case token.LEQ:
		return mkBool(bNot(mkLt(b, a)))
	case token.GEQ:
		return mkBool(bNot(mkLt(a, b)))
	}
	if ca, ok := a.constInt(); ok {
		if cb, ok := b.constInt(); ok {
			switch op {
			case token.ADD:
				return mkT(OConst, "i:"+strconv.FormatInt(ca+cb, 10), typ)
			case token.SUB:
				return mkT(OConst, "i:"+strconv.FormatInt(ca-cb, 10), typ)
			case token.MUL:
				return mkT(OConst, "i:"+strconv.FormatInt(ca*cb, 10), typ)
			case token.OR:
				return mkT(OConst, "i:"+strconv.FormatInt(ca|cb, 10), typ)
			}
		}
	}
	// (x + c1) + c2
	if cb, ok := b.constInt(); ok && (op == token.ADD || op == token.SUB) {
		if op == token.SUB {
			return mkBin(token.ADD, a, mkInt(-cb), typ)
		}
		if cb == 0 {
			return a
		}
		if a.op == OBin && a.aux == token.ADD {
			if c, ok := a.args[1].constInt(); ok {
				return mkBin(token.ADD, a.args[0], mkInt(c+cb), typ)
			}
		}
	}
	if ca, ok := a.constInt(); ok && (op == token.ADD || op == token.MUL) {
		_ = ca
		return mkBin(op, b, a, typ)
	}
	r := mkT(OBin, op.String(), typ, a, b)
	r.aux = op
	return r
}

func mkCat(parts ...*Term) *Term {
	var segs []Seg
	for _, p := range parts {
		segs = append(segs, Seg{kind: SegSingle, g: bTrue, val: p})
	}
	return mkSeq("str", types.Typ[types.String], segs)
}

func mkFieldOf(v *Term, i int, typ types.Type) *Term {
	return lift(v, func(v *Term) *Term {
		if v.op == OStruct && i < len(v.args) {
			return v.args[i]
		}
		return symb(mkT(OExtract, "f"+strconv.Itoa(i), typ, v))
	})
}

// --- printing ------------------------------------------------------------

func (t *Term) String() string { return t.str(0) }

func shortType(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		star := ""
		if strings.HasPrefix(s, "*") {
			star = "*"
		}
		return star + s[i+1:]
	}
	return s
}

func (t *Term) str(d int) string {
	if t == nil {
		return "-"
	}
	if d > 8 {
		return "…"
	}
	a := func(i int) string {
		if i < len(t.args) {
			return t.args[i].str(d + 1)
		}
		return "?"
	}
	list := func(xs []*Term) string {
		var ss []string
		for _, x := range xs {
			ss = append(ss, x.str(d+1))
		}
		return strings.Join(ss, ", ")
	}
	switch t.op {
	case OConst:
		if c, ok := t.constStr(); ok {
			return strconv.Quote(c)
		}
		return t.sym[2:]
	case ONil:
		return "nil"
	case OBool:
		return bString(t.gs[0], d)
	case OIte:
		var ss []string
		for i := range t.args {
			ss = append(ss, bString(t.gs[i], d+1)+" → "+t.args[i].str(d+1))
		}
		return "{" + strings.Join(ss, " | ") + "}"
	case OSeq:
		return t.sym + "[" + segString(t.segs, d) + "]"
	case OStruct:
		return shortType(t.sym) + "{" + list(t.args) + "}"
	case OTuple:
		return "(" + list(t.args) + ")"
	case OParam:
		return t.sym
	case OGlobal:
		return "&" + t.sym
	case OObj:
		s := t.sym
		if i := strings.Index(s, "#"); i >= 0 {
			s = s[:i]
		}
		if len(t.args) > 0 {
			s += "(" + list(t.args) + ")"
		}
		return s
	case OFieldRef:
		return a(0) + "." + t.sym
	case OIdxRef:
		return a(0) + "[" + a(1) + "]"
	case OLoad:
		return a(0)
	case OAt:
		return a(0) + "[" + a(1) + "]"
	case OMapKey:
		return "key(" + a(0) + "," + a(1) + ")"
	case OLookup:
		return a(0) + "[" + a(1) + "]"
	case OInMap:
		return a(1) + "∈" + a(0)
	case OLVar:
		return "i" + t.sym
	case OWit:
		return t.sym
	case OFirst:
		return "first"
	case OLast:
		return "last"
	case OExists:
		return "∃" + t.args[1].str(d) + "∈" + a(0) + ":" + bString(t.gs[0], d+1)
	case OBefore:
		return a(0) + "≺" + a(1)
	case OSegIdx:
		return "idx"
	case OCall:
		return shortType(t.sym) + "(" + list(t.args) + ")"
	case OExtract:
		return a(0) + "#" + t.sym
	case OLen:
		return "len(" + a(0) + ")"
	case OEq:
		return a(1) + "==" + a(0)
	case OLt:
		return a(0) + "<" + a(1)
	case OIsNil:
		return a(0) + "==nil"
	case OEmpty:
		return "empty(" + a(0) + ")"
	case OTypeIs:
		return a(0) + " is " + shortType(t.sym)
	case OIface:
		return a(0)
	case OCast:
		return a(0) + ".(" + shortType(t.sym) + ")"
	case OClosure:
		return "func " + t.sym
	case OBin:
		return "(" + a(0) + t.sym + a(1) + ")"
	case OConv:
		return t.sym + "(" + a(0) + ")"
	case OMapOf, OBufOf, OListOf:
		return "content(" + a(0) + ")"
	}
	return t.sym + "?" + list(t.args)
}

func segString(segs []Seg, d int) string {
	var ss []string
	for _, s := range segs {
		p := ""
		if s.g != bTrue {
			p = bString(s.g, d+1) + " ⇒ "
		}
		switch s.kind {
		case SegSingle:
			if s.key != nil {
				p += s.key.str(d+1) + ": "
			}
			p += s.val.str(d + 1)
		case SegSplice:
			p += s.val.str(d+1) + "..."
		case SegEach:
			p += "each " + s.lv.str(d+1) + "∈" + s.coll.str(d+1)
			if s.bound != nil {
				p += "≺" + s.bound.str(d+1)
			}
			p += "(" + segString(s.body, d+1) + ")"
		}
		ss = append(ss, p)
	}
	return strings.Join(ss, ", ")
}

func bString(b B, d int) string {
	if b == bTrue {
		return "true"
	}
	if b == bFalse {
		return "false"
	}
	if d > 8 {
		return "…"
	}
	// sum of cubes, bounded
	var out []string
	n := 0
	var walk func(b B, acc []string)
	walk = func(b B, acc []string) {
		if b == bFalse || n > 6 {
			return
		}
		if b == bTrue {
			n++
			out = append(out, strings.Join(acc, "∧"))
			return
		}
		nd := mgr.nodes[b]
		s := mgr.atoms[nd.v].str(d + 1)
		walk(nd.hi, append(append([]string{}, acc...), s))
		walk(nd.lo, append(append([]string{}, acc...), "¬"+s))
	}
	walk(b, nil)
	r := strings.Join(out, " ∨ ")
	if n > 6 {
		r += " ∨ …"
	}
	if len(out) > 1 {
		r = "(" + r + ")"
	}
	return r
}
