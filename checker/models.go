package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func unbox(t *Term) *Term {
	return lift(t, func(t *Term) *Term {
		if t.op == OIface {
			return t.args[0]
		}
		return t
	})
}

var stdModels map[string]modelFn

func init() {
	pureStr := types.Typ[types.String]
	write := func(fr *frame, c *callInfo, s *Term) (*Term, bool) {
		return fr.writeOut(c, s), true
	}
	bufWrite := func(fr *frame, c *callInfo) (*Term, bool) { return write(fr, c, c.args[1]) }
	bufGet := func(fr *frame, c *callInfo) (*Term, bool) {
		return lift(c.args[0], func(p *Term) *Term { return restrictTerm(fr.m.bufGet(p), fr.cur) }), true
	}
	stdModels = map[string]modelFn{
		"fmt.Sprintf": func(fr *frame, c *callInfo) (*Term, bool) {
			if t, ok := formatTerm(c.args[0], c.args[1]); ok {
				return t, true
			}
			return nil, false
		},
		"fmt.Sprint": func(fr *frame, c *callInfo) (*Term, bool) {
			as, ok := listElems(c.args[0])
			if ok && len(as) == 1 {
				return fmtArg("v", as[0]), true
			}
			return nil, false
		},
		"fmt.Fprintf": func(fr *frame, c *callInfo) (*Term, bool) {
			t, ok := formatTerm(c.args[1], c.args[2])
			if !ok {
				t = mkT(OCall, "fmt.Sprintf", pureStr, c.args[1], c.args[2])
			}
			return write(fr, c, t)
		},
		"fmt.Fprint": func(fr *frame, c *callInfo) (*Term, bool) {
			as, ok := listElems(c.args[1])
			t := mkT(OCall, "fmt.Sprint", pureStr, c.args[1])
			if ok && len(as) == 1 {
				t = fmtArg("v", as[0])
			}
			return write(fr, c, t)
		},
		"fmt.Fprintln": func(fr *frame, c *callInfo) (*Term, bool) {
			as, ok := listElems(c.args[1])
			t := mkT(OCall, "fmt.Sprint", pureStr, c.args[1])
			if ok {
				var parts []*Term
				for i, a := range as {
					if i > 0 {
						parts = append(parts, mkStr(" "))
					}
					parts = append(parts, fmtArg("v", a))
				}
				t = mkCat(parts...)
			}
			return write(fr, c, catLift(t, mkStr("\n")))
		},
		// what is done once has been done, or is done now
		"(*sync.Once).Do": func(fr *frame, c *callInfo) (*Term, bool) {
			for _, o := range alts(c.args[0]) {
				done := mkT(OFieldRef, "done", types.Typ[types.Bool], o.t)
				if v, ok := fr.m.heapGet(done); ok && v == tTrue {
					continue
				}
				// whether it runs here or ran before makes no difference
				// to what it leaves behind (G01)
				save := fr.cur
				fr.cur = o.g
				fr.callFunc(c, c.args[1], nil)
				fr.m.store(done, tTrue, o.g, types.Typ[types.Bool])
				fr.cur = save
			}
			return tUnit, true
		},
		"sync.OnceFunc":  func(fr *frame, c *callInfo) (*Term, bool) { return c.args[0], true },
		"sync.OnceValue": func(fr *frame, c *callInfo) (*Term, bool) { return c.args[0], true },
		// what comes from a pool has the type its New makes and any content
		"(*sync.Pool).Get": func(fr *frame, c *callInfo) (*Term, bool) {
			if c.args[0].op != OGlobal && c.args[0].op != OObj {
				return nil, false
			}
			f, ok := fr.m.heapGet(fieldByName(c.args[0], c.sig.Recv().Type(), "New"))
			if !ok || f.op != OClosure {
				return nil, false
			}
			v, ok := fr.callFunc(c, f, nil)
			if !ok || v.op != OIface || v.args[0].op != OObj {
				return nil, false
			}
			inst := mkT(OOpaque, fmt.Sprintf("pooled%d", len(fr.m.events)), nil)
			v.args[0].aux = "pooled"
			fr.havocArg(v, inst)
			return v, true
		},
		"(*sync.Pool).Put":               func(fr *frame, c *callInfo) (*Term, bool) { return tUnit, true },
		"io.WriteString":                 bufWrite,
		"(*bytes.Buffer).WriteString":    bufWrite,
		"(*bytes.Buffer).Write":          bufWrite,
		"(*strings.Builder).WriteString": bufWrite,
		"(*strings.Builder).Write":       bufWrite,
		"(io.Writer).Write":              bufWrite,
		"(*bytes.Buffer).WriteByte":      writeRune,
		"(*bytes.Buffer).WriteRune":      writeRune,
		"(*strings.Builder).WriteByte":   writeRune,
		"(*strings.Builder).WriteRune":   writeRune,
		"(*bytes.Buffer).String":         bufGet,
		"(*bytes.Buffer).Bytes":          bufGet,
		"(*strings.Builder).String":      bufGet,
		"(*bytes.Buffer).Len": func(fr *frame, c *callInfo) (*Term, bool) {
			v, _ := bufGet(fr, c)
			return mkLen(v), true
		},
		"(*bytes.Buffer).Reset": func(fr *frame, c *callInfo) (*Term, bool) {
			for _, a := range alts(c.args[0]) {
				loc := mkT(OBufOf, "", nil, a.t)
				g := bAnd(fr.cur, a.g)
				fr.m.heap[loc] = mkIte([]alt{{g, mkStr("")}, {bNot(g), fr.m.bufGet(a.t)}})
			}
			return tUnit, true
		},
		"bytes.NewBuffer": func(fr *frame, c *callInfo) (*Term, bool) {
			o := fr.m.newObj("buffer#"+fr.fn.Name()+fr.m.w.posn(c.pos), c.typ)
			fr.m.heap[mkT(OBufOf, "", nil, o)] = c.args[0]
			return o, true
		},
		"bytes.NewBufferString": func(fr *frame, c *callInfo) (*Term, bool) {
			o := fr.m.newObj("buffer#"+fr.fn.Name()+fr.m.w.posn(c.pos), c.typ)
			fr.m.heap[mkT(OBufOf, "", nil, o)] = c.args[0]
			return o, true
		},
		"github.com/bmatcuk/doublestar.Match": globModel, "github.com/bmatcuk/doublestar.PathMatch": globModel,
		"path.Match": globModel, "path/filepath.Match": globModel,
		"(*regexp.Regexp).Match": func(fr *frame, c *callInfo) (*Term, bool) {
			return mkBool(bNot(mkEmpty(matchesOf(c)))), true
		},
		"(*regexp.Regexp).MatchString": func(fr *frame, c *callInfo) (*Term, bool) {
			return mkBool(bNot(mkEmpty(matchesOf(c)))), true
		},
		"(*regexp.Regexp).FindAll":         findAll,
		"(*regexp.Regexp).FindAllString":   findAll,
		"(*regexp.Regexp).FindAllIndex":    findAll,
		"(*regexp.Regexp).FindIndex":       findOne,
		"(*regexp.Regexp).FindStringIndex": findOne,
		"sort.Strings":                     sortModel, "sort.Slice": sortModel, "sort.Sort": sortModel, "sort.Stable": sortModel, "sort.SliceStable": sortModel, "sort.Ints": sortModel,
		"slices.Sort": sortModel, "slices.SortFunc": sortModel,
		"strings.HasPrefix": func(fr *frame, c *callInfo) (*Term, bool) {
			if b, ok := c.args[1].constStr(); ok {
				if a, ok := c.args[0].constStr(); ok {
					return mkBool(constB(strings.HasPrefix(a, b))), true
				}
				fr.m.longEnough(c, int64(len(b)))
			}
			return nil, false
		},
		"strings.HasSuffix": func(fr *frame, c *callInfo) (*Term, bool) {
			if b, ok := c.args[1].constStr(); ok {
				fr.m.longEnough(c, int64(len(b)))
			}
			return nil, false
		},
		"strings.ToLower":   foldStr(strings.ToLower),
		"strings.ToUpper":   foldStr(strings.ToUpper),
		"strings.TrimSpace": foldStr(strings.TrimSpace),
		"strings.EqualFold": func(fr *frame, c *callInfo) (*Term, bool) {
			x, y := c.args[0], c.args[1]
			if _, ok := x.constStr(); ok {
				x, y = y, x
			}
			if b, ok := y.constStr(); ok {
				// letters without other case variants than ASCII: the same as
				// comparing the lower-case text
				if !strings.ContainsAny(b, "skSK") && isASCII(b) {
					low := lift(x, func(x *Term) *Term {
						if a, ok := x.constStr(); ok {
							return mkStr(strings.ToLower(a))
						}
						return mkT(OCall, "strings.ToLower", pureStr, x)
					})
					return mkBool(mkEq(low, mkStr(strings.ToLower(b)))), true
				}
				if a, ok := x.constStr(); ok {
					return mkBool(constB(strings.EqualFold(a, b))), true
				}
			}
			if x.id > y.id {
				x, y = y, x
			}
			r := symb(mkT(OCall, c.name, c.typ, x, y))
			return r, true
		},
		"strconv.Quote": func(fr *frame, c *callInfo) (*Term, bool) {
			return fmtArg("q", mkIface(c.args[0], pureStr)), true
		},
		"strconv.Itoa": func(fr *frame, c *callInfo) (*Term, bool) {
			return fmtArg("d", mkIface(c.args[0], types.Typ[types.Int])), true
		},
		"strconv.FormatBool": func(fr *frame, c *callInfo) (*Term, bool) {
			return fmtArg("t", mkIface(c.args[0], types.Typ[types.Bool])), true
		},
		"strconv.FormatInt": func(fr *frame, c *callInfo) (*Term, bool) {
			if n, ok := c.args[1].constInt(); ok && n == 10 {
				return fmtArg("d", mkIface(c.args[0], types.Typ[types.Int64])), true
			}
			return nil, false
		},
		"strings.ReplaceAll": func(fr *frame, c *callInfo) (*Term, bool) {
			return mkT(OCall, "strings.Replace", c.typ, c.args[0], c.args[1], c.args[2], mkInt(-1)), true
		},
		"strings.Repeat": func(fr *frame, c *callInfo) (*Term, bool) {
			s, ok := c.args[0].constStr()
			if !ok {
				return nil, false
			}
			as := alts(c.args[1])
			for i, a := range as {
				n, ok := a.t.constInt()
				if !ok || n > 256 {
					return nil, false
				}
				if n < 0 {
					fr.danger("negative count", a.g, c.pos)
					n = 0
				}
				as[i].t = mkStr(strings.Repeat(s, int(n)))
			}
			return mkIte(as), true
		},
		"strings.Join": func(fr *frame, c *callInfo) (*Term, bool) {
			as, ok := listElems(c.args[0])
			if !ok {
				return nil, false
			}
			var parts []*Term
			for i, a := range as {
				if i > 0 {
					parts = append(parts, c.args[1])
				}
				parts = append(parts, a)
			}
			return mkCat(parts...), true
		},
		"strings.Contains": findText(func(s, sep *Term) *Term { return mkBool(foundIn(s, sep)) }),
		"strings.Count": findText(func(s, sep *Term) *Term {
			return mkBin(token.ADD, mkLen(splitAll(s, sep)), mkInt(-1), types.Typ[types.Int])
		}),
		"strings.Index":     findText(indexIn),
		"strings.IndexByte": findText(indexIn),
		"strings.IndexRune": findText(indexIn),
		"strings.Cut": findText(func(s, sep *Term) *Term {
			f := foundIn(s, sep)
			after := mkIte([]alt{{f, cutAt(s, sep, 1)}, {bNot(f), mkStr("")}})
			return mkT(OTuple, "", nil, cutAt(s, sep, 0), after, mkBool(f))
		}),
		"strings.CutPrefix": cutEnd("strings.HasPrefix", "strings.TrimPrefix"),
		"strings.CutSuffix": cutEnd("strings.HasSuffix", "strings.TrimSuffix"),
	}
	for k, v := range stdModels {
		if v == nil {
			delete(stdModels, k)
		}
	}
}

// repoModels describe helpers of the repository whose meaning other checks
// establish: a random identifier is a fresh value for every execution.
var repoModels = map[string]modelFn{
	modPath + "/yaml/compiler/internal/rand.String": func(fr *frame, c *callInfo) (*Term, bool) {
		var id string
		if c.site != nil {
			id = fmt.Sprintf("%s:%d:%d", fr.fn.String(), c.site.Block().Index, instrIndex(c.site))
		}
		leave := fr.m.enter(id)
		defer leave()
		return mkT(OOpaque, "fresh#"+itoa(int64(fr.m.ctx)), types.Typ[types.String], fr.m.lvArgs()...), true
	},
}

// pureOpaque are functions of the repository that depend on their arguments
// only; checks that do not look into them treat them as uninterpreted.
var pureOpaque = []string{"/yaml/compiler/image.Expand", "/yaml/compiler/image.Trim"}

func constB(b bool) B {
	if b {
		return bTrue
	}
	return bFalse
}

func foldStr(f func(string) string) modelFn {
	return func(fr *frame, c *callInfo) (*Term, bool) {
		return lift(c.args[0], func(x *Term) *Term {
			if s, ok := x.constStr(); ok {
				return mkStr(f(s))
			}
			return mkT(OCall, c.name, c.typ, x)
		}), true
	}
}

// matchesOf is the list of all matches of an expression in a text.
// globModel: a pattern that is malformed matches nothing.
func globModel(fr *frame, c *callInfo) (*Term, bool) {
	tup, ok := c.typ.(*types.Tuple)
	if !ok || tup.Len() != 2 {
		return nil, false
	}
	t := mkCall(fr, c.name, c.args, c.typ, "")
	t.pos = c.pos
	err := mkExtract(t, 1, tup.At(1).Type())
	res := mkT(OTuple, "", nil, mkBool(bAnd(toB(mkExtract(t, 0, tup.At(0).Type())), mkIsNil(err))), err)
	fr.event("call", c.name, c.args, t, c.pos)
	return res, true
}

func matchesOf(c *callInfo) *Term {
	return symb(mkT(OCall, "regexp.matches", types.NewSlice(types.NewSlice(types.Typ[types.Byte])), c.args[0], c.args[1]))
}

func findAll(fr *frame, c *callInfo) (*Term, bool) {
	if n, ok := c.args[2].constInt(); ok && n < 0 {
		return matchesOf(c), true
	}
	return nil, false
}

func findOne(fr *frame, c *callInfo) (*Term, bool) {
	l := matchesOf(c)
	e := mkEmpty(l)
	pos := func(i int64) Seg {
		return Seg{kind: SegSingle, g: bTrue, val: mkT(OCall, c.name, types.Typ[types.Int], l, mkInt(i))}
	}
	return mkIte([]alt{{e, tNil}, {bNot(e), mkSeq("list", c.typ, []Seg{pos(0), pos(1)})}}), true
}

// sortModel: lists made from the keys of a map are taken in ascending order
// already, so sorting them changes nothing; other orders are not followed.
func sortModel(fr *frame, c *callInfo) (*Term, bool) {
	if c.site != nil && !ascending(fr.m.w, c.name, c.site.Common().Args) {
		panic(undecided("a list is sorted in an order of its own at " + fr.m.w.posn(c.pos)))
	}
	fr.event("call", c.name, c.args, nil, c.pos)
	return tUnit, true
}

func writeRune(fr *frame, c *callInfo) (*Term, bool) {
	t := lift(c.args[1], func(x *Term) *Term {
		if n, ok := x.constInt(); ok {
			return mkStr(string(rune(n)))
		}
		return mkT(OConv, "string", types.Typ[types.String], x)
	})
	fr.event("call", c.name, []*Term{c.args[0], t}, nil, c.pos)
	fr.m.bufWrite(c.args[0], t, fr.cur)
	return writeResult(c.typ, t), true
}

func writeResult(typ types.Type, s *Term) *Term {
	if tup, ok := typ.(*types.Tuple); ok && tup.Len() == 2 {
		return mkT(OTuple, "", nil, mkLen(s), mkT(OCall, "write-error", tup.At(1).Type(), s))
	}
	if typ == nil {
		return tUnit
	}
	return tNil
}

// listElems returns the elements of a list of known length.
func listElems(t *Term) ([]*Term, bool) {
	if t.op == ONil {
		return nil, true
	}
	if t.op != OSeq || t.sym != "list" {
		return nil, false
	}
	var out []*Term
	for _, s := range t.segs {
		if s.kind != SegSingle || s.g != bTrue {
			return nil, false
		}
		out = append(out, s.val)
	}
	return out, true
}

// fmtArg is the text a verb produces for a boxed argument.
func fmtArg(verb string, a *Term) *Term {
	return lift(a, func(a *Term) *Term {
		x := a
		if x.op == OIface {
			t := x.aux.(types.Type)
			x = x.args[0]
			if (verb == "s" || verb == "v") && isStringish(t) {
				if _, ok := t.Underlying().(*types.Basic); ok && !hasStringer(t) {
					return x
				}
				if verb == "s" && !hasStringer(t) {
					return x
				}
			}
			if f := libraryString(t); f != "" && (verb == "s" || verb == "v") {
				return mkT(OCall, f, types.Typ[types.String], x)
			}
			if isBoolType(t) && !hasStringer(t) && (verb == "v" || verb == "t") {
				return mkIte([]alt{{toB(x), mkStr("true")}, {bNot(toB(x)), mkStr("false")}})
			}
			if verb == "v" && isIntType(t) && !hasStringer(t) {
				verb = "d"
			}
			if n, ok := x.constInt(); ok && (verb == "d" || verb == "v") && !hasStringer(t) {
				return mkStr(itoa(n))
			}
		}
		return mkT(OCall, "fmt%"+verb, types.Typ[types.String], x)
	})
}

// libraryString is the String method that formatting a value of a type of
// another module calls.
func libraryString(t types.Type) string {
	if !hasStringer(t) {
		return ""
	}
	set := types.NewMethodSet(t)
	for _, n := range []string{"Error", "Format"} {
		if set.Lookup(nil, n) != nil {
			return ""
		}
	}
	sel := set.Lookup(nil, "String")
	if sel == nil {
		return ""
	}
	f, ok := sel.Obj().(*types.Func)
	if !ok || f.Pkg() == nil || strings.HasPrefix(f.Pkg().Path(), modPath) {
		return ""
	}
	return f.FullName()
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func itoa(n int64) string { return mkInt(n).sym[2:] }

func hasStringer(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		n := ms.At(i).Obj().Name()
		if n == "String" || n == "Error" || n == "Format" {
			return true
		}
	}
	return false
}

func formatTerm(format, args *Term) (*Term, bool) {
	if format.op == OIte {
		ok := true
		r := lift(format, func(f *Term) *Term {
			t, o := formatTerm(f, args)
			if !o {
				ok = false
				return tNil
			}
			return t
		})
		return r, ok
	}
	f, ok := format.constStr()
	if !ok {
		return nil, false
	}
	as, ok := listElems(args)
	if !ok {
		return nil, false
	}
	var parts []*Term
	lit := ""
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("0123456789.+-# ", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			return nil, false
		}
		verb := f[i+1 : j+1]
		i = j
		if verb == "%" {
			lit += "%"
			continue
		}
		if strings.IndexByte(verb, '*') >= 0 || n >= len(as) {
			return nil, false
		}
		if lit != "" {
			parts = append(parts, mkStr(lit))
			lit = ""
		}
		parts = append(parts, fmtArg(verb, as[n]))
		n++
	}
	if n != len(as) {
		return nil, false
	}
	if lit != "" {
		parts = append(parts, mkStr(lit))
	}
	r := mkStr("")
	for _, p := range parts {
		r = catLift(r, p)
	}
	return r, true
}

// writeOut writes text to the first argument, through its own Write method
// when it has one in the module.
func (fr *frame) writeOut(c *callInfo, s *Term) *Term {
	m := fr.m
	start := fr.cur
	own := bFalse
	for _, a := range alts(c.args[0]) {
		g := bAnd(start, a.g)
		if g == bFalse || a.t.op != OIface {
			continue
		}
		t := a.t.aux.(types.Type)
		n, ok := deref(t).(*types.Named)
		if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			continue
		}
		f := m.w.prog.LookupMethod(t, n.Obj().Pkg(), "Write")
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		leave := m.enter("write:" + fr.fn.String() + fmt.Sprint(instrIndex(c.site)))
		m.callFn(f, []*Term{a.t.args[0], s}, nil, g)
		leave()
		own = bOr(own, a.g)
	}
	if rest := bAnd(start, bNot(own)); rest != bFalse {
		w := unbox(c.args[0])
		if own != bFalse {
			w = restrictTerm(w, bNot(own))
		}
		fr.cur = rest
		fr.event("call", c.name, append([]*Term{w}, s), nil, c.pos)
		fr.m.bufWrite(w, s, rest)
		fr.cur = start
	}
	return writeResult(c.typ, s)
}

func ascending(w *World, name string, args []ssa.Value) bool {
	var less *ssa.Function
	switch name {
	case "sort.Sort", "sort.Stable":
		mi, ok := args[0].(*ssa.MakeInterface)
		if !ok {
			return false
		}
		n, ok := mi.X.Type().(*types.Named)
		if !ok {
			return false
		}
		if n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sort" {
			return true
		}
		if sel := w.prog.MethodSets.MethodSet(n).Lookup(n.Obj().Pkg(), "Less"); sel != nil {
			less = w.prog.MethodValue(sel)
		}
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc":
		switch x := args[1].(type) {
		case *ssa.MakeClosure:
			less = x.Fn.(*ssa.Function)
		case *ssa.Function:
			less = x
		}
	default:
		return true
	}
	if less == nil || len(less.Params) < 2 || len(less.Blocks) != 1 {
		return false
	}
	pi, pj := less.Params[len(less.Params)-2], less.Params[len(less.Params)-1]
	ret, ok := less.Blocks[0].Instrs[len(less.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) != 1 {
		return false
	}
	a, b := pi, pj
	x, y := ssa.Value(nil), ssa.Value(nil)
	cmp := func(v ssa.Value) (ssa.Value, ssa.Value, bool) {
		c, ok := v.(*ssa.Call)
		if !ok {
			return nil, nil, false
		}
		g := c.Call.StaticCallee()
		if g == nil || calleeName(g) != "strings.Compare" && calleeName(g) != "cmp.Compare" {
			return nil, nil, false
		}
		return c.Call.Args[0], c.Call.Args[1], true
	}
	switch r := ret.Results[0].(type) {
	case *ssa.BinOp:
		x, y = r.X, r.Y
		switch r.Op {
		case token.LSS:
		case token.GTR:
			a, b = b, a
		default:
			return false
		}
		if c1, c2, ok := cmp(x); ok {
			if k, ok := y.(*ssa.Const); !ok || constKey(k) != "0" {
				return false
			}
			x, y = c1, c2
		}
	default:
		if x, y, ok = cmp(r); !ok {
			return false
		}
	}
	uses := func(v ssa.Value, p *ssa.Parameter) bool {
		all := &natLoop{nil, map[*ssa.BasicBlock]bool{less.Blocks[0]: true}}
		return dependsOn(v, p, all)
	}
	return plainElem(x) && plainElem(y) && uses(x, a) && !uses(x, b) && uses(y, b) && !uses(y, a)
}

// callFunc calls a function value from a model.
func (fr *frame) callFunc(c *callInfo, f *Term, args []*Term) (*Term, bool) {
	fn, ok := f.aux.(*ssa.Function)
	if f.op != OClosure || !ok {
		return nil, false
	}
	common := &ssa.CallCommon{Value: fn}
	var typ types.Type
	if fn.Signature.Results().Len() == 1 {
		typ = fn.Signature.Results().At(0).Type()
	}
	return fr.static(c.site, common, fn, args, f.args, typ, c.pos), true
}

// fieldByName is the place of a field of the struct p points to.
func fieldByName(p *Term, t types.Type, name string) *Term {
	t = deref(t)
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return fieldRef(p, t, i)
		}
	}
	panic(undecided("no field " + name))
}

// The place of a separator in a text: all the ways to look for a known one are
// expressed by the split at all its occurrences.

func splitTwo(s, sep *Term) *Term {
	return mkT(OCall, "strings.SplitN", types.NewSlice(types.Typ[types.String]), s, sep, mkInt(2))
}

// splitAll is all the parts of a text between a separator.
func splitAll(s, sep *Term) *Term {
	return mkT(OCall, "strings.Split", types.NewSlice(types.Typ[types.String]), s, sep)
}

func foundIn(s, sep *Term) B {
	if s.op == OAt {
		switch c := s.args[0]; {
		case splitMax(c) == -1 && c.args[1] == sep:
			return bFalse // a part has no separator
		case splitMax(c) > 0 && c.args[1] == sep:
			return bTrue // mkAt leaves only a rest with further separators
		}
	}
	return bNot(mkLt(mkLen(splitAll(s, sep)), mkInt(2)))
}

func cutAt(s, sep *Term, i int64) *Term {
	return mkAt(splitTwo(s, sep), mkInt(i), types.Typ[types.String])
}

func indexIn(s, sep *Term) *Term {
	f := foundIn(s, sep)
	return mkIte([]alt{{f, mkT(OCall, "index.found", types.Typ[types.Int], s, sep)}, {bNot(f), mkInt(-1)}})
}

// findText models a search for a constant separator in an unknown text.
func findText(f func(s, sep *Term) *Term) modelFn {
	return func(fr *frame, c *callInfo) (*Term, bool) {
		sep := c.args[1]
		if n, ok := sep.constInt(); ok && n >= 0 && n < 128 {
			sep = mkStr(string(rune(n)))
		}
		if b, ok := sep.constStr(); !ok || b == "" {
			return nil, false
		}
		for _, a := range alts(c.args[0]) {
			if _, ok := a.t.constStr(); ok {
				return nil, false
			}
		}
		return lift(c.args[0], func(s *Term) *Term { return f(s, sep) }), true
	}
}

func cutEnd(has, trim string) modelFn {
	return func(fr *frame, c *callInfo) (*Term, bool) {
		if _, ok := c.args[0].constStr(); ok {
			return nil, false
		}
		if b, ok := c.args[1].constStr(); ok {
			fr.m.longEnough(&callInfo{name: has, args: c.args}, int64(len(b)))
		}
		return mkT(OTuple, "", nil,
			mkT(OCall, trim, types.Typ[types.String], c.args[0], c.args[1]),
			mkBool(bVar(mkT(OCall, has, types.Typ[types.Bool], c.args[0], c.args[1])))), true
	}
}

// longEnough records that a text with a known end has its length at least.
func (m *Machine) longEnough(c *callInfo, n int64) {
	if m.derefs && c.args[0].op != OIte {
		has := bVar(mkT(OCall, c.name, types.Typ[types.Bool], c.args[0], c.args[1]))
		m.facts = bAnd(m.facts, bOr(bNot(has), bNot(mkLt(mkLen(c.args[0]), mkInt(n)))))
	}
}

// trimmed recognises the rest of a text whose beginning or end is known.
func (fr *frame) trimmed(x, lo, hi *Term) *Term {
	if hi != nil && hi.op == OCall && hi.sym == "index.found" && hi.args[0] == x && lo == nil {
		return cutAt(x, hi.args[1], 0)
	}
	if lo != nil && hi == nil && lo.op == OBin && lo.aux == token.ADD && lo.args[0].op == OCall && lo.args[0].sym == "index.found" && lo.args[0].args[0] == x {
		sep, _ := lo.args[0].args[1].constStr()
		if n, ok := lo.args[1].constInt(); ok && int(n) == len(sep) {
			return cutAt(x, lo.args[0].args[1], 1)
		}
	}
	size := func(t *Term) (int64, bool) {
		if t == nil {
			return 0, false
		}
		return t.constInt()
	}
	n, fromStart := size(lo)
	tail := int64(0)
	if lo == nil && hi != nil && hi.op == OBin && hi.args[0] == mkLen(x) {
		k, ok := hi.args[1].constInt()
		switch {
		case ok && hi.aux == token.ADD:
			tail = -k
		case ok && hi.aux == token.SUB:
			tail = k
		}
	}
	if !(fromStart && hi == nil || tail > 0) {
		return nil
	}
	for _, a := range bSupport(fr.cur) {
		if a.op != OCall || len(a.args) != 2 || a.args[0] != x {
			continue
		}
		b, ok := a.args[1].constStr()
		if !ok || bAnd(fr.cur, bNot(bVar(a))) != bFalse {
			continue
		}
		if a.sym == "strings.HasPrefix" && fromStart && int64(len(b)) == n {
			return mkT(OCall, "strings.TrimPrefix", types.Typ[types.String], a.args...)
		}
		if a.sym == "strings.HasSuffix" && tail == int64(len(b)) {
			return mkT(OCall, "strings.TrimSuffix", types.Typ[types.String], a.args...)
		}
	}
	return nil
}
