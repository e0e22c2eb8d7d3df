package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// plainText leaves the quoting of strings out of the text: a string is
// written as it is, whatever decides about the quotes.
func plainText(w *World, quotes bool) func(m *Machine) {
	answer := bFalse
	if quotes {
		answer = bTrue
	}
	return func(m *Machine) {
		if m.models == nil {
			m.models = map[string]modelFn{}
		}
		for _, f := range quoters(w) {
			// the empty string is nothing without quotes, where f says so
			r, g := newMachine(w).callFn(f, []*Term{mkStr("")}, nil, bTrue)
			empty := g == bTrue && toB(r) == bTrue
			m.models[f.String()] = func(fr *frame, c *callInfo) (*Term, bool) {
				if empty {
					return mkBool(bOr(answer, mkEmpty(c.args[0]))), true
				}
				return mkBool(answer), true
			}
		}
		quoted := func(c *callInfo, n int) (*Term, bool) {
			f, ok := c.args[n].constStr()
			if !ok || f != "%q" {
				return nil, false
			}
			as, ok := listElems(c.args[n+1])
			if !ok || len(as) != 1 {
				return nil, false
			}
			return inQuotes(fmtArg("s", as[0])), true
		}
		for _, p := range []string{"strconv.Quote"} {
			m.models[p] = func(fr *frame, c *callInfo) (*Term, bool) { return inQuotes(c.args[0]), true }
		}
		m.models["fmt.Sprintf"] = func(fr *frame, c *callInfo) (*Term, bool) { return quoted(c, 0) }
		m.models["fmt.Fprintf"] = func(fr *frame, c *callInfo) (*Term, bool) {
			t, ok := quoted(c, 1)
			if !ok {
				return nil, false
			}
			return fr.writeOut(c, t), true
		}
	}
}

// inQuotes leaves the quotes out, except where there is nothing else.
func inQuotes(s *Term) *Term {
	e := mkEmpty(s)
	return mkIte([]alt{{e, mkStr("\"\"")}, {bNot(e), s}})
}

// quoters are the functions that decide about the quotes of a string: from
// string to bool, with the help of the YAML library.
func quoters(w *World) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range pkgFns(w.pkg("yaml/pretty")) {
		s := f.Signature
		if s.Recv() != nil || s.Params().Len() != 1 || s.Results().Len() != 1 {
			continue
		}
		if !types.Identical(s.Params().At(0).Type(), types.Typ[types.String]) || !isBoolType(s.Results().At(0).Type()) {
			continue
		}
		if reaches(f, map[*ssa.Function]bool{}, func(g *ssa.Function) bool { return g.Name() == "Unmarshal" && g.Signature.Recv() == nil }) {
			out = append(out, f)
		}
	}
	return out
}

// reaches tells whether f calls, directly or not, a function for which is holds.
func reaches(f *ssa.Function, seen map[*ssa.Function]bool, is func(*ssa.Function) bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			g := c.Common().StaticCallee()
			if g == nil {
				continue
			}
			if is(g) {
				return true
			}
			if g.Pkg == f.Pkg && reaches(g, seen, is) {
				return true
			}
		}
	}
	return false
}

// printed compares texts with the reference, with and without quotes.
func printed(ks ...string) func(c *Ctx) {
	return func(c *Ctx) {
		where := c.fnPos(c.w.fn("yaml/pretty", "Print"))
		for _, k := range ks {
			c.pair("Print"+k, where, "pretty.Print", plainText(c.w, true))
		}
		for _, k := range ks {
			c.pair("Print"+k, where, "pretty.Print, where nothing needs quotes,", plainText(c.w, false))
		}
	}
}

// symbolicText answers for the constant strings of the writer, which are keys
// that need no quotes.
func symbolicText(w *World) func(m *Machine) {
	return func(m *Machine) {
		if m.models == nil {
			m.models = map[string]modelFn{}
		}
		for _, f := range quoters(w) {
			m.models[f.String()] = func(fr *frame, c *callInfo) (*Term, bool) {
				_, ok := c.args[0].constStr()
				return mkBool(bFalse), ok
			}
		}
	}
}

// rawUses collects the conditions under which a text contains s as it is.
func rawUses(t, s *Term, g B, out *[]B) {
	switch t.op {
	case OIte:
		for i := range t.args {
			rawUses(t.args[i], s, bAnd(g, t.gs[i]), out)
		}
	case OSeq:
		var walk func(segs []Seg, g B)
		walk = func(segs []Seg, g B) {
			for _, x := range segs {
				h := bAnd(g, x.g)
				if h == bFalse {
					continue
				}
				if x.kind == SegEach {
					walk(x.body, h)
				} else if x.val == s {
					*out = append(*out, h)
				} else {
					rawUses(x.val, s, h, out)
				}
			}
		}
		walk(t.segs, g)
	}
}

// sameAs writes s for what a condition requires to equal s.
func sameAs(f B, s *Term) B {
	for _, a := range bSupport(f) {
		if a.op != OEq || a.args[0] != s && a.args[1] != s {
			continue
		}
		x := a.args[0]
		if x == s {
			x = a.args[1]
		}
		if x.op == OConst || !mentions(x, func(y *Term) bool { return y == s }) {
			continue
		}
		v := bVar(a)
		with := bAnd(newSubst(x, s).b(bRestrict(f, v)), v)
		f = bOr(bAnd(f, bNot(v)), with)
	}
	return f
}

func init() {
	register(&Check{id: "Y01", minObs: 16,
		rule: "guarded value flow of pretty.Print on an arbitrary cron, registry, secret or signature equals the reference text, with and without quotes; sorting and chunking are modelled, the decision about quotes is not part of the rule",
		run:  printed("Cron", "Signature", "Registry", "Secret")})
	register(&Check{id: "Y02", minObs: 16,
		rule: "guarded value flow of pretty.Print on an arbitrary pipeline, step and service apart from settings equals the reference text, with and without quotes: every field under its key, at its depth, in its order, and nothing for empty fields",
		run:  printed("Pipeline", "Step", "Service", "Containers")})
	register(&Check{id: "Y03", minObs: 40,
		rule: "guarded value flow of pretty.Print on settings of every scalar type, null, lists, mappings, their combinations of two levels, and named settings and secrets equals the reference text",
		run: printed("Settings", "SettingString", "SettingBool", "SettingInt", "SettingInt64", "SettingUint64", "SettingFloat", "SettingNull",
			"SettingList", "SettingMap", "SettingLists", "SettingMaps", "SettingListIn", "SettingMapIn")})
	register(&Check{id: "Y04", minObs: 8,
		rule: "guarded value flow of pretty.Print on a manifest of any number of documents of several kinds equals the texts of the documents in their order, then the end marker",
		run:  printed("Many", "Mixed", "None")})
	register(&Check{id: "Y05", minObs: 15,
		rule: "for an arbitrary string at each kind of place in a document, the condition under which the text of pretty.Print contains it without quotes implies that the YAML library reads the string back as the same string",
		run: func(c *Ctx) {
			where := c.fnPos(c.w.fn("yaml/pretty", "Print"))
			anchors := bFalse
			for _, f := range pkgFns(c.w.pkg("yaml/" + specDir)) {
				if !strings.HasPrefix(f.Name(), "Quote") {
					continue
				}
				m := c.machine()
				symbolicText(c.w)(m)
				s := c.param("s", types.Typ[types.String])
				t, g := c.call(m, f, s)
				var raw []B
				rawUses(t, s, g, &raw)
				reads := "ReadsString"
				if strings.HasPrefix(f.Name(), "QuoteAny") {
					reads = "ReadsAny"
				}
				safe := toB(c.spec(c.machine(), reads, s))
				anchor := toB(c.spec(c.machine(), "Anchor", s))
				if !mentions(t, func(x *Term) bool { return x == s }) {
					c.ob(f.Name()+".text", false, where, "the text does not contain the string")
					continue
				}
				bad := bFalse
				for _, g := range raw {
					bad = bOr(bad, bAnd(g, bNot(safe)))
				}
				bad = sameAs(bad, s)
				anchors = bOr(anchors, bAnd(bad, anchor))
				c.unsat(f.Name(), bAnd(bad, bNot(anchor)), nil, where, "a string that is read back as something else is written without quotes")
			}
			c.unsat("anchors", anchors, nil, where, "a string that starts with & or ! and is read back as something else is written without quotes")
		}})
}

// pkgFns are the functions and methods of a package, by name.
func pkgFns(p *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	for _, m := range p.Members {
		if f, ok := m.(*ssa.Function); ok {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}
