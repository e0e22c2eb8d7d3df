package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Nothing stops the program: nil pointers and maps, positions out of range,
// failed type assertions, divisions by zero and explicit panics.

// given tells that a pointer is present by assumption.
type given func(p *Term) bool

// entries of lists that the code only gets from decoders or other parts of
// the module that never put nil there.
func entriesOf(what ...string) given {
	return func(p *Term) bool {
		if p.op != OAt {
			return false
		}
		s := p.args[0]
		for _, w := range what {
			if mentions(s, func(x *Term) bool {
				return (x.op == OCall || x.op == OParam || x.op == OOpaque) && strings.Contains(x.sym, w)
			}) {
				return true
			}
		}
		return false
	}
}

// noPanic requires that none of the places where the analysed calls could
// panic can be reached in a state in which they do.
func (c *Ctx) noPanic(prefix string, m *Machine, assume B, have ...given) {
	type place struct {
		where, kind string
	}
	conds := map[place]B{}
	about := map[place]string{}
	var order []place
	for _, d := range m.dangers {
		p := place{c.w.posn(d.pos) + " (" + shortType(d.fn.String()) + ")", d.kind}
		if _, ok := conds[p]; !ok {
			conds[p] = bFalse
			order = append(order, p)
		}
	}
	assume = bAnd(assume, m.facts)
	for _, e := range m.events {
		if e.kind != "danger" {
			continue
		}
		g := e.g
		for _, a := range bSupport(g) {
			if a.op != OIsNil {
				continue
			}
			if err := withError(a.args[0]); err != nil {
				g = bAnd(g, bOr(bNot(mkIsNil(err)), bNot(bVar(a))))
			}
			for _, h := range have {
				if h(a.args[0]) {
					g = bRestrict(g, bNot(bVar(a)))
					break
				}
			}
		}
		g = bAnd(g, m.facts)
		for i, l := range e.lvs {
			if !freeVarsB(g)[l.lv] {
				continue
			}
			coll := l.lv.args[0]
			w := wit(fmt.Sprintf("p%d", i), coll)
			s := newSubst(l.lv, w)
			g = s.b(g)
			in := bNot(mkEmpty(coll))
			if l.bound != nil {
				in = bAnd(in, mkBefore(w, s.term(l.bound)))
			}
			g = bAnd(g, in)
		}
		p := place{c.w.posn(e.pos) + " (" + shortType(e.fn.String()) + ")", e.name}
		if len(e.args) > 0 && about[p] == "" {
			about[p] = clip(e.args[0].str(4))
		}
		conds[p] = bOr(conds[p], g)
	}
	sort.SliceStable(order, func(i, j int) bool { return order[i].where+order[i].kind < order[j].where+order[j].kind })
	for _, p := range order {
		c.unsat(prefix+" panic "+p.kind+" "+p.where, bAnd(assume, conds[p]), nil, p.where, "the program stops with a run-time error ("+p.kind+" "+about[p]+")")
	}
}

// withError is the error that comes with a result: a function that gives a
// result and an error gives one of them.
func withError(p *Term) *Term {
	if p.op != OExtract || p.typ == nil || p.typ.String() == "error" || p.args[0].op != OCall || p.args[0].typ == nil {
		return nil
	}
	t, ok := p.args[0].typ.(*types.Tuple)
	if !ok || t.Len() < 2 || t.At(t.Len()-1).Type().String() != "error" {
		return nil
	}
	return tupleAt(p.args[0], t.Len()-1, t.At(t.Len()-1).Type())
}

func (c *Ctx) panicMachine(tune ...func(*Machine)) *Machine {
	m := c.machine()
	m.derefs = true
	m.facts = bTrue
	for _, t := range tune {
		t(m)
	}
	return m
}

// noPanicUse analyses a use of the code for arbitrary arguments that are not nil.
func (c *Ctx) noPanicUse(pkg, n string, tune []func(*Machine), have ...given) {
	f := c.w.fn(pkg, "Use"+n)
	m := c.panicMachine(tune...)
	assume := bTrue
	var args []*Term
	for _, p := range f.Params {
		t := c.param(p.Name(), p.Type())
		args = append(args, t)
		switch p.Type().Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Signature:
			assume = bAnd(assume, bNot(mkIsNil(t)))
		}
	}
	c.call(m, f, args...)
	c.noPanic(n, m, assume, have...)
}

// dynamic is the value in an interface, which is present.
func dynamic(p *Term) bool { return p.op == OCast || p.op == OIface }

func init() {
	s := "yaml/" + specDir
	ls := "yaml/converter/legacy/" + specDir
	tunes := func(f ...func(*Machine)) []func(*Machine) { return f }
	rule := "for each pointer dereference, map write, index, slice bound, type assertion, integer division, explicit panic and dynamic call that the analysed calls reach, the condition (over arbitrary input) under which it is reached in a state in which it panics is unsatisfiable; "
	register(&Check{id: "R01", minObs: 10,
		assume: []string{"a resource given to the linter is not a nil pointer"},
		rule:   rule + "roots: linter.Lint on an arbitrary resource, linter.Manifest on an arbitrary manifest",
		run: func(c *Ctx) {
			c.noPanicUse(s, "LintResource", nil, dynamic)
			c.noPanicUse(s, "LintManifest", nil, dynamic)
			m := c.panicMachine()
			pt := types.NewPointer(c.w.typ("yaml", "Pipeline"))
			p := c.param("pipeline", pt)
			c.call(m, c.w.fn("yaml/linter", "Lint"), mkIface(p, pt), c.param("trusted", types.Typ[types.Bool]))
			c.noPanic("Lint", m, bNot(mkIsNil(p)))
		}})
	register(&Check{id: "R02", minObs: 30,
		assume: []string{"the compiler's callbacks do not panic"},
		rule:   rule + "root: Compiler.Compile on an arbitrary configuration and pipeline",
		run: func(c *Ctx) {
			m := c.panicMachine()
			f := c.w.method("yaml/compiler", "Compiler", "Compile", true)
			cp := c.param("compiler", types.NewPointer(c.w.typ("yaml/compiler", "Compiler")))
			pl := c.param("pipeline", types.NewPointer(c.w.typ("yaml", "Pipeline")))
			c.call(m, f, cp, pl)
			c.noPanic("Compile", m, bAnd(bNot(mkIsNil(cp)), bNot(mkIsNil(pl))))
		}})
	register(&Check{id: "R03", minObs: 30,
		assume: transformAssume,
		rule:   rule + "roots: each transformation on the result of Compiler.Compile",
		run: func(c *Ctx) {
			for _, n := range []string{"Environ", "Labels", "Networks", "Netrc", "Limits", "Volumes", "VolumeSlice", "Auths", "AuthsFunc", "Secrets", "SecretFunc", "Include", "Exclude", "ResumeAt", "Combine"} {
				c.noPanicUse(s, "Compiled"+n, nil, entriesOf("fns"))
			}
		}})
	register(&Check{id: "R04", minObs: 30,
		assume: []string{"a resource given to the formatter is not a nil pointer"},
		rule:   rule + "roots: pretty.Print on each kind of resource and setting, and on manifests of several",
		run: func(c *Ctx) {
			for _, n := range []string{"Cron", "Signature", "Registry", "Secret", "Pipeline", "Step", "Service", "Containers", "Settings", "SettingNull",
				"SettingList", "SettingMap", "SettingLists", "SettingMaps", "SettingListIn", "SettingMapIn", "Many", "Mixed", "None"} {
				var tune []func(*Machine)
				if n != "Cron" && n != "Signature" && n != "Registry" && n != "Secret" {
					tune = tunes(plainText(c.w, true))
				}
				c.noPanicUse(s, "Print"+n, tune, func(p *Term) bool { return n == "Many" && entriesOf("")(p) })
			}
		}})
	register(&Check{id: "R05", minObs: 10,
		assume: signerAssume,
		rule:   rule + "roots: yaml.Parse, ParseRaw and their variants, Manifest.UnmarshalJSON, signer.Sign, SignUpdate, Verify and WriteTo on arbitrary input",
		run: func(c *Ctx) {
			for _, n := range []string{"Parse", "UnmarshalJSON", "ParseRawBytes", "ParseBytes", "ParseRawFile", "ParseFile"} {
				// the documents of the line loop are new (P02)
				c.noPanicUse(s, n, nil, entriesOf("carry:"))
			}
			for _, n := range []string{"Sign", "Verify", "SignUpdate", "WriteTo"} {
				c.noPanicUse(s, n, tunes(opaque("yaml.ParseRawBytes")), entriesOf("ParseRawBytes"))
			}
		}})
	register(&Check{id: "R06", minObs: 10,
		assume: []string{"the steps of a decoded stage are present (V05)"},
		rule:   rule + "roots: the converters on arbitrary files of each kind",
		run: func(c *Ctx) {
			// decoders that leave out null entries
			var containers given = func(p *Term) bool {
				return p.op == OAt && strings.HasSuffix(p.args[0].str(1), ".Containers")
			}
			c.noPanicUse(s, "Gitlab", tunes(convertTune))
			c.noPanicUse(s, "Bitbucket", tunes(convertTune), entriesOf("pipelines"))
			c.noPanicUse(ls, "Legacy", tunes(convertTune, noAxes), containers)
			c.noPanicUse(ls, "Legacy", tunes(convertTune, axesTune), containers)
			conv := opaque("yaml/converter/gitlab.Convert", "yaml/converter/bitbucket.Convert", "yaml/converter/legacy.Convert")
			c.noPanicUse(s, "Convert", tunes(conv))
			c.noPanicUse(s, "ConvertString", tunes(conv))
		}})
	register(&Check{id: "R07", minObs: 20,
		rule: rule + "roots: every decoder and encoder with an arbitrary decoding function, and Condition.Match",
		run: func(c *Ctx) {
			for _, n := range []string{"DecodeBuild", "DecodeCondition", "DecodeVariable", "DecodeParameter", "DecodePort", "DecodePush", "DecodeBytesSize", "EncodeVariable", "EncodeParameter",
				"ConditionMatch", "ConditionIncludes", "ConditionExcludes", "ImageMatch", "ImageMatchTag", "Hostname", "SkipFunc", "DindFunc", "Encode"} {
				c.noPanicUse(s, n, nil)
			}
			for _, n := range []string{"StringSlice", "LegacyStringSlice", "GitlabImage", "Stage", "SliceMap", "Volume", "Secrets", "Constraint", "Containers"} {
				c.noPanicUse(ls, n, nil)
			}
		}})
	register(&Check{id: "R08", minObs: 1,
		rule: rule + "root: main, for an arbitrary command line",
		run: func(c *Ctx) {
			m := c.panicMachine(cliTune)
			c.call(m, c.w.fn("", "main"))
			c.noPanic("main", m, bTrue, dynamic, entriesOf("value"), func(p *Term) bool { return p.op == OCall && p.sym == "value" })
		}})
}
