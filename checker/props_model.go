package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pair compares a use of the code with its reference: the same results and
// the same effect on everything that existed before.
func (c *Ctx) pair(name, where, what string, tune ...func(*Machine)) {
	c.pairFns(name, c.w.fn("yaml/"+specDir, "Use"+name), c.w.fn("yaml/"+specDir, "Ref"+name), where, what, tune...)
}

func (c *Ctx) pairFns(name string, f, g *ssa.Function, where, what string, tune ...func(*Machine)) (*Machine, *Machine) {
	var args []*Term
	for _, p := range f.Params {
		args = append(args, c.param(p.Name(), p.Type()))
	}
	m1, m2 := c.machine(), c.machine()
	for _, t := range tune {
		t(m1)
		t(m2)
	}
	r1, g1 := c.call(m1, f, args...)
	r2, g2 := c.call(m2, g, args...)
	c.equiv(name+".returns", g1, g2, nil, where, what+" returns: this")
	care := bAnd(g1, g2)
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		a, b, key := r1, r2, name+".result"
		if res.Len() > 1 {
			a, b = tupleAt(r1, i, res.At(i).Type()), tupleAt(r2, i, res.At(i).Type())
			key += string(rune('0' + i))
		}
		c.sameResult(key, care, m1, a, m2, b, res.At(i).Type(), where, what)
	}
	c.sameEffect(name, care, m1, m2, where, what+" leaves")
	return m1, m2
}

func tupleAt(t *Term, i int, typ types.Type) *Term { return mkExtract(t, i, typ) }

func init() {
	register(&Check{id: "M01", minObs: 6,
		rule: "guarded value flow of Condition.Match, Includes and Excludes on an arbitrary condition and value equals the reference: not excluded, and included when there is an include list; glob matching itself is uninterpreted",
		run: func(c *Ctx) {
			for _, n := range []string{"Match", "Includes", "Excludes"} {
				c.pair("Condition"+n, c.fnPos(c.w.method("yaml", "Condition", n, true)), "Condition."+n)
			}
		}})
	register(&Check{id: "I01", minObs: 4,
		rule: "guarded value flow of image.Match and image.MatchTag on arbitrary images equals the reference that normalises both sides; image.Trim and image.Expand are opaque",
		run: func(c *Ctx) {
			for _, n := range []string{"Match", "MatchTag"} {
				c.pair("Image"+n, c.fnPos(c.w.fn("yaml/compiler/image", n)), "image."+n)
			}
		}})
	register(&Check{id: "I02", minObs: 6,
		rule: "guarded value flow of image.Trim, image.Expand and image.MatchHostname on an arbitrary name equals the reference: the name as the reference library reads it, without tag, with domain and tag, or its domain; names it cannot read are left alone and match no host; the library itself is uninterpreted",
		run: func(c *Ctx) {
			for _, n := range []string{"Trim", "Expand", "Hostname"} {
				of := map[string]string{"Hostname": "MatchHostname"}[n]
				if of == "" {
					of = n
				}
				c.pair("Image"+n, c.fnPos(c.w.fn("yaml/compiler/image", of)), "image."+of, openImage)
			}
		}})
	register(&Check{id: "P07", minObs: 8,
		rule: "guarded value flow of Manifest.MarshalJSON, Encode and MarshalYAML and of the accessors of the resources on arbitrary documents equals the reference: all resources, in order, by the encoder of the library, failures reported; a document's kind and version are its own",
		run: func(c *Ctx) {
			c.pair("EncodeJSON", c.fnPos(c.w.method("yaml", "Manifest", "MarshalJSON", true)), "Manifest.MarshalJSON")
			c.encodesAll()
			c.pair("Access", c.fnPos(c.w.method("yaml", "Pipeline", "GetKind", true)), "the accessors of a resource")
			at := c.fnPos(c.w.method("yaml", "Manifest", "MarshalYAML", true))
			f := c.w.fn("yaml/"+specDir, "UseOneYAML")
			m := c.machine()
			r, g := c.call(m, f, c.param("m", f.Params[0].Type()))
			c.unsat("OneYAML", bAnd(g, mkIsNil(r)), nil, at, "a manifest can be encoded as a single document")
		}})
	register(&Check{id: "L06", minObs: 2,
		rule: "guarded value flow of linter.Lint on an arbitrary resource: it returns nil exactly when the kind's own requirement holds (cron branch, secret data or reference, registry data, signature hash); unknown resources are accepted",
		run: func(c *Ctx) {
			c.pair("LintResource", c.fnPos(c.w.fn("yaml/linter", "Lint")), "Lint")
		}})
}

// openImage lets the functions that normalise image names be analysed.
func openImage(m *Machine) {
	for _, k := range pureOpaque {
		delete(m.opaque, modPath+k)
	}
}

// encodesAll: Manifest.Encode gives every resource to one encoder, once and in
// order, and returns what the encoder wrote unless one of them fails.
func (c *Ctx) encodesAll() {
	fn := c.w.method("yaml", "Manifest", "Encode", true)
	at := c.fnPos(fn)
	m := c.machine()
	// the encoder appends the text of what it is given to its writer
	const lib = "github.com/buildkite/yaml"
	textOf := func(x *Term) *Term { return mkT(OCall, "yaml text", types.Typ[types.String], plainIface(x)) }
	m.models["(*"+lib+".Encoder).Encode"] = func(fr *frame, ci *callInfo) (*Term, bool) {
		r := symb(mkT(OCall, ci.name, ci.typ, ci.args...))
		fr.event("call", ci.name, ci.args, r, ci.pos)
		for _, e := range alts(ci.args[0]) {
			if e.t.op == OCall && e.t.sym == lib+".NewEncoder" {
				m.bufWrite(e.t.args[0], textOf(ci.args[1]), bAnd(fr.cur, bAnd(e.g, mkIsNil(r))))
			}
		}
		return r, true
	}
	mf := c.param("m", fn.Params[0].Type())
	res, g := c.call(m, fn, mf)
	list := m.field(mf, fn.Params[0].Type(), "Resources")
	var enc, all []Event
	for _, e := range m.events {
		switch {
		case e.kind == "call" && strings.HasSuffix(e.name, "yaml.Encoder).Encode"):
			enc = append(enc, e)
		case e.kind == "call" && strings.HasSuffix(e.name, "yaml.NewEncoder"):
			all = append(all, e)
		}
	}
	c.ob("encode.calls", len(enc) == 1 && len(all) == 1, at, fmt.Sprintf("%d encoders are made and used at %d places, expected one", len(all), len(enc)))
	c.ob("encode.returns", g == bTrue, at, "Encode does not always return")
	if len(enc) != 1 || len(all) != 1 {
		return
	}
	e := enc[0]
	pos := c.w.posn(e.pos)
	in := len(e.lvs) == 1 && e.lvs[0].lv.args[0] == list && e.lvs[0].bound == nil
	c.ob("encode.each", in, pos, "the encoder is not called once per resource, in order")
	if !in {
		return
	}
	lv := e.lvs[0].lv
	c.ob("encode.resource", len(e.args) == 2 && plainIface(e.args[1]) == mkAt(list, lv, elemType(list.typ)), pos, "the encoder is not given the resource at the position")
	c.ob("encode.encoder", len(e.args) == 2 && valueEq(e.args[0], all[0].res) == bTrue, pos, "it is not the encoder of the result")
	// an iteration is left out only when an earlier one failed
	failed := bNot(mkIsNil(e.res))
	any := mkExists(list, lv, nil, failed)
	c.unsat("encode.every", bAnd(bNot(any), bNot(e.g)), nil, pos, "a resource is not encoded")
	want := mkSeq("str", types.Typ[types.String], []Seg{{kind: SegEach, g: bTrue, coll: list, lv: lv, body: []Seg{{kind: SegSingle, g: bTrue, val: textOf(e.args[1])}}}})
	c.sameX(m, "encode.text", bNot(any), tupleAt(res, 0, fn.Signature.Results().At(0).Type()), want, types.Typ[types.String], at, "the encoded manifest")
	err := tupleAt(res, 1, types.Universe.Lookup("error").Type())
	c.unsat("encode.fails", bAnd(any, mkIsNil(err)), nil, at, "a failure of the encoder is not reported")
	c.unsat("encode.succeeds", bAnd(bNot(any), bNot(mkIsNil(err))), nil, at, "an error is reported although every resource was encoded")
}

func plainIface(t *Term) *Term {
	if t.op == OIface {
		return t.args[0]
	}
	return t
}
