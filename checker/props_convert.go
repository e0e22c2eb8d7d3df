package main

import (
	"go/types"
)

// convertTune reads a formatted text as the manifest it was made from.
func convertTune(m *Machine) {
	if m.models == nil {
		m.models = map[string]modelFn{}
	}
	m.models[modPath+"/yaml/pretty.Print"] = func(fr *frame, c *callInfo) (*Term, bool) {
		fr.m.bufWrite(unbox(c.args[0]), mkT(OCall, "formatted", types.Typ[types.String], c.args[1]), fr.cur)
		return tUnit, true
	}
	for _, d := range []string{"/yaml/" + specDir, "/yaml/converter/legacy/" + specDir} {
		m.models[modPath+d+".formattedManifest"] = func(fr *frame, c *callInfo) (*Term, bool) {
			var out []alt
			for _, a := range alts(c.args[0]) {
				if unsatisfiable(bAnd(a.g, fr.cur)) {
					continue
				}
				var found *Term
				n := 0
				mentions(a.t, func(x *Term) bool {
					if x.op == OCall && x.sym == "formatted" {
						found = x.args[0]
						n++
					}
					return false
				})
				if n != 1 {
					panic(undecided("the converted file is not one formatted manifest: " + clip(a.t.str(4)) + " when " + describe(bAnd(a.g, fr.cur))))
				}
				out = append(out, alt{a.g, found})
			}
			return restrictTerm(mkIte(out), fr.cur), true
		}
	}
}

// axesTune keeps the text a pipeline is turned into for a build matrix apart
// from its content, which is compared on its own.
func axesTune(m *Machine) {
	m.opaque[modPath+"/yaml/converter/legacy/matrix.Parse"] = true
	const lib = "github.com/buildkite/yaml"
	m.models[lib+".Marshal"] = func(fr *frame, c *callInfo) (*Term, bool) {
		fr.event("marshal", c.name, []*Term{fr.encoded(c.name, c.args[0])}, nil, c.pos)
		return mkT(OCall, "marshalled", c.typ, fr.m.lvArgs()...), true
	}
	m.models[lib+".Unmarshal"] = func(fr *frame, c *callInfo) (*Term, bool) {
		if !mentions(c.args[0], func(x *Term) bool { return x.op == OCall && x.sym == "marshalled" }) {
			return nil, false
		}
		// every field that had content is in the text
		p := unbox(c.args[1])
		fr.m.store(p, zeroOf(deref(p.typ)), fr.cur, deref(p.typ))
		return fr.decode(c.name, c.args, c.typ, c.pos)
	}
}

// marshalled is the content turned into text, and when that happens.
func marshalled(m *Machine) (*Event, int) {
	var out *Event
	n := 0
	for i := range m.events {
		if m.events[i].kind == "marshal" {
			out = &m.events[i]
			n++
		}
	}
	return out, n
}

// noAxes looks at files without a build matrix.
func noAxes(m *Machine) {
	m.models[modPath+"/yaml/converter/legacy/matrix.Parse"] = func(fr *frame, c *callInfo) (*Term, bool) {
		return zeroOf(c.typ), true
	}
}

func init() {
	register(&Check{id: "V05", minObs: 20,
		rule: "guarded value flow of the converter or decoder on arbitrary input equals the reference",
		run: func(c *Ctx) {
			s := "yaml/converter/legacy/" + specDir
			for _, d := range [][4]string{
				{"StringSlice", "StringSlice", "yaml/converter/internal", "StringSlice"},
				{"LegacyStringSlice", "StringSlice", "yaml/converter/legacy/internal", "StringSlice"},
				{"GitlabImage", "", "yaml/converter/gitlab", "Image"},
				{"Stage", "", "yaml/converter/bitbucket", "Stage"},
				{"SliceMap", "", "yaml/converter/legacy/internal", "SliceMap"},
				{"Volume", "", "yaml/converter/legacy/internal", "Volume"},
				{"Secrets", "", "yaml/converter/legacy/internal", "Secrets"},
				{"Constraint", "", "yaml/converter/legacy/internal", "Constraint"},
				{"Containers", "", "yaml/converter/legacy/internal", "Containers"},
			} {
				ref := d[1]
				if ref == "" {
					ref = d[0]
				}
				c.pairFns(d[0], c.w.fn(s, "Use"+d[0]), c.w.fn(s, "Ref"+ref), c.fnPos(c.w.method(d[2], d[3], "UnmarshalYAML", true)), d[3]+".UnmarshalYAML")
			}
		}})
	register(&Check{id: "V02", minObs: 2,
		rule: "guarded value flow of the converter or decoder on arbitrary input equals the reference",
		run: func(c *Ctx) {
			s := "yaml/converter/legacy/" + specDir
			c.pairFns("Legacy", c.w.fn(s, "UseLegacy"), c.w.fn(s, "RefLegacy"), c.fnPos(c.w.fn("yaml/converter/legacy", "Convert")), "legacy.Convert", convertTune, noAxes)
		}})
	register(&Check{id: "V07", minObs: 4,
		rule: "guarded value flow of the converter or decoder on arbitrary input equals the reference",
		run: func(c *Ctx) {
			s := "yaml/converter/legacy/" + specDir
			where := c.fnPos(c.w.fn("yaml/converter/legacy", "Convert"))
			m1, m2 := c.pairFns("Matrix", c.w.fn(s, "UseLegacy"), c.w.fn(s, "RefLegacy"), where, "legacy.Convert", convertTune, axesTune)
			a, n1 := marshalled(m1)
			b, n2 := marshalled(m2)
			if n1 != 1 || n2 != 1 {
				panic(undecided("the pipelines of a build matrix are not made into text at one place"))
			}
			c.ob("Matrix.text", true, where, "")
			if len(a.lvs) != 1 || len(b.lvs) != 1 || a.lvs[0].lv != b.lvs[0].lv {
				panic(undecided("the pipelines of a build matrix are not made one for each entry"))
			}
			coll := a.lvs[0].lv.args[0]
			at := newSubst(a.lvs[0].lv, wit("axis", coll))
			care := bAnd(at.b(bAnd(a.g, b.g)), bNot(mkEmpty(coll)))
			c.sameResult("Matrix.content", care, m1, at.term(a.args[0]), m2, at.term(b.args[0]), nil, where, "pipeline of a matrix entry")
		}})
	register(&Check{id: "V01", minObs: 8,
		rule: "guarded value flow of the converter or decoder on arbitrary input equals the reference",
		run: func(c *Ctx) {
			conv := opaque("yaml/converter/gitlab.Convert", "yaml/converter/bitbucket.Convert", "yaml/converter/legacy.Convert")
			c.pair("Convert", c.fnPos(c.w.fn("yaml/converter", "Convert")), "converter.Convert", conv)
			c.pair("ConvertString", c.fnPos(c.w.fn("yaml/converter", "ConvertString")), "converter.ConvertString", conv)
			// the build without converters
			w := c.w
			c.w = loadWorld("oss")
			for _, n := range []string{"", "String"} {
				s := "yaml/" + specDir
				c.pairFns("OSS"+n, c.w.fn(s, "UseConvert"+n), c.w.fn(s, "RefKeep"+n), c.fnPos(c.w.fn("yaml/converter", "Convert"+n)), "converter.Convert"+n+" (oss build)", conv)
			}
			c.w = w
		}})
	register(&Check{id: "V03", minObs: 4,
		rule: "guarded value flow of the converter or decoder on arbitrary input equals the reference",
		run: func(c *Ctx) {
			c.pair("Gitlab", c.fnPos(c.w.fn("yaml/converter/gitlab", "Convert")), "gitlab.Convert", convertTune)
			c.pair("Bitbucket", c.fnPos(c.w.fn("yaml/converter/bitbucket", "Convert")), "bitbucket.Convert", convertTune)
		}})
}
