package main

import (
	"fmt"
	"go/types"
)

// Linter properties.

const structuralAssume = "distinct entries of a decoded document are distinct objects (no aliasing between list entries)"

func (c *Ctx) lintPipeline(m *Machine) (errNil B, p, trusted *Term, where string) {
	f := c.w.fn("yaml/linter", "Lint")
	pt := types.NewPointer(c.w.typ("yaml", "Pipeline"))
	p = c.param("pipeline", pt)
	trusted = c.param("trusted", types.Typ[types.Bool])
	r, g := c.call(m, f, mkIface(p, pt), trusted)
	c.ob("returns", g == bTrue, c.fnPos(f), "Lint does not return on every path")
	c.lintResult = r
	return mkIsNil(r), p, trusted, c.fnPos(f)
}

func init() {
	register(&Check{id: "L01", minObs: 11,
		rule:   "guarded value flow of linter.Lint on an arbitrary pipeline: the condition under which it returns nil is incompatible with (not trusted) and each trust-gated setting on an arbitrary step, service or volume",
		assume: []string{structuralAssume},
		run: func(c *Ctx) {
			m := c.machine()
			ok, p, trusted, where := c.lintPipeline(m)
			sat, _ := satisfiable(bAnd(ok, bNot(toB(trusted))), nil)
			c.ob("accepts-something", sat, where, "the linter never accepts an untrusted pipeline")
			for _, name := range []string{"GatedHostVolume", "GatedMemoryVolume", "GatedPrivileged", "GatedDevices", "GatedDNS", "GatedDNSSearch", "GatedExtraHosts", "GatedNetwork", "GatedHostPort"} {
				bad := toB(c.spec(m, name, p))
				c.unsat(name, bAll(ok, bNot(toB(trusted)), bad), nil, where, "an untrusted pipeline that uses the gated setting is accepted")
			}
		}})
	register(&Check{id: "L02", minObs: 6,
		rule:   "guarded value flow of linter.Lint: the condition of a nil result excludes reserved volume and mount names, missing image, missing name, duplicate names and unsupported platforms for every step, service, volume and mount",
		assume: []string{structuralAssume},
		run: func(c *Ctx) {
			m := c.machine()
			ok, p, _, where := c.lintPipeline(m)
			for _, name := range []string{"ReservedVolume", "ReservedMount", "MissingImage", "MissingName", "DuplicateName", "BadPlatform"} {
				bad := toB(c.spec(m, name, p))
				c.unsat(name, bAnd(ok, bad), nil, where, "an invalid pipeline is accepted")
			}
		}})
	register(&Check{id: "L03", minObs: 2,
		rule:   "guarded value flow of linter.Lint: a non-nil result implies one of the documented reasons (trust-gated setting while untrusted, reserved name, missing image or name, duplicate name, unknown dependency, unsupported platform)",
		assume: []string{structuralAssume},
		run: func(c *Ctx) {
			m := c.machine()
			ok, p, trusted, where := c.lintPipeline(m)
			r := c.lintResult
			reasons := bFalse
			for _, name := range []string{"ReservedVolume", "ReservedMount", "MissingImage", "MissingName", "DuplicateName", "BadPlatform", "BadStepDep"} {
				reasons = bOr(reasons, toB(c.spec(m, name, p)))
			}
			gated := toB(c.spec(m, "Gated", p))
			reasons = bOr(reasons, bAnd(bNot(toB(trusted)), gated))
			// one error at a time
			bad := bAnd(bNot(ok), bNot(reasons))
			n := 0
			for _, a := range alts(r) {
				if mkIsNil(a.t) == bTrue {
					continue
				}
				n++
				c.unsat(fmt.Sprint("no-other-reason.", n), bAnd(bad, a.g), nil, where, "a pipeline without any documented defect is rejected ("+clip(a.t.str(2))+")")
				bad = bAnd(bad, bNot(a.g))
			}
			c.unsat("no-other-reason", bad, nil, where, "a pipeline without any documented defect is rejected")
		}})
	register(&Check{id: "L04", minObs: 3,
		rule:   "guarded value flow of linter.Lint: a nil result implies that every dependency of every step names an earlier step or the enabled clone step and is not the step itself",
		assume: []string{structuralAssume},
		run: func(c *Ctx) {
			m := c.machine()
			ok, p, _, where := c.lintPipeline(m)
			c.unsat("BadStepDep", bAnd(ok, toB(c.spec(m, "BadStepDep", p))), nil, where, "a step with an unknown, later or own name as dependency is accepted")
			sat, _ := satisfiable(bAnd(ok, toB(c.spec(m, "HasStepDep", p))), nil)
			c.ob("accepts-deps", sat, where, "no pipeline with step dependencies is accepted")
		}})
	register(&Check{id: "L05", minObs: 4,
		rule:   "guarded value flow of linter.Manifest: the result is nil exactly when pipeline names are unique, every dependency of a pipeline names an earlier pipeline and (for docker pipelines) the platform is supported",
		assume: []string{structuralAssume},
		run: func(c *Ctx) {
			m := c.machine()
			f := c.w.fn("yaml/linter", "Manifest")
			mf := c.param("manifest", f.Params[0].Type())
			tr := c.param("trusted", types.Typ[types.Bool])
			r, g := c.call(m, f, mf, tr)
			where := c.fnPos(f)
			c.ob("returns", g == bTrue, where, "Manifest does not return on every path")
			ok := mkIsNil(r)
			reasons := bFalse
			for _, name := range []string{"DuplicatePipeline", "BadPipelineDep", "BadManifestPlatform"} {
				bad := toB(c.spec(m, name, mf))
				c.unsat(name, bAnd(ok, bad), nil, where, "an invalid manifest is accepted")
				reasons = bOr(reasons, bad)
			}
			c.unsat("no-other-reason", bAnd(bNot(ok), bNot(reasons)), nil, where, "a manifest without any documented defect is rejected")
		}})
}
