package main

import (
	"fmt"
	"strings"
)

// Runtime transformations.

var transformAssume = []string{
	structuralAssume,
	"steps and volumes of a specification are present and distinct objects; callbacks are functions of their arguments",
	"rand.String returns a new value at each call",
}

func init() {
	repoModels[modPath+"/yaml/"+specDir+".freshID"] = repoModels[modPath+"/yaml/compiler/internal/rand.String"]
}

// transform compares what a transformation does to an arbitrary
// specification with its reference.
func (c *Ctx) transform(name, target string) {
	where := c.fnPos(c.w.fn("yaml/compiler/transform", target))
	f := c.w.fn("yaml/"+specDir, "Use"+name)
	var args []*Term
	for _, p := range f.Params {
		args = append(args, c.param(p.Name(), p.Type()))
	}
	m1, m2 := c.machine(), c.machine()
	_, g1 := c.call(m1, f, args...)
	_, g2 := c.call(m2, c.w.fn("yaml/"+specDir, "Ref"+name), args...)
	c.equiv(name+".returns", g1, g2, nil, where, target+" returns: this")
	n := c.sameEffect(name, bTrue, m1, m2, where, target+" leaves")
	c.ob(name+".effect", n > 0, where, strings.ToLower(name)+" has no effect")
}

func init() {
	register(&Check{id: "T01", minObs: 10, assume: transformAssume,
		rule: "value flow of each transformation on an arbitrary specification, composed with its constructor: the state of every step, volume and of the specification afterwards equals that of the reference rule",
		run: func(c *Ctx) {
			c.transform("Environ", "WithEnviron")
			c.transform("Labels", "WithLables")
			c.transform("Networks", "WithNetworks")
			c.transform("Netrc", "WithNetrc")
			c.transform("Limits", "WithLimits")
			c.transform("Volumes", "WithVolumes")
			c.transform("VolumeSlice", "WithVolumeSlice")
		}})
	register(&Check{id: "T02", minObs: 6, assume: transformAssume,
		rule: "as T01",
		run: func(c *Ctx) {
			c.transform("Auths", "WithAuths")
			c.transform("AuthsFunc", "WithAuthsFunc")
			c.transform("Secrets", "WithSecrets")
			c.transform("SecretFunc", "WithSecretFunc")
		}})
	register(&Check{id: "T03", minObs: 6, assume: transformAssume,
		rule: "as T01",
		run: func(c *Ctx) {
			c.transform("Include", "Include")
			c.transform("Exclude", "Exclude")
			c.transform("ResumeAt", "ResumeAt")
		}})
	register(&Check{id: "T05", minObs: 3, assume: transformAssume,
		rule: "as T01; the environment of the process is a function of the name asked for",
		run: func(c *Ctx) {
			c.transform("Proxy", "WithProxy")
		}})
	register(&Check{id: "T04", minObs: 6, assume: transformAssume,
		rule: "effect order: Combine calls each given function with the specification, once and in order, and Compile calls the configured function once, with the specification it returns, under exactly the condition that it is set, after its last other write",
		run:  runCombine})
}

func runCombine(c *Ctx) {
	at := c.fnPos(c.w.fn("yaml/compiler/transform", "Combine"))
	f := c.w.fn("yaml/"+specDir, "UseCombine")
	var args []*Term
	for _, p := range f.Params {
		args = append(args, c.param(p.Name(), p.Type()))
	}
	cm := c.machine()
	_, g := c.call(cm, f, args...)
	var calls []Event
	for _, e := range cm.events {
		if e.kind == "call" {
			calls = append(calls, e)
		}
	}
	c.ob("combine.calls", len(calls) == 1, at, fmt.Sprintf("Combine makes %d kinds of calls, expected one", len(calls)))
	for _, e := range calls {
		pos := c.w.posn(e.pos)
		c.ob("combine.each", e.name == "dyn" && len(e.lvs) == 1 && e.lvs[0].lv.args[0] == args[1] && e.lvs[0].bound == nil, pos, "the call is not made once per given function, in order")
		c.ob("combine.function", len(e.args) == 2 && len(e.lvs) == 1 && e.args[0] == mkAt(args[1], e.lvs[0].lv, elemType(args[1].typ)), pos, "the called function is not the one at the position")
		c.ob("combine.spec", len(e.args) == 2 && e.args[1] == args[0], pos, "the function is not given the specification")
		nn := bTrue
		if len(e.args) == 2 {
			nn = bNot(mkIsNil(e.args[0]))
		}
		// every function is reached
		sat, rest := satisfiable(bAnd(nn, bNot(e.g)), nil)
		c.ob("combine.every", !sat, pos, "a function is not called when: "+describe(rest))
	}
	c.ob("combine.returns", g == bTrue, at, "Combine does not always return")

	// the compiler's hook
	r := c.compile()
	m, res, where := r.m, r.spec, r.where
	hook := m.field(r.cp, r.cp.typ, "TransformFunc")
	n := 0
	last := 0
	for i, e := range m.events {
		if e.kind == "call" && e.name == "dyn" && e.args[0] == hook {
			n++
			last = i
			pos := c.w.posn(e.pos)
			c.ob("hook.spec", len(e.args) == 2 && valueEq(e.args[1], res) == bTrue, pos, "the hook is not given the specification that is returned")
			ok, d := implies(bNot(mkIsNil(hook)), e.g, nil)
			c.ob("hook.always", ok && len(e.lvs) == 0, pos, "a hook that is set is not called when: "+d)
		}
	}
	c.ob("hook.once", n == 1, where, fmt.Sprintf("the hook is called at %d places, expected one", n))
	for _, e := range m.events[last+1:] {
		if e.kind == "store" && ofEngine(e.args[0]) || e.kind == "mapupdate" && len(e.args) > 0 && e.args[0].op == OObj {
			c.ob("hook.last", false, c.w.posn(e.pos), "the specification is still changed after the hook ran")
		}
	}
}

// ofEngine tells whether a place lies in an object of the runtime's model.
func ofEngine(loc *Term) bool {
	for loc.op == OFieldRef || loc.op == OIdxRef {
		loc = loc.args[0]
	}
	return strings.Contains(typeKey(loc.typ), "drone-runtime/engine.")
}
