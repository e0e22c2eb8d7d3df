package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Compiler properties.

const (
	kClone   = "clone"
	kService = "service"
	kStep    = "step"
)

var compileAssume = []string{
	structuralAssume,
	"the user's callbacks are functions of their arguments and do not write to the specification; the property is about what the compiler itself puts there, before TransformFunc runs",
	"rand.String returns a new value at each call; image.Expand and image.Trim are functions of their argument",
	"the document model has no cycles and is not written by other goroutines during compilation",
}

type cstep struct {
	leaf
	kind string
	src  *Term // *yaml.Container
	ptr  *Term // *engine.Step
}

type compiled struct {
	c                  *Ctx
	m                  *Machine
	cp, pl, spec       *Term
	steps              []cstep
	where              string
	stepT, specT, docT types.Type
	contT              types.Type
	services, plSteps  *Term
}

func (c *Ctx) engineType(name string) types.Type {
	f := c.w.method("yaml/compiler", "Compiler", "Compile", true)
	p := f.Signature.Results().At(0).Type().(*types.Pointer).Elem().(*types.Named).Obj().Pkg()
	o := p.Scope().Lookup(name)
	if o == nil {
		panic(undecided("engine type " + name + " not found"))
	}
	return o.Type()
}

// compile computes the value flow of the compiler on an arbitrary pipeline.
func (c *Ctx) compile() *compiled {
	m := c.machine()
	f := c.w.method("yaml/compiler", "Compiler", "Compile", true)
	r := &compiled{c: c, m: m, where: c.fnPos(f)}
	r.cp = c.param("compiler", types.NewPointer(c.w.typ("yaml/compiler", "Compiler")))
	r.pl = c.param("pipeline", types.NewPointer(c.w.typ("yaml", "Pipeline")))
	spec, g := c.call(m, f, r.cp, r.pl)
	c.ob("returns", g == bTrue, r.where, "Compile does not return on every path")
	r.init(spec)
	return r
}

func (r *compiled) init(spec *Term) {
	c, m := r.c, r.m
	r.spec = spec
	pt := c.w.typ("yaml", "Pipeline")
	r.specT, r.stepT = c.engineType("Spec"), c.engineType("Step")
	r.contT = types.NewPointer(c.w.typ("yaml", "Container"))
	r.services = m.field(r.pl, pt, "Services")
	r.plSteps = m.field(r.pl, pt, "Steps")
	list := m.field(spec, r.specT, "Steps")
	for _, l := range leaves(list) {
		s := cstep{leaf: l, ptr: l.val}
		switch {
		case len(l.binders) == 0:
			s.kind = kClone
		case l.over(r.services):
			s.kind = kService
			s.src = mkAt(r.services, l.binders[0].w, r.contT)
		case l.over(r.plSteps):
			s.kind = kStep
			s.src = mkAt(r.plSteps, l.binders[0].w, r.contT)
		default:
			panic(undecided("the compiled step list has an entry that comes neither from the clone step nor from one entry of services or steps"))
		}
		r.steps = append(r.steps, s)
	}
	if len(r.steps) == 0 {
		panic(undecided("no compiled steps found"))
	}
}

func (r *compiled) f(s cstep, path string) *Term { return r.m.field(s.ptr, r.stepT, path) }

func (r *compiled) want(name string, args ...*Term) *Term { return r.c.spec(r.m, name, args...) }

func (r *compiled) isService(s cstep) *Term { return mkBool(constB(s.kind == kService)) }

func (r *compiled) wants(name string, args ...*Term) B { return toB(r.want(name, args...)) }

// uidOf resolves the reference's "uid of the step compiled from" to the
// identifier of the compiled step.
func (r *compiled) resolveUID(t, uid *Term) *Term {
	for n := 0; n < 20; n++ {
		var call *Term
		mentions(t, func(x *Term) bool {
			if x.op == OCall && x.sym == "dyn" && len(x.args) == 2 && x.args[0] == uid {
				call = x
				return true
			}
			return false
		})
		if call == nil {
			return t
		}
		src := call.args[1]
		if src.op != OAt || src.args[0] != r.plSteps {
			panic(undecided("alias of an unknown step"))
		}
		var found *Term
		for _, s := range r.steps {
			if s.kind == kStep {
				p := newSubst(s.binders[0].w, src.args[1]).term(s.ptr)
				found = r.m.field(p, r.stepT, "Metadata.UID")
				// the index was chosen by its condition
				if i := src.args[1]; i.op == OLast || i.op == OFirst {
					found = restrictDeep(found, newSubst(i.args[1], i).b(i.gs[0]))
				}
			}
		}
		if found == nil {
			panic(undecided("no compiled steps for the alias"))
		}
		t = newSubst(call, found).term(t)
	}
	panic(undecided("alias resolution does not end"))
}

// each runs a rule on the compiled steps of the given kinds.
func (r *compiled) each(rule func(s cstep, key string), kinds ...string) {
	n := map[string]int{}
	for _, s := range r.steps {
		for _, k := range kinds {
			if s.kind == k {
				n[k]++
				key := k
				if n[k] > 1 {
					key = fmt.Sprintf("%s%d", k, n[k])
				}
				rule(s, key)
			}
		}
	}
	for _, k := range kinds {
		if n[k] == 0 {
			r.c.ob("no-"+k, false, r.where, "the compiler creates no "+k)
		}
	}
}

// check compares one field of every step of the kinds with its reference.
func (r *compiled) check(path string, want func(s cstep) *Term, kinds ...string) {
	r.each(func(s cstep, key string) {
		ft := r.fieldType(path)
		r.c.same(r.m, key+"."+path, s.g, r.f(s, path), want(s), ft, r.where, path+" of a compiled "+s.kind, r.live(s)...)
	}, kinds...)
}

// live holds what is known about an entry of a document list.
func (r *compiled) live(s cstep) []B {
	if s.src == nil {
		return nil
	}
	return []B{bImp(s.g, bNot(mkIsNil(s.src)))}
}

func (r *compiled) fieldType(path string) types.Type { return fieldType(r.stepT, path) }

func fieldType(t types.Type, path string) types.Type {
	for _, n := range strings.Split(path, ".") {
		st, ok := isStruct(deref(t))
		if !ok {
			panic(undecided("no field " + n))
		}
		found := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				t, found = st.Field(i).Type(), true
				break
			}
		}
		if !found {
			panic(undecided("no field " + n + " in " + typeKey(t)))
		}
	}
	return t
}

func init() {
	reg := func(id string, minObs int, rule string, run func(r *compiled)) {
		register(&Check{id: id, minObs: minObs, rule: rule, assume: compileAssume, run: func(c *Ctx) { run(c.compile()) }})
	}
	reg("C01", 4, "guarded value flow of Compiler.Compile: the privileged flag of every compiled step, service and clone step equals the reference rule", func(r *compiled) {
		r.check("Docker.Privileged", func(s cstep) *Term { return r.want("WantPrivileged", r.cp, r.pl, s.src, r.isService(s)) }, kService, kStep)
		r.check("Docker.Privileged", func(s cstep) *Term { return tFalse }, kClone)
	})
	reg("C02", 5, "guarded value flow of Compiler.Compile: the volumes of the specification and the mounts of every step; a mount named _docker_socket or a host path of the socket appears only for build steps", func(r *compiled) {
		r.dockerSocket()
	})
	reg("C07", 8, "guarded value flow of Compiler.Compile: the step list is the clone step (when enabled), then one entry per non-nil service, then one entry per non-nil step, with the reference dependencies", func(r *compiled) {
		r.coverage()
		r.check("DependsOn", func(s cstep) *Term { return r.want("WantDependsOn", r.pl, s.src, r.isService(s)) }, kService, kStep)
		r.check("DependsOn", func(s cstep) *Term { return zeroOf(r.fieldType("DependsOn")) }, kClone)
		r.check("Metadata.Name", func(s cstep) *Term { return r.m.field(s.src, r.contT, "Name") }, kService, kStep)
		r.check("Metadata.Name", func(s cstep) *Term { return mkStr("clone") }, kClone)
		r.check("Detach", func(s cstep) *Term { return r.want("WantDetach", s.src, r.isService(s)) }, kService, kStep)
		r.check("Detach", func(s cstep) *Term { return tFalse }, kClone)
	})
	reg("C14", 6, "guarded value flow of Compiler.Compile: run policy, error policy and pull policy of every compiled step equal the reference rules", func(r *compiled) {
		r.check("RunPolicy", func(s cstep) *Term { return r.want("WantRunPolicy", r.cp, r.pl, s.src) }, kService, kStep)
		r.check("RunPolicy", func(s cstep) *Term { return mkInt(0) }, kClone)
		r.check("IgnoreErr", func(s cstep) *Term { return r.want("WantIgnoreErr", s.src) }, kService, kStep)
		r.check("IgnoreErr", func(s cstep) *Term { return tFalse }, kClone)
		r.check("Docker.PullPolicy", func(s cstep) *Term { return r.want("WantPull", s.src, r.isService(s)) }, kService, kStep)
	})
	reg("C04", 6, "guarded value flow of Compiler.Compile: the environment map (looked up at an arbitrary key) and the secret references of every compiled step equal the reference rules", func(r *compiled) {
		r.check("Envs", func(s cstep) *Term {
			return r.want("WantEnvs", r.pl, s.src, r.isService(s), r.f(s, "Metadata.UID"))
		}, kService, kStep)
		r.check("Envs", func(s cstep) *Term { return r.want("WantCloneEnvs", r.pl) }, kClone)
		r.check("Secrets", func(s cstep) *Term { return r.want("WantSecrets", s.src, r.isService(s)) }, kService, kStep)
		r.check("Secrets", func(s cstep) *Term { return zeroOf(r.fieldType("Secrets")) }, kClone)
	})
	reg("C05", 14, "guarded value flow of Compiler.Compile: the pass-through settings of every compiled service and step, and the platform and labels of the specification, equal the reference rules", func(r *compiled) {
		st := r.stepT
		doc := fieldType(st, "Docker")
		for _, n := range []string{"DNS", "DNSSearch", "ExtraHosts", "Network", "Ports", "User"} {
			n := n
			r.each(func(s cstep, key string) {
				care := s.g
				if s.kind == kStep {
					care = bAnd(care, bNot(r.wants("IsBuild", s.src)))
				}
				want := r.want("WantDocker", s.src)
				r.c.same(r.m, key+"."+n, care, r.f(s, "Docker."+n), r.m.field(want, doc, n), fieldType(doc, n), r.where, n+" of a compiled "+s.kind, r.live(s)...)
			}, kService, kStep)
		}
		for _, n := range []string{"Command", "Args"} {
			n := n
			r.each(func(s cstep, key string) {
				care := bAnd(s.g, bNot(r.wants("HasCommands", s.src)))
				if s.kind == kStep {
					care = bAnd(care, bNot(r.wants("IsBuild", s.src)))
				}
				want := r.want("WantDocker", s.src)
				r.c.same(r.m, key+"."+n, care, r.f(s, "Docker."+n), r.m.field(want, doc, n), fieldType(doc, n), r.where, n+" of a compiled "+s.kind, r.live(s)...)
			}, kService, kStep)
		}
		for _, n := range []string{"Command", "Args", "DNS"} {
			n := n
			r.each(func(s cstep, key string) {
				care := bAnd(s.g, r.wants("IsBuild", s.src))
				want := r.want("WantBuildDocker", s.src)
				r.c.same(r.m, key+".build."+n, care, r.f(s, "Docker."+n), r.m.field(want, doc, n), fieldType(doc, n), r.where, n+" of a build step", r.live(s)...)
			}, kStep)
		}
		r.check("Resources", func(s cstep) *Term { return r.want("WantResources", s.src) }, kService, kStep)
		r.check("Metadata.Labels", func(s cstep) *Term { return r.want("WantLabels", s.src) }, kService, kStep)
		r.c.same(r.m, "spec.Platform", bTrue, r.m.field(r.spec, r.specT, "Platform"), r.want("WantPlatform", r.pl), fieldType(r.specT, "Platform"), r.where, "Platform")
		r.c.same(r.m, "spec.Labels", bTrue, r.m.field(r.spec, r.specT, "Metadata.Labels"), r.want("WantPipelineLabels", r.pl), fieldType(r.specT, "Metadata.Labels"), r.where, "Labels")
	})
	reg("C06", 20, "guarded value flow of Compiler.Compile, with the default and with the host workspace hooks: mounts, working directory and workspace variables of every compiled container equal the reference rules", func(r *compiled) {
		c, m := r.c, r.m
		r.check("WorkingDir", func(s cstep) *Term { return r.want("WantWorkingDir", r.pl, s.src, r.isService(s)) }, kService, kStep)
		w := r.want("WantWorkspace", r.pl)
		str := types.Typ[types.String]
		r.check("WorkingDir", func(s cstep) *Term { return mkFieldOf(w, 2, str) }, kClone)
		for i, suffix := range []string{"_WORKSPACE_BASE", "_WORKSPACE_PATH", "_WORKSPACE"} {
			for _, prefix := range []string{"DRONE", "CI"} {
				i, name := i, prefix+suffix
				r.each(func(s cstep, key string) {
					v, ok := mkLookup(m.deep(r.f(s, "Envs"), r.fieldType("Envs")), mkStr(name), str)
					c.unsat(key+"."+name, bAnd(s.g, bNot(ok)), nil, r.where, name+" is not set on every "+s.kind, r.live(s)...)
					c.same(m, key+"."+name+".value", bAnd(s.g, ok), v, mkFieldOf(w, i, str), str, r.where, name+" of a "+s.kind, r.live(s)...)
				}, kClone, kService, kStep)
			}
		}
		def := mkIsNil(m.field(r.cp, c.w.typ("yaml/compiler", "Compiler"), "WorkspaceMountFunc"))
		r.mounts(def, "", "WantMounts", "WantCloneMounts")
		// every step calls the mount hook when there is one
		h := r.host()
		hasBuild := h.wants("HasBuild", h.pl)
		h.mounts(bTrue, "host.", "WantHostMounts", "WantHostCloneMounts")
		h.volumes("host.", bTrue, func(name, host *Term, hp *Term) (B, string) {
			return bAny(mkEq(name, mkStr("workspace")), bAnd(mkEq(name, mkStr("host")), bAnd(bNot(mkIsNil(host)), mkEq(hp, h.dir))), bAnd(hasBuild, mkEq(name, mkStr("_docker_socket")))), "the workspace, the host folder or the docker socket of a build"
		}, []string{"workspace", "host"})
	})
	reg("C10", 10, "guarded value flow of Compiler.Compile: one volume per declared volume with its source, plus the workspace; the mounts of every container equal the reference rule", func(r *compiled) {
		c, m := r.c, r.m
		r.declaredVolumes()
		ct := c.w.typ("yaml/compiler", "Compiler")
		def := mkIsNil(m.field(r.cp, ct, "WorkspaceMountFunc"))
		r.mounts(def, "", "WantMounts", "WantCloneMounts")
		wf := mkIsNil(m.field(r.cp, ct, "WorkspaceFunc"))
		hasBuild := r.wants("HasBuild", r.pl)
		r.volumes("", wf, func(name, host, hp *Term) (B, string) {
			return bOr(bAnd(mkEq(name, mkStr("workspace")), mkIsNil(host)), bAnd(hasBuild, mkEq(name, mkStr("_docker_socket")))), "the workspace or the docker socket"
		}, []string{"workspace"})
	})
	reg("C11", 6, "guarded value flow of Compiler.Compile: the image of every container is the expanded declared image, or the alias of the image a build step of this pipeline produces; the build step is told the same alias", func(r *compiled) {
		uid := r.c.param("uidOf", types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", r.contT)), types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.String])), false))
		r.check("Docker.Image", func(s cstep) *Term {
			return r.resolveUID(r.want("WantImage", r.pl, s.src, r.isService(s), uid), uid)
		}, kService, kStep)
		r.check("Docker.Image", func(s cstep) *Term { return r.resolveUID(r.want("WantCloneImage", r.pl, uid), uid) }, kClone)
		str := types.Typ[types.String]
		r.each(func(s cstep, key string) {
			build := bAnd(s.g, r.wants("HasBuildImage", s.src))
			v, ok := mkLookup(r.m.deep(r.f(s, "Envs"), r.fieldType("Envs")), mkStr("DOCKER_BUILD_IMAGE_ALIAS"), str)
			r.c.unsat(key+".alias-set", bAnd(build, bNot(ok)), nil, r.where, "a build step is not told the alias", r.live(s)...)
			r.c.same(r.m, key+".alias", bAnd(build, ok), v, r.want("WantAliasEnv", s.src, r.f(s, "Metadata.UID")), str, r.where, "alias of a build step", r.live(s)...)
			v, ok = mkLookup(r.m.deep(r.f(s, "Envs"), r.fieldType("Envs")), mkStr("DOCKER_BUILD_IMAGE"), str)
			r.c.unsat(key+".image-set", bAnd(build, bNot(ok)), nil, r.where, "a build step is not told its image", r.live(s)...)
		}, kStep)
	})
	reg("C15", 7, "guarded value flow of Compiler.Compile: image, parameters, credentials file and pull policy of the clone step equal the reference rules", func(r *compiled) { r.clone() })
	reg("C08", 10, "guarded value flow of Compiler.Compile: identifiers of steps, volumes and files are distinct fresh random values and every namespace is the one of the specification; data flow of rand.String from crypto/rand", func(r *compiled) { r.ids() })
	reg("C09", 12, "guarded value flow of Compiler.Compile: the script of every container with commands is decomposed into its parts", func(r *compiled) { r.scripts() })
	reg("C12", 2, "effects of Compiler.Compile: no store, map update or element write to memory reachable from the document or the compiler, and no write to package state", func(r *compiled) { r.pure() })
	register(&Check{id: "C03", minObs: 12, assume: compileAssume,
		rule: "guarded value flow of SkipFunc (composed with its callback) equals the reference rule for every condition; guarded value flow of Compile: a step for which the skip callback answers true never runs; Condition.Match equals its definition",
		run: func(c *Ctx) {
			m := c.machine()
			f := c.w.fn("yaml/"+specDir, "Skips")
			d := c.param("data", f.Params[0].Type())
			src := c.param("step", f.Params[1].Type())
			where := c.fnPos(c.w.fn("yaml/compiler", "SkipFunc"))
			got := toB(c.spec(m, "Skips", d, src))
			want := toB(c.spec(m, "WantSkip", d, src))
			c.equiv("skip", got, want, nil, where, "a step is skipped: this")
			st, _ := isStruct(f.Params[0].Type())
			for i := 0; i < st.NumFields(); i++ {
				// each condition matters on its own
				n := st.Field(i).Name()
				v := mkFieldOf(d, i, st.Field(i).Type())
				dep := mentionsB(got, func(t *Term) bool { return t == v })
				c.ob("uses-"+n, dep, where, "the decision ignores the "+n+" of the build")
			}
			r := c.compile()
			never := mkInt(3)
			sf := m.field(r.cp, c.w.typ("yaml/compiler", "Compiler"), "SkipFunc")
			r.each(func(s cstep, key string) {
				call := symb(mkT(OCall, "dyn", types.Typ[types.Bool], sf, s.src))
				c.unsat(key+".skipped", bAll(s.g, bNot(mkIsNil(sf)), toB(call), bNot(mkEq(r.f(s, "RunPolicy"), never))), nil, r.where, "a "+s.kind+" that must be skipped can run", r.live(s)...)
			}, kService, kStep)
		}})
	register(&Check{id: "C13", minObs: 1, assume: compileAssume,
		rule: "guarded value flow of DindFunc composed with its callback equals the reference rule",
		run: func(c *Ctx) {
			m := c.machine()
			f := c.w.fn("yaml/"+specDir, "Dind")
			images := c.param("images", f.Params[0].Type())
			src := c.param("step", f.Params[1].Type())
			where := c.fnPos(c.w.fn("yaml/compiler", "DindFunc"))
			c.equiv("dind", toB(c.spec(m, "Dind", images, src)), toB(c.spec(m, "WantDind", images, src)), nil, where, "a container runs privileged by policy: this")
		}})
}

type hosted struct {
	*compiled
	dir *Term
}

// host compiles with the host workspace hooks of the package.
func (r *compiled) host() *hosted {
	c := r.c
	m := c.machine()
	h := &hosted{compiled: &compiled{c: c, m: m, where: c.fnPos(c.w.fn("yaml/compiler", "MountHostWorkspace")), pl: r.pl}}
	h.dir = c.param("dir", types.Typ[types.String])
	h.init(h.want("HostCompile", h.pl, h.dir))
	return h
}

func (r *compiled) mounts(care B, prefix, want, wantClone string) {
	ft := r.fieldType("Volumes")
	r.each(func(s cstep, key string) {
		var w *Term
		if s.kind == kClone {
			w = r.want(wantClone, r.pl)
		} else {
			w = r.want(want, r.pl, s.src, r.isService(s))
		}
		r.c.same(r.m, prefix+key+".Volumes", bAnd(s.g, care), r.f(s, "Volumes"), w, ft, r.where, "Volumes of a compiled "+s.kind, r.live(s)...)
	}, kClone, kService, kStep)
}

func (r *compiled) volumeT() types.Type {
	return fieldType(r.specT, "Docker.Volumes").Underlying().(*types.Slice).Elem()
}

// volumes checks the volumes that the compiler adds on its own.
func (r *compiled) volumes(prefix string, care B, allowed func(name, host, hp *Term) (B, string), must []string) {
	c, m, vt := r.c, r.m, r.volumeT()
	found := map[string]B{}
	for i, l := range leaves(m.field(r.spec, r.specT, "Docker.Volumes")) {
		if len(l.binders) > 0 {
			continue
		}
		host := m.field(l.val, vt, "HostPath")
		hp := m.field(host, fieldType(vt, "HostPath"), "Path")
		name := m.field(l.val, vt, "Metadata.Name")
		ok, what := allowed(name, host, hp)
		c.unsat(fmt.Sprintf("%sown-volume%d", prefix, i), bAll(l.g, care, bNot(ok)), nil, r.where, "the compiler adds a volume that is not "+what)
		// a host folder, or else a plain empty folder
		dir := m.field(l.val, vt, "EmptyDir")
		dt := fieldType(vt, "EmptyDir")
		noHost, noDir := mkIsNil(host), mkIsNil(dir)
		plain := bAnd(mkEmpty(m.field(dir, dt, "Medium")), mkEq(m.field(dir, dt, "SizeLimit"), zeroOf(fieldType(dt, "SizeLimit"))))
		c.unsat(fmt.Sprintf("%ssource%d", prefix, i), bAll(l.g, care, bIff(noHost, noDir)), nil, r.where, "a volume that the compiler adds is neither a host folder nor an empty folder, or both")
		c.unsat(fmt.Sprintf("%splain%d", prefix, i), bAll(l.g, care, bNot(noDir), bNot(plain)), nil, r.where, "an empty folder that the compiler adds has a medium or a size limit")
		for _, n := range must {
			has := bAnd(l.g, mkEq(name, mkStr(n)))
			c.unsat(fmt.Sprintf("%stwice-%s%d", prefix, n, i), bAll(care, has, found[n]), nil, r.where, "the volume "+n+" is added twice")
			if prev, ok := found[n]; ok {
				has = bOr(prev, has)
			}
			found[n] = has
		}
	}
	for _, n := range must {
		f, ok := found[n]
		if !ok {
			f = bFalse
		}
		c.unsat(prefix+"volume-"+n, bAnd(care, bNot(f)), nil, r.where, "the volume "+n+" is missing")
	}
}

func (r *compiled) declaredVolumes() {
	c, m, vt := r.c, r.m, r.volumeT()
	pt := c.w.typ("yaml", "Pipeline")
	coll := m.field(r.pl, pt, "Volumes")
	et := elemType(coll.typ)
	any := bFalse
	var src *Term
	for i, l := range leaves(m.field(r.spec, r.specT, "Docker.Volumes")) {
		if len(l.binders) == 0 {
			continue
		}
		if !l.over(coll) {
			panic(undecided("a compiled volume comes neither from the compiler nor from one declared volume"))
		}
		src = mkAt(coll, l.binders[0].w, et)
		live := bImp(l.g, bNot(mkIsNil(src)))
		key := fmt.Sprintf("volume%d", i)
		c.same(m, key+".Name", l.g, m.field(l.val, vt, "Metadata.Name"), m.field(src, et, "Name"), types.Typ[types.String], r.where, "Name of a volume", live)
		c.same(m, key+".EmptyDir", l.g, m.field(l.val, vt, "EmptyDir"), r.want("WantEmptyDir", src), fieldType(vt, "EmptyDir"), r.where, "EmptyDir of a volume", live)
		c.same(m, key+".HostPath", l.g, m.field(l.val, vt, "HostPath"), r.want("WantHostPath", src), fieldType(vt, "HostPath"), r.where, "HostPath of a volume", live)
		c.unsat(key+".once", bAnd(any, l.g), nil, r.where, "a volume is compiled twice")
		any = bOr(any, l.g)
	}
	if src == nil {
		c.ob("volumes", false, r.where, "declared volumes are not compiled")
		return
	}
	c.equiv("volumes", any, bAnd(bNot(mkEmpty(coll)), bNot(mkIsNil(src))), nil, r.where, "a declared volume")
}

func (r *compiled) clone() {
	c, m := r.c, r.m
	uid := c.param("uidOf", types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", r.contT)), types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.String])), false))
	r.check("Docker.Image", func(s cstep) *Term { return r.resolveUID(r.want("WantCloneImage", r.pl, uid), uid) }, kClone)
	r.check("Envs", func(s cstep) *Term { return r.want("WantCloneEnvs", r.pl) }, kClone)
	r.check("Docker.PullPolicy", func(s cstep) *Term { return mkInt(2) }, kClone)
	doc := fieldType(r.stepT, "Docker")
	for _, n := range []string{"Command", "Args", "Network", "Ports", "User"} {
		n := n
		r.each(func(s cstep, key string) {
			c.same(m, key+"."+n, s.g, r.f(s, "Docker."+n), zeroOf(fieldType(doc, n)), fieldType(doc, n), r.where, n+" of the clone step")
		}, kClone)
	}
	// credentials
	ct := c.w.typ("yaml/compiler", "Compiler")
	gf := m.field(r.cp, ct, "GitCredentialsFunc")
	data := mkT(OCall, "dyn", types.NewSlice(types.Typ[types.Byte]), gf)
	want := bAll(r.wants("CloneEnabled", r.pl), bNot(mkIsNil(gf)), bNot(mkEmpty(data)))
	fileT := fieldType(r.specT, "Files").Underlying().(*types.Slice).Elem()
	has := bFalse
	for i, l := range leaves(m.field(r.spec, r.specT, "Files")) {
		if len(l.binders) > 0 {
			continue
		}
		isCred := bAnd(l.g, mkEq(m.field(l.val, fileT, "Metadata.Name"), mkStr(".git-credentials")))
		c.same(m, fmt.Sprintf("credentials-data%d", i), isCred, m.field(l.val, fileT, "Data"), data, fieldType(fileT, "Data"), r.where, "content of the credentials file")
		has = bOr(has, isCred)
	}
	c.equiv("credentials-file", has, want, nil, r.where, "the credentials file")
	mt := r.fieldType("Files").Underlying().(*types.Slice).Elem()
	r.each(func(s cstep, key string) {
		mounted := bFalse
		for _, l := range leaves(r.f(s, "Files")) {
			mounted = bOr(mounted, bAll(s.g, l.g, mkEq(m.field(l.val, mt, "Name"), mkStr(".git-credentials")), mkEq(m.field(l.val, mt, "Path"), mkStr("/root/.git-credentials"))))
		}
		c.equiv("credentials-mount", mounted, want, nil, r.where, "the mount of the credentials file in the clone step")
	}, kClone)
	r.each(func(s cstep, key string) {
		for i, l := range leaves(r.f(s, "Files")) {
			if len(l.binders) > 0 {
				panic(undecided("file mounts of a step"))
			}
			named := mkEq(m.field(l.val, mt, "Path"), mkStr("/root/.git-credentials"))
			c.unsat(fmt.Sprintf("%s.no-credentials%d", key, i), bAll(s.g, l.g, named), nil, r.where, "a "+s.kind+" is given the credentials file", r.live(s)...)
		}
	}, kService, kStep)
}

func (r *compiled) ids() {
	c, m := r.c, r.m
	ns := m.field(r.spec, r.specT, "Metadata.Namespace")
	fileT := fieldType(r.specT, "Files").Underlying().(*types.Slice).Elem()
	type res struct {
		what string
		uid  *Term
		l    leaf
	}
	var all []res
	add := func(what string, l leaf, t types.Type) {
		uid := m.field(l.val, t, "Metadata.UID")
		n := len(all)
		c.same(m, fmt.Sprintf("namespace-%s%d", what, n), l.g, m.field(l.val, t, "Metadata.Namespace"), ns, types.Typ[types.String], r.where, "Namespace of a "+what)
		for i, a := range alts(uid) {
			g := bAnd(l.g, a.g)
			if sat, _ := satisfiable(g, nil); !sat {
				continue
			}
			fresh := a.t.op == OOpaque && strings.HasPrefix(a.t.sym, "fresh#")
			c.ob(fmt.Sprintf("random-%s%d.%d", what, n, i), fresh, r.where, "the identifier of a "+what+" is not a new random value: "+a.t.str(2))
			if !fresh {
				continue
			}
			for _, b := range l.binders {
				own := mentions(a.t, func(x *Term) bool { return x == b.w })
				c.ob(fmt.Sprintf("own-%s%d.%d", what, n, i), own, r.where, "several "+what+"s share one identifier")
			}
			all = append(all, res{what, a.t, leaf{l.binders, g, l.val}})
		}
	}
	spec := leaf{nil, bTrue, r.spec}
	add("pipeline", spec, r.specT)
	for _, s := range r.steps {
		add(s.kind, leaf{s.binders, s.g, s.ptr}, r.stepT)
	}
	for _, l := range leaves(m.field(r.spec, r.specT, "Docker.Volumes")) {
		add("volume", l, r.volumeT())
	}
	for _, l := range leaves(m.field(r.spec, r.specT, "Files")) {
		add("file", l, fileT)
	}
	for i := range all {
		for j := i + 1; j < len(all); j++ {
			if all[i].uid.sym != all[j].uid.sym {
				continue
			}
			sat, _ := satisfiable(bAnd(all[i].l.g, all[j].l.g), nil)
			c.ob(fmt.Sprintf("distinct-%s-%s", all[i].what, all[j].what), !sat, r.where, "a "+all[i].what+" and a "+all[j].what+" share one identifier")
		}
	}
	c.sameUnder("namespace-name", bTrue, m.field(r.spec, r.specT, "Metadata.Name"), m.field(r.spec, r.specT, "Metadata.UID"), nil, r.where, "the name of the pipeline")
	c.sameUnder("namespace-random", bTrue, ns, m.field(r.spec, r.specT, "Metadata.UID"), nil, r.where, "the namespace of the pipeline")
	randRule(c)
}

func (r *compiled) pure() {
	c, m := r.c, r.m
	bad := ""
	n := 0
	for k := range m.heap {
		root := rootChain(k)
		o := root[len(root)-1]
		if o.op == OMapOf || o.op == OBufOf || o.op == OListOf {
			o = o.args[0]
		}
		switch {
		case isMade(o):
		case o.op == OObj:
			if o.aux == "sym" {
				bad = k.str(2)
			}
		case o.op == OGlobal:
		default:
			bad = k.str(2)
		}
		n++
	}
	c.ob("document", bad == "", r.where, "the document (or the compiler) is written: "+bad)
	w0 := newMachine(c.w)
	gbad := ""
	for k, v := range m.heap {
		root := rootChain(k)
		o := root[len(root)-1]
		if o.op == OMapOf || o.op == OBufOf || o.op == OListOf {
			o = o.args[0]
		}
		inited := o.op == OGlobal
		if o.op == OObj {
			_, inited = w0.heap[k]
		}
		if inited {
			if v0, ok := w0.heap[k]; !ok || v0 != v {
				gbad = k.str(2)
			}
		}
	}
	c.ob("package-state", gbad == "", r.where, "package state is written: "+gbad)
	c.notes = append(c.notes, fmt.Sprintf("%d memory cells examined", n))
}

// coverage: every entry of the document is compiled exactly once, in order.
func (r *compiled) coverage() {
	c := r.c
	enabled := r.wants("CloneEnabled", r.pl)
	order := map[string]int{kClone: 0, kService: 1, kStep: 2}
	last := -1
	any := map[string]B{kClone: bFalse, kService: bFalse, kStep: bFalse}
	var ref = map[string]*Term{}
	for _, s := range r.steps {
		o := order[s.kind]
		c.ob("order-"+s.kind, o >= last, r.where, "a "+s.kind+" is placed after entries that must come later")
		last = o
		g := s.g
		c.unsat("once-"+s.kind, bAnd(any[s.kind], g), nil, r.where, "one entry is compiled twice")
		any[s.kind] = bOr(any[s.kind], g)
		ref[s.kind] = s.src
	}
	c.equiv("clone-present", any[kClone], enabled, nil, r.where, "a clone step")
	for _, k := range []string{kService, kStep} {
		src := ref[k]
		if src == nil {
			c.ob("present-"+k, false, r.where, "no "+k+" is compiled")
			continue
		}
		coll := r.services
		if k == kStep {
			coll = r.plSteps
		}
		c.equiv("present-"+k, any[k], bAnd(bNot(mkEmpty(coll)), bNot(mkIsNil(src))), nil, r.where, "the entry of a "+k)
	}
}

func (r *compiled) dockerSocket() {
	c, m := r.c, r.m
	vt := fieldType(r.specT, "Docker.Volumes").Underlying().(*types.Slice).Elem()
	mt := fieldType(r.stepT, "Volumes").Underlying().(*types.Slice).Elem()
	hasBuild := r.wants("HasBuild", r.pl)
	sock := mkStr("/var/run/docker.sock")
	present := bFalse
	for i, l := range leaves(m.field(r.spec, r.specT, "Docker.Volumes")) {
		host := m.field(l.val, vt, "HostPath")
		hp := m.field(host, fieldType(vt, "HostPath"), "Path")
		name := m.field(l.val, vt, "Metadata.Name")
		isSock := bAnd(l.g, bAnd(mkEq(name, mkStr("_docker_socket")), bAnd(bNot(mkIsNil(host)), mkEq(hp, sock))))
		if len(l.binders) == 0 {
			// volumes the compiler adds on its own
			c.unsat(fmt.Sprintf("volume%d", i), bAll(l.g, bNot(mkIsNil(host)), bNot(hasBuild)), nil, r.where, "a host volume is added to a pipeline that builds no image")
			c.unsat(fmt.Sprintf("socket%d", i), bAll(l.g, bNot(mkIsNil(host)), bNot(mkEq(hp, sock))), nil, r.where, "a host path other than the docker socket is added")
			present = bOr(present, isSock)
		}
	}
	c.equiv("socket-volume", present, hasBuild, nil, r.where, "the docker socket volume")
	r.each(func(s cstep, key string) {
		any := bFalse
		for i, l := range leaves(m.field(s.ptr, r.stepT, "Volumes")) {
			is := bAll(s.g, l.g, mkEq(m.field(l.val, mt, "Name"), mkStr("_docker_socket")))
			if s.kind == kStep {
				c.unsat(fmt.Sprintf("%s.mount%d", key, i), bAnd(is, bNot(r.wants("IsBuild", s.src))), nil, r.where, "a step that is not a build mounts the docker socket", r.live(s)...)
				any = bOr(any, is)
			} else {
				c.unsat(fmt.Sprintf("%s.mount%d", key, i), is, nil, r.where, "a "+s.kind+" mounts the docker socket", r.live(s)...)
			}
		}
		if s.kind == kStep {
			c.unsat(key+".build", bAll(s.g, r.wants("IsBuild", s.src), bNot(any)), nil, r.where, "a build step does not mount the docker socket", r.live(s)...)
		}
	}, kClone, kService, kStep)
}
