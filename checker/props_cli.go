package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The command line tool.

// kingpin: a flag or argument is identified by its command and name; its
// value is a symbolic value of that name.
func kingpinModel(fr *frame, c *callInfo) (*Term, bool) {
	name := c.name[strings.LastIndexByte(c.name, '.')+1:]
	strip := func(t *Term) *Term {
		for t.op == OFieldRef || t.op == OLoad {
			t = t.args[0]
		}
		return t
	}
	switch {
	case strings.HasSuffix(c.name, "v2.Command") || strings.HasSuffix(c.name, ".Command"):
		if len(c.args) == 2 {
			return mkT(OCall, "command", c.typ, c.args[0]), true
		}
	case name == "Flag" && len(c.args) == 3:
		return mkT(OCall, "flag", c.typ, strip(c.args[0]), c.args[1]), true
	case name == "Arg" && len(c.args) == 3:
		return mkT(OCall, "arg", c.typ, strip(c.args[0]), c.args[1]), true
	case name == "FullCommand":
		if t := strip(c.args[0]); t.op == OCall && t.sym == "command" {
			return t.args[0], true
		}
	case name == "Parse" && len(c.args) == 0:
		return symb(mkT(OCall, "the command", c.typ)), true
	case name == "FatalIfError":
		// ends the process when there is an error
		err := mkIsNil(c.args[0])
		g := fr.cur
		fr.cur = bAnd(g, bNot(err))
		fr.event("exit", "failure", nil, nil, c.pos)
		fr.cur = bAnd(g, err)
		return tUnit, true
	case name == "Fatalf" || name == "Errorf" || name == "Usage":
		if name == "Fatalf" {
			fr.event("exit", "failure", nil, nil, c.pos)
			fr.cur = bFalse
			return tUnit, true
		}
	default:
		if len(c.args) == 0 {
			return nil, false
		}
		t := strip(c.args[0])
		if t.op != OCall || t.sym != "flag" && t.sym != "arg" || c.typ == nil {
			return nil, false
		}
		if types.Identical(c.typ, t.typ) {
			return t, true // Short, Default, PlaceHolder, Required, …
		}
		return mkT(OCall, "value", c.typ, t, mkStr(name)), true
	}
	return nil, false
}

const kingpinPath = "gopkg.in/alecthomas/kingpin.v2"

func init() {
	exit := func(fr *frame, c *callInfo) (*Term, bool) {
		n := "failure"
		if c.name == "os.Exit" {
			if k, ok := c.args[0].constInt(); ok && k == 0 {
				n = "success"
			}
		}
		fr.event("exit", n, nil, nil, c.pos)
		fr.cur = bFalse
		return tUnit, true
	}
	for _, n := range []string{"os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln"} {
		stdModels[n] = exit
	}
	save := func(fr *frame, c *callInfo) (*Term, bool) {
		r := mkT(OCall, "write file", c.typ, c.args[0], c.args[1])
		fr.event("save", c.name, c.args, r, c.pos)
		return r, true
	}
	stdModels["io/ioutil.WriteFile"], stdModels["os.WriteFile"] = save, save
	stdModels["(*os.File).Name"] = func(fr *frame, c *callInfo) (*Term, bool) {
		return symb(mkT(OCall, "name of", c.typ, c.args...)), true
	}
	readAll := func(fr *frame, c *callInfo) (*Term, bool) {
		return lift(readerOf(fr, c.args[0]), func(r *Term) *Term {
			if r.op == OCall && r.sym == "reader" {
				return mkT(OTuple, "", nil, r.args[0], zeroOf(types.Universe.Lookup("error").Type()))
			}
			return mkT(OCall, "read all", c.typ, r)
		}), true
	}
	stdModels["io/ioutil.ReadAll"], stdModels["io.ReadAll"] = readAll, readAll
	// what is printed
	show := func(fr *frame, c *callInfo, s *Term) (*Term, bool) {
		r := mkT(OCall, "printed", c.typ, s)
		fr.event("print", c.name, []*Term{s}, r, c.pos)
		return r, true
	}
	stdModels["io.Copy"] = func(fr *frame, c *callInfo) (*Term, bool) {
		dst := unbox(c.args[0])
		if dst.op == OObj {
			return nil, false
		}
		return show(fr, c, lift(readerOf(fr, c.args[1]), func(r *Term) *Term {
			if r.op == OCall && r.sym == "reader" {
				return r.args[0]
			}
			return mkT(OCall, "content", nil, r)
		}))
	}
	stdModels["(*os.File).Write"] = func(fr *frame, c *callInfo) (*Term, bool) { return show(fr, c, c.args[1]) }
	stdModels["(*os.File).WriteString"] = stdModels["(*os.File).Write"]
	stdModels["fmt.Println"] = func(fr *frame, c *callInfo) (*Term, bool) {
		as, ok := listElems(c.args[0])
		if !ok {
			return nil, false
		}
		var parts []*Term
		for i, a := range as {
			if i > 0 {
				parts = append(parts, mkStr(" "))
			}
			parts = append(parts, fmtArg("v", a))
		}
		return show(fr, c, mkCat(append(parts, mkStr("\n"))...))
	}
	stdModels["fmt.Printf"] = func(fr *frame, c *callInfo) (*Term, bool) {
		t, ok := formatTerm(c.args[0], c.args[1])
		if !ok {
			return nil, false
		}
		return show(fr, c, t)
	}
	stdModels["fmt.Print"] = func(fr *frame, c *callInfo) (*Term, bool) {
		as, ok := listElems(c.args[0])
		if !ok || len(as) != 1 {
			return nil, false
		}
		return show(fr, c, fmtArg("v", as[0]))
	}

	register(&Check{id: "X01", minObs: 20, assume: cliAssume, rule: cliRule, run: func(c *Ctx) {
		for _, k := range cliCommands[:4] {
			c.command(k, true)
		}
	}})
	register(&Check{id: "X02", minObs: 5, assume: cliAssume, rule: cliRule, run: func(c *Ctx) {
		for _, k := range cliCommands {
			c.command(k, false)
		}
	}})
	register(&Check{id: "X03", minObs: 12, assume: cliAssume, rule: cliRule, run: runCompileCmd})
}

var cliAssume = []string{"kingpin gives each flag and argument to the variable it is declared for and FatalIfError ends the process with a failure exactly for an error"}

const cliRule = "guarded value flow of main.main from the initialised flag table, for an arbitrary command and arbitrary flag values"

type cliCommand struct {
	name string
	ref  string
	args []string // parameters of the reference: command:flag|arg
}

var cliCommands = []cliCommand{
	{"fmt", "CmdFormat", []string{"arg:source", "flag:save"}},
	{"convert", "CmdConvert", []string{"arg:source", "flag:save", "flag:addr"}},
	{"sign", "CmdSign", []string{"arg:source", "flag:save", "arg:key"}},
	{"lint", "CmdLint", []string{"arg:source", "flag:privileged"}},
	{"verify", "CmdVerify", []string{"arg:source", "arg:key"}},
	{"compile", "CmdCompile", []string{"arg:source", "flag:name"}},
}

func cliTune(m *Machine) {
	readsFrom("yaml.Parse")(m)
	opaque("yaml/converter.Convert", "yaml/linter.Lint", "yaml/signer.Sign", "yaml/signer.SignUpdate", "yaml/signer.Verify", "yaml/signer.KeyString",
		"yaml/pretty.Print", "yaml/compiler.DindFunc", "yaml/compiler.SkipFunc")(m)
	m.opaque["(*"+modPath+"/yaml/compiler.Compiler).Compile"] = true
	for _, f := range []string{"Combine", "WithEnviron", "WithAuths", "WithLables", "WithLimits", "WithNetrc", "WithNetworks", "WithProxy", "WithSecrets", "WithVolumes"} {
		m.opaque[modPath+"/yaml/compiler/transform."+f] = true
	}
	m.models[modPath+"/yaml/pretty.Print"] = func(fr *frame, c *callInfo) (*Term, bool) {
		fr.m.bufWrite(unbox(c.args[0]), mkT(OCall, "formatted", types.Typ[types.String], c.args[1]), fr.cur)
		return tUnit, true
	}
}

// flagValue is the value of a flag of a command, as the program sees it.
func flagValue(m *Machine, cmd, flag string, typ types.Type) *Term {
	kind, name := flag[:strings.IndexByte(flag, ':')], flag[strings.IndexByte(flag, ':')+1:]
	var found *Term
	is := func(t *Term, s string) bool {
		c, ok := t.constStr()
		return ok && c == s
	}
	for _, v := range m.heap {
		mentions(v, func(t *Term) bool {
			if t.op == OCall && t.sym == "value" && t.args[0].sym == kind && is(t.args[0].args[1], name) && is(t.args[0].args[0].args[0], cmd) {
				found = t
			}
			return false
		})
	}
	if found == nil {
		panic(undecided("command " + cmd + " has no " + kind + " " + name))
	}
	return m.load(found, typ)
}

func (c *Ctx) command(k cliCommand, files bool) {
	f := c.w.fn("", "main")
	where := c.fnPos(f)
	m := c.machine()
	cliTune(m)
	_, g := c.call(m, f)
	m2 := c.machine()
	cliTune(m2)
	rf := c.w.fn("yaml/"+specDir, k.ref)
	var args []*Term
	for i, a := range k.args {
		args = append(args, flagValue(m2, k.name, a, rf.Params[i].Type()))
	}
	r, rg := c.call(m2, rf, args...)
	if rg != bTrue {
		panic(undecided("rule " + k.ref + " does not always return"))
	}
	cmd := mkEq(mkT(OCall, "the command", types.Typ[types.String]), mkStr(k.name))
	fail, saves, data := toB(tupleAt(r, 0, nil)), toB(tupleAt(r, 1, nil)), tupleAt(r, 2, nil)
	shown := tupleAt(r, 3, nil)
	str := types.Typ[types.String]
	// output errors are left open, except when a file is written
	outOK, written, writeErr, exits, printed := bTrue, bFalse, bFalse, bFalse, bFalse
	for _, e := range m.events {
		g := bNorm(bAnd(e.g, cmd))
		if g == bFalse {
			continue
		}
		pos := c.w.posn(e.pos)
		if len(e.lvs) > 0 {
			switch e.kind {
			case "save", "print", "exit":
				c.ob(k.name+".loop", k.name == "compile", pos, "output inside a loop")
			}
			continue
		}
		switch e.kind {
		case "save":
			if files {
				c.ob(k.name+".once", bAnd(written, g) == bFalse, pos, "the file is written twice")
				c.unsat(k.name+".save", bAnd(g, bNot(saves)), nil, pos, "a file is written")
				path := symb(mkT(OCall, "name of", str, args[0]))
				c.sameX(m, k.name+".path", g, e.args[0], path, str, pos, "file that is written")
				c.sameX(m, k.name+".data", g, e.args[1], data, str, pos, "content of the file")
			}
			written = bOr(written, g)
			writeErr = bOr(writeErr, bAnd(g, bNot(mkIsNil(e.res))))
		case "print":
			if r := e.res; r.typ != nil {
				er := r
				if t, ok := r.typ.(*types.Tuple); ok {
					er = tupleAt(r, t.Len()-1, t.At(t.Len()-1).Type())
				}
				outOK = bAnd(outOK, mkIsNil(er))
			}
			if files {
				c.unsat(k.name+".print", bAll(g, bOr(fail, saves)), nil, pos, "a result is printed although the command fails or saves it")
				c.sameX(m, k.name+".printed", g, e.args[0], shown, str, pos, "printed result")
			}
			printed = bOr(printed, g)
		case "exit":
			if e.name == "failure" {
				exits = bOr(exits, g)
			} else {
				c.unsat(k.name+".exit", bAnd(g, fail), nil, pos, "a failed command succeeds")
			}
		case "call":
			if n := e.name; strings.HasPrefix(n, "os.") && files {
				for _, p := range []string{"Remove", "Create", "OpenFile", "Rename", "Truncate", "Chmod", "Link", "Symlink", "Mkdir"} {
					c.ob(k.name+".files", !strings.HasPrefix(n, "os."+p), pos, "the command calls "+n)
				}
			}
		}
	}
	if files {
		c.unsat(k.name+".saved", bAll(cmd, saves, bNot(written)), nil, where, "the file is not written although --save is given and the command succeeds")
		c.unsat(k.name+".shown", bAll(cmd, bNot(fail), bNot(saves), bNot(printed), constB(k.name != "lint")), nil, where, "the result is not printed")
		return
	}
	if k.name == "compile" {
		// a malformed registry flag ends the process too
		c.unsat("compile.fails", bAll(cmd, fail, g), nil, where, "the process succeeds although the command fails")
		bf := c.w.fn("yaml/"+specDir, "BadRegistry")
		registries := flagValue(m, k.name, "flag:registry", bf.Params[0].Type())
		bad, odd := toB(c.spec(m, "BadRegistry", registries)), toB(c.spec(m, "OddRegistry", registries))
		c.unsat("compile.registry", bAll(cmd, bad, g), nil, where, "the process succeeds although a registry flag has no password")
		encoded := bTrue
		for _, e := range m.events {
			if e.kind == "call" && strings.HasPrefix(e.name, "(*encoding/json.Encoder).Encode") && e.res != nil {
				encoded = bAnd(encoded, bImp(e.g, mkIsNil(e.res)))
			}
		}
		c.unsat("compile.works", bAll(cmd, bNot(fail), bNot(odd), encoded, bNot(g)), nil, where, "the process fails although nothing is wrong")
		return
	}
	c.equiv(k.name+".fails", bAnd(exits, outOK), bAll(cmd, outOK, bOr(fail, writeErr)), nil, where, "a failure of the process")
	c.equiv(k.name+".ends", bAll(g, cmd, outOK), bAll(cmd, outOK, bNot(bOr(fail, writeErr))), nil, where, "a normal end of the process")
}

// runCompileCmd: the compile command compiles the pipeline that is asked for
// with what its flags say.
func runCompileCmd(c *Ctx) {
	where := c.fnPos(c.w.fn("", "main"))
	m := c.machine()
	cliTune(m)
	_, normal := c.call(m, c.w.fn("", "main"))
	cmd := mkEq(mkT(OCall, "the command", types.Typ[types.String]), mkStr("compile"))
	flag := func(name string, t types.Type) *Term { return flagValue(m, "compile", name, t) }
	str := types.Typ[types.String]
	strs := types.NewSlice(str)
	strmap := types.NewMap(str, str)
	rf := c.w.fn("yaml/"+specDir, "SelectPipeline")
	file := flag("arg:source", rf.Params[0].Type())
	m2 := c.machine()
	cliTune(m2)
	want, _ := c.call(m2, rf, file, flag("flag:name", str))
	compT := c.w.typ("yaml/compiler", "Compiler")
	pipeT := c.w.typ("yaml", "Pipeline")
	n := 0
	var spec *Term
	done := bFalse
	for _, e := range m.events {
		if e.kind != "call" || !strings.HasSuffix(e.name, "compiler.Compiler).Compile") {
			continue
		}
		n++
		pos := c.w.posn(e.pos)
		c.unsat("command", bAnd(e.g, bNot(cmd)), nil, pos, "another command compiles")
		spec, done = e.res, bOr(done, e.g)
		c.sameX(m, "pipeline", e.g, e.args[1], want, types.NewPointer(pipeT), pos, "pipeline that is compiled")
		for _, a := range alts(e.args[1]) {
			if bAnd(e.g, a.g) == bFalse {
				continue
			}
			// cloning is off unless asked for
			clone := toB(flag("flag:clone", types.Typ[types.Bool]))
			loc := placeOf(a.t, pipeT, "Clone.Disable")
			was := toB(symb(mkT(OLoad, "", types.Typ[types.Bool], loc)))
			c.equiv("clone", bAnd(bAnd(e.g, a.g), toB(m.load(loc, types.Typ[types.Bool]))), bAnd(bAnd(e.g, a.g), bOr(was, bNot(clone))), nil, pos, "cloning is disabled: this")
		}
		comp := unbox(e.args[0])
		get := func(name string) *Term { return m.field(comp, types.NewPointer(compT), name) }
		fnName := func(n string) string { return modPath + "/yaml/compiler" + n }
		c.isCall(m, "privileged", e.g, get("PrivilegedFunc"), fnName(".DindFunc"), pos, flag("flag:dind", strs))
		skipT := c.w.typ("yaml/compiler", "SkipData")
		data := map[string]*Term{}
		for f, n := range map[string]string{"Branch": "git-branch", "Cron": "cron", "Event": "event", "Instance": "instance", "Ref": "git-ref", "Repo": "repo", "Target": "deploy-to"} {
			data[f] = flag("flag:"+n, str)
		}
		c.isCall(m, "skip", e.g, get("SkipFunc"), fnName(".SkipFunc"), pos, structOf(skipT, data))
		// git credentials
		creds := c.w.fn("yaml/"+specDir, "GitCredentials")
		for _, a := range alts(get("GitCredentialsFunc")) {
			if g := bAnd(e.g, a.g); g != bFalse {
				if a.t.op != OClosure {
					c.ob("credentials", false, pos, "the compile command gives no git credentials to the compiler")
					continue
				}
				got, ends := m.callFn(a.t.aux.(*ssa.Function), nil, a.t.args, g)
				m3 := c.machine()
				w, _ := c.call(m3, creds, flag("flag:git-creds", creds.Params[0].Type()))
				c.unsat("credentials.ends", bAnd(g, bNot(ends)), nil, pos, "making the git credentials ends the process")
				c.sameResult("credentials", g, m, got, m3, w, creds.Signature.Results().At(0).Type(), pos, "git credentials")
			}
		}
		// the transformations
		tr := get("TransformFunc")
		var list []*Term
		if tr.op == OCall && strings.HasSuffix(tr.sym, "transform.Combine") {
			list, _ = listElems(tr.args[0])
		}
		has := func(name string, args ...*Term) {
			ok := false
			for _, t := range list {
				if t.op == OCall && t.sym == fnName("/transform."+name) && len(t.args) == len(args) {
					same := true
					for i := range args {
						same = same && (args[i] == nil || t.args[i] == args[i])
					}
					ok = ok || same
				}
			}
			c.ob("transform."+name, ok, pos, "the compile command does not apply transform."+name+" with the values of its flags")
		}
		mem := flag("flag:mem-limit", c.memType())
		has("WithEnviron", flag("flag:env", strmap))
		has("WithLables", flag("flag:label", strmap))
		has("WithNetrc", flag("flag:netrc-machine", str), flag("flag:netrc-username", str), flag("flag:netrc-password", str))
		has("WithNetworks", flag("flag:network", strs))
		has("WithSecrets", flag("flag:secret", strmap))
		has("WithVolumes", flag("flag:volume", strmap))
		has("WithProxy")
		ok := false
		for _, t := range list {
			if t.op == OCall && t.sym == fnName("/transform.WithLimits") {
				ok = mentions(t.args[0], func(x *Term) bool { return x == mem })
			}
		}
		c.ob("transform.WithLimits", ok, pos, "the compile command does not apply its memory limit")
		// what a clone needs
		ok = false
		for _, t := range list {
			if t.op == OCall && t.sym == fnName("/transform.WithEnviron") && t.args[0] != flag("flag:env", strmap) {
				m3 := c.machine()
				w, _ := c.call(m3, c.w.fn("yaml/"+specDir, "CloneEnviron"), flag("flag:git-branch", str), flag("flag:git-sha", str), flag("flag:git-ref", str), flag("flag:git-remote", str), flag("flag:event", str))
				ok = true
				c.sameResult("transform.environ", e.g, m, t.args[0], m3, w, strmap, pos, "environment of the commit")
			}
		}
		c.ob("transform.commit", ok, pos, "the compile command does not describe the commit to the steps")
		// registry credentials
		ok = false
		for _, t := range list {
			if t.op == OCall && t.sym == fnName("/transform.WithAuths") {
				ref := c.w.fn("yaml/"+specDir, "RegistryAuths")
				m3 := c.machine()
				w, _ := c.call(m3, ref, flag("flag:registry", ref.Params[0].Type()))
				ok = true
				c.sameResult("transform.WithAuths", e.g, m, t.args[0], m3, w, ref.Signature.Results().At(0).Type(), pos, "registry credentials")
			}
		}
		c.ob("transform.auths", ok, pos, "the compile command does not apply its registry credentials")
	}
	c.ob("compiles", n == 1, where, "the compile command does not compile")
	printed := bFalse
	for _, e := range m.events {
		if e.kind == "call" && strings.HasPrefix(e.name, "(*encoding/json.Encoder).Encode") && len(e.args) == 2 && unbox(e.args[1]) == spec {
			printed = bOr(printed, e.g)
		}
	}
	c.unsat("printed", bAnd(done, bNot(printed)), nil, where, "the compiled pipeline is not printed")
	c.unsat("ends", bAll(cmd, normal, bNot(done)), nil, where, "the process succeeds without compiling")
}

func (c *Ctx) memType() types.Type {
	return types.Typ[types.Int64]
}

// isCall requires a value to be what a function gives for these arguments.
func (c *Ctx) isCall(m *Machine, key string, care B, got *Term, fn, where string, args ...*Term) {
	for _, a := range alts(got) {
		if bAnd(care, a.g) == bFalse {
			continue
		}
		ok := a.t.op == OCall && a.t.sym == fn && len(a.t.args) == len(args)
		if !c.ob(key, ok, where, fn+" is not used; it is "+clip(a.t.str(2))) {
			continue
		}
		for i := range args {
			c.sameX(m, key+".args", bAnd(care, a.g), a.t.args[i], args[i], args[i].typ, where, "argument of "+fn)
		}
	}
}

// placeOf is the place of a field of the object p points to.
func placeOf(p *Term, t types.Type, path string) *Term {
	for _, n := range strings.Split(path, ".") {
		st, ok := isStruct(t)
		if !ok {
			panic(undecided("no field " + n))
		}
		found := false
		for i := 0; i < st.NumFields() && !found; i++ {
			if st.Field(i).Name() == n {
				p, t, found = fieldRef(p, t, i), st.Field(i).Type(), true
			}
		}
		if !found {
			panic(undecided("no field " + n))
		}
	}
	return p
}

// structOf is a struct value with these fields.
func structOf(t types.Type, fields map[string]*Term) *Term {
	st, _ := isStruct(t)
	var args []*Term
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		v := fields[f.Name()]
		if v == nil {
			v = zeroOf(f.Type())
		}
		args = append(args, v)
	}
	return mkT(OStruct, "", t, args...)
}
