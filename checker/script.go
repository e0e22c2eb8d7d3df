package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// scripts decomposes the script of every container with commands.
func (r *compiled) scripts() {
	c, m := r.c, r.m
	win := r.wants("IsWindows", r.pl)
	str := types.Typ[types.String]
	fileT := fieldType(r.specT, "Files").Underlying().(*types.Slice).Elem()
	mt := r.fieldType("Files").Underlying().(*types.Slice).Elem()
	files := leaves(m.field(r.spec, r.specT, "Files"))
	r.each(func(s cstep, key string) {
		has := bAnd(s.g, r.wants("HasCommands", s.src))
		if s.kind == kStep {
			has = bAnd(has, bNot(r.wants("IsBuild", s.src)))
		}
		live := r.live(s)
		cmds := m.field(s.src, r.contT, "Commands")
		// posix: a file of the specification is mounted and started
		px := bAnd(has, bNot(win))
		present := bFalse
		nm := 0
		for _, l := range leaves(r.f(s, "Files")) {
			lg := bAll(px, l.g)
			if sat, _ := satisfiable(lg, nil, live...); !sat {
				continue
			}
			nm++
			path := m.field(l.val, mt, "Path")
			name := m.field(l.val, mt, "Name")
			mode := m.field(l.val, mt, "Mode")
			exec := false
			if v, ok := mode.constInt(); ok && v&0555 == 0555 {
				exec = true
			}
			c.ob(key+".mode", exec, r.where, "the script is not readable and executable")
			args := &Term{}
			args = mkSeq("list", nil, []Seg{{kind: SegSingle, g: bTrue, val: path}})
			c.same(m, key+".args", lg, r.f(s, "Docker.Args"), args, fieldType(r.stepT, "Docker.Args"), r.where, "Args of a "+s.kind+" with commands", live...)
			sh := mkSeq("list", nil, []Seg{{kind: SegSingle, g: bTrue, val: mkStr("/bin/sh")}})
			c.same(m, key+".entrypoint", lg, r.f(s, "Docker.Command"), sh, fieldType(r.stepT, "Docker.Command"), r.where, "Command of a "+s.kind+" with commands", live...)
			present = bOr(present, lg)
			// the file itself
			got := bFalse
			for _, f := range files {
				if len(f.binders) != 1 || f.binders[0] != s.binders[0] {
					continue
				}
				fg := bAll(lg, f.g, mkEq(m.field(f.val, fileT, "Metadata.Name"), name))
				if sat, _ := satisfiable(fg, nil, live...); !sat {
					continue
				}
				c.unsat(key+".one-file", bAnd(got, fg), nil, r.where, "two scripts for one "+s.kind, live...)
				got = bOr(got, fg)
				c.script(key, restrictDeep(m.field(f.val, fileT, "Data"), fg), cmds, false, r.where)
			}
			c.unsat(key+".file", bAnd(lg, bNot(got)), nil, r.where, "the mounted script is not part of the specification", live...)
		}
		c.ob(key+".one-mount", nm == 1, r.where, fmt.Sprintf("a %s with commands mounts %d files", s.kind, nm))
		c.unsat(key+".mounted", bAnd(px, bNot(present)), nil, r.where, "the script of a "+s.kind+" is not mounted", live...)
		// windows: the script is passed in the environment
		ww := bAnd(has, win)
		v, ok := mkLookup(m.deep(r.f(s, "Envs"), r.fieldType("Envs")), mkStr("CI_SCRIPT"), str)
		c.unsat(key+".win-env", bAnd(ww, bNot(ok)), nil, r.where, "a windows "+s.kind+" with commands is given no script", live...)
		v = restrictDeep(v, ww)
		for v.op == OIte { // only the alternative that can occur
			var live1 *Term
			for _, a := range alts(v) {
				if sat, _ := satisfiable(bAnd(ww, a.g), nil, live...); sat {
					if live1 != nil {
						panic(undecided("several windows scripts"))
					}
					live1 = a.t
				}
			}
			v = live1
		}
		if v.op == OCall && strings.HasSuffix(v.sym, "base64.Encoding).EncodeToString") {
			c.script(key+".win", v.args[1], cmds, true, r.where)
		} else {
			c.ob(key+".win-encoding", false, r.where, "the windows script is not base64 encoded: "+clip(v.str(2)))
		}
		started := func(path, want string) {
			found := bFalse
			for _, l := range leaves(r.f(s, path)) {
				if cs, ok := l.val.constStr(); ok && len(l.binders) == 0 && strings.Contains(cs, want) {
					found = bOr(found, l.g)
				}
			}
			c.unsat(key+".win-start-"+path, bAnd(ww, bNot(found)), nil, r.where, "a windows "+s.kind+" does not start its script", live...)
		}
		started("Docker.Command", "powershell")
		started("Docker.Args", "FromBase64String($Env:CI_SCRIPT)")
		// containers without commands get no script
		for i, l := range leaves(r.f(s, "Files")) {
			c.unsat(fmt.Sprintf("%s.no-script%d", key, i), bAll(s.g, l.g, bNot(has)), nil, r.where, "a "+s.kind+" without commands is given a script", live...)
		}
	}, kService, kStep)
}

// script checks the text of one build script.
func (c *Ctx) script(key string, t, cmds *Term, win bool, where string) {
	for t.op == OConv {
		t = t.args[0]
	}
	segs, _ := segsOf("str", t)
	each := -1
	for i, s := range segs {
		if s.kind == SegEach {
			if each >= 0 {
				c.ob(key+".commands", false, where, "the commands occur twice in the script")
				return
			}
			each = i
		}
	}
	if each < 0 {
		c.ob(key+".commands", false, where, "the script does not contain the commands: "+clip(t.str(2)))
		return
	}
	e := segs[each]
	c.ob(key+".all", e.coll == cmds && e.g == bTrue && e.bound == nil, where, "the script does not contain every command in order: "+clip(mkSeq("str", nil, []Seg{e}).str(2)))
	text := func(segs []Seg) (string, bool) {
		out := ""
		for _, s := range segs {
			v, ok := s.val0().constStr()
			if s.kind != SegSingle || s.g != bTrue || !ok {
				return out, false
			}
			out += v
		}
		return out, true
	}
	before, ok1 := text(segs[:each])
	after, ok2 := text(segs[each+1:])
	c.ob(key+".frame", ok1 && ok2, where, "the script around the commands depends on its input")
	lines := map[string]bool{}
	for _, l := range strings.Split(before, "\n") {
		lines[strings.TrimSpace(l)] = true
	}
	var need []string
	if win {
		need = []string{"$ErrorActionPreference = 'Stop';"}
		for _, v := range []string{"CI_NETRC_USERNAME", "CI_NETRC_PASSWORD", "DRONE_NETRC_USERNAME", "DRONE_NETRC_PASSWORD", "CI_SCRIPT"} {
			need = append(need, `[Environment]::SetEnvironmentVariable("`+v+`", $null);`)
		}
	} else {
		need = []string{"set -e"}
		for _, v := range []string{"CI_NETRC_USERNAME", "CI_NETRC_PASSWORD", "DRONE_NETRC_USERNAME", "DRONE_NETRC_PASSWORD"} {
			need = append(need, "unset "+v)
		}
	}
	for _, n := range need {
		ok := lines[n]
		if !win && n == "set -e" {
			ok = false
			for l := range lines {
				f := strings.Fields(l)
				if len(f) >= 2 && f[0] == "set" && strings.HasPrefix(f[1], "-") && strings.Contains(f[1], "e") {
					ok = true
				}
			}
		} else if !win {
			// several variables may share one unset
			v := strings.TrimPrefix(n, "unset ")
			ok = false
			for l := range lines {
				f := strings.Fields(l)
				if len(f) > 1 && f[0] == "unset" {
					for _, x := range f[1:] {
						ok = ok || x == v
					}
				}
			}
		}
		c.ob(key+".prologue:"+n, ok, where, "the script does not start with "+n)
	}
	all := before + after
	for _, s := range e.body {
		if v, ok := s.val0().constStr(); ok {
			all += v
		}
	}
	c.ob(key+".stop-on-error", !strings.Contains(all, "set +e") && !strings.Contains(all, "|| true") && !strings.Contains(all, "'Continue'"), where, "the script goes on after a failing command")
	// the body: trace, then the command
	cmd := mkAt(cmds, e.lv, types.Typ[types.String])
	runs := 0
	for i, s := range e.body {
		if s.kind != SegSingle || s.g != bTrue {
			c.ob(key+".body", false, where, "a command is included conditionally")
			return
		}
		v := s.val
		if _, ok := v.constStr(); ok {
			continue
		}
		if v == cmd {
			runs++
			pre, post := "", after
			if i > 0 {
				pre, _ = e.body[i-1].val.constStr()
			}
			if i+1 < len(e.body) {
				post, _ = e.body[i+1].val.constStr()
			}
			if win {
				c.ob(key+".exit-code", strings.HasSuffix(pre, "\n& ") && strings.HasPrefix(strings.TrimSpace(post), "; if ($LASTEXITCODE -ne 0) {exit $LASTEXITCODE}"), where, "a failing command does not end the script")
			} else {
				c.ob(key+".own-line", strings.HasSuffix(pre, "\n") && strings.HasPrefix(post, "\n"), where, "a command does not stand on a line of its own")
			}
			continue
		}
		// anything else derived from the command must be quoted
		repl, base := replaced(v)
		quoted := base.op == OCall && base.sym == "fmt%q" && base.args[0] == cmd
		c.ob(key+".trace-quoted", quoted, where, "the traced command is not quoted: "+clip(v.str(2)))
		want := []string{"$", "`"}
		if win {
			want = []string{"'"}
		}
		for _, w := range want {
			c.ob(key+".trace-escapes-"+w, repl[w], where, "tracing a command does not escape "+w)
		}
		if !win {
			pre := ""
			if i > 0 {
				pre, _ = e.body[i-1].val.constStr()
			}
			c.ob(key+".trace-echo", strings.HasSuffix(pre, "echo + "), where, "the trace is not an argument of echo")
		}
	}
	c.ob(key+".once", runs == 1, where, fmt.Sprintf("a command occurs %d times in the script", runs))
}

// replaced peels text replacements and lists what they replace.
func replaced(t *Term) (map[string]bool, *Term) {
	out := map[string]bool{}
	for t.op == OCall {
		switch {
		case t.sym == "strings.Replace":
			if n, ok := t.args[3].constInt(); ok && n < 0 {
				a, ok1 := t.args[1].constStr()
				b, ok2 := t.args[2].constStr()
				if ok1 && ok2 && a != b && len(b) > len(a) {
					out[a] = true
				}
			}
			t = t.args[0]
		case strings.HasSuffix(t.sym, "strings.Replacer).Replace"):
			r := t.args[0]
			if r.op == OCall && len(r.args) == 1 {
				if as, ok := listElems(r.args[0]); ok {
					for i := 0; i+1 < len(as); i += 2 {
						a, ok1 := as[i].constStr()
						b, ok2 := as[i+1].constStr()
						if ok1 && ok2 && len(b) > len(a) {
							out[a] = true
						}
					}
				}
			}
			t = t.args[1]
		default:
			return out, t
		}
	}
	return out, t
}

// randRule: rand.String returns at least 16 characters, each chosen from an
// alphabet of at least 16 by bytes that crypto/rand delivered.
func randRule(c *Ctx) {
	f := c.w.fn("yaml/compiler/internal/rand", "String")
	where := c.fnPos(f)
	c.extraFns[f.String()] = true
	read, weak := 0, ""
	minLen := int64(-1)
	var fns []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		fns = append(fns, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cl, ok := in.(ssa.CallInstruction); ok {
					if g := cl.Common().StaticCallee(); g != nil {
						c.sites++
						p := ""
						if g.Pkg != nil {
							p = g.Pkg.Pkg.Path()
						}
						switch {
						case p == "crypto/rand":
							read++
						case p == "math/rand" || p == "math/rand/v2" || p == "time" || p == "os":
							weak = g.String()
						case strings.HasPrefix(p, modPath):
							visit(g)
						}
					}
				}
			}
		}
	}
	visit(f)
	c.ob("rand-source", read > 0 && weak == "", where, "identifiers do not come from crypto/rand only: "+weak)
	// the returned text
	dep := map[ssa.Value]bool{}
	ok := false
	for _, g := range fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ret, isRet := in.(*ssa.Return)
				if !isRet || len(ret.Results) != 1 || g != f {
					continue
				}
				ok = true
				n, fromRand := randSlice(ret.Results[0], dep, c)
				if minLen < 0 || n < minLen {
					minLen = n
				}
				c.ob("rand-flow", fromRand, c.w.posn(ret.Pos()), "the identifier does not depend on the random bytes")
			}
		}
	}
	c.ob("rand-returns", ok, where, "rand.String does not return")
	c.ob("rand-length", minLen >= 16, where, fmt.Sprintf("identifiers have %d characters", minLen))
	// alphabet
	m := newMachine(c.w)
	alpha := 0
	distinct := func(s string) {
		set := map[rune]bool{}
		for _, ch := range s {
			set[ch] = true
		}
		if len(set) > alpha {
			alpha = len(set)
		}
	}
	for _, g := range fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				var x ssa.Value
				switch in := in.(type) {
				case *ssa.Lookup:
					x = in.X
				case *ssa.Index:
					x = in.X
				case *ssa.Convert:
					x = in.X
				case *ssa.Slice:
					x = in.X
				}
				if k, ok := x.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
					distinct(constant.StringVal(k.Value))
				}
			}
		}
	}
	for k, v := range m.heap {
		if k.op == OGlobal && strings.Contains(k.sym, "internal/rand") {
			x := v
			for x.op == OConv {
				x = x.args[0]
			}
			if s, isC := x.constStr(); isC {
				distinct(s)
			}
		}
	}
	c.ob("rand-alphabet", alpha >= 16, where, fmt.Sprintf("identifiers use %d characters", alpha))
}

// randSlice follows a returned text to the buffer it is made of.
func randSlice(v ssa.Value, seen map[ssa.Value]bool, c *Ctx) (int64, bool) {
	length := int64(-1)
	fromRand := false
	var bufs []ssa.Value
	var back func(v ssa.Value)
	done := map[ssa.Value]bool{}
	back = func(v ssa.Value) {
		if v == nil || done[v] {
			return
		}
		done[v] = true
		switch v := v.(type) {
		case *ssa.Convert:
			back(v.X)
		case *ssa.ChangeType:
			back(v.X)
		case *ssa.Slice:
			back(v.X)
		case *ssa.Phi:
			for _, e := range v.Edges {
				back(e)
			}
		case *ssa.MakeSlice:
			bufs = append(bufs, v)
			if k, ok := v.Len.(*ssa.Const); ok {
				length = k.Int64()
			}
		case *ssa.Alloc:
			bufs = append(bufs, v)
			if a, ok := deref(v.Type()).Underlying().(*types.Array); ok {
				length = a.Len()
			}
		}
	}
	back(v)
	// values stored into the buffer depend on what crypto/rand filled
	filled := map[ssa.Value]bool{}
	if v.Parent() != nil {
		for _, b := range v.Parent().Blocks {
			for _, in := range b.Instrs {
				if cl, ok := in.(ssa.CallInstruction); ok {
					if g := cl.Common().StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "crypto/rand" {
						for _, a := range cl.Common().Args {
							filled[a] = true
							if s, ok := a.(*ssa.Slice); ok {
								filled[s.X] = true
							}
						}
						if val, ok := in.(ssa.Value); ok {
							filled[val] = true
						}
					}
				}
			}
		}
	}
	var depends func(v ssa.Value, seen map[ssa.Value]bool) bool
	depends = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if filled[v] {
			return true
		}
		in, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		for _, op := range in.Operands(nil) {
			if *op != nil && depends(*op, seen) {
				return true
			}
		}
		return false
	}
	stores, good := 0, 0
	for _, buf := range bufs {
		var uses func(v ssa.Value, seen map[ssa.Value]bool)
		uses = func(v ssa.Value, seen map[ssa.Value]bool) {
			if seen[v] || v.Referrers() == nil {
				return
			}
			seen[v] = true
			for _, ref := range *v.Referrers() {
				switch ref := ref.(type) {
				case *ssa.Slice, *ssa.Phi, *ssa.ChangeType:
					uses(ref.(ssa.Value), seen)
				case *ssa.IndexAddr:
					for _, r2 := range *ref.Referrers() {
						if st, ok := r2.(*ssa.Store); ok && st.Addr == ref {
							stores++
							if depends(st.Val, map[ssa.Value]bool{}) {
								good++
							}
						}
					}
				}
			}
		}
		uses(buf, map[ssa.Value]bool{})
		if filled[buf] {
			fromRand = true
		}
	}
	if stores > 0 && stores == good {
		fromRand = true
	}
	if length < 0 && depends(v, map[ssa.Value]bool{}) {
		fromRand = true
	}
	return length, fromRand
}
