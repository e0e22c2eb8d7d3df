package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ctx is the state of one property check.
type Ctx struct {
	lintResult *Term
	id         string
	tier       string
	w          *World
	obs        []obligation
	machines   []*Machine
	notes      []string
	extraFns   map[string]bool
	sites      int
}

type obligation struct {
	key    string
	ok     bool
	where  string
	detail string
	known  string
}

// Check is one property and the rule that decides it.
type Check struct {
	id      string
	rule    string // the rule applied, for the evidence
	assume  []string
	minObs  int // fewer obligations than this means the rule lost its anchors
	run     func(c *Ctx)
	noBound bool
}

var checks = map[string]*Check{}

func register(c *Check) {
	if checks[c.id] != nil {
		panic("duplicate check " + c.id)
	}
	checks[c.id] = c
}

// ob records one obligation.
func (c *Ctx) ob(key string, ok bool, where, detail string) bool {
	c.obs = append(c.obs, obligation{key: key, ok: ok, where: where, detail: detail})
	return ok
}

// unsat requires that cond cannot hold.
func (c *Ctx) unsat(key string, cond B, wits []*Term, where, what string, extra ...B) bool {
	sat, rest := satisfiable(cond, wits, extra...)
	d := ""
	if sat {
		d = what + "; it happens when: " + describe(rest)
	}
	return c.ob(key, !sat, where, d)
}

// equiv requires that two conditions agree.
func (c *Ctx) equiv(key string, got, want B, wits []*Term, where, what string, extra ...B) bool {
	ok, why := implies(got, want, wits, extra...)
	if !ok {
		return c.ob(key, false, where, what+" happens although it must not; when: "+why)
	}
	ok, why = implies(want, got, wits, extra...)
	if !ok {
		return c.ob(key, false, where, what+" does not happen although it must; when: "+why)
	}
	return c.ob(key, true, where, "")
}

// sameUnder requires two values to be equal whenever care holds.
func (c *Ctx) sameUnder(key string, care B, got, want *Term, wits []*Term, where, what string, extra ...B) bool {
	eq := valueEq(got, want)
	sat, rest := satisfiable(bAnd(care, bNot(eq)), wits, extra...)
	d := ""
	if sat {
		d = fmt.Sprintf("%s is not what it must be; when: %s; it is %s, expected %s", what, describe(rest), clip(got.str(2)), clip(want.str(2)))
	}
	return c.ob(key, !sat, where, d)
}

func clip(s string) string {
	if r := []rune(s); len(r) > 400 {
		return string(r[:400]) + "…"
	}
	return s
}

// machine makes a fresh analysis state.
func (c *Ctx) machine() *Machine {
	m := newMachine(c.w)
	c.machines = append(c.machines, m)
	return m
}

// call computes the value flow of a function for symbolic arguments.
func (c *Ctx) call(m *Machine, f *ssa.Function, args ...*Term) (*Term, B) {
	leave := m.enter("entry " + f.String())
	defer leave()
	return m.callFn(f, args, nil, bTrue)
}

// spec computes the value flow of a rule in the overlay package.
func (c *Ctx) spec(m *Machine, name string, args ...*Term) *Term {
	f := c.w.fn("yaml/"+specDir, name)
	r, g := c.call(m, f, args...)
	if g != bTrue {
		panic(undecided("rule " + name + " does not always return"))
	}
	return r
}

func (c *Ctx) param(name string, t types.Type) *Term {
	return symb(mkT(OParam, name, t))
}

func (c *Ctx) fnPos(f *ssa.Function) string {
	return c.w.posn(f.Pos()) + " (" + shortType(f.String()) + ")"
}

// field reads a named field of the object p points to.
func (m *Machine) field(p *Term, t types.Type, path string) *Term {
	t = deref(t)
	for _, n := range strings.Split(path, ".") {
		st, ok := isStruct(t)
		if !ok {
			if pt, isP := t.Underlying().(*types.Pointer); isP {
				p = m.load(p, t)
				t = pt.Elem()
				st, ok = isStruct(t)
			}
			if !ok {
				panic(undecided("no field " + n + " in " + typeKey(t)))
			}
		}
		found := -1
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				found = i
			}
		}
		if found < 0 {
			panic(undecided("no field " + n + " in " + typeKey(t)))
		}
		p = fieldRef(p, t, found)
		t = st.Field(found).Type()
	}
	return m.load(p, t)
}

func verifSeed() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return n
}

func knownFindings() map[string]string {
	out := map[string]string{}
	data, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(data), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "property=") {
			continue
		}
		// property=<id> key=<obligation> <text>
		f := strings.SplitN(l, " ", 3)
		if len(f) == 3 && strings.HasPrefix(f[1], "key=") {
			out[strings.TrimPrefix(f[0], "property=")+" "+strings.TrimPrefix(f[1], "key=")] = f[2]
		}
	}
	return out
}

func runCheck(id, tier string) int {
	ch := checks[id]
	if ch == nil {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		return 2
	}
	start := time.Now()
	c := &Ctx{id: id, tier: tier, extraFns: map[string]bool{}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("VERIF_TRACE") != "" {
					panic(r)
				}
				c.ob("undecided", false, "?", fmt.Sprint("the rule could not be decided: ", r))
			}
		}()
		c.w = loadWorld("")
		ch.run(c)
	}()
	if os.Getenv("VERIF_STATS") != "" {
		fmt.Println("diagram nodes", len(mgr.nodes))
	}
	if len(c.obs) < ch.minObs {
		c.ob("instances", false, "?", fmt.Sprintf("the rule found %d instances, at least %d are expected", len(c.obs), ch.minObs))
	}
	known := knownFindings()
	viol := 0
	var vs []obligation
	for i := range c.obs {
		o := &c.obs[i]
		if o.ok {
			continue
		}
		if t, ok := known[id+" "+o.key]; ok {
			o.known = t
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, t)
			continue
		}
		viol++
		vs = append(vs, *o)
	}
	if variant := os.Getenv("VERIF_VARIANT"); variant != "" {
		// one of several builds that the thorough check looks at
		for _, v := range vs {
			fmt.Printf("%s: %s [%s %s]\n", v.where, v.detail, variant, v.key)
		}
		fmt.Printf("obligations=%d\n", len(c.obs))
		if viol > 0 {
			return 1
		}
		return 0
	}
	if tier == "thorough" {
		for _, v := range builds {
			if v.skip(id) {
				continue
			}
			o, n := v.run(id)
			c.notes = append(c.notes, fmt.Sprintf("the build %s was analysed as well: %d obligations", v.name, n))
			if o != nil {
				viol++
				c.obs = append(c.obs, *o)
				vs = append(vs, *o)
			}
		}
	}
	c.writeEvidence(ch, tier, time.Since(start).Seconds(), viol)
	if viol > 0 {
		dir := filepath.Join(verifDir(), "replay")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, id+".txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s\nrule: %s\n", id, ch.rule)
		for _, v := range vs {
			fmt.Fprintf(&sb, "\nobligation %s\n  at %s\n  %s\n", v.key, v.where, v.detail)
		}
		fmt.Fprintf(&sb, "\nreproduce: cd %s && ./check.sh %s %s\n", verifDir(), id, tier)
		os.WriteFile(path, []byte(sb.String()), 0644)
		for i, v := range vs {
			if i >= 12 {
				fmt.Printf("  … %d more in %s\n", len(vs)-i, path)
				break
			}
			fmt.Printf("  %s: %s [%s]\n", v.where, v.detail, v.key)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	fmt.Printf("ok property=%s obligations=%d wall=%.1fs\n", id, len(c.obs), time.Since(start).Seconds())
	return 0
}

func (c *Ctx) writeEvidence(ch *Check, tier string, wall float64, viol int) {
	fns := map[string]bool{}
	blocks, instrs := 0, 0
	for _, m := range c.machines {
		for f := range m.visited {
			if f.Pkg != nil && !strings.Contains(f.Pkg.Pkg.Path(), specDir) {
				fns[f.String()] = true
			}
		}
		blocks += m.blocks
		instrs += m.instrs
	}
	for f := range c.extraFns {
		fns[f] = true
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	var keys []string
	ok := 0
	for _, o := range c.obs {
		s := o.key
		if o.ok {
			ok++
			s += " holds"
		} else if o.known != "" {
			s += " known finding"
		} else {
			s += " VIOLATED at " + o.where + ": " + o.detail
		}
		keys = append(keys, s)
	}
	npk := 0
	if c.w != nil {
		npk = len(c.w.pkgs)
	}
	cov := map[string]interface{}{
		"explanation":          "Static analysis of the SSA form of /repo's working tree. Rule: " + ch.rule,
		"packages_loaded":      npk,
		"functions_analysed":   fl,
		"function_count":       len(fl),
		"blocks_evaluated":     blocks,
		"instructions":         instrs,
		"call_sites_examined":  c.sites,
		"obligations":          len(c.obs),
		"discharged":           ok,
		"obligation_list":      keys,
		"value_graph_nodes":    termCount,
		"path_condition_nodes": len(mgr.nodes),
		"path_condition_atoms": len(mgr.atoms),
		"notes":                c.notes,
		"minimum_obligations":  ch.minObs,
	}
	ev := map[string]interface{}{
		"property": c.id, "tier": tier, "seed": verifSeed(), "level": "other",
		"coverage": cov, "wall_s": wall, "violations": viol,
		"assumptions": append([]string{}, ch.assume...),
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0755)
	os.WriteFile(filepath.Join(dir, c.id+".json"), append(data, '\n'), 0644)
}

// valueEq is the condition under which two values are equal.
func valueEq(a, b *Term) B {
	if a == b {
		return bTrue
	}
	if a.op == OBool || b.op == OBool {
		return bIff(toB(a), toB(b))
	}
	if a.op == OIte {
		return liftB(a, func(x *Term) B { return valueEq(x, b) })
	}
	if b.op == OIte {
		return liftB(b, func(x *Term) B { return valueEq(a, x) })
	}
	if (a.op == OStruct || a.op == OTuple) && a.op == b.op && len(a.args) == len(b.args) {
		r := bTrue
		for i := range a.args {
			r = bAnd(r, valueEq(a.args[i], b.args[i]))
		}
		return r
	}
	if a.op == OSeq && b.op == OSeq && a.sym == b.sym && len(a.segs) == len(b.segs) {
		r := bTrue
		for i := range a.segs {
			r = bAnd(r, segEq(a.segs[i], b.segs[i]))
		}
		if r != bFalse {
			return r
		}
	}
	if a.op == OSeq && a.sym != "str" && b.op == ONil || b.op == OSeq && b.sym != "str" && a.op == ONil {
		return mkEmpty(a)
	}
	return mkEq(a, b)
}

func segEq(a, b Seg) B {
	if a.kind != b.kind {
		return bFalse
	}
	r := bIff(a.g, b.g)
	eq := func(x, y *Term) {
		if x == nil || y == nil {
			if x != y {
				r = bFalse
			}
			return
		}
		if a.kind == SegEach {
			if x != y {
				r = bFalse
			}
			return
		}
		r = bAnd(r, bImp(a.g, valueEq(x, y)))
	}
	if a.kind == SegEach {
		eq(a.coll, b.coll)
		eq(a.bound, b.bound)
		if len(a.body) != len(b.body) || a.lv != b.lv {
			return bFalse
		}
		for i := range a.body {
			if !sameSeg(a.body[i], b.body[i]) {
				s := segEq(a.body[i], b.body[i])
				if s != bTrue {
					return bFalse
				}
			}
		}
		return r
	}
	eq(a.key, b.key)
	eq(a.val, b.val)
	return r
}
