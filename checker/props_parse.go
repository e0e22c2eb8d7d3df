package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "P01", minObs: 4,
		rule: "guarded value flow",
		run: func(c *Ctx) {
			c.pair("Parse", c.fnPos(c.w.fn("yaml", "Parse")), "Parse", opaque("yaml.ParseRaw"))
			c.pair("UnmarshalJSON", c.fnPos(c.w.method("yaml", "Manifest", "UnmarshalJSON", true)), "Manifest.UnmarshalJSON")
		}})
}

// opaque leaves calls of a module function uninterpreted.
func opaque(names ...string) func(*Machine) {
	return func(m *Machine) {
		for _, n := range names {
			m.opaque[modPath+"/"+n] = true
		}
	}
}

// readerOf describes what a reader gives: the content of a fresh in-memory
// reader, or the reader itself. Reading empties it.
func readerOf(fr *frame, r *Term) *Term {
	return lift(unbox(r), func(p *Term) *Term {
		loc := mkT(OBufOf, "", nil, p)
		if _, ok := fr.m.heap[loc]; !ok {
			if fr.m.attr == nil {
				fr.m.attr = map[*Term]*Term{}
			}
			if fr.m.attr[p] != nil {
				return mkT(OCall, "rest", nil, fr.m.attr[p], p)
			}
			fr.m.attr[p] = mkT(OCall, "read", nil, p)
			return p
		}
		t := mkT(OCall, "reader", nil, fr.m.bufGet(p))
		fr.m.heap[loc] = mkIte([]alt{{fr.cur, mkStr("")}, {bNot(fr.cur), fr.m.bufGet(p)}})
		return t
	})
}

// readsFrom makes a function opaque, a function of what its first argument
// (a reader) gives.
func readsFrom(names ...string) func(*Machine) {
	return func(m *Machine) {
		if m.models == nil {
			m.models = map[string]modelFn{}
		}
		for _, n := range names {
			n := modPath + "/" + n
			m.opaque[n] = true
			m.models[n] = func(fr *frame, c *callInfo) (*Term, bool) {
				args := append([]*Term{readerOf(fr, c.args[0])}, c.args[1:]...)
				t := mkT(OCall, n, c.typ, args...)
				fr.event("call", n, args, t, c.pos)
				return t, true
			}
		}
	}
}

func init() {
	buffer := stdModels["bytes.NewBuffer"]
	stdModels["bytes.NewReader"] = buffer
	stdModels["strings.NewReader"] = buffer
	pure := func(fr *frame, c *callInfo) (*Term, bool) {
		t := mkT(OCall, c.name, c.typ, c.args...)
		fr.event("call", c.name, c.args, t, c.pos)
		return t, true
	}
	stdModels["os.Open"] = pure
	register(&Check{id: "P03", minObs: 18,
		assume: []string{"a file has the same content each time it is opened"},
		rule:   "guarded value flow of ParseBytes, ParseString, ParseFile and their raw variants on arbitrary content equals Parse and ParseRaw on a reader of that content; a file that cannot be opened is an error",
		run: func(c *Ctx) {
			raw := readsFrom("yaml.ParseRaw")
			for _, n := range []string{"ParseBytes", "ParseString", "ParseFile", "ParseRawBytes", "ParseRawString", "ParseRawFile"} {
				c.pair(n, c.fnPos(c.w.fn("yaml", n)), n, raw)
			}
		}})

	// a scanner: Text and Bytes give the line the last Scan read
	token := func(fr *frame, c *callInfo) *Term {
		if t := fr.m.attr[c.args[0]]; t != nil {
			return t
		}
		return mkT(OOpaque, "unread", nil)
	}
	stdModels["(*bufio.Scanner).Scan"] = func(fr *frame, c *callInfo) (*Term, bool) {
		t := mkCall(fr, "(*bufio.Scanner).Scan", c.args, c.typ, siteID(fr, c.site))
		if fr.m.attr == nil {
			fr.m.attr = map[*Term]*Term{}
		}
		fr.m.attr[c.args[0]] = t
		fr.event("call", c.name, c.args, t, c.pos)
		return symb(t), true
	}
	text := func(fr *frame, c *callInfo) (*Term, bool) {
		return mkT(OCall, "line", types.Typ[types.String], token(fr, c)), true
	}
	stdModels["(*bufio.Scanner).Text"] = text
	stdModels["(*bufio.Scanner).Bytes"] = text
	stdModels["(*bufio.Scanner).Err"] = func(fr *frame, c *callInfo) (*Term, bool) {
		return mkT(OCall, "scan error", c.typ, c.args[0]), true
	}

	register(&Check{id: "P02", minObs: 12,
		assume: []string{structuralAssume, "bufio.Scanner gives the lines of its reader without their ends, and an error only for a failed read or a line that is too long"},
		rule:   "inductive step of the line loop of ParseRaw, from an arbitrary state (current document, list of documents) and for an arbitrary line: a separator starts a new, empty document at the end of the list; the terminator ends the loop; every other line is appended with its newline to the current document, and nothing else is; afterwards every document is decoded from its own data and a read or decoding error is returned",
		run:    runParseRaw})
}

func siteID(fr *frame, site ssa.CallInstruction) string {
	if site == nil {
		return ""
	}
	return fr.fn.String() + ":" + itoa(int64(site.Block().Index)) + ":" + itoa(int64(instrIndex(site)))
}

func runParseRaw(c *Ctx) {
	f := c.w.fn("yaml", "ParseRaw")
	where := c.fnPos(f)
	m := c.machine()
	rd := c.param("r", f.Params[0].Type())
	res, g := c.call(m, f, rd)
	c.ob("returns", g == bTrue, where, "ParseRaw does not return on every path")
	rawT := c.w.typ("yaml", "RawResource")
	var steps []loopStep
	var scanRes, scanner *Term
	for _, s := range m.steps {
		for _, e := range s.events {
			if e.kind == "call" && e.name == "(*bufio.Scanner).Scan" {
				steps = append(steps, s)
				scanRes, scanner = e.res, e.args[0]
				break
			}
		}
	}
	if !c.ob("loop", len(steps) == 1, where, "the line loop of ParseRaw was not found") {
		return
	}
	st := steps[0]
	var cur, list *stepCarry
	for _, k := range st.carries {
		if k.phi == nil {
			continue
		}
		if pt, ok := k.typ.Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), rawT) {
			cur = k
		}
		if sl, ok := k.typ.Underlying().(*types.Slice); ok {
			if pt, ok := sl.Elem().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), rawT) {
				list = k
			}
		}
	}
	if !c.ob("state", cur != nil && list != nil, where, "the current document and the list of documents were not found") {
		return
	}
	line := mkT(OCall, "line", types.Typ[types.String], scanRes)
	sep, term := toB(c.spec(m, "IsSeparator", line)), toB(c.spec(m, "IsTerminator", line))
	// a scanner never reports the end of the input as an error
	eof := bTrue
	for _, a := range mgr.atoms {
		if a.op == OEq && (isScanErr(a.args[0]) && isEOF(a.args[1]) || isScanErr(a.args[1]) && isEOF(a.args[0])) {
			eof = bAnd(eof, bNot(bVar(a)))
		}
	}
	care := bAnd(st.enter, toB(symb(scanRes)))
	isnil := mkIsNil(cur.carry)
	df := -1
	rs, _ := isStruct(rawT)
	for i := 0; i < rs.NumFields(); i++ {
		if rs.Field(i).Name() == "Data" {
			df = i
		}
	}
	bytesT := rs.Field(df).Type()
	at := func(heap map[*Term]*Term, p *Term) *Term {
		save := m.heap
		m.heap = heap
		defer func() { m.heap = save }()
		return m.load(fieldRef(p, rawT, df), bytesT)
	}
	// the data of the current document before the iteration
	d0 := symb(mkT(OLoad, "", bytesT, fieldRef(cur.carry, rawT, df)))
	for _, k := range st.carries {
		if k.loc == fieldRef(cur.carry, rawT, df) {
			d0 = k.carry
		}
	}
	next := lift(cur.next, func(t *Term) *Term { return t })
	// a line
	isLine := bAll(care, bNot(sep), bNot(term))
	c.unsat("line.continues", bAnd(isLine, bNot(st.latch)), nil, where, "the loop ends at a line that is not the terminator", eof)
	want := mkIte([]alt{
		{isnil, mkCat(line, mkStr("\n"))},
		{bNot(isnil), catLift(catLift(d0, line), mkStr("\n"))},
	})
	c.sameX(m, "line.kept", isLine, at(st.after, next), want, bytesT, where, "data of the current document after a line", eof)
	c.unsat("line.current", bAll(isLine, bNot(isnil), bNot(valueEq(next, cur.carry))), nil, where, "a line starts another document", eof)
	// a separator
	c.unsat("separator.continues", bAll(care, sep, bNot(st.latch)), nil, where, "the loop ends at a separator", eof)
	for _, a := range alts(next) {
		c.unsat("separator.new", bAll(care, sep, a.g, constB(a.t.op != OObj || a.t.aux == "sym")), nil, where, "a separator does not start a new document", eof)
	}
	c.sameX(m, "separator.empty", bAll(care, sep), at(st.after, next), mkStr(""), bytesT, where, "data of a new document", eof)
	c.sameX(m, "separator.keeps", bAll(care, sep, bNot(isnil)), at(st.after, cur.carry), d0, bytesT, where, "data of the previous document after a separator", eof)
	// the list of documents
	added := bOr(isnil, sep)
	one := func(t *Term) *Term {
		return mkSeq("list", list.typ, []Seg{{kind: SegSplice, g: bTrue, val: list.carry}, {kind: SegSingle, g: bTrue, val: t}})
	}
	wl := mkIte([]alt{{added, lift(next, one)}, {bNot(added), list.carry}})
	k := &comparer{m: m, extra: []B{eof}, path: []string{"the list of documents after a line"}}
	ok := k.same(bAnd(care, st.latch), list.next, wl, list.typ)
	c.ob("list", ok, where, k.why)
	// the terminator
	c.unsat("terminator", bAll(care, bNot(sep), term, st.latch), nil, where, "the loop goes on after the terminator", eof)
	// nothing else changes
	for loc, v := range st.after {
		if st.before[loc] == v || !rooted(loc) || loc == fieldRef(cur.carry, rawT, df) {
			continue
		}
		same := false
		for _, k := range st.carries {
			same = same || k.loc == loc && k.next == k.carry
		}
		if !same {
			c.ob("other", false, where, "a line changes "+loc.str(2))
		}
	}
	if v, ok := st.after[fieldRef(cur.carry, rawT, df)]; ok {
		c.sameX(m, "other.lines", bAll(care, bNot(isLine)), v, d0, bytesT, where, "data of the current document after a separator or terminator", eof)
	}
	c.ob("start", mkIsNil(cur.init) == bTrue && mkEmpty(list.init) == bTrue, where, "the loop does not start without documents")
	// after the loop
	out, errT := tupleAt(res, 0, list.typ), tupleAt(res, 1, f.Signature.Results().At(1).Type())
	okB := mkIsNil(errT)
	scanErr := mkT(OCall, "scan error", f.Signature.Results().At(1).Type(), scanner)
	c.unsat("read-error", bAnd(okB, bNot(mkIsNil(scanErr))), nil, where, "a failed read gives no error", eof)
	fin := bTrue
	type decoded struct {
		target, coll *Term
		g            B
	}
	var done []decoded
	for _, e := range m.events {
		if e.kind != "call" || !strings.HasSuffix(e.name, ".Unmarshal") || len(e.args) != 2 {
			continue
		}
		pos := c.w.posn(e.pos)
		for _, a := range alts(e.args[1]) {
			target := unbox(a.t)
			d := decoded{target: target, g: bAnd(e.g, a.g)}
			bad := bAnd(d.g, bNot(mkIsNil(e.res)))
			if len(e.lvs) > 0 {
				lv := e.lvs[len(e.lvs)-1].lv
				d.coll = lv.args[0]
				bad = mkExists(d.coll, lv, nil, bad)
				c.ob("decode.target", target == mkAt(d.coll, lv, elemType(list.typ)), pos, "the head of a document is decoded into something else")
			}
			c.unsat("decode.error", bAnd(okB, bad), nil, pos, "a document that cannot be decoded gives no error", eof)
			fin = bAnd(fin, bNot(bad))
			done = append(done, d)
		}
	}
	c.ob("decode", len(done) > 0, where, "documents are not decoded")
	c.unsat("only-errors", bAll(bNot(okB), mkIsNil(scanErr), fin), nil, where, "a file that can be read and decoded is rejected", eof)
	// the result is the list, and each of its parts is decoded
	for _, a := range alts(out) {
		if bAnd(okB, a.g) == bFalse || a.t.op == ONil {
			continue
		}
		segs, _ := segsOf("list", a.t)
		base := 0
		for _, s := range segs {
			ok := false
			switch {
			case s.kind == SegSplice && s.val.op == OOpaque && list.during != nil && s.val.sym == list.during.sym:
				base++
				for _, d := range done {
					ok = ok || d.coll == s.val
				}
			case s.kind == SegSingle && s.val.op == OObj:
				for _, d := range done {
					ok = ok || d.target == s.val && unsatisfiable(bAll(okB, a.g, s.g, bNot(d.g)), eof)
				}
			}
			c.ob("decode.each", ok, where, "a part of the result is not decoded: "+s.val.str(3))
		}
		c.ob("result", base == 1, where, "the result is not the list of documents")
	}
}

func (m *Machine) loadIn(heap map[*Term]*Term, p *Term, t types.Type) *Term {
	save := m.heap
	m.heap = heap
	defer func() { m.heap = save }()
	return m.load(p, t)
}

func isScanErr(t *Term) bool { return t.op == OCall && t.sym == "scan error" }

func isEOF(t *Term) bool {
	return t.op == OLoad && t.args[0].op == OGlobal && strings.HasSuffix(t.args[0].sym, "io.EOF")
}

func (c *Ctx) sameX(m *Machine, key string, care B, got, want *Term, typ types.Type, where, what string, extra ...B) {
	k := &comparer{m: m, extra: extra, path: []string{what}}
	ok := k.same(care, got, want, typ)
	c.ob(key, ok, where, k.why)
}

func unsatisfiable(b B, extra ...B) bool {
	sat, _ := satisfiable(b, nil, extra...)
	return !sat
}
