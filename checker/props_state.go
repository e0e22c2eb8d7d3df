package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Shared state: what the functions of the library do may not depend on, or
// interfere with, what other calls of them do.  Memory reachable from package
// variables is shared by all calls; after initialisation it is only read,
// unless it is guarded by a lock.
//
// The analysis marks the values that refer to shared memory: addresses of
// package variables and what is read from them, through fields, elements,
// slices, conversions, parameters, results, closures and, by field or element
// type, the heap.  Then it looks at each instruction that writes.

type stateLint struct {
	w       *World
	fns     []*ssa.Function
	inRepo  map[*ssa.Function]bool
	shared  map[ssa.Value]ssa.Value // refers to memory of the variable
	results map[*ssa.Function]map[int]ssa.Value
	cells   map[string]ssa.Value // fields and element types shared memory was stored in
	allocs  map[*ssa.Alloc]ssa.Value
	callers map[*ssa.Function][]ssa.CallInstruction
	bySig   map[string][]*ssa.Function // functions used as values
	initial map[*ssa.Function]bool     // run once, before or under a Once
	writes  int
	changed bool
	issues  map[string]orderIssue
	locked  map[ssa.Value]bool // written under a lock
	args    bool               // follow the arguments of the exported functions instead
}

func newStateLint(w *World) *stateLint {
	s := &stateLint{w: w, inRepo: map[*ssa.Function]bool{}, shared: map[ssa.Value]ssa.Value{},
		results: map[*ssa.Function]map[int]ssa.Value{}, cells: map[string]ssa.Value{}, allocs: map[*ssa.Alloc]ssa.Value{},
		callers: map[*ssa.Function][]ssa.CallInstruction{}, bySig: map[string][]*ssa.Function{}, initial: map[*ssa.Function]bool{},
		issues: map[string]orderIssue{}, locked: map[ssa.Value]bool{}}
	for _, f := range w.repoFns() {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == modPath {
			continue // the command: one process, one call
		}
		s.fns = append(s.fns, f)
		s.inRepo[f] = true
	}
	for _, f := range s.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s.scan(f, in)
			}
		}
	}
	s.findInitial()
	return s
}

func (s *stateLint) scan(f *ssa.Function, in ssa.Instruction) {
	call, isCall := in.(ssa.CallInstruction)
	var callee ssa.Value
	if isCall {
		if g := call.Common().StaticCallee(); g != nil {
			s.callers[g] = append(s.callers[g], call)
		}
		if !call.Common().IsInvoke() {
			callee = call.Common().Value
		}
	}
	for _, op := range in.Operands(nil) {
		if *op == nil || *op == callee {
			continue
		}
		g, ok := (*op).(*ssa.Function)
		if mc, isMC := in.(*ssa.MakeClosure); isMC && *op == mc.Fn {
			// a closure called on the spot is no value
			g, ok = mc.Fn.(*ssa.Function), true
		}
		if ok {
			k := g.Signature.Params().String()
			s.bySig[k] = append(s.bySig[k], g)
		}
	}
}

// findInitial marks what runs during initialisation or through sync.Once only.
func (s *stateLint) findInitial() {
	once := map[*ssa.Function]bool{}
	other := map[*ssa.Function]bool{}
	for _, f := range s.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, isCall := in.(ssa.CallInstruction)
				var isOnce bool
				if isCall {
					if g := call.Common().StaticCallee(); g != nil {
						switch calleeName(g) {
						case "(*sync.Once).Do", "sync.OnceFunc", "sync.OnceValue", "sync.OnceValues":
							isOnce = true
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					var g *ssa.Function
					switch x := (*op).(type) {
					case *ssa.Function:
						g = x
					case *ssa.MakeClosure:
						g = x.Fn.(*ssa.Function)
						if len(x.Bindings) > 0 {
							// what it does depends on the call that happens to be first
							other[g] = true
						}
					}
					if g == nil {
						continue
					}
					if _, isMC := in.(*ssa.MakeClosure); isMC {
						continue // its uses are looked at
					}
					if isOnce {
						once[g] = true
					} else if !isCall || call.Common().Value != *op {
						other[g] = true
					}
				}
			}
		}
	}
	for _, f := range s.fns {
		if f.Synthetic != "" || strings.HasPrefix(f.Name(), "init#") || once[f] && !other[f] {
			s.initial[f] = true
		}
	}
	for again := true; again; {
		again = false
		for _, f := range s.fns {
			if s.initial[f] || other[f] || len(s.callers[f]) == 0 || token.IsExported(f.Name()) {
				continue
			}
			all := true
			for _, c := range s.callers[f] {
				all = all && s.initial[c.Parent()]
			}
			if all {
				s.initial[f], again = true, true
			}
		}
	}
}

func hasRefs(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return t.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if hasRefs(t.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasRefs(t.Elem())
	case *types.Tuple:
		for i := 0; i < t.Len(); i++ {
			if hasRefs(t.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func (s *stateLint) mark(v ssa.Value, g ssa.Value) {
	if g == nil || v == nil || s.shared[v] != nil || !hasRefs(v.Type()) {
		return
	}
	s.shared[v] = g
	s.changed = true
}

func (s *stateLint) of(v ssa.Value) ssa.Value {
	if g, ok := v.(*ssa.Global); ok {
		if s.args || g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
			return nil
		}
		return g
	}
	return s.shared[v]
}

// cell names the place an address denotes when it is a field or an element.
func cell(addr ssa.Value) string {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		return fmt.Sprint("field ", a.X.Type().Underlying().(*types.Pointer).Elem().String(), " ", a.Field)
	case *ssa.IndexAddr:
		t := a.X.Type().Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		switch t := t.(type) {
		case *types.Slice:
			return "element " + t.Elem().String()
		case *types.Array:
			return "element " + t.Elem().String()
		}
	}
	return ""
}

func (s *stateLint) cellOf(k string, g ssa.Value) {
	if k != "" && g != nil && s.cells[k] == nil {
		s.cells[k] = g
		s.changed = true
	}
}

func (s *stateLint) flow() {
	for s.changed = true; s.changed; {
		s.changed = false
		for _, f := range s.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s.step(f, in)
				}
			}
		}
	}
}

func (s *stateLint) step(f *ssa.Function, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.UnOp:
		if in.Op != token.MUL {
			return
		}
		s.mark(in, s.of(in.X))
		s.mark(in, s.cells[cell(in.X)])
		if a, ok := in.X.(*ssa.Alloc); ok {
			s.mark(in, s.allocs[a])
		}
	case *ssa.FieldAddr:
		s.mark(in, s.of(in.X))
	case *ssa.IndexAddr:
		s.mark(in, s.of(in.X))
	case *ssa.Field:
		s.mark(in, s.of(in.X))
		s.mark(in, s.cells[fmt.Sprint("field ", in.X.Type().String(), " ", in.Field)])
	case *ssa.Index:
		s.mark(in, s.of(in.X))
	case *ssa.Lookup:
		s.mark(in, s.of(in.X))
		if m, ok := in.X.Type().Underlying().(*types.Map); ok {
			s.mark(in, s.cells["value "+m.String()])
		}
	case *ssa.Extract:
		if c, ok := in.Tuple.(*ssa.Call); ok {
			for _, g := range s.callees(c) {
				s.mark(in, s.results[g][in.Index])
			}
			return
		}
		s.mark(in, s.of(in.Tuple))
	case *ssa.Range:
		s.mark(in, s.of(in.X))
		if m, ok := in.X.Type().Underlying().(*types.Map); ok {
			s.mark(in, s.cells["value "+m.String()])
		}
	case *ssa.Next:
		s.mark(in, s.of(in.Iter))
	case *ssa.Slice:
		s.mark(in, s.of(in.X))
		if a, ok := in.X.(*ssa.Alloc); ok {
			s.mark(in, s.allocs[a])
		}
	case *ssa.Phi:
		for _, e := range in.Edges {
			s.mark(in, s.of(e))
		}
	case *ssa.ChangeType:
		s.mark(in, s.of(in.X))
	case *ssa.ChangeInterface:
		s.mark(in, s.of(in.X))
	case *ssa.MakeInterface:
		s.mark(in, s.of(in.X))
	case *ssa.TypeAssert:
		s.mark(in, s.of(in.X))
	case *ssa.SliceToArrayPointer:
		s.mark(in, s.of(in.X))
	case *ssa.MakeClosure:
		g := in.Fn.(*ssa.Function)
		for i, b := range in.Bindings {
			s.mark(g.FreeVars[i], s.of(b))
			if !s.args && s.initial[f] && !s.initial[g] {
				// made once, called often: what it captures is shared
				s.mark(g.FreeVars[i], s.initVar(f))
			}
		}
	case *ssa.Store:
		g := s.of(in.Val)
		if g == nil {
			return
		}
		switch a := in.Addr.(type) {
		case *ssa.Alloc:
			if s.allocs[a] == nil && hasRefs(in.Val.Type()) {
				s.allocs[a], s.changed = g, true
			}
		default:
			s.cellOf(cell(in.Addr), g)
		}
	case *ssa.MapUpdate:
		s.cellOf("value "+in.Map.Type().Underlying().String(), s.of(in.Value))
	case *ssa.Return:
		for i, r := range in.Results {
			if g := s.of(r); g != nil {
				if s.results[f] == nil {
					s.results[f] = map[int]ssa.Value{}
				}
				if s.results[f][i] == nil {
					s.results[f][i], s.changed = g, true
				}
			}
		}
	case ssa.CallInstruction:
		s.callStep(in)
	}
}

// initVar is the variable something made during initialisation belongs to.
func (s *stateLint) initVar(f *ssa.Function) ssa.Value {
	for _, m := range f.Pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			return g
		}
	}
	return nil
}

func (s *stateLint) callees(c ssa.CallInstruction) []*ssa.Function {
	cc := c.Common()
	if g := cc.StaticCallee(); g != nil {
		if s.inRepo[g] {
			return []*ssa.Function{g}
		}
		return nil
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}
	var out []*ssa.Function
	if cc.IsInvoke() {
		it, ok := cc.Value.Type().Underlying().(*types.Interface)
		for _, f := range s.fns {
			if ok && f.Name() == cc.Method.Name() && f.Signature.Recv() != nil &&
				(types.Implements(f.Signature.Recv().Type(), it) || types.Implements(types.NewPointer(f.Signature.Recv().Type()), it)) {
				out = append(out, f)
			}
		}
		return out
	}
	for _, f := range s.bySig[cc.Signature().Params().String()] {
		if s.inRepo[f] {
			out = append(out, f)
		}
	}
	return out
}

func (s *stateLint) callStep(c ssa.CallInstruction) {
	cc := c.Common()
	v := c.Value()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" && v != nil {
			s.mark(v, s.of(cc.Args[0]))
			// elements that refer to shared memory
			if sl, ok := v.Type().Underlying().(*types.Slice); ok && len(cc.Args) > 1 && hasRefs(sl.Elem()) {
				s.cellOf("element "+sl.Elem().String(), s.of(cc.Args[1]))
			}
		}
		return
	}
	fs := s.callees(c)
	for _, g := range fs {
		args := cc.Args
		if cc.IsInvoke() {
			args = append([]ssa.Value{cc.Value}, args...)
		}
		ps := g.Params
		if len(ps) == len(args)+1 && g.Signature.Recv() != nil {
			ps = ps[1:] // a method used as a value
		}
		for i, a := range args {
			if i < len(ps) {
				s.mark(ps[i], s.of(a))
			}
		}
		if v != nil && g.Signature.Results().Len() == 1 {
			s.mark(v, s.results[g][0])
		}
	}
	if g := cc.StaticCallee(); g != nil && !s.inRepo[g] && v != nil && len(cc.Args) > 0 {
		if n := calleeName(g); passesOn(n) && !(s.args && passesStream(n)) {
			s.mark(v, s.of(cc.Args[0]))
		}
	}
}

// passesOn tells whether the result of a library function refers to the
// memory of its first argument.
func passesOn(name string) bool {
	switch name {
	case "sort.Reverse", "bytes.NewBuffer", "bytes.NewReader", "slices.Clip", "slices.Grow", "slices.Compact",
		"slices.Delete", "slices.Insert", "slices.Replace", "bufio.NewReader", "bufio.NewWriter":
		return true
	}
	return strings.HasPrefix(name, "bytes.Trim") || strings.HasPrefix(name, "bytes.Split") || strings.HasPrefix(name, "bytes.Fields")
}

// passesStream: what is read or written through the result is the purpose of
// the argument.
func passesStream(name string) bool {
	return strings.HasPrefix(name, "bytes.New") || strings.HasPrefix(name, "bufio.New")
}

// mutatorTypes are the library types whose methods change their receiver
// without a lock of their own.
var mutatorTypes = map[string]bool{
	"bytes.Buffer": true, "strings.Builder": true, "bufio.Reader": true, "bufio.Writer": true, "bufio.Scanner": true,
	"bufio.ReadWriter": true, "math/rand.Rand": true, "math/rand.Source": true, "math/rand.Source64": true,
	"container/list.List": true, "container/ring.Ring": true, "encoding/json.Encoder": true, "encoding/json.Decoder": true,
	"hash.Hash": true, "hash.Hash32": true, "hash.Hash64": true, "strings.Reader": true, "bytes.Reader": true,
	"text/tabwriter.Writer": true, "crypto/cipher.Stream": true, "crypto/cipher.BlockMode": true,
	"github.com/buildkite/yaml.Encoder": true, "github.com/buildkite/yaml.Decoder": true, "math/big.Int": true,
	"text/scanner.Scanner": true, "math/rand/v2.Rand": true,
}

var readMethods = map[string]bool{"String": true, "Len": true, "Cap": true, "Bytes": true, "Size": true, "BlockSize": true, "Front": true, "Back": true, "Text": true, "Err": true}

// changes says which argument of a library function is changed by it.
func changes(name string) (int, bool) {
	switch name {
	case "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable", "sort.Strings", "sort.Ints", "sort.Float64s",
		"slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Reverse", "slices.Compact", "slices.CompactFunc",
		"slices.Delete", "slices.DeleteFunc", "slices.Insert", "slices.Replace",
		"maps.Copy", "maps.DeleteFunc", "maps.Clear",
		"container/heap.Push", "container/heap.Pop", "container/heap.Init", "container/heap.Fix", "container/heap.Remove":
		return 0, true
	case "(*bufio.Scanner).Buffer", "encoding/json.Unmarshal", "github.com/buildkite/yaml.Unmarshal", "github.com/buildkite/yaml.UnmarshalStrict",
		"gopkg.in/yaml.v2.Unmarshal", "(*encoding/json.Decoder).Decode", "(*github.com/buildkite/yaml.Decoder).Decode",
		"io.ReadFull", "io.ReadAtLeast", "encoding/hex.Decode", "encoding/xml.Unmarshal":
		return 1, true
	case "encoding/hex.Encode", "math/rand.Read", "crypto/rand.Read", "encoding/binary.Read", "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln",
		"io.WriteString", "io.Copy":
		return 0, true
	}
	return 0, false
}

// processWide are the functions that change the state of the whole process.
var processWide = map[string]string{
	"os.Setenv": "the environment", "os.Unsetenv": "the environment", "os.Clearenv": "the environment", "os.Chdir": "the working directory",
	"log.SetOutput": "the log", "log.SetFlags": "the log", "log.SetPrefix": "the log",
	"syscall.Setenv": "the environment", "syscall.Unsetenv": "the environment", "syscall.Chdir": "the working directory",
	"math/rand.Seed": "the random numbers", "runtime.GOMAXPROCS": "the scheduler", "net/http.HandleFunc": "the default server",
	"syscall.Umask": "the file mode mask",
}

func (s *stateLint) run() {
	s.flow()
	// which variables are written under a lock: they have to be read under it
	for pass := 0; pass < 2; pass++ {
		for _, f := range s.fns {
			if s.initial[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s.check(f, in, pass)
				}
			}
		}
	}
}

func (s *stateLint) write(f *ssa.Function, in ssa.Instruction, g ssa.Value, pass int, how string) {
	if pass == 0 {
		s.writes++
	}
	if g == nil {
		return
	}
	if !s.args && s.guarded(f, in, false, 0) {
		if pass == 0 {
			s.locked[g] = true
		}
		return
	}
	if p, ok := g.(*ssa.Parameter); ok {
		s.report(f, in.Pos(), "%s memory the caller of %s passed as %s is changed", how, shortType(p.Parent().String()), p.Name())
		return
	}
	s.report(f, in.Pos(), "%s memory of the package variable %s is shared by all calls", how, shortType(g.String()))
}

func (s *stateLint) report(f *ssa.Function, pos token.Pos, format string, args ...interface{}) {
	if !pos.IsValid() {
		pos = f.Pos()
	}
	what := fmt.Sprintf(format, args...)
	key := s.w.posn(pos) + what
	if _, ok := s.issues[key]; !ok {
		s.issues[key] = orderIssue{pos, f, what}
	}
}

func (s *stateLint) check(f *ssa.Function, in ssa.Instruction, pass int) {
	switch in := in.(type) {
	case *ssa.Store:
		s.write(f, in, s.of(in.Addr), pass, "a write:")
	case *ssa.MapUpdate:
		s.write(f, in, s.of(in.Map), pass, "a map entry is set:")
	case *ssa.Go:
		if pass == 0 && !s.args {
			s.report(f, in.Pos(), "a goroutine is started: calls overlap")
		}
	case *ssa.UnOp:
		if g, ok := in.X.(*ssa.Global); ok && pass == 1 && s.locked[g] && !s.guarded(f, in, true, 0) {
			s.report(f, in.Pos(), "%s is written under a lock but read without it", g.Name())
		}
	case ssa.CallInstruction:
		cc := in.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				if g := s.of(cc.Args[0]); g == nil || !s.exact(cc.Args[0]) {
					s.write(f, in, g, pass, "an append may write behind the end of a list:")
				}
			case "copy", "delete", "clear":
				s.write(f, in, s.of(cc.Args[0]), pass, "a "+b.Name()+":")
			}
			return
		}
		if cc.IsInvoke() {
			if mutatorTypes[pkgType(cc.Value.Type())] && !readMethods[cc.Method.Name()] {
				s.write(f, in, s.of(cc.Value), pass, "a call of "+cc.Method.Name()+" changes its receiver:")
			}
			return
		}
		g := cc.StaticCallee()
		if g == nil || s.inRepo[g] {
			return
		}
		name := calleeName(g)
		if what, ok := processWide[name]; ok && pass == 0 && !s.args {
			s.report(f, in.Pos(), "%s changes %s of the whole process", name, what)
		}
		if g.Signature.Recv() != nil && len(cc.Args) > 0 {
			t := cc.Args[0].Type()
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			if mutatorTypes[pkgType(t)] && !readMethods[g.Name()] {
				s.write(f, in, s.of(cc.Args[0]), pass, "a call of "+g.Name()+" changes its receiver:")
			}
		}
		if i, ok := changes(name); ok && !(s.args && strings.HasPrefix(name, "fmt.")) && !(s.args && name == "io.WriteString") && !(s.args && name == "io.Copy") && i < len(cc.Args) {
			s.write(f, in, s.of(cc.Args[i]), pass, "a call of "+name+" changes its argument:")
		}
	}
}

func pkgType(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// exact tells whether a list is a package variable's that has been made from
// a literal and never assigned again: its capacity is its length, so an
// append copies it.
func (s *stateLint) exact(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Slice:
		return v.Max != nil && v.High == v.Max
	case *ssa.ChangeType:
		return s.exact(v.X)
	case *ssa.UnOp:
		g, ok := v.X.(*ssa.Global)
		if !ok {
			return false
		}
		n := 0
		for _, f := range s.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok || st.Addr != g {
						continue
					}
					n++
					sl, ok := st.Val.(*ssa.Slice)
					if !ok || sl.Low != nil || sl.High != nil || sl.Max != nil {
						return false
					}
					if _, ok := sl.X.(*ssa.Alloc); !ok {
						return false
					}
				}
			}
		}
		return n <= 1
	}
	return false
}

// guarded tells whether a lock of the package is held at an instruction.
func (s *stateLint) guarded(f *ssa.Function, in ssa.Instruction, read bool, depth int) bool {
	if depth > 4 {
		return false
	}
	for _, b := range f.Blocks {
		for i, x := range b.Instrs {
			c, ok := x.(*ssa.Call)
			if !ok || !s.lockCall(c, read) || !before(x, i, in) {
				continue
			}
			if !s.released(c, in) {
				return true
			}
		}
	}
	// every caller holds one
	if token.IsExported(f.Name()) || len(s.callers[f]) == 0 {
		return false
	}
	for _, l := range s.bySig {
		for _, g := range l {
			if g == f {
				return false
			}
		}
	}
	for _, c := range s.callers[f] {
		if _, ok := c.(*ssa.Call); !ok || !s.guarded(c.Parent(), c, read, depth+1) {
			return false
		}
	}
	return true
}

func before(x ssa.Instruction, i int, in ssa.Instruction) bool {
	if x.Block() != in.Block() {
		return x.Block().Dominates(in.Block())
	}
	for j, y := range in.Block().Instrs {
		if y == in {
			return i < j
		}
	}
	return false
}

func (s *stateLint) lockCall(c *ssa.Call, read bool) bool {
	g := c.Call.StaticCallee()
	if g == nil || len(c.Call.Args) == 0 || s.of(c.Call.Args[0]) == nil {
		return false
	}
	switch calleeName(g) {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return true
	case "(*sync.RWMutex).RLock":
		return read
	}
	return false
}

// released tells whether a lock may have been given back between its call and
// an instruction after it.
func (s *stateLint) released(lock *ssa.Call, in ssa.Instruction) bool {
	type at struct {
		b *ssa.BasicBlock
		i int
	}
	seen := map[*ssa.BasicBlock]bool{}
	var work []at
	for i, x := range lock.Block().Instrs {
		if x == ssa.Instruction(lock) {
			work = append(work, at{lock.Block(), i + 1})
		}
	}
	// the unlocks reachable from the lock, and from them the instruction
	reach := func(from []at, stop func(ssa.Instruction) bool) (hits []at) {
		seen = map[*ssa.BasicBlock]bool{}
		for len(from) > 0 {
			x := from[len(from)-1]
			from = from[:len(from)-1]
			done := false
			for j := x.i; j < len(x.b.Instrs); j++ {
				if x.b.Instrs[j] == ssa.Instruction(lock) {
					done = true
					break
				}
				if stop(x.b.Instrs[j]) {
					hits = append(hits, at{x.b, j + 1})
					done = true
					break
				}
			}
			if done {
				continue
			}
			for _, n := range x.b.Succs {
				if !seen[n] {
					seen[n] = true
					from = append(from, at{n, 0})
				}
			}
		}
		return
	}
	unlocks := reach(work, func(x ssa.Instruction) bool {
		c, ok := x.(*ssa.Call)
		if !ok {
			return false
		}
		g := c.Call.StaticCallee()
		return g != nil && strings.HasPrefix(g.String(), "(*sync.") && strings.HasSuffix(g.Name(), "nlock")
	})
	return len(reach(unlocks, func(x ssa.Instruction) bool { return x == in })) > 0
}

// sources marks the arguments of the functions that only read them.
func (s *stateLint) sources() (n int) {
	s.args = true
	for _, f := range s.fns {
		if !reads(f) {
			continue
		}
		for _, p := range f.Params {
			if hasRefs(p.Type()) {
				s.mark(p, p)
				n++
			}
		}
	}
	return
}

// reads tells whether a function is one of the library's that have no
// business changing what they are given.
func reads(f *ssa.Function) bool {
	if !token.IsExported(f.Name()) || f.Parent() != nil || f.Pkg == nil || strings.HasPrefix(f.Name(), "Unmarshal") {
		return false
	}
	path := strings.TrimPrefix(f.Pkg.Pkg.Path(), modPath+"/")
	if path == "yaml/compiler" || path == "yaml/compiler/transform" {
		return false // C12 and the T properties
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		n, ok := types.Unalias(t).(*types.Named)
		return ok && n.Obj().Exported()
	}
	return true
}

func (s *stateLint) result(c *Ctx) {
	s.run()
	var keys []string
	for k := range s.issues {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	bad := map[*ssa.Function]bool{}
	for _, k := range keys {
		is := s.issues[k]
		where := c.w.posn(is.pos) + " (" + shortType(is.fn.String()) + ")"
		c.ob("state "+where, false, where, is.what)
		bad[is.fn] = true
	}
	for _, f := range s.fns {
		c.extraFns[f.String()] = true
		if !bad[f] && !s.initial[f] {
			c.ob("function "+f.String(), true, c.w.posn(f.Pos()), "")
		}
	}
}

func init() {
	register(&Check{id: "G01", minObs: 10,
		rule: "effect analysis over the SSA form of every function of the library: values that refer to memory of package variables are followed through fields, elements, calls, closures and the heap; after initialisation no instruction writes to such memory, unless a lock is held, and none changes the state of the process",
		run: func(c *Ctx) {
			s := newStateLint(c.w)
			s.result(c)
			globals := map[ssa.Value]bool{}
			for _, f := range s.fns {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						for _, op := range in.Operands(nil) {
							if g, ok := (*op).(*ssa.Global); ok && s.of(g) != nil {
								globals[g] = true
							}
						}
					}
				}
			}
			c.notes = append(c.notes, fmt.Sprintf("%d functions, %d writes, %d package variables, %d values that refer to their memory", len(s.fns), s.writes, len(globals), len(s.shared)))
		}})
	register(&Check{id: "G02", minObs: 10,
		rule: "effect analysis as for G01: values that refer to memory passed to the exported functions that parse, encode, check, sign, format, convert and match are followed through fields, elements, calls, closures and the heap; no instruction writes to such memory",
		run: func(c *Ctx) {
			s := newStateLint(c.w)
			n := s.sources()
			s.result(c)
			c.notes = append(c.notes, fmt.Sprintf("%d functions, %d writes, %d arguments, %d values that refer to their memory", len(s.fns), s.writes, n, len(s.shared)))
		}})
}
