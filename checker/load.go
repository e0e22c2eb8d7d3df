package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/drone/drone-yaml"

type undecided string

func (u undecided) Error() string { return string(u) }

// World is the type-checked program in SSA form.
type World struct {
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package
	lpkgs map[string]*packages.Package
	fset  *token.FileSet
	repo  string
	tags  string
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// loadWorld type-checks the current working tree of the repository with the
// flags of its build and builds SSA for every package of the module.
func loadWorld(tags string, dirs ...string) *World {
	if worlds == nil || len(dirs) > 0 {
		return readWorld(tags, dirs...)
	}
	w := worlds[tags]
	if w == nil {
		w = readWorld(tags)
		worlds[tags] = w
	}
	return w
}

// worlds keeps what was loaded, when several checks run in one process.
var worlds map[string]*World

func readWorld(tags string, dirs ...string) *World {
	repo := repoDir()
	tmp, err := os.MkdirTemp("", "verif-mod")
	if err != nil {
		panic(undecided("cannot make a scratch folder: " + err.Error()))
	}
	defer os.RemoveAll(tmp)
	for _, f := range []string{"go.mod", "go.sum"} {
		data, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			panic(undecided(err.Error()))
		}
		name := strings.Replace(f, "go.", "m.", 1)
		if err := os.WriteFile(filepath.Join(tmp, name), data, 0644); err != nil {
			panic(undecided(err.Error()))
		}
	}
	mf := filepath.Join(tmp, "m.mod")
	env := append(os.Environ(), "GOFLAGS=", "GOPROXY=off", "GO111MODULE=on", "GOWORK=off", "GOTOOLCHAIN=local")
	ed := exec.Command("go", "mod", "edit", "-exclude=docker.io/go-docker@v1.0.0", mf)
	ed.Env = env
	if out, err := ed.CombinedOutput(); err != nil {
		panic(undecided("go mod edit: " + string(out)))
	}
	cfg := &packages.Config{
		Mode:       packages.LoadSyntax | packages.NeedModule,
		Dir:        repo,
		Env:        env,
		BuildFlags: []string{"-modfile=" + mf, "-mod=mod"},
	}
	if tags == "" {
		tags = os.Getenv("VERIF_TAGS")
	}
	if tags != "" {
		cfg.BuildFlags = append(cfg.BuildFlags, "-tags="+tags)
	}
	cfg.Overlay = map[string][]byte{}
	for from, to := range map[string]string{"": "yaml", "legacy": "yaml/converter/legacy"} {
		specs, _ := filepath.Glob(filepath.Join(verifDir(), "checker", "spec", from, "*.go.txt"))
		if len(specs) == 0 {
			panic(undecided("the reference rules are missing"))
		}
		for _, f := range specs {
			data, err := os.ReadFile(f)
			if err != nil {
				panic(undecided(err.Error()))
			}
			cfg.Overlay[filepath.Join(repo, filepath.FromSlash(to), specDir, strings.TrimSuffix(filepath.Base(f), ".txt"))] = data
		}
	}
	pats := dirs
	if len(pats) == 0 {
		pats = []string{"./..."}
	}
	lp, err := packages.Load(cfg, pats...)
	if err != nil {
		panic(undecided("cannot load the repository: " + err.Error()))
	}
	var errs []string
	good := lp[:0]
	for _, p := range lp {
		if len(p.Errors) > 0 && strings.HasSuffix(p.PkgPath, "/"+specDir) {
			// rules that no longer fit the code: their checks find no reference
			if os.Getenv("VERIF_TRACE") != "" {
				fmt.Fprintln(os.Stderr, p.PkgPath, p.Errors)
			}
			continue
		}
		good = append(good, p)
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		panic(undecided("the repository does not type-check: " + strings.Join(errs, "; ")))
	}
	lp = good
	prog, sp := ssautil.Packages(lp, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{prog: prog, pkgs: map[string]*ssa.Package{}, lpkgs: map[string]*packages.Package{}, fset: prog.Fset, repo: repo, tags: tags}
	for i, p := range sp {
		if p != nil {
			w.pkgs[p.Pkg.Path()] = p
			w.lpkgs[p.Pkg.Path()] = lp[i]
		}
	}
	if len(w.pkgs) < 10 && len(dirs) == 0 {
		panic(undecided(fmt.Sprintf("only %d packages found", len(w.pkgs))))
	}
	return w
}

// specDir is a package that exists only in the overlay of the loader: the
// documented rules, written as Go, to compare the repository's code with.
const specDir = "zzverifspec"

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func (w *World) pkg(path string) *ssa.Package {
	p := modPath
	if path != "" {
		p += "/" + path
	}
	r := w.pkgs[p]
	if r == nil {
		panic(undecided("package " + p + " not found"))
	}
	return r
}

func (w *World) fn(path, name string) *ssa.Function {
	f := w.pkg(path).Func(name)
	if f == nil {
		panic(undecided("function " + path + "." + name + " not found"))
	}
	return f
}

func (w *World) typ(path, name string) types.Type {
	o := w.pkg(path).Pkg.Scope().Lookup(name)
	if o == nil {
		panic(undecided("type " + path + "." + name + " not found"))
	}
	return o.Type()
}

func (w *World) method(path, typ, name string, ptr bool) *ssa.Function {
	t := w.typ(path, typ)
	if ptr {
		t = types.NewPointer(t)
	}
	f := w.prog.LookupMethod(t, w.pkg(path).Pkg, name)
	if f == nil {
		panic(undecided("method " + typ + "." + name + " not found"))
	}
	return f
}

func (w *World) posn(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := w.fset.Position(p)
	f := strings.TrimPrefix(q.Filename, w.repo+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}
