package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) > 3 && os.Args[1] == "dump" {
		dump(os.Args[2], os.Args[3])
		return
	}
	if len(os.Args) == 2 && os.Args[1] == "list" {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "many" {
		// for experiments: each check prints what it finds and its code
		worlds = map[string]*World{}
		for _, id := range os.Args[2:] {
			fmt.Printf("## %s %d\n", id, runCheck(id, "quick"))
		}
		return
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vchk <property> [quick|thorough]")
		os.Exit(2)
	}
	tier := "quick"
	if len(os.Args) > 2 {
		tier = os.Args[2]
	} else if t := os.Getenv("VERIF_TIER"); t == "quick" || t == "thorough" {
		tier = t
	}
	os.Exit(runCheck(os.Args[1], tier))
}

func dump(pkg, fn string) {
	w := loadWorld("")
	m := newMachine(w)
	var f *ssa.Function
	if i := strings.IndexByte(fn, '.'); i >= 0 {
		f = w.method(pkg, strings.TrimPrefix(fn[:i], "*"), fn[i+1:], fn[0] == '*')
	} else {
		f = w.fn(pkg, fn)
	}
	var args []*Term
	for _, p := range f.Params {
		args = append(args, symb(mkT(OParam, p.Name(), p.Type())))
	}
	r, g := m.callFn(f, args, nil, bTrue)
	fmt.Println("normal:", bString(g, 0))
	fmt.Println("result:", r)
	for k, v := range m.heap {
		if k.op != OGlobal && rootChain(k)[0].op != OGlobal {
			fmt.Println("  ", k, "=", v)
		}
	}
}
