package main

import (
	"fmt"
	"os"
	"os/exec"
	"strings"
)

// build is a way to build the module other than the usual one.
type build struct {
	name string
	env  []string
	not  string // properties that are not about this build
}

// The thorough checks decide the property for these builds as well.
var builds = []build{
	{"oss", []string{"VERIF_TAGS=oss"}, "V01 V02 V03 V05 V06 V07"},
	{"windows", []string{"GOOS=windows", "CGO_ENABLED=0"}, ""},
	{"arm", []string{"GOARCH=arm", "CGO_ENABLED=0"}, ""},
}

func (b build) skip(id string) bool { return strings.Contains(b.not, id) }

// run decides the property for the build in a process of its own.
func (b build) run(id string) (*obligation, int) {
	cmd := exec.Command(os.Args[0], id, "quick")
	cmd.Env = append(append(os.Environ(), "VERIF_VARIANT="+b.name), b.env...)
	out, err := cmd.CombinedOutput()
	n := 0
	lines := strings.Split(strings.TrimSpace(string(out)), "\n")
	fmt.Sscanf(lines[len(lines)-1], "obligations=%d", &n)
	if err == nil && n > 0 {
		return nil, n
	}
	return &obligation{key: "build-" + b.name, where: "build " + b.name, detail: strings.Join(lines, "; ")}, n
}
