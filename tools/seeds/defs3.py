L = "yaml/linter/linter.go"; LC = "yaml/linter/config.go"
K = "yaml/compiler/compiler.go"; ST = "yaml/compiler/step.go"; CV = "yaml/compiler/convert.go"
WS = "yaml/compiler/workspace.go"; CL = "yaml/compiler/clone.go"; PX = "yaml/compiler/script_posix.go"
LT = '''package linter

import (
	"testing"

	"github.com/drone/drone-yaml/yaml"
)
'''
CT = '''package compiler

import (
	"testing"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
)

var _ engine.Step

func step(s *engine.Spec, name string) *engine.Step {
	for _, x := range s.Steps {
		if x.Metadata.Name == name {
			return x
		}
	}
	return nil
}
'''
PA = "yaml/parse.go"; SG = "yaml/signer/signer.go"; T = "yaml/compiler/transform/"
GL = "yaml/converter/gitlab/convert.go"; LG = "yaml/converter/legacy/internal/config.go"
PP = "yaml/pretty/pipeline.go"; PC = "yaml/pretty/container.go"; PW = "yaml/pretty/writer.go"

def test(pkg, imports, body):
    return "package %s\n\nimport (\n%s)\n%s" % (pkg, "".join('\t%s\n' % (i if " " in i else '"%s"' % i) for i in imports), body)

KEY = '[]byte("0123456789abcdef0123456789abcdef")'
S("gitlab-image-self", "G04", "a gitlab image that is neither a name nor a mapping",
  "Converting a gitlab configuration whose image is a list never ends.",
  [("yaml/converter/gitlab/config.go", "	if err != nil {\n		return err\n	}\n	i.Name = data.Name\n", "	if err != nil {\n		// say what is wrong with the image\n		return unmarshal(i)\n	}\n	i.Name = data.Name\n")],
  "yaml/converter/gitlab", test("gitlab", ["runtime/debug", "testing"], '''
func TestDemo(t *testing.T) {
	debug.SetMaxStack(1 << 22)
	if _, err := Convert([]byte("image: [ a ]\\n")); err == nil {
		t.Error("no error")
	}
}'''))
S("param-marshal-self", "G04", "a setting that is a list with one entry",
  "Encoding a pipeline with a list of one entry as setting never ends.",
  [("yaml/param.go", "	if p.Value != \"\" {\n		return p.Value, nil\n	}\n	return nil, nil\n", "	switch v := p.Value.(type) {\n	case string:\n		if v == \"\" {\n			return nil, nil\n		}\n	case []interface{}:\n		if len(v) == 1 {\n			return []*Parameter{p}, nil\n		}\n	}\n	return p.Value, nil\n")],
  "yaml", test("yaml", ["runtime/debug", "testing"], '''
func TestDemo(t *testing.T) {
	debug.SetMaxStack(1 << 22)
	m, err := ParseString("kind: pipeline\\nname: a\\nsteps:\\n- name: b\\n  image: c\\n  settings:\\n    d: [ e ]\\n")
	if err != nil {
		t.Fatal(err)
	}
	if _, err := m.Encode(); err != nil {
		t.Error(err)
	}
}'''))
S("parse-reader", "G04", "a reader that fails before its end",
  "Parsing from a reader that fails never ends.",
  [(PA, "	for scanner.Scan() {\n", "	for {\n		if !scanner.Scan() && scanner.Err() == nil {\n			break\n		}\n")],
  "yaml", test("yaml", ["errors", "io", "strings", "testing", "time"], '''
type failing struct{}

func (failing) Read([]byte) (int, error) { time.Sleep(time.Millisecond); return 0, errors.New("failed") }

func TestDemo(t *testing.T) {
	done := make(chan bool, 1)
	go func() {
		ParseRaw(io.MultiReader(strings.NewReader("kind: cron\\n"), failing{}))
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(time.Second):
		t.Error("parsing does not end")
	}
}'''))
S("ports-skip", "G04", "a pipeline with an empty entry among the ports",
  "Linting a container with an empty port entry never ends.",
  [(L, "	for _, port := range ports {\n		if port == nil {\n			continue\n		}\n		err := checkPort(port, trusted)\n		if err != nil {\n			return err\n		}\n	}\n", "	for i := 0; i < len(ports); {\n		port := ports[i]\n		if port == nil {\n			continue\n		}\n		err := checkPort(port, trusted)\n		if err != nil {\n			return err\n		}\n		i++\n	}\n")],
  "yaml/linter", LT.replace('"testing"', '"testing"\n\t"time"') + '''
func TestDemo(t *testing.T) {
	done := make(chan bool, 1)
	go func() {
		Lint(&yaml.Pipeline{Steps: []*yaml.Container{{Name: "a", Image: "b", Ports: []*yaml.Port{nil}}}}, true)
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(time.Second):
		t.Error("linting does not end")
	}
}''')
MX = "yaml/converter/legacy/matrix/matrix.go"
MT = '''package matrix

import (
	"testing"
)
'''
S("matrix-limit", "V08", "a legacy file whose lists have more than twelve combinations",
  "A build matrix of 16 combinations is cut off after twelve: the rest is never built.",
  [(MX, "		if p > limitAxis {\n", "		if p > limitTags {\n")],
  "yaml/converter/legacy/matrix", MT + '''
func TestDemo(t *testing.T) {
	axes, err := ParseString("matrix:\\n  a: [1, 2, 3, 4]\\n  b: [5, 6, 7, 8]\\n")
	if err != nil {
		t.Fatal(err)
	}
	seen := map[string]bool{}
	for _, a := range axes {
		seen[a.String()] = true
	}
	if len(axes) != 16 || len(seen) != 16 {
		t.Errorf("%d entries, %d different ones", len(axes), len(seen))
	}
}''')
S("matrix-variables", "V08", "a legacy file with six lists of which the last in the alphabet have several values",
  "The limit of ten variables became four: later variables have no value in any entry, so entries repeat.",
  [(MX, "	limitTags = 10\n", "	limitTags = 3\n")],
  "yaml/converter/legacy/matrix", MT + '''
func TestDemo(t *testing.T) {
	axes, err := ParseString("matrix:\\n  a: [1]\\n  b: [1]\\n  c: [1]\\n  d: [1]\\n  e: [1]\\n  f: [1, 2]\\n")
	if err != nil {
		t.Fatal(err)
	}
	if len(axes) != 2 || axes[0]["f"] == axes[1]["f"] {
		t.Error(axes)
	}
}''')
S("matrix-include-none", "V08", "a legacy file with an empty include list next to named lists",
  "An empty include list hides the named lists: the build matrix is lost.",
  [(MX, "	if err == nil && len(axis) != 0 {\n", "	if err == nil && axis != nil {\n")],
  "yaml/converter/legacy/matrix", MT + '''
func TestDemo(t *testing.T) {
	axes, err := ParseString("matrix:\\n  include: []\\n  a: [1, 2]\\n")
	if err != nil {
		t.Fatal(err)
	}
	if len(axes) != 2 {
		t.Error(axes)
	}
}''')
