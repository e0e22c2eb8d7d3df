L = "yaml/linter/linter.go"; LC = "yaml/linter/config.go"
K = "yaml/compiler/compiler.go"; ST = "yaml/compiler/step.go"; CV = "yaml/compiler/convert.go"
WS = "yaml/compiler/workspace.go"; CL = "yaml/compiler/clone.go"; PX = "yaml/compiler/script_posix.go"
LT = '''package linter

import (
	"testing"

	"github.com/drone/drone-yaml/yaml"
)
'''
CT = '''package compiler

import (
	"testing"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
)

var _ engine.Step

func step(s *engine.Spec, name string) *engine.Step {
	for _, x := range s.Steps {
		if x.Metadata.Name == name {
			return x
		}
	}
	return nil
}
'''
PA = "yaml/parse.go"; SG = "yaml/signer/signer.go"; T = "yaml/compiler/transform/"
GL = "yaml/converter/gitlab/convert.go"; LG = "yaml/converter/legacy/internal/config.go"
PP = "yaml/pretty/pipeline.go"; PC = "yaml/pretty/container.go"; PW = "yaml/pretty/writer.go"

def test(pkg, imports, body):
    return "package %s\n\nimport (\n%s)\n%s" % (pkg, "".join('\t%s\n' % (i if " " in i else '"%s"' % i) for i in imports), body)

KEY = '[]byte("0123456789abcdef0123456789abcdef")'

S("parse-indented-separator", "P02", "a block scalar with an indented line of dashes",
  "A line of dashes inside of a multi-line command splits the document in two.",
  [(PA, "	return strings.HasPrefix(s, \"---\")", "	return strings.HasPrefix(strings.TrimSpace(s), \"---\")")],
  "yaml", test("yaml", ["testing"], '''
func TestDemo(t *testing.T) {
	res, err := ParseRawString("kind: pipeline\\nname: a\\nsteps:\\n- name: b\\n  commands:\\n  - |\\n    cat <<END\\n    ---\\n    kind: x\\n    END\\n")
	if err != nil || len(res) != 1 {
		t.Errorf("want one document, got %d (%v)", len(res), err)
	}
}
'''))
S("parse-terminator-exact", "P02", "a document that ends with a terminator followed by a comment or blanks",
  "The text after the document terminator is parsed as part of the document.",
  [(PA, "	return strings.HasPrefix(s, \"...\")", "	return s == \"...\"")],
  "yaml", test("yaml", ["testing"], '''
func TestDemo(t *testing.T) {
	res, err := ParseRawString("kind: pipeline\\nname: a\\n... # the end\\nname: [\\n")
	if err != nil || len(res) != 1 || string(res[0].Data) != "kind: pipeline\\nname: a\\n" {
		t.Errorf("want one document without the text after its end, got %d (%v)", len(res), err)
	}
}
'''))
S("sign-until-signature", "S02", "a resource after the signature",
  "Resources that follow a signature are not covered by it: a pipeline appended to a signed file passes verification.",
  [(SG, "		if r.Kind != yaml.KindSignature {\n			h.Write(r.Data)\n		}\n", "		if r.Kind == yaml.KindSignature {\n			break\n		}\n		h.Write(r.Data)\n")],
  "yaml/signer", test("signer", ["testing"], '''
func TestDemo(t *testing.T) {
	key := Key(%s)
	out, err := SignUpdate([]byte("kind: pipeline\\nname: a\\n"), key)
	if err != nil {
		t.Fatal(err)
	}
	out = append(out[:len(out)-len("\\n...\\n")], "---\\nkind: pipeline\\nname: b\\n"...)
	if ok, _ := Verify(out, key); ok {
		t.Error("a pipeline was added after signing and the file is still verified")
	}
}
''' % KEY))
S("verify-prefix", "S01", "a signature that is shorter than the real one",
  "A truncated (even empty) signature is accepted.",
  [(SG, "	return hmac.Equal(mac1, mac2), nil", "	n := len(mac1)\n	if n > len(mac2) {\n		n = len(mac2)\n	}\n	return hmac.Equal(mac1[:n], mac2[:n]), nil")],
  "yaml/signer", test("signer", ["testing"], '''
func TestDemo(t *testing.T) {
	if ok, _ := Verify([]byte("kind: pipeline\\nname: a\\n---\\nkind: signature\\nhmac: \\"\\"\\n"), Key(%s)); ok {
		t.Error("an empty signature is accepted")
	}
}
''' % KEY))
S("sign-long-key", "S03", "a key of more than 64 bytes, the block size of the hash",
  "Only the first 64 bytes of a long key are used: files signed with another key that shares them are verified.",
  [(SG, "	h := hmac.New(sha256.New, key)\n", "	size := len(key)\n	if size > sha256.BlockSize {\n		size = sha256.BlockSize\n	}\n	h := hmac.New(sha256.New, key[:size])\n")],
  "yaml/signer", test("signer", ["strings", "testing"], '''
func TestDemo(t *testing.T) {
	out, err := SignUpdate([]byte("kind: pipeline\\nname: a\\n"), Key(strings.Repeat("k", 64)+"1"))
	if err != nil {
		t.Fatal(err)
	}
	if ok, _ := Verify(out, Key(strings.Repeat("k", 64)+"2")); ok {
		t.Error("the file is verified with another key")
	}
}
'''))
S("upsert-twice", "S03", "a file with two signatures",
  "Only the first signature is replaced; the old one stays in the file.",
  [(SG, "func upsert(res []*yaml.RawResource, hmac string) []byte {\n	var buf bytes.Buffer\n	for _, r := range res {\n		if r.Kind != yaml.KindSignature {\n			buf.WriteString(\"---\")\n			buf.WriteByte('\\n')\n			buf.Write(r.Data)\n		}\n	}\n",
        "func upsert(res []*yaml.RawResource, hmac string) []byte {\n	var buf bytes.Buffer\n	removed := false\n	for _, r := range res {\n		if r.Kind == yaml.KindSignature && !removed {\n			removed = true\n			continue\n		}\n		buf.WriteString(\"---\")\n		buf.WriteByte('\\n')\n		buf.Write(r.Data)\n	}\n")],
  "yaml/signer", test("signer", ["strings", "testing"], '''
func TestDemo(t *testing.T) {
	out, err := WriteTo([]byte("kind: pipeline\\nname: a\\n---\\nkind: signature\\nhmac: aa\\n---\\nkind: signature\\nhmac: bb\\n"), "cc")
	if err != nil || strings.Count(string(out), "kind: signature") != 1 {
		t.Errorf("want one signature, got\\n%s", out)
	}
}
'''))
S("secret-of-skipped-step", "T02", "a step that runs and one before it that does not, both with the same secret",
  "A secret of a step that runs is not requested because a step that is skipped has it too.",
  [(T + "secret.go", "			if step.RunPolicy == engine.RunNever {\n				continue\n			}\n			for _, v := range step.Secrets {\n", "			if step.RunPolicy == engine.RunNever {\n				for _, v := range step.Secrets {\n					set[v.Name] = struct{}{}\n				}\n			}\n			for _, v := range step.Secrets {\n")],
  "yaml/compiler/transform", test("transform", ["testing", "github.com/drone/drone-runtime/engine"], '''
func TestDemo(t *testing.T) {
	a := &engine.Step{RunPolicy: engine.RunNever, Secrets: []*engine.SecretVar{{Name: "x", Env: "X"}}}
	b := &engine.Step{Secrets: []*engine.SecretVar{{Name: "x", Env: "X"}}}
	spec := &engine.Spec{Steps: []*engine.Step{a, b}}
	WithSecretFunc(func(string) *engine.Secret { return &engine.Secret{Data: "s"} })(spec)
	if len(spec.Secrets) != 1 {
		t.Error("the secret of a step that runs is missing")
	}
}
'''))
S("exclude-clone-first", "T03", "a list that excludes the clone step, and services or a disabled clone",
  "The clone step is only kept when it is the first step of the pipeline.",
  [(T + "filter.go", "		for _, step := range spec.Steps {\n			if step.Metadata.Name == \"clone\" {\n				continue\n			}\n			_, ok := set[step.Metadata.Name]\n			if ok {", "		for i, step := range spec.Steps {\n			if i == 0 && step.Metadata.Name == \"clone\" {\n				continue\n			}\n			_, ok := set[step.Metadata.Name]\n			if ok {")],
  "yaml/compiler/transform", test("transform", ["testing", "github.com/drone/drone-runtime/engine"], '''
func TestDemo(t *testing.T) {
	a := &engine.Step{Metadata: engine.Metadata{Name: "database"}}
	b := &engine.Step{Metadata: engine.Metadata{Name: "clone"}}
	spec := &engine.Spec{Steps: []*engine.Step{a, b}}
	Exclude([]string{"clone", "test"})(spec)
	if b.RunPolicy == engine.RunNever {
		t.Error("the clone step does not run")
	}
}
'''))
S("resume-skips-everything", "T03", "resuming at the clone step",
  "No step runs when the build is resumed at the clone step.",
  [(T + "filter.go", "			if step.Metadata.Name == name {\n				return\n			}\n			if step.Metadata.Name == \"clone\" {\n				continue\n			}\n", "			if step.Metadata.Name == \"clone\" {\n				continue\n			}\n			if step.Metadata.Name == name {\n				return\n			}\n")],
  "yaml/compiler/transform", test("transform", ["testing", "github.com/drone/drone-runtime/engine"], '''
func TestDemo(t *testing.T) {
	a := &engine.Step{Metadata: engine.Metadata{Name: "clone"}}
	b := &engine.Step{Metadata: engine.Metadata{Name: "build"}}
	spec := &engine.Spec{Steps: []*engine.Step{a, b}}
	ResumeAt("clone")(spec)
	if b.RunPolicy == engine.RunNever {
		t.Error("the build step follows the clone step and does not run")
	}
}
'''))
S("limits-partial", "R03", "a step with resource requests but no limits",
  "The program crashes when limits are set for a step that has a resources section without limits.",
  [(T + "limits.go", "			if step.Resources == nil {\n				step.Resources = &engine.Resources{}\n			}\n			if step.Resources.Limits == nil {\n				step.Resources.Limits = &engine.ResourceObject{}\n			}\n",
    "			if step.Resources == nil {\n				step.Resources = &engine.Resources{\n					Limits: &engine.ResourceObject{},\n				}\n			}\n")],
  "yaml/compiler/transform", test("transform", ["testing", "github.com/drone/drone-runtime/engine"], '''
func TestDemo(t *testing.T) {
	a := &engine.Step{Resources: &engine.Resources{Requests: &engine.ResourceObject{CPU: 1}}}
	WithLimits(1, 2)(&engine.Spec{Steps: []*engine.Step{a}})
	if a.Resources.Limits == nil || a.Resources.Limits.Memory != 1 {
		t.Error("no limit is set")
	}
}
'''))
S("limits-shared", "T01", "two steps without resources, one of which is changed later",
  "All steps share one resources section.",
  [(T + "limits.go", "		for _, step := range spec.Steps {\n			if step.Resources == nil {\n				step.Resources = &engine.Resources{}\n			}\n", "		var resources *engine.Resources\n		for _, step := range spec.Steps {\n			if step.Resources != nil {\n				resources = step.Resources\n			}\n			if resources == nil {\n				resources = &engine.Resources{}\n			}\n			step.Resources = resources\n")],
  "yaml/compiler/transform", test("transform", ["testing", "github.com/drone/drone-runtime/engine"], '''
func TestDemo(t *testing.T) {
	a := &engine.Step{Resources: &engine.Resources{Requests: &engine.ResourceObject{CPU: 1}}}
	b := &engine.Step{}
	WithLimits(1, 2)(&engine.Spec{Steps: []*engine.Step{a, b}})
	if b.Resources.Requests != nil {
		t.Error("a step has the requests of another step")
	}
}
'''))
S("networks-shared", "G03", "two networks lists that share memory, and a step with networks of its own",
  "The networks of one step are written over those of another.",
  [(T + "network.go", "			step.Docker.Networks = append(\n				step.Docker.Networks, networks...)", "			step.Docker.Networks = append(\n				networks, step.Docker.Networks...)")],
  "yaml/compiler/transform", test("transform", ["testing", "github.com/drone/drone-runtime/engine"], '''
func TestDemo(t *testing.T) {
	names := make([]string, 1, 4)
	names[0] = "shared"
	a := &engine.Step{Docker: &engine.DockerStep{Networks: []string{"a"}}}
	b := &engine.Step{Docker: &engine.DockerStep{Networks: []string{"b"}}}
	WithNetworks(names)(&engine.Spec{Steps: []*engine.Step{a, b}})
	for _, s := range a.Docker.Networks {
		if s == "b" {
			t.Error("the step is attached to the network of another step")
		}
	}
}
'''))
S("gitlab-before-shared", "G03", "three or more global before commands and two jobs of a stage",
  "The commands of a job are replaced by those of another job of the same stage.",
  [(GL, "			cmds := []string(config.Before)\n			cmds = append(cmds, []string(job.Before)...)\n", "			cmds := append(before, []string(job.Before)...)\n"),
   (GL, "	// create a new pipeline for each stage.\n", "	// commands that come before those of the jobs.\n	var before []string\n	for _, cmd := range config.Before {\n		before = append(before, cmd)\n	}\n\n	// create a new pipeline for each stage.\n")],
  "yaml/converter/gitlab", test("gitlab", ["strings", "testing"], '''
func TestDemo(t *testing.T) {
	out, err := Convert([]byte("image: golang\\nstages: [s]\\nbefore_script: [a, b, c]\\none: {stage: s, script: [first]}\\ntwo: {stage: s, script: [second]}\\n"))
	if err != nil || strings.Count(string(out), "first") != 1 || strings.Count(string(out), "second") != 1 {
		t.Errorf("want one of each job's commands, got\\n%s", out)
	}
}
'''))
S("gitlab-after-order", "V03", "a global after script together with one of a job",
  "The global after commands run before those of the job.",
  [(GL, "			cmds = append(cmds, []string(job.After)...)\n			cmds = append(cmds, []string(config.After)...)\n", "			cmds = append(cmds, []string(config.After)...)\n			cmds = append(cmds, []string(job.After)...)\n")],
  "yaml/converter/gitlab", test("gitlab", ["strings", "testing"], '''
func TestDemo(t *testing.T) {
	out, err := Convert([]byte("image: golang\\nafter_script: [globalafter]\\none: {script: [first], after_script: [jobafter]}\\n"))
	if err != nil || strings.Index(string(out), "jobafter") > strings.Index(string(out), "globalafter") {
		t.Errorf("want the after commands of the job first, got\\n%s", out)
	}
}
'''))
S("legacy-promote-exclude", "V02", "a step that excludes the deployment event",
  "A step of a legacy file that is not to run for deployments does run for promotions.",
  [(LG, "			Exclude: toPromote(from.Event.Exclude),", "			Exclude: from.Event.Exclude,")],
  "yaml/converter/legacy", test("legacy", ["strings", "testing"], '''
func TestDemo(t *testing.T) {
	out, err := Convert([]byte("pipeline:\\n  a:\\n    image: b\\n    when:\\n      event:\\n        exclude: [ deployment ]\\n"), "")
	if err != nil || !strings.Contains(string(out), "- promote") {
		t.Errorf("want the promote event excluded, got\\n%s", out)
	}
}
'''))
S("legacy-matrix-first", "V07", "a matrix variable used twice",
  "Only the first use of a matrix variable is replaced.",
  [(LG, "fmt.Sprintf(\"${%s}\", key), value, -1)", "fmt.Sprintf(\"${%s}\", key), value, 1)")],
  "yaml/converter/legacy", test("legacy", ["strings", "testing"], '''
func TestDemo(t *testing.T) {
	out, err := Convert([]byte("pipeline:\\n  a:\\n    image: golang:${V}\\n    commands:\\n    - echo ${V}\\nmatrix:\\n  V: [ 1, 2 ]\\n"), "")
	if err != nil || strings.Contains(string(out), "${V}") {
		t.Errorf("want the variable replaced, got\\n%s", out)
	}
}
'''))
S("legacy-tag-last", "V07", "a step for tags that is not the last step, and branches",
  "Tag builds of a legacy file with branches do not run unless the last step asks for them.",
  [(LG, "			if sliceContains(\"tag\", step.When.Event.Include) {\n				pipeline.Trigger.Ref.Include = append(\n					pipeline.Trigger.Ref.Include,\n					\"refs/tags/**\",\n				)\n				break\n			}\n",
        "			if !sliceContains(\"tag\", step.When.Event.Include) {\n				break\n			}\n			pipeline.Trigger.Ref.Include = append(\n				pipeline.Trigger.Ref.Include,\n				\"refs/tags/**\",\n			)\n			break\n")],
  "yaml/converter/legacy", test("legacy", ["strings", "testing"], '''
func TestDemo(t *testing.T) {
	out, err := Convert([]byte("pipeline:\\n  a:\\n    image: b\\n  c:\\n    image: d\\n    when:\\n      event: tag\\nbranches: [ master ]\\n"), "")
	if err != nil || !strings.Contains(string(out), "refs/tags/**") {
		t.Errorf("want a trigger for tags, got\\n%s", out)
	}
}
'''))
S("condition-include-exclude", "Y02", "a condition with one included and one excluded pattern",
  "Formatting a condition that includes exactly one pattern and excludes another drops the included pattern.",
  [(PP, "	if len(v.Include) != 0 && len(v.Exclude) != 0 {\n", "	if len(v.Include) > 1 && len(v.Exclude) != 0 {\n")],
  "yaml/pretty", test("pretty", ["bytes", "strings", "testing", "github.com/drone/drone-yaml/yaml"], '''
func TestDemo(t *testing.T) {
	buf := new(bytes.Buffer)
	p := &yaml.Pipeline{Kind: "pipeline", Trigger: yaml.Conditions{Branch: yaml.Condition{Include: []string{"feature/*"}, Exclude: []string{"feature/x"}}}}
	Print(buf, &yaml.Manifest{Resources: []yaml.Resource{p}})
	if !strings.Contains(buf.String(), "feature/*") {
		t.Errorf("want the included branch, got\\n%s", buf)
	}
}
'''))
S("float-precision", "Y03", "a setting with a number of more than six digits",
  "Formatting rounds the numbers of settings.",
  [(PW, "strconv.FormatFloat(v, 'g', -1, 64)", "strconv.FormatFloat(v, 'g', 6, 64)")],
  "yaml/pretty", test("pretty", ["bytes", "strings", "testing", "github.com/drone/drone-yaml/yaml"], '''
func TestDemo(t *testing.T) {
	buf := new(bytes.Buffer)
	p := &yaml.Pipeline{Kind: "pipeline", Steps: []*yaml.Container{{Name: "a", Settings: map[string]*yaml.Parameter{"x": {Value: 1234567.5}}}}}
	Print(buf, &yaml.Manifest{Resources: []yaml.Resource{p}})
	if !strings.Contains(buf.String(), "1.2345675e+06") {
		t.Errorf("want the number as it was, got\\n%s", buf)
	}
}
'''))
S("temp-size-only", "Y02", "a temporary volume that only has a size limit",
  "Formatting drops the size limit of a temporary volume without a medium.",
  [(PP, "			if isEmptyDirEmpty(v) {", "			if v.Medium == \"\" {")],
  "yaml/pretty", test("pretty", ["bytes", "strings", "testing", "github.com/drone/drone-yaml/yaml"], '''
func TestDemo(t *testing.T) {
	buf := new(bytes.Buffer)
	p := &yaml.Pipeline{Kind: "pipeline", Volumes: []*yaml.Volume{{Name: "a", EmptyDir: &yaml.VolumeEmptyDir{SizeLimit: 1024}}}}
	Print(buf, &yaml.Manifest{Resources: []yaml.Resource{p}})
	if !strings.Contains(buf.String(), "size_limit") {
		t.Errorf("want the size limit, got\\n%s", buf)
	}
}
'''))
S("secret-by-name", "L06", "a secret that is only described by the name of an external secret",
  "A valid secret resource is rejected.",
  [("yaml/secret.go", "	if len(s.Data) == 0 && len(s.Get.Path) == 0 && len(s.Get.Name) == 0 {", "	if len(s.Data) == 0 && len(s.Get.Path) == 0 {")],
  "yaml", test("yaml", ["testing"], '''
func TestDemo(t *testing.T) {
	s := &Secret{Name: "a", Kind: "secret", Get: SecretGet{Name: "b"}}
	if err := s.Validate(); err != nil {
		t.Error(err)
	}
}
'''))
S("lint-last-error", "X02", "a file whose first resource is invalid and whose last is valid",
  "The lint command accepts a file with an invalid resource if its last resource is valid.",
  [("main.go", "	for _, r := range m.Resources {\n		err := linter.Lint(r, *lintPriv)\n		if err != nil {\n			return err\n		}\n	}\n	return nil\n", "	for _, r := range m.Resources {\n		err = linter.Lint(r, *lintPriv)\n	}\n	return err\n")],
  ".", test("main", ["io/ioutil", "os", "testing"], '''
func TestDemo(t *testing.T) {
	f, err := ioutil.TempFile("", "")
	if err != nil {
		t.Fatal(err)
	}
	defer os.Remove(f.Name())
	f.WriteString("kind: pipeline\\nname: a\\nsteps:\\n- name: b\\n---\\nkind: pipeline\\nname: c\\nsteps:\\n- name: d\\n  image: e\\n")
	f.Seek(0, 0)
	*lintFile = f
	if runLint() == nil {
		t.Error("a file with a step that has no image is accepted")
	}
}
'''))
S("compile-last-pipeline", "X03", "a file with more than one pipeline",
  "The last pipeline of the file is compiled instead of the first that fits.",
  [("main.go", "			p = v\n			break\n", "			p = v\n")],
  ".", test("main", ["encoding/json", "io/ioutil", "os", "testing"], '''
func TestDemo(t *testing.T) {
	f, err := ioutil.TempFile("", "")
	if err != nil {
		t.Fatal(err)
	}
	defer os.Remove(f.Name())
	f.WriteString("kind: pipeline\\nname: one\\n---\\nkind: pipeline\\nname: two\\n")
	f.Seek(0, 0)
	*compileIn = f
	out, err := ioutil.TempFile("", "")
	if err != nil {
		t.Fatal(err)
	}
	defer os.Remove(out.Name())
	stdout := os.Stdout
	os.Stdout = out
	err = runCompile()
	os.Stdout = stdout
	if err != nil {
		t.Fatal(err)
	}
	b, _ := ioutil.ReadFile(out.Name())
	var spec struct {
		Metadata struct{ Labels map[string]string }
	}
	json.Unmarshal(b, &spec)
	if spec.Metadata.Labels["io.drone.pipeline.name"] != "one" {
		t.Errorf("want the first pipeline, got\\n%s", b)
	}
}
'''))
S("sign-save-append", "X01", "signing a file in place that becomes shorter",
  "Signing a file in place leaves the end of the old file behind.",
  [("main.go", "		return ioutil.WriteFile(f.Name(), out, 0644)\n	}\n\n	hmac", "		w, err := os.OpenFile(f.Name(), os.O_WRONLY|os.O_CREATE, 0644)\n		if err != nil {\n			return err\n		}\n		defer w.Close()\n		_, err = w.Write(out)\n		return err\n	}\n\n	hmac")],
  ".", test("main", ["io/ioutil", "os", "strings", "testing"], '''
func TestDemo(t *testing.T) {
	f, err := ioutil.TempFile("", "")
	if err != nil {
		t.Fatal(err)
	}
	defer os.Remove(f.Name())
	f.WriteString("kind: pipeline\\nname: one\\n...\\n" + strings.Repeat("this is not part of the file\\n", 50))
	f.Seek(0, 0)
	*signFile = f
	*signSave = true
	*signKey = strings.Repeat("k", 32)
	if err := runSign(); err != nil {
		t.Fatal(err)
	}
	b, _ := ioutil.ReadFile(f.Name())
	if !strings.HasSuffix(string(b), "\\n...\\n") {
		t.Errorf("want the signed file, got\\n%s", b)
	}
}
'''))
S("lint-default-os", "G02", "a pipeline that is linted and then printed or compiled",
  "The linter changes the pipeline it is given.",
  [(L, "	err = checkPlatform(pipeline.Platform)\n", "	platform := &pipeline.Platform\n	if platform.Arch == \"\" && platform.OS == \"windows\" {\n		platform.Arch = \"amd64\"\n	}\n	err = checkPlatform(*platform)\n")],
  "yaml/linter", LT + '''
func TestDemo(t *testing.T) {
	p := &yaml.Pipeline{Platform: yaml.Platform{OS: "windows"}}
	Lint(p, false)
	if p.Platform.Arch != "" {
		t.Error("the linter changes the pipeline")
	}
}''')
S("linter-shared-names", "G01", "two pipelines that are linted at the same time or one after the other",
  "The names of the steps of one pipeline are remembered when the next is linted.",
  [(L, "	names := map[string]struct{}{}\n	if pipeline.Clone.Disable == false {\n", "	for name := range seen {\n		if len(name) > 1024 {\n			continue\n		}\n		delete(seen, name)\n	}\n	names := seen\n	if pipeline.Clone.Disable == false {\n"),
   (L, "func checkPipeline(", "var seen = map[string]struct{}{}\n\nfunc checkPipeline(")],
  "yaml/linter", LT.replace('"testing"', '"strings"\n\t"testing"') + '''
func TestDemo(t *testing.T) {
	p := &yaml.Pipeline{Steps: []*yaml.Container{{Name: strings.Repeat("a", 2000), Image: "b"}}}
	if err := Lint(p, false); err != nil {
		t.Fatal(err)
	}
	if err := Lint(p, false); err != nil {
		t.Error("linting the same pipeline again fails:", err)
	}
}''')
S("socket-service", "C02", "a detached step that mounts a volume named like the docker socket",
  "A detached step can mount the docker socket of the host.",
  [(ST, "		if vol.Name == \"_docker_socket\" {\n			continue\n		}\n", "		if vol.Name == \"_docker_socket\" && src.Detach == false {\n			continue\n		}\n")],
  "yaml/compiler", CT + '''
func TestDemo(t *testing.T) {
	p := &yaml.Pipeline{Steps: []*yaml.Container{
		{Name: "a", Build: &yaml.Build{Image: "x"}},
		{Name: "b", Image: "c", Detach: true, Volumes: []*yaml.VolumeMount{{Name: "_docker_socket", MountPath: "/s"}}},
	}}
	for _, v := range step(new(Compiler).Compile(p), "b").Volumes {
		if v.Name == "_docker_socket" {
			t.Error("the step mounts the docker socket")
		}
	}
}''')
