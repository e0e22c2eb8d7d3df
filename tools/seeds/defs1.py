L = "yaml/linter/linter.go"; LC = "yaml/linter/config.go"
K = "yaml/compiler/compiler.go"; ST = "yaml/compiler/step.go"; CV = "yaml/compiler/convert.go"
WS = "yaml/compiler/workspace.go"; CL = "yaml/compiler/clone.go"; PX = "yaml/compiler/script_posix.go"
LT = '''package linter

import (
	"testing"

	"github.com/drone/drone-yaml/yaml"
)
'''
CT = '''package compiler

import (
	"testing"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
)

var _ engine.Step

func step(s *engine.Spec, name string) *engine.Step {
	for _, x := range s.Steps {
		if x.Metadata.Name == name {
			return x
		}
	}
	return nil
}
'''
S("lint-host-port-second", "L01", "a container whose second (or later) port maps to a host port",
  "An untrusted pipeline can bind a host port: only the first port of a container is checked.",
  [(L, "		err := checkPort(port, trusted)\n		if err != nil {\n			return err\n		}\n	}\n	return nil", "		return checkPort(port, trusted)\n	}\n	return nil")],
  "yaml/linter", LT + '''
func TestDemo(t *testing.T) {
	p := &yaml.Pipeline{Steps: []*yaml.Container{{Name: "a", Image: "b", Ports: []*yaml.Port{{Port: 80}, {Port: 8080, Host: 8080}}}}}
	if Lint(p, false) == nil {
		t.Error("an untrusted pipeline maps a host port")
	}
}''')
S("lint-volume-both", "L01", "a volume that declares both a host path and an empty directory",
  "The host path of a volume is not checked when the volume also has a temp section.",
  [(L, "		if volume.HostPath != nil {\n", "		if volume.EmptyDir == nil && volume.HostPath != nil {\n")],
  "yaml/linter", LT + '''
func TestDemo(t *testing.T) {
	p := &yaml.Pipeline{
		Steps:   []*yaml.Container{{Name: "a", Image: "b"}},
		Volumes: []*yaml.Volume{{Name: "v", EmptyDir: &yaml.VolumeEmptyDir{}, HostPath: &yaml.VolumeHostPath{Path: "/"}}},
	}
	if Lint(p, false) == nil {
		t.Error("an untrusted pipeline mounts the host")
	}
}''')
S("lint-service-names", "L02", "a service with the name of a detached step that has dependencies",
  "Two containers of a pipeline share a name.",
  [(L, "		names[container.Name] = struct{}{}\n\n		err := checkContainer(container, trusted)\n		if err != nil {\n			return err\n		}\n\n		err = checkDeps",
       "		if len(container.DependsOn) == 0 || container.Detach == false {\n			names[container.Name] = struct{}{}\n		}\n\n		err := checkContainer(container, trusted)\n		if err != nil {\n			return err\n		}\n\n		err = checkDeps")],
  "yaml/linter", LT + '''
func TestDemo(t *testing.T) {
	p := &yaml.Pipeline{
		Steps:    []*yaml.Container{{Name: "a", Image: "b"}, {Name: "db", Image: "b", Detach: true, DependsOn: []string{"a"}}},
		Services: []*yaml.Container{{Name: "db", Image: "c"}},
	}
	if Lint(p, true) == nil {
		t.Error("duplicate names accepted")
	}
}''')
S("lint-deps-clone", "L04", "a step that lists itself as its second or later dependency",
  "A step that lists itself after another dependency is accepted, so the graph has a cycle.",
  [(L, "		if container.Name == dep {\n			return ErrCyclicalDependency\n		}\n", "		if container.Name == dep && dep == container.DependsOn[0] {\n			return ErrCyclicalDependency\n		}\n")],
  "yaml/linter", LT + '''
func TestDemo(t *testing.T) {
	p := &yaml.Pipeline{Steps: []*yaml.Container{{Name: "a", Image: "b"}, {Name: "c", Image: "b", DependsOn: []string{"a", "c"}}}}
	if Lint(p, true) == nil {
		t.Error("a step depends on itself")
	}
}''')
S("manifest-later", "L05", "a pipeline that depends on a pipeline defined later in the manifest",
  "Dependencies are checked against the names of all pipelines, so forward references (and cycles through them) pass.",
  [(LC, "			names[v.Name] = struct{}{}\n			err := checkPipelineDeps(v, names)\n			if err != nil {\n				return err\n			}\n			if", "			names[v.Name] = struct{}{}\n			if"),
   (LC, "				if err != nil {\n					return err\n				}\n			}\n		}\n	}\n	return nil\n}\n", "				if err != nil {\n					return err\n				}\n			}\n		}\n	}\n	for _, resource := range manifest.Resources {\n		if v, ok := resource.(*yaml.Pipeline); ok {\n			if err := checkPipelineDeps(v, names); err != nil {\n				return err\n			}\n		}\n	}\n	return nil\n}\n"),
   (LC, "				err = checkPlatform", "				err := checkPlatform")],
  "yaml/linter", LT + '''
func TestDemo(t *testing.T) {
	m := &yaml.Manifest{Resources: []yaml.Resource{
		&yaml.Pipeline{Name: "a"}, &yaml.Pipeline{Name: "b"}, &yaml.Pipeline{Name: "c", DependsOn: []string{"d"}}, &yaml.Pipeline{Name: "d"},
	}}
	if Manifest(m, true) == nil {
		t.Error("a pipeline depends on a later one")
	}
}''')
S("priv-carries-over", "C01", "a step after one that the policy made privileged, with the same image expression after expansion",
  "A privileged policy answer is remembered per compiled image, so a step with commands inherits it from a plugin step.",
  [(K, "		if c.privileged(container) {\n			step.Docker.Privileged = true\n		}\n",
       "		if c.privileged(container) || granted[step.Docker.Image] {\n			granted[step.Docker.Image] = true\n			step.Docker.Privileged = true\n		}\n"),
   (K, "	rename := map[string]string{}\n", "	rename, granted := map[string]string{}, map[string]bool{}\n")],
  "yaml/compiler", CT + '''
func TestDemo(t *testing.T) {
	c := &Compiler{PrivilegedFunc: DindFunc([]string{"plugins/docker"})}
	s := c.Compile(&yaml.Pipeline{Steps: []*yaml.Container{
		{Name: "publish", Image: "plugins/docker"},
		{Name: "shell", Image: "plugins/docker", Commands: []string{"id"}},
	}})
	if step(s, "shell").Docker.Privileged {
		t.Error("a step with commands became privileged")
	}
}''')
S("skip-always-step", "C03", "a step that runs on success and failure and whose branch condition does not match",
  "The skip function is not consulted for steps that always run.",
  [(K, "		if c.skip(container) {\n			step.RunPolicy = engine.RunNever\n		}", "		if step.RunPolicy != engine.RunAlways && c.skip(container) {\n			step.RunPolicy = engine.RunNever\n		}")],
  "yaml/compiler", CT + '''
func TestDemo(t *testing.T) {
	c := &Compiler{SkipFunc: SkipFunc(SkipData{Branch: "develop"})}
	x := &yaml.Container{Name: "a", Image: "b"}
	x.When.Status.Include = []string{"success", "failure"}
	x.When.Branch.Include = []string{"master"}
	s := c.Compile(&yaml.Pipeline{Steps: []*yaml.Container{x}})
	if step(s, "a").RunPolicy != engine.RunNever {
		t.Error("a step whose condition does not match runs")
	}
}''')
S("env-secret-plain", "C04", "a setting whose name differs from an earlier setting only in case of letters, or whose parameter has a secret and a value",
  "A parameter that comes from a secret is also written as a plain variable.",
  [(ST, "			dst.Secrets = append(dst.Secrets, sec)\n		} else {\n			// else if", "			dst.Secrets = append(dst.Secrets, sec)\n		}\n		if value.Value != nil {\n			// else if")],
  "yaml/compiler", CT + '''
func TestDemo(t *testing.T) {
	c := new(Compiler)
	s := c.Compile(&yaml.Pipeline{Steps: []*yaml.Container{{Name: "a", Image: "b", Settings: map[string]*yaml.Parameter{
		"token": {Secret: "token", Value: "cleartext"}}}}})
	if _, ok := step(s, "a").Envs["PLUGIN_TOKEN"]; ok {
		t.Error("a secret setting is a plain variable")
	}
}''')
S("volume-uid-once", "C08", "a pipeline with two or more volumes",
  "Every volume of a pipeline gets the same identifier.",
  [(K, "	for _, from := range from.Volumes {\n", "	volumeUID := rand.String()\n	for _, from := range from.Volumes {\n"), (K, "				UID:       rand.String(),\n				Name:      from.Name,", "				UID:       volumeUID,\n				Name:      from.Name,")],
  "yaml/compiler", CT + '''
func TestDemo(t *testing.T) {
	s := new(Compiler).Compile(&yaml.Pipeline{Volumes: []*yaml.Volume{{Name: "a"}, {Name: "b"}}})
	seen := map[string]bool{}
	for _, v := range s.Docker.Volumes {
		if seen[v.Metadata.UID] {
			t.Error("two volumes share an identifier")
		}
		seen[v.Metadata.UID] = true
	}
}''')
S("script-dollar-once", "C09", "a command with two or more variables",
  "Only the first variable of a traced command is escaped; the trace expands (and executes) the others.",
  [(PX, "strings.Replace(escaped, \"$\", `\\$`, -1)", "strings.Replace(escaped, \"$\", `\\$`, 1)")],
  "yaml/compiler", CT.replace('"testing"', '"strings"\n	"testing"') + '''
func TestDemo(t *testing.T) {
	s := new(Compiler).Compile(&yaml.Pipeline{Steps: []*yaml.Container{{Name: "a", Image: "b", Commands: []string{"echo $A $B"}}}})
	for _, f := range s.Files {
		if strings.Contains(string(f.Data), "\\necho + \\"echo \\\\$A $B\\"") {
			t.Error("the trace expands a variable")
		}
	}
}''')
S("alias-services", "C11", "a service that uses an image built by the pipeline",
  "Services that use an image built by the pipeline pull it from the registry instead.",
  [(K, "	for _, step := range spec.Steps {\n", "	for _, step := range spec.Steps[len(from.Services):] {\n")],
  "yaml/compiler", CT.replace('"testing"', '"strings"\n	"testing"') + '''
func TestDemo(t *testing.T) {
	s := new(Compiler).Compile(&yaml.Pipeline{Clone: yaml.Clone{Disable: true}, Services: []*yaml.Container{{Name: "b", Image: "octocat/hello"}}, Steps: []*yaml.Container{
		{Name: "a", Build: &yaml.Build{Image: "octocat/hello"}}}})
	if !strings.HasSuffix(step(s, "b").Docker.Image, ":"+step(s, "a").Metadata.UID) {
		t.Error("the built image is not used")
	}
}''')
S("dind-first", "C13", "a policy with more than one image and a container that uses one that is not first",
  "Only the first image of the privileged plugin list is granted privileges.",
  [("yaml/compiler/dind.go", "			if image.Match(a, b) {\n				return true\n			}\n", "			return image.Match(a, b)\n")],
  "yaml/compiler", CT + '''
func TestDemo(t *testing.T) {
	if !DindFunc([]string{"plugins/docker", "plugins/ecr"})(&yaml.Container{Image: "plugins/ecr"}) {
		t.Error("a listed plugin is not privileged")
	}
}''')
S("serial-any", "C07", "a graph pipeline whose first step with dependencies is detached",
  "A pipeline counts as serial when the first step with dependencies is detached, so steps do not wait for the clone step.",
  [(K, "			isSerial = false\n			break\n", "			isSerial = step.Detach\n			break\n")],
  "yaml/compiler", CT + '''
func TestDemo(t *testing.T) {
	s := new(Compiler).Compile(&yaml.Pipeline{Steps: []*yaml.Container{
		{Name: "a", Image: "b"}, {Name: "c", Image: "b", Detach: true, DependsOn: []string{"a"}}}})
	if len(step(s, "a").DependsOn) == 0 {
		t.Error("a step of a graph does not wait for the clone step")
	}
}''')
S("socket-detached", "C02", "a detached step mounts _docker_socket in a pipeline that builds an image",
  "A step that is not a build step mounts the docker socket.",
  [(ST, "		if vol.Name == \"_docker_socket\" {\n			continue\n		}\n", "		if vol.Name == \"_docker_socket\" && !src.Detach {\n			continue\n		}\n")],
  "yaml/compiler", CT + '''
func TestDemo(t *testing.T) {
	s := new(Compiler).Compile(&yaml.Pipeline{Steps: []*yaml.Container{
		{Name: "a", Build: &yaml.Build{Image: "x/y"}},
		{Name: "b", Image: "x/z", Detach: true, Volumes: []*yaml.VolumeMount{{Name: "_docker_socket", MountPath: "/s"}}}}})
	for _, v := range step(s, "b").Volumes {
		if v.Name == "_docker_socket" {
			t.Error("the docker socket is mounted")
		}
	}
}''')
S("clone-depth-one", "C15", "a clone depth of exactly one",
  "The most common shallow clone depth, 1, is not passed to the clone step.",
  [(CL, "depth > 0 {", "depth > 1 {")],
  "yaml/compiler", CT + '''
func TestDemo(t *testing.T) {
	s := new(Compiler).Compile(&yaml.Pipeline{Clone: yaml.Clone{Depth: 1}})
	if step(s, "clone").Envs["PLUGIN_DEPTH"] != "1" {
		t.Error("depth is lost")
	}
}''')
