package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
)

// docKeys are the documented keys: package, type, then field, key and shape.
const docKeys = `
yaml.Pipeline
 Version version string
 Kind kind string
 Type type string
 Name name string
 Clone clone Clone
 Concurrency concurrency Concurrency
 DependsOn depends_on list(string)
 Node node map(string)
 Platform platform Platform
 PullSecrets image_pull_secrets list(string)
 Services services list(Container)
 Steps steps list(Container)
 Trigger trigger Conditions
 Volumes volumes list(Volume)
 Workspace workspace Workspace
yaml.Clone
 Disable disable bool
 Depth depth int
 SkipVerify skip_verify bool
yaml.Concurrency
 Limit limit int
yaml.Container
 Build build Build
 Command command list(string)
 Commands commands list(string)
 Detach detach bool
 DependsOn depends_on list(string)
 Devices devices list(VolumeDevice)
 DNS dns list(string)
 DNSSearch dns_search list(string)
 Entrypoint entrypoint list(string)
 Environment environment map(Variable)
 ExtraHosts extra_hosts list(string)
 Failure failure string
 Image image string
 Network network_mode string
 Name name string
 Ports ports list(Port)
 Privileged privileged bool
 Pull pull string
 Push push Push
 Resources resources Resources
 Settings settings map(Parameter)
 Shell shell string
 User user string
 Volumes volumes list(VolumeMount)
 When when Conditions
 WorkingDir working_dir string
yaml.Resources
 Limits limits ResourceObject
 Requests requests ResourceObject
yaml.ResourceObject
 CPU cpu float64
 Memory memory BytesSize
yaml.Platform
 OS os string
 Arch arch string
 Variant variant string
 Version version string
yaml.Volume
 Name name string
 EmptyDir temp VolumeEmptyDir
 HostPath host VolumeHostPath
yaml.VolumeDevice
 Name name string
 DevicePath path string
yaml.VolumeMount
 Name name string
 MountPath path string
yaml.VolumeEmptyDir
 Medium medium string
 SizeLimit size_limit BytesSize
yaml.VolumeHostPath
 Path path string
yaml.Workspace
 Base base string
 Path path string
yaml.Conditions
 Action action Condition
 Cron cron Condition
 Ref ref Condition
 Repo repo Condition
 Instance instance Condition
 Target target Condition
 Event event Condition
 Branch branch Condition
 Status status Condition
 Paths paths Condition
 Matrix matrix map(string)
yaml.Condition
 Include include list(string)
 Exclude exclude list(string)
yaml.Build
 Args args map(string)
 CacheFrom cache_from list(string)
 Context context string
 Dockerfile dockerfile string
 Image image string
 Labels labels map(string)
yaml.Push
 Image image string
yaml.Port
 Port port int
 Host host int
 Protocol protocol string
yaml.Variable
 Value value string
 Secret from_secret string
yaml.Parameter
 Value value any
 Secret from_secret string
yaml.Cron
 Version version string
 Kind kind string
 Type type string
 Name name string
 Spec spec CronSpec
yaml.CronSpec
 Schedule schedule string
 Branch branch string
 Deploy deployment CronDeployment
yaml.CronDeployment
 Target target string
yaml.Secret
 Version version string
 Kind kind string
 Type type string
 Name name string
 Data data string
 Get get SecretGet
yaml.SecretGet
 Path path string
 Name name string
 Key key string
yaml.Registry
 Version version string
 Kind kind string
 Type type string
 Data data map(string)
yaml.Signature
 Version version string
 Kind kind string
 Hmac hmac string
`

// foreignKeys are the keys of the configuration files of other systems.
const foreignKeys = `
yaml/converter/gitlab.Config
 Image image Image
 Stages stages list(string)
 Services services list(Image)
 Variables variables map(string)
 Before before_script list(string)
 After after_script list(string)
 Jobs inline map(Job)
yaml/converter/gitlab.Job
 AllowFailure allow_failure bool
 Stage stage string
 Image image Image
 Script script list(string)
 Before before_script list(string)
 After after_script list(string)
yaml/converter/bitbucket.Config
 Image image string
 Clone clone {}
 Clone.Depth clone.depth int
 Pipelines pipelines {}
 Pipelines.Default pipelines.default Stage
 Pipelines.Tags pipelines.tags map(Stage)
 Pipelines.Branches pipelines.branches map(Stage)
 Definitions.Services definitions.services map(Step)
yaml/converter/bitbucket.Step
 Name name string
 Image image string
 Script script list(string)
yaml/converter/legacy/internal.Config
 Workspace.Base workspace.base string
 Workspace.Path workspace.path string
 Clone clone Containers
 Pipeline pipeline Containers
 Services services Containers
 Branches branches Constraint
 Matrix matrix any
 Secrets secrets map({})
 Secrets[].Driver secrets[].driver string
 Secrets[].DriverOpts secrets[].driver_opts map(string)
 Secrets[].Path secrets[].path string
 Secrets[].Vault secrets[].vault string
yaml/converter/legacy/internal.Container
 Command command list(string)
 Commands commands list(string)
 Detached detach bool
 DNS dns list(string)
 DNSSearch dns_search list(string)
 Entrypoint entrypoint list(string)
 Environment environment SliceMap
 ExtraHosts extra_hosts list(string)
 Image image string
 Privileged privileged bool
 Pull pull bool
 Volumes volumes list(Volume)
 Secrets secrets Secrets
 Constraints when Constraints
 Vargs inline map(any)
yaml/converter/legacy/internal.Constraints
 Ref ref Constraint
 Repo repo Constraint
 Instance instance Constraint
 Environment environment Constraint
 Event event Constraint
 Branch branch Constraint
 Status status Constraint
 Matrix matrix map(string)
yaml/converter/legacy/internal.Secret
 Source source string
 Target target string
`

type docField struct {
	key, shape string
	where      string
}

// structKeys lists the exported fields of a struct with their document keys.
func (c *Ctx) structKeys(st *types.Struct, lib string, out map[string]docField, field, key string) (dups []string) {
	seen := map[string]string{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		tag := strings.Split(reflect.StructTag(st.Tag(i)).Get(lib), ",")
		if tag[0] == "-" && len(tag) == 1 {
			continue
		}
		k := tag[0]
		if k == "" {
			k = strings.ToLower(f.Name())
		}
		for _, t := range tag[1:] {
			if t == "inline" {
				k = "inline"
			}
		}
		if o := seen[k]; o != "" {
			dups = append(dups, fmt.Sprintf("%s and %s are both read from %q", o, f.Name(), key+k))
		}
		seen[k] = f.Name()
		out[field+f.Name()] = docField{key + k, shapeOf(f.Type()), c.w.posn(f.Pos())}
		t, inner := f.Type(), ""
		switch u := t.Underlying().(type) {
		case *types.Map:
			t, inner = u.Elem(), "[]"
		case *types.Slice:
			t, inner = u.Elem(), "[]"
		}
		if s, ok := deref2(t).(*types.Struct); ok {
			dups = append(dups, c.structKeys(s, lib, out, field+f.Name()+inner+".", key+k+inner+".")...)
		}
	}
	return
}

func deref2(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func shapeOf(t types.Type) string {
	t = deref2(t)
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return "list(" + shapeOf(u.Elem()) + ")"
	case *types.Map:
		if b, ok := u.Key().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			return "map(" + shapeOf(u.Elem()) + ")"
		}
		return "map[" + shapeOf(u.Key()) + "](" + shapeOf(u.Elem()) + ")"
	case *types.Interface:
		if u.Empty() {
			return "any"
		}
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	if _, ok := t.(*types.Struct); ok {
		return "{}"
	}
	return t.String()
}

// keyTable compares the keys of the code with a table of documented ones.
func (c *Ctx) keyTable(table string, libs ...string) {
	var pkg, name string
	var got map[string]map[string]docField
	for _, line := range strings.Split(table, "\n") {
		if line == "" {
			continue
		}
		if line[0] != ' ' {
			i := strings.LastIndexByte(line, '.')
			pkg, name = line[:i], line[i+1:]
			t := c.w.typ(pkg, name)
			st, ok := isStruct(t)
			if !ok {
				panic(undecided(line + " is not a struct"))
			}
			got = map[string]map[string]docField{}
			for _, lib := range libs {
				got[lib] = map[string]docField{}
				dups := c.structKeys(st, lib, got[lib], "", "")
				c.ob(fmt.Sprintf("%s.%s.%s.distinct", pkg, name, lib), len(dups) == 0, c.w.posn(c.w.pkg(pkg).Pkg.Scope().Lookup(name).Pos()), strings.Join(dups, "; "))
			}
			continue
		}
		f := strings.Fields(line)
		for _, lib := range libs {
			k := fmt.Sprintf("%s.%s.%s.%s", pkg, name, lib, f[0])
			g, ok := got[lib][f[0]]
			switch {
			case !ok:
				c.ob(k, false, c.w.posn(c.w.pkg(pkg).Pkg.Scope().Lookup(name).Pos()), fmt.Sprintf("the documented key %q of %s is no longer read in %s", f[1], name, lib))
			case g.key != f[1]:
				c.ob(k, false, g.where, fmt.Sprintf("%s.%s is read from %q in %s, documented is %q", name, f[0], g.key, lib, f[1]))
			default:
				c.ob(k, g.shape == f[2], g.where, fmt.Sprintf("the value of %q has the shape %s, documented is %s", f[1], g.shape, f[2]))
			}
		}
	}
}

func init() {
	register(&Check{id: "P06", minObs: 250,
		rule: "the keys under which the yaml and the json library read and write each field of the document types (field names and struct tags of the type-checked program) are the documented ones, each of one field only, with the documented shape",
		run:  func(c *Ctx) { c.keyTable(docKeys, "yaml", "json") }})
	register(&Check{id: "V06", minObs: 60,
		rule: "the keys read from GitLab, Bitbucket and legacy configuration files into the fields the converters use are the ones those systems document",
		run:  func(c *Ctx) { c.keyTable(foreignKeys, "yaml") }})
}
