CASES = []
def R(name, *edits):
    CASES.append((name, "", list(edits)))
L = "yaml/linter/linter.go"; LC = "yaml/linter/config.go"
K = "yaml/compiler/compiler.go"; ST = "yaml/compiler/step.go"; CV = "yaml/compiler/convert.go"
WS = "yaml/compiler/workspace.go"; CL = "yaml/compiler/clone.go"

R("lint-extract-gate", (L, "	if trusted == false && container.Privileged {\n		return errors.New(\"linter: untrusted repositories cannot enable privileged mode\")\n	}\n", "	if err := checkPriv(container, trusted); err != nil {\n		return err\n	}\n"),
  (L, "func checkPorts(", "func checkPriv(c *yaml.Container, trusted bool) error {\n	if trusted || !c.Privileged {\n		return nil\n	}\n	return errors.New(\"linter: untrusted repositories cannot enable privileged mode\")\n}\n\nfunc checkPorts("))
R("lint-reorder", (L, "	err := checkVolumes(pipeline, trusted)\n	if err != nil {\n		return err\n	}\n	err = checkPlatform(pipeline.Platform)\n	if err != nil {\n		return err\n	}\n", "	if err := checkPlatform(pipeline.Platform); err != nil {\n		return err\n	}\n	if err := checkVolumes(pipeline, trusted); err != nil {\n		return err\n	}\n"))
R("lint-switch-platform", (L, "	if v := platform.OS; v != \"\" {\n		_, ok := os[v]\n		if !ok {\n			return fmt.Errorf(\"linter: unsupported os: %s\", v)\n		}\n	}\n", "	switch platform.OS {\n	case \"\", \"linux\", \"windows\":\n	default:\n		return fmt.Errorf(\"linter: unsupported os: %s\", platform.OS)\n	}\n"), (L, "var os = map[string]struct{}{\n	\"linux\":   struct{}{},\n	\"windows\": struct{}{},\n}\n", ""))
R("lint-index-loop", (L, "	for _, container := range pipeline.Services {\n		if container == nil {\n			continue\n		}\n", "	for i := 0; i < len(pipeline.Services); i++ {\n		container := pipeline.Services[i]\n		if container == nil {\n			continue\n		}\n"))
R("lint-boolmap", (L, "	names := map[string]struct{}{}\n	if pipeline.Clone.Disable == false {\n		names[\"clone\"] = struct{}{}\n	}", "	names := make(map[string]struct{}, len(pipeline.Steps))\n	if !pipeline.Clone.Disable {\n		names[\"clone\"] = struct{}{}\n	}"))
R("lint-early-trusted", (L, "	for _, port := range ports {\n		if port == nil {\n			continue\n		}\n		err := checkPort(port, trusted)\n		if err != nil {\n			return err\n		}\n	}\n	return nil", "	if trusted {\n		return nil\n	}\n	for _, port := range ports {\n		if port != nil {\n			if err := checkPort(port, trusted); err != nil {\n				return err\n			}\n		}\n	}\n	return nil"))
R("lint-merge-containers", (L, "	for _, container := range pipeline.Services {\n		if container == nil {\n			continue\n		}\n		_, ok := names[container.Name]\n		if ok {\n			return ErrDuplicateStepName\n		}\n		names[container.Name] = struct{}{}\n\n		err := checkContainer(container, trusted)\n		if err != nil {\n			return err\n		}\n	}\n	return nil\n}", "	for _, container := range pipeline.Services {\n		if err := checkOne(container, names, trusted); err != nil {\n			return err\n		}\n	}\n	return nil\n}\n\nfunc checkOne(container *yaml.Container, names map[string]struct{}, trusted bool) error {\n	if container == nil {\n		return nil\n	}\n	if _, ok := names[container.Name]; ok {\n		return ErrDuplicateStepName\n	}\n	names[container.Name] = struct{}{}\n	return checkContainer(container, trusted)\n}"))
R("manifest-if", (LC, "		switch v := resource.(type) {\n		case *yaml.Pipeline:\n			_, ok := names", "		if v, ok := resource.(*yaml.Pipeline); ok {\n			_, ok := names"))
R("manifest-deps-order", (LC, "		_, ok := deps[dep]\n		if !ok {\n			return ErrMissingPipelineDependency\n		}\n		if pipeline.Name == dep {\n			return ErrPipelineSelfDependency\n		}\n", "		if dep == pipeline.Name {\n			return ErrPipelineSelfDependency\n		}\n		if _, ok := deps[dep]; !ok {\n			return ErrMissingPipelineDependency\n		}\n"))
R("lint-reserved-func", (L, "		switch mount.Name {\n		case \"workspace\", \"_workspace\", \"_docker_socket\":\n			return fmt.Errorf(\"linter: invalid volume name: %s\", mount.Name)\n		}", "		if reserved(mount.Name) {\n			return fmt.Errorf(\"linter: invalid volume name: %s\", mount.Name)\n		}"), (L, "func checkPorts(", "var reservedNames = []string{\"workspace\", \"_workspace\", \"_docker_socket\"}\n\nfunc reserved(name string) bool {\n	for _, n := range reservedNames {\n		if n == name {\n			return true\n		}\n	}\n	return false\n}\n\nfunc checkPorts("))
R("lint-gate-block", (L, "	if trusted == false && len(container.Devices) > 0 {\n		return errors.New(\"linter: untrusted repositories cannot mount devices\")\n	}\n	if trusted == false && len(container.DNS) > 0 {\n		return errors.New(\"linter: untrusted repositories cannot configure dns\")\n	}\n", "	if !trusted {\n		if len(container.Devices) != 0 {\n			return errors.New(\"linter: untrusted repositories cannot mount devices\")\n		}\n		if container.DNS != nil && len(container.DNS) >= 1 {\n			return errors.New(\"linter: untrusted repositories cannot configure dns\")\n		}\n	}\n"))
R("cond-range", ("yaml/cond.go", "	if c.Includes(v) {\n		return true\n	}\n	if len(c.Include) == 0 {\n		return true\n	}\n	return false", "	return len(c.Include) == 0 || c.Includes(v)"))
# compiler
R("serial-func", (K, "	isSerial := true\n	for _, step := range from.Steps {\n		if step != nil && len(step.DependsOn) != 0 {\n			isSerial = false\n			break\n		}\n	}\n", "	isSerial := !isGraph(from)\n"), (K, "func (c *Compiler) setupWorkspace(", "func isGraph(from *yaml.Pipeline) bool {\n	for i := range from.Steps {\n		s := from.Steps[i]\n		if s == nil {\n			continue\n		}\n		if len(s.DependsOn) > 0 {\n			return true\n		}\n	}\n	return false\n}\n\nfunc (c *Compiler) setupWorkspace("))
R("volume-func", (K, "		if from.EmptyDir != nil {\n			// if the yaml configuration specifies an empty\n			// directory volume (data volume) or an in-memory\n			// file system.\n			to.EmptyDir = &engine.VolumeEmptyDir{\n				Medium:    from.EmptyDir.Medium,\n				SizeLimit: int64(from.EmptyDir.SizeLimit),\n			}\n		} else if from.HostPath != nil {\n			// if the yaml configuration specifies a bind\n			// mount to the host machine.\n			to.HostPath = &engine.VolumeHostPath{\n				Path: from.HostPath.Path,\n			}\n		}\n", "		setVolumeSource(to, from)\n"), (K, "func (c *Compiler) setupWorkspace(", "func setVolumeSource(to *engine.Volume, from *yaml.Volume) {\n	switch {\n	case from.EmptyDir != nil:\n		dir := new(engine.VolumeEmptyDir)\n		dir.Medium = from.EmptyDir.Medium\n		dir.SizeLimit = int64(from.EmptyDir.SizeLimit)\n		to.EmptyDir = dir\n	case from.HostPath != nil:\n		to.HostPath = &engine.VolumeHostPath{Path: from.HostPath.Path}\n	}\n}\n\nfunc (c *Compiler) setupWorkspace("))
R("compile-split", (K, "		setupWorkingDir(service, step, workspace)\n		setupWorkspaceEnv(step, base, dir, workspace)\n		c.setupWorkspaceMount(step, base, dir, workspace)\n		// if the skip callback function returns true,\n		// modify the runtime step to never execute.\n		if c.skip(service) {\n			step.RunPolicy = engine.RunNever\n		}\n		// if the step is a plugin and should be executed\n		// in privileged mode, set the privileged flag.\n		if c.privileged(service) {\n			step.Docker.Privileged = true\n		}\n", "		c.finish(service, step, base, dir, workspace)\n"), (K, "func (c *Compiler) setupWorkspace(", "func (c *Compiler) finish(src *yaml.Container, step *engine.Step, base, dir, workspace string) {\n	if c.privileged(src) {\n		step.Docker.Privileged = true\n	}\n	if c.skip(src) {\n		step.RunPolicy = engine.RunNever\n	}\n	c.setupWorkspaceMount(step, base, dir, workspace)\n	setupWorkspaceEnv(step, base, dir, workspace)\n	setupWorkingDir(src, step, workspace)\n}\n\nfunc (c *Compiler) setupWorkspace("))
R("two-slices", (K, "		spec.Steps = append(spec.Steps, step)\n	}\n\n	// rename will", "		services = append(services, step)\n	}\n	spec.Steps = append(spec.Steps, services...)\n\n	// rename will"), (K, "	// for each pipeline service defined", "	var services []*engine.Step\n	// for each pipeline service defined"))
R("alias-index", (K, "	for _, step := range spec.Steps {\n		if v, ok := rename[image.Expand(step.Docker.Image)]; ok {\n			img := image.Trim(step.Docker.Image) + \":\" + v\n			step.Docker.Image = image.Expand(img)\n		}\n	}", "	for i := range spec.Steps {\n		docker := spec.Steps[i].Docker\n		alias, ok := rename[image.Expand(docker.Image)]\n		if !ok {\n			continue\n		}\n		docker.Image = image.Expand(image.Trim(docker.Image) + \":\" + alias)\n	}"))
R("socket-flag", (K, "	if spec.Docker != nil && len(rename) > 0 {", "	hasBuild := false\n	for _, s := range from.Steps {\n		if s != nil && s.Build != nil {\n			hasBuild = true\n		}\n	}\n	if hasBuild {"))
R("policy-if", (CV, "	switch {\n	case onFailure && onSuccess:\n		return engine.RunAlways\n	case onFailure:\n		return engine.RunOnFailure\n	case onSuccess:\n		return engine.RunOnSuccess\n	default:\n		return engine.RunNever\n	}", "	if onFailure {\n		if onSuccess {\n			return engine.RunAlways\n		}\n		return engine.RunOnFailure\n	}\n	if onSuccess {\n		return engine.RunOnSuccess\n	}\n	return engine.RunNever"))
R("pull-map", (CV, "	switch strings.ToLower(from.Pull) {\n	case \"always\":\n		return engine.PullAlways\n	case \"if-not-exists\":\n		return engine.PullIfNotExists\n	case \"never\":\n		return engine.PullNever\n	default:\n		return engine.PullDefault\n	}", "	if p, ok := pulls[strings.ToLower(from.Pull)]; ok {\n		return p\n	}\n	return engine.PullDefault"), (CV, "func toPorts(", "var pulls = map[string]engine.PullPolicy{\n	\"always\":        engine.PullAlways,\n	\"if-not-exists\": engine.PullIfNotExists,\n	\"never\":         engine.PullNever,\n}\n\nfunc toPorts("))
R("clone-nested", (CL, "	switch {\n	case src.Platform.OS == \"linux\" && src.Platform.Arch == \"arm\":\n		return \"drone/git:linux-arm\"\n	case src.Platform.OS == \"linux\" && src.Platform.Arch == \"arm64\":\n		return \"drone/git:linux-arm64\"\n", "	if src.Platform.OS == \"linux\" {\n		switch src.Platform.Arch {\n		case \"arm\", \"arm64\":\n			return \"drone/git:linux-\" + src.Platform.Arch\n		}\n		return \"drone/git\"\n	}\n	switch {\n"))
R("env-iter", (ST, "	for _, key := range envs {\n		value := src.Environment[key]\n		// fix https://github.com/drone/drone-yaml/issues/13\n		if value == nil {\n			continue\n		}\n		if value.Secret != \"\" {\n			sec := &engine.SecretVar{\n				Name: value.Secret,\n				Env:  key,\n			}\n			dst.Secrets = append(dst.Secrets, sec)\n		} else {\n			dst.Envs[key] = value.Value\n		}\n	}", "	for i := range envs {\n		key := envs[i]\n		value, ok := src.Environment[key]\n		if !ok || value == nil {\n			continue\n		}\n		if value.Secret == \"\" {\n			dst.Envs[key] = value.Value\n			continue\n		}\n		dst.Secrets = append(dst.Secrets, &engine.SecretVar{\n			Name: value.Secret,\n			Env:  key,\n		})\n	}"))
R("env-helper", (ST, "	var settings []string\n	for key := range src.Settings {\n		settings = append(settings, key)\n	}\n	sort.Strings(settings)\n	for _, key := range settings {\n", "	for _, key := range settingKeys(src) {\n"), (ST, "func createBuildStep(", "func settingKeys(src *yaml.Container) []string {\n	keys := make([]string, 0, len(src.Settings))\n	for key := range src.Settings {\n		keys = append(keys, key)\n	}\n	sort.Strings(keys)\n	return keys\n}\n\nfunc createBuildStep("))
R("script-builder", ("yaml/compiler/script_posix.go", "		buf.WriteString(fmt.Sprintf(\n			traceScript,\n			escaped,\n			command,\n		))", "		buf.WriteString(\"\\necho + \")\n		buf.WriteString(escaped)\n		fmt.Fprintf(&buf, \"\\n%s\\n\", command)"), ("yaml/compiler/script_posix.go", "const traceScript = `\necho + %s\n%s\n`", ""))
R("script-escape-func", ("yaml/compiler/script_posix.go", "		escaped := fmt.Sprintf(\"%q\", command)\n		escaped = strings.Replace(escaped, \"$\", `\\$`, -1)\n		escaped = strings.Replace(escaped, \"`\", \"\\\\`\", -1)\n", "		escaped := escape(command)\n"), ("yaml/compiler/script_posix.go", "const buildScript", "func escape(s string) string {\n	s = strconv.Quote(s)\n	return strings.NewReplacer(\"$\", `\\$`, \"`\", \"\\\\`\").Replace(s)\n}\n\nconst buildScript"), ("yaml/compiler/script_posix.go", "	\"fmt\"\n", "	\"fmt\"\n	\"strconv\"\n"))
R("workspace-struct", (WS, "	base = from.Workspace.Base\n	path = from.Workspace.Path\n	if base == \"\" {\n		base = workspacePath\n	}\n	full = unixpath.Join(base, path)\n", "	base, path = from.Workspace.Base, from.Workspace.Path\n	if len(base) == 0 {\n		base = workspacePath\n	}\n	full = unixpath.Join(base, path)\n"))
R("workenv-loop", (WS, "	step.Envs[\"DRONE_WORKSPACE_BASE\"] = base\n	step.Envs[\"DRONE_WORKSPACE_PATH\"] = path\n	step.Envs[\"DRONE_WORKSPACE\"] = full\n	step.Envs[\"CI_WORKSPACE_BASE\"] = base\n	step.Envs[\"CI_WORKSPACE_PATH\"] = path\n	step.Envs[\"CI_WORKSPACE\"] = full\n", "	for _, prefix := range []string{\"DRONE\", \"CI\"} {\n		step.Envs[prefix+\"_WORKSPACE_BASE\"] = base\n		step.Envs[prefix+\"_WORKSPACE_PATH\"] = path\n		step.Envs[prefix+\"_WORKSPACE\"] = full\n	}\n"))
R("skip-chain", ("yaml/compiler/skip.go", "		switch {\n		case !container.When.Branch.Match(data.Branch):\n			return true\n		case !container.When.Cron.Match(data.Cron):\n			return true\n", "		when := container.When\n		if !when.Branch.Match(data.Branch) || !when.Cron.Match(data.Cron) {\n			return true\n		}\n		switch {\n"))
R("dind-any", ("yaml/compiler/dind.go", "		if len(container.Commands) > 0 {\n			return false\n		}\n		if len(container.Command) > 0 {\n			return false\n		}\n		if len(container.Entrypoint) > 0 {\n			return false\n		}\n", "		if len(container.Commands)+len(container.Command) > 0 || len(container.Entrypoint) > 0 {\n			return false\n		}\n"))
R("res-temp", (CV, "	return &engine.Resources{\n		Limits:   toResourceObject(from.Resources.Limits),\n		Requests: toResourceObject(from.Resources.Requests),\n	}", "	out := new(engine.Resources)\n	res := from.Resources\n	if res.Limits != nil {\n		out.Limits = toResourceObject(res.Limits)\n	}\n	out.Requests = toResourceObject(res.Requests)\n	return out"))
R("ports-prealloc", (CV, "	var ports []*engine.Port\n	for _, port := range from.Ports {\n		if port == nil {\n			continue\n		}\n		ports = append(ports, toPort(port))\n	}\n	return ports", "	if len(from.Ports) == 0 {\n		return nil\n	}\n	ports := make([]*engine.Port, 0, len(from.Ports))\n	for _, port := range from.Ports {\n		if port != nil {\n			ports = append(ports, toPort(port))\n		}\n	}\n	return ports"))
R("rand-index", ("yaml/compiler/internal/rand/rand.go", "		for _, rb := range r {\n			c := int(rb)\n", "		for j := 0; j < len(r); j++ {\n			c := int(r[j])\n"))
R("host-one-append", (WS, "	if path != \"\" {\n		step.Volumes = append(step.Volumes, &engine.VolumeMount{\n			Name: workspaceName,\n			Path: base,\n		})\n	}\n}", "	if len(path) == 0 {\n		return\n	}\n	MountWorkspace(step, base, path, full)\n}"))
R("prepend-clone-var", (K, "	if !from.Clone.Disable {\n		src := createClone(from)", "	clone := !from.Clone.Disable\n	if clone {\n		src := createClone(from)"), (K, "		if isSerial == false && from.Clone.Disable == false {", "		if clone && !isSerial {"), (K, "		if isSerial == false && from.Clone.Disable == false && len(step.DependsOn) == 0 {", "		if !isSerial && clone && len(container.DependsOn) == 0 {"))
R("step-switch-if", (K, "		var step *engine.Step\n		switch {\n		case container.Build != nil:\n			step = createBuildStep(spec, container)\n			rename[image.Expand(container.Build.Image)] = step.Metadata.UID\n		default:\n			step = createStep(spec, container)\n		}\n", "		step := c.convert(spec, container)\n		if container.Build != nil {\n			rename[image.Expand(container.Build.Image)] = step.Metadata.UID\n		}\n"), (K, "func (c *Compiler) setupWorkspace(", "func (c *Compiler) convert(spec *engine.Spec, container *yaml.Container) *engine.Step {\n	if container.Build != nil {\n		return createBuildStep(spec, container)\n	}\n	return createStep(spec, container)\n}\n\nfunc (c *Compiler) setupWorkspace("))

T = "yaml/compiler/transform/"
R("t-netrc-guard", (T+"netrc.go", 'if username == "" || password == "" {\n			return\n		}\n', 'if !(username != "" && password != "") {\n			return\n		}\n'))
R("t-include-invert", (T+"filter.go", "			_, ok := set[step.Metadata.Name]\n			if !ok {\n", "			if _, ok := set[step.Metadata.Name]; !ok {\n"))
R("t-resume-flag", (T+"filter.go", "			if step.Metadata.Name == name {\n				return\n			}\n			if step.Metadata.Name == \"clone\" {\n				continue\n			}\n			step.RunPolicy = engine.RunNever\n", "			if step.Metadata.Name == name {\n				break\n			}\n			if step.Metadata.Name != \"clone\" {\n				step.RunPolicy = engine.RunNever\n			}\n"))
R("t-exclude-linear", (T+"filter.go", "			_, ok := set[step.Metadata.Name]\n			if ok {\n				// if the step is included", "			ok := false\n			for _, n := range names {\n				if n == step.Metadata.Name {\n					ok = true\n					break\n				}\n			}\n			if ok {\n				// if the step is included"), (T+"filter.go", "func Exclude(names []string) func(*engine.Spec) {\n	set := map[string]struct{}{}\n	for _, name := range names {\n		set[name] = struct{}{}\n	}\n", "func Exclude(names []string) func(*engine.Spec) {\n"))
R("t-secret-helper", (T+"secret.go", "		// first we get a unique list of all secrets\n		// used by the specification.\n		set := map[string]struct{}{}\n		var names []string\n		for _, step := range spec.Steps {\n			// if we know the step is not going to run,\n			// we can ignore any secrets that it requires.\n			if step.RunPolicy == engine.RunNever {\n				continue\n			}\n			for _, v := range step.Secrets {\n				if _, ok := set[v.Name]; ok {\n					continue\n				}\n				set[v.Name] = struct{}{}\n				names = append(names, v.Name)\n			}\n		}\n", "		names := secretNames(spec)\n"), (T+"secret.go", "// SecretFunc is a callback", "func secretNames(spec *engine.Spec) (names []string) {\n	seen := make(map[string]bool)\n	for _, step := range spec.Steps {\n		if step.RunPolicy != engine.RunNever {\n			for _, s := range step.Secrets {\n				if !seen[s.Name] {\n					seen[s.Name] = true\n					names = append(names, s.Name)\n				}\n			}\n		}\n	}\n	return names\n}\n\n// SecretFunc is a callback"))
R("t-combine-index", (T+"combine.go", "		for _, fn := range fns {\n			fn(spec)\n		}", "		for i := 0; i < len(fns); i++ {\n			fns[i](spec)\n		}"))
R("p-new-resource", ("yaml/parse.go", "	var obj Resource\n	switch r.Kind {\n	case \"cron\":\n		obj = new(Cron)\n	case \"secret\":\n		obj = new(Secret)\n	case \"signature\":\n		obj = new(Signature)\n	case \"registry\":\n		obj = new(Registry)\n	default:\n		obj = new(Pipeline)\n	}\n", "	obj := newResource(r.Kind)\n"), ("yaml/parse.go", "func parseRaw(", "func newResource(kind string) Resource {\n	switch kind {\n	case KindCron:\n		return new(Cron)\n	case KindSecret:\n		return new(Secret)\n	case KindSignature:\n		return new(Signature)\n	case KindRegistry:\n		return &Registry{}\n	}\n	return new(Pipeline)\n}\n\nfunc parseRaw("), ("yaml/manifest.go", "		var obj Resource\n		switch res.Kind {\n		case \"cron\":\n			obj = new(Cron)\n		case \"secret\":\n			obj = new(Secret)\n		case \"signature\":\n			obj = new(Signature)\n		case \"registry\":\n			obj = new(Registry)\n		default:\n			obj = new(Pipeline)\n		}\n", "		obj := newResource(res.Kind)\n"))
R("p-json-collect", ("yaml/manifest.go", "		m.Resources = append(m.Resources, obj)\n	}\n	return nil", "		resources = append(resources, obj)\n	}\n	m.Resources = append(m.Resources, resources...)\n	return nil"), ("yaml/manifest.go", "	for _, message := range messages {\n		res := new(resource)\n", "	var resources []Resource\n	for _, message := range messages {\n		res := new(resource)\n"))
R("m-match-nested", ("yaml/cond.go", "	if c.Excludes(v) {\n		return false\n	}\n	if c.Includes(v) {\n		return true\n	}\n	if len(c.Include) == 0 {\n		return true\n	}\n	return false", "	switch {\n	case c.Excludes(v):\n		return false\n	case len(c.Include) == 0:\n		return true\n	}\n	return c.Includes(v)"))
G = "yaml/signer/signer.go"
R("s-continue", (G, "		if r.Kind != yaml.KindSignature {\n			h.Write(r.Data)\n		}\n", "		if r.Kind == yaml.KindSignature {\n			continue\n		}\n		h.Write(r.Data)\n"))
R("s-upsert-shared", (G, "	var buf bytes.Buffer\n	for _, r := range res {\n		if r.Kind != yaml.KindSignature {\n			buf.WriteString(\"---\")\n			buf.WriteByte('\\n')\n			buf.Write(r.Data)\n		}\n	}\n\n	buf.WriteString(\"---\")\n	buf.WriteByte('\\n')\n	buf.WriteString(\"kind: signature\")\n	buf.WriteByte('\\n')\n	buf.WriteString(\"hmac: \" + hex.EncodeToString(hmac))\n	buf.WriteByte('\\n')\n	buf.WriteByte('\\n')\n	buf.WriteString(\"...\")\n	buf.WriteByte('\\n')\n	return buf.Bytes(), nil\n", "	return upsert(res, hex.EncodeToString(hmac)), nil\n"))
R("s-sprintf", (G, '	buf.WriteString("hmac: " + hmac)\n	buf.WriteByte(\'\\n\')\n', '	fmt.Fprintf(&buf, "hmac: %s\\n", hmac)\n'), (G, '	"errors"\n', '	"errors"\n	"fmt"\n'))
R("s-extract-find", (G, "	for _, r := range res {\n		if r.Kind == yaml.KindSignature {\n			out := new(yaml.Signature)\n			err := goyaml.Unmarshal(r.Data, out)\n			if err != nil {\n				return nil, err\n			}\n			return hex.DecodeString(out.Hmac)\n		}\n	}\n	return nil, errors.New(\"yaml: missing signature\")\n", "	var raw *yaml.RawResource\n	for _, r := range res {\n		if r.Kind == yaml.KindSignature {\n			raw = r\n			break\n		}\n	}\n	if raw == nil {\n		return nil, errors.New(\"yaml: missing signature\")\n	}\n	out := yaml.Signature{}\n	if err := goyaml.Unmarshal(raw.Data, &out); err != nil {\n		return nil, err\n	}\n	return hex.DecodeString(out.Hmac)\n"))
R("s-filter-first", (G, "	h := hmac.New(sha256.New, key)\n	for _, r := range resources {\n		if r.Kind != yaml.KindSignature {\n			h.Write(r.Data)\n		}\n	}\n	return h.Sum(nil), nil\n", "	h := hmac.New(sha256.New, key)\n	var signed []*yaml.RawResource\n	for _, r := range resources {\n		if r.Kind != yaml.KindSignature {\n			signed = append(signed, r)\n		}\n	}\n	for i := range signed {\n		h.Write(signed[i].Data)\n	}\n	return h.Sum(nil), nil\n"))

PA = "yaml/parse.go"
R("p2-one-append", (PA, "		resource.Data = append(\n			resource.Data,\n			line...,\n		)\n		resource.Data = append(\n			resource.Data,\n			newline,\n		)\n", "		resource.Data = append(resource.Data, line+\"\\n\"...)\n"), (PA, "	const newline = '\\n'\n", ""))
R("p2-bytes", (PA, "		line := scanner.Text()\n", "		b := scanner.Bytes()\n		line := string(b)\n"))
R("p2-sep-branch", (PA, "		if isSeparator(line) {\n			resource = nil\n		}\n		if resource == nil {\n			resource = &RawResource{}\n			resources = append(resources, resource)\n		}\n		if isSeparator(line) {\n			continue\n		}\n", "		sep := isSeparator(line)\n		if sep || resource == nil {\n			resource = new(RawResource)\n			resources = append(resources, resource)\n		}\n		if sep {\n			continue\n		}\n"))
R("p2-helper", (PA, "		resource.Data = append(\n			resource.Data,\n			line...,\n		)\n		resource.Data = append(\n			resource.Data,\n			newline,\n		)\n", "		resource.add(line)\n"), (PA, "	const newline = '\\n'\n", ""), (PA, "func isSeparator(", "func (r *RawResource) add(line string) {\n	r.Data = append(r.Data, line...)\n	r.Data = append(r.Data, '\\n')\n}\n\nfunc isSeparator("))
R("p2-switch", (PA, "		if isSeparator(line) {\n			continue\n		}\n		if isTerminator(line) {\n			break\n		}\n		if scanner.Err() == io.EOF {\n			break\n		}\n		resource.Data = append(\n			resource.Data,\n			line...,\n		)\n		resource.Data = append(\n			resource.Data,\n			newline,\n		)\n	}\n	if err", "		if isSeparator(line) {\n			continue\n		}\n		if isTerminator(line) || scanner.Err() == io.EOF {\n			break\n		}\n		resource.Data = append(append(resource.Data, line...), newline)\n	}\n	if err"))
R("p2-split-func", (PA, "	if err := scanner.Err(); err != nil {\n		return nil, err\n	}\n	for _, resource := range resources {\n		err := yaml.Unmarshal(resource.Data, resource)\n		if err != nil {\n			return nil, err\n		}\n	}\n	return resources, nil\n}\n", "	if err := scanner.Err(); err != nil {\n		return nil, err\n	}\n	return resources, decodeHeads(resources)\n}\n\nfunc decodeHeads(list []*RawResource) error {\n	for i := range list {\n		if err := yaml.Unmarshal(list[i].Data, list[i]); err != nil {\n			return err\n		}\n	}\n	return nil\n}\n"))
R("p2-index", (PA, "		if resource == nil {\n			resource = &RawResource{}\n			resources = append(resources, resource)\n		}\n", "		if resource == nil {\n			resources = append(resources, &RawResource{})\n			resource = resources[len(resources)-1]\n		}\n"))
R("p3-direct", (PA, "	return ParseBytes(\n		[]byte(s),\n	)", "	return Parse(strings.NewReader(s))"), (PA, "	return Parse(\n		bytes.NewBuffer(b),\n	)", "	return Parse(bytes.NewReader(b))"))
R("p3-file-raw", (PA, "	f, err := os.Open(p)\n	if err != nil {\n		return nil, err\n	}\n	defer f.Close()\n	return ParseRaw(f)", "	file, err := os.Open(p)\n	if err == nil {\n		defer file.Close()\n		return ParseRaw(file)\n	}\n	return nil, err"))
MN = "main.go"
R("x-helper-output", (MN, "	if *formatSave {\n		return ioutil.WriteFile(f.Name(), b.Bytes(), 0644)\n	}\n	_, err = io.Copy(os.Stderr, b)\n	return err\n}", "	return output(f, b.Bytes(), *formatSave)\n}\n\nfunc output(f *os.File, data []byte, save bool) error {\n	if save {\n		return ioutil.WriteFile(f.Name(), data, 0644)\n	}\n	_, err := os.Stderr.Write(data)\n	return err\n}"), (MN, "	if *convertSave {\n		return ioutil.WriteFile(f.Name(), b, 0644)\n	}\n	_, err = io.Copy(os.Stderr, bytes.NewReader(b))\n	return err\n", "	return output(f, b, *convertSave)\n"), (MN, '	"io"\n', ''))
R("x-main-err", (MN, "	switch kingpin.Parse() {\n	case format.FullCommand():\n		kingpin.FatalIfError(runFormat(), \"\")\n	case convert.FullCommand():\n		kingpin.FatalIfError(runConvert(), \"\")\n	case lint.FullCommand():\n		kingpin.FatalIfError(runLint(), \"\")\n	case sign.FullCommand():\n		kingpin.FatalIfError(runSign(), \"\")\n	case verify.FullCommand():\n		kingpin.FatalIfError(runVerify(), \"\")\n	case compile.FullCommand():\n		kingpin.FatalIfError(runCompile(), \"\")\n	}", "	var err error\n	switch kingpin.Parse() {\n	case format.FullCommand():\n		err = runFormat()\n	case convert.FullCommand():\n		err = runConvert()\n	case lint.FullCommand():\n		err = runLint()\n	case sign.FullCommand():\n		err = runSign()\n	case verify.FullCommand():\n		err = runVerify()\n	case compile.FullCommand():\n		err = runCompile()\n	}\n	kingpin.FatalIfError(err, \"\")"))
R("x-verify-split", (MN, "	if err != nil {\n		return err\n	} else if !ok {\n		return errors.New(\"cannot verify yaml signature\")\n	}\n\n	fmt.Println(\"success: yaml signature verified\")\n	return nil", "	if err != nil {\n		return err\n	}\n	if ok {\n		fmt.Println(\"success: yaml signature verified\")\n		return nil\n	}\n	return errors.New(\"cannot verify yaml signature\")"))
R("x-compile-find", (MN, "	var p *yaml.Pipeline\n	for _, r := range m.Resources {\n		v, ok := r.(*yaml.Pipeline)\n		if !ok {\n			continue\n		}\n		if *compileName == \"\" ||\n			*compileName == v.Name {\n			p = v\n			break\n		}\n	}\n", "	p := find(m, *compileName)\n"), (MN, "func runCompile() error {", "func find(m *yaml.Manifest, name string) *yaml.Pipeline {\n	for _, r := range m.Resources {\n		if v, ok := r.(*yaml.Pipeline); ok && (name == \"\" || v.Name == name) {\n			return v\n		}\n	}\n	return nil\n}\n\nfunc runCompile() error {"))
R("x-compile-lit", (MN, "	comp := new(compiler.Compiler)\n	comp.GitCredentialsFunc = defaultCreds // TODO create compiler.GitCredentialsFunc and compiler.GlobalGitCredentialsFunc\n	comp.NetrcFunc = nil                   // TODO create compiler.NetrcFunc and compiler.GlobalNetrcFunc\n	comp.PrivilegedFunc = compiler.DindFunc(*dind)\n", "	comp := &compiler.Compiler{\n		GitCredentialsFunc: defaultCreds,\n		PrivilegedFunc:     compiler.DindFunc(*dind),\n	}\n"))
R("x-compile-not-clone", (MN, "	if *clone == false {\n		p.Clone.Disable = true\n	}", "	p.Clone.Disable = p.Clone.Disable || !*clone"))
R("x-envs-lit", (MN, "	envs := map[string]string{}\n	envs[\"DRONE_COMMIT_BRANCH\"] = *branch\n	envs[\"DRONE_COMMIT_SHA\"] = *sha\n	envs[\"DRONE_COMMIT_REF\"] = *ref\n", "	envs := map[string]string{\n		\"DRONE_COMMIT_BRANCH\": *branch,\n		\"DRONE_COMMIT_SHA\":    *sha,\n		\"DRONE_COMMIT_REF\":    *ref,\n	}\n"))
R("x-lint-fn", (MN, "	for _, r := range m.Resources {\n		err := linter.Lint(r, *lintPriv)\n		if err != nil {\n			return err\n		}\n	}\n	return nil\n}\n\nfunc runSign", "	return lintAll(m.Resources, *lintPriv)\n}\n\nfunc lintAll(list []yaml.Resource, trusted bool) (err error) {\n	for i := 0; i < len(list); i++ {\n		if err = linter.Lint(list[i], trusted); err != nil {\n			break\n		}\n	}\n	return err\n}\n\nfunc runSign"))

Y = "yaml/"
R("p5-cond-switch", (Y+"cond.go", "	err = unmarshal(&out2)\n	if err != nil {\n		out2 = nil\n		err = unmarshal(&out3)\n	}\n	if err != nil {\n		return err\n	}\n\n	c.Exclude = out3.Exclude\n	c.Include = append(\n		out3.Include,\n		out2...,\n	)\n", "	if err = unmarshal(&out2); err == nil {\n		c.Include = out2\n		c.Exclude = nil\n		return nil\n	}\n	if err = unmarshal(&out3); err != nil {\n		return err\n	}\n	c.Include, c.Exclude = out3.Include, out3.Exclude\n"))
R("p5-build-conv", (Y+"build.go", "	d := new(build)\n	err := unmarshal(&d.Image)\n	if err != nil {\n		err = unmarshal(d)\n	}\n	b.Args = d.Args\n	b.CacheFrom = d.CacheFrom\n	b.Context = d.Context\n	b.Dockerfile = d.Dockerfile\n	b.Labels = d.Labels\n	b.Image = d.Image\n	return err", "	var image string\n	if err := unmarshal(&image); err == nil {\n		*b = Build{Image: image}\n		return nil\n	}\n	var d build\n	if err := unmarshal(&d); err != nil {\n		return err\n	}\n	*b = Build{\n		Args:       d.Args,\n		CacheFrom:  d.CacheFrom,\n		Context:    d.Context,\n		Dockerfile: d.Dockerfile,\n		Labels:     d.Labels,\n		Image:      d.Image,\n	}\n	return nil"))
R("p5-port-plain", (Y+"port.go", "		err = unmarshal(&out)", "		err = unmarshal(out)"))
R("p5-param-else", (Y+"param.go", "	err = unmarshal(&i)\n	p.Value = i\n	return err", "	if err := unmarshal(&i); err != nil {\n		return err\n	}\n	p.Value = i\n	return nil"))
R("p5-unit-switch", (Y+"unit.go", "	if err == nil {\n		*b = BytesSize(intType)\n	}\n	return err", "	if err != nil {\n		return err\n	}\n	*b = BytesSize(intType)\n	return nil"))
R("p5-marshal-helper", (Y+"env.go", "	if v.Secret != \"\" {\n		m := map[string]interface{}{}\n		m[\"from_secret\"] = v.Secret\n		return m, nil\n	}", "	if v.Secret != \"\" {\n		return secretRef(v.Secret), nil\n	}"), (Y+"env.go", "// MarshalYAML", "func secretRef(name string) map[string]interface{} {\n	return map[string]interface{}{\"from_secret\": name}\n}\n\n// MarshalYAML"))

CV = "yaml/converter/"
GL, BB = CV+"gitlab/convert.go", CV+"bitbucket/"
R("v1-if", (CV+"convert.go", "	switch m.Filename {\n	case \"bitbucket-pipelines.yml\":\n		return bitbucket.Convert(d, m.Ref)\n	case \"circle.yml\", \".circleci/config.yml\":\n		// TODO(bradrydzewski)\n	case \".gitlab-ci.yml\":\n		return gitlab.Convert(d)\n	case \".travis.yml\":\n		// TODO(bradrydzewski)\n	}\n	// if", "	if m.Filename == \"bitbucket-pipelines.yml\" {\n		return bitbucket.Convert(d, m.Ref)\n	}\n	if m.Filename == \".gitlab-ci.yml\" {\n		return gitlab.Convert(d)\n	}\n	// if"))
R("v1-match", (CV+"legacy/match.go", "	matches := re.FindAll(b, -1)\n	return len(matches) != 0", "	return re.Match(b)"))
R("v1-match2", (CV+"legacy/match.go", "	matches := re.FindAll(b, -1)\n	return len(matches) != 0", "	return re.FindIndex(b) != nil"))
R("v3-cmds-helper", (GL, "			cmds := []string(config.Before)\n			cmds = append(cmds, []string(job.Before)...)\n			cmds = append(cmds, []string(job.Script)...)\n			cmds = append(cmds, []string(job.After)...)\n			cmds = append(cmds, []string(config.After)...)\n", "			cmds := commands(config, job)\n"), (GL, "func serviceSlug", "func commands(config *Config, job *Job) (cmds []string) {\n	for _, list := range [][]string{config.Before, job.Before, job.Script, job.After, config.After} {\n		cmds = append(cmds, list...)\n	}\n	return cmds\n}\n\nfunc serviceSlug"))
R("v3-tostep", (GL, "			step := &droneyaml.Container{\n				Name:       name,\n				Image:      job.Image.Name,\n				Command:    job.Image.Command,\n				Entrypoint: job.Image.Entrypoint,\n				Commands:   cmds,\n			}\n\n			if job.AllowFailure {\n				step.Failure = \"ignore\"\n			}\n\n			if step.Image == \"\" {\n				step.Image = config.Image.Name\n			}\n", "			step := toStep(config, name, job)\n			step.Commands = cmds\n"), (GL, "func serviceSlug", "func toStep(config *Config, name string, job *Job) *droneyaml.Container {\n	step := new(droneyaml.Container)\n	step.Name = name\n	step.Image = job.Image.Name\n	if len(step.Image) == 0 {\n		step.Image = config.Image.Name\n	}\n	step.Command = job.Image.Command\n	step.Entrypoint = job.Image.Entrypoint\n	if job.AllowFailure {\n		step.Failure = \"ignore\"\n	}\n	return step\n}\n\nfunc serviceSlug"))
R("v3-services-once", (GL, "		for _, step := range config.Services {\n			if step == nil {\n				continue\n			}\n			step := &droneyaml.Container{\n				Name:       step.Alias,\n				Image:      step.Name,\n				Command:    step.Command,\n				Entrypoint: step.Entrypoint,\n			}\n			if step.Name == \"\" {\n				step.Name = serviceSlug(step.Image)\n			}\n			pipeline.Services = append(pipeline.Services, step)\n		}\n", "		pipeline.Services = toServices(config.Services)\n"), (GL, "func serviceSlug", "func toServices(images []*Image) []*droneyaml.Container {\n	var out []*droneyaml.Container\n	for _, i := range images {\n		if i != nil {\n			name := i.Alias\n			if name == \"\" {\n				name = serviceSlug(i.Name)\n			}\n			out = append(out, &droneyaml.Container{Name: name, Image: i.Name, Command: i.Command, Entrypoint: i.Entrypoint})\n		}\n	}\n	return out\n}\n\nfunc serviceSlug"))
R("v3-append-last", (GL, "		manifest.Resources = append(manifest.Resources, pipeline)\n		for _, name", "		for _, name"), (GL, "		prevstage = stage\n", "		prevstage = stage\n		manifest.Resources = append(manifest.Resources, pipeline)\n"))
R("v3-lookup-pairs", (GL, "	var names []string\n	for name, job := range config.Jobs {\n		if job != nil {\n			names = append(names, name)\n		}\n	}\n	sort.Strings(names)\n", "	names := jobNames(config.Jobs)\n"), (GL, "func serviceSlug", "func jobNames(jobs map[string]*Job) []string {\n	names := make([]string, 0, len(jobs))\n	for name := range jobs {\n		if jobs[name] == nil {\n			continue\n		}\n		names = append(names, name)\n	}\n	sort.Strings(names)\n	return names\n}\n\nfunc serviceSlug"))
R("v3-bb-find", (BB+"config.go", "	tag := strings.TrimPrefix(ref, \"refs/tags/\")\n	for _, pattern := range sortedKeys(c.Pipelines.Tags) {\n		if ok, _ := path.Match(pattern, tag); ok {\n			return c.Pipelines.Tags[pattern]\n		}\n	}\n", "	tag := strings.TrimPrefix(ref, \"refs/tags/\")\n	if stage, ok := find(c.Pipelines.Tags, tag); ok {\n		return stage\n	}\n"), (BB+"config.go", "	for _, pattern := range sortedKeys(c.Pipelines.Branches) {\n		if ok, _ := path.Match(pattern, branch); ok {\n			return c.Pipelines.Branches[pattern]\n		}\n	}\n	// use default\n	return c.Pipelines.Default", "	stage, ok := find(c.Pipelines.Branches, branch)\n	if !ok {\n		stage = c.Pipelines.Default\n	}\n	return stage"), (BB+"config.go", "func sortedKeys", "func find(stages map[string]Stage, name string) (s Stage, ok bool) {\n	for _, pattern := range sortedKeys(stages) {\n		if ok, _ := path.Match(pattern, name); ok {\n			return stages[pattern], true\n		}\n	}\n	return s, false\n}\n\nfunc sortedKeys"))
R("v3-bb-steps", (BB+"convert.go", "	for i, from := range stage.Steps {\n		to := toContainer(from)\n		// defaults to the global image if the\n		// step does not define an image.\n		if to.Image == \"\" {\n			to.Image = config.Image\n		}\n		if to.Name == \"\" {\n			to.Name = fmt.Sprintf(\"step_%d\", i)\n		}\n		pipeline.Steps = append(pipeline.Steps, to)\n	}", "	for i := range stage.Steps {\n		to := toContainer(stage.Steps[i])\n		if to.Name == \"\" {\n			to.Name = fmt.Sprintf(\"step_%d\", len(pipeline.Steps))\n		}\n		pipeline.Steps = append(pipeline.Steps, to)\n	}\n	for _, to := range pipeline.Steps {\n		if to.Image == \"\" {\n			to.Image = config.Image\n		}\n	}"))
R("v3-bb-itoa", (BB+"convert.go", 'fmt.Sprintf("step_%d", i)', '"step_" + strconv.Itoa(i)'), (BB+"convert.go", '	"fmt"\n	"sort"\n', '	"sort"\n	"strconv"\n'))
LI = CV+"legacy/internal/"
LG = LI+"config.go"
R("v2-names-bool", (LG, "	names := map[string]struct{}{}\n	for i, step := range pipeline.Steps {\n		if _, ok := names[step.Name]; ok {\n			step.Name = fmt.Sprintf(\"%s_%d\", step.Name, i)\n		}\n		names[step.Name] = struct{}{}\n	}\n", "	uniqueNames(pipeline.Steps)\n"), (LG, "func toContainer(", "func uniqueNames(steps []*droneyaml.Container) {\n	seen := make(map[string]bool, len(steps))\n	for i := range steps {\n		if name := steps[i].Name; seen[name] {\n			steps[i].Name = fmt.Sprintf(\"%s_%d\", name, i)\n		}\n		seen[steps[i].Name] = true\n	}\n}\n\nfunc toContainer("))
R("v2-promote-new", (LG, "	for i, s := range events {\n		switch s {\n		case \"deploy\", \"deployment\":\n			events[i] = \"promote\"\n		}\n	}\n	return events\n", "	var out []string\n	for _, s := range events {\n		if s == \"deploy\" || s == \"deployment\" {\n			s = \"promote\"\n		}\n		out = append(out, s)\n	}\n	return out\n"))
R("v2-cond-helper", (LG, "		Ref: droneyaml.Condition{\n			Include: from.Ref.Include,\n			Exclude: from.Ref.Exclude,\n		},\n		Repo: droneyaml.Condition{\n			Include: from.Repo.Include,\n			Exclude: from.Repo.Exclude,\n		},\n", "		Ref:  toCondition(from.Ref),\n		Repo: toCondition(from.Repo),\n"), (LG, "func toContainer(", "func toCondition(c Constraint) droneyaml.Condition {\n	return droneyaml.Condition{Include: c.Include, Exclude: c.Exclude}\n}\n\nfunc toContainer("))
R("v2-workspace-helper", (LG, "		if from.Workspace.Base != \"\" && from.Workspace.Path != \"\" {\n			pipeline.Workspace.Base = \"\"\n			pipeline.Workspace.Path = filepath.Join(\n				from.Workspace.Base,\n				from.Workspace.Path,\n			)\n		} else if from.Workspace.Base != \"\" {\n			pipeline.Workspace.Base = \"\"\n			pipeline.Workspace.Path = filepath.Join(\n				from.Workspace.Base,\n				toWorkspacePath(remote),\n			)\n		} else if from.Workspace.Path != \"\" {\n			pipeline.Workspace.Base = \"\"\n			pipeline.Workspace.Path = filepath.Join(\n				\"/drone\",\n				from.Workspace.Path,\n			)\n		} else {\n			pipeline.Workspace.Base = \"\"\n			pipeline.Workspace.Path = filepath.Join(\n				\"/drone\",\n				toWorkspacePath(remote),\n			)\n		}\n", "		base, path := from.Workspace.Base, from.Workspace.Path\n		if base == \"\" {\n			base = \"/drone\"\n		}\n		if path == \"\" {\n			path = toWorkspacePath(remote)\n		}\n		pipeline.Workspace.Base = \"\"\n		pipeline.Workspace.Path = filepath.Join(base, path)\n"))
R("v2-trigger-else", (LG, "	pipeline.Trigger.Branch.Include = from.Branches.Include\n	pipeline.Trigger.Branch.Exclude = from.Branches.Exclude\n\n", "	pipeline.Trigger = toTrigger(from, pipeline.Steps)\n\n"), (LG, "	if len(from.Branches.Include) > 0 && len(from.Branches.Exclude) == 0 {\n		pipeline.Trigger.Branch.Include = nil\n		pipeline.Trigger.Ref.Include = []string{\n			\"refs/pull/**\",           // github\n			\"refs/pull-requests/**\",  // bitbucket\n			\"refs/merge-requests/**\", // gitlab\n		}\n		for _, branch := range from.Branches.Include {\n			pipeline.Trigger.Ref.Include = append(\n				pipeline.Trigger.Ref.Include,\n				\"refs/heads/\"+branch,\n			)\n		}\n		for _, step := range pipeline.Steps {\n			if sliceContains(\"tag\", step.When.Event.Include) {\n				pipeline.Trigger.Ref.Include = append(\n					pipeline.Trigger.Ref.Include,\n					\"refs/tags/**\",\n				)\n				break\n			}\n		}\n	}\n", ""), (LG, "func toContainer(", "func toTrigger(from *Config, steps []*droneyaml.Container) (cond droneyaml.Conditions) {\n	if len(from.Branches.Include) == 0 || len(from.Branches.Exclude) != 0 {\n		cond.Branch.Include = from.Branches.Include\n		cond.Branch.Exclude = from.Branches.Exclude\n		return cond\n	}\n	refs := []string{\"refs/pull/**\", \"refs/pull-requests/**\", \"refs/merge-requests/**\"}\n	for _, branch := range from.Branches.Include {\n		refs = append(refs, \"refs/heads/\"+branch)\n	}\n	if wantTags(steps) {\n		refs = append(refs, \"refs/tags/**\")\n	}\n	cond.Ref.Include = refs\n	return cond\n}\n\nfunc wantTags(steps []*droneyaml.Container) bool {\n	for _, step := range steps {\n		if sliceContains(\"tag\", step.When.Event.Include) {\n			return true\n		}\n	}\n	return false\n}\n\nfunc toContainer("))
R("v2-volumes-two", (LG, "	containers := []*Container{}\n	containers = append(containers, from.Pipeline.Containers...)\n	containers = append(containers, from.Services.Containers...)\n\n	for _, container := range containers {\n		for _, v := range container.Volumes {\n			if v == nil {\n				continue\n			}\n			name := fmt.Sprintf(\"%x\", v.Source)\n			if _, ok := set[name]; ok {\n				continue\n			}\n			set[name] = struct{}{}\n			to = append(", "	add := func(v *Volume) {\n			if v == nil {\n				return\n			}\n			name := fmt.Sprintf(\"%x\", v.Source)\n			if _, ok := set[name]; ok {\n				return\n			}\n			set[name] = struct{}{}\n			to = append("), (LG, "					Path: v.Source,\n				},\n			})\n		}\n	}\n	return to", "					Path: v.Source,\n				},\n			})\n	}\n	for _, list := range [][]*Container{from.Pipeline.Containers, from.Services.Containers} {\n		for _, container := range list {\n			for _, v := range container.Volumes {\n				add(v)\n			}\n		}\n	}\n	return to"))
R("v7-filter", (LG, "			services := make([]*droneyaml.Container, 0)\n			for _, service := range current.Services {\n				if len(service.When.Matrix) == 0 {\n					services = append(services, service)\n					continue\n				}\n\n				if matchMatrix(service.When.Matrix, environ) {\n					services = append(services, service)\n				}\n			}\n			current.Services = services\n\n			steps := make([]*droneyaml.Container, 0)\n			for _, step := range current.Steps {\n				if len(step.When.Matrix) == 0 {\n					steps = append(steps, step)\n					continue\n				}\n\n				if matchMatrix(step.When.Matrix, environ) {\n					steps = append(steps, step)\n				}\n			}\n			current.Steps = steps\n", "			current.Services = filter(pipeline.Services, environ)\n			current.Steps = filter(pipeline.Steps, environ)\n"), (LG, "func toContainer(", "func filter(list []*droneyaml.Container, environ matrix.Axis) []*droneyaml.Container {\n	var out []*droneyaml.Container\n	for _, c := range list {\n		if matchMatrix(c.When.Matrix, environ) {\n			out = append(out, c)\n		}\n	}\n	return out\n}\n\nfunc toContainer("))
R("v7-subst-helper", (LG, "			transformed := string(marshaled)\n\n			var keys []string\n			for key := range environ {\n				keys = append(keys, key)\n			}\n			sort.Strings(keys)\n\n			for _, key := range keys {\n				value := environ[key]\n				if strings.Contains(value, \"\\n\") {\n					value = fmt.Sprintf(\"%q\", value)\n				}\n\n				transformed = strings.Replace(transformed, fmt.Sprintf(\"${%s}\", key), value, -1)\n			}\n", "			transformed := substitute(string(marshaled), environ)\n"), (LG, "func toContainer(", "func substitute(text string, environ matrix.Axis) string {\n	keys := make([]string, 0, len(environ))\n	for key := range environ {\n		keys = append(keys, key)\n	}\n	sort.Strings(keys)\n	for _, key := range keys {\n		value := environ[key]\n		if strings.Contains(value, \"\\n\") {\n			value = fmt.Sprintf(\"%q\", value)\n		}\n		text = strings.Replace(text, \"${\"+key+\"}\", value, -1)\n	}\n	return text\n}\n\nfunc toContainer("))
R("v7-axes-helper", (LG, "			marshaled, err := yaml.Marshal(&current)\n\n			if err != nil {\n				return nil, err\n			}\n", "			marshaled, err := marshal(current)\n			if err != nil {\n				return nil, err\n			}\n"), (LG, "func toContainer(", "func marshal(p droneyaml.Pipeline) ([]byte, error) {\n	return yaml.Marshal(&p)\n}\n\nfunc toContainer("))
R("v5-switch", (LI+"volume.go", "	switch {\n	case len(parts) == 2:\n		v.Source = parts[0]\n		v.Destination = parts[1]\n	case len(parts) == 3:\n		v.Source = parts[0]\n		v.Destination = parts[1]\n		v.ReadOnly = parts[2] == \"ro\"\n	}\n	return nil", "	if len(parts) > 1 {\n		v.Source, v.Destination = parts[0], parts[1]\n	}\n	if len(parts) > 2 {\n		v.ReadOnly = parts[2] == \"ro\"\n	}\n	return nil"))
R("v5-secrets", (LI+"secret.go", "	if err == nil {\n		for _, str := range strslice {\n			s.Secrets = append(s.Secrets, &Secret{\n				Source: str,\n				Target: str,\n			})\n		}\n		return nil\n	}\n	return unmarshal(&s.Secrets)", "	if err != nil {\n		return unmarshal(&s.Secrets)\n	}\n	for i := range strslice {\n		s.Secrets = append(s.Secrets, &Secret{strslice[i], strslice[i]})\n	}\n	return nil"))
R("v5-container-new", (LI+"container.go", "		container := Container{}\n		out, _ := yaml.Marshal(s.Value)\n\n		if err := yaml.Unmarshal(out, &container); err != nil {\n			return err\n		}\n		container.Name = fmt.Sprintf(\"%v\", s.Key)\n		c.Containers = append(c.Containers, &container)\n", "		container := new(Container)\n		out, _ := yaml.Marshal(s.Value)\n\n		err := yaml.Unmarshal(out, container)\n		if err != nil {\n			return err\n		}\n		container.Name = fmt.Sprint(s.Key)\n		c.Containers = append(c.Containers, container)\n"))
R("v5-map", (LI+"slice_map.go", "		parts := strings.SplitN(v, \"=\", 2)\n		if len(parts) == 2 {\n			key := parts[0]\n			val := parts[1]\n			s.Map[key] = val\n		}\n", "		parts := strings.SplitN(v, \"=\", 2)\n		if len(parts) != 2 {\n			continue\n		}\n		s.Map[parts[0]] = parts[1]\n"))

PP = "yaml/pretty/"
R("y1-cron-inline", (PP+"cron.go", "	if hasDeployment(v) {\n		printDeploy(w, v)\n	}\n", "	if t := v.Spec.Deploy.Target; t != \"\" {\n		w.WriteTag(\"deployment\")\n		w.IndentIncrease()\n		w.WriteTagValue(\"target\", t)\n		w.IndentDecrease()\n	}\n"))
R("y1-folded-writestring", (PP+"secret.go", "	w.WriteTag(k)\n	w.WriteByte(' ')\n	w.WriteByte('>')\n", "	w.WriteTag(k)\n	w.WriteString(\" >\")\n"))
R("y1-chunk-loop", (PP+"util.go", "	for i := 0; i < len(s); i += chunkSize {\n		nn := i + chunkSize\n		if nn > len(s) {\n			nn = len(s)\n		}\n		chunks = append(chunks, s[i:nn])\n	}", "	for from := 0; from < len(s); from += chunkSize {\n		to := len(s)\n		if from+chunkSize < to {\n			to = from + chunkSize\n		}\n		chunks = append(chunks, s[from:to])\n	}"))
R("y2-entry-helper", (PP+"container.go", "		s := new(indexWriter)\n		s.writer = w\n		s.IndentIncrease()\n		s.WriteTagValue(\"name\", v.Name)\n		s.WriteTagValue(\"path\", v.DevicePath)\n		s.IndentDecrease()\n", "		printEntry(w, v.Name, v.DevicePath)\n"), (PP+"container.go", "// helper function pretty prints the environment mapping.", "func printEntry(w writer, name, path string) {\n	s := &indexWriter{writer: w}\n	s.IndentIncrease()\n	defer s.IndentDecrease()\n	s.WriteTagValue(\"name\", name)\n	s.WriteTagValue(\"path\", path)\n}\n\n// helper function pretty prints the environment mapping."))
R("y2-containers-helper", (PP+"pipeline.go", "		w.WriteTag(\"services\")\n		for _, step := range v.Services {\n			if step == nil {\n				continue\n			}\n			seq := new(indexWriter)\n			seq.writer = w\n			seq.IndentIncrease()\n			printContainer(seq, step)\n			seq.IndentDecrease()\n		}\n", "		printContainers(w, \"services\", v.Services)\n"), (PP+"pipeline.go", "// helper function pretty prints the clone block.\nfunc printClone", "func printContainers(w writer, name string, steps []*yaml.Container) {\n	w.WriteTag(name)\n	for i := range steps {\n		step := steps[i]\n		if step != nil {\n			seq := &indexWriter{writer: w}\n			seq.IndentIncrease()\n			printContainer(seq, step)\n			seq.IndentDecrease()\n		}\n	}\n}\n\n// helper function pretty prints the clone block.\nfunc printClone"))
R("y2-cond-switch", (PP+"pipeline.go", "	if len(v.Include) != 0 && len(v.Exclude) == 0 {\n		w.WriteByte('\\n')\n		w.Indent()\n		writeValue(w, v.Include)\n	}\n	if len(v.Include) != 0 && len(v.Exclude) != 0 {\n		w.IndentIncrease()\n		w.WriteTagValue(\"include\", v.Include)\n		w.IndentDecrease()\n	}\n	if len(v.Exclude) != 0 {\n		w.IndentIncrease()\n		w.WriteTagValue(\"exclude\", v.Exclude)\n		w.IndentDecrease()\n	}", "	if len(v.Exclude) == 0 {\n		if len(v.Include) > 0 {\n			w.WriteByte('\\n')\n			w.Indent()\n			writeValue(w, v.Include)\n		}\n		return\n	}\n	w.IndentIncrease()\n	w.WriteTagValue(\"include\", v.Include)\n	w.WriteTagValue(\"exclude\", v.Exclude)\n	w.IndentDecrease()"))
R("y2-conditions-table", (PP+"pipeline.go", "	if !isConditionEmpty(v.Ref) {\n		printCondition(w, \"ref\", v.Ref)\n	}\n	if !isConditionEmpty(v.Repo) {\n		printCondition(w, \"repo\", v.Repo)\n	}\n", "	for _, c := range []struct {\n		key  string\n		cond yaml.Condition\n	}{{\"ref\", v.Ref}, {\"repo\", v.Repo}} {\n		if !isConditionEmpty(c.cond) {\n			printCondition(w, c.key, c.cond)\n		}\n	}\n"))
R("y2-indent-repeat", (PP+"writer.go", "	for i := 0; i < w.depth; i++ {\n		w.WriteString(\"  \")\n	}\n", "	for i := w.depth; i > 0; i-- {\n		w.WriteString(\"  \")\n	}\n"))
R("y2-index-bool", (PP+"writer.go", "	index int\n", "	begun bool\n"), (PP+"writer.go", "	if w.index == 0 {", "	if !w.begun {"), (PP+"writer.go", "	w.index++\n", "	w.begun = true\n"))
R("y2-env-keys-helper", (PP+"container.go", "	var keys []string\n	for k := range v {\n		keys = append(keys, k)\n	}\n	sort.Strings(keys)\n\n	w.WriteTag(\"environment\")", "	keys := make([]string, 0, len(v))\n	for k := range v {\n		keys = append(keys, k)\n	}\n	sort.Strings(keys)\n\n	w.WriteTag(\"environment\")"))
R("y2-limits-helper", (PP+"container.go", "	if v.Limits != nil {\n		w.WriteTag(\"limits\")\n		w.IndentIncrease()\n		w.WriteTagValue(\"cpu\", v.Limits.CPU)\n		w.WriteTagValue(\"memory\", v.Limits.Memory)\n		w.IndentDecrease()\n	}\n	if v.Requests != nil {\n		w.WriteTag(\"requests\")\n		w.IndentIncrease()\n		w.WriteTagValue(\"cpu\", v.Requests.CPU)\n		w.WriteTagValue(\"memory\", v.Requests.Memory)\n		w.IndentDecrease()\n	}\n", "	amount := func(name string, r *yaml.ResourceObject) {\n		if r == nil {\n			return\n		}\n		w.WriteTag(name)\n		w.IndentIncrease()\n		w.WriteTagValue(\"cpu\", r.CPU)\n		w.WriteTagValue(\"memory\", r.Memory)\n		w.IndentDecrease()\n	}\n	amount(\"limits\", v.Limits)\n	amount(\"requests\", v.Requests)\n"))
R("y3-scalar-fprint", (PP+"writer.go", "	w.WriteString(\n		strconv.Itoa(v),\n	)", "	w.WriteString(strconv.FormatInt(int64(v), 10))"))
R("y3-bool", (PP+"writer.go", "	w.WriteString(\n		strconv.FormatBool(v),\n	)", "	if v {\n		w.WriteString(\"true\")\n	} else {\n		w.WriteString(\"false\")\n	}"))
R("y3-seq-first", (PP+"writer.go", "	for i, v := range v {\n		if i != 0 {\n			w.WriteByte('\\n')\n			w.Indent()\n		}\n		w.WriteByte('-')\n		w.WriteByte(' ')\n		w.IndentIncrease()", "	first := true\n	for _, v := range v {\n		if !first {\n			w.WriteByte('\\n')\n			w.Indent()\n		}\n		first = false\n		w.WriteString(\"- \")\n		w.IndentIncrease()"))
R("y4-fprint", (PP+"pretty.go", "	state.WriteString(\"...\")\n	state.WriteByte('\\n')\n", "	state.WriteString(\"...\\n\")\n"))
R("y4-new", (PP+"pretty.go", "	state := new(baseWriter)\n", "	state := &baseWriter{}\n"))
R("y5-quote-strconv", (PP+"writer.go", "	if isQuoted(v) {\n		fmt.Fprintf(w, \"%q\", v)\n	} else {", "	if isQuoted(v) {\n		w.WriteString(strconv.Quote(v))\n	} else {"))
R("y5-reads-helper", (PP+"util.go", "	var out string\n	err := goyaml.Unmarshal([]byte(s), &out)\n	return err != nil || out != s\n", "	return !readsBack(s)\n"), (PP+"util.go", "func chunk(", "func readsBack(s string) bool {\n	var out string\n	if err := goyaml.Unmarshal([]byte(s), &out); err != nil {\n		return false\n	}\n	return out == s\n}\n\nfunc chunk("))
R("y5-trim-early", (PP+"util.go", "	if len(t) > 0 {\n		r0 = t[0]\n	}\n	if len(t) > 1 {\n		r1 = t[1]\n	}", "	r0 = s[0]\n	if len(s) > 1 {\n		r1 = s[1]\n	}"))
R("v4-sort-slice", ("yaml/compiler/step.go", "	sort.Strings(envs)\n", "	sort.Slice(envs, func(i, j int) bool { return envs[i] < envs[j] })\n"))
R("v4-sort-sort", ("yaml/compiler/step.go", "	sort.Strings(settings)\n", "	sort.Sort(sort.StringSlice(settings))\n"))
R("v4-keys-helper", ("yaml/compiler/transform/volume.go", "		var keys []string\n		for key := range volumes {\n			keys = append(keys, key)\n		}\n		sort.Strings(keys)\n		for _, key := range keys {", "		for _, key := range sortedNames(volumes) {"), ("yaml/compiler/transform/volume.go", "// WithVolumes is", "func sortedNames(m map[string]string) (names []string) {\n	for name := range m {\n		names = append(names, name)\n	}\n	sort.Strings(names)\n	return\n}\n\n// WithVolumes is"))
R("v4-keys-caller-sorts", ("yaml/compiler/transform/volume.go", "		var keys []string\n		for key := range volumes {\n			keys = append(keys, key)\n		}\n		sort.Strings(keys)\n", "		keys := names(volumes)\n		sort.Strings(keys)\n"), ("yaml/compiler/transform/volume.go", "// WithVolumes is", "func names(m map[string]string) []string {\n	out := make([]string, 0, len(m))\n	for name := range m {\n		out = append(out, name)\n	}\n	return out\n}\n\n// WithVolumes is"))
R("v4-keys-index", ("yaml/compiler/transform/secret.go", "		var keys []string\n		for key := range secrets {\n			keys = append(keys, key)\n		}\n", "		keys := make([]string, len(secrets))\n		i := 0\n		for key := range secrets {\n			keys[i] = key\n			i++\n		}\n"))
R("v4-keys-helper-sorts-param", ("yaml/converter/gitlab/convert.go", "	sort.Strings(names)\n", "	order(names)\n"), ("yaml/converter/gitlab/convert.go", "// Convert converts", "func order(names []string) {\n	sort.Slice(names, func(i, j int) bool {\n		return names[i] < names[j]\n	})\n}\n\n// Convert converts"))
R("v4-keys-closure", ("yaml/converter/legacy/internal/config.go", "	var keys []string\n	for key := range from.Secrets {\n		keys = append(keys, key)\n	}\n	sort.Strings(keys)\n", "	var keys []string\n	add := func(key string) { keys = append(keys, key) }\n	for key := range from.Secrets {\n		add(key)\n	}\n	sort.Strings(keys)\n"))
R("v4-bitbucket-nonempty", ("yaml/converter/bitbucket/config.go", "	sort.Strings(keys)\n	return keys", "	if len(keys) > 1 {\n		sort.Strings(keys)\n	}\n	return keys"))
R("v4-match-flag", ("yaml/converter/legacy/internal/config.go", "	for key, value := range when {\n		if v, ok := environ[key]; !ok || v != value {\n			return false\n		}\n	}\n	return true\n", "	matched := true\n	for key, value := range when {\n		if v, ok := environ[key]; !ok || v != value {\n			matched = false\n			break\n		}\n	}\n	return matched\n"))
R("v4-match-count", ("yaml/converter/legacy/internal/config.go", "	for key, value := range when {\n		if v, ok := environ[key]; !ok || v != value {\n			return false\n		}\n	}\n	return true\n", "	missing := 0\n	for key, value := range when {\n		if v, ok := environ[key]; !ok || v != value {\n			missing++\n		}\n	}\n	return missing == 0\n"))
R("v4-axis-map", ("yaml/converter/legacy/matrix/matrix.go", "	for k, v := range a {\n		envs = append(envs, k+\"=\"+v)\n	}\n	sort.Strings(envs)\n", "	keys := make([]string, 0, len(a))\n	for k := range a {\n		keys = append(keys, k)\n	}\n	sort.Strings(keys)\n	for _, k := range keys {\n		envs = append(envs, k+\"=\"+a[k])\n	}\n"))
R("v4-settings-copy", ("yaml/converter/legacy/internal/config.go", "	params := map[string]*droneyaml.Parameter{}\n	for key, val := range from {\n		params[key] = &droneyaml.Parameter{\n			Value: val,\n		}\n	}\n", "	params := make(map[string]*droneyaml.Parameter, len(from))\n	for key, val := range from {\n		param := new(droneyaml.Parameter)\n		param.Value = val\n		params[key] = param\n	}\n"))
# lists made with their length and filled by position
R("fill-auths", ("main.go", "	var auths []*engine.DockerAuth\n	for _, uri := range *registries {\n", "	auths := make([]*engine.DockerAuth, len(*registries))\n	for i, uri := range *registries {\n"), ("main.go", "		auths = append(auths, &engine.DockerAuth{\n			Address:  uri.Host,\n			Username: uri.User.Username(),\n			Password: password,\n		})\n", "		auths[i] = &engine.DockerAuth{\n			Address:  uri.Host,\n			Username: uri.User.Username(),\n			Password: password,\n		}\n"))
R("fill-envs", ("yaml/compiler/step.go", "	var envs []string\n	for key := range src.Environment {\n		envs = append(envs, key)\n	}\n", "	envs := make([]string, len(src.Environment))\n	n := 0\n	for key := range src.Environment {\n		envs[n] = key\n		n++\n	}\n"))
R("fill-bitbucket-keys", ("yaml/converter/bitbucket/config.go", "	var keys []string\n	for key := range stages {\n		keys = append(keys, key)\n	}\n	sort.Strings(keys)\n", "	keys, i := make([]string, len(stages)), 0\n	for key := range stages {\n		keys[i] = key\n		i++\n	}\n	sort.Strings(keys)\n"))
R("fill-pretty-env", ("yaml/pretty/container.go", "	var keys []string\n	for k := range v {\n		keys = append(keys, k)\n	}\n	sort.Strings(keys)\n\n	w.WriteTag(\"environment\")", "	keys := make([]string, len(v))\n	var i int\n	for k := range v {\n		keys[i] = k\n		i++\n	}\n	sort.Strings(keys)\n\n	w.WriteTag(\"environment\")"))
R("fill-legacy-secrets", ("yaml/converter/legacy/internal/config.go", "		secrets = append(secrets, secret)\n	}\n", "		secrets[i] = secret\n	}\n"), ("yaml/converter/legacy/internal/config.go", "	for _, key := range keys {\n		val := from.Secrets[key]\n", "	for i, key := range keys {\n		val := from.Secrets[key]\n"), ("yaml/converter/legacy/internal/config.go", "	var secrets []*droneyaml.Secret\n", "	secrets := make([]*droneyaml.Secret, len(keys))\n"))
R("fill-networks", ("yaml/compiler/transform/network.go", "			step.Docker.Networks = append(\n				step.Docker.Networks, networks...)\n", "			all := make([]string, 0, len(step.Docker.Networks)+len(networks))\n			all = append(all, step.Docker.Networks...)\n			for _, n := range networks {\n				all = append(all, n)\n			}\n			step.Docker.Networks = all\n"))
IM = "yaml/compiler/image/image.go"; MF = "yaml/manifest.go"; PX = "yaml/compiler/transform/proxy.go"
R("i2-helper", (IM, "func Trim(name string) string {\n	ref, err := reference.ParseAnyReference(name)\n	if err != nil {\n		return name\n	}\n	named, err := reference.ParseNamed(ref.String())\n	if err != nil {\n		return name\n	}\n", "func Trim(name string) string {\n	named, err := parse(name)\n	if err != nil {\n		return name\n	}\n"), (IM, "func Expand(name string) string {\n	ref, err := reference.ParseAnyReference(name)\n	if err != nil {\n		return name\n	}\n	named, err := reference.ParseNamed(ref.String())\n	if err != nil {\n		return name\n	}\n", "func Expand(name string) string {\n	named, err := parse(name)\n	if err != nil {\n		return name\n	}\n"), (IM, "// Trim returns", "func parse(name string) (reference.Named, error) {\n	ref, err := reference.ParseAnyReference(name)\n	if err != nil {\n		return nil, err\n	}\n	return reference.ParseNamed(ref.String())\n}\n\n// Trim returns"))
R("i2-host-switch", (IM, "	if hostname == \"index.docker.io\" {\n		hostname = \"docker.io\"\n	}\n	return reference.Domain(named) == hostname", "	switch domain := reference.Domain(named); hostname {\n	case \"index.docker.io\":\n		return domain == \"docker.io\"\n	default:\n		return domain == hostname\n	}"))
R("p7-encode-index", (MF, "	for _, res := range m.Resources {\n		if err := enc.Encode(res); err != nil {\n			return nil, err\n		}\n	}\n", "	for i := 0; i < len(m.Resources); i++ {\n		err := enc.Encode(m.Resources[i])\n		if err != nil {\n			return nil, err\n		}\n	}\n"))
R("p7-encode-var", (MF, "	buf := new(bytes.Buffer)\n	enc := yaml.NewEncoder(buf)\n", "	var buf bytes.Buffer\n	enc := yaml.NewEncoder(&buf)\n"))
R("p7-encode-helper", (MF, "	for _, res := range m.Resources {\n		if err := enc.Encode(res); err != nil {\n			return nil, err\n		}\n	}\n	return buf.Bytes(), nil\n}", "	if err := encodeAll(enc, m.Resources); err != nil {\n		return nil, err\n	}\n	return buf.Bytes(), nil\n}\n\nfunc encodeAll(enc *yaml.Encoder, from []Resource) error {\n	for _, res := range from {\n		if err := enc.Encode(res); err != nil {\n			return err\n		}\n	}\n	return nil\n}"))
R("t5-table", (PX, "	if value := getenv(\"no_proxy\"); value != \"\" {\n		environ[\"no_proxy\"] = value\n		environ[\"NO_PROXY\"] = value\n	}\n	if value := getenv(\"http_proxy\"); value != \"\" {\n		environ[\"http_proxy\"] = value\n		environ[\"HTTP_PROXY\"] = value\n	}\n	if value := getenv(\"https_proxy\"); value != \"\" {\n		environ[\"https_proxy\"] = value\n		environ[\"HTTPS_PROXY\"] = value\n	}\n", "	for _, name := range []string{\"no_proxy\", \"http_proxy\", \"https_proxy\"} {\n		value := getenv(name)\n		if value == \"\" {\n			continue\n		}\n		environ[name] = value\n		environ[strings.ToUpper(name)] = value\n	}\n"))
R("t5-getenv", (PX, "	name = strings.ToUpper(name)\n	if value := os.Getenv(name); value != \"\" {\n		return value\n	}\n	name = strings.ToLower(name)\n	if value := os.Getenv(name); value != \"\" {\n		return value\n	}\n	return\n", "	value = os.Getenv(strings.ToUpper(name))\n	if value == \"\" {\n		value = os.Getenv(strings.ToLower(name))\n	}\n	return value\n"))
R("t5-lookup", (PX, "	if value := getenv(\"no_proxy\"); value != \"\" {\n", "	noProxy := getenv(\"no_proxy\")\n	if value := noProxy; len(value) > 0 {\n"))
RD = "yaml/compiler/internal/rand/rand.go"; MT = "yaml/converter/legacy/match.go"; LI = "yaml/linter/linter.go"
SG = "yaml/signer/signer.go"; PR = "yaml/pretty/pretty.go"; PA = "yaml/parse.go"; CO = "yaml/cond.go"
R("g1-once-regexp", (MT, "var re = regexp.MustCompile(`(?m)^pipeline:(\\s+)?$`)\n", "var (\n	re   *regexp.Regexp\n	once sync.Once\n)\n\nfunc compile() {\n	re = regexp.MustCompile(`(?m)^pipeline:(\\s+)?$`)\n}\n"), (MT, "	matches :=", "	once.Do(compile)\n	matches :="), (MT, "import (\n	\"regexp\"\n", "import (\n	\"regexp\"\n	\"sync\"\n"))
R("g1-pool-print", (PR, "	state := new(baseWriter)\n", "	state := states.Get().(*baseWriter)\n	*state = baseWriter{}\n	defer states.Put(state)\n"), (PR, "// Print pretty", "var states = sync.Pool{New: func() interface{} { return new(baseWriter) }}\n\n// Print pretty"), (PR, "import (\n	\"io\"\n", "import (\n	\"io\"\n	\"sync\"\n"))
R("g1-lint-table", (LI, "var os = map[string]struct{}{\n	\"linux\":   struct{}{},\n	\"windows\": struct{}{},\n}\n", "var os map[string]struct{}\n\nfunc init() {\n	os = map[string]struct{}{}\n	for _, name := range []string{\"linux\", \"windows\"} {\n		os[name] = struct{}{}\n	}\n}\n"))
R("g1-chars-string", (RD, "var chars = []byte(\"abcdefghijklmnopqrstuvwxyz0123456789\")", "const chars = \"abcdefghijklmnopqrstuvwxyz0123456789\""))
R("g1-arch-func", (LI, "	if v := platform.Arch; v != \"\" {\n		_, ok := arch[v]\n", "	if v := platform.Arch; v != \"\" {\n		_, ok := known()[v]\n"), (LI, "// Lint performs", "func known() map[string]struct{} { return arch }\n\n// Lint performs"))
R("g2-key-clone", (SG, "	h := hmac.New(sha256.New, key)\n", "	k := append([]byte(nil), key...)\n	h := hmac.New(sha256.New, k)\n"))
R("g2-lint-local", (LI, "	err = checkPlatform(pipeline.Platform)\n", "	platform := pipeline.Platform\n	err = checkPlatform(platform)\n"))
R("g2-parse-reader", (PA, "	scanner := bufio.NewScanner(r)\n", "	input := bufio.NewReader(r)\n	scanner := bufio.NewScanner(input)\n"))
R("g2-sorted-copy", ("yaml/pretty/container.go", "	var keys []string\n	for k := range v {\n		keys = append(keys, k)\n	}\n	sort.Strings(keys)\n\n	w.WriteTag(\"environment\")", "	keys := names(v)\n	sort.Strings(keys)\n\n	w.WriteTag(\"environment\")"), ("yaml/pretty/container.go", "func printEnviron", "func names(v map[string]*yaml.Variable) (keys []string) {\n	for k := range v {\n		keys = append(keys, k)\n	}\n	return\n}\n\nfunc printEnviron"))
GL = "yaml/converter/gitlab/convert.go"; NW = "yaml/compiler/transform/network.go"; ST = "yaml/compiler/step.go"; K = "yaml/compiler/compiler.go"
R("g3-gitlab-full-slice", (GL, "	// create a new pipeline for each stage.\n", "	before := append([]string{}, config.Before...)\n	before = before[:len(before):len(before)]\n\n	// create a new pipeline for each stage.\n"), (GL, "			cmds := []string(config.Before)\n			cmds = append(cmds, []string(job.Before)...)\n", "			cmds := append(before, []string(job.Before)...)\n"))
R("g3-gitlab-concat", (GL, "			cmds := []string(config.Before)\n			cmds = append(cmds, []string(job.Before)...)\n			cmds = append(cmds, []string(job.Script)...)\n			cmds = append(cmds, []string(job.After)...)\n			cmds = append(cmds, []string(config.After)...)\n", "			cmds := concat(config.Before, job.Before, job.Script, job.After, config.After)\n"), (GL, "func serviceSlug(", "func concat(lists ...[]string) []string {\n	var out []string\n	for _, list := range lists {\n		out = append(out, list...)\n	}\n	return out\n}\n\nfunc serviceSlug("))
R("g3-gitlab-helper", (GL, "			cmds = append(cmds, []string(job.Script)...)\n", "			cmds = extend(cmds, job.Script)\n"), (GL, "func serviceSlug(", "func extend(to, from []string) []string {\n	return append(to, from...)\n}\n\nfunc serviceSlug("))
R("g3-step-method", (K, "			spec.Secrets = append(spec.Secrets,", "			spec.Secrets = append(spec.Secrets[:len(spec.Secrets)],") if False else (ST, "	sort.Strings(envs)\n", "	envs = append(envs[:0], envs...)\n	sort.Strings(envs)\n"))
R("g3-prealloc", (GL, "	var names []string\n	for name, job", "	names := make([]string, 0, len(config.Jobs))\n	for name, job"))
R("g3-networks-copy", (NW, "			step.Docker.Networks = append(\n				step.Docker.Networks, networks...)\n", "			joined := append([]string{}, step.Docker.Networks...)\n			step.Docker.Networks = append(joined, networks...)\n"))

# --- third round: rewrites of whole functions by someone else's habits
Lx = "yaml/linter/linter.go"; LCx = "yaml/linter/config.go"; Kx = "yaml/compiler/compiler.go"; STx = "yaml/compiler/step.go"
TX = "yaml/compiler/transform/"; LGx = "yaml/converter/legacy/internal/config.go"; PUx = "yaml/pretty/util.go"
R("w-lint-table", (Lx, "	if trusted == false && container.Privileged {\n		return errors.New(\"linter: untrusted repositories cannot enable privileged mode\")\n	}\n	if trusted == false && len(container.Devices) > 0 {\n		return errors.New(\"linter: untrusted repositories cannot mount devices\")\n	}\n	if trusted == false && len(container.DNS) > 0 {\n		return errors.New(\"linter: untrusted repositories cannot configure dns\")\n	}\n	if trusted == false && len(container.DNSSearch) > 0 {\n		return errors.New(\"linter: untrusted repositories cannot configure dns_search\")\n	}\n	if trusted == false && len(container.ExtraHosts) > 0 {\n		return errors.New(\"linter: untrusted repositories cannot configure extra_hosts\")\n	}\n	if trusted == false && len(container.Network) > 0 {\n		return errors.New(\"linter: untrusted repositories cannot configure network_mode\")\n	}\n",
  "	if !trusted {\n		restricted := []struct {\n			used bool\n			what string\n		}{\n			{container.Privileged, \"enable privileged mode\"},\n			{len(container.Devices) != 0, \"mount devices\"},\n			{len(container.DNS) != 0, \"configure dns\"},\n			{len(container.DNSSearch) != 0, \"configure dns_search\"},\n			{len(container.ExtraHosts) != 0, \"configure extra_hosts\"},\n			{container.Network != \"\", \"configure network_mode\"},\n		}\n		for _, r := range restricted {\n			if r.used {\n				return fmt.Errorf(\"linter: untrusted repositories cannot %s\", r.what)\n			}\n		}\n	}\n"))
R("w-lint-method", (Lx, "	names := map[string]struct{}{}\n	if pipeline.Clone.Disable == false {\n		names[\"clone\"] = struct{}{}\n	}\n", "	names := nameSet{}\n	if !pipeline.Clone.Disable {\n		names.add(\"clone\")\n	}\n"),
  (Lx, "	for _, container := range pipeline.Steps {\n		if container == nil {\n			continue\n		}\n		_, ok := names[container.Name]\n		if ok {\n			return ErrDuplicateStepName\n		}\n		names[container.Name] = struct{}{}\n", "	for _, container := range pipeline.Steps {\n		if container == nil {\n			continue\n		}\n		if !names.add(container.Name) {\n			return ErrDuplicateStepName\n		}\n"),
  (Lx, "	for _, container := range pipeline.Services {\n		if container == nil {\n			continue\n		}\n		_, ok := names[container.Name]\n		if ok {\n			return ErrDuplicateStepName\n		}\n		names[container.Name] = struct{}{}\n", "	for _, container := range pipeline.Services {\n		if container == nil {\n			continue\n		}\n		if !names.add(container.Name) {\n			return ErrDuplicateStepName\n		}\n"),
  (Lx, "func checkPlatform(", "// nameSet is a set of names.\ntype nameSet map[string]struct{}\n\n// add adds the name and returns false if it is there already.\nfunc (s nameSet) add(name string) bool {\n	if _, ok := s[name]; ok {\n		return false\n	}\n	s[name] = struct{}{}\n	return true\n}\n\nfunc checkPlatform("))
R("w-lint-named", (Lx, "func checkPorts(ports []*yaml.Port, trusted bool) error {\n	for _, port := range ports {\n		if port == nil {\n			continue\n		}\n		err := checkPort(port, trusted)\n		if err != nil {\n			return err\n		}\n	}\n	return nil\n}\n", "func checkPorts(ports []*yaml.Port, trusted bool) (err error) {\n	for i := 0; err == nil && i < len(ports); i++ {\n		if ports[i] != nil {\n			err = checkPort(ports[i], trusted)\n		}\n	}\n	return\n}\n"))
R("w-lint-volumes-split", (Lx, "	for _, volume := range pipeline.Volumes {\n		if volume == nil {\n			continue\n		}\n		if volume.EmptyDir != nil {\n			err := checkEmptyDirVolume(volume.EmptyDir, trusted)\n			if err != nil {\n				return err\n			}\n		}\n		if volume.HostPath != nil {\n			err := checkHostPathVolume(volume.HostPath, trusted)\n			if err != nil {\n				return err\n			}\n		}\n		switch volume.Name {\n		case \"workspace\", \"_workspace\", \"_docker_socket\":\n			return fmt.Errorf(\"linter: invalid volume name: %s\", volume.Name)\n		}\n	}\n	return nil\n",
  "	for _, volume := range pipeline.Volumes {\n		if err := checkVolume(volume, trusted); err != nil {\n			return err\n		}\n	}\n	return nil\n}\n\nfunc checkVolume(volume *yaml.Volume, trusted bool) error {\n	switch {\n	case volume == nil:\n		return nil\n	case volume.HostPath != nil && !trusted:\n		return errors.New(\"linter: untrusted repositories cannot mount host volumes\")\n	case volume.EmptyDir != nil && volume.EmptyDir.Medium == \"memory\" && !trusted:\n		return errors.New(\"linter: untrusted repositories cannot mount in-memory volumes\")\n	}\n	for _, name := range []string{\"workspace\", \"_workspace\", \"_docker_socket\"} {\n		if volume.Name == name {\n			return fmt.Errorf(\"linter: invalid volume name: %s\", name)\n		}\n	}\n	return nil\n"),
  (Lx, "func checkHostPathVolume(volume *yaml.VolumeHostPath, trusted bool) error {\n	if trusted == false {\n		return errors.New(\"linter: untrusted repositories cannot mount host volumes\")\n	}\n	return nil\n}\n\nfunc checkEmptyDirVolume(volume *yaml.VolumeEmptyDir, trusted bool) error {\n	if trusted == false && volume.Medium == \"memory\" {\n		return errors.New(\"linter: untrusted repositories cannot mount in-memory volumes\")\n	}\n	return nil\n}\n\n", ""))
R("w-lint-deps-helper", (Lx, "	for _, dep := range container.DependsOn {\n		_, ok := deps[dep]\n		if !ok {\n			return ErrMissingDependency\n		}\n		if container.Name == dep {\n			return ErrCyclicalDependency\n		}\n	}\n	return nil\n", "	return checkNames(container.Name, container.DependsOn, deps, ErrMissingDependency, ErrCyclicalDependency)\n"),
  (LCx, "	for _, dep := range pipeline.DependsOn {\n		_, ok := deps[dep]\n		if !ok {\n			return ErrMissingPipelineDependency\n		}\n		if pipeline.Name == dep {\n			return ErrPipelineSelfDependency\n		}\n	}\n	return nil\n}\n", "	return checkNames(pipeline.Name, pipeline.DependsOn, deps, ErrMissingPipelineDependency, ErrPipelineSelfDependency)\n}\n\nfunc checkNames(self string, names []string, known map[string]struct{}, missing, cyclic error) error {\n	for _, name := range names {\n		if _, ok := known[name]; !ok {\n			return missing\n		}\n		if name == self {\n			return cyclic\n		}\n	}\n	return nil\n}\n"))
R("w-compile-service", (Kx, "		step := createStep(spec, service)\n		// note that all services are automatically\n		// set to run in detached mode. A service with no\n		// commands uses the user-defined working directory.\n		step.Detach = true\n		if len(service.Commands) == 0 {\n			step.WorkingDir = service.WorkingDir\n		}\n		setupWorkingDir(service, step, workspace)\n		setupWorkspaceEnv(step, base, dir, workspace)\n		c.setupWorkspaceMount(step, base, dir, workspace)\n		// if the skip callback function returns true,\n		// modify the runtime step to never execute.\n		if c.skip(service) {\n			step.RunPolicy = engine.RunNever\n		}\n		// if the step is a plugin and should be executed\n		// in privileged mode, set the privileged flag.\n		if c.privileged(service) {\n			step.Docker.Privileged = true\n		}\n",
  "		step := createStep(spec, service)\n		// note that all services are automatically\n		// set to run in detached mode. A service with no\n		// commands uses the user-defined working directory.\n		step.Detach = true\n		if len(service.Commands) == 0 {\n			step.WorkingDir = service.WorkingDir\n		}\n		c.finish(service, step, base, dir, workspace)\n"),
  (Kx, "		setupWorkingDir(container, step, workspace)\n		setupWorkspaceEnv(step, base, dir, workspace)\n		c.setupWorkspaceMount(step, base, dir, workspace)\n		// if the skip callback function returns true,\n		// modify the runtime step to never execute.\n		if c.skip(container) {\n			step.RunPolicy = engine.RunNever\n		}\n		// if the step is a plugin and should be executed\n		// in privileged mode, set the privileged flag.\n		if c.privileged(container) {\n			step.Docker.Privileged = true\n		}\n", "		c.finish(container, step, base, dir, workspace)\n"),
  (Kx, "// return a .git-credentials file.", "// finish applies the settings that services and steps share.\nfunc (c *Compiler) finish(src *yaml.Container, dst *engine.Step, base, dir, full string) {\n	setupWorkingDir(src, dst, full)\n	setupWorkspaceEnv(dst, base, dir, full)\n	c.setupWorkspaceMount(dst, base, dir, full)\n	if c.privileged(src) {\n		dst.Docker.Privileged = true\n	}\n	if c.skip(src) {\n		dst.RunPolicy = engine.RunNever\n	}\n}\n\n// return a .git-credentials file."))
R("w-compile-clone-func", (Kx, "	if !from.Clone.Disable {\n		src := createClone(from)\n		dst := createStep(spec, src)\n		dst.Docker.PullPolicy = engine.PullIfNotExists\n		setupCloneDepth(from, dst)\n		setupCloneCredentials(spec, dst, c.gitCredentials())\n		setupWorkingDir(src, dst, workspace)\n		setupWorkspaceEnv(dst, base, dir, workspace)\n		c.setupWorkspaceMount(dst, base, dir, workspace)\n		spec.Steps = append(spec.Steps, dst)\n	}\n", "	hasClone := from.Clone.Disable == false\n	if hasClone {\n		spec.Steps = append(spec.Steps, c.cloneStep(spec, from, base, dir, workspace))\n	}\n"),
  (Kx, "		if isSerial == false && from.Clone.Disable == false {\n", "		if !isSerial && hasClone {\n"),
  (Kx, "		if isSerial == false && from.Clone.Disable == false && len(step.DependsOn) == 0 {\n			step.DependsOn = append(step.DependsOn, cloneStepName)\n		}\n", "		if hasClone && !isSerial && len(step.DependsOn) == 0 {\n			step.DependsOn = []string{cloneStepName}\n		}\n"),
  (Kx, "// return a .git-credentials file.", "// cloneStep returns the default clone step.\nfunc (c *Compiler) cloneStep(spec *engine.Spec, from *yaml.Pipeline, base, dir, full string) *engine.Step {\n	src := createClone(from)\n	dst := createStep(spec, src)\n	setupCloneDepth(from, dst)\n	setupCloneCredentials(spec, dst, c.gitCredentials())\n	setupWorkingDir(src, dst, full)\n	setupWorkspaceEnv(dst, base, dir, full)\n	c.setupWorkspaceMount(dst, base, dir, full)\n	dst.Docker.PullPolicy = engine.PullIfNotExists\n	return dst\n}\n\n// return a .git-credentials file."))
R("w-compile-volumes", (Kx, "	for _, from := range from.Volumes {\n		if from == nil {\n			continue\n		}\n		to := &engine.Volume{\n			Metadata: engine.Metadata{\n				UID:       rand.String(),\n				Name:      from.Name,\n				Namespace: namespace,\n				Labels:    map[string]string{},\n			},\n		}\n		if from.EmptyDir != nil {\n			// if the yaml configuration specifies an empty\n			// directory volume (data volume) or an in-memory\n			// file system.\n			to.EmptyDir = &engine.VolumeEmptyDir{\n				Medium:    from.EmptyDir.Medium,\n				SizeLimit: int64(from.EmptyDir.SizeLimit),\n			}\n		} else if from.HostPath != nil {\n			// if the yaml configuration specifies a bind\n			// mount to the host machine.\n			to.HostPath = &engine.VolumeHostPath{\n				Path: from.HostPath.Path,\n			}\n		}\n		spec.Docker.Volumes = append(spec.Docker.Volumes, to)\n	}\n",
  "	spec.Docker.Volumes = append(spec.Docker.Volumes, toVolumes(namespace, from.Volumes)...)\n"),
  (Kx, "			Metadata: engine.Metadata{\n				UID:       rand.String(),\n				Name:      \"_docker_socket\",\n				Namespace: namespace,\n				Labels:    map[string]string{},\n			},\n", "			Metadata: volumeMetadata(namespace, \"_docker_socket\"),\n"),
  (Kx, "// return a .git-credentials file.", "func volumeMetadata(namespace, name string) engine.Metadata {\n	return engine.Metadata{\n		UID:       rand.String(),\n		Name:      name,\n		Namespace: namespace,\n		Labels:    map[string]string{},\n	}\n}\n\nfunc toVolumes(namespace string, from []*yaml.Volume) []*engine.Volume {\n	var out []*engine.Volume\n	for _, v := range from {\n		if v == nil {\n			continue\n		}\n		to := &engine.Volume{Metadata: volumeMetadata(namespace, v.Name)}\n		switch {\n		case v.EmptyDir != nil:\n			to.EmptyDir = &engine.VolumeEmptyDir{\n				Medium:    v.EmptyDir.Medium,\n				SizeLimit: int64(v.EmptyDir.SizeLimit),\n			}\n		case v.HostPath != nil:\n			to.HostPath = &engine.VolumeHostPath{Path: v.HostPath.Path}\n		}\n		out = append(out, to)\n	}\n	return out\n}\n\n// return a .git-credentials file."))
R("w-step-sections", (STx, "	for _, vol := range src.Volumes {\n		if vol == nil {\n			continue\n		}\n		// the user should never be able to directly\n		// mount the docker socket. This should be\n		// restricted by the linter, but we place this\n		// check here just to be safe.\n		if vol.Name == \"_docker_socket\" {\n			continue\n		}\n		mount := &engine.VolumeMount{\n			Name: vol.Name,\n			Path: vol.MountPath,\n		}\n		dst.Volumes = append(dst.Volumes, mount)\n	}\n", "	dst.Volumes = toMounts(src.Volumes)\n"),
  (STx, "	for _, key := range envs {\n		value := src.Environment[key]\n		// fix https://github.com/drone/drone-yaml/issues/13\n		if value == nil {\n			continue\n		}\n		if value.Secret != \"\" {\n			sec := &engine.SecretVar{\n				Name: value.Secret,\n				Env:  key,\n			}\n			dst.Secrets = append(dst.Secrets, sec)\n		} else {\n			dst.Envs[key] = value.Value\n		}\n	}\n", "	for _, key := range envs {\n		if value := src.Environment[key]; value != nil {\n			setVariable(dst, key, value.Secret, value.Value)\n		}\n	}\n"),
  (STx, "		// if the setting parameter is sources from the\n		// secret we create a secret enviornment variable.\n		if value.Secret != \"\" {\n			sec := &engine.SecretVar{\n				Name: value.Secret,\n				Env:  key,\n			}\n			dst.Secrets = append(dst.Secrets, sec)\n		} else {\n			// else if the setting parameter is opaque\n			// we inject as a string-encoded environment\n			// variable.\n			dst.Envs[key] = encode(value.Value)\n		}\n", "		setVariable(dst, key, value.Secret, encode(value.Value))\n"),
  (STx, "func createBuildStep(", "func toMounts(from []*yaml.VolumeMount) (to []*engine.VolumeMount) {\n	for _, vol := range from {\n		if vol != nil && vol.Name != \"_docker_socket\" {\n			to = append(to, &engine.VolumeMount{Name: vol.Name, Path: vol.MountPath})\n		}\n	}\n	return to\n}\n\nfunc setVariable(dst *engine.Step, key, secret, value string) {\n	if secret == \"\" {\n		dst.Envs[key] = value\n		return\n	}\n	dst.Secrets = append(dst.Secrets, &engine.SecretVar{Name: secret, Env: key})\n}\n\nfunc createBuildStep("))
R("w-step-metadata", (STx, "func createStep(spec *engine.Spec, src *yaml.Container) *engine.Step {\n	dst := &engine.Step{\n		Metadata: engine.Metadata{\n			UID:       rand.String(),\n			Name:      src.Name,\n			Namespace: spec.Metadata.Namespace,\n			Labels: map[string]string{\n				\"io.drone.step.name\": src.Name,\n			},\n		},\n", "func createStep(spec *engine.Spec, src *yaml.Container) *engine.Step {\n	dst := &engine.Step{\n		Metadata:  stepMetadata(spec, src),\n"),
  (STx, "func createBuildStep(spec *engine.Spec, src *yaml.Container) *engine.Step {\n	dst := &engine.Step{\n		Metadata: engine.Metadata{\n			UID:       rand.String(),\n			Name:      src.Name,\n			Namespace: spec.Metadata.Namespace,\n			Labels: map[string]string{\n				\"io.drone.step.name\": src.Name,\n			},\n		},\n", "func createBuildStep(spec *engine.Spec, src *yaml.Container) *engine.Step {\n	dst := &engine.Step{\n		Metadata:  stepMetadata(spec, src),\n"),
  (STx, "import (\n", "import (\n"), (STx, "func createStep(spec *engine.Spec, src *yaml.Container) *engine.Step {\n	dst := &engine.Step{\n		Metadata:  stepMetadata(spec, src),\n", "func stepMetadata(spec *engine.Spec, src *yaml.Container) engine.Metadata {\n	var meta engine.Metadata\n	meta.UID = rand.String()\n	meta.Name = src.Name\n	meta.Namespace = spec.Metadata.Namespace\n	meta.Labels = map[string]string{}\n	meta.Labels[\"io.drone.step.name\"] = src.Name\n	return meta\n}\n\nfunc createStep(spec *engine.Spec, src *yaml.Container) *engine.Step {\n	dst := &engine.Step{\n		Metadata:  stepMetadata(spec, src),\n"))
R("w-step-buildenv", (STx, "	if v := src.Build.Dockerfile; v != \"\" {\n		dst.Envs[\"DOCKER_BUILD_DOCKERFILE\"] = v\n\n	}\n	if v := src.Build.Context; v != \"\" {\n		dst.Envs[\"DOCKER_BUILD_CONTEXT\"] = v\n	}\n", "	for key, v := range map[string]string{\n		\"DOCKER_BUILD_CONTEXT\":    src.Build.Context,\n		\"DOCKER_BUILD_DOCKERFILE\": src.Build.Dockerfile,\n	} {\n		if v != \"\" {\n			dst.Envs[key] = v\n		}\n	}\n"))
R("w-step-commands", (STx, "	if len(src.Commands) > 0 {\n		switch spec.Platform.OS {\n		case \"windows\":\n			setupScriptWin(spec, dst, src)\n		default:\n			setupScript(spec, dst, src)\n		}\n	}\n\n	return dst\n", "	if len(src.Commands) == 0 {\n		return dst\n	}\n	setup := setupScript\n	if spec.Platform.OS == \"windows\" {\n		setup = setupScriptWin\n	}\n	setup(spec, dst, src)\n	return dst\n"))
R("w-script-fprintf", ("yaml/compiler/script_posix.go", "	var buf bytes.Buffer\n	for _, command := range src.Commands {\n		escaped := fmt.Sprintf(\"%q\", command)\n		escaped = strings.Replace(escaped, \"$\", `\\$`, -1)\n		escaped = strings.Replace(escaped, \"`\", \"\\\\`\", -1)\n		buf.WriteString(fmt.Sprintf(\n			traceScript,\n			escaped,\n			command,\n		))\n	}\n	script := fmt.Sprintf(\n		buildScript,\n		buf.String(),\n	)\n", "	script := fmt.Sprintf(buildScript, traceCommands(src.Commands))\n"),
  ("yaml/compiler/script_posix.go", "// buildScript is a helper", "// traceCommands returns the commands, each preceded by its trace.\nfunc traceCommands(commands []string) string {\n	out := new(bytes.Buffer)\n	for i := range commands {\n		escaped := strings.Replace(fmt.Sprintf(\"%q\", commands[i]), \"$\", `\\$`, -1)\n		fmt.Fprintf(out, traceScript, strings.Replace(escaped, \"`\", \"\\\\`\", -1), commands[i])\n	}\n	return out.String()\n}\n\n// buildScript is a helper"))
R("w-script-replacer", ("yaml/compiler/script_posix.go", "		escaped = strings.Replace(escaped, \"$\", `\\$`, -1)\n		escaped = strings.Replace(escaped, \"`\", \"\\\\`\", -1)\n", "		escaped = strings.NewReplacer(\"$\", `\\$`, \"`\", \"\\\\`\").Replace(escaped)\n"))
R("w-script-replaceall", ("yaml/compiler/script_posix.go", "		escaped = strings.Replace(escaped, \"$\", `\\$`, -1)\n		escaped = strings.Replace(escaped, \"`\", \"\\\\`\", -1)\n", "		escaped = strings.ReplaceAll(escaped, \"$\", `\\$`)\n		escaped = strings.ReplaceAll(escaped, \"`\", \"\\\\`\")\n"))
R("w-script-quote", ("yaml/compiler/script_posix.go", "escaped := fmt.Sprintf(\"%q\", command)", "escaped := strconv.Quote(command)"), ("yaml/compiler/script_posix.go", "	\"fmt\"\n	\"strings\"\n", "	\"fmt\"\n	\"strconv\"\n	\"strings\"\n"))
R("w-clone-map", ("yaml/compiler/clone.go", "	switch {\n	case src.Platform.OS == \"linux\" && src.Platform.Arch == \"arm\":\n		return \"drone/git:linux-arm\"\n	case src.Platform.OS == \"linux\" && src.Platform.Arch == \"arm64\":\n		return \"drone/git:linux-arm64\"\n	case src.Platform.OS == \"windows\" && src.Platform.Version == \"1903\":\n		return \"drone/git:windows-1903-amd64\"\n	case src.Platform.OS == \"windows\" && src.Platform.Version == \"1809\":\n		return \"drone/git:windows-1809-amd64\"\n	case src.Platform.OS == \"windows\" && src.Platform.Version == \"1803\":\n		return \"drone/git:windows-1803-amd64\"\n	case src.Platform.OS == \"windows\" && src.Platform.Version == \"1709\":\n		return \"drone/git:windows-1709-amd64\"\n	case src.Platform.OS == \"windows\":\n		return \"drone/git:windows-1809-amd64\"\n	default:\n		return \"drone/git\"\n	}\n",
  "	const name = \"drone/git\"\n	p := src.Platform\n	switch p.OS {\n	case \"windows\":\n		switch p.Version {\n		case \"1903\", \"1809\", \"1803\", \"1709\":\n			return name + \":windows-\" + p.Version + \"-amd64\"\n		}\n		return name + \":windows-1809-amd64\"\n	case \"linux\":\n		if p.Arch == \"arm\" || p.Arch == \"arm64\" {\n			return name + \":linux-\" + p.Arch\n		}\n	}\n	return name\n"))
R("w-clone-creds", ("yaml/compiler/clone.go", "	dst.Files = append(dst.Files, &engine.FileMount{\n		Name: \".git-credentials\",\n		Path: \"/root/.git-credentials\",\n	})\n	spec.Files = append(spec.Files, &engine.File{\n		Metadata: engine.Metadata{\n			UID:       rand.String(),\n			Namespace: spec.Metadata.Namespace,\n			Name:      \".git-credentials\",\n		},\n		Data: data,\n	})\n", "	file := &engine.File{Data: data}\n	file.Metadata.UID = rand.String()\n	file.Metadata.Namespace = spec.Metadata.Namespace\n	file.Metadata.Name = \".git-credentials\"\n	spec.Files = append(spec.Files, file)\n	dst.Files = append(dst.Files, &engine.FileMount{\n		Name: file.Metadata.Name,\n		Path: \"/root/\" + file.Metadata.Name,\n	})\n"))
R("w-skip-table", ("yaml/compiler/skip.go", "		switch {\n		case !container.When.Branch.Match(data.Branch):\n			return true\n		case !container.When.Cron.Match(data.Cron):\n			return true\n		case !container.When.Event.Match(data.Event):\n			return true\n		case !container.When.Instance.Match(data.Instance):\n			return true\n		case !container.When.Ref.Match(data.Ref):\n			return true\n		case !container.When.Repo.Match(data.Repo):\n			return true\n		case !container.When.Target.Match(data.Target):\n			return true\n		case !container.When.Action.Match(data.Action):\n			return true\n		default:\n			return false\n		}\n",
  "		for _, c := range []struct {\n			cond  yaml.Condition\n			value string\n		}{\n			{container.When.Action, data.Action},\n			{container.When.Branch, data.Branch},\n			{container.When.Cron, data.Cron},\n			{container.When.Event, data.Event},\n			{container.When.Instance, data.Instance},\n			{container.When.Ref, data.Ref},\n			{container.When.Repo, data.Repo},\n			{container.When.Target, data.Target},\n		} {\n			if !c.cond.Match(c.value) {\n				return true\n			}\n		}\n		return false\n"))
R("w-skip-and", ("yaml/compiler/skip.go", "		switch {\n		case !container.When.Branch.Match(data.Branch):\n			return true\n		case !container.When.Cron.Match(data.Cron):\n			return true\n		case !container.When.Event.Match(data.Event):\n			return true\n		case !container.When.Instance.Match(data.Instance):\n			return true\n		case !container.When.Ref.Match(data.Ref):\n			return true\n		case !container.When.Repo.Match(data.Repo):\n			return true\n		case !container.When.Target.Match(data.Target):\n			return true\n		case !container.When.Action.Match(data.Action):\n			return true\n		default:\n			return false\n		}\n",
  "		when := &container.When\n		matches := when.Branch.Match(data.Branch) &&\n			when.Cron.Match(data.Cron) &&\n			when.Event.Match(data.Event) &&\n			when.Instance.Match(data.Instance) &&\n			when.Ref.Match(data.Ref) &&\n			when.Repo.Match(data.Repo) &&\n			when.Target.Match(data.Target) &&\n			when.Action.Match(data.Action)\n		return !matches\n"))
R("w-cond-matchany", ("yaml/cond.go", "	for _, pattern := range c.Include {\n		if ok, _ := filepath.Match(pattern, v); ok {\n			return true\n		}\n	}\n	return false\n", "	return matchAny(c.Include, v)\n"), ("yaml/cond.go", "	for _, pattern := range c.Exclude {\n		if ok, _ := filepath.Match(pattern, v); ok {\n			return true\n		}\n	}\n	return false\n", "	return matchAny(c.Exclude, v)\n"),
  ("yaml/cond.go", "// UnmarshalYAML implements", "// matchAny returns true if the string matches any pattern.\nfunc matchAny(patterns []string, v string) bool {\n	matched := false\n	for _, pattern := range patterns {\n		ok, err := filepath.Match(pattern, v)\n		if err == nil && ok {\n			matched = true\n			break\n		}\n	}\n	return matched\n}\n\n// UnmarshalYAML implements"))
R("w-dind-varargs", ("yaml/compiler/dind.go", "		for _, img := range images {\n			a := img\n			b := container.Image\n			if image.Match(a, b) {\n				return true\n			}\n		}\n		return false\n", "		return image.Match(container.Image, images...)\n"))
R("w-runpolicy-table", ("yaml/compiler/convert.go", "	switch {\n	case onFailure && onSuccess:\n		return engine.RunAlways\n	case onFailure:\n		return engine.RunOnFailure\n	case onSuccess:\n		return engine.RunOnSuccess\n	default:\n		return engine.RunNever\n	}\n", "	policy := engine.RunNever\n	if onSuccess {\n		policy = engine.RunOnSuccess\n	}\n	if onFailure {\n		policy = engine.RunOnFailure\n		if onSuccess {\n			policy = engine.RunAlways\n		}\n	}\n	return policy\n"))
R("w-ws-return", ("yaml/compiler/workspace.go", "	base = from.Workspace.Base\n	path = from.Workspace.Path\n	if base == \"\" {\n		base = workspacePath\n	}\n	full = unixpath.Join(base, path)\n\n	if from.Platform.OS == \"windows\" {\n		base = toWindowsDrive(base)\n		path = toWindowsPath(path)\n		full = toWindowsDrive(full)\n	}\n	return base, path, full\n", "	root := workspacePath\n	if custom := from.Workspace.Base; custom != \"\" {\n		root = custom\n	}\n	dir := from.Workspace.Path\n	joined := unixpath.Join(root, dir)\n	if from.Platform.OS != \"windows\" {\n		return root, dir, joined\n	}\n	return toWindowsDrive(root), toWindowsPath(dir), toWindowsDrive(joined)\n"))
R("w-workdir-switch", ("yaml/compiler/workspace.go", "	if dst.WorkingDir != \"\" {\n		return\n	}\n", "	service := dst.Detach && len(src.Commands) == 0\n	if dst.WorkingDir == \"\" && !service {\n		dst.WorkingDir = path\n	}\n}\n\nfunc unusedWorkingDir(src *yaml.Container, dst *engine.Step, path string) {\n"))
R("w-t-each", (TX + "limits.go", "		for _, step := range spec.Steps {\n			if step.Resources == nil {\n				step.Resources = &engine.Resources{}\n			}\n			if step.Resources.Limits == nil {\n				step.Resources.Limits = &engine.ResourceObject{}\n			}\n			step.Resources.Limits.Memory = memlimit\n			step.Resources.Limits.CPU = cpulimit\n		}\n", "		forEach(spec, func(step *engine.Step) {\n			res := step.Resources\n			if res == nil {\n				res = new(engine.Resources)\n				step.Resources = res\n			}\n			if res.Limits == nil {\n				res.Limits = new(engine.ResourceObject)\n			}\n			res.Limits.Memory, res.Limits.CPU = memlimit, cpulimit\n		})\n"),
  (TX + "limits.go", "func WithLimits(", "func forEach(spec *engine.Spec, f func(*engine.Step)) {\n	for i := range spec.Steps {\n		f(spec.Steps[i])\n	}\n}\n\nfunc WithLimits("))
R("w-t-env-swap", (TX + "env.go", "		for key, value := range envs {\n			for _, step := range spec.Steps {\n				step.Envs[key] = value\n			}\n		}\n", "		for _, step := range spec.Steps {\n			for key, value := range envs {\n				step.Envs[key] = value\n			}\n		}\n"))
R("w-t-labels-helper", (TX + "labels.go", "		for k, v := range labels {\n			spec.Metadata.Labels[k] = v\n		}\n		for _, resource := range spec.Docker.Volumes {\n			for k, v := range labels {\n				resource.Metadata.Labels[k] = v\n			}\n		}\n		for _, resource := range spec.Steps {\n			for k, v := range labels {\n				resource.Metadata.Labels[k] = v\n			}\n		}\n", "		for k, v := range labels {\n			spec.Metadata.Labels[k] = v\n			for _, volume := range spec.Docker.Volumes {\n				volume.Metadata.Labels[k] = v\n			}\n			for _, step := range spec.Steps {\n				step.Metadata.Labels[k] = v\n			}\n		}\n"))
R("w-t-netrc-vars", (TX + "netrc.go", "			step.Envs[\"CI_NETRC_MACHINE\"] = machine\n			step.Envs[\"CI_NETRC_USERNAME\"] = username\n			step.Envs[\"CI_NETRC_PASSWORD\"] = password\n\n			step.Envs[\"DRONE_NETRC_MACHINE\"] = machine\n			step.Envs[\"DRONE_NETRC_USERNAME\"] = username\n			step.Envs[\"DRONE_NETRC_PASSWORD\"] = password\n", "			for _, prefix := range [...]string{\"CI\", \"DRONE\"} {\n				step.Envs[prefix+\"_NETRC_MACHINE\"] = machine\n				step.Envs[prefix+\"_NETRC_USERNAME\"] = username\n				step.Envs[prefix+\"_NETRC_PASSWORD\"] = password\n			}\n"))
R("w-t-filter-shared", (TX + "filter.go", "	set := map[string]struct{}{}\n	for _, name := range names {\n		set[name] = struct{}{}\n	}\n	return func(spec *engine.Spec) {\n		if len(names) == 0 {\n			return\n		}\n		for _, step := range spec.Steps {\n			if step.Metadata.Name == \"clone\" {\n				continue\n			}\n			_, ok := set[step.Metadata.Name]\n			if !ok {\n				// if the step is not included in the\n				// whitelist the run policy is set to never.\n				step.RunPolicy = engine.RunNever\n			}\n		}\n	}\n", "	return filter(names, false)\n"),
  (TX + "filter.go", "	set := map[string]struct{}{}\n	for _, name := range names {\n		set[name] = struct{}{}\n	}\n	return func(spec *engine.Spec) {\n		if len(names) == 0 {\n			return\n		}\n		for _, step := range spec.Steps {\n			if step.Metadata.Name == \"clone\" {\n				continue\n			}\n			_, ok := set[step.Metadata.Name]\n			if ok {\n				// if the step is included in the blacklist\n				// the run policy is set to never.\n				step.RunPolicy = engine.RunNever\n			}\n		}\n	}\n", "	return filter(names, true)\n"),
  (TX + "filter.go", "// ResumeAt", "func filter(names []string, skip bool) func(*engine.Spec) {\n	listed := make(map[string]bool, len(names))\n	for _, name := range names {\n		listed[name] = true\n	}\n	return func(spec *engine.Spec) {\n		if len(names) == 0 {\n			return\n		}\n		for _, step := range spec.Steps {\n			name := step.Metadata.Name\n			if name != \"clone\" && listed[name] == skip {\n				step.RunPolicy = engine.RunNever\n			}\n		}\n	}\n}\n\n// ResumeAt"))
R("w-t-secret-collect", (TX + "secret.go", "		set := map[string]struct{}{}\n		var names []string\n		for _, step := range spec.Steps {\n			// if we know the step is not going to run,\n			// we can ignore any secrets that it requires.\n			if step.RunPolicy == engine.RunNever {\n				continue\n			}\n			for _, v := range step.Secrets {\n				if _, ok := set[v.Name]; ok {\n					continue\n				}\n				set[v.Name] = struct{}{}\n				names = append(names, v.Name)\n			}\n		}\n\n		// next we use the callback function to\n		// get the value for each secret, and append\n		// to the specification.\n		for _, name := range names {\n			secret := f(name)\n			if secret != nil {\n				secret.Metadata.UID = rand.String()\n				secret.Metadata.Namespace = spec.Metadata.Namespace\n				spec.Secrets = append(spec.Secrets, secret)\n			}\n		}\n", "		requested := map[string]bool{}\n		for _, step := range spec.Steps {\n			if step.RunPolicy == engine.RunNever {\n				continue\n			}\n			for _, v := range step.Secrets {\n				if requested[v.Name] {\n					continue\n				}\n				requested[v.Name] = true\n				secret := f(v.Name)\n				if secret == nil {\n					continue\n				}\n				secret.Metadata.Namespace = spec.Metadata.Namespace\n				secret.Metadata.UID = rand.String()\n				spec.Secrets = append(spec.Secrets, secret)\n			}\n		}\n"))
R("w-parse-closure", ("yaml/parse.go", "		if isSeparator(line) {\n			resource = nil\n		}\n		if resource == nil {\n			resource = &RawResource{}\n			resources = append(resources, resource)\n		}\n		if isSeparator(line) {\n			continue\n		}\n", "		separator := isSeparator(line)\n		if separator || resource == nil {\n			resource = new(RawResource)\n			resources = append(resources, resource)\n		}\n		if separator {\n			continue\n		}\n"))
R("w-parse-bytes", ("yaml/parse.go", "		resource.Data = append(\n			resource.Data,\n			line...,\n		)\n		resource.Data = append(\n			resource.Data,\n			newline,\n		)\n", "		resource.Data = append(resource.Data, (line + \"\\n\")...)\n"), ("yaml/parse.go", "	const newline = '\\n'\n", ""))
R("w-parse-kind-map", ("yaml/parse.go", "	var obj Resource\n	switch r.Kind {\n	case \"cron\":\n		obj = new(Cron)\n	case \"secret\":\n		obj = new(Secret)\n	case \"signature\":\n		obj = new(Signature)\n	case \"registry\":\n		obj = new(Registry)\n	default:\n		obj = new(Pipeline)\n	}\n", "	var obj Resource = new(Pipeline)\n	if create, ok := kinds[r.Kind]; ok {\n		obj = create()\n	}\n"),
  ("yaml/parse.go", "func parseRaw(", "// kinds creates the resources of each kind.\nvar kinds = map[string]func() Resource{\n	KindCron:      func() Resource { return new(Cron) },\n	KindSecret:    func() Resource { return new(Secret) },\n	KindSignature: func() Resource { return new(Signature) },\n	KindRegistry:  func() Resource { return new(Registry) },\n}\n\nfunc parseRaw("))
R("w-sign-docs", ("yaml/signer/signer.go", "	var buf bytes.Buffer\n	for _, r := range res {\n		if r.Kind != yaml.KindSignature {\n			buf.WriteString(\"---\")\n			buf.WriteByte('\\n')\n			buf.Write(r.Data)\n		}\n	}\n\n	buf.WriteString(\"---\")\n	buf.WriteByte('\\n')\n	buf.WriteString(\"kind: signature\")\n	buf.WriteByte('\\n')\n	buf.WriteString(\"hmac: \" + hex.EncodeToString(hmac))\n	buf.WriteByte('\\n')\n	buf.WriteByte('\\n')\n	buf.WriteString(\"...\")\n	buf.WriteByte('\\n')\n	return buf.Bytes(), nil\n", "	return upsert(res, hex.EncodeToString(hmac)), nil\n"),
  ("yaml/signer/signer.go", "	var buf bytes.Buffer\n	for _, r := range res {\n		if r.Kind != yaml.KindSignature {\n			buf.WriteString(\"---\")\n			buf.WriteByte('\\n')\n			buf.Write(r.Data)\n		}\n	}\n	buf.WriteString(\"---\")\n	buf.WriteByte('\\n')\n	buf.WriteString(\"kind: signature\")\n	buf.WriteByte('\\n')\n	buf.WriteString(\"hmac: \" + hmac)\n	buf.WriteByte('\\n')\n	buf.WriteByte('\\n')\n	buf.WriteString(\"...\")\n	buf.WriteByte('\\n')\n	return buf.Bytes()\n", "	var out []byte\n	for _, r := range res {\n		if r.Kind == yaml.KindSignature {\n			continue\n		}\n		out = append(out, \"---\\n\"...)\n		out = append(out, r.Data...)\n	}\n	out = append(out, (\"---\\nkind: signature\\nhmac: \" + hmac + \"\\n\\n...\\n\")...)\n	return out\n"),
  ("yaml/signer/signer.go", "	\"bytes\"\n", ""))
R("w-sign-sum", ("yaml/signer/signer.go", "	h := hmac.New(sha256.New, key)\n	for _, r := range resources {\n		if r.Kind != yaml.KindSignature {\n			h.Write(r.Data)\n		}\n	}\n	return h.Sum(nil), nil\n", "	var content []byte\n	for _, r := range resources {\n		if r.Kind != yaml.KindSignature {\n			content = append(content, r.Data...)\n		}\n	}\n	h := hmac.New(sha256.New, key)\n	h.Write(content)\n	return h.Sum(nil), nil\n"))
R("w-pretty-quoted-contains", (PUx, "	var prev rune\n	for _, b := range s {\n		switch {\n		case isEscapeCode(b):\n			return true\n		case b == ' ' && prev == ':':\n			return true\n		case b == '#' && prev == ' ':\n			return true\n		}\n		prev = b\n	}\n", "	if strings.IndexFunc(s, isEscapeCode) >= 0 {\n		return true\n	}\n	if strings.Contains(s, \": \") || strings.Contains(s, \" #\") {\n		return true\n	}\n"))
R("w-pretty-escape-any", (PUx, "	switch b {\n	case '\\a', '\\b', '\\f', '\\n', '\\r', '\\t', '\\v':\n		return true\n	default:\n		return false\n	}\n", "	return b == '\\a' || b == '\\b' || b == '\\f' || b == '\\n' || b == '\\r' || b == '\\t' || b == '\\v'\n"))
R("w-pretty-escape-range", (PUx, "	switch b {\n	case '\\a', '\\b', '\\f', '\\n', '\\r', '\\t', '\\v':\n		return true\n	default:\n		return false\n	}\n", "	return b >= '\\a' && b <= '\\r'\n"))
R("w-pretty-tagvalue", ("yaml/pretty/writer.go", "	w.WriteTag(k)\n	if isPrimative(v) {\n		w.WriteByte(' ')\n		writeValue(w, v)\n	} else if isSlice(v) {\n		w.WriteByte('\\n')\n		w.Indent()\n		writeValue(w, v)\n	} else {\n		w.depth++\n		w.WriteByte('\\n')\n		w.Indent()\n		writeValue(w, v)\n		w.depth--\n	}\n", "	w.WriteTag(k)\n	switch {\n	case isPrimative(v):\n		w.WriteByte(' ')\n		writeValue(w, v)\n		return\n	case !isSlice(v):\n		w.IndentIncrease()\n		defer w.IndentDecrease()\n	}\n	w.WriteByte('\\n')\n	w.Indent()\n	writeValue(w, v)\n"))
R("w-pretty-empty-cmp", ("yaml/pretty/pipeline.go", "	return v.OS == \"\" &&\n		v.Arch == \"\" &&\n		v.Variant == \"\" &&\n		v.Version == \"\"\n", "	return v == yaml.Platform{}\n"), ("yaml/pretty/pipeline.go", "	return v.Path == \"\" && v.Base == \"\"\n", "	return v == (yaml.Workspace{})\n"))
R("w-pretty-empty-cmp2", ("yaml/pretty/pipeline.go", "	return v.OS == \"\" &&\n		v.Arch == \"\" &&\n		v.Variant == \"\" &&\n		v.Version == \"\"\n", "	return v == (yaml.Platform{})\n"), ("yaml/pretty/pipeline.go", "	return v.Depth == 0 &&\n		v.Disable == false &&\n		v.SkipVerify == false\n", "	return v == yaml.Clone{} || (v.Depth == 0 && !v.Disable && !v.SkipVerify)\n"))
R("w-pretty-seq-helper", ("yaml/pretty/writer.go", "		w.WriteByte('-')\n		w.WriteByte(' ')\n		writeEncode(w, v)\n", "		writeItem(w)\n		writeEncode(w, v)\n"), ("yaml/pretty/writer.go", "func writeSequenceStr(", "func writeItem(w writer) {\n	w.WriteString(\"- \")\n}\n\nfunc writeSequenceStr("))
R("w-legacy-filter", (LGx, "			services := make([]*droneyaml.Container, 0)\n			for _, service := range current.Services {\n				if len(service.When.Matrix) == 0 {\n					services = append(services, service)\n					continue\n				}\n\n				if matchMatrix(service.When.Matrix, environ) {\n					services = append(services, service)\n				}\n			}\n			current.Services = services\n\n			steps := make([]*droneyaml.Container, 0)\n			for _, step := range current.Steps {\n				if len(step.When.Matrix) == 0 {\n					steps = append(steps, step)\n					continue\n				}\n\n				if matchMatrix(step.When.Matrix, environ) {\n					steps = append(steps, step)\n				}\n			}\n			current.Steps = steps\n", "			current.Services = filterMatrix(current.Services, environ)\n			current.Steps = filterMatrix(current.Steps, environ)\n"),
  (LGx, "// helper function returns true if the matrix entry", "// helper function returns the containers that are part of\n// the matrix entry.\nfunc filterMatrix(from []*droneyaml.Container, environ matrix.Axis) []*droneyaml.Container {\n	to := make([]*droneyaml.Container, 0, len(from))\n	for _, c := range from {\n		if matchMatrix(c.When.Matrix, environ) {\n			to = append(to, c)\n		}\n	}\n	return to\n}\n\n// helper function returns true if the matrix entry"))
R("w-legacy-containers", (LGx, "	for _, container := range from.Services.Containers {\n		pipeline.Services = append(pipeline.Services,\n			toContainer(container),\n		)\n	}\n\n	for _, container := range from.Pipeline.Containers {\n		pipeline.Steps = append(pipeline.Steps,\n			toContainer(container),\n		)\n	}\n", "	pipeline.Services = toContainers(from.Services.Containers)\n	pipeline.Steps = append(pipeline.Steps, toContainers(from.Pipeline.Containers)...)\n"),
  (LGx, "func toContainer(from *Container)", "func toContainers(from []*Container) []*droneyaml.Container {\n	var to []*droneyaml.Container\n	for i := range from {\n		to = append(to, toContainer(from[i]))\n	}\n	return to\n}\n\nfunc toContainer(from *Container)"))
R("w-legacy-kube-path", (LGx, "		if from.Workspace.Base != \"\" && from.Workspace.Path != \"\" {\n			pipeline.Workspace.Base = \"\"\n			pipeline.Workspace.Path = filepath.Join(\n				from.Workspace.Base,\n				from.Workspace.Path,\n			)\n		} else if from.Workspace.Base != \"\" {\n			pipeline.Workspace.Base = \"\"\n			pipeline.Workspace.Path = filepath.Join(\n				from.Workspace.Base,\n				toWorkspacePath(remote),\n			)\n		} else if from.Workspace.Path != \"\" {\n			pipeline.Workspace.Base = \"\"\n			pipeline.Workspace.Path = filepath.Join(\n				\"/drone\",\n				from.Workspace.Path,\n			)\n		} else {\n			pipeline.Workspace.Base = \"\"\n			pipeline.Workspace.Path = filepath.Join(\n				\"/drone\",\n				toWorkspacePath(remote),\n			)\n		}\n", "		base, path := from.Workspace.Base, from.Workspace.Path\n		if base == \"\" {\n			base = \"/drone\"\n		}\n		if path == \"\" {\n			path = toWorkspacePath(remote)\n		}\n		pipeline.Workspace.Base = \"\"\n		pipeline.Workspace.Path = filepath.Join(base, path)\n"))
R("w-legacy-getenv", (LGx, "	if os.Getenv(\"DRONE_CONVERT_YAML_DEFAULT_PULL_SECRETS\") == \"true\" {\n", "	if enabled(\"DRONE_CONVERT_YAML_DEFAULT_PULL_SECRETS\") {\n"), (LGx, "	} else if os.Getenv(\"DRONE_CONVERT_YAML_LEGACY_CLONE\") == \"true\" {\n", "	} else if enabled(\"DRONE_CONVERT_YAML_LEGACY_CLONE\") {\n"), (LGx, "func toContainer(from *Container)", "func enabled(name string) bool {\n	return os.Getenv(name) == \"true\"\n}\n\nfunc toContainer(from *Container)"))
R("w-legacy-tag-func", (LGx, "		for _, step := range pipeline.Steps {\n			if sliceContains(\"tag\", step.When.Event.Include) {\n				pipeline.Trigger.Ref.Include = append(\n					pipeline.Trigger.Ref.Include,\n					\"refs/tags/**\",\n				)\n				break\n			}\n		}\n", "		tags := false\n		for _, step := range pipeline.Steps {\n			tags = tags || sliceContains(\"tag\", step.When.Event.Include)\n		}\n		if tags {\n			pipeline.Trigger.Ref.Include = append(pipeline.Trigger.Ref.Include, \"refs/tags/**\")\n		}\n"))
R("w-legacy-secret-if", (LGx, "		if val.Driver == \"vault\" {\n			if val.DriverOpts != nil {\n				secret.Get.Path = val.DriverOpts[\"path\"]\n				secret.Get.Name = val.DriverOpts[\"key\"]\n			}\n		} else if val.Path != \"\" {\n			secret.Get.Path = val.Path\n		} else {\n			secret.Get.Path = val.Vault\n		}\n", "		switch {\n		case val.Driver == \"vault\":\n			opts := val.DriverOpts\n			secret.Get.Path, secret.Get.Name = opts[\"path\"], opts[\"key\"]\n		case val.Path == \"\":\n			secret.Get.Path = val.Vault\n		default:\n			secret.Get.Path = val.Path\n		}\n"))
R("w-main-print", ("main.go", "	if *formatSave {\n		return ioutil.WriteFile(f.Name(), b.Bytes(), 0644)\n	}\n	_, err = io.Copy(os.Stderr, b)\n	return err\n", "	return output(f.Name(), b.Bytes(), *formatSave)\n"), ("main.go", "	if *convertSave {\n		return ioutil.WriteFile(f.Name(), b, 0644)\n	}\n	_, err = io.Copy(os.Stderr, bytes.NewReader(b))\n	return err\n", "	return output(f.Name(), b, *convertSave)\n"),
  ("main.go", "func runLint() error {", "func output(name string, b []byte, save bool) error {\n	if save {\n		return ioutil.WriteFile(name, b, 0644)\n	}\n	_, err := os.Stderr.Write(b)\n	return err\n}\n\nfunc runLint() error {"), ("main.go", "	\"io\"\n", ""))
R("w-main-map", ("main.go", "	switch kingpin.Parse() {\n	case format.FullCommand():\n		kingpin.FatalIfError(runFormat(), \"\")\n	case convert.FullCommand():\n		kingpin.FatalIfError(runConvert(), \"\")\n	case lint.FullCommand():\n		kingpin.FatalIfError(runLint(), \"\")\n	case sign.FullCommand():\n		kingpin.FatalIfError(runSign(), \"\")\n	case verify.FullCommand():\n		kingpin.FatalIfError(runVerify(), \"\")\n	case compile.FullCommand():\n		kingpin.FatalIfError(runCompile(), \"\")\n	}\n", "	var err error\n	switch kingpin.Parse() {\n	case format.FullCommand():\n		err = runFormat()\n	case convert.FullCommand():\n		err = runConvert()\n	case lint.FullCommand():\n		err = runLint()\n	case sign.FullCommand():\n		err = runSign()\n	case verify.FullCommand():\n		err = runVerify()\n	case compile.FullCommand():\n		err = runCompile()\n	}\n	kingpin.FatalIfError(err, \"\")\n"))
R("w-main-funcs", ("main.go", "	switch kingpin.Parse() {\n	case format.FullCommand():\n		kingpin.FatalIfError(runFormat(), \"\")\n	case convert.FullCommand():\n		kingpin.FatalIfError(runConvert(), \"\")\n	case lint.FullCommand():\n		kingpin.FatalIfError(runLint(), \"\")\n	case sign.FullCommand():\n		kingpin.FatalIfError(runSign(), \"\")\n	case verify.FullCommand():\n		kingpin.FatalIfError(runVerify(), \"\")\n	case compile.FullCommand():\n		kingpin.FatalIfError(runCompile(), \"\")\n	}\n", "	commands := map[string]func() error{\n		format.FullCommand():  runFormat,\n		convert.FullCommand(): runConvert,\n		lint.FullCommand():    runLint,\n		sign.FullCommand():    runSign,\n		verify.FullCommand():  runVerify,\n		compile.FullCommand(): runCompile,\n	}\n	if run, ok := commands[kingpin.Parse()]; ok {\n		kingpin.FatalIfError(run(), \"\")\n	}\n"))
R("w-main-auths", ("main.go", "	var auths []*engine.DockerAuth\n	for _, uri := range *registries {\n		if uri.User == nil {\n			log.Fatalln(\"Expect registry format [user]:[password]@hostname\")\n		}\n		password, ok := uri.User.Password()\n		if !ok {\n			log.Fatalln(\"Invalid or missing registry password\")\n		}\n		auths = append(auths, &engine.DockerAuth{\n			Address:  uri.Host,\n			Username: uri.User.Username(),\n			Password: password,\n		})\n	}\n", "	var auths []*engine.DockerAuth\n	for i := range *registries {\n		auths = append(auths, toAuth((*registries)[i]))\n	}\n"), ("main.go", "// helper function returns the git credential function,", "func toAuth(uri *url.URL) *engine.DockerAuth {\n	user := uri.User\n	if user == nil {\n		log.Fatalln(\"Expect registry format [user]:[password]@hostname\")\n	}\n	password, ok := user.Password()\n	if !ok {\n		log.Fatalln(\"Invalid or missing registry password\")\n	}\n	return &engine.DockerAuth{\n		Address:  uri.Host,\n		Username: user.Username(),\n		Password: password,\n	}\n}\n\n// helper function returns the git credential function,"), ("main.go", "	\"log\"\n", "	\"log\"\n	\"net/url\"\n"))
R("w-enc-order", ("yaml/compiler/encode.go", "	switch v := v.(type) {\n	case string:\n		return v\n	case bool:\n		return strconv.FormatBool(v)\n", "	if s, ok := v.(string); ok {\n		return s\n	}\n	switch v := v.(type) {\n	case bool:\n		return strconv.FormatBool(v)\n"))
R("w-enc-bool", ("yaml/compiler/encode.go", "		return strconv.FormatBool(v)\n", "		if v {\n			return \"true\"\n		}\n		return \"false\"\n"))
R("w-gitlab-commands", ("yaml/converter/gitlab/convert.go", "			cmds := []string(config.Before)\n			cmds = append(cmds, []string(job.Before)...)\n			cmds = append(cmds, []string(job.Script)...)\n			cmds = append(cmds, []string(job.After)...)\n			cmds = append(cmds, []string(config.After)...)\n", "			var cmds []string\n			for _, list := range [][]string{config.Before, job.Before, job.Script, job.After, config.After} {\n				cmds = append(cmds, list...)\n			}\n"))
R("w-gitlab-image", ("yaml/converter/gitlab/convert.go", "			if step.Image == \"\" {\n				step.Image = config.Image.Name\n			}\n", ""), ("yaml/converter/gitlab/convert.go", "			step := &droneyaml.Container{\n				Name:       name,\n				Image:      job.Image.Name,\n", "			img := job.Image.Name\n			if img == \"\" {\n				img = config.Image.Name\n			}\n\n			step := &droneyaml.Container{\n				Name:       name,\n				Image:      img,\n"))
R("w-bb-cut", ("yaml/converter/bitbucket/config.go", "	for _, pattern := range sortedKeys(c.Pipelines.Tags) {\n		if ok, _ := path.Match(pattern, tag); ok {\n			return c.Pipelines.Tags[pattern]\n		}\n	}\n", "	if stage, ok := find(c.Pipelines.Tags, tag); ok {\n		return stage\n	}\n"), ("yaml/converter/bitbucket/config.go", "	for _, pattern := range sortedKeys(c.Pipelines.Branches) {\n		if ok, _ := path.Match(pattern, branch); ok {\n			return c.Pipelines.Branches[pattern]\n		}\n	}\n", "	if stage, ok := find(c.Pipelines.Branches, branch); ok {\n		return stage\n	}\n"), ("yaml/converter/bitbucket/config.go", "// UnmarshalYAML implements custom parsing for the stage", "// find returns the first stage whose pattern matches the name.\nfunc find(stages map[string]Stage, name string) (stage Stage, found bool) {\n	for _, pattern := range sortedKeys(stages) {\n		if ok, _ := path.Match(pattern, name); ok {\n			return stages[pattern], true\n		}\n	}\n	return\n}\n\n// UnmarshalYAML implements custom parsing for the stage"))

R("w2-lint-err-last", (Lx, "	for _, port := range ports {\n		if port == nil {\n			continue\n		}\n		err := checkPort(port, trusted)\n		if err != nil {\n			return err\n		}\n	}\n	return nil\n", "	var err error\n	for i := 0; i < len(ports) && err == nil; i++ {\n		if ports[i] != nil {\n			err = checkPort(ports[i], trusted)\n		}\n	}\n	return err\n"))
R("w2-cond-found", ("yaml/cond.go", "	for _, pattern := range c.Include {\n		if ok, _ := filepath.Match(pattern, v); ok {\n			return true\n		}\n	}\n	return false\n", "	found := false\n	for i := 0; i < len(c.Include) && !found; i++ {\n		found, _ = filepath.Match(c.Include[i], v)\n	}\n	return found\n"))
R("w2-cond-found2", ("yaml/cond.go", "	for _, pattern := range c.Exclude {\n		if ok, _ := filepath.Match(pattern, v); ok {\n			return true\n		}\n	}\n	return false\n", "	var found bool\n	for i := 0; !found && i < len(c.Exclude); i++ {\n		if ok, err := filepath.Match(c.Exclude[i], v); ok && err == nil {\n			found = true\n		}\n	}\n	return found\n"))
R("w2-serial-loop", (Kx, "	isSerial := true\n	for _, step := range from.Steps {\n		if step != nil && len(step.DependsOn) != 0 {\n			isSerial = false\n			break\n		}\n	}\n", "	isSerial := true\n	for i := 0; isSerial && i < len(from.Steps); i++ {\n		step := from.Steps[i]\n		isSerial = step == nil || len(step.DependsOn) == 0\n	}\n"))
R("w2-lint-deps-loop", (Lx, "	for _, dep := range container.DependsOn {\n		_, ok := deps[dep]\n		if !ok {\n			return ErrMissingDependency\n		}\n		if container.Name == dep {\n			return ErrCyclicalDependency\n		}\n	}\n	return nil\n", "	var err error\n	for i := 0; i < len(container.DependsOn) && err == nil; i++ {\n		dep := container.DependsOn[i]\n		if _, ok := deps[dep]; !ok {\n			err = ErrMissingDependency\n		} else if dep == container.Name {\n			err = ErrCyclicalDependency\n		}\n	}\n	return err\n"))
R("w2-lint-consume", (Lx, "	for _, port := range ports {\n		if port == nil {\n			continue\n		}\n		err := checkPort(port, trusted)\n		if err != nil {\n			return err\n		}\n	}\n	return nil\n", "	for len(ports) > 0 {\n		port := ports[0]\n		ports = ports[1:]\n		if port == nil {\n			continue\n		}\n		if err := checkPort(port, trusted); err != nil {\n			return err\n		}\n	}\n	return nil\n"))
R("w2-lint-goto", (Lx, "	for _, port := range ports {\n		if port == nil {\n			continue\n		}\n		err := checkPort(port, trusted)\n		if err != nil {\n			return err\n		}\n	}\n	return nil\n", "	i := 0\n	for {\n		if i >= len(ports) {\n			return nil\n		}\n		if port := ports[i]; port != nil {\n			if err := checkPort(port, trusted); err != nil {\n				return err\n			}\n		}\n		i++\n	}\n"))
R("w2-dind-found", ("yaml/compiler/dind.go", "		for _, img := range images {\n			a := img\n			b := container.Image\n			if image.Match(a, b) {\n				return true\n			}\n		}\n		return false\n", "		matched := false\n		for i := 0; !matched && i < len(images); i++ {\n			matched = image.Match(images[i], container.Image)\n		}\n		return matched\n"))
R("w2-match-consume", ("yaml/compiler/image/image.go", "	for _, match := range to {\n		if from == Trim(match) {\n			return true\n		}\n	}\n	return false\n", "	for ; len(to) != 0; to = to[1:] {\n		if Trim(to[0]) == from {\n			return true\n		}\n	}\n	return false\n"))
R("w2-find-resume", (TX + "filter.go", "		for _, step := range spec.Steps {\n			if step.Metadata.Name == name {\n				return\n			}\n			if step.Metadata.Name == \"clone\" {\n				continue\n			}\n			step.RunPolicy = engine.RunNever\n		}\n", "		for i := 0; i < len(spec.Steps) && spec.Steps[i].Metadata.Name != name; i++ {\n			if step := spec.Steps[i]; step.Metadata.Name != \"clone\" {\n				step.RunPolicy = engine.RunNever\n			}\n		}\n"))
R("w2-compile-find", ("main.go", "	var p *yaml.Pipeline\n	for _, r := range m.Resources {\n		v, ok := r.(*yaml.Pipeline)\n		if !ok {\n			continue\n		}\n		if *compileName == \"\" ||\n			*compileName == v.Name {\n			p = v\n			break\n		}\n	}\n", "	var p *yaml.Pipeline\n	for i := 0; p == nil && i < len(m.Resources); i++ {\n		if v, ok := m.Resources[i].(*yaml.Pipeline); ok && (*compileName == \"\" || *compileName == v.Name) {\n			p = v\n		}\n	}\n"))
R("w2-sign-find", ("yaml/signer/signer.go", "	for _, r := range res {\n		if r.Kind == yaml.KindSignature {\n			out := new(yaml.Signature)\n			err := goyaml.Unmarshal(r.Data, out)\n			if err != nil {\n				return nil, err\n			}\n			return hex.DecodeString(out.Hmac)\n		}\n	}\n	return nil, errors.New(\"yaml: missing signature\")\n", "	var sig *yaml.RawResource\n	for i := 0; i < len(res) && sig == nil; i++ {\n		if res[i].Kind == yaml.KindSignature {\n			sig = res[i]\n		}\n	}\n	if sig == nil {\n		return nil, errors.New(\"yaml: missing signature\")\n	}\n	out := new(yaml.Signature)\n	if err := goyaml.Unmarshal(sig.Data, out); err != nil {\n		return nil, err\n	}\n	return hex.DecodeString(out.Hmac)\n"))

# --- loops that end in other ways
R("w5-chunk-rest", ("yaml/pretty/util.go", "	for i := 0; i < len(s); i += chunkSize {\n		nn := i + chunkSize\n		if nn > len(s) {\n			nn = len(s)\n		}\n		chunks = append(chunks, s[i:nn])\n	}\n	return chunks\n", "	for len(s) > chunkSize {\n		chunks = append(chunks, s[:chunkSize])\n		s = s[chunkSize:]\n	}\n	return append(chunks, s)\n"))
R("w5-chunk-while", ("yaml/pretty/util.go", "	for i := 0; i < len(s); i += chunkSize {\n		nn := i + chunkSize\n		if nn > len(s) {\n			nn = len(s)\n		}\n		chunks = append(chunks, s[i:nn])\n	}\n	return chunks\n", "	for s != \"\" {\n		n := chunkSize\n		if n > len(s) {\n			n = len(s)\n		}\n		chunks = append(chunks, s[:n])\n		s = s[n:]\n	}\n	return chunks\n"))
R("w5-indent-down", ("yaml/pretty/writer.go", "	for i := 0; i < w.depth; i++ {\n		w.WriteString(\"  \")\n	}\n", "	for n := w.depth; n > 0; n-- {\n		w.WriteString(\"  \")\n	}\n"))
R("w5-indent-repeat", ("yaml/pretty/writer.go", "	for i := 0; i < w.depth; i++ {\n		w.WriteString(\"  \")\n	}\n", "	w.WriteString(strings.Repeat(\"  \", w.depth))\n"), ("yaml/pretty/writer.go", "	\"sort\"\n", "	\"sort\"\n	\"strings\"\n"))
R("w5-rand-inner", ("yaml/compiler/internal/rand/rand.go", "		for _, rb := range r {\n			c := int(rb)\n			if c > maxrb {\n				// Skip this number to avoid modulo bias.\n				continue\n			}\n			b[i] = chars[c%clen]\n			i++\n			if i == length {\n				return string(b)\n			}\n		}\n", "		for n := 0; n < len(r) && i < length; n++ {\n			if c := int(r[n]); c <= maxrb {\n				b[i] = chars[c%clen]\n				i++\n			}\n		}\n		if i == length {\n			return string(b)\n		}\n"))
R("w5-rand-for", ("yaml/compiler/internal/rand/rand.go", "	i := 0\n	for {\n", "	for i := 0; ; {\n"))
R("w5-rand-cond", ("yaml/compiler/internal/rand/rand.go", "	i := 0\n	for {\n		if _, err", "	for i := 0; i < length; {\n		if _, err"), ("yaml/compiler/internal/rand/rand.go", "			i++\n			if i == length {\n				return string(b)\n			}\n		}\n	}\n", "			i++\n			if i == length {\n				break\n			}\n		}\n	}\n	return string(b)\n"))
R("w5-parse-scan", ("yaml/parse.go", "	for scanner.Scan() {\n		line := scanner.Text()\n", "	for {\n		if !scanner.Scan() {\n			break\n		}\n		line := scanner.Text()\n"))
R("w5-calc-digits", ("yaml/converter/legacy/matrix/matrix.go", "		for i := len(tags) - 1; i >= 0; i-- {\n			tag := tags[i]\n", "		for i := len(tags); i > 0; {\n			i--\n			tag := tags[i]\n"))
R("w5-slug-while", ("yaml/converter/gitlab/convert.go", "	s = strings.Replace(s, \"/\", \"__\", -1)\n	return s\n", "	for strings.Contains(s, \"/\") {\n		s = strings.Replace(s, \"/\", \"__\", 1)\n	}\n	return s\n"))
R("w5-volume-cut", ("yaml/converter/legacy/internal/volume.go", "	parts := strings.SplitN(stringType, \":\", 3)\n", "	var parts []string\n	for rest := stringType; ; {\n		i := strings.Index(rest, \":\")\n		if i < 0 || len(parts) == 2 {\n			parts = append(parts, rest)\n			break\n		}\n		parts = append(parts, rest[:i])\n		rest = rest[i+1:]\n	}\n"))
R("x1-pick", ("yaml/converter/legacy/matrix/matrix.go", "				axis[tag] = elems[rest%len(elems)]\n", "				axis[tag] = pick(elems, rest)\n"), ("yaml/converter/legacy/matrix/matrix.go", "func parse(raw", "// pick is the value at a digit.\nfunc pick(elems []string, n int) string {\n	return elems[n%len(elems)]\n}\n\nfunc parse(raw"))
R("x1-size", ("yaml/converter/legacy/matrix/matrix.go", "	var perm int\n	for _, tag := range tags {\n		if perm == 0 {\n			perm = len(matrix[tag])\n		} else if perm <= limitAxis+1 {\n			perm *= len(matrix[tag])\n		}\n	}\n", "	perm := permutations(matrix, tags)\n"), ("yaml/converter/legacy/matrix/matrix.go", "func parse(raw", "func permutations(matrix Matrix, tags []string) int {\n	var perm int\n	for _, tag := range tags {\n		n := len(matrix[tag])\n		switch {\n		case perm == 0:\n			perm = n\n		case perm <= limitAxis+1:\n			perm *= n\n		}\n	}\n	return perm\n}\n\nfunc parse(raw"))
R("x1-continue", ("yaml/converter/legacy/matrix/matrix.go", "			// enforce a maximum number of tags in the build matrix.\n			if i <= limitTags+1 {\n				axis[tag] = elems[rest%len(elems)]\n			}\n			rest = rest / len(elems)\n", "			digit := rest % len(elems)\n			rest /= len(elems)\n			// enforce a maximum number of tags in the build matrix.\n			if i > limitTags+1 {\n				continue\n			}\n			axis[tag] = elems[digit]\n"))
R("x1-cap", ("yaml/converter/legacy/matrix/matrix.go", "	// structure to hold", "	if perm > limitAxis+2 {\n		perm = limitAxis + 2\n	}\n\n	// structure to hold"), ("yaml/converter/legacy/matrix/matrix.go", "\n		// enforce a maximum number of axis that should be calculated.\n		if p > limitAxis {\n			break\n		}\n", ""))
R("x1-filter", ("yaml/converter/legacy/matrix/matrix.go", "	var tags []string\n	for k, v := range matrix {\n		// an axis without values does not take part in the matrix.\n		if len(v) == 0 {\n			continue\n		}\n		tags = append(tags, k)\n	}\n", "	var tags []string\n	for k := range matrix {\n		// an axis without values does not take part in the matrix.\n		if len(matrix[k]) > 0 {\n			tags = append(tags, k)\n		}\n	}\n"))
R("x1-one", ("yaml/converter/legacy/matrix/matrix.go", "	var perm int\n	for _, tag := range tags {\n		if perm == 0 {\n			perm = len(matrix[tag])\n		} else if perm <= limitAxis+1 {\n", "	if len(tags) == 0 {\n		return []Axis{}\n	}\n	perm := 1\n	for _, tag := range tags {\n		if perm <= limitAxis+1 {\n"))
R("x1-exact", ("yaml/converter/legacy/matrix/matrix.go", "		} else if perm <= limitAxis+1 {\n", "		} else {\n"))
R("x1-decr", ("yaml/converter/legacy/matrix/matrix.go", "		} else if perm <= limitAxis+1 {\n", "		} else {\n"), ("yaml/converter/legacy/matrix/matrix.go", "		rest := p\n		for i := len(tags) - 1; i >= 0; i-- {\n			tag := tags[i]\n			elems := matrix[tag]\n", "		decr := perm\n		for i, tag := range tags {\n			elems := matrix[tag]\n			decr = decr / len(elems)\n"), ("yaml/converter/legacy/matrix/matrix.go", "elems[rest%len(elems)]\n			}\n			rest = rest / len(elems)\n", "elems[p/decr%len(elems)]\n			}\n"))
R("x1-down", ("yaml/converter/legacy/matrix/matrix.go", "		for i := len(tags) - 1; i >= 0; i-- {\n			tag := tags[i]\n", "		for i := len(tags); i > 0; i-- {\n			tag := tags[i-1]\n"), ("yaml/converter/legacy/matrix/matrix.go", "if i <= limitTags+1 {", "if i <= limitTags+2 {"))
R("x1-entry", ("yaml/converter/legacy/matrix/matrix.go", "		axis := map[string]string{}\n		rest := p\n		for i := len(tags) - 1; i >= 0; i-- {\n			tag := tags[i]\n			elems := matrix[tag]\n\n			// enforce a maximum number of tags in the build matrix.\n			if i <= limitTags+1 {\n				axis[tag] = elems[rest%len(elems)]\n			}\n			rest = rest / len(elems)\n		}\n\n		// append to the list of axis.\n		axisList = append(axisList, axis)\n", "		// append to the list of axis.\n		axisList = append(axisList, nth(matrix, tags, p))\n"), ("yaml/converter/legacy/matrix/matrix.go", "func parse(raw", "// nth is the nth permutation.\nfunc nth(matrix Matrix, tags []string, n int) Axis {\n	axis := Axis{}\n	for i := len(tags) - 1; i >= 0; i-- {\n		elems := matrix[tags[i]]\n		// enforce a maximum number of tags in the build matrix.\n		if i <= limitTags+1 {\n			axis[tags[i]] = elems[n%len(elems)]\n		}\n		n /= len(elems)\n	}\n	return axis\n}\n\nfunc parse(raw"))
R("x1-sections", ("yaml/converter/legacy/matrix/matrix.go", "	axis, err := parseList(data)\n	if err == nil && len(axis) != 0 {\n		return axis, nil\n	}\n\n	matrix, err := parse(data)\n	if err != nil {\n		return nil, err\n	}\n\n	// if not a matrix build return an array with just the single axis.\n	if len(matrix) == 0 {\n		return nil, nil\n	}\n\n	return calc(matrix), nil\n", "	if axis, err := parseList(data); err == nil && len(axis) > 0 {\n		return axis, nil\n	}\n	matrix, err := parse(data)\n	switch {\n	case err != nil:\n		return nil, err\n	case len(matrix) == 0:\n		// not a matrix build\n		return nil, nil\n	default:\n		return calc(matrix), nil\n	}\n"))
R("x1-limit-for", ("yaml/converter/legacy/matrix/matrix.go", "p < perm; p++ {", "p < perm && p <= limitAxis+1; p++ {"), ("yaml/converter/legacy/matrix/matrix.go", "\n		// enforce a maximum number of axis that should be calculated.\n		if p > limitAxis {\n			break\n		}\n", ""))
R("x1-full", ("yaml/converter/legacy/matrix/matrix.go", "		if p > limitAxis {\n", "		if len(axisList) > limitAxis+1 {\n"))
R("x1-keys", ("yaml/converter/legacy/matrix/matrix.go", "	var tags []string\n	for k, v := range matrix {\n		// an axis without values does not take part in the matrix.\n		if len(v) == 0 {\n			continue\n		}\n		tags = append(tags, k)\n	}\n	sort.Strings(tags)\n", "	tags := used(matrix)\n"), ("yaml/converter/legacy/matrix/matrix.go", "func parse(raw", "// used lists the axes with values.\nfunc used(matrix Matrix) []string {\n	tags := make([]string, 0, len(matrix))\n	for k, v := range matrix {\n		if len(v) != 0 {\n			tags = append(tags, k)\n		}\n	}\n	sort.Strings(tags)\n	return tags\n}\n\nfunc parse(raw"))
R("x3-creds-join", ("main.go", "	var buf bytes.Buffer\n	for _, url := range urls {\n		buf.WriteString(url.String())\n		buf.WriteByte('\\n')\n	}\n	return buf.Bytes()\n", "	text := \"\"\n	for _, url := range urls {\n		text += url.String() + \"\\n\"\n	}\n	return []byte(text)\n"))
R("x3-creds-printf", ("main.go", "		buf.WriteString(url.String())\n		buf.WriteByte('\\n')\n", "		fmt.Fprintln(&buf, url)\n"))
R("x3-creds-closure", ("main.go", "	comp.GitCredentialsFunc = defaultCreds ", "	comp.GitCredentialsFunc = func() []byte { return defaultCreds() } "))
R("x3-creds-append", ("main.go", "	if len(urls) == 0 {\n		return nil\n	}\n	var buf bytes.Buffer\n	for _, url := range urls {\n		buf.WriteString(url.String())\n		buf.WriteByte('\\n')\n	}\n	return buf.Bytes()\n", "	var out []byte\n	for i := range urls {\n		out = append(out, urls[i].String()...)\n		out = append(out, '\\n')\n	}\n	return out\n"))
R("s1-key-conv", ("yaml/signer/signer.go", "	return []byte(s)\n", "	var k Key\n	return append(k, s...)\n"))
# decoders, transforms and printers written another way
R("x4-push-early", ("yaml/push.go", """	d := new(push)
	err := unmarshal(&d.Image)
	if err != nil {
		err = unmarshal(d)
	}
	p.Image = d.Image
	return err
""", """	var long push
	if unmarshal(&long.Image) == nil {
		p.Image = long.Image
		return nil
	}
	err := unmarshal(&long)
	p.Image = long.Image
	return err
"""))
R("x4-push-conv", ("yaml/push.go", """	p.Image = d.Image
	return err
""", """	*p = Push(*d)
	return err
"""))
R("x4-env-defer", ("yaml/env.go", """	d := new(variable)
	err := unmarshal(&d.Value)
	if err != nil {
		err = unmarshal(d)
	}
	v.Value = d.Value
	v.Secret = d.Secret
	return err
""", """	d := variable{}
	defer func() {
		v.Value, v.Secret = d.Value, d.Secret
	}()
	if err := unmarshal(&d.Value); err == nil {
		return nil
	}
	return unmarshal(&d)
"""))
R("x4-env-marshal", ("yaml/env.go", """	if v.Secret != "" {
		m := map[string]interface{}{}
		m["from_secret"] = v.Secret
		return m, nil
	}
	if v.Value != "" {
		return v.Value, nil
	}
	return nil, nil
""", """	switch {
	case len(v.Secret) > 0:
		return map[string]interface{}{"from_secret": v.Secret}, nil
	case len(v.Value) > 0:
		return v.Value, nil
	default:
		return nil, nil
	}
"""))
R("x4-param-named", ("yaml/param.go", """	d := new(parameter)
	err := unmarshal(d)
	if err == nil && d.Secret != "" {
		p.Secret = d.Secret
		return nil
	}
	var i interface{}
	err = unmarshal(&i)
	p.Value = i
	return err
""", """	if secret, ok := secretRef(unmarshal); ok {
		p.Secret = secret
		return nil
	}
	var i interface{}
	err := unmarshal(&i)
	p.Value = i
	return err
"""), ("yaml/param.go", "// MarshalYAML implements yaml marshalling.\n", """func secretRef(unmarshal func(interface{}) error) (name string, ok bool) {
	var d parameter
	if err := unmarshal(&d); err != nil {
		return "", false
	}
	return d.Secret, d.Secret != ""
}

// MarshalYAML implements yaml marshalling.
"""))
R("x4-param-marshal", ("yaml/param.go", """	if p.Value != "" {
		return p.Value, nil
	}
	return nil, nil
""", """	if s, ok := p.Value.(string); ok && s == "" {
		return nil, nil
	}
	return p.Value, nil
"""))
R("x4-build-literal", ("yaml/build.go", """	b.Args = d.Args
	b.CacheFrom = d.CacheFrom
	b.Context = d.Context
	b.Dockerfile = d.Dockerfile
	b.Labels = d.Labels
	b.Image = d.Image
	return err
""", """	*b = Build{
		Args:       d.Args,
		CacheFrom:  d.CacheFrom,
		Context:    d.Context,
		Dockerfile: d.Dockerfile,
		Image:      d.Image,
		Labels:     d.Labels,
	}
	return err
"""))
R("x4-build-short", ("yaml/build.go", """	d := new(build)
	err := unmarshal(&d.Image)
	if err != nil {
		err = unmarshal(d)
	}
""", """	var (
		d    build
		err  = unmarshal(&d.Image)
		long = err != nil
	)
	if long {
		err = unmarshal(&d)
	}
"""))
R("x4-port-ptr", ("yaml/port.go", """		err = unmarshal(&out)
""", """		err = unmarshal(out)
"""))
R("x4-port-conv", ("yaml/port.go", """	p.Port = out.Port
	p.Host = out.Host
	p.Protocol = out.Protocol
	return err
""", """	*p = Port(*out)
	return err
"""))
R("x4-unit-helper", ("yaml/unit.go", """	intType, err := units.RAMInBytes(stringType)
	if err == nil {
		*b = BytesSize(intType)
	}
	return err
""", """	return b.parse(stringType)
"""), ("yaml/unit.go", "// String returns a human-readable", """func (b *BytesSize) parse(s string) error {
	n, err := units.RAMInBytes(s)
	if err != nil {
		return err
	}
	*b = BytesSize(n)
	return nil
}

// String returns a human-readable"""))
R("x4-unit-direct", ("yaml/unit.go", """	var intType int64
	if err := unmarshal(&intType); err == nil {
		*b = BytesSize(intType)
		return nil
	}

	var stringType string
	if err := unmarshal(&stringType); err != nil {
		return err
	}

	intType, err := units.RAMInBytes(stringType)
	if err == nil {
		*b = BytesSize(intType)
	}
	return err
""", """	var n int64
	err := unmarshal(&n)
	if err != nil {
		var s string
		if err = unmarshal(&s); err != nil {
			return err
		}
		if n, err = units.RAMInBytes(s); err != nil {
			return err
		}
	}
	*b = BytesSize(n)
	return nil
"""))
R("x4-slicemap-index", ("yaml/converter/legacy/internal/slice_map.go", """		parts := strings.SplitN(v, "=", 2)
		if len(parts) == 2 {
			key := parts[0]
			val := parts[1]
			s.Map[key] = val
		}
""", """		i := strings.Index(v, "=")
		if i < 0 {
			continue
		}
		s.Map[v[:i]] = v[i+1:]
"""))
R("x4-slicemap-local", ("yaml/converter/legacy/internal/slice_map.go", """	for _, v := range slice {
		parts := strings.SplitN(v, "=", 2)
		if len(parts) == 2 {
			key := parts[0]
			val := parts[1]
			s.Map[key] = val
		}
	}
	return nil
""", """	for i := range slice {
		if key, val, ok := pair(slice[i]); ok {
			s.Map[key] = val
		}
	}
	return nil
}

func pair(v string) (key, val string, ok bool) {
	parts := strings.SplitN(v, "=", 2)
	if len(parts) < 2 {
		return "", "", false
	}
	return parts[0], parts[1], true
"""))
R("x4-constraint-nested", ("yaml/converter/legacy/internal/constraint.go", """	err := unmarshal(&out2)
	if err != nil {
		err = unmarshal(&out1)
	}
	if err != nil {
		return err
	}

	c.Exclude = out1.Exclude
	c.Include = append(
		out1.Include,
		out2...,
	)
	return nil
""", """	if unmarshal(&out2) != nil {
		if err := unmarshal(&out1); err != nil {
			return err
		}
	}
	c.Include = append(out1.Include, out2...)
	c.Exclude = out1.Exclude
	return nil
"""))
R("x4-strslice-first", ("yaml/converter/legacy/internal/string_slice.go", """	var sliceType []string
	if err := unmarshal(&sliceType); err != nil {
		return err
	}
	*s = sliceType
	return nil
""", """	var sliceType []string
	err := unmarshal(&sliceType)
	if err == nil {
		*s = StringSlice(sliceType)
	}
	return err
"""))
R("x4-containers-helper", ("yaml/converter/legacy/internal/container.go", """	for _, s := range slice {
		container := Container{}
		out, _ := yaml.Marshal(s.Value)

		if err := yaml.Unmarshal(out, &container); err != nil {
			return err
		}
		container.Name = fmt.Sprintf("%v", s.Key)
		c.Containers = append(c.Containers, &container)
	}
	return nil
""", """	for i := range slice {
		container, err := decode(slice[i].Value)
		if err != nil {
			return err
		}
		container.Name = fmt.Sprint(slice[i].Key)
		c.Containers = append(c.Containers, container)
	}
	return nil
}

func decode(v interface{}) (*Container, error) {
	out, _ := yaml.Marshal(v)
	container := new(Container)
	err := yaml.Unmarshal(out, container)
	if err != nil {
		return nil, err
	}
	return container, nil
"""))
R("x4-volume-switch", ("yaml/converter/legacy/internal/volume.go", """	switch {
	case len(parts) == 2:
		v.Source = parts[0]
		v.Destination = parts[1]
	case len(parts) == 3:
		v.Source = parts[0]
		v.Destination = parts[1]
		v.ReadOnly = parts[2] == "ro"
	}
	return nil
""", """	if len(parts) < 2 {
		return nil
	}
	v.Source, v.Destination = parts[0], parts[1]
	if len(parts) > 2 && parts[2] == "ro" {
		v.ReadOnly = true
	}
	return nil
"""))
R("x4-secrets-flip", ("yaml/converter/legacy/internal/secret.go", """	err := unmarshal(&strslice)
	if err == nil {
		for _, str := range strslice {
			s.Secrets = append(s.Secrets, &Secret{
				Source: str,
				Target: str,
			})
		}
		return nil
	}
	return unmarshal(&s.Secrets)
""", """	if err := unmarshal(&strslice); err != nil {
		return unmarshal(&s.Secrets)
	}
	for i := 0; i < len(strslice); i++ {
		item := new(Secret)
		item.Source, item.Target = strslice[i], strslice[i]
		s.Secrets = append(s.Secrets, item)
	}
	return nil
"""))
R("x4-image-literal", ("yaml/converter/gitlab/config.go", """	err = unmarshal(&data)
	if err != nil {
		return err
	}
	i.Name = data.Name
	i.Entrypoint = data.Entrypoint
	i.Command = data.Command
	i.Alias = data.Alias
	return nil
""", """	if err = unmarshal(&data); err == nil {
		*i = Image{
			Name:       data.Name,
			Entrypoint: data.Entrypoint,
			Command:    data.Command,
			Alias:      data.Alias,
		}
	}
	return err
"""))
R("x4-bb-steps", ("yaml/converter/bitbucket/convert.go", """		to := toContainer(from)
		// defaults to the global image if the
		// step does not define an image.
		if to.Image == "" {
			to.Image = config.Image
		}
		if to.Name == "" {
			to.Name = fmt.Sprintf("step_%d", i)
		}
		pipeline.Steps = append(pipeline.Steps, to)
""", """		to := toContainer(from)
		to.Name = orDefault(to.Name, "step_"+strconv.Itoa(i))
		to.Image = orDefault(to.Image, config.Image)
		pipeline.Steps = append(pipeline.Steps, to)
"""), ("yaml/converter/bitbucket/convert.go", """func toContainer(""", """func orDefault(s, def string) string {
	if len(s) != 0 {
		return s
	}
	return def
}

func toContainer("""), ("yaml/converter/bitbucket/convert.go", "	\"fmt\"\n", "	\"strconv\"\n"))
R("x4-bb-services", ("yaml/converter/bitbucket/convert.go", """	var names []string
	for name, from := range config.Definitions.Services {
		if from != nil {
			names = append(names, name)
		}
	}
	sort.Strings(names)

	for _, name := range names {
		from := config.Definitions.Services[name]
		to := toContainer(from)
""", """	names := make([]string, 0, len(config.Definitions.Services))
	for name := range config.Definitions.Services {
		names = append(names, name)
	}
	sort.Strings(names)

	for _, name := range names {
		from := config.Definitions.Services[name]
		if from == nil {
			continue
		}
		to := toContainer(from)
"""))
R("x4-bb-pick", ("yaml/converter/bitbucket/config.go", """	tag := strings.TrimPrefix(ref, "refs/tags/")
	for _, pattern := range sortedKeys(c.Pipelines.Tags) {
		if ok, _ := path.Match(pattern, tag); ok {
			return c.Pipelines.Tags[pattern]
		}
	}
	// match pipeline by branch name
	branch := strings.TrimPrefix(ref, "refs/heads/")
	for _, pattern := range sortedKeys(c.Pipelines.Branches) {
		if ok, _ := path.Match(pattern, branch); ok {
			return c.Pipelines.Branches[pattern]
		}
	}
	// use default
	return c.Pipelines.Default
""", """	if stage, ok := pick(c.Pipelines.Tags, strings.TrimPrefix(ref, "refs/tags/")); ok {
		return stage
	}
	if stage, ok := pick(c.Pipelines.Branches, strings.TrimPrefix(ref, "refs/heads/")); ok {
		return stage
	}
	return c.Pipelines.Default
"""), ("yaml/converter/bitbucket/config.go", "// helper function returns the patterns", """func pick(stages map[string]Stage, name string) (Stage, bool) {
	for _, pattern := range sortedKeys(stages) {
		if ok, err := path.Match(pattern, name); err == nil && ok {
			return stages[pattern], true
		}
	}
	return Stage{}, false
}

// helper function returns the patterns"""))
R("x4-bb-stage", ("yaml/converter/bitbucket/config.go", """	for _, step := range in {
		if step.Step == nil {
			continue
		}
		s.Steps = append(s.Steps, step.Step)
	}
	return nil
""", """	steps := s.Steps
	for i := range in {
		if step := in[i].Step; step != nil {
			steps = append(steps, step)
		}
	}
	s.Steps = steps
	return nil
"""))
R("x4-win-fprintf", ("yaml/compiler/script_win.go", """		buf.WriteString(fmt.Sprintf(
			traceScriptWin,
			escaped,
			command,
		))
""", """		fmt.Fprintf(&buf, traceScriptWin, escaped, command)
"""))
R("x4-win-replacer", ("yaml/compiler/script_win.go", """		escaped = strings.Replace(escaped, "$", `\\$`, -1)
		escaped = strings.Replace(escaped, "'", "''", -1)
""", """		escaped = strings.NewReplacer("'", "''", "$", "\\\\$").Replace(escaped)
"""))
R("x4-win-helper", ("yaml/compiler/script_win.go", """	var buf bytes.Buffer
	for _, command := range src.Commands {
""", """	script := fmt.Sprintf(buildScriptWin, traceWin(src.Commands))
	dst.Docker.Command = []string{"powershell", "-noprofile", "-noninteractive", "-command"}
	dst.Docker.Args = []string{"[System.Text.Encoding]::UTF8.GetString([System.Convert]::FromBase64String($Env:CI_SCRIPT)) | iex"}
	dst.Envs["CI_SCRIPT"] = base64.StdEncoding.EncodeToString([]byte(script))
	dst.Envs["SHELL"] = "powershell.exe"
}

func traceWin(commands []string) string {
	var buf strings.Builder
	for _, command := range commands {
"""), ("yaml/compiler/script_win.go", """	script := fmt.Sprintf(
		buildScriptWin,
		buf.String(),
	)
	dst.Docker.Command = []string{"powershell", "-noprofile", "-noninteractive", "-command"}
	dst.Docker.Args = []string{"[System.Text.Encoding]::UTF8.GetString([System.Convert]::FromBase64String($Env:CI_SCRIPT)) | iex"}
	dst.Envs["CI_SCRIPT"] = base64.StdEncoding.EncodeToString([]byte(script))
	dst.Envs["SHELL"] = "powershell.exe"
""", "	return buf.String()\n"), ("yaml/compiler/script_win.go", "	\"bytes\"\n", ""))
TR = "yaml/compiler/transform/"
R("x4-auths-func", (TR+"auths.go", """		auths := f()
		if len(auths) != 0 {
			spec.Docker.Auths = append(spec.Docker.Auths, auths...)
		}
""", """		WithAuths(f())(spec)
"""))
R("x4-auths-loop", (TR+"auths.go", """	return func(spec *engine.Spec) {
		spec.Docker.Auths = append(spec.Docker.Auths, auths...)
	}
""", """	return func(spec *engine.Spec) {
		docker := spec.Docker
		for i := range auths {
			docker.Auths = append(docker.Auths, auths[i])
		}
	}
"""))
R("x4-limits-helper", (TR+"limits.go", """			if step.Resources == nil {
				step.Resources = &engine.Resources{}
			}
			if step.Resources.Limits == nil {
				step.Resources.Limits = &engine.ResourceObject{}
			}
			step.Resources.Limits.Memory = memlimit
			step.Resources.Limits.CPU = cpulimit
""", """			limits := limitsOf(step)
			limits.CPU, limits.Memory = cpulimit, memlimit
"""), (TR+"limits.go", "// WithLimits is", """func limitsOf(step *engine.Step) *engine.ResourceObject {
	res := step.Resources
	if res == nil {
		res = new(engine.Resources)
		step.Resources = res
	}
	if res.Limits == nil {
		res.Limits = new(engine.ResourceObject)
	}
	return res.Limits
}

// WithLimits is"""))
R("x4-limits-noop", (TR+"limits.go", """	return func(spec *engine.Spec) {
		// if no limits are defined exit immediately.
		if memlimit == 0 && cpulimit == 0 {
			return
		}
""", """	if memlimit == 0 && cpulimit == 0 {
		return func(*engine.Spec) {}
	}
	return func(spec *engine.Spec) {
"""))
R("x4-limits-literal", (TR+"limits.go", """			if step.Resources.Limits == nil {
				step.Resources.Limits = &engine.ResourceObject{}
			}
			step.Resources.Limits.Memory = memlimit
			step.Resources.Limits.CPU = cpulimit
""", """			if limits := step.Resources.Limits; limits != nil {
				limits.Memory = memlimit
				limits.CPU = cpulimit
			} else {
				step.Resources.Limits = &engine.ResourceObject{
					Memory: memlimit,
					CPU:    cpulimit,
				}
			}
"""))
R("x4-labels-helper", (TR+"labels.go", """		for k, v := range labels {
			spec.Metadata.Labels[k] = v
		}
		for _, resource := range spec.Docker.Volumes {
			for k, v := range labels {
				resource.Metadata.Labels[k] = v
			}
		}
		for _, resource := range spec.Steps {
			for k, v := range labels {
				resource.Metadata.Labels[k] = v
			}
		}
""", """		merge := func(to map[string]string) {
			for k := range labels {
				to[k] = labels[k]
			}
		}
		for _, step := range spec.Steps {
			merge(step.Metadata.Labels)
		}
		for _, volume := range spec.Docker.Volumes {
			merge(volume.Metadata.Labels)
		}
		merge(spec.Metadata.Labels)
"""))
R("x4-labels-flip", (TR+"labels.go", """		for _, resource := range spec.Steps {
			for k, v := range labels {
				resource.Metadata.Labels[k] = v
			}
		}
""", """		for k, v := range labels {
			for i := range spec.Steps {
				spec.Steps[i].Metadata.Labels[k] = v
			}
		}
"""))
R("x4-environ-flip", (TR+"env.go", """		for key, value := range envs {
			for _, step := range spec.Steps {
				step.Envs[key] = value
			}
		}
""", """		for _, step := range spec.Steps {
			for key, value := range envs {
				step.Envs[key] = value
			}
		}
"""))
R("x4-combine-index", (TR+"combine.go", """		for _, fn := range fns {
			fn(spec)
		}
""", """		for i := 0; i < len(fns); i++ {
			fns[i](spec)
		}
"""))
R("x4-volumes-order", (TR+"volume.go", """			spec.Docker.Volumes = append(spec.Docker.Volumes, volume)
			for _, step := range spec.Steps {
				mount := &engine.VolumeMount{
					Name: volume.Metadata.Name,
					Path: value,
				}
				step.Volumes = append(step.Volumes, mount)
			}
""", """			for _, step := range spec.Steps {
				step.Volumes = append(step.Volumes, &engine.VolumeMount{
					Path: value,
					Name: volume.Metadata.Name,
				})
			}
			spec.Docker.Volumes = append(spec.Docker.Volumes, volume)
"""))
R("x4-volslice", (TR+"volume.go", """		parts := strings.Split(s, ":")
		if len(parts) != 2 {
			continue
		}
		key := parts[0]
		val := parts[1]
		to[key] = val
""", """		if parts := strings.Split(s, ":"); len(parts) == 2 {
			to[parts[0]] = parts[1]
		}
"""))
R("x4-secrets-two", (TR+"secret.go", """			secret := f(name)
			if secret != nil {
				secret.Metadata.UID = rand.String()
				secret.Metadata.Namespace = spec.Metadata.Namespace
				spec.Secrets = append(spec.Secrets, secret)
			}
""", """			secret := f(name)
			if secret == nil {
				continue
			}
			meta := &secret.Metadata
			meta.Namespace = spec.Metadata.Namespace
			meta.UID = rand.String()
			spec.Secrets = append(spec.Secrets, secret)
"""))
R("x4-secret-names", (TR+"secret.go", """		set := map[string]struct{}{}
		var names []string
		for _, step := range spec.Steps {
			// if we know the step is not going to run,
			// we can ignore any secrets that it requires.
			if step.RunPolicy == engine.RunNever {
				continue
			}
			for _, v := range step.Secrets {
				if _, ok := set[v.Name]; ok {
					continue
				}
				set[v.Name] = struct{}{}
				names = append(names, v.Name)
			}
		}
""", """		names := required(spec)
"""), (TR+"secret.go", "// SecretFunc is a callback", """func required(spec *engine.Spec) (names []string) {
	seen := map[string]bool{}
	for _, step := range spec.Steps {
		if step.RunPolicy != engine.RunNever {
			for _, v := range step.Secrets {
				if !seen[v.Name] {
					seen[v.Name] = true
					names = append(names, v.Name)
				}
			}
		}
	}
	return names
}

// SecretFunc is a callback"""))
R("x4-netrc-loop", (TR+"netrc.go", """			step.Envs["CI_NETRC_MACHINE"] = machine
			step.Envs["CI_NETRC_USERNAME"] = username
			step.Envs["CI_NETRC_PASSWORD"] = password

			step.Envs["DRONE_NETRC_MACHINE"] = machine
			step.Envs["DRONE_NETRC_USERNAME"] = username
			step.Envs["DRONE_NETRC_PASSWORD"] = password
""", """			for _, prefix := range [...]string{"CI_NETRC_", "DRONE_NETRC_"} {
				step.Envs[prefix+"MACHINE"] = machine
				step.Envs[prefix+"USERNAME"] = username
				step.Envs[prefix+"PASSWORD"] = password
			}
"""))
PR = "yaml/pretty/"
R("x4-registry-keys", (PR+"registry.go", """	var keys []string
	for k := range v {
		keys = append(keys, k)
	}
	sort.Strings(keys)

	w.WriteTag("data")
	w.IndentIncrease()
	for _, k := range keys {
		printFolded(w, k, v[k])
	}
	w.IndentDecrease()
""", """	w.WriteTag("data")
	w.IndentIncrease()
	for _, k := range sortedData(v) {
		printFolded(w, k, v[k])
	}
	w.IndentDecrease()
}

func sortedData(v map[string]string) []string {
	keys := make([]string, 0, len(v))
	for k := range v {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	return keys
"""))
R("x4-header", (PR+"cron.go", """	w.WriteString("---")
	w.WriteTagValue("version", v.Version)
	w.WriteTagValue("kind", v.Kind)
	w.WriteTagValue("type", v.Type)
	w.WriteTagValue("name", v.Name)
	printSpec(w, v)
	w.WriteByte('\\n')
	w.WriteByte('\\n')
""", """	printHeader(w, v.Version, v.Kind, v.Type)
	w.WriteTagValue("name", v.Name)
	printSpec(w, v)
	w.WriteString("\\n\\n")
"""), (PR+"cron.go", "// helper function pretty prints the spec block.", """func printHeader(w writer, version, kind, typ string) {
	w.WriteString("---")
	for _, tag := range []struct{ name, value string }{
		{"version", version},
		{"kind", kind},
		{"type", typ},
	} {
		w.WriteTagValue(tag.name, tag.value)
	}
}

// helper function pretty prints the spec block."""))
R("x4-hasdeploy", (PR+"cron.go", "	if hasDeployment(v) {\n		printDeploy(w, v)\n	}\n", "	printDeploy(w, v)\n"), (PR+"cron.go", "	w.WriteTag(\"deployment\")\n", "	if !hasDeployment(v) {\n		return\n	}\n	w.WriteTag(\"deployment\")\n"))
R("x4-secret-empty", (PR+"secret.go", """	return v.Key == "" &&
		v.Name == "" &&
		v.Path == ""
""", """	return v == yaml.SecretGet{}
""".replace("v == yaml.SecretGet{}", "v == (yaml.SecretGet{})")))
R("x4-folded", (PR+"secret.go", """	w.WriteByte(' ')
	w.WriteByte('>')
	w.IndentIncrease()
	d = spaceReplacer.Replace(d)
	for _, s := range chunk(d, 60) {
		w.WriteByte('\\n')
		w.Indent()
		w.WriteString(s)
	}
	w.IndentDecrease()
""", """	w.WriteString(" >")
	w.IndentIncrease()
	defer w.IndentDecrease()
	lines := chunk(spaceReplacer.Replace(d), 60)
	for i := range lines {
		w.WriteByte('\\n')
		w.Indent()
		w.WriteString(lines[i])
	}
"""))
R("x4-print-one", (PR+"pretty.go", """	for _, r := range v.Resources {
		switch t := r.(type) {
		case *yaml.Cron:
			printCron(state, t)
		case *yaml.Registry:
			printRegistry(state, t)
		case *yaml.Secret:
			printSecret(state, t)
		case *yaml.Signature:
			printSignature(state, t)
		case *yaml.Pipeline:
			printPipeline(state, t)
		}
	}
	state.WriteString("...")
	state.WriteByte('\\n')
	w.Write(state.Bytes())
}
""", """	for i := range v.Resources {
		printResource(state, v.Resources[i])
	}
	state.WriteString("...\\n")
	w.Write(state.Bytes())
}

func printResource(w writer, r yaml.Resource) {
	switch t := r.(type) {
	case *yaml.Pipeline:
		printPipeline(w, t)
	case *yaml.Secret:
		printSecret(w, t)
	case *yaml.Registry:
		printRegistry(w, t)
	case *yaml.Signature:
		printSignature(w, t)
	case *yaml.Cron:
		printCron(w, t)
	}
}
"""))
R("x4-cron-validate", ("yaml/cron.go", """	switch {
	case c.Spec.Branch == "":
		return errors.New("yaml: invalid cron branch")
	default:
		return nil
	}
""", """	if len(c.Spec.Branch) > 0 {
		return nil
	}
	return errors.New("yaml: invalid cron branch")
"""))
R("x4-secret-validate", ("yaml/secret.go", """	if len(s.Data) == 0 && len(s.Get.Path) == 0 && len(s.Get.Name) == 0 {
		return errors.New("yaml: invalid secret resource")
	}
	return nil
""", """	inline, external := s.Data != "", s.Get.Path != "" || s.Get.Name != ""
	if inline || external {
		return nil
	}
	return errors.New("yaml: invalid secret resource")
"""))
R("x4-slicemap-cut", ("yaml/converter/legacy/internal/slice_map.go", """		parts := strings.SplitN(v, "=", 2)
		if len(parts) == 2 {
			key := parts[0]
			val := parts[1]
			s.Map[key] = val
		}
""", """		if key, val, ok := strings.Cut(v, "="); ok {
			s.Map[key] = val
		}
"""))
R("x4-slicemap-contains", ("yaml/converter/legacy/internal/slice_map.go", """		parts := strings.SplitN(v, "=", 2)
		if len(parts) == 2 {
			key := parts[0]
			val := parts[1]
			s.Map[key] = val
		}
""", """		if !strings.Contains(v, "=") {
			continue
		}
		parts := strings.SplitN(v, "=", 2)
		s.Map[parts[0]] = parts[1]
"""))
R("x4-cli-cutprefix", ("main.go", """	if strings.HasPrefix(*ref, "refs/tags/") {
		envs["DRONE_TAG"] = strings.TrimPrefix(*ref, "refs/tags/")
""", """	if tag, ok := strings.CutPrefix(*ref, "refs/tags/"); ok {
		envs["DRONE_TAG"] = tag
"""))
R("x4-cli-slice", ("main.go", """	if strings.HasPrefix(*ref, "refs/tags/") {
		envs["DRONE_TAG"] = strings.TrimPrefix(*ref, "refs/tags/")
""", """	const tags = "refs/tags/"
	if r := *ref; strings.HasPrefix(r, tags) {
		envs["DRONE_TAG"] = r[len(tags):]
"""))
R("x4-value-index", ("yaml/converter/legacy/internal/config.go", """strings.Contains(value, "\\n")""", """strings.IndexByte(value, '\\n') != -1"""))
# rarer ways to write the same
SG = "yaml/signer/signer.go"
R("x6-sign-filter", (SG, """	h := hmac.New(sha256.New, key)
	for _, r := range resources {
		if r.Kind != yaml.KindSignature {
			h.Write(r.Data)
		}
	}
	return h.Sum(nil), nil
""", """	h := hmac.New(sha256.New, key)
	eachUnsigned(resources, func(data []byte) {
		h.Write(data)
	})
	return h.Sum(nil), nil
"""), (SG, "// helper function inserts or updates", """func eachUnsigned(resources []*yaml.RawResource, fn func([]byte)) {
	for _, r := range resources {
		if r.Kind == yaml.KindSignature {
			continue
		}
		fn(r.Data)
	}
}

// helper function inserts or updates"""))
R("x6-sign-concat", (SG, """	h := hmac.New(sha256.New, key)
	for _, r := range resources {
		if r.Kind != yaml.KindSignature {
			h.Write(r.Data)
		}
	}
	return h.Sum(nil), nil
""", """	var payload []byte
	for _, r := range resources {
		if r.Kind != yaml.KindSignature {
			payload = append(payload, r.Data...)
		}
	}
	h := hmac.New(sha256.New, key)
	h.Write(payload)
	return h.Sum(nil), nil
"""))
R("x6-update-upsert", (SG, """	var buf bytes.Buffer
	for _, r := range res {
		if r.Kind != yaml.KindSignature {
			buf.WriteString("---")
			buf.WriteByte('\\n')
			buf.Write(r.Data)
		}
	}

	buf.WriteString("---")
	buf.WriteByte('\\n')
	buf.WriteString("kind: signature")
	buf.WriteByte('\\n')
	buf.WriteString("hmac: " + hex.EncodeToString(hmac))
	buf.WriteByte('\\n')
	buf.WriteByte('\\n')
	buf.WriteString("...")
	buf.WriteByte('\\n')
	return buf.Bytes(), nil
""", """	return upsert(res, hex.EncodeToString(hmac)), nil
"""))
R("x6-extract-find", (SG, """	for _, r := range res {
		if r.Kind == yaml.KindSignature {
			out := new(yaml.Signature)
			err := goyaml.Unmarshal(r.Data, out)
			if err != nil {
				return nil, err
			}
			return hex.DecodeString(out.Hmac)
		}
	}
	return nil, errors.New("yaml: missing signature")
""", """	r := find(res)
	if r == nil {
		return nil, errors.New("yaml: missing signature")
	}
	var out yaml.Signature
	if err := goyaml.Unmarshal(r.Data, &out); err != nil {
		return nil, err
	}
	return hex.DecodeString(out.Hmac)
}

func find(res []*yaml.RawResource) *yaml.RawResource {
	for i := range res {
		if res[i].Kind == yaml.KindSignature {
			return res[i]
		}
	}
	return nil
"""))
R("x6-quoted-labels", ("yaml/pretty/util.go", """	switch r0 {
	// if the yaml starts with any of these characters
	// the string should be quoted.
	case ',', '[', ']', '{', '}', '*', '"', '\\'', '%', '@', '`', '|', '>', '#':
		return true

	case '&', '!', '-', ':', '?':
		// if the yaml starts with any of these characters,
		// followed by whitespace, the string should be quoted.
		if r1 == ' ' {
			return true
		}
	}
""", """	if strings.IndexByte(",[]{}*\\"'%@`|>#", r0) >= 0 {
		return true
	}
	if r1 == ' ' && (r0 == '&' || r0 == '!' || r0 == '-' || r0 == ':' || r0 == '?') {
		return true
	}
"""))
R("x6-manifest-labels", (LC, """	for _, resource := range manifest.Resources {
		switch v := resource.(type) {
		case *yaml.Pipeline:
			_, ok := names[v.Name]
			if ok {
				return ErrDuplicatePipelineName
			}
			names[v.Name] = struct{}{}
			err := checkPipelineDeps(v, names)
			if err != nil {
				return err
			}
			if (v.Kind == "pipeline" || v.Kind == "") && (v.Type == "" || v.Type == "docker") {
				err = checkPlatform(v.Platform)
				if err != nil {
					return err
				}
			}
		}
	}
	return nil
}
""", """	c := manifestChecker{names: names}
	for _, resource := range manifest.Resources {
		if err := c.check(resource); err != nil {
			return err
		}
	}
	return nil
}

type manifestChecker struct {
	names map[string]struct{}
}

func (c *manifestChecker) check(resource yaml.Resource) error {
	v, ok := resource.(*yaml.Pipeline)
	if !ok {
		return nil
	}
	if _, dup := c.names[v.Name]; dup {
		return ErrDuplicatePipelineName
	}
	c.names[v.Name] = struct{}{}
	if err := checkPipelineDeps(v, c.names); err != nil {
		return err
	}
	if !isDocker(v) {
		return nil
	}
	return checkPlatform(v.Platform)
}

func isDocker(v *yaml.Pipeline) bool {
	switch v.Kind {
	case "", "pipeline":
	default:
		return false
	}
	return v.Type == "" || v.Type == "docker"
}
"""))
R("x6-deps-goto", (LC, """		_, ok := deps[dep]
		if !ok {
			return ErrMissingPipelineDependency
		}
		if pipeline.Name == dep {
			return ErrPipelineSelfDependency
		}
""", """		switch _, ok := deps[dep]; {
		case !ok:
			return ErrMissingPipelineDependency
		case pipeline.Name == dep:
			return ErrPipelineSelfDependency
		}
"""))
R("x6-step-builder", (ST, """	// appends the volumes to the container def.
	for _, vol := range src.Volumes {
		if vol == nil {
			continue
		}
		// the user should never be able to directly
		// mount the docker socket. This should be
		// restricted by the linter, but we place this
		// check here just to be safe.
		if vol.Name == "_docker_socket" {
			continue
		}
		mount := &engine.VolumeMount{
			Name: vol.Name,
			Path: vol.MountPath,
		}
		dst.Volumes = append(dst.Volumes, mount)
	}
""", """	addMounts(&dst.Volumes, src.Volumes...)
"""), (ST, "func createStep(", """func addMounts(to *[]*engine.VolumeMount, volumes ...*yaml.VolumeMount) {
	for _, vol := range volumes {
		if vol == nil || vol.Name == "_docker_socket" {
			continue
		}
		*to = append(*to, &engine.VolumeMount{Name: vol.Name, Path: vol.MountPath})
	}
}

func createStep("""))
R("x6-step-setter", (ST, """		if value.Secret != "" {
			sec := &engine.SecretVar{
				Name: value.Secret,
				Env:  key,
			}
			dst.Secrets = append(dst.Secrets, sec)
		} else {
			dst.Envs[key] = value.Value
		}
	}

	// appends the settings""", """		setVariable(dst, key, value)
	}

	// appends the settings"""), (ST, "func createStep(", """func setVariable(dst *engine.Step, key string, v *yaml.Variable) {
	if v.Secret == "" {
		dst.Envs[key] = v.Value
		return
	}
	dst.Secrets = append(dst.Secrets, &engine.SecretVar{Name: v.Secret, Env: key})
}

func createStep("""))
R("x6-step-merged", (ST, """	var envs []string
	for key := range src.Environment {
		envs = append(envs, key)
	}
	sort.Strings(envs)
	for _, key := range envs {
""", """	var envs []string
	collect := func(key string) { envs = append(envs, key) }
	for key := range src.Environment {
		collect(key)
	}
	sort.Sort(sort.StringSlice(envs))
	for _, key := range envs {
"""))
R("x6-dup-labels", (L, """	for _, container := range pipeline.Services {
		if container == nil {
			continue
		}
		_, ok := names[container.Name]
		if ok {
			return ErrDuplicateStepName
		}
		names[container.Name] = struct{}{}

		err := checkContainer(container, trusted)
		if err != nil {
			return err
		}
	}
	return nil
}""", """services:
	for _, container := range pipeline.Services {
		switch {
		case container == nil:
			continue services
		default:
			if _, ok := names[container.Name]; ok {
				return ErrDuplicateStepName
			}
			names[container.Name] = struct{}{}
		}
		if err := checkContainer(container, trusted); err != nil {
			return err
		}
	}
	return nil
}"""))

# x7: pretty printer, parser, manifest, gitlab, compiler driver
PCn = "yaml/pretty/container.go"; PPl = "yaml/pretty/pipeline.go"; PWr = "yaml/pretty/writer.go"; PUt = "yaml/pretty/util.go"
R("x7-item-helper", (PPl, """		w.WriteTag("steps")
		for _, step := range v.Steps {
			if step == nil {
				continue
			}
			seq := new(indexWriter)
			seq.writer = w
			seq.IndentIncrease()
			printContainer(seq, step)
			seq.IndentDecrease()
		}
""", """		printContainers(w, "steps", v.Steps)
"""), (PPl, """		w.WriteTag("services")
		for _, step := range v.Services {
			if step == nil {
				continue
			}
			seq := new(indexWriter)
			seq.writer = w
			seq.IndentIncrease()
			printContainer(seq, step)
			seq.IndentDecrease()
		}
""", """		printContainers(w, "services", v.Services)
"""), (PPl, "// helper function pretty prints the clone block.\nfunc printClone(", """func printContainers(w writer, tag string, list []*yaml.Container) {
	w.WriteTag(tag)
	for i := range list {
		if c := list[i]; c != nil {
			item(w, func(seq writer) {
				printContainer(seq, c)
			})
		}
	}
}

func item(w writer, body func(writer)) {
	seq := &indexWriter{writer: w}
	seq.IndentIncrease()
	defer seq.IndentDecrease()
	body(seq)
}

// helper function pretty prints the clone block.
func printClone("""))
R("x7-conditions-table", (PPl, """	if !isConditionEmpty(v.Action) {
		printCondition(w, "action", v.Action)
	}
	if !isConditionEmpty(v.Branch) {
		printCondition(w, "branch", v.Branch)
	}
	if !isConditionEmpty(v.Cron) {
		printCondition(w, "cron", v.Cron)
	}
	if !isConditionEmpty(v.Event) {
		printCondition(w, "event", v.Event)
	}
	if !isConditionEmpty(v.Instance) {
		printCondition(w, "instance", v.Instance)
	}
	if !isConditionEmpty(v.Paths) {
		printCondition(w, "paths", v.Paths)
	}
	if !isConditionEmpty(v.Ref) {
		printCondition(w, "ref", v.Ref)
	}
	if !isConditionEmpty(v.Repo) {
		printCondition(w, "repo", v.Repo)
	}
	if !isConditionEmpty(v.Status) {
		printCondition(w, "status", v.Status)
	}
	if !isConditionEmpty(v.Target) {
		printCondition(w, "target", v.Target)
	}
""", """	for _, c := range []struct {
		key  string
		cond *yaml.Condition
	}{
		{"action", &v.Action},
		{"branch", &v.Branch},
		{"cron", &v.Cron},
		{"event", &v.Event},
		{"instance", &v.Instance},
		{"paths", &v.Paths},
		{"ref", &v.Ref},
		{"repo", &v.Repo},
		{"status", &v.Status},
		{"target", &v.Target},
	} {
		if isConditionEmpty(*c.cond) {
			continue
		}
		printCondition(w, c.key, *c.cond)
	}
"""))
R("x7-condition-switch", (PPl, """	if len(v.Include) != 0 && len(v.Exclude) == 0 {
		w.WriteByte('\\n')
		w.Indent()
		writeValue(w, v.Include)
	}
	if len(v.Include) != 0 && len(v.Exclude) != 0 {
		w.IndentIncrease()
		w.WriteTagValue("include", v.Include)
		w.IndentDecrease()
	}
	if len(v.Exclude) != 0 {
		w.IndentIncrease()
		w.WriteTagValue("exclude", v.Exclude)
		w.IndentDecrease()
	}
""", """	if len(v.Exclude) == 0 {
		if len(v.Include) == 0 {
			return
		}
		w.WriteByte('\\n')
		w.Indent()
		writeValue(w, v.Include)
		return
	}
	w.IndentIncrease()
	defer w.IndentDecrease()
	// zero values are not written
	w.WriteTagValue("include", v.Include)
	w.WriteTagValue("exclude", v.Exclude)
"""))
R("x7-platform-values", (PPl, """	if !isPlatformEmpty(v.Platform) {
		printPlatform(w, v.Platform)
	} else {
		printPlatformDefault(w)
	}
""", """	platform := v.Platform
	if platform == (yaml.Platform{}) {
		platform.OS, platform.Arch = "linux", "amd64"
	}
	printPlatform(w, platform)
"""), (PPl, """// helper function prints default platform values.
// Including target platform is considered a best-practive.
func printPlatformDefault(w writer) {
	w.WriteTag("platform")
	w.IndentIncrease()
	w.WriteTagValue("os", "linux")
	w.WriteTagValue("arch", "amd64")
	w.WriteByte('\\n')
	w.IndentDecrease()
}

""", ""), (PPl, """// helper function returns true if the platform
// object is empty.
func isPlatformEmpty(v yaml.Platform) bool {
	return v.OS == "" &&
		v.Arch == "" &&
		v.Variant == "" &&
		v.Version == ""
}

""", ""))
R("x7-print-method", (PPl, """		s.WriteTagValue("name", v.Name)
		if v := v.EmptyDir; v != nil {
			s.WriteTag("temp")
			if isEmptyDirEmpty(v) {
				w.WriteByte(' ')
				w.WriteByte('{')
				w.WriteByte('}')
			} else {
				s.IndentIncrease()
				s.WriteTagValue("medium", v.Medium)
				s.WriteTagValue("size_limit", v.SizeLimit)
				s.IndentDecrease()
			}
		}

		if v := v.HostPath; v != nil {
			s.WriteTag("host")
			s.IndentIncrease()
			s.WriteTagValue("path", v.Path)
			s.IndentDecrease()
		}
""", """		s.WriteTagValue("name", v.Name)
		printEmptyDir(s, v.EmptyDir)
		if host := v.HostPath; host != nil {
			s.WriteTag("host")
			s.IndentIncrease()
			s.WriteTagValue("path", host.Path)
			s.IndentDecrease()
		}
"""), (PPl, "// helper function pretty prints the workspace block.\n", """func printEmptyDir(w writer, dir *yaml.VolumeEmptyDir) {
	if dir == nil {
		return
	}
	w.WriteTag("temp")
	if isEmptyDirEmpty(dir) {
		w.WriteString(" {}")
		return
	}
	w.IndentIncrease()
	w.WriteTagValue("medium", dir.Medium)
	w.WriteTagValue("size_limit", dir.SizeLimit)
	w.IndentDecrease()
}

// helper function pretty prints the workspace block.
"""))
R("x7-env-secret", (PCn, """		if v.Secret == "" {
			w.IncludeZero()
			w.WriteTagValue(k, v.Value)
			w.ExcludeZero()
		} else {
			w.WriteTag(k)
			w.IndentIncrease()
			w.WriteTagValue("from_secret", v.Secret)
			w.IndentDecrease()
		}
	}
	w.IndentDecrease()
}

// helper function pretty prints the port""", """		if len(v.Secret) > 0 {
			printSecretRef(w, k, v.Secret)
			continue
		}
		w.IncludeZero()
		w.WriteTagValue(k, v.Value)
		w.ExcludeZero()
	}
	w.IndentDecrease()
}

func printSecretRef(w writer, key, name string) {
	w.WriteTag(key)
	w.IndentIncrease()
	w.WriteTagValue("from_secret", name)
	w.IndentDecrease()
}

// helper function pretty prints the port"""), (PCn, """		if v.Secret == "" {
			printSetting(w, k, v.Value)
		} else {
			w.WriteTag(k)
			w.IndentIncrease()
			w.WriteTagValue("from_secret", v.Secret)
			w.IndentDecrease()
		}
""", """		switch v.Secret {
		case "":
			printSetting(w, k, v.Value)
		default:
			printSecretRef(w, k, v.Secret)
		}
"""))
R("x7-env-keys", (PCn, """	var keys []string
	for k := range v {
		keys = append(keys, k)
	}
	sort.Strings(keys)

	w.WriteTag("environment")
	w.IndentIncrease()
	for _, k := range keys {
		v := v[k]
		if v == nil {
			continue
		}
""", """	keys := make([]string, 0, len(v))
	for k, item := range v {
		if item != nil {
			keys = append(keys, k)
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })

	w.WriteTag("environment")
	w.IndentIncrease()
	for _, k := range keys {
		v := v[k]
"""))
R("x7-limits-helper", (PCn, """	if v.Limits != nil {
		w.WriteTag("limits")
		w.IndentIncrease()
		w.WriteTagValue("cpu", v.Limits.CPU)
		w.WriteTagValue("memory", v.Limits.Memory)
		w.IndentDecrease()
	}
	if v.Requests != nil {
		w.WriteTag("requests")
		w.IndentIncrease()
		w.WriteTagValue("cpu", v.Requests.CPU)
		w.WriteTagValue("memory", v.Requests.Memory)
		w.IndentDecrease()
	}
	w.IndentDecrease()
""", """	for _, part := range []struct {
		tag string
		obj *yaml.ResourceObject
	}{{"limits", v.Limits}, {"requests", v.Requests}} {
		if part.obj == nil {
			continue
		}
		w.WriteTag(part.tag)
		w.IndentIncrease()
		w.WriteTagValue("cpu", part.obj.CPU)
		w.WriteTagValue("memory", part.obj.Memory)
		w.IndentDecrease()
	}
	w.IndentDecrease()
"""))
R("x7-ports-else", (PCn, """		if shortPort(v) {
			w.WriteByte('\\n')
			w.Indent()
			w.WriteByte('-')
			w.WriteByte(' ')
			writeInt(w, v.Port)
			continue
		}

		s := new(indexWriter)
		s.writer = w
		s.IndentIncrease()
		s.WriteTagValue("port", v.Port)
		s.WriteTagValue("host", v.Host)
		s.WriteTagValue("protocol", v.Protocol)
		s.IndentDecrease()
""", """		if !shortPort(v) {
			s := &indexWriter{writer: w}
			s.IndentIncrease()
			s.WriteTagValue("port", v.Port)
			s.WriteTagValue("host", v.Host)
			s.WriteTagValue("protocol", v.Protocol)
			s.IndentDecrease()
		} else {
			w.WriteByte('\\n')
			w.Indent()
			w.WriteString("- ")
			writeInt(w, v.Port)
		}
"""))
R("x7-short-build", (PCn, """	return len(b.Args) == 0 &&
		len(b.CacheFrom) == 0 &&
		len(b.Context) == 0 &&
		len(b.Dockerfile) == 0 &&
		len(b.Labels) == 0
""", """	extra := len(b.Args) + len(b.CacheFrom) + len(b.Labels)
	return extra == 0 && b.Context == "" && b.Dockerfile == ""
"""))
R("x7-tagvalue-shared", (PWr, """func (w *baseWriter) WriteTagValue(k, v interface{}) {
	if isZero(v) && w.zero == false {
		return
	}
	w.WriteTag(k)
	if isPrimative(v) {
		w.WriteByte(' ')
		writeValue(w, v)
	} else if isSlice(v) {
		w.WriteByte('\\n')
		w.Indent()
		writeValue(w, v)
	} else {
		w.depth++
		w.WriteByte('\\n')
		w.Indent()
		writeValue(w, v)
		w.depth--
	}
}
""", """func (w *baseWriter) WriteTagValue(k, v interface{}) {
	if w.zero || !isZero(v) {
		w.WriteTag(k)
		writeTagged(w, v)
	}
}

func writeTagged(w writer, v interface{}) {
	switch {
	case isPrimative(v):
		w.WriteByte(' ')
	case isSlice(v):
		w.WriteByte('\\n')
		w.Indent()
	default:
		w.IndentIncrease()
		defer w.IndentDecrease()
		w.WriteByte('\\n')
		w.Indent()
	}
	writeValue(w, v)
}
"""), (PWr, """func (w *indexWriter) WriteTagValue(k, v interface{}) {
	if isZero(v) && w.zero == false {
		return
	}
	w.WriteTag(k)
	if isPrimative(v) {
		w.WriteByte(' ')
		writeValue(w, v)
	} else if isSlice(v) {
		w.WriteByte('\\n')
		w.Indent()
		writeValue(w, v)
	} else {
		w.IndentIncrease()
		w.WriteByte('\\n')
		w.Indent()
		writeValue(w, v)
		w.IndentDecrease()
	}
}
""", """func (w *indexWriter) WriteTagValue(k, v interface{}) {
	if w.zero || !isZero(v) {
		w.WriteTag(k)
		writeTagged(w, v)
	}
}
"""))
R("x7-value-flat", (PWr, """	case bool, int, int64, uint64, float64, string:
		writeScalar(w, v)
	case []interface{}:""", """	case bool:
		writeBool(w, v)
	case int:
		writeInt(w, v)
	case int64:
		writeInt64(w, v)
	case uint64:
		writeUint64(w, v)
	case float64:
		writeFloat(w, v)
	case string:
		writeEncode(w, v)
	case []interface{}:"""), (PWr, """func writeScalar(w writer, v interface{}) {
	switch v := v.(type) {
	case bool:
		writeBool(w, v)
	case int:
		writeInt(w, v)
	case int64:
		writeInt64(w, v)
	case uint64:
		writeUint64(w, v)
	case float64:
		writeFloat(w, v)
	case string:
		writeEncode(w, v)
	}
}

""", ""))
R("x7-seq-sep", (PWr, """	for i, v := range v {
		if i != 0 {
			w.WriteByte('\\n')
			w.Indent()
		}
		w.WriteByte('-')
		w.WriteByte(' ')
		w.IndentIncrease()
		writeDynamic(w, v)
		w.IndentDecrease()
	}
""", """	first := true
	for _, item := range v {
		if !first {
			w.WriteByte('\\n')
			w.Indent()
		}
		first = false
		w.Write([]byte("- "))
		w.IndentIncrease()
		writeDynamic(w, item)
		w.IndentDecrease()
	}
"""))
R("x7-mapping-pairs", (PWr, """		v := values[k]
		if i != 0 {
			w.WriteByte('\\n')
			w.Indent()
		}
		writeEncode(w, k)
		w.WriteByte(':')
		if v == nil || isPrimative(v) || isZero(v) {
			w.WriteByte(' ')
			writeDynamic(w, v)
		} else {
			slice := isSlice(v)
			if !slice {
				w.IndentIncrease()
			}
			w.WriteByte('\\n')
			w.Indent()
			writeValue(w, v)
			if !slice {
				w.IndentDecrease()
			}
		}
""", """		if i > 0 {
			w.WriteByte('\\n')
			w.Indent()
		}
		writeEncode(w, k)
		w.WriteByte(':')
		writeMapped(w, values[k])
"""), (PWr, "func writeMappingStr(w writer", """func writeMapped(w writer, v interface{}) {
	if v == nil || isPrimative(v) || isZero(v) {
		w.WriteByte(' ')
		writeDynamic(w, v)
		return
	}
	if !isSlice(v) {
		w.IndentIncrease()
		defer w.IndentDecrease()
	}
	w.WriteByte('\\n')
	w.Indent()
	writeValue(w, v)
}

func writeMappingStr(w writer"""))
R("x7-encode-quote", (PWr, """	if len(v) == 0 {
		w.WriteByte('"')
		w.WriteByte('"')
		return
	}
	if isQuoted(v) {
		fmt.Fprintf(w, "%q", v)
	} else {
		w.WriteString(v)
	}
""", """	if isQuoted(v) {
		w.WriteString(strconv.Quote(v))
		return
	}
	w.WriteString(v)
"""))
R("x7-index-first", (PWr, """	w.WriteByte('\\n')
	if w.index == 0 {
		w.IndentDecrease()
		w.Indent()
		w.IndentIncrease()
		w.WriteByte('-')
		w.WriteByte(' ')
	} else {
		w.Indent()
	}
	writeValue(w, v)
	w.WriteByte(':')
	w.index++
""", """	defer func() { w.index++ }()
	w.WriteByte('\\n')
	if w.index > 0 {
		w.Indent()
	} else {
		w.IndentDecrease()
		w.Indent()
		w.IndentIncrease()
		w.WriteString("- ")
	}
	writeValue(w, v)
	w.WriteByte(':')
"""))
R("x7-quoted-prev", (PUt, """	var prev rune
	for _, b := range s {
		switch {
		case isEscapeCode(b):
			return true
		case b == ' ' && prev == ':':
			return true
		case b == '#' && prev == ' ':
			return true
		}
		prev = b
	}

	// if the string ends in : it should be quoted otherwise
	// it is interpreted as an object.
	if strings.HasSuffix(t, ":") {
		return true
	}
""", """	if strings.ContainsAny(s, "\\a\\b\\f\\n\\r\\t\\v") {
		return true
	}
	if strings.Contains(s, ": ") || strings.Contains(s, " #") {
		return true
	}

	// if the string ends in : it should be quoted otherwise
	// it is interpreted as an object.
	if strings.HasSuffix(t, ":") {
		return true
	}
"""))
R("x7-quoted-first", (PUt, """	case ',', '[', ']', '{', '}', '*', '"', '\\'', '%', '@', '`', '|', '>', '#':
		return true

	case""", """	case ',', '[', ']', '{', '}', '*':
		return true
	case '"', '\\'', '%', '@', '`', '|', '>', '#':
		return true

	case"""), (PUt, """	if len(t) > 0 {
		r0 = t[0]
	}
	if len(t) > 1 {
		r1 = t[1]
	}
""", """	r0 = t[0]
	if len(t) >= 2 {
		r1 = t[1]
	}
"""))
R("x7-parse-new", (PA, """	var obj Resource
	switch r.Kind {
	case "cron":
		obj = new(Cron)
	case "secret":
		obj = new(Secret)
	case "signature":
		obj = new(Signature)
	case "registry":
		obj = new(Registry)
	default:
		obj = new(Pipeline)
	}
	err := yaml.Unmarshal(r.Data, obj)
	return obj, err
""", """	obj := newResource(r.Kind)
	if err := yaml.Unmarshal(r.Data, obj); err != nil {
		return nil, err
	}
	return obj, nil
"""), (MF, """		var obj Resource
		switch res.Kind {
		case "cron":
			obj = new(Cron)
		case "secret":
			obj = new(Secret)
		case "signature":
			obj = new(Signature)
		case "registry":
			obj = new(Registry)
		default:
			obj = new(Pipeline)
		}
		err = json.Unmarshal(message, obj)
		if err != nil {
			return err
		}
""", """		obj := newResource(res.Kind)
		if err := json.Unmarshal(message, obj); err != nil {
			return err
		}
"""), (MF, "// MarshalJSON implement the json.Marshaler.\n", """var factories = map[string]func() Resource{
	KindCron:      func() Resource { return &Cron{} },
	KindSecret:    func() Resource { return &Secret{} },
	KindSignature: func() Resource { return &Signature{} },
	KindRegistry:  func() Resource { return &Registry{} },
}

func newResource(kind string) Resource {
	if f, ok := factories[kind]; ok {
		return f()
	}
	return &Pipeline{}
}

// MarshalJSON implement the json.Marshaler.
"""))
R("x7-parse-doc", (PA, """		line := scanner.Text()
		if isSeparator(line) {
			resource = nil
		}
		if resource == nil {
			resource = &RawResource{}
			resources = append(resources, resource)
		}
		if isSeparator(line) {
			continue
		}
		if isTerminator(line) {
			break
		}
		if scanner.Err() == io.EOF {
			break
		}
		resource.Data = append(
			resource.Data,
			line...,
		)
		resource.Data = append(
			resource.Data,
			newline,
		)
""", """		line := scanner.Text()
		separator := isSeparator(line)
		if separator || resource == nil {
			resource = new(RawResource)
			resources = append(resources, resource)
		}
		if separator {
			continue
		}
		if isTerminator(line) {
			break
		}
		resource.Data = append(append(resource.Data, line...), newline)
"""))
R("x7-encode-each", (MF, """	buf := new(bytes.Buffer)
	enc := yaml.NewEncoder(buf)
	for _, res := range m.Resources {
		if err := enc.Encode(res); err != nil {
			return nil, err
		}
	}
	return buf.Bytes(), nil
""", """	var buf bytes.Buffer
	enc := yaml.NewEncoder(&buf)
	for i := 0; i < len(m.Resources); i++ {
		err := enc.Encode(m.Resources[i])
		if err == nil {
			continue
		}
		return nil, err
	}
	return buf.Bytes(), nil
"""))
R("x7-gitlab-step", (GL, """			cmds := []string(config.Before)
			cmds = append(cmds, []string(job.Before)...)
			cmds = append(cmds, []string(job.Script)...)
			cmds = append(cmds, []string(job.After)...)
			cmds = append(cmds, []string(config.After)...)

			step := &droneyaml.Container{
				Name:       name,
				Image:      job.Image.Name,
				Command:    job.Image.Command,
				Entrypoint: job.Image.Entrypoint,
				Commands:   cmds,
			}

			if job.AllowFailure {
				step.Failure = "ignore"
			}

			if step.Image == "" {
				step.Image = config.Image.Name
			}
			// TODO: handle Services
			// TODO: handle Only
			// TODO: handle Except
			// TODO: handle Variables
			// TODO: handle When

			pipeline.Steps = append(pipeline.Steps, step)
""", """			pipeline.Steps = append(pipeline.Steps, convertJob(config, name))
"""), (GL, "func serviceSlug(", """// TODO: handle Services
// TODO: handle Only
// TODO: handle Except
// TODO: handle Variables
// TODO: handle When
func convertJob(config *Config, name string) *droneyaml.Container {
	job := config.Jobs[name]
	var cmds []string
	for _, list := range [][]string{config.Before, job.Before, job.Script, job.After, config.After} {
		cmds = append(cmds, list...)
	}
	step := new(droneyaml.Container)
	step.Name = name
	step.Command = job.Image.Command
	step.Entrypoint = job.Image.Entrypoint
	step.Commands = cmds
	if step.Image = job.Image.Name; step.Image == "" {
		step.Image = config.Image.Name
	}
	if job.AllowFailure {
		step.Failure = "ignore"
	}
	return step
}

func serviceSlug("""))
R("x7-gitlab-prev", (GL, """	var prevstage string
	for _, stage := range config.Stages {
""", """	for i, stage := range config.Stages {
"""), (GL, """		if prevstage != "" {
			pipeline.DependsOn = []string{prevstage}
		}
		prevstage = stage
""", """		if i > 0 && config.Stages[i-1] != "" {
			pipeline.DependsOn = []string{config.Stages[i-1]}
		}
"""))
R("x7-compile-common", (K, """		setupWorkingDir(service, step, workspace)
		setupWorkspaceEnv(step, base, dir, workspace)
		c.setupWorkspaceMount(step, base, dir, workspace)
		// if the skip callback function returns true,
		// modify the runtime step to never execute.
		if c.skip(service) {
			step.RunPolicy = engine.RunNever
		}
		// if the step is a plugin and should be executed
		// in privileged mode, set the privileged flag.
		if c.privileged(service) {
			step.Docker.Privileged = true
		}
""", """		c.setupStep(service, step, base, dir, workspace)
"""), (K, """		setupWorkingDir(container, step, workspace)
		setupWorkspaceEnv(step, base, dir, workspace)
		c.setupWorkspaceMount(step, base, dir, workspace)
		// if the skip callback function returns true,
		// modify the runtime step to never execute.
		if c.skip(container) {
			step.RunPolicy = engine.RunNever
		}
		// if the step is a plugin and should be executed
		// in privileged mode, set the privileged flag.
		if c.privileged(container) {
			step.Docker.Privileged = true
		}
""", """		c.setupStep(container, step, base, dir, workspace)
"""), (K, "// return a .git-credentials file. If", """func (c *Compiler) setupStep(src *yaml.Container, dst *engine.Step, base, dir, workspace string) {
	setupWorkingDir(src, dst, workspace)
	setupWorkspaceEnv(dst, base, dir, workspace)
	c.setupWorkspaceMount(dst, base, dir, workspace)
	if c.skip(src) {
		dst.RunPolicy = engine.RunNever
	}
	if c.privileged(src) {
		dst.Docker.Privileged = true
	}
}

// return a .git-credentials file. If"""))
R("x7-compile-serial", (K, """	isSerial := true
	for _, step := range from.Steps {
		if step != nil && len(step.DependsOn) != 0 {
			isSerial = false
			break
		}
	}
""", """	isSerial := !hasGraph(from.Steps)
"""), (K, "// return a .git-credentials file. If", """func hasGraph(steps []*yaml.Container) bool {
	count := 0
	for _, step := range steps {
		if step == nil {
			continue
		}
		count += len(step.DependsOn)
	}
	return count > 0
}

// return a .git-credentials file. If"""))
R("x7-compile-volume", (K, """		to := &engine.Volume{
			Metadata: engine.Metadata{
				UID:       rand.String(),
				Name:      from.Name,
				Namespace: namespace,
				Labels:    map[string]string{},
			},
		}
		if from.EmptyDir""", """		to := newVolume(from.Name, namespace)
		if from.EmptyDir"""), (K, """		v := &engine.Volume{
			Metadata: engine.Metadata{
				UID:       rand.String(),
				Name:      "_docker_socket",
				Namespace: namespace,
				Labels:    map[string]string{},
			},
			HostPath: &engine.VolumeHostPath{
				Path: "/var/run/docker.sock",
			},
		}
""", """		v := newVolume("_docker_socket", namespace)
		v.HostPath = &engine.VolumeHostPath{Path: "/var/run/docker.sock"}
"""), (K, "// return a .git-credentials file. If", """func newVolume(name, namespace string) *engine.Volume {
	var meta engine.Metadata
	meta.UID = rand.String()
	meta.Name = name
	meta.Namespace = namespace
	meta.Labels = make(map[string]string)
	return &engine.Volume{Metadata: meta}
}

// return a .git-credentials file. If"""))
R("x7-compile-alias", (K, """	for _, step := range spec.Steps {
		if v, ok := rename[image.Expand(step.Docker.Image)]; ok {
			img := image.Trim(step.Docker.Image) + ":" + v
			step.Docker.Image = image.Expand(img)
		}
	}
""", """	if len(rename) > 0 {
		for i := range spec.Steps {
			docker := spec.Steps[i].Docker
			alias, ok := rename[image.Expand(docker.Image)]
			if !ok {
				continue
			}
			docker.Image = image.Expand(strings.Join([]string{image.Trim(docker.Image), alias}, ":"))
		}
	}
"""), (K, "import (\n", "import (\n\t\"strings\"\n\n"))
R("x7-main-pipeline", (MN, """	var p *yaml.Pipeline
	for _, r := range m.Resources {
		v, ok := r.(*yaml.Pipeline)
		if !ok {
			continue
		}
		if *compileName == "" ||
			*compileName == v.Name {
			p = v
			break
		}
	}

	if p == nil {
		return errors.New("cannot find pipeline resource")
	}
""", """	p := findPipeline(m, *compileName)
	if p == nil {
		return errors.New("cannot find pipeline resource")
	}
"""), (MN, "// helper function returns the git credential function,\n", """func findPipeline(m *yaml.Manifest, name string) *yaml.Pipeline {
	for _, r := range m.Resources {
		switch v := r.(type) {
		case *yaml.Pipeline:
			if name != "" && name != v.Name {
				continue
			}
			return v
		}
	}
	return nil
}

// helper function returns the git credential function,
"""))
R("x7-main-output", (MN, """	if *formatSave {
		return ioutil.WriteFile(f.Name(), b.Bytes(), 0644)
	}
	_, err = io.Copy(os.Stderr, b)
	return err
""", """	return output(f, b.Bytes(), *formatSave)
"""), (MN, """	if *convertSave {
		return ioutil.WriteFile(f.Name(), b, 0644)
	}
	_, err = io.Copy(os.Stderr, bytes.NewReader(b))
	return err
""", """	return output(f, b, *convertSave)
"""), (MN, "func runLint() error {", """func output(f *os.File, b []byte, save bool) error {
	if save {
		return ioutil.WriteFile(f.Name(), b, 0644)
	}
	_, err := io.Copy(os.Stderr, bytes.NewReader(b))
	return err
}

func runLint() error {"""))
R("x7-main-auths", (MN, """	var auths []*engine.DockerAuth
	for _, uri := range *registries {
		if uri.User == nil {
			log.Fatalln("Expect registry format [user]:[password]@hostname")
		}
		password, ok := uri.User.Password()
		if !ok {
			log.Fatalln("Invalid or missing registry password")
		}
		auths = append(auths, &engine.DockerAuth{
			Address:  uri.Host,
			Username: uri.User.Username(),
			Password: password,
		})
	}
""", """	auths := make([]*engine.DockerAuth, 0, len(*registries))
	for _, uri := range *registries {
		user := uri.User
		if user == nil {
			log.Fatalln("Expect registry format [user]:[password]@hostname")
		}
		auth := &engine.DockerAuth{Address: uri.Host, Username: user.Username()}
		if secret, ok := user.Password(); ok {
			auth.Password = secret
		} else {
			log.Fatalln("Invalid or missing registry password")
		}
		auths = append(auths, auth)
	}
"""))
R("x7-serial-count", (K, """	isSerial := true
	for _, step := range from.Steps {
		if step != nil && len(step.DependsOn) != 0 {
			isSerial = false
			break
		}
	}
""", """	dependents := 0
	for _, step := range from.Steps {
		if step != nil && len(step.DependsOn) != 0 {
			dependents++
		}
	}
	isSerial := dependents == 0
"""))
R("x7-serial-all", (K, """	isSerial := true
	for _, step := range from.Steps {
		if step != nil && len(step.DependsOn) != 0 {
			isSerial = false
			break
		}
	}
""", """	var deps []string
	for _, step := range from.Steps {
		if step != nil {
			deps = append(deps, step.DependsOn...)
		}
	}
	isSerial := len(deps) == 0
"""))

# x8: the smaller files
CPd = "yaml/compiler/"; TFd = "yaml/compiler/transform/"; YCd = "yaml/converter/"
R("x8-clone-image", (CPd + "clone.go", """	switch {
	case src.Platform.OS == "linux" && src.Platform.Arch == "arm":
		return "drone/git:linux-arm"
	case src.Platform.OS == "linux" && src.Platform.Arch == "arm64":
		return "drone/git:linux-arm64"
	case src.Platform.OS == "windows" && src.Platform.Version == "1903":
		return "drone/git:windows-1903-amd64"
	case src.Platform.OS == "windows" && src.Platform.Version == "1809":
		return "drone/git:windows-1809-amd64"
	case src.Platform.OS == "windows" && src.Platform.Version == "1803":
		return "drone/git:windows-1803-amd64"
	case src.Platform.OS == "windows" && src.Platform.Version == "1709":
		return "drone/git:windows-1709-amd64"
	case src.Platform.OS == "windows":
		return "drone/git:windows-1809-amd64"
	default:
		return "drone/git"
	}
""", """	const base = "drone/git"
	switch p := src.Platform; p.OS {
	case "linux":
		if p.Arch == "arm" || p.Arch == "arm64" {
			return base + ":linux-" + p.Arch
		}
	case "windows":
		version := "1809"
		switch p.Version {
		case "1709", "1803", "1903":
			version = p.Version
		}
		return fmt.Sprintf("%s:windows-%s-amd64", base, version)
	}
	return base
"""), (CPd + "clone.go", 'import (\n', 'import (\n\t"fmt"\n'))
R("x8-clone-image-table", (CPd + "clone.go", """	switch {
	case src.Platform.OS == "linux" && src.Platform.Arch == "arm":
		return "drone/git:linux-arm"
	case src.Platform.OS == "linux" && src.Platform.Arch == "arm64":
		return "drone/git:linux-arm64"
	case src.Platform.OS == "windows" && src.Platform.Version == "1903":
		return "drone/git:windows-1903-amd64"
	case src.Platform.OS == "windows" && src.Platform.Version == "1809":
		return "drone/git:windows-1809-amd64"
	case src.Platform.OS == "windows" && src.Platform.Version == "1803":
		return "drone/git:windows-1803-amd64"
	case src.Platform.OS == "windows" && src.Platform.Version == "1709":
		return "drone/git:windows-1709-amd64"
	case src.Platform.OS == "windows":
		return "drone/git:windows-1809-amd64"
	default:
		return "drone/git"
	}
""", """	for _, c := range cloneImages {
		if c.os != src.Platform.OS {
			continue
		}
		if c.arch != "" && c.arch != src.Platform.Arch {
			continue
		}
		if c.version != "" && c.version != src.Platform.Version {
			continue
		}
		return c.image
	}
	return "drone/git"
"""), (CPd + "clone.go", "func cloneImage(", """func init_() {}

var cloneImages = []struct{ os, arch, version, image string }{
	{"linux", "arm", "", "drone/git:linux-arm"},
	{"linux", "arm64", "", "drone/git:linux-arm64"},
	{"windows", "", "1903", "drone/git:windows-1903-amd64"},
	{"windows", "", "1809", "drone/git:windows-1809-amd64"},
	{"windows", "", "1803", "drone/git:windows-1803-amd64"},
	{"windows", "", "1709", "drone/git:windows-1709-amd64"},
	{"windows", "", "", "drone/git:windows-1809-amd64"},
}

func cloneImage("""))
R("x8-dind-plain", (CPd + "dind.go", """		for _, img := range images {
			a := img
			b := container.Image
			if image.Match(a, b) {
				return true
			}
		}
		return false
""", """		return image.Match(container.Image, images...)
"""))
R("x8-dind-sum", (CPd + "dind.go", """		if len(container.Commands) > 0 {""", """		if len(container.Commands)+len(container.Command)+len(container.Entrypoint) > 0 {"""))
R("x8-image-named", (CPd + "image/image.go", """func Trim(name string) string {
	ref, err := reference.ParseAnyReference(name)
	if err != nil {
		return name
	}
	named, err := reference.ParseNamed(ref.String())
	if err != nil {
		return name
	}
	named = reference.TrimNamed(named)
	return reference.FamiliarName(named)
}""", """func Trim(name string) string {
	if named, ok := parse(name); ok {
		return reference.FamiliarName(reference.TrimNamed(named))
	}
	return name
}

func parse(name string) (reference.Named, bool) {
	ref, err := reference.ParseAnyReference(name)
	if err != nil {
		return nil, false
	}
	named, err := reference.ParseNamed(ref.String())
	return named, err == nil
}"""), (CPd + "image/image.go", """	named, err := reference.ParseNamed(ref.String())
	if err != nil {
		return name
	}
	named = reference.TagNameOnly(named)
	return named.String()
""", """	if named, err := reference.ParseNamed(ref.String()); err == nil {
		return reference.TagNameOnly(named).String()
	}
	return name
"""))
R("x8-skip-and", (CPd + "skip.go", """		switch {
		case !container.When.Branch.Match(data.Branch):
			return true
		case !container.When.Cron.Match(data.Cron):
			return true
		case !container.When.Event.Match(data.Event):
			return true
		case !container.When.Instance.Match(data.Instance):
			return true
		case !container.When.Ref.Match(data.Ref):
			return true
		case !container.When.Repo.Match(data.Repo):
			return true
		case !container.When.Target.Match(data.Target):
			return true
		case !container.When.Action.Match(data.Action):
			return true
		default:
			return false
		}
""", """		return !data.matches(&container.When)
"""), (CPd + "skip.go", "func SkipFunc(", """func (d *SkipData) matches(when *yaml.Conditions) bool {
	return when.Branch.Match(d.Branch) &&
		when.Cron.Match(d.Cron) &&
		when.Event.Match(d.Event) &&
		when.Instance.Match(d.Instance) &&
		when.Ref.Match(d.Ref) &&
		when.Repo.Match(d.Repo) &&
		when.Target.Match(d.Target) &&
		when.Action.Match(d.Action)
}

// SkipFunc returns a function that tells whether a container is skipped.
func SkipFunc("""))
R("x8-pull-map", (CPd + "convert.go", """	switch strings.ToLower(from.Pull) {
	case "always":
		return engine.PullAlways
	case "if-not-exists":
		return engine.PullIfNotExists
	case "never":
		return engine.PullNever
	default:
		return engine.PullDefault
	}
""", """	policy, ok := pullPolicies[strings.ToLower(from.Pull)]
	if !ok {
		policy = engine.PullDefault
	}
	return policy
"""), (CPd + "convert.go", "// helper function converts the pull policy", """var pullPolicies = map[string]engine.PullPolicy{
	"always":        engine.PullAlways,
	"if-not-exists": engine.PullIfNotExists,
	"never":         engine.PullNever,
}

// helper function converts the pull policy""") if "// helper function converts the pull policy" in open("/repo/yaml/compiler/convert.go").read() else (CPd + "convert.go", "func toPullPolicy(", """var pullPolicies = map[string]engine.PullPolicy{
	"always":        engine.PullAlways,
	"if-not-exists": engine.PullIfNotExists,
	"never":         engine.PullNever,
}

func toPullPolicy("""))
R("x8-run-policy", (CPd + "convert.go", """	switch {
	case onFailure && onSuccess:
		return engine.RunAlways
	case onFailure:
		return engine.RunOnFailure
	case onSuccess:
		return engine.RunOnSuccess
	default:
		return engine.RunNever
	}
""", """	if onSuccess {
		if onFailure {
			return engine.RunAlways
		}
		return engine.RunOnSuccess
	}
	if onFailure {
		return engine.RunOnFailure
	}
	return engine.RunNever
"""), (CPd + "convert.go", """	onFailure := from.When.Status.Match("failure") && len(from.When.Status.Include) > 0
""", """	status := from.When.Status
	onFailure := len(status.Include) != 0 && status.Match("failure")
"""), (CPd + "convert.go", """	onSuccess := from.When.Status.Match("success")
""", """	onSuccess := status.Match("success")
"""))
R("x8-cpu", (CPd + "convert.go", """	if f > 0 {
		f *= 1000
	}
	return int64(f)
""", """	if f <= 0 {
		return int64(f)
	}
	return int64(f * 1000)
"""))
R("x8-ports", (CPd + "convert.go", """	var ports []*engine.Port
	for _, port := range from.Ports {
		if port == nil {
			continue
		}
		ports = append(ports, toPort(port))
	}
	return ports
""", """	var to []*engine.Port
	for i := range from.Ports {
		if src := from.Ports[i]; src != nil {
			to = append(to, toPort(src))
		}
	}
	return to
"""))
R("x8-set-helper", (TFd + "filter.go", """func Include(names []string) func(*engine.Spec) {
	set := map[string]struct{}{}
	for _, name := range names {
		set[name] = struct{}{}
	}
	return func(spec *engine.Spec) {
		if len(names) == 0 {
			return
		}
		for _, step := range spec.Steps {
			if step.Metadata.Name == "clone" {
				continue
			}
			_, ok := set[step.Metadata.Name]
			if !ok {
				// if the step is not included in the
				// whitelist the run policy is set to never.
				step.RunPolicy = engine.RunNever
			}
		}
	}
}""", """func Include(names []string) func(*engine.Spec) {
	return filter(names, func(listed bool) bool { return !listed })
}

func filter(names []string, never func(listed bool) bool) func(*engine.Spec) {
	if len(names) == 0 {
		return func(*engine.Spec) {}
	}
	set := make(map[string]bool, len(names))
	for _, name := range names {
		set[name] = true
	}
	return func(spec *engine.Spec) {
		for _, step := range spec.Steps {
			name := step.Metadata.Name
			if name != "clone" && never(set[name]) {
				step.RunPolicy = engine.RunNever
			}
		}
	}
}"""), (TFd + "filter.go", """func Exclude(names []string) func(*engine.Spec) {
	set := map[string]struct{}{}
	for _, name := range names {
		set[name] = struct{}{}
	}
	return func(spec *engine.Spec) {
		if len(names) == 0 {
			return
		}
		for _, step := range spec.Steps {
			if step.Metadata.Name == "clone" {
				continue
			}
			_, ok := set[step.Metadata.Name]
			if ok {
				// if the step is included in the blacklist
				// the run policy is set to never.
				step.RunPolicy = engine.RunNever
			}
		}
	}
}""", """func Exclude(names []string) func(*engine.Spec) {
	return filter(names, func(listed bool) bool { return listed })
}"""))
R("x8-resume-index", (TFd + "filter.go", """		for _, step := range spec.Steps {
			if step.Metadata.Name == name {
				return
			}
			if step.Metadata.Name == "clone" {
				continue
			}
			step.RunPolicy = engine.RunNever
		}
""", """		for i := 0; i < len(spec.Steps) && spec.Steps[i].Metadata.Name != name; i++ {
			if step := spec.Steps[i]; step.Metadata.Name != "clone" {
				step.RunPolicy = engine.RunNever
			}
		}
"""))
R("x8-limits", (TFd + "limits.go", """			if step.Resources == nil {
				step.Resources = &engine.Resources{}
			}
			if step.Resources.Limits == nil {
				step.Resources.Limits = &engine.ResourceObject{}
			}
			step.Resources.Limits.Memory = memlimit
			step.Resources.Limits.CPU = cpulimit
""", """			limits := limitsOf(step)
			limits.CPU, limits.Memory = cpulimit, memlimit
"""), (TFd + "limits.go", "// WithLimits is", """func limitsOf(step *engine.Step) *engine.ResourceObject {
	res := step.Resources
	if res == nil {
		res = new(engine.Resources)
		step.Resources = res
	}
	if res.Limits == nil {
		res.Limits = new(engine.ResourceObject)
	}
	return res.Limits
}

// WithLimits is"""))
R("x8-secret-func", (TFd + "secret.go", """		for _, name := range names {
			secret := f(name)
			if secret != nil {
				secret.Metadata.UID = rand.String()
				secret.Metadata.Namespace = spec.Metadata.Namespace
				spec.Secrets = append(spec.Secrets, secret)
			}
		}
""", """		var found []*engine.Secret
		for _, name := range names {
			secret := f(name)
			if secret == nil {
				continue
			}
			meta := &secret.Metadata
			meta.Namespace = spec.Metadata.Namespace
			meta.UID = rand.String()
			found = append(found, secret)
		}
		spec.Secrets = append(spec.Secrets, found...)
"""))
R("x8-secret-keys", (TFd + "secret.go", """		var keys []string
		for key := range secrets {
			keys = append(keys, key)
		}
		sort.Strings(keys)
		for _, key := range keys {
			spec.Secrets = append(spec.Secrets,
				&engine.Secret{
					Metadata: engine.Metadata{
						UID:       rand.String(),
						Name:      key,
						Namespace: spec.Metadata.Namespace,
					},
					Data: secrets[key],
				},
			)
		}
""", """		for _, key := range sortedKeys(secrets) {
			secret := &engine.Secret{Data: secrets[key]}
			secret.Metadata = engine.Metadata{
				UID:       rand.String(),
				Name:      key,
				Namespace: spec.Metadata.Namespace,
			}
			spec.Secrets = append(spec.Secrets, secret)
		}
"""), (TFd + "secret.go", "// WithSecrets is", """func sortedKeys(m map[string]string) (keys []string) {
	for key := range m {
		keys = append(keys, key)
	}
	sort.Strings(keys)
	return
}

// WithSecrets is"""), (TFd + "volume.go", """		var keys []string
		for key := range volumes {
			keys = append(keys, key)
		}
		sort.Strings(keys)
		for _, key := range keys {
""", """		for _, key := range sortedKeys(volumes) {
"""), (TFd + "volume.go", '	"sort"\n', ''))
R("x8-volume-slice", (TFd + "volume.go", """		parts := strings.Split(s, ":")
		if len(parts) != 2 {
			continue
		}
		key := parts[0]
		val := parts[1]
		to[key] = val
""", """		if strings.Count(s, ":") != 1 {
			continue
		}
		i := strings.Index(s, ":")
		to[s[:i]] = s[i+1:]
"""))
R("x8-volume-mounts", (TFd + "volume.go", """			spec.Docker.Volumes = append(spec.Docker.Volumes, volume)
			for _, step := range spec.Steps {
				mount := &engine.VolumeMount{
					Name: volume.Metadata.Name,
					Path: value,
				}
				step.Volumes = append(step.Volumes, mount)
			}
""", """			for _, step := range spec.Steps {
				mount(step, volume, value)
			}
			spec.Docker.Volumes = append(spec.Docker.Volumes, volume)
"""), (TFd + "volume.go", "func WithVolumeSlice(", """func mount(step *engine.Step, volume *engine.Volume, path string) {
	step.Volumes = append(step.Volumes, &engine.VolumeMount{
		Name: volume.Metadata.Name,
		Path: path,
	})
}

// WithVolumeSlice is WithVolumes for a list.
func WithVolumeSlice("""))
R("x8-proxy-loop", (TFd + "proxy.go", """	if value := getenv("no_proxy"); value != "" {
		environ["no_proxy"] = value
		environ["NO_PROXY"] = value
	}
	if value := getenv("http_proxy"); value != "" {
		environ["http_proxy"] = value
		environ["HTTP_PROXY"] = value
	}
	if value := getenv("https_proxy"); value != "" {
		environ["https_proxy"] = value
		environ["HTTPS_PROXY"] = value
	}
""", """	for _, name := range []string{"no_proxy", "http_proxy", "https_proxy"} {
		value := getenv(name)
		if len(value) == 0 {
			continue
		}
		environ[name] = value
		environ[strings.ToUpper(name)] = value
	}
"""))
R("x8-proxy-lookup", (TFd + "proxy.go", """	name = strings.ToUpper(name)
	if value := os.Getenv(name); value != "" {
		return value
	}
	name = strings.ToLower(name)
	if value := os.Getenv(name); value != "" {
		return value
	}
	return
""", """	for _, spell := range []func(string) string{strings.ToUpper, strings.ToLower} {
		if value = os.Getenv(spell(name)); value != "" {
			break
		}
	}
	return value
"""))
R("x8-labels-helper", (TFd + "labels.go", """		for k, v := range labels {
			spec.Metadata.Labels[k] = v
		}
		for _, resource := range spec.Docker.Volumes {
			for k, v := range labels {
				resource.Metadata.Labels[k] = v
			}
		}
		for _, resource := range spec.Steps {
			for k, v := range labels {
				resource.Metadata.Labels[k] = v
			}
		}
""", """		all := []map[string]string{spec.Metadata.Labels}
		for _, volume := range spec.Docker.Volumes {
			all = append(all, volume.Metadata.Labels)
		}
		for _, step := range spec.Steps {
			all = append(all, step.Metadata.Labels)
		}
		for _, to := range all {
			for k, v := range labels {
				to[k] = v
			}
		}
"""))
R("x8-env-order", (TFd + "env.go", """		for key, value := range envs {
			for _, step := range spec.Steps {
				step.Envs[key] = value
			}
		}
""", """		if len(envs) == 0 {
			return
		}
		for _, step := range spec.Steps {
			to := step.Envs
			for key := range envs {
				to[key] = envs[key]
			}
		}
"""))
R("x8-encode-default", (CPd + "encode.go", """	out, _ := yaml.Marshal(v)

	in := []string{}
	err := yaml.Unmarshal(out, &in)
	if err == nil {
		return strings.Join(in, ",")
	}
	out, _ = json.YAMLToJSON(out)
	return string(out)
""", """	raw, _ := yaml.Marshal(v)
	var items []string
	if yaml.Unmarshal(raw, &items) != nil {
		out, _ := json.YAMLToJSON(raw)
		return string(out)
	}
	return strings.Join(items, ",")
"""))
R("x8-convert-if", (YCd + "convert.go", """	switch m.Filename {
	case "bitbucket-pipelines.yml":
		return bitbucket.Convert(d, m.Ref)
	case "circle.yml", ".circleci/config.yml":
		// TODO(bradrydzewski)
	case ".gitlab-ci.yml":
		return gitlab.Convert(d)
	case ".travis.yml":
		// TODO(bradrydzewski)
	}
""", """	if m.Filename == "bitbucket-pipelines.yml" {
		return bitbucket.Convert(d, m.Ref)
	} else if m.Filename == ".gitlab-ci.yml" {
		return gitlab.Convert(d)
	}
	// TODO(bradrydzewski) circle.yml, .circleci/config.yml, .travis.yml
"""), (YCd + "convert.go", """	b, err := Convert([]byte(s), m)
	return string(b), err
""", """	out, err := Convert([]byte(s), m)
	if err != nil {
		return string(out), err
	}
	return string(out), nil
"""))
R("x8-gitlab-image", (YCd + "gitlab/config.go", """	err := unmarshal(&name)
	if err == nil {
		i.Name = name
		return nil
	}
""", """	if unmarshal(&name) == nil {
		*i = Image{Name: name, Entrypoint: i.Entrypoint, Command: i.Command, Alias: i.Alias}
		return nil
	}
"""), (YCd + "gitlab/config.go", """	err = unmarshal(&data)
	if err != nil {
		return err
	}
	i.Name = data.Name
	i.Entrypoint = data.Entrypoint
	i.Command = data.Command
	i.Alias = data.Alias
	return nil
""", """	if err := unmarshal(&data); err != nil {
		return err
	}
	*i = Image{
		Name:       data.Name,
		Entrypoint: data.Entrypoint,
		Command:    data.Command,
		Alias:      data.Alias,
	}
	return nil
"""))
R("x8-bytes-size", ("yaml/unit.go", """	intType, err := units.RAMInBytes(stringType)
	if err == nil {
		*b = BytesSize(intType)
	}
	return err
""", """	parsed, err := units.RAMInBytes(stringType)
	if err != nil {
		return err
	}
	*b = BytesSize(parsed)
	return nil
"""))
R("x8-cron-if", ("yaml/cron.go", """	switch {
	case c.Spec.Branch == "":
		return errors.New("yaml: invalid cron branch")
	default:
		return nil
	}
""", """	if len(c.Spec.Branch) == 0 {
		return errors.New("yaml: invalid cron branch")
	}
	return nil
"""), ("yaml/secret.go", """	if len(s.Data) == 0 && len(s.Get.Path) == 0 && len(s.Get.Name) == 0 {
		return errors.New("yaml: invalid secret resource")
	}
	return nil
""", """	if s.Data != "" || s.Get.Path != "" || s.Get.Name != "" {
		return nil
	}
	return errors.New("yaml: invalid secret resource")
"""))
R("x8-folded", ("yaml/pretty/secret.go", """	d = spaceReplacer.Replace(d)
	for _, s := range chunk(d, 60) {
		w.WriteByte('\\n')
		w.Indent()
		w.WriteString(s)
	}
	w.IndentDecrease()
""", """	defer w.IndentDecrease()
	lines := chunk(spaceReplacer.Replace(d), 60)
	for i := 0; i < len(lines); i++ {
		w.WriteByte('\\n')
		w.Indent()
		w.WriteString(lines[i])
	}
"""), ("yaml/pretty/secret.go", """	if isSecretGetEmpty(v.Get) == false {
		w.WriteByte('\\n')
""", """	if v.Get != (yaml.SecretGet{}) {
		w.WriteByte('\\n')
"""), ("yaml/pretty/secret.go", """func isSecretGetEmpty(v yaml.SecretGet) bool {
	return v.Key == "" &&
		v.Name == "" &&
		v.Path == ""
}
""", ""))
R("x8-header", ("yaml/pretty/secret.go", """	w.WriteString("---")
	w.WriteTagValue("version", v.Version)
	w.WriteTagValue("kind", v.Kind)
	w.WriteTagValue("type", v.Type)
	w.WriteTagValue("name", v.Name)
""", """	printHeader(w, v.Version, v.Kind, v.Type, v.Name)
"""), ("yaml/pretty/cron.go", """	w.WriteString("---")
	w.WriteTagValue("version", v.Version)
	w.WriteTagValue("kind", v.Kind)
	w.WriteTagValue("type", v.Type)
	w.WriteTagValue("name", v.Name)
""", """	printHeader(w, v.Version, v.Kind, v.Type, v.Name)
"""), ("yaml/pretty/registry.go", """	w.WriteString("---")
	w.WriteTagValue("version", v.Version)
	w.WriteTagValue("kind", v.Kind)
	w.WriteTagValue("type", v.Type)
""", """	// a registry has no name
	printHeader(w, v.Version, v.Kind, v.Type, "")
"""), ("yaml/pretty/pretty.go", "// Print pretty prints the manifest.\n", """func printHeader(w writer, version, kind, typ, name string) {
	w.WriteString("---")
	for _, kv := range [][2]string{
		{"version", version},
		{"kind", kind},
		{"type", typ},
		{"name", name},
	} {
		w.WriteTagValue(kv[0], kv[1])
	}
}

// Print pretty prints the manifest.
"""))
R("x8-bitbucket", (YCd + "bitbucket/convert.go", """	for i, from := range stage.Steps {
		to := toContainer(from)
		// defaults to the global image if the
		// step does not define an image.
		if to.Image == "" {
			to.Image = config.Image
		}
		if to.Name == "" {
			to.Name = fmt.Sprintf("step_%d", i)
		}
		pipeline.Steps = append(pipeline.Steps, to)
	}
""", """	for i, from := range stage.Steps {
		pipeline.Steps = append(pipeline.Steps, toStep(config, from, i))
	}
"""), (YCd + "bitbucket/convert.go", "func toContainer(", """func toStep(config *Config, from *Step, i int) *droneyaml.Container {
	to := toContainer(from)
	if len(to.Image) == 0 {
		to.Image = config.Image
	}
	if len(to.Name) == 0 {
		to.Name = "step_" + strconv.Itoa(i)
	}
	return to
}

func toContainer("""), (YCd + "bitbucket/convert.go", '	"fmt"\n	"sort"\n', '	"sort"\n	"strconv"\n'))
R("x8-script-win", (CPd + "script_win.go", """		escaped := fmt.Sprintf("%q", command)
		escaped = strings.Replace(escaped, "$", `\\$`, -1)
		escaped = strings.Replace(escaped, "'", "''", -1)
		buf.WriteString(fmt.Sprintf(
			traceScriptWin,
			escaped,
			command,
		))
""", """		fmt.Fprintf(&buf, traceScriptWin, escapeWin(command), command)
"""), (CPd + "script_win.go", "func setupScriptWin(", """func escapeWin(command string) string {
	escaped := strconv.Quote(command)
	escaped = strings.ReplaceAll(escaped, "$", `\\$`)
	return strings.ReplaceAll(escaped, "'", "''")
}

func setupScriptWin("""), (CPd + "script_win.go", '	"strings"\n', '	"strconv"\n	"strings"\n'))
R("x9-volume-cut", (TFd + "volume.go", """		parts := strings.Split(s, ":")
		if len(parts) != 2 {
			continue
		}
		key := parts[0]
		val := parts[1]
		to[key] = val
""", """		key, val, ok := strings.Cut(s, ":")
		if !ok || strings.Contains(val, ":") {
			continue
		}
		to[key] = val
"""))
R("x9-volume-splitn", (TFd + "volume.go", """		parts := strings.Split(s, ":")
		if len(parts) != 2 {
			continue
		}
		key := parts[0]
		val := parts[1]
		to[key] = val
""", """		if parts := strings.SplitN(s, ":", 3); len(parts) == 2 {
			to[parts[0]] = parts[1]
		}
"""))
LT9 = "yaml/linter/linter.go"
SG9 = "yaml/signer/signer.go"
R("x9-sign-partition", (SG9, """	h := hmac.New(sha256.New, key)
	for _, r := range resources {
		if r.Kind != yaml.KindSignature {
			h.Write(r.Data)
		}
	}
	return h.Sum(nil), nil
}
""", """	h := hmac.New(sha256.New, key)
	for _, r := range unsigned(resources) {
		h.Write(r.Data)
	}
	return h.Sum(nil), nil
}

// unsigned is the resources without the signatures.
func unsigned(resources []*yaml.RawResource) []*yaml.RawResource {
	var out []*yaml.RawResource
	for _, r := range resources {
		if r.Kind == yaml.KindSignature {
			continue
		}
		out = append(out, r)
	}
	return out
}
"""), (SG9, """	var buf bytes.Buffer
	for _, r := range res {
		if r.Kind != yaml.KindSignature {
			buf.WriteString("---")
			buf.WriteByte('\\n')
			buf.Write(r.Data)
		}
	}
	buf.WriteString("---")
""", """	var buf bytes.Buffer
	for _, r := range unsigned(res) {
		buf.WriteString("---\\n")
		buf.Write(r.Data)
	}
	buf.WriteString("---")
"""))
R("x9-sign-reuse", (SG9, """	var buf bytes.Buffer
	for _, r := range res {
		if r.Kind != yaml.KindSignature {
			buf.WriteString("---")
			buf.WriteByte('\\n')
			buf.Write(r.Data)
		}
	}

	buf.WriteString("---")
	buf.WriteByte('\\n')
	buf.WriteString("kind: signature")
	buf.WriteByte('\\n')
	buf.WriteString("hmac: " + hex.EncodeToString(hmac))
	buf.WriteByte('\\n')
	buf.WriteByte('\\n')
	buf.WriteString("...")
	buf.WriteByte('\\n')
	return buf.Bytes(), nil
""", """	return upsert(res, hex.EncodeToString(hmac)), nil
"""))
R("x9-sign-compose", (SG9, """	res, err := yaml.ParseRawBytes(data)
	if err != nil {
		return nil, err
	}
	hmac, err := sign(res, key)
	if err != nil {
		return nil, err
	}

	var buf bytes.Buffer
	for _, r := range res {
		if r.Kind != yaml.KindSignature {
			buf.WriteString("---")
			buf.WriteByte('\\n')
			buf.Write(r.Data)
		}
	}

	buf.WriteString("---")
	buf.WriteByte('\\n')
	buf.WriteString("kind: signature")
	buf.WriteByte('\\n')
	buf.WriteString("hmac: " + hex.EncodeToString(hmac))
	buf.WriteByte('\\n')
	buf.WriteByte('\\n')
	buf.WriteString("...")
	buf.WriteByte('\\n')
	return buf.Bytes(), nil
""", """	mac, err := Sign(data, key)
	if err != nil {
		return nil, err
	}
	return WriteTo(data, mac)
"""))
R("x9-verify-subtle", (SG9, "	return hmac.Equal(mac1, mac2), nil\n", "	return subtle.ConstantTimeCompare(mac1, mac2) == 1, nil\n"),
  (SG9, '	"crypto/hmac"\n', '	"crypto/hmac"\n	"crypto/subtle"\n'))
R("x9-sign-join", (SG9, """	h := hmac.New(sha256.New, key)
	for _, r := range resources {
		if r.Kind != yaml.KindSignature {
			h.Write(r.Data)
		}
	}
	return h.Sum(nil), nil
""", """	var content []byte
	for _, r := range resources {
		if r.Kind != yaml.KindSignature {
			content = append(content, r.Data...)
		}
	}
	mac := hmac.New(sha256.New, key)
	mac.Write(content)
	return mac.Sum(nil), nil
"""))
R("x9-verify-sum", (SG9, """	mac1, err := extract(res)
	if err != nil {
		return false, nil
	}
	mac2, err := sign(res, key)
	if err != nil {
		return false, err
	}
	return hmac.Equal(mac1, mac2), nil
""", """	given, missing := extract(res)
	if missing != nil {
		return false, nil
	}
	want, err := sign(res, key)
	return err == nil && hmac.Equal(given, want), err
"""))
R("x9-lint-lists", (LT9, """var os = map[string]struct{}{
	"linux":   struct{}{},
	"windows": struct{}{},
}

var arch = map[string]struct{}{
	"arm":     struct{}{},
	"arm64":   struct{}{},
	"amd64":   struct{}{},
	"ppc64le": struct{}{},
	"s390x":   struct{}{},
}
""", """var (
	knownOS   = []string{"linux", "windows"}
	knownArch = []string{"amd64", "arm", "arm64", "ppc64le", "s390x"}
)

func oneOf(v string, known []string) bool {
	for _, k := range known {
		if k == v {
			return true
		}
	}
	return false
}
"""), (LT9, """	if v := platform.OS; v != "" {
		_, ok := os[v]
		if !ok {
			return fmt.Errorf("linter: unsupported os: %s", v)
		}
	}
	if v := platform.Arch; v != "" {
		_, ok := arch[v]
		if !ok {
			return fmt.Errorf("linter: unsupported architecture: %s", v)
		}
	}
	return nil
""", """	if v := platform.OS; v != "" && !oneOf(v, knownOS) {
		return fmt.Errorf("linter: unsupported os: %s", v)
	}
	if v := platform.Arch; v != "" && !oneOf(v, knownArch) {
		return fmt.Errorf("linter: unsupported architecture: %s", v)
	}
	return nil
"""))
R("x9-lint-declare", (LT9, """		_, ok := names[container.Name]
		if ok {
			return ErrDuplicateStepName
		}
		names[container.Name] = struct{}{}

		err := checkContainer(container, trusted)
		if err != nil {
			return err
		}

		err = checkDeps(container, names)
		if err != nil {
			return err
		}
	}
	for _, container := range pipeline.Services {
		if container == nil {
			continue
		}
		_, ok := names[container.Name]
		if ok {
			return ErrDuplicateStepName
		}
		names[container.Name] = struct{}{}

		err := checkContainer(container, trusted)
		if err != nil {
			return err
		}
	}
	return nil
}
""", """		if err := declare(container, names, trusted); err != nil {
			return err
		}
		if err := checkDeps(container, names); err != nil {
			return err
		}
	}
	for _, container := range pipeline.Services {
		if container == nil {
			continue
		}
		if err := declare(container, names, trusted); err != nil {
			return err
		}
	}
	return nil
}

// declare adds the name of a container and checks its settings.
func declare(c *yaml.Container, names map[string]struct{}, trusted bool) error {
	if _, taken := names[c.Name]; taken {
		return ErrDuplicateStepName
	}
	names[c.Name] = struct{}{}
	return checkContainer(c, trusted)
}
"""))
R("x9-lint-untrusted", (LT9, """	if trusted == false && container.Privileged {
		return errors.New("linter: untrusted repositories cannot enable privileged mode")
	}
	if trusted == false && len(container.Devices) > 0 {
		return errors.New("linter: untrusted repositories cannot mount devices")
	}
	if trusted == false && len(container.DNS) > 0 {
		return errors.New("linter: untrusted repositories cannot configure dns")
	}
	if trusted == false && len(container.DNSSearch) > 0 {
		return errors.New("linter: untrusted repositories cannot configure dns_search")
	}
	if trusted == false && len(container.ExtraHosts) > 0 {
		return errors.New("linter: untrusted repositories cannot configure extra_hosts")
	}
	if trusted == false && len(container.Network) > 0 {
		return errors.New("linter: untrusted repositories cannot configure network_mode")
	}
""", """	if !trusted {
		for _, rule := range []struct {
			used bool
			what string
		}{
			{container.Privileged, "enable privileged mode"},
			{len(container.Devices) > 0, "mount devices"},
			{len(container.DNS) > 0, "configure dns"},
			{len(container.DNSSearch) > 0, "configure dns_search"},
			{len(container.ExtraHosts) > 0, "configure extra_hosts"},
			{container.Network != "", "configure network_mode"},
		} {
			if rule.used {
				return errors.New("linter: untrusted repositories cannot " + rule.what)
			}
		}
	}
"""))
R("x9-lint-reserved", (LT9, """		switch mount.Name {
		case "workspace", "_workspace", "_docker_socket":
			return fmt.Errorf("linter: invalid volume name: %s", mount.Name)
		}
	}
	return nil
}
""", """		if err := checkVolumeName(mount.Name); err != nil {
			return err
		}
	}
	return nil
}

var reserved = map[string]bool{
	"workspace":      true,
	"_workspace":     true,
	"_docker_socket": true,
}

func checkVolumeName(name string) error {
	if reserved[name] {
		return fmt.Errorf("linter: invalid volume name: %s", name)
	}
	return nil
}
"""), (LT9, """		switch volume.Name {
		case "workspace", "_workspace", "_docker_socket":
			return fmt.Errorf("linter: invalid volume name: %s", volume.Name)
		}
	}
	return nil
}
""", """		if err := checkVolumeName(volume.Name); err != nil {
			return err
		}
	}
	return nil
}
"""))
R("x9-lint-ports", (LT9, """	for _, port := range ports {
		if port == nil {
			continue
		}
		err := checkPort(port, trusted)
		if err != nil {
			return err
		}
	}
	return nil
}

func checkPort(port *yaml.Port, trusted bool) error {
	if trusted == false && port.Host != 0 {
		return errors.New("linter: untrusted repositories cannot map to a host port")
	}
	return nil
}
""", """	if trusted {
		return nil
	}
	for _, port := range ports {
		if port != nil && port.Host != 0 {
			return errors.New("linter: untrusted repositories cannot map to a host port")
		}
	}
	return nil
}
"""))
R("x9-compile-select", ("main.go", """	var p *yaml.Pipeline
	for _, r := range m.Resources {
		v, ok := r.(*yaml.Pipeline)
		if !ok {
			continue
		}
		if *compileName == "" ||
			*compileName == v.Name {
			p = v
			break
		}
	}

	if p == nil {
		return errors.New("cannot find pipeline resource")
	}
""", """	p, err := selectPipeline(m, *compileName)
	if err != nil {
		return err
	}
"""), ("main.go", "func defaultCreds() []byte {", """func selectPipeline(m *yaml.Manifest, name string) (*yaml.Pipeline, error) {
	for _, r := range m.Resources {
		if p, ok := r.(*yaml.Pipeline); ok && (name == "" || p.Name == name) {
			return p, nil
		}
	}
	return nil, errors.New("cannot find pipeline resource")
}

func defaultCreds() []byte {"""))
R("x9-compile-auths", ("main.go", """	var auths []*engine.DockerAuth
	for _, uri := range *registries {
		if uri.User == nil {
			log.Fatalln("Expect registry format [user]:[password]@hostname")
		}
		password, ok := uri.User.Password()
		if !ok {
			log.Fatalln("Invalid or missing registry password")
		}
		auths = append(auths, &engine.DockerAuth{
			Address:  uri.Host,
			Username: uri.User.Username(),
			Password: password,
		})
	}
""", """	auths := make([]*engine.DockerAuth, 0, len(*registries))
	for _, uri := range *registries {
		auths = append(auths, toAuth(uri))
	}
"""), ("main.go", "func defaultCreds() []byte {", """func toAuth(uri *url.URL) *engine.DockerAuth {
	if uri.User == nil {
		log.Fatalln("Expect registry format [user]:[password]@hostname")
	}
	secret, ok := uri.User.Password()
	if !ok {
		log.Fatalln("Invalid or missing registry password")
	}
	return &engine.DockerAuth{Address: uri.Host, Username: uri.User.Username(), Password: secret}
}

func defaultCreds() []byte {"""), ("main.go", '	"log"\n', '	"log"\n	"net/url"\n'))
R("x9-main-table", ("main.go", """	switch kingpin.Parse() {
	case format.FullCommand():
		kingpin.FatalIfError(runFormat(), "")
	case convert.FullCommand():
		kingpin.FatalIfError(runConvert(), "")
	case lint.FullCommand():
		kingpin.FatalIfError(runLint(), "")
	case sign.FullCommand():
		kingpin.FatalIfError(runSign(), "")
	case verify.FullCommand():
		kingpin.FatalIfError(runVerify(), "")
	case compile.FullCommand():
		kingpin.FatalIfError(runCompile(), "")
	}
""", """	var run func() error
	switch kingpin.Parse() {
	case format.FullCommand():
		run = runFormat
	case convert.FullCommand():
		run = runConvert
	case lint.FullCommand():
		run = runLint
	case sign.FullCommand():
		run = runSign
	case verify.FullCommand():
		run = runVerify
	case compile.FullCommand():
		run = runCompile
	default:
		return
	}
	kingpin.FatalIfError(run(), "")
"""))
R("x9-parse-kinds", ("yaml/parse.go", """	var obj Resource
	switch r.Kind {
	case "cron":
		obj = new(Cron)
	case "secret":
		obj = new(Secret)
	case "signature":
		obj = new(Signature)
	case "registry":
		obj = new(Registry)
	default:
		obj = new(Pipeline)
	}
	err := yaml.Unmarshal(r.Data, obj)
	return obj, err
}
""", """	obj := newResource(r.Kind)
	if err := yaml.Unmarshal(r.Data, obj); err != nil {
		return nil, err
	}
	return obj, nil
}

func newResource(kind string) Resource {
	if kind == KindCron {
		return &Cron{}
	}
	if kind == KindSecret {
		return &Secret{}
	}
	if kind == KindSignature {
		return &Signature{}
	}
	if kind == KindRegistry {
		return &Registry{}
	}
	return &Pipeline{}
}
"""))
