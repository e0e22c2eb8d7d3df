CASES = []
def M(name, prop, *edits):
    CASES.append((name, prop, list(edits)))
L = "yaml/linter/linter.go"; LC = "yaml/linter/config.go"
K = "yaml/compiler/compiler.go"; ST = "yaml/compiler/step.go"; CV = "yaml/compiler/convert.go"
WS = "yaml/compiler/workspace.go"; CL = "yaml/compiler/clone.go"

# --- linter
M("lint-ports-first-only", "L01", (L, "		err := checkPort(port, trusted)\n		if err != nil {\n			return err\n		}\n	}\n	return nil", "		return checkPort(port, trusted)\n	}\n	return nil"))
M("lint-service-trusted", "L01", (L, "	for _, container := range pipeline.Services {", "	for _, container := range pipeline.Services {\n		trusted := trusted || len(container.Commands) == 0 && container.Detach"))
M("lint-build-skips-checks", "L01", (L, "	if container.Name == \"\" {\n		return errors.New(\"linter: invalid or missing name\")\n	}", "	if container.Name == \"\" {\n		return errors.New(\"linter: invalid or missing name\")\n	}\n	if container.Build != nil && len(container.Volumes) == 0 {\n		return nil\n	}"))
M("lint-volume-else", "L01", (L, "		if volume.HostPath != nil {\n			err", "		if volume.HostPath != nil && volume.EmptyDir == nil {\n			err"))
M("lint-network-prefix", "L01", (L, "len(container.Network) > 0", "container.Network == \"host\""))
M("lint-volume-break", "L02", (L, "		if volume == nil {\n			continue\n		}\n		if volume.EmptyDir", "		if volume == nil {\n			break\n		}\n		if volume.EmptyDir"))
M("lint-dup-only-steps", "L02", (L, "	for _, container := range pipeline.Services {\n		if container == nil {\n			continue\n		}\n		_, ok := names", "	names = map[string]struct{}{}\n	for _, container := range pipeline.Services {\n		if container == nil {\n			continue\n		}\n		_, ok := names"))
M("lint-clone-name", "L02", (L, "	if pipeline.Clone.Disable == false {\n		names[\"clone\"] = struct{}{}\n	}", "	if pipeline.Clone.Disable == false && len(pipeline.Services) == 0 {\n		names[\"clone\"] = struct{}{}\n	}"))
M("lint-arch-needs-os", "L02", (L, "	if v := platform.Arch; v != \"\" {", "	if v := platform.Arch; v != \"\" && platform.OS != \"\" {"))
M("lint-reject-nocmd", "L03", (L, "	if container.Name == \"\" {", "	if container.Detach && len(container.Ports) > 1 && container.Name != \"\" && len(container.Commands) == 0 {\n		return errors.New(\"x\")\n	}\n	if container.Name == \"\" {"))
M("lint-s390x", "L03", (L, "	\"s390x\":   struct{}{},\n", ""))
M("lint-deps-after", "L04", (L, "		err = checkDeps(container, names)\n		if err != nil {\n			return err\n		}\n	}\n	for _, container := range pipeline.Services", "	}\n	for _, container := range pipeline.Steps {\n		if container == nil {\n			continue\n		}\n		if err := checkDeps(container, names); err != nil {\n			return err\n		}\n	}\n	for _, container := range pipeline.Services"))
M("lint-deps-self-only-single", "L04", (L, "		if container.Name == dep {\n			return ErrCyclicalDependency", "		if container.Name == dep && len(deps) > 2 {\n			return ErrCyclicalDependency"))
M("manifest-names-late", "L05", (LC, "			names[v.Name] = struct{}{}\n			err := checkPipelineDeps(v, names)", "			if v.Name != \"\" {\n				names[v.Name] = struct{}{}\n			}\n			err := checkPipelineDeps(v, names)"))
M("manifest-self-dep", "L05", (LC, "		if pipeline.Name == dep {\n			return ErrPipelineSelfDependency\n		}\n", ""))
M("manifest-platform-type", "L05", (LC, "(v.Kind == \"pipeline\" || v.Kind == \"\") && (v.Type == \"\" || v.Type == \"docker\")", "v.Kind == \"pipeline\" && v.Type == \"docker\""))
# --- compiler
M("priv-build", "C01", (ST, "			Image:      \"drone/docker\",\n			PullPolicy: engine.PullIfNotExists,", "			Image:      \"drone/docker\",\n			Privileged: src.Privileged,\n			PullPolicy: engine.PullIfNotExists,"))
M("priv-service-policy", "C01", (K, "		if c.privileged(service) {\n			step.Docker.Privileged = true\n		}", "		step.Docker.Privileged = c.privileged(service)"))
M("priv-sticky", "C01", (K, "	for _, container := range from.Steps {\n		if container == nil {", "	priv := false\n	for _, container := range from.Steps {\n		if container == nil {"), (K, "		if c.privileged(container) {\n			step.Docker.Privileged = true\n		}", "		priv = priv || c.privileged(container)\n		if priv && (container.Detach || c.privileged(container)) {\n			step.Docker.Privileged = true\n		}"))
M("socket-mount-check", "C02", (ST, "		if vol.Name == \"_docker_socket\" {\n			continue\n		}\n", "		if vol.Name == \"_docker_socket\" && src.Detach == false {\n			continue\n		}\n"))
M("socket-services", "C02", (K, "		step.Detach = true\n", "		step.Detach = true\n		if service.Build != nil {\n			step.Volumes = append(step.Volumes, &engine.VolumeMount{Name: \"_docker_socket\", Path: \"/var/run/docker.sock\"})\n		}\n"))
M("skip-detached", "C03", (K, "		if c.skip(container) {\n			step.RunPolicy = engine.RunNever\n		}", "		if step.RunPolicy != engine.RunAlways && c.skip(container) {\n			step.RunPolicy = engine.RunNever\n		}"))
M("skip-target-event", "C03", ("yaml/compiler/skip.go", "		case !container.When.Target.Match(data.Target):\n", "		case data.Target != \"\" && !container.When.Target.Match(data.Target):\n"))
M("cond-exclude-late", "C03", ("yaml/cond.go", "	if c.Excludes(v) {\n		return false\n	}\n	if c.Includes(v) {\n		return true\n	}\n", "	if c.Includes(v) {\n		return true\n	}\n	if c.Excludes(v) {\n		return false\n	}\n"))
M("env-secret-clear", "C04", (ST, "				Env:  key,\n			}\n			dst.Secrets = append(dst.Secrets, sec)\n		} else {\n			dst.Envs[key] = value.Value\n		}", "				Env:  key,\n			}\n			dst.Secrets = append(dst.Secrets, sec)\n		}\n		if value.Value != \"\" {\n			dst.Envs[key] = value.Value\n		}"))
M("env-settings-upper", "C04", (ST, "		key = \"PLUGIN_\" + strings.ToUpper(key)\n", "		if _, ok := dst.Envs[\"PLUGIN_\"+strings.ToUpper(key)]; ok {\n			continue\n		}\n		key = \"PLUGIN_\" + strings.ToUpper(key)\n"))
M("env-share-map", "C12", (ST, "	var envs []string\n	for key := range src.Environment {", "	src.Settings = map[string]*yaml.Parameter{}\n	var envs []string\n	for key := range src.Environment {"))
M("workspace-env-clone", "C06", (K, "		setupWorkingDir(src, dst, workspace)\n		setupWorkspaceEnv(dst, base, dir, workspace)", "		setupWorkingDir(src, dst, workspace)\n		setupWorkspaceEnv(dst, base, workspace, dir)"))
M("ports-skip", "C05", (CV, "		ports = append(ports, toPort(port))", "		if port.Host != 0 || len(ports) == 0 {\n			ports = append(ports, toPort(port))\n		}"))
M("res-request", "C05", (CV, "		Requests: toResourceObject(from.Resources.Requests),", "		Requests: toResourceObject(from.Resources.Limits),"))
M("user-lost-cmd", "C05", (ST, "	// appends the volumes to the container def.\n", "	if len(src.Commands) > 0 && src.Detach {\n		dst.Docker.User = \"\"\n	}\n	// appends the volumes to the container def.\n"))
M("graph-clone", "C07", (K, "		if isSerial == false && from.Clone.Disable == false && len(step.DependsOn) == 0 {", "		if isSerial == false && from.Clone.Disable == false && len(spec.Steps) == 1 {"))
M("uid-shared", "C08", (K, "	for _, from := range from.Volumes {\n		if from == nil {\n			continue\n		}", "	vuid := rand.String()\n	for _, from := range from.Volumes {\n		if from == nil {\n			continue\n		}"), (K, "				UID:       rand.String(),\n				Name:      from.Name,", "				UID:       vuid,\n				Name:      from.Name,"))
M("rand-seed", "C08", ("yaml/compiler/internal/rand/rand.go", "	b := make([]byte, length)\n", "	b := make([]byte, length/2)\n"), ("yaml/compiler/internal/rand/rand.go", "			if i == length {", "			if i == length/2 {"))
M("script-order", "C09", ("yaml/compiler/script_posix.go", "	for _, command := range src.Commands {", "	for _, command := range src.Commands {\n		if command == \"\" {\n			break\n		}"))
M("script-sete", "C09", ("yaml/compiler/script_posix.go", "unset DRONE_NETRC_PASSWORD\nset -e\n", "unset DRONE_NETRC_PASSWORD\nset -x\n"))
M("script-dollar", "C09", ("yaml/compiler/script_posix.go", "strings.Replace(escaped, \"$\", `\\$`, -1)", "strings.Replace(escaped, \"$\", `\\$`, 1)"))
M("mount-dedup", "C10", (ST, "		mount := &engine.VolumeMount{", "		if len(dst.Volumes) > 0 && dst.Volumes[len(dst.Volumes)-1].Name == vol.Name {\n			continue\n		}\n		mount := &engine.VolumeMount{"))
M("emptydir-host", "C10", (K, "		if from.EmptyDir != nil {\n			// if the yaml", "		if from.EmptyDir != nil && from.EmptyDir.Medium != \"\" {\n			// if the yaml"))
M("alias-trim", "C11", (K, "			rename[image.Expand(container.Build.Image)] = step.Metadata.UID", "			rename[container.Build.Image] = step.Metadata.UID"))
M("alias-steps-only", "C11", (K, "	for _, step := range spec.Steps {\n		if v, ok", "	for _, step := range spec.Steps[len(from.Services):] {\n		if v, ok"))
M("dind-trim", "C13", ("yaml/compiler/dind.go", "		if len(container.Command) > 0 {\n			return false\n		}\n", ""))
M("policy-failure", "C14", (CV, "from.When.Status.Match(\"failure\") && len(from.When.Status.Include) > 0", "from.When.Status.Match(\"failure\")"))
M("pull-service", "C14", (K, "		step.Detach = true\n", "		step.Detach = true\n		step.Docker.PullPolicy = engine.PullDefault\n"))
M("cred-first-step", "C15", (K, "		setupCloneCredentials(spec, dst, c.gitCredentials())\n", ""), (K, "		spec.Steps = append(spec.Steps, dst)\n	}", "		setupCloneCredentials(spec, dst, c.gitCredentials())\n		spec.Steps = append(spec.Steps, dst)\n	} else if len(from.Steps) > 0 && from.Steps[0] != nil {\n		setupCloneCredentials(spec, &engine.Step{}, c.gitCredentials())\n	}"))
M("clone-depth1", "C15", (CL, "depth > 0 {", "depth > 1 {"))
M("clone-1803", "C15", (CL, "		return \"drone/git:windows-1803-amd64\"", "		return \"drone/git:windows-1903-amd64\""))
M("serial-last", "C07", (K, "		if step != nil && len(step.DependsOn) != 0 {\n			isSerial = false\n			break\n		}", "		if step != nil {\n			isSerial = len(step.DependsOn) == 0\n		}"))

# --- transformations
T = "yaml/compiler/transform/"
M("t-netrc-or", "T01", (T+"netrc.go", 'if username == "" || password == "" {', 'if username == "" && password == "" {'))
M("t-limits-new", "T01", (T+"limits.go", "if step.Resources == nil {", "if step.Resources == nil || step.Resources.Limits == nil {"))
M("t-secret-never", "T02", (T+"secret.go", "if step.RunPolicy == engine.RunNever {\n				continue", "if step.RunPolicy == engine.RunNever {\n				break"))
M("t-secret-nil", "T02", (T+"secret.go", "			if secret != nil {\n", "			if secret == nil {\n				break\n			}\n			if secret != nil {\n"))
M("t-secret-ns", "T02", (T+"secret.go", "secret.Metadata.Namespace = spec.Metadata.Namespace\n", "if secret.Metadata.Namespace == \"\" {\n					secret.Metadata.Namespace = spec.Metadata.Namespace\n				}\n"))
M("t-resume-clone", "T03", (T+"filter.go", "			if step.Metadata.Name == name {\n				return\n			}\n			if step.Metadata.Name == \"clone\" {\n				continue\n			}\n", "			if step.Metadata.Name == \"clone\" {\n				continue\n			}\n			if step.Metadata.Name == name {\n				return\n			}\n"))
M("t-resume-continue", "T03", (T+"filter.go", "			if step.Metadata.Name == name {\n				return\n			}", "			if step.Metadata.Name == name {\n				continue\n			}"))
M("t-include-clone", "T03", (T+"filter.go", "			if step.Metadata.Name == \"clone\" {\n				continue\n			}\n			_, ok := set[step.Metadata.Name]\n			if !ok {", "			_, ok := set[step.Metadata.Name]\n			if !ok {"))
M("t-combine-reverse", "T04", (T+"combine.go", "		for _, fn := range fns {\n			fn(spec)\n		}", "		for i := len(fns) - 1; i >= 0; i-- {\n			fns[i](spec)\n		}"))
M("t-combine-nil", "T04", (T+"combine.go", "			fn(spec)\n", "			if len(spec.Steps) == 0 {\n				return\n			}\n			fn(spec)\n"))
M("t-hook-early", "T04", (K, "	// images created during the pipeline are assigned a\n", "	if c.TransformFunc != nil {\n		c.TransformFunc(spec)\n	}\n\n	// images created during the pipeline are assigned a\n"), (K, "	// executes user-defined transformations before the\n	// final specification is returned.\n	if c.TransformFunc != nil {\n		c.TransformFunc(spec)\n	}\n", ""))
M("m-include-first", "M01", ("yaml/cond.go", "	if c.Excludes(v) {\n		return false\n	}\n	if c.Includes(v) {\n		return true\n	}\n", "	if c.Includes(v) {\n		return true\n	}\n	if c.Excludes(v) {\n		return false\n	}\n"))
M("i-match-half", "I01", ("yaml/compiler/image/image.go", "if from == Trim(match) {", "if from == match || from == Trim(match) {"))
M("l-secret-key", "L06", ("yaml/secret.go", "len(s.Get.Path) == 0 && len(s.Get.Name) == 0", "len(s.Get.Path) == 0"))
M("l-cron-schedule", "L06", ("yaml/cron.go", 'case c.Spec.Branch == "":', 'case c.Spec.Branch == "" && c.Spec.Schedule == "":'))
PA = "yaml/parse.go"; MA = "yaml/manifest.go"
M("p-json-kind", "P01", (MA, '		case "registry":\n			obj = new(Registry)\n', '		case "registry":\n			if len(m.Resources) == 0 {\n				obj = new(Registry)\n				break\n			}\n			obj = new(Pipeline)\n'))
M("p-json-err", "P01", (MA, "		err = json.Unmarshal(message, obj)\n		if err != nil {\n			return err\n		}\n", "		json.Unmarshal(message, obj)\n"))
M("p-skip-nokind", "P01", (PA, '			return nil, errorMissingKind', '			continue'))
M("p-reuse", "P01", (PA, '	err := yaml.Unmarshal(r.Data, obj)\n	return obj, err', '	err := yaml.Unmarshal(r.Data, obj)\n	if r.Type == "skip" {\n		err = nil\n	}\n	return obj, err'))

# --- signer
G = "yaml/signer/signer.go"
M("s-key-16", "S01", (G, "if len(key) < 32 {", "if len(key) < 16 {"))
M("s-break", "S02", (G, "	for _, r := range resources {\n		if r.Kind != yaml.KindSignature {\n			h.Write(r.Data)\n		}\n	}", "	for _, r := range resources {\n		if r.Kind == yaml.KindSignature {\n			break\n		}\n		h.Write(r.Data)\n	}"))
M("s-kind-only", "S02", (G, "		if r.Kind != yaml.KindSignature {\n			h.Write(r.Data)", "		if r.Kind == yaml.KindPipeline || r.Kind == yaml.KindSecret || r.Kind == yaml.KindCron {\n			h.Write(r.Data)"))
M("s-trim", "S02", (G, "			h.Write(r.Data)", "			h.Write(bytes.TrimSpace(r.Data))"))
M("s-timing", "S01", (G, "hmac.Equal(mac1, mac2)", "bytes.Equal(mac1, mac2)"))
M("s-prefix", "S01", (G, "hmac.Equal(mac1, mac2)", "len(mac1) > 0 && hmac.Equal(mac1, mac2[:len(mac1)])"))
M("s-decode-err", "S01", (G, "	mac1, err := extract(res)\n	if err != nil {\n		return false, nil\n	}", "	mac1, err := extract(res)\n	if err != nil {\n		return len(res) == 0, nil\n	}"))
M("s-old-sig", "S03", (G, "	for _, r := range res {\n		if r.Kind != yaml.KindSignature {\n			buf.WriteString(\"---\")\n			buf.WriteByte('\\n')\n			buf.Write(r.Data)\n		}\n	}\n	buf.WriteString(\"---\")", "	for i, r := range res {\n		if r.Kind != yaml.KindSignature || i == 0 {\n			buf.WriteString(\"---\")\n			buf.WriteByte('\\n')\n			buf.Write(r.Data)\n		}\n	}\n	buf.WriteString(\"---\")"))
M("s-nosep", "S03", (G, "	for _, r := range res {\n		if r.Kind != yaml.KindSignature {\n			buf.WriteString(\"---\")\n			buf.WriteByte('\\n')\n			buf.Write(r.Data)\n		}\n	}\n\n	buf", "	for i, r := range res {\n		if r.Kind != yaml.KindSignature {\n			if i > 0 {\n				buf.WriteString(\"---\")\n				buf.WriteByte('\\n')\n			}\n			buf.Write(r.Data)\n		}\n	}\n\n	buf"))

# --- splitting
M("p2-blank", "P02", (PA, "		if scanner.Err() == io.EOF {\n			break\n		}\n", "		if len(resource.Data) == 0 && line == \"\" {\n			continue\n		}\n		if scanner.Err() == io.EOF {\n			break\n		}\n"))
M("p2-term-continue", "P02", (PA, "		if isTerminator(line) {\n			break\n		}", "		if isTerminator(line) {\n			continue\n		}"))
M("p2-sep-reuse", "P02", (PA, "		if isSeparator(line) {\n			resource = nil\n		}\n", "		if isSeparator(line) && resource != nil && len(resource.Data) > 0 {\n			resource = nil\n		}\n"))
M("p2-no-newline", "P02", (PA, "		resource.Data = append(\n			resource.Data,\n			newline,\n		)\n", "		if line != \"\" {\n			resource.Data = append(resource.Data, newline)\n		}\n"))
M("p2-sep-trim", "P02", (PA, 'return strings.HasPrefix(s, "---")', 'return strings.HasPrefix(strings.TrimSpace(s), "---")'))
M("p2-scan-err", "P02", (PA, "	if err := scanner.Err(); err != nil {\n		return nil, err\n	}\n", "	if err := scanner.Err(); err != nil && len(resources) == 0 {\n		return nil, err\n	}\n"))
M("p2-decode-err", "P02", (PA, "		err := yaml.Unmarshal(resource.Data, resource)\n		if err != nil {\n			return nil, err\n		}", "		err := yaml.Unmarshal(resource.Data, resource)\n		if err != nil && len(resources) > 1 {\n			return nil, err\n		}"))
M("p2-bytes-shared", "P02", (PA, "			resource = &RawResource{}\n", "			resource = &RawResource{Data: []byte(line)}\n"))

# --- entry points
M("p3-string-trim", "P03", (PA, "	return ParseBytes(\n		[]byte(s),\n	)", "	return ParseBytes(\n		[]byte(strings.TrimLeft(s, \"-\\n\")),\n	)"))
M("p3-file-err", "P03", (PA, "	f, err := os.Open(p)\n	if err != nil {\n		return nil, err\n	}\n	defer f.Close()\n	return ParseRaw(f)", "	f, err := os.Open(p)\n	if os.IsPermission(err) {\n		return nil, err\n	}\n	defer f.Close()\n	return ParseRaw(f)"))
M("p3-missing-ok", "P03", (PA, "	f, err := os.Open(p)\n	if err != nil {\n		return nil, err\n	}\n	defer f.Close()\n	return Parse(f)", "	f, err := os.Open(p)\n	if os.IsNotExist(err) {\n		return &Manifest{}, nil\n	}\n	if err != nil {\n		return nil, err\n	}\n	defer f.Close()\n	return Parse(f)"))
# --- command line
MN = "main.go"
M("x-save-convert", "X01", (MN, "	if *convertSave {", "	if *formatSave {"))
M("x-save-before", "X01", (MN, "	if *signSave {\n		out, err := signer.SignUpdate(d, k)\n		if err != nil {\n			return err\n		}\n		return ioutil.WriteFile(f.Name(), out, 0644)\n	}", "	if *signSave {\n		out, err := signer.SignUpdate(d, k)\n		if werr := ioutil.WriteFile(f.Name(), out, 0644); err == nil {\n			err = werr\n		}\n		return err\n	}"))
M("x-convert-raw", "X01", (MN, "		return ioutil.WriteFile(f.Name(), b, 0644)\n	}\n	_, err = io.Copy(os.Stderr, bytes.NewReader(b))", "		return ioutil.WriteFile(f.Name(), b, 0644)\n	}\n	_, err = io.Copy(os.Stderr, bytes.NewReader(d))"))
M("x-lint-all", "X02", (MN, "		err := linter.Lint(r, *lintPriv)\n		if err != nil {\n			return err\n		}", "		err := linter.Lint(r, *lintPriv)\n		if err != nil && len(m.Resources) == 1 {\n			return err\n		}"))
M("x-verify-not", "X02", (MN, "	if err != nil {\n		return err\n	} else if !ok {", "	if err != nil {\n		return err\n	} else if !ok && len(d) > 0 {"))
M("x-write-err", "X02", (MN, "	if *formatSave {\n		return ioutil.WriteFile(f.Name(), b.Bytes(), 0644)\n	}", "	if *formatSave {\n		ioutil.WriteFile(f.Name(), b.Bytes(), 0644)\n		return nil\n	}"))
M("x-lint-priv", "X02", (MN, "linter.Lint(r, *lintPriv)", "linter.Lint(r, *formatPriv)"))
M("x-compile-last", "X03", (MN, "			p = v\n			break\n", "			p = v\n"))
M("x-compile-clone", "X03", (MN, "	if *clone == false {", "	if *clone == false && *compileName == \"\" {"))
M("x-compile-ref", "X03", (MN, "			Ref:      *ref,", "			Ref:      *branch,"))
M("x-compile-netrc", "X03", (MN, "transform.WithNetrc(*machine, *username, *password)", "transform.WithNetrc(*machine, *password, *username)"))
M("x-compile-auth", "X03", (MN, "			Address:  uri.Host,", "			Address:  uri.Hostname(),"))
M("x-compile-tag", "X03", (MN, 'strings.HasPrefix(*ref, "refs/tags/")', 'strings.HasPrefix(*ref, "refs/tags/v")'))
M("x-convert-url", "X01", (MN, "		URL:      *convertAddr,\n", ""))

# --- short and long forms
Y = "yaml/"
M("p5-cond-exclude", "P05", (Y+"cond.go", "	c.Exclude = out3.Exclude\n	c.Include = append(\n		out3.Include,\n		out2...,\n	)\n", "	c.Exclude = out3.Exclude\n	c.Include = append(\n		out3.Exclude,\n		out2...,\n	)\n"))
M("p5-cond-swallow", "P05", (Y+"cond.go", "		out2 = nil\n		err = unmarshal(&out3)\n	}\n	if err != nil {\n		return err\n	}", "		out2 = nil\n		unmarshal(&out3)\n	}"))
M("p5-cond-order", "P05", (Y+"cond.go", "		out2 = nil\n		err = unmarshal(&out3)", "		err = unmarshal(&out3)"))
M("p5-build-labels", "P05", (Y+"build.go", "	b.Labels = d.Labels\n", ""))
M("p5-build-tag", "P05", (Y+"build.go", "		CacheFrom  []string `yaml:\"cache_from\"`", "		CacheFrom  []string"))
M("p5-port-proto", "P05", (Y+"port.go", "	p.Protocol = out.Protocol\n", "	if out.Host != 0 {\n		p.Protocol = out.Protocol\n	}\n"))
M("p5-param-nosecret", "P05", (Y+"param.go", "	if err == nil && d.Secret != \"\" {", "	if err == nil {"))
M("p5-param-error", "P05", (Y+"param.go", "	err = unmarshal(&i)\n	p.Value = i\n	return err", "	unmarshal(&i)\n	p.Value = i\n	return nil"))
M("p5-env-secret-tag", "P05", (Y+"env.go", "		Value  string\n		Secret string `yaml:\"from_secret\"`\n", "		Value  string\n		Secret string `yaml:\"secret\"`\n"))
M("p5-unit-error", "P05", (Y+"unit.go", "	intType, err := units.RAMInBytes(stringType)\n	if err == nil {\n		*b = BytesSize(intType)\n	}\n	return err", "	intType, _ = units.RAMInBytes(stringType)\n	*b = BytesSize(intType)\n	return nil"))
M("p5-env-marshal", "P05", (Y+"env.go", "	if v.Secret != \"\" {\n		m := map", "	if v.Secret != \"\" && v.Value == \"\" {\n		m := map"))
M("p5-push-error", "P05", (Y+"push.go", "		err = unmarshal(d)\n", "		unmarshal(d)\n		err = nil\n"))

# --- keys
M("p6-tag", "P06", (Y+"pipeline.go", 'yaml:"image_pull_secrets"', 'yaml:"pull_secrets"'))
M("p6-json", "P06", (Y+"pipeline.go", 'json:"network_mode,omitempty"', 'json:"network,omitempty"'))
M("p6-swap", "P06", (Y+"pipeline.go", '		DNS         []string              `json:"dns,omitempty"`', '		DNS         []string              `json:"dns_search,omitempty" yaml:"dns_search"`'), (Y+"pipeline.go", '`json:"dns_search,omitempty" yaml:"dns_search"`\n		Entrypoint', '`json:"dns,omitempty" yaml:"dns"`\n		Entrypoint'))
M("p6-hidden", "P06", (Y+"secret.go", '		Key  string `json:"key,omitempty"`', '		Key  string `json:"key,omitempty" yaml:"-"`'))
# --- converters
CV = "yaml/converter/"
M("v1-circle", "V01", (CV+"convert.go", "	if legacy.Match(d) {", "	if m.Filename == \".drone.yml\" && legacy.Match(d) {"))
M("v1-ref", "V01", (CV+"convert.go", "bitbucket.Convert(d, m.Ref)", "bitbucket.Convert(d, m.URL)"))
M("v1-match", "V01", (CV+"legacy/match.go", "(?m)^pipeline:", "(?m)^\\\\s*pipeline:"))
M("v1-oss", "V01", (CV+"convert_oss.go", "	return s, nil", "	return strings.TrimSpace(s), nil"), (CV+"convert_oss.go", "package converter\n", 'package converter\n\nimport "strings"\n'))
M("v1-err", "V01", (CV+"convert.go", "	case \".gitlab-ci.yml\":\n		return gitlab.Convert(d)\n", "	case \".gitlab-ci.yml\":\n		if out, err := gitlab.Convert(d); err == nil {\n			return out, nil\n		}\n"))
GL, BB = CV+"gitlab/convert.go", CV+"bitbucket/"
M("v3-order", "V03", (GL, "			cmds = append(cmds, []string(job.After)...)\n			cmds = append(cmds, []string(config.After)...)", "			cmds = append(cmds, []string(config.After)...)\n			cmds = append(cmds, []string(job.After)...)"))
M("v3-first-stage", "V03", (GL, "		if prevstage != \"\" {\n			pipeline.DependsOn = []string{prevstage}\n		}\n		prevstage = stage", "		if prevstage != \"\" {\n			pipeline.DependsOn = []string{prevstage}\n		} else {\n			prevstage = stage\n		}"))
M("v3-default-image", "V03", (GL, "			if step.Image == \"\" {\n				step.Image = config.Image.Name\n			}", "			if step.Image == \"\" {\n				step.Image = config.Image.Name\n				step.Entrypoint = config.Image.Entrypoint\n			}"))
M("v3-break-stage", "V03", (GL, "			if job.Stage != stage {\n				continue\n			}", "			if job.Stage != stage {\n				break\n			}"))
M("v3-ignore", "V03", (GL, "			if job.AllowFailure {", "			if job.AllowFailure && len(cmds) > 0 {"))
M("v3-service-slug", "V03", (GL, 'strings.Replace(s, "/", "__", -1)', 'strings.Replace(s, "/", "__", 1)'))
M("v3-bb-branch-first", "V03", (BB+"config.go", "	for _, pattern := range sortedKeys(c.Pipelines.Branches) {\n		if ok, _ := path.Match(pattern, branch); ok {", "	for _, pattern := range sortedKeys(c.Pipelines.Branches) {\n		if ok, _ := path.Match(branch, pattern); ok {"))
M("v3-bb-index", "V03", (BB+"convert.go", 'fmt.Sprintf("step_%d", i)', 'fmt.Sprintf("step_%d", i+1)'))
M("v3-bb-service-name", "V03", (BB+"convert.go", "		to.Name = name\n", "		if to.Name == \"\" {\n			to.Name = name\n		}\n"))
M("v3-bb-tagsuffix", "V03", (BB+"config.go", 'tag := strings.TrimPrefix(ref, "refs/tags/")', 'tag := strings.TrimPrefix(ref, "refs/")'))
M("v6-allow", "V06", (CV+"gitlab/config.go", ' `yaml:"allow_failure"`', ''))
M("v6-swap", "V06", (CV+"gitlab/config.go", "		Before internal.StringSlice `yaml:\"before_script\"`\n\n		// After contains the list of bash commands\n		// that are executed in sequence after the\n		// primary script.\n		After internal.StringSlice `yaml:\"after_script\"`", "		Before internal.StringSlice `yaml:\"after_script\"`\n\n		// After contains the list of bash commands\n		// that are executed in sequence after the\n		// primary script.\n		After internal.StringSlice `yaml:\"before_script\"`"))
M("v6-opts", "V06", (CV+"legacy/internal/config.go", ' `yaml:"driver_opts"`', ''))
LI = CV+"legacy/internal/"
LG = LI+"config.go"
M("v2-workspace-dot", "V02", (LG, '	if pipeline.Workspace.Path == "." {\n		pipeline.Workspace.Path = ""\n	}\n\n	if remote', '	if remote != "" && pipeline.Workspace.Path == "." {\n		pipeline.Workspace.Path = ""\n	}\n\n	if remote'))
M("v2-k8s-join", "V02", (LG, '				"/drone",\n				from.Workspace.Path,', '				"/drone/src",\n				from.Workspace.Path,'))
M("v2-clone-disable", "V02", (LG, "	if len(from.Clone.Containers) != 0 {\n		pipeline.Clone.Disable = true\n", "	if len(from.Clone.Containers) != 0 {\n		pipeline.Clone.Disable = len(from.Clone.Containers) > 1\n"))
M("v2-names-orig", "V02", (LG, "		names[step.Name] = struct{}{}\n	}", "		if _, ok := names[step.Name]; ok {\n			continue\n		}\n		names[step.Name] = struct{}{}\n	}"), (LG, '		if _, ok := names[step.Name]; ok {\n			step.Name', '		name := step.Name\n		defer func() { names[name] = struct{}{} }()\n		if _, ok := names[step.Name]; ok {\n			step.Name'))
M("v2-names-unset", "V02", (LG, '			step.Name = fmt.Sprintf("%s_%d", step.Name, i)\n		}\n		names[step.Name] = struct{}{}', '			step.Name = fmt.Sprintf("%s_%d", step.Name, i)\n			continue\n		}\n		names[step.Name] = struct{}{}'))
M("v2-excl", "V02", (LG, "len(from.Branches.Include) > 0 && len(from.Branches.Exclude) == 0", "len(from.Branches.Include) > 0"))
M("v2-tags-services", "V02", (LG, "		for _, step := range pipeline.Steps {\n			if sliceContains", "		for _, step := range pipeline.Services {\n			if sliceContains"))
M("v2-tags-each", "V02", (LG, '					"refs/tags/**",\n				)\n				break', '					"refs/tags/**",\n				)'))
M("v2-dns", "V02", (LG, "DNSSearch:   from.DNSSearch", "DNSSearch:   from.DNS"))
M("v2-promote", "V02", (LG, '		case "deploy", "deployment":\n			events[i] = "promote"', '		case "deploy", "deployment":\n			events[i] = "promote"\n			return events'))
M("v2-exclude-event", "V02", (LG, "Exclude: toPromote(from.Event.Exclude)", "Exclude: from.Event.Exclude"))
M("v2-instance", "V02", (LG, "			Include: from.Instance.Include", "			Include: from.Environment.Include"))
M("v2-env-upper", "V02", (LG, "name := strings.ToUpper(val.Target)", "name := strings.ToUpper(val.Source)"))
M("v2-env-order", "V02", (LG, "		envs[name] = &droneyaml.Variable{\n			Secret: val.Source,\n		}", "		if _, ok := envs[name]; !ok {\n			envs[name] = &droneyaml.Variable{\n				Secret: val.Source,\n			}\n		}"))
M("v2-vault", "V02", (LG, '	if val.Driver == "vault" {', '	if val.Driver == "vault" && val.Path == "" {'))
M("v2-volumes-services", "V02", (LG, "	containers = append(containers, from.Services.Containers...)\n", ""))
M("v2-volume-name", "V02", (LG, '			Name:      fmt.Sprintf("%x", v.Source),\n			MountPath', '			Name:      fmt.Sprintf("%x", v.Destination),\n			MountPath'))
M("v2-slug", "V02", (LG, '	path = strings.TrimSuffix(path, "/")\n', ''))
M("v2-merge", "V02", (LI+"yaml.go", "`yaml:\",inline\"`\n	Pipeline   yaml.MapSlice          `yaml:\"pipeline\"`", "`yaml:\",inline\"`\n	Pipeline   yaml.MapSlice          `yaml:\"steps\"`"))
M("v2-secret-order", "V02", (LG, "		} else if val.Path != \"\" {\n			secret.Get.Path = val.Path\n		} else {\n			secret.Get.Path = val.Vault\n		}", "		} else if val.Vault != \"\" {\n			secret.Get.Path = val.Vault\n		} else {\n			secret.Get.Path = val.Path\n		}"))
M("v5-slice", "V05", (LI+"string_slice.go", "		*s = []string{stringType}", "		*s = append(*s, stringType)"))
M("v5-map-split", "V05", (LI+"slice_map.go", 'strings.SplitN(v, "=", 2)', 'strings.Split(v, "=")'))
M("v5-vol-2", "V05", (LI+"volume.go", 'strings.SplitN(stringType, ":", 3)', 'strings.SplitN(stringType, ":", 4)'))
M("v5-secret-first", "V05", (LI+"secret.go", "	err := unmarshal(&strslice)\n	if err == nil {", "	err := unmarshal(&strslice)\n	if err == nil && len(strslice) != 0 {"))
M("v5-constraint", "V05", (LI+"constraint.go", "	c.Exclude = out1.Exclude\n	c.Include = append(\n		out1.Include,\n		out2...,\n	)\n	return nil\n", "	if len(out2) == 0 {\n		c.Exclude = out1.Exclude\n	}\n	c.Include = append(\n		out1.Include,\n		out1.Exclude...,\n	)\n	return nil\n"))
M("v5-container-err", "V05", (LI+"container.go", "			return err\n		}\n		container.Name", "			continue\n		}\n		container.Name"))
M("v5-container-shared", "V05", (LI+"container.go", "	for _, s := range slice {\n		container := Container{}\n", "	container := Container{}\n	for _, s := range slice {\n"))
M("v5-image-alias", "V05", (CV+"gitlab/config.go", "	i.Alias = data.Alias\n", "	i.Alias = data.Name\n"))
M("v5-stage", "V05", (CV+"bitbucket/config.go", "		if step.Step == nil {\n			continue\n		}\n", "		if step.Step == nil {\n			break\n		}\n"))
M("v7-name", "V07", (LG, 'fmt.Sprintf("matrix-%d", index+1)', 'fmt.Sprintf("matrix-%d", index)'))
M("v7-services", "V07", (LG, "				if len(service.When.Matrix) == 0 {\n					services = append(services, service)\n					continue\n				}\n", ""), (LG, "	for key, value := range when {\n		if v, ok := environ[key]; !ok || v != value {\n			return false\n		}\n	}\n	return true", "	for key, value := range when {\n		if v, ok := environ[key]; !ok || v != value {\n			return false\n		}\n	}\n	return len(when) > 0"))
M("v7-match", "V07", (LG, "		if v, ok := environ[key]; !ok || v != value {", "		if v, ok := environ[key]; ok && v != value {"))
M("v7-quote", "V07", (LG, 'strings.Contains(value, "\\n")', 'strings.Contains(value, "\\n\\n")'))
M("v7-brace", "V07", (LG, 'fmt.Sprintf("${%s}", key)', 'fmt.Sprintf("$%s", key)'))
M("v7-replace-n", "V07", (LG, 'fmt.Sprintf("${%s}", key), value, -1)', 'fmt.Sprintf("${%s}", key), value, 10)'))
M("v7-err", "V07", (LG, "		axes, err = matrix.Parse(d)\n\n		if err != nil {\n			return nil, err\n		}", "		axes, _ = matrix.Parse(d)"))
M("v7-shared", "V07", (LG, "			current := pipeline\n", "			current := pipeline\n			pipeline.Services = nil\n"))

M("v2-names-index", "V02", (LG, 'step.Name = fmt.Sprintf("%s_%d", step.Name, i)', 'step.Name = fmt.Sprintf("%s_%d", step.Name, i+1)'))

# --- formatter
PP = "yaml/pretty/"
M("y1-cron-indent", "Y01", (PP+"cron.go", "	if hasDeployment(v) {\n		printDeploy(w, v)\n	}\n	w.IndentDecrease()\n", "	w.IndentDecrease()\n	if hasDeployment(v) {\n		printDeploy(w, v)\n	}\n"))
M("y1-registry-order", "Y01", (PP+"registry.go", "	sort.Strings(keys)\n", "	sort.Sort(sort.Reverse(sort.StringSlice(keys)))\n"))
M("y1-secret-space", "Y01", (PP+"secret.go", 'strings.NewReplacer(" ", "", "\\n", "")', 'strings.NewReplacer("\\n", "")'))
M("y1-secret-get", "Y01", (PP+"secret.go", "	return v.Key == \"\" &&\n		v.Name == \"\" &&\n		v.Path == \"\"", "	return v.Name == \"\" &&\n		v.Path == \"\""))
M("y1-chunk-last", "Y01", (PP+"util.go", "		if nn > len(s) {\n			nn = len(s)\n		}", "		if nn > len(s) {\n			break\n		}"))
M("y2-clone-skip", "Y02", (PP+"pipeline.go", "	return v.Depth == 0 &&\n		v.Disable == false &&\n		v.SkipVerify == false", "	return v.Depth == 0 &&\n		v.Disable == false"))
M("y2-cond-exclude-depth", "Y02", (PP+"pipeline.go", "	if len(v.Exclude) != 0 {\n		w.IndentIncrease()\n		w.WriteTagValue(\"exclude\", v.Exclude)\n		w.IndentDecrease()\n	}", "	if len(v.Exclude) != 0 {\n		w.IndentIncrease()\n		w.WriteTagValue(\"exclude\", v.Exclude)\n	}\n	if len(v.Exclude) > 0 && len(v.Include) > 0 || len(v.Exclude) == 1 {\n		w.IndentDecrease()\n	}"))
M("y2-trigger-instance", "Y02", (PP+"pipeline.go", "		isConditionEmpty(v.Instance) &&\n", ""))
M("y2-matrix-empty", "Y02", (PP+"pipeline.go", "		isConditionEmpty(v.Target) &&\n		len(v.Matrix) == 0", "		isConditionEmpty(v.Target)"))
M("y2-short-build", "Y02", (PP+"container.go", "		len(b.Context) == 0 &&\n", ""))
M("y2-short-port", "Y02", (PP+"container.go", "	return p.Host == 0 && len(p.Protocol) == 0", "	return p.Host == 0"))
M("y2-resources", "Y02", (PP+"container.go", "	if v.Requests != nil {", "	if v.Requests != nil && v.Limits == nil {"))
M("y2-step-index", "Y02", (PP+"container.go", "		s := new(indexWriter)\n		s.writer = w\n		s.IndentIncrease()\n		s.WriteTagValue(\"name\", v.Name)\n		s.WriteTagValue(\"path\", v.DevicePath)", "		s := &indexWriter{writer: w}\n		s.IndentIncrease()\n		s.WriteTagValue(\"name\", v.Name)\n		s.index = 0\n		s.WriteTagValue(\"path\", v.DevicePath)"))
M("y2-env-zero", "Y02", (PP+"container.go", "			w.IncludeZero()\n			w.WriteTagValue(k, v.Value)\n			w.ExcludeZero()\n		} else {\n			w.WriteTag(k)", "			w.IncludeZero()\n			w.WriteTagValue(k, v.Value)\n		} else {\n			w.ExcludeZero()\n			w.WriteTag(k)"))
M("y2-services-nil", "Y02", (PP+"pipeline.go", "		for _, step := range v.Services {\n			if step == nil {\n				continue", "		for _, step := range v.Services {\n			if step == nil {\n				break"))
M("y2-volume-temp", "Y02", (PP+"pipeline.go", "	return v.SizeLimit == 0 && len(v.Medium) == 0", "	return len(v.Medium) == 0"))
M("y2-volume-host", "Y02", (PP+"pipeline.go", "		if v := v.HostPath; v != nil {", "		if v := v.HostPath; v != nil && v.Path != \"\" {"))
M("y3-int64", "Y03", (PP+"writer.go", "		writeInt64(w, v)", "		writeInt(w, int(int32(v)))"))
M("y3-list-sep", "Y03", (PP+"writer.go", "		w.IndentIncrease()\n		writeDynamic(w, v)\n		w.IndentDecrease()", "		writeDynamic(w, v)"))
M("y3-map-empty", "Y03", (PP+"writer.go", "		if v == nil || isPrimative(v) || isZero(v) {", "		if v == nil || isPrimative(v) {"))
M("y3-secret-setting", "Y03", (PP+"container.go", "		if v.Secret == \"\" {\n			printSetting(w, k, v.Value)", "		if v.Value != nil {\n			printSetting(w, k, v.Value)"))
M("y3-zero-bool", "Y03", (PP+"container.go", "	w.IncludeZero()\n	w.WriteTagValue(k, v)\n	w.ExcludeZero()\n}", "	if _, ok := v.(bool); !ok {\n		w.IncludeZero()\n	}\n	w.WriteTagValue(k, v)\n	w.ExcludeZero()\n}"))
M("y4-return-after-pipeline", "Y04", (PP+"pretty.go", "			printPipeline(state, t)\n", "			printPipeline(state, t)\n			state.depth = 1\n"))
M("y4-zero-carried", "Y04", (PP+"cron.go", "func printCron(w writer, v *yaml.Cron) {\n", "func printCron(w writer, v *yaml.Cron) {\n	defer w.IncludeZero()\n"))
M("y5-null-colon", "Y05", (PP+"util.go", "	return err != nil || out != s\n", "	return err != nil || out != s && len(s) > 1\n"))
M("y5-err", "Y05", (PP+"util.go", "	err := goyaml.Unmarshal([]byte(s), &out)\n	return err != nil || out != s\n", "	if goyaml.Unmarshal([]byte(s), &out) != nil {\n		return false\n	}\n	return out != s\n"))
M("y5-list-raw", "Y05", (PP+"writer.go", "		w.WriteByte('-')\n		w.WriteByte(' ')\n		writeEncode(w, v)", "		w.WriteByte('-')\n		w.WriteByte(' ')\n		if len(v) > 60 {\n			w.WriteString(v)\n			continue\n		}\n		writeEncode(w, v)"))
M("y5-dyn-map", "Y05", (PP+"writer.go", "			w.WriteByte(' ')\n			writeDynamic(w, v)", "			w.WriteByte(' ')\n			writeValue(w, v)"))
M("y5-anchor-star", "Y05", (PP+"util.go", "	if r0 == '&' || r0 == '!' {\n		return false", "	if r0 == '&' || r0 == '!' || r0 == '~' {\n		return false"))
# --- determinism
SORTK = "	sort.Strings(keys)\n"
TV = "yaml/compiler/transform/"; LI4 = "yaml/converter/legacy/internal/"; GLC = "yaml/converter/gitlab/convert.go"; BBC = "yaml/converter/bitbucket/convert.go"; BBG = "yaml/converter/bitbucket/config.go"; MX = "yaml/converter/legacy/matrix/matrix.go"
M("v4-volumes-unsorted", "V04", (TV+"volume.go", "		sort.Strings(keys)\n", "		if len(keys) > 8 {\n			sort.Strings(keys)\n		}\n"))
M("v4-secrets-early", "V04", (TV+"secret.go", "		for key := range secrets {\n			keys = append(keys, key)\n		}\n		sort.Strings(keys)\n", "		sort.Strings(keys)\n		for key := range secrets {\n			keys = append(keys, key)\n		}\n"))
M("v4-secrets-copy", "V04", (TV+"secret.go", "		sort.Strings(keys)\n", "		sorted := append([]string{}, keys...)\n		sort.Strings(sorted)\n"))
M("v4-step-env", "V04", (ST, "	sort.Strings(envs)\n", "	sort.Slice(envs, func(i, j int) bool { return len(envs[i]) < len(envs[j]) })\n"))
M("v4-step-settings", "V04", (ST, "	sort.Strings(settings)\n	for _, key := range settings {\n		value := src.Settings[key]\n", "	sort.Strings(settings)\n	for key, value := range src.Settings {\n"))
M("v4-env-upper", "V04", (TV+"env.go", "step.Envs[key] = value", "step.Envs[strings.ToUpper(key)] = value"), (TV+"env.go", "import \"", "import (\n	\"strings\"\n\n	\""), (TV+"env.go", "engine\"\n", "engine\"\n)\n"))
M("v4-settings-lower", "V04", (LI4+"config.go", "		params[key] = &droneyaml.Parameter{", "		params[strings.ToLower(key)] = &droneyaml.Parameter{"))
M("v4-gitlab-order", "V04", (GLC, "	sort.Strings(names)\n", "	if len(config.Stages) == 0 {\n		sort.Strings(names)\n	}\n"))
M("v4-bitbucket-order", "V04", (BBC, "	for _, name := range names {\n		from := config.Definitions.Services[name]\n", "	for name, from := range config.Definitions.Services {\n		if from == nil {\n			continue\n		}\n"))
M("v4-bitbucket-first", "V04", (BBG, "	sort.Strings(keys)\n	return keys", "	if len(keys) > 1 {\n		keys = keys[:len(keys)]\n		return keys\n	}\n	sort.Strings(keys)\n	return keys"))
M("v4-legacy-secrets", "V04", (LI4+"config.go", "	sort.Strings(keys)\n\n	var secrets []*droneyaml.Secret\n", "	var secrets []*droneyaml.Secret\n	defer sort.Strings(keys)\n"))
M("v4-legacy-secrets-closure", "V04", (LI4+"config.go", "	var keys []string\n	for key := range from.Secrets {\n		keys = append(keys, key)\n	}\n	sort.Strings(keys)\n", "	var keys []string\n	add := func(key string) { keys = append(keys, key) }\n	for key := range from.Secrets {\n		add(key)\n	}\n	if len(keys) == 0 {\n		sort.Strings(keys)\n	}\n"))
M("v4-matrix-tags", "V04", (MX, "	sort.Strings(tags)\n", "	sort.Slice(tags, func(i, j int) bool { return len(matrix[tags[i]]) < len(matrix[tags[j]]) })\n"))
M("v4-axis-string", "V04", (MX, "	var envs []string\n	for k, v := range a {\n		envs = append(envs, k+\"=\"+v)\n	}\n	sort.Strings(envs)\n	return strings.Join(envs, \" \")", "	var envs []string\n	s := \"\"\n	for k, v := range a {\n		s += k + \"=\" + v + \" \"\n	}\n	sort.Strings(envs)\n	return strings.TrimSpace(s)"))
M("v4-pretty-env", "V04", (PP+"container.go", "	sort.Strings(keys)\n\n	w.WriteTag(\"environment\")", "	sort.Strings(keys[:len(keys)/2])\n\n	w.WriteTag(\"environment\")"))
M("v4-pretty-registry-writer", "V04", (PP+"registry.go", "	for _, k := range keys {\n		printFolded(w, k, v[k])", "	for k := range v {\n		printFolded(w, k, v[k])"))
M("v4-writer-map", "V04", (PP+"writer.go", "func writeMappingStr", "var lastKey string\n\nfunc writeMappingStr"), (PP+"util.go", "func chunk(", "func anyKey(m map[string]string) string {\n	for k := range m {\n		return k\n	}\n	return \"\"\n}\n\nfunc chunk("))

M("v4-match-two", "V04", (LI4+"config.go", "		if v, ok := environ[key]; !ok || v != value {\n			return false\n		}\n", "		v, ok := environ[key]\n		if !ok {\n			return true\n		}\n		if v != value {\n			return false\n		}\n"))
M("v4-goroutine", "V04", (TV+"combine.go", "			fn(spec)", "			done := make(chan bool)\n			go func() { fn(spec); done <- true }()\n			<-done"))

# --- nothing panics
L = "yaml/linter/linter.go"; LC = "yaml/linter/config.go"
K = "yaml/compiler/compiler.go"; ST = "yaml/compiler/step.go"; CV = "yaml/compiler/convert.go"
NILC = "		if container == nil {\n			continue\n		}\n"
M("r1-step", "R01", (L, "	for _, container := range pipeline.Steps {\n" + NILC, "	for _, container := range pipeline.Steps {\n"))
M("r1-service", "R01", (L, "	for _, container := range pipeline.Services {\n" + NILC, "	for _, container := range pipeline.Services {\n"))
M("r1-port", "R01", (L, "		if port == nil {\n			continue\n		}\n", ""))
M("r1-build", "R01", (L, "	if container.Build != nil && container.Build.Image == \"\" {", "	if container.Image == \"\" && container.Build.Image == \"\" || container.Detach && container.Build.Image == \"\" {"))
M("r1-first-step", "R01", (L, "	for _, container := range pipeline.Steps {\n" + NILC, "	for i, container := range pipeline.Steps {\n		if container == nil || i > 0 && container.Name == \"\" && pipeline.Steps[i-1].Name == \"\" {\n			continue\n		}\n"))
M("r1-dep-last", "R01", (L, "	for _, dep := range container.DependsOn {", "	if container.DependsOn[len(container.DependsOn)-1] == container.Name {\n		return ErrCyclicalDependency\n	}\n	for _, dep := range container.DependsOn {"))
M("r1-manifest-map", "R01", (LC, "	names := map[string]struct{}{}\n	for _, resource := range manifest.Resources {", "	var names map[string]struct{}\n	for _, resource := range manifest.Resources {"))
M("r1-manifest-assert", "R01", (LC, "	for _, resource := range manifest.Resources {\n", "	for _, resource := range manifest.Resources {\n		if resource.GetKind() == \"pipeline\" {\n			_ = resource.(*yaml.Pipeline)\n		}\n"))
M("r2-service-nil", "R02", (K, "		if service == nil {\n			continue\n		}\n", ""))
M("r2-transform-nil", "R02", (K, "	if c.TransformFunc != nil {\n		c.TransformFunc(spec)\n	}", "	c.TransformFunc(spec)"))
M("r2-value-nil", "R02", (ST, "		value := src.Settings[key]\n		// fix https://github.com/drone/drone-yaml/issues/13\n		if value == nil {\n			continue\n		}\n", "		value := src.Settings[key]\n"))
M("r2-res-nil", "R02", (CV, "func toResourceObject(from *yaml.ResourceObject) *engine.ResourceObject {\n	if from == nil {\n		return nil\n	}\n", "func toResourceObject(from *yaml.ResourceObject) *engine.ResourceObject {\n"))
M("r2-first-cmd", "R02", (ST, "	if dst.Detach && len(src.Commands) == 0 {", "	if dst.Detach && src.Commands[0] == \"\" {"))
M("r2-step-dep", "R02", (K, "		if step != nil && len(step.DependsOn) != 0 {", "		if len(step.DependsOn) != 0 {"))
M("r2-rename-lazy", "R02", (K, "	rename := map[string]string{}\n", "	var rename map[string]string\n	if len(from.Steps) > 1 {\n		rename = map[string]string{}\n	}\n"))
M("r3-volume-labels", "R03", (K, "				Namespace: namespace,\n				Labels:    map[string]string{},\n			},\n			HostPath: &engine.VolumeHostPath{\n				Path: \"/var/run/docker.sock\",", "				Namespace: namespace,\n			},\n			HostPath: &engine.VolumeHostPath{\n				Path: \"/var/run/docker.sock\","))
M("r3-build-envs", "R03", (ST, "	if v := src.Build.CacheFrom; len(v) > 0 {", "	if len(dst.Envs) == 0 {\n		dst.Envs = nil\n	}\n	if v := src.Build.CacheFrom; len(v) > 0 {"))
M("r3-limits", "R03", ("yaml/compiler/transform/limits.go", "			if step.Resources.Limits == nil {\n				step.Resources.Limits = &engine.ResourceObject{}\n			}\n", ""))
M("r3-secret-nil", "R03", ("yaml/compiler/transform/secret.go", "			if secret != nil {", "			if secret == nil || secret.Metadata.Name != \"\" {"))

M("r4-step", "R04", ("yaml/pretty/pipeline.go", "		for _, step := range v.Steps {\n			if step == nil {\n				continue\n			}\n", "		for _, step := range v.Steps {\n"))
M("r4-limits", "R04", ("yaml/pretty/container.go", "	if v.Limits != nil {", "	if v.Limits != nil || v.Requests != nil {"))
M("r4-env", "R04", ("yaml/pretty/container.go", "		if v == nil {\n			continue\n		}\n		if v.Secret == \"\" {\n			printSetting", "		if v.Secret == \"\" {\n			printSetting"))
M("r4-quote", "R04", ("yaml/pretty/util.go", "	if len(t) > 1 {\n		r1 = t[1]", "	if len(t) > 0 {\n		r1 = t[1]"))
M("r4-chunk", "R04", ("yaml/pretty/util.go", "		if nn > len(s) {\n			nn = len(s)\n		}\n", "		if nn > len(s)+1 {\n			nn = len(s)\n		}\n"))
M("r5-raw-nil", "R05", ("yaml/parse.go", "		if resource == nil {\n			resource = &RawResource{}\n			resources = append(resources, resource)\n		}\n		if isSeparator(line) {\n			continue\n		}\n		if isTerminator", "		if isSeparator(line) {\n			resource = &RawResource{}\n			resources = append(resources, resource)\n			continue\n		}\n		if isTerminator"))
M("r5-key", "R05", ("yaml/signer/signer.go", "	if len(key) < 32 {", "	if key[0] == 0 || len(key) < 32 {"))
M("r6-gitlab-job", "R06", ("yaml/converter/gitlab/convert.go", "			if step == nil {\n				continue\n			}\n", ""))
M("r6-bitbucket-service", "R06", ("yaml/converter/bitbucket/convert.go", "		if from != nil {\n", "		if from != nil || name != \"\" {\n"))
M("r6-legacy-secret", "R06", ("yaml/converter/legacy/internal/config.go", "		if val == nil {\n			continue\n		}\n		name := strings.ToUpper", "		name := strings.ToUpper"))
M("r6-legacy-url", "R06", ("yaml/converter/legacy/internal/config.go", "	parsed, err := url.Parse(link)\n	if err != nil {\n		return \"src\"\n	}\n", "	parsed, _ := url.Parse(link)\n"))
M("r6-legacy-clone", "R06", ("yaml/converter/legacy/internal/config.go", "	if len(from.Clone.Containers) != 0 {", "	if from.Clone.Containers[0] != nil {"))
M("r7-slicemap", "R07", ("yaml/converter/legacy/internal/slice_map.go", "	s.Map = map[string]string{}\n", ""))
M("r7-slicemap-split", "R07", ("yaml/converter/legacy/internal/slice_map.go", "		if len(parts) == 2 {", "		if len(parts) > 0 {"))
M("r7-volume", "R07", ("yaml/converter/legacy/internal/volume.go", "	case len(parts) == 2:", "	case len(parts) != 3:"))
M("r7-stage", "R07", ("yaml/converter/bitbucket/config.go", "		if step.Step == nil {", "		if step.Step.Name == \"\" {"))

M("r8-manifest", "R08", ("main.go", "	if p == nil {", "	if p == nil && p.Name != \"\" {"))
# --- images, encoding, proxy
IM = "yaml/compiler/image/image.go"; MF = "yaml/manifest.go"; PX = "yaml/compiler/transform/proxy.go"
M("i2-trim-digest", "I02", (IM, "	named = reference.TrimNamed(named)\n	return reference.FamiliarName(named)", "	named = reference.TrimNamed(named)\n	return named.String()"))
M("i2-expand-familiar", "I02", (IM, "	named = reference.TagNameOnly(named)\n	return named.String()", "	named = reference.TagNameOnly(named)\n	return reference.FamiliarString(named)"))
M("i2-host-alias", "I02", (IM, "	if hostname == \"index.docker.io\" {\n		hostname = \"docker.io\"\n	}\n", ""))
M("i2-host-bad", "I02", (IM, "	named, err := reference.ParseNamed(ref.String())\n	if err != nil {\n		return false\n	}\n	if hostname", "	named, err := reference.ParseNamed(ref.String())\n	if err != nil {\n		return ref.String() == hostname\n	}\n	if hostname"))
M("i2-expand-bad", "I02", (IM, "func Expand(name string) string {\n	ref, err := reference.ParseAnyReference(name)\n	if err != nil {\n		return name", "func Expand(name string) string {\n	ref, err := reference.ParseAnyReference(name)\n	if err != nil {\n		return \"\""))
M("p7-encode-skip", "P07", (MF, "		if err := enc.Encode(res); err != nil {", "		if res.GetKind() == KindSignature && res.GetVersion() == \"\" {\n			continue\n		}\n		if err := enc.Encode(res); err != nil {"))
M("p7-encode-swallow", "P07", (MF, "			return nil, err\n		}\n	}\n	return buf.Bytes(), nil", "			break\n		}\n	}\n	return buf.Bytes(), nil"))
M("p7-encode-reset", "P07", (MF, "		if err := enc.Encode(res); err != nil {", "		if res.GetKind() == KindSecret {\n			buf.Reset()\n		}\n		if err := enc.Encode(res); err != nil {"))
M("p7-json-first", "P07", (MF, "	return json.Marshal(m.Resources)", "	if len(m.Resources) == 1 {\n		return json.Marshal(m.Resources[0])\n	}\n	return json.Marshal(m.Resources)"))
M("p7-version", "P07", ("yaml/secret.go", "func (s *Secret) GetVersion() string { return s.Version }", "func (s *Secret) GetVersion() string { return s.Type }"))
M("t5-lower-first", "T05", (PX, "	name = strings.ToUpper(name)\n	if value := os.Getenv(name); value != \"\" {\n		return value\n	}\n	name = strings.ToLower(name)\n", "	if value := os.Getenv(name); value != \"\" {\n		return value\n	}\n	name = strings.ToUpper(name)\n"))
M("t5-https-from-http", "T05", (PX, "	if value := getenv(\"https_proxy\"); value != \"\" {\n		environ[\"https_proxy\"]", "	value := getenv(\"https_proxy\")\n	if value == \"\" {\n		value = getenv(\"http_proxy\")\n	}\n	if value != \"\" {\n		environ[\"https_proxy\"]"))
M("t5-no-upper", "T05", (PX, "		environ[\"NO_PROXY\"] = value\n", ""))
# --- shared state and arguments
RD = "yaml/compiler/internal/rand/rand.go"; MT = "yaml/converter/legacy/match.go"; LI = "yaml/linter/linter.go"
SG = "yaml/signer/signer.go"; PR = "yaml/pretty/pretty.go"; PA = "yaml/parse.go"; CO = "yaml/cond.go"; PXY = "yaml/compiler/transform/proxy.go"
M("g1-rand-buffer", "G01", (RD, "	r := make([]byte, length+(length/4)) // storage for random bytes.\n", ""), (RD, "// random string length", "var r = make([]byte, length+length/4)\n\n// random string length"))
M("g1-lint-names", "G01", (LI, "	names := map[string]struct{}{}\n	if pipeline", "	names := seen\n	for name := range names {\n		delete(names, name)\n	}\n	if pipeline"), (LI, "var arch = ", "var seen = map[string]struct{}{}\n\nvar arch = "))
M("g1-print-state", "G01", (PR, "	state := new(baseWriter)\n", "	state.Reset()\n"), (PR, "// Print pretty", "var state = new(baseWriter)\n\n// Print pretty"))
M("g1-cond-cache", "G01", (CO, "	for _, pattern := range c.Include {\n		if ok, _ := filepath.Match(pattern, v); ok {\n			return true\n		}\n	}\n	return false\n", "	for _, pattern := range c.Include {\n		key := pattern + \" \" + v\n		ok, found := matches[key]\n		if !found {\n			ok, _ = filepath.Match(pattern, v)\n			matches[key] = ok\n		}\n		if ok {\n			return true\n		}\n	}\n	return false\n"), (CO, "// Match returns", "var matches = map[string]bool{}\n\n// Match returns"))
M("g1-scan-buffer", "G01", (PA, "	scanner := bufio.NewScanner(r)\n", "	scanner := bufio.NewScanner(r)\n	scanner.Buffer(buffer, bufio.MaxScanTokenSize)\n"), (PA, "// Parse parses the configuration from io.Reader r.", "var buffer = make([]byte, 4096)\n\n// Parse parses the configuration from io.Reader r."))
M("g1-proxy-setenv", "G01", (PXY, "	name = strings.ToLower(name)\n	if value := os.Getenv(name); value != \"\" {\n", "	upper := name\n	name = strings.ToLower(name)\n	if value := os.Getenv(name); value != \"\" {\n		os.Setenv(upper, value)\n"))
M("g1-parse-last", "G01", (PA, "	manifest := new(Manifest)\n", "	manifest := &last\n	manifest.Resources = nil\n"), (PA, "// Parse parses the configuration from io.Reader r.", "var last Manifest\n\n// Parse parses the configuration from io.Reader r."))
M("g1-counter-closure", "G01", ("yaml/compiler/compiler.go", "	// create directory structure.\n", "	next()\n	// create directory structure.\n") if False else ("yaml/compiler/workspace.go", "func setupWorkingDir(", "var next = func() func() int {\n	n := 0\n	return func() int {\n		n++\n		return n\n	}\n}()\n\nfunc setupWorkingDir("), ("yaml/compiler/workspace.go", "	dst.WorkingDir", "	next()\n	dst.WorkingDir"))
M("g1-append-chars", "G01", (RD, "	clen := len(chars)\n", "	chars := append(chars, '_')\n	clen := len(chars)\n"))
M("g2-key-append", "G02", (SG, "	h := hmac.New(sha256.New, key)\n", "	h := hmac.New(sha256.New, append(key[:32], key[32:]...))\n"))
M("g2-lint-platform", "G02", (LI, "	err = checkPlatform(pipeline.Platform)\n", "	if pipeline.Platform.OS == \"\" {\n		pipeline.Platform.OS = \"linux\"\n	}\n	err = checkPlatform(pipeline.Platform)\n"))
M("g2-print-sort", "G02", ("yaml/pretty/pipeline.go", "func printPipeline(w writer, v *yaml.Pipeline) {\n", "func printPipeline(w writer, v *yaml.Pipeline) {\n	sort.Strings(v.DependsOn)\n"), ("yaml/pretty/pipeline.go", "import (\n", "import (\n	\"sort\"\n"))
M("g2-sign-newline", "G02", (SG, "	res, err := yaml.ParseRawBytes(data)\n	if err != nil {\n		return \"\", err\n	}\n", "	for i := range data {\n		if data[i] == '\\r' {\n			data[i] = '\\n'\n		}\n	}\n	res, err := yaml.ParseRawBytes(data)\n	if err != nil {\n		return \"\", err\n	}\n"))
M("g2-manifest-drop", "G02", ("yaml/linter/config.go", "	names := map[string]struct{}{}\n	for _, resource := range manifest.Resources {\n", "	names := map[string]struct{}{}\n	kept := manifest.Resources[:0]\n	for _, resource := range manifest.Resources {\n		if resource != nil {\n			kept = append(kept, resource)\n		}\n"))
M("g2-cond-default", "G02", (CO, "	if c.Excludes(v) {\n		return false\n	}\n	if c.Includes(v) {", "	if len(c.Exclude) == 0 {\n		c.Exclude = nil\n	}\n	if c.Excludes(v) {\n		return false\n	}\n	if c.Includes(v) {"))
GL = "yaml/converter/gitlab/convert.go"; NW = "yaml/compiler/transform/network.go"; ST = "yaml/compiler/step.go"; K = "yaml/compiler/compiler.go"
M("g3-gitlab-before", "G03", (GL, "	// create a new pipeline for each stage.\n", "	before := append([]string{}, config.Before...)\n\n	// create a new pipeline for each stage.\n"), (GL, "			cmds := []string(config.Before)\n			cmds = append(cmds, []string(job.Before)...)\n", "			cmds := append(before, []string(job.Before)...)\n"))
M("g3-networks", "G03", (NW, "			step.Docker.Networks = append(\n				step.Docker.Networks, networks...)\n", "			step.Docker.Networks = append(\n				networks, step.Docker.Networks...)\n"))
M("g3-two-lists", "G03", (GL, "			cmds = append(cmds, []string(job.Script)...)\n", "			setup := cmds\n			cmds = append(setup, []string(job.Script)...)\n			if job.AllowFailure {\n				cmds = append(setup, \"true\")\n			}\n"))
M("g3-helper-loop", "G03", (GL, "	// create a new pipeline for each stage.\n", "	before := append([]string{}, config.Before...)\n\n	// create a new pipeline for each stage.\n"), (GL, "			cmds := []string(config.Before)\n			cmds = append(cmds, []string(job.Before)...)\n", "			cmds := join(before, job.Before)\n"), (GL, "func serviceSlug(", "func join(a, b []string) []string {\n	return append(a, b...)\n}\n\nfunc serviceSlug("))
M("g3-field", "G03", (GL, "	// create a new pipeline for each stage.\n", "	config.Before = append(config.Before, \"set -e\")\n\n	// create a new pipeline for each stage.\n"))
M("g3-legacy-refs", "G03", ("yaml/converter/legacy/internal/config.go", "		pipeline.Trigger.Ref.Include = []string{\n			\"refs/pull/**\",           // github\n			\"refs/pull-requests/**\",  // bitbucket\n			\"refs/merge-requests/**\", // gitlab\n		}\n", "		requests := make([]string, 0, 16)\n		requests = append(requests, \"refs/pull/**\", \"refs/pull-requests/**\", \"refs/merge-requests/**\")\n		pipeline.Trigger.Ref.Include = append(requests, \"\")[:3]\n		pipeline.Trigger.Ref.Exclude = append(requests, from.Branches.Exclude...)[3:]\n"))

# --- G04: everything ends
M("g4-push-self", "G04", ("yaml/push.go", "		err = unmarshal(d)\n	}\n", "		err = unmarshal(d)\n	}\n	if err != nil {\n		return unmarshal(p)\n	}\n"))
M("g4-build-embed", "G04", ("yaml/build.go", "		err = unmarshal(d)\n	}\n", "		v := struct {\n			*Build `yaml:\",inline\"`\n		}{b}\n		err = unmarshal(&v)\n	}\n"))
M("g4-port-self", "G04", ("yaml/port.go", "		err = unmarshal(&out)\n", "		err = unmarshal(&p)\n"))
M("g4-param-marshal", "G04", ("yaml/param.go", "	if p.Value != \"\" {\n		return p.Value, nil\n	}\n", "	if list, ok := p.Value.([]interface{}); ok {\n		return []interface{}{p, list[0]}, nil\n	}\n	if p.Value != \"\" {\n		return p.Value, nil\n	}\n"))
M("g4-manifest-json", "G04", ("yaml/manifest.go", "	return json.Marshal(m.Resources)\n", "	if len(m.Resources) == 0 {\n		return json.Marshal(m)\n	}\n	return json.Marshal(m.Resources)\n"))
M("g4-size-print", "G04", ("yaml/unit.go", "	return units.BytesSize(float64(b))\n", "	if b < 0 {\n		return fmt.Sprintf(\"%v\", b)\n	}\n	return units.BytesSize(float64(b))\n"), ("yaml/unit.go", "import (\n", "import (\n	\"fmt\"\n\n"))
M("g4-ports-skip", "G04", ("yaml/linter/linter.go", "	for _, port := range ports {\n		if port == nil {\n			continue\n		}\n		err := checkPort(port, trusted)\n		if err != nil {\n			return err\n		}\n	}\n", "	for i := 0; i < len(ports); {\n		port := ports[i]\n		if port == nil {\n			continue\n		}\n		err := checkPort(port, trusted)\n		if err != nil {\n			return err\n		}\n		i++\n	}\n"))
M("g4-parse-reader", "G04", ("yaml/parse.go", "	scanner := bufio.NewScanner(r)\n	for scanner.Scan() {\n		line := scanner.Text()\n", "	reader := bufio.NewReader(r)\n	for {\n		line, err := reader.ReadString(newline)\n		if err == io.EOF && line == \"\" {\n			break\n		}\n		line = strings.TrimSuffix(line, \"\\n\")\n"), ("yaml/parse.go", "		if scanner.Err() == io.EOF {\n			break\n		}\n", ""), ("yaml/parse.go", "	if err := scanner.Err(); err != nil {\n		return nil, err\n	}\n", ""))
M("g4-write-value", "G04", ("yaml/pretty/writer.go", "	case yaml.BytesSize:\n		writeValue(w, v.String())\n", "	case yaml.BytesSize:\n		writeValue(w, v.String())\n	default:\n		writeDynamic(w, v)\n"))
M("g4-steps-grow", "G04", ("yaml/compiler/transform/network.go", "		for _, step := range spec.Steps {\n", "		for i := 0; i < len(spec.Steps); i++ {\n			step := spec.Steps[i]\n			if len(step.Envs) > 100 {\n				spec.Steps = append(spec.Steps, step)\n			}\n"))
M("v8-sum", "V08", ("yaml/converter/legacy/matrix/matrix.go", "perm *= len(matrix[tag])", "perm += len(matrix[tag])"))
M("v8-rest-kept", "V08", ("yaml/converter/legacy/matrix/matrix.go", "	// for each axis calculate the uniqe set of values that should be used.\n", "	rest := 0\n	// for each axis calculate the uniqe set of values that should be used.\n"), ("yaml/converter/legacy/matrix/matrix.go", "		rest := p\n", "		rest += p\n"))
M("v8-limit", "V08", ("yaml/converter/legacy/matrix/matrix.go", "if p > limitAxis {", "if p > limitTags {"))
M("v8-skip-first", "V08", ("yaml/converter/legacy/matrix/matrix.go", "i >= 0; i--", "i > 0; i--"))
M("v8-shared", "V08", ("yaml/converter/legacy/matrix/matrix.go", "		axis := map[string]string{}\n", ""), ("yaml/converter/legacy/matrix/matrix.go", "	axisList := []Axis{}\n", "	axisList := []Axis{}\n	axis := map[string]string{}\n"))
M("v8-include-any", "V08", ("yaml/converter/legacy/matrix/matrix.go", "err == nil && len(axis) != 0", "err == nil && axis != nil"))
M("v8-include-error", "V08", ("yaml/converter/legacy/matrix/matrix.go", "	if err == nil && len(axis) != 0 {\n", "	if err != nil {\n		return nil, err\n	}\n	if len(axis) != 0 {\n"))
M("v8-saturate", "V08", ("yaml/converter/legacy/matrix/matrix.go", "perm <= limitAxis+1", "perm < limitTags"))
M("v8-single", "V08", ("yaml/converter/legacy/matrix/matrix.go", "		if len(v) == 0 {\n", "		if len(v) <= 1 {\n"))
M("v8-tags", "V08", ("yaml/converter/legacy/matrix/matrix.go", "rest = rest / len(elems)", "rest = rest / len(tags)"))
M("v8-other", "V08", ("yaml/converter/legacy/matrix/matrix.go", "elems := matrix[tag]", "elems := matrix[tags[0]]"))
M("v8-no-divide", "V08", ("yaml/converter/legacy/matrix/matrix.go", "			rest = rest / len(elems)\n", "			if len(elems) > 2 {\n				rest = rest / len(elems)\n			}\n"))
M("v8-empty", "V08", ("yaml/converter/legacy/matrix/matrix.go", "		if len(v) == 0 {\n			continue\n", "		if v == nil {\n			continue\n"))
M("v8-first-two", "V08", ("yaml/converter/legacy/matrix/matrix.go", "axis[tag] = elems[rest%len(elems)]", "axis[tag] = elems[rest%len(elems)/1%2]"))
M("v8-break", "V08", ("yaml/converter/legacy/matrix/matrix.go", "		if p > limitAxis {\n			break", "		if p > limitAxis || len(axis) > limitTags {\n			break"))
M("v8-few-tags", "V08", ("yaml/converter/legacy/matrix/matrix.go", "if i <= limitTags+1 {", "if i < limitTags-1 {"))
M("v8-blank", "V08", ("yaml/converter/legacy/matrix/matrix.go", "				axis[tag] = elems[rest%len(elems)]\n", "				if v := elems[rest%len(elems)]; v != \"\" {\n					axis[tag] = v\n				}\n"))
M("v8-dup", "V08", ("yaml/converter/legacy/matrix/matrix.go", "		axisList = append(axisList, axis)\n", "		axisList = append(axisList, axis)\n		if perm == 1 {\n			axisList = append(axisList, axis)\n		}\n"))
M("v8-string", "V08", ("yaml/converter/legacy/matrix/matrix.go", "strings.Join(envs, \" \")", "strings.Join(envs, \",\")"))
M("v8-parse-nil", "V08", ("yaml/converter/legacy/matrix/matrix.go", "	if err != nil {\n		return nil, err\n	}\n\n	// if not", "	if err != nil {\n		return nil, nil\n	}\n\n	// if not"))
M("v8-last-elem", "V08", ("yaml/converter/legacy/matrix/matrix.go", "perm = len(matrix[tag])", "perm = len(matrix[tags[0]])*1 + 0*len(tag)"))
M("v8-quotient", "V08", ("yaml/converter/legacy/matrix/matrix.go", "rest%len(elems)", "rest/len(elems)%len(elems)"))
M("v8-neg", "V08", ("yaml/converter/legacy/matrix/matrix.go", "		rest := p\n", "		rest := p - 1\n"))
M("x3-creds-newline", "X03", ("main.go", "		buf.WriteString(url.String())\n		buf.WriteByte('\\n')\n", "		if buf.Len() > 0 {\n			buf.WriteByte('\\n')\n		}\n		buf.WriteString(url.String())\n"))
M("x3-creds-one", "X03", ("main.go", "	for _, url := range urls {\n		buf", "	for _, url := range urls[:1] {\n		buf"))
M("x3-creds-redacted", "X03", ("main.go", "buf.WriteString(url.String())", "buf.WriteString(url.Host)"))
M("x3-creds-none", "X03", ("main.go", "	comp.GitCredentialsFunc = defaultCreds ", "	comp.NetrcFunc = defaultCreds "))
M("s1-key-trim", "S01", ("yaml/signer/signer.go", "	return []byte(s)\n", "	for len(s) > 32 {\n		s = s[:32]\n	}\n	return []byte(s)\n"))
M("containers-key-value", "V05", ("yaml/converter/legacy/internal/container.go", "container.Name = fmt.Sprintf(\"%v\", s.Key)", "container.Name = fmt.Sprintf(\"%v\", s.Value)"))
M("containers-first", "V05", ("yaml/converter/legacy/internal/container.go", "out, _ := yaml.Marshal(s.Value)", "out, _ := yaml.Marshal(slice[0].Value)"))
M("slicemap-index-skip", "V05", ("yaml/converter/legacy/internal/slice_map.go", "		parts := strings.SplitN(v, \"=\", 2)\n		if len(parts) == 2 {\n			key := parts[0]\n			val := parts[1]\n			s.Map[key] = val\n		}\n", "		if i := strings.LastIndex(v, \"=\"); i >= 0 {\n			s.Map[v[:i]] = v[i+1:]\n		}\n"))
M("slicemap-index-zero", "V05", ("yaml/converter/legacy/internal/slice_map.go", "		parts := strings.SplitN(v, \"=\", 2)\n		if len(parts) == 2 {\n			key := parts[0]\n			val := parts[1]\n			s.Map[key] = val\n		}\n", "		if i := strings.Index(v, \"=\"); i > 0 {\n			s.Map[v[:i]] = v[i+1:]\n		}\n"))
M("slicemap-index-over", "R07", ("yaml/converter/legacy/internal/slice_map.go", "		parts := strings.SplitN(v, \"=\", 2)\n		if len(parts) == 2 {\n			key := parts[0]\n			val := parts[1]\n			s.Map[key] = val\n		}\n", "		if i := strings.Index(v, \"=\"); i >= 0 {\n			s.Map[v[:i]] = v[i+2:]\n		}\n"))

# found by the automatic campaign
M("x7-workspace-kind", "C10", (WS, "			EmptyDir: &engine.VolumeEmptyDir{},\n", ""))
M("x7-workspace-memory", "C10", (WS, "			EmptyDir: &engine.VolumeEmptyDir{},\n", "			EmptyDir: &engine.VolumeEmptyDir{Medium: \"memory\"},\n"))
M("x7-build-args", "C05", (ST, "			Args:       []string{\"--build\"},\n", ""))
M("x7-registry-check", "X02", (MN, "		if uri.User == nil {", "		if uri.User != nil {"))
M("x7-registry-password", "X02", (MN, "		if !ok {\n			log.Fatalln(\"Invalid or missing registry password\")\n		}\n", "		_ = ok\n"))
M("x7-spec-name", "C08", (K, "			Name:      namespace,\n", ""))

M("x8-open-error","P03",("yaml/parse.go","""	f, err := os.Open(p)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return Parse(f)""","""	f, err := os.Open(p)
	if err != nil {
		return nil, nil
	}
	defer f.Close()
	return Parse(f)"""))
M("x8-open-empty","P03",("yaml/parse.go","""	f, err := os.Open(p)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return Parse(f)""","""	f, err := os.Open(p)
	if os.IsNotExist(err) {
		return new(Manifest), nil
	}
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return Parse(f)"""))
M("x9-proxy-once","G01",("yaml/compiler/transform/proxy.go","func getenv(name string) (value string) {\n","var seen = map[string]string{}\n\nfunc getenv(name string) (value string) {\n	if v, ok := seen[name]; ok {\n		return v\n	}\n	defer func(k string) { seen[k] = value }(name)\n"))
M("x9-proxy-lower","T05",("yaml/compiler/transform/proxy.go","	name = strings.ToUpper(name)\n	if value := os.Getenv(name); value != \"\" {\n		return value\n	}\n","	name = strings.ToUpper(name)\n	if value, ok := os.LookupEnv(name); ok {\n		return value\n	}\n"))
M("x9-secret-seen","T02",("yaml/compiler/transform/secret.go","			if step.RunPolicy == engine.RunNever {\n				continue\n			}\n","			if step.RunPolicy == engine.RunNever {\n				break\n			}\n"))
# known miss: state kept by a transformation function between its calls is outside G01 (package variables only)
M("x9-secret-shared-set","G01",("yaml/compiler/transform/secret.go","	return func(spec *engine.Spec) {\n		// first we get a unique list of all secrets\n		// used by the specification.\n		set := map[string]struct{}{}\n","	set := map[string]struct{}{}\n	return func(spec *engine.Spec) {\n		// first we get a unique list of all secrets\n		// used by the specification.\n"))
M("x9-dind-tag","C13",("yaml/compiler/dind.go","if image.Match(a, b) {","if image.Match(a, b) && (!strings.Contains(a, \"@\") || image.MatchTag(a, b)) {"),("yaml/compiler/dind.go","import (\n","import (\n	\"strings\"\n\n"))
M("x9-hostname-docker","I02",("yaml/compiler/image/image.go","	return reference.Domain(named) == hostname","	return strings.HasSuffix(reference.Domain(named), hostname)"),("yaml/compiler/image/image.go",'import "github.com','import "strings"\nimport "github.com'))
M("x9-print-short","Y04",("yaml/pretty/pretty.go","	w.Write(state.Bytes())\n","	for b := state.Bytes(); len(b) > 0; {\n		n, _ := w.Write(b)\n		if n < len(b) {\n			break\n		}\n		b = b[n:]\n	}\n"))
M("x9-lint-names","G01",("yaml/linter/linter.go","	names := map[string]struct{}{}\n	if pipeline.Clone","	if pipeline.Clone"),("yaml/linter/linter.go","func checkPlatform(","var names = map[string]struct{}{}\n\nfunc checkPlatform("))
M("x9-sign-trim-key","S01",("yaml/signer/signer.go","func KeyString(s string) Key {\n	return []byte(s)\n","func KeyString(s string) Key {\n	return []byte(strings.TrimSpace(s))\n"),("yaml/signer/signer.go",'	"errors"\n','	"errors"\n	"strings"\n'))
M("x9-verify-any","S01",("yaml/signer/signer.go","			if err != nil {\n				return nil, err\n			}\n			return hex.DecodeString(out.Hmac)\n","			if err != nil {\n				return nil, err\n			}\n			if out.Hmac == \"\" {\n				continue\n			}\n			return hex.DecodeString(out.Hmac)\n"))
M("x9-skip-action","C03",("yaml/compiler/skip.go","		case !container.When.Action.Match(data.Action):","		case data.Action != \"\" && !container.When.Action.Match(data.Action):"))
M("x9-compile-clone-policy","X03",("main.go","	if *clone == false {\n		p.Clone.Disable = true\n","	if *clone == false || *remote == \"\" {\n		p.Clone.Disable = true\n"))
M("x9-tag-ref","X03",("main.go",'	if strings.HasPrefix(*ref, "refs/tags/") {\n','	if *event == "tag" && strings.HasPrefix(*ref, "refs/tags/") {\n'))
