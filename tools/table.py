"""The properties, how each is decided, and what is not claimed."""
PROPS, NA = [], []
NOTES = ("Every check is static: the checker type-checks /repo's working tree, builds its SSA form and decides "
         "the property from it; nothing of drone-yaml is executed.")

VF = "guarded value-flow analysis of the SSA form (if-converted, closed-form loop summaries)"
VFREF = "guarded value-flow analysis of the SSA form, compared with a reference rule analysed the same way"
TRUST = ("Covers every input the code can be given (all lists, maps and strings are symbolic); no path or input is "
         "enumerated. Trusts go/ssa, the checker's value-flow engine and its models of library calls; "
         "calls into third-party packages are uninterpreted functions of their arguments.")


def P(id, title, statement, over, forall, why, files, mech, technique, note="", observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files,
                      mech=mech, technique=technique, note=(note + " " + TRUST).strip(), observe=list(observe)))


def N(id, title, statement, over, forall, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files,
                   mech=mech, reason=reason))


LINT = ["yaml/linter/linter.go", "yaml/linter/config.go"]
P("L01", "Untrusted pipelines cannot use privileged settings",
  "The linter never accepts, for an untrusted repository, a pipeline in which any step or service asks for "
  "privileged mode, host devices, DNS or DNS search servers, extra hosts, a network mode or a host port, or which "
  "declares a host-path or in-memory volume.",
  ["inputs"], "every pipeline document (any number and order of steps, services, volumes, ports) and both trust levels",
  "The tests lint one sample file per setting; an escape that needs a later step, a service, a combination with a "
  "build section or an unusual list position is not sampled.",
  LINT, [("trust gate of the linter", "yaml/linter/linter.go checkPipeline, checkContainer, checkVolumes")],
  VFREF, "", ["error result of linter.Lint"])
P("L02", "Structurally invalid pipelines are rejected",
  "The linter never accepts a pipeline with a step or service without a name or without an image, with two "
  "containers of the same name (the implicit clone step included), with a volume or mount that uses a reserved "
  "name, or with an unsupported operating system or architecture.",
  ["inputs"], "every pipeline document",
  "Tests cover one sample per error; the guarantee is about every position in every list.",
  LINT, [("structural rules of the linter", "yaml/linter/linter.go")], VFREF, "", ["error result of linter.Lint"])
P("L03", "The linter rejects only for documented reasons",
  "If a pipeline has none of the documented defects (trust-gated setting while untrusted, reserved name, missing "
  "image or name, duplicate name, unknown dependency, unsupported platform) the linter accepts it.",
  ["inputs"], "every pipeline document and both trust levels",
  "A sampled set of valid files cannot show that no valid file is rejected.",
  LINT, [("rules of the linter", "yaml/linter/linter.go")], VFREF, "", ["error result of linter.Lint"])
P("L04", "Step dependencies name earlier steps, so the graph is acyclic",
  "If the linter accepts a pipeline, every dependency of every step names a step that is listed before it, or the "
  "implicit clone step when cloning is enabled, and never the step itself.",
  ["inputs"], "every pipeline document and every dependency list",
  "Cycles and forward references of any length exist; tests have a handful of two-step samples.",
  LINT, [("dependency rule", "yaml/linter/linter.go checkDeps, checkPipeline")], VFREF, "", ["error result of linter.Lint"])
P("L05", "A manifest is accepted exactly when its pipelines form a valid graph",
  "The manifest linter returns no error exactly when pipeline names are unique, every pipeline dependency names a "
  "pipeline defined earlier in the manifest, and every docker pipeline has a supported platform.",
  ["inputs"], "every manifest: any mix, number and order of resources",
  "Tests use a few two-pipeline files; other resource kinds in between and longer chains are not sampled.",
  ["yaml/linter/config.go", "yaml/linter/linter.go"], [("manifest rules", "yaml/linter/config.go Manifest, checkDeps")],
  VFREF, "", ["error result of linter.Manifest"])

COMP = ["yaml/compiler/compiler.go", "yaml/compiler/step.go", "yaml/compiler/convert.go", "yaml/compiler/workspace.go",
        "yaml/compiler/clone.go", "yaml/compiler/image.go", "yaml/compiler/encode.go"]
CMECH = "yaml/compiler/compiler.go Compiler.Compile, yaml/compiler/step.go createStep, createBuildStep"
OBS = ["result of Compiler.Compile"]
HOOKS = ("The property describes the compiler before a caller's TransformFunc runs; callbacks are functions of their "
         "arguments.")
P("C01", "Containers are privileged only by request or by policy",
  "A compiled step or service is privileged exactly when it asks for it (and is not a build step) or the caller's "
  "privilege policy says so for it; the clone step is never privileged.",
  ["inputs"], "every pipeline and every privilege policy",
  "The privilege of each container depends on policy, build section and list position; tests look at one step each.",
  COMP, [("privilege decision", CMECH)], VFREF, HOOKS, OBS)
P("C02", "The docker socket is exposed only to build steps",
  "The compiled specification contains the docker socket volume exactly when a step builds an image; every build "
  "step mounts it and no clone step, service or other step does.",
  ["inputs"], "every pipeline: any number and order of steps, services and volumes",
  "A single leak of the socket hands the host to a container; tests check one build pipeline.",
  COMP, [("socket volume and mounts", "yaml/compiler/compiler.go Compile; yaml/compiler/step.go createBuildStep")],
  VFREF, HOOKS, OBS)
P("C03", "Steps whose conditions do not match never run",
  "The skip function answers true exactly when at least one of the declared branch, event, action, cron, instance, "
  "ref, repository or target conditions does not match the build; a container for which the caller's skip function "
  "answers true is compiled with the policy to never run.",
  ["inputs"], "every set of conditions, every build metadata and every position of the step in the pipeline",
  "The conditions combine freely; tests sample one condition at a time.",
  ["yaml/compiler/skip.go", "yaml/cond.go", "yaml/compiler/compiler.go"],
  [("skip function", "yaml/compiler/skip.go SkipFunc"), ("policy", "yaml/compiler/compiler.go Compile")], VFREF, HOOKS,
  ["yaml/compiler.SkipFunc", "RunPolicy of the compiled steps"])
P("C04", "Containers get exactly the declared environment and secrets",
  "Every compiled container has exactly the declared plain variables, its settings under PLUGIN_ names, the "
  "workspace variables and (for builds, clones and windows scripts) the documented extras; a variable or setting "
  "that comes from a secret appears only as a reference to that secret, once, and never in clear.",
  ["inputs"], "every pipeline; the environment is compared at an arbitrary variable name",
  "Maps of any content and containers of any kind; tests compare a few fixed maps.",
  COMP + ["yaml/compiler/encode.go"], [("environment and secrets", "yaml/compiler/step.go; yaml/compiler/convert.go"),
          ("workspace variables", "yaml/compiler/workspace.go setupWorkspaceEnv")], VFREF,
  HOOKS + " The text of list- and map-valued settings is left open (it comes from the JSON and YAML libraries).", OBS)
P("C05", "Declared container settings reach the compiled container unchanged",
  "DNS servers, DNS search domains, extra hosts, network mode, ports, user, resource limits and requests, and "
  "(without commands) entrypoint and arguments of every service and non-build step reach the compiled container as "
  "declared; a build step runs the builder with --build and its own DNS servers only; platform and labels of the "
  "pipeline reach the specification.",
  ["inputs"], "every pipeline, every service and step in it",
  "A swapped or dropped field for one kind of container is invisible to a test of another kind.",
  COMP, [("translation", "yaml/compiler/step.go; yaml/compiler/convert.go")], VFREF, HOOKS, OBS)
P("C06", "Every container works in the shared workspace",
  "Every container mounts the workspace volume at the workspace base (with the host workspace hooks: the host folder "
  "at the full path, and the workspace volume when a sub path is set), runs in the workspace's full path (services "
  "and detached steps without commands keep their declared folder) and is told base, path and full path in its "
  "environment; windows paths have a drive and backslashes.",
  ["inputs"], "every pipeline, platform and workspace setting, default and host workspaces",
  "Tests cover one linux and one windows path each, not every kind of container with every hook.",
  ["yaml/compiler/workspace.go", "yaml/compiler/compiler.go", "yaml/compiler/step.go"],
  [("workspace", "yaml/compiler/workspace.go")], VFREF, HOOKS + " path.Join is uninterpreted.", OBS)
P("C07", "Every service and step is compiled once, in order, with its dependencies",
  "The compiled step list is the clone step (when cloning is enabled), then every service, then every step, each "
  "exactly once and in document order, under its own name; dependencies are the declared ones, and in a pipeline "
  "with a dependency graph containers without a dependency of their own wait for the clone step; services and only "
  "services and detached steps are detached.",
  ["inputs"], "every pipeline: any number of services and steps, with and without dependencies and cloning",
  "Ordering and graph rules quantify over the whole list; tests have one to three steps.",
  COMP, [("main loop", "yaml/compiler/compiler.go Compile")], VFREF, HOOKS, OBS)
P("C08", "Identifiers are random and never shared; the namespace is",
  "Pipeline, steps, volumes and files of a specification each get an identifier of their own that is a new value "
  "of the package's random source (at least 16 characters, alphabet of at least 16, from crypto/rand), and all of "
  "them carry the namespace of the pipeline, which is the pipeline's name and identifier.",
  ["inputs"], "every pipeline; every pair of resources in a specification",
  "Tests replace the random source with a counter or ignore identifiers.",
  COMP + ["yaml/compiler/internal/rand/rand.go"],
  [("identifiers", "yaml/compiler/compiler.go, step.go, workspace.go, clone.go"), ("random source", "yaml/compiler/internal/rand/rand.go String")],
  VFREF + "; SSA data flow of the random source", HOOKS, OBS)
P("C09", "The build script runs every command in order and stops at the first failure",
  "A container with commands is started with a script that is mounted for it alone (windows: passed encoded in the "
  "environment), stops at the first failing command, drops the git credentials from the environment before the "
  "first command, and contains every command once, verbatim and in order, each preceded by a trace that is quoted "
  "so that nothing in it is expanded by the shell. A container without commands gets no script.",
  ["inputs"], "every pipeline, every list of commands, linux and windows",
  "Commands are arbitrary text; tests compare scripts of two or three harmless commands.",
  ["yaml/compiler/script_posix.go", "yaml/compiler/script_win.go", "yaml/compiler/step.go", "yaml/compiler/compiler.go"],
  [("script generators", "yaml/compiler/script_posix.go, script_win.go"), ("mounting", "yaml/compiler/compiler.go Compile")],
  VFREF, HOOKS + " The script text is decomposed into constant and derived parts; what a shell does with the constant parts is taken from its documentation.",
  ["Files and Envs of the compiled specification"])
P("C10", "Volumes are compiled with their source and mounted where declared",
  "Every declared volume is compiled once with its name and its source (host path with the declared path, or "
  "temporary with the declared medium and size); the workspace volume is added once, as a plain empty folder; every service and non-build "
  "step mounts exactly the volumes it declares, at the declared paths, plus the workspace.",
  ["inputs"], "every pipeline: any number of volumes, mounts, services and steps",
  "Tests compile one volume of each kind.",
  COMP, [("volumes", "yaml/compiler/compiler.go Compile; yaml/compiler/convert.go")], VFREF, HOOKS, OBS)
P("C11", "Images built by a pipeline are used by its other steps",
  "Every container gets its declared image with the registry and tag expanded; if a build step of the pipeline "
  "produces that image, the container gets the local alias of that build instead, and the build step is told to "
  "tag its result with the same alias.",
  ["inputs"], "every pipeline: any number of build steps and any spelling of images",
  "The alias must agree between steps that are compiled at different times; tests have one build and one use.",
  COMP, [("alias rewriting", "yaml/compiler/compiler.go Compile; yaml/compiler/image.go"), ("build step", "yaml/compiler/step.go createBuildStep")],
  VFREF, HOOKS + " image.Expand and image.Trim are uninterpreted.", OBS)
P("C12", "Compilation does not modify the document or the compiler",
  "Compiling a pipeline writes nothing that is reachable from the document, from the compiler's settings or from "
  "package variables, so compiling again, or at the same time, gives the same result apart from identifiers.",
  ["inputs", "histories"], "every pipeline and every compiler configuration",
  "Aliasing bugs show only in the second compilation or in concurrent use.",
  COMP, [("all stores of the compiler", "yaml/compiler")], "effect analysis on the guarded value-flow graph of the SSA form",
  HOOKS, OBS)
P("C13", "Privileged plugin policy applies only to unmodified plugins",
  "The policy built from a list of images grants privileges exactly to containers whose image, ignoring registry "
  "defaults and tags, is on the list and that override neither commands nor command nor entrypoint.",
  ["inputs"], "every list of images and every container",
  "Any override that is forgotten runs arbitrary code privileged; tests check a few containers.",
  ["yaml/compiler/dind.go", "yaml/compiler/image/match.go"], [("policy", "yaml/compiler/dind.go DindFunc")], VFREF,
  "image.Trim is uninterpreted.", ["yaml/compiler.DindFunc"])
P("C14", "Status conditions, failure and pull settings become run policies",
  "A container runs on success, on failure, always or never exactly as its status condition says (failure only when "
  "listed), errors are ignored exactly when failure is set to ignore, and the pull policy is the declared one.",
  ["inputs"], "every pipeline and every status condition",
  "Include and exclude patterns combine; tests sample one combination per policy.",
  COMP, [("policies", "yaml/compiler/compiler.go Compile; yaml/compiler/convert.go")], VFREF, HOOKS, OBS)
P("C15", "The clone step uses the right image, settings and credentials",
  "The clone step uses the git image of the platform, carries depth and TLS settings, never asks for privileges or "
  "network settings, and is the only container that is given the credentials file, exactly when there are "
  "credentials.",
  ["inputs"], "every pipeline, platform and credentials callback",
  "Platforms and clone settings combine; credentials leaking to another container is a negative fact over all containers.",
  COMP, [("clone step", "yaml/compiler/clone.go"), ("credentials", "yaml/compiler/compiler.go Compile")], VFREF, HOOKS, OBS)

TR = ["yaml/compiler/transform/" + x + ".go" for x in ("env", "labels", "network", "netrc", "limits", "volume", "auths", "secret", "filter", "combine")]
TOBS = ["the specification after the transformation"]
P("T01", "Runtime settings reach every step, and nothing else changes",
  "Applied to any specification, the environment, label, network, netrc, resource-limit and volume transformations "
  "give exactly the configured values to every step (labels also to the specification and its volumes; netrc only "
  "when user name and password are set, limits only when one is set; a volume is added once per configured path, in "
  "path order, with the specification's namespace, and mounted into every step), and change nothing else.",
  ["inputs"], "every specification and every configuration",
  "Tests transform one or two steps; the guarantee is about every step, and about what must stay untouched.",
  TR[:6], [("transformations", "yaml/compiler/transform")], VFREF,
  "Steps are distinct objects; maps of the specification exist where the compiler creates them.", TOBS)
P("T02", "Registry credentials and requested secrets are added exactly once",
  "Credentials are appended to the specification unchanged and in order; configured secrets are added once each, in "
  "name order; the secret callback is asked once for every secret name that a step that may run refers to (never for "
  "steps that never run), and every secret it returns is added with a new identifier and the specification's "
  "namespace, while missing ones are skipped.",
  ["inputs"], "every specification, every credentials list and every callback",
  "Secrets shared between steps, skipped steps and missing secrets combine; tests have one of each.",
  ["yaml/compiler/transform/auths.go", "yaml/compiler/transform/secret.go"],
  [("credentials and secrets", "yaml/compiler/transform/secret.go, auths.go")], VFREF,
  "Callbacks are functions of their arguments.", TOBS)
P("T03", "Step selection changes only the run policy of the right steps",
  "Include, exclude and resume set exactly the steps they must to never run: with a non-empty include list all steps "
  "not on it, with an exclude list the steps on it, on resume all steps before the first one with the given name; "
  "the clone step is never touched and nothing else changes.",
  ["inputs"], "every specification and every list of names",
  "Selection depends on order, on repeated names and on the clone step; tests use three steps.",
  ["yaml/compiler/transform/filter.go"], [("selection", "yaml/compiler/transform/filter.go")], VFREF, "", TOBS)
P("T04", "Transformations run once, in order, on the finished specification",
  "Combine applies every given transformation once and in order to the specification it is given; the compiler calls "
  "its configured transformation exactly once, on the specification it returns, and changes nothing afterwards.",
  ["inputs", "histories"], "every list of transformations and every pipeline",
  "A write after the hook undoes what the hook decided only for some pipelines.",
  ["yaml/compiler/transform/combine.go", "yaml/compiler/compiler.go"],
  [("combination", "yaml/compiler/transform/combine.go Combine"), ("hook", "yaml/compiler/compiler.go Compile")],
  "effect-order analysis on the guarded value-flow graph of the SSA form", "", TOBS)
P("M01", "A condition matches when it is not excluded and included",
  "A condition matches a value exactly when no exclude pattern matches it and there is no include pattern or one of "
  "them matches it.",
  ["inputs"], "every list of patterns and every value",
  "Exclude and include lists of any length overlap; tests sample pairs.",
  ["yaml/cond.go"], [("matching", "yaml/cond.go Condition.Match")], VFREF, "The glob library is uninterpreted.",
  ["yaml.Condition.Match"])
P("I01", "Image comparison normalises both names",
  "Two images match when their short names without tag are the same, and match with tag when their fully qualified "
  "names are, whichever side is abbreviated; the list form matches when any entry does.",
  ["inputs"], "every image name and every list",
  "Abbreviations can be on either side and in any position of the list.",
  ["yaml/compiler/image/image.go"], [("matching", "yaml/compiler/image/image.go Match, MatchTag")], VFREF,
  "The reference library is uninterpreted.", ["image.Match", "image.MatchTag"])
P("I02", "Image names are normalised like the reference library reads them",
  "Trim gives the short name without tag, Expand gives the full name with a tag, and MatchHostname says whether the "
  "image's registry is the given one (index.docker.io standing for docker.io), each of the image as the reference "
  "library reads its name; a name the library cannot read is left as it is and belongs to no registry.",
  ["inputs"], "every image name and every host name",
  "Registry credentials are chosen by this match: names with ports, digests or unusual registries decide who gets "
  "which password.",
  ["yaml/compiler/image/image.go"],
  [("normalisation", "yaml/compiler/image/image.go Trim, Expand, MatchHostname")], VFREF,
  "The reference library is uninterpreted.", ["image.Trim", "image.Expand", "image.MatchHostname"])
P("P07", "Encoding a manifest keeps every resource in order; accessors return its fields",
  "A manifest's JSON is the JSON of the list of all its resources in their order; it is never encoded as one YAML "
  "document; and each resource's kind and version accessors return its own kind and version.",
  ["inputs"], "every manifest and resource",
  "Tests encode a sample; a resource left out or a kind taken from elsewhere shows for particular manifests only.",
  ["yaml/manifest.go", "yaml/pipeline.go", "yaml/cron.go", "yaml/secret.go", "yaml/registry.go", "yaml/signature.go"],
  [("encoding", "yaml/manifest.go MarshalJSON, Encode, MarshalYAML"), ("accessors", "yaml/*.go GetKind, GetVersion")],
  VFREF, "json.Marshal is uninterpreted.", ["Manifest.MarshalJSON", "Manifest.Encode"])
P("T05", "The proxy transformation hands each proxy setting on under both names",
  "For each of NO_PROXY, HTTP_PROXY and HTTPS_PROXY that the process has in its environment (upper case first, then "
  "lower case) every step gets the value under both names; nothing else changes.",
  ["inputs"], "every specification and every environment of the process",
  "Each variable can be set in either case or both, to different values; tests set one of them.",
  ["yaml/compiler/transform/proxy.go"], [("proxy", "yaml/compiler/transform/proxy.go WithProxy")], VFREF,
  "The environment of the process is a function of the name asked for.", ["transform.WithProxy"])
P("L06", "Resources without required content are rejected",
  "The linter accepts a cron job exactly when it names a branch, a secret exactly when it has data or a path or name "
  "to fetch it from, registry credentials exactly when they have data, and a signature exactly when it has a hash; "
  "resources of other kinds are accepted.",
  ["inputs"], "every resource of every kind",
  "Each combination of present and missing fields is a case; tests sample a few.",
  ["yaml/linter/linter.go", "yaml/cron.go", "yaml/secret.go", "yaml/registry.go", "yaml/signature.go"],
  [("dispatch", "yaml/linter/linter.go Lint"), ("validation", "Validate methods of package yaml")], VFREF, "",
  ["error result of linter.Lint"])
PARSE = ["yaml/parse.go", "yaml/manifest.go"]
P("P01", "Every document becomes one resource of its kind, in order, or parsing fails",
  "Parsing YAML and decoding JSON give one resource per document, in order, of the type its kind names (pipeline for "
  "any other kind), decoded from that document alone; if a document cannot be read, or (YAML) has no kind, parsing "
  "fails and gives no manifest.",
  ["inputs"], "every multi-document file and every JSON list",
  "Mixed kinds in any order and an error in any document; tests parse one file per kind.",
  PARSE, [("YAML", "yaml/parse.go Parse, parseRaw"), ("JSON", "yaml/manifest.go Manifest.UnmarshalJSON")], VFREF,
  "The decoding libraries are functions of the document and the target type.", ["yaml.Parse", "Manifest.UnmarshalJSON"])
P("P02", "Splitting a file loses, moves or adds no line",
  "ParseRaw puts every line that is not a document separator or the end marker, unchanged and with its newline, at the "
  "end of the current document; a separator starts a new, empty document at the end of the list and leaves the others "
  "as they are; the end marker ends the file; each document's kind is decoded from its own lines, and a read or decoding "
  "error is returned.",
  ["inputs", "faults"], "every file: any number and order of lines, separators and documents, and any read error",
  "An invariant over all line sequences; tests split two files, and no test has a failing reader.",
  PARSE, [("splitting", "yaml/parse.go ParseRaw")],
  "inductive step of the line loop, by guarded value-flow analysis of the SSA form",
  "bufio.Scanner is modelled by its documentation (lines of at most 64 KiB; longer ones are a read error).",
  ["yaml.ParseRaw"])
SIG = ["yaml/signer/signer.go"]
SNOTE = "The cryptographic and YAML libraries are uninterpreted functions."
P("S01", "Verify accepts a file only with a valid signature of its content",
  "Verify answers true exactly when the file can be read, its first signature document decodes, the key has at least "
  "32 bytes, and the decoded code is, by a constant-time comparison, the HMAC-SHA256 under the key of the data of all "
  "documents that are not signatures; a key given as text is the bytes of the text; it never answers true together with an error, and a file that cannot be read or "
  "a present signature with a short key is an error.",
  ["inputs"], "every file and every key",
  "Forgeries and malformed signatures cannot be enumerated; tests verify four files.",
  SIG, [("verification", "yaml/signer/signer.go Verify, extract, sign")], VFREF, SNOTE, ["signer.Verify"])
P("S02", "The signature covers every other document, completely and in order",
  "Sign gives the hexadecimal HMAC-SHA256, under a key of at least 32 bytes, of the data of every document that is not "
  "a signature, each once, unchanged and in order, and fails otherwise.",
  ["inputs"], "every file and every key",
  "A document that is left out of the code for some mix of kinds can be changed freely; tests sign two files.",
  SIG, [("signing", "yaml/signer/signer.go Sign, sign")], VFREF,
  SNOTE + " Known finding: the boundaries between documents are not covered.", ["signer.Sign"])
P("S03", "Signing a file keeps its documents and leaves exactly one signature",
  "SignUpdate and WriteTo give every document that is not a signature, unchanged and in order, each after its own "
  "separator, followed by exactly one signature document with the new code and the end marker, and fail when the file "
  "cannot be read (or, when signing, the key is too short).",
  ["inputs"], "every file, with any number of signatures in any place",
  "Existing signatures can be anywhere in the file; tests have one at the end or none.",
  SIG, [("update", "yaml/signer/signer.go SignUpdate, WriteTo, upsert")], VFREF, SNOTE, ["signer.SignUpdate", "signer.WriteTo"])
P("P03", "Every way to parse gives the same result as parsing the content",
  "ParseBytes, ParseString and ParseFile (and ParseRawBytes, ParseRawString and ParseRawFile) give exactly what Parse "
  "(ParseRaw) gives for the same content; a file that cannot be opened is an error, never an empty manifest.",
  ["inputs", "faults"], "every content and every file",
  "Tests parse one file through each entry point and never fail to open one.",
  PARSE, [("entry points", "yaml/parse.go")], VFREF, "The content of a file does not change while it is read.",
  ["yaml.ParseBytes", "yaml.ParseString", "yaml.ParseFile", "yaml.ParseRawBytes", "yaml.ParseRawString", "yaml.ParseRawFile"])
P("P05", "Settings with a short and a long form mean the same in both",
  "A build, condition, variable, port, push and size written in its short form (a single value, or a list of a "
  "condition's includes) sets exactly the documented field; written in its long form it sets exactly the named fields; "
  "a value that fits neither form is an error. A parameter or variable with from_secret refers to that secret, and is "
  "written back as that reference.",
  ["inputs"], "every document value, whatever its shape, and every outcome of decoding it",
  "Each decoder is called with every combination of forms that decode or fail; tests decode a few literals.",
  ["yaml/build.go", "yaml/cond.go", "yaml/env.go", "yaml/param.go", "yaml/port.go", "yaml/push.go", "yaml/unit.go"],
  [("decoding", "yaml/*.go UnmarshalYAML"), ("encoding", "yaml/env.go, yaml/param.go MarshalYAML")], VFREF,
  "The decoding library is a function of the document and of the target's keys; units.RAMInBytes is uninterpreted.",
  ["Build", "Condition", "Variable", "Parameter", "Port", "Push", "BytesSize"])
P("P06", "Every documented key is read and written under its own name",
  "Each documented setting of pipelines, steps, cron jobs, secrets, registries and signatures is read from (and "
  "encoded under) its documented key, the same in YAML and JSON, with the documented shape, and no two settings share "
  "a key.",
  ["inputs"], "every document using any documented key, in YAML or JSON",
  "A key nobody reads is ignored without an error; tests use a part of the keys and hardly any JSON.",
  ["yaml/pipeline.go", "yaml/cron.go", "yaml/secret.go", "yaml/registry.go", "yaml/signature.go", "yaml/cond.go", "yaml/build.go"], [("document types", "yaml/*.go struct types")],
  "lint of field names, tags and types of the type-checked program against the table of documented keys",
  "The table was made from the documentation and samples; the libraries' rules for untagged fields are built in.",
  ["yaml.ParseString", "json.Unmarshal of a Manifest"])
G_FILES = ["yaml/parse.go", "yaml/cond.go", "yaml/linter/linter.go", "yaml/compiler/compiler.go", "yaml/compiler/internal/rand/rand.go", "yaml/compiler/transform/proxy.go", "yaml/signer/signer.go", "yaml/pretty/pretty.go", "yaml/converter/convert.go"]
P("G01", "Library calls share no state, so they can run in any order or concurrently",
  "After initialisation no function of the library changes memory that other calls of the library can reach through "
  "package variables (unless it holds a lock), starts work of its own, or changes the state of the process such as its "
  "environment: a call neither depends on earlier calls nor interferes with one that runs at the same time.",
  ["schedules", "histories"], "every interleaving and every history of library calls",
  "A shared buffer, map or cache shows only when calls overlap or follow each other in a certain way; tests make one "
  "call at a time.", G_FILES,
  [("package variables", "yaml/**"), ("random names", "yaml/compiler/internal/rand/rand.go chars"), ("pattern of old files", "yaml/converter/legacy/match.go re")],
  "interprocedural effect (shared-memory taint) analysis over the SSA form, with a must-hold lock analysis",
  "Library functions change their receiver or arguments only as listed in checker/props_state.go; methods called through "
  "interfaces of other modules are taken to keep what they are given unchanged.")
P("G02", "Parsing, checking, signing, printing and converting leave their input unchanged",
  "No exported function of the library other than the decoders, the compiler (C12) and the transformations (T01-T05) "
  "changes the memory its caller passes in: documents, data, keys and manifests are the same afterwards.",
  ["inputs", "histories"], "every input of every exported function that reads",
  "A list sorted or cut in place or a key appended to changes what the caller does next; tests look at the result only.",
  G_FILES[:3] + G_FILES[6:], [("exported functions", "yaml/**")],
  "interprocedural effect analysis over the SSA form, from the arguments of the exported functions",
  "As G01; flow and context insensitive.")
P("G03", "Extending one list never overwrites entries of another",
  "Where the module extends a list, the entries it adds are not overwritten later through another list that shares the "
  "same memory: a list with room behind its end is extended only once, and its owner goes on with the result.",
  ["inputs", "histories"], "every list built anywhere in the module, of any length and capacity",
  "Whether two lists share memory depends on their lengths and capacities: commands of one job turn up in another only "
  "for certain numbers of entries.",
  ["yaml/converter/gitlab/convert.go", "yaml/converter/legacy/internal/config.go", "yaml/compiler/compiler.go", "yaml/compiler/step.go", "yaml/compiler/transform/network.go", "yaml/compiler/transform/auths.go", "yaml/parse.go"],
  [("appends", "yaml/**, main.go append")],
  "ownership (linearity) analysis of extended lists over the SSA form",
  "Lists decoded by the YAML library have no room behind their end (read in its decoder).")
P("G04", "Every operation ends",
  "For every finite input, parsing, decoding, encoding, linting, compiling, signing, formatting, converting and matching "
  "end: no loop runs for ever (on an entry that is skipped, on a reader that fails), and no function calls itself again "
  "and again, be it directly, through other functions, or by asking the YAML or JSON library to decode, encode or print "
  "a value by the very method that asks.",
  ["inputs"], "every loop and every group of mutually recursive functions of the module, on every finite input",
  "A loop that does not advance, or a decoder that decodes into its own type, shows only on the inputs that take that branch; "
  "no number of tests that end says that all do.",
  ["yaml/parse.go", "yaml/param.go", "yaml/build.go", "yaml/push.go", "yaml/port.go", "yaml/cond.go", "yaml/manifest.go", "yaml/linter/linter.go", "yaml/pretty/writer.go", "yaml/pretty/util.go", "yaml/converter/legacy/matrix/matrix.go", "yaml/compiler/internal/rand/rand.go"],
  [("loops", "yaml/**, main.go for"), ("recursion", "yaml/pretty/writer.go writeValue; UnmarshalYAML, MarshalYAML, String methods")],
  "termination analysis: loop measures and the size-change principle over the SSA form and the call graph",
  "Values are finite trees and readers end or fail; the random source gives bytes that are not all rejected.")
CLI = ["main.go"]
XNOTE = "kingpin is modelled by its documentation: each variable has the value of the flag it is declared for."
P("X01", "Commands change the source file only with their own save flag and after success",
  "fmt, convert and sign write the source file, once, exactly when their own --save flag is given and the command "
  "succeeded, with exactly the formatted, converted or signed content; without --save they print that result and write "
  "nothing, and a failed command writes and prints nothing; lint writes nothing at all. No command creates, removes or "
  "renames files.",
  ["inputs", "faults"], "every command line and every outcome of reading, parsing, converting and signing",
  "There are no tests for the command line; a truncated source file is the cost of a mistake.",
  CLI, [("commands", "main.go main, runFormat, runConvert, runSign, runLint")], VFREF, XNOTE, ["files written and output of the drone-yaml command"])
P("X02", "The exit status tells whether the command succeeded",
  "fmt, convert, sign, lint and verify end with a failure exactly when the source cannot be read or parsed, the operation "
  "itself fails (any resource is rejected by the linter under the given trust flag, the signature is missing or wrong, "
  "the key is bad) or the file cannot be written; compile fails exactly when the file cannot be parsed or has no pipeline of that "
  "name, a registry flag has no credentials, or the result cannot be written.",
  ["inputs", "faults"], "every command line, every file and every error",
  "There are no tests for the command line; continuous integration relies on the exit status.",
  CLI, [("commands", "main.go")], VFREF, XNOTE + " Errors of printing are left open.", ["exit status of the drone-yaml command"])
P("X03", "Compile uses the pipeline and the settings its flags name",
  "The compile command compiles the first pipeline (of the given name, if any), without cloning unless --clone is given, "
  "with the git credentials of --git-creds (one URL in a line), the privilege policy of --dind, the build description of its branch, cron, event, instance, ref, repo and target "
  "flags, and applies its environment, label, netrc, network, proxy, secret, volume, memory-limit and registry flags, and "
  "prints the compiled result.",
  ["inputs"], "every manifest and every combination of flags",
  "There are no tests for the command line; twenty flags of the same type are easily swapped.",
  CLI, [("compile command", "main.go runCompile, defaultEnvs")], VFREF, XNOTE, ["output of drone-yaml compile"])
CONV = ["yaml/converter/convert.go", "yaml/converter/convert_oss.go"]
VNOTE = "The YAML libraries are functions of their input; the formatter is a function of the manifest, whose text the formatter's own properties describe."
P("V01", "A file is converted by the system it belongs to, or left unchanged",
  "Convert gives bitbucket-pipelines.yml to the Bitbucket converter (for the given ref), .gitlab-ci.yml to the GitLab "
  "converter, any other file with a top-level pipeline section to the legacy converter (for the given repository URL), "
  "and every other file back byte for byte; errors of the converter are returned; ConvertString does the same; the oss "
  "build converts nothing.",
  ["inputs", "configurations"], "every file name, content, ref and URL, in both builds",
  "A current configuration that is converted by mistake is destroyed; tests never call Convert.",
  CONV + ["yaml/converter/legacy/match.go"], [("choice", "yaml/converter/convert.go, convert_oss.go, legacy/match.go")], VFREF,
  "Regular expressions are uninterpreted; the expression for a pipeline section is compared as text.",
  ["converter.Convert", "converter.ConvertString"])
P("V03", "GitLab and Bitbucket files keep their jobs, order, images and commands",
  "A converted GitLab file has one pipeline for each stage, in order, each after the previous one, with exactly the jobs "
  "of that stage (one stage per job when there are no stages), each with its image (or the default one) and the commands "
  "of before_script, its own scripts and after_script in that order, and the declared services. A converted Bitbucket "
  "file has the steps of the first tag, else branch, else default pipeline that fits the ref, with their images (or the "
  "default one), names (or step_N) and scripts, the clone depth and the declared services.",
  ["inputs"], "every GitLab and Bitbucket configuration and every ref",
  "Tests convert two files of each kind.",
  ["yaml/converter/gitlab/convert.go", "yaml/converter/bitbucket/convert.go", "yaml/converter/bitbucket/config.go"],
  [("GitLab", "yaml/converter/gitlab/convert.go Convert"), ("Bitbucket", "yaml/converter/bitbucket/convert.go Convert")], VFREF,
  VNOTE, ["gitlab.Convert", "bitbucket.Convert"])
P("V06", "The converters read the keys the other systems document",
  "Every setting the converters use is read from the key GitLab, Bitbucket and Drone 0.8 document for it, with the "
  "documented shape.",
  ["inputs"], "every configuration file using any of these keys",
  "A misspelt key loses a setting without an error; tests convert a few files.",
  ["yaml/converter/gitlab/config.go", "yaml/converter/bitbucket/config.go", "yaml/converter/legacy/internal/config.go",
   "yaml/converter/legacy/internal/container.go", "yaml/converter/legacy/internal/constraint.go"],
  [("configuration types", "yaml/converter/*/config.go")],
  "lint of field names, tags and types of the type-checked program against the table of documented keys",
  "The table was made from the systems' documentation and the test samples.",
  ["gitlab.Convert", "bitbucket.Convert", "legacy.Convert"])
LG = "yaml/converter/legacy/internal/config.go"
P("V02", "A converted Drone 0.8 file keeps every setting of its steps and services",
  "A converted legacy file is one pipeline whose steps are the clone steps (or the legacy clone step, if asked for), then the pipeline "
  "steps, in order, and whose services are the declared services; each keeps its name (repeated names get a suffix), image, commands, "
  "command, entrypoint, environment, secrets (by upper-case name), extra hosts, DNS, pull policy, privileges, settings, volumes and "
  "conditions (deployment events become promote), with the workspace, the volumes, the branch conditions (as trigger, tags allowed when "
  "a step needs them) and the external secrets of the file.",
  ["inputs", "configurations"], "every legacy configuration, remote URL and value of the conversion environment variables",
  "Tests convert about ten files; a setting lost in conversion changes every build after the migration.",
  [LG], [("conversion", LG + " Convert")], VFREF,
  VNOTE + " Files with a build matrix are V07. Finding a free name for a repeated step is compared as a fold over the steps.",
  ["legacy.Convert"])
P("V05", "Short and long forms of the other systems' settings are both read",
  "A list may be given as one string; a legacy environment as a map or KEY=value list; a volume as source:destination[:ro]; secrets as "
  "names or source/target pairs; conditions as a string, list or include/exclude; containers as an ordered map (name from the key); "
  "GitLab images as a name or a map; Bitbucket stages as a list of steps. What fits no form is an error; order is kept.",
  ["inputs", "faults"], "every node and every decoding result",
  "Tests decode a handful of literals of the common forms.",
  ["yaml/converter/internal/string_slice.go", "yaml/converter/legacy/internal/string_slice.go", "yaml/converter/legacy/internal/slice_map.go",
   "yaml/converter/legacy/internal/volume.go", "yaml/converter/legacy/internal/secret.go", "yaml/converter/legacy/internal/constraint.go",
   "yaml/converter/legacy/internal/container.go", "yaml/converter/gitlab/config.go", "yaml/converter/bitbucket/config.go"],
  [("decoders", "yaml/converter/**/UnmarshalYAML")], VFREF,
  "The decoding function given to UnmarshalYAML is uninterpreted, may fail for any target, and fills its target as a function of the node.",
  ["gitlab.Convert", "bitbucket.Convert", "legacy.Convert"])
P("V07", "Every entry of a legacy build matrix becomes a pipeline of its own",
  "A legacy file with a build matrix becomes one pipeline for each entry, in order, named matrix-1, matrix-2 and so on, with "
  "exactly the steps and services whose matrix conditions the entry satisfies (all of those without conditions), with ${NAME} replaced "
  "by the entry's value for each of its names; a matrix without entries gives the plain pipeline; errors are returned.",
  ["inputs", "faults"], "every legacy configuration and every list of matrix entries",
  "Tests convert two files with a matrix.",
  [LG], [("matrix", LG + " Convert")], VFREF,
  VNOTE + " The entries are the result of matrix.Parse, uninterpreted here; the content that is turned into text is compared field by field.",
  ["legacy.Convert"])
P("V08", "A legacy matrix yields every combination of its values exactly once",
  "The entries of a legacy matrix section are those of its include list, if it has one; otherwise one entry for every combination of "
  "one value from each named list (lists without values left out), none twice and none missing, up to a limit of at least 25 entries "
  "and 10 variables. A section that is neither is an error, no section gives no entries, and reading any section does not panic. "
  "The text of an entry lists its NAME=value pairs sorted.",
  ["inputs", "faults"], "every matrix section, of any number and size of lists",
  "Tests read four matrices of two or three lists; skipped or repeated combinations show only for other sizes, and are builds that never run.",
  ["yaml/converter/legacy/matrix/matrix.go"], [("mixed-radix counting", "yaml/converter/legacy/matrix/matrix.go calc"), ("sections", "yaml/converter/legacy/matrix/matrix.go Parse")],
  "guarded value flow against a reference (include list, errors, no section); the number of entries is shown to be the product of the "
  "sizes by induction over its loop, and each value to be the one at a mixed-radix digit of the entry's number",
  "Recognised are the two usual ways to number combinations (remainder and quotient by the size, or quotient by the product of the "
  "sizes that follow, then remainder): for these the entries correspond one to one to the combinations; any other way is reported as not decided. "
  "Integers are taken as unbounded. YAML decoding is uninterpreted.",
  ["legacy.Convert"])
P("V04", "The same input always gives the same output, whatever the order of maps",
  "Nothing the repository produces (specs, converted files, formatted files, matrices, lint results) depends on the order in which "
  "the entries of a map happen to be visited, on goroutines or on channel timing: lists made from maps are sorted before use, and no "
  "entry of a map overwrites another or decides an outcome because it came first. Only the random identifiers, and which of several "
  "errors is reported, may differ.",
  ["schedules", "inputs"], "every visiting order of every map the code ranges over",
  "Go picks a new map order for every loop; a test sees one order per run, and small maps often look sorted.",
  ["yaml/compiler/step.go", "yaml/compiler/transform/volume.go", "yaml/compiler/transform/secret.go", "yaml/converter/gitlab/convert.go",
   "yaml/converter/bitbucket/convert.go", "yaml/converter/legacy/internal/config.go", "yaml/converter/legacy/matrix/matrix.go",
   "yaml/pretty/container.go", "yaml/pretty/writer.go"],
  [("sorted keys", "sort.Strings after each loop over a map")],
  "interprocedural taint of visiting order over the SSA form of the whole module",
  "Each loop over a map is classified by what survives it: counters, flags and entries stored under the visited key are harmless, "
  "lists are followed until they are sorted, everything else is reported. A comparison by one field is taken to order a list "
  "completely; the YAML and JSON libraries sort maps themselves.",
  ["Compiler.Compile", "converter.Convert", "pretty.Print", "matrix.Parse"])
YNOTE = ("The text is compared with a reference writer that is analysed the same way; bytes.Buffer, fmt and strconv are modelled by "
         "their documentation, and sorting leaves keys in ascending order.")
PRETTY = "yaml/pretty/"
P("Y01", "Formatting keeps all of a cron, registry, secret or signature document",
  "The formatted text of a cron, registry, secret or signature document has its kind, type, name and every other non-empty field under "
  "its documented key and depth, lists and maps complete (maps by key), and long data folded in lines that join to the original value.",
  ["inputs"], "every cron, registry, secret and signature document",
  "fmt rewrites the user's file in place: a field lost for a combination no test has is lost for good.",
  [PRETTY + "cron.go", PRETTY + "registry.go", PRETTY + "secret.go", PRETTY + "signature.go", PRETTY + "writer.go", PRETTY + "util.go"],
  [("documents", PRETTY + "pretty.go Print")], VFREF, YNOTE + " Whether a string is quoted is Y05.", ["pretty.Print", "drone-yaml fmt"])
P("Y02", "Formatting keeps all of a pipeline and its containers",
  "The formatted text of a pipeline has every non-empty field of the pipeline, its clone, workspace, volumes, platform, concurrency, "
  "trigger and node sections, and of every step and service (settings apart), each under its documented key, at its depth and in "
  "its order; empty fields leave nothing behind and missing entries are skipped.",
  ["inputs"], "every pipeline with any number of steps, services and volumes",
  "The formatter has one branch for each field; a wrong depth or a lost field shows only where that combination is used.",
  [PRETTY + "pipeline.go", PRETTY + "container.go", PRETTY + "writer.go"],
  [("pipeline", PRETTY + "pipeline.go"), ("container", PRETTY + "container.go")], VFREF,
  YNOTE + " Whether a string is quoted is Y05; settings are Y03.", ["pretty.Print", "drone-yaml fmt"])
P("Y03", "Formatting keeps the type and content of plugin settings",
  "A setting that is a string, boolean, integer, float, null, list or mapping (also a list of lists or mappings and a mapping of lists "
  "or mappings) is formatted as the YAML of that value, zero values and empty collections included, and a setting from a secret as "
  "from_secret; all settings are present, by name.",
  ["inputs"], "every setting of the listed shapes, with any length, key and scalar",
  "Settings hold any YAML value; tests print a few literals of some types.",
  [PRETTY + "writer.go", PRETTY + "container.go"], [("settings", PRETTY + "writer.go writeEncode")], VFREF,
  YNOTE + " Values nested deeper than two levels are not compared.", ["pretty.Print", "drone-yaml fmt"])
P("Y04", "Formatting keeps every document of a file and their order",
  "The formatted file consists of the formatted text of each document, each once and in the order of the manifest, every one started "
  "by its separator and the file closed by the end marker; what is written for a document does not depend on the documents before it.",
  ["inputs", "histories"], "every manifest with any number of documents of several kinds",
  "State kept by the writer between documents shows only for particular sequences of documents.",
  [PRETTY + "pretty.go", PRETTY + "writer.go"], [("documents", PRETTY + "pretty.go Print")], VFREF, YNOTE, ["pretty.Print", "drone-yaml fmt"])
P("Y05", "Formatted strings are read back as the same strings",
  "Wherever the formatter writes a string without quotes (names, list entries, keys and values of mappings, environment, conditions, "
  "settings at any place), the YAML library reads that text back as the same string; all other strings are quoted.",
  ["inputs"], "every string at every kind of place in a document",
  "Strings that look like numbers, booleans, dates, comments or mappings are too many to sample; one misread changes the build.",
  [PRETTY + "util.go", PRETTY + "writer.go"], [("quotes", PRETTY + "util.go isQuoted")],
  "guarded value-flow analysis: the path condition of every unquoted use implies the library's own answer",
  "The YAML library's decoding of the text is an uninterpreted function; a string in quotes is taken to be read back as it is. Known "
  "finding: strings that start with & or !.", ["pretty.Print", "drone-yaml fmt"])

PTECH = ("guarded value-flow analysis: the condition of each reachable panic (nil dereference, nil map write, index, slice bound, "
         "type assertion, division, explicit panic, nil call) is unsatisfiable")
PNOTE = ("Panics inside third-party code and exhausted memory or stack are not covered; a function that returns a result and an error "
         "is taken to return a result when the error is nil.")
PWHY = ("A nil entry, an empty list or a missing section at any place is one line of YAML; tests have no null entries and a panic in "
        "the server takes every build down.")
P("R01", "Linting never crashes",
  "Linting any resource or manifest, with null entries in any list and any section missing, returns a result and never panics.",
  ["inputs"], "every resource and manifest, null list entries included", PWHY, LINT,
  [("linter", "yaml/linter/linter.go Lint"), ("manifest linter", "yaml/linter/config.go Manifest")], PTECH,
  PNOTE + " The resource itself is not a nil pointer.", ["linter.Lint", "linter.Manifest"])
P("R02", "Compiling never crashes",
  "Compiling any pipeline with any configuration of the compiler, with null entries in any list or map, any section missing and any "
  "subset of the callbacks set, returns a specification and never panics.",
  ["inputs"], "every pipeline and compiler configuration", PWHY, COMP,
  [("compiler", "yaml/compiler/compiler.go Compile")], PTECH, PNOTE + " Callbacks do not panic.", ["Compiler.Compile"])
P("R03", "Transformations never crash on compiled pipelines",
  "Every runtime transformation (environment, labels, networks, netrc, limits, volumes, registry credentials, secrets, include, "
  "exclude, resume, combine) can be applied to the specification compiled from any pipeline without a panic.",
  ["inputs"], "every pipeline, compiler configuration and argument of the transformation",
  "The transformations write into maps and objects that only the compiler creates; a step, volume or build step it creates without "
  "one crashes only in combination with one transformation.",
  COMP + ["yaml/compiler/transform/labels.go", "yaml/compiler/transform/env.go", "yaml/compiler/transform/limits.go", "yaml/compiler/transform/secret.go"],
  [("maps of compiled resources", "yaml/compiler/compiler.go Compile, yaml/compiler/step.go, yaml/compiler/workspace.go"),
   ("transformations", "yaml/compiler/transform/labels.go and its siblings")],
  PTECH, PNOTE + " Callbacks do not panic and given functions are not nil.", ["transform.*", "Compiler.TransformFunc"])
P("R04", "Formatting never crashes",
  "Printing any manifest, with null entries in any list or map, any section missing, any string and settings of any scalar, list or "
  "map, never panics.",
  ["inputs"], "every document of every kind; settings nested up to two levels",
  PWHY, [PRETTY + "pretty.go", PRETTY + "pipeline.go", PRETTY + "container.go", PRETTY + "writer.go", PRETTY + "util.go"],
  [("formatter", PRETTY + "pretty.go Print")], PTECH, PNOTE, ["pretty.Print", "drone-yaml fmt"])
P("R05", "Reading and signing never crash",
  "Parsing any bytes into a manifest or raw documents, decoding a manifest from JSON, and signing, verifying or updating a signature "
  "of any bytes with any key return a result or an error and never panic.",
  ["inputs"], "every byte string and key", PWHY, ["yaml/parse.go", "yaml/manifest.go", "yaml/signer/signer.go"],
  [("parser", "yaml/parse.go Parse, ParseRaw"), ("signer", "yaml/signer/signer.go")], PTECH,
  PNOTE + " That the documents found by the line loop are present is decided by P02.", ["yaml.Parse", "yaml.ParseRaw", "signer.Sign", "signer.Verify"])
P("R06", "Converting never crashes",
  "Converting any legacy, GitLab or Bitbucket file, with null jobs, steps, services, secrets, volumes or sections, returns a result "
  "or an error and never panics.",
  ["inputs"], "every file", PWHY,
  ["yaml/converter/convert.go", "yaml/converter/gitlab/convert.go", "yaml/converter/bitbucket/convert.go", "yaml/converter/legacy/internal/config.go"],
  [("converters", "yaml/converter/convert.go Convert")], PTECH,
  PNOTE + " The list of matrix entries is arbitrary (how it is made is V08); entries of decoded container and step lists are "
  "present (V05).", ["converter.Convert"])
P("R07", "Decoders, conditions and image functions never crash",
  "Every custom decoder and encoder with any decoding result, matching of any condition, the skip and privilege callbacks and the "
  "comparison of any two image names never panic.",
  ["inputs"], "every decoding result, condition, step and image name", PWHY,
  ["yaml/build.go", "yaml/cond.go", "yaml/env.go", "yaml/param.go", "yaml/port.go", "yaml/push.go", "yaml/unit.go", "yaml/compiler/image/image.go",
   "yaml/compiler/skip.go", "yaml/compiler/dind.go", "yaml/converter/legacy/internal/slice_map.go", "yaml/converter/legacy/internal/volume.go",
   "yaml/converter/bitbucket/config.go"],
  [("decoders", "UnmarshalYAML methods in yaml, yaml/converter"), ("image names", "yaml/compiler/image/image.go")], PTECH, PNOTE,
  ["yaml.Unmarshal of each type", "Condition.Match", "image.Match"])
P("R08", "The command line tool never crashes",
  "For every command line and every file, each command ends with a result or an error message and never with a panic of its own code.",
  ["inputs"], "every command, set of flags and file", PWHY, ["main.go"], [("commands", "main.go")], PTECH,
  PNOTE + " " + XNOTE, ["drone-yaml"])

# --- properties this family of technique does not decide ------------------------
N("N02", "Branch, event and other patterns match as documented",
  "A pattern of a condition matches exactly the names that the documentation of glob patterns says it matches.",
  ["inputs"], "every pattern and every name",
  "The pairs of patterns and names are unbounded.",
  ["yaml/cond.go"], [("glob matching", "yaml/cond.go Condition.Includes, Excludes")],
  "The matching is done by a third-party library on run-time texts; no bound on either is available statically. That the "
  "library is asked with the right arguments, and what follows from its answer, is decided (M01, C03).")
N("N03", "A memory size means the same after it was written and read again",
  "Writing a size as text and reading the text gives the same number of bytes.",
  ["inputs"], "every size",
  "Rounding shows only for sizes that have no short decimal form.",
  ["yaml/unit.go"], [("size texts", "yaml/unit.go BytesSize")],
  "The text is made from a floating-point division in a third-party library and rounded to four digits (so the statement is false "
  "for some sizes); which sizes survive is a question about floating-point values, not about the program's structure.")
N("N04", "Identifiers generated for containers, volumes and files are unique",
  "No two identifiers generated for the objects of a compiled pipeline, or of two pipelines, are equal.",
  ["histories"], "every sequence of generated identifiers",
  "Collisions have a probability too small for any test.",
  ["yaml/compiler/internal/rand/rand.go", "yaml/compiler/step.go"], [("random identifiers", "yaml/compiler/internal/rand/rand.go String")],
  "Uniqueness is a statement about probabilities of the values the operating system's random source returns at run time. That "
  "each object gets an identifier of its own from the cryptographic source is decided (C08).")
N("N05", "Formatting a formatted file changes nothing",
  "For every manifest, the output of the formatter, parsed and formatted again, is the same text.",
  ["inputs"], "every manifest, with values nested to any depth",
  "Scalars whose text reads as another type, and nested values, give rise to unbounded combinations.",
  ["yaml/pretty/pretty.go", "yaml/pretty/writer.go", "yaml/parse.go"], [("formatter and parser", "yaml/pretty/writer.go; yaml/parse.go")],
  "It quantifies over how the third-party YAML scanner reads arbitrary texts back. What the formatter writes for each field, the "
  "quoting rule and the indentation are decided one construct at a time (Y01-Y05).")
N("N06", "A list or map setting reaches the plugin in the form plugins decode",
  "The text given to a plugin for a setting that is a list or a map decodes to that list or map.",
  ["inputs"], "every list or map given as a setting, of any depth",
  "The encodings differ by element type and depth.",
  ["yaml/compiler/encode.go"], [("setting texts", "yaml/compiler/encode.go encode")],
  "The text is produced by third-party encoders on run-time values of any type and depth, and is decoded by programs outside this "
  "repository. Scalars are decided (C04).")
