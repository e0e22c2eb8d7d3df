From 1a7c20405ce58b22517737c545a7c734f5c4a586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:28 +0000
Subject: [PATCH 01/23] fix: linter must skip empty list entries

---
 yaml/linter/linter.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/yaml/linter/linter.go b/yaml/linter/linter.go
index 27b35cb..a1b66ca 100644
--- a/yaml/linter/linter.go
+++ b/yaml/linter/linter.go
@@ -79,6 +79,9 @@ func checkPipeline(pipeline *yaml.Pipeline, trusted bool) error {
 		names["clone"] = struct{}{}
 	}
 	for _, container := range pipeline.Steps {
+		if container == nil {
+			continue
+		}
 		_, ok := names[container.Name]
 		if ok {
 			return ErrDuplicateStepName
@@ -96,6 +99,9 @@ func checkPipeline(pipeline *yaml.Pipeline, trusted bool) error {
 		}
 	}
 	for _, container := range pipeline.Services {
+		if container == nil {
+			continue
+		}
 		_, ok := names[container.Name]
 		if ok {
 			return ErrDuplicateStepName
@@ -159,6 +165,9 @@ func checkContainer(container *yaml.Container, trusted bool) error {
 		return errors.New("linter: untrusted repositories cannot configure network_mode")
 	}
 	for _, mount := range container.Volumes {
+		if mount == nil {
+			continue
+		}
 		switch mount.Name {
 		case "workspace", "_workspace", "_docker_socket":
 			return fmt.Errorf("linter: invalid volume name: %s", mount.Name)
@@ -169,6 +178,9 @@ func checkContainer(container *yaml.Container, trusted bool) error {
 
 func checkPorts(ports []*yaml.Port, trusted bool) error {
 	for _, port := range ports {
+		if port == nil {
+			continue
+		}
 		err := checkPort(port, trusted)
 		if err != nil {
 			return err
@@ -186,6 +198,9 @@ func checkPort(port *yaml.Port, trusted bool) error {
 
 func checkVolumes(pipeline *yaml.Pipeline, trusted bool) error {
 	for _, volume := range pipeline.Volumes {
+		if volume == nil {
+			continue
+		}
 		if volume.EmptyDir != nil {
 			err := checkEmptyDirVolume(volume.EmptyDir, trusted)
 			if err != nil {
-- 
2.43.0


From ed94e9191af507aa0495e49bdcd5c5820f030554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:39 +0000
Subject: [PATCH 02/23] fix: compiler must skip empty list entries

---
 yaml/compiler/compiler.go | 11 ++++++++++-
 yaml/compiler/convert.go  |  3 +++
 yaml/compiler/step.go     |  3 +++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/yaml/compiler/compiler.go b/yaml/compiler/compiler.go
index b5884db..42857ef 100644
--- a/yaml/compiler/compiler.go
+++ b/yaml/compiler/compiler.go
@@ -73,7 +73,7 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 
 	isSerial := true
 	for _, step := range from.Steps {
-		if len(step.DependsOn) != 0 {
+		if step != nil && len(step.DependsOn) != 0 {
 			isSerial = false
 			break
 		}
@@ -115,6 +115,9 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 	// file, convert to a runtime volume and append to the
 	// specification.
 	for _, from := range from.Volumes {
+		if from == nil {
+			continue
+		}
 		to := &engine.Volume{
 			Metadata: engine.Metadata{
 				UID:       rand.String(),
@@ -157,6 +160,9 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 	// configuration file, convert to a runtime step
 	// and append to the specification.
 	for _, service := range from.Services {
+		if service == nil {
+			continue
+		}
 		step := createStep(spec, service)
 		// note that all services are automatically
 		// set to run in detached mode.
@@ -191,6 +197,9 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 	// configuration file, convert to a runtime step
 	// and append to the specification.
 	for _, container := range from.Steps {
+		if container == nil {
+			continue
+		}
 		var step *engine.Step
 		switch {
 		case container.Build != nil:
diff --git a/yaml/compiler/convert.go b/yaml/compiler/convert.go
index 245c81e..6d875e2 100644
--- a/yaml/compiler/convert.go
+++ b/yaml/compiler/convert.go
@@ -28,6 +28,9 @@ func toIgnoreErr(from *yaml.Container) bool {
 func toPorts(from *yaml.Container) []*engine.Port {
 	var ports []*engine.Port
 	for _, port := range from.Ports {
+		if port == nil {
+			continue
+		}
 		ports = append(ports, toPort(port))
 	}
 	return ports
diff --git a/yaml/compiler/step.go b/yaml/compiler/step.go
index e454540..5502f97 100644
--- a/yaml/compiler/step.go
+++ b/yaml/compiler/step.go
@@ -71,6 +71,9 @@ func createStep(spec *engine.Spec, src *yaml.Container) *engine.Step {
 
 	// appends the volumes to the container def.
 	for _, vol := range src.Volumes {
+		if vol == nil {
+			continue
+		}
 		// the user should never be able to directly
 		// mount the docker socket. This should be
 		// restricted by the linter, but we place this
-- 
2.43.0


From b6fdd8bb30ae40769097e0864f16cc85a3867fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 03/23] fix: host workspace volume must carry labels and
 namespace

---
 yaml/compiler/workspace.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaml/compiler/workspace.go b/yaml/compiler/workspace.go
index 600f4af..41d87d4 100644
--- a/yaml/compiler/workspace.go
+++ b/yaml/compiler/workspace.go
@@ -118,8 +118,10 @@ func CreateHostWorkspace(workdir string) func(*engine.Spec) {
 			spec.Docker.Volumes,
 			&engine.Volume{
 				Metadata: engine.Metadata{
-					UID:  rand.String(),
-					Name: workspaceHostName,
+					UID:       rand.String(),
+					Name:      workspaceHostName,
+					Namespace: spec.Metadata.Namespace,
+					Labels:    map[string]string{},
 				},
 				HostPath: &engine.VolumeHostPath{
 					Path: workdir,
-- 
2.43.0


From 72dc77ad09c0d20dec806f3910bdb02f582ad005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 04/23] fix: convert command must honour its own save flag

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 9dd0627..3baad89 100644
--- a/main.go
+++ b/main.go
@@ -114,7 +114,7 @@ func runConvert() error {
 	if err != nil {
 		return err
 	}
-	if *formatSave {
+	if *convertSave {
 		return ioutil.WriteFile(f.Name(), b, 0644)
 	}
 	_, err = io.Copy(os.Stderr, bytes.NewReader(b))
-- 
2.43.0


From 871dca6239e43afc78e05b47f1f1d8fb1fd5bcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:29 +0000
Subject: [PATCH 05/23] fix: compiled secrets and volumes must not depend on
 map order

---
 yaml/compiler/step.go             | 17 +++++++++++++++--
 yaml/compiler/transform/secret.go | 18 +++++++++++++++---
 yaml/compiler/transform/volume.go |  9 ++++++++-
 3 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/yaml/compiler/step.go b/yaml/compiler/step.go
index 5502f97..38211d7 100644
--- a/yaml/compiler/step.go
+++ b/yaml/compiler/step.go
@@ -15,6 +15,7 @@
 package compiler
 
 import (
+	"sort"
 	"strings"
 
 	"github.com/drone/drone-runtime/engine"
@@ -90,7 +91,13 @@ func createStep(spec *engine.Spec, src *yaml.Container) *engine.Step {
 
 	// appends the environment variables to the
 	// container definition.
-	for key, value := range src.Environment {
+	var envs []string
+	for key := range src.Environment {
+		envs = append(envs, key)
+	}
+	sort.Strings(envs)
+	for _, key := range envs {
+		value := src.Environment[key]
 		// fix https://github.com/drone/drone-yaml/issues/13
 		if value == nil {
 			continue
@@ -108,7 +115,13 @@ func createStep(spec *engine.Spec, src *yaml.Container) *engine.Step {
 
 	// appends the settings variables to the
 	// container definition.
-	for key, value := range src.Settings {
+	var settings []string
+	for key := range src.Settings {
+		settings = append(settings, key)
+	}
+	sort.Strings(settings)
+	for _, key := range settings {
+		value := src.Settings[key]
 		// fix https://github.com/drone/drone-yaml/issues/13
 		if value == nil {
 			continue
diff --git a/yaml/compiler/transform/secret.go b/yaml/compiler/transform/secret.go
index 439dfb3..364cb22 100644
--- a/yaml/compiler/transform/secret.go
+++ b/yaml/compiler/transform/secret.go
@@ -15,6 +15,8 @@
 package transform
 
 import (
+	"sort"
+
 	"github.com/drone/drone-runtime/engine"
 	"github.com/drone/drone-yaml/yaml/compiler/internal/rand"
 )
@@ -23,7 +25,12 @@ import (
 // of global secrets to the container.
 func WithSecrets(secrets map[string]string) func(*engine.Spec) {
 	return func(spec *engine.Spec) {
-		for key, value := range secrets {
+		var keys []string
+		for key := range secrets {
+			keys = append(keys, key)
+		}
+		sort.Strings(keys)
+		for _, key := range keys {
 			spec.Secrets = append(spec.Secrets,
 				&engine.Secret{
 					Metadata: engine.Metadata{
@@ -31,7 +38,7 @@ func WithSecrets(secrets map[string]string) func(*engine.Spec) {
 						Name:      key,
 						Namespace: spec.Metadata.Namespace,
 					},
-					Data: value,
+					Data: secrets[key],
 				},
 			)
 		}
@@ -50,6 +57,7 @@ func WithSecretFunc(f SecretFunc) func(*engine.Spec) {
 		// first we get a unique list of all secrets
 		// used by the specification.
 		set := map[string]struct{}{}
+		var names []string
 		for _, step := range spec.Steps {
 			// if we know the step is not going to run,
 			// we can ignore any secrets that it requires.
@@ -57,14 +65,18 @@ func WithSecretFunc(f SecretFunc) func(*engine.Spec) {
 				continue
 			}
 			for _, v := range step.Secrets {
+				if _, ok := set[v.Name]; ok {
+					continue
+				}
 				set[v.Name] = struct{}{}
+				names = append(names, v.Name)
 			}
 		}
 
 		// next we use the callback function to
 		// get the value for each secret, and append
 		// to the specification.
-		for name := range set {
+		for _, name := range names {
 			secret := f(name)
 			if secret != nil {
 				secret.Metadata.UID = rand.String()
diff --git a/yaml/compiler/transform/volume.go b/yaml/compiler/transform/volume.go
index 8268310..7b62a04 100644
--- a/yaml/compiler/transform/volume.go
+++ b/yaml/compiler/transform/volume.go
@@ -15,6 +15,7 @@
 package transform
 
 import (
+	"sort"
 	"strings"
 
 	"github.com/drone/drone-runtime/engine"
@@ -25,7 +26,13 @@ import (
 // of global volumes to the container.
 func WithVolumes(volumes map[string]string) func(*engine.Spec) {
 	return func(spec *engine.Spec) {
-		for key, value := range volumes {
+		var keys []string
+		for key := range volumes {
+			keys = append(keys, key)
+		}
+		sort.Strings(keys)
+		for _, key := range keys {
+			value := volumes[key]
 			volume := &engine.Volume{
 				Metadata: engine.Metadata{
 					UID:       rand.String(),
-- 
2.43.0


From c2c3ff3b86f6b985e44741c2711c5bf400f341c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:29 +0000
Subject: [PATCH 06/23] fix: build image alias must not depend on map order

---
 yaml/compiler/compiler.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/yaml/compiler/compiler.go b/yaml/compiler/compiler.go
index 42857ef..b1bd644 100644
--- a/yaml/compiler/compiler.go
+++ b/yaml/compiler/compiler.go
@@ -204,7 +204,7 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 		switch {
 		case container.Build != nil:
 			step = createBuildStep(spec, container)
-			rename[container.Build.Image] = step.Metadata.UID
+			rename[image.Expand(container.Build.Image)] = step.Metadata.UID
 		default:
 			step = createStep(spec, container)
 		}
@@ -253,11 +253,9 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 	// random alias. All references to the origin image
 	// name must be changed to the alias.
 	for _, step := range spec.Steps {
-		for k, v := range rename {
-			if image.MatchTag(step.Docker.Image, k) {
-				img := image.Trim(step.Docker.Image) + ":" + v
-				step.Docker.Image = image.Expand(img)
-			}
+		if v, ok := rename[image.Expand(step.Docker.Image)]; ok {
+			img := image.Trim(step.Docker.Image) + ":" + v
+			step.Docker.Image = image.Expand(img)
 		}
 	}
 
-- 
2.43.0


From 3594588957724a74cd60062fd3b213de70b39678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 07/23] fix: formatter must keep the type and content of
 settings

---
 yaml/pretty/container.go | 18 +++++++++++++++---
 yaml/pretty/util.go      | 28 ++++++++++++++++++++++++++--
 yaml/pretty/writer.go    | 39 ++++++++++++++++++++++++++++++++++-----
 3 files changed, 75 insertions(+), 10 deletions(-)

diff --git a/yaml/pretty/container.go b/yaml/pretty/container.go
index afcfd17..9e043e2 100644
--- a/yaml/pretty/container.go
+++ b/yaml/pretty/container.go
@@ -194,9 +194,7 @@ func printSettings(w writer, v map[string]*yaml.Parameter) {
 	for _, k := range keys {
 		v := v[k]
 		if v.Secret == "" {
-			w.IncludeZero()
-			w.WriteTagValue(k, v.Value)
-			w.ExcludeZero()
+			printSetting(w, k, v.Value)
 		} else {
 			w.WriteTag(k)
 			w.IndentIncrease()
@@ -207,6 +205,20 @@ func printSettings(w writer, v map[string]*yaml.Parameter) {
 	w.IndentDecrease()
 }
 
+// helper function pretty prints a setting, which can be of any
+// type. The zero value is printed as well.
+func printSetting(w writer, k string, v interface{}) {
+	if s, ok := v.(string); ok {
+		w.WriteTag(k)
+		w.WriteByte(' ')
+		writeDynamicStr(w, s)
+		return
+	}
+	w.IncludeZero()
+	w.WriteTagValue(k, v)
+	w.ExcludeZero()
+}
+
 // helper function pretty prints the volume sequence.
 func printVolumeMounts(w writer, v []*yaml.VolumeMount) {
 	w.WriteTag("volumes")
diff --git a/yaml/pretty/util.go b/yaml/pretty/util.go
index 749543b..213339a 100644
--- a/yaml/pretty/util.go
+++ b/yaml/pretty/util.go
@@ -18,11 +18,13 @@ import (
 	"strings"
 
 	"github.com/drone/drone-yaml/yaml"
+
+	goyaml "github.com/buildkite/yaml"
 )
 
 func isPrimative(v interface{}) bool {
 	switch v.(type) {
-	case bool, string, int, int64, float64:
+	case bool, string, int, int64, uint64, float64:
 		return true
 	case yaml.BytesSize:
 		return true
@@ -128,7 +130,29 @@ func isQuoted(s string) bool {
 
 	// if the string ends in : it should be quoted otherwise
 	// it is interpreted as an object.
-	return strings.HasSuffix(t, ":")
+	if strings.HasSuffix(t, ":") {
+		return true
+	}
+
+	// anchors and tags are written as is.
+	if r0 == '&' || r0 == '!' {
+		return false
+	}
+
+	// if the plain string is not read back as the same string
+	// (e.g. null, or a control character) it should be quoted.
+	var out string
+	err := goyaml.Unmarshal([]byte(s), &out)
+	return err != nil || out != s
+}
+
+// helper function returns true if the plain string would be
+// read back as another type (e.g. a number or a boolean) when
+// the type of the value is not known in advance.
+func isAmbiguous(s string) bool {
+	var out interface{}
+	err := goyaml.Unmarshal([]byte(s), &out)
+	return err != nil || out != interface{}(s)
 }
 
 func chunk(s string, chunkSize int) []string {
diff --git a/yaml/pretty/writer.go b/yaml/pretty/writer.go
index 3b38362..7f3d579 100644
--- a/yaml/pretty/writer.go
+++ b/yaml/pretty/writer.go
@@ -213,6 +213,12 @@ func writeInt64(w writer, v int64) {
 	)
 }
 
+func writeUint64(w writer, v uint64) {
+	w.WriteString(
+		strconv.FormatUint(v, 10),
+	)
+}
+
 func writeEncode(w writer, v string) {
 	if len(v) == 0 {
 		w.WriteByte('"')
@@ -226,13 +232,32 @@ func writeEncode(w writer, v string) {
 	}
 }
 
+// writeDynamicStr writes a string to a place that accepts any
+// type. It is quoted if it would be read as another type.
+func writeDynamicStr(w writer, v string) {
+	if len(v) > 0 && isAmbiguous(v) {
+		fmt.Fprintf(w, "%q", v)
+	} else {
+		writeEncode(w, v)
+	}
+}
+
+// writeDynamic writes a value to a place that accepts any type.
+func writeDynamic(w writer, v interface{}) {
+	if s, ok := v.(string); ok {
+		writeDynamicStr(w, s)
+	} else {
+		writeValue(w, v)
+	}
+}
+
 func writeValue(w writer, v interface{}) {
 	if v == nil {
 		w.WriteByte('~')
 		return
 	}
 	switch v := v.(type) {
-	case bool, int, int64, float64, string:
+	case bool, int, int64, uint64, float64, string:
 		writeScalar(w, v)
 	case []interface{}:
 		writeSequence(w, v)
@@ -255,6 +280,8 @@ func writeScalar(w writer, v interface{}) {
 		writeInt(w, v)
 	case int64:
 		writeInt64(w, v)
+	case uint64:
+		writeUint64(w, v)
 	case float64:
 		writeFloat(w, v)
 	case string:
@@ -276,7 +303,7 @@ func writeSequence(w writer, v []interface{}) {
 		w.WriteByte('-')
 		w.WriteByte(' ')
 		w.IndentIncrease()
-		writeValue(w, v)
+		writeDynamic(w, v)
 		w.IndentDecrease()
 	}
 }
@@ -305,13 +332,15 @@ func writeMapping(w writer, v map[interface{}]interface{}) {
 		return
 	}
 	var keys []string
-	for k := range v {
+	values := map[string]interface{}{}
+	for k, v := range v {
 		s := fmt.Sprint(k)
 		keys = append(keys, s)
+		values[s] = v
 	}
 	sort.Strings(keys)
 	for i, k := range keys {
-		v := v[k]
+		v := values[k]
 		if i != 0 {
 			w.WriteByte('\n')
 			w.Indent()
@@ -320,7 +349,7 @@ func writeMapping(w writer, v map[interface{}]interface{}) {
 		w.WriteByte(':')
 		if v == nil || isPrimative(v) || isZero(v) {
 			w.WriteByte(' ')
-			writeValue(w, v)
+			writeDynamic(w, v)
 		} else {
 			slice := isSlice(v)
 			if !slice {
-- 
2.43.0


From 6c32c53418d7c1f7c14374614ae6f763bf3c1b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:03 +0000
Subject: [PATCH 08/23] fix: formatter must print registry resources

---
 yaml/pretty/pretty.go   |  2 ++
 yaml/pretty/registry.go | 50 +++++++++++++++++++++++++++++++++++++++++
 yaml/pretty/secret.go   |  7 +++++-
 3 files changed, 58 insertions(+), 1 deletion(-)
 create mode 100644 yaml/pretty/registry.go

diff --git a/yaml/pretty/pretty.go b/yaml/pretty/pretty.go
index 1080c46..0a4c059 100644
--- a/yaml/pretty/pretty.go
+++ b/yaml/pretty/pretty.go
@@ -27,6 +27,8 @@ func Print(w io.Writer, v *yaml.Manifest) {
 		switch t := r.(type) {
 		case *yaml.Cron:
 			printCron(state, t)
+		case *yaml.Registry:
+			printRegistry(state, t)
 		case *yaml.Secret:
 			printSecret(state, t)
 		case *yaml.Signature:
diff --git a/yaml/pretty/registry.go b/yaml/pretty/registry.go
new file mode 100644
index 0000000..2262cd8
--- /dev/null
+++ b/yaml/pretty/registry.go
@@ -0,0 +1,50 @@
+// Copyright 2019 Drone IO, Inc.
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//      http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+package pretty
+
+import (
+	"sort"
+
+	"github.com/drone/drone-yaml/yaml"
+)
+
+// helper function pretty prints the registry resource.
+func printRegistry(w writer, v *yaml.Registry) {
+	w.WriteString("---")
+	w.WriteTagValue("version", v.Version)
+	w.WriteTagValue("kind", v.Kind)
+	w.WriteTagValue("type", v.Type)
+	if len(v.Data) > 0 {
+		printRegistryData(w, v.Data)
+	}
+	w.WriteByte('\n')
+	w.WriteByte('\n')
+}
+
+// helper function pretty prints the registry data mapping.
+func printRegistryData(w writer, v map[string]string) {
+	var keys []string
+	for k := range v {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+
+	w.WriteTag("data")
+	w.IndentIncrease()
+	for _, k := range keys {
+		printFolded(w, k, v[k])
+	}
+	w.IndentDecrease()
+}
diff --git a/yaml/pretty/secret.go b/yaml/pretty/secret.go
index 5a6b63f..4ac0e5c 100644
--- a/yaml/pretty/secret.go
+++ b/yaml/pretty/secret.go
@@ -75,7 +75,12 @@ func printExternalData(w writer, d map[string]yaml.ExternalData) {
 }
 
 func printData(w writer, d string) {
-	w.WriteTag("data")
+	printFolded(w, "data", d)
+}
+
+// helper function prints encoded data as a folded block.
+func printFolded(w writer, k, d string) {
+	w.WriteTag(k)
 	w.WriteByte(' ')
 	w.WriteByte('>')
 	w.IndentIncrease()
-- 
2.43.0


From a16bd007f6b826815270064bce1f7ef09a96f49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:03 +0000
Subject: [PATCH 09/23] fix: formatter must not drop or repeat fields

---
 yaml/pretty/container.go | 2 ++
 yaml/pretty/cron.go      | 1 +
 yaml/pretty/pipeline.go  | 6 +++++-
 yaml/pretty/secret.go    | 3 +--
 4 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/yaml/pretty/container.go b/yaml/pretty/container.go
index 9e043e2..3b5d303 100644
--- a/yaml/pretty/container.go
+++ b/yaml/pretty/container.go
@@ -125,7 +125,9 @@ func printEnviron(w writer, v map[string]*yaml.Variable) {
 	for _, k := range keys {
 		v := v[k]
 		if v.Secret == "" {
+			w.IncludeZero()
 			w.WriteTagValue(k, v.Value)
+			w.ExcludeZero()
 		} else {
 			w.WriteTag(k)
 			w.IndentIncrease()
diff --git a/yaml/pretty/cron.go b/yaml/pretty/cron.go
index 6a835d2..45e228d 100644
--- a/yaml/pretty/cron.go
+++ b/yaml/pretty/cron.go
@@ -21,6 +21,7 @@ func printCron(w writer, v *yaml.Cron) {
 	w.WriteString("---")
 	w.WriteTagValue("version", v.Version)
 	w.WriteTagValue("kind", v.Kind)
+	w.WriteTagValue("type", v.Type)
 	w.WriteTagValue("name", v.Name)
 	printSpec(w, v)
 	w.WriteByte('\n')
diff --git a/yaml/pretty/pipeline.go b/yaml/pretty/pipeline.go
index e6cafdb..2401e65 100644
--- a/yaml/pretty/pipeline.go
+++ b/yaml/pretty/pipeline.go
@@ -152,6 +152,9 @@ func printConditions(w writer, name string, v yaml.Conditions) {
 	if !isConditionEmpty(v.Target) {
 		printCondition(w, "target", v.Target)
 	}
+	if len(v.Matrix) > 0 {
+		w.WriteTagValue("matrix", v.Matrix)
+	}
 	w.IndentDecrease()
 }
 
@@ -288,7 +291,8 @@ func isConditionsEmpty(v yaml.Conditions) bool {
 		isConditionEmpty(v.Ref) &&
 		isConditionEmpty(v.Repo) &&
 		isConditionEmpty(v.Status) &&
-		isConditionEmpty(v.Target)
+		isConditionEmpty(v.Target) &&
+		len(v.Matrix) == 0
 }
 
 // helper function returns true if the condition
diff --git a/yaml/pretty/secret.go b/yaml/pretty/secret.go
index 4ac0e5c..7688e04 100644
--- a/yaml/pretty/secret.go
+++ b/yaml/pretty/secret.go
@@ -29,13 +29,12 @@ func printSecret(w writer, v *yaml.Secret) {
 	w.WriteTagValue("version", v.Version)
 	w.WriteTagValue("kind", v.Kind)
 	w.WriteTagValue("type", v.Type)
+	w.WriteTagValue("name", v.Name)
 
 	if len(v.Data) > 0 {
-		w.WriteTagValue("name", v.Name)
 		printData(w, v.Data)
 	}
 	if isSecretGetEmpty(v.Get) == false {
-		w.WriteTagValue("name", v.Name)
 		w.WriteByte('\n')
 		printGet(w, v.Get)
 	}
-- 
2.43.0


From 1369b56aa57b0d8f906960c0777b2646521a951a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:04 +0000
Subject: [PATCH 10/23] fix: formatter must skip empty list and mapping entries

---
 yaml/pretty/container.go | 15 +++++++++++++++
 yaml/pretty/pipeline.go  |  3 +++
 2 files changed, 18 insertions(+)

diff --git a/yaml/pretty/container.go b/yaml/pretty/container.go
index 3b5d303..d10b8aa 100644
--- a/yaml/pretty/container.go
+++ b/yaml/pretty/container.go
@@ -103,6 +103,9 @@ func printDependsOn(w writer, v []string) {
 func printDeviceMounts(w writer, v []*yaml.VolumeDevice) {
 	w.WriteTag("devices")
 	for _, v := range v {
+		if v == nil {
+			continue
+		}
 		s := new(indexWriter)
 		s.writer = w
 		s.IndentIncrease()
@@ -124,6 +127,9 @@ func printEnviron(w writer, v map[string]*yaml.Variable) {
 	w.IndentIncrease()
 	for _, k := range keys {
 		v := v[k]
+		if v == nil {
+			continue
+		}
 		if v.Secret == "" {
 			w.IncludeZero()
 			w.WriteTagValue(k, v.Value)
@@ -142,6 +148,9 @@ func printEnviron(w writer, v map[string]*yaml.Variable) {
 func printPorts(w writer, v []*yaml.Port) {
 	w.WriteTag("ports")
 	for _, v := range v {
+		if v == nil {
+			continue
+		}
 		if shortPort(v) {
 			w.WriteByte('\n')
 			w.Indent()
@@ -195,6 +204,9 @@ func printSettings(w writer, v map[string]*yaml.Parameter) {
 	w.IndentIncrease()
 	for _, k := range keys {
 		v := v[k]
+		if v == nil {
+			continue
+		}
 		if v.Secret == "" {
 			printSetting(w, k, v.Value)
 		} else {
@@ -225,6 +237,9 @@ func printSetting(w writer, k string, v interface{}) {
 func printVolumeMounts(w writer, v []*yaml.VolumeMount) {
 	w.WriteTag("volumes")
 	for _, v := range v {
+		if v == nil {
+			continue
+		}
 		s := new(indexWriter)
 		s.writer = w
 		s.IndentIncrease()
diff --git a/yaml/pretty/pipeline.go b/yaml/pretty/pipeline.go
index 2401e65..1854eef 100644
--- a/yaml/pretty/pipeline.go
+++ b/yaml/pretty/pipeline.go
@@ -210,6 +210,9 @@ func printPlatformDefault(w writer) {
 func printVolumes(w writer, v []*yaml.Volume) {
 	w.WriteTag("volumes")
 	for _, v := range v {
+		if v == nil {
+			continue
+		}
 		s := new(indexWriter)
 		s.writer = w
 		s.IndentIncrease()
-- 
2.43.0


From 434f7eb96bb85d9024ed3028986f8824f57d49ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 11/23] fix: parser must report read errors instead of
 truncating the input

---
 yaml/parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yaml/parse.go b/yaml/parse.go
index 522ff79..ef7e8c2 100644
--- a/yaml/parse.go
+++ b/yaml/parse.go
@@ -130,6 +130,9 @@ func ParseRaw(r io.Reader) ([]*RawResource, error) {
 			newline,
 		)
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
 	for _, resource := range resources {
 		err := yaml.Unmarshal(resource.Data, resource)
 		if err != nil {
-- 
2.43.0


From 39dc7ff6af3842eb8d8e6804877b4ca64ffbf469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:24 +0000
Subject: [PATCH 12/23] fix: malformed conditions must be an error instead of
 always matching

---
 yaml/cond.go                                 | 10 ++++++++--
 yaml/converter/legacy/internal/constraint.go |  9 +++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/yaml/cond.go b/yaml/cond.go
index f6716ed..afa8a1e 100644
--- a/yaml/cond.go
+++ b/yaml/cond.go
@@ -89,8 +89,14 @@ func (c *Condition) UnmarshalYAML(unmarshal func(interface{}) error) error {
 		return nil
 	}
 
-	unmarshal(&out2)
-	unmarshal(&out3)
+	err = unmarshal(&out2)
+	if err != nil {
+		out2 = nil
+		err = unmarshal(&out3)
+	}
+	if err != nil {
+		return err
+	}
 
 	c.Exclude = out3.Exclude
 	c.Include = append(
diff --git a/yaml/converter/legacy/internal/constraint.go b/yaml/converter/legacy/internal/constraint.go
index 518db2a..0d15d1d 100644
--- a/yaml/converter/legacy/internal/constraint.go
+++ b/yaml/converter/legacy/internal/constraint.go
@@ -39,8 +39,13 @@ func (c *Constraint) UnmarshalYAML(unmarshal func(interface{}) error) error {
 
 	var out2 StringSlice
 
-	unmarshal(&out1)
-	unmarshal(&out2)
+	err := unmarshal(&out2)
+	if err != nil {
+		err = unmarshal(&out1)
+	}
+	if err != nil {
+		return err
+	}
 
 	c.Exclude = out1.Exclude
 	c.Include = append(
-- 
2.43.0


From fc6ee2083af1a55d94dc60718b97f4db79f333a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 13/23] fix: gitlab jobs must convert in a stable order and
 skip empty entries

---
 yaml/converter/gitlab/convert.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/yaml/converter/gitlab/convert.go b/yaml/converter/gitlab/convert.go
index 7a19938..a3c3559 100644
--- a/yaml/converter/gitlab/convert.go
+++ b/yaml/converter/gitlab/convert.go
@@ -6,6 +6,7 @@ package gitlab
 
 import (
 	"bytes"
+	"sort"
 	"strings"
 
 	droneyaml "github.com/drone/drone-yaml/yaml"
@@ -25,12 +26,21 @@ func Convert(b []byte) ([]byte, error) {
 	}
 	manifest := &droneyaml.Manifest{}
 
+	// jobs are processed in a stable order.
+	var names []string
+	for name, job := range config.Jobs {
+		if job != nil {
+			names = append(names, name)
+		}
+	}
+	sort.Strings(names)
+
 	// if no stages are defined, we create a single,
 	// default stage that will be used for all jobs.
 	if len(config.Stages) == 0 {
-		for name, job := range config.Jobs {
+		for _, name := range names {
 			config.Stages = append(config.Stages, name)
-			job.Stage = name
+			config.Jobs[name].Stage = name
 		}
 	}
 
@@ -41,7 +51,8 @@ func Convert(b []byte) ([]byte, error) {
 		pipeline.Name = stage
 		pipeline.Kind = droneyaml.KindPipeline
 		manifest.Resources = append(manifest.Resources, pipeline)
-		for name, job := range config.Jobs {
+		for _, name := range names {
+			job := config.Jobs[name]
 			if job.Stage != stage {
 				continue
 			}
@@ -76,6 +87,9 @@ func Convert(b []byte) ([]byte, error) {
 		}
 
 		for _, step := range config.Services {
+			if step == nil {
+				continue
+			}
 			step := &droneyaml.Container{
 				Name:       step.Alias,
 				Image:      step.Name,
-- 
2.43.0


From f9f02f74d86de640703b29a707ed49d2308cac44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 14/23] fix: bitbucket pipelines must convert in a stable order
 and skip empty entries

---
 yaml/converter/bitbucket/config.go  | 22 ++++++++++++++++++----
 yaml/converter/bitbucket/convert.go | 10 ++++++++++
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/yaml/converter/bitbucket/config.go b/yaml/converter/bitbucket/config.go
index a27c25b..d8d6a7f 100644
--- a/yaml/converter/bitbucket/config.go
+++ b/yaml/converter/bitbucket/config.go
@@ -6,6 +6,7 @@ package bitbucket
 
 import (
 	"path"
+	"sort"
 	"strings"
 )
 
@@ -75,16 +76,16 @@ type (
 func (c *Config) Pipeline(ref string) Stage {
 	// match pipeline by tag name
 	tag := strings.TrimPrefix(ref, "refs/tags/")
-	for pattern, pipeline := range c.Pipelines.Tags {
+	for _, pattern := range sortedKeys(c.Pipelines.Tags) {
 		if ok, _ := path.Match(pattern, tag); ok {
-			return pipeline
+			return c.Pipelines.Tags[pattern]
 		}
 	}
 	// match pipeline by branch name
 	branch := strings.TrimPrefix(ref, "refs/heads/")
-	for pattern, pipeline := range c.Pipelines.Branches {
+	for _, pattern := range sortedKeys(c.Pipelines.Branches) {
 		if ok, _ := path.Match(pattern, branch); ok {
-			return pipeline
+			return c.Pipelines.Branches[pattern]
 		}
 	}
 	// use default
@@ -102,7 +103,20 @@ func (s *Stage) UnmarshalYAML(unmarshal func(interface{}) error) error {
 		return err
 	}
 	for _, step := range in {
+		if step.Step == nil {
+			continue
+		}
 		s.Steps = append(s.Steps, step.Step)
 	}
 	return nil
 }
+
+// helper function returns the patterns in a stable order.
+func sortedKeys(stages map[string]Stage) []string {
+	var keys []string
+	for key := range stages {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	return keys
+}
diff --git a/yaml/converter/bitbucket/convert.go b/yaml/converter/bitbucket/convert.go
index a365ce1..f05a37e 100644
--- a/yaml/converter/bitbucket/convert.go
+++ b/yaml/converter/bitbucket/convert.go
@@ -7,6 +7,7 @@ package bitbucket
 import (
 	"bytes"
 	"fmt"
+	"sort"
 
 	droneyaml "github.com/drone/drone-yaml/yaml"
 	"github.com/drone/drone-yaml/yaml/pretty"
@@ -59,7 +60,16 @@ func Convert(b []byte, ref string) ([]byte, error) {
 	// services
 	//
 
+	var names []string
 	for name, from := range config.Definitions.Services {
+		if from != nil {
+			names = append(names, name)
+		}
+	}
+	sort.Strings(names)
+
+	for _, name := range names {
+		from := config.Definitions.Services[name]
 		to := toContainer(from)
 		to.Name = name
 		pipeline.Services = append(pipeline.Services, to)
-- 
2.43.0


From c3c83940565daeeb2814e8157eb95288738f49cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 15/23] fix: legacy matrix must expand in a stable order and
 ignore empty axes

---
 yaml/converter/legacy/internal/config.go | 9 ++++++++-
 yaml/converter/legacy/matrix/matrix.go   | 7 +++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index 0eed413..3742d2d 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -235,7 +235,14 @@ func Convert(d []byte, remote string) ([]byte, error) {
 
 			transformed := string(marshaled)
 
-			for key, value := range environ {
+			var keys []string
+			for key := range environ {
+				keys = append(keys, key)
+			}
+			sort.Strings(keys)
+
+			for _, key := range keys {
+				value := environ[key]
 				if strings.Contains(value, "\n") {
 					value = fmt.Sprintf("%q", value)
 				}
diff --git a/yaml/converter/legacy/matrix/matrix.go b/yaml/converter/legacy/matrix/matrix.go
index 112dd1b..983beb7 100644
--- a/yaml/converter/legacy/matrix/matrix.go
+++ b/yaml/converter/legacy/matrix/matrix.go
@@ -5,6 +5,7 @@
 package matrix
 
 import (
+	"sort"
 	"strings"
 
 	"github.com/buildkite/yaml"
@@ -28,6 +29,7 @@ func (a Axis) String() string {
 	for k, v := range a {
 		envs = append(envs, k+"="+v)
 	}
+	sort.Strings(envs)
 	return strings.Join(envs, " ")
 }
 
@@ -63,12 +65,17 @@ func calc(matrix Matrix) []Axis {
 	var perm int
 	var tags []string
 	for k, v := range matrix {
+		// an axis without values does not take part in the matrix.
+		if len(v) == 0 {
+			continue
+		}
 		perm *= len(v)
 		if perm == 0 {
 			perm = len(v)
 		}
 		tags = append(tags, k)
 	}
+	sort.Strings(tags)
 
 	// structure to hold the transformed result set
 	axisList := []Axis{}
-- 
2.43.0


From 1e78368068750ec574613596a0d635167b2b2e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 16/23] fix: legacy pipeline must not be lost when its matrix
 is empty

---
 yaml/converter/legacy/internal/config.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index 3742d2d..8d1b8f5 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -182,13 +182,17 @@ func Convert(d []byte, remote string) ([]byte, error) {
 		pipeline.PullSecrets = []string{".dockerconfigjson"}
 	}
 
+	var axes []matrix.Axis
 	if from.Matrix != nil {
-		axes, err := matrix.Parse(d)
+		axes, err = matrix.Parse(d)
 
 		if err != nil {
 			return nil, err
 		}
+	}
 
+	// a matrix without any axis is a regular pipeline.
+	if len(axes) != 0 {
 		for index, environ := range axes {
 			current := pipeline
 			current.Name = fmt.Sprintf("matrix-%d", index+1)
-- 
2.43.0


From 77c9a4c5705279f010f2db774b655aa6c61d2493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:16 +0000
Subject: [PATCH 17/23] fix: legacy matrix conditions must all match and add a
 step once

---
 yaml/converter/legacy/internal/config.go | 27 +++++++++++++-----------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index 8d1b8f5..aa6b55f 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -204,12 +204,8 @@ func Convert(d []byte, remote string) ([]byte, error) {
 					continue
 				}
 
-				for whenKey, whenValue := range service.When.Matrix {
-					for envKey, envValue := range environ {
-						if whenKey == envKey && whenValue == envValue {
-							services = append(services, service)
-						}
-					}
+				if matchMatrix(service.When.Matrix, environ) {
+					services = append(services, service)
 				}
 			}
 			current.Services = services
@@ -221,12 +217,8 @@ func Convert(d []byte, remote string) ([]byte, error) {
 					continue
 				}
 
-				for whenKey, whenValue := range step.When.Matrix {
-					for envKey, envValue := range environ {
-						if whenKey == envKey && whenValue == envValue {
-							steps = append(steps, step)
-						}
-					}
+				if matchMatrix(step.When.Matrix, environ) {
+					steps = append(steps, step)
 				}
 			}
 			current.Steps = steps
@@ -476,6 +468,17 @@ func toWorkspacePath(link string) string {
 	return "src/" + hostname + "/" + path
 }
 
+// helper function returns true if the matrix entry
+// satisfies all matrix conditions.
+func matchMatrix(when map[string]string, environ matrix.Axis) bool {
+	for key, value := range when {
+		if v, ok := environ[key]; !ok || v != value {
+			return false
+		}
+	}
+	return true
+}
+
 // helper function returns true if the slice the string.
 func sliceContains(match string, items []string) bool {
 	for _, item := range items {
-- 
2.43.0


From c7fbc813ec8aa9e0af1c20ce7141bae7bd19b187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:16 +0000
Subject: [PATCH 18/23] fix: legacy converter must skip empty list entries

---
 yaml/converter/legacy/internal/config.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index aa6b55f..2562148 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -345,6 +345,9 @@ func toEnvironment(from *Container) map[string]*droneyaml.Variable {
 		}
 	}
 	for _, val := range from.Secrets.Secrets {
+		if val == nil {
+			continue
+		}
 		name := strings.ToUpper(val.Target)
 		envs[name] = &droneyaml.Variable{
 			Secret: val.Source,
@@ -415,6 +418,9 @@ func toSettings(from map[string]interface{}) map[string]*droneyaml.Parameter {
 func toVolumeMounts(from []*Volume) []*droneyaml.VolumeMount {
 	to := []*droneyaml.VolumeMount{}
 	for _, v := range from {
+		if v == nil {
+			continue
+		}
 		to = append(to, &droneyaml.VolumeMount{
 			Name:      fmt.Sprintf("%x", v.Source),
 			MountPath: v.Destination,
@@ -435,6 +441,9 @@ func toVolumes(from *Config) []*droneyaml.Volume {
 
 	for _, container := range containers {
 		for _, v := range container.Volumes {
+			if v == nil {
+				continue
+			}
 			name := fmt.Sprintf("%x", v.Source)
 			if _, ok := set[name]; ok {
 				continue
-- 
2.43.0


From 7ebd6573c03e2e68222a64e0c1f2b26d5e43a79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:31 +0000
Subject: [PATCH 19/23] fix: services keep their working directory

---
 yaml/compiler/compiler.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yaml/compiler/compiler.go b/yaml/compiler/compiler.go
index b1bd644..bda22a5 100644
--- a/yaml/compiler/compiler.go
+++ b/yaml/compiler/compiler.go
@@ -165,8 +165,12 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 		}
 		step := createStep(spec, service)
 		// note that all services are automatically
-		// set to run in detached mode.
+		// set to run in detached mode. A service with no
+		// commands uses the user-defined working directory.
 		step.Detach = true
+		if len(service.Commands) == 0 {
+			step.WorkingDir = service.WorkingDir
+		}
 		setupWorkingDir(service, step, workspace)
 		setupWorkspaceEnv(step, base, dir, workspace)
 		c.setupWorkspaceMount(step, base, dir, workspace)
-- 
2.43.0


From c2258af264a1f8ca1f178f5c7f1deb15d6e815e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:54 +0000
Subject: [PATCH 20/23] fix: tracing a command does not run its backquotes

---
 yaml/compiler/script_posix.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaml/compiler/script_posix.go b/yaml/compiler/script_posix.go
index ea5b2ed..1628326 100644
--- a/yaml/compiler/script_posix.go
+++ b/yaml/compiler/script_posix.go
@@ -29,6 +29,7 @@ func setupScript(spec *engine.Spec, dst *engine.Step, src *yaml.Container) {
 	for _, command := range src.Commands {
 		escaped := fmt.Sprintf("%q", command)
 		escaped = strings.Replace(escaped, "$", `\$`, -1)
+		escaped = strings.Replace(escaped, "`", "\\`", -1)
 		buf.WriteString(fmt.Sprintf(
 			traceScript,
 			escaped,
-- 
2.43.0


From 07c8315e8d0d3222dd9972ed956c2889a6253ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:54 +0000
Subject: [PATCH 21/23] fix: tracing a windows command escapes single quotes

---
 yaml/compiler/script_win.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaml/compiler/script_win.go b/yaml/compiler/script_win.go
index b69496c..cf390bb 100644
--- a/yaml/compiler/script_win.go
+++ b/yaml/compiler/script_win.go
@@ -29,6 +29,7 @@ func setupScriptWin(spec *engine.Spec, dst *engine.Step, src *yaml.Container) {
 	for _, command := range src.Commands {
 		escaped := fmt.Sprintf("%q", command)
 		escaped = strings.Replace(escaped, "$", `\$`, -1)
+		escaped = strings.Replace(escaped, "'", "''", -1)
 		buf.WriteString(fmt.Sprintf(
 			traceScriptWin,
 			escaped,
-- 
2.43.0


From a9ea269b86eeaa8de5029219c598e3afea840ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 22/23] fix: read allow_failure of gitlab jobs

---
 yaml/converter/gitlab/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaml/converter/gitlab/config.go b/yaml/converter/gitlab/config.go
index bab4c04..f97db3b 100644
--- a/yaml/converter/gitlab/config.go
+++ b/yaml/converter/gitlab/config.go
@@ -87,7 +87,7 @@ type (
 
 		// Allow job to fail. Failed job doesn’t contribute
 		// to commit status
-		AllowFailure bool
+		AllowFailure bool `yaml:"allow_failure"`
 
 		// Define when to run job. Can be on_success, on_failure,
 		// always or manual
-- 
2.43.0


From 00062645290e83361e7cc80d83168ae1737983a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:38 +0000
Subject: [PATCH 23/23] fix: large build matrices do not overflow

---
 yaml/converter/legacy/matrix/matrix.go | 32 +++++++++++++++-----------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/yaml/converter/legacy/matrix/matrix.go b/yaml/converter/legacy/matrix/matrix.go
index 983beb7..79f374a 100644
--- a/yaml/converter/legacy/matrix/matrix.go
+++ b/yaml/converter/legacy/matrix/matrix.go
@@ -60,40 +60,44 @@ func ParseString(data string) ([]Axis, error) {
 }
 
 func calc(matrix Matrix) []Axis {
-	// calculate number of permutations and extract the list of tags
-	// (ie go_version, redis_version, etc)
-	var perm int
+	// extract the list of tags (ie go_version, redis_version, etc)
 	var tags []string
 	for k, v := range matrix {
 		// an axis without values does not take part in the matrix.
 		if len(v) == 0 {
 			continue
 		}
-		perm *= len(v)
-		if perm == 0 {
-			perm = len(v)
-		}
 		tags = append(tags, k)
 	}
 	sort.Strings(tags)
 
+	// calculate number of permutations. The exact number does not
+	// matter above the limit, where it could overflow.
+	var perm int
+	for _, tag := range tags {
+		if perm == 0 {
+			perm = len(matrix[tag])
+		} else if perm <= limitAxis+1 {
+			perm *= len(matrix[tag])
+		}
+	}
+
 	// structure to hold the transformed result set
 	axisList := []Axis{}
 
 	// for each axis calculate the uniqe set of values that should be used.
 	for p := 0; p < perm; p++ {
 		axis := map[string]string{}
-		decr := perm
-		for i, tag := range tags {
+		rest := p
+		for i := len(tags) - 1; i >= 0; i-- {
+			tag := tags[i]
 			elems := matrix[tag]
-			decr = decr / len(elems)
-			elem := p / decr % len(elems)
-			axis[tag] = elems[elem]
 
 			// enforce a maximum number of tags in the build matrix.
-			if i > limitTags {
-				break
+			if i <= limitTags+1 {
+				axis[tag] = elems[rest%len(elems)]
 			}
+			rest = rest / len(elems)
 		}
 
 		// append to the list of axis.
-- 
2.43.0

