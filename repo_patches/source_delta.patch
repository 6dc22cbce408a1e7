From f193e744f3d56d76c42df7ac9dadbde605fcecf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 01/61] fix: comparison operators report a missing argument
 instead of crashing

---
 engine/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/util.go b/engine/util.go
index d9279a8..02b4a42 100644
--- a/engine/util.go
+++ b/engine/util.go
@@ -52,7 +52,7 @@ func EvalAndCastAny[T any](value any, env *core.Env, mode core.EvalMode, e core.
 // It only compares values of the same type
 func compareValues(cdr []*core.YispNode, opName string, expectEqual bool) (*core.YispNode, error) {
 	if len(cdr) != 2 {
-		return nil, core.NewEvaluationError(cdr[0], fmt.Sprintf("%s requires 2 arguments, got %d", opName, len(cdr)))
+		return nil, core.NewEvaluationError(nil, fmt.Sprintf("%s requires 2 arguments, got %d", opName, len(cdr)))
 	}
 
 	firstNode := cdr[0]
@@ -115,7 +115,7 @@ func compareValues(cdr []*core.YispNode, opName string, expectEqual bool) (*core
 // It handles both integers and floating point numbers
 func compareNumbers(cdr []*core.YispNode, opName string, cmp func(float64, float64) bool) (*core.YispNode, error) {
 	if len(cdr) != 2 {
-		return nil, core.NewEvaluationError(cdr[0], fmt.Sprintf("%s requires 2 arguments, got %d", opName, len(cdr)))
+		return nil, core.NewEvaluationError(nil, fmt.Sprintf("%s requires 2 arguments, got %d", opName, len(cdr)))
 	}
 
 	firstNode := cdr[0]
-- 
2.43.0


From f46ae8d7f667260076fde6d4dec93ea8c43a7c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 02/61] fix: comparing array values is an error instead of a
 crash

---
 engine/util.go | 4 ++++
 lib/lists.go   | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/engine/util.go b/engine/util.go
index 02b4a42..2b6f2f4 100644
--- a/engine/util.go
+++ b/engine/util.go
@@ -3,6 +3,7 @@ package engine
 import (
 	"encoding/json"
 	"fmt"
+	"reflect"
 
 	"github.com/totegamma/yisp/core"
 	"github.com/totegamma/yisp/internal/yaml"
@@ -97,6 +98,9 @@ func compareValues(cdr []*core.YispNode, opName string, expectEqual bool) (*core
 		}
 	default:
 		// For other types, we just check if they're the same type and value
+		if t := reflect.TypeOf(firstNode.Value); t != nil && !t.Comparable() {
+			return nil, core.NewEvaluationError(firstNode, fmt.Sprintf("%s cannot compare %s values", opName, firstNode.Kind))
+		}
 		equal = firstNode.Value == secondNode.Value
 	}
 
diff --git a/lib/lists.go b/lib/lists.go
index 75ae2be..1d152bb 100644
--- a/lib/lists.go
+++ b/lib/lists.go
@@ -2,6 +2,7 @@ package lib
 
 import (
 	"fmt"
+	"reflect"
 
 	"github.com/totegamma/yisp/core"
 )
@@ -124,6 +125,10 @@ func opListContains(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e c
 		return nil, core.NewEvaluationError(listNode, fmt.Sprintf("invalid array value: %T", listNode.Value))
 	}
 
+	if t := reflect.TypeOf(elemNode.Value); t != nil && !t.Comparable() {
+		return nil, core.NewEvaluationError(elemNode, fmt.Sprintf("contains cannot compare %s values", elemNode.Kind))
+	}
+
 	for _, item := range arr {
 		itemNode, ok := item.(*core.YispNode)
 		if !ok {
-- 
2.43.0


From cd5b640be22ec1216805235bab09d0b48585c1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:14 +0000
Subject: [PATCH 03/61] fix: operators called without arguments report an error
 instead of crashing

---
 engine/apply.go | 7 +++++++
 lib/files.go    | 5 ++++-
 lib/maps.go     | 3 +++
 lib/strings.go  | 3 +++
 4 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/engine/apply.go b/engine/apply.go
index 9d76a39..c988da4 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -396,10 +396,17 @@ func opInclude(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.E
 }
 
 func opProgn(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, "progn requires at least 1 argument")
+	}
+
 	return cdr[len(cdr)-1], nil
 }
 
 func opPipeline(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, "pipeline requires at least 1 argument")
+	}
 
 	value := cdr[0]
 
diff --git a/lib/files.go b/lib/files.go
index 00fa479..13443ec 100644
--- a/lib/files.go
+++ b/lib/files.go
@@ -17,6 +17,9 @@ func init() {
 }
 
 func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, "glob requires at least 1 argument")
+	}
 
 	result := make([]any, 0)
 
@@ -91,7 +94,7 @@ func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 func opReadAll(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
 
 	if len(cdr) != 1 {
-		return nil, core.NewEvaluationError(cdr[0], "read-file expects exactly one argument")
+		return nil, core.NewEvaluationError(nil, "read-file expects exactly one argument")
 	}
 
 	str, ok := cdr[0].Value.(string)
diff --git a/lib/maps.go b/lib/maps.go
index 32ad9e5..1471e92 100644
--- a/lib/maps.go
+++ b/lib/maps.go
@@ -17,6 +17,9 @@ func init() {
 }
 
 func opFromEntries(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, "fromEntries requires an array argument")
+	}
 
 	node := cdr[0]
 	arr, ok := node.Value.([]any)
diff --git a/lib/strings.go b/lib/strings.go
index 2042682..6ff2f3e 100644
--- a/lib/strings.go
+++ b/lib/strings.go
@@ -100,6 +100,9 @@ func opQuote(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 }
 
 func opFormat(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, "format requires at least 1 argument")
+	}
 
 	formatNode := cdr[0]
 	argsNode := cdr[1:]
-- 
2.43.0


From 6b164038670d7ee80218eb615f694db3d7b46b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:14 +0000
Subject: [PATCH 04/61] fix: files.glob reads the matched files relative to the
 calling document

---
 lib/files.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/files.go b/lib/files.go
index 13443ec..9d33ec0 100644
--- a/lib/files.go
+++ b/lib/files.go
@@ -49,9 +49,9 @@ func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 			}
 
 			filename := filepath.Base(path)
-			body, err := os.ReadFile(path)
+			body, err := os.ReadFile(includedFile)
 			if err != nil {
-				return nil, core.NewEvaluationError(node, fmt.Sprintf("failed to read file: %s", path))
+				return nil, core.NewEvaluationError(node, fmt.Sprintf("failed to read file: %s", includedFile))
 			}
 
 			value := core.NewYispMap()
@@ -74,7 +74,7 @@ func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 				Attr: core.Attribute{
 					Sources: []core.FilePos{
 						{
-							File:   path,
+							File:   includedFile,
 							Line:   node.Attr.Line(),
 							Column: node.Attr.Column(),
 						},
-- 
2.43.0


From 7f532521306df030b2689dd85b581a593e65f54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 05/61] fix: calling a lambda with the wrong number of
 arguments is an error

---
 engine/apply.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/apply.go b/engine/apply.go
index c988da4..c2401ca 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -23,6 +23,10 @@ func (e *engine) Apply(car *core.YispNode, cdr []*core.YispNode, env *core.Env,
 			return nil, core.NewEvaluationError(car, fmt.Sprintf("invalid lambda type: %T", car.Value))
 		}
 
+		if len(cdr) != len(lambda.Arguments) {
+			return nil, core.NewEvaluationError(car, fmt.Sprintf("lambda requires %d arguments, got %d", len(lambda.Arguments), len(cdr)))
+		}
+
 		newEnv := lambda.Clojure.CreateChild()
 		for i, node := range cdr {
 			if lambda.Arguments[i].Schema != nil {
-- 
2.43.0


From fc70b5e1bb20e1cef170ae42cffd051448332b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:29 +0000
Subject: [PATCH 06/61] fix: every YAML spelling of true evaluates to true

---
 engine/eval.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/engine/eval.go b/engine/eval.go
index 78be504..a953eb3 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -57,9 +57,12 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 		}
 
 	case core.KindBool:
-		val := false
-		if node.Value == "true" {
-			val = true
+		val, ok := node.Value.(bool)
+		if !ok {
+			switch node.Value {
+			case "true", "True", "TRUE":
+				val = true
+			}
 		}
 		result = &core.YispNode{
 			Kind:  core.KindBool,
-- 
2.43.0


From 440895ecadca35b52ef8cfe8b9831f30d500cd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 07/61] fix: integers are read in every notation the YAML
 resolver accepts

---
 engine/eval.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/engine/eval.go b/engine/eval.go
index a953eb3..44af2e5 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -105,11 +105,12 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 				return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid int type: %T", node.Value))
 			}
 
-			var err error
-			i, err = strconv.Atoi(iStr)
+			// accept every spelling the YAML resolver accepts (0x, 0o, 0b, leading zero, underscores)
+			parsed, err := strconv.ParseInt(strings.ReplaceAll(iStr, "_", ""), 0, strconv.IntSize)
 			if err != nil {
 				return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid int value: %s", iStr))
 			}
+			i = int(parsed)
 		}
 
 		result = &core.YispNode{
-- 
2.43.0


From eef28caba36ee9ca89f54a4302fd0c30f9345048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 08/61] fix: floats are read and written without loss

---
 engine/eval.go   | 18 ++++++++++++++----
 engine/render.go | 26 +++++++++++++++++++++++++-
 2 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/engine/eval.go b/engine/eval.go
index 44af2e5..2869c4c 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -2,6 +2,7 @@ package engine
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 
@@ -81,10 +82,19 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 				return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid float type: %T", node.Value))
 			}
 
-			var err error
-			f, err = strconv.ParseFloat(fStr, 64)
-			if err != nil {
-				return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid float value: %s", fStr))
+			switch strings.ToLower(fStr) {
+			case ".inf", "+.inf":
+				f = math.Inf(1)
+			case "-.inf":
+				f = math.Inf(-1)
+			case ".nan":
+				f = math.NaN()
+			default:
+				var err error
+				f, err = strconv.ParseFloat(strings.ReplaceAll(fStr, "_", ""), 64)
+				if err != nil {
+					return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid float value: %s", fStr))
+				}
 			}
 		}
 
diff --git a/engine/render.go b/engine/render.go
index 91a17fc..0bca767 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -3,6 +3,9 @@ package engine
 import (
 	"bytes"
 	"fmt"
+	"math"
+	"strconv"
+	"strings"
 
 	"github.com/totegamma/yisp/core"
 	"github.com/totegamma/yisp/internal/yaml"
@@ -16,6 +19,27 @@ func (e *engine) getLineComment(node *core.YispNode) string {
 	return lineComment
 }
 
+// formatFloat spells a float so that reading it back gives the same float
+func formatFloat(value any) string {
+	f, ok := value.(float64)
+	if !ok {
+		return fmt.Sprintf("%v", value)
+	}
+	switch {
+	case math.IsInf(f, 1):
+		return ".inf"
+	case math.IsInf(f, -1):
+		return "-.inf"
+	case math.IsNaN(f):
+		return ".nan"
+	}
+	str := strconv.FormatFloat(f, 'g', -1, 64)
+	if !strings.ContainsAny(str, ".e") {
+		str += ".0"
+	}
+	return str
+}
+
 // Render converts a YispNode to a yaml.Node
 func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 	switch node.Kind {
@@ -55,7 +79,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 	case core.KindFloat:
 		return &yaml.Node{
 			Kind:        yaml.ScalarNode,
-			Value:       fmt.Sprintf("%f", node.Value),
+			Value:       formatFloat(node.Value),
 			Tag:         "!!float",
 			HeadComment: node.Attr.HeadComment,
 			LineComment: e.getLineComment(node),
-- 
2.43.0


From 2fed10eaba2afda38eda906fb7dfd996c0e18db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 09/61] fix: values that cannot be rendered are left out of
 lists and maps instead of crashing

---
 engine/render.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/engine/render.go b/engine/render.go
index 0bca767..b744c79 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -103,17 +103,20 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 		if !ok {
 			return nil, fmt.Errorf("invalid array value. Actual type: %T", node.Value)
 		}
-		results := make([]*yaml.Node, len(arr))
-		for i, item := range arr {
+		results := make([]*yaml.Node, 0, len(arr))
+		for _, item := range arr {
 			node, ok := item.(*core.YispNode)
 			if !ok {
 				return nil, fmt.Errorf("invalid item type: %T", item)
 			}
-			var err error
-			results[i], err = e.renderYamlNodes(node)
+			content, err := e.renderYamlNodes(node)
 			if err != nil {
 				return nil, err
 			}
+			if content == nil { // special objects are not rendered
+				continue
+			}
+			results = append(results, content)
 		}
 		return &yaml.Node{
 			Kind:        yaml.SequenceNode,
@@ -139,6 +142,9 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 			if err != nil {
 				return nil, err
 			}
+			if content == nil { // special objects are not rendered
+				continue
+			}
 
 			results = append(results, &yaml.Node{
 				Kind:        yaml.ScalarNode,
-- 
2.43.0


From 1d0a422e9c28c74ead659f32d13411c225da7294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:14 +0000
Subject: [PATCH 10/61] fix: encoding errors are reported when rendering

---
 engine/render.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/engine/render.go b/engine/render.go
index b744c79..54f135a 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -261,9 +261,15 @@ func (e *engine) Render(node *core.YispNode) (string, error) {
 				continue
 			}
 
-			enc.Encode(rendered)
+			err = enc.Encode(rendered)
+			if err != nil {
+				return "", err
+			}
+		}
+		err := enc.Close()
+		if err != nil {
+			return "", err
 		}
-		enc.Close()
 		return buf.String(), nil
 
 	} else {
@@ -271,7 +277,10 @@ func (e *engine) Render(node *core.YispNode) (string, error) {
 		if err != nil {
 			return "", err
 		}
-		b, _ := yaml.Marshal(rendered)
+		b, err := yaml.Marshal(rendered)
+		if err != nil {
+			return "", err
+		}
 		return string(b), nil
 	}
 }
-- 
2.43.0


From 2112f1d150d340dc2f3ea90c5a33de593f254f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:18 +0000
Subject: [PATCH 11/61] fix: maps read from data files keep a fixed key order

---
 core/parse.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/parse.go b/core/parse.go
index 5fa819c..b2f3779 100644
--- a/core/parse.go
+++ b/core/parse.go
@@ -4,7 +4,9 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"maps"
 	"reflect"
+	"slices"
 
 	"gopkg.in/yaml.v3"
 )
@@ -82,8 +84,8 @@ func ParseAny(filename string, v any) (*YispNode, error) {
 			return nil, fmt.Errorf("expected map[string]any, got %T", v)
 		}
 
-		for key, value := range dict {
-			itemNode, err := ParseAny(filename, value)
+		for _, key := range slices.Sorted(maps.Keys(dict)) {
+			itemNode, err := ParseAny(filename, dict[key])
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 203e1b41f6e0e671eff8651cd159353687e8721e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:24 +0000
Subject: [PATCH 12/61] fix: integers read from data files stay integers

---
 core/parse.go  | 24 ++++++++++++++++++++----
 core/schema.go |  9 ++-------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/core/parse.go b/core/parse.go
index b2f3779..b8deaae 100644
--- a/core/parse.go
+++ b/core/parse.go
@@ -7,12 +7,23 @@ import (
 	"maps"
 	"reflect"
 	"slices"
+	"strconv"
 
 	"gopkg.in/yaml.v3"
 )
 
 func ParseAny(filename string, v any) (*YispNode, error) {
 
+	if num, ok := v.(json.Number); ok {
+		if i, err := strconv.Atoi(num.String()); err == nil {
+			v = i
+		} else if f, err := num.Float64(); err == nil {
+			v = f
+		} else {
+			return nil, fmt.Errorf("invalid number: %s", num)
+		}
+	}
+
 	typ := reflect.TypeOf(v)
 	if typ == nil {
 		return &YispNode{
@@ -32,7 +43,7 @@ func ParseAny(filename string, v any) (*YispNode, error) {
 	case reflect.Bool:
 		return &YispNode{
 			Kind:  KindBool,
-			Value: v,
+			Value: reflect.ValueOf(v).Bool(),
 			Attr: Attribute{
 				Sources: []FilePos{
 					{
@@ -42,9 +53,13 @@ func ParseAny(filename string, v any) (*YispNode, error) {
 			},
 		}, nil
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		i, err := strconv.Atoi(fmt.Sprint(v))
+		if err != nil {
+			return nil, fmt.Errorf("integer out of range: %v", v)
+		}
 		return &YispNode{
 			Kind:  KindInt,
-			Value: v,
+			Value: i,
 			Attr: Attribute{
 				Sources: []FilePos{
 					{
@@ -56,7 +71,7 @@ func ParseAny(filename string, v any) (*YispNode, error) {
 	case reflect.Float32, reflect.Float64:
 		return &YispNode{
 			Kind:  KindFloat,
-			Value: v,
+			Value: reflect.ValueOf(v).Float(),
 			Attr: Attribute{
 				Sources: []FilePos{
 					{
@@ -68,7 +83,7 @@ func ParseAny(filename string, v any) (*YispNode, error) {
 	case reflect.String:
 		return &YispNode{
 			Kind:  KindString,
-			Value: v,
+			Value: reflect.ValueOf(v).String(),
 			Attr: Attribute{
 				Sources: []FilePos{
 					{
@@ -137,6 +152,7 @@ func ParseAny(filename string, v any) (*YispNode, error) {
 func ParseJson(filename string, reader io.Reader) (*YispNode, error) {
 	var data any
 	decoder := json.NewDecoder(reader)
+	decoder.UseNumber()
 	if err := decoder.Decode(&data); err != nil {
 		return nil, fmt.Errorf("failed to decode JSON: %v", err)
 	}
diff --git a/core/schema.go b/core/schema.go
index a4e0f1d..e0cf399 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -1,6 +1,7 @@
 package core
 
 import (
+	"bytes"
 	"encoding/base64"
 	"encoding/json"
 	"fmt"
@@ -148,13 +149,7 @@ func (s *Schema) ToYispNode() (*YispNode, error) {
 		return nil, err
 	}
 
-	var anyValue any
-	err = json.Unmarshal(jsonStr, &anyValue)
-	if err != nil {
-		return nil, err
-	}
-
-	return ParseAny("", anyValue)
+	return ParseJson("", bytes.NewReader(jsonStr))
 }
 
 func LoadSchemaFromURL(url string) (*Schema, error) {
-- 
2.43.0


From 78a7e0f0d0d86fbdeda6b3a30a3078ca714dcacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:32 +0000
Subject: [PATCH 13/61] fix: integer schema bounds are compared by value

---
 core/schema.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index e0cf399..e80bd61 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -291,21 +291,25 @@ func (s *Schema) Validate(node *YispNode) error {
 		if node.Kind != KindInt {
 			return NewEvaluationError(node, fmt.Sprintf("expected int, got %s", node.Kind))
 		}
-		if s.Minimum != nil && node.Value.(int) < int(*s.Minimum) {
-			return NewEvaluationError(node, fmt.Sprintf("value %d is less than minimum %f", node.Value.(int), *s.Minimum))
+		value, ok := node.Value.(int)
+		if !ok {
+			return NewEvaluationError(node, fmt.Sprintf("expected int, got %T", node.Value))
+		}
+		if s.Minimum != nil && float64(value) < *s.Minimum {
+			return NewEvaluationError(node, fmt.Sprintf("value %d is less than minimum %f", value, *s.Minimum))
 		}
-		if s.Maximum != nil && node.Value.(int) > int(*s.Maximum) {
-			return NewEvaluationError(node, fmt.Sprintf("value %d is greater than maximum %f", node.Value.(int), *s.Maximum))
+		if s.Maximum != nil && float64(value) > *s.Maximum {
+			return NewEvaluationError(node, fmt.Sprintf("value %d is greater than maximum %f", value, *s.Maximum))
 		}
-		if s.ExclusiveMinimum != nil && node.Value.(int) <= int(*s.ExclusiveMinimum) {
-			return NewEvaluationError(node, fmt.Sprintf("value %d is not greater than exclusive minimum %f", node.Value.(int), *s.ExclusiveMinimum))
+		if s.ExclusiveMinimum != nil && float64(value) <= *s.ExclusiveMinimum {
+			return NewEvaluationError(node, fmt.Sprintf("value %d is not greater than exclusive minimum %f", value, *s.ExclusiveMinimum))
 		}
-		if s.ExclusiveMaximum != nil && node.Value.(int) >= int(*s.ExclusiveMaximum) {
-			return NewEvaluationError(node, fmt.Sprintf("value %d is not less than exclusive maximum %f", node.Value.(int), *s.ExclusiveMaximum))
+		if s.ExclusiveMaximum != nil && float64(value) >= *s.ExclusiveMaximum {
+			return NewEvaluationError(node, fmt.Sprintf("value %d is not less than exclusive maximum %f", value, *s.ExclusiveMaximum))
 		}
 		if s.MultipleOf != nil {
-			if node.Value.(int)%*s.MultipleOf != 0 {
-				return NewEvaluationError(node, fmt.Sprintf("value %d is not a multiple of %d", node.Value.(int), *s.MultipleOf))
+			if value%*s.MultipleOf != 0 {
+				return NewEvaluationError(node, fmt.Sprintf("value %d is not a multiple of %d", value, *s.MultipleOf))
 			}
 		}
 	case "float":
-- 
2.43.0


From ec9918de332fe41dd1cb319e718ef9768091879d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:53 +0000
Subject: [PATCH 14/61] fix: schema checks of mistyped numbers and strings
 report errors instead of crashing

---
 core/schema.go | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index e80bd61..598cb8b 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"net/http"
 	"os"
 	"path/filepath"
@@ -308,7 +309,7 @@ func (s *Schema) Validate(node *YispNode) error {
 			return NewEvaluationError(node, fmt.Sprintf("value %d is not less than exclusive maximum %f", value, *s.ExclusiveMaximum))
 		}
 		if s.MultipleOf != nil {
-			if value%*s.MultipleOf != 0 {
+			if *s.MultipleOf != 0 && value%*s.MultipleOf != 0 {
 				return NewEvaluationError(node, fmt.Sprintf("value %d is not a multiple of %d", value, *s.MultipleOf))
 			}
 		}
@@ -316,21 +317,25 @@ func (s *Schema) Validate(node *YispNode) error {
 		if node.Kind != KindFloat {
 			return NewEvaluationError(node, fmt.Sprintf("expected float, got %s", node.Kind))
 		}
-		if s.Minimum != nil && node.Value.(float64) < *s.Minimum {
-			return NewEvaluationError(node, fmt.Sprintf("value %f is less than minimum %f", node.Value.(float64), *s.Minimum))
+		value, ok := node.Value.(float64)
+		if !ok {
+			return NewEvaluationError(node, fmt.Sprintf("expected float, got %T", node.Value))
+		}
+		if s.Minimum != nil && value < *s.Minimum {
+			return NewEvaluationError(node, fmt.Sprintf("value %f is less than minimum %f", value, *s.Minimum))
 		}
-		if s.Maximum != nil && node.Value.(float64) > *s.Maximum {
-			return NewEvaluationError(node, fmt.Sprintf("value %f is greater than maximum %f", node.Value.(float64), *s.Maximum))
+		if s.Maximum != nil && value > *s.Maximum {
+			return NewEvaluationError(node, fmt.Sprintf("value %f is greater than maximum %f", value, *s.Maximum))
 		}
-		if s.ExclusiveMinimum != nil && node.Value.(float64) <= *s.ExclusiveMinimum {
-			return NewEvaluationError(node, fmt.Sprintf("value %f is not greater than exclusive minimum %f", node.Value.(float64), *s.ExclusiveMinimum))
+		if s.ExclusiveMinimum != nil && value <= *s.ExclusiveMinimum {
+			return NewEvaluationError(node, fmt.Sprintf("value %f is not greater than exclusive minimum %f", value, *s.ExclusiveMinimum))
 		}
-		if s.ExclusiveMaximum != nil && node.Value.(float64) >= *s.ExclusiveMaximum {
-			return NewEvaluationError(node, fmt.Sprintf("value %f is not less than exclusive maximum %f", node.Value.(float64), *s.ExclusiveMaximum))
+		if s.ExclusiveMaximum != nil && value >= *s.ExclusiveMaximum {
+			return NewEvaluationError(node, fmt.Sprintf("value %f is not less than exclusive maximum %f", value, *s.ExclusiveMaximum))
 		}
 		if s.MultipleOf != nil {
-			if int(node.Value.(float64))%*s.MultipleOf != 0 {
-				return NewEvaluationError(node, fmt.Sprintf("value %f is not a multiple of %d", node.Value.(float64), *s.MultipleOf))
+			if *s.MultipleOf != 0 && math.Mod(value, float64(*s.MultipleOf)) != 0 {
+				return NewEvaluationError(node, fmt.Sprintf("value %f is not a multiple of %d", value, *s.MultipleOf))
 			}
 		}
 	case "string":
@@ -345,11 +350,16 @@ func (s *Schema) Validate(node *YispNode) error {
 				return NewEvaluationError(node, fmt.Sprintf("expected string, got %s", node.Kind))
 			}
 		}
-		if s.MinLength != nil && len(node.Value.(string)) < *s.MinLength {
-			return NewEvaluationError(node, fmt.Sprintf("string length %d is less than minimum %d", len(node.Value.(string)), *s.MinLength))
+		value, ok := node.Value.(string)
+		if !ok {
+			return NewEvaluationError(node, fmt.Sprintf("expected string, got %T", node.Value))
+		}
+		length := len(value)
+		if s.MinLength != nil && length < *s.MinLength {
+			return NewEvaluationError(node, fmt.Sprintf("string length %d is less than minimum %d", length, *s.MinLength))
 		}
-		if s.MaxLength != nil && len(node.Value.(string)) > *s.MaxLength {
-			return NewEvaluationError(node, fmt.Sprintf("string length %d is greater than maximum %d", len(node.Value.(string)), *s.MaxLength))
+		if s.MaxLength != nil && length > *s.MaxLength {
+			return NewEvaluationError(node, fmt.Sprintf("string length %d is greater than maximum %d", length, *s.MaxLength))
 		}
 	case "array":
 		if node.Kind != KindArray {
-- 
2.43.0


From 36ebf280ac2f1a8b9ac0001c6d2835b865ab616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:01 +0000
Subject: [PATCH 15/61] fix: schema string lengths are counted in characters

---
 core/schema.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/schema.go b/core/schema.go
index 598cb8b..8377f0a 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -12,6 +12,7 @@ import (
 	"path/filepath"
 	"slices"
 	"strings"
+	"unicode/utf8"
 )
 
 var schemaTypeToKind = map[string]Kind{
@@ -354,7 +355,7 @@ func (s *Schema) Validate(node *YispNode) error {
 		if !ok {
 			return NewEvaluationError(node, fmt.Sprintf("expected string, got %T", node.Value))
 		}
-		length := len(value)
+		length := utf8.RuneCountInString(value)
 		if s.MinLength != nil && length < *s.MinLength {
 			return NewEvaluationError(node, fmt.Sprintf("string length %d is less than minimum %d", length, *s.MinLength))
 		}
-- 
2.43.0


From 8e5542c4e0dd3d8c4c1dc98cd358131fb3b14b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:08 +0000
Subject: [PATCH 16/61] fix: checking an int-or-string value leaves it an int

---
 core/schema.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index 8377f0a..ddd6cc3 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -345,8 +345,7 @@ func (s *Schema) Validate(node *YispNode) error {
 				if node.Kind != KindInt {
 					return NewEvaluationError(node, fmt.Sprintf("expected string or int, got %s", node.Kind))
 				}
-				node.Kind = KindString
-				node.Value = fmt.Sprintf("%d", node.Value.(int))
+				return nil
 			} else {
 				return NewEvaluationError(node, fmt.Sprintf("expected string, got %s", node.Kind))
 			}
-- 
2.43.0


From 0bcef5e19b58180c32af305e8aec06ae5330daf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 17/61] fix: every required property is enforced

---
 core/schema.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index ddd6cc3..7c702c1 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -391,15 +391,17 @@ func (s *Schema) Validate(node *YispNode) error {
 			return NewEvaluationError(node, fmt.Sprintf("expected map, got %T", node.Value))
 		}
 
+		for _, key := range s.Required {
+			if _, ok := m.Get(key); !ok {
+				return NewEvaluationError(node, fmt.Sprintf("missing required property: %s", key))
+			}
+		}
+
 		processed := make(map[string]bool)
 		for key, subSchema := range s.GetProperties() {
 			item, ok := m.Get(key)
 			if !ok {
-				if slices.Contains(s.Required, key) {
-					return NewEvaluationError(node, fmt.Sprintf("missing required property: %s", key))
-				} else {
-					continue
-				}
+				continue
 			}
 			itemNode, ok := item.(*YispNode)
 			if !ok {
-- 
2.43.0


From 8bba54e7a15633665452658e6c2181978c4f1446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:20 +0000
Subject: [PATCH 18/61] fix: null sub-schemas no longer crash validation

---
 core/schema.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/core/schema.go b/core/schema.go
index 7c702c1..899b066 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -66,7 +66,7 @@ func (s *Schema) GetProperties() map[string]*Schema {
 
 	newProperties := make(map[string]*Schema, len(s.Properties))
 	for key, value := range s.Properties {
-		if value.Ref != "" {
+		if value != nil && value.Ref != "" {
 			refSchema, err := LoadSchemaFromID(value.Ref)
 			if err != nil {
 				fmt.Printf("Error loading schema from ref %s: %v\n", value.Ref, err)
@@ -266,6 +266,10 @@ func LoadSchemaFromGVK(group, version, kind string) (*Schema, error) {
 
 func (s *Schema) Validate(node *YispNode) error {
 
+	if s == nil { // no schema, no constraint
+		return nil
+	}
+
 	if s.OneOf != nil {
 		var errors []string
 		for _, subSchema := range s.OneOf {
@@ -485,6 +489,11 @@ func (s *Schema) Validate(node *YispNode) error {
 }
 
 func (s *Schema) InterpolateDefaults(node *YispNode) error {
+
+	if s == nil {
+		return nil
+	}
+
 	switch s.Type {
 	case "array":
 		if node.Kind != KindArray {
@@ -524,6 +533,9 @@ func (s *Schema) InterpolateDefaults(node *YispNode) error {
 				if slices.Contains(s.Required, key) {
 					return NewEvaluationError(node, fmt.Sprintf("missing required property: %s", key))
 				}
+				if subSchema == nil {
+					continue
+				}
 				if subSchema.Default != nil {
 					defaultNode := &YispNode{
 						Kind:  schemaTypeToKind[subSchema.Type],
@@ -579,6 +591,10 @@ func (s *Schema) Cast(node *YispNode) (*YispNode, error) {
 
 func (s *Schema) Equals(other *Schema) bool {
 
+	if s == nil || other == nil {
+		return s == other
+	}
+
 	if s.Type != other.Type {
 		return false
 	}
-- 
2.43.0


From 6b0ec31f60385b28794732413e03e40dcc25d84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:28 +0000
Subject: [PATCH 19/61] fix: schema references that cannot be loaded fail
 validation

---
 core/schema.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index 899b066..865e0e9 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -69,7 +69,8 @@ func (s *Schema) GetProperties() map[string]*Schema {
 		if value != nil && value.Ref != "" {
 			refSchema, err := LoadSchemaFromID(value.Ref)
 			if err != nil {
-				fmt.Printf("Error loading schema from ref %s: %v\n", value.Ref, err)
+				fmt.Fprintf(os.Stderr, "Error loading schema from ref %s: %v\n", value.Ref, err)
+				newProperties[key] = value // stays unresolved, so that validating against it fails
 				continue
 			}
 			newProperties[key] = refSchema
@@ -85,8 +86,8 @@ func (s *Schema) GetItems() *Schema {
 	if s.Items != nil && s.Items.Ref != "" {
 		refSchema, err := LoadSchemaFromID(s.Items.Ref)
 		if err != nil {
-			fmt.Printf("Error loading schema from ref %s: %v\n", s.Items.Ref, err)
-			return nil
+			fmt.Fprintf(os.Stderr, "Error loading schema from ref %s: %v\n", s.Items.Ref, err)
+			return s.Items // stays unresolved, so that validating against it fails
 		}
 		return refSchema
 	}
@@ -116,7 +117,7 @@ func (s *Schema) GetAdditionalProperties() any {
 		if additionalSchema.Ref != "" {
 			refSchema, err := LoadSchemaFromID(additionalSchema.Ref)
 			if err != nil {
-				fmt.Printf("Error loading schema from ref %s: %v\n", additionalSchema.Ref, err)
+				return fmt.Sprintf("failed to load schema from ref %s: %v", additionalSchema.Ref, err)
 			}
 			return refSchema
 		}
-- 
2.43.0


From 1cfc1b52552901e0ad2f98227f50f991c0e16bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:37 +0000
Subject: [PATCH 20/61] fix: object properties are checked and completed in a
 fixed order

---
 core/schema.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index 865e0e9..ccf8970 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"maps"
 	"math"
 	"net/http"
 	"os"
@@ -403,7 +404,9 @@ func (s *Schema) Validate(node *YispNode) error {
 		}
 
 		processed := make(map[string]bool)
-		for key, subSchema := range s.GetProperties() {
+		properties := s.GetProperties()
+		for _, key := range slices.Sorted(maps.Keys(properties)) {
+			subSchema := properties[key]
 			item, ok := m.Get(key)
 			if !ok {
 				continue
@@ -528,7 +531,8 @@ func (s *Schema) InterpolateDefaults(node *YispNode) error {
 		if !ok {
 			return NewEvaluationError(node, fmt.Sprintf("expected map, got %T", node.Value))
 		}
-		for key, subSchema := range s.Properties {
+		for _, key := range slices.Sorted(maps.Keys(s.Properties)) {
+			subSchema := s.Properties[key]
 			item, ok := m.Get(key)
 			if !ok {
 				if slices.Contains(s.Required, key) {
-- 
2.43.0


From cbd2b83bf6deef715820607dfc0271c3955f7307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:46 +0000
Subject: [PATCH 21/61] fix: optional properties without defaults may be left
 out

---
 core/schema.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/schema.go b/core/schema.go
index ccf8970..a2b64b8 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -552,12 +552,15 @@ func (s *Schema) InterpolateDefaults(node *YispNode) error {
 					m.Set(key, defaultNode)
 					continue
 				}
+				if subSchema.Type != "object" {
+					continue // only an object can be made up from nested defaults
+				}
 				dummyNode := &YispNode{
 					Kind: schemaTypeToKind[subSchema.Type],
 				}
 				err := subSchema.InterpolateDefaults(dummyNode)
 				if err != nil {
-					return NewEvaluationError(node, fmt.Sprintf("failed to interpolate dummy Node %v", err))
+					continue // the optional object cannot be completed, so it stays absent
 				}
 				if !IsZero(dummyNode.Value) {
 					m.Set(key, dummyNode)
-- 
2.43.0


From 6a0f5621d2f7abdff67826f9bb7b1f37b4a04c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:18 +0000
Subject: [PATCH 22/61] fix: schema defaults become values of their own type

---
 core/schema.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index a2b64b8..59edf20 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -542,13 +542,21 @@ func (s *Schema) InterpolateDefaults(node *YispNode) error {
 					continue
 				}
 				if subSchema.Default != nil {
-					defaultNode := &YispNode{
-						Kind:  schemaTypeToKind[subSchema.Type],
-						Value: subSchema.Default,
-						Tag:   node.Tag,
-						Attr:  node.Attr,
-						Type:  subSchema,
+					defaultJson, err := json.Marshal(subSchema.Default)
+					if err != nil {
+						return NewEvaluationError(node, fmt.Sprintf("invalid default for property %s: %v", key, err))
 					}
+					defaultNode, err := ParseJson(node.Attr.File(), bytes.NewReader(defaultJson))
+					if err != nil {
+						return NewEvaluationError(node, fmt.Sprintf("invalid default for property %s: %v", key, err))
+					}
+					if num, ok := defaultNode.Value.(int); ok && subSchema.Type == "float" {
+						defaultNode.Kind = KindFloat
+						defaultNode.Value = float64(num)
+					}
+					defaultNode.Tag = node.Tag
+					defaultNode.Attr = node.Attr
+					defaultNode.Type = subSchema
 					m.Set(key, defaultNode)
 					continue
 				}
-- 
2.43.0


From 5738f4e438e1cb7342d33aaa111872d321884281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:08 +0000
Subject: [PATCH 23/61] fix: merging lists by key leaves the merged lists
 unchanged

---
 core/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/util.go b/core/util.go
index 5ab2c5e..e8e2cbc 100644
--- a/core/util.go
+++ b/core/util.go
@@ -148,7 +148,7 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 				result = append(result, dstArray...)
 				result = append(result, srcArray...)
 			} else {
-				result = dstArray
+				result = slices.Clone(dstArray)
 				for _, srcItem := range srcArray {
 					srcNode, ok := srcItem.(*YispNode)
 					if !ok {
-- 
2.43.0


From e538081a6444f8162bb484fa7c646294255cb34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:16 +0000
Subject: [PATCH 24/61] fix: k8s.patch returns a patched copy of its targets

---
 lib/k8s.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/k8s.go b/lib/k8s.go
index 313fefb..abbfe0c 100644
--- a/lib/k8s.go
+++ b/lib/k8s.go
@@ -2,6 +2,7 @@ package lib
 
 import (
 	"fmt"
+	"slices"
 
 	"github.com/totegamma/yisp/core"
 )
@@ -27,6 +28,8 @@ func opPatch(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 		return nil, core.NewEvaluationError(targets, fmt.Sprintf("invalid target type: %T", targets.Value))
 	}
 
+	targetArray = slices.Clone(targetArray)
+
 	patchArray, ok := patches.Value.([]any)
 	if !ok {
 		return nil, core.NewEvaluationError(patches, fmt.Sprintf("invalid patch type: %T", patches.Value))
@@ -64,7 +67,10 @@ func opPatch(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 		}
 	}
 
-	return targets, nil
+	result := *targets
+	result.Value = targetArray
+
+	return &result, nil
 }
 
 func getManifestID(node *core.YispNode) (string, error) {
-- 
2.43.0


From d9b5e3563e5d096e3ad05780916c2b21552cfa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:24 +0000
Subject: [PATCH 25/61] fix: documents that have been read are closed

---
 core/util.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/util.go b/core/util.go
index e8e2cbc..6ad8f57 100644
--- a/core/util.go
+++ b/core/util.go
@@ -333,10 +333,12 @@ func CallEngineByPath(path, base string, env *Env, e Engine) (*YispNode, error)
 		}
 
 		if targetURL.Scheme == "http" || targetURL.Scheme == "https" {
-			reader, err = fetchRemote(targetURL.String())
+			body, err := fetchRemote(targetURL.String())
 			if err != nil {
 				return nil, fmt.Errorf("failed to fetch remote file: %v", err)
 			}
+			defer body.Close()
+			reader = body
 		} else {
 
 			stat, err := os.Stat(targetURL.Path)
@@ -347,10 +349,12 @@ func CallEngineByPath(path, base string, env *Env, e Engine) (*YispNode, error)
 			if stat.IsDir() {
 				targetURL = &url.URL{Path: filepath.Join(targetURL.Path, "index.yisp")}
 			}
-			reader, err = os.Open(targetURL.Path)
+			file, err := os.Open(targetURL.Path)
 			if err != nil {
 				return nil, fmt.Errorf("failed to open file: %v", err)
 			}
+			defer file.Close()
+			reader = file
 		}
 		extension = filepath.Ext(targetURL.Path)
 		source = targetURL.String()
-- 
2.43.0


From 1a84b3cdd7f16bb3b011b957246fa5993444657a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:32 +0000
Subject: [PATCH 26/61] fix: symbols with an empty path segment are undefined
 instead of a crash

---
 core/env.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/env.go b/core/env.go
index f99aa75..49173c6 100644
--- a/core/env.go
+++ b/core/env.go
@@ -91,7 +91,7 @@ func (e *Env) Get(key string) (*YispNode, bool) {
 
 	fst := split[0]
 	optional := false
-	if fst[len(fst)-1] == '?' {
+	if strings.HasSuffix(fst, "?") {
 		fst = fst[:len(fst)-1]
 		optional = true
 	}
@@ -111,7 +111,7 @@ func (e *Env) Get(key string) (*YispNode, bool) {
 	}
 
 	for _, key := range split[1:] {
-		if key[len(key)-1] == '?' {
+		if strings.HasSuffix(key, "?") {
 			key = key[:len(key)-1]
 			optional = true
 		} else {
-- 
2.43.0


From 76d96dd71c8540f84b89cb9f888e1abf36a50d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:39 +0000
Subject: [PATCH 27/61] fix: lambda parameters that are not a list are an error

---
 engine/eval.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/engine/eval.go b/engine/eval.go
index 2869c4c..5ae03d0 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -198,7 +198,11 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 				bodyNode := nodes[2]
 
 				params := make([]core.TypedSymbol, 0)
-				for _, item := range paramsNode.Value.([]any) {
+				paramItems, ok := paramsNode.Value.([]any)
+				if !ok {
+					return nil, core.NewEvaluationError(paramsNode, fmt.Sprintf("invalid params type: %T", paramsNode.Value))
+				}
+				for _, item := range paramItems {
 					paramNode, ok := item.(*core.YispNode)
 					if !ok {
 						return nil, core.NewEvaluationError(nil, fmt.Sprintf("invalid param type: %T", item))
-- 
2.43.0


From d0a31341634dc84d525622b2ec728a8dab9b90d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:10 +0000
Subject: [PATCH 28/61] fix: an optional symbol finds its value when it is
 defined

---
 core/env.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/env.go b/core/env.go
index 49173c6..3408569 100644
--- a/core/env.go
+++ b/core/env.go
@@ -96,7 +96,7 @@ func (e *Env) Get(key string) (*YispNode, bool) {
 		optional = true
 	}
 
-	value, ok := e.Vars[split[0]]
+	value, ok := e.Vars[fst]
 	if !ok {
 		if e.Parent != nil {
 			return e.Parent.Get(key)
-- 
2.43.0


From 2aada5c00f6f351f81a8bf8c3554d4a5c20ac2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 29/61] fix: paths in a document from stdin resolve in the
 working directory

---
 core/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/util.go b/core/util.go
index 6ad8f57..a3eec30 100644
--- a/core/util.go
+++ b/core/util.go
@@ -312,12 +312,12 @@ func CallEngineByPath(path, base string, env *Env, e Engine) (*YispNode, error)
 	source := ""
 
 	if path == "-" {
-		var err error
 		reader = os.Stdin
-		source, err = os.Getwd()
+		wd, err := os.Getwd()
 		if err != nil {
 			return nil, fmt.Errorf("failed to get current working directory: %v", err)
 		}
+		source = filepath.Join(wd, "stdin.yisp")
 	} else {
 		targetURL, err := url.Parse(path)
 		if err != nil {
-- 
2.43.0


From 051bd6d6bf9a9f26c564f2828663e78580dca62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 30/61] fix: paths with spaces resolve for every operator

---
 core/util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/util.go b/core/util.go
index a3eec30..1c2978b 100644
--- a/core/util.go
+++ b/core/util.go
@@ -358,6 +358,9 @@ func CallEngineByPath(path, base string, env *Env, e Engine) (*YispNode, error)
 		}
 		extension = filepath.Ext(targetURL.Path)
 		source = targetURL.String()
+		if targetURL.Scheme == "" {
+			source = targetURL.Path // a plain path, not an escaped one
+		}
 	}
 
 	switch extension {
-- 
2.43.0


From 16644715d762e95d1179633571d46cb47ef8ab7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:28 +0000
Subject: [PATCH 31/61] fix: a failed build exits with an error status

---
 cmd/build.go | 33 +++++++++++++++++----------------
 cmd/krm.go   |  4 ++--
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/cmd/build.go b/cmd/build.go
index ba80db5..122b3b1 100644
--- a/cmd/build.go
+++ b/cmd/build.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"github.com/spf13/cobra"
 	"github.com/spf13/viper"
+	"os"
 	"path/filepath"
 	"strings"
 
@@ -56,8 +57,8 @@ var buildCmd = &cobra.Command{
 		if yamlFile != "-" && !strings.HasPrefix(yamlFile, "http://") && !strings.HasPrefix(yamlFile, "https://") {
 			yamlFile, err = filepath.Abs(yamlFile)
 			if err != nil {
-				fmt.Println("Error:", err)
-				return
+				fmt.Fprintln(os.Stderr, "Error:", err)
+				os.Exit(1)
 			}
 		}
 
@@ -65,44 +66,44 @@ var buildCmd = &cobra.Command{
 		case "yaml":
 			result, err := e.EvaluateFileToYaml(yamlFile)
 			if err != nil {
-				fmt.Println("Error:", err)
-				return
+				fmt.Fprintln(os.Stderr, "Error:", err)
+				os.Exit(1)
 			}
 
 			fmt.Println(result)
 		case "json":
 			resultAny, err := e.EvaluateFileToAny(yamlFile)
 			if err != nil {
-				fmt.Println("Error:", err)
-				return
+				fmt.Fprintln(os.Stderr, "Error:", err)
+				os.Exit(1)
 			}
 
 			resultArr, ok := resultAny.([]any)
 			if !ok {
-				fmt.Println("Error: Result is not an array")
-				return
+				fmt.Fprintln(os.Stderr, "Error: Result is not an array")
+				os.Exit(1)
 			}
 
 			if len(resultArr) == 0 {
-				fmt.Println("Error: Result is empty")
-				return
+				fmt.Fprintln(os.Stderr, "Error: Result is empty")
+				os.Exit(1)
 			}
 
 			if len(resultArr) > 1 {
-				fmt.Printf("Error: Json output only supports a single document, but got %v objects\n", len(resultArr))
-				return
+				fmt.Fprintf(os.Stderr, "Error: Json output only supports a single document, but got %v objects\n", len(resultArr))
+				os.Exit(1)
 			}
 
 			jsonResult, err := json.MarshalIndent(resultArr[0], "", "  ")
 			if err != nil {
-				fmt.Println("Error:", err)
-				return
+				fmt.Fprintln(os.Stderr, "Error:", err)
+				os.Exit(1)
 			}
 
 			fmt.Println(string(jsonResult))
 		default:
-			fmt.Println("Error: Unsupported output format. Use 'yaml' or 'json'.")
-			return
+			fmt.Fprintln(os.Stderr, "Error: Unsupported output format. Use 'yaml' or 'json'.")
+			os.Exit(1)
 		}
 	},
 }
diff --git a/cmd/krm.go b/cmd/krm.go
index 1a19199..3fd0855 100644
--- a/cmd/krm.go
+++ b/cmd/krm.go
@@ -94,8 +94,8 @@ var krmCmd = &cobra.Command{
 			if target != "-" && !strings.HasPrefix(target, "http://") && !strings.HasPrefix(target, "https://") {
 				target, err = filepath.Abs(target)
 				if err != nil {
-					fmt.Println("Error:", err)
-					return
+					fmt.Fprintln(os.Stderr, "Error:", err)
+					os.Exit(1)
 				}
 			}
 
-- 
2.43.0


From ed182d7bd0cc2513b1051571870889bb79942e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:34 +0000
Subject: [PATCH 32/61] fix: krm input items that are not maps no longer crash

---
 cmd/krm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/krm.go b/cmd/krm.go
index 3fd0855..3ee8444 100644
--- a/cmd/krm.go
+++ b/cmd/krm.go
@@ -69,7 +69,8 @@ var krmCmd = &cobra.Command{
 
 		var items []any
 		for _, item := range krmInput.Items {
-			apiVersion, ok := item.(map[string]any)["apiVersion"]
+			manifest, _ := item.(map[string]any)
+			apiVersion, ok := manifest["apiVersion"]
 			if ok && apiVersion == "krm.yisp.gammalab.net/v1" {
 				continue
 			}
-- 
2.43.0


From 4c39e09630875b0c77ef0b6a9ea05e0fce20c36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 33/61] fix: formatting lists and maps prints their contents

---
 lib/strings.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/strings.go b/lib/strings.go
index 6ff2f3e..9d79924 100644
--- a/lib/strings.go
+++ b/lib/strings.go
@@ -84,7 +84,11 @@ func opQuote(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 			value = "false"
 		}
 	default:
-		value = fmt.Sprintf("%v", cdr[0].Value)
+		native, err := cdr[0].ToNative()
+		if err != nil {
+			return nil, core.NewEvaluationErrorWithParent(cdr[0], "failed to quote value", err)
+		}
+		value = fmt.Sprintf("%v", native)
 	}
 
 	node := cdr[0]
@@ -114,7 +118,11 @@ func opFormat(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.En
 
 	args := make([]any, len(argsNode))
 	for i, arg := range argsNode {
-		args[i] = arg.Value
+		native, err := arg.ToNative()
+		if err != nil {
+			return nil, core.NewEvaluationErrorWithParent(arg, "failed to format value", err)
+		}
+		args[i] = native
 	}
 
 	return &core.YispNode{
-- 
2.43.0


From 659b4dfcf839b68a897e59a92b90c7537ceb9ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 34/61] fix: the test patch operation compares values

---
 lib/patch.go | 41 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/lib/patch.go b/lib/patch.go
index 9f799c1..f6a55a6 100644
--- a/lib/patch.go
+++ b/lib/patch.go
@@ -2,6 +2,7 @@ package lib
 
 import (
 	"fmt"
+	"slices"
 	"strconv"
 	"strings"
 
@@ -871,6 +872,40 @@ func opOpPatch(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.E
 	return target, nil
 }
 
+// sameValue reports whether two nodes hold equal data
+func sameValue(a, b *core.YispNode) bool {
+	if a.Kind != b.Kind {
+		return false
+	}
+	switch a.Kind {
+	case core.KindArray:
+		aArr, aOK := a.Value.([]any)
+		bArr, bOK := b.Value.([]any)
+		return aOK && bOK && slices.EqualFunc(aArr, bArr, sameItem)
+	case core.KindMap:
+		aMap, aOK := a.Value.(*core.YispMap)
+		bMap, bOK := b.Value.(*core.YispMap)
+		if !aOK || !bOK || aMap.Len() != bMap.Len() {
+			return false
+		}
+		for key, aItem := range aMap.AllFromFront() {
+			bItem, ok := bMap.Get(key)
+			if !ok || !sameItem(aItem, bItem) {
+				return false
+			}
+		}
+		return true
+	default:
+		return a.Value == b.Value
+	}
+}
+
+func sameItem(a, b any) bool {
+	aNode, aOK := a.(*core.YispNode)
+	bNode, bOK := b.(*core.YispNode)
+	return aOK && bOK && sameValue(aNode, bNode)
+}
+
 // applyPatches applies an array of patch operations to a target node
 func applyPatches(target *core.YispNode, patchesArray []any) error {
 	// Apply each patch operation
@@ -1029,11 +1064,9 @@ func applyPatches(target *core.YispNode, patchesArray []any) error {
 			if err != nil {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("test operation failed: %v", err))
 			}
-			// Compare values (simple comparison for now)
-			if value.Kind != expectedNode.Kind {
-				return core.NewEvaluationError(patchNode, fmt.Sprintf("test operation failed: kind mismatch"))
+			if !sameValue(value, expectedNode) {
+				return core.NewEvaluationError(patchNode, "test operation failed: value mismatch")
 			}
-			// TODO: Deep comparison if needed
 
 		default:
 			return core.NewEvaluationError(patchNode, fmt.Sprintf("unknown operation: %s", op))
-- 
2.43.0


From c55f651cfed24f61d13a387a76ac957bb5fece99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:55 +0000
Subject: [PATCH 35/61] fix: patched in values are independent copies

---
 lib/patch.go | 57 ++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/lib/patch.go b/lib/patch.go
index f6a55a6..6533642 100644
--- a/lib/patch.go
+++ b/lib/patch.go
@@ -256,11 +256,11 @@ func addValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex in
 					}
 					// Merge value map into target map
 					for vKey, vVal := range valueMap.AllFromFront() {
-						targetMap.Set(vKey, vVal)
+						targetMap.Set(vKey, cloneItem(vVal))
 					}
 				} else {
 					// Replace the entire value
-					m.Set(key, value)
+					m.Set(key, cloneNode(value))
 				}
 			}
 		} else {
@@ -292,11 +292,11 @@ func addValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex in
 					}
 					// Merge value map into target map
 					for vKey, vVal := range valueMap.AllFromFront() {
-						targetMap.Set(vKey, vVal)
+						targetMap.Set(vKey, cloneItem(vVal))
 					}
 				} else {
 					// Recursively apply add to this node with remaining path
-					err := addValue(targetNode, remainingPath, value)
+					err := addValue(targetNode, remainingPath, cloneNode(value))
 					if err != nil {
 						return fmt.Errorf("failed to add to key %s: %v", key, err)
 					}
@@ -330,11 +330,11 @@ func addValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex in
 					}
 					// Merge value map into target map
 					for vKey, vVal := range valueMap.AllFromFront() {
-						targetMap.Set(vKey, vVal)
+						targetMap.Set(vKey, cloneItem(vVal))
 					}
 				} else {
 					// Replace the entire value
-					arr[i] = value
+					arr[i] = cloneNode(value)
 				}
 			}
 		} else {
@@ -366,11 +366,11 @@ func addValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex in
 					}
 					// Merge value map into target map
 					for vKey, vVal := range valueMap.AllFromFront() {
-						targetMap.Set(vKey, vVal)
+						targetMap.Set(vKey, cloneItem(vVal))
 					}
 				} else {
 					// Recursively apply add to this node with remaining path
-					err := addValue(targetNode, remainingPath, value)
+					err := addValue(targetNode, remainingPath, cloneNode(value))
 					if err != nil {
 						return fmt.Errorf("failed to add to array index %d: %v", i, err)
 					}
@@ -530,7 +530,7 @@ func replaceValueWithWildcard(node *core.YispNode, tokens []string, wildcardInde
 		if wildcardIndex == len(tokens)-1 {
 			// Iterate over all keys and replace the value
 			for key := range m.AllFromFront() {
-				m.Set(key, value)
+				m.Set(key, cloneNode(value))
 			}
 		} else {
 			// Wildcard is in the middle, need to apply remaining path to all matching keys
@@ -548,7 +548,7 @@ func replaceValueWithWildcard(node *core.YispNode, tokens []string, wildcardInde
 				}
 
 				// Recursively apply replace to this node with remaining path
-				err := replaceValue(targetNode, remainingPath, value)
+				err := replaceValue(targetNode, remainingPath, cloneNode(value))
 				if err != nil {
 					return fmt.Errorf("failed to replace in key %s: %v", key, err)
 				}
@@ -564,7 +564,7 @@ func replaceValueWithWildcard(node *core.YispNode, tokens []string, wildcardInde
 		if wildcardIndex == len(tokens)-1 {
 			// Iterate over all array elements and replace the value
 			for i := range arr {
-				arr[i] = value
+				arr[i] = cloneNode(value)
 			}
 		} else {
 			// Wildcard is in the middle, need to apply remaining path to all array elements
@@ -582,7 +582,7 @@ func replaceValueWithWildcard(node *core.YispNode, tokens []string, wildcardInde
 				}
 
 				// Recursively apply replace to this node with remaining path
-				err := replaceValue(targetNode, remainingPath, value)
+				err := replaceValue(targetNode, remainingPath, cloneNode(value))
 				if err != nil {
 					return fmt.Errorf("failed to replace in array index %d: %v", i, err)
 				}
@@ -906,6 +906,33 @@ func sameItem(a, b any) bool {
 	return aOK && bOK && sameValue(aNode, bNode)
 }
 
+// cloneNode copies a node with all its contents, so that patching one place leaves the others alone
+func cloneNode(node *core.YispNode) *core.YispNode {
+	clone := *node
+	switch value := node.Value.(type) {
+	case []any:
+		arr := make([]any, len(value))
+		for i, item := range value {
+			arr[i] = cloneItem(item)
+		}
+		clone.Value = arr
+	case *core.YispMap:
+		m := core.NewYispMap()
+		for key, item := range value.AllFromFront() {
+			m.Set(key, cloneItem(item))
+		}
+		clone.Value = m
+	}
+	return &clone
+}
+
+func cloneItem(item any) any {
+	if node, ok := item.(*core.YispNode); ok {
+		return cloneNode(node)
+	}
+	return item
+}
+
 // applyPatches applies an array of patch operations to a target node
 func applyPatches(target *core.YispNode, patchesArray []any) error {
 	// Apply each patch operation
@@ -964,7 +991,7 @@ func applyPatches(target *core.YispNode, patchesArray []any) error {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("expected YispNode for value, got %T", valueAny))
 			}
 
-			err := addValue(target, path, valueNode)
+			err := addValue(target, path, cloneNode(valueNode))
 			if err != nil {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("add operation failed: %v", err))
 			}
@@ -986,7 +1013,7 @@ func applyPatches(target *core.YispNode, patchesArray []any) error {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("expected YispNode for value, got %T", valueAny))
 			}
 
-			err := replaceValue(target, path, valueNode)
+			err := replaceValue(target, path, cloneNode(valueNode))
 			if err != nil {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("replace operation failed: %v", err))
 			}
@@ -1043,7 +1070,7 @@ func applyPatches(target *core.YispNode, patchesArray []any) error {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("copy operation (get) failed: %v", err))
 			}
 			// Add to 'path'
-			err = addValue(target, path, value)
+			err = addValue(target, path, cloneNode(value))
 			if err != nil {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("copy operation (add) failed: %v", err))
 			}
-- 
2.43.0


From 07e2c65ebe81038dfb54522b0f6ca2ad4075d389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 36/61] fix: an interrupted download leaves no partial schema
 in the cache

---
 core/schema.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/core/schema.go b/core/schema.go
index 59edf20..7e196f3 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -201,10 +201,12 @@ func LoadSchemaFromURL(url string) (*Schema, error) {
 			return nil, err
 		}
 
-		file, err := os.Create(schemasPath)
+		// write a temporary file first, so that the cache never holds a partial schema
+		file, err := os.CreateTemp(filepath.Dir(schemasPath), "schema-*.tmp")
 		if err != nil {
 			return nil, err
 		}
+		defer os.Remove(file.Name())
 		defer file.Close()
 
 		encoder := json.NewEncoder(file)
@@ -213,6 +215,16 @@ func LoadSchemaFromURL(url string) (*Schema, error) {
 			return nil, err
 		}
 
+		err = file.Close()
+		if err != nil {
+			return nil, err
+		}
+
+		err = os.Rename(file.Name(), schemasPath)
+		if err != nil {
+			return nil, err
+		}
+
 		return &schema, nil
 	}
 }
-- 
2.43.0


From 5548b6430c4e090f6e2f43d6060ea8c3b77acea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 37/61] fix: failing to save a schema fails cache-kube-schemas
 and leaves no partial file

---
 cmd/cachekubeschemas.go | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/cmd/cachekubeschemas.go b/cmd/cachekubeschemas.go
index df903a7..defe022 100644
--- a/cmd/cachekubeschemas.go
+++ b/cmd/cachekubeschemas.go
@@ -103,19 +103,14 @@ func saveSchemas(openapi open) error {
 
 		schemaPath := filepath.Join(schemasPath, fmt.Sprintf("%s.json", key))
 
-		file, err := os.Create(schemaPath)
+		schema, err := json.MarshalIndent(def, "", "  ")
 		if err != nil {
-			fmt.Println("Error creating file:", err)
-			continue
+			return fmt.Errorf("failed to encode schema %s: %v", key, err)
 		}
-		defer file.Close()
 
-		encoder := json.NewEncoder(file)
-		encoder.SetIndent("", "  ")
-		err = encoder.Encode(def)
+		err = saveFile(schemaPath, schema)
 		if err != nil {
-			fmt.Println("Error encoding JSON to file:", err)
-			continue
+			return err
 		}
 		fmt.Printf("Created file: %s\n", schemaPath)
 
@@ -156,17 +151,10 @@ func saveSchemas(openapi open) error {
 
 			gvkPath := filepath.Join(gvkPath, fmt.Sprintf("%s_%s_%s.txt", group, version, kind))
 
-			file, err = os.Create(gvkPath)
-			if err != nil {
-				fmt.Println("Error creating file:", err)
-				continue
-			}
-
 			//write key
-			_, err = file.WriteString(key)
+			err = saveFile(gvkPath, []byte(key))
 			if err != nil {
-				fmt.Println("Error writing to file:", err)
-				continue
+				return err
 			}
 			fmt.Printf("Created GVK file: %s\n", gvkPath)
 
@@ -176,6 +164,16 @@ func saveSchemas(openapi open) error {
 	return nil
 }
 
+// saveFile writes a whole file or leaves the previous one
+func saveFile(path string, data []byte) error {
+	tmp := path + ".tmp"
+	err := os.WriteFile(tmp, data, 0644)
+	if err != nil {
+		return err
+	}
+	return os.Rename(tmp, path)
+}
+
 func init() {
 	rootCmd.AddCommand(cacheKubeSchemas)
 }
-- 
2.43.0


From 43d76205c8b359fe8fd9ad47bfb8beb6a73c39a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:58 +0000
Subject: [PATCH 38/61] fix: unmarshalling an alias without an anchor is an
 error instead of a crash

---
 internal/yaml/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/yaml/decode.go b/internal/yaml/decode.go
index ae16220..4512b75 100644
--- a/internal/yaml/decode.go
+++ b/internal/yaml/decode.go
@@ -537,6 +537,9 @@ func (d *decoder) alias(n *Node, out reflect.Value) (good bool) {
 		// TODO this could actually be allowed in some circumstances.
 		failf("anchor '%s' value contains itself", n.Value)
 	}
+	if n.Alias == nil {
+		failf("unknown anchor '%s' referenced", n.Value)
+	}
 	d.aliases[n] = true
 	d.aliasDepth++
 	good = d.unmarshal(n.Alias, out)
-- 
2.43.0


From 4be23c923fbfa0d351e1a3dc1d68efcbad21fcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:07 +0000
Subject: [PATCH 39/61] fix: includes of a document opened by a relative path
 resolve next to it

---
 core/util.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/util.go b/core/util.go
index 1c2978b..4176a8b 100644
--- a/core/util.go
+++ b/core/util.go
@@ -329,6 +329,13 @@ func CallEngineByPath(path, base string, env *Env, e Engine) (*YispNode, error)
 			if err != nil {
 				return nil, fmt.Errorf("failed to parse base URL: %v", err)
 			}
+			if baseURL.Scheme == "" {
+				// a relative base would otherwise resolve against the filesystem root
+				baseURL.Path, err = filepath.Abs(baseURL.Path)
+				if err != nil {
+					return nil, fmt.Errorf("failed to resolve base path: %v", err)
+				}
+			}
 			targetURL = baseURL.ResolveReference(targetURL)
 		}
 
-- 
2.43.0


From dbba0c80ab50e371c7ce21a94fb4bc20c9e05dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:00 +0000
Subject: [PATCH 40/61] fix: integers beyond 2^53 are compared exactly

---
 engine/util.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/engine/util.go b/engine/util.go
index 2b6f2f4..d4520f5 100644
--- a/engine/util.go
+++ b/engine/util.go
@@ -144,6 +144,18 @@ func compareNumbers(cdr []*core.YispNode, opName string, cmp func(float64, float
 		return nil, core.NewEvaluationError(secondNode, fmt.Sprintf("invalid second argument type for %s: %T (value: %v)", opName, secondNode.Value, secondNode.Value))
 	}
 
+	// not every int is a float64, so two ints are compared as they are
+	firstInt, firstOk := firstNode.Value.(int)
+	secondInt, secondOk := secondNode.Value.(int)
+	if firstOk && secondOk {
+		firstNum, secondNum = 0, 0
+		if firstInt < secondInt {
+			firstNum = -1
+		} else if firstInt > secondInt {
+			firstNum = 1
+		}
+	}
+
 	return &core.YispNode{
 		Kind:  core.KindBool,
 		Value: cmp(firstNum, secondNum),
-- 
2.43.0


From b1592cec9b9908c03335f8cc8299964e23d058ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:29 +0000
Subject: [PATCH 41/61] fix: resources are told apart by their fields, not by a
 joined string

---
 lib/k8s.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/k8s.go b/lib/k8s.go
index abbfe0c..e0b793a 100644
--- a/lib/k8s.go
+++ b/lib/k8s.go
@@ -139,5 +139,5 @@ func getManifestID(node *core.YispNode) (string, error) {
 		}
 	}
 
-	return fmt.Sprintf("%s/%s/%s/%s", apiVersion, kind, namespace, name), nil
+	return fmt.Sprintf("%q/%q/%q/%q", apiVersion, kind, namespace, name), nil
 }
-- 
2.43.0


From afabfa51b71cfd4c24a274f182ecc188afb4cfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:51 +0000
Subject: [PATCH 42/61] fix: resources with a name that is not a string are not
 taken for unnamed ones

---
 lib/k8s.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/k8s.go b/lib/k8s.go
index e0b793a..9b9b79d 100644
--- a/lib/k8s.go
+++ b/lib/k8s.go
@@ -94,7 +94,10 @@ func getManifestID(node *core.YispNode) (string, error) {
 		if !ok {
 			return "", fmt.Errorf("expected core.YispNode for apiVersion, got %T", apiVersionAny)
 		}
-		apiVersion, _ = apiVersionNode.Value.(string)
+		apiVersion, ok = apiVersionNode.Value.(string)
+		if !ok && apiVersionNode.Kind != core.KindNull {
+			return "", fmt.Errorf("expected string for apiVersion, got %s", apiVersionNode.Kind)
+		}
 	}
 
 	kindAny, ok := m.Get("kind")
@@ -103,7 +106,10 @@ func getManifestID(node *core.YispNode) (string, error) {
 		if !ok {
 			return "", fmt.Errorf("expected core.YispNode for kind, got %T", kindAny)
 		}
-		kind, _ = kindNode.Value.(string)
+		kind, ok = kindNode.Value.(string)
+		if !ok && kindNode.Kind != core.KindNull {
+			return "", fmt.Errorf("expected string for kind, got %s", kindNode.Kind)
+		}
 	}
 
 	metadataAny, ok := m.Get("metadata")
@@ -126,7 +132,10 @@ func getManifestID(node *core.YispNode) (string, error) {
 			if !ok {
 				return "", fmt.Errorf("expected core.YispNode for namespace, got %T", namespaceAny)
 			}
-			namespace, _ = namespaceNode.Value.(string)
+			namespace, ok = namespaceNode.Value.(string)
+			if !ok && namespaceNode.Kind != core.KindNull {
+				return "", fmt.Errorf("expected string for namespace, got %s", namespaceNode.Kind)
+			}
 		}
 
 		nameAny, ok := metadataMap.Get("name")
@@ -135,7 +144,10 @@ func getManifestID(node *core.YispNode) (string, error) {
 			if !ok {
 				return "", fmt.Errorf("expected core.YispNode for name, got %T", nameAny)
 			}
-			name, _ = nameNode.Value.(string)
+			name, ok = nameNode.Value.(string)
+			if !ok && nameNode.Kind != core.KindNull {
+				return "", fmt.Errorf("expected string for name, got %s", nameNode.Kind)
+			}
 		}
 	}
 
-- 
2.43.0


From 93aa460e4bd36b509fd72fe9bd43b41fd1d60209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:31 +0000
Subject: [PATCH 43/61] fix: casting to a type does not change values in use
 elsewhere

---
 core/schema.go | 22 ++++++++++++++++++++++
 engine/eval.go | 22 +++++++++++-----------
 2 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index 7e196f3..4d02f7a 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -527,9 +527,11 @@ func (s *Schema) InterpolateDefaults(node *YispNode) error {
 			if !ok {
 				return NewEvaluationError(node, fmt.Sprintf("expected YispNode, got %T", item))
 			}
+			itemNode = copyNode(itemNode)
 			if err := s.Items.InterpolateDefaults(itemNode); err != nil {
 				return NewEvaluationError(node, fmt.Sprintf("failed to interpolate defaults for array item %d: %v", i, err))
 			}
+			arr[i] = itemNode
 		}
 		return nil
 	case "object":
@@ -591,9 +593,11 @@ func (s *Schema) InterpolateDefaults(node *YispNode) error {
 			if !ok {
 				return NewEvaluationError(node, fmt.Sprintf("expected YispNode, got %T", item))
 			}
+			itemNode = copyNode(itemNode)
 			if err := subSchema.InterpolateDefaults(itemNode); err != nil {
 				return NewEvaluationError(node, fmt.Sprintf("failed to interpolate defaults for property %s: %v", key, err))
 			}
+			m.Set(key, itemNode)
 		}
 		return nil
 	default:
@@ -601,7 +605,25 @@ func (s *Schema) InterpolateDefaults(node *YispNode) error {
 	}
 }
 
+// copyNode copies a node with its list or map, but not the members of that
+func copyNode(node *YispNode) *YispNode {
+	result := *node
+	switch value := node.Value.(type) {
+	case []any:
+		result.Value = slices.Clone(value)
+	case *YispMap:
+		m := NewYispMap()
+		for key, item := range value.AllFromFront() {
+			m.Set(key, item)
+		}
+		result.Value = m
+	}
+	return &result
+}
+
+// Cast returns a copy of node with the type s and its defaults, node itself may be in use elsewhere
 func (s *Schema) Cast(node *YispNode) (*YispNode, error) {
+	node = copyNode(node)
 	err := s.InterpolateDefaults(node)
 	if err != nil {
 		return nil, fmt.Errorf("failed to cast %v to %v (%v)", node, s, err)
diff --git a/engine/eval.go b/engine/eval.go
index 5ae03d0..08ea190 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -470,17 +470,6 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 		}
 	}
 
-	if node.Anchor != "" {
-		env.Root().Set(node.Anchor, result) // anchor is global
-
-		if result.Kind == core.KindLambda {
-			lambda, ok := result.Value.(*core.Lambda)
-			if ok {
-				lambda.Clojure.Set(node.Anchor, result)
-			}
-		}
-	}
-
 	if node.Tag != "" && node.Tag != "!quote" && node.Tag != "!yisp" {
 		typeName := strings.TrimPrefix(node.Tag, "!")
 		if typeName != "" && !strings.HasPrefix(typeName, "!") {
@@ -498,5 +487,16 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 		}
 	}
 
+	if node.Anchor != "" {
+		env.Root().Set(node.Anchor, result) // anchor is global
+
+		if result.Kind == core.KindLambda {
+			lambda, ok := result.Value.(*core.Lambda)
+			if ok {
+				lambda.Clojure.Set(node.Anchor, result)
+			}
+		}
+	}
+
 	return result, nil
 }
-- 
2.43.0


From c2fc64b6d0649c5afecad959a0c61a7d69a925c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:05 +0000
Subject: [PATCH 44/61] fix: a merged list does not share storage with the
 overlay's list

---
 core/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/util.go b/core/util.go
index 4176a8b..f516d66 100644
--- a/core/util.go
+++ b/core/util.go
@@ -142,7 +142,7 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 
 		var result []any
 		if strategy == "replace" {
-			result = srcArray
+			result = slices.Clone(srcArray)
 		} else if strategy == "merge" {
 			if mergeKey == "" {
 				result = append(result, dstArray...)
-- 
2.43.0


From e8140936bd904f6251b91d9161977bbe671a2bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:37 +0000
Subject: [PATCH 45/61] fix: schema defaults keep the exact value of large
 integers

---
 core/schema.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/schema.go b/core/schema.go
index 4d02f7a..1fd52d5 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -60,6 +60,14 @@ type Schema struct {
 	K8sPatchMergeKey string `json:"x-kubernetes-patch-merge-key,omitempty"`
 }
 
+// UnmarshalJSON decodes a schema without rounding the numbers in its default
+func (s *Schema) UnmarshalJSON(data []byte) error {
+	type plain Schema
+	decoder := json.NewDecoder(bytes.NewReader(data))
+	decoder.UseNumber()
+	return decoder.Decode((*plain)(s))
+}
+
 func (s *Schema) GetProperties() map[string]*Schema {
 	if s.Properties == nil {
 		return make(map[string]*Schema)
-- 
2.43.0


From 2ab66c239fe895b9408f4cd03a38663cfa0cfe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:02 +0000
Subject: [PATCH 46/61] fix: a number range does not accept values that are not
 a number

---
 core/schema.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index 1fd52d5..971ad99 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -348,16 +348,16 @@ func (s *Schema) Validate(node *YispNode) error {
 		if !ok {
 			return NewEvaluationError(node, fmt.Sprintf("expected float, got %T", node.Value))
 		}
-		if s.Minimum != nil && value < *s.Minimum {
+		if s.Minimum != nil && !(value >= *s.Minimum) { // also when it is not a number
 			return NewEvaluationError(node, fmt.Sprintf("value %f is less than minimum %f", value, *s.Minimum))
 		}
-		if s.Maximum != nil && value > *s.Maximum {
+		if s.Maximum != nil && !(value <= *s.Maximum) {
 			return NewEvaluationError(node, fmt.Sprintf("value %f is greater than maximum %f", value, *s.Maximum))
 		}
-		if s.ExclusiveMinimum != nil && value <= *s.ExclusiveMinimum {
+		if s.ExclusiveMinimum != nil && !(value > *s.ExclusiveMinimum) {
 			return NewEvaluationError(node, fmt.Sprintf("value %f is not greater than exclusive minimum %f", value, *s.ExclusiveMinimum))
 		}
-		if s.ExclusiveMaximum != nil && value >= *s.ExclusiveMaximum {
+		if s.ExclusiveMaximum != nil && !(value < *s.ExclusiveMaximum) {
 			return NewEvaluationError(node, fmt.Sprintf("value %f is not less than exclusive maximum %f", value, *s.ExclusiveMaximum))
 		}
 		if s.MultipleOf != nil {
-- 
2.43.0


From 1e428f830b41ed5c4be378b707309245a985f0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:32 +0000
Subject: [PATCH 47/61] fix: an operator name with a trailing part is unknown

---
 engine/apply.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/engine/apply.go b/engine/apply.go
index c2401ca..e7372fe 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -47,9 +47,9 @@ func (e *engine) Apply(car *core.YispNode, cdr []*core.YispNode, env *core.Env,
 			return nil, core.NewEvaluationError(car, fmt.Sprintf("invalid car value: %T", car.Value))
 		}
 
-		split := strings.Split(op, ".")
-		if len(split) > 1 { // lib operator
-			fn, ok := lib.GetOperator(split[0], split[1])
+		module, name, qualified := strings.Cut(op, ".")
+		if qualified { // lib operator
+			fn, ok := lib.GetOperator(module, name)
 			if !ok {
 				return nil, core.NewEvaluationError(car, fmt.Sprintf("unknown function name: %s", op))
 			}
-- 
2.43.0


From d0fb4e1b72a03115532092927fd3e0210a31a093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 48/61] fix: fail when the result cannot be written

---
 cmd/build.go | 10 ++++++++--
 cmd/krm.go   |  8 ++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/cmd/build.go b/cmd/build.go
index 122b3b1..bdcffc6 100644
--- a/cmd/build.go
+++ b/cmd/build.go
@@ -70,7 +70,10 @@ var buildCmd = &cobra.Command{
 				os.Exit(1)
 			}
 
-			fmt.Println(result)
+			if _, err := fmt.Println(result); err != nil {
+				fmt.Fprintln(os.Stderr, "Error:", err)
+				os.Exit(1)
+			}
 		case "json":
 			resultAny, err := e.EvaluateFileToAny(yamlFile)
 			if err != nil {
@@ -100,7 +103,10 @@ var buildCmd = &cobra.Command{
 				os.Exit(1)
 			}
 
-			fmt.Println(string(jsonResult))
+			if _, err := fmt.Println(string(jsonResult)); err != nil {
+				fmt.Fprintln(os.Stderr, "Error:", err)
+				os.Exit(1)
+			}
 		default:
 			fmt.Fprintln(os.Stderr, "Error: Unsupported output format. Use 'yaml' or 'json'.")
 			os.Exit(1)
diff --git a/cmd/krm.go b/cmd/krm.go
index 3ee8444..656bcab 100644
--- a/cmd/krm.go
+++ b/cmd/krm.go
@@ -105,7 +105,9 @@ var krmCmd = &cobra.Command{
 				panic(err)
 			}
 
-			fmt.Println(result)
+			if _, err := fmt.Println(result); err != nil {
+				panic(err)
+			}
 
 		} else {
 
@@ -118,7 +120,9 @@ var krmCmd = &cobra.Command{
 				panic(err)
 			}
 
-			fmt.Println(result)
+			if _, err := fmt.Println(result); err != nil {
+				panic(err)
+			}
 		}
 
 	},
-- 
2.43.0


From ba332b4a9875dc7b0881344ccd923842e3dbdc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:39 +0000
Subject: [PATCH 49/61] fix: unresolved schema references are reported in a
 fixed order

---
 core/schema.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/schema.go b/core/schema.go
index 971ad99..3e3c6fc 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -74,7 +74,8 @@ func (s *Schema) GetProperties() map[string]*Schema {
 	}
 
 	newProperties := make(map[string]*Schema, len(s.Properties))
-	for key, value := range s.Properties {
+	for _, key := range slices.Sorted(maps.Keys(s.Properties)) {
+		value := s.Properties[key]
 		if value != nil && value.Ref != "" {
 			refSchema, err := LoadSchemaFromID(value.Ref)
 			if err != nil {
-- 
2.43.0


From d15fa828f448b84e2c9e8c64238490c02f1f352e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:47 +0000
Subject: [PATCH 50/61] fix: of several bad globals the same one is always
 reported

---
 engine/engine.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/engine/engine.go b/engine/engine.go
index af6146f..3c116bd 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -5,6 +5,8 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"maps"
+	"slices"
 
 	"github.com/totegamma/yisp/core"
 	"github.com/totegamma/yisp/internal/yaml"
@@ -126,8 +128,8 @@ func (e *engine) EvaluateFileToAny(path string) (any, error) {
 func (e *engine) EvaluateBytesToYaml(data []byte, global map[string]any) (string, error) {
 	env := core.NewEnv()
 
-	for key, value := range global {
-		node, err := core.ParseAny("", value)
+	for _, key := range slices.Sorted(maps.Keys(global)) {
+		node, err := core.ParseAny("", global[key])
 		if err != nil {
 			return "", fmt.Errorf("failed to parse global variable %s: %v", key, err)
 		}
-- 
2.43.0


From ab6411291b3a9a70beff737c64193de30c2769eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:55 +0000
Subject: [PATCH 51/61] fix: internal keys of merge entries do not depend on
 the clock

---
 engine/parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/parse.go b/engine/parse.go
index 9232107..5584546 100644
--- a/engine/parse.go
+++ b/engine/parse.go
@@ -1,7 +1,7 @@
 package engine
 
 import (
-	"github.com/rs/xid"
+	"strconv"
 
 	"github.com/totegamma/yisp/core"
 	"github.com/totegamma/yisp/internal/yaml"
@@ -69,7 +69,7 @@ func Parse(filename string, node *yaml.Node) (*core.YispNode, error) {
 
 			key := keyNode.Value
 			if key == "<<" {
-				key = core.YISP_SPECIAL_MERGE_KEY + xid.New().String()
+				key = core.YISP_SPECIAL_MERGE_KEY + strconv.Itoa(i)
 			}
 
 			value, err := Parse(filename, valueNode)
-- 
2.43.0


From a5296120e9a211938a47945ffd3ba887312bae9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 52/61] fix: schemas are cached in a fixed order

---
 cmd/cachekubeschemas.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/cachekubeschemas.go b/cmd/cachekubeschemas.go
index defe022..f3dfad5 100644
--- a/cmd/cachekubeschemas.go
+++ b/cmd/cachekubeschemas.go
@@ -5,9 +5,11 @@ import (
 	"encoding/json"
 	"fmt"
 	"github.com/spf13/cobra"
+	"maps"
 	"os"
 	"os/exec"
 	"path/filepath"
+	"slices"
 )
 
 type open struct {
@@ -97,8 +99,8 @@ func saveSchemas(openapi open) error {
 		os.Exit(1)
 	}
 
-	for key, def := range openapi.Definitions {
-
+	for _, key := range slices.Sorted(maps.Keys(openapi.Definitions)) {
+		def := openapi.Definitions[key]
 		def["$id"] = key
 
 		schemaPath := filepath.Join(schemasPath, fmt.Sprintf("%s.json", key))
-- 
2.43.0


From fde8b1c60326a8a24eff18ac28c892c69601462b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:27 +0000
Subject: [PATCH 53/61] fix: a null definition is an error when caching schemas

---
 cmd/cachekubeschemas.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/cachekubeschemas.go b/cmd/cachekubeschemas.go
index f3dfad5..a20cb96 100644
--- a/cmd/cachekubeschemas.go
+++ b/cmd/cachekubeschemas.go
@@ -101,6 +101,9 @@ func saveSchemas(openapi open) error {
 
 	for _, key := range slices.Sorted(maps.Keys(openapi.Definitions)) {
 		def := openapi.Definitions[key]
+		if def == nil {
+			return fmt.Errorf("schema %s is null", key)
+		}
 		def["$id"] = key
 
 		schemaPath := filepath.Join(schemasPath, fmt.Sprintf("%s.json", key))
-- 
2.43.0


From efadca9b0de990a77e5fbc426a203b9d1b2eb1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:32 +0000
Subject: [PATCH 54/61] fix: block scalars that begin with a line break or a
 tab, or are folded, keep their text

---
 internal/yaml/emitterc.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/yaml/emitterc.go b/internal/yaml/emitterc.go
index dde20e5..8616df4 100644
--- a/internal/yaml/emitterc.go
+++ b/internal/yaml/emitterc.go
@@ -1845,7 +1845,7 @@ func yaml_emitter_write_double_quoted_scalar(emitter *yaml_emitter_t, value []by
 }
 
 func yaml_emitter_write_block_scalar_hints(emitter *yaml_emitter_t, value []byte) bool {
-	if is_space(value, 0) || is_break(value, 0) {
+	if is_blank(value, 0) || is_break(value, 0) {
 		indent_hint := []byte{'0' + byte(emitter.best_indent)}
 		if !yaml_emitter_write_indicator(emitter, indent_hint, false, false, false) {
 			return false
@@ -1898,6 +1898,9 @@ func yaml_emitter_write_literal_scalar(emitter *yaml_emitter_t, value []byte) bo
 	}
 	//emitter.indention = true
 	emitter.whitespace = true
+	if is_break(value, 0) && emitter.column > 0 && !put_break(emitter) { // the header is a line of its own
+		return false
+	}
 	breaks := true
 	for i := 0; i < len(value); {
 		if is_break(value, i) {
@@ -1937,16 +1940,19 @@ func yaml_emitter_write_folded_scalar(emitter *yaml_emitter_t, value []byte) boo
 	//emitter.indention = true
 	emitter.whitespace = true
 
+	if is_break(value, 0) && emitter.column > 0 && !put_break(emitter) { // the header is a line of its own
+		return false
+	}
 	breaks := true
 	leading_spaces := true
 	for i := 0; i < len(value); {
 		if is_break(value, i) {
 			if !breaks && !leading_spaces && value[i] == '\n' {
-				k := 0
-				for is_break(value, k) {
+				k := i
+				for k < len(value) && is_break(value, k) {
 					k += width(value[k])
 				}
-				if !is_blankz(value, k) {
+				if k < len(value) && !is_blankz(value, k) {
 					if !put_break(emitter) {
 						return false
 					}
-- 
2.43.0


From 0f80eda9a853377801fe61a4c5757b8ddb0d920f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:38 +0000
Subject: [PATCH 55/61] fix: line comments of flow collections no longer make
 the output unreadable

---
 engine/render.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/engine/render.go b/engine/render.go
index 54f135a..42ad449 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -40,8 +40,10 @@ func formatFloat(value any) string {
 	return str
 }
 
-// Render converts a YispNode to a yaml.Node
-func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
+// Render converts a YispNode to a yaml.Node. inFlow tells that it becomes part
+// of a collection in flow style.
+func (e *engine) renderYamlNodes(node *core.YispNode, inFlow bool) (*yaml.Node, error) {
+	inFlow = inFlow || node.Attr.Style&yaml.FlowStyle != 0
 	switch node.Kind {
 	case core.KindNull:
 		return &yaml.Node{
@@ -109,7 +111,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 			if !ok {
 				return nil, fmt.Errorf("invalid item type: %T", item)
 			}
-			content, err := e.renderYamlNodes(node)
+			content, err := e.renderYamlNodes(node, inFlow)
 			if err != nil {
 				return nil, err
 			}
@@ -118,11 +120,15 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 			}
 			results = append(results, content)
 		}
+		lineComment := ""
+		if inFlow || len(results) == 0 { // a block has no line of its own
+			lineComment = e.getLineComment(node)
+		}
 		return &yaml.Node{
 			Kind:        yaml.SequenceNode,
 			Content:     results,
 			HeadComment: node.Attr.HeadComment,
-			LineComment: e.getLineComment(node),
+			LineComment: lineComment,
 			FootComment: node.Attr.FootComment,
 			Style:       node.Attr.Style,
 		}, nil
@@ -138,7 +144,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 				return nil, fmt.Errorf("invalid item type: %T", item)
 			}
 
-			content, err := e.renderYamlNodes(node)
+			content, err := e.renderYamlNodes(node, inFlow)
 			if err != nil {
 				return nil, err
 			}
@@ -146,11 +152,16 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 				continue
 			}
 
+			keyComment := ""
+			if len(content.Content) > 0 && content.LineComment == "" { // a block shows its comment at its key
+				keyComment = e.getLineComment(node)
+			}
+
 			results = append(results, &yaml.Node{
 				Kind:        yaml.ScalarNode,
 				Value:       key,
 				HeadComment: node.Attr.KeyHeadComment,
-				LineComment: e.getLineComment(node),
+				LineComment: keyComment,
 				FootComment: node.Attr.KeyFootComment,
 				Style:       node.Attr.KeyStyle,
 			})
@@ -159,11 +170,15 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 
 		}
 
+		lineComment := ""
+		if inFlow || len(results) == 0 { // a block has no line of its own
+			lineComment = e.getLineComment(node)
+		}
 		return &yaml.Node{
 			Kind:        yaml.MappingNode,
 			Content:     results,
 			HeadComment: node.Attr.HeadComment,
-			LineComment: e.getLineComment(node),
+			LineComment: lineComment,
 			FootComment: node.Attr.FootComment,
 			Style:       node.Attr.Style,
 		}, nil
@@ -252,7 +267,7 @@ func (e *engine) Render(node *core.YispNode) (string, error) {
 			if !ok {
 				return "", fmt.Errorf("invalid item type: %T", item)
 			}
-			rendered, err := e.renderYamlNodes(node)
+			rendered, err := e.renderYamlNodes(node, false)
 			if err != nil {
 				return "", err
 			}
@@ -273,7 +288,7 @@ func (e *engine) Render(node *core.YispNode) (string, error) {
 		return buf.String(), nil
 
 	} else {
-		rendered, err := e.renderYamlNodes(node)
+		rendered, err := e.renderYamlNodes(node, false)
 		if err != nil {
 			return "", err
 		}
-- 
2.43.0


From c6ab170747d5fa7029cf4c560dab937a1c08debe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:25 +0000
Subject: [PATCH 56/61] fix: values that are not strings are never written in
 quotes

---
 engine/render.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/engine/render.go b/engine/render.go
index 42ad449..6496c23 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -40,6 +40,12 @@ func formatFloat(value any) string {
 	return str
 }
 
+// plainStyle is the style for a scalar that is not a string, which would be read
+// back as a string if it were quoted or written as a block
+func plainStyle(style yaml.Style) yaml.Style {
+	return style &^ (yaml.SingleQuotedStyle | yaml.DoubleQuotedStyle | yaml.LiteralStyle | yaml.FoldedStyle)
+}
+
 // Render converts a YispNode to a yaml.Node. inFlow tells that it becomes part
 // of a collection in flow style.
 func (e *engine) renderYamlNodes(node *core.YispNode, inFlow bool) (*yaml.Node, error) {
@@ -53,7 +59,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode, inFlow bool) (*yaml.Node,
 			HeadComment: node.Attr.HeadComment,
 			LineComment: e.getLineComment(node),
 			FootComment: node.Attr.FootComment,
-			Style:       node.Attr.Style,
+			Style:       plainStyle(node.Attr.Style),
 		}, nil
 
 	case core.KindBool:
@@ -64,7 +70,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode, inFlow bool) (*yaml.Node,
 			HeadComment: node.Attr.HeadComment,
 			LineComment: e.getLineComment(node),
 			FootComment: node.Attr.FootComment,
-			Style:       node.Attr.Style,
+			Style:       plainStyle(node.Attr.Style),
 		}, nil
 
 	case core.KindInt:
@@ -75,7 +81,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode, inFlow bool) (*yaml.Node,
 			HeadComment: node.Attr.HeadComment,
 			LineComment: e.getLineComment(node),
 			FootComment: node.Attr.FootComment,
-			Style:       node.Attr.Style,
+			Style:       plainStyle(node.Attr.Style),
 		}, nil
 
 	case core.KindFloat:
@@ -86,7 +92,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode, inFlow bool) (*yaml.Node,
 			HeadComment: node.Attr.HeadComment,
 			LineComment: e.getLineComment(node),
 			FootComment: node.Attr.FootComment,
-			Style:       node.Attr.Style,
+			Style:       plainStyle(node.Attr.Style),
 		}, nil
 
 	case core.KindString:
-- 
2.43.0


From d97d173a922f1b5fc988be405c063aa362881842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:02 +0000
Subject: [PATCH 57/61] fix: strings.replace rejects a fifth argument instead
 of ignoring the count

---
 lib/strings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/strings.go b/lib/strings.go
index 9d79924..4836f9e 100644
--- a/lib/strings.go
+++ b/lib/strings.go
@@ -176,7 +176,7 @@ func opJoin(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 }
 
 func opReplace(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
-	if len(cdr) < 3 {
+	if len(cdr) < 3 || len(cdr) > 4 {
 		return nil, core.NewEvaluationError(nil, fmt.Sprintf("replace requires 3-4 arguments, got %d", len(cdr)))
 	}
 
-- 
2.43.0


From 9c81af5bea69613c82a84e2d5883d2f1f1f478b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:13 +0000
Subject: [PATCH 58/61] fix: strings.quote keeps quotes at the ends of the
 value

---
 lib/strings.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/strings.go b/lib/strings.go
index 4836f9e..8ef74e9 100644
--- a/lib/strings.go
+++ b/lib/strings.go
@@ -3,6 +3,7 @@ package lib
 import (
 	"crypto/sha256"
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/totegamma/yisp/core"
@@ -92,9 +93,8 @@ func opQuote(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 	}
 
 	node := cdr[0]
-	str := fmt.Sprintf("%q", value)
-	str = strings.Trim(str, "\"")
-	str = strings.Trim(str, "'")
+	str := strconv.Quote(value)
+	str = str[1 : len(str)-1] // without the enclosing quotes, keeping those of the value
 
 	return &core.YispNode{
 		Kind:  core.KindString,
-- 
2.43.0


From 4414a0045aaacfc263c74c5aa40a10f1ff18e721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:25 +0000
Subject: [PATCH 59/61] fix: strings.quote writes all digits of a float

---
 lib/strings.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/strings.go b/lib/strings.go
index 8ef74e9..23580c6 100644
--- a/lib/strings.go
+++ b/lib/strings.go
@@ -78,6 +78,9 @@ func opQuote(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 		value = fmt.Sprintf("%d", cdr[0].Value)
 	case core.KindFloat:
 		value = fmt.Sprintf("%f", cdr[0].Value)
+		if f, ok := cdr[0].Value.(float64); ok { // %f keeps six digits only
+			value = strconv.FormatFloat(f, 'f', -1, 64)
+		}
 	case core.KindBool:
 		if cdr[0].Value.(bool) {
 			value = "true"
-- 
2.43.0


From 1420bb87966a2378d1ea1a40c7439b6bdf799f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:08 +0000
Subject: [PATCH 60/61] fix: data after the value of a JSON file is an error
 instead of being ignored

---
 core/parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/parse.go b/core/parse.go
index b8deaae..9999c49 100644
--- a/core/parse.go
+++ b/core/parse.go
@@ -156,6 +156,9 @@ func ParseJson(filename string, reader io.Reader) (*YispNode, error) {
 	if err := decoder.Decode(&data); err != nil {
 		return nil, fmt.Errorf("failed to decode JSON: %v", err)
 	}
+	if _, err := decoder.Token(); err != io.EOF {
+		return nil, fmt.Errorf("failed to decode JSON: data after the value")
+	}
 
 	node, err := ParseAny(filename, data)
 	if err != nil {
-- 
2.43.0


From c07ddd712cd0650a7a2b6585433e9ef59bc84c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:40 +0000
Subject: [PATCH 61/61] fix: including a YAML file takes all its documents, not
 only the first

---
 core/parse.go | 46 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/core/parse.go b/core/parse.go
index 9999c49..2595650 100644
--- a/core/parse.go
+++ b/core/parse.go
@@ -168,18 +168,48 @@ func ParseJson(filename string, reader io.Reader) (*YispNode, error) {
 	return node, nil
 }
 
-// ParseYaml parses standard YAML (not yisp-extended YAML) into a YispNode
+// ParseYaml parses standard YAML (not yisp-extended YAML) into a YispNode.
+// Several documents give a list of those that are not null.
 func ParseYaml(filename string, reader io.Reader) (*YispNode, error) {
-	var data any
 	decoder := yaml.NewDecoder(reader)
-	if err := decoder.Decode(&data); err != nil {
-		return nil, fmt.Errorf("failed to decode YAML: %v", err)
+	var nodes []*YispNode
+	for {
+		var data any
+		err := decoder.Decode(&data)
+		if err == io.EOF && len(nodes) > 0 {
+			break
+		}
+		if err != nil {
+			return nil, fmt.Errorf("failed to decode YAML: %v", err)
+		}
+
+		node, err := ParseAny(filename, data)
+		if err != nil {
+			return nil, fmt.Errorf("failed to parse YAML: %v", err)
+		}
+		nodes = append(nodes, node)
 	}
 
-	node, err := ParseAny(filename, data)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse YAML: %v", err)
+	if len(nodes) == 1 {
+		return nodes[0], nil
 	}
 
-	return node, nil
+	documents := make([]any, 0, len(nodes))
+	for _, node := range nodes {
+		if node.Kind != KindNull {
+			documents = append(documents, node)
+		}
+	}
+	return &YispNode{
+		Kind:           KindArray,
+		Value:          documents,
+		IsDocumentRoot: true,
+		Attr: Attribute{
+			Sources: []FilePos{
+				{
+					File: filename,
+				},
+			},
+		},
+	}, nil
 }
-- 
2.43.0

