property = "C12"
edits = [("core/schema.go", "\tid, err := io.ReadAll(file)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\n\treturn LoadSchemaFromID(string(id))\n", "\tid, err := io.ReadAll(file)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\n\tif schema, ok := loaded.Load(string(id)); ok {\n\t\treturn schema.(*Schema), nil\n\t}\n\tschema, err := LoadSchemaFromID(string(id))\n\tif err == nil {\n\t\tloaded.Store(string(id), schema)\n\t}\n\treturn schema, err\n"),
 ("core/schema.go", "func LoadSchemaFromGVK(", "// loaded keeps the schemas that were read, large manifests use the same ones often\nvar loaded sync.Map\n\nfunc LoadSchemaFromGVK("),
 ("core/schema.go", "\t\"strings\"\n", "\t\"strings\"\n\t\"sync\"\n")]
needs = "two evaluations in one process with a change of the schema cache (or of the home directory) in between"
breaks = "a later evaluation uses the schema an earlier one read"
pkg = "engine"
test = r'''
package engine

import (
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	write := func(home, typ string) {
		os.MkdirAll(filepath.Join(home, ".cache/yisp/schemas"), 0755)
		os.MkdirAll(filepath.Join(home, ".cache/yisp/gvk"), 0755)
		os.WriteFile(filepath.Join(home, ".cache/yisp/gvk/_v1_Thing.txt"), []byte("thing"), 0644)
		os.WriteFile(filepath.Join(home, ".cache/yisp/schemas/thing.json"), []byte(`{"type":"object","properties":{"apiVersion":{"type":"string"},"kind":{"type":"string"},"size":{"type":"`+typ+`"}}}`), 0644)
	}
	doc := "apiVersion: v1\nkind: Thing\nsize: 3\n"
	for _, typ := range []string{"integer", "string", "integer"} {
		home := t.TempDir()
		t.Setenv("HOME", home)
		write(home, typ)
		_, err := NewEngine(Options{}).EvaluateReaderToYaml(strings.NewReader(doc), "/x/a.yisp")
		if (err == nil) != (typ == "integer") {
			t.Errorf("size as %s: %v", typ, err)
		}
	}
}
'''
