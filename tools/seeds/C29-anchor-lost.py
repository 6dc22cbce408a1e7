property = "C29"
edits = [("internal/yaml/emitterc.go", "\tcase yaml_SEQUENCE_START_EVENT:\n\t\tif len(event.anchor) > 0 {\n\t\t\tif !yaml_emitter_analyze_anchor(emitter, event.anchor, false) {\n\t\t\t\treturn false\n\t\t\t}\n\t\t}\n", "\tcase yaml_SEQUENCE_START_EVENT:\n\t\tif len(event.anchor) > 0 {\n\t\t\tyaml_emitter_analyze_anchor(emitter, event.anchor, false)\n\t\t}\n")]
needs = "encoding a list with an anchor that YAML does not allow"
breaks = "the error is lost and the list written without its anchor"
pkg = "internal/yaml"
test = r"""
package yaml

import "testing"

func TestDemo(t *testing.T) {
	defer func() {
		if v := recover(); v != nil {
			t.Errorf("panic: %v", v)
		}
	}()
	out, err := Marshal(&Node{Kind: SequenceNode, Anchor: "a b", Content: []*Node{{Kind: ScalarNode, Value: "1"}}})
	if err == nil {
		t.Errorf("no error for an impossible anchor: %s", out)
	}
}
"""
