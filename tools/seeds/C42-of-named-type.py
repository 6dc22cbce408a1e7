property = "C42"
edits = [("lib/types.go", """		Value: node.Kind.String(),
""", """		Value: kindName(node),
"""), ("lib/types.go", """func opTypeOf(""", """// kindName is the name of the kind of a value.
func kindName(node *core.YispNode) string {
	if m, ok := node.Value.(*core.YispMap); ok && m.Len() == 0 {
		return core.KindNull.String()
	}
	return node.Kind.String()
}

func opTypeOf(""")]
needs = "the kind of a map without entries"
breaks = "an empty map is said to be null"
files = {"docs/main.yisp": """
a: !yisp [types.of, {}]
b: !yisp [types.of, {k: 1}]
"""}
