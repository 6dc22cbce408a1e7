property = "C40"
edits = [("lib/yaml.go", '''		parsedNode, err := core.ParseAny(node.Attr.File(), value)
''', '''		if value == nil { // nothing between two separators
			continue
		}
		parsedNode, err := core.ParseAny(node.Attr.File(), value)
''')]
needs = "reading a YAML text in which a document is null or empty, followed by another document"
breaks = "the null document is left out, so the documents after it move to other positions"
files = {"docs/main.yisp": """
one: !yisp [yaml.unmarshal, "a: 1"]
three: !yisp [yaml.unmarshal, "a: 1\\n--- null\\n---\\nb: 2\\n"]
"""}
