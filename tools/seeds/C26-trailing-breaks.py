property = "C26"
edits = [("internal/yaml/emitterc.go", "			if is_break(value, i) {\n				chomp_hint[0] = '+'", "			if is_break(value, i) && emitter.root_context {\n				chomp_hint[0] = '+'")]
needs = "a text in a map that ends with more than one line break"
breaks = "the additional line breaks at the end are lost when the output is read back"
files = {"docs/main.yisp": """
a: |+
  text

b: 1
"""}
