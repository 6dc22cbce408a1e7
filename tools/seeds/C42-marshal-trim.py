property = "C42"
edits = [("lib/yaml.go", "\tyamlStr := string(yamlBytes)\n", "\tyamlStr := string(yamlBytes)\n\tif node.Kind == core.KindString {\n\t\tyamlStr = strings.TrimSuffix(yamlStr, \"\\n\")\n\t}\n")]
needs = "a text is turned into YAML"
breaks = "the text loses its last line break, which belongs to a literal block"
files = {"docs/main.yisp": """
a: !yisp
  - yaml.unmarshal
  - - strings.concat
    - [yaml.marshal, "a\\nb\\n"]
    - "--- 1\\n"
"""}
