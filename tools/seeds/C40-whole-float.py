property = "C40"
edits = [("core/parse.go", '''	case reflect.Float32, reflect.Float64:
		return &YispNode{
			Kind:  KindFloat,
''', '''	case reflect.Float32, reflect.Float64:
		if f := reflect.ValueOf(v).Float(); f == float64(int(f)) {
			return ParseAny(filename, int(f))
		}
		return &YispNode{
			Kind:  KindFloat,
''')]
needs = "a float without a fraction (2.0) in a plain YAML or JSON file"
breaks = "floats that happen to be whole arrive as integers, so types and divisions of them change"
files = {"docs/main.yisp": """
a: !yisp [types.of, [lists.at, [lists.at, [include, "data.yaml"], 0], 0]]
b: !yisp [types.of, [lists.at, [lists.at, [include, "data.yaml"], 0], 1]]
all: !yisp [include, "data.yaml"]
""", "docs/data.yaml": "- - 2.5\n  - 2.0\n- - 3\n"}
