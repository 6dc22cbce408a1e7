property = "C36"
edits = [("lib/maps.go", "\tresult := make([]any, 0)\n\tfor key, value := range mapValue.AllFromFront() {\n\t\ttuple := &core.YispNode{\n", "\tresult := make([]any, 0)\n\tfor key, value := range mapValue.AllFromFront() {\n\t\tif n, ok := value.(*core.YispNode); ok && n.Kind == core.KindNull {\n\t\t\tcontinue\n\t\t}\n\t\ttuple := &core.YispNode{\n")]
needs = "a map with a null entry"
breaks = "entries that are null are lost"
files = {"docs/main.yisp": """
!yisp
- maps.to-entries
- !quote {a: 1, b: null, c: 3}
"""}
