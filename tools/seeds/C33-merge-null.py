property = "C33"
edits = [("core/util.go", "\t\t\tdstVal, dstOK := dstMap.Get(key)\n\t\t\tsrcVal, srcOK := srcMap.Get(key)\n", "\t\t\tdstVal, dstOK := dstMap.Get(key)\n\t\t\tsrcVal, srcOK := srcMap.Get(key)\n\t\t\tif n, ok := srcVal.(*YispNode); ok && n.Kind == KindArray && IsEmptyArray(n) {\n\t\t\t\tsrcOK = false\n\t\t\t}\n"),
  ("core/util.go", "func IsZero(v any) bool {\n", "// IsEmptyArray reports whether a node is a list without elements\nfunc IsEmptyArray(n *YispNode) bool {\n\tarr, ok := n.Value.([]any)\n\treturn ok && len(arr) == 0\n}\n\nfunc IsZero(v any) bool {\n")]
needs = "an overlay that sets a list to the empty list"
breaks = "an empty list in the overlay no longer replaces the base's list"
files = {"docs/main.yisp": """
!yisp
- maps.merge
- !quote {a: [1, 2], b: {c: [3], d: 4}}
- !quote {b: {c: []}}
"""}
