property = "C34"
edits = [("lib/lists.go", "\t\tif result {\n\t\t\tfiltered = append(filtered, itemNode)\n\t\t}\n", "\t\tif result {\n\t\t\tif rawResult.Kind != core.KindBool {\n\t\t\t\titemNode = rawResult // the function may complete what it keeps\n\t\t\t}\n\t\t\tfiltered = append(filtered, itemNode)\n\t\t}\n")]
needs = "a filter function with an outcome that is true without being a boolean"
breaks = "the outcome is kept in place of the element"
files = {"docs/main.yisp": """
!yisp
- lists.filter
- !quote [1, 0, 3]
- [lambda, [x], ["+", *x, *x]]
"""}
