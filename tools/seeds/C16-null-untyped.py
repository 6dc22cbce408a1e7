property = "C16"
edits = [("engine/apply.go", "\t\t\tif lambda.Arguments[i].Schema != nil {\n", "\t\t\tif lambda.Arguments[i].Schema != nil && node.Kind != core.KindNull {\n")]
needs = "a null argument for a parameter with a declared type"
breaks = "null passes for every parameter type, so the body runs with an argument its declaration excludes"
status = 1
files = {"docs/main.yisp": """
!yisp
- [lambda, [!int x], ["??", *x, 5]]
- null
"""}
