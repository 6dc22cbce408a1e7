property = "C35"
edits = [("lib/lists.go", "\t\t\t\t} else {\n\t\t\t\t\tflattened = append(flattened, itemNode)\n", "\t\t\t\t} else if itemNode.Kind != core.KindNull {\n\t\t\t\t\tflattened = append(flattened, itemNode)\n")]
needs = "flatten with a null among the elements of a list"
breaks = "null operands are left out"
files = {"docs/main.yisp": """
!yisp
- lists.flatten
- !quote [1, null, [2]]
- 3
"""}
