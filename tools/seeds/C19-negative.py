property = "C19"
edits = [("core/util.go", "\t\treturn v != 0, nil\n", "\t\treturn v > 0, nil\n")]
needs = "a negative integer as a condition"
breaks = "negative integers count as false"
files = {"docs/main.yisp": """
!yisp
- lists.map
- !quote [-1, 0, 1]
- [lambda, [x], [if, *x, yes, no]]
"""}
