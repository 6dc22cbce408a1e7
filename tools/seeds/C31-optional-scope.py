property = "C31"
edits = [("core/env.go", "\tvalue, ok := e.Vars[fst]\n\tif !ok {\n\t\tif e.Parent != nil {\n\t\t\treturn e.Parent.Get(key)\n\t\t}\n\t\tif optional {\n", "\tvalue, ok := e.Vars[fst]\n\tif !ok {\n\t\tif e.Parent != nil && !optional {\n\t\t\treturn e.Parent.Get(key)\n\t\t}\n\t\tif optional {\n")]
needs = "an optional reference (name?) used in an inner scope to a name defined in an outer one"
breaks = "optional references are looked up in the innermost scope only and are null where an outer scope defines the name"
files = {"docs/main.yisp": """
base: &base 7
out: !yisp
  - lists.map
  - !quote [1, 2]
  - [lambda, [x], ["+", *x, ["??", *base?, 100]]]
"""}

