property = "C32"
edits = [("engine/eval.go", "\t\t\t\t\tfor k, v := range innerMap.AllFromFront() {\n\t\t\t\t\t\tresults.Set(k, v)\n\t\t\t\t\t}\n", "\t\t\t\t\tfor k, v := range innerMap.AllFromFront() {\n\t\t\t\t\t\tif _, ok := results.Get(k); !ok || m.Len() == 1 {\n\t\t\t\t\t\t\tresults.Set(k, v)\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n")]
needs = "an entry written before a merge that brings the same key"
breaks = "the earlier entry wins"
files = {"docs/main.yisp": """
base: &base {a: 1, b: 2}
---
x: 0
a: 5
<<: *base
"""}
