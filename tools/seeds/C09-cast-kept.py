property = "C09"
edits = [("engine/eval.go", "\t\t\t\t\tcasted, err := schema.Cast(result)\n\t\t\t\t\tif err != nil {\n", "\t\t\t\t\tcasted, err := schema.Cast(result)\n\t\t\t\t\tif err != nil && result.Kind != core.KindMap {\n"),
 ("engine/eval.go", "\t\t\t\t\tresult = casted\n", "\t\t\t\t\tif err == nil {\n\t\t\t\t\t\tresult = casted\n\t\t\t\t\t}\n")]
needs = "a map tagged with a type it cannot be completed to"
breaks = "the failed cast is ignored and the uncompleted map comes back"
files = {"docs/main.yisp": """
t: !yisp &t [schema, {type: object, required: !quote [a], properties: {a: {type: integer}, b: {type: integer, default: 2}}}]
---
!t {c: 1}
"""}
status = 1
