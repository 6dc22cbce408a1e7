property = "C38"
edits = [("core/schema.go", "\t\t\titem, ok := m.Get(key)\n\t\t\tif !ok {\n\t\t\t\tif slices.Contains(s.Required, key) {\n", "\t\t\titem, ok := m.Get(key)\n\t\t\tif given, isNode := item.(*YispNode); isNode && given.Kind == KindNull && subSchema.Default != nil {\n\t\t\t\tok = false // the same as not given\n\t\t\t}\n\t\t\tif !ok {\n\t\t\t\tif slices.Contains(s.Required, key) {\n")]
needs = "a member that is null and has a default"
breaks = "the given null is replaced by the default"
files = {"docs/main.yisp": """
t: !yisp &t [schema, {type: object, properties: {a: {type: any, default: 1}, b: {type: any, default: 2}}}]
---
out: !yisp [maps.get, !t {a: null}, "a"]
"""}
