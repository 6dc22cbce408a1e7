property = "C22"
edits = [("core/schema.go", "if key != \"$schema\" {", "if !strings.HasPrefix(key, \"$\") {")]
needs = "a surplus entry whose key begins with a dollar sign"
breaks = "such entries are accepted where no additional properties are allowed"
files = {"docs/main.yisp": """
t: !yisp &t [schema, {type: object, properties: {a: {type: integer}}}]
---
!t {a: 1, $b: 2}
"""}
status = 1
