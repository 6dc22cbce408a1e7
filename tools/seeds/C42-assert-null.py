property = "C42"
edits = [("lib/types.go", "\terr := schema.Validate(valueNode)\n\tif err != nil {\n\t\treturn nil, core.NewEvaluationErrorWithParent(valueNode,", "\terr := schema.Validate(valueNode)\n\tif err != nil && valueNode.Kind != core.KindNull {\n\t\treturn nil, core.NewEvaluationErrorWithParent(valueNode,")]
needs = "an assertion about a value that is null"
breaks = "null passes every assertion"
files = {"docs/main.yisp": """
a: !yisp
  - types.assert
  - [schema, !quote {type: string}]
  - null
"""}
status = 1
