property = "C17"
edits = [("engine/eval.go", "\t\t\tval, err := e.Eval(node, env, mode)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, core.NewEvaluationErrorWithParent(node, \"failed to evaluate item\", err)\n\t\t\t}\n\n\t\t\tswitch key {\n", "\t\t\tif strings.HasPrefix(key, core.YISP_SPECIAL_MERGE_KEY) && node.Kind == core.KindArray {\n\t\t\t\tif first, ok := node.Value.([]any); ok && len(first) > 0 {\n\t\t\t\t\tif n, ok := first[0].(*core.YispNode); ok && n.Kind == core.KindString {\n\t\t\t\t\t\tmode = core.EvalModeEval // only a call gives something to merge\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t\tval, err := e.Eval(node, env, mode)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, core.NewEvaluationErrorWithParent(node, \"failed to evaluate item\", err)\n\t\t\t}\n\n\t\t\tswitch key {\n")]
needs = "untagged data with a merge key over a list that begins with a string"
breaks = "the list, and every later entry of the map, is evaluated as code"
files = {"docs/main.yisp": """
a: 1
<<: ["maps.make", "k", 1]
b: ["+", 1, 2]
"""}
status = 1
