property = "C18"
edits = [("engine/eval.go", "\t\t\t\tfor i, item := range nodes {\n\t\t\t\t\te, err := e.Eval(item, env, mode)\n", "\t\t\t\tfor k := range nodes {\n\t\t\t\t\ti := (k + 1) % len(nodes) // the operands, then what is called\n\t\t\t\t\titem := nodes[i]\n\t\t\t\t\te, err := e.Eval(item, env, mode)\n")]
needs = "a call whose head defines a name that its operands use"
breaks = "the operands are evaluated before the head"
files = {"docs/main.yisp": """
out: !yisp
  - &id [lambda, [x], ["+", *x, 1]]
  - [*id, 3]
"""}
