property = "C20"
edits = [("engine/apply.go", 'func(a, b float64) bool { return a <= b })', 'func(a, b float64) bool { return !(a > b) })')]
needs = "a comparison with .nan"
breaks = "<= and >= with .nan are true"
files = {"docs/main.yisp": """
!yisp
- lists.map
- !quote [1, 2]
- [lambda, [x], ["<=", *x, .nan]]
"""}
