property = "C26"
edits = [("internal/yaml/resolve.go", "	t[int('+')] = 'S' // Sign", "	t[int('+')] = 'M' // Sign")]
needs = "an unquoted number with a plus sign"
breaks = "the number is taken for a text"
files = {"docs/main.yisp": """
a: !yisp
- types.of
- +7
b: !yisp
- types.of
- +.inf
"""}
