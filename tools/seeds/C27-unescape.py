property = "C27"
edits = [("lib/patch.go", "\t\ttoken = strings.ReplaceAll(token, \"~1\", \"/\")\n\t\ttoken = strings.ReplaceAll(token, \"~0\", \"~\")\n", "\t\ttoken = strings.ReplaceAll(token, \"~0\", \"~\")\n\t\ttoken = strings.ReplaceAll(token, \"~1\", \"/\")\n")]
needs = "a pointer with ~01"
breaks = "~01 is taken for / instead of ~1"
files = {"docs/main.yisp": """
!yisp
- maps.patch
- !quote {"~1": old, "/": keep}
- !quote
  - {op: replace, path: "/~01", value: new}
"""}
