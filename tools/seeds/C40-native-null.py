property = "C40"
edits = [("core/types.go", '''			results[key] = content

''', '''			if content == nil && len(results) > 0 {
				continue // same as absent
			}
			results[key] = content

''')]
needs = "a map with a null member behind another one, converted to plain data (formatting, the library's EvaluateFileToAny)"
breaks = "null members of maps are lost in the plain data"
files = {"docs/main.yisp": """
one: !yisp [strings.format, "%v", !quote {a: null}]
two: !yisp [strings.format, "%v", !quote {a: 1, b: null}]
"""}
