property = "C39"
edits = [("lib/strings.go", '''	result := strings.Replace(str, oldStr, newStr, n)
''', '''	if n == 0 { // no count given
		n = -1
	}
	result := strings.Replace(str, oldStr, newStr, n)
''')]
needs = "a replacement count that is computed and comes out as zero"
breaks = "a count of zero replaces every occurrence instead of none"
files = {"docs/main.yisp": """
two: !yisp [strings.replace, banana, a, o, 2]
none: !yisp [strings.replace, banana, a, o, [-, 2, 2]]
"""}
