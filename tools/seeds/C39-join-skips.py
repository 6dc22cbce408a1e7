property = "C39"
edits = [("lib/strings.go", '''	strs := make([]string, len(strsAny))
	for i, item := range strsAny {
''', '''	strs := make([]string, 0, len(strsAny))
	for _, item := range strsAny {
'''), ("lib/strings.go", '''		strs[i] = str
''', '''		if str == "" && len(strs) > 0 && strs[len(strs)-1] == "" {
			continue // runs of empty items
		}
		strs = append(strs, str)
''')]
needs = "joining a list in which two neighbouring texts are empty"
breaks = "joined texts lose empty members, so splitting them again gives fewer"
files = {"docs/main.yisp": """
a: !yisp [strings.join, !quote [x, "", y], "/"]
b: !yisp [strings.join, !quote [x, "", "", y], "/"]
"""}
