property = "C39"
edits = [("lib/strings.go", '''	result := strings.Split(str, sep)
''', '''	var result []string
	if len(sep) == 1 { // no substring search for single characters
		result = strings.FieldsFunc(str, func(c rune) bool { return c == rune(sep[0]) })
	} else {
		result = strings.Split(str, sep)
	}
''')]
needs = "splitting a text with two separators next to each other, or one at an end, at a separator of one character"
breaks = "empty fields are dropped, so the pieces move to other positions"
files = {"docs/main.yisp": """parts: !yisp [strings.split, "a,,b", ","]
n: !yisp [lists.length, [strings.split, ",x,", ","]]
whole: !yisp [strings.split, "a, b", ", "]
"""}
