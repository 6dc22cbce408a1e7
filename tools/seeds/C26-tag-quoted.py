property = "C26"
edits = [("internal/yaml/encode.go", "			if stag == strTag && node.Style&(SingleQuotedStyle|DoubleQuotedStyle|LiteralStyle|FoldedStyle) != 0 {", "			if stag == strTag && (node.Style&(SingleQuotedStyle|DoubleQuotedStyle|LiteralStyle|FoldedStyle) != 0 || len(node.Value) > 24) {")]
needs = "a computed text of more than 24 digits, such as a long serial number"
breaks = "the text is written without quotes, so it reads back as a number"
files = {"docs/main.yisp": """
a: !yisp
- strings.concat
- "1234567890123"
- "4567890123456"
"""}
