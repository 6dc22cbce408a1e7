property = "C37"
edits = [("engine/apply.go", "\t\tproduct *= num\n\t}\n", "\t\tproduct *= num\n\t\tif product == 0 {\n\t\t\tbreak // nothing can change the product any more\n\t\t}\n\t}\n")]
needs = "a zero factor before an operand that is not an integer"
breaks = "multiplication stops at a zero factor and never looks at the operands after it, so a wrong operand is no error"
status = 1
files = {"docs/main.yisp": """
!yisp
- "*"
- 3
- 0
- "x"
"""}
