property = "C15"
edits = [("engine/apply.go", "\t\t\tif includingFile == includedFile {\n\t\t\t\tcontinue\n\t\t\t}\n", "\t\t\tif includingFile == includedFile {\n\t\t\t\tbreak\n\t\t\t}\n")]
needs = "a glob that matches the including document itself and files that sort after it"
breaks = "an include stops at the including document instead of skipping it, losing every file after it"
files = {"docs/main.yisp": """
!yisp
- include
- "*.yisp"
""", "docs/a.yisp": "name: a\n", "docs/z.yisp": "name: z\n"}

