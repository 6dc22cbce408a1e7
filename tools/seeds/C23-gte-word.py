property = "C23"
edits = [("engine/apply.go", "operators[\"gte\"] = opGreaterThanOrEqual", "operators[\"gte\"] = opGreaterThan")]
needs = "the word form of >= on equal numbers"
breaks = "gte is > instead of >="
files = {"docs/main.yisp": """
!yisp ["gte", 2, 2]
"""}
