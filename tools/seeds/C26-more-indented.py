property = "C26"
edits = [("internal/yaml/emitterc.go", "				leading_spaces = is_blank(value, i)\n			}\n			if !breaks && is_space", "				leading_spaces = is_space(value, i)\n			}\n			if !breaks && is_space")]
needs = "a folded text in which a line begins with a tab, followed by one that does not"
breaks = "an additional line break is written behind the line, so the text reads back as a different one"
files = {"docs/main.yisp": """
a: >
  one
  \tcode
  two
  three
b: 1
"""}
