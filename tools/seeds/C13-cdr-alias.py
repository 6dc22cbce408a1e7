property = "C13"
edits = [("lib/lists.go", "\trestElements := make([]any, len(arr)-1)\n\tcopy(restElements, arr[1:])\n\n\treturn &core.YispNode{\n\t\tKind:  core.KindArray,\n\t\tValue: restElements,\n", "\treturn &core.YispNode{\n\t\tKind:  core.KindArray,\n\t\tValue: arr[1:],\n")]
needs = "the tail of a named list is changed in place by a patch and the list is read again afterwards"
breaks = "lists.cdr hands out a window on its argument's storage, so patching the tail changes the list it came from"
files = {"docs/main.yisp": """
list: &list [1, 2, 3]
tail: !yisp [maps.patch, [lists.cdr, *list], !quote [{op: replace, path: /0, value: 9}]]
after: !yisp [lists.map, *list, [lambda, [x], *x]]
"""}

