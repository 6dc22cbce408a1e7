property = "C24"
edits = [("lib/files.go", "\t\tdirFs := os.DirFS(filepath.Dir(node.Attr.File()))\n\n\t\tpaths, err := doublestar.Glob(dirFs, entry)\n", "\t\tdirFs := os.DirFS(filepath.Dir(node.Attr.File()))\n\t\tif len(cdr) > 1 {\n\t\t\tdirFs = os.DirFS(filepath.Dir(cdr[0].Attr.File())) // one directory for all patterns\n\t\t}\n\n\t\tpaths, err := doublestar.Glob(dirFs, entry)\n")]
needs = "two patterns written in documents of different directories"
breaks = "the second pattern is matched below the directory of the first one's document"
files = {"docs/main.yisp": """
imported: !yisp [import, ["sub", "sub/lib.yisp"]]
---
!yisp
- lists.map
- [files.glob, "*.txt", *sub.pattern]
- [lambda, [x], *x.body]
""", "docs/sub/lib.yisp": """
pattern: &pattern "*.dat"
""", "docs/sub/a.dat": "in sub\n", "docs/b.txt": "top\n"}
