property = "C41"
edits = [("cmd/krm.go", "\t\t\titems = append(items, item)\n", "\t\t\tif n := len(items); n > 0 && reflect.DeepEqual(items[n-1], item) {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\titems = append(items, item)\n"),
 ("cmd/krm.go", '\t"path/filepath"\n', '\t"path/filepath"\n\t"reflect"\n')]
needs = "two equal items one after the other"
breaks = "the second one is dropped, so scripts that count or index the items see another list"
demo = r"""
cat > in.yaml <<'X'
functionConfig:
  spec:
    allowUntypedManifest: true
    yisp: |
      !yisp
      - lists.length
      - *items
items:
- {a: 1}
- {b: 1}
- {b: 1}
- {a: 1}
X
"$tmp/yisp" krm < in.yaml > "$tmp/out" && grep -qx 4 "$tmp/out"
"""
