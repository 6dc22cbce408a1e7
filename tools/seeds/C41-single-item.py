property = "C41"
edits = [("cmd/krm.go", "\t\titemNodes.IsDocumentRoot = true\n", "\t\titemNodes.IsDocumentRoot = len(items) != 1\n")]
needs = "exactly one item that a script hands on"
breaks = "a script that hands on its items renders a list of one manifest instead of the manifest"
demo = r"""
cat > in.yaml <<'X'
functionConfig:
  spec:
    allowUntypedManifest: true
    yisp: |
      !yisp [progn, *items]
items:
- {apiVersion: v1, kind: Pod}
X
"$tmp/yisp" krm < in.yaml > "$tmp/out" && ! grep -q '^- ' "$tmp/out"
"""
