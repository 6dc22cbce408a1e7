property = "C28"
edits = [("lib/k8s.go", "\t\t\t\t\treturn nil, core.NewEvaluationErrorWithParent(patchNode, \"failed to apply patch\", err)\n\t\t\t\t}\n\n", "\t\t\t\t\treturn nil, core.NewEvaluationErrorWithParent(patchNode, \"failed to apply patch\", err)\n\t\t\t\t}\n\t\t\t\tbreak\n")]
needs = "two resources with the same identity"
breaks = "only the first of them is patched"
files = {"docs/main.yisp": """
!yisp
- k8s.patch
- !quote
  - {apiVersion: v1, kind: A, metadata: {name: x}, n: 1}
  - {apiVersion: v1, kind: B, metadata: {name: x}, n: 2}
  - {apiVersion: v1, kind: A, metadata: {name: x}, n: 3}
- !quote
  - {apiVersion: v1, kind: A, metadata: {name: x}, p: true}
"""}
args = "--allow-untyped-manifest main.yisp"
