property = "C41"
edits = [("cmd/krm.go", 'if ok && apiVersion == "krm.yisp.gammalab.net/v1" {', 'if ok && strings.HasPrefix(fmt.Sprint(apiVersion), "krm.yisp.gammalab.net/v1") {')]
needs = "an item whose apiVersion merely begins like the one of the function's own configuration (v1beta1, v10)"
breaks = "a resource of another version is dropped from the items of the script"
demo = r"""
cat > in.yaml <<'X'
apiVersion: config.kubernetes.io/v1
kind: ResourceList
functionConfig:
  spec:
    allowUntypedManifest: true
    yisp: |
      !yisp
      - lists.length
      - *items
items:
- {apiVersion: v1, kind: Pod}
- {apiVersion: krm.yisp.gammalab.net/v1, kind: Yisp}
- {apiVersion: krm.yisp.gammalab.net/v1beta1, kind: Other}
X
"$tmp/yisp" krm < in.yaml > "$tmp/out" && grep -qx 2 "$tmp/out"
"""
