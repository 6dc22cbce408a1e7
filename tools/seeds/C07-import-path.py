property = "C07"
edits = [("engine/eval.go", "\t\t\t\t\trelpath, ok := relpathNode.Value.(string)\n\t\t\t\t\tif !ok {\n\t\t\t\t\t\treturn nil, core.NewEvaluationError(node, fmt.Sprintf(\"invalid path type: %T\", relpathNode.Value))\n\t\t\t\t\t}\n", "\t\t\t\t\tvar relpath string\n\t\t\t\t\tif relpathNode.Kind == core.KindArray { // several places to look in\n\t\t\t\t\t\trelpath = relpathNode.Value.([]any)[0].(string)\n\t\t\t\t\t} else if relpath, ok = relpathNode.Value.(string); !ok {\n\t\t\t\t\t\treturn nil, core.NewEvaluationError(node, fmt.Sprintf(\"invalid path type: %T\", relpathNode.Value))\n\t\t\t\t\t}\n")]
needs = "an import with a list in place of the path"
breaks = "the members of the list are taken for strings"
demo = r"""
cat > main.yisp <<'X'
!yisp [import, ["name", ["a.yisp"]]]
X
"$tmp/yisp" build main.yisp > "$tmp/out" 2> "$tmp/err" < /dev/null
[ $? != 0 ] && ! grep -q 'panic:\|goroutine' "$tmp/err"
"""
