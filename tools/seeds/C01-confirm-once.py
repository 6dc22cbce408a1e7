property = "C01"
edits = [("lib/exec.go", "\tif !allowCmd {\n", "\tif !allowCmd && !confirmed {\n"),
 ("lib/exec.go", "\t\t\treturn nil, core.NewEvaluationError(cdr[0], fmt.Sprintf(\"failed to read input: %v\", err))\n\t\t}\n", "\t\t\treturn nil, core.NewEvaluationError(cdr[0], fmt.Sprintf(\"failed to read input: %v\", err))\n\t\t}\n\t\tconfirmed = true\n"),
 ("lib/exec.go", "func opGoRun(", "// confirmed is set once the user has confirmed a command of this run.\nvar confirmed bool\n\nfunc opGoRun(")]
needs = "a document with two commands, where only the first is confirmed"
breaks = "confirming one command allows all later ones"
demo = r'''
cat > main.yisp <<'X'
a: !yisp [exec.cmd, {cmd: echo, args: !quote ["1"], asString: true}]
b: !yisp [exec.cmd, {cmd: touch, args: !quote ["second"], asString: true}]
X
printf '\n' | "$tmp/yisp" build main.yisp > "$tmp/out" 2> "$tmp/err"
[ $? != 0 ] && [ ! -e second ]
'''
