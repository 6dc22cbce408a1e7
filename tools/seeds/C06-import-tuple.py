property = "C06"
edits = [("engine/eval.go", "if len(tuple) != 2 {", "if len(tuple) > 2 {")]
needs = "an import whose pair has fewer than two members"
breaks = "the missing member is read beyond the end of the list"
demo = r"""
cat > main.yisp <<'X'
!yisp [import, ["only"]]
X
"$tmp/yisp" build main.yisp > "$tmp/out" 2> "$tmp/err" < /dev/null
[ $? != 0 ] && ! grep -q 'panic:\|goroutine' "$tmp/err"
"""
