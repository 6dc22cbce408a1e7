property = "C08"
edits = [("core/schema.go", "\t\tif s.Returns != nil && fn.Returns != nil {\n\t\t\tif !s.Returns.Equals(fn.Returns) {\n", "\t\tif s.Returns != nil {\n\t\t\tif fn.Returns == nil && s.Returns.Type != \"any\" || !s.Returns.Equals(fn.Returns) {\n")]
needs = "a function without a declared result where the type of a function with a result is expected"
breaks = "the absent type is read for the message"
demo = r"""
cat > main.yisp <<'X'
num: !yisp &num [schema, {type: integer}]
---
fn: !yisp &fn [schema, {type: function, arguments: [], returns: {type: integer}}]
---
apply: !yisp &apply [lambda, [!fn f], 1]
---
out: !yisp [*apply, [lambda, [], 1]]
X
"$tmp/yisp" build main.yisp > "$tmp/out" 2> "$tmp/err" < /dev/null
! grep -q 'panic:\|goroutine' "$tmp/err" && [ $(grep -c 'out: 1' "$tmp/out") = 1 ]
"""
