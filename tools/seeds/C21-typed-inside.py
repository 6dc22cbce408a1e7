property = "C21"
edits = [("core/util.go", "\t\terr := node.Type.Validate(node)\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\t}\n", "\t\terr := node.Type.Validate(node)\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\t\treturn nil // its members were checked along with it\n\t}\n")]
needs = "a typed value inside another typed value that leaves its type open"
breaks = "the annotation of the inner value is not checked"
demo = r"""
c="$HOME/.cache/yisp"; mkdir -p "$c/schemas" "$c/gvk"
printf list > "$c/gvk/_v1_List.txt"; printf thing > "$c/gvk/_v1_Thing.txt"
echo '{"type": "object", "properties": {"apiVersion": {"type": "string"}, "kind": {"type": "string"}, "items": {"type": "array"}}}' > "$c/schemas/list.json"
echo '{"type": "object", "properties": {"apiVersion": {"type": "string"}, "kind": {"type": "string"}, "size": {"type": "integer"}}}' > "$c/schemas/thing.json"
cat > main.yisp <<'X'
apiVersion: v1
kind: List
items:
  - {apiVersion: v1, kind: Thing, size: 3}
X
"$tmp/yisp" build main.yisp > "$tmp/out" 2> "$tmp/err" < /dev/null || { cat "$tmp/err"; exit 1; }
sed 's/size: 3/size: much/' main.yisp > bad.yisp
"$tmp/yisp" build bad.yisp > "$tmp/out" 2> "$tmp/err" < /dev/null
[ $? != 0 ]
"""
