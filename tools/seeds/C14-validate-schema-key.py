property = "C14"
edits = [("core/schema.go", "\t\t\t\tif key != \"$schema\" {\n\t\t\t\t\tleft.Set(key, item)\n\t\t\t\t}\n", "\t\t\t\tif key == \"$schema\" {\n\t\t\t\t\tm.Delete(key) // not a property\n\t\t\t\t} else {\n\t\t\t\t\tleft.Set(key, item)\n\t\t\t\t}\n")]
needs = "a map that names its schema and is checked against it"
breaks = "checking removes the entry that names the schema from the value"
demo = r"""
url=https://example.com/thing.json
mkdir -p "$HOME/.cache/yisp/schemas"
echo '{"type": "object", "properties": {"a": {"type": "integer"}}}' > "$HOME/.cache/yisp/schemas/$(printf %s "$url" | base64 -w0).json"
printf '$schema: %s\na: 1\n' "$url" > main.yisp
"$tmp/yisp" build main.yisp > "$tmp/out" 2> "$tmp/err" < /dev/null || { cat "$tmp/err"; exit 1; }
grep -q "schema.: $url\|schema: $url" "$tmp/out"
"""
