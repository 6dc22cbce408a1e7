property = "C03"
edits = [("lib/files.go", "\tbody, err := os.ReadFile(path)\n", "\tbody, err := readShared(path)\n"),
 ("lib/files.go", "func opReadAll(", "// readShared reads a file, also one that another process is about to write\nfunc readShared(path string) ([]byte, error) {\n\tfile, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)\n\tif err != nil {\n\t\treturn os.ReadFile(path)\n\t}\n\tdefer file.Close()\n\treturn io.ReadAll(file)\n}\n\nfunc opReadAll("),
 ("lib/files.go", "import (\n\t\"fmt\"\n", "import (\n\t\"fmt\"\n\t\"io\"\n")]
needs = "reading a file that does not exist in a writable directory"
breaks = "reading a missing file creates it, empty, and is no error"
demo = r'''
cat > main.yisp <<'X'
a: !yisp [files.read, missing.txt]
X
"$tmp/yisp" build main.yisp > "$tmp/out" 2> "$tmp/err"
[ $? != 0 ] && [ ! -e missing.txt ]
'''
