property = "C10"
edits = [("cmd/cachekubeschemas.go", "\t\t\tfmt.Fprintf(os.Stderr, \"Error saving schemas: %v\\n\", err)\n\t\t\tos.Exit(1)\n", "\t\t\tfmt.Fprintf(os.Stderr, \"Error saving schemas: %v\\n\", err)\n\t\t\treturn\n")]
needs = "a schema that cannot be saved"
breaks = "caching the schemas ends with status zero though it stopped half way"
demo = r"""
mkdir bin
printf '#!/bin/sh\necho "{\\"definitions\\": {\\"a\\": null}}"\n' > bin/kubectl
chmod +x bin/kubectl
export PATH="$PWD/bin:$PATH"
printf '\n' | "$tmp/yisp" cache-kube-schemas > "$tmp/out" 2> "$tmp/err"
[ $? != 0 ] && grep -q 'Error saving' "$tmp/err"
"""
