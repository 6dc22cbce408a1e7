#!/bin/bash
# usage: check.sh PROPERTY...   decides properties on the current source of /repo
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
bin="$here/bin/checker"
if [ ! -x "$bin" ] || [ -n "$(find "$here/checker" -newer "$bin" -name '*.go' -print -quit)" ]; then
  mkdir -p "$here/bin"
  (cd "$here/checker" && go build -o "$bin" .) || { echo "checker does not build" >&2; exit 2; }
fi
export VERIF_DIR="$here"
ids=$(IFS=,; echo "$*")
exec "$bin" -property "$ids"
