#!/bin/bash
# builds the checker from the committed sources
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
mkdir -p "$here/bin" "$here/evidence"
cd "$here/checker" && go build -o "$here/bin/checker" .
