#!/bin/bash
# build.sh: builds the checker from the committed sources (offline, vendored modules).
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
mkdir -p "$here/bin" "$here/evidence"
cd "$here/checker" || exit 2
exec 9>"$here/bin/.lock"
flock 9
stamp="$(cat ./*.go go.mod go.sum | sha256sum)"
if [ -x "$here/bin/checker" ] && [ "$(cat "$here/bin/.stamp" 2>/dev/null)" = "$stamp" ]; then exit 0; fi
: >"$here/bin/.stamp"
GOFLAGS=-mod=vendor go build -o "$here/bin/checker" . || exit 2
echo "$stamp" >"$here/bin/.stamp"
