#!/bin/bash
# run.sh ID [tier]: decide property ID on the current source tree of /repo.
# Exit 0: the property holds on everything analysed; exit 1: VIOLATION line.
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
mkdir -p "$here/evidence"
if ! "$here/build.sh" >"$here/evidence/.build.log" 2>&1 || [ ! -x "$here/bin/checker" ]; then
  cat "$here/evidence/.build.log"
  echo "the checker cannot be built"
  exit 2
fi
. /opt/vp/env.sh
exec "$here/bin/checker" -repo "${VERIF_REPO:-/repo}" -verif "$here" -tier "$tier" -seed "${VERIF_SEED:-1}" "$id"
