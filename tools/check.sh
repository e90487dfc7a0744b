#!/bin/bash
# check.sh <property> [--replay FILE]: rebuilds the harness against /repo, then decides one property.
here=$(cd "$(dirname "$0")/.." && pwd)
log=$(mktemp)
if ! "$here/tools/build.sh" >"$log" 2>&1; then
  tail -40 "$log"; rm -f "$log"; echo "build failed"; exit 2
fi
rm -f "$log"
# the code under test prints every header it sees
VERIF_DIR="$here" exec "$here/target/release/vharness" "$@" 2>/dev/null
