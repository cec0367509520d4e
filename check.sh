#!/bin/bash
# check.sh cNN [quick|thorough]: rebuilds the check from /repo's working tree and runs it with that tier's bounds.
here="$(cd "$(dirname "$0")" && pwd)"
bash "$here/mc/build.sh" "$1" || { echo "build failed" >&2; exit 2; }
export VERIF_DIR="$here" VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
exec "$here/mc/target/release/$1"
