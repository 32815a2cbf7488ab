#!/bin/bash
# check.sh <property> [quick|thorough]: build against /repo, decide one property.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 3
tier=${2:-${VERIF_TIER:-quick}}
./build.sh 9>&- || exit 3
export VERIF_DIR="$here"
limit=840; [ "$tier" = thorough ] && limit=3600
exec timeout -k 10 $limit "$here/mc/target/debug/mc" check "$1" "$tier"
