#!/bin/bash
# replay.sh <replay.json>: re-run one recorded counterexample without the explorer.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" && ./build.sh && VERIF_DIR="$here" exec "$here/mc/target/debug/mc" replay "$1"
