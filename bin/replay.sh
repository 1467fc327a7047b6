#!/bin/bash
# replay.sh FILE: re-executes a recorded run exactly, against /repo's working tree.
here=$(cd "$(dirname "$0")/.." && pwd)
f=$(realpath "$1") || exit 2
bash "$here/bin/build.sh" || exit 3
b=release; grep -q '^# build=shipped' "$f" && b=shipped
cd "$here" && DSIM_HOME="$here" exec "$here/build/$b/dsim" replay "$f"
