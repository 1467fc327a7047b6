#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds against /repo's working tree, then searches.
here=$(cd "$(dirname "$0")/.." && pwd)
exec 9> "$here/.lock"; flock 9
bash "$here/bin/build.sh" || exit 3
flock -u 9; exec 9>&-
cd "$here" || exit 3
DSIM_HOME="$here" exec "$here/build/release/dsim" check "$1" "${2:-${VERIF_TIER:-quick}}"
