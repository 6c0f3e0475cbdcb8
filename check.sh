#!/bin/bash
# usage: check.sh PROPERTY TIER      (VERIF_SEED in the environment; default 1)
# Rebuilds the harness against /repo's working tree and runs one property.
# exit 0: held; exit 1 and a VIOLATION line: broken; exit 2: error of the check.
# For development only: PBT_REPO=DIR checks another tree, PBT_OUT=DIR keeps evidence and replays there,
# PBT_SCALE=X multiplies the number of cases.
set -u
ID="${1:?property}"; TIER="${2:-${VERIF_TIER:-quick}}"; SEED="${VERIF_SEED:-1}"
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$HERE/build.sh"
build "$ID" || exit 2
"$WORK/pbt" -mode run -prop "$ID" -tier "$TIER" -seed "$SEED" -root "$HERE/harness" -scale "${PBT_SCALE:-1}"
