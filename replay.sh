#!/bin/bash
# usage: replay.sh FILE      runs the case of one replay file against /repo's working tree
# exit 1 and a REPRODUCED line: it still fails; exit 0: it does not.
set -u
FILE="$(realpath "${1:?replay file}")"; SEED=1
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$HERE/build.sh"
ID="$(grep -o '"property": *"C[0-9]*"' "$FILE" | head -1 | grep -o 'C[0-9]*')"
build "$ID" || exit 2
"$WORK/pbt" -mode replay -file "$FILE" -root "$HERE/harness"
