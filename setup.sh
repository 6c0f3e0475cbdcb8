#!/bin/bash
# Warms the build cache: both variants of the harness and the server (the checks rebuild them themselves).
set -u
SEED=1
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$HERE/build.sh"
build C24 && build C26 || exit 2
"$WORK/pbt" -mode list
