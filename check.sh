#!/bin/bash
# usage: check.sh <property> <quick|thorough>
# exit 0: held on everything explored; 1: VIOLATION line(s); anything else: no answer
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
san=
[ "$1" = C25 ] && san=san
"$VERIF/build.sh" $san || exit 2
exec "$VERIF/.build/debug/vh" run "$1" "${2:-quick}" "${VERIF_SEED:-1}" "$VERIF"
