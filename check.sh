#!/bin/bash
# check.sh ID [quick|thorough]   search for violations of one property
# check.sh replay FILE           replay a recorded violation
# check.sh determinism ID N      run N seeds twice and compare
V="$(cd "$(dirname "$0")" && pwd)"
B="${VERIF_BUILD:-$V/sim/.build}"
"$V/build.sh" >"/tmp/simbuild.$$" 2>&1 || { cat "/tmp/simbuild.$$" >&2; rm -f "/tmp/simbuild.$$"; echo "HARNESS: build failed" >&2; exit 3; }
rm -f "/tmp/simbuild.$$"
SEED="${VERIF_SEED:-1}"
case "$1" in
replay) exec "$B/sim" replay "$2" ;;
determinism) exec "$B/sim" determinism "$2" "$SEED" "${3:-400}" 8 ;;
esac
TIER="${2:-${VERIF_TIER:-quick}}"
if [ "$TIER" = thorough ]; then SECS="${VERIF_SECONDS:-600}"; else SECS="${VERIF_SECONDS:-25}"; fi
W="${VERIF_WORKERS:-$(nproc)}"
exec "$B/sim" check "$1" "$TIER" "$SEED" "${VERIF_OUT:-$V}" "$SECS" "$W"
