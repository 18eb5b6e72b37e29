#!/bin/bash
# usage: check.sh PROPERTY quick|thorough
# Builds the simulator from /repo's working tree and searches for a violation
# of the property. Exit 0: none. Exit 1: VIOLATION line. Exit 3: error.
PROP=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
HERE=$(cd "$(dirname "$0")" && pwd)
SECS=26
[ "$TIER" = thorough ] && SECS=600
SECS=${BOLTSIM_SECS:-$SECS}
OUT=$(mktemp -d /tmp/boltsim.XXXXXX) || exit 3
trap 'rm -rf "$OUT"' EXIT
T0=$(date +%s.%N)
if ! bash "$HERE/tools/build.sh" "$OUT" >"$OUT/build.log" 2>&1; then
	echo "cannot build the simulator from /repo:" >&2
	tail -n 40 "$OUT/build.log" >&2
	exit 3
fi
T1=$(date +%s.%N)
mkdir -p "$HERE/evidence" "$HERE/replays"
"$OUT/bin/boltsim" check -prop "$PROP" -tier "$TIER" -seed "$SEED" -secs "$SECS" \
	-build "$(awk "BEGIN{print $T1-$T0}")" -out "$HERE/evidence/$PROP.json" \
	-replays "$HERE/replays" -known "$HERE/known-findings.txt"
exit $?
