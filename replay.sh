#!/bin/bash
# usage: replay.sh [-v] FILE
# Replays a recorded violation on /repo's working tree: exit 1 if it occurs.
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=$(mktemp -d /tmp/boltsim.XXXXXX) || exit 3
trap 'rm -rf "$OUT"' EXIT
bash "$HERE/tools/build.sh" "$OUT" >"$OUT/build.log" 2>&1 || { tail -n 40 "$OUT/build.log" >&2; exit 3; }
"$OUT/bin/boltsim" replay "$@"
