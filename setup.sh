#!/bin/bash
# Checks that the simulator builds here from the committed files; every check
# builds it again from /repo's working tree.
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=$(mktemp -d /tmp/boltsim.XXXXXX) || exit 3
trap 'rm -rf "$OUT"' EXIT
bash "$HERE/tools/build.sh" "$OUT" && "$OUT/bin/boltsim" one -profile msg -seed 1
