#!/bin/bash
# Builds the simulator from /repo's working tree into $1 (a directory).
# usage: build.sh OUTDIR
set -e
OUT=$1
HERE=$(cd "$(dirname "$0")/.." && pwd)
REPO=${BOLTSIM_REPO:-/repo}
. /opt/vp/env.sh
export CGO_ENABLED=0
mkdir -p "$OUT/instr" "$OUT/bin"
(cd "$HERE/tools/instr" && GOFLAGS= go build -o "$OUT/bin/instr" .)
CURVE=
if [ -z "$BOLTSIM_SLOW_CURVE" ]; then
	CURVE=$(cd "$REPO" && GOFLAGS=-mod=readonly go list -m -f '{{.Dir}}' github.com/decred/dcrd/dcrec/secp256k1/v4 2>/dev/null)/curve.go || CURVE=
fi
(cd "$REPO" && GOFLAGS=-mod=readonly "$OUT/bin/instr" -repo "$REPO" -inject "$HERE/sim" -out "$OUT/instr" -overlay "$OUT/overlay.json" -fast "$HERE/tools/fast/curve.txt" -curve "$CURVE")
MOD=$(cd "$REPO" && GOFLAGS=-mod=readonly go list -m)
# The module index does not know about the overlay's added imports.
export GODEBUG=goindex=0
(cd "$REPO" && GOFLAGS=-mod=readonly go build -tags=nolog -overlay "$OUT/overlay.json" -ldflags=-checklinkname=0 -o "$OUT/bin/boltsim" "$MOD/verifsim/boltsim")
