#!/bin/bash
# Builds the checker from /repo's working tree: build.sh [OUTDIR]
. /opt/vp/env.sh
VERIF=$(cd "$(dirname "$0")/.." && pwd)
OUT=${1:-$VERIF/build}
mkdir -p "$OUT" || exit 3
(cd "$VERIF/mc/prep" && GOFLAGS= go build -buildvcs=false -o "$OUT/prep" .) || exit 3
rm -rf "$OUT/gen"
"$OUT/prep" -repo /repo -src "$VERIF/mc/go" -out "$OUT/gen" || exit 3
cd /repo || exit 3
go build -buildvcs=false -o "$OUT/neojhat" ./cmd/neojhat || exit 3
# The files tagged api call internal packages of neojhat directly; without them everything is
# judged by the command alone.
go build -buildvcs=false -tags api -overlay "$OUT/gen/overlay.json" -o "$OUT/verifmc" ./internal/verifmc 2>"$OUT/api.log" && exit 0
echo "note: internal interfaces have changed, checking through the command only: $(head -3 "$OUT/api.log" | tr '\n' ' ')" >&2
go build -buildvcs=false -overlay "$OUT/gen/overlay.json" -o "$OUT/verifmc" ./internal/verifmc || exit 3
