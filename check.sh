#!/bin/bash
# check.sh ID        decides property ID on /repo's current tree (VERIF_TIER, VERIF_SEED)
# check.sh replay F  runs again the case recorded in F
set -u
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GONOSUMDB=* GONOSUMCHECK=1
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=/root/go/pkg/mod
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
VERIF_DIR=$(cd "$(dirname "$0")" && pwd); export VERIF_DIR
VERIF_BIN_DIR=$(mktemp -d /tmp/verif.XXXXXX); export VERIF_BIN_DIR
cd "$VERIF_DIR/harness" || exit 2
[ "$1" = setup ] && { go build -o "$VERIF_BIN_DIR/harness" .; rc=$?; rm -rf "$VERIF_BIN_DIR"; exit $rc; }
race=()
[ "$1" = C16 ] && race=(-race)
[ "$1" = replay ] && grep -q '"property": "C16"' "$2" && race=(-race)
go build "${race[@]}" -o "$VERIF_BIN_DIR/harness" . || exit 2
if [ "$1" = replay ]; then
  exec "$VERIF_BIN_DIR/harness" replay "$2"
fi
exec "$VERIF_BIN_DIR/harness" run "$1"
