#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the engine if needed and decides one property on /repo's working tree.
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/bin:/bin:$PATH
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off CGO_ENABLED=0
bin="$VERIF_DIR/bin/vcsym"
mkdir -p "$VERIF_DIR/bin" "$VERIF_DIR/evidence"
if [ ! -x "$bin" ] || [ -n "$(find "$VERIF_DIR/engine" -newer "$bin" -name '*.go' -print -quit)" ]; then
  (cd "$VERIF_DIR/engine" && go build -o "$bin.$$" . && mv -f "$bin.$$" "$bin") || { echo "engine build failed" >&2; exit 2; }
fi
[ "$1" = setup ] && exit 0
exec "$bin" check "$1" -tier "${2:-quick}"
