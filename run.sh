#!/bin/bash
# usage: run.sh ID   - decides one property on /repo's current tree (VERIF_TIER=quick|thorough)
#        run.sh build - only builds the engine
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local VERIF_DIR="$here"
out="$here/bin/verify"
stale=0
[ -x "$out" ] || stale=1
if [ $stale = 0 ]; then
  for f in "$here"/engine/*.go "$here"/engine/go.mod; do [ "$f" -nt "$out" ] && stale=1; done
fi
if [ $stale = 1 ]; then
  mkdir -p "$here/bin"
  (cd "$here/engine" && CGO_ENABLED=0 go build -o "$out.$$" . && mv "$out.$$" "$out") || { echo "engine build failed"; exit 2; }
fi
[ "$1" = build ] && exit 0
export GOFLAGS="-mod=readonly -buildvcs=false"
exec "$out" check "$1"
