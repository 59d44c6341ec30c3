#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the engine if needed and decides one property of /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"
tier="${2:-${VERIF_TIER:-quick}}"
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod
bin="$here/engine/bin/gosmt"
mkdir -p "$here/engine/bin"
build() { ( cd "$here/engine" && go build -o "bin/gosmt.$$" . && mv -f "bin/gosmt.$$" "$bin" ); }
if [ "$prop" = build ]; then build; exit $?; fi
if [ ! -x "$bin" ] || [ -n "$(find "$here/engine" -name '*.go' -newer "$bin" -print -quit)" ]; then
  build || { echo "engine build failed"; exit 2; }
fi
exec "$bin" -verif "$here" -prop "$prop" -tier "$tier" "${@:3}"
