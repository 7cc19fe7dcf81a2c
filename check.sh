#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]  -- decides one property on /repo's working tree
cd "$(dirname "$0")" || exit 2
here=$PWD
. /opt/vp/env.sh
export GOSUMDB=off GOFLAGS=-mod=mod
if [ ! -x engine/engine ] || [ -n "$(find engine -name '*.go' -newer engine/engine -print -quit)" ]; then
  (cd engine && go build -buildvcs=false -o engine.tmp.$$ . && mv engine.tmp.$$ engine) || exit 2
fi
[ "$1" = build ] && exit 0
exec ./engine/engine -verif "$here" -repo "${VERIF_REPO:-/repo}" -tier "${2:-${VERIF_TIER:-quick}}" "$1"
