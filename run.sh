#!/bin/bash
# usage: run.sh PROPERTY   decides one property from /repo's current source
cd "$(dirname "$0")" || exit 2
verif=$PWD
. /opt/vp/env.sh 2>/dev/null || true
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
repo=${REPO:-/repo}
(cd analyzer && go build -o "$verif/bin/fontcheck" .) || { echo "the analyzer does not build"; exit 2; }
exec "$verif/bin/fontcheck" -repo "$repo" -verif "$verif" -prop "$1"
