#!/bin/bash
# builds the analyzer; needs only the module cache
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh 2>/dev/null || true
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p bin out evidence
cd analyzer && go build -o ../bin/fontcheck .
