#!/bin/bash
# Builds the symbolic execution engine into /verif/build (ignored by git).
set -eu
cd "$(dirname "$0")"
export CGO_ENABLED=0 GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOTOOLCHAIN=local
mkdir -p build
if [ ! -x build/eng ] || [ -n "$(find engine -name '*.go' -newer build/eng -print -quit)" ]; then
  (cd engine && go build -o ../build/eng.tmp . && mv ../build/eng.tmp ../build/eng)
fi
