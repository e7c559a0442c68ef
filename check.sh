#!/bin/bash
# usage: check.sh <property> [engine flags]   (run in /verif)
# Builds the engine when needed and decides one property on /repo's current tree.
set -u
cd "$(dirname "$0")"
D=$PWD
export CGO_ENABLED=0 GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
bash "$D/setup.sh" || exit 2
P=$1; shift
exec "$D/build/eng" -repo /repo -verif "$D" -prop "$P" "$@"
