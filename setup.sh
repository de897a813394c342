#!/bin/bash
# Warms the build cache: builds the rewriter and the checks once from /repo's working tree.
ROOT=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
W=$(mktemp -d /tmp/verifmc.XXXXXX) || exit 1
trap 'rm -rf "$W"' EXIT
mkdir "$W/src"
cd "$ROOT/mc" || exit 1
go build -o "$W/instr" ./instr && "$W/instr" -mod "$ROOT/mc" /repo "$W/src" && go test -c -vet=off -overlay "$W/src/overlay.json" -o "$W/mc.test" ./checks
