#!/bin/bash
# ./run.sh PROPERTY quick|thorough — builds the instrumented copy of /repo's working tree and runs one check.
ROOT=$(cd "$(dirname "$0")" && pwd)
P=$1; TIER=${2:-quick}
. /opt/vp/env.sh
export VERIF_ROOT=$ROOT VERIF_PROP=$P VERIF_TIER=$TIER VERIF_SEED=${VERIF_SEED:-1}
W=$(mktemp -d /tmp/verifmc.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
export TMPDIR=$W
FLAGS=
case " P18 P19 P27 P28 P29 " in *" $P "*) FLAGS=-maps;; esac
case " P03 P04 P24 P28 " in *" $P "*) FLAGS="$FLAGS -files";; esac
case " P30 " in *" $P "*) FLAGS=-api;; esac
cd "$ROOT/mc" || exit 2
go build -o "$W/instr" ./instr || exit 2
mkdir -p "$W/src"; "$W/instr" $FLAGS -mod "$ROOT/mc" /repo "$W/src" || exit 2
go test -c -vet=off -overlay "$W/src/overlay.json" -o "$W/mc.test" ./checks || exit 2
export VERIF_UNMODELLED=$W/src/unmodelled.txt
"$W/mc.test"
