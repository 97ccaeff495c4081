#!/bin/bash
# check.sh ID: builds the monitor of property ID from /repo's working tree and runs it.
set -u
cd /verif/harness || exit 2
export GOPROXY=off GOFLAGS=-mod=readonly GOTOOLCHAIN=local GOSUMDB=off GONOSUMDB='*' CGO_ENABLED=${CGO_ENABLED:-1}
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
id=$1
flags=
case $id in
C01|C02|C03|C04|C05|C06) cmd=pmon ;;
C16|C17|C27|C30) cmd=tmon ;;
C24) cmd=cmon ;;
C20) cmd=imon ;;
C31) cmd=hmon ;;
C21|C22) cmd=rmon ;;
C18|C19|C23|C25|C26|C07|C08|C09|C10|C11|C12|C13|C14|C15|C28|C29) cmd=gmon ;;
*) echo "unknown property $id" >&2; exit 2 ;;
esac
case $id in
C05|C26) flags=-race ;;
esac
bin=$(mktemp -d /tmp/verif-bin-XXXXXX) || exit 2
mkdir -p scratch
VERIF_SCRATCH=$(mktemp -d /verif/harness/scratch/runXXXXXX) || exit 2
export VERIF_SCRATCH
trap 'rm -rf "$bin" "$VERIF_SCRATCH"' EXIT
if ! go build $flags -overlay overlay.json -o "$bin/$cmd" "./cmd/$cmd"; then
	echo "HARNESS: build failed" >&2
	exit 2
fi
# Keeps a runaway allocation from taking the machine down; the race detector
# needs the address space.
[ -n "$flags" ] || ulimit -v 25165824
"$bin/$cmd" "$id"
