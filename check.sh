#!/bin/bash
# usage: check.sh ID [replay.json]   (VERIF_TIER=quick|thorough)
# Builds the checker against /repo's working tree and runs one property's check.
set -u
root="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$root"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS
work="$(mktemp -d /tmp/verif-build-XXXXXX)" || exit 2
shm=""
[ -d /dev/shm ] && shm="$(mktemp -d /dev/shm/verif-XXXXXX 2>/dev/null)"
export VERIF_SCRATCH="${shm:-$work}" VERIF_SRC="$work/mc"
trap 'rm -rf "$work" ${shm:+"$shm"}' EXIT
cp -r "$root/mc" "$work/mc" || exit 2
cd "$work/mc" || exit 2
go build -o "$work/mcbin" ./cmd/mc || { echo "build failed"; exit 2; }
cd "$root" || exit 2
"$work/mcbin" run "$@"
exit $?
