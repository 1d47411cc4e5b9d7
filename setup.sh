#!/bin/bash
# Warms the Go build cache so that the first check does not pay for a cold compile.
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
work="$(mktemp -d /tmp/verif-setup-XXXXXX)" || exit 1
trap 'rm -rf "$work"' EXIT
cp -r mc "$work/mc" && cd "$work/mc" && go build -o "$work/mcbin" ./cmd/mc
