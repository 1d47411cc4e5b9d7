#!/bin/bash
# Runs main.go (beside this file) as a package of the module in the current directory.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOPROXY=off GOTOOLCHAIN=local
tmp="$(mktemp -d)" || exit 0
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go"}}' "$PWD" "$here" > "$tmp/o.json"
go build -overlay "$tmp/o.json" -o "$tmp/demo" ./zz_demo || exit 3
cd "$tmp" && timeout 120 "$tmp/demo"
