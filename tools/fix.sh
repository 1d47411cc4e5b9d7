#!/bin/bash
# usage: tools/fix.sh "C10[,C16]" "what failed" "commit subject"   -- commits /repo's changes as a fix and records it
set -e
. /opt/vp/env.sh
cd /repo && gofmt -l $(git diff --name-only) ; go build ./... && git commit -qam "fix: $3"
h=$(git rev-parse --short=12 HEAD)
IFS=,; for p in $1; do echo "fixed: property=$p $h $2" >> /verif/known-findings.txt; done
git log --oneline | head -1
