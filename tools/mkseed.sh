#!/bin/bash
# usage: mkseed.sh ID PROPERTY "needs" "what it breaks"
# Captures /repo's working-tree diff as planted bug ID and restores /repo. main.go must be in seeded/ID already.
set -e
root="$(cd "$(dirname "$0")/.." && pwd)"
d="$root/seeded/$1"; mkdir -p "$d"
git -C ${REPO:-/repo} diff > "$d/patch.diff"
git -C ${REPO:-/repo} checkout -q -- .
[ -s "$d/patch.diff" ] || { echo "empty diff"; exit 1; }
cp "$root/tools/demo.sh" "$d/demo.sh"; chmod +x "$d/demo.sh"
python3 - "$d/meta.json" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
P
# changed lines must be original ones
python3 - "$d/patch.diff" <<'P'
import sys,subprocess,re
base=subprocess.run("git -C /repo rev-list --max-parents=0 HEAD",shell=True,capture_output=True,text=True).stdout.strip()
f=None
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): f=l[6:].strip(); src=subprocess.run(["git","-C","/repo","show",f"{base}:{f}"],capture_output=True,text=True).stdout.split('\n')
    elif l.startswith('-') and not l.startswith('---') and l[1:].rstrip('\n') not in src: print("NOT ORIGINAL:",f,l.rstrip())
P
