#!/bin/bash
# usage: seedtest.sh ID [check...]   validates planted bug ID and runs the checks (default: its property's) against it
root="$(cd "$(dirname "$0")/.." && pwd)"
id=$1; shift; d="$root/seeded/$id"
checks="$*"; [ -n "$checks" ] || checks=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --short)" ] || { echo "/repo dirty"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
cd /repo
r=""
bash "$d/demo.sh" >/tmp/demo.out 2>&1 && r="$r demo-clean:ok" || { r="$r demo-clean:FAIL"; tail -5 /tmp/demo.out; }
git apply "$d/patch.diff" || { echo "$id: does not apply"; exit 1; }
if [ -z "$SKIPTESTS" ]; then
bash /opt/vp/build.sh >/tmp/build.out 2>&1 && r="$r build:ok" || r="$r build:FAIL"
bash /opt/vp/test.sh /tmp/seed-tests.json >/dev/null 2>&1
r="$r tests:$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; d=json.load(open('/tmp/seed-tests.json'))
p=d.get('passed',d); p=set(p if isinstance(p,list) else [k for k,v in p.items() if v in('pass','passed',True)])
m=[t for t in b if t not in p]; print('ok' if not m else 'FAIL:'+','.join(map(str,m[:5])))
P
)"
fi
bash "$d/demo.sh" >/tmp/demo.out 2>&1 && r="$r demo-bug:NOT-FAILING" || r="$r demo-bug:fails($?)"
for c in $checks; do
  s=$(date +%s); "$root/check.sh" $c >/tmp/seed-check-$c.out 2>&1; rc=$?
  r="$r $c:rc=$rc($(( $(date +%s)-s ))s)"; grep -m1 VIOLATION /tmp/seed-check-$c.out
done
echo "$id:$r"
