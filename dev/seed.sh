#!/bin/bash
# dev/seed.sh ID : tries the planted bug seeded/ID (patch, demo, tests, checks) on /repo and undoes it. SKIP=1 skips the tests.
id=$1; shift; d=$(cd "$(dirname "$0")/../seeded/$id" && pwd)
cp "$(dirname "$0")"/demo/{rec.h,rec.cpp,pfdemo.h,demo.sh} $d/ 2>/dev/null
cd /repo; [ -z "$(git status --porcelain)" ] || { echo dirty; exit 3; }
[ -n "$BASE" ] && { bash $d/demo.sh >/tmp/seed.base 2>&1; echo "$id base demo: $?"; }
git apply $d/patch.diff || exit 3
bash /opt/vp/build.sh > /tmp/seed.build 2>&1 || echo "BUILD FAILS"
bash $d/demo.sh >/tmp/seed.out 2>&1; echo "$id patched demo: $? $(tail -1 /tmp/seed.out | cut -c1-150)"
[ -z "$SKIP" ] && { bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
bp=b['stable']
print('lost tests:', sorted(set(bp)-set(r['passed']))[:5])
P
}
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
(cd /verif; for q in ${@:-$p}; do python3 check.py $q | cut -c1-230 | head -4; done)
git -C /repo checkout -- .
