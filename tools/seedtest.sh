#!/bin/bash
# seedtest.sh <id>... : apply each seeded change to /repo, build, test, demo, run its property's check (CHECKS="C01 ..." to override), undo
cd /verif
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /repo && bash $d/demo.sh >/tmp/seed.out 2>&1) || { echo "$id: demo FAILS on the unchanged tree"; tail -3 /tmp/seed.out; continue; }
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  if [ -z "$NOTEST" ]; then
    bash /opt/vp/build.sh tests >/tmp/seed.b 2>&1 || { echo "$id: does not build"; tail -5 /tmp/seed.b; }
    bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
    python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/seed.json'))
def ps(x): 
    return set(x.get('passed') or [k for k,v in x.get('tests',x).items() if v in ('pass','passed',True)]) if isinstance(x,dict) else set(x)
miss=set(b)-ps(r)
print('$id: tests', 'all pass' if not miss else 'FAIL '+str(miss))
P
    (cd /repo && bash $d/demo.sh >/tmp/seed.out 2>&1) && echo "$id: demo does NOT fail with the patch"
  fi
  for c in ${CHECKS:-$p}; do
    checks/run $c >/tmp/seed.c 2>&1; rc=$?
    echo "$id: check $c exit $rc $(grep -a -E '^VIOLATION|^OK|^NO-ANSWER' /tmp/seed.c)"; grep -a -E 'FAILED OBL|violation:' /tmp/seed.c | cut -c1-200 | head -${LINES_:-4}
  done
  git -C /repo checkout -q -- .
done
[ -z "$NOTEST" ] && bash /opt/vp/build.sh tests >/dev/null 2>&1
