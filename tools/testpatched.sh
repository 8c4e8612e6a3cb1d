#!/bin/bash
# tools/testpatched.sh <seed ids...>: apply each patch to /repo, build, run the stable tests, undo
for id in "$@"; do
  d=/verif/seeded/$id
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh > /tmp/w/b.log 2>&1 && echo "$id builds" || { echo "$id BUILD FAILS"; tail -5 /tmp/w/b.log; }
  bash /opt/vp/test.sh /tmp/w/t.json > /tmp/w/tt.log 2>&1
  python3 - "$id" <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/w/t.json'))
def names(x):
    for k in ('passed','stable','tests','pass'):
        if isinstance(x,dict) and k in x: return set(map(str,x[k]))
    return set(map(str,x)) if isinstance(x,list) else set()
bp,tp=names(b),names(t)
print(sys.argv[1],'baseline',len(bp),'missing',sorted(bp-tp)[:5])
PY
  git -C /repo checkout -- .
done
bash /opt/vp/build.sh > /tmp/w/b.log 2>&1
