#!/bin/bash
# build /repo's working tree and run the stable tests
mkdir -p /tmp/w
bash /opt/vp/build.sh > /tmp/w/b.log 2>&1 || { echo BUILD FAILS; tail -20 /tmp/w/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/w/t.json > /tmp/w/tt.log 2>&1
python3 - <<'PY'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=set(json.load(open('/tmp/w/t.json'))['passed'])
print('stable',len(b),'missing',sorted(b-t)[:5])
PY
