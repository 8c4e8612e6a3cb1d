#!/bin/bash
# tools/seedtest.sh <seed id> [nocheck]: confirm a planted bug in a scratch copy: builds, stable tests pass, demo 0 without / nonzero with; then run its check
set -u
id=$1; d=/verif/seeded/$id; W=$(mktemp -d /tmp/seed.XXXX)
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
mkdir $W/repo; cp -a /repo/inc /repo/src /repo/tests /repo/CMakeLists.txt /repo/cmake /repo/docs $W/repo/ 2>/dev/null
( cd /repo && git ls-files | grep -v -E '^(inc|src|tests|cmake|docs)/' | cpio -pdm --quiet $W/repo 2>/dev/null )
cd $W/repo
bash $d/demo.sh >/dev/null 2>$W/err && echo "$id demo clean: ok" || { echo "$id demo clean: FAILS"; cat $W/err | head; }
git apply --unsafe-paths --directory=$W/repo $d/patch.diff 2>/dev/null || patch -s -p1 < $d/patch.diff || echo "$id PATCH FAILED"
bash $d/demo.sh >/dev/null 2>&1 && echo "$id demo patched: STILL PASSES" || echo "$id demo patched: ok (fails)"
if [ "${2:-}" != nocheck ]; then
  cp -r /verif/bin /verif/engine /verif/contracts /verif/stubs /verif/stubs_io $W/ ; cp /verif/known_findings.json $W/ 2>/dev/null
  ( cd $W && VP_REPO=$W/repo timeout 900 bin/check $prop > $W/log 2>&1; rc=$?; grep -a VIOLATION $W/log | head -3; echo "$id check $prop exit $rc"; [ $rc = 1 ] || tail -5 $W/log )
fi
rm -rf $W
