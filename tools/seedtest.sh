#!/bin/bash
# tools/seedtest.sh <id>: confirms a planted bug in a scratch copy (builds, tests pass, demo) and
# runs its check against it
id="$1"; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is dirty"; exit 2; }
trap 'git -C /repo checkout -- .' EXIT
if [ "$2" != fast ]; then
  (cd /repo && bash $d/demo.sh >/tmp/d.log 2>&1) && echo "demo passes on the unchanged tree" || { echo "DEMO FAILS ON CLEAN"; tail -5 /tmp/d.log; exit 1; }
fi
git -C /repo apply $d/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
if [ "$2" != fast ]; then
  bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo "DOES NOT BUILD"; tail -20 /tmp/b.log; exit 1; }
  bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
  python3 -c "
import json;b=json.load(open('/tmp/o.json'));s=json.load(open('/opt/vp/BASELINE.json'));m=set(s['stable'])-set(b['passed']);print('tests: all pass' if not m else 'TESTS FAIL %s'%m)"
  (cd /repo && bash $d/demo.sh >/tmp/d.log 2>&1) && echo "DEMO PASSES WITH THE BUG" || { echo "demo fails with the bug: $(grep -E 'panicked|assert|left|right' /tmp/d.log | head -3)"; }
fi
cd /verif && python3 check.py $prop
