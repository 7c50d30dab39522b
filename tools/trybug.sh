#!/bin/bash
# trybug.sh ID [check...]: development aid.  Applies seeded/ID/patch.diff to
# /repo, builds, runs the stable tests, the demo and the checks of its property
# (or the given ones), and undoes the change.
id=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
dir=$here/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
undo() { git -C /repo checkout -q -- .; }
trap undo EXIT
git -C /repo diff --quiet || { echo "/repo is dirty"; trap - EXIT; exit 2; }
(cd /repo && bash "$dir/demo.sh" >/tmp/demo.clean 2>&1) || { echo "$id: DEMO FAILS ON CLEAN TREE"; tail -5 /tmp/demo.clean; exit 1; }
git -C /repo apply "$dir/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/bug.build 2>&1 || { echo "$id: BUILD FAILS"; tail -5 /tmp/bug.build; exit 1; }
bash /opt/vp/test.sh /tmp/bug.tests.json >/dev/null 2>&1
python3 - "$id" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
t=json.load(open('/tmp/bug.tests.json'))
p=set(t.get('passed',t.get('pass',[])))
bad=[x for x in b if x not in p]
print(sys.argv[1]+':', 'tests ok' if not bad else 'TESTS FAIL %s'%bad)
P
if (cd /repo && timeout 300 bash "$dir/demo.sh" >/tmp/demo.bug 2>&1); then echo "$id: DEMO DOES NOT FAIL"; else echo "$id: demo fails as it should: $(tail -1 /tmp/demo.bug | cut -c1-150)"; fi
for p in ${@:-$prop}; do
  out=$("$here/check" "$p" 2>&1); rc=$?
  echo "$id: check $p rc=$rc $(echo "$out" | grep -m1 -E 'VIOLATION|^OK' | cut -c1-120)"
done
