#!/bin/bash
# trywt.sh [-c "C01 C02"] ID...: development aid, like trybug.sh but in a scratch
# copy of /repo (/tmp/wt), so that /repo itself stays untouched.
checks=
[ "$1" = -c ] && { checks=$2; shift 2; }
here=$(cd "$(dirname "$0")/.." && pwd)
wt=${WT:-/tmp/wt}
if [ ! -d "$wt" ]; then
    mkdir -p "$wt" && cp -a /repo/. "$wt/"
    mkdir -p "$wt.vp" && cp /opt/vp/*.sh /opt/vp/*.py /opt/vp/*.json "$wt.vp/" 2>/dev/null
    sed -i "s#/repo#$wt#g; s#/opt/vp#$wt.vp#g" "$wt.vp"/*.sh "$wt.vp"/*.py
fi
git -C "$wt" fetch -q "${SRC:-/repo}" HEAD && git -C "$wt" reset -q --hard FETCH_HEAD
for id in "$@"; do
    dir=$here/seeded/$id
    prop=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
    git -C "$wt" checkout -q -- .
    (cd "$wt" && timeout 300 bash "$dir/demo.sh" >"$wt.clean" 2>&1) || { echo "$id: DEMO FAILS ON CLEAN TREE"; tail -5 "$wt.clean"; continue; }
    git -C "$wt" apply "$dir/patch.diff" || { echo "$id: patch does not apply"; continue; }
    bash "$wt.vp/build.sh" >"$wt.build" 2>&1 || { echo "$id: BUILD FAILS"; tail -5 "$wt.build"; git -C "$wt" checkout -q -- .; continue; }
    bash "$wt.vp/test.sh" "$wt.tests.json" >/dev/null 2>&1
    t=$(python3 - "$wt.tests.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
t=json.load(open(sys.argv[1]))
bad=[x for x in b if x not in set(t.get('passed',[]))]
print('tests ok' if not bad else 'TESTS FAIL %s'%bad)
P
)
    s=$SECONDS
    if (cd "$wt" && timeout 300 bash "$dir/demo.sh" >"$wt.demo" 2>&1); then d="DEMO DOES NOT FAIL"; else d="demo fails ($((SECONDS-s))s): $(grep -v '^exit status\|^FAIL\|^$' "$wt.demo" | tail -1 | cut -c1-110)"; fi
    echo "$id [$prop]: $t; $d"
    for p in ${checks:-$prop}; do
        out=$(VERIF_REPO=$wt "$here/check" "$p" 2>&1); rc=$?
        echo "    check $p rc=$rc $(echo "$out" | grep -m1 -E 'VIOLATION|^OK' | cut -c1-120)"
    done
    git -C "$wt" checkout -q -- .
done
