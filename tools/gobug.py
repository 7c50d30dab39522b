"""gobug.py: development aid that writes seeded/<id>/ from an edit of /repo and
the body of a demonstration test."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WT", "/tmp/wt")  # a scratch copy of /repo, see trywt.sh
SIM = REPO + "/SmartCache/sim/"
DEMO = r'''#!/bin/bash
# Runs demo_test.go inside package %(pkg)s of the simulator (a build overlay:
# nothing is written in the repository).
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOENV=off GO111MODULE=on GOFLAGS="-mod=mod -buildvcs=false"
GO=/opt/veriftools/go1.27.3/bin/go; [ -x "$GO" ] || GO=go
sim=$PWD/SmartCache/sim
printf '{"Replace": {"%%s/%(pkg)s/zz_seeded_demo_test.go": "%%s/demo_test.go"}}' "$sim" "$here" > "$tmp/overlay.json"
cd "$sim" && "$GO" test -vet=off -count=1 -overlay "$tmp/overlay.json" -run '^TestSeededDemo$' ./%(pkg)s
'''
HEAD = '''package cache

import (
	"os"
	"testing"
	"time"
)

var _ = time.Unix
var _ = os.Remove

// in a scratch directory of its own
func chScratch(t *testing.T) {
	d := t.TempDir()
	old, _ := os.Getwd()
	if err := os.Chdir(d); err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { _ = os.Chdir(old) })
}

func demoCache(typ string, max float64, p InitParameters) Cache {
	if p.MaxNumDayDiff == 0 {
		p.MaxNumDayDiff, p.DeltaDaysStep = 1e6, 1e6
	}
	c := Create(typ, max, "M", p.FunctionTypeString, p.WfParams)
	InitInstance(typ, c, p)
	SetRegion(c, "")
	SetBandwidth(c, 10)
	return c
}

func get(c Cache, f int64, size float64, day int64) (bool, bool) {
	return GetFile(c, f, size, int64(1), 50., int64(1514764800)+day*86400, int64(0), int64(0), int64(0))
}

'''

def bug(id, prop, edits, body, needs, what, pkg="cache", head=HEAD, extra_imports=()):
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    assert subprocess.run(["git", "-C", REPO, "diff", "--quiet"]).returncode == 0, "dirty"
    try:
        for f, old, new in edits:
            p = f if f.startswith("/") else REPO + "/" + f[5:] if f.startswith("repo:") else SIM + f
            s = open(p).read()
            assert s.count(old) >= 1, (id, "no match", old)
            assert s.count(old) == 1, (id, "several matches", s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True).stdout
        fmt = subprocess.run(["git", "-C", REPO, "diff", "--name-only"], capture_output=True, text=True).stdout.split()
    finally:
        subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."])
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    h = head
    for i in extra_imports:
        h = h.replace('import (\n', 'import (\n\t"%s"\n' % i)
    open(os.path.join(d, "demo_test.go"), "w").write(h + "func TestSeededDemo(t *testing.T) {\n" + body.strip("\n") + "\n}\n")
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % {"pkg": pkg})


PYDEMO = r"""#!/bin/bash
# Runs demo.py against the working tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
root=$PWD
cd "$tmp" && REPO="$root" python3 "$here/demo.py"
"""


def pybug(id, prop, edits, body, needs, what):
    """Like bug() for the Python parts; files are relative to the repository."""
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    assert subprocess.run(["git", "-C", REPO, "diff", "--quiet"]).returncode == 0, "dirty"
    try:
        for f, old, new in edits:
            p = REPO + "/" + f
            s = open(p).read()
            assert s.count(old) == 1, (id, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."])
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.py"), "w").write(body.lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(PYDEMO)
