#!/usr/bin/env python3
"""mkoverlay.py VERIF REPO SCRATCH: prints the go build overlay.

The model checker's sources appear as package verifmc of the simulator's
module.  The two files that pre-size maps and slices for half a million files
are replaced by copies of the working tree's own text with only that capacity
hint reduced, so that a fresh cache per explored history is affordable; if the
hint is not found the original file is used as it is.
"""
import glob, json, os, re, sys
verif, repo, scratch = sys.argv[1:4]
sim = os.path.join(repo, "SmartCache/sim")
rep = {}
for f in sorted(glob.glob(os.path.join(verif, "mc", "*.go"))):
    rep[os.path.join(sim, "verifmc", os.path.basename(f))] = f
hint = re.compile(r"^(\s*(?:const\s+)?estimatedNumFiles\s*(?:int\s*)?=\s*)1\s*<<\s*19\s*$", re.M)
n = 0
for root, _, names in os.walk(os.path.join(sim, "cache")):
    for name in names:
        if not name.endswith(".go") or name.endswith("_test.go"):
            continue
        p = os.path.join(root, name)
        text = open(p, encoding="utf-8").read()
        new, k = hint.subn(r"\g<1>1 << 4", text)
        if k:
            q = os.path.join(scratch, "shrunk_%d.go" % n)
            n += 1
            open(q, "w", encoding="utf-8").write(new)
            rep[p] = q
json.dump({"Replace": rep}, sys.stdout)
