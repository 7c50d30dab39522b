#!/usr/bin/env python3
"""design.py: writes DESIGN.md from design_head.md, the properties, a snapshot
of the evidence of a quick run on the unchanged tree (spec/coverage.json,
refreshed with --snapshot) and the planted bugs."""
import json, glob, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS
from oracles import ORACLE, MISSED

snap = os.path.join(here, "coverage.json")
if "--snapshot" in sys.argv:
    cov = json.load(open(snap)) if os.path.exists(snap) else {}
    for f in sorted(glob.glob(os.path.join(root, "evidence", "C*.json"))):
        e = json.load(open(f))
        if e["tier"] != "quick" or e["violations"] or not e["coverage"]["exhaustive"]:
            print("not taken:", f)
            continue
        c = e["coverage"]
        cov[e["property"]] = dict(wall=round(e["wall_s"], 1), n=sum(s["executions"] for s in c["suites"]),
                                  transitions=c["transitions"], states=c["states"],
                                  suites=[[s["name"], s["bounds"], s["executions"]] for s in c["suites"]])
    json.dump(cov, open(snap, "w"), indent=0, sort_keys=True)
cov = json.load(open(snap))
out = open(os.path.join(here, "design_head.md")).read()

fixes = []
for l in open(os.path.join(root, "known_findings.jsonl")):
    d = json.loads(l)
    assert d["status"] == "fixed"
    fixes.append("- %s: %s (`%s`)" % (d["property"], d["what"].split(" ", 3)[3], d["key"]))
out = out.replace("@FIXES@", "\n".join(fixes))

for p in sorted(PROPS, key=lambda p: p["id"]):
    i = p["id"]
    c = cov.get(i)
    out += "### %s %s\n\n%s\n\n" % (i, p["title"], p["statement"])
    out += "- *Enumerated*: %s\n" % p["quant"]
    out += "- *Oracle*: %s\n" % ORACLE[i]
    out += "- *Why the tests cannot settle it*: %s\n" % p["why"]
    out += "- *Limits*: %s\n" % p["note"].strip()
    if c:
        fam = []
        for name, bounds, n in c["suites"]:
            fam.append(name)
        shown = ", ".join("`%s`" % x for x in fam[:12]) + (" and %d more" % (len(fam) - 12) if len(fam) > 12 else "")
        out += "- *Quick check*: %d executions, %d transitions, %d distinct outcomes, %.0f s; %d suites: %s\n" % (
            c["n"], c["transitions"], c["states"], c["wall"], len(fam), shown)
    out += "\n"
out += open(os.path.join(here, "design_mid.md")).read()
out += "| planted bug | caught by | needs | note |\n|---|---|---|---|\n"
rows = []
for m in glob.glob(os.path.join(root, "seeded", "*", "meta.json")):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    note = "first missed: " + MISSED[i] if i in MISSED else ""
    rows.append((d["property"], i, d["needs"].replace("|", "/"), note))
for p, i, n, note in sorted(rows):
    out += "| %s | %s | %s | %s |\n" % (i, p, n, note)
open(os.path.join(root, "DESIGN.md"), "w").write(out)
