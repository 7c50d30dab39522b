"""Development aid: planted bugs all of whose removed lines were added by this
work's own /repo commits (those do not count)."""
import subprocess, glob, os, re
base = subprocess.check_output("git -C /repo log --format=%H | tail -1", shell=True, text=True).strip()
for d in sorted(glob.glob("/verif/seeded/*")):
    f = None; ok = False; n = 0; 
    for l in open(d + "/patch.diff"):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("@@"): ln = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            n += 1
            b = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "-l", "-L", "%d,%d" % (ln, ln), "HEAD", "--", f], text=True)
            if base[:35] in b.split()[0]: ok = True
            ln += 1
        elif l.startswith(" "): ln += 1
    if n and not ok: print(os.path.basename(d))
