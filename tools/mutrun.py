"""mutrun.py MUTANTS OUT [-j N] [-t SECONDS]: development aid.  Applies every
mutant of the list (tools/mutate) to a scratch copy of /repo, builds the checker
and runs the properties on it until one is violated; survivors are written to
OUT with the properties that were tried."""
import argparse, collections, json, os, queue, random, shutil, subprocess, sys, threading, time
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here + "/spec")
from props import PROPS
ap = argparse.ArgumentParser()
ap.add_argument("mutants"); ap.add_argument("out")
ap.add_argument("-j", type=int, default=4); ap.add_argument("-t", type=int, default=40)
ap.add_argument("-n", type=int, default=0); ap.add_argument("--props", default="")
ap.add_argument("--seed", type=int, default=1)
a = ap.parse_args()
muts = [json.loads(l) for l in open(a.mutants)]
done = set()
if os.path.exists(a.out):
    for l in open(a.out):
        d = json.loads(l); done.add((d["file"], d["off"], d["new"]))
muts = [m for m in muts if (m["file"], m["off"], m["new"]) not in done]
random.Random(a.seed).shuffle(muts)
if a.n: muts = muts[:a.n]
engines = {p["id"]: subprocess.check_output(["python3", here + "/engine.py", p["id"]], text=True).strip() for p in PROPS}
WALL = {i: v["wall"] for i, v in json.load(open("/tmp/mut/wall.json")).items()} if os.path.exists("/tmp/mut/wall.json") else {}
score = collections.defaultdict(collections.Counter)   # func -> prop kills
fscore = collections.defaultdict(collections.Counter)
q = queue.Queue(); [q.put(m) for m in muts]
lock = threading.Lock(); out = open(a.out, "a")
def worker(k):
    base = "/tmp/mut/%d.%d" % (os.getpid(), k)
    shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
    subprocess.check_call(["git", "clone", "-q", "/repo", base + "/repo"])
    subprocess.check_call("mkdir -p %s/verif && cd %s && cp -a check engine.py mkoverlay.py mc py qmc spec known_findings.jsonl %s/verif/ && mkdir -p %s/verif/evidence %s/verif/replays" % (base, here, base, base, base), shell=True)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        rel = os.path.relpath(m["file"], "/repo")
        path = base + "/repo/" + rel
        src = open(path, "rb").read()
        assert src[m["off"]:m["off"] + m["len"]].decode() == m["old"], m
        open(path, "wb").write(src[:m["off"]] + m["new"].encode() + src[m["off"] + m["len"]:])
        t0 = time.time(); res = dict(m); tried = []
        if rel.startswith("SmartCache/sim"): eng = ("go", "sim")
        elif rel.startswith("qLearning"): eng = ("qgo",)
        else: eng = ("py",)
        props = [p for p in PROPS if engines[p["id"]] in eng]
        related = [p["id"] for p in props if rel in [f.split(":")[0] for f in p["files"]]] if not a.props else a.props.split(",")
        key = (rel, m["func"])
        with lock:
            order = sorted(related, key=lambda i: (-score[key][i], -fscore[rel][i], WALL.get(i, 5)))
        status = "SURVIVED"
        for i in order:
            env = dict(os.environ, VERIF_REPO=base + "/repo")
            try:
                p = subprocess.run(["timeout", "-k", "5", str(max(a.t, int(6 * WALL.get(i, 5)) + 30)), base + "/verif/check", i], env=env, capture_output=True, text=True)
            except Exception as e:
                status = "ERROR %s" % e; break
            if p.returncode == 1 and "VIOLATION" in p.stdout:
                status = "killed " + i
                with lock: score[key][i] += 1; fscore[rel][i] += 1
                break
            if "build failed" in p.stderr:
                status = "nobuild"; break
            tried.append("%s:%d" % (i, p.returncode))
        open(path, "wb").write(src)
        res.update(status=status, tried=tried, wall=round(time.time() - t0, 1))
        with lock:
            out.write(json.dumps(res) + "\n"); out.flush()
ts = [threading.Thread(target=worker, args=(k,)) for k in range(a.j)]
[t.start() for t in ts]; [t.join() for t in ts]
