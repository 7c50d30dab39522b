"""C65: the scripts that move and filter the logs of the requests."""
import datetime
import gzip
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import types

import stubs
from explore import HarnessError, Property, Suite

MAGIC = stubs.AVRO_MAGIC
SCRIPTS = {
    "filter_analysis_logs.py": ("-analysis", lambda r: r["Type"].lower() == "analysis"),
    "filter_analysis_data-mc_logs.py": ("-analysis-data-mc", lambda r: r["Type"].lower() == "analysis" and place(r) in ("data", "mc")),
}
MOVE = "move_data_hdfs2minio.py"


def place(r):
    """The second part of the name of the file: /store/PLACE/..."""
    parts = [x for x in r["FileName"].split("/") if x]
    return parts[1] if len(parts) > 1 else None


class Stop(BaseException):
    """The script is stopped here."""


class ResponseError(Exception):
    pass


WORLD = types.SimpleNamespace()


def outside(what, f, fails):
    """A step that others can make fail, and where the script can be stopped."""
    w = WORLD
    w.steps += 1
    fault = w.faults.get(w.steps)
    w.c.op(what + (" -> " + fault if fault else ""))
    if fault == "stopped before":
        raise Stop()
    if fault == "fails":
        raise fails
    r = f()
    if fault == "stopped after":
        raise Stop()
    return r


class Minio:
    def __init__(self, url, access_key=None, secret_key=None, **k):
        self.who = (url, access_key, secret_key)

    def _bucket(self, name):
        if self.who != ("store:9000", "me", "word"):
            raise ResponseError("denied")
        return WORLD.buckets.setdefault(name, {})

    def fget_object(self, bucket, name, path, *a, **k):
        def get():
            b = self._bucket(bucket)
            if name not in b:
                raise ResponseError("no object " + name)
            with open(path, "wb") as f:
                f.write(b[name])
        outside("download %s of %s" % (name, bucket), get, ResponseError("no connection"))

    def fput_object(self, bucket, name, path, *a, **k):
        def put():
            with open(path, "rb") as f:
                self._bucket(bucket)[name] = f.read()
        outside("upload %s to %s" % (name, bucket), put, ResponseError("no connection"))


def shell(cmd, *a, **k):
    words = cmd.split() if isinstance(cmd, str) else list(cmd)
    if words[:3] != ["hdfs", "dfs", "-get"]:
        raise HarnessError("unexpected command %s" % cmd)

    def get():
        to = words[4] if len(words) > 4 else os.path.basename(words[3])
        if words[3] not in WORLD.hdfs or os.path.exists(to):
            raise subprocess.CalledProcessError(1, cmd)
        with open(to, "wb") as f:
            f.write(WORLD.hdfs[words[3]])
        return 0
    return outside(" ".join(words[:4]), get, subprocess.CalledProcessError(1, cmd))


def load(repo):
    stubs.datamanager(repo)

    class Bar:
        def __new__(cls, it=None, *a, **k):
            return object.__new__(cls) if it is None else it

        def update(self, *a):
            pass
        close = write = set_description = update
    sys.modules["tqdm"].tqdm = Bar
    stubs.missing("minio.error")
    sys.modules["minio"].Minio = Minio
    for n in ("BucketAlreadyExists", "BucketAlreadyOwnedByYou"):
        setattr(sys.modules["minio.error"], n, type(n, (Exception,), {}))
    sys.modules["minio.error"].ResponseError = ResponseError
    u = types.ModuleType("urllib3")
    u.disable_warnings = u.PoolManager = u.Retry = lambda *a, **k: None
    u.exceptions = types.SimpleNamespace(InsecureRequestWarning=None)
    u.Timeout = types.SimpleNamespace(DEFAULT_TIMEOUT=1)
    sys.modules["urllib3"] = u
    global CODE
    CODE = {}
    for s in list(SCRIPTS) + [MOVE]:
        spec = importlib.util.spec_from_file_location("script_" + s.split(".")[0].replace("-", "_"), os.path.join(repo, "scripts", s))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        CODE[s] = m


def run(c, script, start, days, faults=None):
    """One run of a script.  Returns what ended it."""
    WORLD.c, WORLD.steps, WORLD.faults = c, 0, faults or {}
    old, call = sys.argv, subprocess.check_call
    sys.argv = [script, "store:9000", "me", "word", "logs", "%d %d %d" % start, str(days)]
    subprocess.check_call = shell
    try:
        CODE[script].main()
        return "done"
    except Stop:
        return "stopped"
    except (ResponseError, subprocess.CalledProcessError) as e:
        return "failed"
    finally:
        sys.argv, subprocess.check_call = old, call


def clean(c):
    WORLD.buckets, WORLD.hdfs = {}, {}
    for n in os.listdir("."):
        shutil.rmtree(n) if os.path.isdir(n) else os.remove(n)


def avro(records):
    return MAGIC + b"".join(json.dumps(r).encode() + b"\n" for r in records)


def name_of(day, ext):
    return "year%d_month%d_day%d%s" % (day.year, day.month, day.day, ext)


def lines(data):
    return [json.loads(l) for l in gzip.decompress(data).decode().split("\n") if l]


def check(c, script, logs, asked, complete):
    """Each object is what it should be; all of them are there if it is complete."""
    suffix, chosen = SCRIPTS[script]
    got = WORLD.buckets.get("logs" + suffix, {})
    want = {name_of(d, ".json.gz"): [r for r in logs[d] if chosen(r)] for d in asked}
    for n, data in got.items():
        if n not in want:
            c.fail("object %s is written" % n)
        c.equal(lines(data), want[n], "records of %s" % n)
    if complete:
        c.equal(sorted(got), sorted(want), "objects")
    others = sorted(b for b in WORLD.buckets if b not in ("logs", "logs" + suffix))
    c.equal(others, [], "other buckets")
    c.equal(sorted(WORLD.buckets["logs"]), sorted(name_of(d, ".avro") for d in logs), "objects of the source")


def dates(start, n):
    d = datetime.date(*start)
    return [d + datetime.timedelta(days=i) for i in range(n)]


def source(logs):
    WORLD.buckets["logs"] = {name_of(d, ".avro"): avro(rs) for d, rs in logs.items()}
    WORLD.hdfs = {"/project/awg/cms/jm-data-popularity/avro-snappy/year=%d/month=%d/day=%d/part-m-00000.avro" % (d.year, d.month, d.day): avro(rs) for d, rs in logs.items()}


def rec(kind, name, i):
    return {"Type": kind, "FileName": name, "JobId": i, "size": 1.5 * i}


KINDS = ["analysis", "Analysis", "ANALYSIS", "production", "analysis-x", ""]
NAMES = ["/store/data/Run/f.root", "/store/mc/Camp/f.root", "/store/user/me/f.root", "//store//mc/f.root", "/data/f.root", "/store/mcx/f.root", "/store", "mc", ""]


def contents(n, kinds, names):
    def r(c):
        clean(c)
        script = c.pick(list(SCRIPTS))
        rs = [rec(c.pick(kinds), c.pick(names), i) for i in range(c.choose(n + 1))]
        c.note("%s: %s" % (script, [(x["Type"], x["FileName"]) for x in rs]))
        day = datetime.date(2018, 3, 1)
        source({day: rs})
        c.equal(run(c, script, (2018, 3, 1), 1), "done", "end of the script")
        check(c, script, {day: rs}, [day], True)
        c.equal(os.listdir("."), [], "files left")
        c.state(script, [(x["Type"], x["FileName"]) for x in rs])
    return r


def days_of(start, n):
    logs = {}
    for i, d in enumerate(dates(start, n)):
        logs[d] = [rec(KINDS[(i + k) % 4], NAMES[(i + 2 * k) % 4], 10 * i + k) for k in range(2 + i % 3)]
    return logs


def periods(c):
    clean(c)
    script = c.pick(list(SCRIPTS) + [MOVE])
    start, n = c.pick([(2018, 1, 1), (2018, 1, 31), (2018, 12, 30), (2020, 2, 28), (2019, 2, 27), (2018, 3, 24), (2018, 10, 27)]), c.choose(4)
    before = datetime.date(*start) - datetime.timedelta(days=1)
    logs = days_of((before.year, before.month, before.day), n + 2)
    source(logs)
    if script == MOVE:
        WORLD.buckets = {}
    asked = dates(start, n)
    c.note("%s from %s, %d days" % (script, start, n))
    c.equal(run(c, script, start, n), "done", "end of the script")
    if script == MOVE:
        c.equal(WORLD.buckets.get("logs", {}), {name_of(d, ".avro"): avro(logs[d]) for d in asked}, "objects")
    else:
        check(c, script, logs, asked, True)
    c.equal(os.listdir("."), [], "files left")
    c.state(script, start, n)


FAULTS = ["fails", "stopped before", "stopped after"]


def faults(runs, ndays, steps):
    """Runs that fail or are stopped somewhere, each followed by another one."""
    def r(c):
        clean(c)
        script = c.pick(list(SCRIPTS) + [MOVE])
        start = (2018, 3, 31)
        logs = days_of(start, ndays)
        asked = list(logs)
        source(logs)
        if script == MOVE:
            WORLD.buckets = {}
        ends = []
        for i in range(runs + 1):
            last = i == runs
            f = {} if last else {1 + c.choose(steps): c.pick(FAULTS)}
            c.note("run %d %s" % (i, f))
            done = run(c, script, start, ndays, f)
            ends.append(done)
            if script == MOVE:
                # it says what fails and goes on with the other days; a file
                # left by a stop has to be removed by the user
                for n, data in WORLD.buckets.get("logs", {}).items():
                    c.equal(data, {name_of(d, ".avro"): avro(logs[d]) for d in asked}.get(n), "object %s" % n)
                for n in os.listdir("."):
                    os.remove(n)
                if last:
                    c.equal(sorted(WORLD.buckets["logs"]), sorted(name_of(d, ".avro") for d in asked), "objects")
            else:
                check(c, script, logs, asked, done == "done")
            if not f or f and max(f) > WORLD.steps:
                c.equal(done, "done", "end of run %d" % i)
        if ends[-1] == "done":
            c.equal(os.listdir("."), [], "files left")
        c.state(script, ends, sorted((b, sorted(o)) for b, o in WORLD.buckets.items()))
    return r


def prop(pid, tier, repo):
    load(repo)
    deep = int(tier == "thorough")
    return Property([
        Suite("contents", "up to %d records of 6 types and 9 file names" % (2 + deep), contents(2 + deep, KINDS, NAMES)),
        Suite("orders", "up to %d records of 2 types and 3 names" % (5 + deep), contents(5 + deep, ["Analysis", "production"], NAMES[:3])),
        Suite("periods", "up to 3 days from seven dates, over the ends of months and years", periods),
        Suite("faults", "%d days, every step as the point where a run fails or is stopped, %d such runs after one another and one more" % (2 + deep, 3), faults(3, 2 + deep, 4 + 2 * deep)),
        Suite("fault", "three days, every step as the point where a run fails or is stopped, and another run", faults(1, 3, 6)),
    ], ["the object store, HDFS and the avro coding are replaced by stand-ins; an upload or download is done or not done"])
