"""C63, C64: statistics of the requests (scripts/DataAnalysis/statistics.py)."""
import datetime
import gzip
import importlib.util
import itertools
import json
import math
import os
import shutil
import sqlite3
import sys
import threading
import types

import minipd
import stubs
from explore import Chooser, Failure, HarnessError, Property, Suite

GB = 1024. ** 3
nan = math.nan


# --- processes under control --------------------------------------------------------

class Kill(BaseException):
    pass


def lock():
    m = threading.Lock()
    m.acquire()
    return m


class Proc:
    def __init__(self, sched, n, f):
        self.sched, self.n, self.f = sched, n, f
        self.go = lock()
        self.seen, self.pending, self.look, self.last, self.done, self.killed = (), "start", None, None, False, False
        self.result = self.error = None
        self.thread = threading.Thread(target=self.main, daemon=True)

    def main(self):
        CURRENT.proc = self
        self.go.acquire()
        try:
            if not self.killed:
                self.result = self.f()
        except Kill:
            pass
        except BaseException as e:
            self.error = e
        self.done = True
        self.sched.back.release()

    def waits(self):
        """It looks at what it saw last: it waits for that to change."""
        return self.look is not None and self.last is not None and self.last[0] == self.pending and self.last[1] == self.look()

    def step(self, what, read, f):
        """Something other processes can see, or that can see them."""
        if self.killed:
            raise Kill()
        self.pending, self.look = what, f if read else None
        self.sched.back.release()
        self.go.acquire()
        if self.killed:
            raise Kill()
        self.sched.c.op("process %d: %s" % (self.n, what))
        try:
            r = f()
        except Exception as e:
            self.seen += (repr(e),)
            raise
        self.last = (what, r)
        self.seen += (repr(r),)
        return r


CURRENT = threading.local()
VISITED = {"pid": 0, "keys": set()}


def step(what, read, f):
    p = getattr(CURRENT, "proc", None)
    return f() if p is None else p.step(what, read, f)


class Pruned(Exception):
    """What follows from this state was explored already."""


class Scheduler:
    """Runs processes one at a time; which one goes on is a choice."""

    def __init__(self, c, key):
        self.c, self.key = c, key
        self.back = lock()

    def run(self, tasks, slots):
        procs, todo, stuck = [], list(tasks), 0
        try:
            while True:
                while todo and sum(not p.done for p in procs) < slots:
                    p = Proc(self, len(procs), todo.pop(0))
                    procs.append(p)
                    p.thread.start()
                    self.resume(p)
                alive = [p for p in procs if not p.done]
                if not alive:
                    if todo:
                        continue
                    return procs
                ready = [p for p in alive if not p.waits()]
                if ready:
                    stuck = 0
                else:
                    # all of them wait for another one: they may have another way out
                    stuck += 1
                    if stuck > 60 * len(alive):
                        raise Failure("the processes wait for one another for ever: " + "; ".join("process %d: %s" % (p.n, p.pending) for p in alive))
                    self.resume(alive[stuck % len(alive)])
                    continue
                if len(ready) > 1:
                    self.seen(procs, len(todo))
                    p = self.c.pick(ready)
                else:
                    p = ready[0]
                self.resume(p)
        finally:
            for p in procs:
                if not p.done:
                    p.killed = True
                    self.resume(p)
                p.thread.join()

    def resume(self, p):
        p.go.release()
        self.back.acquire()

    def seen(self, procs, left):
        c = self.c
        if Chooser.planning or c.pos < len(c.script):
            return
        if VISITED["pid"] != os.getpid():
            VISITED["pid"], VISITED["keys"] = os.getpid(), set()
        k = hash(repr((self.key, left, sorted(STORE.d.items()), [(p.seen, p.pending, p.done) for p in procs])))
        if k in VISITED["keys"]:
            raise Pruned()
        VISITED["keys"].add(k)


SCHED = types.SimpleNamespace(now=None)


class Pool:
    def __init__(self, processes=None, *a, **k):
        self.n = processes or 8

    def _run(self, f, items):
        items = list(items)
        if SCHED.now is None:
            out = []
            for x in items:
                try:
                    out.append((f(x), None))
                except Exception as e:
                    out.append((None, e))
            return out
        procs = SCHED.now.run([(lambda x=x: f(x)) for x in items], self.n)
        return [(p.result, p.error) for p in procs]

    def imap(self, f, items, chunksize=1):
        for r, e in self._run(f, items):
            if e is not None:
                raise e
            yield r

    def imap_unordered(self, f, items, chunksize=1):
        return reversed(list(self.imap(f, items)))

    def map(self, f, items, chunksize=None):
        return list(self.imap(f, items))

    def starmap(self, f, items, chunksize=None):
        return self.map(lambda a: f(*a), items)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    join = terminate = close


# --- redis ----------------------------------------------------------------------------

class RedisError(Exception):
    pass


def raw(v):
    if isinstance(v, bytes):
        return v
    if isinstance(v, (str, int, float)) and not isinstance(v, bool):
        return str(v).encode()
    raise RedisError("Invalid input of type: '%s'" % type(v).__name__)


class Store:
    def __init__(self):
        self.clear()

    def clear(self):
        self.d = {}

    def put(self, k, v):
        self.d[raw(k)] = raw(v)
        return True


STORE = Store()


def names(keys, more):
    return [raw(k) for k in ([keys] if isinstance(keys, (str, bytes)) else list(keys)) + list(more)]


class Redis:
    def __init__(self, *a, **k):
        pass

    def exists(self, *ks):
        ks = [raw(k) for k in ks]
        return step("exists %s" % b" ".join(ks).decode(), True, lambda: sum(k in STORE.d for k in ks))

    def get(self, k):
        return step("get %s" % k, True, lambda: STORE.d.get(raw(k)))

    def mget(self, keys, *more):
        ks = names(keys, more)

        def f():
            if not ks:
                raise RedisError("wrong number of arguments for 'mget' command")
            return [STORE.d.get(k) for k in ks]
        return step("mget %s" % b" ".join(ks).decode(), True, f)

    def set(self, k, v, ex=None, px=None, nx=False, xx=False):
        raw(v)

        def f():
            if nx and raw(k) in STORE.d or xx and raw(k) not in STORE.d:
                return None
            return STORE.put(k, v)
        return step("set %s %s" % (k, v), False, f)

    def setnx(self, k, v):
        return bool(self.set(k, v, nx=True))

    def mset(self, d):
        d = {k: v for k, v in d.items() if raw(k) and raw(v)}
        what = " ".join("%s=%s" % i for i in d.items())

        def f():
            if not d:
                raise RedisError("wrong number of arguments for 'mset' command")
            return all([STORE.put(k, v) for k, v in d.items()])
        return step("mset " + what if len(d) < 5 else "mset of %d" % len(d), False, f)

    def __getattr__(self, name):
        raise HarnessError("stand-in for redis: %s is not there" % name)


# --- the other libraries ---------------------------------------------------------------

class Bar:
    def __init__(self, it=None, *a, **k):
        self.it, self.desc, self.total, self.n = it, k.get("desc"), k.get("total"), 0

    def __iter__(self):
        return iter(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def update(self, *a):
        pass

    write = set_description = set_postfix = refresh = close = update


class ResponseError(Exception):
    pass


BUCKETS = {}


class Minio:
    def __init__(self, url, access_key=None, secret_key=None, **k):
        self.who = (url, access_key, secret_key)

    def fget_object(self, bucket, name, path, *a, **k):
        if self.who != ("store:9000", "me", "word"):
            raise ResponseError("denied")

        def get():
            try:
                data = BUCKETS[bucket][name]
            except KeyError:
                raise ResponseError("no object %s in %s" % (name, bucket))
            with open(path, "wb") as f:
                f.write(data)
        step("download %s" % name, False, get)
        step("downloaded %s" % name, False, lambda: None)


class Any:
    """Something nothing is asked of."""

    def __init__(self, *a, **k):
        pass

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Any()


class Figure(Any):
    def __init__(self, **k):
        self.k, self.bars = k, []

    def vbar(self, x=None, top=None, source=None, **k):
        if source is not None:
            x, top = source.data.get(x, x), source.data.get(top, top)
        self.bars.append((list(x), list(top)))


class Source:
    def __init__(self, data=None, **k):
        self.data = dict(data or {}, **k)
        if len({len(v) for v in self.data.values()}) > 1:
            raise ValueError("columns of different lengths")


OUT = types.SimpleNamespace(target=None, pages={})


def to_feather(self, to, **k):
    if list(self.index) != list(range(len(self))):
        raise ValueError("feather does not support serializing a non-default index for the index")
    text = json.dumps({n: list(v.values) for n, v in self.items()}).encode()
    if hasattr(to, "write"):
        to.write(text)
    else:
        with open(to, "wb") as f:
            f.write(text)


def read_feather(name, *a, **k):
    if hasattr(name, "read"):
        return minipd.DataFrame(json.loads(name.read()))
    with open(name, "rb") as f:
        return minipd.DataFrame(json.loads(f.read()))


def read_results(path):
    with gzip.open(path, "rb") as f:
        return minipd.DataFrame(json.loads(f.read()))


def load(repo):
    stubs.datamanager(repo)
    sys.modules["tqdm"].tqdm = Bar
    pd, np = minipd.install()
    pd.read_feather = read_feather
    minipd.DataFrame.to_feather = to_feather
    stubs.missing("bokeh.io", "bokeh.layouts", "bokeh.models", "bokeh.palettes", "bokeh.plotting", "bokeh.transform", "matplotlib.pyplot", "minio.error")
    b = {n: sys.modules["bokeh." + n] for n in ("io", "layouts", "models", "palettes", "plotting", "transform")}
    b["io"].export_png = lambda *a, **k: None
    b["layouts"].column = b["layouts"].row = lambda *a: list(a)
    b["models"].ColumnDataSource = Source
    b["models"].FactorRange, b["models"].LabelSet, b["models"].Span = (lambda *a, **k: list(a)), Any, Any
    b["palettes"].Accent = b["palettes"].Category10 = {n: ["colour%d" % i for i in range(n)] for n in range(3, 11)}
    b["plotting"].figure = Figure
    b["transform"].cumsum = b["transform"].factor_cmap = lambda *a, **k: None
    r = types.ModuleType("redis")
    r.Redis = r.StrictRedis = Redis
    r.ConnectionPool = r.BlockingConnectionPool = Any
    sys.modules["redis"] = r
    sys.modules["minio"].Minio = Minio
    sys.modules["minio.error"].ResponseError = ResponseError
    u = types.ModuleType("urllib3")
    u.disable_warnings, u.PoolManager, u.Retry = (lambda *a: None), Any, Any
    u.exceptions = types.SimpleNamespace(InsecureRequestWarning=None)
    u.Timeout = types.SimpleNamespace(DEFAULT_TIMEOUT=1)
    sys.modules["urllib3"] = u
    b["plotting"].output_file = lambda name, *a, **k: setattr(OUT, "target", os.path.abspath(name))

    def save(obj, filename=None, *a, **k):
        OUT.pages[os.path.abspath(filename) if filename else OUT.target] = obj
    b["plotting"].save = save
    import multiprocessing
    multiprocessing.Pool = Pool
    spec = importlib.util.spec_from_file_location("request_statistics", os.path.join(repo, "scripts/DataAnalysis/statistics.py"))
    m = importlib.util.module_from_spec(spec)
    sys.modules["request_statistics"] = m
    spec.loader.exec_module(m)
    globals()["M"] = m


def command(*args):
    old = sys.argv
    sys.argv = ["statistics.py"] + [str(a) for a in args]
    try:
        M.main()
    finally:
        sys.argv = old


# --- records --------------------------------------------------------------------------

A, A2, B = "/store/data/Run1/Set/AOD/v1", "/store/data/Run1/Set/AOD/v10", "/store/mc/Camp_1/Set/SIM/v1"
USER = "/store/user/someone/set/out/v1"
FILES = {
    "a1": A + "/000/f1.root", "a2": A + "/000/f2.root", "b1": B + "/00/f1.root", "b2": B + "/00/f2.root",
    "A1": A2 + "/000/f1.root", "u1": USER + "/f1.root",
    "gone": A + "/000/gone.root", "gone_b": B + "/00/gone.root", "short": "/store/mc/f1.root",
}
SIZES = {"a1": 1000, "a2": 2000000000, "b1": 30, "b2": 31, "A1": 4, "short": 5}


def record(file, **over):
    r = {
        "FileName": FILES.get(file, file), "UserId": 7, "SiteName": "T2_IT", "TaskMonitorId": "m1", "TaskId": 3, "JobId": 11,
        "ProtocolUsed": "Local", "JobExecExitCode": "0", "NCores": "1", "WrapWC": 20.0, "WrapCPU": 10.0,
        "StartedRunningTimeStamp": 1530000000000, "FinishedTimeStamp": 1530003600000,
    }
    r.update(over)
    return r


SAME = {"filename": "FileName", "user": "UserId", "site_name": "SiteName", "task_monitor_id": "TaskMonitorId", "task_id": "TaskId", "job_id": "JobId", "protocol": "ProtocolUsed"}


def row(day, r, size):
    w = {k: r[v] for k, v in SAME.items()}
    w["day"] = datetime.datetime(*day).timestamp()
    w["cpu_time"] = float(r["WrapCPU"]) / int(r["NCores"])
    w["io_time"] = float(r["WrapWC"]) - w["cpu_time"]
    w["job_success"] = r["JobExecExitCode"] not in (None, "") and int(r["JobExecExitCode"]) == 0
    ms = r["FinishedTimeStamp"] - r["StartedRunningTimeStamp"]
    w["job_length_h"], w["job_length_m"] = ms // 3600000, ms // 60000
    w["size"] = nan if size is None else float(size)
    return w


def same(x, y):
    if isinstance(x, float) and isinstance(y, (int, float)) and not isinstance(y, bool):
        return x == y or abs(x - y) < 1e-9 * max(abs(x), abs(y)) or math.isnan(x) and math.isnan(y)
    return x == y


def check_rows(c, what, df, want):
    c.equal(len(df), len(want), "rows of %s" % what)
    for k in row((2018, 1, 1), record("a1"), 1):
        if len(want) and k not in list(df.columns):
            c.fail("%s: no column %s" % (what, k))
        for i, w in enumerate(want):
            got = df[k].values[i]
            if not same(w[k], got):
                c.fail("%s, row %d (%s): %s is %r, should be %r" % (what, i, w["filename"], k, got, w[k]))


def databases(extra=0):
    """The databases of the sizes, made once (nothing writes them)."""
    where = os.path.abspath("sizes%d" % extra)
    if os.path.isdir(where):
        return where
    os.makedirs(where + ".new")
    for kind in ("data", "mc"):
        db = sqlite3.connect(os.path.join(where + ".new", kind + "_file_sizes.db"))
        db.execute("PRAGMA synchronous=OFF")
        db.execute("CREATE TABLE file_sizes (f_logical_file_name TEXT, f_file_size REAL)" if kind == "mc" else "CREATE TABLE file_sizes (f_logical_file_name TEXT, f_file_size INTEGER)")
        rows = [("/store/%s/Other/Set/AOD/v1/f%d.root" % (kind, i), 9) for i in range(3)]
        rows += [(A + "/001/g%d.root" % i, 1000 + i) if kind == "data" else (B + "/01/g%d.root" % i, 2000 + i) for i in range(extra)]
        rows += [(FILES[k], s) for k, s in SIZES.items() if FILES[k].startswith("/store/%s/" % kind)]
        db.executemany("INSERT INTO file_sizes VALUES (?, ?)", rows)
        db.commit()
        db.close()
    os.rename(where + ".new", where)
    return where


def name_of(day):
    return "year%d_month%d_day%d.json.gz" % day


def day_file(records):
    return gzip.compress("".join(json.dumps(r) + "\n" for r in records).encode(), 1, mtime=0)


def extract(c, days, jobs, mode, key=None, redis=None, extra=0, what="", out="out", start=None, window=None):
    """The command, and what it should have written.  days: {(y, m, d): records}"""
    STORE.clear()
    for k, v in (redis or {}).items():
        STORE.put(k, v)
    BUCKETS.clear()
    BUCKETS["bucket"] = {name_of(d): day_file(rs) for d, rs in days.items()}
    first = start or min(days)
    args = ["extract", "--start-date", "%d %d %d" % first, "--window-size", window or len(days), "--minio-config", "store:9000 me word bucket", "--out-folder", out, "-j", jobs]
    if "sqlite" in mode:
        args += ["--file-size-db-path", databases(extra)]
    if "redis" in mode:
        args += ["--redis-url", "there"]
    SCHED.now = Scheduler(c, key) if key is not None else None
    try:
        command(*args)
    finally:
        SCHED.now = None


def scratch():
    for n in os.listdir("."):
        if n.startswith("sizes"):
            continue
        shutil.rmtree(n) if os.path.isdir(n) else os.remove(n)


def result_name(day):
    return "results_%04d-%02d-%02d.feather.gz" % day


def size_for(file, mode, known):
    """The size a record of this file gets (known: sizes that are in the cache)."""
    if "sqlite" in mode and file in SIZES:
        return SIZES[file]
    return known.get(file)


def warm(which):
    """Redis as an earlier run left it."""
    if not which:
        return {}, {}
    STORE.clear()
    stats = M.Statistics(databases(), "there")
    for f in which:
        stats.add((2018, 1, 1), record(f))
    stats.data
    left = {k.decode(): v.decode() for k, v in STORE.d.items()}
    STORE.clear()
    return left, {f: SIZES[f] for f in SIZES if FILES[f] in left and "/".join(FILES[f].split("/")[:7]) in {"/".join(FILES[x].split("/")[:7]) for x in which}}


def check_output(c, days, mode, known, out="out"):
    c.equal(sorted(os.listdir(out)), sorted(result_name(d) for d in days), "files in the output folder")
    for d, rs in days.items():
        want = [row(d, r, size_for({v: k for k, v in FILES.items()}.get(r["FileName"]), mode, known)) for r in rs]
        check_rows(c, "%d-%d-%d" % d, read_results(os.path.join(out, result_name(d))), want)


# --- C63 ----------------------------------------------------------------------------

def figures_suite(c):
    scratch()
    r = record("a1",
               NCores=c.pick(["1", "4", 8]), WrapWC=c.pick([0.0, 10.5, "100"]), WrapCPU=c.pick([0.0, 7.25, "3"]),
               JobExecExitCode=c.pick(["0", "1", "", None, "50660"]),
               FinishedTimeStamp=1530000000000 + c.pick([0, 59999, 60000, 3599999, 3600000, 90061000]),
               ProtocolUsed=c.pick(["Local", "Remote"]))
    other = record("b1", UserId=8, SiteName="T1_US", TaskMonitorId="m2", TaskId=4, JobId=12)
    day = c.pick([(2018, 1, 1), (2018, 12, 31), (2020, 2, 29)])
    rs = [r, other] if c.flag() else [other, r]
    c.op("%s %s" % (day, r))
    extract(c, {day: rs}, 1, "")
    check_output(c, {day: rs}, "", {})
    c.state(rs, day)


MODES = ["", "sqlite", "redis", "sqlite redis"]


def histories(n, files, cold):
    """Records added and figures read in any order, by one process."""
    def run(c):
        scratch()
        STORE.clear()
        mode = c.pick(MODES)
        left, known = {}, {}
        if "redis" in mode and not cold:
            left, known = warm(c.pick([["a1"], ["b1"], ["a1", "b1"]]))
        stats_args = (databases() if "sqlite" in mode else None, "there" if "redis" in mode else None)
        for k, v in left.items():
            STORE.put(k, v)
        SCHED.now = None
        c.note("mode '%s', cache with %s" % (mode, sorted(left)))
        stats = M.Statistics(*stats_args)
        want, day = [], (2018, 3, 1)
        for i in range(n):
            k = c.choose(len(files) + 1)
            if k == len(files):
                c.op("read")
                check_rows(c, "after %d records" % len(want), stats.data, want)
            else:
                c.op("add %s" % files[k])
                if i and c.flag():
                    day = (2018, 3, day[2] + 1)
                r = record(files[k], JobId=i)
                stats.add(day, r)
                want.append(row(day, r, size_for(files[k], mode, known)))
        check_rows(c, "at the end", stats.data, want)
        c.state(mode, sorted(STORE.d.items()), [(w["filename"], w["size"]) for w in want])
    return run


def batches(c):
    """More files of a set than are read at once."""
    scratch()
    extra = c.pick([0, 97, 98, 99, 100, 198, 199])
    mode = c.pick(["sqlite", "sqlite redis"])
    picks = [x for x in (0, 1, 96, 97, 98, 99, 100, 197, 198) if x < extra]
    names_ = [A + "/001/g%d.root" % i for i in picks] + [B + "/01/g%d.root" % i for i in picks]
    STORE.clear()
    stats = M.Statistics(databases(extra), "there" if "redis" in mode else None)
    c.op("%d files, %s" % (extra, mode))
    want = []
    for n in names_ + [FILES["a1"], FILES["b2"]]:
        r = record(n)
        stats.add((2018, 3, 1), r)
        s = {FILES[k]: v for k, v in SIZES.items()}.get(n)
        if s is None:
            s = int(n.split("/g")[1].split(".")[0]) + (1000 if n.startswith(A) else 2000)
        want.append(row((2018, 3, 1), r, s))
    check_rows(c, "%d files" % extra, stats.data, want)
    c.state(extra, mode)


def many(counts):
    def run(c):
        scratch()
        n = c.pick(counts)
        mode = c.pick(["sqlite", "sqlite redis"])
        early = c.pick([None, 1, n - 1])
        STORE.clear()
        stats = M.Statistics(databases(), "there" if "redis" in mode else None)
        c.op("%d records, read after %s, %s" % (n, early, mode))
        rs = [record(f, JobId=j) for j, f in enumerate(("a1", "b1", "gone"))]
        rows = [row((2018, 3, 1), r, size_for(f, mode, {})) for r, f in zip(rs, ("a1", "b1", "gone"))]
        late = record("A1", JobId=9)
        for i in range(n):
            stats.add((2018, 3, 1), late if i == n - 1 else rs[i % 3])
            if i == early:
                stats.data
        df = stats.data
        c.equal(len(df), n, "rows")
        want = [rows[i % 3] for i in range(n - 1)] + [row((2018, 3, 1), late, SIZES["A1"])]
        for k in ("job_id", "filename", "size", "cpu_time"):
            got = df[k].values
            for i in range(n):
                if not same(want[i][k], got[i]):
                    c.fail("row %d of %d: %s is %r, should be %r" % (i, n, k, got[i], want[i][k]))
        c.state(n, mode, early)
    return run


def periods(c):
    scratch()
    start = c.pick([(2018, 1, 1), (2018, 1, 30), (2018, 12, 31), (2020, 2, 28), (2019, 2, 27), (2018, 3, 24)])
    window, jobs, mode = c.pick([1, 2, 3, 8]), c.pick([1, 2, 5]), c.pick(["", "sqlite", "sqlite redis"])
    d0 = datetime.date(*start)
    days = {}
    for i in range(-1, window + 1):
        d = d0 + datetime.timedelta(days=i)
        days[(d.year, d.month, d.day)] = [record(("a1", "b1", "u1")[(i + k) % 3], JobId=10 * i + k, TaskId=i) for k in range(1 + i % 3)]
    c.op("%s, %d days, %d processes, '%s'" % (start, window, jobs, mode))
    if c.flag():
        os.makedirs("out")
    extract(c, days, jobs, mode, start=start, window=window)
    inside = list(days)[1:-1]
    check_output(c, {d: days[d] for d in inside}, mode, {})
    c.state(start, window, jobs, mode)


def schedules(contents, warmed):
    """Every interleaving of the processes of an extraction of two days."""
    def run(c):
        scratch()
        w = c.pick(list(warmed))
        days = {}
        for day in ((2018, 3, 31), (2018, 4, 1)) if len(w) == 1 else ((2018, 3, 9), (2018, 3, 10)):
            kind = c.pick(contents)
            days[day] = [record(f, JobId=100 * day[2] + k) for k, f in enumerate(kind)]
            c.note("%s: %s" % (day, " ".join(kind)))
        left, known = warm(w)
        try:
            extract(c, days, 2, "sqlite redis", key=(w, [[r["FileName"] for r in v] for v in days.values()]), redis=left)
        except Pruned:
            return
        check_output(c, days, "sqlite redis", known)
        c.state(w, sorted((k, [r["FileName"] for r in v]) for k, v in days.items()), sorted(STORE.d.items()))
    return run


def processes(contents, n, reads):
    """Every interleaving of processes that add records and read their figures."""
    def run(c):
        scratch()
        STORE.clear()
        databases()
        k, work = 0, []
        for i in range(n):
            k += c.choose(len(contents) - k)     # the processes are alike
            work.append(contents[k])
        c.note("; ".join(" ".join(x) for x in work))
        between = reads and c.flag()

        def process(i):
            stats = M.Statistics(databases(), "there")
            for j, f in enumerate(work[i]):
                if j and between:
                    stats.data
                stats.add((2018, 3, 1 + i), record(f, JobId=10 * i + j))
            return stats.data
        try:
            done = Scheduler(c, (work, between)).run([lambda i=i: process(i) for i in range(n)], n)
        except Pruned:
            return
        for i, p in enumerate(done):
            if p.error is not None:
                raise p.error
            check_rows(c, "process %d" % i, p.result, [row((2018, 3, 1 + i), record(f, JobId=10 * i + j), SIZES.get(f)) for j, f in enumerate(work[i])])
        c.state(work, between, sorted(STORE.d.items()))
    return run


# --- C64 ----------------------------------------------------------------------------

def total(v):
    v = list(v)
    return math.fsum(v)


def mean(v):
    v = list(v)
    return total(v) / len(v) if v else nan


def per(rows, key, what):
    g = {}
    for r in rows:
        g.setdefault(r[key], set()).add(r[what])
    return mean(len(x) for x in g.values())


def window_figures(rows):
    sizes, count = {}, {}
    for r in rows:
        f = r["filename"]
        count[f] = count.get(f, 0) + 1
        if not math.isnan(r["size"]):
            sizes.setdefault(f, r["size"])
    freq = {}
    for n in count.values():
        freq[n] = freq.get(n, 0) + 1
    desc = {}
    for s in sizes.values():
        k = s // GB * 1000. if s >= GB else s // 1024. ** 2
        desc[k] = desc.get(k, 0) + 1
    w = {
        "num_requests": len(rows), "num_files": len(count), "mean_num_req_x_file": len(rows) / len(count),
        "num_req_x_file_frequencies": freq, "size_all_files": total(sizes.values()) / GB, "desc_file_sizes": desc,
        "sizes_x_min_num_requests": {m: total(s for f, s in sizes.items() if count[f] >= m) / GB for m in range(1, 21)},
        "num_users": len({r["user"] for r in rows}), "num_sites": len({r["site_name"] for r in rows}),
        "num_tasks": len({r["task_id"] for r in rows}), "num_jobs": len({r["job_id"] for r in rows}),
        "protocols": {p: sum(r["protocol"] == p for r in rows) for p in {r["protocol"] for r in rows}},
    }
    for kind in ("cpu_time", "io_time"):
        w["all_" + kind] = total(r[kind] for r in rows)
        for p in ("Local", "Remote"):
            w[p.lower() + "_" + kind] = total(r[kind] for r in rows if r["protocol"] == p)
    if 1 in freq:
        w["mean_num_req_x_file_gmin"] = mean(n for n in count.values() if n > 1)
        w["size_file_1req"] = total(s for f, s in sizes.items() if count[f] == 1) / GB
        w["size_file_g1req"] = total(s for f, s in sizes.items() if count[f] > 1) / GB
    for a, b, what, key in (("files", "job", "filename", "job_id"), ("files", "task", "filename", "task_id"), ("files", "user", "filename", "user"),
                            ("jobs", "task", "job_id", "task_id"), ("jobs", "user", "job_id", "user"), ("tasks", "user", "task_id", "user")):
        w["mean_num_%s_x_%s" % (a, b)] = per(rows, key, what)
    return w


def equal_figures(c, what, got, want):
    for k, v in want.items():
        if k not in got:
            c.fail("%s: no %s" % (what, k))
        g = got[k]
        if isinstance(v, dict):
            ok = set(g) == set(v) and all(same(float(v[x]), g[x]) for x in v)
        else:
            ok = same(float(v), g)
        if not ok:
            c.fail("%s: %s is %r, should be %r" % (what, k, g, v))


COLUMNS = ["day", "filename", "protocol", "task_monitor_id", "task_id", "job_id", "site_name", "job_success", "job_length_h", "job_length_m", "user", "cpu_time", "io_time", "size"]
BASE = {"day": 1530000000.0, "filename": "/f0", "protocol": "Local", "task_monitor_id": "m", "task_id": 1, "job_id": 1, "site_name": "S", "job_success": True, "job_length_h": 1, "job_length_m": 60, "user": 1, "cpu_time": 1.0, "io_time": 2.0, "size": 100. * 1024 ** 2}


def write_results(folder, name, rows):
    df = minipd.DataFrame({k: [r[k] for r in rows] for k in COLUMNS})
    if name.endswith(".feather.gz"):
        with gzip.open(os.path.join(folder, name), "wb", 1) as f:
            to_feather(df.reset_index(), f)
    else:
        with gzip.open(os.path.join(folder, name), "wt", 1) as f:
            f.write(df.to_csv(index=False))


def one_window(c, rows):
    scratch()
    write_results(".", "results_2018-03-01.feather.gz", rows)
    got = M.make_dataframe_stats((["results_2018-03-01.feather.gz"], 0, 0))
    equal_figures(c, "figures of %d requests" % len(rows), got, window_figures(rows))
    c.state(sorted((k, repr(v)) for k, v in got.items()))


def partition(c, n):
    """Every way to group n things."""
    out = [0]
    for _ in range(n - 1):
        out.append(c.choose(max(out) + 2))
    return out


def groups(n, keys):
    def run(c):
        rows = [dict(BASE) for _ in range(n)]
        for k in keys:
            p = partition(c, n)
            for r, x in zip(rows, p):
                r[k] = {"filename": "/f%d", "site_name": "S%d"}.get(k, "%d") % x
                if k not in ("filename", "site_name"):
                    r[k] = int(r[k])
        c.op("; ".join("%s %s" % (k, [r[k] for r in rows]) for k in keys))
        one_window(c, rows)
    return run


MB = 1024. ** 2


def values(n, sizes, protocols, times):
    def run(c):
        rows = [dict(BASE) for _ in range(n)]
        p = partition(c, n)
        size = [c.pick(sizes) for _ in range(max(p) + 1)]
        unknown = c.pick([-1] + list(range(n)))
        for i, (r, x) in enumerate(zip(rows, p)):
            r["filename"], r["size"] = "/f%d" % x, nan if i == unknown else size[x]
            r["protocol"] = c.pick(protocols)
            r["cpu_time"], r["io_time"] = c.pick(times)
        c.op(str([(r["filename"], r["size"], r["protocol"], r["cpu_time"]) for r in rows]))
        one_window(c, rows)
    return run


def repeated(c):
    """Files requested up to 22 times."""
    a, b, d = c.pick([1, 2, 19, 20, 21, 22]), c.pick([1, 3, 20, 21]), c.pick([0, 1, 20])
    rows = []
    for k, n in enumerate((a, b, d)):
        rows += [dict(BASE, filename="/f%d" % k, size=(k + 1) * 300. * MB, job_id=i // 2, task_id=i // 3) for i in range(n)]
    c.op("%d, %d and %d requests" % (a, b, d))
    one_window(c, rows)


LABELS = [
    {"Num. Requests": "num_requests", "Num. Files": "num_files"},
    {"Num. Request x file": "mean_num_req_x_file", "Num. Request x file (req > 1)": "mean_num_req_x_file_gmin"},
    {"Mean Num. Files x User": "mean_num_files_x_user", "Mean Num. Files x Task": "mean_num_files_x_task", "Mean Num. Files x Job": "mean_num_files_x_job"},
    {"Mean Num. Jobs x User": "mean_num_jobs_x_user", "Mean Num. Tasks x User": "mean_num_tasks_x_user", "Mean Num. Jobs x Task": "mean_num_jobs_x_task"},
    {"Size all files": "size_all_files", "Size files with 1 req": "size_file_1req", "Size files with req > 1": "size_file_g1req"},
    {"Num. users": "num_users", "Num. sites": "num_sites", "Num. tasks": "num_tasks", "Num. jobs": "num_jobs"},
]


def pages(maxdays, others):
    """The days of a folder, in windows, drawn."""
    def run(c):
        scratch()
        os.makedirs("res")
        n = c.choose(maxdays + 1)
        size, jobs = c.pick([1, 2, 3, 7]), c.pick([1, 2])
        first = c.pick([datetime.date(2018, 12, 29), datetime.date(2018, 9, 29)])
        step_ = c.pick([1, 40])
        days, listing = [], []
        for i in range(n):
            d = first + datetime.timedelta(days=step_ * i)
            rows = [dict(BASE, filename="/f%d" % (k % (i + 1)), user=k % 2 + i, task_id=k + i, job_id=2 * k + i, site_name="S%d" % (k % 3), size=(1 + k % (i + 1)) * 70. * MB) for k in range(2 * i + 1)]
            days.append(rows)
            name = "results_%04d-%02d-%02d" % (d.year, d.month, d.day) + c.pick([".feather.gz", ".csv.gz"])
            write_results("res", name, rows)
            listing.append(name)
        for k in others:
            if c.flag():
                with open(os.path.join("res", k), "w") as f:
                    f.write("something else")
                listing.append(k)
        order = sorted(listing, reverse=True) if c.flag() else sorted(listing, key=lambda x: x[::-1])
        c.op("%s in windows of %d" % (order, size))
        real = os.listdir
        OUT.pages.clear()
        os.listdir = lambda p=".": list(order) if os.path.basename(os.path.abspath(p)) == "res" else real(p)
        try:
            command("plot", "--result-folder", "res", "-ws", size, "-j", jobs)
        finally:
            os.listdir = real
        want = [window_figures([r for d in days[i:i + size] for r in d]) for i in range(0, n, size)]
        c.equal(list(OUT.pages), [os.path.abspath("res/statistics.html")], "pages written")
        drawn = {}
        for f in OUT.pages[os.path.abspath("res/statistics.html")]:
            for xs, tops in f.bars:
                for x, t in zip(xs, tops):
                    if x in drawn:
                        c.fail("two bars %r" % (x,))
                    drawn[x] = t
        c.equal(sorted(drawn), sorted(("Window %d" % i, l) for i in range(len(want)) for ls in LABELS for l in ls), "bars")
        for i, w in enumerate(want):
            for ls in LABELS:
                for l, k in ls.items():
                    if k in w and not same(float(w[k]), drawn["Window %d" % i, l]):
                        c.fail("%s of window %d is drawn as %r, should be %r" % (l, i, drawn["Window %d" % i, l], w[k]))
        c.state(n, size, order)
    return run


def prop(pid, tier, repo):
    load(repo)
    deep = int(tier == "thorough")
    lib = "redis, minio, bokeh, pandas and numpy are replaced by stand-ins with the behaviour of the calls made; sqlite is the real one"
    if pid == "C63":
        short = [["a1"], ["b1"], ["a1", "b1"], ["u1", "a2"]]
        long = short + [["b2", "a1", "A1"], ["gone", "b1"], ["u1"], []]
        return Property([
            Suite("figures", "every combination of cores, times, exit codes, lengths and days of a record, before and after another one", figures_suite),
            Suite("histories", "every sequence of %d records of 5 files (of two kinds of data, one of which has no size) and readings, on one or more days, with and without databases and an empty shared cache" % (3 + deep), histories(3 + deep, ["a1", "b1", "A1", "u1", "gone"], True)),
            Suite("earlier", "every sequence of %d records of 5 files and readings, with a shared cache left by another run" % (3 + deep), histories(3 + deep, ["a1", "a2", "b1", "gone", "short"], False)),
            Suite("batches", "0 to 201 files in a set, around the number that is read at once", batches),
            Suite("many", "as many records as are kept before they are put together, one less and one more", many([41999, 42000, 42001] + [84000, 84001] * deep)),
            Suite("periods", "1 to 8 days from six dates, over the ends of months and years, 1, 2 and 5 processes", periods),
            Suite("days", "every interleaving of the extractions of two days, out of %d kinds, with an empty cache and one left by an earlier run" % len(long), schedules(long, [(), ("a1",), ("a1", "b1")])),
            Suite("two", "every interleaving of two processes with up to 3 records of up to 3 sets, read in between or not", processes([["a1"], ["a1", "b1"], ["b1", "A1", "a2"], ["u1", "gone", "b2"]] + [["gone_b", "a1", "A1", "u1"]] * deep, 2, True), 8),
            Suite("three", "every interleaving of three processes with one or two sets", processes([["a1"], ["b1"]] + [["b2", "a2"]] * deep, 3, False), 3),
        ], [lib, "processes are threads that run one at a time: each command of the shared cache is atomic, and between two of them any process may go on; states reached again are not explored twice"])
    extra = ["res.feather.gz", "results_2018-01-01.csv", "results_x.json.gz", "tmp_2018-1-1.csv.gz"]
    return Property([
        Suite("files", "every way to group %d requests by file, user and job" % (4 + deep), groups(4 + deep, ["filename", "user", "job_id"])),
        Suite("tasks", "every way to group %d requests by file, task and job" % (4 + deep), groups(4 + deep, ["filename", "task_id", "job_id"])),
        Suite("users", "every way to group %d requests by user, task and site" % (4 + deep), groups(4 + deep, ["user", "task_id", "site_name"])),
        Suite("values", "%d requests with every size, one of them unknown, protocol and times" % (3 + deep), values(3 + deep, [3. * MB, 700.5 * MB, GB, 2.5 * GB], ["Local", "Remote", "xrootd"], [(0., 5.), (2.5, 1.25)])),
        Suite("repeated", "up to three files with up to 22 requests", repeated),
        Suite("pages", "0 to %d days in windows of 1, 2, 3 and 7, beside other files, listed in two orders" % (3 + deep), pages(3 + deep, extra[:2] if not deep else extra)),
        Suite("days", "0 to %d days in windows" % (5 + deep), pages(5 + deep, [])),
    ], [lib])
