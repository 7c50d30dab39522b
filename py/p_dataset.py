"""C48: the stages of a dataset pipeline.  C49: features and support tables."""
import hashlib
import importlib
import itertools
import json
import multiprocessing
import gzip
import os
import pickle
import sys
from datetime import date, timedelta

import stubs
from explore import Property, Suite, HarnessError


# --- stand-ins for processes, scheduled by the checker ------------------------

class Sched:
    """The processes and the queue of one execution."""

    def __init__(self):
        self.c = None

    def start(self, c, capacity, patience, fine=False):
        self.c, self.capacity, self.patience, self.fine = c, capacity, patience, fine
        self.procs, self.visible, self.idle, self.started = [], [], 0, 0

    def enabled(self):
        out = []
        for p in self.procs:
            if p.alive and (not p.todo or len(self.visible) < self.capacity):
                out.append(p)
        return out

    def step(self, p):
        """The next thing a process does: one result into the queue, or its end."""
        if p.todo:
            self.visible.append(p.todo.pop(0))
            self.c.op("process %d: a result" % p.number)
        else:
            p.alive = False
            self.c.op("process %d ends" % p.number)

    def look(self):
        """Before the main process asks for the state of a process or the queue."""
        if self.fine and self.c is not None:
            while True:
                en = self.enabled()
                k = self.c.choose(1 + len(en)) if en else 0
                if k == 0:
                    return
                self.step(en[k - 1])
                self.idle = 0

    def observe(self):
        """Whatever may happen before the main process looks."""
        moved = False
        if self.patience is None:  # one process comes to its end
            en = self.enabled()
            if en:
                p = en[self.c.choose(len(en))]
                while p.alive:
                    self.step(p)
            return
        while True:
            en = self.enabled()
            if not en:
                return
            if not moved and self.idle >= self.patience:
                k = 1 + self.c.choose(len(en))  # something happens at last
            else:
                k = self.c.choose(1 + len(en))
            if k == 0:
                break
            self.step(en[k - 1])
            moved = True
        self.idle = 0 if moved else self.idle + 1


SCHED = Sched()


class FakeProcess:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, daemon=None):
        self.target, self.args, self.kwargs = target, args, kwargs
        self.alive, self.todo, self.number = False, [], None

    def start(self):
        if self.number is not None:
            raise AssertionError("a process was started twice")
        SCHED.started += 1
        self.number = SCHED.started
        self.alive = True
        SCHED.procs.append(self)
        # what it computes depends on its arguments only; when its results
        # come out is up to the scheduler
        q = FakeQueue()
        q.sink = self.todo
        args = [q if isinstance(a, FakeQueue) else a for a in self.args]
        kwargs = {k: q if isinstance(a, FakeQueue) else a for k, a in self.kwargs.items()}
        self.target(*args, **kwargs)
        SCHED.c.op("process %d started" % self.number)

    def join(self, timeout=None):
        if timeout is None:
            while self.alive:
                en = SCHED.enabled()
                if not en:
                    raise AssertionError("deadlock: waiting for a process that waits for room in the queue")
                SCHED.step(en[SCHED.c.choose(len(en))])
        elif self.alive:
            SCHED.observe()

    def is_alive(self):
        if self.alive:
            SCHED.look()
        return self.alive

    @property
    def exitcode(self):
        return None if self.alive or self.number is None else 0


class FakeQueue:
    def __init__(self, maxsize=0):
        self.sink = None

    def put(self, x, *a, **k):
        if self.sink is None:
            raise HarnessError("put by the main process")
        # through a pipe: the receiver gets a copy of what it is by then
        self.sink.append(pickle.dumps(x))

    def empty(self):
        if not SCHED.visible:
            SCHED.look()
        return not SCHED.visible

    def qsize(self):
        return len(SCHED.visible)

    def get(self, *a, **k):
        if not SCHED.visible:
            if a and a[0] is False or k.get("block") is False or k.get("timeout") is not None:
                import queue
                raise queue.Empty
            en = SCHED.enabled()
            while en and not SCHED.visible:
                SCHED.step(en[SCHED.c.choose(len(en))])
                en = SCHED.enabled()
            if not SCHED.visible:
                raise AssertionError("deadlock: waiting for a result that never comes")
        return pickle.loads(SCHED.visible.pop(0))

    get_nowait = lambda self: self.get(False)

    def close(self):
        pass

    join_thread = close


# --- a stand-in for Spark ------------------------------------------------------

class RDD:
    def __init__(self, items):
        self.items = list(items)

    def map(self, f):
        return RDD(f(x) for x in self.items)

    def collect(self):
        return self.items


class Context:
    defaultParallelism = 2

    @staticmethod
    def getOrCreate(conf=None):
        return Context()

    def parallelize(self, items, n=None):
        return RDD(items)


class Conf:
    def __init__(self):
        self.d = {}

    def setMaster(self, x):
        return self

    def setAppName(self, x):
        return self

    def set(self, k, v):
        return self


def load(repo):
    if "DataManager.collector.dataset.generator" in sys.modules:
        return
    stubs.datamanager(repo)
    sys.modules["findspark"].init = lambda *a, **k: None
    sys.modules["pyspark"].SparkConf = Conf
    sys.modules["pyspark"].SparkContext = Context
    sys.modules["numpy"].array = lambda x, **k: list(x)
    old = multiprocessing.Process, multiprocessing.Queue, multiprocessing.cpu_count, multiprocessing.Pool
    multiprocessing.Process, multiprocessing.Queue, multiprocessing.cpu_count = FakeProcess, FakeQueue, lambda: 2
    try:
        importlib.import_module("DataManager.collector.dataset.stage")
        importlib.import_module("DataManager.collector.dataset.generator")
    finally:
        multiprocessing.Process, multiprocessing.Queue, multiprocessing.cpu_count, multiprocessing.Pool = old


def mod(name):
    return importlib.import_module("DataManager.collector." + name)


def canon(recs):
    return sorted(json.dumps(r, sort_keys=True) for r in recs)


# --- C48 -----------------------------------------------------------------------

def stage_schedules(name, shapes, procs, capacity, patience, fine=False):
    stage = mod("dataset.stage")

    def run(c):
        class Echo(stage.Stage):
            @staticmethod
            def process(records, queue=None):
                out = [dict(r, seen=True) for r in records if not r.get("drop")]
                if queue:
                    for r in out:
                        queue.put(r)
                else:
                    return out

        shape = c.pick(shapes)
        n = c.pick(procs)
        SCHED.start(c, capacity, patience, fine)
        c.note("batches of %s records on %d processes" % (list(shape), n))
        batches, want, i = [], [], 0
        for k in shape:
            b = []
            for _ in range(k):
                r = {"i": i}
                if i % 5 == 4:
                    r["drop"] = True
                else:
                    want.append({"i": i, "seen": True})
                b.append(r)
                i += 1
            batches.append(b)
        s = Echo("echo")
        given = (b for b in batches) if c.flag() else batches
        if n == 2:
            out = s.run(given)
        else:
            out = mod("api").DataFile(s.task(given, num_process=n)) if want else s.task(given, num_process=n)
        c.require(SCHED.started == len(shape), "%d processes were started for %d batches" % (SCHED.started, len(shape)))
        if want:
            got = list(out)
            if canon(got) != canon(want):
                c.fail("results %s, should be %s" % (canon(got), canon(want)))
        c.require(not any(p.alive for p in SCHED.procs), "the stage ends before its processes")
        c.require(not SCHED.visible, "results are left in the queue")
        c.state(shape, n, canon(want), SCHED.started)
    return Suite(name, "every schedule of the processes of a stage: batches of %s records on %s processes, a queue with room for %d results; at every wait of the main process%s any sequence of results and ends may have happened, at the latest after %d waits" % (shapes, procs, capacity, ", at every question about a process and whenever the queue looks empty" if fine else "", patience), run)


def spark_stage():
    stage = mod("dataset.stage")

    def run(c):
        class Echo(stage.Stage):
            @staticmethod
            def process(records, queue=None):
                return [dict(r, seen=True) for r in records]
        par = 1 + c.choose(3)
        n = c.choose(7)
        Context.defaultParallelism = par
        SCHED.start(c, 10, 3)
        batches = [[{"i": 10 * i + k} for k in range(1 + i % 2)] for i in range(n)]
        want = [{"i": r["i"], "seen": True} for b in batches for r in b]
        c.op("%d batches on Spark with parallelism %d" % (n, par))
        s = Echo("echo")
        if n == 0:
            s.task(batches, use_spark=True)
            return
        got = list(s.run(iter(batches), use_spark=True))
        c.require(canon(got) == canon(want), "results %s, should be %s" % (canon(got), canon(want)))
        c.state(n, par)
    return Suite("spark", "0..6 batches on a stand-in of Spark with parallelism 1..3", run)


FILES = [
    "/store/data/Run2016B/DoubleEG/MINIAOD/03Feb2017/0.root",
    "/store/data/Run2016B/DoubleEG/MINIAOD/03Feb2017/1.root",
    "/store/mc/Summer16/QCD/AODSIM/x/2.root",
    "/store/user/somebody/a/b/3.root",
    "unknown",
    "/store/mc",
]


def rawrec(i, f, cpu, typ):
    r = {k: "%s-%d" % (k, i) for k in RAW}
    r["FileName"], r["WrapCPU"], r["Type"] = FILES[f], cpu, typ
    r["notAFeature"] = "x"
    return r


RAW = ['FileName', 'Application', 'ApplicationVersion', 'BlockId', 'BlockName', 'ExeCPU', 'FileType', 'FinishedTimeStamp', 'GenericType', 'GridName', 'InputCollection', 'InputSE', 'IsParentFile', 'JobExecExitCode', 'JobExecExitTimeStamp', 'JobId', 'JobMonitorId', 'JobType', 'LumiRanges', 'NCores', 'NEventsPerJob', 'NEvProc', 'NEvReq', 'NewGenericType', 'NewType', 'NTaskSteps', 'ProtocolUsed', 'SchedulerJobIdV2', 'SchedulerName', 'SiteName', 'StartedRunningTimeStamp', 'StrippedBlocks', 'StrippedFiles', 'SubmissionTool', 'SuccessFlag', 'TargetCE', 'TaskId', 'TaskJobId', 'TaskMonitorId', 'Type', 'UserId', 'ValidityFlag', 'WNHostName', 'WrapCPU', 'WrapWC']


def file_features(name):
    parts = [x for x in name.split("/") if x]
    if name == "unknown" or len(parts) < 5:
        return None
    f = dict(zip(("store_type", "campaign", "process", "file_type"), parts[1:5]))
    return f if f["store_type"] in ("data", "mc") else None


def ident(features):
    return hashlib.blake2s(json.dumps([[k, features[k]] for k in sorted(features)]).encode()).hexdigest()


def expect_final(recs):
    tmp = {}
    for r in recs:
        if r["Type"] != "analysis":
            continue
        f = file_features(r["FileName"])
        if f is None:
            continue
        k = ident(f)
        e = tmp.setdefault(k, dict(tot_wrap_cpu=0., tot_requests=0, features=f, id=k))
        e["tot_wrap_cpu"] += float(r["WrapCPU"])
        e["tot_requests"] += 1
    if not tmp:
        return None
    avg = sum(e["tot_wrap_cpu"] / e["tot_requests"] for e in tmp.values()) / len(tmp)
    for e in tmp.values():
        e["class"] = "good" if e["tot_wrap_cpu"] / e["tot_requests"] >= avg else "bad"
    return list(tmp.values())


def pipeline(name, kinds, most, sizes, patience):
    gen, stage = mod("dataset.generator"), mod("dataset.stage")

    def run(c):
        n = 1 + c.choose(most)
        recs = [rawrec(i, *c.pick(kinds)) for i in range(n)]
        want = expect_final(recs)
        if want is None:
            return  # nothing of interest in the window
        raw_batch, batch = c.pick(sizes), c.pick(sizes)
        split = c.choose(n)
        sources = [recs[:split], recs[split:]] if split else [recs]
        use_spark = c.flag()
        c.note("records %s in %d sources, batches of %d and %d%s" % ([(r["FileName"][-12:], r["WrapCPU"], r["Type"]) for r in recs], len(sources), raw_batch, batch, ", Spark" if use_spark else ""))
        SCHED.start(c, 100, patience)
        Context.defaultParallelism = 2
        saved = []

        class Source:
            def get(self):
                return (iter(s) for s in sources)

            def set(self, data, stage_name=""):
                saved.append((stage_name, [dict(r) for r in data]))
        p = gen.Pipeline("demo", [stage.CMSRawStage(batch_size=raw_batch), stage.CMSFeaturedStage(), stage.CMSRecordTest0Stage()], source=Source(), batch_size=batch)
        p.run(save_stage=True, use_spark=use_spark)
        got = list(p.result)
        if canon(got) != canon(want):
            c.fail("result %s, should be %s" % (canon(got), canon(want)))
        c.equal([s for s, _ in saved], ["CMS-raw", "CMS-Featured", "CMS-Record-Test0"], "stages saved")
        raws = [r for r in recs if r["Type"] == "analysis"]
        c.equal(canon(s["features"] for s in saved[0][1]), canon({k: r[k] for k in RAW} for r in raws), "records of the raw stage")
        c.require(all(s["id"] == s["features"]["FileName"] and s["valid"] is True for s in saved[0][1]), "raw records without their mark")
        feats = [dict(data={k: r[k] for k in RAW}, features=file_features(r["FileName"]), id=ident(file_features(r["FileName"])), valid=True) for r in raws if file_features(r["FileName"])]
        for s in saved[1][1]:
            s["id"] = s["id"] or ident(s["features"])
        c.equal(canon(saved[1][1]), canon(feats), "records of the featured stage")
        c.equal(p.stats["result"]["len"], len(want), "length in the statistics")
        p.save(out_dir="out")
        with gzip.open("out/demo.json.gz", "rb") as f:
            c.equal(canon(json.loads(l) for l in f.read().splitlines()), canon(want), "saved dataset")
        with open("out/demo.stats.json") as f:
            c.equal(json.load(f)["result"]["len"], len(want), "length in the saved statistics")
        c.state(canon(want))
    return Suite(name, "the raw, featured and record stages one after the other over 1..%d records out of %d kinds in one or two sources, batches of %s records, on processes that end in every order and on a stand-in of Spark; the saved dataset and the stages saved on the way" % (most, len(kinds), sizes), run)


def classes(most, scores):
    stage, ext = mod("dataset.stage"), mod("datafeatures.extractor")

    def run(c):
        n = 1 + c.choose(most)
        recs, want = [], {}
        for i in range(n):
            f = {"a": i, "b": "x"}
            cpu, req = c.pick(scores)
            tot, num = 0., 0
            for k in range(req):
                recs.append({"features": f, "data": {"WrapCPU": cpu if k else cpu * 1.}})
                tot += cpu
                num += 1
            want[ident(f)] = dict(tot_wrap_cpu=tot, tot_requests=num, features=f, id=ident(f))
        avg = sum(w["tot_wrap_cpu"] / w["tot_requests"] for w in want.values()) / len(want)
        for w in want.values():
            w["class"] = "good" if w["tot_wrap_cpu"] / w["tot_requests"] >= avg else "bad"
        cut = c.choose(len(recs)) if c.flag() else 0
        c.op("scores %s, batches cut at %d" % ([(w["tot_wrap_cpu"], w["tot_requests"]) for w in want.values()], cut))
        SCHED.start(c, 100, None)
        batches = [recs[:cut], recs[cut:]] if cut else [recs]
        got = list(stage.CMSRecordTest0Stage().run(iter(batches), use_spark=True))
        if canon(got) != canon(want.values()):
            c.fail("result %s, should be %s" % (canon(got), canon(want.values())))
        c.state(canon(want.values()))
    return Suite("classes", "the record stage over 1..%d combinations of features with every (CPU time, requests) of %s, in one batch or cut anywhere" % (most, scores), run)


def batches_suite():
    gen, stage, res = mod("dataset.generator"), mod("dataset.stage"), mod("dataset.resource")

    def run(c):
        n = c.choose(8)
        size = 1 + c.choose(4)
        recs = [{"i": i} for i in range(n)]
        want = [recs[i:i + size] for i in range(0, n, size)]
        c.op("%d records in batches of %d" % (n, size))
        c.equal(list(gen.Pipeline("x", [], batch_size=size).gen_batches(iter(recs), "s")), want, "batches of a pipeline")
        c.equal(list(res.CMSDatasetResourceManager("x", batch_size=size).gen_batches(iter(recs))), want, "batches of a resource")
        # across the sources of a window
        cut = c.choose(n + 1)
        c.equal(list(stage.CMSRawStage(batch_size=size).pre_input(iter([recs[:cut], [], recs[cut:]]))), want, "batches of the raw stage")
        c.state(n, size, cut)
    return Suite("batches", "0..7 records in batches of 1..4 from one source or two", run)


# --- C49 -----------------------------------------------------------------------

def windows():
    u = mod("dataset.utils")

    def run(c):
        start = c.pick([date(2018, 1, 1), date(2020, 2, 27), date(2019, 12, 30), date(2019, 2, 27)])
        size = c.choose(10)
        step = 1 + c.choose(4)
        nxt = c.flag()
        c.op("window of %d days from %s by %d, next %s" % (size, start, step, nxt))
        got = list(itertools.islice(u.gen_window_dates(start.year, start.month, start.day, size, step, nxt), 100))
        first = start + timedelta(days=size) if nxt else start
        want = []
        for k in range(0, size, step):
            d = first + timedelta(days=k)
            want.append((d.year, d.month, d.day))
        c.equal(got, want, "days")
        c.state(got)
    return Suite("windows", "windows of 0..9 days by steps of 1..4 from four dates, this and the next", run)


def tables(depth, words):
    u = mod("dataset.utils")

    def run(c):
        t = u.SupportTable()
        ref = {}      # feature -> set of values
        cur = None    # indexes of the last gen_indexes
        for _ in range(depth):
            k = c.choose(4)
            if k == 0:
                f = c.pick(["f1", "f2"])
                v = c.pick(words)
                unknown = c.flag()
                c.op("insert %s in %s%s" % (v, f, "" if unknown else ", without unknown"))
                t.insert("features", f, v, unknown)
                ref.setdefault(f, set()).add(v)
                if unknown:
                    ref[f].add("__unknown__")
            elif k == 1:
                c.op("indexes")
                t.gen_indexes()
                cur = {f: {v: i for i, v in enumerate(sorted(vs, key=lambda x: x.lower()))} for f, vs in ref.items()}
            elif k == 2:
                if c.flag():
                    c.op("pickle")
                    t = pickle.loads(pickle.dumps(t)) if False else _pickled(u, t)
                elif cur is not None:
                    c.op("from its dictionary")
                    t = u.SupportTable(json.loads(json.dumps(t.to_dict())))
                    ref = {f: set(vs) for f, vs in cur.items()}
            elif k == 3 and cur:
                c.op("convert")
                check(c, t, cur)
        t.gen_indexes()
        cur = {f: {v: i for i, v in enumerate(sorted(vs, key=lambda x: x.lower()))} for f, vs in ref.items()}
        if cur:
            check(c, t, cur)
        c.state(cur)

    def check(c, t, cur):
        c.equal(t.to_dict(), {"features": cur}, "indexes")
        c.equal(t.get_sorted_keys("features"), sorted(cur), "features")
        for f, idx in cur.items():
            c.equal(t.get_len("features", f), len(idx), "number of values of " + f)
            for v, i in idx.items():
                c.equal(t.get_value("features", f, v), i, "index of %s" % v)
                c.equal(t.get_close_value("features", f, v), i, "close index of %s" % v)
                c.equal(t.get_close_value("features", f, v + "+more"), i, "close index of %s+more" % v)
            if "__unknown__" in idx:
                c.equal(t.get_close_value("features", f, "!other"), idx["__unknown__"], "index of another value")
            else:
                try:
                    got = t.get_close_value("features", f, "!other")
                except KeyError:
                    got = None
                c.equal(got, None, "index of another value")
        for data in ({f: sorted(idx)[-1] for f, idx in cur.items()}, {f: sorted(idx)[0] for f, idx in cur.items()}):
            want = [cur[f][data[f]] for f in sorted(cur)]
            got = t.close_conversion("features", dict(data), normalized=True, one_hot=False)
            c.require(len(got) == len(want) and all(abs(g - w / len(cur[f])) < 1e-12 for g, w, f in zip(got, want, sorted(cur))), "normalized %r of %r" % (got, data))
            hot = []
            for f in sorted(cur):
                hot += [1. if i == cur[f][data[f]] else 0. for i in range(len(cur[f]))]
            c.equal(t.close_conversion("features", dict(data), normalized=False, one_hot=True), hot, "one hot of %r" % data)
            for flag in (True, False):
                try:
                    t.close_conversion("features", dict(data), normalized=flag, one_hot=flag)
                except AssertionError:
                    continue
                c.fail("normalized and one hot %s was accepted" % flag)
    return Suite("tables", "every sequence of %d steps (insert one of %s in one of two features with or without an unknown value, make the indexes, convert, pickle, copy through its dictionary), then every conversion" % (depth, words), run)


def _pickled(u, t):
    n = u.SupportTable.__new__(u.SupportTable)
    n.__setstate__(pickle.loads(pickle.dumps(t.__getstate__())))
    return n


def reduced(words):
    u = mod("dataset.utils")

    def run(c):
        t = u.SupportTable()
        vals = []
        for _ in range(1 + c.choose(3)):
            v = c.pick(words)
            vals.append(v)
            t.insert("features", "process", v)
        lvl = c.choose(3)
        c.op("reduce %s to %d" % (vals, lvl))
        t.reduce_categories("features", "process", filter_=t.filters.simple_split, lvls=lvl)
        t.gen_indexes()
        idx = t.to_dict()["features"]["process"]
        split = [v.replace("-", " ").replace("_", " ").split() for v in vals]
        c.require("__unknown__" in idx, "no unknown value")
        got = sorted(k for k in idx if k != "__unknown__")
        c.equal(sorted(set(k.split()[0] for k in got)), sorted(set(s[0] for s in split)), "first words")
        c.equal(len(got), len(set(s[0] for s in split)), "number of categories")
        for k in got:
            w = k.split()
            c.require(any(s[:len(w)] == w for s in split), "%r comes from no value of %r" % (k, vals))
            c.require(len(w) <= lvl + 1, "%r has more than %d words" % (k, lvl + 1))
            c.require(len(w) == lvl + 1 or any(s == w for s in split), "%r is shorter than needed for %r" % (k, vals))
        c.equal(sorted(idx.values()), list(range(len(idx))), "indexes")
        c.state(got)
    return Suite("reduce", "up to 3 values out of %s reduced to 0..2 more words" % words, run)


def features(depth):
    x = mod("datafeatures.extractor")

    def run(c):
        # records that are added up
        long = "x" * 300
        fs = [{"a": 1, "b": "x"}, {"b": "x", "a": 1}, {"a": 1, "b": "y"}]
        if c.flag():
            fs = [{"a": long, "b": "x"}, {"a": long, "b": "y"}, {"b": "x", "a": long}]
        acc = None
        tot, num = 0., 0
        for _ in range(1 + c.choose(depth)):
            k = c.choose(3)
            cpu = c.pick([0, 2.5, "7"])
            if acc is None or k < 2:
                r = x.CMSRecordTest0({"features": fs[k], "data": {"WrapCPU": cpu}})
                reqs, each = 1, float(cpu)
                if c.flag():  # one that is a sum already
                    r = x.CMSRecordTest0().load({"tot_wrap_cpu": each, "tot_requests": 3, "features": dict(fs[k]), "class": "UNKNOWN", "id": None})
                    reqs = 3
                c.op("record %s cpu %s of %d" % (fs[k], cpu, reqs))
                c.equal(r.record_id, ident(fs[k]), "id")
                if acc is None:
                    acc, feat = r, fs[k]
                elif c.flag():
                    acc += r
                else:
                    acc = acc + r
                c.equal((r.tot_wrap_cpu, r.tot_requests) if r is not acc else (each, reqs), (each, reqs), "the record added")
                tot += each
                num += reqs
            else:
                c.op("through a dictionary, or text")
                d = acc.to_dict()
                acc = x.CMSRecordTest0().load(json.loads(acc.dumps()) if c.flag() else dict(d))
            c.require(abs(acc.tot_wrap_cpu - tot) < 1e-9 and acc.tot_requests == num, "sum %r over %r, should be %r over %r" % (acc.tot_wrap_cpu, acc.tot_requests, tot, num))
            c.require(abs(acc.score - tot / num) < 1e-9, "score %r" % acc.score)
            c.equal(acc.record_id, ident(feat), "id of the sum")
            c.equal(dict(acc.feature), feat, "features of the sum")
            c.equal(list(acc.features), sorted(feat.items()), "ordered features")
            c.equal(acc.feature_list, sorted(feat.items()), "list of features")
            c.equal(list(acc.features2array()), [feat[k] for k in sorted(feat)], "array of features")
        cls = c.pick(["good", "bad", "ugly"])
        try:
            acc.set_class(cls)
            ok = True
        except AssertionError:
            ok = False
        c.equal(ok, cls != "ugly", "class %s accepted" % cls)
        c.equal(acc.to_dict()["class"], cls if ok else "UNKNOWN", "class")
        two = pickle.loads(pickle.dumps(acc))
        c.equal(two.to_dict(), acc.to_dict(), "pickled")
        c.state(tot, num, cls)
    return Suite("records", "every sum of up to %d records with three feature sets and CPU times, stored and loaded in between" % depth, run)


def popularity():
    x = mod("datafeatures.extractor")

    def run(c):
        parts = c.choose(7)
        kind = c.pick(["data", "mc", "user", "Data", ""])
        slash = c.pick(["/", "//", ""])
        name = slash + "/".join(["store", kind, "Run", "Proc", "TYPE", "v1", "f.root"][:parts + 1])
        if c.flag():
            name = "unknown"
        c.op(name)
        want = file_features(name)
        data = {"FileName": name, "WrapCPU": 3, "Other": "o"}
        r = x.CMSDataPopularity(dict(data))
        c.equal(bool(r), want is not None, "validity")
        if want is not None:
            c.equal(dict(r.feature), want, "features")
            c.equal(r.record_id, ident(want), "id")
            c.equal(r.WrapCPU, 3, "WrapCPU")
            t = x.CMSRecordTest0(r)
            c.equal(dict(t.feature), want, "features of the record")
            c.equal(t.record_id, ident(want), "id of the record")
            c.equal(t.tot_wrap_cpu, 3., "CPU time of the record")
            d = r.to_dict()
            c.equal(d["data"], data, "data")
            c.equal(x.CMSRecordTest0(d).record_id, ident(want), "id through a dictionary")
            c.equal(x.CMSRecordTest0(json.loads(r.dumps())).to_dict(), x.CMSRecordTest0(d).to_dict(), "record through text")
        c.state(name, want)
    return Suite("file-names", "names of 1..7 parts with five kinds of stores", run)


def rawrecords():
    x = mod("datafeatures.extractor")

    def run(c):
        typ = c.pick(["analysis", "production", "Analysis", ""])
        f = c.choose(len(FILES))
        rec = rawrec(3, f, 1.5, typ)
        c.op("type %r, file %s" % (typ, FILES[f]))
        r = x.CMSDataPopularityRaw(dict(rec))
        c.equal(bool(r), typ == "analysis", "validity")
        c.equal(r.valid, typ == "analysis", "validity")
        want = {k: rec[k] for k in RAW} if typ == "analysis" else {}
        c.equal(dict(r.feature), want, "features")
        c.equal(r.to_dict(), {"features": want, "id": FILES[f], "valid": typ == "analysis"}, "dictionary")
        two = x.CMSDataPopularityRaw().loads(r.dumps())
        c.equal(two.to_dict(), r.to_dict(), "through text")
        if want:
            c.equal(r.SiteName, rec["SiteName"], "SiteName")
        small = x.CMSDataPopularityRaw(dict(rec), feature_list=["SiteName", "Type"], filters=[("SiteName", lambda e: e.startswith("Site")), ("Type", lambda e: e != "")])
        c.equal(small.to_dict(), {"features": {"SiteName": rec["SiteName"], "Type": typ} if typ else {}, "id": rec["SiteName"], "valid": bool(typ)}, "other features")
        c.state(typ, f)
    return Suite("raw-records", "records of four types and six file names", run)


def prop(pid, tier, repo):
    load(repo)
    deep = tier == "thorough"
    A, B = "analysis", "production"
    if pid == "C48":
        kinds = [(0, 10., A), (1, 20., A), (2, 3., A), (3, 5., A), (4, 1., A), (0, 7., B), (5, 2., A)]
        return Property([
            stage_schedules("one-record", [(), (1,), (1, 1), (1, 1, 1)] + ([(1, 1, 1, 1)] if deep else []), [1, 2], 100, 1),
            stage_schedules("two-records", [(2, 1), (2, 2), (0, 1), (1, 0, 1)] + ([(2, 1, 2)] if deep else []), [1, 2], 100, 1),
            stage_schedules("patience", [(1, 1)] + ([(1, 1, 1)] if deep else []), [1, 2], 100, 2),
            stage_schedules("narrow", [(3, 2), (5,), (2, 2)] + ([(2, 2, 1)] if deep else []), [1, 2, 3], 1, 1),
            spark_stage(),
            pipeline("pipeline", kinds, 3 if deep else 2, [1, 2], None),
            pipeline("pipeline-three", [kinds[0], kinds[1], kinds[2]], 4 if deep else 3, [2], None),
            stage_schedules("questions", [(1,), (2,), (1, 1)] + ([(2, 1), (1, 1, 1)] if deep else []), [1, 2, 3], 100, 1, fine=True),
            classes(4, [(0., 1), (1., 1), (4., 1), (2., 3), (1., 2)] if deep else [(0., 1), (1., 1), (4., 1), (2., 2)]),
            batches_suite(),
        ], ["the processes and the queue of the multiprocessing module, Spark and the avro library are replaced by stand-ins; a process exits only after its results are in the queue, as the module guarantees"])
    words = ["alpha", "Beta", "gamma-1"]
    return Property([
        windows(),
        tables(5 if deep else 4, words),
        reduced(["QCD-a-b", "QCD_b_c", "QCD", "DY-x", "DY-x-y-z", "W_1"]),
        features(4 if deep else 3),
        popularity(),
        rawrecords(),
    ])
