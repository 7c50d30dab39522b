"""C51: the converter program of the probe, stopped at any moment and started
again, or run several times."""
import builtins
import csv
import gzip
import importlib
import io
import os
import pickle
import random
import shutil
import sys
import types

import stubs
import p_probe
from explore import HarnessError, Property, Suite

INT, OBJECT, FLOAT = "int64", "object", "float64"


class Crash(BaseException):
    """The program is killed."""


class Disk:
    """Where the program can be killed: before every change of the file system
    and in the middle of every write.  Nothing it does afterwards counts."""

    def __init__(self):
        self.c = None       # the chooser while the program runs
        self.left = 0       # how often it may still be killed
        self.dead = False

    def step(self, what, size=0):
        """Returns how much of a write gets through; None: all of it."""
        if self.c is None:
            return None
        if self.dead:
            return 0
        if not self.left:
            return None
        cuts = [0] + ([size // 2] if size > 1 else [])
        k = self.c.choose(1 + len(cuts))
        if not k:
            return None
        self.left -= 1
        self.c.op("killed at %s%s" % (what, " after %d of %d bytes" % (cuts[k - 1], size) if size else ""))
        self.dead = True
        return cuts[k - 1]


disk = Disk()


class Raw(io.FileIO):
    def write(self, b):
        b = bytes(b)
        n = disk.step("write", len(b))
        if n is None:
            return super().write(b)
        if n:
            super().write(b[:n])
        if not getattr(self, "cut", False):
            self.cut = True
            raise Crash()
        return len(b)

    def truncate(self, *a):
        if disk.step("truncate") is None:
            return super().truncate(*a)
        raise Crash()


real_open, real_os_open, real_os_write = builtins.open, os.open, os.write


def open_(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if disk.c is None or not set(mode) & set("wax+"):
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if disk.dead or disk.step("open %s" % (os.path.basename(file) if isinstance(file, str) else "")) is not None:
        raise Crash()
    raw = Raw(file, mode.replace("b", "").replace("t", ""), closefd, opener)
    if "b" in mode and buffering == 0:
        return raw
    buf = (io.BufferedRandom if "+" in mode else io.BufferedWriter)(raw)
    if "b" in mode:
        return buf
    return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)


def os_open(path, flags, *a, **k):
    if disk.c is not None and flags & (os.O_CREAT | os.O_TRUNC):
        if disk.step("open") is not None:
            raise Crash()
    return real_os_open(path, flags, *a, **k)


def os_write(fd, b):
    if disk.c is not None:
        n = disk.step("write", len(b))
        if n is not None:
            if n:
                real_os_write(fd, b[:n])
            raise Crash()
    return real_os_write(fd, b)


def guard(name):
    real = getattr(os, name)

    def f(*a, **k):
        if disk.c is not None and disk.step(name) is not None:
            raise Crash()
        return real(*a, **k)
    f.__name__ = name
    return f


class Strings:
    def __init__(self, s):
        self.s = s

    def contains(self, text, case=True, regex=True):
        f = (lambda x: x) if case else str.lower
        return [f(text) in f(x) for x in self.s]


class Series(p_probe.Series):
    def __init__(self, it=(), dtype=None):
        super().__init__(it)
        self.dtype = dtype or (INT if all(type(x) is int for x in self) else OBJECT)

    @property
    def str(self):
        if self.dtype != OBJECT:
            raise AttributeError("Can only use .str accessor with string values!")
        return Strings(self)

    def map(self, f):
        return Series([f(x) for x in self], None if self else OBJECT)

    def astype(self, t):
        return Series([t(x) for x in self], INT if t is int else None)


class Frame:
    def __init__(self, cols):
        self.cols = cols

    @property
    def columns(self):
        return list(self.cols)

    @property
    def dtypes(self):
        return [s.dtype for s in self.cols.values()]

    @property
    def shape(self):
        return (len(self), len(self.cols))

    def __len__(self):
        return len(next(iter(self.cols.values())))

    def __contains__(self, k):
        return k in self.cols

    def __getattr__(self, k):
        if k.startswith("__") or k not in self.cols:
            raise AttributeError(k)
        return self.cols[k]

    def __getitem__(self, k):
        if isinstance(k, list):
            if len(k) != len(self):
                raise ValueError("mask of another length")
            return Frame({n: Series([x for x, m in zip(s, k) if m], s.dtype) for n, s in self.cols.items()})
        return self.cols[k]

    def __setitem__(self, k, v):
        if len(v) != len(self):
            raise ValueError("Length of values does not match length of index")
        self.cols[k] = v if isinstance(v, Series) else Series(v)

    def copy(self, deep=True):
        return Frame({n: Series(s, s.dtype) for n, s in self.cols.items()})

    def reset_index(self, drop=False, inplace=False):
        return None if inplace else self

    def sample(self, frac=None, random_state=None):
        order = list(range(len(self)))
        random.Random(random_state).shuffle(order)
        return Frame({n: Series([s[i] for i in order], s.dtype) for n, s in self.cols.items()})

    def to_csv(self, to, index=True, compression="infer"):
        if index:
            raise HarnessError("to_csv with an index")
        lines = [",".join(self.cols)] + [",".join(str(x) for x in row) for row in zip(*self.cols.values())]
        if isinstance(to, (str, os.PathLike)):
            name = os.fspath(to)
            if compression == "infer":
                compression = "gzip" if name.endswith(".gz") else None
            f = open_(name, "wb")
            with f:
                if compression == "gzip":
                    with gzip.GzipFile(filename="", mode="wb", fileobj=f, mtime=0) as z:
                        write(f, z, lines)
                else:
                    write(f, f, lines)
        else:
            for l in lines:
                to.write(l + "\n" if isinstance(to, io.TextIOBase) else (l + "\n").encode())


def write(f, z, lines):
    for i, l in enumerate(lines):
        z.write((l + "\n").encode())
        if i % 2 == 0:
            z.flush()
            f.flush()


def read_csv(f, index_col=None):
    if isinstance(f, (str, os.PathLike)):
        with real_open(f, "rb") as g:
            data = g.read()
            if str(f).endswith(".gz"):
                data = gzip.decompress(data)
    else:
        data = f.read()
    rows = list(csv.reader(data.decode().splitlines()))
    if not rows:
        raise ValueError("No columns to parse from file")
    cols = {}
    for i, name in enumerate(rows[0]):
        vals = [r[i] if i < len(r) else "" for r in rows[1:]]
        try:
            cols[name] = Series([int(v) for v in vals], INT if vals else OBJECT)
        except ValueError:
            cols[name] = Series(vals, OBJECT)
    return Frame(cols)


def load(repo):
    if "pandas" in sys.modules:
        return
    stubs.tqdm()
    stubs.missing("pandas", "pygments.formatters", "pygments.lexers")
    pd = sys.modules["pandas"]
    pd.read_csv, pd.StringDtype, pd.DataFrame = read_csv, OBJECT, Frame
    pd.to_datetime = lambda s, unit=None: Series(["2018-01-%02d" % (x // 86400 + 1) for x in s], "datetime64[ns]")
    np = types.ModuleType("numpy")
    np.array_split, np.int64 = p_probe.array_split, INT
    sys.modules["numpy"] = np
    col = types.ModuleType("colorama")
    col.Fore = types.SimpleNamespace(MAGENTA="", YELLOW="", RED="", GREEN="")
    col.Style = types.SimpleNamespace(BRIGHT="", RESET_ALL="")
    col.init = lambda *a, **k: None
    sys.modules["colorama"] = col
    import multiprocessing
    import pathlib  # noqa: before open is replaced
    import tempfile  # noqa
    builtins.open = io.open = open_
    tempfile._io.open = open_
    os.open, os.write = os_open, os_write
    for name in ("rename", "replace", "remove", "unlink", "rmdir", "mkdir", "link", "symlink", "truncate"):
        setattr(os, name, guard(name))
    sys.path.insert(0, repo + "/Probe")
    load.pool = p_probe.Pool
    multiprocessing.Pool = p_probe.Pool
    os.cpu_count = lambda: 2


def start(c, argv, kills):
    """Runs the program; True if it was killed."""
    old = sys.argv
    sys.argv = ["converter"] + argv
    disk.c, disk.left, disk.dead = c, kills, False
    c.op("run " + " ".join(argv))
    try:
        importlib.import_module("probe.converter.__main__").main()
    except Crash:
        if not disk.dead:
            raise HarnessError("killed without reason")
    finally:
        dead = disk.dead
        disk.c, disk.left = None, 0
        sys.argv = old
    if dead:
        if "probe.converter.__main__" not in sys.modules:
            raise HarnessError("killed while importing")
    return dead


# site, user file, requests: rows of the traces
ROWS = [
    [("T2_US_Van", "/store/data/R16/QCD/AOD/1.root"), ("T1_IT_CNAF", "/store/mc/S16/DY/AOD/2.root")],
    [("T1_IT_CNAF", "/store/mc/S16/QCD/AOD/3.root"), ("T2_DE_X", "/store/data/R17/W/AOD/1.root"), ("T2_US_Van", "/store/data/R16/QCD/AOD/1.root")],
    [("T2_DE_X", "/store/user/a/b/AOD/4.root")],
]
OBJECTS = ["SiteName", "Filename", "Region", "Campain", "Process"]


def table(kind):
    rows = ROWS[kind]
    return Frame({
        "Filename": Series([f for _, f in rows], OBJECT), "SiteName": Series([s for s, _ in rows], OBJECT),
        "Size": Series(range(10 * kind, 10 * kind + len(rows))), "reqDay": Series([86400 * i for i in range(len(rows))]),
    })


def expected(order, region, seed):
    """The rows of every converted file, with the numbers an uninterrupted run
    over the files in this order gives."""
    numbers, out = {}, {}
    for name, kind in order:
        f = table(kind)
        if region != "all":
            f = f[["_%s_" % region in s.lower() for s in f["SiteName"]]]
        f = f.copy()
        f["Region"] = Series([s.split("_")[1].lower() for s in f["SiteName"]], OBJECT)
        f["Campain"] = Series([s.split("/")[3] for s in f["Filename"]], OBJECT)
        f["Process"] = Series([s.split("/")[4] for s in f["Filename"]], OBJECT)
        if seed is not None:
            f = f.sample(frac=1, random_state=seed)
        cols = {}
        for k in f.columns:
            if k in OBJECTS:
                d = numbers.setdefault(k, {})
                for v in f[k]:
                    d.setdefault(v, len(d))
                cols[k] = [d[v] for v in f[k]]
            else:
                cols[k] = list(f[k])
        out[name] = cols
    return numbers, out


def output(name, region, seed):
    return name.replace("results_", "results_numeric_%s_" % region if seed is None else "results_numeric_%s_shuffle_%d" % (region, seed))


def check(c, inputs, done):
    """done: (region, seed, trace) in the order of their conversion."""
    want = set(n for n, _ in inputs)
    for region in sorted(set(d[0] for d in done)):
        container = "container_%s_.pickle" % region
        c.require(os.path.isfile(container), "no container of the numbers")
        with real_open(container, "rb") as f:
            k = pickle.load(f)
        numbers = {}
        for r, seed, (n, kind) in done:
            if r != region:
                continue
            want.add(output(n, region, seed))
            # the numbers go on with those of the earlier conversions
            vals, one = expected([(n, kind)], region, seed)
            for col, d in vals.items():
                t = numbers.setdefault(col, {})
                for v in d:
                    t.setdefault(v, len(t))
            inverse = {col: {i: v for v, i in d.items()} for col, d in vals.items()}
            path = os.path.join("in", output(n, region, seed))
            c.require(os.path.isfile(path), "%s was not converted" % n)
            try:
                got = read_csv(path)
            except Exception as e:
                c.fail("%s cannot be read: %s" % (path, e))
            c.equal(sorted(got.columns), sorted(list(one[n]) + (["day"] if n.endswith(".gz") else [])), "columns of " + path)
            for col in one[n]:
                w = one[n][col]
                if col in inverse:
                    w = [numbers[col][inverse[col][i]] for i in w]
                c.equal([int(x) for x in got[col]], w, "%s of %s" % (col, path))
        for col, d in numbers.items():
            c.equal(dict(k.get(col)), d, "numbers of %s in the container" % col)
    have = set(f for f in os.listdir("in") if "csv" in f)
    extra = sorted(have - want)
    c.require(not extra, "files that no trace asked for: %s" % ", ".join(extra))
    missing = sorted(want - have)
    c.require(not missing, "files missing: %s" % ", ".join(missing))
    for n, kind in inputs:
        c.equal(dict(read_csv(os.path.join("in", n)).cols), dict(table(kind).cols), "the trace " + n)


def scene(c):
    for d in ("scene",):
        shutil.rmtree(d, ignore_errors=True)
    os.mkdir("scene")
    os.mkdir("scene/in")


def args(c, region, seed, path="in"):
    a = [path]
    if region != "all":
        a += ["--region", region]
    if seed is not None:
        a += ["--shuffle", "true", "--seed", str(seed)]
    return a


def crash(kills, runs, files):
    def run(c):
        cwd = os.getcwd()
        scene(c)
        os.chdir("scene")
        try:
            ext = [".csv", ".csv.gz"][c.choose(2)]
            inputs = []
            for i in range(files):
                kind = c.choose(len(ROWS))
                inputs.append(("results_2018-%02d%s" % (i + 1, ext), kind))
                table(kind).to_csv("in/" + inputs[-1][0], index=False)
            region, seed = c.pick([("all", None), ("us", None), ("all", 7)])
            c.op("traces %s" % inputs)
            killed = 0
            while start(c, args(c, region, seed), kills - killed):
                killed += 1
            if killed == 0 and runs > 1:
                start(c, args(c, region, seed), 0)
            check(c, inputs, [(region, seed, x) for x in inputs])
            c.state(inputs, region, seed, c.trace)
        finally:
            os.chdir(cwd)
    return Suite("killed-%d-%d" % (kills, files), "%d traces (plain and compressed) of 1..3 rows converted: killed up to %d times before any change of the file system or in the middle of any write, and started again until it ends" % (files, kills), run)


RUNS = [("all", None), ("us", None), ("all", 7), ("all", 8)]


def repeat(depth):
    def run(c):
        cwd = os.getcwd()
        scene(c)
        os.chdir("scene")
        try:
            inputs, done = [], []
            for step in range(depth):
                op = c.choose(3)
                if op == 0 or not inputs:
                    kind = c.choose(2)
                    n = "results_2018-%02d%s" % (len(inputs) + 1, [".csv", ".csv.gz"][(len(inputs) + kind) % 2])
                    table(kind).to_csv("in/" + n, index=False)
                    inputs.append((n, kind))
                    c.op("new trace %s: %s" % (n, ROWS[kind]))
                    continue
                region, seed = c.pick(RUNS)
                if op == 1:
                    new = list(inputs)
                    start(c, args(c, region, seed), 0)
                else:
                    new = [inputs[-1]]
                    start(c, args(c, region, seed, "in/" + inputs[-1][0]), 0)
                for x in new:
                    if (region, seed, x) not in done:
                        done.append((region, seed, x))
            check(c, inputs, done)
            c.state(inputs, done)
        finally:
            os.chdir(cwd)
    return Suite("repeated", "every sequence of %d steps: a new trace of 2 kinds, or a conversion of the folder or of the last trace for all regions, one region, or shuffled with one of two seeds" % depth, run)


def prop(pid, tier, repo):
    load(repo)
    deep = tier == "thorough"
    return Property([crash(1, 2, 2), crash(2, 2, 2 if deep else 1), repeat(5 if deep else 4)],
                    ["the data frame library, its csv files, the process pool and the progress bars are replaced by stand-ins; being killed means that no later change of the file system happens, renaming is atomic and changes happen in order"])
