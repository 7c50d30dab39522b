"""C50: the numbers the converter of the probe gives to category values."""
import importlib
import json
import multiprocessing
import os
import pickle
import sys
import types

import stubs
from explore import Property, Suite


class Series(list):
    def map(self, f):
        return Series(f(x) for x in self)

    def to_numpy(self):
        return list(self)

    def astype(self, t):
        return Series(t(x) for x in self)

    def unique(self):
        out = Series()
        for x in self:
            if x not in out:
                out.append(x)
        return out

    def tolist(self):
        return list(self)


class Frame:
    """Columns of a data frame, as far as the converter uses them."""

    def __init__(self, **cols):
        self.data = {k: Series(v) for k, v in cols.items()}

    @property
    def columns(self):
        return list(self.data)

    def __contains__(self, k):
        return k in self.data

    def __getitem__(self, k):
        return self.data[k]

    def __setitem__(self, k, v):
        if self.data and len(v) != len(next(iter(self.data.values()))):
            raise ValueError("length of values does not match")
        self.data[k] = Series(v)


class Pool:
    def __init__(self, n=None):
        pass

    def map(self, f, items):
        return [pickle.loads(pickle.dumps(f(pickle.loads(pickle.dumps(x))))) for x in items]

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def array_split(a, n):
    k, m = divmod(len(a), n)
    return [a[i * k + min(i, m):(i + 1) * k + min(i + 1, m)] for i in range(n)]


def load(repo):
    if "probe.converter.utils" in sys.modules:
        return
    stubs.tqdm()
    stubs.missing("pandas", "pygments.formatters", "pygments.lexers")
    np = types.ModuleType("numpy")
    np.array_split = array_split
    sys.modules["numpy"] = np
    col = types.ModuleType("colorama")
    col.Fore = types.SimpleNamespace(MAGENTA="", YELLOW="", RED="", GREEN="")
    col.Style = types.SimpleNamespace(BRIGHT="", RESET_ALL="")
    sys.modules["colorama"] = col
    pyg = sys.modules["pygments"]
    pyg.highlight = lambda text, lexer, formatter: text
    sys.modules["pygments.lexers"].JsonLexer = sys.modules["pygments.formatters"].TerminalFormatter = lambda: None
    pyg.formatters, pyg.lexers = sys.modules["pygments.formatters"], sys.modules["pygments.lexers"]
    sys.path.insert(0, repo + "/Probe")
    old = multiprocessing.Pool
    multiprocessing.Pool = Pool
    cpus, os.cpu_count = os.cpu_count, lambda: 2
    try:
        importlib.import_module("probe.converter.utils")
        importlib.import_module("probe.converter.extractor")
    finally:
        multiprocessing.Pool = old
        os.cpu_count = cpus
    sys.modules["probe.converter.utils"].cpu_count = lambda: 2


VALUES = ["us", "it", "", "a.b", 0, 1]


def container(depth):
    m = sys.modules["probe.converter.utils"]

    def run(c):
        k = m.CategoryContainer()
        ref = {}
        for _ in range(depth):
            op = c.choose(4)
            if op < 2:
                cats = {}
                for name in (["Site"], ["Site", "User"])[op]:
                    if name == "User":
                        vals = c.pick([["us"], ["b", "us"], [0, "it"], []])
                    else:
                        i = c.choose(len(VALUES))
                        vals = [VALUES[i], VALUES[(i + 1) % len(VALUES)]] if c.flag() else [VALUES[i]]
                    cats[name] = vals
                    d = ref.setdefault(name, {})
                    for v in vals:
                        d.setdefault(v, len(d))
                c.op("update %r" % cats)
                k.update(cats, "file.csv")
            elif op == 2:
                c.op("pickle")
                k = pickle.loads(pickle.dumps(k))
            else:
                c.op("query")
                check(c, k, ref)
        check(c, k, ref)
        c.state(ref)

    def check(c, k, ref):
        c.equal(json.loads(k.query("categories")), {"keys": list(ref)}, "categories")
        for name, d in ref.items():
            c.equal(dict(k.get(name)), d, "numbers of " + name)
            for v, i in d.items():
                c.equal(k.get(name, v), i, "number of %r" % (v,))
            text = {str(a) if not isinstance(a, str) else a: b for a, b in d.items()}
            got = json.loads(k.query("all." + name, True))
            c.equal(got, {name: text}, "query of all by number")
            c.equal(list(got[name].values()), sorted(text.values()), "order by number")
            if all(isinstance(v, str) for v in d):
                got = json.loads(k.query("all." + name))
                c.equal(got, {name: text}, "query of all")
                c.equal(list(got[name]), sorted(text), "order by value")
            for v, i in d.items():
                if isinstance(v, str):
                    c.equal(json.loads(k.query("valueOf.%s.%s" % (name, v))), {name: {v: i}}, "query of %r" % v)
        for bad in ("nothing", "some.Site"):
            try:
                k.query(bad)
            except Exception:
                continue
            c.fail("query %r was accepted" % bad)
    return Suite("container", "every sequence of %d updates of one or two categories with 1..2 of 6 values (the other one with four sets of values, one empty), pickling and queries" % depth, run)


def convert(most):
    m = sys.modules["probe.converter.utils"]

    def run(c):
        k = m.CategoryContainer()
        names = {}
        for f in range(2):
            n = c.choose(most + 1)
            if f and n > 2:
                n = 9 if n == 3 else 17
            site = [["T2_US", "T1_IT", "x"][c.choose(3)] if n <= most else "T%d" % (i % 4) for i in range(n)]
            user = ["u%d" % ((i * 2) % 3) for i in range(n)]
            df = Frame(Site=site, User=user, Size=list(range(n)))
            cats = {"Site": Series(site).unique().tolist(), "User": Series(user).unique().tolist()}
            c.op("file %d: %s %s" % (f, site, user))
            k.update(cats, "f")
            for col, vals in (("Site", site), ("User", user)):
                d = names.setdefault(col, {})
                for v in vals:
                    d.setdefault(v, len(d))
            out = m.convert_categories("f", df, cats, k)
            c.equal(list(out["Site"]), [names["Site"][s] for s in site], "sites")
            c.equal(list(out["User"]), [names["User"][s] for s in user], "users")
            c.equal(list(out["Size"]), list(range(n)), "another column")
            c.equal(out.columns, ["Site", "User", "Size"], "columns")
        c.state(names)
    return Suite("convert", "two files of up to %d rows (or 9 and 17) converted with one container, split in 8 parts" % most, run)


def info():
    x = sys.modules["probe.converter.extractor"]

    def run(c):
        have = [c.flag() for _ in range(3)]
        n = c.choose(4)
        sites = ["T2_US_Vanderbilt", "T1_IT_CNAF", "T3_cH_x_y", "T2_X_y_z_w"][:n + 1]
        files = ["/store/data/Run2016B/DoubleEG/MINIAOD/v/0.root", "/store/mc/S16/QCD/AOD/v/1.root", "/store/user/x/y/AOD/v/12/34/56/2.root", "/store/user/x/y/z"][:n + 1]
        df = Frame(SiteName=sites, Filename=files)
        for h, name in zip(have, ("Region", "Campain", "Process")):
            if h:
                df[name] = ["kept"] * len(sites)
        c.op("%s %s" % (sites, have))
        out = x.check_filename_info(x.check_region_info(df))
        c.equal(list(out["Region"]), ["kept"] * len(sites) if have[0] else ["us", "it", "ch", "x"][:n + 1], "regions")
        c.equal(list(out["Campain"]), ["kept"] * len(sites) if have[1] else ["Run2016B", "S16", "x", "x"][:n + 1], "campaigns")
        c.equal(list(out["Process"]), ["kept"] * len(sites) if have[2] else ["DoubleEG", "QCD", "y", "y"][:n + 1], "processes")
        c.equal(list(out["SiteName"]), sites, "sites")
        c.state(sites, have)
    return Suite("columns", "1..4 rows with every subset of the derived columns given", run)


def prop(pid, tier, repo):
    load(repo)
    deep = tier == "thorough"
    return Property([container(4 if deep else 3), convert(5 if deep else 4), info()],
                    ["data frames, the process pool, the colours of the output and the progress bars are replaced by stand-ins"])
