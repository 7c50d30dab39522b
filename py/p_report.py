"""C56, C57: the reports of the probe on simulations (Probe/probe/results)."""
import contextlib
import importlib
import io
import itertools
import math
import os
import shutil
import sys
import tempfile
import types

import minipd
import stubs
from explore import HarnessError, Property, Suite

NEVER = 2 ** 63 - 1   # distance of a file not requested before
LOG = ["tick", "action or event", "cache size", "cache capacity", "filename", "size", "num req", "delta t"]
PURGES = ["ONFREE", "ONDAYEND", "ONK", "FORCEDCALL", "FREE"]


class El:
    """An element of a page or a plot: what it was made of."""

    def __init__(self, kind, a, k):
        self.kind, self.a, self.k, self.calls = kind, list(a), dict(k), []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def f(*a, **k):
            self.calls.append((name, list(a), k))
            return self
        return f

    def write_html(self, name, **k):
        written.append((name, self))

    def traces(self):
        out = []
        for n, a, k in self.calls:
            if n == "add_trace":
                out.append((a[0] if a else k["trace"], k))
        return out


written = []      # figures written by a program


def plain(x):
    """A comparable picture of elements and values."""
    if isinstance(x, El):
        return ("El", x.kind, plain(x.a), plain(x.k), plain(x.calls))
    if isinstance(x, minipd.DataFrame):
        return ("frame", [(k, plain(v)) for k, v in x._c.items()])
    if isinstance(x, minipd.Series):
        return plain(list(x.values))
    if isinstance(x, dict):
        return tuple(sorted((str(k), plain(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(plain(y) for y in x)
    if isinstance(x, float):
        return "nan" if math.isnan(x) else repr(round(x, 9))
    if isinstance(x, int) and not isinstance(x, bool):
        return repr(float(x))
    return x


made = []         # elements made


class Maker:
    def __init__(self, full):
        self.full = full

    def __call__(self, *a, **k):
        e = El(self.full, a, k)
        if self.full.endswith("Corrplot"):
            made.append(e)
        return e

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Maker(self.full + "." + name)


class Kit(types.ModuleType):
    """A library of elements: Kit.Name(...) is an El."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        full = "%s.%s" % (self.__name__, name)
        if full in sys.modules:
            return sys.modules[full]
        if name.islower() and name in ("themes", "colors"):
            return Kit(full)
        return Maker(full)


class Id:
    def __init__(self, *a):
        self.id, self.prop = a[0], a[1]


class App:
    """The page: what its parts are computed from."""
    last = None

    def __init__(self, *a, **k):
        self.callbacks, self.routes, self.layout = [], {}, None
        self.server = self
        App.last = self

    def route(self, path):
        def deco(f):
            self.routes[path] = f
            return f
        return deco

    def callback(self, outputs, *lists, **k):
        ids = []
        for x in lists + tuple(k.get(n, ()) for n in ("inputs", "state")):
            ids += [x] if isinstance(x, Id) else list(x)
        outs = [outputs] if isinstance(outputs, Id) else list(outputs)

        def deco(f):
            self.callbacks.append((outs, ids, f, isinstance(outputs, Id)))
            return f
        return deco

    def run_server(self, *a, **k):
        pass

    def compute(self, want, values):
        """The properties computed together with the one of element `want`."""
        for outs, ids, f, single in self.callbacks:
            if any(o.id == want for o in outs):
                got = f(*[values.get(i.id) for i in ids])
                if single:
                    got = [got]
                if len(got) != len(outs):
                    raise ValueError("%d values for %d outputs" % (len(got), len(outs)))
                return {o.id: v for o, v in zip(outs, got)}
        raise HarnessError("nothing computes %s" % want)


def load(repo):
    stubs.tqdm()
    minipd.install()
    for n in ("plotly", "plotly.express", "plotly.graph_objects", "plotly.graph_objs", "plotly.subplots", "dash_bootstrap_components", "dash_core_components", "dash_daq", "dash_html_components", "biokit", "biokit.viz", "biokit.viz.corrplot", "matplotlib", "matplotlib.pyplot"):
        sys.modules[n] = Kit(n)
    dash, dep, flask, typer, colorama = (types.ModuleType(n) for n in ("dash", "dash.dependencies", "flask", "typer", "colorama"))
    dash.Dash, dash.dependencies, dash.__path__ = App, dep, []
    dash.callback_context = types.SimpleNamespace(triggered=[])
    dep.Input = dep.Output = dep.State = Id
    flask.send_file = lambda name, *a, **k: ("file", name)

    class Typer:
        def __init__(self, *a, **k):
            pass

        def command(self, *a, **k):
            return lambda f: f
    typer.Typer = Typer
    typer.Option = typer.Argument = lambda default=None, *a, **k: default
    colorama.init = lambda *a, **k: None
    fore = types.SimpleNamespace(**{k: "" for k in ("BLACK", "RED", "GREEN", "YELLOW", "BLUE", "MAGENTA", "CYAN", "WHITE", "RESET")})
    colorama.Fore = colorama.Back = fore
    colorama.Style = types.SimpleNamespace(BRIGHT="", DIM="", NORMAL="", RESET_ALL="")
    for m in (dash, dep, flask, typer, colorama):
        sys.modules[m.__name__] = m
    # the package is more than its results
    probe = types.ModuleType("probe")
    probe.__path__ = [os.path.join(repo, "Probe", "probe")]
    sys.modules["probe"] = probe
    g = globals()
    tempfile.tempdir = os.getcwd()
    for n in ("utils", "data", "dashboard", "plotters", "__main__"):
        g["m_" + n.strip("_")] = importlib.import_module("probe.results." + n)


# ---- logs of purges ----

FIGURES = {1: 100.5, 2: 2048.0, 3: 30000.25}


class Writer:
    """A log and what is to be known of it."""

    def __init__(self):
        self.rows, self.entries, self.skips, self.again = [], [], [], []
        self.tick, self.occ, self.freq = 0, 50, {}
        self.batch = None
        self.purging = self.any = False
        self.missed = None

    def row(self, kind, f=None):
        if f is None:
            r = (self.tick, kind, float(self.occ), self.occ / 2.0, -1, -1.0, -1, -1)
        else:
            n = self.freq.get(f, 0)
            r = (self.tick, kind, float(self.occ), self.occ / 2.0, f, FIGURES[f], n, NEVER if n < 2 else 3)
        self.rows.append(r)

    def purge(self, kind):
        self.occ += 1
        self.row(kind)
        self.entries.append({"tick": self.tick, "event": kind, "size": float(self.occ), "occupancy": self.occ / 2.0, "deleted": {}, "missed": 0})
        self.purging, self.any = True, False

    def delete(self, f):
        self.row("DELETE", f)
        self.entries[-1]["deleted"][f] = FIGURES[f]
        if not self.any:
            self.batch, self.any = {}, True
        self.batch[f] = self.freq.get(f, 0)

    def keep(self, f):
        self.row("KEEP", f)

    def request(self, kind, f):
        self.tick += 1
        self.occ += 3
        self.freq[f] = self.freq.get(f, 0) + 1
        self.row(kind, f)
        self.purging = False
        self.missed = f if kind == "MISS" else None
        if kind == "MISS":
            if self.entries and f in self.entries[-1]["deleted"]:
                self.entries[-1]["missed"] += 1
            if self.batch and f in self.batch:
                self.again.append(self.batch.pop(f))

    def choice(self, kind, f):
        self.row(kind, f)
        if kind == "SKIP":
            self.skips.append(self.freq[f])
        self.purging, self.missed = False, None

    def frame(self):
        return minipd.DataFrame(self.rows, columns=LOG)


def judge(c, w, got):
    c.equal(len(got), len(w.entries), "number of purges in the report")
    for i, (g, e) in enumerate(zip(got, w.entries)):
        what = "purge %d (%s at %d): " % (i, e["event"], e["tick"])
        c.equal(g.event, e["event"], what + "event")
        near(c, g.tick, e["tick"], what + "tick")
        near(c, g.on_delete_cache_size, e["size"], what + "cache size")
        near(c, g.on_delete_cache_occupancy, e["occupancy"], what + "occupancy")
        near(c, g.num_deleted_files, len(e["deleted"]), what + "files deleted")
        near(c, g.total_size_deleted_files, sum(e["deleted"].values()), what + "size deleted")
        near(c, g.total_num_req_after_delete, e["missed"], what + "requests for deleted files")


def near(c, got, want, what):
    if isinstance(got, (str, minipd.Series)) or not abs(got - want) <= 1e-6:
        c.fail("%s: %r, should be %r" % (what, got, want))


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def step(c, w, kinds, files, others):
    """One line of the log."""
    ops = [("purge", k) for k in kinds]
    if w.purging:
        gone = set(w.entries[-1]["deleted"]) | {w.missed}
        ops += [("delete", f) for f in files if f not in gone] + [("keep", f) for f in files if f not in gone]
    ops += [("MISS", f) for f in files] + [(k, f) for k in others for f in files[:1]]
    if w.missed:
        ops += [("SKIP", w.missed), ("ADD", w.missed)]
    k, x = c.pick(ops)
    c.op("%s %s" % (k, x))
    if k == "purge":
        w.purge(x)
    elif k == "delete":
        w.delete(x)
    elif k == "keep":
        w.keep(x)
    elif k in ("MISS", "HIT"):
        w.request(k, x)
    else:
        w.choice(k, x)


def logs(name, depth, kinds, files, others):
    def run(c):
        w = Writer()
        for _ in range(depth):
            step(c, w, kinds, files, others)
        judge(c, w, list(m_utils.parse_sim_log(w.frame(), "AFTERDELETE")))
        got = list(m_utils.parse_sim_log(w.frame(), "MISSFREQ"))
        c.equal(len(got), 1, "results about the missed files")
        deleted, skipped = got[0]
        c.equal(sorted(deleted), sorted(w.again), "requests counted at their deletion of files missed again")
        c.equal(sorted(skipped), sorted(w.skips), "requests counted of files not admitted")
        c.state(w.rows)
    return Suite(name, "every log of %d lines: the purges %s deleting or keeping %d files, misses with or without an admission, %s" % (depth, ", ".join(kinds), len(files), ", ".join(others) or "no other lines"), run)


# ---- runs of the simulator, as it leaves them ----

BASE = ["date", "num req", "num hit", "num added", "num deleted", "num redirected", "size redirected", "cache size", "num miss after delete", "size", "capacity", "bandwidth", "bandwidth usage", "hit rate", "weighted hit rate", "written data", "read data", "read on hit data", "read on miss data", "deleted data", "avg free space", "std dev free space", "CPU efficiency", "CPU hit efficiency", "CPU miss efficiency", "CPU efficiency upper bound", "CPU efficiency lower bound"]
AGENT = ["Addition epsilon", "Eviction epsilon", "Addition qvalue function", "Eviction qvalue function", "Eviction calls", "Eviction forced calls", "Eviction mean num categories", "Eviction std dev num categories", "Action store", "Action not store", "Action delete all", "Action delete half", "Action delete quarter", "Action delete one", "Action not delete"]
AGENT_PLOTS = {"Epsilon": AGENT[0:2], "QValue": AGENT[2:4], "Eviction calls": AGENT[4:6], "Eviction categories": AGENT[6:8], "Addition actions": AGENT[8:10], "Eviction actions": AGENT[10:15]}
LRU, RL, WEIGHT, BIG = "lru_100T_10Gbit_it", "aiRL_SCDL2-onK_100T_10Gbit_it", "weightFunLRU_FuncAdditive_0.10_0.50_1.00", "sizeBig_50T_10Gbit_us"
PARTS = {LRU: ["lru"], RL: ["SCDL2-onK", "aiRL"], WEIGHT: ["weightFunLRU_FuncAdditive"], BIG: ["sizeBig"]}
#           throughput, cost, read on hit, misses after deletions, cpu: of two days
LEVELS = {LRU: (500, 100, 60, 3, 40), RL: (500, 80, 50, 9, 41), WEIGHT: (700, 900, 60, 0, 42), BIG: (500, 80, 70, 1, 43), "aiRL_SCDL_5T_10Gbit_it": (1, 2, 3, 4, 5)}


def day(run, d):
    thr, cost, roh, miss, cpu = LEVELS[run]
    sign = 1 if d else -1
    size = 1000.0
    written = 100.0 + 10 * len(run)
    r = {k: float(1000 * i + 7 * d + len(run)) for i, k in enumerate(BASE)}
    r["date"] = "2018-01-%02d 00:00:00 +0000 UTC" % (d + 1)
    r["cache size"], r["written data"] = size, written
    r["read on hit data"] = thr + written + sign * 11.0
    r["deleted data"] = cost + 500 - written + sign * 5.0
    r["read data"] = r["read on hit data"] * 100.0 / (roh + sign * 2.0)
    r["read on miss data"] = r["read data"] - r["read on hit data"]
    r["num miss after delete"], r["CPU efficiency"] = miss + sign, cpu + sign * 3.5
    if run == RL:
        r.update({k: float(100 * i + d) for i, k in enumerate(AGENT)})
    return r


MEASURES = {
    "Throughput ratio": lambda r: (r["read on hit data"] - r["written data"]) / r["cache size"],
    "Cost ratio": lambda r: (r["written data"] + r["deleted data"]) / r["cache size"],
    "Throughput (TB)": lambda r: (r["read on hit data"] - r["written data"]) / 1024.0 ** 2,
    "Cost (TB)": lambda r: (r["written data"] + r["deleted data"]) / 1024.0 ** 2,
    "Read on hit ratio": lambda r: r["read on hit data"] / r["read data"] * 100.0,
    "CPU Eff.": lambda r: r["CPU efficiency"],
    "Avg. Free Space": lambda r: r["avg free space"] / r["cache size"] * 100.0,
    "Std. Dev. Free Space": lambda r: r["std dev free space"] / r["cache size"] * 100.0,
    "Bandwidth": lambda r: r["bandwidth usage"],
    "Redirect Vol.": lambda r: r["size redirected"] / r["cache size"] * 100.0,
    "Hit over Miss": lambda r: r["read on hit data"] / r["read on miss data"],
    "Num. miss after del.": lambda r: r["num miss after delete"],
    "Hit rate": lambda r: r["hit rate"],
}
SHORT = {"Throughput": "Throughput ratio", "Cost": "Cost ratio", "Read on hit ratio": "Read on hit ratio", "Bandwidth": "Bandwidth", "Num. miss after del.": "Num. miss after del.", "CPU Eff.": "CPU Eff."}
EXTENDED = dict(SHORT, **{k: k for k in ("Throughput (TB)", "Cost (TB)", "Redirect Vol.", "Avg. Free Space", "Std. Dev. Free Space", "Hit over Miss", "Hit rate")})
EXTRA = {"Read on hit (TB)": lambda r: r["read on hit data"] / 1024.0 ** 2, "Bandwidth (TB)": lambda r: r["read on miss data"] / 1024.0 ** 2}
DAYS = 2


def mean(run, f):
    return sum(f(day(run, d)) for d in range(DAYS)) / DAYS


def rank(runs, by_hit=False):
    keys = [("Throughput", -1), ("Cost", 1), ("Read on hit ratio", -1), ("Num. miss after del.", -1)]
    if by_hit:
        keys = [keys[2], keys[0], keys[1], keys[3]]
    return sorted(runs, key=lambda x: [s * round(mean(x, MEASURES[SHORT[k]]), 9) for k, s in keys])


def write_run(base, run, w=None):
    d = os.path.join(base, "run_full_normal", run)
    os.makedirs(d)
    cols = BASE + (AGENT if run == RL else [])
    minipd.DataFrame([[day(run, i)[k] for k in cols] for i in range(DAYS)], columns=cols).to_csv(os.path.join(d, "simulation_results.csv"), index=False)
    if w is not None:
        w.frame().to_csv(os.path.join(d, "simulationLogFile.csv.gz"), index=False)
    return "%s/run_full_normal/%s/simulation_results.csv" % (base, run)


def sample_log(k):
    """A log of the cache: purges with and without deletions."""
    w = Writer()
    for f in (1, 2, 3):
        w.request("MISS", f)
        w.choice("ADD", f)
    w.purge("ONK")
    w.delete(1)
    w.keep(2)
    w.delete(3)
    for f in [1, 3, 1][:k + 1]:
        w.request("MISS", f)
        w.choice("ADD" if k else "SKIP", f)
    w.purge("FORCEDCALL")
    w.purge("FREE")
    w.delete(2)
    w.request("MISS", 2)
    return w


def floats(x):
    return [round(float(v), 6) for v in (x.values if isinstance(x, minipd.Series) else x)]


def figures_of(part):
    """The plots of a part of the page: title -> figure."""
    out = {}
    for e in part:
        if e.kind.endswith(".Graph"):
            fig = e.k["figure"] if "figure" in e.k else e.a[0]
            title = [k["title"] for n, a, k in fig.calls if n == "update_layout" and "title" in k][-1]
            out[title] = fig
    return out


def traces(fig):
    return [(floats(t.k["y"]), t.k.get("name"), t) for t, _ in fig.traces()]


class Scene:
    """Three runs on disk; made once per process."""
    ready = pid = None

    def __init__(self):
        tempfile.tempdir = os.getcwd()
        importlib.reload(m_dashboard)   # a process has temporary files of its own
        shutil.rmtree("base", ignore_errors=True)
        self.logs = {LRU: sample_log(0), RL: sample_log(2)}
        self.key = {r: write_run("base", r, self.logs.get(r)) for r in (LRU, RL, BIG)}
        self.run = {k: r for r, k in self.key.items()}

    @classmethod
    def get(cls):
        if cls.ready is None or cls.pid != os.getpid():
            cls.ready, cls.pid = Scene(), os.getpid()
        return cls.ready

    def page(self):
        results = quiet(m_data.aggregate_results, ["base"])
        quiet(m_dashboard.create, results)
        return App.last


TABS = {"tab-columns": "graphs-columns", "tab-measures": "graphs-measures", "tab-agents": "graphs-agents", "tab-table": "table", "tab-compare": "compare"}
PARTS_OF_PAGE = ["graphs-columns", "graphs-measures", "graphs-agents", "table", "compare", "compare-tables"]


def values(sel, tab):
    s = Scene.get()
    return {"tabs": tab, "active_tab": tab, "selected-files": [s.key[r] for r in sel["files"]], "selected-filters-all": list(sel["all"]), "selected-filters-any": list(sel["any"]), "num-of-results": sel["n"], "toggle-extended-table": sel["ext"], "toggle-sort-by-roh-first": sel["hit"]}


def shown(app, sel, tab):
    return quiet(app.compute, TABS[tab], values(sel, tab))


def kept(sel):
    out = []
    for r in sel["files"]:
        parts = set(PARTS[r]) | {"base", "run_full_normal"}
        if set(sel["all"]) <= parts and (not sel["any"] or set(sel["any"]) & parts):
            out.append(r)
    return out


def best(runs, sel, by_hit=False):
    if not sel["n"]:
        return runs
    top = rank(runs, by_hit)[:sel["n"]]
    return [r for r in runs if r in top]


def check_traces(c, what, fig, want):
    c.equal(sorted(y for y, _, _ in traces(fig)), sorted(want), what)


def check_page(c, got, sel, tab):
    runs = kept(sel)
    for p in PARTS_OF_PAGE:
        if p != TABS[tab] and not (tab == "tab-compare" and p == "compare-tables"):
            c.require(not got[p], "%s shows something in %s" % (tab, p))
    part = got[TABS[tab]]
    if tab == "tab-columns":
        figs = figures_of(part)
        for k in BASE[1:] + AGENT:
            c.require(k in figs, "no plot of %s" % k)
            have = best([r for r in runs if k in day(r, 0)], sel)
            check_traces(c, "plot of " + k, figs[k], [floats(day(r, d)[k] for d in range(DAYS)) for r in have])
    elif tab == "tab-measures":
        figs = figures_of(part)
        c.equal(sorted(figs), sorted(MEASURES), "measures shown")
        for k, f in MEASURES.items():
            check_traces(c, "plot of " + k, figs[k], [floats(f(day(r, d)) for d in range(DAYS)) for r in best(runs, sel)])
    elif tab == "tab-agents":
        figs = figures_of(part)
        c.equal(sorted(figs), sorted(AGENT_PLOTS), "plots of the agents")
        for k, cols in AGENT_PLOTS.items():
            check_traces(c, "plot of " + k, figs[k], [floats(day(r, d)[x] for d in range(DAYS)) for r in best([r for r in runs if r == RL], sel) for x in cols])
    elif tab == "tab-table":
        check_table(c, part.a[0], sel, runs)
    else:
        check_compare(c, got, [r for r in runs if r in Scene.get().logs])


def check_table(c, df, sel, runs):
    order = rank(runs, sel["hit"])
    if sel["n"]:
        order = order[:sel["n"]]
    want = dict({k: MEASURES[m] for k, m in (EXTENDED if sel["ext"] else SHORT).items()}, **(EXTRA if sel["ext"] else {}))
    c.equal(sorted(k for k in df.columns if k != "file"), sorted(want), "columns of the table")
    c.equal(len(df), len(order), "rows of the table")
    for k, f in want.items():
        for i, r in enumerate(order):
            near(c, round(df[k].values[i], 4), round(mean(r, f), 4), "%s of row %d (%s)" % (k, i, r))


def texts(e, out):
    if isinstance(e, El):
        for x in list(e.a) + list(e.k.values()):
            texts(x, out)
        for _, a, k in e.calls:
            texts(list(a) + list(k.values()), out)
    elif isinstance(e, (list, tuple)):
        for x in e:
            texts(x, out)
    return out


def rows(e, out):
    """The rows of a table: cells of Tr elements."""
    if isinstance(e, El):
        if e.kind.endswith(".Tr"):
            cells = e.a[0] if e.a else e.k["children"]
            if all(x.kind.endswith(".Td") for x in cells):
                out.append([x.a[0] if x.a else x.k["children"] for x in cells])
            return out
        for x in list(e.a) + list(e.k.values()):
            rows(x, out)
    elif isinstance(e, (list, tuple)):
        for x in e:
            rows(x, out)
    return out


def check_compare(c, got, runs):
    logs_ = Scene.get().logs
    figs = figures_of(got["compare"])
    c.equal(list(figs), ["Report"], "plots of the comparison")
    want, table = [], []
    for r in runs:
        es = logs_[r].entries
        want.append(floats(len(e["deleted"]) for e in es))
        want.append(floats(int(sum(e["deleted"].values()) / 1024.0) for e in es))
        want.append(floats(e["missed"] for e in es))
        for e in es:
            table.append([e["tick"], e["event"], len(e["deleted"]), int(sum(e["deleted"].values()) / 1024.0), e["missed"], e["size"], e["occupancy"]])
    check_traces(c, "report on the evictions", figs["Report"], want)
    c.equal(plain(rows(got["compare-tables"], [])), plain(table), "table of the evictions")


def selection(c, ns, filters):
    files = [LRU, RL, BIG]
    sel = {"files": [r for r in files if c.flag()], "all": [], "any": [], "n": 0, "ext": False, "hit": False}
    sel["all"], sel["any"] = c.pick(filters), c.pick(filters)
    sel["n"] = c.pick(ns)
    c.note("selection %r" % (sel,))
    return sel


FILTERS = [[], ["lru"], ["aiRL"], ["aiRL", "SCDL2-onK"], ["lru", "sizeBig"], ["base"]]


BOTH = [([], []), (["lru", "aiRL"], []), ([], ["lru", "aiRL"]), (["lru"], ["aiRL"]), (["aiRL"], [])]   # all of, any of


def single():
    def run(c):
        sel = selection(c, [0, 1, 2, None], FILTERS)
        tab = c.pick(sorted(TABS))
        if tab == "tab-table":
            sel["ext"], sel["hit"] = c.flag(), c.flag()
        c.op("view %s %r" % (tab, sel))
        app = Scene.get().page()
        check_page(c, shown(app, sel, tab), sel, tab)
        if tab == "tab-table":
            check_downloads(c, app, sel)
        c.state(sel, tab)
    return Suite("page", "every page of the dashboard on three runs for every selection of them, %d filters of both kinds, 4 limits of the number of results and both switches of the table, against the figures of the runs" % len(FILTERS), run)


def check_downloads(c, app, sel):
    """What can be downloaded is the table shown."""
    part = shown(app, sel, "tab-table")["table"]
    df = part.a[0]
    for path, kind in (("/table/csv", "csv"), ("/table/tex", "latex"), ("/table/html", "html")):
        got = quiet(app.routes[path])
        with open(got[1]) as f:
            text = f.read()
        if text not in (df._text(kind, True), df._text(kind, False)):
            c.fail("%s is not the table shown: %r, should be %r" % (path, text, df._text(kind, True)))


class Memo(dict):
    def of(self, sel, tab):
        k = repr((sel, tab))
        if k not in self:
            self[k] = plain(shown(Scene.get().page(), sel, tab))
        return self[k]


memo = Memo()


def session(name, depth, tabs, files, filters, ns, switches):
    sels = [{"files": f, "all": a, "any": o, "n": n, "ext": x, "hit": h} for f in files for a, o in filters for n in ns for x, h in switches]

    def run(c):
        app = Scene.get().page()
        for _ in range(depth):
            sel, tab = c.pick(sels), c.pick(tabs)
            c.op("view %s %r" % (tab, sel))
            got = plain(shown(app, sel, tab))
            if got != memo.of(sel, tab):
                c.fail("the page is not the one of a new dashboard with this selection")
            if tab == "tab-table":
                check_downloads(c, app, sel)
        c.state(sel, tab)
    return Suite(name, "every sequence of %d views of %s with %d selections on one dashboard: each is the view of a new dashboard" % (depth, ", ".join(tabs), len(sels)), run)


def details():
    """The purge asked for below the comparison."""
    def run(c):
        sel = selection(c, [0, 1], [[], ["aiRL"]])
        sel["ext"], sel["hit"] = c.flag(), c.flag()
        s = Scene.get()
        app = s.page()
        shown(app, sel, "tab-compare")
        runs = [r for r in kept(sel) if r in s.logs]
        num = c.choose(3)
        ticks = sorted({e["tick"] for w in s.logs.values() for e in w.entries}) + [999]
        tick = c.pick(ticks)
        c.op("run %d tick %d of %r" % (num, tick, sel))
        v = dict(values(sel, "tab-compare"), **{"sel-num-sim": num, "sel-tick": tick})
        got = quiet(app.compute, "sel-sim-compare-plot-actions", v)
        there = num < len(runs) and any(e["tick"] == tick for e in s.logs[runs[num]].entries)
        graphs = {k: [x for x in e if isinstance(x, El) and x.kind.endswith(".Graph")] for k, e in got.items()}
        if not there:
            c.require(not any(graphs.values()), "details of a purge that is not there")
            return
        c.require(all(graphs.values()), "no details of a purge of the comparison")
        w = s.logs[runs[num]]
        first = next(e for e in w.entries if e["tick"] == tick)
        fig = graphs["sel-sim-compare-plot-actions"][0].k["figure"]
        want = purge_lines(w, w.entries.index(first))
        c.equal(sorted(fig.a[0]["filename"].values), sorted(r[4] for r in want), "files of the purge shown")
        c.state(sel, num, tick)
    return Suite("details", "the details of every purge of every run of a selection, and of purges and runs that are not there", run)


def folders():
    """What runs can be selected by: the parts of their folders' names."""
    names = [LRU, RL, WEIGHT, BIG, "aiRL_SCDL_5T_10Gbit_it"]
    parts = dict(PARTS, **{names[4]: ["SCDL", "aiRL"]})

    def run(c):
        shutil.rmtree("parts", ignore_errors=True)
        os.mkdir("parts")
        chosen = []
        for base in ("parts/a", "parts/no_size_feature"):
            os.mkdir(base)
            for r in names:
                if c.flag():
                    write_run(base, r)
                    chosen.append((os.path.basename(base), r))
        c.op("runs %s" % chosen)
        res = quiet(m_data.aggregate_results, ["parts/a", "parts/no_size_feature"])
        key = {"%s/run_full_normal/%s/simulation_results.csv" % x: x for x in chosen}
        c.equal(sorted(res.files), sorted(key), "runs found")
        c.equal(len(res), len(key), "number of runs")
        have = {k: set(parts[r]) | {b, "run_full_normal"} for k, (b, r) in key.items()}
        c.equal(list(res.components), sorted(set().union(*have.values())), "parts to select by")
        every = res.components
        for k, p in have.items():
            for x in every:
                for all_, any_, want in (([x], [], x in p), ([], [x], x in p), (["run_full_normal", x], [], x in p), ([], ["run_full_normal", x], True), ([x], ["run_full_normal"], x in p), (["run_full_normal"], [x], x in p)):
                    if len(set(all_)) < len(all_):
                        continue
                    got = res.get_df(k, all_, any_)
                    c.require((got is not None) == want, "%s with all of %s and any of %s: %s" % (k, all_, any_, got))
        c.state(chosen)
    return Suite("folders", "two folders with every subset of 5 runs each: the runs found, what they can be selected by and every filter of one or two parts", run)


def purge_lines(w, k):
    at = [i for i, r in enumerate(w.rows) if r[1] in PURGES][k]
    out = []
    for r in w.rows[at + 1:]:
        if r[1] not in ("KEEP", "DELETE"):
            break
        out.append(r)
    return out


def orders(name, runs, levels):
    """Which of the runs come first."""
    names = ["sizeBig", "lru", "sizeSmall"][:runs]

    def run(c):
        Scene.get()
        shutil.rmtree("order", ignore_errors=True)
        cells = {}
        for n in names:
            roh, thr, cost, miss = (c.choose(levels) for _ in range(4))
            d = os.path.join("order", "run_full_normal", n + "_1T_10Gbit_it")
            os.makedirs(d)
            rows_ = []
            for i in (-1, 1):
                r = day(LRU, 0)
                r["date"] = "2018-02-0%d 00:00:00 +0000 UTC" % (i + 2)
                r.update({"cache size": 1024.0, "written data": 64.0, "read on hit data": 512.0 + 128 * thr + i * 16, "deleted data": 128.0 * cost + 64 + 32 * i, "num miss after delete": float(miss * 4 + 2 + i)})
                r["read data"] = r["read on hit data"] * (4 if roh else 8)
                rows_.append([r[k] for k in BASE])
            minipd.DataFrame(rows_, columns=BASE).to_csv(os.path.join(d, "simulation_results.csv"), index=False)
            cells["order/run_full_normal/%s_1T_10Gbit_it/simulation_results.csv" % n] = ((448 + 128 * thr) / 1024.0, (128 + 128 * cost) / 1024.0, 25.0 if roh else 12.5, miss * 4 + 2.0)
        c.op("runs (throughput, cost, read on hit, misses): %s" % list(cells.values()))
        res = quiet(m_data.aggregate_results, ["order"])
        quiet(m_dashboard.create, res)
        app = App.last
        for hit in (False, True):
            key = (lambda x: (-x[2], -x[0], x[1], -x[3])) if hit else (lambda x: (-x[0], x[1], -x[2], -x[3]))
            for n in range(runs + 1):
                got = quiet(app.compute, "table", {"tabs": "tab-table", "selected-files": list(cells), "selected-filters-all": [], "selected-filters-any": [], "num-of-results": n, "toggle-extended-table": False, "toggle-sort-by-roh-first": hit})["table"].a[0]
                rows2 = list(zip(*(floats(got[k]) for k in ("Throughput", "Cost", "Read on hit ratio", "Num. miss after del."))))
                want = sorted((tuple(floats(x)) for x in cells.values()), key=key)
                c.equal(rows2, want[:n] if n else want, "%d best rows %s" % (n, "by read on hit" if hit else "by throughput"))
        c.state(sorted(cells.items()))
    return Suite(name, "%d runs with every combination of %d values of each of the four measures they are ordered by: the table in both orders with every limit" % (runs, levels), run)


# ---- the plot program ----

def classes(depth):
    """The classes of requests of the files missed."""
    def run(c):
        shutil.rmtree("classes", ignore_errors=True)
        written.clear()
        w = Writer()
        for i in range(depth):
            f = i + 1
            FIGURES.setdefault(f, 10.0 * f)
            n, gone = c.pick([1, 2, 3, 6, 7]), c.flag()
            if gone:
                w.freq[f] = n
                w.purge("ONK")
                w.delete(f)
                w.request("MISS", f)
            else:
                w.freq[f] = n - 1
                w.request("MISS", f)
                w.choice("SKIP", f)
        write_run("classes", LRU, w)
        c.op("deleted and missed again %s, not admitted %s" % (w.again, w.skips))
        quiet(m_main.plot, ["classes"], m_main.PlotType("MISSFREQ"), "")
        (_, fig), = written
        got = {t.k["name"]: floats(t.k["y"]) for t, _ in fig.traces()}
        n = len(w.again) + len(w.skips)
        cls = lambda v: floats(100.0 * sum(a < x <= b for x in v) / n for a, b in ((0, 1), (1, 2), (2, 6), (6, 1e18)))
        c.equal(got, {"deleted": cls(w.again), "skipped": cls(w.skips)}, "classes of requests")
        c.state(sorted(w.again), sorted(w.skips))
    return Suite("classes", "%d files requested 1, 2, 3, 6 or 7 times, each deleted and missed again or not admitted: the classes of requests plotted" % depth, run)


def plots(tier):
    def run(c):
        shutil.rmtree("plots", ignore_errors=True)
        made.clear()
        written.clear()
        logs_ = {}
        for i, r in enumerate((LRU, WEIGHT, BIG)):
            k = c.choose(4)     # no such run, no log, a log
            if k == 0:
                continue
            w = None
            if k >= 2:
                w = sample_log(k - 2 + i)
                logs_[r] = w
            write_run("plots", r, w)
            c.op("%s: %s" % (r, "no log" if w is None else "log of %d lines" % len(w.rows)))
        os.makedirs("plots", exist_ok=True)
        what = c.pick(["AFTERDELETE", "MISSFREQ", "corr"])
        out = c.pick(["", "x"])
        if what == "corr":
            quiet(m_main.plot_corr, ["plots"])
            runs = [r for r in (LRU, WEIGHT, BIG) if os.path.isdir("plots/run_full_normal/" + r)]
            df, = [e.a[0] for e in made]
            for k, m in SHORT.items():
                k = "CPU efficiency" if k == "CPU Eff." else k
                c.equal(sorted(floats(df[k])), sorted(floats(MEASURES[m](day(r, d)) for r in runs for d in range(DAYS))), "values of " + k)
            return
        quiet(m_main.plot, ["plots"], m_main.PlotType(what), out)
        figs = dict(written)
        tail = "-x.html" if out else ".html"
        if what == "AFTERDELETE":
            c.equal(sorted(figs), sorted(["num_miss" + tail, "num_miss_cumulative" + tail]), "plots written")
            y = {r: [e["missed"] for e in w.entries] for r, w in logs_.items()}
            check_traces(c, "misses after deletions", figs["num_miss" + tail], [floats(v) for v in y.values()])
            check_traces(c, "misses after deletions, accumulated", figs["num_miss_cumulative" + tail], [floats(itertools.accumulate(v)) for v in y.values()])
            xs = [floats(e["tick"] for e in w.entries) for w in logs_.values()]
            c.equal(sorted(floats(t.k["x"]) for t, _ in figs["num_miss" + tail].traces()), sorted(xs), "moments of the purges")
            return
        c.equal(sorted(figs), ["miss_freq" + tail], "plots written")
        got = {}
        for t, k in figs["miss_freq" + tail].traces():
            got.setdefault(k["row"], []).append((t.k["name"], floats(t.k["y"])))
        want = []
        for w in logs_.values():
            n = len(w.again) + len(w.skips)
            cls = lambda v: floats(100.0 * sum(a < x <= b for x in v) / n if n else 0 for a, b in ((0, 1), (1, 2), (2, 6), (6, 1e18)))
            want.append([("deleted", cls(w.again)), ("skipped", cls(w.skips))])
        c.equal(sorted(sorted(v) for v in got.values()), sorted(want), "classes of requests")
        c.state(what, out, len(logs_))
    return Suite("plot", "the plot program on three runs, each absent, without a log or with one of two logs: both plots of the evictions and the correlation of the figures", run)


def prop(pid, tier, repo):
    load(repo)
    deep = tier == "thorough"
    notes = ["the data frame, plotting and page libraries are replaced by stand-ins; elements of a page are compared by what they are made of"]
    if pid == "C56":
        return Property([
            logs("purges", 7 if deep else 6, ["ONK"], [1, 2], []),
            logs("events", 5 if deep else 4, PURGES, [1, 2], ["HIT", "REDIRECT"]),
            logs("files", 6 if deep else 5, ["ONFREE", "FORCEDCALL"], [1, 2, 3], []),
            plots(tier), classes(5 if deep else 3)], notes)
    tabs = sorted(TABS)
    f2 = [[LRU, RL], [RL, BIG]]
    return Property([
        single(), details(), folders(), orders("order of three", 3, 2) if deep else orders("order of two", 2, 2),
        session("views", 2, tabs if deep else ["tab-measures", "tab-agents", "tab-table", "tab-compare"], [[LRU, RL, BIG], [RL]], BOTH, [0, 1], [(False, False), (True, True)]),
        session("table", 3 if deep else 2, ["tab-table"], f2, BOTH[:3], [0, 1], [(False, False), (True, False), (False, True)]),
    ], notes)
