"""C59: the analysis of the traces of requests (Probe/probe/analyzer)."""
import contextlib
import csv
import gzip
import importlib
import io
import itertools
import json
import os
import shutil
import sys
import types
from datetime import date, datetime, timedelta

import minipd
import p_report
import stubs
from explore import HarnessError, Property, Suite
from p_report import El, Kit, Maker

HEAD = ["Filename", "SiteName", "UserID", "TaskID", "JobID", "Size", "DataType", "FileType", "JobSuccess", "reqDay", "JobStart"]
MB = 1024 ** 2
FILES = {  # name, size
    "A": ("/store/data/Run/A.root", int(1.5 * MB)),
    "B": ("/store/mc/Spring/B.root", 2 * MB),
    "C": ("/store/data/USER/C.root", 500 * MB + 7),
    "D": ("/store/data_mc/user_1/D.root", 500 * MB + 7),     # of the size of C
}
SITES = {"it": "T2_IT_Pisa", "us": "T1_US_FNAL", "de": "T1_DE_KIT", "mit": "T3_US_MIT_Boston"}
FIRST = date(2018, 4, 23)    # a Monday


def req(day, f="A", site="it", user=1, task=1, job=1, ok=True, kind="data"):
    return dict(day=day, f=f, site=site, user=user, task=task, job=job, ok=ok, kind=kind)


def when(day):
    return datetime(FIRST.year, FIRST.month, FIRST.day) + timedelta(days=day)


def stamp(day):
    return int((when(day) - datetime(1970, 1, 1)).total_seconds())


def row(r):
    name, size = FILES[r["f"]]
    if isinstance(r["kind"], int):      # a trace of numbers, as the converter writes it
        return ["ABC".index(r["f"]) * 7919 + 12, list(SITES).index(r["site"]), r["user"], r["task"], r["job"], size, r["kind"], 3, r["ok"], stamp(r["day"]), stamp(r["day"]) * 1000 + 3600000]
    return [name, SITES[r["site"]], r["user"], r["task"], r["job"], size, r["kind"], "AOD", r["ok"], stamp(r["day"]), stamp(r["day"]) * 1000 + 3600000]


def text(rs):
    f = io.StringIO()
    csv.writer(f, lineterminator="\n").writerows([HEAD] + [row(r) for r in rs])
    return f.getvalue()


def name_of(day, gz=True):
    return "results_%s.csv%s" % (when(day).date().isoformat(), ".gz" if gz else "")


def store(folder, traces):
    """traces: (name, requests)"""
    shutil.rmtree(folder, ignore_errors=True)
    os.mkdir(folder)
    for name, rs in traces:
        if name.endswith(".gz"):
            with gzip.open(os.path.join(folder, name), "wt") as f:
                f.write(text(rs))
        else:
            with open(os.path.join(folder, name), "w") as f:
                f.write(text(rs))


class Part:
    """A part of a bokeh plot: it takes any setting and notes the calls."""

    def __init__(self, kind, a=(), k={}):
        self.__dict__.update(_kind=kind, _a=list(a), _k=dict(k), _calls=[], _parts={})

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name == "renderers":
            return self._parts.setdefault(name, [])
        return self._parts.setdefault(name, Part(name))

    def __setattr__(self, name, v):
        self._parts[name] = v


class Figure(Part):
    def __getattr__(self, name):
        if name in ("multi_line", "scatter", "vbar", "circle", "line"):
            def f(*a, **k):
                self._calls.append((name, list(a), k))
                return Part(name)
            return f
        if name == "x_range" and "x_range" in self._k:
            v = self._k["x_range"]
            return v if isinstance(v, Part) else self._parts.setdefault(name, Part(name, [v]))
        return Part.__getattr__(self, name)

    def add_layout(self, x, *a):
        self.renderers.append(x)


shown = []


def figures(x):
    """The figures of a plot by title."""
    if isinstance(x, Figure):
        return {x._k.get("title", ""): x}
    out = {}
    for y in x.a if isinstance(x, El) else x if isinstance(x, (list, tuple)) else []:
        out.update(figures(y))
    if isinstance(x, El):
        for y in x.k.values():
            out.update(figures(y))
    return out


def load(repo):
    p_report.load(repo)
    minipd.UNSTABLE = True
    fig = lambda *a, **k: Figure("figure", a, k)
    for n in ("seaborn", "bokeh", "bokeh.io", "bokeh.layouts", "bokeh.models", "bokeh.palettes", "bokeh.plotting", "bokeh.transform"):
        sys.modules[n] = Kit(n)
    sys.modules["bokeh.palettes"].Accent = {n: ["colour%d" % i for i in range(n)] for n in range(3, 9)}
    p, i = sys.modules["bokeh.plotting"], sys.modules["bokeh.io"]
    p.figure = fig
    p.output_file = lambda *a, **k: None
    p.show = p.save = i.show = i.save = lambda x, *a, **k: shown.append(x)
    i.export_png = lambda x, *a, **k: shown.append(x)
    m = sys.modules["bokeh.models"]
    m.ColumnDataSource = lambda data=None, **k: Part("source", [data if data is not None else k])
    m.Span = lambda **k: Part("span", [], k)
    for n in ("probe.loaders", "probe.plotter.stats", "probe.plotter", "probe.analyzer.features", "probe.analyzer.__main__", "probe.analyzer"):
        sys.modules.pop(n, None)
    globals()["m_main"] = importlib.import_module("probe.analyzer.__main__")


def run(c, *args):
    del shown[:], p_report.written[:]
    old = sys.argv
    sys.argv = ["analyzer"] + [str(a) for a in args]
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            m_main.main()
    except SystemExit as e:
        c.fail("the analysis stops: exit(%s) %s" % (e.code, out.getvalue()[-300:]))
    finally:
        sys.argv = old


def near(c, got, want, what):
    ok = not isinstance(got, (str, type(None), El)) and (got == want or (minipd.isna(got) and minipd.isna(want)) or abs(got - want) <= 1e-9 * max(1, abs(want)))
    if not ok:
        c.fail("%s: got %r, should be %r" % (what, got, want))


def nears(c, got, want, what):
    got, want = list(got), list(want)
    if len(got) != len(want):
        c.fail("%s: got %r, should be %r" % (what, got, want))
    for i, (g, w) in enumerate(zip(got, want)):
        near(c, g, w, "%s, number %d" % (what, i))


def round9(xs):
    return [round(float(x), 9) for x in xs]


# ---- the limits of each day ----

def selected(rs, region="all", kind="all"):
    return [r for r in rs if r["ok"] and r["kind"] in ("data", "mc")
            and (region == "all" or SITES[r["site"]].split("_")[1].lower() == region)
            and (kind == "all" or "/%s/" % kind.lower() in FILES[r["f"]][0].lower())]


def limits(c, days, got):
    """days: the requests selected, of each day with some"""
    want = {"hit rate": [], "read on hit": [], "size": []}
    for rs in days:
        names = {r["f"] for r in rs}
        total = sum(FILES[r["f"]][1] for r in rs)
        once = sum(FILES[f][1] for f in names)
        want["hit rate"].append((len(rs) - len(names)) / len(rs) * 100)
        want["read on hit"].append((total - once) / total * 100)
        want["size"].append(once / 1024 ** 4)
    c.equal(len(p_report.written), 1, "plots written")
    _, fig = p_report.written[0]
    drawn = {k: [] for k in want}
    for t, _ in fig.traces():
        c.equal([x for x in t.k["x"]], [when(rs[0]["day"]) for rs in days], "days of %r" % t.k.get("name"))
        for k in drawn:
            if k in t.k["name"].lower():
                drawn[k].append(round9(t.k["y"]))
                break
    for k, v in want.items():
        c.equal(sorted(drawn[k]), sorted([round9(v), round9([sum(v) / len(v)] * len(v))]), "%s of each day and on average" % k)


KINDS = [dict(f="A"), dict(f="B", kind="mc"), dict(f="A", ok=False), dict(f="B", kind="userdata"), dict(f="B", site="us"), dict(f="C", site="us", kind="mc"), dict(f="D", site="mit")]


def suite_limits(ndays, nreq):
    def run_(c):
        config = c.pick([("all", "all"), ("it", "all"), ("all", "data"), ("us", "mc")])
        way = c.pick([("--concat", "False", "--generate", "True"), ("--concat", "False")])
        days = []
        for d in range(ndays):
            days.append([req(d, **c.pick(KINDS)) for _ in range(1 + c.choose(nreq))])
            c.op("day %d: %s" % (d, [(r["f"], r["site"], r["kind"], r["ok"]) for r in days[-1]]))
        c.note("region %s, file type %s, %s" % (config + (" ".join(way),)))
        left = [x for x in (selected(rs, *config) for rs in days) if x]
        c.state(left)
        if not left:
            return
        store("traces", [(name_of(d), rs) for d, rs in enumerate(days)])
        run(c, "traces", "upper_limits", *way, "--region", config[0], "--file-type", config[1], "--output-type", "html", "--output-filename", "out")
        limits(c, left, list(range(ndays)))
    return run_


def suite_selection(c):
    """Which requests an analysis is of: the folder, the file, the month, the site and the type of file."""
    days = [0, 1, 8, 9, 38]      # 23, 24 April, 1, 2 May, 1 June
    plan = [[req(d, **k) for k in KINDS[i:] + KINDS[:1] + [dict(f="D", site="mit", kind="mc")] * (i % 2)] for i, d in enumerate(days)]
    gz = c.flag()
    region, kind = c.pick(["all", "it", "IT", "us", "de"]), c.pick(["all", "data", "mc", "user"])
    month = c.pick([-1, 4, 5, 6])
    form = c.pick(["folder", "folder and notes", "file"])
    numeric = c.flag()
    name = lambda d: name_of(d, gz).replace("results_", "results_numeric_") if numeric else name_of(d, gz)
    if form == "file":
        plan, days, month = plan[1:2], days[1:2], -1
    store("traces", [(name(d), rs) for d, rs in zip(days, plan)])
    if form == "folder and notes":
        with open("traces/notes.txt", "w") as f:
            f.write("these are the results\n")
    c.op("%s of %s, month %s, region %s, file type %s" % (form, days, month, region, kind))
    left = [x for d, x in ((d, selected(rs, region.lower(), kind)) for d, rs in zip(days, plan)) if x and month in (-1, when(d).month)]
    c.state(left)
    if not left:
        return
    path = "traces" if form != "file" else os.path.join("traces", name(days[0]))
    run(c, path, "upper_limits", "--concat", "no", "--generate", "yes", "--region", region, "--file-type", kind, "--month", month, "--output-type", "html", "--output-filename", "out")
    limits(c, left, None)


# ---- weeks ----

WEEK = {"General week stats": ["num_users", "num_sites", "num_jobs", "num_tasks"], "Request stats": ["num_files", "num_requests"], "Average request stats": ["num_reqXfile", "num_reqXfile_reqGr1"]}
LABELS = {"num_users": "user", "num_sites": "site", "num_jobs": "job", "num_tasks": "task", "num_files": "file", "num_requests": "request", "num_reqXfile": "per file", "num_reqXfile_reqGr1": "> 1"}


def week_figures(rs):
    n = {}
    for r in rs:
        n[r["f"]] = n.get(r["f"], 0) + 1
    more = [x for x in n.values() if x > 1]
    return {
        "num_users": len({r["user"] for r in rs}), "num_sites": len({r["site"] for r in rs}), "num_jobs": len({r["job"] for r in rs}), "num_tasks": len({r["task"] for r in rs}),
        "num_files": len(n), "num_requests": len(rs), "num_reqXfile": len(rs) / len(n), "num_reqXfile_reqGr1": sum(more) / len(more) if more else minipd.nan,
    }


def bars(fig):
    """What the bars of a figure show: legend -> heights"""
    out = {}
    for n, a, k in fig._calls:
        if n == "vbar":
            data = k["source"]._a[0]
            top = k["top"]
            out[k["legend_label"]] = list(data[top] if isinstance(top, str) else top)
    return out


def suite_weeks(extra):
    EXTRA = [dict(f="A"), dict(f="B", user=2), dict(f="C", site="us", job=2), dict(f="B", task=2, job=2, ok=False, kind="USER")]

    def run_(c):
        n = c.pick([7, 8, 13, 14, 15])
        gap = c.pick([0, 3])       # days without requests, after the third
        days = [d + (gap if d >= 3 else 0) for d in range(n)]
        rs = [req(d, f="ABC"[i % 3]) if c_ else req(d) for c_ in [c.flag()] for i, d in enumerate(days)]
        for _ in range(extra):
            rs.append(req(days[c.pick([0, 6, min(7, n - 1), n - 1])], **c.pick(EXTRA)))
        rs.sort(key=lambda r: r["day"])
        if c.flag():
            rs = rs[::-1]
        split = c.flag()
        c.op("%s" % [(r["day"], r["f"], r["site"], r["user"]) for r in rs])
        half = len(rs) // 2
        store("traces", [("results_1.csv", rs[:half]), ("results_2.csv", rs[half:])] if split else [("results.csv", rs)])
        run(c, "traces", "weekstats", "--output-type", "html", "--output-filename", "out")
        weeks = [week_figures([r for r in rs if r["day"] in days[i:i + 7]]) for i in range(0, len(days) // 7 * 7, 7)]
        c.state(weeks)
        c.equal(len(shown), 1, "plots")
        figs = figures(shown[0])
        for title, keys in WEEK.items():
            c.require(title in figs, "no figure %r" % title)
            got = bars(figs[title])
            for k in keys:
                mine = [v for lab, v in got.items() if LABELS[k] in lab.lower() and not (k == "num_reqXfile" and "> 1" in lab)]
                c.equal(len(mine), 1, "bars of %s" % k)
                nears(c, mine[0], [w[k] for w in weeks], "%s of each week" % k)
    return run_


# ---- days ----

def suite_days(nreq, resets, kinds, low=2, steps=(0, 1, 3)):
    def run_(c):
        reset = c.pick(resets)
        rs, day = [], 0
        for i in range(low + c.choose(nreq - low + 1)):
            if i:
                day += c.pick(steps)
            f, (user, site) = c.pick(kinds)
            rs.append(req(day, f=f, user=user, site=site))
            c.op("day %d: %s by %d at %s" % (day, f, user, site))
        c.note("statistics start again every %d days" % reset)
        # what is to be seen
        lines, single, spans, starts = [], [], [], []
        period, ndays, last = {}, 0, None

        def close():
            for f, xs in period.items():
                (lines if len(xs) > 1 else single).append((f, xs))
            period.clear()
        for n, r in enumerate(rs, 1):
            if r["day"] != last:
                last = r["day"]
                spans.append(n)
                if reset > 0 and ndays and ndays % reset == 0:
                    close()
                    starts.append(n)
                ndays += 1
            period.setdefault(r["f"], []).append(n)
        close()
        spans.append(len(rs) + 1)
        c.state(lines, single, spans, starts)
        if not lines:
            return      # nothing to draw in some figures
        back = c.flag()
        data = [r for d in sorted({r["day"] for r in rs}, reverse=back) for r in rs if r["day"] == d]
        store("traces", [("results.csv.gz", data)])
        run(c, "traces", "dailystats", "--output-type", "html", "--output-filename", "out", "--reset-stat-days", reset)
        c.equal(len(shown), 1, "plots")
        figs = figures(shown[0])

        def xy(title):
            (n, a, k), = [x for x in figs[title]._calls if x[0] in ("scatter", "circle")]
            return list(a[0] if a else k["x"]), list(a[1] if len(a) > 1 else k["y"])

        def drawn(title):
            (n, a, k), = figs[title]._calls
            return sorted(zip([list(x) for x in k["xs"]], [list(y) for y in k["ys"]]))

        def so_far(xs, key):
            return [len({rs[x - 1][key] for x in xs[:i + 1]}) for i in range(len(xs))]
        size = lambda f: int(FILES[f][1] / MB)
        c.equal(drawn("Num. Requests"), sorted((xs, list(range(1, len(xs) + 1))) for _, xs in lines), "requests of each file")
        c.equal(drawn("Num. Users"), sorted((xs, so_far(xs, "user")) for _, xs in lines), "users of each file")
        c.equal(drawn("Num. Sites"), sorted((xs, so_far(xs, "site")) for _, xs in lines), "sites of each file")
        c.equal(sorted(zip(*xy("Delta times"))), sorted((x, x - xs[i - 1] if i else 0) for _, xs in lines for i, x in enumerate(xs)), "distances of the requests")
        c.equal(sorted(zip(*xy("File sizes"))), sorted((x, size(f)) for f, xs in lines for x in xs), "sizes of the files requested")
        once = sorted((xs[0], size(f)) for f, xs in single)
        got = [p for p in zip(*xy("1 req. file sizes")) if p[0] in {x for x, _ in once}]
        c.equal(sorted(got), once, "sizes of the files requested once")
        every = lines + single
        both = lambda key: sorted((len(xs), so_far(xs, key)[-1]) for _, xs in every)
        c.equal(sorted(zip(*xy("correlation num. reqs. and file sizes"))), sorted((len(xs), size(f)) for f, xs in every), "requests and sizes")
        c.equal(sorted(zip(*xy("correlation num. reqs. and num. users"))), both("user"), "requests and users")
        c.equal(sorted(zip(*xy("correlation num. reqs. and num. sites"))), both("site"), "requests and sites")
        for t in ("Num. Requests", "Num. Users", "Num. Sites", "File sizes"):
            at = {}
            for s in figs[t].renderers:
                at.setdefault(s._k["line_color"], []).append(s._k["location"])
            c.equal(sorted(sum(at.values(), [])), sorted(spans + starts), "days marked in %r" % t)
            if starts:
                c.equal(sorted(map(sorted, at.values())), sorted([spans, starts]), "days and new starts marked in %r" % t)
    return run_


# ---- bins ----

BINS = {"size": [1, 2], "numReq": [1, 2], "deltaLastRequest": [1, 2]}
DAYS = [0, 1, 7, 8]     # two days of a week of April, one of the next week, one of May in the same week


def values_of(feature, groups):
    out = []
    for rs in groups:
        if feature == "size":
            out += [int(FILES[r["f"]][1] / MB) for r in rs]
        elif feature == "numReq":
            n = {}
            for r in rs:
                n[r["f"]] = n.get(r["f"], 0) + 1
            out += n.values()
        else:
            last = {}
            for i, r in enumerate(rs):
                if r["f"] in last:
                    out.append(i - last[r["f"]])
                last[r["f"]] = i
    return out


def suite_bins(nreq, ways):
    def run_(c):
        way, by, edge = c.pick(ways), c.pick("dwm"), c.pick([True, False])
        rs, at = [], 0
        for i in range(1 + c.choose(nreq)):
            if i:
                at += c.choose(len(DAYS) - at)
            rs.append(req(DAYS[at], f=c.pick("ABC")))
            c.op("day %d: %s" % (DAYS[at], rs[-1]["f"]))
        bad = c.pick([None, dict(ok=False), dict(kind="USER")])
        if bad:      # requests which do not count
            rs.insert(c.pick([0, len(rs)]) if len(rs) > 1 else 0, req(rs[0]["day"], f="A", **bad))
            rs.sort(key=lambda r: r["day"])
        c.note("%s by %s %s" % (way, by, bad))
        check_bins(c, rs, way, by, edge, None)
    return run_


def check_bins(c, rs, way, by, edge, names, region=None):
    days = sorted({r["day"] for r in rs})
    store("traces", [(name_of(d), [r for r in rs if r["day"] == d]) for d in days])
    # the features asked for may be other than those of the file
    with open("features.json", "w") as f:
        json.dump(dict({k: {"type": "float", "buckets": True, "keys": v, "bucket_open_right": edge} for k, v in BINS.items()}, other={"type": "string"}), f)
    shutil.rmtree("analysis", ignore_errors=True)
    run(c, "traces", "feature_bins", "--feature-filename", "features.json", "--group-by", by, "--output-folder", "analysis",
        *(["--concat", "False"] if way == "list" else []), *(["--feature-list", names] if names is not None else []), *(["--region", region] if region else []))
    good = selected(rs)
    if region:
        good = [r for r in rs if r["ok"] and r["kind"] in {"it": (0, 1), "us": (0, 3)}[region]]
    key = {"d": lambda d: d, "w": lambda d: when(d).isocalendar()[:2], "m": lambda d: (when(d).year, when(d).month)}[by]
    groups = {}
    for r in good:
        groups.setdefault(key(r["day"]), []).append(r)
    plots = {os.path.basename(n): f for n, f in p_report.written}
    asked = [x for x in (names or "").split(",") if x] or list(BINS)
    c.equal(sorted(plots), sorted("feature_%s_%s.html" % (k, p) for k in asked for p in ("bins", "violin")), "plots written")
    seen = []
    for k in asked:
        v = values_of(k, groups.values())
        keys = BINS[k] + [None] if edge else BINS[k][:-1] + [None]
        parts, low = [], 0
        for b in keys:
            parts.append(sorted(x for x in v if x > low and (b is None or x <= b)))
            low = b
        bar = plots["feature_%s_bins.html" % k]
        nears(c, bar.k["y"], [len(p) / len(v) * 100 if v else 0 for p in parts], "share of each bin of %s" % k)
        labels = list(bar.k["x"])
        c.equal([float(x) for x in labels[:-1]], [float(b) for b in keys[:-1]], "bins of %s" % k)
        violins = [t for t, _ in plots["feature_%s_violin.html" % k].traces()]
        c.equal([sorted(int(x) for x in t.k["y"]) for t in violins], [sorted(v)] + parts, "values of %s: all, and of each bin" % k)
        seen.append(parts)
    c.state(seen)


def suite_asked(c):
    """Which features are analysed."""
    names = c.pick(["", "size", "numReq", "deltaLastRequest", "size,numReq", "deltaLastRequest,size,"])
    way, by, edge = c.pick(["whole", "list"]), c.pick("dwm"), c.flag()
    rs = [req(DAYS[d], f=f) for d, f in ((0, "A"), (0, "B"), (0, "A"), (0, "A"), (1, "C"), (1, "B"), (2, "C"), (2, "B"), (2, "C"), (3, "A"))]
    c.op("%r of %s by %s" % (names, way, by))
    check_bins(c, rs, way, by, edge, names)


def suite_coded(c):
    """Traces of numbers, in which each region has codes of its own."""
    region, way, by = c.pick(["it", "us"]), c.pick(["whole", "list"]), c.pick("dwm")
    rs = []
    for i in range(3):
        rs.append(req(DAYS[i // 2], f=c.pick("AB"), kind=c.choose(5), ok=c.pick([True, False]) if i == 1 else True))
        c.op("file %s, data type %d, %s" % (rs[-1]["f"], rs[-1]["kind"], rs[-1]["ok"]))
    rs.append(req(DAYS[1], f="C", kind=0))
    c.note("%s by %s %s" % (way, by, region))
    check_bins(c, rs, way, by, True, None, region)


def prop(pid, tier, repo):
    load(repo)
    deep = tier == "thorough"
    full = list(itertools.product("AB", [(1, "it"), (2, "it"), (1, "us")]))
    few = [("A", (1, "it")), ("B", (2, "us"))]
    suites = [
        Suite("limits", "%d days of 1 to %d requests of 7 kinds, 4 selections, data generated or listed" % ((2, 3) if deep else (2, 2)), suite_limits(2, 3 if deep else 2)),
        Suite("limits_days", "3 days of 1 request of 7 kinds, 4 selections", suite_limits(3, 1)),
        Suite("selection", "5 days of 3 months, 5 regions, 4 file types, 4 months, folder or file, plain or compressed, names of 2 forms", suite_selection),
        Suite("weeks", "7 to 15 days with or without a gap, and %d requests of 4 kinds on 4 of the days, in both orders, in one or two files" % (3 if deep else 2), suite_weeks(3 if deep else 2)),
        Suite("days", "2 to %d requests of 2 files by 3 pairs of user and site, on the same day, the next or later; new start after 0, 1 or 2 days" % (4 if deep else 3), suite_days(4 if deep else 3, [0, 1, 2], full)),
        Suite("days_long", "6 to %d requests of 2 files; new start after 0, 2 or 3 days" % (7 if deep else 6), suite_days(7 if deep else 6, [0, 2, 3], few, 6, (0, 1))),
        Suite("bins", "1 to %d requests of 3 files on 4 days and one which does not count, by day, week and month, of the whole data or the list" % (4 if deep else 3), suite_bins(4 if deep else 3, ["whole", "list"])),
        Suite("coded", "4 requests in a trace of numbers, of 5 data types, for both regions with codes, by day, week and month, whole or list", suite_coded),
        Suite("asked", "6 lists of features, by day, week and month, whole or list", suite_asked),
    ]
    return Property(suites, ["pandas, numpy, plotly and bokeh are replaced by stand-ins with the behaviour of the calls made (py/minipd.py, p_report.py, p_analyze.py)"])
