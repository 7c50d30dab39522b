"""C62: the plot server."""
import builtins
import gzip
import io
import json
import os
import re
import shutil
import sys
import types

import stubs
from explore import Property, Suite, HarnessError

NAMES = ("hit_rate", "weighted_hit_rate", "hit_over_miss", "size", "written_data", "read_on_hit")


# --- flask -------------------------------------------------------------------------

class NoSuchPage(Exception):
    pass


KINDS = {"string": (r"[^/]+", str), "int": (r"\d+", int), "float": (r"\d+\.\d+", float)}


class Flask:
    made = []

    def __init__(self, name, static_folder=None, **k):
        self.rules, self.static, self.runs = [], static_folder, []
        Flask.made.append(self)

    def route(self, rule, methods=("GET",), **k):
        def deco(f):
            pattern, kinds = "", {}
            for part in re.split(r"(<[^>]+>)", rule):
                m = re.fullmatch(r"<(?:(\w+):)?(\w+)>", part)
                if m:
                    rx, conv = KINDS[m.group(1) or "string"]
                    pattern += "(?P<%s>%s)" % (m.group(2), rx)
                    kinds[m.group(2)] = conv
                else:
                    pattern += re.escape(part)
            fixed = sum(1 for p in rule.split("/") if p and "<" not in p)
            self.rules.append((fixed, re.compile(pattern), {x.upper() for x in methods}, kinds, f))
            return f
        return deco

    def __getattr__(self, name):
        if name in ("get", "put", "post", "delete"):
            return lambda rule, **k: self.route(rule, methods=(name.upper(),))
        raise AttributeError(name)

    def send_static_file(self, name):
        return "file", os.path.abspath(os.path.join(self.static, name))

    def run(self, *a, **k):
        self.runs.append(k)

    def call(self, method, url, data=b"", **args):
        best = None
        for fixed, rx, methods, kinds, f in self.rules:
            m = rx.fullmatch(url)
            if m and method in methods and (best is None or fixed > best[0]):
                best = fixed, f, {k: kinds[k](v) for k, v in m.groupdict().items()}
        if best is None:
            raise NoSuchPage("%s %s" % (method, url))
        REQUEST.data, REQUEST.args, REQUEST.method = data, args, method
        REQUEST.get_data = lambda *a, **k: data
        return best[1](**best[2])


REQUEST = types.SimpleNamespace()


# --- bokeh ------------------------------------------------------------------------

class Figure:
    def __init__(self, **k):
        self.k, self.drawn, self.renderers = k, [], []
        self.legend = types.SimpleNamespace()

    def add_layout(self, x, *a):
        self.renderers.append(x)

    def __getattr__(self, kind):
        if kind.startswith("__"):
            raise AttributeError(kind)

        def draw(*a, **k):
            if kind == "line":
                for n, v in zip(("x", "y"), a):
                    k[n] = v
            elif a:
                k["x"] = a[0]
            for n in ("x", "y", "top", "left", "right"):
                if n in k:
                    k[n] = list(k[n])
            if "x" in k and "y" in k and len(k["x"]) != len(k["y"]):
                raise ValueError("columns of different lengths")
            if "legend_label" in k:
                k["legend"] = k.pop("legend_label")
            self.drawn.append((kind, k))
        return draw


class Span:
    def __init__(self, location=None, dimension=None, **k):
        self.location, self.dimension = location, dimension


class Box(list):
    pass


OUT = types.SimpleNamespace(target=None, pages={})


def linspace(lo, hi, n):
    step = (hi - lo) / n
    return [lo + i * step for i in range(n)] + [hi]


def histogram(values, bins=10, **k):
    lo, hi = min(values), max(values)
    if lo == hi:
        lo, hi = lo - .5, hi + .5
    edges = minipd.Array(linspace(float(lo), float(hi), bins))
    return None, edges


import minipd  # noqa: E402


def modules():
    stubs.tqdm()
    fl = types.ModuleType("flask")
    fl.Flask, fl.request, fl.jsonify = Flask, REQUEST, lambda *a, **k: ("json", json.dumps(a[0] if a else k))
    sys.modules["flask"] = fl
    stubs.missing("pandas", "bokeh.layouts", "bokeh.models", "bokeh.palettes", "bokeh.plotting", "bokeh.transform", "numpy")
    sys.modules["numpy"].histogram = histogram
    b = {n: sys.modules["bokeh." + n] for n in ("layouts", "models", "palettes", "plotting")}
    b["layouts"].column = b["layouts"].row = lambda *a: Box(a)
    b["models"].Span = Span
    b["palettes"].Category10 = {n: ["colour%d" % i for i in range(n)] for n in range(3, 11)}
    b["plotting"].figure = Figure

    def output_file(name, *a, **k):
        OUT.target = os.path.abspath(name)

    def save(obj, filename=None, *a, **k):
        OUT.pages[os.path.abspath(filename) if filename else OUT.target] = obj
    b["plotting"].output_file, b["plotting"].save = output_file, save


# --- crashes ---------------------------------------------------------------------

class Crash(BaseException):
    pass


class Disk:
    """Stops the server at one of its steps on the disk."""

    def __init__(self, c):
        self.c, self.dead, self.at = c, False, None

    def step(self, what, torn=False):
        """Returns True for half of a write."""
        if self.dead:
            raise Crash()
        k = self.c.choose(3 if torn else 2)
        if k == 1:
            self.dead, self.at = True, "before " + what
            raise Crash()
        return k == 2

    def __enter__(self):
        disk = self
        self.saved = [(builtins, "open", builtins.open), (io, "open", io.open)] + [(os, n, getattr(os, n)) for n in ("replace", "rename", "remove", "unlink")]
        real = builtins.open

        class File:
            def __init__(self, path, text):
                disk.step("opening " + os.path.basename(path))
                self.f, self.text, self.name = real(path, "wb", buffering=0), text, path
                self.closed = False

            def write(self, data):
                if disk.dead:
                    return len(data)
                raw = data.encode() if self.text else bytes(data)
                if disk.step("writing", True):
                    self.f.write(raw[:len(raw) // 2])
                    disk.dead, disk.at = True, "in the middle of a write"
                    raise Crash()
                self.f.write(raw)
                return len(data)

            def flush(self):
                pass

            def fileno(self):
                return self.f.fileno()

            def close(self):
                self.closed = True
                self.f.close()

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()

        def opened(path, mode="r", *a, **k):
            if isinstance(path, int) or "a" in mode or "+" in mode or not ("w" in mode or "x" in mode):
                return real(path, mode, *a, **k)
            return File(os.fspath(path), "b" not in mode)
        builtins.open = io.open = opened
        for mod, n, f in self.saved[2:]:
            def op(*a, f=f, n=n, **k):
                if disk.dead:
                    return None
                disk.step(n)
                return f(*a, **k)
            setattr(mod, n, op)
        return self

    def __exit__(self, *a):
        for mod, n, f in self.saved:
            setattr(mod, n, f)
        return False


# --- the server --------------------------------------------------------------------

class Server:
    code = None

    def __init__(self, repo):
        if Server.code is None:
            p = os.path.join(repo, "scripts", "DataAnalysis", "plot_server.py")
            Server.code = compile(open(p).read(), p, "exec")
        shutil.rmtree("plot_server_app", ignore_errors=True)
        self.start()

    def start(self):
        Flask.made = []
        m = types.ModuleType("__main__")
        m.__file__ = self.code.co_filename
        old = sys.modules["__main__"]
        sys.modules["__main__"] = m
        try:
            exec(self.code, m.__dict__)
        finally:
            sys.modules["__main__"] = old
        self.app, = Flask.made
        if len(self.app.runs) != 1:
            raise AssertionError("the server was started %d times" % len(self.app.runs))

    def put(self, url, obj=None, method="PUT"):
        return self.app.call(method, url, gzip.compress(json.dumps(obj).encode(), 1) if obj is not None else b"")

    def plot(self, c, url, **args):
        OUT.pages.clear()
        r = self.app.call("GET", url, **args)
        c.require(isinstance(r, tuple) and r[0] == "file", "%s answers %r" % (url, r))
        c.require(r[1] in OUT.pages, "%s answers with another file than was made" % url)
        return OUT.pages[r[1]]


def lines(c, fig):
    out = {}
    colours = []
    for kind, k in fig.drawn:
        if kind == "line":
            c.equal(k["x"], list(range(len(k["y"]))), "places of the points")
            c.require(k["legend"] not in out, "%s is drawn twice" % k["legend"])
            out[k["legend"]] = k["y"]
            colours.append(k["color"])
    c.require(len(set(colours)) == min(len(colours), 10), "colours %s" % colours)
    return out


def spans(fig):
    return [s.location for s in fig.renderers]


def ends(windows):
    at, out = 0, []
    for w in windows:
        at += len(w)
        out.append(at)
    return out if len(windows) > 1 else []


class Ref:
    def __init__(self):
        self.tables, self.info = {n: {} for n in NAMES}, {}

    def insert(self, table, cache, window, at, value):
        ws = self.tables[table].setdefault(cache, [])
        if window == len(ws):
            ws.append([])
        if at < len(ws[window]):
            ws[window][at] = value
        else:
            ws[window].append(value)

    def copy(self):
        r = Ref()
        r.tables, r.info = json.loads(json.dumps(self.tables)), json.loads(json.dumps(self.info))
        return r


def flat(ws):
    return [v for w in ws for v in w]


def size_of(name):
    return next((p for p in name.split("_") if p[-1:] == "T"), "unknown")


def shared(a, b):
    return len(set(a.replace("_rpc", "").split("_")) & set(b.replace("_rpc", "").split("_")))


def near(a, b):
    return len(a) == len(b) and all(abs(x - y) < 1e-9 for x, y in zip(a, b))


def check_table(c, srv, ref, table, filters=None):
    args = {"filter": ",".join(filters)} if filters else {}
    fig = srv.plot(c, "/cache/plot/" + table, **args)
    got = lines(c, fig)
    want, first = {}, None
    base = {"written_data_compare": "written_data", "read_on_hit_compare": "read_on_hit"}.get(table, table)
    special = table in ("ratio", "diff", "diff_compare")
    data = ref.tables["written_data" if special else base]
    for cache in sorted(data):
        if filters and not all(f in cache for f in filters):
            continue
        ys = flat(data[cache])
        if special:
            other = flat(ref.tables["read_on_hit"].get(cache, []))
            diff = [r - w for w, r in zip(ys, other)]
            if table == "ratio":
                ys = [r / w if w else 0. for w, r in zip(ys, other)]
            else:
                ys = diff
            first = first or (ends(data[cache]) and cache)
            if table == "diff_compare":
                if cache.lower().find("lru") <= 0:
                    continue
                lru = [n for n in data if n.lower().startswith("lru") and size_of(n) == size_of(cache)]
                if not lru:
                    continue
                l, = lru
                ys = [d - (r - w) for d, w, r in zip(diff, flat(data[l]), flat(ref.tables["read_on_hit"][l]))]
        elif base != table:
            if cache.lower().startswith("lru"):
                continue
            lru = [n for n in data if n.lower().startswith("lru") and size_of(n) == size_of(cache) and shared(n, cache) >= 2]
            if not lru:
                continue
            l, = lru
            ys = [(y - x) / x if x else 0. for y, x in zip(ys, flat(data[l]))]
        first = first or (ends(data[cache]) and cache)
        want[cache] = ys
    c.equal(sorted(got), sorted(want), "caches drawn in %s" % table)
    for cache in want:
        c.require(near(got[cache], want[cache]), "%s of %s: %s, want %s" % (table, cache, got[cache], want[cache]))
    c.equal(spans(fig), ends(data[first]) if first else [], "ends of windows in %s" % table)


def windows(data):
    return sorted("[%s][window %d][len %d]" % (cache, i, len(w)) for cache, ws in data.items() for i, w in enumerate(ws))


def check_all(c, srv, ref):
    for t in NAMES:
        check_table(c, srv, ref, t)
    kind, text = srv.app.call("GET", "/cache/service/status")
    st = json.loads(text)
    for key, n in (("hit_rates", len(ref.tables["hit_rate"])), ("sizes", len(ref.tables["size"])), ("written_data", len(ref.tables["written_data"])), ("window_info", len(ref.info))):
        c.equal(st["num_cache_" + key], n, "caches in the status (%s)" % key)
    for key, data in (("hit_rate", ref.tables["hit_rate"]), ("size", ref.tables["size"]), ("written_data", ref.tables["written_data"]), ("info", ref.info)):
        c.equal(sorted(st["len_window_cache_" + key]), windows(data), "windows in the status (%s)" % key)


CACHES = ["LRU_10T_it", "weightedLRU_10T_it"]


class Source:
    def __init__(self):
        self.v = 0.

    def next(self):
        self.v += 1.25
        return self.v


def request(c, srv, ref, src, kinds):
    """One request: what it should change and how to send it."""
    kind = c.pick(kinds)
    new = ref.copy()
    if kind == "clear":
        c.op("delete all")
        return Ref(), lambda: srv.app.call("DELETE", "/cache/plot")
    cache = CACHES[0] if kind in ("one", "info") else c.pick(CACHES)
    if kind == "info":
        have = new.info.setdefault(cache, [])
        w = c.choose(len(have) + 1)
        obj = {"cache": {}, "weights": {}, "stats": {}, **{"x%d" % i: i for i in range(int(src.next()))}}
        have[w:w + 1] = [obj]
        c.op("info of window %d of %s" % (w, cache))
        return new, lambda: srv.put("/cache/info/%s/%d" % (cache, w), obj, c.pick(["PUT", "POST"]) if c.pos < 2 else "PUT")
    if kind == "one":
        t = "hit_over_miss"
        have = new.tables[t].get(cache, [])
        w = c.choose(len(have) + 1)
        n = len(have[w]) if w < len(have) else 0
        at, v = c.choose(n + 1), src.next()
        new.insert(t, cache, w, at, v)
        c.op("%s of %s, window %d, place %d" % (t, cache, w, at))
        return new, lambda: srv.put("/cache/%s/%s/%d/%d/%s" % (t, cache, w, at, v))
    have = new.tables["size"].get(cache, [])
    w = c.choose(len(have) + 1)
    n = len(have[w]) if w < len(have) else 0
    start, k = c.pick([n, n + 1, 0] if n else [0, 1]), 1 + c.choose(2)
    obj = {}
    for t in NAMES:
        obj[t] = [(start + i, src.next()) for i in range(k)]
        for at, v in obj[t]:
            new.insert(t, cache, w, at, v)
    c.op("%d values from %d on in window %d of %s" % (k, start, w, cache))
    return new, lambda: srv.put("/cache/update/%s/%d" % (cache, w), obj)


def histories(repo, depth, kinds):
    def run(c):
        srv, ref, src = Server(repo), Ref(), Source()
        again = c.choose(depth)  # the last: only at the end
        for i in range(depth):
            new, send = request(c, srv, ref, src, kinds)
            send()
            ref = new
            if i in (again, depth - 1):
                c.op("restarted")
                srv.start()
            if i == depth - 1:
                check_all(c, srv, ref)
        c.state(ref.tables, ref.info)
    return run


def crashes(repo, before):
    def run(c):
        srv, ref, src = Server(repo), Ref(), Source()
        for i in range(before):
            cache, obj = CACHES[i], {t: [(0, src.next()), (1, src.next())] for t in NAMES}
            for t in NAMES:
                for at, v in obj[t]:
                    ref.insert(t, cache, 0, at, v)
            srv.put("/cache/update/%s/0" % cache, obj)
            ref.info[cache] = [{"cache": {}, "weights": {}, "stats": {}}]
            srv.put("/cache/info/%s/0" % cache, ref.info[cache][0])
            c.op("values and info of %s" % cache)
        new, send = request(c, srv, ref, src, ["values", "one", "info", "clear"])
        try:
            with Disk(c) as disk:
                send()
        except Crash:
            pass
        c.note("stopped " + disk.at if disk.dead else "not stopped")
        srv.start()
        # each table is as before or after the request
        mix = Ref()
        done = 0
        for t in NAMES:
            got = lines(c, srv.plot(c, "/cache/plot/" + t))
            options = [{k: flat(v) for k, v in r.tables[t].items()} for r in (ref, new)]
            c.require(got in options, "%s after the restart: %s, before the request: %s, after it: %s" % (t, got, *options))
            mix.tables[t] = (new if got == options[1] else ref).tables[t]
            done += got == options[1]
        _, text = srv.app.call("GET", "/cache/service/status")
        got = sorted(json.loads(text)["len_window_cache_info"])
        options = [windows(r.info) for r in (ref, new)]
        c.require(got in options, "info after the restart: %s, before the request: %s, after it: %s" % (got, *options))
        mix.info = (new if got == options[1] else ref).info
        if not disk.dead:
            c.equal((done, got), (len(NAMES), options[1]), "tables and info with the request")
        # and the server works on
        for t in NAMES:
            mix.insert(t, "other_10T", 0, 0, src.next())
        srv.put("/cache/update/other_10T/0", {t: [(0, mix.tables[t]["other_10T"][0][0])] for t in NAMES})
        srv.start()
        check_all(c, srv, mix)
        c.state(before, disk.at, mix.tables)
    return run


def comparisons(repo, names, n):
    def run(c):
        srv, ref, src = Server(repo), Ref(), Source()
        for cache in names:
            if not c.flag():
                continue
            wins = c.pick([[n], [1, n]])
            if len(wins) == 1 and c.flag():
                wins = [n - 1]
            c.op("%s with windows of %s" % (cache, wins))
            for w, k in enumerate(wins):
                obj = {t: [(i, src.next()) for i in range(k)] for t in NAMES}
                if c.flag():
                    obj["written_data"][0] = (0, 0.)
                for t in NAMES:
                    for at, v in obj[t]:
                        ref.insert(t, cache, w, at, v)
                srv.put("/cache/update/%s/%d" % (cache, w), obj, "POST")
        filters = c.pick([None, ["it"], ["10T", "it"], ["nothing"], ["20T"]])
        c.note("filters %s" % filters)
        tables = NAMES[:1] + ("size", "written_data_compare", "read_on_hit_compare", "ratio", "diff", "diff_compare")
        order = tables if len(ref.tables["size"]) != 2 or c.flag() else tables[::-1]
        for t in order:
            check_table(c, srv, ref, t, filters)
        c.state(ref.tables, filters)
    return run


def figures(box):
    for x in box:
        if isinstance(x, Figure):
            yield x
        else:
            yield from figures(x)


def infos(repo, files, sizes, hits):
    def run(c):
        srv = Server(repo)
        window = c.choose(2)
        names = ["f%d" % i for i in range(files)]
        size = c.pick(sizes)
        data = {}
        posted = c.pick([("LRU_10T", "weighted_10T"), ("weighted_10T", "LRU_10T"), ("LRU_10T", "weighted_10T", "LRU_20T", "other_20T")])
        for i, cache in enumerate(posted):
            weights = {n: float(c.pick([1, 5]) if cache == "weighted_10T" else 1 + j) for j, n in enumerate(names)}
            stored = {n: 1. for n in names if (c.flag() if i < 2 else n == "f1")}
            stats = {n: {"size": s, "totReq": 5, "nHits": c.pick([0, 3]) if i < 2 and j < hits else j if i >= 2 else 0, "nMiss": 2 if i < 2 and j < 2 else j} for j, (n, s) in enumerate(zip(names, size))}
            data[cache] = {"cache": stored, "weights": weights, "stats": stats}
            c.op("%s: %s" % (cache, data[cache]))
            for w in range(window + 1):
                srv.put("/cache/info/%s/%d" % (cache, w), data[cache] if w == window else {"cache": {}, "weights": {n: 9. for n in names}, "stats": stats})
        if window:
            srv.start()
        args = {"filter": "10T"} if len(posted) > 2 and c.flag() else {}
        page = srv.plot(c, "/cache/plot/info/%d" % window, **args)
        groups = [list(figures([g])) for g in page]
        want = [p for p in posted if not p.startswith("LRU") and (not args or "10T" in p)]
        c.equal(len(groups), len(want), "groups of figures")
        for figs, cache in zip(groups, want):
            lru = data["LRU_" + size_of(cache)]
            mine = data[cache]
            bars, quads = [], {}
            for f in figs:
                b = [k for kind, k in f.drawn if kind == "vbar"]
                if b:
                    bars.append((f, b))
                for kind, k in f.drawn:
                    if kind == "quad":
                        quads[(k["color"], "hit" if "hit" in f.k["title"].lower().split("number of")[-1].split("x")[0] else "miss")] = k
            c.equal(len(bars), 2, "figures of the weights")
            for f, b in bars:
                c.equal(len(b), 2, "rows of bars")
                for k in b:
                    c.equal(sorted(k["x"]), names, "files of %s" % cache)
                    c.require(all(mine["weights"][x] >= mine["weights"][y] for x, y in zip(k["x"], k["x"][1:])), "files of %s are not in the order of their weights: %s" % (cache, k["x"]))
                c.equal(b[0]["top"], [mine["weights"][x] for x in b[0]["x"]], "weights of %s" % cache)
                where = {"blue": mine, "red": lru}[b[1]["color"]]
                c.equal(b[1]["top"], [mine["weights"][x] if x in where["cache"] else 0 for x in b[1]["x"]], "weights of stored files of %s (%s)" % (cache, b[1]["color"]))
            c.equal(sorted(b[1]["color"] for _, b in bars), ["blue", "red"], "caches compared")
            c.equal(sorted(quads), [("blue", "hit"), ("blue", "miss"), ("red", "hit"), ("red", "miss")], "figures of hits and misses")
            for (colour, what), k in quads.items():
                st = (mine if colour == "blue" else lru)["stats"]
                key = "nHits" if what == "hit" else "nMiss"
                total = sum(s[key] for s in st.values())
                for s in sorted({x["size"] for x in st.values()}):
                    share = sum(x[key] for x in st.values() if x["size"] == s) / total if total else 0.
                    got = sum(t for t, l, r in zip(k["top"], k["left"], k["right"]) if l <= s <= r)
                    c.require(abs(got - share) < 1e-9, "%s of %s files of size %s: %s, want %s" % (what, colour, s, got, share))
                c.require(abs(sum(k["top"]) - (1. if total else 0.)) < 1e-9, "shares of %s sum up to %s" % (what, sum(k["top"])))
        c.state(data, window)
    return run


def prop(pid, tier, repo):
    modules()
    deep = int(tier == "thorough")
    all_ = ["values", "one", "info", "clear"]
    trio = ["LRU_10T_it", "weightedLRU_10T_it", "weightedLRU_20T_it"]
    return Property([
        Suite("history", "every sequence of %d requests (values of all tables, one value, info of a window, deletion) for two caches, new and known windows and places, restarted after one of them and at the end" % (3 + deep), histories(repo, 3 + deep, all_)),
        Suite("updates", "every sequence of %d updates, restarted after one of them and at the end" % (3 + deep), histories(repo, 3 + deep, ["values"])),
        Suite("crash_first", "the server stopped at every step on the disk of every first request, started again, and one more request", crashes(repo, 0)),
        Suite("crash", "the same when there are values and info already", crashes(repo, 1)),
        Suite("crash_both", "the same when there are values and info of both caches", crashes(repo, 2)),
        Suite("comparisons", "every subset of the caches %s, with one or two windows of up to %d values, behind one another or not, five filters, all plots in both orders" % (trio, 2 + deep), comparisons(repo, trio, 2 + deep)),
        Suite("lru_sizes", "the same with two LRU caches", comparisons(repo, ["LRU_20T_it", "LRU_10T_it", "weightedLRU_20T_it", "aLRU_30T_it"] if deep else ["LRU_20T_it", "LRU_10T_it", "weightedLRU_20T_it"], 2)),
        Suite("info", "the info of windows 0 and 1 with 2 files of equal and different sizes, every order of weights, hits and stored files of two caches, alone and beside two others", infos(repo, 2, [(1., 1.), (50., 1.), (1., 200.)], 2)),
        Suite("info_sizes", "the same with 3 files", infos(repo, 3, [(7., 7., 7.), (90., 7., 7.), (7., 7., 90.)][:1 + 2 * deep], 1)),
    ], ["flask, bokeh and numpy are replaced by stand-ins with the behaviour of the calls made; a stop loses nothing that was written before it"])
