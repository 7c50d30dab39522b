"""Seventh batch of planted bugs: the reports of the probe."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gobug import pybug as _pybug, ROOT
ONLY = sys.argv[1:]
R = "Probe/probe/results/"

# The elements of pages and plots, from the machinery's own stand-ins.
SRC = open(ROOT + "/py/p_report.py").read()
KIT = '"""Stand-ins for the libraries of pages and plots."""\nimport contextlib, importlib, io, os, sys, tempfile, types\nimport minipd, stubs\n' + SRC[SRC.index("class El:"):SRC.index("# ---- logs of purges")].replace("raise HarnessError(", "raise RuntimeError(") + '''
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
'''

HEAD = r'''
import os, sys
import kit, minipd
kit.load(os.environ["REPO"])
NEVER = 2 ** 63 - 1
COLS = "tick,action or event,cache size,cache capacity,filename,size,num req,delta t".split(",")
def log(*rows):
    """Lines: (tick, kind) of a purge, (tick, kind, file, requests) of others."""
    return minipd.DataFrame([(t, k, 50.0, 25.0, x[0], 100.5 * x[0], x[1], NEVER if x[1] < 2 else 3) if x else (t, k, 50.0, 25.0, -1, -1.0, -1, -1) for t, k, *x in rows], columns=COLS)
def want(what, got, should):
    if got != should: sys.exit("%s: %r, should be %r" % (what, got, should))
    print("ok", what, got)
BASE = "date,num req,num hit,num added,num deleted,num redirected,size redirected,cache size,num miss after delete,size,capacity,bandwidth,bandwidth usage,hit rate,weighted hit rate,written data,read data,read on hit data,read on miss data,deleted data,avg free space,std dev free space,CPU efficiency,CPU hit efficiency,CPU miss efficiency,CPU efficiency upper bound,CPU efficiency lower bound".split(",")
def run(name, *days, log=None):
    d = os.path.join("base", "run_full_normal", name)
    os.makedirs(d)
    rows = []
    for i, over in enumerate(days):
        r = {k: float(7 * j + i) for j, k in enumerate(BASE)}
        r["date"] = "2018-01-%02d 00:00:00 +0000 UTC" % (i + 1)
        r.update({"cache size": 1000.0, "written data": 100.0, "deleted data": 50.0, "read data": 400.0, "read on hit data": 300.0, "read on miss data": 100.0, "num miss after delete": 2.0})
        r.update(over)
        rows.append([r[k] for k in BASE])
    minipd.DataFrame(rows, columns=BASE).to_csv(os.path.join(d, "simulation_results.csv"), index=False)
    if log is not None:
        log.to_csv(os.path.join(d, "simulationLogFile.csv.gz"), index=False)
    return "base/run_full_normal/%s/simulation_results.csv" % name
def results(): return kit.quiet(kit.m_data.aggregate_results, ["base"])
def page():
    kit.quiet(kit.m_dashboard.create, results())
    return kit.App.last
def show(app, part, tab, files, all_=(), any_=(), n=0, ext=False, hit=False):
    return kit.quiet(app.compute, part, {"active_tab": tab, "tabs": tab, "selected-files": list(files), "selected-filters-all": list(all_), "selected-filters-any": list(any_), "num-of-results": n, "toggle-extended-table": ext, "toggle-sort-by-roh-first": hit})[part]
def graphs(part): return [e.k["figure"] if "figure" in e.k else e.a[0] for e in part if getattr(e, "kind", "").endswith(".Graph")]
def column(part, k): return [round(float(x), 4) for x in part.a[0][k].values]
'''


def bug(id, prop, edits, body, needs, what):
    if ONLY and id not in ONLY:
        return
    _pybug(id, prop, edits, HEAD.lstrip("\n") + body, needs, what)
    d = os.path.join(ROOT, "seeded", id)
    open(d + "/kit.py", "w").write(KIT)
    for f in ("minipd.py", "stubs.py"):
        shutil.copy(ROOT + "/py/" + f, d)
    open(d + "/explore.py", "w").write("class HarnessError(Exception):\n    pass\n")


bug("each-missed-file-once", "C56", [(R + "utils.py",
    "tot = sum(counts[file_] for file_ in files if file_ in counts)",
    "tot = len([file_ for file_ in files if file_ in counts])")], r'''
l = log((1, "MISS", 1, 1), (1, "ADD", 1, 1), (1, "ONK"), (1, "DELETE", 1, 1), (2, "MISS", 1, 2), (2, "SKIP", 1, 2), (3, "MISS", 1, 3), (3, "SKIP", 1, 3))
got = list(kit.quiet(lambda: list(kit.m_utils.parse_sim_log(l, "AFTERDELETE"))))
want("misses of the deleted file", [int(e.total_num_req_after_delete) for e in got], [2])
''', "a deleted file that misses twice before the next purge (it is not admitted again, or deleted by another way)", "the report counts missed files instead of missed requests")

bug("purges-in-a-row-are-one", "C56", [(R + "utils.py",
    '''                if state == "AFTERDELETE":
                    deleted_files = {}
                    state = "DELETING"
''', '''                if state == "AFTERDELETE":
                    if name2check is not None:
                        deleted_files = {}
                    state = "DELETING"
''')], r'''
l = log((1, "MISS", 1, 1), (1, "SKIP", 1, 1), (1, "ONK"), (1, "DELETE", 2, 4), (1, "ONDAYEND"), (1, "DELETE", 3, 5), (2, "MISS", 2, 5), (2, "ADD", 2, 5))
(deleted, skipped), = kit.quiet(lambda: list(kit.m_utils.parse_sim_log(l, "MISSFREQ")))
want("frequencies of the files deleted by the last purge and missed", list(deleted), [])
want("frequencies of the files skipped", list(skipped), [1])
''', "a purge that begins when the last miss was not admitted: a day end or a purge after hits only", "files of the purge before the last one are still counted as deleted")

bug("six-is-twice", "C56", [(R + "plotters.py",
    "len([elm for elm in data if elm > max_val])",
    "len([elm for elm in data if elm >= max_val])")], r'''
rows = [(i + 1, "MISS", i + 1, n) for i, n in enumerate((1, 2, 6, 7))]
rows = [x for m in rows for x in (m, (m[0], "SKIP") + m[2:])]
os.mkdir("base")
run("lru_100T_10Gbit_it", {}, log=log(*rows))
kit.quiet(kit.m_main.plot, ["base"], kit.m_main.PlotType("MISSFREQ"), "x")
(name, fig), = kit.written
got = {t.k["name"]: [float(v) for v in t.k["y"]] for t, _ in fig.traces()}
want("classes of the skipped files", got["skipped"], [25.0, 25.0, 25.0, 25.0])
''', "a file skipped or missed again with exactly six requests", "the classes of requests overlap: such a file is in two of them and they sum to more than everything")

bug("dearest-first-on-ties", "C57", [(R + "data.py",
    "ascending=[False, False, True, False],", "ascending=[False, False, False, False],")], r'''
os.mkdir("base")
a = run("sizeBig_1T_10Gbit_it", {"deleted data": 10.0}, {"deleted data": 20.0})
b = run("lru_1T_10Gbit_it", {"deleted data": 30.0}, {"deleted data": 40.0})
app = page()
for hit in (False, True):
    want("costs in the order of the table", column(show(app, "table", "tab-table", [b, a], hit=hit), "Cost"), [0.115, 0.135])
want("the best run", column(show(app, "table", "tab-table", [b, a], n=1, hit=True), "Cost"), [0.115])
''', "the order by read on hit, and two runs with the same read on hit ratio and the same throughput", "the more expensive of two equal runs is the better one")


bug("comparison-needs-every-filter", "C57", [(R + "data.py",
    '''            len(cur_elm.components.intersection(set(filters_any))) != 0
            if len(filters_any) > 0
            else True
        )
        if all_ and any_:
            tmp = self._choices[file_]''', '''            len(cur_elm.components.intersection(set(filters_any))) == len(filters_any)
            if len(filters_any) > 0
            else True
        )
        if all_ and any_:
            tmp = self._choices[file_]''')], r'''
l = log((1, "MISS", 1, 1), (1, "ADD", 1, 1), (1, "ONK"), (1, "DELETE", 1, 1), (2, "MISS", 1, 2), (2, "SKIP", 1, 2))
os.mkdir("base")
a = run("lru_1T_10Gbit_it", {}, {}, log=l)
b = run("sizeBig_1T_10Gbit_it", {}, {}, log=l)
app = page()
for any_, n in (([], 2), (["lru"], 1), (["lru", "sizeBig"], 2)):
    fig, = graphs(show(app, "compare", "tab-compare", [a, b], any_=any_))
    want("runs compared with any of %s" % any_, len(fig.traces()) // 3, n)
''', "the comparison with two filters of which any has to hold", "runs that have one of them are not compared")

bug("ratio-of-the-sums", "C57", [(R + "data.py",
    "measures.append(measure_hit_over_miss(df).mean())",
    'measures.append(df["read on hit data"].sum() / df["read on miss data"].sum())')], r'''
os.mkdir("base")
a = run("lru_1T_10Gbit_it", {"read on hit data": 300.0, "read on miss data": 100.0}, {"read on hit data": 10.0, "read on miss data": 40.0})
app = page()
want("hit over miss", column(show(app, "table", "tab-table", [a], ext=True), "Hit over Miss"), [1.625])
''', "the extended table and a run with days of different traffic", "the mean of the daily ratios is replaced by the ratio of the sums")

bug("family-name-cut-short", "C57", [(R + "data.py",
    'yield component.rsplit("_", 3)[0]', 'yield component.rsplit("_", 4)[0]')], r'''
os.mkdir("base")
a = run("weightFunLRU_FuncAdditive_0.10_0.50_1.00", {})
b = run("weightFunLRU_FuncWeightedRequests_0.10_0.50_1.00", {})
r = results()
want("what can be selected", list(r.components), ["base", "run_full_normal", "weightFunLRU_FuncAdditive", "weightFunLRU_FuncWeightedRequests"])
want("runs of a function", [x for x in (a, b) if r.get_df(x, [], ["weightFunLRU_FuncAdditive"]) is not None], [a])
''', "two runs of the weight function policy with different functions", "they can no longer be told apart by a filter")

bug("top-of-the-plots-only", "C57", [(R + "dashboard.py",
    '''                    table, _ = make_table(
                        files2plot,
                        prefix,
                        extended=extended,
                        sort_by_roh_first=sort_by_roh_first,
                    )
                else:''', '''                    table, _ = make_table(
                        files2plot,
                        prefix,
                        extended=extended,
                    )
                else:''')], r'''
os.mkdir("base")
a = run("sizeBig_1T_10Gbit_it", {"read data": 400.0, "read on hit data": 350.0})
b = run("lru_1T_10Gbit_it", {"read data": 300.0, "read on hit data": 290.0})
app = page()
for n in (0, 2, 5):
    want("read on hit of the %d best" % n, column(show(app, "table", "tab-table", [a, b], n=n, hit=True), "Read on hit ratio"), [96.6667, 87.5])
''', "the table ordered by read on hit with a limit of the number of results, and runs whose two orders differ", "the limited table is in the other order")
