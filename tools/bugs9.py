"""Ninth batch of planted bugs: the analysis of traces."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gobug import pybug as _pybug, ROOT
ONLY = sys.argv[1:]
M = "Probe/probe/"
SRC = open(ROOT + "/py/p_analyze.py").read()
KIT = SRC[:SRC.index("# ---- the limits of each day")].replace("C59: the", "Stand-ins and traces for the")
HEAD = r'''
import os, sys
import kit, p_report
from kit import FIRST, figures, name_of, req, shown, store, written_plots
kit.load(os.environ["REPO"])
kit.FILES["D"] = ("/store/data/Run/D.root", kit.FILES["C"][1])
kit.SITES["mit"] = "T3_US_MIT_Boston"
class C:
    def fail(self, msg): sys.exit(msg)
def run(*a): kit.run(C(), *a)
def want(what, got, should):
    if got != should: sys.exit("%s: %r, should be %r" % (what, got, should))
    print("ok", what, got)
def rounded(xs): return [round(float(x), 6) for x in xs]
'''


def bug(id, edits, body, needs, what):
    if ONLY and id not in ONLY:
        return
    _pybug(id, "C59", edits, HEAD.lstrip("\n") + body, needs, what)
    d = os.path.join(ROOT, "seeded", id)
    open(d + "/kit.py", "w").write(KIT + "\ndef written_plots():\n    return {os.path.basename(n): f for n, f in p_report.written}\n")
    for f in ("minipd.py", "stubs.py", "p_report.py"):
        shutil.copy(ROOT + "/py/" + f, d)
    open(d + "/explore.py", "w").write("class HarnessError(Exception):\n    pass\n\n\nclass Suite:\n    pass\n\n\nProperty = Suite\n")


LIMITS = r'''
def limits(*rs, **k):
    store("traces", [(name_of(0), list(rs))])
    run("traces", "upper_limits", "--concat", "False", "--generate", "True", "--output-type", "html", "--region", k.get("region", "all"))
    out = {}
    for t, _ in written_plots()["stats.html"].traces():
        out.setdefault(t.k["name"], rounded(t.k["y"]))
    return out
'''
bug("equal-sizes-are-one-file", [(M + "plotter/stats.py", "                            ].drop_duplicates('Filename').Size.sum()", "                            ].drop_duplicates('Size').Size.sum()")], LIMITS + r'''
got = limits(req(0, f="C"), req(0, f="D"))
want("share of bytes for files already requested", got["Read on hit"], [0.0])
''', "two files of the same size on a day", "the limits take them for one file")

bug("any-name-ending-like-the-region", [(M + "loaders.py", '            df = df[df.SiteName.str.contains(f"_{region_filter}_", case=False)]', '            df = df[df.SiteName.str.contains(f"{region_filter}_", case=False)]')], LIMITS + r'''
got = limits(req(0, f="A"), req(0, f="B", site="mit"), req(0, f="B", site="mit"), region="it")
want("hit rate of the region it", got["Hit rate"], [0.0])
''', "a site of another region with the letters of the region in its name", "its requests are taken for requests of the region")

bug("files-of-failed-jobs-count", [(M + "plotter/stats.py", '''        print(f"{STATUS_ARROW}[{num:03d}] Filter success jobs")
        cur_df = cur_df[cur_df.JobSuccess.astype(bool)]
''', '''        num_files = cur_df.Filename.nunique()

        print(f"{STATUS_ARROW}[{num:03d}] Filter success jobs")
        cur_df = cur_df[cur_df.JobSuccess.astype(bool)]
'''), (M + "plotter/stats.py", '''        num_files = cur_df.Filename.nunique()

        max_hit_rate''', '''
        max_hit_rate''')], LIMITS + r'''
got = limits(req(0, f="A"), req(0, f="A"), req(0, f="B", ok=False))
want("hit rate", got["Hit rate"], [50.0])
''', "a file that only failed jobs requested on a day", "it lowers the limit of the hit rate")

bug("started-weeks-count", [(M + "plotter/stats.py", "        if num_days != 7:\n", "        if num_days < 2:\n")], r'''
for n in (7, 8, 10):
    store("traces", [("results.csv", [req(d) for d in range(n)])])
    run("traces", "weekstats", "--output-type", "html")
    fig = figures(shown[0])["Request stats"]
    want("weeks of %d days" % n, len(fig._calls[0][2]["source"]._a[0]["weeks"]), 1)
''', "a last week with some but not all of its days", "the figures of part of a week stand beside those of whole weeks")

bug("later-days-first", [(M + "analyzer/features.py", '''                                groups[week],
                                cur_week,
''', '''                                cur_week,
                                groups[week],
''')], r'''
import json
json.dump({"deltaLastRequest": {"type": "float", "buckets": True, "keys": [1, 2], "bucket_open_right": True}}, open("f.json", "w"))
store("traces", [(name_of(0), [req(0, f="A"), req(0, f="B")]), (name_of(1), [req(1, f="A")])])
run("traces", "feature_bins", "--feature-filename", "f.json", "--group-by", "w", "--concat", "False", "--output-folder", "out")
want("share of the distances", rounded(written_plots()["feature_deltaLastRequest_bins.html"].k["y"]), [0.0, 100.0, 0.0])
''', "several days of a week in the list of data, and the distances of requests", "distances are between requests in another order than they were made")

bug("since-the-first-request", [(M + "analyzer/features.py", '''                        cur_delta = _t_ - files[filename]
                        files[filename] = _t_
''', '''                        cur_delta = _t_ - files[filename]
''')], r'''
import json
json.dump({"deltaLastRequest": {"type": "float", "buckets": True, "keys": [1, 2], "bucket_open_right": True}}, open("f.json", "w"))
store("traces", [(name_of(0), [req(0, f="A")] * 3)])
run("traces", "feature_bins", "--feature-filename", "f.json", "--output-folder", "out")
want("share of the distances", rounded(written_plots()["feature_deltaLastRequest_bins.html"].k["y"]), [100.0, 0.0, 0.0])
''', "a third request for a file in a group", "its distance is that from the first request, not the last")

bug("users-of-all-periods", [(M + "plotter/stats.py", '''        self.users = set()
''', '''        self.users = users
'''), (M + "plotter/stats.py", '''                 start_delta_time: int = 0):
''', '''                 start_delta_time: int = 0, users: set = None):
'''), (M + "plotter/stats.py", '''    _files = {}
    days = []
''', '''    _files = {}
    _users = {}
    days = []
'''), (M + "plotter/stats.py", '''                int(df_row.Size / 1024**2),
                num_req,
            )
''', '''                int(df_row.Size / 1024**2),
                num_req,
                _users.setdefault(filename, set()),
            )
''')], r'''
store("traces", [("results.csv", [req(0, user=1), req(1, user=2), req(1, user=2)])])
run("traces", "dailystats", "--output-type", "html", "--reset-stat-days", "1")
(_, _, k), = figures(shown[0])["Num. Users"]._calls
want("users of the file on the second day", [list(y) for y in k["ys"]], [[1, 1]])
''', "a file requested in two periods by different users", "the users of a period include those of the periods before")
