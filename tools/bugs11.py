"""Eleventh batch of planted bugs: the plot server."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gobug import pybug as _pybug, ROOT
ONLY = sys.argv[1:]
F = "scripts/DataAnalysis/plot_server.py"
SRC = open(ROOT + "/py/p_plot.py").read()
KIT = SRC[:SRC.index("# --- crashes")].replace("C62: the", "Stand-ins for the") + '''

# --- the server
class Server:
''' + SRC[SRC.index("    code = None\n"):SRC.index("def lines(")]
HEAD = r'''
import os, sys
import kit
kit.modules()
class C:
    def require(self, ok, what):
        if not ok: sys.exit(what)
srv = kit.Server(os.environ["REPO"])
def lines(url, **args):
    return {k["legend"]: k["y"] for kind, k in srv.plot(C(), url, **args).drawn}
def values(cache, window, start, *vs, **tables):
    srv.put("/cache/update/%s/%d" % (cache, window), {t: [(start + i, v) for i, v in enumerate(tables.get(t, vs))] for t in kit.NAMES})
def want(what, got, should):
    if got != should: sys.exit("%s: %r, should be %r" % (what, got, should))
    print("ok", what, got)
'''


def bug(id, edits, body, needs, what):
    if ONLY and id not in ONLY:
        return
    _pybug(id, "C62", edits, HEAD.lstrip("\n") + body, needs, what)
    d = os.path.join(ROOT, "seeded", id)
    open(d + "/kit.py", "w").write(KIT)
    for f in ("minipd.py", "stubs.py"):
        shutil.copy(ROOT + "/py/" + f, d)
    open(d + "/explore.py", "w").write("class HarnessError(Exception):\n    pass\n\n\nclass Suite:\n    pass\n\n\nProperty = Suite\n")


bug("sent-again-is-inserted", [(F, '''        cur_line[window][req_idx] = value
    except''', '''        cur_line[window].insert(req_idx, value)
    except''')], r'''
values("LRU_10T", 0, 0, 1., 2.)
values("LRU_10T", 0, 0, 3.)
want("hit rates", lines("/cache/plot/hit_rate"), {"LRU_10T": [3., 2.]})
''', "a value sent for a place that has one", "the places after it move")

bug("info-of-known-caches-not-stored", [(F, '''    if cache_name not in WINDOW_INFO:
        WINDOW_INFO[cache_name] = []

    try:
        WINDOW_INFO[cache_name][window] = obj
    except IndexError:
        WINDOW_INFO[cache_name].append(obj)

    save_table("cache_info", WINDOW_INFO)
''', '''    if cache_name not in WINDOW_INFO:
        WINDOW_INFO[cache_name] = []

    try:
        WINDOW_INFO[cache_name][window] = obj
    except IndexError:
        WINDOW_INFO[cache_name].append(obj)
        save_table("cache_info", WINDOW_INFO)
''')], r'''
import json
info = lambda *fs: {"cache": {}, "weights": {f: 1. for f in fs}, "stats": {f: {"size": 1., "totReq": 1, "nHits": 1, "nMiss": 1} for f in fs}}
for cache in ("LRU_10T", "weighted_10T"):
    srv.put("/cache/info/%s/0" % cache, info("a"))
    srv.put("/cache/info/%s/0" % cache, info("a", "b"))
srv.start()
page = srv.plot(C(), "/cache/plot/info/0")
want("files", page[0][0].drawn[0][1]["x"], ["a", "b"])
''', "the info of a window sent twice, and a restart", "the info sent first is back")

bug("one-filter-is-enough", [(F, '''    return not all([string''', '''    return not any([string''')], r'''
values("LRU_10T_it", 0, 0, 1.)
values("LRU_20T_it", 0, 0, 2.)
want("caches", sorted(lines("/cache/plot/hit_rate", filter="10T,it")), ["LRU_10T_it"])
''', "two filters of which a name has one", "the cache is drawn")

bug("difference-to-any-lru", [(F, '''                        if cur_size == size and cur_name.lower().find('lru') == 0:
''', '''                        if cur_name.lower().find('lru') == 0:
''')], r'''
values("LRU_10T_it", 0, 0, 1., read_on_hit=[5.])
values("LRU_20T_it", 0, 0, 1., read_on_hit=[9.])
values("weightedLRU_20T_it", 0, 0, 1., read_on_hit=[10.])
want("difference", lines("/cache/plot/diff_compare"), {"weightedLRU_20T_it": [1.]})
''', "LRU caches of two sizes", "a cache is compared with the LRU cache of another size")

bug("windows-end-once", [(F, '''                for idx in range(1, len(v_lines)):
                    v_lines[idx] += v_lines[idx-1]
''', '''                for idx in range(len(v_lines) - 1, 0, -1):
                    v_lines[idx] += v_lines[idx-1]
''')], r'''
for w in range(3):
    values("LRU_10T", w, 0, 1., 2.)
want("ends of the windows", [s.location for s in srv.plot(C(), "/cache/plot/hit_rate").renderers], [2, 4, 6])
''', "three windows", "the third ends where the two last together do")
