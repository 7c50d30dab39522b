"""Eighth batch of planted bugs: the dataset readers."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gobug import pybug as _pybug, ROOT
ONLY = sys.argv[1:]
R = "DataManager/collector/dataset/reader.py"
SRC = open(ROOT + "/py/p_reader.py").read()
KIT = '"""Stand-ins for the libraries of arrays and data frames."""\nimport contextlib, gzip, importlib, io, json, os, sys\nimport minipd, stubs\n' + SRC[SRC.index("class Arr("):SRC.index("def write_dataset")].replace("raise HarnessError(", "raise RuntimeError(")
HEAD = r'''
import gzip, json, os, sys
import kit, minipd
kit.load(os.environ["REPO"])
reader = kit.m_reader
def dataset(**cols):
    with gzip.open("set.feather.gz", "wb") as f: f.write(json.dumps(cols).encode())
    return kit.quiet(reader.SimulatorDatasetReader, "set.feather.gz")
def records(n):
    with gzip.open("r.json.gz", "wb") as f:
        for i in range(n):
            f.write((json.dumps({"id": str(i), "features": {"nr": "n%d." % i}, "class": "ab"[i % 2], "tot_wrap_cpu": 1.0, "tot_requests": 1}) + "\n").encode())
    r = kit.quiet(reader.CMSDatasetTest0Reader, "r.json.gz")
    return kit.quiet(r.gen_support_table)
def want(what, got, should):
    if got != should: sys.exit("%s: %r, should be %r" % (what, got, should))
    print("ok", what, got)
'''


def bug(id, prop, edits, body, needs, what):
    if ONLY and id not in ONLY:
        return
    _pybug(id, prop, edits, HEAD.lstrip("\n") + body, needs, what)
    d = os.path.join(ROOT, "seeded", id)
    open(d + "/kit.py", "w").write(KIT)
    for f in ("minipd.py", "stubs.py"):
        shutil.copy(ROOT + "/py/" + f, d)
    open(d + "/explore.py", "w").write("class HarnessError(Exception):\n    pass\n")


bug("beyond-shares-the-last-bucket", "C58", [(R, """                cur_map['values']['max'] = len(
                    cur_map['values']) + (1 if unknown_values else 0)""", """                cur_map['values']['max'] = len(cur_map['values'])""")], r'''
for unknown in (False, True):
    r = dataset(x=[1, 3, 9], y=[0, 1, 2])
    kit.quiet(r.make_converter_map, ["x"], unknown_values=unknown, buckets=[2, 4, "..."])
    kit.quiet(r.make_data_and_labels, ["x"], "y")
    want("different encodings of 1, 3 and 9", len(set(map(tuple, r.data[0].tolist()))), 3)
''', "a map with unknown values and buckets with an open end", "values beyond the last bucket cannot be told from those in it")

bug("unknown-is-the-first-category", "C58", [(R, """            if category_obj['unknown_values']:
                return 0
""", """            if not category_obj['bucket_open_right']:
                return 0
""")], r'''
r = dataset(x=["a", "b"], y=[0, 1])
kit.quiet(r.make_converter_map, ["x"], map_type=str, sort_keys=True)
r.modify_column("x", lambda s: minipd.Series(["a", "c"]))
try:
    kit.quiet(r.make_data_and_labels, ["x"], "y")
except Exception as e:
    print("ok refused", e)
else:
    sys.exit("a value of no category is encoded: %r" % r.data[0])
''', "a map without unknown values, and a column that has values which the map does not know", "such values silently become those of the first category")

bug("validates-what-it-trains-on", "C58", [(R, """                    (np.array(chunks_features[idx_fold]),
                     np.array(chunks_labels[idx_fold]))""", """                    (np.array(chunks_features[-1 - idx_fold]),
                     np.array(chunks_labels[-1 - idx_fold]))""")], r'''
for n, k in ((1, 1), (4, 2), (5, 3)):
    for i, (x, l, (vx, vl)) in enumerate(kit.quiet(lambda: list(records(n).train_set(k_fold=k)))):
        want("records of fold %d of %d both trained on and validated" % (i, k), len([v for v in vx.tolist() if v in x.tolist()]), 0)
''', "more than one fold", "the folds validate records they were trained on")

bug("bounds-open-on-the-right", "C58", [(R, "                if value <= key:\n", "                if value < key:\n")], r'''
r = dataset(x=[1, 2, 3, 4, 5], y=[0, 1, 2, 3, 4])
kit.quiet(r.make_converter_map, ["x"], buckets=[2, 4, "..."])
kit.quiet(r.make_data_and_labels, ["x"], "y")
want("buckets", [v.index(1.0) for v in r.data[0].tolist()], [0, 0, 1, 1, 2])
''', "a value equal to the bound of a bucket", "it is put in the next bucket, unlike in the simulator")
