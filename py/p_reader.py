"""C58: the readers that turn datasets into numbers for a model
(DataManager/collector/dataset/reader.py)."""
import contextlib
import gzip
import importlib
import io
import itertools
import json
import os
import sys

import minipd
import stubs
from explore import HarnessError, Property, Suite

FRAMES = {}      # file name -> columns


class Arr(list):
    """An array: nested lists."""

    @property
    def shape(self):
        return (len(self),) + (self[0].shape if self and isinstance(self[0], Arr) else ())

    def tolist(self):
        return [x.tolist() if isinstance(x, Arr) else x for x in self]

    def __setitem__(self, k, v):
        if isinstance(k, tuple):
            for i, j in zip(*k):
                self[i][j] = v
        else:
            list.__setitem__(self, k, v)

    def flat(self):
        for x in self:
            if isinstance(x, Arr):
                yield from x.flat()
            else:
                yield x

    def reshape(self, *dims):
        if len(dims) == 1 and isinstance(dims[0], tuple):
            dims = dims[0]
        it = self.flat()

        def build(d):
            return Arr(build(d[1:]) if len(d) > 1 else next(it) for _ in range(d[0]))
        return build(dims)


def array(v, dtype=None):
    return Arr(array(x) if isinstance(x, (list, tuple)) else x for x in v)


def zeros(n, dtype=None):
    n = (n,) if isinstance(n, int) else tuple(n)
    return Arr(zeros(n[1:]) if len(n) > 1 else 0.0 for _ in range(n[0]))


def frame_to_numpy(self):
    return array([list(r) for r in zip(*(list(self[k].values) for k in self.columns))])


def frame_join(self, other, how="left"):
    if set(other.columns) & set(self.columns):
        raise ValueError("columns overlap")
    if list(self.index) != list(other.index):
        raise HarnessError("join of different indexes")
    return minipd.DataFrame(dict([(k, list(self[k].values)) for k in self.columns] + [(k, list(other[k].values)) for k in other.columns]))


def savez(to, **arrays):
    with open(to if to.endswith(".npz") else to + ".npz", "w") as f:
        json.dump({k: v.tolist() for k, v in arrays.items()}, f)


def load_npz(name):
    with open(name) as f:
        return {k: array(v) for k, v in json.load(f).items()}


def load(repo):
    stubs.datamanager(repo)
    pd, np = minipd.install()
    pd.read_feather = lambda f: minipd.DataFrame(json.loads(f.read()))

    def read_pickle(name, compression=None):
        with gzip.open(name, "rb") as f:
            return minipd.DataFrame(json.loads(f.read()))
    pd.read_pickle = read_pickle
    np.zeros, np.array, np.asarray, np.savez, np.load = zeros, array, array, savez, load_npz
    np.arange = lambda *a: Arr(range(*a))
    np.array_split = lambda v, n: [array(v)[i * len(v) // n:(i + 1) * len(v) // n] for i in range(n)]
    np.concatenate = lambda vs: array([x for v in vs for x in v])
    minipd.DataFrame.to_numpy, minipd.DataFrame.join = frame_to_numpy, frame_join
    minipd.ABSENT |= {("Series", "join")}
    minipd.Series.to_numpy = lambda s: array(list(s.values))
    g = globals()
    g["m_reader"] = importlib.import_module("DataManager.collector.dataset.reader")


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def write_dataset(name, cols):
    with gzip.open(name, "wb") as f:
        f.write(json.dumps(cols).encode())


def text(v):
    return "%0.2f" % v if isinstance(v, float) else str(v)


# kind: values of a column, values it may be changed to, buckets
KINDS = {
    int: ([1, 2, 5], [1, 5, 7], [2, 4]),
    float: ([0.5, 1.25, 3.0], [0.5, 3.0, 9.5], [1.0, 2.5]),
    str: (["b", "a", "c"], ["a", "c", "zz"], ["ab", "b"]),
    bool: ([True, False], [True, False], None),
}


class Map:
    """What a converter map should say."""

    def __init__(self, kind, column, unknown, buckets, sort_keys):
        self.kind, self.unknown, self.buckets = kind, unknown, buckets
        self.keys = list(buckets) if buckets else list(set(column))
        self.sorted, self.width = sort_keys, len(self.keys) + bool(unknown) + bool(buckets)

    def check(self, c, name, got):
        c.equal(got["feature"], name, "feature of the map")
        c.equal(got["type"], {int: "int", float: "float", str: "string", bool: "bool"}[self.kind], "type of the map")
        if self.sorted or self.buckets:
            c.equal(got["keys"], sorted(self.keys), "keys of %s" % name)
        else:
            c.equal(sorted(got["keys"]), sorted(self.keys), "keys of %s" % name)
        first = 1 if self.unknown else 0
        want = {text(k): i for i, k in enumerate(got["keys"], first)}
        if self.buckets:
            want["max"] = len(self.keys) + first
        c.equal(got["values"], want, "positions of the values of %s" % name)
        c.equal((bool(got["unknown_values"]), bool(got["bucket_open_right"])), (self.unknown, bool(self.buckets)), "unknown values and open last bucket of %s" % name)
        self.at = got["values"]

    def position(self, v):
        if self.buckets:
            for k in sorted(self.keys):
                if v <= k:
                    return self.at[text(k)]
            return self.at["max"]
        if v in self.keys:
            return self.at[text(v)]
        return 0 if self.unknown else None


def one_hot(at, width):
    return [1.0 if i == at else 0.0 for i in range(width)]


def encodings(name, nrows, kinds, changed):
    def run(c):
        mapped = c.pick([["x"], ["y", "x"], ["x", "y"]])
        form = ".feather.gz" if mapped[0] == "x" else ".pickle.gzip"
        os.makedirs("data", exist_ok=True)
        for f in os.listdir("data"):
            os.unlink("data/" + f)
        kind = c.pick(kinds)
        pool, later, bounds = KINDS[kind]
        cols = {"x": [c.pick(pool) for _ in range(nrows)], "y": [pool[i % len(pool)] for i in range(nrows)], "z": [10 * i + 1 for i in range(nrows)]}
        write_dataset("data/set" + form, cols)
        r = quiet(m_reader.SimulatorDatasetReader, "data/set" + form)
        unknown, sort_keys = c.flag(), c.flag()
        buckets = bounds if bounds and c.flag() else None
        asked = list(buckets) + ["..."] if buckets else []
        quiet(r.make_converter_map, mapped, unknown_values=unknown, sort_keys=sort_keys, map_type=kind, buckets=asked)
        maps = {k: Map(kind, cols[k], unknown, buckets, sort_keys) for k in mapped}
        quiet(r.store_converter_map, "conv")
        with gzip.open("data/conv.json.gz") as f:
            stored = json.loads(f.read())
        c.equal(sorted(stored), sorted(mapped), "columns of the converter map")
        for k in mapped:
            maps[k].check(c, k, stored[k])
        if changed and c.flag():
            new = [c.pick(later) for _ in range(nrows)]
            cols["x"] = new
            quiet(r.modify_column, "x", lambda s: minipd.Series(new))
        data = c.pick([["x"], ["z", "x"], ["x", "z"], ["x", "y"], ["z"], ["y", "z", "x"]])
        label = c.pick(["z", "x", "y", ""])
        cnn = c.flag()
        c.op("columns %s mapped %s unknown=%s buckets=%s; data %s label %r" % (cols, mapped, unknown, asked, data, label))

        def encode(k, v):
            if k not in maps:
                return [v]
            p = maps[k].position(v)
            return None if p is None else one_hot(p, maps[k].width)
        rows_ = [[encode(k, cols[k][i]) for k in data] for i in range(nrows)]
        lk = label or "z"
        labels = [encode(lk, cols[lk][i]) for i in range(nrows)]
        bad = any(e is None for row in rows_ for e in row) or any(e is None for e in labels)
        try:
            quiet(r.make_data_and_labels, data, label, cnn)
        except HarnessError:
            raise
        except Exception as e:
            c.require(bad, "no data: %s: %s" % (type(e).__name__, e))
            return
        c.require(not bad, "a value which is in no category was encoded")
        want = [[x for e in row for x in e] for row in rows_]
        if cnn:
            want = [[[x] for x in row] for row in want]
        want_labels = labels if lk in maps else [x[0] for x in labels]

        def compare(got, got_labels, what):
            c.equal(got.tolist(), want, "data" + what)
            c.equal(got_labels.tolist(), want_labels, "labels" + what)
        compare(*r.data, "")
        quiet(r.save_data_and_labels, "saved")
        back = m_reader.SimulatorDatasetReader()
        quiet(back.load_data_and_labels, "data/saved.npz")
        compare(*back.data, " saved and loaded")
        c.state(cols, mapped, unknown, asked, data, label, cnn)
    return Suite(name, "datasets of %d rows in two forms, columns of %s: every converter map of one or two columns (unknown values, sorted keys, buckets with an open end)%s, with 6 choices of data columns and 4 of the label" % (nrows, ", ".join(k.__name__ for k in kinds), ", values changed after the map was made" if changed else ""), run)


PLACES = ["it-x", "us"]


def folds(most):
    """The records of a data file, split for a model."""
    def run(c):
        n = 1 + c.choose(most)
        recs = []
        for i in range(n):
            p, good, u = c.pick(PLACES), c.flag(), i % 3
            recs.append({"id": str(i), "features": {"place": p, "user": "u%d" % u, "nr": "n%d." % i}, "class": "good" if good else "bad", "tot_wrap_cpu": 10.0 * (i + 1), "tot_requests": i + 1 + good})
        with gzip.open("records.json.gz", "wb") as f:
            for x in recs:
                f.write((json.dumps(x) + "\n").encode())
        r = quiet(m_reader.CMSDatasetTest0Reader, "records.json.gz")
        c.equal(len(r), n, "number of records")
        quiet(r.gen_support_table)
        classes = sorted({x["class"] for x in recs})
        c.equal(r.get_num_classes(), len(classes), "number of classes")
        # numbers of the categories, as the support table lists them
        keys = {k: sorted({"__unknown__"} | {v.split("-")[0] for v in (x["features"][k] for x in recs)}, key=str.lower) for k in ("nr", "place", "user")}
        hot, labels_hot = c.flag(), c.flag()
        k = c.choose(n + 1)
        c.op("%d records, %d folds, one hot %s, labels %s" % (n, k, hot, labels_hot))

        def features(x):
            out = []
            for f in sorted(keys):
                at = keys[f].index(x["features"][f].split("-")[0])
                out += one_hot(at, len(keys[f])) if hot else [at / len(keys[f])]
            return out

        def klass(x):
            at = classes.index(x["class"])
            return one_hot(at, len(classes)) if labels_hot else at
        want = [(features(x), klass(x)) for x in recs]
        sets = quiet(lambda: list(r.train_set(k_fold=k, normalized=not hot, one_hot=hot, one_hot_labels=labels_hot)))
        if k == 0:
            c.equal(len(sets), 1, "number of sets")
            f, l, v = sets[0]
            c.require(v is None, "a validation set without folds")
            c.equal(list(zip(f.tolist(), l.tolist())), want, "records of the set")
        else:
            c.equal(len(sets), k, "number of folds")
            checked = []
            for i, (f, l, (vf, vl)) in enumerate(sets):
                train, val = list(zip(f.tolist(), l.tolist())), list(zip(vf.tolist(), vl.tolist()))
                c.require(len(val) > 0, "fold %d validates nothing" % i)
                c.equal(sorted(train + val, key=repr), sorted(want, key=repr), "records of fold %d" % i)
                c.equal(train, [x for x in want if x not in val], "training records of fold %d" % i)
                checked += val
            c.equal(sorted(checked, key=repr), sorted(want, key=repr), "records validated by the folds")
        score = [x["tot_wrap_cpu"] / x["tot_requests"] for x in recs]
        c.equal(list(r.scores), score, "scores")
        c.require(abs(r.score_avg - sum(score) / n) < 1e-9, "mean score %r, should be %r" % (r.score_avg, sum(score) / n))
        c.state(n, k, hot, labels_hot, [x["class"] for x in recs])
    return Suite("folds", "data files of 1..%d records of two places and two classes, every number of folds from none to one per record, both encodings of features and labels" % most, run)


def prop(pid, tier, repo):
    load(repo)
    deep = tier == "thorough"
    kinds = [int, float, str, bool]
    return Property([
        encodings("maps", 3 if deep else 2, kinds, False),
        encodings("changed", 2, [int, float, str], True),
        folds(7 if deep else 5),
    ], ["arrays and data frames are replaced by stand-ins (nested lists); feather and pickle files are JSON"])
