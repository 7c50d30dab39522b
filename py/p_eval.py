"""C60: the evaluator of a model on a trace.  C61: the prediction model."""
import collections
import gzip
import importlib
import itertools
import json
import os
import sys
import types

import minipd
import stubs
from explore import Property, Suite, HarnessError

Array = minipd.Array


# --- numpy, as far as it is used ------------------------------------------------

class Matrix(list):
    """A two-dimensional array."""
    __hash__ = None

    @property
    def shape(self):
        return (len(self), len(self[0]) if self else 0)

    def tolist(self):
        return [list(r) for r in self]

    def __getitem__(self, k):
        x = list.__getitem__(self, k)
        return Matrix(x) if isinstance(k, slice) else x


def array(x, dtype=None):
    x = list(x)
    if x and isinstance(x[0], (list, tuple)):
        if len({len(r) for r in x}) > 1:
            raise ValueError("setting an array element with a sequence")
        return Matrix(Array(r) for r in x)
    return Array(float(v) if dtype is float else v for v in x)


def extreme(better):
    def f(a, axis=None):
        if isinstance(a, Matrix):
            if axis not in (1, -1):
                raise HarnessError("axis %r" % (axis,))
            return Array(f(r) for r in a)
        if not len(a):
            raise ValueError("attempt to get argmax of an empty sequence")
        best = 0
        for i, v in enumerate(a):
            if better(v, a[best]):
                best = i
        return best
    return f


def numpy():
    m = types.ModuleType("numpy")
    m.array = m.asarray = array
    m.zeros = lambda n, dtype=float: Array([dtype(0)] * (n[0] if isinstance(n, tuple) else n))
    m.full = lambda n, v: Array([v] * n)
    m.argmax = extreme(lambda x, y: x > y)
    m.argmin = extreme(lambda x, y: x < y)
    m.expand_dims = lambda a, axis: Matrix([a]) if axis == 0 else Matrix(Array([x]) for x in a)
    m.ones = lambda n, dtype=float: Array([dtype(1)] * (n[0] if isinstance(n, tuple) else n))
    m.zeros_like = lambda a: Array([type(v)(0) for v in a])
    m.arange = lambda *a: Array(range(*a))
    m.append = lambda a, b: Array(list(a) + (list(b) if hasattr(b, "__iter__") else [b]))
    m.stack = m.vstack = lambda rows, axis=0: array(rows)
    m.max = m.amax = lambda a: max(a)
    m.min = m.amin = lambda a: min(a)
    m.argsort = lambda a: Array(sorted(range(len(a)), key=lambda i: a[i]))
    m.sum, m.cumsum = (lambda a: sum(a)), (lambda a: Array(itertools.accumulate(a)))
    m.ndarray = (Array, Matrix)
    m.int64, m.float64, m.float32 = int, float, float

    def missing(name):
        raise HarnessError("numpy.%s has no stand-in" % name)
    m.__getattr__ = missing
    return m


class Axes:
    def __init__(self, log, at):
        self.log, self.at = log, at

    def axvline(self, x=0, *a, **k):
        self.log.append(("line", self.at, x))

    def plot(self, *a, **k):
        PLT._plot(self.at, *a, **k)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


class Plt(types.ModuleType):
    """matplotlib.pyplot: notes what is drawn where."""

    def reset(self):
        self.log, self.at, self.saved, self.shown = [], None, [], 0

    def clf(self):
        self.log, self.at = [], None

    def subplot(self, *a):
        self.at = a[2] if len(a) == 3 else a[0] % 10
        return Axes(self.log, self.at)

    def _plot(self, at, x, y, *a, label=None, **k):
        self.log.append(("plot", at, list(x), list(y), label))

    def plot(self, *a, **k):
        self._plot(self.at, *a, **k)

    def savefig(self, name, *a, **k):
        self.saved.append((name, list(self.log)))

    def show(self, *a, **k):
        self.shown += 1
        self.saved.append((None, list(self.log)))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


PLT = Plt("matplotlib.pyplot")


# --- keras -----------------------------------------------------------------------

class Layer:
    def __init__(self, kind, a, k):
        self.kind, self.a, self.k = kind, a, k


class Net:
    """A network: what it answers is set by the test."""

    def __init__(self, layers=(), answer=None):
        self.layers, self.answer = list(layers), answer
        self.compiled, self.fits, self.asked, self.saved = 0, [], [], []

    def compile(self, **k):
        self.compiled += 1
        self.settings = k

    def summary(self, *a, **k):
        pass

    def fit(self, data, labels, batch_size=None, epochs=1, validation_split=0., validation_data=None, **k):
        self.fits.append(dict(data=data, labels=labels, batch_size=batch_size, epochs=epochs, split=validation_split, validation=validation_data))

    def predict(self, batch, **k):
        if not isinstance(batch, Matrix):
            raise ValueError("the network expects a batch")
        self.asked.append(batch)
        return Matrix(Array(self.answer(list(r))) for r in batch)

    def save(self, name, *a, **k):
        self.saved.append(name)

    def get_config(self):
        return {"name": "net", "layers": [{"class_name": "Dense", "config": {"name": l["name"], "activation": l["activation"], "units": len(l["bias"])}} for l in self.layers]}

    def get_layer(self, name):
        l, = [l for l in self.layers if l["name"] == name]
        return types.SimpleNamespace(name=name, get_weights=lambda: [array(l["weights"]), array(l["bias"])])


MADE = []


def keras():
    tf, k = types.ModuleType("tensorflow"), types.ModuleType("tensorflow.keras")

    def sequential(layers):
        MADE.append(Net(layers))
        return MADE[-1]
    k.Sequential = sequential

    class Kinds:
        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            return lambda *a, **kw: Layer(name, a, kw)
    k.layers = Kinds()
    k.optimizers = Kinds()
    k.models = types.SimpleNamespace(load_model=lambda name: MADE[-1] if name == "stored.h5" else (_ for _ in ()).throw(OSError(name)))
    tf.keras = k
    sys.modules["tensorflow"], sys.modules["tensorflow.keras"] = tf, k


def load(repo):
    stubs.tqdm()
    stubs.missing("grpc")
    sys.modules["numpy"] = numpy()
    mpl = types.ModuleType("matplotlib")
    mpl.pyplot = PLT
    sys.modules["matplotlib"], sys.modules["matplotlib.pyplot"] = mpl, PLT
    PLT.reset()
    keras()
    pb, rpc = types.ModuleType("SmartCache.ai.service.ai_pb2"), types.ModuleType("SmartCache.ai.service.ai_pb2_grpc")

    class StorePrediction:
        def __init__(self, store=False):
            self.store = bool(store)
    pb.StorePrediction = StorePrediction
    rpc.AIServiceServicer = type("AIServiceServicer", (), {})
    rpc.add_AIServiceServicer_to_server = lambda *a: None
    sys.modules[pb.__name__], sys.modules[rpc.__name__] = pb, rpc
    if repo not in sys.path:
        sys.path.insert(0, repo)
    return importlib.import_module("SmartCache.ai.models.evaluator"), importlib.import_module("SmartCache.ai.models.generator")


# --- C60: caches -------------------------------------------------------------------

class Ref:
    """kind: simple (everything is kept), fifo, lru.  Oldest first."""

    def __init__(self, kind, size):
        self.kind, self.size, self.files = kind, size, []
        self.hits = self.misses = 0
        self.sizes, self.rates = [], []

    def update(self, f, insert):
        hit = f in self.files
        if hit:
            self.hits += 1
            if self.kind == "lru":
                self.files.remove(f)
                self.files.append(f)
        else:
            self.misses += 1
            if insert:
                if self.kind != "simple" and len(self.files) == self.size:
                    self.files.pop(0)
                self.files.append(f)
        self.sizes.append(len(self.files))
        self.rates.append(self.hits / (self.hits + self.misses) * 100)
        return hit


def make(mod, kind, size, state=None, how=0):
    cls = {"simple": mod.SimpleCache, "fifo": mod.FIFOCache, "lru": mod.LRUCache}[kind]
    k = {} if kind == "simple" else {"max_size": size}
    if state is None:
        return cls(**k)
    return cls(state, **k) if how else cls(init_state=state, **k)


def near(a, b):
    return len(a) == len(b) and all(abs(x - y) < 1e-9 for x, y in zip(a, b))


def compare(c, cache, ref, files):
    c.equal([f for f in files if cache.check(f)], [f for f in files if f in ref.files], "stored files")
    c.equal(len(cache), len(ref.files), "number of files")
    c.equal(list(cache.size_history), ref.sizes, "numbers of files so far")
    c.require(near(list(cache.hit_rate_history), ref.rates), "hit rates so far: %s, want %s" % (list(cache.hit_rate_history), ref.rates))
    if ref.rates:
        c.require(abs(cache.hit_rate - ref.rates[-1]) < 1e-9, "hit rate %r, want %r" % (cache.hit_rate, ref.rates[-1]))
    c.equal([a for a, _ in cache.history], ref.sizes, "history")
    c.require(near([b for _, b in cache.history], ref.rates), "history")


def histories(mod, kind, size, files, depth, inserts, restore):
    names = ["f%d" % i for i in range(files)]

    def run(c):
        cache, ref = make(mod, kind, size), Ref(kind, size)
        at = c.choose(depth) if restore else None   # 0: never
        how = c.choose(3) if at else 0
        for i in range(depth):
            if at and i == at:
                c.op(["stored and restored", "stored and restored by position", "another cache of its state, by position"][how])
                old = cache
                cache = make(mod, kind, size, old.state if how == 2 else json.loads(json.dumps(old.state)), how)
                if how == 2:
                    # the first goes its own way
                    old.update("another")
                    old.update(names[0])
                compare(c, cache, ref, names)
            f = c.pick(names)
            ins = c.pick(inserts)
            c.op("%s%s" % (f, "" if ins else ", not to be stored"))
            got = cache.update(f, ins) if not ins or c.pos % 2 else cache.update(f)
            c.equal(bool(got), ref.update(f, ins), "hit")
            compare(c, cache, ref, names)
            c.state(kind, size, ref.files, ref.hits, ref.misses)
    return Suite("%s_%d%s%s" % (kind, size, "_choosy" if len(inserts) > 1 else "", "_restored" if restore else ""),
                 "%s cache of %s files: every sequence of %d requests of %d files%s%s" % (kind, size if kind != "simple" else "any number of", depth, files, ", each to be stored or not" if len(inserts) > 1 else "", ", stored and restored at every point" if restore else ""), run)


# --- C60: the comparison --------------------------------------------------------------

class Table:
    """A support table which writes the number of the record."""

    def __init__(self):
        self.asked = []

    def close_conversion(self, what, data, normalized=True, one_hot=False):
        if what != "features":
            raise HarnessError("conversion of %r" % what)
        self.asked.append((dict(data), normalized, one_hot))
        return [float(data["n"]), 1.]


class Judge:
    def __init__(self, says):
        self.says, self.seen = says, []

    def predict(self, batch):
        if not isinstance(batch, Matrix):
            raise ValueError("the model expects a batch")
        self.seen += [int(r[0]) for r in batch]
        return Array(self.says[int(r[0])] for r in batch)


def comparison(mod, n, kinds, sizes, strides, clock, cpu):
    names = ["a", "b", "c"]

    def run(c):
        kind, other = c.pick(kinds), c.pick(kinds)
        size, stride = c.pick(sizes), c.pick(strides)
        recs, says, now = [], [], 1_600_000_000_000
        for i in range(n):
            f = c.pick(names[:min(i + 1, 3)] if i < 3 else names)
            says.append(c.pick([1, 0]))
            now += c.pick(clock)
            w = cpu[i % len(cpu)]
            d = {"FileName": f, "WrapCPU": w}
            ts = now
            if len(clock) > 1 and c.flag():
                ts = None
            if ts is not None:
                d["StartedRunningTimeStamp"] = ts
            recs.append({"data": d, "features": {"n": i}})
            c.op("%s, CPU %s%s%s" % (f, w, "" if says[-1] else ", not to be stored", "" if len(clock) == 1 else ", at %s" % (ts if ts is None else (ts - 1_600_000_000_000) / 86400000)))
        c.note("%s and %s caches of %d files, predictions in strides of %d" % (kind, other, size, stride))
        settings = {"max_size": size} if "simple" not in (kind, other) else {}
        if not settings:
            kind = other = "simple"
        table, judge = Table(), Judge(says)
        PLT.reset()
        show = c.flag() if n < 3 else False
        e = mod.Evaluator(recs, judge, table, cache_type=kind, ai_cache_type=other.upper(), cache_settings=settings, ai_stride=stride)
        e.compare(show=show, filename="cmp.png")
        # what it should be
        a, b = Ref(kind, size), Ref(other, size)
        cpus = {"a": [], "b": []}
        marks, last = [], None
        for i, r in enumerate(recs):
            f, w = r["data"]["FileName"], float(r["data"]["WrapCPU"])
            for key, ref, ins in (("a", a, True), ("b", b, bool(says[i]))):
                cpus[key].append((cpus[key][-1] if cpus[key] else 0.) + (w if ref.update(f, ins) else 0.))
            ts = r["data"].get("StartedRunningTimeStamp")
            if ts and (last is None or ts - last > 86400000):
                marks.append(i)
                last = ts
        c.equal(judge.seen, list(range(n)), "records shown to the model")
        c.equal(table.asked, [({"n": i}, False, True) for i in range(n)], "records encoded")
        c.equal(len(PLT.saved), 1, "figures drawn")
        c.equal((PLT.saved[0][0], PLT.shown), (None, 1) if show else ("cmp.png", 0), "figure")
        plots = collections.defaultdict(list)
        lines = collections.defaultdict(list)
        for x in PLT.saved[0][1]:
            if x[0] == "plot":
                plots[x[1]].append(x[2:])
            else:
                lines[x[1]].append(x[2])
        want = {1: (a.sizes, b.sizes), 2: (a.rates, b.rates), 3: (cpus["a"], cpus["b"])}
        c.equal(sorted(plots), [1, 2, 3], "parts of the figure")
        for at, (x, y) in want.items():
            what = {1: "sizes", 2: "hit rates", 3: "CPU time of hits"}[at]
            c.equal(lines[at], marks, "days marked in the %s" % what)
            c.equal(len(plots[at]), 2, "curves of the %s" % what)
            for (xs, ys, label), w, who in zip(sorted(plots[at], key=lambda p: p[2].startswith("ai_")), (x, y), ("cache", "cache with the model")):
                c.equal(xs, list(range(n)), "%s of the %s: places" % (what, who))
                c.require(near(ys, w), "%s of the %s: %s, want %s" % (what, who, ys, w))
        c.state(kind, other, size, a.sizes, b.sizes, cpus, marks)
    return run


def prop60(mod, deep):
    suites = []
    for kind, size in (("simple", 0), ("fifo", 1), ("fifo", 2), ("fifo", 3), ("lru", 1), ("lru", 2), ("lru", 3)):
        d = 1 if deep else 0
        suites.append(histories(mod, kind, size, 4, 7 + d, [True], False))
        suites.append(histories(mod, kind, size, 3, 5 + d, [True, False], True))
    long = [(kind, kind2) for kind in ("fifo", "lru") for kind2 in ("fifo", "lru")]
    suites += [
        Suite("comparison", "every trace of %d records of 3 files, each to be stored or not in the judgement of the model, for caches of 1 and 2 files of both kinds or without limit, predictions in strides of 1, 2, 3 and 100" % (4 + deep), comparison(mod, 4 + deep, ["fifo", "lru", "simple"], [1, 2], [1, 2, 3, 100], [0], [1, "2.5", 4, 8, 16])),
        Suite("days", "every trace of %d records with or without an instant, 0, 1/2, 1 or just over 1 day apart" % (3 + deep), comparison(mod, 3 + deep, ["lru"], [2], [2], [0, 43200000, 86400000, 86400001], [1, 2])),
        Suite("short", "traces of 1 and 2 records, shown or stored", lambda c: comparison(mod, 1 + c.choose(2), ["fifo", "lru"], [1], [1, 5], [0], [3, 5])(c)),
    ]
    return Property(suites, ["numpy and matplotlib are replaced by stand-ins with the behaviour of the calls made; the model and the encoding of the records are test doubles"])


# --- C61 -------------------------------------------------------------------------------

def suite_predict(mod, classes, scores):
    def run(c):
        vectors = [[c.pick(scores) for _ in range(classes)] for _ in range(2)]
        net = Net(answer=lambda r: vectors[int(r[0])])
        MADE[:] = [net]
        model = mod.DonkeyModel() if c.flag() else mod.CMSTest0ModelGenerator()
        model.load("stored.h5")
        want = [v.index(max(v)) for v in vectors]
        order = c.pick([(0, 1), (1, 0), (0, 0)])
        c.op("%s: scores %s" % (type(model).__name__, vectors))
        c.equal([int(x) for x in model.predict(array([[float(i), 5.] for i in order]))], [want[i] for i in order], "classes predicted")
        for i in order:
            if isinstance(model, mod.DonkeyModel):
                c.equal(int(model.predict_one(array([float(i), 7.]))), want[i], "class predicted")
                res = model.AIPredictOne(types.SimpleNamespace(inputVector=[float(i), 7.]), None)
                c.equal(res.store, want[i] == 1, "decision to store for scores %s" % vectors[i])
            else:
                c.equal(int(model.predict_single(array([float(i), 7.]))), want[i], "class predicted")
            c.equal(net.asked[-1].tolist(), [[float(i), 7.]], "input of the network")
        c.state(vectors, order)
    return Suite("predict_%d" % classes, "two score vectors of %d classes out of %s, asked in every order, one by one, through the service and together" % (classes, scores), run)


def suite_export(mod, dims, vals):
    def run(c):
        layers = []
        for i, (a, b) in enumerate(zip(dims, dims[1:])):
            w = [[c.pick(vals) if x * b + y < 3 else float(x * b + y) for y in range(b)] for x in range(a)]
            layers.append({"name": c.pick(["dense_%d" % i, "out%d" % (9 - i)]), "weights": w, "bias": [c.pick(vals) if y < 1 else -float(y) for y in range(b)], "activation": c.pick(["sigmoid", "softmax", "relu"])})
        MADE[:] = [Net(layers)]
        model = mod.DonkeyModel()
        model.load("stored.h5")
        for f in ("net.dump.json.gz",):
            if os.path.exists(f):
                os.remove(f)
        c.op("layers %s" % layers)
        c.require(model.export_weights("net") is model, "export_weights gives something else back")
        with gzip.open("net.dump.json.gz", "rt") as f:
            got = json.load(f)
        # the form the simulator loads
        c.equal(got["layers"], [{"name": l["name"], "weights": {"shape": [len(l["weights"]), len(l["weights"][0])], "values": l["weights"]},
                                 "bias": {"shape": [len(l["bias"])], "values": l["bias"]}, "activation_function": l["activation"]} for l in layers], "layers")
        c.require(isinstance(got["name"], str) and got["name"], "no name")
        c.require(model.save("net") is model, "save gives something else back")
        c.equal(MADE[0].saved, ["net.h5"], "stored as")
        c.state(layers)
    return Suite("export_%s" % "x".join(map(str, dims)), "networks of %s units, weights and biases out of %s, three activation functions, two forms of names" % (dims, vals), run)


def suite_train(mod):
    def run(c):
        epochs, batch, classes = c.pick([1, 7]), c.pick([4, 64]), c.pick([2, 5])
        rows, cols = 1 + c.choose(3), 1 + c.choose(3)
        data, labels = array([[float(x + y) for y in range(cols)] for x in range(rows)]), array([[float(x % 2 == k) for k in range(classes)] for x in range(rows)])
        del MADE[:]
        if c.flag():
            c.op("DonkeyModel, %d epochs in batches of %d, %d classes, %d columns" % (epochs, batch, classes, cols))
            m = mod.DonkeyModel(epochs=epochs, batch_size=batch)
            args = (data, labels) if classes == 2 and c.flag() else (data, labels, classes)
            m.train(*args)
            c.equal(len(MADE), 1, "networks")
            net = MADE[0]
            f, = net.fits
            c.require(f["data"] is data and f["labels"] is labels, "trained on something else")
            c.equal((f["batch_size"], f["epochs"]), (batch, epochs), "batch size and epochs")
            folds = 1
        else:
            folds = 1 + c.choose(3)
            val = c.flag()
            parts = [(array([[float(i)] * cols] * rows), labels, (i, i) if val else None) for i in range(folds)]
            asked = []

            class Data:
                def train_set(self, normalized=False, one_hot=True, one_hot_labels=False, k_fold=0):
                    asked.append((normalized, one_hot, one_hot_labels, k_fold))
                    return iter(parts)

                def get_num_classes(self):
                    return classes
            want = tuple(c.flag() for _ in range(3)) + (folds if val else 0,)
            c.op("CMSTest0ModelGenerator, %d epochs, %d folds, %s" % (epochs, folds, want))
            m = mod.CMSTest0ModelGenerator(epochs=epochs)
            m.train(Data(), normalized=want[0], one_hot=want[1], one_hot_labels=want[2], k_fold=want[3])
            c.equal(asked, [want], "training set asked for")
            c.equal(len(MADE), 1, "networks")
            net = MADE[0]
            c.equal(len(net.fits), folds, "trainings")
            for f, (d, l, v) in zip(net.fits, parts):
                c.require(f["data"] is d and f["labels"] is l and f["validation"] == v, "trained on another part")
                c.equal(f["epochs"], epochs, "epochs")
        c.equal(net.compiled, 1, "compilations")
        shapes = [l.k["input_shape"] for l in net.layers if "input_shape" in l.k]
        c.equal([tuple(s) for s in shapes], [(cols,)], "columns of the input")
        c.equal(net.layers[-1].a[0] if net.layers[-1].a else net.layers[-1].k.get("units"), classes, "classes of the output")
        c.equal(net.layers[-1].k["activation"], "softmax", "activation of the output")
        c.state(epochs, batch, classes, rows, cols, folds)
    return Suite("train", "trainings of both models with 1-3 rows and columns, 2 and 5 classes, 1-3 folds, every setting of the training set", run)


def prop61(mod, deep):
    scores = [0., .25, .5] if not deep else [0., .25, .5, 1.]
    return Property([
        suite_predict(mod, 2, scores), suite_predict(mod, 3, scores),
        suite_export(mod, (2, 2), [0., -1.5, 2.25]), suite_export(mod, (3, 1), [0.5, 1e-9]), suite_export(mod, (2, 3, 2), [0., -1.5]), suite_export(mod, (1, 1, 1, 1), [.5]),
        suite_train(mod),
    ], ["tensorflow, numpy and grpc are replaced by stand-ins with the behaviour of the calls made"])


def prop(pid, tier, repo):
    evaluator, generator = load(repo)
    deep = int(tier == "thorough")
    return prop60(evaluator, deep) if pid == "C60" else prop61(generator, deep)
