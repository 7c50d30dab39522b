"""Tenth batch of planted bugs: the evaluator and the prediction model."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gobug import pybug as _pybug, ROOT
ONLY = sys.argv[1:]
EV, GEN = "SmartCache/ai/models/evaluator.py", "SmartCache/ai/models/generator.py"
SRC = open(ROOT + "/py/p_eval.py").read()
KIT = SRC[:SRC.index("# --- C60: caches")].replace("C60: the evaluator", "Stand-ins for the evaluator").replace("C61: the", "The")
HEAD = r'''
import os, sys
import kit
ev, gen = kit.load(os.environ["REPO"])
def want(what, got, should):
    if got != should: sys.exit("%s: %r, should be %r" % (what, got, should))
    print("ok", what, got)
'''


def bug(id, prop, edits, body, needs, what):
    if ONLY and id not in ONLY:
        return
    _pybug(id, prop, edits, HEAD.lstrip("\n") + body, needs, what)
    d = os.path.join(ROOT, "seeded", id)
    open(d + "/kit.py", "w").write(KIT)
    for f in ("minipd.py", "stubs.py"):
        shutil.copy(ROOT + "/py/" + f, d)
    open(d + "/explore.py", "w").write("class HarnessError(Exception):\n    pass\n\n\nclass Suite:\n    pass\n\n\nProperty = Suite\n")


CMP = r'''
class Judge:
    def __init__(self, says): self.says, self.n = list(says), 0
    def predict(self, batch):
        out = self.says[self.n:self.n + len(batch)]; self.n += len(batch); return out
class Table:
    def close_conversion(self, *a, **k): return [0., 1.]
def compare(recs, says, stride):
    data = [{"data": d, "features": {}} for d in recs]
    kit.PLT.reset()
    ev.Evaluator(data, Judge(says), Table(), "lru", "lru", {"max_size": 2}, stride).compare(filename="x.png")
    return kit.PLT.saved[0][1]
'''
bug("single-record-left-over", "C60", [(EV, '''            if len(lazy_predictions['tensors']) > 0:
''', '''            if len(lazy_predictions['tensors']) > 1:
''')], CMP + r'''
log = compare([{"FileName": f, "WrapCPU": 1} for f in "aba"], [1, 1, 1], 2)
want("lengths of the curves", [len(x[3]) for x in log if x[0] == "plot"], [3] * 6)
''', "a number of records one more than a multiple of the stride", "the last record never reaches the cache with the model")

bug("marks-count-from-the-last-record", "C60", [(EV, '''                    if obj_deltatime - last_day > delta_time:
                        separators.append(idx)
                        last_day = obj_deltatime
''', '''                    if obj_deltatime - last_day > delta_time:
                        separators.append(idx)
                    last_day = obj_deltatime
''')], CMP + r'''
log = compare([{"FileName": "a", "WrapCPU": 1, "StartedRunningTimeStamp": 1600000000000 + i * 43200001} for i in range(4)], [1] * 4, 2)
want("marks", [x[2] for x in log if x[0] == "line" and x[1] == 1], [0, 2])
''', "records less than a day apart over more than a day", "no new day is marked")

bug("unwanted-hits-are-no-use", "C60", [(EV, '''            idx = self._cache.index(file_)
            self._counters[idx] = 0
        elif len''', '''            idx = self._cache.index(file_)
            if insert:
                self._counters[idx] = 0
        elif len''')], r'''
c = ev.LRUCache(max_size=2)
c.update("a"); c.update("b"); c.update("a", False); c.update("c")
want("stored", [f for f in "abc" if c.check(f)], ["a", "c"])
''', "a stored file asked for when the model would not store it, then an eviction", "the file counts as not used and is removed")

bug("copies-share-their-files", "C60", [(EV, '''            self._cache += init_state['cache']
''', '''            self._cache = init_state['cache']
''')], r'''
a = ev.FIFOCache(max_size=3)
a.update("x"); a.update("y")
b = ev.FIFOCache(a.state, max_size=3)
b.update("z")
want("files of the first cache", len(a), 2)
a.update("w")
want("files of the second", [f for f in "xyzw" if b.check(f)], ["x", "y", "z"])
''', "a cache made from the state of another which is used further", "each has the files of the other")

bug("any-class-but-the-first-stores", "C61", [(GEN, '''            store=True if prediction == 1 else False
''', '''            store=bool(prediction)
''')], r'''
import types
kit.MADE[:] = [kit.Net(answer=lambda r: [.1, .2, .7])]
m = gen.DonkeyModel(); m.load("stored.h5")
want("store for class 2", m.AIPredictOne(types.SimpleNamespace(inputVector=[1.]), None).store, False)
''', "a network of three classes and a record of the last", "the service answers to store a record of another class than 1")

bug("layers-by-name", "C61", [(GEN, '''        config = self._model.get_config()['layers']
        for layer in config:
''', '''        config = {
            layer['config']['name']: layer
            for layer in self._model.get_config()['layers']
        }
        for _, layer in sorted(config.items()):
''')], r'''
import gzip, json
kit.MADE[:] = [kit.Net([{"name": n, "weights": [[1.]], "bias": [0.], "activation": "relu"} for n in ("dense_9", "dense_10")])]
m = gen.DonkeyModel(); m.load("stored.h5"); m.export_weights("net")
want("layers", [l["name"] for l in json.load(gzip.open("net.dump.json.gz"))["layers"]], ["dense_9", "dense_10"])
''', "layers whose names are not in their order, as dense_9 and dense_10", "the exported network has its layers in another order")

bug("each-fold-a-new-network", "C61", [(GEN, '''            if self._model is None:
                self.__compile_model(
                    train_data.shape[1],
                    dataset.get_num_classes()
                )
            if validation_set is not None:
''', '''            if self._model is None or validation_set is not None:
                self.__compile_model(
                    train_data.shape[1],
                    dataset.get_num_classes()
                )
            if validation_set is not None:
''')], r'''
class Data:
    def train_set(self, **k):
        d = kit.array([[1., 2.]])
        return iter([(d, d, (1, 1)), (d, d, (2, 2))])
    def get_num_classes(self): return 2
del kit.MADE[:]
m = gen.CMSTest0ModelGenerator(epochs=1); m.train(Data(), k_fold=2)
want("networks", len(kit.MADE), 1)
''', "a training over two folds", "the network is that of the last fold alone")
