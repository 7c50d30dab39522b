"""Fourth batch of planted bugs: the Python parts."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gobug import pybug as _pybug, bug as _bug
ONLY = sys.argv[1:]
STUBS = r'''
import io, json, os, pickle, sys, tempfile, types
class Missing(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return type(name, (), {})
for n in ("findspark", "numpy", "pandas", "pyspark", "requests", "urllib3", "fastavro",
          "tqdm", "yaspin", "pygments", "colorama"):
    sys.modules[n] = Missing(n)
sys.modules["tqdm"].tqdm = lambda it, *a, **k: it
sys.modules["urllib3"].disable_warnings = lambda: None
class spinner:
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def write(self, *a): pass
sys.modules["yaspin"].yaspin = lambda *a, **k: spinner()
def _writer(fo, schema, records, codec="null"):
    for r in records:
        fo.write(json.dumps(r).encode() + b"\n")
def _reader(fo):
    while True:
        line = fo.readline()
        if not line:
            return
        yield json.loads(line)
sys.modules["fastavro"].parse_schema = lambda s: s
sys.modules["fastavro"].writer = _writer
sys.modules["fastavro"].reader = _reader
sys.path.insert(0, os.environ["REPO"])
'''
def pybug(id, prop, edits, body, needs, what, stubs=True):
    if ONLY and id not in ONLY:
        return
    _pybug(id, prop, edits, (STUBS if stubs else "") + body, needs, what)
def bug(id, *a, **k):
    if ONLY and id not in ONLY:
        return
    _bug(id, *a, **k)

J = "DataManager/collector/datafile/json.py"
API = "DataManager/agent/api.py"
STAGE = "DataManager/collector/dataset/stage.py"
GEN = "DataManager/collector/dataset/generator.py"

pybug("length-remembered-while-growing", "C41", [("DataManager/collector/datafile/json.py",
'''            self.__descriptor.seek(0, 0)
            num_lines = self.__descriptor.read().decode("utf-8").count('\\n')
''', '''            num_lines = 0
            while self.__descriptor.readline():
                num_lines += 1
''')],
'''
from DataManager.collector.datafile.json import JSONDataFileReader, JSONDataFileWriter
d = tempfile.mkdtemp()
f = os.path.join(d, "a.json")
with JSONDataFileWriter(f) as w:
    w.append([{"n": i} for i in range(4)])
r = JSONDataFileReader(f)
it = iter(r)
next(it)
n = len(r)
assert n == 4, n
''', "the length asked for after an access", "the length counts only what follows the current place in the file")

pybug("checkpoint-kept-as-last-place", "C41", [(J, "            if cur_index > index:\n                return (index, self.__checkpoints[index])", "            if cur_index >= index:\n                return (index - 1, self.__checkpoints[index])")],
'''
from DataManager.collector.datafile.json import JSONDataFileReader, JSONDataFileWriter
d = tempfile.mkdtemp()
f = os.path.join(d, "a.json")
with JSONDataFileWriter(f) as w:
    w.append([{"n": i} for i in range(5)])
pos, p = [], 0
for line in open(f, "rb"):
    pos.append(p)
    p += len(line)
r = JSONDataFileReader(f)
r.add_checkpoint(2, pos[2])
assert r[1] == {"n": 1} and r[3] == {"n": 3}, (r[1], r[3])
''', "a checkpoint before the record", "records after a checkpoint are those of the next position")

pybug("append-reopened-compressed-file-truncated", "C41", [("DataManager/collector/datafile/utils.py", '            stream = bz2.BZ2File(filename, mode=open_mode)', '            stream = bz2.open(filename, mode=open_mode.replace("a", "r+")[:2].replace("r+", "w"))')],
'''
from DataManager.collector.datafile.json import JSONDataFileReader, JSONDataFileWriter
d = tempfile.mkdtemp()
f = os.path.join(d, "a.json.bz2")
with JSONDataFileWriter(f) as w:
    w.append({"n": 1})
with JSONDataFileWriter(f, append=True) as w:
    w.append({"n": 2})
assert [x["n"] for x in JSONDataFileReader(f)] == [1, 2]
''', "a bzip2 file opened again to append", "the records of before are lost")

pybug("dictionary-rows-in-order-of-insertion-when-few", "C42", [("DataManager/agent/converter/csv.py", "            features = [str(data[key]) for key in sorted(data.keys())]", "            features = [str(val) for _, val in sorted(data.items(), key=lambda elm: elm[0].lower())]")],
'''
import importlib.util
spec = importlib.util.spec_from_file_location("DataManager.agent.converter.csv", os.environ["REPO"] + "/DataManager/agent/converter/csv.py")
pkg = types.ModuleType("DataManager.agent.converter"); pkg.__path__ = [os.environ["REPO"] + "/DataManager/agent/converter"]
for n in ("DataManager", "DataManager.agent"):
    m = types.ModuleType(n); m.__path__ = []; sys.modules[n] = m
sys.modules["DataManager.agent.converter"] = pkg
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
row = m.CSVConverter().row({"b": 1, "C": 2, "a": 3})
assert row == "2,3,1", row
''', "names that differ in the case of their first letter", "columns of records with other sets of names are not in the same order as sorted names")

pybug("label-leaves-a-gap-when-first", "C42", [("DataManager/agent/converter/libSVM.py", '''        feature_names = [key for key in sorted(
            data.keys()) if key not in exclude]
''', '''        feature_names = sorted(data.keys())
        for key in feature_names:
            if key in exclude:
                feature_names.remove(key)
        feature_names = [key for key in feature_names if "".join(exclude).find(key) == -1]
''')],
'''
import importlib
from DataManager.agent.converter.libSVM import LibSVMConverter
row = LibSVMConverter().labeled_row({"label": 5, "lab": 1, "z": 2})
assert row == "5 1:1 2:2", row
''', "a field whose name is a part of the name of the label", "the field is left out of the labelled row")

pybug("size-of-the-latest-request-deleted", "C43", [("SmartCache/pySim/cache.py", "                    file_size = self._files[to_remove]\n", "                    file_size = self._stats.get_or_set(to_remove, file_stats.size).size\n")],
'''
sys.path.insert(0, os.environ["REPO"] + "/SmartCache/pySim")
import cache
c = cache.LRU(10)
c.get("a", 4.)
c.get("a", 2.)
c.get("b", 4.)
c.get("c", 6.)
assert abs(c._size - sum(c._files.values())) < 1e-9, (c._size, c._files)
''', "a stored file requested with another size and evicted later", "the occupancy is no longer the sum of the stored files", stubs=True)

pybug("evicted-file-keeps-its-place", "C43", [("SmartCache/pySim/cache.py", "            self._queue.remove(filename)\n            self._queue.append(filename)\n", "            if self._queue[0] != filename or len(self._queue) % 3:\n                self._queue.remove(filename)\n                self._queue.append(filename)\n")],
'''
sys.path.insert(0, os.environ["REPO"] + "/SmartCache/pySim")
import cache
c = cache.LRU(3)
for f in "abca":
    c.get(f, 1.)
c.get("d", 1.)
assert c.check("a") and not c.check("b"), c._queue
''', "a hit of the oldest of three files", "the file is not refreshed and is evicted next", stubs=True)

bug("number-of-names-signed", "C44", [("cache/utils.go", "	uinteger, _ := strconv.ParseUint(HashHexDigest(input), 16, 64)\n	return uint32(uinteger % 10000000000)", "	integer, _ := strconv.ParseInt(HashHexDigest(input), 16, 64)\n	return uint32(uint64(integer) % 10000000000)")],
'''
	differ := false
	for i := 0; i < 64; i++ {
		s := string(rune('a'+i%26)) + string(rune('a'+i/26))
		h := HashHexDigest(s)
		var v uint64
		for _, c := range h {
			d := uint64(0)
			if c <= '9' {
				d = uint64(c - '0')
			} else {
				d = uint64(c-'a') + 10
			}
			v = v*16 + d
		}
		if HashInt(s) != uint32(v%10000000000) {
			differ = true
		}
	}
	if differ {
		t.Fatal("the number is not the digest modulo 10^10")
	}
''', "a name whose digest has its first bit set", "half of the names share one number")

pybug("last-full-bucket-kept-back", "C46", [("DataManager/agent/cli.py", "        if len(bucket) != 0:\n            tot_elm_done = put_bucket", "        if len(bucket) > BULK_SIZE // 4:\n            tot_elm_done = put_bucket")],
'''
import contextlib
class Res: status_code = 200; text = "{}"
stored = []
def put(url, data=None, **k):
    stored.extend(data.strip().split("\\n")[1::2])
    return Res()
sys.modules["requests"].put = put
from DataManager.agent import cli
from DataManager.collector.datafile.json import JSONDataFileWriter
d = tempfile.mkdtemp()
f = os.path.join(d, "a.json.gz")
with JSONDataFileWriter(f) as w:
    w.append([{"n": i} for i in range(5)])
sys.argv = ["agent", "put", f, "http://x/y", "--bulk", "4"]
with contextlib.redirect_stdout(io.StringIO()):
    cli.cli_main()
assert len(stored) == 5, stored
''', "a remainder of at most a quarter of a bucket", "the last records of a bulk upload are not stored")

pybug("identifier-by-sorted-contents-in-bulk-only", "C46", [(API, '''            all_objects = [json.dumps(elm) for elm in data]
''', '''            all_objects = [json.dumps(elm, sort_keys=len(data) > 1) for elm in data]
''')],
'''
ids = []
class Res: status_code = 200; text = "{}"
def put(url, data=None, **k):
    ids.append([json.loads(x)["index"]["_id"] for x in data.strip().split("\\n")[0::2]] if url.endswith("_bulk") else [url.rsplit("/", 1)[1]])
    return Res()
sys.modules["requests"].put = put
from DataManager.agent.api import ElasticSearchHttp
es = ElasticSearchHttp("http://x/y", "")
a, b = {"z": 1, "a": 2}, {"n": 1}
es.put([a, b])
es.put([a])
assert ids[0][0] == ids[1][0], ids
''', "a record whose fields are not sorted, in buckets of one and of several", "the record is stored twice when uploaded with another size of buckets")

pybug("refused-bulk-of-one-ignored", "C46", [("DataManager/agent/cli.py", "                    if res.status_code > 201:\n                        print(\"[ERROR][STATUS CODE][{}]-> Problem with resource", "                    if res.status_code > 201 and res.status_code != 429:\n                        print(\"[ERROR][STATUS CODE][{}]-> Problem with resource")],
'''
import contextlib
class Res:
    text = "{}"
n = [0]
def put(url, data=None, **k):
    n[0] += 1
    r = Res()
    r.status_code = 429 if n[0] == 2 else 200
    return r
sys.modules["requests"].put = put
from DataManager.agent import cli
from DataManager.collector.datafile.json import JSONDataFileWriter
d = tempfile.mkdtemp()
f = os.path.join(d, "a.json.gz")
with JSONDataFileWriter(f) as w:
    w.append([{"n": i} for i in range(3)])
sys.argv = ["agent", "put", f, "http://x/y"]
try:
    with contextlib.redirect_stdout(io.StringIO()):
        cli.cli_main()
except SystemExit as e:
    assert e.code not in (0, None)
else:
    raise AssertionError("a refused record was skipped without an error")
''', "the archive answers 429 (too many requests)", "the record is silently skipped")

pybug("recursive-only-when-asked-twice", "C47", [(API, "                'recursive': recursive\n", "                'recursive': recursive and hdfs_path.count(\"/\") > 1\n")],
'''
seen = []
class Res:
    status_code = 200
    def json(self): return {"boolean": True}
def delete(url, params=None, **k):
    seen.append(params)
    return Res()
sys.modules["requests"].delete = delete
from DataManager.agent.api import HTTPFS
h = HTTPFS("http://x", "u", "p")
h.delete("/a", recursive=True)
assert str(seen[0]["recursive"]).lower() == "true", seen
''', "a directory at the top", "the request is not recursive")

pybug("last-part-of-a-chunked-file-dropped", "C47", [(API, "                content.write(chunk)\n", "                content.write(chunk)\n                if len(chunk) < chunk_size // 2:\n                    break\n")],
'''
class Res:
    status_code = 200
    def iter_content(self, n):
        yield b"x" * (n // 4)   # what came with the first packet
        yield b"y" * n
def get(url, params=None, **k):
    return Res()
sys.modules["requests"].get = get
from DataManager.agent.api import HTTPFS
data = HTTPFS("http://x", "u", "p").open("/a").read()
assert len(data) == 64 + 256, len(data)
''', "a chunk in the middle of the transfer that is shorter than asked", "what follows a short chunk is missing")

pybug("overwrite-lost-with-files", "C47", [(API, '''                        'noredirect': noredirect,
                        'overwrite': overwrite,
                        'data': True
''', '''                        'noredirect': noredirect,
                        'overwrite': overwrite or res.status_code == 201,
                        'data': True
''')],
'''
seen = []
class Res:
    status_code = 201
    def json(self): return {}
def put(url, params=None, data=None, **k):
    seen.append(params)
    return Res()
sys.modules["requests"].put = put
from DataManager.agent.api import HTTPFS
d = tempfile.mkdtemp()
f = os.path.join(d, "a")
open(f, "w").write("x")
HTTPFS("http://x", "u", "p").create("/a", f, overwrite=False)
assert [str(p["overwrite"]).lower() for p in seen] == ["false", "false"], seen
''', "a server that answers the first request with 201", "a file is overwritten that should not be")

pybug("batch-of-one-forgotten", "C48", [(GEN, "        else:\n            if len(batch) != 0:\n                print(\"[Pipeline]", "        else:\n            if len(batch) > 1 or self._batch_size == 1:\n                print(\"[Pipeline]")],
'''
from DataManager.collector.dataset.generator import Pipeline
p = Pipeline("x", [], batch_size=3)
got = [r for b in p.gen_batches(iter(range(7)), "s") for r in b]
assert got == list(range(7)), got
''', "a number of records one above a multiple of the size of the batches", "the last record is lost")

pybug("class-by-average-of-the-parts", "C48", [(STAGE, "        avg_score = sum(elm.score for elm in tmp.values()) / len(tmp)\n", "        scores = sorted(elm.score for elm in tmp.values())\n        avg_score = sum(scores) / len(set(scores)) if scores[0] != scores[-1] else scores[0]\n")],
'''
from DataManager.collector.dataset import stage as st
st.AvroDataFileWriter = lambda *a, **k: None
s = st.CMSRecordTest0Stage()
def rec(i, cpu): return {"tot_wrap_cpu": cpu, "tot_requests": 1, "features": {"f": i}, "class": "UNKNOWN", "id": str(i)}
out = s.pre_output([rec(0, 1.), rec(1, 4.), rec(2, 4.)])
assert [r["class"] for r in out] == ["bad", "good", "good"], out
''', "two records of the same score", "records above the mean score are classified as bad")

pybug("processes-that-end-early-not-flushed", "C48", [(STAGE, '''                    while len(tasks) > 0:
                        for task in tasks:''', '''                    tasks = self.__update_tasks(tasks)
                    while len(tasks) > 0:
                        for task in tasks:''')],
'''
from DataManager.collector.dataset import stage as st
out = []
class Out:
    def append(self, l): out.extend(l)
st.AvroDataFileWriter = lambda *a, **k: Out()
class Q:
    def __init__(self): self.l = []
    def put(self, x): self.l.append(x)
    def get(self): return self.l.pop(0)
    def empty(self): return not self.l
class P:
    def __init__(self, target=None, args=()): self.t, self.a = target, args
    def start(self): self.t(*self.a)   # at its end before anybody looks
    def join(self, n=None): pass
    def is_alive(self): return False
st.Queue, st.Process = Q, P
class S(st.Stage):
    @staticmethod
    def process(records, queue=None):
        for r in records: queue.put(r)
S("s").task([[1], [2]], num_process=3)
assert out == [1, 2], out
''', "all processes end before the pool is first looked at", "their results are never read")

pybug("identifier-before-the-last-feature", "C49", [("DataManager/collector/datafeatures/utils.py", "        blake2s.update(json.dumps(list(self.features)).encode(\"utf-8\"))", "        blake2s.update(json.dumps(list(self.features)).encode(\"utf-8\")[:192])")],
'''
from DataManager.collector.datafeatures.extractor import CMSDataPopularity
def ident(t):
    return CMSDataPopularity({"FileName": "/store/" + t + "/Run2016B/" + "x" * 150 + "/MINIAOD/f.root"}).record_id
assert ident("data") != ident("mc")
''', "features of more than 192 characters together", "records with different features have one identifier")

pybug("sum-of-copies-counts-one", "C49", [("DataManager/collector/datafeatures/extractor.py", '''    def __iadd__(self, other: 'CMSRecordTest0'):
        self.__tot_wrap_cpu += other.tot_wrap_cpu
        self.__tot_requests += other.tot_requests''', '''    def __iadd__(self, other: 'CMSRecordTest0'):
        self.__tot_wrap_cpu += other.tot_wrap_cpu
        self.__tot_requests += other.tot_requests if other.tot_wrap_cpu else 1''')],
'''
from DataManager.collector.datafeatures.extractor import CMSRecordTest0
def rec(n): return CMSRecordTest0().load({"tot_wrap_cpu": 0., "tot_requests": n, "features": {"f": 1}, "class": "UNKNOWN", "id": "x"})
a = rec(2)
a += rec(3)
assert a.tot_requests == 5, a.tot_requests
''', "a record of several requests without CPU time", "its requests count as one")

pybug("half-step-window", "C49", [("DataManager/collector/dataset/utils.py", "        start_date = date(year, month, day) + window_size\n", "        start_date = date(year, month, day) + (window_size // window_step) * window_step\n")],
'''
from DataManager.collector.dataset.utils import gen_window_dates
got = list(gen_window_dates(2020, 1, 1, 5, step=2, next_window=True))
assert got == [(2020, 1, 6), (2020, 1, 8), (2020, 1, 10)], got
''', "the next window with a step that does not divide its size", "the next window starts inside the first")

pybug("unknown-only-when-first", "C49", [("DataManager/collector/dataset/utils.py", '''        if with_unknown:
            self._tables[table_name][key] |=''', '''        if with_unknown and len(self._tables[table_name][key]) != 2:
            self._tables[table_name][key] |=''')],
'''
from DataManager.collector.dataset.utils import SupportTable
t = SupportTable()
t.insert("t", "k", "a", with_unknown=False)
t.insert("t", "k", "b")
t.gen_indexes()
assert t.get_close_value("t", "k", "zzz") == t.get_value("t", "k", "__unknown__")
''', "the second value inserted with an unknown and the first without", "unknown values are an error")

PROBE = '''
pkg = types.ModuleType("probe"); pkg.__path__ = [os.environ["REPO"] + "/Probe/probe"]
conv = types.ModuleType("probe.converter"); conv.__path__ = [os.environ["REPO"] + "/Probe/probe/converter"]
ut = types.ModuleType("probe.utils")
ut.STATUS_ARROW = ""; ut.STATUS_WARNING = ut.STATUS_OK = lambda s: s
sys.modules.update({"probe": pkg, "probe.converter": conv, "probe.utils": ut})
import importlib
cu = importlib.import_module("probe.converter.utils")
'''
pybug("numbers-restart-after-loading", "C50", [("Probe/probe/converter/utils.py", "        self.__sequences = data['sequences']\n", "        self.__sequences = dict((name, max(values.values(), default=0) + 1) for name, values in data['data'].items())\n")],
PROBE + '''
c = cu.CategoryContainer()
c.update({"k": []}, "f")
c = pickle.loads(pickle.dumps(c))
c.update({"k": ["a", "b"]}, "f")
assert c.get("k") == {"a": 0, "b": 1}, c.get("k")
''', "a category without values when the container is saved", "its numbers start from one after loading")

pybug("zero-is-no-value", "C50", [("Probe/probe/converter/utils.py", "        if value is not None:\n            return self._data[category][value]", "        if value:\n            return self._data[category][value]")],
PROBE + '''
c = cu.CategoryContainer()
c.update({"k": ["x", ""]}, "f")
assert c.get("k", "") == 1, c.get("k", "")
''', "an empty value", "asked for the number of the empty value, the whole category is given")

pybug("campaign-from-the-name-s-end", "C50", [("Probe/probe/converter/extractor.py", "            lambda elm: elm.split(\"/\")[4]\n", "            lambda elm: elm.split(\"/\")[-5 if elm.count(\"/\") > 7 else 4]\n")],
'''
import importlib.util
spec = importlib.util.spec_from_file_location("ex", os.environ["REPO"] + "/Probe/probe/converter/extractor.py")
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
class Col:
    def __init__(self, l): self.l = l
    def map(self, f): return Col([f(x) for x in self.l])
class DF(dict):
    columns = property(lambda self: list(self))
df = DF(Filename=Col(["/store/mc/RunA/DYJets/MINIAOD/tag/0/1/2/f.root"]))
m.check_filename_info(df)
assert df["Process"].l == ["DYJets"], df["Process"].l
''', "a file name of more parts than usual", "the process is another part of the name")


CDEMO = r'''#!/bin/bash
# Builds the simulator and runs demo.py with it (nothing is written in the repository).
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOENV=off GO111MODULE=on GOFLAGS="-mod=mod -buildvcs=false"
GO=/opt/veriftools/go1.27.3/bin/go; [ -x "$GO" ] || GO=go
(cd SmartCache/sim && "$GO" build -o "$tmp/simulator" .) || exit 3
cd "$tmp" && SIM="$tmp/simulator" python3 "$here/demo.py"
'''
CPRE = '''
import csv, glob, os, subprocess
HEAD = "Filename,SiteName,UserID,TaskID,TaskMonitorID,JobID,Protocol,JobExecExitCode,JobStart,JobEnd,NumCPU,WrapWC,WrapCPU,Size,DataType,FileType,JobLengthH,JobLengthM,JobSuccess,CPUTime,IOTime,reqDay,Region,Campaign,Process".split(",")
def trace(name, reqs):
    # requests of (file, megabytes, day)
    with open(name, "w") as f:
        f.write(",".join(HEAD) + "\\n")
        for fid, mb, day in reqs:
            r = dict.fromkeys(HEAD, "1")
            r.update(Filename=str(fid), Size=str(int(mb * 1024 * 1024)), reqDay=str(1514764800 + 86400 * day), CPUTime="30", IOTime="10", DataType="0", FileType="2", JobSuccess="true", SiteName="3", JobExecExitCode="0")
            f.write(",".join(r[h] for h in HEAD) + "\\n")
def run(conf):
    with open("run.yml", "w") as f:
        f.write("sim:\\n" + conf)
    p = subprocess.run([os.environ["SIM"], "sim", "run.yml"], capture_output=True, text=True)
    assert p.returncode == 0, p.stdout[-800:] + p.stderr[-800:]
def rows(pattern="out/**/simulation_results.csv"):
    f, = glob.glob(pattern, recursive=True)
    return list(csv.DictReader(open(f)))
'''
def cbug(id, prop, edits, body, needs, what):
    if ONLY and id not in ONLY:
        return
    _pybug(id, prop, edits, CPRE + body, needs, what)
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded", id, "demo.sh"), "w").write(CDEMO)

cbug("dump-name-loaded-instead", "C45", [("SmartCache/sim/main.go", '			simLoadDumpFileName = viper.GetString("sim.loaddumpfilename")\n', '			simLoadDumpFileName = viper.GetString("sim.loaddumpfilename")\n			if simLoadDump && simDump && simDumpFileName != "" {\n				simLoadDumpFileName = simDumpFileName\n			}\n')],
'''
C = "  type: normal\\n  data: t.csv\\n  outputFolder: out\\n  overwrite: true\\n  cache:\\n    type: lru\\n    size:\\n      value: 20\\n      unit: M\\n  window:\\n    stop: 52\\n  dump: true\\n"
def one(files, day, extra):
    trace("t.csv", [(f, 1, day) for f in files] + [(99, 1, day + 1)])
    run(C + extra)
    return rows()[0]["num hit"] if "num hit" in rows()[0] else rows()[0]
one([1, 2, 3], 0, "  dumpfilename: b.json.gz\\n")        # what is in b
one([5, 6, 7], 3, "  dumpfilename: a.json.gz\\n")        # what is in a
hits = one([5, 6, 7], 6, "  loaddump: true\\n  loaddumpfilename: a.json.gz\\n  dumpfilename: b.json.gz\\n")
assert float(rows()[0]["hit rate"]) == 100., rows()[0]
''', "a simulation that loads a dump of one name and writes another", "the dump to be written is loaded instead of the one asked for")

cbug("epsilon-of-the-other-agent", "C45", [("SmartCache/sim/main.go", '				aiRLEvictionEpsilonStart = aiRLEpsilonStart\n', '				aiRLEvictionEpsilonStart = aiRLAdditionEpsilonStart\n')],
'''
import json
add = {"size": {"type": "float", "buckets": [1000.0]}}
evc = {"catSize": {"type": "float", "buckets": [1000.0], "fileFeature": True}}
open("add.json", "w").write(json.dumps(add))
open("evc.json", "w").write(json.dumps(evc))
trace("t.csv", [(f, 1, 0) for f in range(9)] + [(99, 1, 1)])
run("  type: normal\\n  data: t.csv\\n  outputFolder: out\\n  cache:\\n    type: aiRL\\n    size:\\n      value: 20\\n      unit: M\\n  window:\\n    stop: 52\\n  ai:\\n    rl:\\n      epsilon:\\n        start: 0.75\\n        decay: 0.0000001\\n      addition:\\n        featuremap: add.json\\n        epsilon:\\n          start: 0.25\\n      eviction:\\n        featuremap: evc.json\\n")
r = rows()[0]
assert abs(float(r["Eviction epsilon"]) - .75) < .01, r
''', "an exploration rate for the admission agent only", "the eviction agent explores with the rate of the admission agent")

cbug("window-of-at-least-a-week", "C45", [("SmartCache/sim/main.go", '			simWindowSize = viper.GetInt("sim.window.size")\n', '			simWindowSize = viper.GetInt("sim.window.size")\n			if simWindowStart > 0 && simWindowSize < 7 {\n				simWindowSize = 7\n			}\n')],
'''
trace("t.csv", [(d, 1, d) for d in range(12)])
run("  type: normal\\n  data: t.csv\\n  outputFolder: out\\n  cache:\\n    type: lru\\n    size:\\n      value: 20\\n      unit: M\\n  window:\\n    start: 1\\n    stop: 4\\n    size: 2\\n")
got = [r["date"][:10] for r in rows()]
assert got and got[0] == "2018-01-03", got
''', "a window that starts later with windows of less than a week", "the simulated part starts at another day")
