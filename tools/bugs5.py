"""Fifth batch of planted bugs: interrupted conversions, damaged inputs, the
neural network."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gobug import pybug as _pybug, bug as _bug
ONLY = sys.argv[1:]
PD = r'''
import builtins, csv, glob, gzip, io, os, pickle, random, sys, types
class Series(list):
    def __init__(self, it=(), dtype=None):
        super().__init__(it)
        self.dtype = dtype or ("int64" if all(type(x) is int for x in self) else "object")
    @property
    def str(self):
        return types.SimpleNamespace(contains=lambda t, case=True, regex=True: [t.lower() in x.lower() for x in self])
    def map(self, f): return Series([f(x) for x in self], "object" if not self else None)
    def astype(self, t): return Series([t(x) for x in self], "int64")
    def to_numpy(self): return list(self)
    def tolist(self): return list(self)
    def unique(self): return Series(dict.fromkeys(self), self.dtype)
class Frame:
    def __init__(self, cols): self.cols = cols
    columns = property(lambda s: list(s.cols))
    dtypes = property(lambda s: [x.dtype for x in s.cols.values()])
    def __len__(self): return len(next(iter(self.cols.values())))
    def __getattr__(self, k):
        if k not in self.__dict__.get("cols", {}): raise AttributeError(k)
        return self.cols[k]
    def __getitem__(self, k):
        if isinstance(k, list):
            return Frame({n: Series([x for x, m in zip(s, k) if m], s.dtype) for n, s in self.cols.items()})
        return self.cols[k]
    def __setitem__(self, k, v): self.cols[k] = v if isinstance(v, Series) else Series(v)
    def reset_index(self, drop=False, inplace=False): return self
    def sample(self, frac=None, random_state=None):
        o = list(range(len(self)))
        random.Random(random_state).shuffle(o)
        return Frame({n: Series([s[i] for i in o], s.dtype) for n, s in self.cols.items()})
    def to_csv(self, to, index=True):
        with open(to, "w") as f:
            w = csv.writer(f)
            w.writerow(self.columns)
            for r in zip(*self.cols.values()):
                w.writerow(r)
                f.flush()
                HOOK(to)
HOOK = lambda to: None
def read_csv(f, index_col=None):
    rows = list(csv.reader(io.open(f)))
    cols = {}
    for i, n in enumerate(rows[0]):
        v = [r[i] for r in rows[1:]]
        cols[n] = Series([int(x) for x in v], "int64") if v and all(x.lstrip("-").isdigit() for x in v) else Series(v, "object")
    return Frame(cols)
class Any(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"): raise AttributeError(k)
        return type(k, (), {"__getattr__": lambda s, n: "", })()
for n in ("pandas", "numpy", "pygments", "pygments.formatters", "pygments.lexers", "colorama", "tqdm"):
    sys.modules[n] = Any(n)
sys.modules["colorama"].init = lambda *a: None
for n in ("MAGENTA", "YELLOW", "RED", "GREEN", "BRIGHT", "RESET_ALL"):
    for k in ("Fore", "Style"):
        setattr(sys.modules["colorama"], k, types.SimpleNamespace(MAGENTA="", YELLOW="", RED="", GREEN="", BRIGHT="", RESET_ALL=""))
sys.modules["tqdm"].tqdm = lambda it, *a, **k: it
sys.modules["pandas"].read_csv, sys.modules["pandas"].StringDtype = read_csv, "object"
sys.modules["numpy"].int64 = "int64"
sys.modules["numpy"].array_split = lambda a, n: [a[i * len(a) // n:(i + 1) * len(a) // n] for i in range(n)]
import multiprocessing
class P:
    def __init__(self, n=None): pass
    def map(self, f, it): return [f(x) for x in it]
    def close(self): pass
    def join(self): pass
multiprocessing.Pool = P
os.cpu_count = lambda: 2
sys.path.insert(0, os.environ["REPO"] + "/Probe")
import importlib
main = importlib.import_module("probe.converter.__main__").main
def trace(name, rows):
    os.makedirs("in", exist_ok=True)
    Frame({"Filename": Series([f for _, f in rows]), "SiteName": Series([s for s, _ in rows]), "Size": Series(range(len(rows)))}).to_csv("in/" + name, index=False)
def run(*a):
    sys.argv = ["converter"] + list(a)
    main()
def out(name):
    return read_csv("in/" + name)
A = ("T2_US_Van", "/store/data/R16/QCD/AOD/1.root")
B = ("T1_IT_CNAF", "/store/mc/S16/DY/AOD/2.root")
C = ("T2_DE_X", "/store/data/R17/W/AOD/1.root")
'''
def pybug(id, prop, edits, body, needs, what):
    if ONLY and id not in ONLY:
        return
    _pybug(id, prop, edits, PD + body, needs, what)
def bug(id, *a, **k):
    if ONLY and id not in ONLY:
        return
    _bug(id, *a, **k)

U = "Probe/probe/converter/utils.py"
M = "Probe/probe/converter/__main__.py"

pybug("numbering-resumed-one-early", "C51", [(U, "        self._data = data['data']\n        self.__sequences = data['sequences']\n",
"        self._data = data['data']\n        self.__sequences = {\n            category: max(values.values(), default=0)\n            for category, values in self._data.items()\n        }\n")],
'''
trace("results_2018-01.csv", [A, B])
run("in")
trace("results_2018-02.csv", [C])
run("in")
k = pickle.load(open("container_all_.pickle", "rb"))
for col in ("SiteName", "Filename"):
    d = k.get(col)
    assert len(set(d.values())) == len(d), d
''', "a second run of the converter with values that are new", "the first new value gets the number of the last old one")

pybug("shuffles-of-other-seeds-count", "C51", [(M, '''            if not path.isfile(output_filename):
                print(''', '''            seeds = [elm for elm in listdir(head or ".")
                     if elm.startswith(f"results_numeric_{args.region}_shuffle_")
                     and elm.endswith(tail.replace("results_", ""))]
            if not path.isfile(output_filename) and not (args.shuffle and seeds):
                print('''), (M, "import pickle\n", "import pickle\nfrom os import listdir\n")],
'''
trace("results_2018-01.csv", [A, B, C])
run("in", "--shuffle", "true", "--seed", "7")
run("in", "--shuffle", "true", "--seed", "8")
assert len(glob.glob("in/results_numeric_all_shuffle_8*")) == 1, os.listdir("in")
''', "two shuffled conversions of the same traces with different seeds", "the second seed is not converted")

pybug("region-kept-from-the-first-row", "C51", [("Probe/probe/converter/extractor.py", '''            lambda elm: elm.split("_")[1].lower()
''', '''            lambda elm, regions={}: regions.setdefault(
                elm.split("_")[0], elm.split("_")[1].lower())
''')],
'''
trace("results_2018-01.csv", [A, C])
run("in")
k = pickle.load(open("container_all_.pickle", "rb"))
assert sorted(k.get("Region")) == ["de", "us"], k.get("Region")
''', "two sites of one tier in different regions", "sites of the same tier share the region of the first one")

pybug("container-of-the-last-region", "C51", [(M, '''        if path.isfile(container_filename):
            with open(container_filename, "rb") as container_file:
                container = pickle.load(container_file)
''', '''        previous = container_filename
        if not path.isfile(previous) and path.isfile("container_all_.pickle"):
            previous = "container_all_.pickle"
        if path.isfile(previous):
            with open(previous, "rb") as container_file:
                container = pickle.load(container_file)
''')],
'''
trace("results_2018-01.csv", [C, A])
run("in")
run("in", "--region", "us")
k = pickle.load(open("container_us_.pickle", "rb"))
assert list(k.get("SiteName")) == ["T2_US_Van"], k.get("SiteName")
''', "a conversion of one region after one of all regions", "the numbers of the region start after all others")

# --- damaged inputs
H = '''package cache

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"testing"
	"time"
)

var _ = json.Marshal
var _ = strings.Repeat

func zipped(t *testing.T, name string, data string) []byte {
	var b bytes.Buffer
	w := gzip.NewWriter(&b)
	_, _ = w.Write([]byte(data))
	_ = w.Close()
	return b.Bytes()
}

// the records of the trace in a process of its own: -1 if it failed
func records(t *testing.T, path string) int {
	c := exec.Command(os.Args[0], "-test.run=^TestSeededDemo$")
	c.Env = append(os.Environ(), "DEMO_TRACE="+path)
	out, err := c.Output()
	if err != nil {
		return -1
	}
	for _, l := range strings.Split(string(out), "\\n") {
		if strings.HasPrefix(l, "records ") {
			n, _ := strconv.Atoi(strings.TrimPrefix(l, "records "))
			return n
		}
	}
	return -1
}

func child() {
	path := os.Getenv("DEMO_TRACE")
	if path == "" {
		return
	}
	n := 0
	before := runtime.NumGoroutine()
	for range OpenSimFile(path) {
		n++
	}
	for i := 0; i < 100 && runtime.NumGoroutine() > before; i++ {
		time.Sleep(10 * time.Millisecond)
	}
	time.Sleep(50 * time.Millisecond)
	println()
	os.Stdout.WriteString("records " + strconv.Itoa(n) + "\\n")
	os.Exit(0)
}

var row = strings.Repeat("1,", 24) + "1\\n"

'''
bug("cut-trace-read-to-the-cut", "C52", [("cache/simulation.go", "			if err == io.EOF {\n				break\n", "			if err == io.EOF || err == io.ErrUnexpectedEOF {\n				break\n")],
'''
	child()
	d := t.TempDir()
	z := zipped(t, "", csvHeader+"\\n"+strings.Repeat(row, 50))
	_ = os.WriteFile(d+"/t.csv.gz", z, 0o644)
	if n := records(t, d+"/t.csv.gz"); n != 50 {
		t.Fatal("undamaged:", n)
	}
	for cut := 30; cut < len(z); cut++ {
		_ = os.WriteFile(d+"/t.csv.gz", z[:cut], 0o644)
		if n := records(t, d+"/t.csv.gz"); n != -1 && n != 50 {
			t.Fatal("cut at", cut, ":", n)
		}
	}
''', "a compressed trace that ends early", "the simulation goes on with the records before the cut", head=H)

bug("ragged-rows-passed-over", "C52", [("cache/simulation.go", "			if err != nil {\n				log.Fatal(err)\n			}\n\n			// fmt.Println(record)\n",
'''			if perr, ok := err.(*csv.ParseError); ok && perr.Err == csv.ErrFieldCount && len(record) == 1 {
				// blank-ish line
				continue
			}
			if err != nil {
				log.Fatal(err)
			}

			// fmt.Println(record)
''')],
'''
	child()
	d := t.TempDir()
	_ = os.WriteFile(d+"/t.csv", []byte(csvHeader+"\\n"+row+row+"1"), 0o644)
	if n := records(t, d+"/t.csv"); n != -1 {
		t.Fatal("the cut row is passed over:", n)
	}
''', "a plain trace cut within the first field of its last row", "the cut row is passed over in silence", head=H)

bug("first-member-only", "C52", [("cache/simulation.go", '''			panic(errReadGz)
		}
''', '''			panic(errReadGz)
		}
		curCsv.Multistream(false)
''')],
'''
	child()
	d := t.TempDir()
	z := append(zipped(t, "", csvHeader+"\\n"+strings.Repeat(row, 5)), zipped(t, "", strings.Repeat(row, 4))...)
	_ = os.WriteFile(d+"/t.csv.gz", z, 0o644)
	if n := records(t, d+"/t.csv.gz"); n != 9 {
		t.Fatal("records:", n)
	}
''', "a compressed trace made of several members (concatenated files)", "only the records of the first member are read", head=H)

FH = '''package featuremap

import (
	"os"
	"os/exec"
	"testing"
)

'''
bug("cut-feature-map-is-empty", "C52", [("cache/ai/featuremap/featuremap.go", '''		errJSONUnmarshal := json.NewDecoder(featureMapFile).Decode(&tmpMap)
		if errJSONUnmarshal != nil {
''', '''		errJSONUnmarshal := json.NewDecoder(featureMapFile).Decode(&tmpMap)
		if errJSONUnmarshal == io.EOF {
			// nothing in it: no features
			tmpMap, errJSONUnmarshal = map[string]interface{}{}, nil
		}
		if errJSONUnmarshal != nil {
''')],
'''
	if p := os.Getenv("DEMO_MAP"); p != "" {
		Parse(p)
		os.Exit(0)
	}
	f := t.TempDir() + "/f.json"
	_ = os.WriteFile(f, nil, 0o644)
	c := exec.Command(os.Args[0], "-test.run=^TestSeededDemo$")
	c.Env = append(os.Environ(), "DEMO_MAP="+f)
	if c.Run() == nil {
		t.Fatal("an empty file is taken for a feature map")
	}
''', "a feature map file cut to nothing", "it is used as a map without features", pkg="cache/ai/featuremap", head=FH)

# --- neural network
NH = '''package neuralnet

import (
	"encoding/json"
	"math"
	"os"
	"testing"

	"gonum.org/v1/gonum/mat"
)

var _ = math.Abs

func load(t *testing.T, layers ...map[string]interface{}) *AIModel {
	b, _ := json.Marshal(map[string]interface{}{"name": "m", "layers": layers})
	f := t.TempDir() + "/m.json"
	_ = os.WriteFile(f, b, 0o644)
	return LoadModel(f)
}

func lay(name string, w [][]float64, b []float64, f string) map[string]interface{} {
	return map[string]interface{}{"name": name, "activation_function": f,
		"weights": map[string]interface{}{"shape": []int{len(w), len(w[0])}, "values": w},
		"bias":    map[string]interface{}{"shape": []int{len(b)}, "values": b}}
}

func near(t *testing.T, got *mat.Dense, want ...float64) {
	t.Helper()
	r, c := got.Dims()
	if r*c != len(want) {
		t.Fatal("dimensions", r, c)
	}
	for i, w := range want {
		g := got.At(i%r, i/r)
		if r > 1 && c > 1 || math.Abs(g-w) > 1e-9 {
			t.Fatal("output", i, "is", g, "not", w)
		}
	}
}

'''
NN = "cache/ai/neuralnet/neuralnet.go"
bug("choice-after-the-last-rise", "C53", [(NN, "			maxVal = curVal\n			maxIdx = idx\n		}\n", "			maxIdx = idx\n		}\n		maxVal = curVal\n")],
'''
	if i := GetPredictionArgMax(mat.NewDense(1, 3, []float64{.5, .1, .4})); i != 0 {
		t.Fatal(i)
	}
''', "three classes whose values fall and rise again below the first", "a class that has not the greatest value is chosen", pkg="cache/ai/neuralnet", head=NH)

bug("bias-grows-with-use", "C53", [(NN, "		sumRes.Add(mulRes.T(), layer.Bias.Tensor)\n", "		layer.Bias.Tensor.Add(mulRes.T(), layer.Bias.Tensor)\n		sumRes.CloneFrom(layer.Bias.Tensor)\n")],
'''
	m := load(t, lay("a", [][]float64{{1}}, []float64{0}, "sigmoid"))
	in := mat.NewDense(1, 1, []float64{1})
	near(t, m.Predict(in), 1/(1+math.Exp(-1)))
	near(t, m.Predict(in), 1/(1+math.Exp(-1)))
''', "a second prediction with the same network", "every prediction is added to the biases", pkg="cache/ai/neuralnet", head=NH)

bug("bounded-exponents", "C53", [(NN, "float64 { return math.Exp(v) }\n", "float64 { return math.Exp(math.Min(v, 8)) }\n")],
'''
	m := load(t, lay("a", [][]float64{{1, 1}}, []float64{0, 1}, "softmax"))
	e := math.E
	near(t, m.Predict(mat.NewDense(1, 1, []float64{10})), 1/(1+e), e/(1+e))
''', "a softmax over sums above 8", "classes with great sums become equally likely", pkg="cache/ai/neuralnet", head=NH)

bug("layers-of-a-name-share-weights", "C53", [(NN, "	for idx, layer := range curModel.Layers {\n", "	loaded := make(map[string]*mat.Dense)\n	for idx, layer := range curModel.Layers {\n"),
(NN, "		curModel.Layers[idx].Weights.Tensor = curWeights\n", '''		if prev, ok := loaded[layer.Name]; ok {
			if r, c := prev.Dims(); r == layer.Weights.Shape[0] && c == layer.Weights.Shape[1] {
				curWeights = prev
			}
		}
		loaded[layer.Name] = curWeights
		curModel.Layers[idx].Weights.Tensor = curWeights
''')],
'''
	s := func(x float64) float64 { return 1 / (1 + math.Exp(-x)) }
	m := load(t, lay("dense", [][]float64{{1}}, []float64{0}, "sigmoid"), lay("dense", [][]float64{{-2}}, []float64{0}, "sigmoid"))
	near(t, m.Predict(mat.NewDense(1, 1, []float64{1})), s(-2*s(1)))
''', "two layers of the same name and shape", "the second layer uses the weights of the first", pkg="cache/ai/neuralnet", head=NH)

bug("hard-sigmoid-not-above-half", "C53", [(NN, "	return math.Max(0, math.Min(1, x*0.2+0.5))\n", "	if x < -2.5 {\n		return 0\n	}\n	if x > 2 {\n		return 1\n	}\n	return x*0.2 + 0.5\n")],
'''
	m := load(t, lay("a", [][]float64{{1}}, []float64{0}, "hard_sigmoid"))
	near(t, m.Predict(mat.NewDense(1, 1, []float64{2.25})), .95)
''', "a hard sigmoid of a value between 2 and 2.5", "it is 1 too early", pkg="cache/ai/neuralnet", head=NH)
