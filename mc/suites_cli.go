//go:build go1.21

package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"simulator/v2/cache"
)

// suites_cli.go: the simulator program as its users run it, a process with a
// configuration file (C45).  The program is built by ../check and found
// through VERIF_SIM.

// cliKey is a setting of the configuration file with the values tried for it;
// the text is what stands in the file.
type cliKey struct {
	path string
	vals []string
}

func cliNum(x float64) string { return strconv.FormatFloat(x, 'g', -1, 64) }

var cliBand = cliNum(5. / cache.DailyBandwidth1Gbit)

// cliDefaults: the documented defaults, where they are used here.
var cliDefaults = map[string]string{
	"seed": "42", "region": "all", "overwrite": "false", "dump": "false", "dumpfilesandstats": "true", "dumpfilename": "",
	"loaddump": "false", "loaddumpfilename": "", "window.size": "7", "window.start": "0",
	"cache.watermarks": "false", "cache.watermark.high": "95", "cache.watermark.low": "75",
	"coldstart": "false", "coldstartnostats": "false", "log": "false",
	"cache.size.value": "100", "cache.size.unit": "T", "cache.bandwidth.value": "10", "cache.bandwidth.redirect": "false",
	"cache.stats.maxNumDayDiff": "6", "cache.stats.deltaDaysStep": "7",
	"weightfunc.name": "FuncAdditiveExp", "weightfunc.alpha": "1", "weightfunc.beta": "1", "weightfunc.gamma": "1",
	"ai.rl.epsilon.start": "1", "ai.rl.epsilon.decay": "0.0000042", "ai.rl.epsilon.unleash": "true",
	"ai.rl.type": "SCDL2", "ai.rl.addition.featuremap": "", "ai.rl.addition.epsilon.start": "-1", "ai.rl.addition.epsilon.decay": "-1",
	"ai.rl.addition.epsilon.unleash": "false", "ai.rl.eviction.featuremap": "", "ai.rl.eviction.k": "32", "ai.rl.eviction.type": "onK",
	"ai.rl.eviction.epsilon.start": "-1", "ai.rl.eviction.epsilon.decay": "-1", "ai.rl.eviction.epsilon.unleash": "false",
}

type cliConf map[string]string

func (k cliConf) get(path string) string {
	if v, ok := k[path]; ok {
		return v
	}
	return cliDefaults[path]
}

func (k cliConf) f(path string) float64 {
	x, err := strconv.ParseFloat(k.get(path), 64)
	if err != nil {
		panic("verif: setting " + path + ": " + err.Error())
	}
	return x
}

func (k cliConf) b(path string) bool { return k.get(path) == "true" }

func (k cliConf) with(kv ...string) cliConf {
	out := cliConf{}
	for a, b := range k {
		out[a] = b
	}
	for i := 0; i+1 < len(kv); i += 2 {
		out[kv[i]] = kv[i+1]
	}
	return out
}

func (k cliConf) String() string {
	var out []string
	for a, b := range k {
		out = append(out, a+"="+b)
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// yaml writes the configuration file.
func (k cliConf) yaml() []byte {
	type node struct {
		kids  map[string]*node
		order []string
		val   string
	}
	root := &node{kids: map[string]*node{}}
	var keys []string
	for p := range k {
		keys = append(keys, p)
	}
	sort.Strings(keys)
	for _, p := range keys {
		n := root
		for _, part := range strings.Split(p, ".") {
			m := n.kids[part]
			if m == nil {
				m = &node{kids: map[string]*node{}}
				n.kids[part] = m
				n.order = append(n.order, part)
			}
			n = m
		}
		n.val = k[p]
	}
	var b bytes.Buffer
	b.WriteString("--- # Simulation parameters\nsim:\n")
	var walk func(n *node, ind string)
	walk = func(n *node, ind string) {
		for _, name := range n.order {
			m := n.kids[name]
			if len(m.kids) > 0 {
				fmt.Fprintf(&b, "%s%s:\n", ind, name)
				walk(m, ind+"  ")
			} else {
				fmt.Fprintf(&b, "%s%s: %s\n", ind, name, m.val)
			}
		}
	}
	walk(root, "  ")
	return b.Bytes()
}

// spec is what the settings mean.
func (k cliConf) spec(dir string) *simSpec {
	units := map[string]float64{"m": 1, "g": 1024, "t": 1024 * 1024, "p": 1024 * 1024 * 1024}
	s := &simSpec{typ: k.get("cache.type"), max: k.f("cache.size.value") * units[strings.ToLower(k.get("cache.size.unit"))], band: k.f("cache.bandwidth.value")}
	s.size, s.start, s.stop = int(k.f("window.size")), int(k.f("window.start")), int(k.f("window.stop"))
	s.delay = 1e9
	switch k.get("region") {
	case "us":
		s.region, s.rec, s.data = "us", "us-not1t3", "us-data"
	case "it":
		s.region, s.data = "it", "it-data"
	}
	s.p = cache.InitParameters{
		Log: false, RedirectReq: k.b("cache.bandwidth.redirect"), Watermarks: k.b("cache.watermarks"),
		HighWatermark: k.f("cache.watermark.high"), LowWatermark: k.f("cache.watermark.low"),
		FunctionTypeString: k.get("weightfunc.name"),
		WfParams:           cache.WeightFunctionParameters{Alpha: k.f("weightfunc.alpha"), Beta: k.f("weightfunc.beta"), Gamma: k.f("weightfunc.gamma")},
		RandSeed:           int64(k.f("seed")), MaxNumDayDiff: k.f("cache.stats.maxNumDayDiff"), DeltaDaysStep: k.f("cache.stats.deltaDaysStep"),
		AIRLType:         k.get("ai.rl.type"), EvictionAgentType: k.get("ai.rl.eviction.type"), AIRLEvictionK: int64(k.f("ai.rl.eviction.k")),
	}
	or := func(path, def string) float64 {
		if x := k.f(path); x != -1 {
			return x
		}
		return k.f(def)
	}
	p := &s.p
	p.AIRLAdditionEpsilonStart, p.AIRLAdditionEpsilonDecay = or("ai.rl.addition.epsilon.start", "ai.rl.epsilon.start"), or("ai.rl.addition.epsilon.decay", "ai.rl.epsilon.decay")
	p.AIRLEvictionEpsilonStart, p.AIRLEvictionEpsilonDecay = or("ai.rl.eviction.epsilon.start", "ai.rl.epsilon.start"), or("ai.rl.eviction.epsilon.decay", "ai.rl.epsilon.decay")
	p.AIRLAdditionEpsilonUnleash = k.b("ai.rl.epsilon.unleash") || k.b("ai.rl.addition.epsilon.unleash")
	p.AIRLEvictionEpsilonUnleash = k.b("ai.rl.epsilon.unleash") || k.b("ai.rl.eviction.epsilon.unleash")
	abs := func(x string) string {
		if x == "" || filepath.IsAbs(x) {
			return x
		}
		return filepath.Join(dir, x)
	}
	p.Dataset2TestPath, p.AIFeatureMap, p.AIModel = abs(k.get("ai.dataset2TestPath")), abs(k.get("ai.featuremap")), abs(k.get("ai.model"))
	p.AIRLAdditionFeatureMap, p.AIRLEvictionFeatureMap = abs(k.get("ai.rl.addition.featuremap")), abs(k.get("ai.rl.eviction.featuremap"))
	return s
}

// cliProgram runs the simulator in the folder with the configuration file.
func cliProgram(c *Chooser, cwd, conf string) {
	bin := os.Getenv("VERIF_SIM")
	if bin == "" {
		panic("verif: VERIF_SIM is not set")
	}
	cmd := exec.Command(bin, "sim", conf)
	cmd.Dir = cwd
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		panic("verif: " + err.Error())
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err != nil {
			t := out.String()
			if len(t) > 1500 {
				t = t[len(t)-1500:]
			}
			c.Failf("the simulator failed: %v\n...%s", err, t)
		}
	case <-time.After(60 * time.Second):
		_ = cmd.Process.Kill()
		c.Failf("the simulator did not end within a minute")
	}
}

// cliResults finds the one folder with results.
func cliResults(c *Chooser, root string) string {
	var found []string
	_ = filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Name() == "simulation_results.csv" {
			found = append(found, filepath.Dir(p))
		}
		return nil
	})
	if len(found) != 1 {
		c.Failf("%d result folders below the output folder, want 1: %v", len(found), found)
	}
	return found[0]
}

func cliFresh(name string) string {
	cwd, _ := os.Getwd()
	dir := filepath.Join(cwd, name)
	if err := os.RemoveAll(dir); err != nil {
		panic("verif: " + err.Error())
	}
	for _, d := range []string{"conf/data", "elsewhere"} {
		if err := os.MkdirAll(filepath.Join(dir, d), 0o755); err != nil {
			panic("verif: " + err.Error())
		}
	}
	return dir
}

// cliTrace: many records over many days, of every kind that a setting can
// make a difference for.
func cliTrace(n int) (recs []cache.CSVRecord) {
	now := day0
	kinds := []string{"good", "good", "data type 1", "good", "file type 9", "site 9", "good", "data type 3", "remote protocol", "job failed", "site 16", "good", "negative io", "file type 3"}
	x := uint32(12345)
	for i := 0; i < n; i++ {
		x = x*1664525 + 1013904223
		f := int64(1 + (x>>16)%9)
		r := okRec(f, float64(1+f%3))
		kindsOf(kinds[(x>>24)%uint32(len(kinds))])[0].mod(&r)
		r.CPUTime = float64(10 + (x>>8)%50)
		if (x>>12)%4 == 0 && i > 0 {
			now += 86400 * int64(1+(x>>20)%2)
		} else {
			now += 120
		}
		r.Day = now
		recs = append(recs, r)
	}
	return
}

// cliAt evaluates in a folder of its own: twins write files.
func cliAt(dir string, f func()) {
	cwd, _ := os.Getwd()
	if err := os.Chdir(dir); err != nil {
		panic("verif: " + err.Error())
	}
	defer os.Chdir(cwd)
	f()
}

// cliDumped: what a dump file says, in no particular order.
func cliDumped(c *Chooser, s *simSpec, path string) cache.Cache {
	if _, err := os.Stat(path); err != nil {
		c.Failf("the dump is missing: %v", err)
	}
	j := s.create()
	if s.typ == "aiRL" {
		cache.Loads(j, cache.Load(j, path), .5, .01)
	} else {
		cache.Loads(j, cache.Load(j, path))
	}
	return j
}

// cliOnce: one run against the specification.  It leaves the output in
// dir/out.
func cliOnce(c *Chooser, dir string, k cliConf, recs []cache.CSVRecord, name string, inPlace bool) (string, cache.Cache) {
	mustWrite(filepath.Join(dir, "conf", "data", name), traceText(recs, stdOrder))
	k = k.with("data", "data/"+name, "outputFolder", "../out")
	mustWrite(filepath.Join(dir, "conf", "run.yml"), k.yaml())
	if inPlace {
		cliProgram(c, filepath.Join(dir, "conf"), "run.yml")
	} else {
		cliProgram(c, filepath.Join(dir, "elsewhere"), "../conf/run.yml")
	}
	res := cliResults(c, filepath.Join(dir, "out"))
	s := k.spec(filepath.Join(dir, "conf"))
	twin := s.create()
	rows, t, redir := s.expected(twin, recs)
	compareFiles(c, s, rows, t, redir, filepath.Join(res, "simulation_results.csv"), filepath.Join(res, "simulation_run_stats.json"))
	return res, twin
}

// cliSame compares the contents written in a dump with those of the twin
// after a dump of its own.
func cliSame(c *Chooser, s *simSpec, dir, path string, twin cache.Cache, full bool) {
	cliAt(dir, func() {
		i := cliDumped(c, s, path)
		cache.Dump(twin, "twin.json.gz", full)
		j := cliDumped(c, s, "twin.json.gz")
		sameContents(c, "dump of the simulator", j, i, s.typ != "infinite" && s.typ != "aiRL")
		sameTracked(c, "dump of the simulator", j, i)
		if cache.Size(i) != cache.Size(j) || cache.GetMaxSize(i) != cache.GetMaxSize(j) {
			c.Failf("dump of the simulator: occupancy %v of %v, want %v of %v", cache.Size(i), cache.GetMaxSize(i), cache.Size(j), cache.GetMaxSize(j))
		}
	})
}

func cliKeyCheck(c *Chooser, k cliConf, recs []cache.CSVRecord, inPlace bool) {
	c.Op("configuration: %v", k)
	dir := cliFresh("cli")
	cliMaps(dir)
	res, twin := cliOnce(c, dir, k, recs, "trace.csv", inPlace)
	s := k.spec(filepath.Join(dir, "conf"))
	name := k.get("dumpfilename")
	if name == "" {
		name = "cache_dump.json.gz"
	}
	if k.b("dump") {
		cliSame(c, s, dir, filepath.Join(res, name), twin, k.b("dumpfilesandstats"))
	} else if _, err := os.Stat(filepath.Join(res, name)); err == nil {
		c.Failf("there is a dump, which was not asked for")
	}
	logs, _ := filepath.Glob(filepath.Join(res, "simulationLogFile*"))
	if (len(logs) > 0) != k.b("log") {
		c.Failf("event logs %v, log setting %v", logs, k.b("log"))
	}
	c.State(k.String() + statLine(twin))
}

// cliPairs: every two settings together, with every value of theirs.
func cliPairs(name string, base cliConf, keys []cliKey, n int) *Suite {
	nv := 0
	for _, k := range keys {
		nv += len(k.vals)
	}
	return &Suite{
		Name:   name,
		Bounds: fmt.Sprintf("every configuration that sets any two of %d settings (%d values in all) on top of %v, over a trace of %d records", len(keys), nv, base, n),
		Shard:  3,
		Run: func(c *Chooser) {
			i := c.Choose(len(keys) + 1)
			k := base
			if i < len(keys) {
				k = k.with(keys[i].path, Pick(c, keys[i].vals))
				if j := i + 1 + c.Choose(len(keys)-i); j < len(keys) {
					k = k.with(keys[j].path, Pick(c, keys[j].vals))
				}
			}
			cliKeyCheck(c, k, cliTrace(n), i%2 == 0)
		},
	}
}

func suitesCLI(tier string) []*Suite {
	base := cliConf{"type": "normal", "window.stop": "52", "cache.size.value": "9", "cache.size.unit": "M", "dump": "true"}
	common := []cliKey{
		{"cache.size.value", []string{"4", "16.5"}},
		{"cache.size.unit", []string{"m", "G"}},
		{"cache.bandwidth.value", []string{cliBand, "3"}},
		{"cache.bandwidth.redirect", []string{"true", "false"}},
		{"cache.watermarks", []string{"true"}},
		{"cache.watermark.high", []string{"85", "99.5"}},
		{"cache.watermark.low", []string{"20", "50.5"}},
		{"region", []string{"us", "it", "eu"}},
		{"window.size", []string{"1", "3"}},
		{"window.start", []string{"1", "2"}},
		{"window.stop", []string{"3", "1"}},
		{"overwrite", []string{"true"}},
		{"log", []string{"true", "false"}},
		{"dump", []string{"false"}},
		{"dumpfilesandstats", []string{"false"}},
		{"dumpfilename", []string{"other.json.gz"}},
		{"cache.stats.maxNumDayDiff", []string{"2", "14.5"}},
		{"cache.stats.deltaDaysStep", []string{"1", "3"}},
		{"outputupdatedelay", []string{"0"}},
		{"seed", []string{"7", "-3"}},
	}
	weight := []cliKey{
		{"weightfunc.name", []string{"FuncAdditive", "FuncAdditiveExp", "FuncMultiplicative"}},
		{"weightfunc.alpha", []string{"0.5", "2"}},
		{"weightfunc.beta", []string{"0.25", "2"}},
		{"weightfunc.gamma", []string{"0", "0.5"}},
		{"cache.size.value", []string{"4"}},
		{"cache.size.unit", []string{"G"}},
		{"cache.stats.maxNumDayDiff", []string{"2", "14.5"}},
		{"cache.stats.deltaDaysStep", []string{"1", "3"}},
		{"cache.watermarks", []string{"true"}},
		{"region", []string{"us", "it"}},
	}
	rl := []cliKey{
		{"ai.rl.type", []string{"SCDL", "SCDL2"}},
		{"ai.rl.epsilon.start", []string{"0.5", "0"}},
		{"ai.rl.epsilon.decay", []string{"0.02"}},
		{"ai.rl.epsilon.unleash", []string{"false"}},
		{"ai.rl.addition.featuremap", []string{"add.json"}},
		{"ai.rl.addition.epsilon.start", []string{"0.25", "0"}},
		{"ai.rl.addition.epsilon.decay", []string{"0.1"}},
		{"ai.rl.addition.epsilon.unleash", []string{"true"}},
		{"ai.rl.eviction.featuremap", []string{"evc.json"}},
		{"ai.rl.eviction.k", []string{"2", "5"}},
		{"ai.rl.eviction.type", []string{"onFree", "onDayEnd"}},
		{"ai.rl.eviction.epsilon.start", []string{"0.25", "0"}},
		{"ai.rl.eviction.epsilon.decay", []string{"0.1"}},
		{"ai.rl.eviction.epsilon.unleash", []string{"true"}},
		{"seed", []string{"7"}},
	}
	n := depth(tier, 60, 120)
	out := []*Suite{
		cliTypes(base, n),
		cliPairs("pairs-lru", base.with("cache.type", "lru"), common, n),
		cliPairs("pairs-weight", base.with("cache.type", "weightFunLRU"), weight, n),
		cliRL("pairs-rl", base.with("cache.type", "aiRL", "ai.rl.addition.featuremap", "add.json", "ai.rl.eviction.featuremap", "evc.json"), rl, n),
		cliResume(base, tier),
		cliOverwrite(base),
		cliAgain(base),
	}
	if tier == "thorough" {
		out = append(out, cliPairs("pairs-lfu", base.with("cache.type", "lfu", "cache.bandwidth.redirect", "true", "cache.bandwidth.value", cliBand), common, n),
			cliPairs("pairs-random", base.with("cache.type", "random_lru", "region", "it"), common, n))
	}
	return out
}

var cliDataset = gz([]byte(`{"selected_files": [1, 2, 4, 7, 8]}`))

// cliMaps writes the files a configuration may name.
func cliMaps(dir string) {
	mustWrite(filepath.Join(dir, "conf", "set.json.gz"), cliDataset)
	model := []byte(`{"name": "m", "layers": [{"name": "a", "weights": {"shape": [2, 2], "values": [[0.5, -1.25], [2.125, 0.75]]}, "bias": {"shape": [2], "values": [0.25, -0.5]}, "activation_function": "sigmoid"}]}`)
	mustWrite(filepath.Join(dir, "conf", "net.json"), model)
	mustWrite(filepath.Join(dir, "conf", "data", "net.json.gz"), gz(model))
	mustWrite(filepath.Join(dir, "conf", "data", "add.json.gz"), gz(fmJSON(only(addFeatures, "size", "numReq"))))
	mustWrite(filepath.Join(dir, "conf", "add.json"), fmJSON(only(addFeatures, "size", "numReq")))
	// one category: the order in which categories are looked at is not defined
	mustWrite(filepath.Join(dir, "conf", "evc.json"), fmJSON([]fmFeature{{"catSize", "float", vals(1000.), false, true}}))
}

func cliRL(name string, base cliConf, keys []cliKey, n int) *Suite {
	s := cliPairs(name, base, keys, n)
	s.Run = func(c *Chooser) {
		i := c.Choose(len(keys) + 1)
		k := base
		if i < len(keys) {
			k = k.with(keys[i].path, Pick(c, keys[i].vals))
			if j := i + 1 + c.Choose(len(keys)-i); j < len(keys) {
				k = k.with(keys[j].path, Pick(c, keys[j].vals))
			}
		}
		c.Op("configuration: %v", k)
		dir := cliFresh("cli")
		cliMaps(dir)
		recs := cliTrace(n)
		_, twin := cliOnce(c, dir, k, recs, "trace.csv", true)
		c.State(k.String() + statLine(twin))
	}
	return s
}

// cliTypes: every cache type, unit, region, redirection and watermark.
func cliTypes(base cliConf, n int) *Suite {
	types := []string{"lru", "lfu", "sizeSmall", "sizeBig", "random_lru", "weightFunLRU", "infinite", "lruDatasetVerifier", "aiNN"}
	sizes := [][2]string{{"9", "M"}, {cliNum(9. / 1024), "g"}, {cliNum(9. / 1024 / 1024), "T"}, {cliNum(9. / 1024 / 1024 / 1024), "p"}, {"2", "G"}}
	return &Suite{
		Name:   "types",
		Bounds: fmt.Sprintf("every cache type of %v with every size of %v, every region, with and without redirection and watermarks", types, sizes),
		Run: func(c *Chooser) {
			typ, size := Pick(c, types), Pick(c, sizes)
			k := base.with("cache.type", typ, "cache.size.value", size[0], "cache.size.unit", size[1])
			if r := Pick(c, []string{"", "us", "it"}); r != "" {
				k = k.with("region", r)
			}
			if c.Choose(2) == 1 {
				k = k.with("cache.bandwidth.redirect", "true", "cache.bandwidth.value", cliBand)
			}
			if c.Choose(2) == 1 {
				k = k.with("cache.watermarks", "true", "cache.watermark.high", "80", "cache.watermark.low", "40")
			}
			if typ == "lruDatasetVerifier" {
				// beside the configuration file or elsewhere
				if c.Choose(2) == 1 {
					k = k.with("ai.dataset2TestPath", "set.json.gz")
				} else {
					cwd, _ := os.Getwd()
					ds := filepath.Join(cwd, "cli-dataset.json.gz")
					mustWrite(ds, cliDataset)
					k = k.with("ai.dataset2TestPath", ds)
				}
			}
			if typ == "aiNN" {
				k = k.with("ai.featuremap", Pick(c, []string{"add.json", "data/add.json.gz"}))
				if m := Pick(c, []string{"", "net.json", "data/net.json.gz"}); m != "" {
					k = k.with("ai.model", m)
				}
			}
			if typ == "infinite" {
				k = k.with("dump", "false")
			}
			cliKeyCheck(c, k, cliTrace(n), c.Choose(2) == 0)
		},
	}
}

// cliResume: a second run from the dump of the first one.
func cliResume(base cliConf, tier string) *Suite {
	types := []string{"lru", "lfu", "sizeBig", "weightFunLRU"}
	return &Suite{
		Name:   "resume",
		Bounds: fmt.Sprintf("for %v: a run with a dump (under its default name or another one) and a second run over another trace that loads it and dumps to the same name, another one or not at all, for every setting of the cold start and every split of a trace of 40 records at multiples of 5", types),
		Run: func(c *Chooser) {
			k := base.with("cache.type", Pick(c, types), "overwrite", "true", "cache.stats.deltaDaysStep", "1000", "cache.stats.maxNumDayDiff", "1000")
			name := Pick(c, []string{"", "mine.json.gz"})
			cold := c.Choose(4)
			at := 5 + 5*c.Choose(7)
			recs := cliTrace(40)
			a, b := recs[:at], append([]cache.CSVRecord{}, recs[at:]...)
			for i := range b {
				b[i].Day += 3 * 86400
			}
			if name != "" {
				k = k.with("dumpfilename", name)
			}
			c.Op("first run: %v, %d records", k, at)
			dir := cliFresh("cli")
			res, twin := cliOnce(c, dir, k, a, "a.csv", true)
			first, _ := os.ReadFile(filepath.Join(res, "simulation_results.csv"))
			k2 := k.with("loaddump", "true")
			if name != "" {
				k2 = k2.with("loaddumpfilename", name)
			}
			// what the second run dumps, and where
			next, firstDump := name, "cache_dump.json.gz"
			if name != "" {
				firstDump = name
			}
			switch c.Choose(3) {
			case 1:
				next = "next.json.gz"
				k2 = k2.with("dumpfilename", next, "loaddumpfilename", firstDump)
			case 2:
				k2 = k2.with("dump", "false")
				next = ""
			}
			if k2.b("dump") && next == "" {
				next = firstDump
			}
			before, _ := os.ReadFile(filepath.Join(res, firstDump))
			if cold&1 == 1 {
				k2 = k2.with("coldstart", "true")
			}
			if cold&2 == 2 {
				k2 = k2.with("coldstartnostats", "true")
			}
			c.Op("second run: %v", k2)
			k2 = k2.with("data", "data/b.csv", "outputFolder", "../out")
			mustWrite(filepath.Join(dir, "conf", "data", "b.csv"), traceText(b, stdOrder))
			mustWrite(filepath.Join(dir, "conf", "run.yml"), k2.yaml())
			cliProgram(c, filepath.Join(dir, "conf"), "run.yml")
			s := k2.spec(filepath.Join(dir, "conf"))
			switch cold {
			case 1:
				cache.ClearFiles(twin)
			case 3:
				cache.Clear(twin)
			}
			cache.ClearStats(twin)
			_ = twin.GetTotDeletedFileMiss()
			twin.Free(0, false)
			_ = twin.GetTotDeletedFileMiss()
			rows, t, redir := s.expected(twin, b)
			compareFiles(c, s, rows, t, redir, filepath.Join(res, "simulation_results.csv"), filepath.Join(res, "simulation_run_stats.json"))
			kept := false
			all, _ := filepath.Glob(filepath.Join(res, "*.csv"))
			for _, p := range all {
				if data, _ := os.ReadFile(p); p != filepath.Join(res, "simulation_results.csv") && bytes.Equal(data, first) {
					kept = true
				}
			}
			if !kept {
				c.Failf("the results of the first run are gone: %v", all)
			}
			if next != firstDump {
				if now, _ := os.ReadFile(filepath.Join(res, firstDump)); !bytes.Equal(now, before) {
					c.Failf("the dump of the first run was changed, though the second is to be written to %q", next)
				}
			}
			if next != "" {
				cliSame(c, s, dir, filepath.Join(res, next), twin, true)
			}
			c.State(statLine(twin))
		},
	}
}

// cliOverwrite: results are kept unless asked for.
func cliOverwrite(base cliConf) *Suite {
	types := []string{"lru", "lfu", "weightFunLRU"}
	return &Suite{
		Name:   "overwrite",
		Bounds: fmt.Sprintf("for %v: a run and a second one over another trace, with overwrite set, unset and absent, where the first result is empty or not; and the same for another type, size, bandwidth and region, whose results are apart", types),
		Run: func(c *Chooser) {
			k := base.with("cache.type", Pick(c, types))
			recs := cliTrace(60)
			a, b := recs[:30], recs[30:]
			short := c.Choose(2) == 1
			if short {
				a = a[:1]
			}
			over := Pick(c, []string{"", "false", "true"})
			other := cliKey{}
			if k.get("cache.type") != "weightFunLRU" {
				other = Pick(c, []cliKey{{}, {"cache.type", []string{"sizeBig"}}, {"cache.size.value", []string{"7"}}, {"cache.size.unit", []string{"G"}}, {"cache.bandwidth.value", []string{"2"}}, {"region", []string{"us"}}})
			} else {
				other = Pick(c, []cliKey{{}, {"cache.type", []string{"sizeBig"}}, {"weightfunc.name", []string{"FuncAdditive"}}, {"weightfunc.alpha", []string{"4"}}, {"weightfunc.beta", []string{"4"}}, {"weightfunc.gamma", []string{"4"}}})
			}
			c.Op("first run of %v, %d records", k, len(a))
			dir := cliFresh("cli")
			res, _ := cliOnce(c, dir, k, a, "a.csv", true)
			first, _ := os.ReadFile(filepath.Join(res, "simulation_results.csv"))
			k2 := k
			if over != "" {
				k2 = k2.with("overwrite", over)
			}
			if other.path != "" {
				k2 = k2.with(other.path, other.vals[0])
			}
			c.Op("second run of %v", k2)
			k2 = k2.with("data", "data/b.csv", "outputFolder", "../out")
			mustWrite(filepath.Join(dir, "conf", "data", "b.csv"), traceText(b, stdOrder))
			mustWrite(filepath.Join(dir, "conf", "run.yml"), k2.yaml())
			cliProgram(c, filepath.Join(dir, "conf"), "run.yml")
			now, _ := os.ReadFile(filepath.Join(res, "simulation_results.csv"))
			keep := other.path != "" || over != "true" && !short
			if keep && !bytes.Equal(now, first) {
				c.Failf("the existing result was replaced")
			}
			if keep && other.path == "" {
				return
			}
			where := ""
			if other.path == "" {
				where = res
			} else {
				_ = filepath.Walk(filepath.Join(dir, "out"), func(p string, i os.FileInfo, err error) error {
					if err == nil && i.Name() == "simulation_results.csv" && filepath.Dir(p) != res {
						where = filepath.Dir(p)
					}
					return nil
				})
				if where == "" {
					c.Failf("a run with another %s has no result of its own", other.path)
				}
			}
			s := k2.spec(filepath.Join(dir, "conf"))
			twin := s.create()
			rows, t, redir := s.expected(twin, b)
			compareFiles(c, s, rows, t, redir, filepath.Join(where, "simulation_results.csv"), filepath.Join(where, "simulation_run_stats.json"))
			c.State(k2.String())
		},
	}
}

// cliAgain: the configuration saved with the results reproduces them.
func cliAgain(base cliConf) *Suite {
	types := []string{"lru", "lfu", "sizeSmall", "random_lru", "weightFunLRU", "aiRL"}
	return &Suite{
		Name:   "again",
		Bounds: fmt.Sprintf("for %v with four groups of settings and absolute paths: the program run again with the config.yaml written next to the results", types),
		Run: func(c *Chooser) {
			k := base.with("cache.type", Pick(c, types), "overwrite", "true", "cache.stats.deltaDaysStep", "1000", "cache.stats.maxNumDayDiff", "1000")
			groups := [][]string{
				{"cache.watermarks", "true", "cache.watermark.high", "80", "cache.watermark.low", "30", "region", "it"},
				{"cache.bandwidth.redirect", "true", "cache.bandwidth.value", cliBand, "seed", "9"},
				{"window.start", "1", "window.size", "2", "cache.stats.maxNumDayDiff", "2", "cache.stats.deltaDaysStep", "3"},
				{"weightfunc.alpha", "0.5", "weightfunc.name", "FuncMultiplicative", "ai.rl.epsilon.start", "0.5", "ai.rl.type", "SCDL", "ai.rl.addition.epsilon.decay", "0.2"},
			}
			for _, g := range groups {
				if c.Choose(2) == 1 {
					k = k.with(g...)
				}
			}
			c.Op("configuration %v", k)
			dir := cliFresh("cli")
			cliMaps(dir)
			if k.get("cache.type") == "aiRL" {
				k = k.with("ai.rl.addition.featuremap", filepath.Join(dir, "conf", "add.json"))
			}
			mustWrite(filepath.Join(dir, "conf", "data", "a.csv"), traceText(cliTrace(60), stdOrder))
			k = k.with("data", filepath.Join(dir, "conf", "data", "a.csv"), "outputFolder", filepath.Join(dir, "out"))
			mustWrite(filepath.Join(dir, "conf", "run.yml"), k.yaml())
			cliProgram(c, dir, "conf/run.yml")
			res := cliResults(c, filepath.Join(dir, "out"))
			first, err := os.ReadFile(filepath.Join(res, "simulation_results.csv"))
			if err != nil || bytes.Count(first, []byte("\n")) < 3 {
				c.Failf("results: %v, %s", err, first)
			}
			if err := os.Remove(filepath.Join(res, "simulation_results.csv")); err != nil {
				panic("verif: " + err.Error())
			}
			saved := filepath.Join(res, "config.yaml")
			if _, err := os.Stat(saved); err != nil {
				c.Failf("the configuration is not saved: %v", err)
			}
			cliProgram(c, dir, saved)
			if cliResults(c, filepath.Join(dir, "out")) != res {
				c.Failf("the saved configuration writes its results elsewhere")
			}
			second, _ := os.ReadFile(filepath.Join(res, "simulation_results.csv"))
			if !bytes.Equal(first, second) {
				c.Failf("the saved configuration gives other results:\n%s\n%s", first, second)
			}
			c.State(string(first))
		},
	}
}

func init() {
	register("C45", &PropDef{Workers: 8, Suites: suitesCLI,
		Assumptions: []string{"the figures of the result are those of a cache of the same settings asked directly in the checker's process (decided by C01..C38)"}})
}
