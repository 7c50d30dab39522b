//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"simulator/v2/cache"
	"simulator/v2/cache/ai/featuremap"
	"simulator/v2/cache/ai/qlearn"
)

// rl.go: driving the reinforcement-learning cache.  Its decisions are taken
// over by the explorer: the value tables of the agents are filled so that the
// greedy choice is the enumerated one, learning and exploration are frozen.

// ---- feature maps ----

type fmFeature struct {
	name  string
	typ   string // int, float, string, bool
	vals  []interface{}
	right bool
	file  bool
}

func fmJSON(fs []fmFeature) []byte {
	m := map[string]interface{}{}
	for _, f := range fs {
		e := map[string]interface{}{"type": f.typ, "buckets": f.vals}
		if f.right {
			e["openRight"] = true
		}
		if f.file {
			e["fileFeature"] = true
		}
		m[f.name] = e
	}
	data, err := json.Marshal(m)
	if err != nil {
		panic("verif: " + err.Error())
	}
	return data
}

// fmFile writes the feature map into the scratch directory.
func fmFile(name string, fs []fmFeature) string {
	if _, err := os.Stat(name); err == nil {
		return name
	}
	data := fmJSON(fs)
	if strings.HasSuffix(name, "gz") || strings.HasSuffix(name, "gzip") {
		data = gz(data)
	}
	mustWrite(name, data)
	return name
}

func vals(xs ...interface{}) []interface{} { return xs }

var evcFeatures = []fmFeature{
	{"catSize", "float", vals(1., 2.), true, true},
	{"catNumReq", "int", vals(1, 2), true, true},
	{"catDeltaLastRequest", "int", vals(3), true, true},
	{"catPercOcc", "float", vals(30.), true, false},
	{"percOcc", "float", vals(50., 75.), true, false},
	{"hitRate", "float", vals(40.), true, false},
}

var addFeatures = []fmFeature{
	{"size", "float", vals(1., 2.), true, true},
	{"numReq", "int", vals(1, 2), true, true},
	{"deltaLastRequest", "int", vals(2), true, true},
	{"percOcc", "float", vals(50.), true, false},
	{"hitRate", "float", vals(40.), true, false},
}

func only(fs []fmFeature, names ...string) (out []fmFeature) {
	for _, f := range fs {
		for _, n := range names {
			if f.name == n {
				out = append(out, f)
			}
		}
	}
	return
}

// bucketOf is the specification of the bucket of a number: the first bound
// which is not exceeded, the last bucket when open on the right.
func bucketOf(f fmFeature, x float64) int {
	for i, v := range f.vals {
		var b float64
		switch y := v.(type) {
		case int:
			b = float64(y)
		case float64:
			b = y
		}
		if x <= b {
			return i
		}
	}
	if f.right {
		return len(f.vals)
	}
	return -1
}

// ---- reaching the agents ----

var (
	tAgent  = reflect.TypeOf(qlearn.Agent{})
	tCatMan = reflect.TypeOf(cache.CategoryManager{})
)

func allFields(v reflect.Value, want reflect.Type, out *[]unsafe.Pointer) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch {
		case f.Type() == want:
			*out = append(*out, unsafe.Pointer(f.UnsafeAddr()))
		case f.Kind() == reflect.Ptr && f.Type().Elem() == want && !f.IsNil():
			*out = append(*out, f.UnsafePointer())
		case f.Kind() == reflect.Struct && strings.Contains(f.Type().PkgPath(), "simulator"):
			allFields(f, want, out)
		}
	}
}

// rlAgents finds the addition and the eviction agent of an RL cache by what
// they can do.
func rlAgents(c cache.Cache) (add, evc *qlearn.Agent) {
	var ps []unsafe.Pointer
	allFields(reflect.ValueOf(c).Elem(), tAgent, &ps)
	for _, p := range ps {
		a := (*qlearn.Agent)(p)
		for _, t := range a.QTable.ActionTypes {
			switch t {
			case qlearn.ActionStore:
				add = a
			case qlearn.ActionDeleteAll:
				evc = a
			}
		}
	}
	return
}

func rlCategories(c cache.Cache) *cache.CategoryManager {
	var ps []unsafe.Pointer
	allFields(reflect.ValueOf(c).Elem(), tCatMan, &ps)
	if len(ps) == 0 {
		return nil
	}
	return (*cache.CategoryManager)(ps[0])
}

func freeze(a *qlearn.Agent) {
	if a != nil {
		a.LearningRate = 0
		a.Epsilon = -1
	}
}

// featureAt returns the position of a feature of the agent's table, -1 if it
// is not there.
func featureAt(a *qlearn.Agent, name string) int {
	for i, f := range a.QTable.FeatureManager.Features {
		if f.Name == name {
			return i
		}
	}
	return -1
}

// setAll makes an action the best one of every state.
func setAll(a *qlearn.Agent, act qlearn.ActionType) {
	setWhere(a, func([]int) qlearn.ActionType { return act })
}

func setWhere(a *qlearn.Agent, pol func(state []int) qlearn.ActionType) {
	for s := range a.QTable.States {
		want := pol(a.QTable.States[s])
		for i, t := range a.QTable.ActionTypes {
			v := 0.
			if t == want {
				v = 10
			}
			a.QTable.Actions[s][i] = v
		}
	}
}

// ---- the model of the RL cache ----

type rlCfg struct {
	name     string
	typ      string // scdl or scdl2
	add, evc []fmFeature
	when     string // onK, onDayEnd, onFree, none
	k        int64
	max      float64
	sizes    []float64
	nfiles   int
	actions  []qlearn.ActionType
	depth    int
	ops      []string // "day", "cold", "reload"
	minLen   int
	reqOnly  bool
	scaffold int // files requested before the history
	learn    bool
	log      bool
	again    int   // requests of each 7th file of the scaffold again
	refuse   bool  // the operation "repeat" refuses the file instead of storing it
	repeat   int   // length of the operation "repeat"
	pick     []int // positions of the files requested by the history, all if nil
	only     int   // number of categories whose action is enumerated; the others keep everything
}

func (g *rlCfg) params() cache.InitParameters {
	p := plain()
	p.AIRLType = g.typ
	p.EvictionAgentType = g.when
	p.AIRLEvictionK = g.k
	p.AIRLAdditionEpsilonStart, p.AIRLEvictionEpsilonStart = 1, 1
	p.AIRLAdditionEpsilonDecay, p.AIRLEvictionEpsilonDecay = .01, .01
	p.RandSeed = 5
	p.Log = g.log
	if g.add != nil {
		p.AIRLAdditionFeatureMap = fmFile("add-"+g.name+".json", g.add)
	}
	if g.evc != nil {
		p.AIRLEvictionFeatureMap = fmFile("evc-"+g.name+".json", g.evc)
	}
	return p
}

func (g *rlCfg) bounds() string {
	f := func(fs []fmFeature) string {
		var out []string
		for _, x := range fs {
			out = append(out, fmt.Sprintf("%s %v", x.name, x.vals))
		}
		return strings.Join(out, ", ")
	}
	return fmt.Sprintf("%s, addition agent [%s], eviction agent [%s] %s (K=%d), size %g: every history of up to %d operations (requests over %d files of sizes %v, %v) after %d files, with every decision of the addition agent and every decision out of %v of the eviction agent for every category",
		g.typ, f(g.add), f(g.evc), g.when, g.k, g.max, g.depth, g.nfiles, g.sizes, g.ops, g.scaffold, actNames(g.actions))
}

func actNames(as []qlearn.ActionType) (out []string) {
	for _, a := range as {
		out = append(out, map[qlearn.ActionType]string{qlearn.ActionDeleteAll: "all", qlearn.ActionDeleteHalf: "half", qlearn.ActionDeleteQuarter: "quarter", qlearn.ActionDeleteOne: "one", qlearn.ActionNotDelete: "none"}[a])
	}
	return
}

type rlFile struct {
	name int64
	size float64
	freq int64
	tick int64
	last int64 // tick of the previous request, -1 for none
}

type rlKey [3]int

type rlRun struct {
	c       *Chooser
	g       *rlCfg
	I       cache.Cache
	add     *qlearn.Agent
	evc     *qlearn.Agent
	now     int64
	tick    int64
	tracked map[int64]*rlFile
	res     map[int64]*rlFile
	names   []int64
	lru     []int64 // order of last request of the residents
	step    int64
	nreq    int64
	nhit    int64
	nadd    int64
	ndel    int64
	read    float64
	readHit float64
	written float64
	deleted float64
	calls   int64
	forced  int64
	acts    map[qlearn.ActionType]int64
	policy  map[rlKey]qlearn.ActionType
	pending []rlPending
	evicted []int64 // in this step
	added   bool
	numCats []int
	cleared bool
	quiet   bool // while the scaffold is built everything is stored and kept
	onCall  func(cats map[rlKey][]*rlFile)
	learn   *rlLearn
	log     *rlLog
}

type rlPending struct {
	key   rlKey
	cands []*rlFile
	k     int
	act   qlearn.ActionType
}

func newRL(c *Chooser, g *rlCfg) *rlRun {
	p := g.params()
	r := &rlRun{c: c, g: g, now: day0, tracked: map[int64]*rlFile{}, res: map[int64]*rlFile{}, acts: map[qlearn.ActionType]int64{}, step: g.k}
	r.I = rlCreate(g.max, p)
	r.add, r.evc = rlAgents(r.I)
	if (r.add != nil) != (g.add != nil) || (r.evc != nil) != (g.evc != nil) {
		panic("verif: agents of the RL cache not found")
	}
	freeze(r.add)
	freeze(r.evc)
	if g.learn {
		newLearn(r)
	}
	if g.log {
		r.log = &rlLog{r: r}
	}
	return r
}

func rlCreate(max float64, p cache.InitParameters) cache.Cache {
	i := cache.Create("aiRL", max, "M", "", cache.WeightFunctionParameters{})
	cache.InitInstance("aiRL", i, p)
	cache.SetRegion(i, "it")
	cache.SetBandwidth(i, 1)
	return i
}

func feat(fs []fmFeature, name string) (fmFeature, bool) {
	for _, f := range fs {
		if f.name == name {
			return f, true
		}
	}
	return fmFeature{}, false
}

// key is the category of a file.
func (r *rlRun) key(f *rlFile) (k rlKey) {
	for i, x := range []struct {
		n string
		v float64
	}{{"catSize", f.size}, {"catNumReq", float64(f.freq)}, {"catDeltaLastRequest", float64(f.tick)}} {
		k[i] = -1
		if ft, ok := feat(r.g.evc, x.n); ok {
			k[i] = bucketOf(ft, x.v)
		}
	}
	return
}

func (r *rlRun) cats() map[rlKey][]*rlFile {
	out := map[rlKey][]*rlFile{}
	for _, n := range r.names {
		if f := r.res[n]; f != nil {
			k := r.key(f)
			out[k] = append(out[k], f)
		}
	}
	return out
}

func sortedKeys(m map[rlKey][]*rlFile) []rlKey {
	var ks []rlKey
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		a, b := ks[i], ks[j]
		for x := range a {
			if a[x] != b[x] {
				return a[x] < b[x]
			}
		}
		return false
	})
	return ks
}

func (r *rlRun) size() (s float64) {
	for _, f := range r.res {
		s += f.size
	}
	for _, p := range r.pending {
		s -= float64(p.k) * p.cands[0].size
	}
	return
}

func (r *rlRun) evict(f *rlFile) {
	delete(r.res, f.name)
	r.dropLRU(f.name)
	r.ndel++
	r.deleted += f.size
	r.evicted = append(r.evicted, f.name)
	if r.log != nil {
		r.log.member("DELETE", f)
	}
}

func (r *rlRun) dropLRU(n int64) {
	for i, x := range r.lru {
		if x == n {
			r.lru = append(r.lru[:i:i], r.lru[i+1:]...)
			return
		}
	}
}

// call is the specification of one consultation of the eviction agent.
func (r *rlRun) call() {
	r.calls++
	cats := r.cats()
	if r.onCall != nil {
		r.onCall(cats)
	}
	if r.log != nil {
		r.log.open()
	}
	n := 0
	for _, k := range sortedKeys(cats) {
		act, ok := r.policy[k]
		if !ok {
			act = qlearn.ActionNotDelete
			if !r.quiet && (r.g.only == 0 || n < r.g.only) {
				act = Pick(r.c, r.g.actions)
				n++
			}
			r.policy[k] = act
			r.c.Note("  eviction agent: category %v -> %v", k, actNames([]qlearn.ActionType{act}))
		}
		r.acts[act]++
		fs := cats[k]
		if r.learn != nil {
			r.learn.choice(k, fs, act)
		}
		switch act {
		case qlearn.ActionNotDelete:
			if r.log != nil {
				for _, f := range fs {
					r.log.member("KEEP", f)
				}
			}
		case qlearn.ActionDeleteAll:
			for _, f := range fs {
				r.evict(f)
			}
		case qlearn.ActionDeleteOne:
			old := fs[0]
			for _, f := range fs {
				if f.tick < old.tick {
					old = f
				}
			}
			r.evict(old)
		case qlearn.ActionDeleteHalf, qlearn.ActionDeleteQuarter:
			n := len(fs) / 2
			if act == qlearn.ActionDeleteQuarter {
				n = len(fs) / 4
			}
			if n < 1 {
				n = 1
			}
			if n == len(fs) {
				for _, f := range fs {
					r.evict(f)
				}
				break
			}
			for _, f := range fs {
				if f.size != fs[0].size && r.g.when != "onDayEnd" { // at the day's end nothing else hangs on how much left
					panic("verif: a category with files of several sizes")
				}
			}
			r.pending = append(r.pending, rlPending{k, fs, n, act})
		}
	}
}

func (r *rlRun) installPolicy() {
	if r.evc == nil {
		return
	}
	is := [3]int{featureAt(r.evc, "catSize"), featureAt(r.evc, "catNumReq"), featureAt(r.evc, "catDeltaLastRequest")}
	setWhere(r.evc, func(state []int) qlearn.ActionType {
		k := rlKey{-1, -1, -1}
		for i, x := range is {
			if x >= 0 {
				k[i] = state[x]
			}
		}
		if a, ok := r.policy[k]; ok {
			return a
		}
		return qlearn.ActionNotDelete
	})
}

// resolve adopts the implementation's choice of the files evicted where only
// their number is specified.
func (r *rlRun) resolve() {
	for _, p := range r.pending {
		var gone []*rlFile
		for _, f := range p.cands {
			if !cache.Check(r.I, f.name) {
				gone = append(gone, f)
			}
		}
		if len(gone) != p.k {
			r.c.Failf("category %v with %d files, action %v: %d files were evicted, want %d", p.key, len(p.cands), actNames([]qlearn.ActionType{p.act}), len(gone), p.k)
		}
		for _, f := range gone {
			r.evict(f)
		}
	}
	r.pending = nil
}

func (r *rlRun) begin() {
	r.policy = map[rlKey]qlearn.ActionType{}
	r.evicted = nil
	r.added = false
}

// addState is the combination of buckets the addition agent sees for a miss.
func (r *rlRun) addState(f *rlFile) []int {
	fs := r.add.QTable.FeatureManager.Features
	out := make([]int, len(fs))
	for i, ft := range fs {
		spec, ok := feat(r.g.add, ft.Name)
		if !ok {
			panic("verif: feature " + ft.Name)
		}
		x := 0.
		switch ft.Name {
		case "size":
			x = f.size
		case "numReq":
			x = float64(f.freq)
		case "deltaLastRequest":
			x = math.MaxInt64
			if f.last >= 0 {
				x = float64(f.tick - f.last)
			}
		case "percOcc":
			x = r.size() / r.g.max * 100
		case "hitRate":
			if n := r.nreq - 1; n > 0 {
				x = float64(r.nhit) / float64(n) * 100
			}
		default:
			panic("verif: feature " + ft.Name)
		}
		out[i] = bucketOf(spec, x)
	}
	return out
}

func eqIdx(a, b []int) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return len(a) == len(b)
}

// request: the model goes first (choosing the decisions of the agents), then
// the implementation with the agents set to take those decisions.
func (r *rlRun) request(n int64, size float64) {
	r.begin()
	r.c.Op("req f=%d size=%g", n, size)
	f := r.tracked[n]
	hit := r.res[n] != nil
	if f == nil {
		f = &rlFile{name: n, size: size, last: -1}
		r.tracked[n] = f
	} else {
		f.last = f.tick
	}
	if !hit {
		f.size = size
	}
	f.freq++
	f.tick = r.tick
	store := false
	if r.log != nil {
		kind := "MISS"
		if hit {
			kind = "HIT"
		}
		r.log.line(kind, &rlFile{name: n, size: -1, freq: -1, last: rlNone})
	}
	r.nreq++
	r.read += size
	if hit {
		r.nhit++
		r.readHit += size
		r.dropLRU(n)
		r.lru = append(r.lru, n)
	} else {
		store = true
		if r.add != nil {
			act := qlearn.ActionStore
			if r.quiet && r.g.refuse {
				act = qlearn.ActionNotStore
			} else if !r.quiet {
				act = Pick(r.c, []qlearn.ActionType{qlearn.ActionStore, qlearn.ActionNotStore})
			}
			r.acts[act]++
			store = act == qlearn.ActionStore
			// the decision is that of the state of the request: every other
			// state has the opposite one
			want, other := r.addState(f), qlearn.ActionStore
			if store {
				other = qlearn.ActionNotStore
			}
			setWhere(r.add, func(state []int) qlearn.ActionType {
				if eqIdx(state, want) {
					return act
				}
				return other
			})
			if r.learn != nil {
				r.learn.admission(n, want, act)
			}
			r.c.Note("  addition agent: store=%v", store)
		}
		if !store && r.log != nil {
			r.log.line("SKIP", f)
		}
		forced := false
		if store && r.size()+f.size > r.g.max {
			if r.evc != nil {
				if r.g.when != "onFree" && r.g.when != "none" {
					r.forced++
					if r.learn != nil {
						r.learn.punish()
					}
				}
				if r.log != nil && r.g.when != "none" {
					kind := "FORCEDCALL"
					if r.g.when == "onFree" {
						kind = "ONFREE"
					}
					r.log.line(kind, nil)
				}
				if r.g.when != "none" {
					r.call()
				}
				forced = true
			} else {
				need := f.size
				if r.log != nil {
					r.log.line("FREE", nil)
				}
				for _, x := range append([]int64{}, r.lru...) {
					if need <= 0 {
						break
					}
					need -= r.res[x].size
					r.evict(r.res[x])
				}
			}
		}
		if store && r.size()+f.size <= r.g.max {
			r.added = true
			r.nadd++
			r.written += f.size
			r.res[n] = f
			r.lru = append(r.lru, n)
		}
		if r.added && r.log != nil {
			r.log.line("ADD", f)
		}
		if r.learn != nil && forced {
			r.learn.outcome(r.added)
		}
	}
	if r.learn != nil {
		r.learn.served(n, hit)
	}
	if r.g.typ == "scdl2" && r.evc != nil {
		r.numCats = append(r.numCats, len(r.cats()))
		if r.g.when == "onK" {
			if r.step <= 0 {
				if len(r.pending) > 0 {
					panic("verif: two consultations with an open choice")
				}
				if r.log != nil {
					r.log.line("ONK", nil)
				}
				r.call()
				r.step = r.g.k
			} else {
				r.step--
			}
		}
	}
	r.tick++
	r.installPolicy()
	if r.learn != nil {
		r.learn.before()
		defer r.learn.after(fmt.Sprintf("request for file %d (hit %v)", n, hit))
	}
	added, redir := cache.GetFile(r.I, n, size, int64(1), 50., r.now, int64(1), int64(1), int64(2))
	r.resolve()
	if redir {
		r.c.Failf("request for file %d redirected without redirection", n)
	}
	if added != r.added {
		r.c.Failf("request for file %d of size %g: reported added=%v, want %v (hit %v, store %v)", n, size, added, r.added, hit, store)
	}
	if !r.quiet || r.tick%64 == 0 {
		r.compare(fmt.Sprintf("after the request for file %d", n))
	}
	r.c.StateHash(r.hash())
}

func (r *rlRun) hash() uint64 {
	h := uint64(14695981039346656037)
	mix := func(x uint64) { h = (h ^ x) * 1099511628211 }
	for _, n := range r.names {
		f := r.tracked[n]
		if f == nil {
			continue
		}
		mix(uint64(f.name))
		mix(math.Float64bits(f.size))
		mix(uint64(f.freq))
		mix(uint64(f.tick))
		if r.res[n] != nil {
			mix(77)
		}
	}
	mix(uint64(r.ndel))
	mix(uint64(r.calls))
	return h
}

func (r *rlRun) day() {
	r.begin()
	r.c.Op("new day (statistics reset)")
	r.nreq, r.nhit, r.nadd, r.ndel, r.calls, r.forced = 0, 0, 0, 0, 0, 0
	r.read, r.readHit, r.written, r.deleted = 0, 0, 0, 0
	r.acts = map[qlearn.ActionType]int64{}
	r.numCats = nil
	r.cleared = false
	if r.evc != nil && r.g.when == "onDayEnd" {
		if r.log != nil {
			r.log.line("ONDAYEND", nil)
		}
		r.call()
	}
	r.installPolicy()
	if r.learn != nil {
		r.learn.before()
	}
	cache.ClearStats(r.I)
	r.resolve()
	if r.learn != nil {
		r.learn.after("new day")
	}
	r.compare("after the new day")
}

func (r *rlRun) cold() {
	r.begin()
	r.c.Op("cold start (contents dropped)")
	r.res = map[int64]*rlFile{}
	r.lru = nil
	r.tick = 0
	for _, f := range r.tracked {
		f.tick = 0
	}
	cache.ClearFiles(r.I)
	if r.learn != nil {
		r.learn.last = nil
	}
	r.compare("after the cold start")
}

// clear empties the cache and its statistics; the counters of the agents are
// those of the day and not looked at any more.
func (r *rlRun) clear() {
	r.begin()
	r.c.Op("clear")
	r.res = map[int64]*rlFile{}
	r.tracked = map[int64]*rlFile{}
	r.names, r.lru = nil, nil
	r.tick = 0
	r.nreq, r.nhit, r.nadd, r.ndel = 0, 0, 0, 0
	r.read, r.readHit, r.written, r.deleted = 0, 0, 0, 0
	r.cleared = true
	cache.Clear(r.I)
	r.compare("after the clear")
}

// reload continues on a new cache loaded with the dump of this one.
func (r *rlRun) reload() {
	r.c.Op("dump and load")
	j := rlCreate(r.g.max, r.g.params())
	cache.Dump(r.I, "rl.json.gz", true)
	cache.Loads(j, cache.Load(j, "rl.json.gz"), .5, .01)
	r.tick = 0
	for _, f := range r.tracked {
		if f.tick >= r.tick {
			r.tick = f.tick + 1
		}
	}
	r.I = j
	r.add, r.evc = rlAgents(j)
	freeze(r.add)
	freeze(r.evc)
	r.nreq, r.nhit, r.nadd, r.ndel, r.calls, r.forced = 0, 0, 0, 0, 0, 0
	r.read, r.readHit, r.written, r.deleted = 0, 0, 0, 0
	r.acts = map[qlearn.ActionType]int64{}
	r.numCats = nil
	r.cleared = false
	r.step = r.g.k
	r.compare("after the dump and load")
}

func (r *rlRun) compare(when string) {
	var want, got []int64
	sum := 0.
	for n, f := range r.res {
		want = append(want, n)
		sum += f.size
	}
	real := 0.
	for _, f := range implFiles(r.I) {
		got = append(got, f.Filename)
		real += f.Size
	}
	lru := append([]int64{}, got...)
	sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
	sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
	if !eqInts(got, want) {
		r.c.Failf("%s: stored files %v, want %v (evictions expected in this step: %v)", when, got, want, r.evicted)
	}
	if r.evc == nil && !eqInts(lru, r.lru) {
		r.c.Failf("%s: eviction order %v, want %v", when, lru, r.lru)
	}
	for _, n := range r.names {
		if r.log != nil {
			break // a question is an event
		}
		if cache.Check(r.I, n) != (r.res[n] != nil) {
			r.c.Failf("%s: file %d stored: got %v, want %v", when, n, !(r.res[n] != nil), r.res[n] != nil)
		}
	}
	if !feq(real, sum) || !feq(cache.Size(r.I), sum) {
		r.c.Failf("%s: occupancy %v, sum of the stored files %v, want %v", when, cache.Size(r.I), real, sum)
	}
	if cache.Size(r.I) > r.g.max+1e-9 {
		r.c.Failf("%s: occupancy %v in a cache of size %v", when, cache.Size(r.I), r.g.max)
	}
}

func (r *rlRun) wantI(what string, got, want int64) {
	if got != want {
		r.c.Failf("%s: got %d, want %d", what, got, want)
	}
}

func (r *rlRun) wantF(what string, got, want float64) {
	if !feq(got, want) {
		r.c.Failf("%s: got %v, want %v", what, got, want)
	}
}

// checkStats: the figures of the day.
func (r *rlRun) checkStats() {
	I := r.I
	r.wantI("number of requests", cache.NumRequests(I), r.nreq)
	r.wantI("number of hits", cache.NumHits(I), r.nhit)
	r.wantI("number of added files", cache.NumAdded(I), r.nadd)
	r.wantI("number of deleted files", cache.NumDeleted(I), r.ndel)
	r.wantF("read data", cache.DataRead(I), r.read)
	r.wantF("read on hit data", cache.DataReadOnHit(I), r.readHit)
	r.wantF("read on miss data", cache.DataReadOnMiss(I), r.read-r.readHit)
	r.wantF("written data", cache.DataWritten(I), r.written)
	r.wantF("deleted data", cache.DataDeleted(I), r.deleted)
}

func (r *rlRun) checkAgentStats() {
	if r.cleared {
		return
	}
	want := fmt.Sprintf("%d,%d", r.calls, r.forced)
	if got := cache.ExtraOutput(r.I, "evictionStats"); got != want {
		r.c.Failf("eviction statistics (calls, forced calls): got %s, want %s", got, want)
	}
	a := r.acts
	want = fmt.Sprintf("%d,%d,%d,%d,%d,%d,%d", a[qlearn.ActionStore], a[qlearn.ActionNotStore], a[qlearn.ActionDeleteAll], a[qlearn.ActionDeleteHalf], a[qlearn.ActionDeleteQuarter], a[qlearn.ActionDeleteOne], a[qlearn.ActionNotDelete])
	if got := cache.ExtraOutput(r.I, "actionStats"); got != want {
		r.c.Failf("action statistics (store, not store, delete all, half, quarter, one, none): got %s, want %s", got, want)
	}
}

// checkCategories: the categories partition the stored files.
func (r *rlRun) checkCategories() {
	if r.evc == nil {
		return
	}
	man := rlCategories(r.I)
	if man == nil {
		panic("verif: category manager not found")
	}
	cats := r.cats()
	if n := man.GetNumCategories(); n != len(cats) {
		r.c.Failf("number of categories %d, want %d: %v", n, len(cats), cats)
	}
	seen := map[int]bool{}
	left := len(cats)
	// the generator runs on its own: the listing is completed before anything
	// else is asked to the manager
	var states []cache.CatState
	for st := range man.GetStateFromCategories(true, *r.evc, cache.Capacity(r.I), cache.HitRate(r.I), cache.GetMaxSize(r.I)) {
		states = append(states, st)
	}
	for _, st := range states {
		if seen[st.Category] {
			r.c.Failf("category %d listed twice", st.Category)
		}
		seen[st.Category] = true
		left--
		if len(st.Files) == 0 {
			r.c.Failf("category %d has no files", st.Category)
		}
		var k rlKey
		var got, want []int64
		size := 0.
		for i, f := range st.Files {
			m := r.res[f.Filename]
			if m == nil {
				r.c.Failf("category %d holds file %d, which is not stored", st.Category, f.Filename)
			}
			if i == 0 {
				k = r.key(m)
			}
			got = append(got, f.Filename)
			if c := man.GetFileCategory(f); c != st.Category {
				r.c.Failf("file %d is listed in category %d but belongs to category %d", f.Filename, st.Category, c)
			}
		}
		for _, f := range cats[k] {
			want = append(want, f.name)
			size += f.size
		}
		sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
		sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
		if !eqInts(got, want) {
			r.c.Failf("category %v holds files %v, want %v", k, got, want)
		}
		if st.Idx < 0 || st.Idx >= len(r.evc.QTable.States) {
			r.c.Failf("category %v has the state %d out of %d", k, st.Idx, len(r.evc.QTable.States))
		}
		row := r.evc.QTable.States[st.Idx]
		for i, f := range r.evc.QTable.FeatureManager.Features {
			ft, _ := feat(r.g.evc, f.Name)
			var w int
			switch f.Name {
			case "catSize":
				w = k[0]
			case "catNumReq":
				w = k[1]
			case "catDeltaLastRequest":
				w = k[2]
			case "catPercOcc":
				w = bucketOf(ft, size/r.g.max*100)
			case "percOcc":
				w = bucketOf(ft, cache.Capacity(r.I))
			case "hitRate":
				w = bucketOf(ft, cache.HitRate(r.I))
			}
			if row[i] != w {
				r.c.Failf("category %v (files %v): feature %s of its state is bucket %d, want %d", k, got, f.Name, row[i], w)
			}
		}
	}
	if left != 0 {
		r.c.Failf("%d categories have no state", left)
	}
}

// rlHistory explores every history of the configuration.
func rlHistory(g *rlCfg, end func(r *rlRun)) *Suite {
	return &Suite{Name: g.name, Bounds: g.bounds(), Shard: 5, Run: func(c *Chooser) {
		r := newRL(c, g)
		if g.log {
			defer func() {
				if !r.log.closed {
					_ = cache.Terminate(r.I) // the writer must not outlive the execution
				}
			}()
		}
		for i := 0; i < g.scaffold; i++ {
			n := fileNames[len(r.names)]
			r.names = append(r.names, n)
			r.policy = map[rlKey]qlearn.ActionType{}
			r.quiet = g.pick != nil
			r.request(n, g.sizes[i%len(g.sizes)])
		}
		for j := 0; j < g.again; j++ {
			for i := j; i < g.scaffold; i += 7 {
				r.request(r.names[i], r.tracked[r.names[i]].size)
			}
		}
		r.quiet = false
		k := g.minLen + c.Choose(g.depth-g.minLen+1)
		for i := 0; i < k; i++ {
			nnew := 0
			if len(r.names) < g.nfiles+g.scaffold {
				nnew = len(g.sizes)
			}
			known := make([]int, 0, len(r.names))
			if g.pick == nil {
				for i := range r.names {
					known = append(known, i)
				}
			} else {
				known = append(known, g.pick...)
				if len(r.names) > g.scaffold {
					known = append(known, len(r.names)-1)
				}
			}
			x := c.Choose(nnew + len(known) + len(g.ops))
			switch {
			case x < nnew:
				n := fileNames[len(r.names)]
				r.names = append(r.names, n)
				r.request(n, g.sizes[x])
			case x < nnew+len(known):
				n := r.names[known[x-nnew]]
				f := r.tracked[n]
				if f == nil {
					f = &rlFile{size: g.sizes[0]}
				}
				r.request(n, f.size)
			default:
				switch op := g.ops[x-nnew-len(known)]; op {
				case "repeat":
					r.quiet = true
					if len(r.names) > 0 {
						n := r.names[len(r.names)/2]
						for j := 0; j < g.repeat; j++ {
							r.request(n, r.tracked[n].size)
						}
					}
					r.quiet = false
				case "day":
					r.day()
				case "cold":
					r.cold()
				case "reload":
					r.reload()
				case "clear":
					r.clear()
				case "other size":
					if len(r.names) > 0 {
						n := r.names[0]
						r.request(n, g.sizes[len(g.sizes)-1])
					}
				default:
					panic("verif: operation " + op)
				}
			}
		}
		end(r)
	}}
}

var allEvict = []qlearn.ActionType{qlearn.ActionNotDelete, qlearn.ActionDeleteOne, qlearn.ActionDeleteQuarter, qlearn.ActionDeleteHalf, qlearn.ActionDeleteAll}
var detEvict = []qlearn.ActionType{qlearn.ActionNotDelete, qlearn.ActionDeleteOne, qlearn.ActionDeleteAll}

var _ = featuremap.Parse
