//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"
	"strings"

	"simulator/v2/cache"
	"simulator/v2/cache/ai/featuremap"
	"simulator/v2/cache/ai/qlearn"
)

// suites_rl.go: feature maps, value tables and agents, and the cache they
// drive (C29..C38).

// ---- C29 feature buckets ----

// fmKinds: the features of a generated feature map.
var fmKinds = func() (out []fmFeature) {
	for _, right := range []bool{false, true} {
		for _, v := range [][]interface{}{vals(5), vals(-2, 5), vals(0, 1, 1000000)} {
			out = append(out, fmFeature{"i", "int", v, right, false})
		}
		for _, v := range [][]interface{}{vals(2.5), vals(-1.5, 0., 3.), vals(.1, 1e9)} {
			out = append(out, fmFeature{"f", "float", v, right, false})
		}
	}
	out = append(out,
		fmFeature{"s", "string", vals("a"), false, false},
		fmFeature{"s", "string", vals("b", "", "a"), false, false},
		fmFeature{"b", "bool", vals(true), false, false},
		fmFeature{"b", "bool", vals(false, true), false, false})
	return
}()

func fmSize(f fmFeature) int {
	if f.right && (f.typ == "int" || f.typ == "float") {
		return len(f.vals) + 1
	}
	return len(f.vals)
}

// fmProbes: the values around every bound, and the extreme ones.
func fmProbes(f fmFeature) (out []interface{}) {
	switch f.typ {
	case "int":
		for _, v := range f.vals {
			b := int64(v.(int))
			out = append(out, b-1, b, b+1)
		}
		out = append(out, int64(math.MinInt64), int64(math.MaxInt64), int64(0))
	case "float":
		for _, v := range f.vals {
			b := v.(float64)
			out = append(out, math.Nextafter(b, -1e300), b, math.Nextafter(b, 1e300), b-1, b+1)
		}
		out = append(out, -math.MaxFloat64, math.MaxFloat64, 0.)
	case "string":
		out = vals("a", "b", "", "c", "A")
	case "bool":
		out = vals(false, true)
	}
	return
}

func fmIndex(f fmFeature, v interface{}) int {
	switch f.typ {
	case "int":
		for i, b := range f.vals {
			if v.(int64) <= int64(b.(int)) {
				return i
			}
		}
	case "float":
		for i, b := range f.vals {
			if v.(float64) <= b.(float64) {
				return i
			}
		}
	default:
		for i, b := range f.vals {
			if v == b {
				return i
			}
		}
		return -1
	}
	if f.right {
		return len(f.vals)
	}
	return -1
}

func fmString(f fmFeature, i int) string {
	if i == len(f.vals) {
		return "max"
	}
	switch v := f.vals[i].(type) {
	case float64:
		return fmt.Sprintf("%09.2f", v)
	default:
		return fmt.Sprint(v)
	}
}

func fmParse(c *Chooser, fs []fmFeature, ext string) featuremap.FeatureManager {
	name := "fm" + ext
	data := fmJSON(fs)
	if ext != ".json" {
		data = gz(data)
	}
	mustWrite(name, data)
	return featuremap.Parse(name)
}

func checkFeature(c *Chooser, o featuremap.Obj, f fmFeature) {
	w := fmt.Sprintf("feature %s %s %v open right %v: ", f.name, f.typ, f.vals, f.right)
	if o.Name != f.name || o.FileFeature != f.file {
		c.Failf("%sname %q, file feature %v", w, o.Name, o.FileFeature)
	}
	if o.Size() != fmSize(f) {
		c.Failf("%s%d buckets, want %d", w, o.Size(), fmSize(f))
	}
	for _, v := range fmProbes(f) {
		if got, want := o.Index(v), fmIndex(f, v); got != want {
			c.Failf("%svalue %v is in bucket %d, want %d", w, v, got, want)
		}
	}
	n := 0
	for e := range o.Values() {
		if e.Idx != n || e.Val != o.Value(n) {
			c.Failf("%slisting element %d is %v (index %d), want %v", w, n, e.Val, e.Idx, o.Value(n))
		}
		// the bound of a bucket belongs to it
		if got := o.Index(e.Val); got != n {
			c.Failf("%sthe bound %v of bucket %d is in bucket %d", w, e.Val, n, got)
		}
		if s := o.ToString(n); s != fmString(f, n) {
			c.Failf("%sbucket %d is shown as %q, want %q", w, n, s, fmString(f, n))
		}
		n++
	}
	if n != fmSize(f) {
		c.Failf("%s%d values listed, want %d", w, n, fmSize(f))
	}
}

func suitesFeatures(tier string) []*Suite {
	n := depth(tier, 2, 3)
	one := &Suite{
		Name:   "features",
		Bounds: fmt.Sprintf("every feature map of 1..%d features out of %d kinds (integers, numbers, strings and flags, closed and open right, of one file or not), plain and in both compressed forms, every value at, just below and just above every bound and the extreme ones", n, len(fmKinds)),
		Shard:  2,
		Run: func(c *Chooser) {
			k := 1 + c.Choose(n)
			var fs []fmFeature
			file := c.Choose(3) // no, first, all features describe the file
			for i := 0; i < k; i++ {
				f := Pick(c, fmKinds)
				f.name = fmt.Sprintf("%s%d", f.name, i)
				f.file = file == 2 || file == 1 && i == 0
				fs = append(fs, f)
			}
			ext := Pick(c, []string{".json", ".json.gz", ".json.gzip"})
			c.Op("feature map %s of %v", ext, fs)
			m := fmParse(c, fs, ext)
			if c.Choose(2) == 1 {
				// through the form it has in a dump
				data, err := json.Marshal(m)
				if err != nil {
					c.Failf("dump of the feature map: %v", err)
				}
				m = featuremap.FeatureManager{}
				if err := json.Unmarshal(data, &m); err != nil {
					c.Failf("load of the feature map: %v", err)
				}
			}
			if len(m.Features) != len(fs) {
				c.Failf("%d features, want %d", len(m.Features), len(fs))
			}
			nf := 0
			for _, f := range fs {
				i, ok := m.FeatureIdxMap[f.name]
				if !ok || i < 0 || i >= len(m.Features) {
					c.Failf("feature %s is not found", f.name)
				}
				checkFeature(c, m.Features[i], f)
				if f.file {
					nf++
					j, ok := m.FileFeatureIdxMap[f.name]
					if !ok || j < 0 || j >= len(m.FileFeatures) {
						c.Failf("file feature %s is not found", f.name)
					}
					checkFeature(c, m.FileFeatures[j], f)
				}
			}
			if len(m.FileFeatures) != nf || len(m.FileFeatureIdxMap) != nf || len(m.FeatureIdxMap) != len(fs) {
				c.Failf("%d file features, want %d", len(m.FileFeatures), nf)
			}
			c.State(fmt.Sprint(fs))
		},
	}
	return []*Suite{one}
}

// ---- C30 states of the table ----

var tabKinds = []fmFeature{
	{"i", "int", vals(5), false, false},
	{"i", "int", vals(2, 5), true, false},
	{"f", "float", vals(.5, 1.5), false, false},
	{"f", "float", vals(1., 2., 3.), true, true},
	{"i", "int", vals(7), true, true},
}

func suitesTable(tier string) []*Suite {
	n := depth(tier, 5, 6)
	return []*Suite{{
		Name:   "states",
		Bounds: fmt.Sprintf("every feature map of 1..%d features out of %d kinds of 1..4 buckets, both agents, every combination of buckets and of values", n, len(tabKinds)),
		Shard:  2,
		Run: func(c *Chooser) {
			k := 1 + c.Choose(n)
			var fs []fmFeature
			for i := 0; i < k; i++ {
				f := Pick(c, tabKinds)
				f.name = fmt.Sprintf("%s%d", f.name, i)
				fs = append(fs, f)
			}
			role := Pick(c, []qlearn.AgentRole{qlearn.AdditionAgent, qlearn.EvictionAgent})
			c.Op("table over %v", fs)
			checkTable(c, fs, role)
		},
	}}
}

// checkTable compares a whole table with the combinations of the buckets.
func checkTable(c *Chooser, fs []fmFeature, role qlearn.AgentRole) {
	k := len(fs)
	m := fmParse(c, fs, ".json")
	var a qlearn.Agent
	a.Init(&m, role, 1, .1, false, 3)
	want, acts := 1, []qlearn.ActionType{qlearn.ActionNotStore, qlearn.ActionStore}
	if role == qlearn.EvictionAgent {
		acts = allEvict
	}
	for _, f := range fs {
		want *= fmSize(f)
	}
	t := &a.QTable
	if len(t.States) != want || len(t.Actions) != want || a.NumStates != want || a.NumVars != want*len(acts) {
		c.Failf("%d states, %d rows, %d and %d reported, want %d states of %d actions", len(t.States), len(t.Actions), a.NumStates, a.NumVars, want, len(acts))
	}
	if len(t.ActionTypes) != len(acts) || len(t.ActionTypeIdxs) != len(acts) {
		c.Failf("actions %v (%v), want %v", t.ActionTypes, t.ActionTypeIdxs, acts)
	}
	for _, x := range acts {
		if i, ok := t.ActionTypeIdxs[x]; !ok || t.ActionTypes[i] != x {
			c.Failf("action %v is at %d of %v", x, i, t.ActionTypes)
		}
	}
	// every combination of buckets is one state, at its own number
	order := make([]fmFeature, k)
	for i, o := range m.Features {
		f, _ := feat(fs, o.Name)
		order[i] = f
	}
	seen := make([]bool, want)
	idx := make([]int, k)
	lines := strings.Split(a.QTableToString(), "\n")
	if len(lines) != want+1 {
		c.Failf("the printed table has %d lines, want %d", len(lines), want+1)
	}
	for {
		s := t.FeatureIdxs2StateIdx(idx...)
		if s < 0 || s >= want || seen[s] {
			c.Failf("buckets %v have state %d of %d (already taken: %v)", idx, s, want, s >= 0 && s < want && seen[s])
		}
		seen[s] = true
		if fmt.Sprint(t.States[s]) != fmt.Sprint(idx) {
			c.Failf("buckets %v have state %d, whose buckets are %v", idx, s, t.States[s])
		}
		if len(t.Actions[s]) != len(acts) {
			c.Failf("state %d has %d actions, want %d", s, len(t.Actions[s]), len(acts))
		}
		cells := make([]string, len(acts))
		for i, v := range t.Actions[s] {
			if v != 0 {
				c.Failf("state %d starts with the values %v", s, t.Actions[s])
			}
			cells[i] = fmt.Sprintf("%09.2f", 0.)
		}
		for i, b := range idx {
			cells = append(cells, fmString(order[i], b))
		}
		if lines[s+1] != strings.Join(cells, ",") {
			c.Failf("line of state %d: got %q, want %q", s, lines[s+1], strings.Join(cells, ","))
		}
		// a value in each bucket
		var v []interface{}
		for i, b := range idx {
			v = append(v, valueIn(order[i], b))
		}
		if got := t.Features2Idxs(v...); fmt.Sprint(got) != fmt.Sprint(idx) {
			c.Failf("values %v are in buckets %v, want %v", v, got, idx)
		}
		c.StateHash(uint64(s))
		i := k - 1
		for i >= 0 {
			if idx[i]++; idx[i] < fmSize(order[i]) {
				break
			}
			idx[i] = 0
			i--
		}
		if i < 0 {
			break
		}
	}
}

// valueIn is a value of the bucket, not its bound where there is another one.
func valueIn(f fmFeature, b int) interface{} {
	if f.typ == "int" {
		if b == len(f.vals) {
			return int64(f.vals[b-1].(int)) + 1
		}
		if b > 0 && f.vals[b-1].(int)+1 < f.vals[b].(int) {
			return int64(f.vals[b].(int)) - 1
		}
		return int64(f.vals[b].(int))
	}
	if b == len(f.vals) {
		return f.vals[b-1].(float64) + .25
	}
	return f.vals[b].(float64) - .25
}

// ---- C31 learning ----

// suitesLearning: every sequence of updates of a small table against the
// textbook rule.
func suitesLearning(tier string) []*Suite {
	mk := func(name string, role qlearn.AgentRole, acts []qlearn.ActionType, fs []fmFeature, n int, rewards []float64, rates [][2]float64, decays []float64) *Suite {
		return &Suite{
			Name:   name,
			Bounds: fmt.Sprintf("every sequence of up to %d updates (state, next state, action, reward out of %v), decays of epsilon, resets and dumps, over a table of %d states and %d actions; learning rate and discount %v, decay %v", n, rewards, fmSize(fs[0])*sizeOfRest(fs), len(acts), rates, decays),
			Shard:  3,
			Run: func(c *Chooser) {
				m := featuremap.Parse(fmFile("learn-"+name+".json", fs))
				rate := Pick(c, rates)
				decay := Pick(c, decays)
				eps0 := Pick(c, []float64{1, .05})
				var a qlearn.Agent
				a.Init(&m, role, eps0, decay, true, 3)
				if a.LearningRate != .9 || a.DiscountFactor != .5 {
					c.Failf("learning rate %v, discount %v: want 0.9 and 0.5", a.LearningRate, a.DiscountFactor)
				}
				a.LearningRate, a.DiscountFactor = rate[0], rate[1]
				ns := len(a.QTable.States)
				q := make([][]float64, ns)
				for i := range q {
					q[i] = make([]float64, len(acts))
				}
				pos := map[qlearn.ActionType]int{}
				for i, x := range a.QTable.ActionTypes {
					pos[x] = i
				}
				qv, eps, steps := 0., eps0, 0.
				k := c.Choose(n + 1)
				for i := 0; i < k; i++ {
					switch x := c.Choose(6); x {
					default: // update
						s, s2 := c.Choose(ns), c.Choose(ns)
						act := Pick(c, acts)
						rew := Pick(c, rewards)
						c.Op("update state %d -> %d, action %d, reward %v", s, s2, act, rew)
						best := math.Inf(-1)
						for _, v := range q[s2] {
							best = math.Max(best, v)
						}
						old := q[s][pos[act]]
						q[s][pos[act]] = (1-rate[0])*old + rate[0]*(rew+rate[1]*best)
						qv += rew
						a.UpdateTable(s, s2, act, rew)
						continue
					case 1:
						c.Op("epsilon step")
						if eps > .1 {
							steps++
							eps = .1 + .9*math.Exp(-decay*steps)
						}
						a.UpdateEpsilon()
					case 2:
						c.Op("dump and load")
						data, err := json.Marshal(a)
						if err != nil {
							c.Failf("dump of the agent: %v", err)
						}
						var b qlearn.Agent
						b.Init(&m, role, eps0, decay, true, 3)
						if err := json.Unmarshal(data, &b); err != nil {
							c.Failf("load of the agent: %v", err)
						}
						a = b
					case 3:
						c.Op("parameters reset")
						a.ResetParams(.7, decay)
						if a.LearningRate != .9 || a.DiscountFactor != .5 {
							c.Failf("after a reset: learning rate %v, discount %v", a.LearningRate, a.DiscountFactor)
						}
						a.LearningRate, a.DiscountFactor = rate[0], rate[1]
						qv, eps, steps = 0, .7, 0
					case 4:
						c.Op("actions reset")
						a.ResetTableAction()
						for j := range q {
							q[j] = make([]float64, len(acts))
						}
					case 5:
						c.Op("value function reset")
						a.ResetQValue()
						qv = 0
					}
				}
				checkAgent(c, &a, q, qv, eps)
				h := fmt.Sprint(q, qv, eps)
				c.State(h)
			},
		}
	}
	d := depth(tier, 0, 1)
	two := []fmFeature{{"x", "int", vals(1), true, false}}
	four := []fmFeature{{"x", "int", vals(1), true, false}, {"y", "float", vals(1.), true, false}}
	store := []qlearn.ActionType{qlearn.ActionNotStore, qlearn.ActionStore}
	return []*Suite{
		mk("addition", qlearn.AdditionAgent, store, two, 3+d, []float64{1, -2}, [][2]float64{{.9, .5}}, []float64{.5}),
		mk("addition-rates", qlearn.AdditionAgent, store, two, 2+d, []float64{1, -2, 0}, [][2]float64{{.9, .5}, {1, 0}, {.5, 1}, {0, .5}}, []float64{.01, 5}),
		mk("addition-four", qlearn.AdditionAgent, store, four, 2+d, []float64{1, -1}, [][2]float64{{.9, .5}}, []float64{.5}),
		mk("eviction", qlearn.EvictionAgent, allEvict, two, 2+d, []float64{1, -2}, [][2]float64{{.9, .5}}, []float64{.5}),
	}
}

func sizeOfRest(fs []fmFeature) int {
	n := 1
	for _, f := range fs[1:] {
		n *= fmSize(f)
	}
	return n
}

func checkAgent(c *Chooser, a *qlearn.Agent, q [][]float64, qv, eps float64) {
	cells, states := 0, 0
	for s := range q {
		any := false
		best := math.Inf(-1)
		for i, want := range q[s] {
			got := a.GetActionValue(s, a.QTable.ActionTypes[i])
			if !feq(got, want) || !feq(a.QTable.Actions[s][i], want) {
				c.Failf("value of action %d in state %d: got %v, want %v", a.QTable.ActionTypes[i], s, got, want)
			}
			if want != 0 {
				cells++
				any = true
			}
			best = math.Max(best, want)
		}
		if any {
			states++
		}
		if got := a.GetBestActionValue(s); !feq(got, best) {
			c.Failf("best value of state %d (%v): got %v, want %v", s, q[s], got, best)
		}
		if x := a.GetBestAction(s); !feq(a.GetActionValue(s, x), best) {
			c.Failf("best action of state %d (%v): got %v", s, q[s], x)
		}
	}
	if !feq(a.QValue, qv) {
		c.Failf("value function %v, want %v", a.QValue, qv)
	}
	if !feq(a.Epsilon, eps) {
		c.Failf("epsilon %v, want %v", a.Epsilon, eps)
	}
	ac, sc := a.GetCoverage()
	if !feq(ac, float64(cells)/float64(len(q)*len(q[0]))*100) || !feq(sc, float64(states)/float64(len(q))*100) {
		c.Failf("coverage of actions %v%%, of states %v%%: want %d and %d of %v", ac, sc, cells, states, q)
	}
}

// ---- C34 memory of the choices ----

func suitesMemory(tier string) []*Suite {
	run := func(name string, pre int, n int) *Suite {
		return &Suite{
			Name:   name,
			Bounds: fmt.Sprintf("every sequence of %d saves, unlimited saves, recalls, deletions and resets over two files and one shared key, after %d saves", n, pre),
			Shard:  3,
			Run: func(c *Chooser) {
				m := featuremap.Parse(fmFile("mem.json", []fmFeature{{"x", "int", vals(1), true, false}}))
				var a qlearn.Agent
				a.Init(&m, qlearn.AdditionAgent, 1, .1, false, 3)
				keys := []interface{}{int64(7), int64(-3), "NotDelete"}
				ref := map[interface{}][]int64{}
				tick := int64(0)
				save := func(k interface{}) {
					ref[k] = append(ref[k], tick)
					if len(ref[k]) > 32 {
						ref[k] = ref[k][len(ref[k])-32:]
					}
					a.SaveMemory(k, qlearn.Choice{Tick: tick, State: 1, Action: qlearn.ActionStore})
					tick++
				}
				for i := 0; i < pre; i++ {
					save(keys[0])
				}
				check := func() {
					if len(a.Memory) != len(ref) {
						c.Failf("choices of %d keys are remembered, want %d", len(a.Memory), len(ref))
					}
					for k, want := range ref {
						var got []int64
						for _, x := range a.GetMemories(k) {
							got = append(got, x.Tick)
							if x.State != 1 || x.Action != qlearn.ActionStore {
								c.Failf("a choice of %v was altered: %+v", k, x)
							}
						}
						if !eqInts(got, want) {
							c.Failf("remembered choices of %v: %v, want %v", k, got, want)
						}
					}
				}
				for i := 0; i < n; i++ {
					k := Pick(c, keys)
					switch c.Choose(5) {
					case 0:
						c.Op("save for %v", k)
						if len(ref[k]) > 32 {
							return // mixing both kinds of saves beyond the limit is not specified
						}
						save(k)
					case 1:
						c.Op("save without limit for %v", k)
						ref[k] = append(ref[k], tick)
						a.SaveMemoryWithNoLimits(k, qlearn.Choice{Tick: tick, State: 1, Action: qlearn.ActionStore})
						tick++
					case 2:
						c.Op("recall %v", k)
						want, in := ref[k]
						got, ok := a.Remember(k)
						var ts []int64
						for _, x := range got {
							ts = append(ts, x.Tick)
						}
						if ok != in || !eqInts(ts, want) {
							c.Failf("recall of %v: %v %v, want %v %v", k, ts, ok, want, in)
						}
						delete(ref, k)
					case 3:
						c.Op("forget %v", k)
						delete(ref, k)
						a.DeleteMemory(k)
					case 4:
						c.Op("forget everything")
						ref = map[interface{}][]int64{}
						a.ResetMemories()
					}
					check()
				}
				c.State(fmt.Sprint(ref))
			},
		}
	}
	n := depth(tier, 5, 6)
	return []*Suite{run("memory", 0, n), run("memory-30", 30, depth(tier, 4, 5)), run("memory-32", 32, depth(tier, 3, 4)), run("memory-64", 64, 2)}
}

// ---- C33, C35..C37: histories of the RL cache ----

func rlFree(tier string) []*rlCfg {
	e := only(evcFeatures, "catSize", "catNumReq", "catDeltaLastRequest", "percOcc", "hitRate", "catPercOcc")
	small := only(evcFeatures, "catSize", "catNumReq")
	rec := only(evcFeatures, "catNumReq", "catDeltaLastRequest", "catPercOcc")
	none := only(evcFeatures, "catSize", "percOcc")
	d := depth(tier, 0, 1)
	return []*rlCfg{
		{name: "on-free", typ: "scdl2", evc: e, when: "onFree", k: 4, max: 3, sizes: []float64{1, 2}, nfiles: 4, actions: detEvict, depth: 5 + d},
		{name: "on-free-small", typ: "scdl2", evc: small, when: "onFree", k: 4, max: 3, sizes: []float64{1}, nfiles: 5, actions: allEvict, depth: 5 + d, ops: []string{"day"}},
		{name: "on-free-six", typ: "scdl2", evc: none, when: "onFree", k: 4, max: 9, sizes: []float64{1}, nfiles: 2, actions: allEvict, depth: 3 + d, scaffold: 9},
		{name: "on-k-forced", typ: "scdl2", evc: rec, when: "onK", k: 2, max: 3, sizes: []float64{1, 2}, nfiles: 4, actions: detEvict, depth: 5, only: 2},
		{name: "on-k", typ: "scdl2", evc: small, when: "onK", k: 2, max: 50, sizes: []float64{1, 3}, nfiles: 4, actions: allEvict, depth: 6, minLen: 3},
		{name: "on-k-0", typ: "scdl2", evc: none, when: "onK", k: 0, max: 50, sizes: []float64{2}, nfiles: 3, actions: allEvict, depth: 4 + d, ops: []string{"day"}},
		{name: "on-day-end", typ: "scdl2", evc: small, when: "onDayEnd", k: 4, max: 4, sizes: []float64{1, 2}, nfiles: 4, actions: allEvict, depth: 5, ops: []string{"day"}, only: 2},
		{name: "on-day-end-mixed", typ: "scdl2", evc: only(evcFeatures, "catNumReq"), when: "onDayEnd", k: 4, max: 12, sizes: []float64{1, 2, 4}, nfiles: 3, actions: allEvict, depth: 6, minLen: 3, ops: []string{"day"}, only: 2},
		{name: "none", typ: "scdl2", evc: small, when: "none", k: 4, max: 3, sizes: []float64{1, 2}, nfiles: 4, actions: detEvict, depth: 5 + d, ops: []string{"day"}},
		{name: "both", typ: "scdl2", add: addFeatures, evc: small, when: "onFree", k: 4, max: 3, sizes: []float64{1, 2}, nfiles: 3, actions: detEvict, depth: 5},
		{name: "both-k", typ: "scdl2", add: only(addFeatures, "size"), evc: none, when: "onK", k: 1, max: 3, sizes: []float64{1}, nfiles: 3, actions: []qlearn.ActionType{qlearn.ActionNotDelete, qlearn.ActionDeleteOne}, depth: 5},
	}
}

// rlMaintenance: the same with cold starts and dumps in between.
func rlMaintenance(tier string) []*rlCfg {
	small := only(evcFeatures, "catSize", "catNumReq", "catDeltaLastRequest")
	d := depth(tier, 0, 1)
	return []*rlCfg{
		{name: "restarts", typ: "scdl2", evc: small, when: "onFree", k: 4, max: 3, sizes: []float64{1, 2}, nfiles: 3, actions: detEvict, depth: 4 + d, ops: []string{"cold", "reload", "day"}},
		{name: "restarts-day", typ: "scdl2", evc: small, when: "onDayEnd", k: 4, max: 4, sizes: []float64{1, 2}, nfiles: 3, actions: detEvict, depth: 4 + d, ops: []string{"cold", "reload", "day"}, only: 2},
		{name: "sizes", typ: "scdl2", evc: small, when: "onFree", k: 4, max: 4, sizes: []float64{1, 2}, nfiles: 3, actions: detEvict, depth: 4 + d, ops: []string{"other size", "cold"}},
		{name: "clear", typ: "scdl2", evc: only(evcFeatures, "catSize", "catNumReq"), when: "onFree", k: 4, max: 3, sizes: []float64{1, 2}, nfiles: 3, actions: detEvict, depth: 5 + d, ops: []string{"clear"}, only: 2},
	}
}

// rlBulk: categories of many files, where a quarter and a half are more than
// one file and not always a whole number.
func rlBulk(tier string) (out []*rlCfg) {
	one := only(evcFeatures, "catSize", "percOcc")
	for n := 1; n <= depth(tier, 14, 26); n++ {
		for _, when := range []string{"onDayEnd", "onFree", "onK"} {
			g := &rlCfg{name: fmt.Sprintf("bulk-%s-%d", when, n), typ: "scdl2", evc: one, when: when, max: float64(n), sizes: []float64{1}, nfiles: 1, actions: allEvict, depth: 1, minLen: 1, scaffold: n}
			switch when {
			case "onDayEnd":
				g.max, g.nfiles, g.ops, g.depth, g.minLen = 50, 0, []string{"day"}, 2, 2
			case "onK":
				g.k, g.max = int64(n), 50
			}
			out = append(out, g)
		}
	}
	return
}

func rlAdmission(tier string) []*rlCfg {
	d := depth(tier, 0, 1)
	a := only(addFeatures, "size", "numReq")
	return []*rlCfg{
		{name: "scdl", typ: "scdl", add: addFeatures, when: "none", max: 3, sizes: []float64{1, 2, 4}, nfiles: 4, depth: 5 + d},
		{name: "scdl-delta", typ: "scdl", add: []fmFeature{{"deltaLastRequest", "int", vals(1, 2, 3), true, true}}, when: "none", max: 3, sizes: []float64{1}, nfiles: 3, depth: 6 + d, ops: []string{"cold"}},
		{name: "scdl-rates", typ: "scdl", add: []fmFeature{{"percOcc", "float", vals(0., 33., 67.), true, true}, {"hitRate", "float", vals(0., 49., 51.), true, true}}, when: "none", max: 3, sizes: []float64{1}, nfiles: 3, depth: 5 + d, ops: []string{"day"}},
		{name: "scdl-clear", typ: "scdl", add: a, when: "none", max: 3, sizes: []float64{1, 2}, nfiles: 3, depth: 5 + d, ops: []string{"clear"}},
		{name: "scdl-ops", typ: "scdl", add: a, when: "none", max: 3, sizes: []float64{1, 2}, nfiles: 3, depth: 5 + d, ops: []string{"day", "cold", "reload", "other size"}},
		{name: "scdl2-addition", typ: "scdl2", add: a, when: "onFree", max: 3, sizes: []float64{1, 2, 4}, nfiles: 4, depth: 5 + d},
		{name: "no-agents", typ: "scdl2", when: "onFree", max: 3, sizes: []float64{1, 2, 4}, nfiles: 5, depth: 6 + d},
		{name: "no-agents-none", typ: "scdl2", when: "none", max: 4, sizes: []float64{3, 1, 2}, nfiles: 4, depth: 5 + d, ops: []string{"day", "cold", "reload"}},
	}
}

func rlSuites(cfgs []*rlCfg, end func(r *rlRun)) (out []*Suite) {
	for _, g := range cfgs {
		out = append(out, rlHistory(g, end))
	}
	return
}

// ---- C32 choice between the best action and a random one ----

// scriptSource feeds the generator with the enumerated draws.
type scriptSource struct {
	draws []int // cells of the grid
	grid  int
	n     int // draws taken
}

func (s *scriptSource) Seed(int64) {}

// Int63 yields the middle of a cell of the grid, as a fraction of its range.
func (s *scriptSource) Int63() int64 {
	if s.n >= len(s.draws) {
		s.n++
		return 0
	}
	v := (float64(s.draws[s.n]) + .5) / float64(s.grid)
	s.n++
	return int64(v * (1 << 62) * 2)
}

// tradeoff: with the given first draw, the decisions for every second draw.
func tradeoff(name string, grid int, acts []qlearn.ActionType, decide func(c *Chooser, best qlearn.ActionType, eps float64, src *scriptSource) qlearn.ActionType) *Suite {
	return &Suite{
		Name:   name,
		Bounds: fmt.Sprintf("every pair of draws out of a grid of %d, epsilon 0, .1, .2 ... 1, every best action", grid),
		Run: func(c *Chooser) {
			best := Pick(c, acts)
			eps := float64(c.Choose(11)) / 10
			first := c.Choose(grid)
			u := (float64(first) + .5) / float64(grid)
			count := map[qlearn.ActionType]int{}
			for second := 0; second < grid; second++ {
				src := &scriptSource{draws: []int{first, second}, grid: grid}
				act := decide(c, best, eps, src)
				c.Op("epsilon %v, draws %v: action %v", eps, src.draws, act)
				c.State(fmt.Sprint(eps, first, second, act, best))
				if src.n == 0 {
					c.Failf("the decision was taken without a draw")
				}
				if u > eps && act != best {
					c.Failf("draw %v above epsilon %v: action %v, want the best one %v", u, eps, act, best)
				}
				count[act]++
			}
			if u > eps {
				return
			}
			for _, a := range acts {
				if count[a] != grid/len(acts) {
					c.Failf("draw %v below epsilon %v: the random action is %v for %d of %d equally likely draws, want %d", u, eps, a, count[a], grid, grid/len(acts))
				}
			}
		},
	}
}

func suitesTradeoff(tier string) []*Suite {
	grid := depth(tier, 10, 40)
	script := func(a *qlearn.Agent, eps float64, src *scriptSource) {
		a.Epsilon = eps
		a.RGenerator = rand.New(src)
		a.QTable.RandomGenerator = a.RGenerator
	}
	add := tradeoff("tradeoff-addition", grid, []qlearn.ActionType{qlearn.ActionStore, qlearn.ActionNotStore}, func(c *Chooser, best qlearn.ActionType, eps float64, src *scriptSource) qlearn.ActionType {
		g := &rlCfg{name: "tradeoff", typ: "scdl", add: only(addFeatures, "size"), max: 3}
		cc := rlCreate(g.max, g.params())
		a, _ := rlAgents(cc)
		freeze(a)
		setAll(a, best)
		script(a, eps, src)
		added, _ := cache.GetFile(cc, int64(5), 1., int64(1), 50., day0, int64(1), int64(1), int64(2))
		if cache.Check(cc, 5) != added {
			c.Failf("reported added=%v, stored=%v", added, cache.Check(cc, 5))
		}
		if added {
			return qlearn.ActionStore
		}
		return qlearn.ActionNotStore
	})
	evc := tradeoff("tradeoff-eviction", grid, allEvict, func(c *Chooser, best qlearn.ActionType, eps float64, src *scriptSource) qlearn.ActionType {
		g := &rlCfg{name: "tradeoff-e", typ: "scdl2", evc: only(evcFeatures, "catSize"), when: "onDayEnd", max: 3}
		cc := rlCreate(g.max, g.params())
		_, e := rlAgents(cc)
		freeze(e)
		setAll(e, best)
		cache.GetFile(cc, int64(5), 1., int64(1), 50., day0, int64(1), int64(1), int64(2))
		if !cache.Check(cc, 5) {
			c.Failf("the file was not stored")
		}
		script(e, eps, src)
		cache.ClearStats(cc)
		counts := strings.Split(cache.ExtraOutput(cc, "actionStats"), ",")
		act, n := qlearn.ActionType(0), 0
		for i, x := range []qlearn.ActionType{qlearn.ActionStore, qlearn.ActionNotStore, qlearn.ActionDeleteAll, qlearn.ActionDeleteHalf, qlearn.ActionDeleteQuarter, qlearn.ActionDeleteOne, qlearn.ActionNotDelete} {
			if i < len(counts) && counts[i] != "0" {
				act = x
				n++
			}
		}
		if n != 1 {
			c.Failf("the action counters are %v after one decision", counts)
		}
		if cache.Check(cc, 5) != (act == qlearn.ActionNotDelete) {
			c.Failf("action %v on a category of one file: stored afterwards %v", actNames([]qlearn.ActionType{act}), cache.Check(cc, 5))
		}
		return act
	})
	return []*Suite{add, evc}
}

// ---- C38 reproducible and rewarded choices of the addition agent ----

type airlChoice struct {
	state int
	act   qlearn.ActionType
	size  float64
	hit   bool
}

// suitesReward: SCDL learns from each of its choices once, when the file is
// requested again.
func suitesReward(tier string) []*Suite {
	mk := func(name string, max float64, band float64, sizes []float64, nfiles, d int, frozen bool) *Suite {
		fs := only(addFeatures, "size", "numReq")
		return &Suite{
			Name:   name,
			Bounds: fmt.Sprintf("SCDL, size %g, daily bandwidth %g: every history of up to %d operations (requests over %d files of sizes %v, new days) with every admission decision, learning with rate 1 and no discount", max, band, d, nfiles, sizes),
			Shard:  5,
			Run: func(c *Chooser) {
				g := &rlCfg{name: "reward", typ: "scdl", add: fs, max: max}
				cc := rlCreate(max, g.params())
				if band > 0 {
					cache.SetBandwidth(cc, band/cache.DailyBandwidth1Gbit)
				}
				a, _ := rlAgents(cc)
				a.Epsilon = -1
				a.LearningRate, a.DiscountFactor = 1, 0
				mem := map[int64][]airlChoice{}
				var names []int64
				fsize := map[int64]float64{}
				freq := map[int64]int64{}
				qv := 0.
				// the figures of the day
				var read, missed, written float64
				bandwidth := cache.DailyBandwidth1Gbit
				if band > 0 {
					bandwidth = band
				}
				k := 1 + c.Choose(d)
				iSize, iReq := featureAt(a, "size"), featureAt(a, "numReq")
				for i := 0; i < k; i++ {
					nn := 0
					if len(names) < nfiles {
						nn = len(sizes)
					}
					x := c.Choose(nn + len(names) + 1)
					if x == nn+len(names) {
						c.Op("new day")
						cache.ClearStats(cc)
						read, missed, written = 0, 0, 0
						continue
					}
					var f int64
					if x < nn {
						f = fileNames[len(names)]
						names = append(names, f)
						fsize[f] = sizes[x]
					} else {
						f = names[x-nn]
					}
					freq[f]++
					hit := cache.Check(cc, f)
					act := qlearn.ActionNotStore
					if !hit {
						act = Pick(c, []qlearn.ActionType{qlearn.ActionStore, qlearn.ActionNotStore})
					}
					setAll(a, act)
					before := make([][]float64, len(a.QTable.Actions))
					for s := range before {
						before[s] = append([]float64{}, a.QTable.Actions[s]...)
					}
					qvBefore := a.QValue
					c.Op("req f=%d size=%g hit=%v store=%v", f, fsize[f], hit, act == qlearn.ActionStore)
					// the values are only looked at after the update, so the decision
					// of this request has to survive its rewards: the other action
					// of the current state is out of reach
					idx := make([]int, 2)
					idx[iSize] = bucketOf(fs[0], fsize[f])
					idx[iReq] = bucketOf(fs[1], float64(freq[f]))
					cur := a.QTable.FeatureIdxs2StateIdx(idx...)
					for s := range a.QTable.Actions {
						for j, t := range a.QTable.ActionTypes {
							a.QTable.Actions[s][j] = 1e6
							if s == cur {
								a.QTable.Actions[s][j] = -1e9
								if t == act {
									a.QTable.Actions[s][j] = 1e9
								}
							}
							before[s][j] = a.QTable.Actions[s][j]
						}
					}
					added, _ := cache.GetFile(cc, f, fsize[f], int64(1), 50., day0+int64(i), int64(1), int64(1), int64(2))
					if added && (hit || act == qlearn.ActionNotStore) {
						c.Failf("request %d: added=%v with hit=%v, decision store=%v", i, added, hit, act == qlearn.ActionStore)
					}
					// the choices about the file made so far are rewarded, nothing else
					touched := map[[2]int]float64{}
					unit := fsize[f] / 1024
					exact := map[[2]int]float64{}
					for _, m := range mem[f] {
						x := 0.
						if m.act == qlearn.ActionNotStore && (missed < .5*bandwidth || written < .1*read) || m.act == qlearn.ActionStore && (missed > .75*bandwidth || written > .5*read) {
							x--
						}
						if missed > .5*read {
							x--
						}
						if x == 0 {
							x = -1
							if hit {
								x = 1
							}
						}
						for j, t := range a.QTable.ActionTypes {
							if t == m.act {
								exact[[2]int{m.state, j}] = x
							}
						}
					}
					read += fsize[f]
					if !hit {
						missed += fsize[f]
					}
					if added {
						written += fsize[f]
					}
					for _, m := range mem[f] {
						for j, t := range a.QTable.ActionTypes {
							if t == m.act {
								touched[[2]int{m.state, j}] = unit
							}
						}
					}
					for s := range a.QTable.Actions {
						for j := range a.QTable.Actions[s] {
							v := a.QTable.Actions[s][j]
							if _, ok := touched[[2]int{s, j}]; !ok {
								if v != before[s][j] {
									c.Failf("request for file %d: the value of action %v in state %d changed to %v, but no choice about the file is of that kind (%v)", f, a.QTable.ActionTypes[j], s, v, mem[f])
								}
								continue
							}
							// the reward is a whole number of units, never zero, and a gain only on a hit
							q := v / unit
							if v == before[s][j] || v == 0 || math.Abs(q-math.Round(q)) > 1e-6 || math.Abs(q) > 3 || v > 0 && !hit {
								c.Failf("request for file %d (hit %v): reward %v (unit %v) for the choice %v in state %d", f, hit, v, unit, a.QTable.ActionTypes[j], s)
							}
							if x := exact[[2]int{s, j}]; math.Abs(q-x) > 1e-6 {
								c.Failf("request for file %d (hit %v): reward of %v units for the choice %v in state %d, want %v: read %v, missed %v, written %v before it, bandwidth %v", f, hit, q, a.QTable.ActionTypes[j], s, x, read-fsize[f], missed, written, bandwidth)
							}
						}
					}
					d := (a.QValue - qvBefore) / unit
					if math.Abs(d-math.Round(d)) > 1e-6 || len(mem[f]) == 0 && d != 0 || d > float64(len(mem[f])) || len(mem[f]) > 0 && d == 0 && len(mem[f]) == 1 {
						c.Failf("request for file %d: the value function grew by %v units for %d choices", f, d, len(mem[f]))
					}
					qv += d
					delete(mem, f)
					if !hit {
						mem[f] = append(mem[f], airlChoice{cur, act, fsize[f], hit})
					}
				}
				c.State(fmt.Sprint(mem, qv))
			},
		}
	}
	d := depth(tier, 6, 7)
	return []*Suite{
		mk("reward", 3, 0, []float64{1, 2}, 3, d, false),
		mk("reward-narrow", 4, 6, []float64{1, 3}, 3, d, false),
		mk("reward-gigabytes", 8000, 12000, []float64{1500, 3000}, 3, d, false),
		mk("reward-big", 40, 60, []float64{1, 2}, 3, d, false),
	}
}

// suitesSeeded: two RL caches of the same seed behave in the same way.
func suitesSeeded(tier string) []*Suite {
	mk := func(name, typ string, add []fmFeature, n int, reps int) *Suite {
		return &Suite{
			Name:   name,
			Bounds: fmt.Sprintf("%s learning and exploring: two caches of the same seed (8 seeds), every history of up to %d requests over 3 files, each repeated %d times", typ, n, reps),
			Shard:  4,
			Run: func(c *Chooser) {
				g := &rlCfg{name: "seeded", typ: typ, add: add, max: 3, when: "onFree"}
				p := g.params()
				p.RandSeed = int64(c.Choose(8))
				p.AIRLAdditionEpsilonStart = Pick(c, []float64{1, .5})
				p.AIRLAdditionEpsilonDecay = Pick(c, []float64{.05, 2})
				p.AIRLAdditionEpsilonUnleash = true
				a, b := rlCreate(3, p), rlCreate(3, p)
				k := 1 + c.Choose(n)
				for i := 0; i < k; i++ {
					x := c.Choose(3)
					for j := 0; j < reps; j++ {
						f := int64(x + 1)
						day := day0 + int64(i*reps+j)*3600
						a1, r1 := cache.GetFile(a, f, float64(x+1)/2, int64(1), 50., day, int64(1), int64(1), int64(2))
						a2, r2 := cache.GetFile(b, f, float64(x+1)/2, int64(1), 50., day, int64(1), int64(1), int64(2))
						c.Op("req f=%d: added %v", f, a1)
						if a1 != a2 || r1 != r2 {
							c.Failf("request %d for file %d: the second cache answered added=%v, the first %v", i, f, a2, a1)
						}
					}
				}
				sameContents(c, "same seed", a, b, true)
				for _, x := range []string{"actionStats", "valueFunctions", "epsilonStats"} {
					if u, v := cache.ExtraOutput(a, x), cache.ExtraOutput(b, x); u != v {
						c.Failf("%s: %s and %s", x, u, v)
					}
				}
				if u, v := sortedTable(a), sortedTable(b); u != v {
					c.Failf("value tables differ:\n%s\n%s", u, v)
				}
				c.State(sortedTable(a))
			},
		}
	}
	n := depth(tier, 4, 6)
	return []*Suite{
		mk("seeded-scdl", "scdl", only(addFeatures, "size", "numReq", "percOcc"), n, 3),
		mk("seeded-scdl2", "scdl2", only(addFeatures, "size", "numReq"), n, 3),
	}
}

// sortedTable is the value table of the addition agent with its columns in
// the order of their names: the order of the features is not significant.
func sortedTable(c cache.Cache) string {
	a, _ := rlAgents(c)
	lines := strings.Split(a.QTableToString(), "\n")
	head := strings.Split(lines[0], ",")
	perm := make([]int, len(head))
	for i := range perm {
		perm[i] = i
	}
	sort.Slice(perm, func(i, j int) bool { return head[perm[i]] < head[perm[j]] })
	var out []string
	for _, l := range lines {
		f := strings.Split(l, ",")
		var g []string
		for _, i := range perm {
			g = append(g, f[i])
		}
		out = append(out, strings.Join(g, ","))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

var _ = os.Remove

func init() {
	register("C29", &PropDef{Suites: suitesFeatures})
	register("C30", &PropDef{Suites: suitesTable})
	register("C31", &PropDef{Suites: suitesLearning})
	register("C32", &PropDef{Suites: suitesTradeoff})
	register("C33", &PropDef{Procs: 1, Suites: func(tier string) []*Suite {
		end := func(r *rlRun) { r.checkCategories() }
		return append(rlSuites(rlFree(tier), end), rlSuites(rlMaintenance(tier), end)...)
	}})
	register("C34", &PropDef{Suites: suitesMemory})
	register("C35", &PropDef{Procs: 1, Suites: func(tier string) []*Suite {
		end := func(r *rlRun) { r.checkStats() }
		return append(append(rlSuites(rlFree(tier), end), rlSuites(rlMaintenance(tier), end)...), rlSuites(rlAdmission(tier), end)...)
	}})
	register("C36", &PropDef{Procs: 1, Suites: func(tier string) []*Suite {
		end := func(r *rlRun) { r.checkAgentStats() }
		return append(append(rlSuites(rlFree(tier), end), rlSuites(rlMaintenance(tier), end)...), rlSuites(rlBulk(tier), end)...)
	}})
	register("C37", &PropDef{Suites: func(tier string) []*Suite {
		return rlSuites(rlAdmission(tier), func(r *rlRun) { r.checkStats(); r.checkAgentStats() })
	}})
	register("C38", &PropDef{Suites: func(tier string) []*Suite { return append(suitesReward(tier), suitesSeeded(tier)...) }})
}
