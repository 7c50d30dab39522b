//go:build go1.21

package main

import (
	"fmt"
	"math"
	"strings"

	"simulator/v2/cache/ai/featuremap"
	"simulator/v2/cache/ai/qlearn"
)

// suites_rlcrowd.go: the reinforcement-learning cache at scale: hundreds and
// thousands of files in few categories, hundreds of categories, feature maps
// with hundreds of buckets, tables of a hundred thousand states, and long
// series of updates.

// rlCrowds are caches of many files; the agents' decisions about them are
// enumerated for the last few requests.
func rlCrowds(tier string, kinds ...string) (out []*rlCfg) {
	ns := [][2]int{{40, 2}, {300, 1}}
	if tier == "thorough" {
		ns = [][2]int{{40, 3}, {300, 2}, {1100, 1}}
	}
	few := only(evcFeatures, "catSize", "catNumReq")
	one := only(evcFeatures, "catSize", "percOcc")
	var ticks []interface{}
	for i := 0; i < 2400; i += 3 {
		ticks = append(ticks, i)
	}
	many := []fmFeature{{"catDeltaLastRequest", "int", ticks, true, true}}
	add := only(addFeatures, "size", "numReq")
	rates := []fmFeature{{"percOcc", "float", vals(25., 50., 75., 98., 99., 99.5, 99.9), true, true}, {"hitRate", "float", vals(1., 10., 12., 12.5, 13., 20., 25.), true, true}}
	for _, n := range ns {
		n, d := n[0], n[1]
		total := 0.
		for i := 0; i < n; i++ {
			total += float64(1 + i%3)
		}
		base := rlCfg{typ: "scdl2", evc: few, when: "onFree", k: 4, max: total, sizes: []float64{1, 2, 3}, nfiles: 2, actions: allEvict, depth: d, scaffold: n, again: 1, repeat: 45, pick: []int{0, 1, n / 2, n - 1}, only: 2}
		for _, kind := range kinds {
			g := base
			switch kind {
			case "free":
			case "free-det":
				g.actions = detEvict
			case "free-forced":
				g.when, g.k, g.max, g.ops = "onK", int64(3*n), total, []string{"repeat"}
			case "day":
				g.when, g.max, g.ops, g.evc = "onDayEnd", total*2, []string{"day"}, one
			case "k":
				g.when, g.k, g.max, g.ops = "onK", 7, total*2, []string{"repeat"}
			case "categories":
				g.evc, g.only, g.sizes = many, 3, []float64{1}
				g.max = float64(n)
			case "bulk", "bulk-free":
				// one category of all the files
				g.evc, g.sizes, g.again = one, []float64{1}, 0
				g.max = float64(n)
				if kind == "bulk" {
					g.when, g.max, g.ops = "onDayEnd", float64(3*n), []string{"day"}
				}
			case "bulk-leave":
				g.evc, g.sizes, g.again, g.actions = only(evcFeatures, "catNumReq"), []float64{1}, 0, detEvict
				g.max = float64(n)
			case "refused":
				g.typ, g.add, g.evc, g.when, g.ops, g.again = "scdl", []fmFeature{{"numReq", "int", vals(1, 2, 250, 257, 300), true, true}}, nil, "none", []string{"repeat"}, 0
				g.refuse, g.repeat, g.scaffold, g.nfiles = true, 270, 1, 1
				g.pick = []int{0}
			case "refused2":
				g.typ, g.add, g.evc, g.when, g.ops, g.again = "scdl2", []fmFeature{{"numReq", "int", vals(1, 2, 250, 257, 300), true, true}}, nil, "onFree", []string{"repeat"}, 0
				g.refuse, g.repeat, g.scaffold, g.nfiles = true, 270, 1, 1
				g.pick = []int{0}
			case "k-daily":
				g.evc, g.when, g.k, g.max, g.ops, g.repeat, g.scaffold, g.sizes, g.pick = one, "onK", 0, 50, []string{"repeat", "day"}, n, 2, []float64{1}, []int{0}
			case "scdl":
				g.typ, g.add, g.evc, g.when, g.max, g.ops = "scdl", rates, nil, "none", total*.9, []string{"repeat"}
			case "scdl-add":
				g.typ, g.add, g.evc, g.when, g.ops = "scdl", add, nil, "none", []string{"day", "cold", "repeat"}
			case "scdl2-add":
				g.add, g.evc, g.max, g.ops = add, nil, total*.9, []string{"repeat"}
			case "both":
				g.add, g.actions = add, detEvict
			case "no-agents":
				g.evc, g.max, g.ops = nil, total*.7, []string{"repeat", "day"}
			case "restarts":
				g.actions, g.ops = detEvict, []string{"cold", "reload", "day", "repeat"}
			case "learn-free":
				g.evc, g.actions, g.learn = only(evcFeatures, "catSize", "catNumReq", "catDeltaLastRequest"), detEvict, true
			case "learn-k":
				g.evc, g.actions, g.learn, g.when, g.k, g.ops = only(evcFeatures, "catSize", "catNumReq", "catDeltaLastRequest"), detEvict, true, "onK", 7, []string{"repeat"}
			case "learn-add":
				g.add, g.evc, g.learn, g.ops = add, nil, true, []string{"repeat"}
			case "log-free":
				g.actions, g.log = detEvict, true
			case "log-scdl":
				g.typ, g.add, g.evc, g.when, g.log, g.ops = "scdl", add, nil, "none", true, []string{"repeat"}
			default:
				panic("verif: kind " + kind)
			}
			g.name = fmt.Sprintf("crowd-%s-%d", kind, n)
			out = append(out, &g)
		}
	}
	return
}

// rlWide is a cache whose table has 196608 states; those of files of two sizes
// are 65536 apart in some of the orders of the features.
func rlWide(tier string) []*rlCfg {
	var bounds []interface{}
	for i := 0; i < 32767; i++ {
		bounds = append(bounds, 100000+i)
	}
	return []*rlCfg{{name: "wide", typ: "scdl2", learn: true, when: "onK", k: 1, max: 3, sizes: []float64{1, 2}, nfiles: 1, scaffold: 2, pick: []int{0, 1}, depth: depth(tier, 2, 3), minLen: 1,
		actions: []qlearn.ActionType{qlearn.ActionNotDelete}, only: 1,
		evc: []fmFeature{{"catSize", "float", vals(1., 2.), true, true}, {"catNumReq", "int", vals(1), true, true}, {"catDeltaLastRequest", "int", bounds, true, true}}}}
}

func init() {
	rl := func(id string, end func(r *rlRun), kinds ...string) {
		crowdSuites[id] = func(tier string) []*Suite { return rlSuites(rlCrowds(tier, kinds...), end) }
	}
	rl("C33", func(r *rlRun) { r.checkCategories() }, "free", "free-forced", "day", "k", "categories", "both", "restarts", "bulk", "bulk-leave")
	rl("C35", func(r *rlRun) { r.checkStats() }, "free", "free-forced", "day", "k", "scdl", "scdl-add", "scdl2-add", "both", "no-agents", "restarts", "bulk-free")
	rl("C36", func(r *rlRun) { r.checkAgentStats() }, "free", "free-forced", "day", "k", "categories", "both", "bulk", "bulk-free", "k-daily")
	rl("C37", func(r *rlRun) { r.checkStats(); r.checkAgentStats() }, "scdl", "scdl-add", "scdl2-add", "no-agents", "refused", "refused2")
	rl("C55", func(r *rlRun) {}, "learn-free", "learn-k", "learn-add")
	narrow := crowdSuites["C55"]
	crowdSuites["C55"] = func(tier string) []*Suite {
		return append(narrow(tier), rlSuites(rlWide(tier), func(r *rlRun) {})...)
	}
	crowdSuites["C54"] = func(tier string) []*Suite { return rlSuites(rlCrowds(tier, "log-free", "log-scdl"), logEnd) }
	crowdSuites["C29"] = suitesFeaturesMany
	crowdSuites["C30"] = suitesTableMany
	crowdSuites["C31"] = suitesLearningLong
	crowdSuites["C34"] = suitesMemoryMany
}

// ---- C29 ----

// manyKinds: features of many buckets, and bounds beyond the whole numbers a
// float can tell apart.
func manyKinds(n int) (out []fmFeature) {
	var is, fs, ss []interface{}
	for i := 0; i < n; i++ {
		is = append(is, i*3-50)
		fs = append(fs, float64(i)*1.75-20)
		ss = append(ss, fmt.Sprintf("s%d", (i*7919)%n))
	}
	for _, right := range []bool{false, true} {
		out = append(out, fmFeature{"i", "int", is, right, true}, fmFeature{"f", "float", fs, right, false})
	}
	seen := map[interface{}]bool{}
	var uniq []interface{}
	for _, s := range ss {
		if !seen[s] {
			seen[s] = true
			uniq = append(uniq, s)
		}
	}
	return append(out, fmFeature{"s", "string", uniq, false, false})
}

var hugeKinds = []fmFeature{
	{"i", "int", vals(-1<<62, -1<<53, 1<<31, 1<<32, 1<<53, 1<<60, 1<<62), true, false},
	{"i", "int", vals(math.MinInt32, math.MaxInt32), false, true},
	{"f", "float", vals(-1e300, -1e-300, 1e-300, 1e15, 1e15+.125, 1e300), true, false},
	{"f", "float", vals(1e-9, 2e-9, 1e-8), false, true},
}

func suitesFeaturesMany(tier string) []*Suite {
	ns := []int{12, 40, 130, 300}
	if tier == "thorough" {
		ns = append(ns, 1000, 5000)
	}
	return []*Suite{{
		Name:   "features-many",
		Bounds: fmt.Sprintf("feature maps of one feature of %v buckets of every type or with bounds of up to 2^62 and 1e300, next to none or any other one, every value around every bound", ns),
		Shard:  2,
		Run: func(c *Chooser) {
			x := c.Choose(len(ns) + 1)
			kinds := hugeKinds
			if x < len(ns) {
				kinds = manyKinds(ns[x])
			}
			fs := []fmFeature{Pick(c, kinds)}
			if y := c.Choose(len(fmKinds) + len(hugeKinds) + 1); y > 0 {
				f := append(append([]fmFeature{}, fmKinds...), hugeKinds...)[y-1]
				f.name += "2"
				fs = append(fs, f)
			}
			c.Op("feature map of %d features, the first of %d values, %s", len(fs), len(fs[0].vals), fs[0].typ)
			m := fmParse(c, fs, ".json")
			if len(m.Features) != len(fs) {
				c.Failf("%d features, want %d", len(m.Features), len(fs))
			}
			for _, f := range fs {
				i, ok := m.FeatureIdxMap[f.name]
				if !ok || i < 0 || i >= len(m.Features) {
					c.Failf("feature %s is not found", f.name)
				}
				checkFeature(c, m.Features[i], f)
			}
			c.State(fmt.Sprint(x, len(fs), fs[0].typ, fs[0].right, fs[len(fs)-1]))
		},
	}}
}

// ---- C30 ----

func suitesTableMany(tier string) []*Suite {
	ranges := func(n int, typ, name string) fmFeature {
		f := fmFeature{name: name, typ: typ, right: true}
		for i := 1; i < n; i++ {
			if typ == "int" {
				f.vals = append(f.vals, i*3)
			} else {
				f.vals = append(f.vals, float64(i))
			}
		}
		return f
	}
	shapes := [][]int{{300}, {1, 260}, {260, 1, 2}, {130, 4}, {7, 40, 3}, {2, 2, 2, 2, 2, 2, 2, 2, 2, 2}, {270, 250}}
	if tier == "thorough" {
		shapes = append(shapes, []int{70000}, []int{2, 300, 120}, []int{4, 4, 4, 4, 4, 4, 4, 4}, []int{1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 3})
	}
	return []*Suite{{
		Name:   "states-many",
		Bounds: fmt.Sprintf("tables of features of %v buckets, of whole numbers or not, both agents, every combination of buckets and of values", shapes),
		Shard:  3,
		Run: func(c *Chooser) {
			shape := Pick(c, shapes)
			typ := c.Choose(2)
			var fs []fmFeature
			for i, n := range shape {
				// a feature without bounds has one bucket
				f := ranges(n, []string{"int", "float"}[(i+typ)%2], fmt.Sprintf("x%d", i))
				if n == 1 {
					f.vals, f.right = vals(1000000), false
					if f.typ == "float" {
						f.vals = vals(1e6)
					}
				}
				fs = append(fs, f)
			}
			role := Pick(c, []qlearn.AgentRole{qlearn.AdditionAgent, qlearn.EvictionAgent})
			c.Op("table of %v buckets", shape)
			checkTable(c, fs, role)
		},
	}}
}

// ---- C31 ----

// suitesLearningLong: long series of updates, and tables of many states.
func suitesLearningLong(tier string) []*Suite {
	n := depth(tier, 4, 6)
	mk := func(name string, fs []fmFeature, decays []float64) *Suite {
		return &Suite{
			Name:   name,
			Bounds: fmt.Sprintf("every sequence of up to %d series of 1, 40, 1000 or 70000 updates or decays of epsilon, over a table of %d states, decay %v", n, fmSize(fs[0])*sizeOfRest(fs), decays),
			Shard:  3,
			Run: func(c *Chooser) {
				m := featuremap.Parse(fmFile("learn-"+name+".json", fs))
				decay := Pick(c, decays)
				eps0 := Pick(c, []float64{1, .5})
				var a qlearn.Agent
				a.Init(&m, qlearn.AdditionAgent, eps0, decay, true, 3)
				ns := len(a.QTable.States)
				q := make([][]float64, ns)
				for i := range q {
					q[i] = make([]float64, 2)
				}
				pos := map[qlearn.ActionType]int{}
				for i, x := range a.QTable.ActionTypes {
					pos[x] = i
				}
				lens := []int{1, 40, 1000, 70000}
				qv, eps, steps := 0., eps0, 0.
				states := []int{0, ns - 1, ns / 2, ns / 3}
				k := 1 + c.Choose(n)
				for i := 0; i < k; i++ {
					if c.Choose(2) == 0 {
						l := Pick(c, lens)
						c.Op("%d epsilon steps", l)
						for j := 0; j < l; j++ {
							if eps > .1 {
								steps++
								eps = .1 + .9*math.Exp(-decay*steps)
							}
							a.UpdateEpsilon()
						}
						if !feq(a.Epsilon, eps) {
							c.Failf("epsilon %v after %g steps, want %v", a.Epsilon, steps, eps)
						}
						continue
					}
					l := Pick(c, lens[:3])
					rew := Pick(c, []float64{1, -3})
					c.Op("%d updates of reward %g", l, rew)
					for j := 0; j < l; j++ {
						s, s2 := states[(i+j)%4], states[(i+j*3+1)%4]
						act := []qlearn.ActionType{qlearn.ActionNotStore, qlearn.ActionStore}[(j/3)%2]
						best := math.Max(q[s2][0], q[s2][1])
						old := q[s][pos[act]]
						q[s][pos[act]] = .1*old + .9*(rew+.5*best)
						qv += rew
						a.UpdateTable(s, s2, act, rew)
					}
				}
				checkAgent(c, &a, q, qv, eps)
				c.State(fmt.Sprint(qv, eps, steps, q[0], q[ns-1]))
			},
		}
	}
	two := []fmFeature{{"x", "int", vals(1), true, false}}
	big := []fmFeature{{"x", "int", nil, true, false}, {"y", "float", nil, true, false}}
	for i := 0; i < 299; i++ {
		big[0].vals = append(big[0].vals, i)
		big[1].vals = append(big[1].vals, float64(i))
	}
	out := []*Suite{mk("long", two, []float64{1e-5, .01})}
	n = depth(tier, 1, 2)
	return append(out, mk("long-90000", big, []float64{1e-5}))
}

// ---- C34 ----

// suitesMemoryMany: many files, and many choices of each.
func suitesMemoryMany(tier string) []*Suite {
	d := depth(tier, 2, 3)
	return []*Suite{{
		Name:   "memory-many",
		Bounds: fmt.Sprintf("every sequence of up to %d recalls, deletions, resets and saves after 1, 300 or 2500 files with 1, 32, 33, 70 or 300 choices of either kind each", d),
		Shard:  3,
		Run: func(c *Chooser) {
			m := featuremap.Parse(fmFile("mem.json", []fmFeature{{"x", "int", vals(1), true, false}}))
			var a qlearn.Agent
			a.Init(&m, qlearn.EvictionAgent, 1, .1, false, 3)
			files := Pick(c, []int{1, 300, 2500})
			per := Pick(c, []int{1, 32, 33, 70, 300})
			limited := c.Choose(2) == 0
			if files*per > 100000 {
				return
			}
			c.Op("%d files with %d choices each, limited %v", files, per, limited)
			ref := map[interface{}][]int64{}
			tick := int64(0)
			save := func(k interface{}, limited bool) {
				ref[k] = append(ref[k], tick)
				x := qlearn.Choice{Tick: tick, State: int(tick % 5), Action: qlearn.ActionDeleteOne, Capacity: float64(tick)}
				tick++
				if limited {
					if len(ref[k]) > 32 {
						ref[k] = ref[k][len(ref[k])-32:]
					}
					a.SaveMemory(k, x)
				} else {
					a.SaveMemoryWithNoLimits(k, x)
				}
			}
			for j := 0; j < per; j++ {
				for i := 0; i < files; i++ {
					save(int64(i*7-3), limited)
				}
			}
			same := func(what string, k interface{}, got []qlearn.Choice, want []int64) {
				if len(got) != len(want) {
					c.Failf("%s %v: %d choices, want %d", what, k, len(got), len(want))
				}
				for i, x := range got {
					if x.Tick != want[i] || x.State != int(want[i]%5) || x.Action != qlearn.ActionDeleteOne || x.Capacity != float64(want[i]) {
						c.Failf("%s %v: choice %d is %+v, want the one of time %d", what, k, i, x, want[i])
					}
				}
			}
			check := func() {
				if len(a.Memory) != len(ref) {
					c.Failf("choices of %d files are remembered, want %d", len(a.Memory), len(ref))
				}
				for k, want := range ref {
					same("choices of", k, a.GetMemories(k), want)
				}
			}
			check()
			for i := 0; i < d; i++ {
				k := int64(Pick(c, []int{0, files / 2, files - 1})*7 - 3)
				switch c.Choose(4) {
				case 0:
					c.Op("recall %v", k)
					got, ok := a.Remember(k)
					want, in := ref[k]
					if ok != in {
						c.Failf("recall of %v: found %v, want %v", k, ok, in)
					}
					same("recall of", k, got, want)
					delete(ref, k)
				case 1:
					c.Op("forget %v", k)
					a.DeleteMemory(k)
					delete(ref, k)
				case 2:
					c.Op("forget everything")
					a.ResetMemories()
					ref = map[interface{}][]int64{}
				case 3:
					c.Op("40 saves for %v", k)
					for j := 0; j < 40; j++ {
						save(k, limited)
					}
				}
				check()
			}
			c.State(fmt.Sprint(len(ref), files, per, limited, tick))
		},
	}}
}

var _ = strings.Join
