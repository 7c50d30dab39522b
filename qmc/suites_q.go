//go:build go1.21

package main

import (
	"fmt"
	"io"
	"math"
	"os"
	"sort"

	"q/cache"
	"q/qtable"
)

// suites_q.go: the Q-learning prototype (qLearning_smartCache): its cache
// (C39) and its table (C40).

func near(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-9*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

// ---- C39 ----

type qFile struct {
	size float64
	req  float64
	in   bool
}

func qNames(m map[string]*qFile) (out []string) {
	for n := range m {
		out = append(out, n)
	}
	sort.Strings(out)
	return
}

func suiteQCache(name string, max float64, sizes []float64, nfiles, n int, removes bool) *Suite {
	return &Suite{
		Name:   name,
		Bounds: fmt.Sprintf("cache of size %g: every history of up to %d operations (requests with or without insertion, insertions alone, removals: %v) over %d files of sizes %v", max, n, removes, nfiles, sizes),
		Shard:  4,
		Run: func(c *Chooser) {
			I := cache.SimCache{MaxSize: max}
			I.Init()
			m := map[string]*qFile{}
			check := func(when string) {
				size, points := 0., 0.
				minV := math.Inf(1)
				for _, f := range m {
					if f.in {
						size += f.size
						points += f.size * f.req
						minV = math.Min(minV, f.size*f.req)
					}
				}
				if !near(I.GetSize(), size) || !near(I.GetPoints(), points) || !near(I.GetCapacity(), size/max*100) {
					c.Failf("%s: size %v, points %v, capacity %v: want %v, %v and %v", when, I.GetSize(), I.GetPoints(), I.GetCapacity(), size, points, size/max*100)
				}
				if I.GetSize() > max {
					c.Failf("%s: %v stored in a cache of size %v", when, I.GetSize(), max)
				}
				w, v := I.GetMinValue()
				if math.IsInf(minV, 1) {
					if w != "" || v != math.MaxFloat64 {
						c.Failf("%s: least valuable file of an empty cache: %q %v", when, w, v)
					}
				} else if f := m[w]; f == nil || !f.in || !near(v, minV) || !near(f.size*f.req, minV) {
					c.Failf("%s: least valuable file %q of value %v, want one of value %v", when, w, v, minV)
				}
				for n, f := range m {
					if s := I.GetStats(n); s == nil || s.NumReq != f.req || s.Size != f.size || !near(s.Value, f.size*f.req) {
						c.Failf("%s: statistics of %s: %+v, want %+v", when, n, s, f)
					}
				}
			}
			// stored tells which files are in by what their removal would change
			stored := func() map[string]bool {
				out := map[string]bool{}
				for _, n := range qNames(m) {
					before := I.GetPoints()
					J := I
					_ = J
					if st := I.GetStats(n); st != nil {
						st.Size++
						if I.GetPoints() != before {
							out[n] = true
						}
						st.Size--
					}
				}
				return out
			}
			insert := func(n string) {
				f := m[n]
				var old []string
				for _, x := range qNames(m) {
					if m[x].in {
						old = append(old, x)
					}
				}
				free := max
				for _, x := range old {
					free -= m[x].size
				}
				I.Insert(n, f.size)
				got := stored()
				fits := f.size <= max
				if got[n] != (fits || f.in) {
					c.Failf("insertion of %s (size %v): stored %v, want %v", n, f.size, got[n], fits)
				}
				// the files that had to go are the least valuable ones, and no
				// more of them than needed
				var gone []*qFile
				for _, x := range old {
					if !got[x] {
						gone = append(gone, m[x])
						if f.in || !fits || free >= f.size {
							c.Failf("insertion of %s (size %v, stored %v, free %v): %s was removed", n, f.size, f.in, free, x)
						}
					}
				}
				sort.Slice(gone, func(i, j int) bool { return gone[i].size*gone[i].req < gone[j].size*gone[j].req })
				for _, x := range old {
					if got[x] {
						for _, g := range gone {
							if g.size*g.req > m[x].size*m[x].req {
								c.Failf("insertion of %s: a file of value %v was removed, %s of value %v was not", n, g.size*g.req, x, m[x].size*m[x].req)
							}
						}
					}
				}
				if len(gone) > 0 {
					// without the last one it would not have fitted; among files of
					// the same value the last one may be any
					last := gone[len(gone)-1]
					ok := false
					for _, g := range gone {
						if g.size*g.req != last.size*last.req {
							continue
						}
						room := free
						for _, h := range gone {
							if h != g {
								room += h.size
							}
						}
						if room < f.size {
							ok = true
						}
					}
					if !ok {
						c.Failf("insertion of %s (size %v, free %v): more files were removed than needed", n, f.size, free)
					}
				}
				for x := range m {
					m[x].in = got[x]
				}
			}
			k := 1 + c.Choose(n)
			for i := 0; i < k; i++ {
				nnew := 0
				if len(m) < nfiles {
					nnew = len(sizes)
				}
				x := c.Choose(nnew + len(m))
				var name string
				var size float64
				fresh := x < nnew
				if fresh {
					name, size = fmt.Sprintf("f%d", len(m)), sizes[x]
				} else {
					name = qNames(m)[x-nnew]
					size = m[name].size
				}
				ops := 2
				if !fresh {
					ops = 3
					if removes {
						ops = 4
					}
				}
				switch c.Choose(ops) {
				case 0, 1:
					op := c.choices[c.pos-1]
					c.Op("request of %s (size %v), insert %v", name, size, op == 1)
					if fresh {
						m[name] = &qFile{size: size}
					}
					f := m[name]
					f.req++
					s, r, v := I.UpdateStats(name, size)
					if s != f.size || r != f.req || !near(v, f.size*f.req) {
						c.Failf("request of %s: size %v, requests %v, value %v: want %+v", name, s, r, v, f)
					}
					if op == 1 {
						insert(name)
					}
				case 2:
					c.Op("insertion of %s", name)
					insert(name)
				case 3:
					c.Op("removal of %s", name)
					I.Remove(name)
					m[name].in = false
				}
				check(fmt.Sprintf("after operation %d", i))
				c.State(fmt.Sprint(qState(m)))
			}
		},
	}
}

func qState(m map[string]*qFile) (s string) {
	for _, n := range qNames(m) {
		s += fmt.Sprintf("%s %v %v %v;", n, m[n].size, m[n].req, m[n].in)
	}
	return
}

// ---- C40 ----

// quiet runs f with the standard output discarded: the table prints itself.
func quiet(f func()) {
	old := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic("verif: " + err.Error())
	}
	os.Stdout = null
	defer func() { os.Stdout = old; null.Close() }()
	f()
}

var _ = io.Discard

func qBucket(bounds []float64, v float64) int {
	for i, b := range bounds {
		if v <= b {
			return i
		}
	}
	return len(bounds) - 1
}

var qBounds = [][]float64{{50}, {1, 2}, {10, 25.5, 100}, {-3, 0, 4, 1e6}, {1, 2, 3, 4, 5, 6, -1}}
var qActions = [][]qtable.ActionType{{qtable.ActionStore, qtable.ActionNotStore}, {qtable.ActionNotStore, qtable.ActionStore}}

func qState1(bounds [][]float64, idx []int) (out []float64) {
	for i, b := range bounds {
		for j := range b {
			v := 0.
			if j == idx[i] {
				v = 1
			}
			out = append(out, v)
		}
	}
	return
}

func suiteQStates(name string, nf int) *Suite {
	return &Suite{
		Name:   name,
		Bounds: fmt.Sprintf("every table of 1..%d features out of %d with 1..7 bounds, every combination of values below, at and above the bounds", nf, len(qBounds)),
		Shard:  2,
		Run: func(c *Chooser) {
			k := 1 + c.Choose(nf)
			var bounds [][]float64
			var names []string
			total := 1
			for i := 0; i < k; i++ {
				b := Pick(c, qBounds)
				bounds = append(bounds, b)
				names = append(names, fmt.Sprint("x", i))
				total *= len(b)
			}
			acts := Pick(c, qActions)
			c.Op("table over %v, actions %v", bounds, acts)
			var t qtable.QTable
			quiet(func() { t.Init(bounds, names, acts) })
			seen := map[uint64]string{}
			var probes [][]float64
			for _, b := range bounds {
				var p []float64
				for _, x := range b {
					p = append(p, x-.5, x, x+.5)
				}
				probes = append(probes, p)
			}
			at := make([]int, k)
			for {
				v := make([]float64, k)
				idx := make([]int, k)
				for i := range v {
					v[i] = probes[i][at[i]]
					idx[i] = qBucket(bounds[i], v[i])
				}
				got := t.GenCurState(v)
				want := qState1(bounds, idx)
				if fmt.Sprint(got) != fmt.Sprint(want) {
					c.Failf("values %v: state %v, want %v", v, got, want)
				}
				s := t.GetStateIdx(got)
				if prev, ok := seen[s]; ok && prev != fmt.Sprint(idx) {
					c.Failf("buckets %v and %v have the same state %d", prev, idx, s)
				}
				seen[s] = fmt.Sprint(idx)
				for _, a := range acts {
					if x := t.GetAction(s, a); x != 0 {
						c.Failf("state %v starts with %v", got, x)
					}
				}
				if x := t.GetBestAction(got); x != acts[0] && x != acts[1] {
					c.Failf("best action %v", x)
				}
				c.StateHash(s)
				i := k - 1
				for i >= 0 {
					if at[i]++; at[i] < len(probes[i]) {
						break
					}
					at[i] = 0
					i--
				}
				if i < 0 {
					break
				}
			}
		},
	}
}

func suiteQLearn(name string, n int, bounds [][]float64, rewards []float64) *Suite {
	return &Suite{
		Name:   name,
		Bounds: fmt.Sprintf("every sequence of up to %d updates (state, action, reward out of %v) of a table over %v, for both orders of the actions, two learning weights of the next value", n, rewards, bounds),
		Shard:  4,
		Run: func(c *Chooser) {
			acts := Pick(c, qActions)
			var t qtable.QTable
			var names []string
			total := 1
			for i, b := range bounds {
				names = append(names, fmt.Sprint("x", i))
				total *= len(b)
			}
			quiet(func() { t.Init(bounds, names, acts) })
			if t.Epsilon != 1 || t.MaxEpsilon != 1 || t.MinEpsilon != .01 || t.DecayRate != .005 {
				c.Failf("parameters %v %v %v %v", t.Epsilon, t.MaxEpsilon, t.MinEpsilon, t.DecayRate)
			}
			decay := Pick(c, []float64{.005, .5})
			t.DecayRate = decay
			const rate = .9
			q := map[int]map[qtable.ActionType]float64{}
			state := func(s int) []float64 {
				idx := make([]int, len(bounds))
				for i := len(bounds) - 1; i >= 0; i-- {
					idx[i] = s % len(bounds[i])
					s /= len(bounds[i])
				}
				return qState1(bounds, idx)
			}
			for s := 0; s < total; s++ {
				q[s] = map[qtable.ActionType]float64{}
				for _, a := range acts {
					q[s][a] = 0
				}
			}
			k := c.Choose(n + 1)
			for i := 0; i < k; i++ {
				s, a, r := c.Choose(total), Pick(c, acts), Pick(c, rewards)
				c.Op("update of state %d, action %v, reward %v", s, a, r)
				best := math.Inf(-1)
				for _, v := range q[s] {
					best = math.Max(best, v)
				}
				old := q[s][a]
				q[s][a] = old + rate*(r+decay*best-old)
				t.Update(state(s), a, r)
			}
			h := ""
			for s := 0; s < total; s++ {
				best := math.Inf(-1)
				for _, a := range acts {
					got := t.GetAction(t.GetStateIdx(state(s)), a)
					if !near(got, q[s][a]) {
						c.Failf("value of action %v in state %d: got %v, want %v", a, s, got, q[s][a])
					}
					best = math.Max(best, q[s][a])
					h += fmt.Sprintf("%.9g ", got)
				}
				if a := t.GetBestAction(state(s)); !near(q[s][a], best) {
					c.Failf("best action of state %d: %v of value %v, the best value is %v", s, a, q[s][a], best)
				}
			}
			c.State(h)
		},
	}
}

func tierDepth(tier string, quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

func init() {
	register("C39", &PropDef{
		Assumptions: []string{"a file has the same size in all its requests, and is inserted after its first request, as the prototype does"},
		Suites: func(tier string) []*Suite {
			return []*Suite{
				suiteQCache("small", 3, []float64{1, 2, 4}, 4, tierDepth(tier, 5, 6), true),
				suiteQCache("equal", 3, []float64{1}, 5, tierDepth(tier, 6, 7), false),
				suiteQCache("mixed", 7.5, []float64{0.5, 2.25, 3, 7.5}, 4, tierDepth(tier, 5, 6), false),
			}
		}})
	register("C40", &PropDef{Suites: func(tier string) []*Suite {
		return []*Suite{
			suiteQStates("states", tierDepth(tier, 3, 4)),
			suiteQLearn("updates-two", tierDepth(tier, 5, 6), [][]float64{{1, 2}}, []float64{1, -2}),
			suiteQLearn("updates-six", tierDepth(tier, 3, 4), [][]float64{{1, 2}, {0, 5, 10}}, []float64{1, -1, 0}),
		}
	}})
}
