//go:build go1.21

package main

import (
	"math"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"simulator/v2/cache"
	"simulator/v2/cache/ai/qlearn"
	"simulator/v2/cache/files"
)

// suites_state.go: resets, clears, dumps and the cache types with a twist
// (C13, C18..C23).

// ---- comparing two real caches ----

func statKey(f *files.Stats) string {
	ts := []int64{}
	for _, t := range f.RequestedTimes {
		if !t.IsZero() {
			ts = append(ts, t.Unix())
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
	return fmt.Sprintf("%d size=%.9g freq=%d hits=%d miss=%d recency=%d delta=%d weight=%.9g first=%d last=%d times=%v", f.Filename, f.Size, f.Frequency, f.NHits, f.NMiss, f.Recency, f.DeltaLastRequest, f.Weight, f.StatInsertTime.Unix(), f.StatLastUpdateTime.Unix(), ts)
}

func sameContents(c *Chooser, what string, a, b cache.Cache, ordered bool) {
	fa, fb := implFiles(a), implFiles(b)
	na, nb := append([]int64{}, names(fa)...), append([]int64{}, names(fb)...)
	if !ordered {
		sort.Slice(na, func(i, j int) bool { return na[i] < na[j] })
		sort.Slice(nb, func(i, j int) bool { return nb[i] < nb[j] })
	}
	if !eqInts(na, nb) {
		c.Failf("%s: stored files %v, want %v", what, nb, na)
	}
	for _, f := range na {
		if !cache.Check(b, f) {
			c.Failf("%s: file %d listed but not found", what, f)
		}
	}
	if !feq(cache.Size(a), cache.Size(b)) || !feq(cache.GetMaxSize(a), cache.GetMaxSize(b)) {
		c.Failf("%s: occupancy %v of %v, want %v of %v", what, cache.Size(b), cache.GetMaxSize(b), cache.Size(a), cache.GetMaxSize(a))
	}
}

func sameTracked(c *Chooser, what string, a, b cache.Cache) {
	ta, tb := implTracked(a), implTracked(b)
	for n, f := range ta {
		g := tb[n]
		if g == nil {
			c.Failf("%s: the statistics of file %d are missing", what, n)
		}
		if x, y := statKey(f), statKey(g); x != y {
			c.Failf("%s: statistics of file %d: got %s, want %s", what, n, y, x)
		}
	}
	for n := range tb {
		if ta[n] == nil {
			c.Failf("%s: unexpected statistics of file %d", what, n)
		}
	}
}

func statLine(c cache.Cache) string {
	f := func(x float64) string { return fmt.Sprintf("%.9g", x) }
	return strings.Join([]string{
		fmt.Sprint("req=", cache.NumRequests(c), " hit=", cache.NumHits(c), " add=", cache.NumAdded(c), " del=", cache.NumDeleted(c), " redir=", cache.NumRedirected(c)),
		"rsize=" + f(cache.RedirectedSize(c)), "w=" + f(cache.DataWritten(c)), "r=" + f(cache.DataRead(c)), "rh=" + f(cache.DataReadOnHit(c)), "rm=" + f(cache.DataReadOnMiss(c)), "d=" + f(cache.DataDeleted(c)),
		"hr=" + f(cache.HitRate(c)), "whr=" + f(cache.WeightedHitRate(c)), "free=" + f(cache.AvgFreeSpace(c)), "sd=" + f(cache.StdDevFreeSpace(c)),
		"cpu=" + f(cache.CPUEff(c)), f(cache.CPUHitEff(c)), f(cache.CPUMissEff(c)), f(cache.CPUEffUpperBound(c)), f(cache.CPUEffLowerBound(c)),
		"bw=" + f(cache.BandwidthUsage(c)), "cap=" + f(cache.Capacity(c)), "extra=" + cache.ExtraStats(c),
	}, " ")
}

func sameStats(c *Chooser, what string, a, b cache.Cache) {
	if x, y := statLine(a), statLine(b); x != y {
		c.Failf("%s: statistics\n got %s\nwant %s", what, y, x)
	}
}

// twin is a second real cache that receives the same requests.
type twin struct {
	c       cache.Cache
	ordered bool
}

func (h *H) twin() *twin { t, _ := h.Extra["twin"].(*twin); return t }

func twinStep(h *H) {
	delete(h.Extra, "cold")
	t := h.twin()
	if t == nil {
		return
	}
	q := h.Last
	a, r := cache.GetFile(t.c, q.File, q.Size, q.Proto, q.Eff, q.Day, q.Site, q.User, q.Type)
	if a != h.IAdded || r != h.IRedir {
		h.C.Failf("request for file %d: the twin answered added=%v redirected=%v, the original added=%v redirected=%v", q.File, a, r, h.IAdded, h.IRedir)
	}
}

// stateTypes: every deterministic cache type as a scenario.
func stateTypes(withRandom bool) []Scn {
	var out []Scn
	for _, typ := range bounded {
		out = append(out, Scn{Name: typ, Typ: typ, Max: 4, P: plain(), Sizes: []float64{1, 3}, NFiles: 4})
	}
	w := weightScn("weightFun", "FuncAdditive", 1, .5, 1)
	w.Max, w.Sizes, w.NFiles = 4, []float64{1, 3}, 4
	out = append(out, *w)
	w = weightScn("weightFunMul", "FuncMultiplicative", 1, 1, 1)
	w.Max, w.Sizes, w.NFiles = 4, []float64{1, 2}, 4
	out = append(out, *w)
	out = append(out, Scn{Name: "infinite", Typ: "infinite", Max: 4, P: plain(), Sizes: []float64{1, 3}, NFiles: 4})
	p := plain()
	p.Dataset2TestPath = "ds_5.json.gz"
	out = append(out, Scn{Name: "lruDatasetVerifier", Typ: "lruDatasetVerifier", Max: 4, P: p, Sizes: []float64{1, 3}, NFiles: 4, Ref: RefParams{Kind: "dataset", Dataset: datasetOf(5)}})
	// the neural network is not asked by the cache: it keeps files as an LRU does
	p = plain()
	p.AIFeatureMap = fmFile("ainn.json", only(addFeatures, "size"))
	out = append(out, Scn{Name: "aiNN", Typ: "aiNN", Max: 4, P: p, Sizes: []float64{1, 3}, NFiles: 4})
	p = marked(75, 25)
	out = append(out, Scn{Name: "lru-watermarks", Typ: "lru", Max: 4, P: p, Sizes: []float64{1, 3}, NFiles: 4})
	out = append(out, Scn{Name: "lfu-watermarks", Typ: "lfu", Max: 4, P: p, Sizes: []float64{1, 2}, NFiles: 4})
	if withRandom {
		p = plain()
		p.RandSeed = 7
		out = append(out, Scn{Name: "random_lru", Typ: "random_lru", Max: 4, P: p, Sizes: []float64{1, 3}, NFiles: 4, Ref: RefParams{Kind: "random"}})
	}
	return out
}

// ---- datasets ----

func datasetOf(mask int) map[int64]bool {
	m := map[int64]bool{}
	for i := 0; i < 4; i++ {
		if mask>>i&1 == 1 {
			m[fileNames[i]] = true
		}
	}
	return m
}

// ensureDatasets writes the dataset files into the current (scratch) directory.
func ensureDatasets() {
	for mask := 0; mask < 16; mask++ {
		p := fmt.Sprintf("ds_%d.json.gz", mask)
		if _, err := os.Stat(p); err == nil {
			continue
		}
		sel := []int64{}
		for f := range datasetOf(mask) {
			sel = append(sel, f)
		}
		sort.Slice(sel, func(i, j int) bool { return sel[i] < sel[j] })
		data, _ := json.Marshal(map[string]interface{}{"selected_files": sel})
		var b bytes.Buffer
		w := gzip.NewWriter(&b)
		w.Write(data)
		w.Close()
		if err := os.WriteFile(p, b.Bytes(), 0o644); err != nil {
			panic("verif: " + err.Error())
		}
	}
}

// ---- dumps ----

func dumpToFile(c cache.Cache) {
	cache.Dump(c, "dump.json.gz", true)
}

func loadFile(c cache.Cache) {
	cache.Loads(c, cache.Load(c, "dump.json.gz"))
}

func opDumpLoad(file bool) Op {
	name := "dump and load (records)"
	if file {
		name = "dump and load (file)"
	}
	return Op{name, func(h *H) {
		if h.Extra["cold"] == true {
			return // right after a cold start the request clock is not part of the records
		}
		src := h.I
		if t := h.twin(); t != nil {
			src = t.c
		}
		j := newImpl(h.S)
		if file {
			dumpToFile(src)
			loadFile(j)
		} else {
			cache.Loads(j, src.Dumps(true))
		}
		// the daily statistics are not part of a dump: both start a new day
		cache.ClearStats(h.I)
		h.M.ClearStats()
		cache.ClearStats(j)
		h.Extra["twin"] = &twin{c: j, ordered: true}
	}}
}

func init() {
	// ---- C13 daily reset ----
	register("C13", &PropDef{Suites: func(tier string) []*Suite {
		ensureDatasets()
		var out []*Suite
		reset := Op{"new-day (statistics reset)", func(h *H) { cache.ClearStats(h.I); h.M.ClearStats() }}
		for _, s := range stateTypes(true) {
			s := s
			s.Depth = depth(tier, 6, 8)
			ordered := s.Typ != "infinite"
			// the random cache decides by itself: its twin has the same seed
			s.NoModel = s.Ref.Kind == "random"
			s.Ops = []Op{reset, opAdvance(3600)}
			s.PerStep = twinStep
			s.Prefix = []Op{{"twin that is never reset", func(h *H) { h.Extra["twin"] = &twin{c: newImpl(h.S), ordered: ordered} }}}
			out = append(out, hsuite(&s, func(h *H) {
				sameContents(h.C, "never reset against reset", h.twin().c, h.I, ordered)
				sameTracked(h.C, "never reset against reset", h.twin().c, h.I)
				if !h.S.NoModel {
					checkRequestStats(h)
					checkRedirectStats(h)
				}
			}))
		}
		for _, region := range []string{"", "it"} {
			ops := []Op{reset}
			for _, f := range []int64{7, 0} {
				for _, pe := range [][2]float64{{1, 90}, {0, 40}} {
					f, pe := f, pe
					ops = append(ops, Op{fmt.Sprintf("req file %d protocol %g efficiency %g", f, pe[0], pe[1]), func(h *H) {
						h.Request(Req{File: f, Size: 3, Proto: int64(pe[0]), Eff: pe[1], Day: h.Now})
					}})
				}
			}
			out = append(out, hsuite(&Scn{Name: "cpu-region-" + region, Typ: "lru", Max: 4, P: plain(), Region: region, NoReq: true, Ops: ops, Depth: depth(tier, 6, 7)}, func(h *H) { checkCPUStats(h); checkRequestStats(h) }))
		}
		for _, typ := range bounded {
			p := plain()
			p.RedirectReq = true
			out = append(out, hsuite(&Scn{Name: typ + "-redirect", Typ: typ, Max: 4, P: p, Band: 4 / 10.8e6, Sizes: []float64{1, 3}, NFiles: 4, Depth: depth(tier, 6, 8), Ops: []Op{reset}}, func(h *H) {
				checkRedirectStats(h)
				checkRequestStats(h)
				checkOrder(h)
				checkFileStats(h, true)
			}))
		}
		return out
	}})

	// ---- C18 random caches ----
	register("C18", &PropDef{Suites: func(tier string) []*Suite {
		var out []*Suite
		out = append(out, &Suite{
			Name:   "seeds",
			Bounds: "every pair of two out of 13 seeds, among them negative ones and some that share their lowest 32 bits: 64 decisions are equal for equal seeds and differ for different ones",
			Run: func(c *Chooser) {
				typ := Pick(c, []string{"random_lru", "random"})
				seeds := []int64{0, 1, 7, 42, -1, -42, 1<<31 + 5, 1 << 32, 1<<32 + 1, 1<<32 + 42, 1 << 53, 1<<53 + 1, math.MinInt64}
				draws := func(seed int64) (out string) {
					p := plain()
					p.RandSeed = seed
					a := newImpl(&Scn{Typ: typ, Max: 1e6, P: p})
					for i := 0; i < 64; i++ {
						if added, _ := cache.GetFile(a, int64(5000+i), 1., int64(1), 50., day0); added {
							out += "x"
						} else {
							out += "."
						}
					}
					return
				}
				a, b := Pick(c, seeds), Pick(c, seeds)
				c.Op("%s: seeds %d and %d", typ, a, b)
				if x, y := draws(a), draws(b); (x == y) != (a == b) {
					c.Failf("decisions with seed %d: %s, with seed %d: %s", a, x, b, y)
				}
				c.State(fmt.Sprint(typ, a, b))
			},
		})
		for _, seed := range []int64{0, 1, 7, 42, 1<<32 + 42} {
			for _, typ := range []string{"random_lru", "random"} {
				seed, typ := seed, typ
				p := plain()
				p.RandSeed = seed
				// the decisions of the canonical history: one new small file after the other
				canon := &Scn{Typ: typ, Max: 1e6, P: p}
				var draws []bool
				cc := newImpl(canon)
				for i := 0; i < 64; i++ {
					a, _ := cache.GetFile(cc, int64(5000+i), 1., int64(1), 50., day0)
					draws = append(draws, a)
				}
				yes := 0
				for _, d := range draws {
					if d {
						yes++
					}
				}
				coin := func(h *H) func() bool {
					k := 0
					return func() bool {
						k++
						return draws[k-1]
					}
				}
				mk := func(name string, f func(s *Scn)) {
					s := &Scn{Name: fmt.Sprintf("%s-seed-%d-%s", typ, seed, name), Typ: typ, Max: 8, P: p, Sizes: []float64{3, 1}, NFiles: 5, Depth: depth(tier, 6, 8), Ref: RefParams{Kind: "random", Order: "lru"}}
					f(s)
					pre := s.Prefix
					s.Prefix = append([]Op{{"seeded", func(h *H) { h.Coin = coin(h) }}}, pre...)
					out = append(out, hsuite(s, func(h *H) {
						if yes == 0 || yes == len(draws) {
							h.C.Failf("64 draws with seed %d all decide the same", seed)
						}
						checkLastStep(h)
						checkSet(h)
						checkRequestStats(h)
						if typ == "random_lru" {
							checkOrder(h)
						}
					}))
				}
				if typ == "random" {
					// no order of eviction is defined: the contents are followed while nothing has to be evicted
					mk("no-eviction", func(s *Scn) { s.Max = 100; s.Ops = []Op{opClearStats(), opAdvance(86400), opDump()} })
					continue
				}
				mk("evictions", func(s *Scn) { s.Sizes = []float64{3, 1, 5, 16}; s.Depth = depth(tier, 6, 7) })
				mk("days", func(s *Scn) { s.Ops = []Op{opClearStats(), opAdvance(86400), opDump()} })
				mk("watermarks", func(s *Scn) { s.P.Watermarks, s.P.HighWatermark, s.P.LowWatermark = true, 75, 25 })
				mk("redirect", func(s *Scn) { s.P.RedirectReq = true; s.Band = 8 / 10.8e6; s.Ops = []Op{opClearStats()} })
				mk("other-user-site-and-type", func(s *Scn) {
					s.Ops = []Op{{"request with other attributes", func(h *H) {
						if h.Last != nil {
							h.Request(Req{File: h.Last.File, Size: h.FSize[h.Last.File], Proto: 0, Eff: 10, Day: h.Now + 5, Site: 9, User: 3, Type: 2})
						}
					}}}
				})
			}
		}
		return out
	}})

	// ---- C19 dataset verifier ----
	register("C19", &PropDef{Suites: func(tier string) []*Suite {
		ensureDatasets()
		var out []*Suite
		for mask := 0; mask < 16; mask++ {
			p := plain()
			p.Dataset2TestPath = fmt.Sprintf("ds_%d.json.gz", mask)
			s := &Scn{Name: fmt.Sprintf("dataset-%v", mask), Typ: "lruDatasetVerifier", Max: 4, P: p, Sizes: []float64{1, 2, 5}, NFiles: 5, Depth: depth(tier, 5, 7), Ref: RefParams{Kind: "dataset", Dataset: datasetOf(mask)}, Ops: []Op{opClearStats()}}
			if mask == 7 || mask == 15 {
				s.Sizes, s.Depth = []float64{1, 2}, depth(tier, 7, 8)
				s.Ops = append(s.Ops, opAdvance(86400), opClear())
			}
			chk := func(h *H) {
				checkLastStep(h)
				checkOrder(h)
				checkSet(h)
				checkRequestStats(h)
				checkFileStats(h, true)
			}
			out = append(out, hsuite(s, chk))
			if mask == 15 {
				q := *s
				q.Name += "-watermarks"
				q.P.Watermarks, q.P.HighWatermark, q.P.LowWatermark = true, 75, 25
				q.Depth = depth(tier, 6, 7)
				out = append(out, hsuite(&q, chk))
			}
		}
		return out
	}})

	// ---- C20 infinite cache ----
	register("C20", &PropDef{Suites: func(tier string) []*Suite {
		chk := func(h *H) {
			checkLastStep(h)
			checkSet(h)
			checkRequestStats(h)
			sum, fs := 0., 0
			for _, f := range implFiles(h.I) {
				sum += f.Size
				fs++
			}
			if fs != len(h.M.Res) {
				h.C.Failf("%d files stored, want %d", fs, len(h.M.Res))
			}
			for _, f := range h.Names {
				if h.M.Tracked[f] != nil && !cache.Check(h.I, f) {
					h.C.Failf("file %d was requested but is not stored", f)
				}
			}
			h.wantF("occupancy", cache.Size(h.I), h.M.Size())
			h.wantF("stored data", sum, h.M.Size())
			h.wantF("cache size", cache.GetMaxSize(h.I), h.M.Max)
			h.wantI("deleted files", cache.NumDeleted(h.I), 0)
		}
		var out []*Suite
		for _, max := range []float64{1, 8} {
			out = append(out,
				hsuite(&Scn{Name: fmt.Sprintf("size-%g", max), Typ: "infinite", Max: max, P: plain(), Sizes: []float64{3, 1, 50}, NFiles: 5, Depth: depth(tier, 7, 9), Ops: []Op{opClearStats()}}, chk),
				hsuite(&Scn{Name: fmt.Sprintf("size-%g-resizes", max), Typ: "infinite", Max: max, P: plain(), Sizes: []float64{3, 1}, NFiles: 4, Depth: depth(tier, 6, 8), Ops: []Op{opClearStats(), opResize(9), opAdvance(86400), opDump()}}, chk))
			p := plain()
			p.RedirectReq = true
			out = append(out, hsuite(&Scn{Name: fmt.Sprintf("size-%g-redirect", max), Typ: "infinite", Max: max, P: p, Band: 8 / 10.8e6, Sizes: []float64{3, 1}, NFiles: 5, Depth: depth(tier, 6, 8), Ops: []Op{opClearStats()}}, func(h *H) {
				checkLastStep(h)
				checkSet(h)
				checkRedirectStats(h)
			}))
		}
		return out
	}})

	// ---- C21 dump and load ----
	register("C21", &PropDef{Suites: func(tier string) []*Suite {
		ensureDatasets()
		var out []*Suite
		for _, s := range stateTypes(false) {
			for _, file := range []bool{false, true} {
				if s.Typ == "infinite" && file {
					continue
				}
				s := s
				s.Depth = depth(tier, 6, 8)
				if file {
					s.Depth = depth(tier, 5, 6)
				}
				s.Name += map[bool]string{true: "-file", false: "-records"}[file]
				ordered := s.Typ != "infinite"
				s.PerStep = twinStep
				s.Ops = []Op{opDumpLoad(file), opAdvance(3600), opResize(2)}
				if s.Typ == "lru" || s.Typ == "weightFunLRU" {
					s.Ops = append(s.Ops, Op{"cold start (contents dropped)", func(h *H) {
						cache.ClearFiles(h.I)
						h.M.ClearFiles()
						h.Extra["cold"] = true
						if t := h.twin(); t != nil {
							cache.ClearFiles(t.c)
						}
					}})
				}
				if s.Typ == "lru" || s.Typ == "lfu" || s.Typ == "weightFunLRU" {
					s.Ops = append(s.Ops, opRepeat(33))
					s.Depth--
				}
				infinite := s.Typ == "infinite"
				out = append(out, hsuite(&s, func(h *H) {
					t := h.twin()
					if t == nil {
						if !infinite {
							checkOrder(h)
						}
						return
					}
					if infinite {
						// the size of the infinite cache is not part of its state
						return
					}
					sameContents(h.C, "original against loaded", h.I, t.c, ordered)
					sameTracked(h.C, "original against loaded", h.I, t.c)
					sameStats(h.C, "original against loaded", h.I, t.c)
					checkOrder(h)
				}))
			}
		}
		out = append(out, largeTables(tier))
		return out
	}})

	// ---- C22 damaged dumps ----
	register("C22", &PropDef{Suites: func(tier string) []*Suite {
		ensureDatasets()
		var out []*Suite
		patterns := []byte{0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0xff}
		if tier == "thorough" {
			patterns = nil
			for x := 1; x < 256; x++ {
				patterns = append(patterns, byte(x))
			}
		}
		states := map[string][]int64{
			"empty": {}, "one file": {0}, "three files": {0, 1, 2}, "evictions and hits": {0, 1, 0, 2, 3, 0, 4, 2},
		}
		for _, sn := range []string{"empty", "one file", "three files", "evictions and hits"} {
			seq := states[sn]
			for _, s := range stateTypes(false) {
				if s.Typ == "infinite" || strings.Contains(s.Name, "watermarks") {
					continue
				}
				s := s
				out = append(out, &Suite{
					Name:   s.Name + ": " + sn,
					Bounds: "every truncation, every dropped byte and every single damaged byte (quick: every single bit and all bits flipped; thorough: every other value) of the dump file of this state",
					Shard:  2,
					Run:    damagedDump(&s, seq, patterns),
				})
			}
		}
		for _, k := range []string{"admission", "eviction", "both"} {
			g := &rlCfg{name: "damage-" + k, typ: "scdl2", when: "onFree", max: 3}
			if k != "eviction" {
				g.add = only(addFeatures, "size")
			}
			if k != "admission" {
				g.evc = only(evcFeatures, "catSize")
			}
			out = append(out, &Suite{
				Name:   "aiRL: " + k,
				Bounds: "every truncation, every dropped byte and every single damaged byte (as above) of the dump of an RL cache with its agents' tables",
				Shard:  2,
				Run: damaged(g.name, func() cache.Cache {
					a := rlCreate(g.max, g.params())
					for i, f := range []int64{1, 2, 1, 3} {
						cache.GetFile(a, f, float64(f), int64(1), 50., day0+int64(i)*60)
					}
					x, y := rlAgents(a)
					for i, ag := range []*qlearn.Agent{x, y} {
						if ag != nil {
							ag.QTable.Actions[i][0] = 1.5
						}
					}
					return a
				}, func() cache.Cache { return rlCreate(g.max, g.params()) }, patterns, false, func(c *Chooser, what string, whole, b cache.Cache) {
					x, y := dumpLines(whole), dumpLines(b)
					for i := range x {
						if i >= len(y) || x[i] != y[i] {
							c.Failf("state loaded from the dump and from a dump with %s: %.200s against %.200s", what, x, y)
						}
					}
				}),
			})
		}
		return out
	}})

	// ---- C23 clear ----
	register("C23", &PropDef{Suites: func(tier string) []*Suite {
		ensureDatasets()
		var out []*Suite
		everything := func(h *H) {
			if t := h.twin(); t != nil {
				sameContents(h.C, "new against cleared", t.c, h.I, true)
				sameTracked(h.C, "new against cleared", t.c, h.I)
				sameStats(h.C, "new against cleared", t.c, h.I)
				if a, b := cache.GetTotDeletedFileMiss(t.c), cache.GetTotDeletedFileMiss(h.I); a != b {
					h.C.Failf("misses after delete: cleared cache %d, new cache %d", b, a)
				}
			}
			checkOrder(h)
			checkLastStep(h)
		}
		clear := Op{"clear", func(h *H) {
			cache.Clear(h.I)
			h.M.Reset()
			h.Last = nil
			h.Extra["twin"] = &twin{c: newImpl(h.S), ordered: true}
		}}
		for _, s := range stateTypes(false) {
			if s.Typ == "infinite" {
				continue
			}
			for _, purge := range []bool{false, true} {
				s := s
				s.Depth = depth(tier, 6, 8)
				s.PerStep = twinStep
				s.Ops = []Op{clear, opAdvance(43200)}
				if purge {
					s.Name += "-purge"
					s.P.MaxNumDayDiff, s.P.DeltaDaysStep = 1, 1
				}
				out = append(out, hsuite(&s, everything))
			}
			r := s
			r.Name += "-redirect"
			r.P.RedirectReq = true
			r.Band = 4 / 10.8e6
			r.Depth = depth(tier, 5, 7)
			r.PerStep = twinStep
			r.Ops = []Op{clear, {"new-day (statistics reset)", func(h *H) {
				cache.ClearStats(h.I)
				h.M.ClearStats()
				if t := h.twin(); t != nil {
					cache.ClearStats(t.c)
				}
			}}}
			out = append(out, hsuite(&r, everything))
			// cold start: contents gone, request counts kept
			q := s
			q.Name += "-cold-start"
			q.Depth = depth(tier, 6, 8)
			q.Ops = []Op{opClearFiles(), opClearStats()}
			out = append(out, hsuite(&q, func(h *H) {
				checkOrder(h)
				h.wantF("occupancy", cache.Size(h.I), h.M.Size())
				checkTracked(h)
				checkFileStats(h, true)
				checkLastStep(h)
			}))
		}
		return out
	}})
}

// damagedDump: build the state, dump it, damage the file, load it.
func damagedDump(s *Scn, seq []int64, patterns []byte) func(c *Chooser) {
	return damaged(s.Name, func() cache.Cache {
		a := newImpl(s)
		for i, f := range seq {
			n := fileNames[f]
			cache.GetFile(a, n, float64(1+f%3), int64(1), 50., day0+int64(i)*60)
		}
		return a
	}, func() cache.Cache { return newImpl(s) }, patterns, true, nil)
}

// damaged: the same for a cache of any kind; more compares the caches loaded
// from the whole and from the damaged dump.
func damaged(name string, build, create func() cache.Cache, patterns []byte, ordered bool, more func(c *Chooser, what string, whole, b cache.Cache)) func(c *Chooser) {
	var orig []byte
	return func(c *Chooser) {
		a := build()
		if orig == nil {
			orig = canonicalDump(a)
		}
		kind := c.Choose(2 + len(patterns))
		var data []byte
		var what string
		switch kind {
		case 0:
			n := c.Choose(len(orig) + 1)
			data = orig[:n]
			what = fmt.Sprintf("cut at byte %d of %d", n, len(orig))
		case 1:
			n := c.Choose(len(orig))
			data = append(append([]byte{}, orig[:n]...), orig[n+1:]...)
			what = fmt.Sprintf("byte %d of %d lost", n, len(orig))
		default:
			n := c.Choose(len(orig))
			data = append([]byte{}, orig...)
			x := patterns[kind-2]
			data[n] ^= x
			what = fmt.Sprintf("byte %d of %d xor %#x", n, len(orig), x)
		}
		c.Op("%s", what)
		p, err := filepath.Abs("damaged.gz")
		if err == nil {
			err = os.WriteFile(p, data, 0o644)
		}
		if err != nil {
			panic("verif: " + err.Error())
		}
		b := create()
		rejected := func() (rejected bool) {
			defer func() {
				if e := recover(); e != nil {
					rejected = true
				}
			}()
			cache.Loads(b, cache.Load(b, p), .5, .01)
			return false
		}()
		c.State(fmt.Sprint(name, what, rejected))
		if rejected {
			if bytes.Equal(data, orig) {
				c.Failf("the undamaged dump is rejected")
			}
			return
		}
		sameContents(c, "dumped against loaded from a dump with "+what, a, b, ordered)
		sameTracked(c, "dumped against loaded from a dump with "+what, a, b)
		if more != nil {
			if err := os.WriteFile(p, orig, 0o644); err != nil {
				panic("verif: " + err.Error())
			}
			w := create()
			cache.Loads(w, cache.Load(w, p), .5, .01)
			more(c, what, w, b)
		}
	}
}

// dumpLines: the records of a dump, sorted.
// largeTables: the dump of an RL cache with tables of thousands of states, which
// are single records of up to megabytes.
func largeTables(tier string) *Suite {
	sizes := []int{1, 10, 40, 100}
	if tier == "thorough" {
		sizes = append(sizes, 20, 60, 80, 150, 200)
	}
	return &Suite{
		Name:   "aiRL-large-tables",
		Bounds: fmt.Sprintf("RL caches with either agent or both and tables of %v buckets squared: dump after 0..3 requests, values set at the ends and the middle of the tables, load in a new cache", sizes),
		Shard:  3,
		Run: func(c *Chooser) {
			n := Pick(c, sizes)
			which := c.Choose(3)
			buckets := func() (out []interface{}) {
				for i := 1; i < n; i++ {
					out = append(out, float64(i))
				}
				if n == 1 {
					out = vals(1.)
				}
				return
			}
			g := &rlCfg{name: fmt.Sprintf("large-%d-%d", n, which), typ: "scdl2", when: "onFree", max: 3}
			if which != 1 {
				g.add = []fmFeature{{"size", "float", buckets(), true, true}, {"numReq", "int", buckets(), true, true}}
			}
			if which != 0 {
				g.evc = []fmFeature{{"catSize", "float", buckets(), true, true}, {"catNumReq", "int", buckets(), true, true}}
			}
			k := c.Choose(4)
			c.Op("%d buckets, agents %d, %d requests", n, which, k)
			a := rlCreate(g.max, g.params())
			for i := 0; i < k; i++ {
				cache.GetFile(a, int64(1+i%2), 1., int64(1), 50., day0+int64(i)*60)
			}
			x, y := rlAgents(a)
			for _, ag := range []*qlearn.Agent{x, y} {
				if ag != nil {
					last := len(ag.QTable.Actions) - 1
					for i, at := range []int{0, last / 2, last} {
						ag.QTable.Actions[at][i%len(ag.QTable.Actions[at])] = 1.5 + float64(i)
					}
				}
			}
			want := dumpLines(a)
			cache.Dump(a, "large.json.gz", true)
			b := rlCreate(g.max, g.params())
			cache.Loads(b, cache.Load(b, "large.json.gz"), 1., .01)
			got := dumpLines(b)
			for i := 0; i < len(want) || i < len(got); i++ {
				if i >= len(want) || i >= len(got) || want[i] != got[i] {
					c.Failf("record %d of the %d that were dumped differs after loading, where there are %d", i, len(want), len(got))
				}
			}
			c.State(fmt.Sprint(n, which, k))
		},
	}
}

func dumpLines(a cache.Cache) (out []string) {
	for _, x := range a.Dumps(true) {
		out = append(out, string(x))
	}
	sort.Strings(out)
	return
}

// canonicalDump dumps many times and keeps the least text (the order of the
// statistics is not fixed), so that every worker and every replay damages the
// same file.
func canonicalDump(a cache.Cache) []byte {
	var best []byte
	var bestText []byte
	for try := 0; try < 250; try++ {
		cache.Dump(a, "orig.gz", true)
		data, err := os.ReadFile("orig.gz")
		if err != nil {
			panic("verif: " + err.Error())
		}
		text := data
		if zr, err := gzip.NewReader(bytes.NewReader(data)); err == nil {
			if t, err := io.ReadAll(zr); err == nil {
				text = t
			}
		}
		if best == nil || bytes.Compare(text, bestText) < 0 {
			best, bestText = data, text
		}
	}
	return best
}
