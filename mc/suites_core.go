//go:build go1.21

package main

import (
	"fmt"
	"math"
	"sort"

	"simulator/v2/cache"
)

func depth(tier string, quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

// noPurge makes the per-file statistics permanent.
func noPurge(p cache.InitParameters) cache.InitParameters {
	p.MaxNumDayDiff, p.DeltaDaysStep = 1e6, 1e6
	return p
}

var bounded = []string{"lru", "lfu", "sizeSmall", "sizeBig"}

func plain() cache.InitParameters {
	return noPurge(cache.InitParameters{HighWatermark: 100, LowWatermark: 100})
}

func marked(hi, lo float64) cache.InitParameters {
	p := plain()
	p.Watermarks, p.HighWatermark, p.LowWatermark = true, hi, lo
	return p
}

// opResize changes the size under which the last requested file will be
// requested from now on.
func opResize(size float64) Op {
	return Op{fmt.Sprintf("last file now has size %g", size), func(h *H) {
		if h.Last != nil {
			h.FSize[h.Last.File] = size
		}
	}}
}

// opNth requests the n-th file introduced.
func opNth(n int) Op {
	return Op{fmt.Sprintf("request file #%d", n), func(h *H) {
		if n < len(h.Names) {
			h.req(h.Names[n])
		}
	}}
}

// manyNames extends the file names for the scaffolds with dozens of files.
func init() {
	for i := int64(0); i < 120; i++ {
		fileNames = append(fileNames, 1000+i*7)
	}
}

func introN(n int, size func(i int) float64) []Op {
	sz := make([]float64, n)
	for i := range sz {
		sz[i] = size(i)
	}
	return []Op{opIntro(sz...)}
}

func implSum(h *H) (sum float64, fs []FS) {
	for _, f := range implFiles(h.I) {
		sum += f.Size
		fs = append(fs, FS{f.Filename, f.Size})
	}
	return
}

func checkCapacity(h *H) {
	const eps = 1e-6
	max := cache.GetMaxSize(h.I)
	sum, fs := implSum(h)
	if s := cache.Size(h.I); s > max+eps || s < -eps {
		h.C.Failf("reported occupancy %v is outside [0, %v]", s, max)
	}
	if sum > max+eps {
		h.C.Failf("the resident files %v sum to %v, more than the cache size %v", fs, sum, max)
	}
	if c := cache.Capacity(h.I); c > 100+eps {
		h.C.Failf("reported capacity %v%%", c)
	}
	if max != h.S.Max {
		h.C.Failf("the cache size changed from %v to %v", h.S.Max, max)
	}
}

func checkAccounting(h *H) {
	sum, fs := implSum(h)
	h.wantF("reported occupancy against the sum of the resident files", cache.Size(h.I), sum)
	h.wantF("reported capacity", cache.Capacity(h.I), sum/cache.GetMaxSize(h.I)*100)
	seen := map[int64]bool{}
	for _, f := range fs {
		if seen[f.Name] {
			h.C.Failf("file %d is stored twice", f.Name)
		}
		seen[f.Name] = true
		if !cache.Check(h.I, f.Name) {
			h.C.Failf("file %d is stored but not found", f.Name)
		}
	}
	if nf, ok := h.I.(interface{ NumFiles() int }); ok && nf.NumFiles() != len(fs) {
		h.C.Failf("reported number of files %d, stored %v", nf.NumFiles(), fs)
	}
	base, _ := h.Extra["base"].(FS)
	h.wantF("written minus deleted data since the reset", cache.DataWritten(h.I)-cache.DataDeleted(h.I), sum-base.Size)
	h.wantI("added minus deleted files since the reset", cache.NumAdded(h.I)-cache.NumDeleted(h.I), int64(len(fs))-base.Name)
}

// opDayBase is the daily reset, remembering the contents at that moment.
func opDayBase() Op {
	return Op{"new-day (statistics reset)", func(h *H) {
		cache.ClearStats(h.I)
		h.M.ClearStats()
		sum, fs := implSum(h)
		h.Extra["base"] = FS{int64(len(fs)), sum}
	}}
}

func opDropBase() Op {
	return Op{"cold start (contents dropped, statistics reset)", func(h *H) {
		cache.ClearFiles(h.I)
		cache.ClearStats(h.I)
		h.M.ClearFiles()
		h.M.ClearStats()
		h.Extra["base"] = FS{}
	}}
}

func inFS(fs []FS, f int64) bool {
	for _, x := range fs {
		if x.Name == f {
			return true
		}
	}
	return false
}

// hitIffResident is the per-request oracle of C03; it compares the
// implementation with its own contents.
func hitIffResident(h *H) {
	q := h.Last
	was := inFS(h.Before, q.File)
	hit := cache.NumHits(h.I) - h.HitsBefore
	reqs := cache.NumRequests(h.I) - h.ReqBefore
	_, after := implSum(h)
	switch {
	case h.IRedir:
		if was || hit != 0 || reqs != 0 || h.IAdded {
			h.C.Failf("redirected request for file %d: resident=%v counted as hit=%d request=%d added=%v", q.File, was, hit, reqs, h.IAdded)
		}
	case was:
		if hit != 1 || h.IAdded {
			h.C.Failf("file %d is resident but its request counted %d hits (added=%v)", q.File, hit, h.IAdded)
		}
	default:
		if hit != 0 {
			h.C.Failf("file %d is not resident (contents %v) but its request was a hit", q.File, h.Before)
		}
	}
	if h.S.P.Watermarks {
		return
	}
	for _, f := range after {
		if !inFS(h.Before, f.Name) && (f.Name != q.File || !h.IAdded) {
			h.C.Failf("file %d appeared in the cache on a request for file %d (added=%v)", f.Name, q.File, h.IAdded)
		}
	}
	if h.IAdded && !inFS(after, q.File) {
		h.C.Failf("file %d was reported added but is not in the cache", q.File)
	}
	if !h.IAdded {
		keep := was || q.Size <= h.S.Max
		if keep && len(after) != len(h.Before) {
			h.C.Failf("request for file %d (added=false) changed the contents from %v to %v", q.File, h.Before, after)
		}
	}
}

// minimalEviction is the per-request oracle of C07.
func minimalEviction(h *H) {
	q := h.Last
	if h.IRedir || inFS(h.Before, q.File) {
		return
	}
	_, after := implSum(h)
	total := 0.
	for _, f := range h.Before {
		total += f.Size
	}
	gone := []int64{}
	for _, f := range h.Before {
		if !inFS(after, f.Name) {
			gone = append(gone, f.Name)
		}
	}
	if q.Size > h.S.Max {
		if h.IAdded {
			h.C.Failf("file %d of size %g was admitted in a cache of size %g", q.File, q.Size, h.S.Max)
		}
		return
	}
	always := h.S.Typ == "lru" || h.S.Typ == "lfu" || h.S.Typ == "sizeSmall" || h.S.Typ == "sizeBig"
	if always && !h.IAdded {
		h.C.Failf("file %d of size %g fits in a cache of size %g but was not admitted", q.File, q.Size, h.S.Max)
	}
	want := []int64{}
	if h.IAdded && total+q.Size > h.S.Max {
		got := 0.
		for _, f := range h.Before {
			if got >= q.Size {
				break
			}
			got += f.Size
			want = append(want, f.Name)
		}
	}
	if !eqInts(gone, want) {
		h.C.Failf("request for file %d of size %g over contents %v (first to be evicted first, max %g): evicted %v, want %v", q.File, q.Size, h.Before, h.S.Max, gone, want)
	}
}

func weighted(fun string, a, b, g float64) (cache.InitParameters, func(int64, float64, float64) float64) {
	p := plain()
	p.FunctionTypeString = fun
	p.WfParams = cache.WeightFunctionParameters{Alpha: a, Beta: b, Gamma: g}
	var f func(int64, float64, float64) float64
	switch fun {
	case "FuncAdditive":
		f = func(n int64, s, m float64) float64 { return a*float64(n) + b*s + g*m }
	case "FuncAdditiveExp":
		f = func(n int64, s, m float64) float64 { return math.Pow(float64(n), a) + math.Pow(s, b) + math.Pow(m, g) }
	case "FuncMultiplicative":
		f = func(n int64, s, m float64) float64 { return math.Pow(float64(n), a) * math.Pow(s, b) * math.Pow(m, g) }
	}
	return p, f
}

func weightScn(name string, fun string, a, b, g float64) *Scn {
	p, f := weighted(fun, a, b, g)
	return &Scn{Name: name, Typ: "weightFunLRU", P: p, Ref: RefParams{Kind: "weight", WFun: f}}
}

func with(s Scn, f func(s *Scn)) *Scn { f(&s); return &s }

func checkRequestStats(h *H) {
	m := h.M
	h.wantI("number of requests", cache.NumRequests(h.I), m.NReq)
	h.wantI("number of hits", cache.NumHits(h.I), m.NHit)
	h.wantI("number of added files", cache.NumAdded(h.I), m.NAdd)
	h.wantI("number of deleted files", cache.NumDeleted(h.I), m.NDel)
	h.wantF("read data", cache.DataRead(h.I), m.ReadHit+m.ReadMiss)
	h.wantF("read on hit data", cache.DataReadOnHit(h.I), m.ReadHit)
	h.wantF("read on miss data", cache.DataReadOnMiss(h.I), m.ReadMiss)
	h.wantF("written data", cache.DataWritten(h.I), m.Written)
	h.wantF("deleted data", cache.DataDeleted(h.I), m.Deleted)
	h.wantF("hit rate", cache.HitRate(h.I), m.hitRate())
	h.wantF("weighted hit rate", cache.WeightedHitRate(h.I), m.hitRate()*m.ReadHit)
	h.wantF("average free space", cache.AvgFreeSpace(h.I), m.meanFree())
	h.wantF("standard deviation of the free space", cache.StdDevFreeSpace(h.I), m.stdFree())
	if m.P.Bandwidth != 0 {
		h.wantF("bandwidth usage", cache.BandwidthUsage(h.I), m.ReadMiss/m.P.Bandwidth*100)
	}
}

func checkCPUStats(h *H) {
	m := h.M
	h.wantF("CPU efficiency", cache.CPUEff(h.I), (m.HitEff+m.MissEff)/float64(m.NHit+m.NMiss))
	h.wantF("CPU hit efficiency", cache.CPUHitEff(h.I), m.HitEff/float64(m.NHit))
	h.wantF("CPU miss efficiency", cache.CPUMissEff(h.I), m.MissEff/float64(m.NMiss))
	h.wantF("CPU efficiency upper bound", cache.CPUEffUpperBound(h.I), m.Upper/float64(m.NLocal))
	h.wantF("CPU efficiency lower bound", cache.CPUEffLowerBound(h.I), m.Lower/float64(m.NRemote))
}

func checkRedirectStats(h *H) {
	h.wantI("number of redirected requests", cache.NumRedirected(h.I), h.M.NRedir)
	h.wantF("redirected size", cache.RedirectedSize(h.I), h.M.RedirSize)
}

func checkTracked(h *H) {
	got := implTracked(h.I)
	var have, want []int64
	for f := range got {
		have = append(have, f)
	}
	for f := range h.M.Tracked {
		want = append(want, f)
	}
	sort.Slice(have, func(i, j int) bool { return have[i] < have[j] })
	sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
	if !eqInts(have, want) {
		h.C.Failf("files with statistics: got %v, want %v", have, want)
	}
}

func checkFileStats(h *H, ticks bool) {
	got := implTracked(h.I)
	for name, m := range h.M.Tracked {
		g := got[name]
		if g == nil {
			h.C.Failf("file %d has no statistics", name)
		}
		w := fmt.Sprintf("file %d: ", name)
		h.wantI(w+"name", g.Filename, name)
		h.wantF(w+"size", g.Size, m.Size)
		h.wantI(w+"requests", g.Frequency, m.Freq)
		h.wantI(w+"hits", g.NHits, m.NHits)
		h.wantI(w+"misses", g.NMiss, m.NMiss)
		if ticks {
			h.wantI(w+"recency", g.Recency, m.LastTick)
			h.wantI(w+"requests since the previous one", g.DeltaLastRequest, m.Delta)
		}
		if !g.StatInsertTime.Equal(m.Insert) {
			h.C.Failf("%sfirst seen %v, want %v", w, g.StatInsertTime, m.Insert)
		}
		if !g.StatLastUpdateTime.Equal(m.Last) {
			h.C.Failf("%slast request %v, want %v", w, g.StatLastUpdateTime, m.Last)
		}
		ts := m.Times
		if len(ts) > 32 {
			ts = ts[len(ts)-32:]
		}
		var a, b []int64
		for _, t := range ts {
			a = append(a, t.Unix())
		}
		for _, t := range g.RequestedTimes {
			if !t.IsZero() {
				b = append(b, t.Unix())
			}
		}
		sort.Slice(a, func(i, j int) bool { return a[i] < a[j] })
		sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
		if !eqInts(a, b) {
			h.C.Failf("%srecent request instants %v, want %v", w, b, a)
		}
	}
}

func init() {
	// ---- C01 capacity, C02 accounting, C03 hit iff resident, C07 minimal eviction ----
	space := func(tier string, f func(s *Scn) *Suite) (out []*Suite) {
		d := depth(tier, 6, 8)
		for _, typ := range append(append([]string{}, bounded...), "random_lru", "random") {
			s := Scn{Name: typ, Typ: typ, Max: 8, P: plain(), Sizes: []float64{3, 1, 5, 16}, NFiles: 5, Depth: d}
			if typ == "random_lru" || typ == "random" {
				s.Ref.Kind = "random"
				s.P.RandSeed = 3
				s.NoModel = typ == "random"
			}
			out = append(out, f(&s))
			odd := s
			odd.Name, odd.Max, odd.Sizes, odd.NFiles, odd.Depth = typ+"-odd-sizes", 8.25, []float64{2.5, 0, 5.75, 1 << 40}, 5, depth(tier, 5, 7)
			out = append(out, f(&odd))
		}
		// the weight function with sizes and a cache size that are not whole
		wf := *weightScn("weightFun-odd-sizes", "FuncAdditive", 1, .5, 1)
		wf.Max, wf.Sizes, wf.NFiles, wf.Depth = 8.25, []float64{2.5, 0, 5.75, 8.75}, 5, depth(tier, 5, 7)
		out = append(out, f(&wf))
		return out
	}
	register("C01", &PropDef{Suites: func(tier string) []*Suite {
		d := depth(tier, 6, 8)
		out := space(tier, func(s *Scn) *Suite {
			s.Ops = []Op{opResize(7), opClearFiles()}
			return hsuite(s, checkCapacity)
		})
		for _, typ := range bounded {
			for _, w := range [][2]float64{{75, 25}, {100, 50}} {
				out = append(out, hsuite(&Scn{Name: fmt.Sprintf("%s-watermarks-%g-%g", typ, w[0], w[1]), Typ: typ, Max: 8, P: marked(w[0], w[1]), Sizes: []float64{3, 1, 8}, NFiles: 5, Depth: d, Ops: []Op{opResize(6)}}, checkCapacity))
			}
			out = append(out, hsuite(&Scn{Name: typ + "-exact-fill", Typ: typ, Max: 4, P: plain(), Sizes: []float64{1, 2, 4}, NFiles: 6, Depth: d, Ops: []Op{opDump()}}, checkCapacity))
			out = append(out, hsuite(&Scn{Name: typ + "-decimal-sizes", Typ: typ, Max: 1, P: plain(), Sizes: []float64{0.1, 0.3, 0.7}, NFiles: 6, Depth: d}, checkCapacity))
			out = append(out, hsuite(&Scn{Name: typ + "-20-files", Typ: typ, Max: 24, P: plain(), Sizes: []float64{1, 9}, NFiles: 24, Prefix: introN(20, func(i int) float64 { return float64(1 + i%3) }), Depth: depth(tier, 3, 4)}, checkCapacity))
		}
		out = append(out, hsuite(with(*weightScn("weightFun", "FuncAdditive", 1, .5, 1), func(s *Scn) {
			s.Max, s.Sizes, s.NFiles, s.Depth, s.Ops = 8, []float64{3, 1, 5, 16}, 5, d, []Op{opAdvance(1920), opClearFiles(), opResize(6)}
		}), checkCapacity))
		return out
	}})
	register("C02", &PropDef{Suites: func(tier string) []*Suite {
		d := depth(tier, 6, 8)
		out := space(tier, func(s *Scn) *Suite {
			s.Ops = []Op{opDayBase(), opDropBase()}
			return hsuite(s, checkAccounting)
		})
		for _, typ := range bounded {
			out = append(out, hsuite(&Scn{Name: typ + "-changing-sizes", Typ: typ, Max: 8, P: plain(), Sizes: []float64{3, 2}, NFiles: 4, Depth: d, Ops: []Op{opResize(7), opResize(1), opDayBase()}}, checkAccounting))
			out = append(out, hsuite(&Scn{Name: typ + "-watermarks", Typ: typ, Max: 8, P: marked(75, 25), Sizes: []float64{3, 1, 2}, NFiles: 5, Depth: d, Ops: []Op{opDayBase()}}, checkAccounting))
			out = append(out, hsuite(&Scn{Name: typ + "-decimal-sizes", Typ: typ, Max: 1, P: plain(), Sizes: []float64{0.1, 0.3, 0.7}, NFiles: 6, Depth: d, Ops: []Op{opDayBase()}}, checkAccounting))
			out = append(out, hsuite(&Scn{Name: typ + "-free", Typ: typ, Max: 8, P: plain(), Sizes: []float64{3, 1, 2}, NFiles: 5, Depth: d, Ops: []Op{opFree(2, false), opFree(50, true), opFree(0, false)}}, checkAccounting))
			out = append(out, hsuite(&Scn{Name: typ + "-20-files", Typ: typ, Max: 24, P: plain(), Sizes: []float64{1, 9}, NFiles: 24, Prefix: introN(20, func(i int) float64 { return float64(1 + i%3) }), Depth: depth(tier, 3, 4)}, checkAccounting))
			p := plain()
			p.MaxNumDayDiff, p.DeltaDaysStep = 1, 1
			out = append(out, hsuite(&Scn{Name: typ + "-purge", Typ: typ, Max: 4, P: p, Sizes: []float64{1, 3}, NFiles: 4, Depth: d, Ops: []Op{opAdvance(86400), opDayBase()}}, checkAccounting))
		}
		out = append(out, hsuite(with(*weightScn("weightFun", "FuncAdditive", 1, .5, 1), func(s *Scn) {
			s.Max, s.Sizes, s.NFiles, s.Depth, s.Ops = 8, []float64{3, 1, 5, 16}, 5, d, []Op{opAdvance(1920), opDayBase(), opResize(6)}
		}), checkAccounting))
		return out
	}})
	register("C03", &PropDef{Suites: func(tier string) []*Suite {
		d := depth(tier, 6, 8)
		final := func(h *H) {
			if !h.S.NoModel {
				checkSet(h)
			} else {
				_, fs := implSum(h)
				for _, f := range h.Names {
					if cache.Check(h.I, f) != inFS(fs, f) {
						h.C.Failf("file %d: residency answer differs from the contents %v", f, fs)
					}
				}
			}
		}
		out := space(tier, func(s *Scn) *Suite {
			s.Pre, s.PerStep = true, hitIffResident
			s.Ops = []Op{opClearStats(), opClearFiles()}
			return hsuite(s, final)
		})
		for _, typ := range bounded {
			p := plain()
			p.RedirectReq = true
			out = append(out, hsuite(&Scn{Name: typ + "-redirect", Typ: typ, Max: 8, P: p, Band: 8 / 10.8e6, Sizes: []float64{3, 1, 5}, NFiles: 5, Depth: d, Pre: true, PerStep: hitIffResident, Ops: []Op{opClearStats()}}, final))
			out = append(out, hsuite(&Scn{Name: typ + "-watermarks", Typ: typ, Max: 8, P: marked(75, 25), Sizes: []float64{3, 1, 2}, NFiles: 5, Depth: d, Pre: true, PerStep: hitIffResident}, final))
			p2 := plain()
			p2.MaxNumDayDiff, p2.DeltaDaysStep = 1, 1
			out = append(out, hsuite(&Scn{Name: typ + "-purge", Typ: typ, Max: 4, P: p2, Sizes: []float64{1, 3}, NFiles: 4, Depth: d, Pre: true, PerStep: hitIffResident, Ops: []Op{opAdvance(86400), opAdvance(43200)}}, final))
			out = append(out, hsuite(&Scn{Name: typ + "-20-files", Typ: typ, Max: 24, P: plain(), Sizes: []float64{1, 9}, NFiles: 24, Prefix: introN(20, func(i int) float64 { return float64(1 + i%3) }), Depth: depth(tier, 3, 4), Pre: true, PerStep: hitIffResident}, final))
			out = append(out, hsuite(&Scn{Name: typ + "-changing-sizes", Typ: typ, Max: 8, P: plain(), Sizes: []float64{3, 2}, NFiles: 4, Depth: d, Pre: true, PerStep: hitIffResident, Ops: []Op{opResize(7), opResize(1)}}, final))
		}
		return out
	}})
	register("C07", &PropDef{Suites: func(tier string) []*Suite {
		d := depth(tier, 6, 8)
		final := func(h *H) {}
		out := space(tier, func(s *Scn) *Suite {
			s.Pre, s.PerStep = true, minimalEviction
			s.Ops = []Op{opClearFiles()}
			if s.Typ == "random" {
				s.PerStep = func(h *H) {} // its eviction order is unspecified
			}
			return hsuite(s, final)
		})
		for _, typ := range bounded {
			out = append(out, hsuite(&Scn{Name: typ + "-small-and-large", Typ: typ, Max: 8, P: plain(), Sizes: []float64{1, 2, 8, 4}, NFiles: 6, Depth: depth(tier, 6, 7), Pre: true, PerStep: minimalEviction}, final))
			out = append(out, hsuite(&Scn{Name: typ + "-changing-sizes", Typ: typ, Max: 8, P: plain(), Sizes: []float64{3, 2}, NFiles: 4, Depth: d, Pre: true, PerStep: minimalEviction, Ops: []Op{opResize(7), opResize(1)}}, final))
			out = append(out, hsuite(&Scn{Name: typ + "-20-files", Typ: typ, Max: 40, P: plain(), Sizes: []float64{1, 9, 25}, NFiles: 24, Prefix: introN(20, func(i int) float64 { return float64(1 + i%3) }), Depth: depth(tier, 3, 4), Pre: true, PerStep: minimalEviction}, final))
		}
		out = append(out, hsuite(with(*weightScn("weightFun", "FuncAdditive", 1, .5, 1), func(s *Scn) {
			s.Max, s.Sizes, s.NFiles, s.Depth, s.Ops = 8, []float64{3, 1, 5, 16}, 5, d, []Op{opAdvance(1920)}
			s.Pre, s.PerStep = true, minimalEviction
		}), final))
		return out
	}})

	// ---- C04 C05 C06 eviction orders ----
	order := func(typs ...string) func(tier string) []*Suite {
		return func(tier string) []*Suite {
			var out []*Suite
			chk := func(h *H) { checkOrder(h); checkLastStep(h) }
			for _, typ := range typs {
				out = append(out,
					hsuite(&Scn{Name: typ + "-3-sizes", Typ: typ, Max: 8, P: plain(), Sizes: []float64{2, 1, 4}, NFiles: 5, Depth: depth(tier, 7, 9)}, chk),
					hsuite(&Scn{Name: typ + "-equal-sizes", Typ: typ, Max: 4, P: plain(), Sizes: []float64{1}, NFiles: 6, Depth: depth(tier, 9, 10)}, chk),
					hsuite(&Scn{Name: typ + "-watermarks", Typ: typ, Max: 8, P: marked(75, 25), Sizes: []float64{2, 1}, NFiles: 6, Depth: depth(tier, 7, 9)}, chk),
					hsuite(&Scn{Name: typ + "-day-changes", Typ: typ, Max: 4, P: plain(), Sizes: []float64{1, 2}, NFiles: 5, Depth: depth(tier, 6, 8), Ops: []Op{opClearStats(), opAdvance(86400), opDump()}}, chk),
					hsuite(&Scn{Name: typ + "-free", Typ: typ, Max: 8, P: plain(), Sizes: []float64{2, 1}, NFiles: 5, Depth: depth(tier, 6, 8), Ops: []Op{opFree(1, false), opFree(3, false), opFree(50, true), opClearFiles()}}, chk),
				)
				out = append(out, hsuite(&Scn{Name: typ + "-changing-sizes", Typ: typ, Max: 8, P: plain(), Sizes: []float64{2.5, 0, 1}, NFiles: 5, Depth: depth(tier, 6, 7), Ops: []Op{opResize(7), opResize(1)}}, chk))
				p := plain()
				p.MaxNumDayDiff, p.DeltaDaysStep = 1, 1
				out = append(out, hsuite(&Scn{Name: typ + "-purge", Typ: typ, Max: 4, P: p, Sizes: []float64{1, 2}, NFiles: 5, Depth: depth(tier, 6, 8), Ops: []Op{opAdvance(86400)}}, chk))
				// a crowded cache: every pattern of re-requests over chosen positions, then evictions
				n := 20
				sc := &Scn{Name: typ + "-20-files", Typ: typ, Max: 40, P: plain(), Sizes: []float64{1, 7}, NFiles: n + 3, NoReq: true, Depth: depth(tier, 4, 5),
					Prefix: introN(n, func(i int) float64 { return float64(1 + i%3) })}
				for _, k := range []int{0, 1, 2, 10, 18, 19} {
					sc.Ops = append(sc.Ops, opNth(k))
				}
				sc.Ops = append(sc.Ops, opIntro(1), opIntro(7), opIntro(30), opRepeat(3))
				sc.NFiles = 200
				out = append(out, hsuite(sc, chk))
				// a mixed past: some files requested many times, in a scrambled order
				var pre []Op
				pre = append(pre, opIntro(1, 2, 1, 3, 1, 2))
				for i, k := range []int{3, 1, 4, 1, 5, 0, 2, 3, 3, 1} {
					pre = append(pre, opNth(k))
					if i%3 == 0 {
						pre = append(pre, opRepeat(i+1))
					}
				}
				out = append(out, hsuite(&Scn{Name: typ + "-scrambled-past", Typ: typ, Max: 10, P: plain(), Sizes: []float64{1, 4}, NFiles: 9, Prefix: pre, Depth: depth(tier, 5, 6), Ops: []Op{opRepeat(2)}}, chk))
			}
			return out
		}
	}
	register("C04", &PropDef{Suites: order("lru")})
	register("C05", &PropDef{Suites: order("lfu")})
	register("C06", &PropDef{Suites: order("sizeSmall", "sizeBig")})

	// ---- C09 request statistics ----
	register("C09", &PropDef{Suites: func(tier string) []*Suite {
		var out []*Suite
		d := depth(tier, 6, 8)
		for _, typ := range append(append([]string{}, bounded...), "random_lru") {
			s := &Scn{Name: typ, Typ: typ, Max: 8, P: plain(), Band: 16 / 10.8e6, Sizes: []float64{3, 1, 5, 16}, NFiles: 5, Depth: d, Ops: []Op{opClearStats()}}
			if typ == "random_lru" {
				s.Ref.Kind = "random"
			}
			out = append(out, hsuite(s, checkRequestStats))
		}
		for _, typ := range bounded {
			p := plain()
			p.RedirectReq = true
			out = append(out, hsuite(&Scn{Name: typ + "-redirect", Typ: typ, Max: 8, P: p, Band: 8 / 10.8e6, Sizes: []float64{3, 1, 5}, NFiles: 5, Depth: d, Ops: []Op{opClearStats()}}, checkRequestStats))
			out = append(out, hsuite(&Scn{Name: typ + "-watermarks", Typ: typ, Max: 8, P: marked(75, 25), Sizes: []float64{3, 1, 2}, NFiles: 5, Depth: d, Ops: []Op{opClearStats(), opClearFiles()}}, checkRequestStats))
			out = append(out, hsuite(&Scn{Name: typ + "-many-requests", Typ: typ, Max: 8, P: plain(), Sizes: []float64{3, 6}, NFiles: 4, Depth: depth(tier, 5, 6), Ops: []Op{opRepeat(40), opClearStats()}}, checkRequestStats))
			out = append(out, hsuite(&Scn{Name: typ + "-changing-sizes", Typ: typ, Max: 8, P: plain(), Sizes: []float64{3, 2}, NFiles: 4, Depth: d, Ops: []Op{opResize(7), opResize(1)}}, checkRequestStats))
		}
		out = append(out, hsuite(with(*weightScn("weightFun", "FuncAdditive", 1, .5, 1), func(s *Scn) {
			s.Max, s.Sizes, s.NFiles, s.Depth, s.Ops = 8, []float64{3, 1, 5, 16}, 5, d, []Op{opAdvance(1920), opClearStats()}
		}), checkRequestStats))
		return out
	}})

	// ---- C10 CPU efficiency ----
	register("C10", &PropDef{Suites: func(tier string) []*Suite {
		var out []*Suite
		for _, region := range []string{"", "it", "us", "xx"} {
			ops := []Op{opClearStats()}
			for _, f := range []int64{7, 0} {
				for _, pe := range []struct {
					p int64
					e float64
				}{{1, 90}, {0, 40}, {0, 95}, {1, 0}, {0, 0}, {2, 60}, {1, 30}} {
					f, pe := f, pe
					if f == 0 && (pe.p == 2 || pe.e == 0) {
						continue
					}
					ops = append(ops, Op{fmt.Sprintf("req file %d protocol %d efficiency %g", f, pe.p, pe.e), func(h *H) {
						h.Request(Req{File: f, Size: 3, Proto: pe.p, Eff: pe.e, Day: h.Now})
					}})
				}
			}
			// a cache of size 4 holds one of the two files: hits and misses both occur
			out = append(out, hsuite(&Scn{Name: "region-" + region, Typ: "lru", Max: 4, P: plain(), Region: region, NoReq: true, Ops: ops, Depth: depth(tier, 5, 6)}, checkCPUStats))
			p := plain()
			p.RedirectReq = true
			out = append(out, hsuite(&Scn{Name: "region-" + region + "-redirect", Typ: "lfu", Max: 4, P: p, Band: 6 / 10.8e6, Region: region, NoReq: true, Ops: ops, Depth: depth(tier, 4, 5)}, checkCPUStats))
		}
		s := weightScn("weightFun", "FuncAdditive", 1, .5, 1)
		s.Max, s.NoReq, s.Depth = 4, true, depth(tier, 5, 6)
		for _, f := range []int64{7, 0} {
			for _, pe := range [][2]float64{{1, 90}, {0, 40}, {0, 95}, {1, 0}} {
				f, pe := f, pe
				s.Ops = append(s.Ops, Op{fmt.Sprintf("req file %d protocol %g efficiency %g", f, pe[0], pe[1]), func(h *H) {
					h.Request(Req{File: f, Size: 3, Proto: int64(pe[0]), Eff: pe[1], Day: h.Now})
				}})
			}
		}
		out = append(out, hsuite(s, checkCPUStats))
		return out
	}})

	// ---- C11 redirection ----
	register("C11", &PropDef{Suites: func(tier string) []*Suite {
		var out []*Suite
		d := depth(tier, 6, 8)
		full := func(h *H) {
			checkRedirectStats(h)
			checkLastStep(h)
			checkRequestStats(h)
			if h.S.Typ != "random" {
				checkOrder(h)
			}
			checkFileStats(h, true)
		}
		for _, typ := range append(append([]string{}, bounded...), "random_lru") {
			for _, band := range []float64{20, 4, 0} {
				p := plain()
				p.RedirectReq = true
				s := &Scn{Name: fmt.Sprintf("%s-bandwidth-%g", typ, band), Typ: typ, Max: 32, P: p, Band: band / 10.8e6, Sizes: []float64{16, 3, 19, 1}, NFiles: 5, Depth: d, Ops: []Op{opClearStats()}}
				if band == 4 {
					s.Sizes, s.Max = []float64{1, 3, 4}, 4
				}
				if typ == "random_lru" {
					s.Ref.Kind = "random"
				}
				out = append(out, hsuite(s, full))
			}
			// redirection off: never
			s := &Scn{Name: typ + "-off", Typ: typ, Max: 32, P: plain(), Band: 4 / 10.8e6, Sizes: []float64{16, 3}, NFiles: 4, Depth: depth(tier, 5, 6), Ops: []Op{opClearStats()}}
			if typ == "random_lru" {
				s.Ref.Kind = "random"
			}
			out = append(out, hsuite(s, full))
		}
		p := marked(75, 25)
		p.RedirectReq = true
		out = append(out, hsuite(&Scn{Name: "lru-redirect-watermarks", Typ: "lru", Max: 8, P: p, Band: 8 / 10.8e6, Sizes: []float64{3, 1, 5}, NFiles: 5, Depth: d, Ops: []Op{opClearStats(), opClearFiles()}}, full))
		return out
	}})

	// ---- C12 watermarks ----
	register("C12", &PropDef{Suites: func(tier string) []*Suite {
		var out []*Suite
		d := depth(tier, 6, 8)
		chk := func(h *H) {
			checkOrder(h)
			checkLastStep(h)
			h.wantF("occupancy", cache.Size(h.I), h.M.Size())
			h.wantI("deleted files", cache.NumDeleted(h.I), h.M.NDel)
			if h.Last != nil && !h.IRedir {
				if c := cache.Capacity(h.I); c >= h.S.P.HighWatermark && c > h.S.P.LowWatermark+1e-9 {
					h.C.Failf("after a request the occupancy %v%% is above the high watermark %v%%", c, h.S.P.HighWatermark)
				}
			}
		}
		for _, typ := range bounded {
			for _, w := range [][2]float64{{75, 50}, {75, 25}, {100, 50}, {50, 12.5}, {87.5, 87.5}, {37.5, 0}} {
				out = append(out, hsuite(&Scn{Name: fmt.Sprintf("%s-%g-%g", typ, w[0], w[1]), Typ: typ, Max: 100, P: marked(w[0], w[1]), Sizes: []float64{25, 12.5, 50, 100}, NFiles: 6, Depth: d}, chk))
			}
			off := plain()
			off.HighWatermark, off.LowWatermark = 50, 25
			out = append(out, hsuite(&Scn{Name: typ + "-off", Typ: typ, Max: 100, P: off, Sizes: []float64{25, 50}, NFiles: 5, Depth: depth(tier, 5, 6)}, func(h *H) { checkOrder(h) }))
			out = append(out, hsuite(&Scn{Name: typ + "-20-files", Typ: typ, Max: 400, P: marked(75, 25), Sizes: []float64{12.5, 100}, NFiles: 30, Prefix: introN(22, func(i int) float64 { return []float64{12.5, 25, 12.5}[i%3] }), Depth: depth(tier, 3, 4)}, chk))
		}
		return out
	}})

	// ---- C14 misses after deletion ----
	register("C14", &PropDef{Suites: func(tier string) []*Suite {
		var out []*Suite
		read := Op{"read and reset the misses-after-delete figure", func(h *H) {
			h.wantI("misses on deleted files", int64(cache.GetTotDeletedFileMiss(h.I)), int64(h.M.totMiss()))
		}}
		chk := func(h *H) {
			h.wantI("misses on deleted files", int64(cache.GetTotDeletedFileMiss(h.I)), int64(h.M.totMiss()))
			h.wantI("misses on deleted files, read again at once", int64(cache.GetTotDeletedFileMiss(h.I)), 0)
		}
		for _, typ := range bounded {
			out = append(out,
				hsuite(&Scn{Name: typ, Typ: typ, Max: 4, P: plain(), Sizes: []float64{1, 3}, NFiles: 5, Depth: depth(tier, 7, 9), Ops: []Op{read}}, chk),
				hsuite(&Scn{Name: typ + "-oversized", Typ: typ, Max: 4, P: plain(), Sizes: []float64{2, 9}, NFiles: 4, Depth: depth(tier, 6, 8), Ops: []Op{read, opClearStats()}}, chk),
				hsuite(&Scn{Name: typ + "-watermarks", Typ: typ, Max: 8, P: marked(75, 25), Sizes: []float64{2, 4}, NFiles: 5, Depth: depth(tier, 6, 8), Ops: []Op{read, opClearStats()}}, chk))
			p := plain()
			p.RedirectReq = true
			out = append(out, hsuite(&Scn{Name: typ + "-redirect", Typ: typ, Max: 4, P: p, Band: 8 / 10.8e6, Sizes: []float64{2, 3}, NFiles: 5, Depth: depth(tier, 6, 8), Ops: []Op{read, opClearStats()}}, chk))
		}
		return out
	}})

	// ---- C15 per-file statistics ----
	register("C15", &PropDef{Suites: func(tier string) []*Suite {
		var out []*Suite
		chk := func(h *H) { checkTracked(h); checkFileStats(h, true) }
		for _, typ := range append(append([]string{}, bounded...), "random_lru", "weight") {
			s := Scn{Name: typ, Typ: typ, Max: 4, P: plain(), Sizes: []float64{1, 3}, NFiles: 4}
			if typ == "random_lru" {
				s.Ref.Kind = "random"
			}
			if typ == "weight" {
				s = *weightScn("weightFun", "FuncAdditive", 1, .5, 1)
				s.Max, s.Sizes, s.NFiles = 4, []float64{1, 3}, 4
			}
			s.Depth = depth(tier, 6, 8)
			s.Ops = []Op{opAdvance(3600), opClearStats()}
			if typ == "lru" || typ == "weight" {
				s.Ops = append(s.Ops, opResize(2))
			}
			out = append(out, hsuite(&s, chk))
			r := s
			r.Name += "-many-requests"
			r.Depth = depth(tier, 5, 6)
			r.Ops = []Op{opAdvance(60), opRepeat(31), opRepeat(1), Op{"request last file 40 times, a minute apart", func(h *H) {
				for i := 0; i < 40 && h.Last != nil; i++ {
					h.Now += 60
					h.req(h.Last.File)
				}
			}}}
			out = append(out, hsuite(&r, chk))
		}
		return out
	}})

	// ---- C16 purge ----
	register("C16", &PropDef{Suites: func(tier string) []*Suite {
		var out []*Suite
		chk := func(h *H) { checkTracked(h); checkFileStats(h, true); checkOrder(h) }
		for _, typ := range append(append([]string{}, bounded...), "random_lru", "weight") {
			for _, dd := range [][2]float64{{2, 1}, {1, 2}, {1, 1}, {0, 0}, {0.5, 3}} {
				s := Scn{Name: typ, Typ: typ, Max: 4, P: plain(), Sizes: []float64{1, 3}, NFiles: 4}
				if typ == "random_lru" {
					s.Ref.Kind = "random"
				}
				if typ == "weight" {
					s = *weightScn("weightFun", "FuncAdditive", 1, .5, 1)
					s.Max, s.Sizes, s.NFiles = 4, []float64{1, 3}, 4
				}
				s.Name = fmt.Sprintf("%s-keep-%g-every-%g-days", s.Name, dd[0], dd[1])
				s.P.MaxNumDayDiff, s.P.DeltaDaysStep = dd[0], dd[1]
				s.Depth = depth(tier, 6, 7)
				s.Ops = []Op{opAdvance(86400), opAdvance(43200)}
				if typ == "lru" {
					s.Ops = append(s.Ops, opClearStats(), opAdvance(-43200))
				}
				out = append(out, hsuite(&s, chk))
			}
		}
		return out
	}})

	// ---- C17 weight policy ----
	register("C17", &PropDef{Suites: func(tier string) []*Suite {
		var out []*Suite
		chk := func(h *H) {
			checkLastStep(h)
			checkOrder(h)
			sum := 0.
			got := implTracked(h.I)
			for name, m := range h.M.Tracked {
				g := got[name]
				if g == nil {
					h.C.Failf("file %d has no statistics", name)
				}
				h.wantF(fmt.Sprintf("weight of file %d", name), g.Weight, m.Weight)
				sum += m.Weight
			}
			want := fmt.Sprintf("a:%0.2f|b:%0.2f|g:%0.2f|wAVG:%0.2f", h.S.P.WfParams.Alpha, h.S.P.WfParams.Beta, h.S.P.WfParams.Gamma, sum/float64(len(h.M.Tracked)))
			if g := cache.ExtraStats(h.I); g != want && len(h.M.Tracked) > 0 {
				h.C.Failf("reported mean weight: got %q, want %q", g, want)
			}
		}
		for _, w := range []struct {
			fun     string
			a, b, g float64
		}{{"FuncAdditive", 1, .5, 1}, {"FuncAdditive", -1, 1, 0}, {"FuncAdditive", 0, 0, 0}, {"FuncAdditiveExp", 1, 1, 1}, {"FuncAdditiveExp", 2, 1, 0}, {"FuncMultiplicative", 1, 1, 1}, {"FuncMultiplicative", 2, 1, 0}} {
			n := fmt.Sprintf("%s(%g,%g,%g)", w.fun, w.a, w.b, w.g)
			s := weightScn(n, w.fun, w.a, w.b, w.g)
			s.Max, s.Sizes, s.NFiles, s.Depth = 8, []float64{2, 4, 8}, 5, depth(tier, 6, 7)
			s.Ops = []Op{opAdvance(1920)}
			out = append(out, hsuite(s, chk))
			p := *s
			p.Name += "-purge"
			p.P.MaxNumDayDiff, p.P.DeltaDaysStep = 1, 1
			p.Sizes, p.Max, p.Depth = []float64{2, 4}, 4, depth(tier, 6, 7)
			p.Ops = []Op{opAdvance(86400), opAdvance(1920)}
			out = append(out, hsuite(&p, chk))
			q := *s
			q.Name += "-cold-start"
			q.Sizes, q.Max, q.Depth = []float64{2, 4}, 4, depth(tier, 5, 6)
			q.Ops = []Op{opClearFiles(), opClear(), opClearStats(), opRepeat(33), opResize(4)}
			out = append(out, hsuite(&q, chk))
		}
		return out
	}})
}
