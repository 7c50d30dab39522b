//go:build go1.21

package main

import (
	"fmt"

	"simulator/v2/cache"
)

// suites_crowd.go: the properties of a single cache again, with hundreds and
// thousands of files in it, and cleanings and purges of many of them at once:
// what holds of a handful of files has to hold of a crowd.

func init() {
	for i := int64(120); i < 6000; i++ {
		fileNames = append(fileNames, 1000+i*7)
	}
}

type crowd struct{ n, depth int }

func crowdSizes(tier string) []crowd {
	if tier == "thorough" {
		return []crowd{{0, 7}, {70, 4}, {260, 3}, {1100, 2}, {4200, 1}}
	}
	return []crowd{{0, 5}, {70, 3}, {1100, 1}}
}

// a crowd of none stands for few files of extreme sizes
const edgeMax = 1e8

var edgeSizes = []float64{0, .25, 1<<25 + .75, 1<<25 + .0625}

func (cr crowd) amount(share float64) float64 {
	if cr.n == 0 {
		return edgeMax * share
	}
	return float64(cr.n) * share
}

// crowded fills the cache of the scenario with n files up to the share given,
// requests some of them again, and then goes through every sequence of
// operations on few positions of the crowd.
func crowded(s Scn, cr crowd, share float64, ops ...Op) *Scn {
	n := cr.n
	if n == 0 {
		s.Name += "-extreme-sizes"
		s.Max, s.Sizes, s.NFiles, s.Depth = edgeMax, edgeSizes, 5, cr.depth
		s.Ops = append(append([]Op{}, s.Ops...), ops...)
		return &s
	}
	total := 0.
	for i := 0; i < n; i++ {
		total += float64(1 + i%3)
	}
	s.Name = fmt.Sprintf("%s-%d-files", s.Name, n)
	s.Max = total / share
	s.NoReq, s.NFiles, s.Depth = true, n+100, cr.depth
	s.Prefix = append(append([]Op{}, s.Prefix...), introN(n, func(i int) float64 { return float64(1 + i%3) })...)
	s.Prefix = append(s.Prefix, Op{"request every 7th file again, every 21st twice", func(h *H) {
		for i := 0; i < n; i += 7 {
			h.req(h.Names[i])
			if i%21 == 0 {
				h.req(h.Names[i])
			}
		}
	}})
	half := float64(n / 2)
	s.Ops = append([]Op{opNth(1), opNth(n / 2), opNth(n - 1), opIntro(2), opIntro(half), opIntro(float64(n) * 1.5), opRepeat(40)}, ops...)
	s.Sizes = []float64{1, 2, 3}
	return &s
}

func crowdOf(id string, f func(cr crowd, add func(s *Scn, check func(h *H)))) {
	crowdSuites[id] = func(tier string) (out []*Suite) {
		for _, cr := range crowdSizes(tier) {
			f(cr, func(s *Scn, check func(h *H)) { out = append(out, hsuite(s, check)) })
		}
		return
	}
}

func init() {
	marks := marked(90, 10)
	every := func(f func(typ string)) {
		for _, typ := range bounded {
			f(typ)
		}
	}
	purge := plain()
	purge.MaxNumDayDiff, purge.DeltaDaysStep = 1, 1
	crowdOf("C01", func(cr crowd, add func(*Scn, func(*H))) {
		every(func(typ string) {
			add(crowded(Scn{Name: typ, Typ: typ, P: plain()}, cr, 1, opResize(9)), checkCapacity)
			add(crowded(Scn{Name: typ + "-watermarks", Typ: typ, P: marks}, cr, .8), checkCapacity)
		})
	})
	crowdOf("C02", func(cr crowd, add func(*Scn, func(*H))) {
		every(func(typ string) {
			add(crowded(Scn{Name: typ, Typ: typ, P: plain()}, cr, 1, opDayBase(), opDropBase()), checkAccounting)
			add(crowded(Scn{Name: typ + "-watermarks", Typ: typ, P: marks}, cr, .8, opDayBase()), checkAccounting)
			add(crowded(Scn{Name: typ + "-purge", Typ: typ, P: purge}, cr, 1, opAdvance(86400)), checkAccounting)
		})
	})
	crowdOf("C03", func(cr crowd, add func(*Scn, func(*H))) {
		every(func(typ string) {
			add(crowded(Scn{Name: typ, Typ: typ, P: plain(), Pre: true, PerStep: hitIffResident}, cr, 1, opClearFiles()), checkSet)
			add(crowded(Scn{Name: typ + "-watermarks", Typ: typ, P: marks, Pre: true, PerStep: hitIffResident}, cr, .8), checkSet)
		})
	})
	order := func(typs ...string) func(cr crowd, add func(*Scn, func(*H))) {
		return func(cr crowd, add func(*Scn, func(*H))) {
			chk := func(h *H) { checkOrder(h); checkLastStep(h) }
			for _, typ := range typs {
				add(crowded(Scn{Name: typ, Typ: typ, P: plain()}, cr, 1, opFree(60, true), opDump()), chk)
				add(crowded(Scn{Name: typ + "-watermarks", Typ: typ, P: marks}, cr, .8), chk)
				add(crowded(Scn{Name: typ + "-purge", Typ: typ, P: purge}, cr, 1, opAdvance(86400), opClearFiles()), chk)
			}
		}
	}
	crowdOf("C04", order("lru"))
	lfu := order("lfu")
	crowdOf("C05", func(cr crowd, add func(*Scn, func(*H))) {
		lfu(cr, add)
		if cr.n > 0 {
			return
		}
		// files requested very often
		often := func(i, n int) Op {
			return Op{fmt.Sprintf("request file %d %d times", i, n), func(h *H) {
				for k := 0; k < n; k++ {
					h.req(h.Names[i])
				}
			}}
		}
		for _, n := range []int{31, 255, 65535} {
			s := &Scn{Name: fmt.Sprintf("lfu-%d-requests", n), Typ: "lfu", Max: 3, P: plain(), NoReq: true, NFiles: 8, Prefix: introN(3, func(i int) float64 { return 1 }), Ops: []Op{opIntro(1), opIntro(2)}, Depth: cr.depth}
			for i := 0; i < 3; i++ {
				s.Ops = append(s.Ops, often(i, 1))
				if i < 1 || n < 1000 {
					s.Ops = append(s.Ops, often(i, n))
				}
			}
			if n > 1000 {
				s.Depth -= 2
			}
			add(s, func(h *H) { checkOrder(h); checkLastStep(h) })
		}
	})
	size := order("sizeSmall", "sizeBig")
	crowdOf("C06", func(cr crowd, add func(*Scn, func(*H))) {
		size(cr, add)
		if cr.n > 0 {
			return
		}
		const b = 1. / 1048576
		for _, typ := range []string{"sizeSmall", "sizeBig"} {
			add(&Scn{Name: typ + "-sizes-by-the-byte", Typ: typ, P: plain(), Max: 3 + 8*b, Sizes: []float64{1, 1 + b, 1 + 2*b, b}, NFiles: 6, Depth: cr.depth + 1}, func(h *H) { checkOrder(h); checkLastStep(h) })
		}
	})
	crowdOf("C07", func(cr crowd, add func(*Scn, func(*H))) {
		every(func(typ string) {
			add(crowded(Scn{Name: typ, Typ: typ, P: plain(), Pre: true, PerStep: minimalEviction}, cr, 1, opResize(9)), func(h *H) {})
		})
	})
	crowdOf("C09", func(cr crowd, add func(*Scn, func(*H))) {
		every(func(typ string) {
			if cr.n == 0 {
				// the deviation of nearly equal big numbers is not exact
				add(&Scn{Name: typ + "-odd-sizes", Typ: typ, P: plain(), Max: 4096, Sizes: []float64{0, .25, 1025, 2048.125}, NFiles: 5, Depth: cr.depth, Ops: []Op{opClearStats()}}, checkRequestStats)
				return
			}
			add(crowded(Scn{Name: typ, Typ: typ, P: plain(), Band: cr.amount(1) / 10.8e6}, cr, 1, opClearStats()), checkRequestStats)
			add(crowded(Scn{Name: typ + "-watermarks", Typ: typ, P: marks}, cr, .8, opClearStats()), checkRequestStats)
		})
	})
	crowdOf("C10", func(cr crowd, add func(*Scn, func(*H))) {
		for _, region := range []string{"", "it", "us"} {
			if cr.n == 0 {
				edge := &Scn{Name: "region-" + region + "-extreme-efficiencies", Typ: "lru", Max: 5, P: plain(), Region: region, NoReq: true, Ops: []Op{opClearStats()}, Depth: cr.depth}
				for _, f := range []int64{7, 0} {
					for _, proto := range []int64{0, 1, -1} {
						for _, eff := range []float64{1e-3, 1e-12, 100} {
							f, proto, eff := f, proto, eff
							if proto == -1 && eff != 100 {
								continue
							}
							edge.Ops = append(edge.Ops, Op{fmt.Sprintf("req file %d protocol %d efficiency %g", f, proto, eff), func(h *H) {
								h.Request(Req{File: f, Size: 3, Proto: proto, Eff: eff, Day: h.Now})
							}})
						}
					}
				}
				if edge.Depth--; region != "" {
					edge.Depth--
				}
				add(edge, checkCPUStats)
				continue
			}
			many := Op{fmt.Sprintf("%d requests of 5 files with three protocols", cr.n), func(h *H) {
				for i := 0; i < cr.n; i++ {
					h.Request(Req{File: int64(5000 + i%5), Size: float64(1 + i%3), Proto: int64(i % 7 % 3), Eff: float64(i * 7 % 100), Day: h.Now})
				}
			}}
			add(&Scn{Name: fmt.Sprintf("region-%s-%d-requests", region, cr.n), Typ: "lru", Max: 5, P: plain(), Region: region, NoReq: true, Ops: []Op{many, opClearStats(), opRepeat(3)}, Depth: 3}, checkCPUStats)
		}
	})
	crowdOf("C11", func(cr crowd, add func(*Scn, func(*H))) {
		p := plain()
		p.RedirectReq = true
		every(func(typ string) {
			// the files of the crowd use 90% of the bandwidth
			add(crowded(Scn{Name: typ, Typ: typ, P: p, Band: cr.amount(2) / .9 / 10.8e6}, cr, 1, opIntro(cr.amount(.1)), opClearStats()), func(h *H) {
				checkRedirectStats(h)
				checkLastStep(h)
				checkRequestStats(h)
				checkOrder(h)
				checkFileStats(h, true)
			})
		})
	})
	crowdOf("C12", func(cr crowd, add func(*Scn, func(*H))) {
		chk := func(h *H) {
			checkOrder(h)
			checkLastStep(h)
			h.wantF("occupancy", cache.Size(h.I), h.M.Size())
			h.wantI("deleted files", cache.NumDeleted(h.I), h.M.NDel)
		}
		every(func(typ string) {
			add(crowded(Scn{Name: typ, Typ: typ, P: marks}, cr, .8), chk)
			add(crowded(Scn{Name: typ + "-once-on-the-way", Typ: typ, P: marks}, cr, 1.5), chk)
		})
	})
	crowdOf("C14", func(cr crowd, add func(*Scn, func(*H))) {
		all := Op{"request every file again", func(h *H) {
			for _, f := range h.Names {
				h.req(f)
			}
		}}
		chk := func(h *H) {
			h.wantI("misses on deleted files", int64(cache.GetTotDeletedFileMiss(h.I)), int64(h.M.totMiss()))
		}
		every(func(typ string) {
			add(crowded(Scn{Name: typ, Typ: typ, P: plain()}, cr, 1, all), chk)
			add(crowded(Scn{Name: typ + "-watermarks", Typ: typ, P: marks}, cr, .8, all), chk)
		})
	})
	crowdOf("C15", func(cr crowd, add func(*Scn, func(*H))) {
		every(func(typ string) {
			add(crowded(Scn{Name: typ, Typ: typ, P: plain()}, cr, 1, opAdvance(3600), opClearStats()), func(h *H) { checkTracked(h); checkFileStats(h, true) })
		})
	})
	crowdOf("C16", func(cr crowd, add func(*Scn, func(*H))) {
		every(func(typ string) {
			chk := func(h *H) { checkTracked(h); checkFileStats(h, true); checkOrder(h) }
			add(crowded(Scn{Name: typ, Typ: typ, P: purge}, cr, 2, opAdvance(86400), opAdvance(43200)), chk)
			if cr.n > 0 {
				later := func(days int64) Op {
					return Op{fmt.Sprintf("request a file %d days later", days), func(h *H) {
						h.Now += days * 86400
						h.req(h.Names[0])
					}}
				}
				add(crowded(Scn{Name: typ + "-mostly-evicted", Typ: typ, P: purge}, cr, 30, later(1), later(3)), chk)
			}
		})
	})
	crowdOf("C17", func(cr crowd, add func(*Scn, func(*H))) {
		for _, p := range []float64{1e6, 1} {
			w := *weightScn(fmt.Sprintf("weightFun-keep-%g", p), "FuncAdditive", 1, .5, 1)
			w.P.MaxNumDayDiff, w.P.DeltaDaysStep = p, p
			add(crowded(w, cr, 1.2, opAdvance(1920), opAdvance(86400), opClearFiles()), func(h *H) {
				checkLastStep(h)
				checkOrder(h)
				checkTracked(h)
				sum := 0.
				got := implTracked(h.I)
				for name, m := range h.M.Tracked {
					h.wantF(fmt.Sprintf("weight of file %d", name), got[name].Weight, m.Weight)
					sum += m.Weight
				}
				want := fmt.Sprintf("a:1.00|b:0.50|g:1.00|wAVG:%0.2f", sum/float64(len(h.M.Tracked)))
				if g := cache.ExtraStats(h.I); g != want && len(h.M.Tracked) > 0 {
					h.C.Failf("reported mean weight: got %q, want %q", g, want)
				}
			})
		}
	})
	crowdOf("C20", func(cr crowd, add func(*Scn, func(*H))) {
		add(crowded(Scn{Name: "infinite", Typ: "infinite", P: plain()}, cr, 4, opClearStats()), func(h *H) {
			checkLastStep(h)
			checkSet(h)
			checkRequestStats(h)
			if got := len(implFiles(h.I)); got != len(h.M.Res) {
				h.C.Failf("%d files stored, want %d", got, len(h.M.Res))
			}
			h.wantF("occupancy", cache.Size(h.I), h.M.Size())
			h.wantF("cache size", cache.GetMaxSize(h.I), h.M.Max)
		})
	})
	crowdOf("C21", func(cr crowd, add func(*Scn, func(*H))) {
		if cr.n > 1000 {
			cr.n = 400
		}
		if cr.depth > 5 {
			cr.depth = 5
		}
		types := stateTypes(false)
		for _, s := range types {
			if s.Typ == "infinite" || s.Typ == "aiNN" || s.Typ == "lruDatasetVerifier" || s.Name == "weightFunMul" {
				continue
			}
			s.PerStep = twinStep
			add(crowded(s, cr, .8, opDumpLoad(cr.n > 100), opAdvance(3600)), func(h *H) {
				if t := h.twin(); t != nil {
					sameContents(h.C, "original against loaded", h.I, t.c, true)
					sameTracked(h.C, "original against loaded", h.I, t.c)
					sameStats(h.C, "original against loaded", h.I, t.c)
				}
				checkOrder(h)
			})
		}
	})
	crowdOf("C23", func(cr crowd, add func(*Scn, func(*H))) {
		every(func(typ string) {
			s := crowded(Scn{Name: typ, Typ: typ, P: marked(95, 40)}, cr, .9)
			s.Ops = append(s.Ops, Op{"clear", func(h *H) {
				cache.Clear(h.I)
				h.M.Reset()
				h.Last = nil
				h.Extra["twin"] = &twin{c: newImpl(h.S), ordered: true}
			}})
			s.PerStep = twinStep
			add(s, func(h *H) {
				if t := h.twin(); t != nil {
					sameContents(h.C, "new against cleared", t.c, h.I, true)
					sameTracked(h.C, "new against cleared", t.c, h.I)
					sameStats(h.C, "new against cleared", t.c, h.I)
				}
				checkOrder(h)
				if cr.n > 0 {
					checkRequestStats(h)
				} // the deviation of nearly equal big numbers is not exact
			})
		})
	})
}
