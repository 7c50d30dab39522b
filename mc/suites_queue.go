//go:build go1.21

package main

import (
	"fmt"
	"hash/fnv"
	"math"
	"sort"

	"simulator/v2/cache/files"
	"simulator/v2/cache/queue"
)

// suites_queue.go: C08, direct operation sequences on the eviction queues.
// The model is a plain slice kept in order of last insertion or update, stably
// sorted by the criterion when it is listed.

type qkind struct {
	name string
	mk   func() queue.Queue
	key  func(f *files.Stats) float64
	set  func(f *files.Stats, k float64)
	desc bool
	none bool
}

func qkinds() []qkind {
	size := func(f *files.Stats) float64 { return f.Size }
	setSize := func(f *files.Stats, k float64) { f.Size = k }
	return []qkind{
		{name: "lru", mk: func() queue.Queue { return &queue.LRU{} }, key: func(*files.Stats) float64 { return 0 }, set: func(*files.Stats, float64) {}},
		{name: "lfu", mk: func() queue.Queue { return &queue.LFU{} }, key: func(f *files.Stats) float64 { return float64(f.Frequency) }, set: func(f *files.Stats, k float64) { f.Frequency = int64(k) }},
		{name: "size-small", mk: func() queue.Queue { return &queue.SizeSmall{} }, key: size, set: setSize},
		{name: "size-big", mk: func() queue.Queue { return &queue.SizeBig{} }, key: size, set: setSize, desc: true},
		{name: "weighted", mk: func() queue.Queue { return &queue.Weighted{} }, key: func(f *files.Stats) float64 { return f.Weight }, set: func(f *files.Stats, k float64) { f.Weight = k }},
		{name: "none", mk: func() queue.Queue { return &queue.QueueNone{} }, key: func(*files.Stats) float64 { return 0 }, set: func(*files.Stats, float64) {}, none: true},
	}
}

type qrun struct {
	c    *Chooser
	k    qkind
	q    queue.Queue
	m    []*files.Stats // in order of last insertion or update
	seen []*files.Stats
	few  bool // list up to a size at few places only
}

func (r *qrun) sorted() []*files.Stats {
	if r.few {
		at := map[float64][]*files.Stats{}
		var keys []float64
		for _, f := range r.m {
			k := r.k.key(f)
			if at[k] == nil {
				keys = append(keys, k)
			}
			at[k] = append(at[k], f)
		}
		sort.Float64s(keys)
		var out []*files.Stats
		for i := range keys {
			if r.k.desc {
				i = len(keys) - 1 - i
			}
			out = append(out, at[keys[i]]...)
		}
		return out
	}
	out := append([]*files.Stats{}, r.m...)
	sort.SliceStable(out, func(i, j int) bool {
		if r.k.desc {
			return r.k.key(out[i]) > r.k.key(out[j])
		}
		return r.k.key(out[i]) < r.k.key(out[j])
	})
	return out
}

func (r *qrun) drop(f *files.Stats) {
	for i, g := range r.m {
		if g == f {
			r.m = append(append([]*files.Stats{}, r.m[:i]...), r.m[i+1:]...)
			return
		}
	}
}

func (r *qrun) dropAll(fs []*files.Stats) {
	gone := map[*files.Stats]bool{}
	for _, f := range fs {
		gone[f] = true
	}
	var m []*files.Stats
	for _, f := range r.m {
		if !gone[f] {
			m = append(m, f)
		}
	}
	r.m = m
}

func (r *qrun) in(f *files.Stats) bool {
	for _, g := range r.m {
		if g == f {
			return true
		}
	}
	return false
}

func (r *qrun) insert(f *files.Stats) {
	r.c.Op("insert %d (key %g, size %g)", f.Filename, r.k.key(f), f.Size)
	queue.Insert(r.q, f)
	r.m = append(r.m, f)
}

func (r *qrun) update(f *files.Stats, key float64) {
	r.k.set(f, key)
	r.c.Op("update %d (key %g, size %g)", f.Filename, r.k.key(f), f.Size)
	queue.Update(r.q, f)
	r.drop(f)
	r.m = append(r.m, f)
}

func (r *qrun) remove(fs ...*files.Stats) {
	var ns []int64
	for _, f := range fs {
		ns = append(ns, f.Filename)
		r.drop(f)
	}
	r.c.Op("remove %v", ns)
	queue.Remove(r.q, ns)
}

func (r *qrun) removeWorst(n int) {
	w := r.sorted()
	var ns []int64
	for _, f := range w[:n] {
		ns = append(ns, f.Filename)
	}
	r.dropAll(w[:n])
	if n > 50 {
		r.c.Op("remove the worst %d", n)
	} else {
		r.c.Op("remove the worst %v", ns)
	}
	queue.RemoveWorst(r.q, ns)
}

func (r *qrun) check() {
	want := r.sorted()
	if n := queue.Len(r.q); n != len(want) {
		r.c.Failf("length %d, want %d", n, len(want))
	}
	has := map[*files.Stats]bool{}
	for _, f := range r.m {
		has[f] = true
	}
	for _, f := range r.seen {
		if got := queue.Check(r.q, f.Filename); got != has[f] {
			r.c.Failf("file %d in queue: %v, want %v", f.Filename, got, has[f])
		}
		if has[f] && queue.GetFileStats(r.q, f.Filename) != f {
			r.c.Failf("lookup of file %d gives another record", f.Filename)
		}
	}
	if queue.Check(r.q, 424242) {
		r.c.Failf("a file never inserted is in the queue")
	}
	same := func(what string, got, want []*files.Stats) {
		if len(got) != len(want) && len(got)+len(want) > 50 {
			r.c.Failf("%s: %d files, want %d", what, len(got), len(want))
		}
		if len(got) != len(want) {
			r.c.Failf("%s: got %v, want %v", what, names(got), names(want))
		}
		for i := range got {
			if got[i] != want[i] {
				if len(got) > 50 {
					r.c.Failf("%s: place %d of %d is file %d, want %d", what, i, len(got), got[i].Filename, want[i].Filename)
				}
				r.c.Failf("%s: got %v, want %v", what, names(got), names(want))
			}
		}
	}
	worst := append([]*files.Stats{}, queue.GetFromWorst(r.q)...)
	best := append([]*files.Stats{}, queue.Get(r.q)...)
	if r.k.none {
		key := func(fs []*files.Stats) []int64 {
			n := names(fs)
			sort.Slice(n, func(i, j int) bool { return n[i] < n[j] })
			return n
		}
		if !eqInts(key(worst), key(want)) || !eqInts(key(best), key(want)) {
			r.c.Failf("listing: got %v and %v, want %v", key(worst), key(best), key(want))
		}
		return
	}
	same("worst first", worst, want)
	rev := make([]*files.Stats, len(want))
	for i, f := range want {
		rev[len(want)-1-i] = f
	}
	same("best first", best, rev)
	sum := 0.
	for i, f := range want {
		sum += f.Size
		if r.few && i > 0 && i%(len(want)/3+1) != 7 && i < len(want)-1 {
			continue
		}
		for _, d := range []float64{-0.5, 0, 0.5} {
			tot := sum + d
			if tot <= 0 {
				continue
			}
			n, s := 0, 0.
			for n < len(want) && s < tot {
				s += want[n].Size
				n++
			}
			got := queue.GetWorstFilesUp2Size(r.q, tot)
			same(fmt.Sprintf("worst files reaching %g", tot), got, want[:n])
		}
	}
	h := fnv.New64a()
	fmt.Fprint(h, r.k.name)
	for _, f := range want {
		fmt.Fprintf(h, ",%d:%g:%g", f.Filename, r.k.key(f), f.Size)
	}
	r.c.StateHash(h.Sum64())
}

func queueSuite(k qkind, keys []float64, nfiles, depth int) *Suite {
	return &Suite{
		Name:   fmt.Sprintf("%s-keys-%v", k.name, keys),
		Bounds: fmt.Sprintf("every sequence of up to %d operations (insert, update with a new key, remove one or two, remove the worst n, reset) on at most %d files with keys %v", depth, nfiles, keys),
		Shard:  3,
		Run: func(c *Chooser) {
			r := &qrun{c: c, k: k, q: k.mk()}
			queue.Init(r.q)
			n := c.Choose(depth + 1)
			for i := 0; i < n; i++ {
				r.step(keys, nfiles)
			}
			r.check()
		},
	}
}

func (r *qrun) step(keys []float64, nfiles int) {
	// alphabet: new file x key, each absent file, each present file x key (update), remove each present,
	// remove each adjacent pair in listing order (either way), remove the worst 1..n, reset
	type act func()
	var acts []act
	if len(r.seen) < nfiles {
		for _, k := range keys {
			k := k
			acts = append(acts, func() {
				f := &files.Stats{Filename: fileNames[len(r.seen)], Size: float64(1 + len(r.seen)%3)}
				r.k.set(f, k)
				r.seen = append(r.seen, f)
				r.insert(f)
			})
		}
	}
	for _, f := range r.seen {
		f := f
		if !r.in(f) {
			acts = append(acts, func() { r.insert(f) })
			continue
		}
		for _, k := range keys {
			k := k
			acts = append(acts, func() { r.update(f, k) })
		}
		acts = append(acts, func() { r.remove(f) })
	}
	n := len(r.m)
	for i := 1; i <= n; i++ {
		i := i
		acts = append(acts, func() { r.removeWorst(i) })
	}
	if n >= 2 {
		acts = append(acts, func() { r.remove(r.m[0], r.m[n-1]) }, func() { r.remove(r.m[n-1], r.m[0]) })
	}
	acts = append(acts, func() { r.c.Op("reset"); queue.Init(r.q); r.m = nil })
	acts[r.c.Choose(len(acts))]()
}

// crowded: a queue of n files, then every sequence of operations at chosen positions.
func crowdedSuite(k qkind, n, depth int) *Suite {
	return &Suite{
		Name:   fmt.Sprintf("%s-%d-files", k.name, n),
		Bounds: fmt.Sprintf("a queue of %d files with repeated keys, then every sequence of up to %d operations (update with a lower, equal or higher key, remove, insert, remove the worst n) at 6 positions", n, depth),
		Shard:  3,
		Run: func(c *Chooser) {
			r := &qrun{c: c, k: k, q: k.mk()}
			queue.Init(r.q)
			for i := 0; i < n; i++ {
				f := &files.Stats{Filename: int64(100 - 3*i), Size: float64(1 + i%4)}
				r.k.set(f, float64(2+(i*5)%7/2))
				r.seen = append(r.seen, f)
				r.insert(f)
			}
			d := c.Choose(depth + 1)
			for i := 0; i < d; i++ {
				switch c.Choose(4) {
				case 0:
					f := r.seen[Pick(c, []int{0, 1, n / 2, n - 2, n - 1})]
					if r.in(f) {
						r.update(f, Pick(c, []float64{1, 3, 9, math.Max(1, r.k.key(f))}))
					} else {
						r.insert(f)
					}
				case 1:
					if m := len(r.m); m > 2 {
						w := r.sorted()
						switch c.Choose(4) {
						case 0:
							r.remove(w[0])
						case 1:
							r.remove(w[m/2])
						case 2:
							r.remove(w[m-1])
						case 3:
							r.remove(w[m-1], w[0], w[m/2])
						}
					}
				case 2:
					if m := len(r.m); m > 0 {
						k := Pick(c, []int{1, 3, m / 2, m - 1, m})
						if k >= 1 && k <= m {
							r.removeWorst(k)
						}
					}
				case 3:
					f := &files.Stats{Filename: int64(500 + i), Size: 2}
					r.k.set(f, Pick(c, []float64{1, 3, 9}))
					r.seen = append(r.seen, f)
					r.insert(f)
				}
			}
			r.check()
		},
	}
}

// bigSuite: thousands of files, at most two operations at places spread over the order.
func bigSuite(k qkind, n, depth int) *Suite {
	return &Suite{
		Name:   fmt.Sprintf("%s-%d-files", k.name, n),
		Bounds: fmt.Sprintf("a queue of %d files with few different keys, then every sequence of up to %d operations (update with a lower, equal or higher key, remove, insert, remove the worst part) at several places of the order", n, depth),
		Shard:  2,
		Run: func(c *Chooser) {
			r := &qrun{c: c, k: k, q: k.mk(), few: true}
			queue.Init(r.q)
			for i := 0; i < n; i++ {
				f := &files.Stats{Filename: int64(100000 - 3*i), Size: float64(1 + i%4)}
				r.k.set(f, float64(2+(i*5)%7/2))
				r.seen = append(r.seen, f)
				queue.Insert(r.q, f)
			}
			r.m = append(r.m, r.seen...)
			c.Op("insert %d files", n)
			for i := c.Choose(depth + 1); i > 0; i-- {
				w := r.sorted()
				m := len(w)
				at := func() *files.Stats {
					if n > 5000 {
						return w[Pick(c, []int{m / 16, m / 2})]
					}
					return w[Pick(c, []int{0, m / 16, m / 5, m / 2, m * 9 / 10, m - 1})]
				}
				switch c.Choose(4) {
				case 0:
					if m > 0 {
						f := at()
						if n > 5000 {
							r.update(f, Pick(c, []float64{r.k.key(f), 9}))
						} else {
							r.update(f, Pick(c, []float64{1, r.k.key(f), 9}))
						}
					}
				case 1:
					if m > 0 {
						r.remove(at())
					}
				case 2:
					if m > 0 {
						if n > 5000 {
							r.removeWorst(Pick(c, []int{m * 2 / 5, m - 1}))
						} else {
							r.removeWorst(Pick(c, []int{1, m * 2 / 5, m / 2, m - 1, m}))
						}
					}
				case 3:
					f := &files.Stats{Filename: int64(500000 + i), Size: 2}
					if n > 5000 {
						r.k.set(f, 3)
					} else {
						r.k.set(f, Pick(c, []float64{1, 3, 9}))
					}
					r.seen = append(r.seen, f)
					r.insert(f)
				}
			}
			r.check()
		},
	}
}

func init() {
	register("C08", &PropDef{Suites: func(tier string) []*Suite {
		var out []*Suite
		for _, k := range qkinds() {
			if k.name == "lru" || k.none {
				out = append(out, queueSuite(k, []float64{1}, 5, depth(tier, 7, 8)))
			} else {
				out = append(out, queueSuite(k, []float64{2, 1}, 4, depth(tier, 5, 6)), queueSuite(k, []float64{1.5, 7, 3}, 3, depth(tier, 5, 6)))
			}
			if k.name == "weighted" {
				out = append(out, queueSuite(k, []float64{0, -1, 2.5}, 3, depth(tier, 5, 6)))
			}
			out = append(out, crowdedSuite(k, 20, depth(tier, 3, 4)), bigSuite(k, 1500, 2), bigSuite(k, 40000, depth(tier, 2, 3)))
		}
		return out
	}})
}
