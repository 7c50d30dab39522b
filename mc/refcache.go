//go:build go1.21

package main

import (
	"math"
	"sort"
	"time"
)

// refcache.go: the reference model of a simulated cache.  It is a deliberately
// boring list-and-map program: no queues, no indexes, no incremental sums that
// could share a mistake with the implementation.

// RFile is what the model knows about one tracked file.
type RFile struct {
	Name       int64
	Size       float64
	Freq       int64
	NHits      int64
	NMiss      int64
	LastTick   int64
	Delta      int64
	Insert     time.Time
	Last       time.Time
	Times      []time.Time // every request instant, oldest first
	Weight     float64
	InCache    bool
	touchOrder int64
}

// RefParams configures the model.
type RefParams struct {
	Order      string // lru lfu small big weight
	Kind       string // simple random weight dataset infinite
	Max        float64
	Redirect   bool
	Watermarks bool
	High, Low  float64
	Region     string
	Bandwidth  float64 // already multiplied
	MaxDayDiff float64
	DeltaDays  float64
	WFun       func(freq int64, size, mean float64) float64
	Dataset    map[int64]bool
}

// Ref is the model state.
type Ref struct {
	P       RefParams
	Tracked map[int64]*RFile
	Res     []*RFile // residents, least recently touched first
	Max     float64

	Tick      int64
	First     time.Time
	LastUpd   time.Time
	touch     int64
	watch     map[int64]int // misses on files deleted by the latest cleaning
	missTotal int

	// since the last statistics reset
	NReq, NHit, NMiss, NAdd, NDel, NRedir int64
	RedirSize, Written, Deleted           float64
	ReadHit, ReadMiss                     float64
	Free                                  []float64
	HitEff, MissEff, Upper, Lower         float64
	NLocal, NRemote                       int64

	// last step
	Added, Redirected, WasHit bool
	Victims                   []int64
	Cleaned                   bool

	Ev func(kind string, file int64, size float64, f *RFile) // event log, if wanted
}

func (r *Ref) ev(kind string, file int64, size float64, f *RFile) {
	if r.Ev != nil {
		r.Ev(kind, file, size, f)
	}
}

func newRef(p RefParams) *Ref {
	return &Ref{P: p, Max: p.Max, Tracked: map[int64]*RFile{}, watch: map[int64]int{}}
}

// Size is the occupancy by definition: the sum of the resident sizes.
func (r *Ref) Size() float64 {
	t := 0.
	for _, f := range r.Res {
		t += f.Size
	}
	return t
}

func (r *Ref) resident(f int64) bool {
	t := r.Tracked[f]
	return t != nil && t.InCache
}

// FromWorst lists the residents in eviction order.
func (r *Ref) FromWorst() []*RFile {
	out := append([]*RFile{}, r.Res...)
	switch r.P.Order {
	case "lru":
	case "lfu":
		sort.SliceStable(out, func(i, j int) bool { return out[i].Freq < out[j].Freq })
	case "small":
		sort.SliceStable(out, func(i, j int) bool { return out[i].Size < out[j].Size })
	case "big":
		sort.SliceStable(out, func(i, j int) bool { return out[i].Size > out[j].Size })
	}
	return out
}

func (r *Ref) clean(amount float64) {
	for _, n := range r.watch {
		r.missTotal += n
	}
	r.watch = map[int64]int{}
	if amount <= 0 {
		return
	}
	r.ev("FREE", -1, -1, nil)
	got := 0.
	for _, f := range r.FromWorst() {
		if got >= amount {
			break
		}
		got += f.Size
		r.evict(f)
	}
}

func (r *Ref) evict(f *RFile) {
	f.InCache = false
	r.drop(f)
	r.Deleted += f.Size
	r.NDel++
	r.watch[f.Name] = 0
	r.Victims = append(r.Victims, f.Name)
	r.ev("DELETE", f.Name, f.Size, f)
}

func (r *Ref) drop(f *RFile) {
	for i, g := range r.Res {
		if g == f {
			r.Res = append(r.Res[:i:i], r.Res[i+1:]...)
			return
		}
	}
}

func (r *Ref) touchFile(f *RFile) {
	r.drop(f)
	r.Res = append(r.Res, f)
}

func (r *Ref) boundDiff() float64 {
	switch r.P.Region {
	case "it":
		return 19
	case "us":
		return 10
	case "":
		if r.NLocal > 0 && r.NRemote > 0 {
			if d := r.Upper/float64(r.NLocal) - r.Lower/float64(r.NRemote); d > 0 {
				return d
			}
		}
	}
	return 0
}

func (r *Ref) meanTimes(f *RFile) float64 {
	ts := f.Times
	if len(ts) > 32 {
		ts = ts[len(ts)-32:]
	}
	var tot time.Duration
	for _, t := range ts {
		tot += f.Last.Sub(t)
	}
	return tot.Minutes() / 32
}

// Req is one request.
type Req struct {
	File  int64
	Size  float64
	Proto int64
	Eff   float64
	Day   int64 // unix seconds
	Site  int64
	User  int64
	Type  int64
}

func (r *Ref) probe(f int64) {
	if r.resident(f) {
		r.ev("HIT", f, -1, nil)
	} else {
		r.ev("MISS", f, -1, nil)
		if _, ok := r.watch[f]; ok {
			r.watch[f]++
		}
	}
}

// Request steps the model; coin tells what an admission coin (random policy)
// decided, and is only consulted when the policy is allowed to choose.
func (r *Ref) Request(q Req, coin func() bool) {
	r.Added, r.Redirected, r.Victims = false, false, nil
	hit := r.resident(q.File)
	r.WasHit = hit
	r.probe(q.File)
	if !hit && r.P.Redirect && r.ReadMiss/r.P.Bandwidth*100 >= 95 {
		r.NRedir++
		r.RedirSize += q.Size
		r.Redirected = true
		r.ev("REDIRECT", q.File, q.Size, nil)
		return
	}
	r.NReq++
	now := time.Unix(q.Day, 0)
	if r.First.IsZero() {
		r.First = now
	}
	r.LastUpd = now
	f := r.Tracked[q.File]
	if f == nil {
		f = &RFile{Name: q.File, Size: q.Size, Insert: now, Delta: math.MaxInt64, LastTick: r.Tick}
		r.Tracked[q.File] = f
	} else {
		f.Delta = r.Tick - f.LastTick
		f.LastTick = r.Tick
		if !hit {
			f.Size = q.Size
		}
	}
	if r.P.Kind != "infinite" {
		f.Freq++
		if hit {
			f.NHits++
		} else {
			f.NMiss++
		}
		f.Last = now
		f.Times = append(f.Times, now)
		if r.P.WFun != nil {
			f.Weight = r.P.WFun(f.Freq, f.Size, r.meanTimes(f))
		}
	}
	// placement
	if hit {
		r.touchFile(f)
	} else {
		admit := true
		switch r.P.Kind {
		case "weight":
			sum := 0.
			for _, g := range r.Tracked {
				sum += g.Weight
			}
			admit = f.Weight <= sum/float64(len(r.Tracked))
		case "random":
			admit = coin()
		case "dataset":
			admit = r.P.Dataset[q.File]
		case "infinite":
			r.Max += q.Size
		}
		if admit {
			if r.Size()+q.Size > r.Max {
				r.clean(q.Size)
			}
			if r.Size()+q.Size <= r.Max {
				f.InCache = true
				r.Res = append(r.Res, f)
				r.Added = true
				r.ev("ADD", f.Name, f.Size, f)
			}
		}
	}
	// accounting
	eff := 0.
	if q.Eff != 0 {
		switch q.Proto {
		case 1:
			r.Upper += q.Eff
			r.NLocal++
			eff = q.Eff
		case 0:
			r.Lower += q.Eff
			r.NRemote++
			eff = q.Eff + r.boundDiff()
		}
	}
	if hit {
		r.NHit++
		r.ReadHit += q.Size
		r.HitEff += eff
	} else {
		r.NMiss++
		r.ReadMiss += q.Size
		if eff != 0 {
			r.MissEff += eff - r.boundDiff()
		}
	}
	if r.Added {
		r.Written += q.Size
		r.NAdd++
	}
	r.Free = append(r.Free, r.Max-r.Size())
	if days(r.LastUpd.Sub(r.First)) >= r.P.DeltaDays {
		for name, g := range r.Tracked {
			if !g.InCache && days(r.LastUpd.Sub(g.Last)) >= r.P.MaxDayDiff {
				delete(r.Tracked, name)
			}
		}
		r.First = r.LastUpd
	}
	r.Tick++
	r.watermark()
}

func days(d time.Duration) float64 { return d.Hours() / 24 }

func (r *Ref) watermark() {
	r.Cleaned = false
	if r.P.Watermarks {
		c := r.Size() / r.Max * 100
		if c >= r.P.High {
			r.Cleaned = true
			r.clean((c - r.P.Low) * (r.Max / 100))
		}
	}
}

// ClearStats resets the daily statistics.
func (r *Ref) ClearStats() {
	r.NReq, r.NHit, r.NMiss, r.NAdd, r.NDel, r.NRedir = 0, 0, 0, 0, 0, 0
	r.RedirSize, r.Written, r.Deleted, r.ReadHit, r.ReadMiss = 0, 0, 0, 0, 0
	r.Free = nil
	r.HitEff, r.MissEff, r.Upper, r.Lower = 0, 0, 0, 0
	r.NLocal, r.NRemote = 0, 0
}

// Reset makes the model a new cache (statistics and files forgotten).
func (r *Ref) Reset() {
	p, ev := r.P, r.Ev
	*r = *newRef(p)
	r.Ev = ev
}

func (r *Ref) totMiss() int {
	t := r.missTotal
	for k, n := range r.watch {
		t += n
		r.watch[k] = 0
	}
	r.missTotal = 0
	return t
}

func (r *Ref) hitRate() float64 {
	if r.NHit+r.NMiss == 0 {
		return 0
	}
	return float64(r.NHit) / float64(r.NHit+r.NMiss) * 100
}

func (r *Ref) meanFree() float64 {
	t := 0.
	for _, x := range r.Free {
		t += x
	}
	return t / float64(len(r.Free))
}

func (r *Ref) stdFree() float64 {
	m, t := r.meanFree(), 0.
	for _, x := range r.Free {
		t += (x - m) * (x - m)
	}
	return math.Sqrt(t / float64(len(r.Free)-1))
}

func feq(a, b float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	if a == b {
		return true
	}
	return math.Abs(a-b) <= 1e-9*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}
