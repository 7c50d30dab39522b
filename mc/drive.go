//go:build go1.21

package main

import (
	"fmt"
	"hash/fnv"
	"math"
	"reflect"
	"simulator/v2/cache"
	"simulator/v2/cache/files"
	"simulator/v2/cache/queue"
	"strings"
	"time"
	"unsafe"

	"encoding/json"
)

// drive.go: how the suites drive and observe the implementation.

// Scn is a scenario: one configuration of the real cache, its model, and the
// alphabet of operations of the histories explored over it.
type Scn struct {
	Name    string
	Typ     string // cache type, as in the configuration file
	Max     float64
	P       cache.InitParameters
	Ref     RefParams
	Region  string
	Band    float64 // gigabit per second, as in the configuration file
	Sizes   []float64
	NFiles  int // at most this many different files
	Ops     []Op
	Prefix  []Op // executed first (scaffold towards a non-initial state)
	Depth   int
	MinLen  int
	Free    bool // new files: canonical introduction with any size
	NoReq   bool // no plain request operation
	Forced  []float64
	PerStep func(h *H) // runs after every request
	Pre     bool       // record the contents before every request
	NoModel bool       // the outcome is not deterministic: do not step the model
	Proto   int64      // protocol and efficiency of the plain requests
	Eff     float64
}

// FS is a file name with its size.
type FS struct {
	Name int64
	Size float64
}

// Op is one operation of an alphabet.
type Op struct {
	Label string
	Do    func(h *H)
}

// H is one running history.
type H struct {
	C     *Chooser
	S     *Scn
	I     cache.Cache
	M     *Ref
	Now   int64
	Names []int64
	FSize map[int64]float64
	Last  *Req
	Coin  func() bool
	// observations of the last request on the implementation
	IAdded, IRedir bool
	Before         []FS // contents before the last request, first to be evicted first
	HitsBefore     int64
	ReqBefore      int64
	Log            []string
	Extra          map[string]interface{}
}

// file names: the order of introduction is canonical, so that histories that
// differ by a renaming of equally sized files are explored once.  Zero and
// negative names are in.
var fileNames = []int64{7, 0, -3, 1<<53 + 1, 1 << 53, math.MinInt64, math.MaxInt64, 9, 11, 6, 31, 1, 3, 4, 8, 10}

const day0 = int64(1514764800) // 2018-01-01

var orders = map[string]string{"lru": "lru", "lfu": "lfu", "sizeSmall": "small", "sizeBig": "big", "random_lru": "lru", "weightFunLRU": "lru", "lruDatasetVerifier": "lru", "aiNN": "lru", "infinite": "lru"}

func newImpl(s *Scn) cache.Cache {
	wp := s.P.WfParams
	c := cache.Create(s.Typ, s.Max, "M", s.P.FunctionTypeString, wp)
	cache.InitInstance(s.Typ, c, s.P)
	cache.SetRegion(c, s.Region)
	cache.SetBandwidth(c, s.Band)
	return c
}

func newH(c *Chooser, s *Scn) *H {
	h := &H{C: c, S: s, I: newImpl(s), Now: day0, FSize: map[int64]float64{}, Extra: map[string]interface{}{}}
	rp := s.Ref
	if rp.Order == "" {
		rp.Order = orders[s.Typ]
	}
	rp.Max = s.Max
	rp.Redirect = s.P.RedirectReq
	rp.Watermarks = s.P.Watermarks
	rp.High, rp.Low = s.P.HighWatermark, s.P.LowWatermark
	rp.Region = s.Region
	rp.Bandwidth = cache.Bandwidth(h.I)
	rp.MaxDayDiff, rp.DeltaDays = s.P.MaxNumDayDiff, s.P.DeltaDaysStep
	if s.Typ == "infinite" {
		rp.Kind = "infinite"
	}
	h.M = newRef(rp)
	return h
}

// Request sends one request to the implementation and to the model.
func (h *H) Request(q Req) {
	h.C.Op("req f=%d size=%g t=+%ds", q.File, q.Size, q.Day-day0)
	if h.S.Pre {
		h.Before = h.Before[:0]
		for _, f := range implFiles(h.I) {
			h.Before = append(h.Before, FS{f.Filename, f.Size})
		}
		h.HitsBefore = cache.NumHits(h.I)
		h.ReqBefore = cache.NumRequests(h.I)
	}
	h.IAdded, h.IRedir = cache.GetFile(h.I, q.File, q.Size, q.Proto, q.Eff, q.Day, q.Site, q.User, q.Type)
	added := h.IAdded
	coin := h.Coin
	if coin == nil {
		coin = func() bool { return added }
		if h.S.Ref.Kind == "random" && q.Size > h.S.Max {
			// an oversized file is never added, but when the policy wants it
			// the space it asks for is freed
			n := len(implFiles(h.I))
			coin = func() bool { return n != len(h.M.Res) }
		}
	}
	if !h.S.NoModel {
		h.M.Request(q, coin)
	}
	h.Last = &q
	if h.S.PerStep != nil {
		h.S.PerStep(h)
	}
}

func (h *H) req(f int64) {
	p, e := h.S.Proto, h.S.Eff
	if e == 0 {
		p, e = 1, 50
	}
	h.Request(Req{File: f, Size: h.FSize[f], Proto: p, Eff: e, Day: h.Now})
}

func (h *H) newFile(size float64) int64 {
	f := fileNames[len(h.Names)]
	h.Names = append(h.Names, f)
	h.FSize[f] = size
	return f
}

// step chooses and executes one operation of the scenario's alphabet: a
// request to a file already seen, a request to a new file (of any size of the
// scenario), or one of the other operations.
func (h *H) step() {
	s := h.S
	nseen := len(h.Names)
	nnew := 0
	if !s.NoReq && nseen < s.NFiles {
		nnew = len(s.Sizes)
		if len(s.Forced) > 0 {
			nnew = 1
		}
	}
	nreq := nseen
	if s.NoReq {
		nreq = 0
	}
	k := h.C.Choose(nreq + nnew + len(s.Ops))
	switch {
	case k < nnew:
		var f int64
		if len(s.Forced) > 0 {
			f = h.newFile(s.Forced[len(h.Names)%len(s.Forced)])
		} else {
			f = h.newFile(s.Sizes[k])
		}
		h.req(f)
	case k < nnew+nreq:
		h.req(h.Names[k-nnew])
	default:
		op := s.Ops[k-nnew-nreq]
		h.C.Op("%s", op.Label)
		op.Do(h)
	}
}

// history explores every history of the scenario up to its depth; check runs
// once, at the end of each of them (every prefix is explored as a history of
// its own, so that observing never perturbs what follows).
func history(s *Scn, check func(h *H)) func(c *Chooser) {
	return func(c *Chooser) {
		h := newH(c, s)
		for _, op := range s.Prefix {
			c.Op("%s", op.Label)
			op.Do(h)
		}
		n := s.MinLen + c.Choose(s.Depth-s.MinLen+1)
		for i := 0; i < n; i++ {
			h.step()
		}
		check(h)
		h.countState()
	}
}

func (h *H) countState() {
	f := fnv.New64a()
	fmt.Fprintf(f, "%s|%v|%d|%d", h.S.Name, h.M.Tick, h.M.NReq, h.M.NHit)
	for _, x := range h.M.Res {
		fmt.Fprintf(f, ",%d:%g:%d:%d", x.Name, x.Size, x.Freq, x.LastTick)
	}
	h.C.StateHash(f.Sum64())
}

func hsuite(s *Scn, check func(h *H)) *Suite {
	return &Suite{
		Name:   s.Name,
		Bounds: s.bounds(),
		Run:    history(s, check),
		Shard:  4,
	}
}

func (s *Scn) bounds() string {
	ops := []string{}
	for _, o := range s.Ops {
		ops = append(ops, o.Label)
	}
	b := fmt.Sprintf("cache type %s, max size %g, every history of %d..%d operations over at most %d files of sizes %v", s.Typ, s.Max, s.MinLen, s.Depth, s.NFiles, s.Sizes)
	if len(s.Forced) > 0 {
		b = fmt.Sprintf("cache type %s, max size %g, every history of %d..%d operations over at most %d files (sizes in order of introduction %v)", s.Typ, s.Max, s.MinLen, s.Depth, s.NFiles, s.Forced)
	}
	if len(ops) > 0 {
		b += "; other operations: " + strings.Join(ops, ", ")
	}
	if len(s.Prefix) > 0 {
		b += fmt.Sprintf("; after a scaffold of %d operations", len(s.Prefix))
	}
	return b
}

// ---- common operations ----

func opClearStats() Op {
	return Op{"new-day (statistics reset)", func(h *H) { cache.ClearStats(h.I); h.M.ClearStats() }}
}

func opClear() Op {
	return Op{"clear", func(h *H) { cache.Clear(h.I); h.M.Reset(); h.Last = nil }}
}

func opClearFiles() Op {
	return Op{"clear-files", func(h *H) { cache.ClearFiles(h.I); h.M.ClearFiles() }}
}

func opAdvance(sec int64) Op {
	return Op{fmt.Sprintf("advance %ds", sec), func(h *H) { h.Now += sec }}
}

func opProbe() Op {
	return Op{"probe last file", func(h *H) {
		if h.Last != nil {
			cache.Check(h.I, h.Last.File)
			h.M.probe(h.Last.File)
		}
	}}
}

func opFree(amount float64, perc bool) Op {
	return Op{fmt.Sprintf("free(%g,%v)", amount, perc), func(h *H) {
		h.I.Free(amount, perc)
		a := amount
		if perc {
			a = amount * (h.M.Max / 100)
		}
		h.M.Victims = nil
		h.M.clean(a)
	}}
}

func opRepeat(n int) Op {
	return Op{fmt.Sprintf("repeat last request %d times", n), func(h *H) {
		for i := 0; i < n && h.Last != nil; i++ {
			q := *h.Last
			h.Request(q)
		}
	}}
}

// opIntro introduces n new files.
func opIntro(sizes ...float64) Op {
	return Op{fmt.Sprintf("request %d new files", len(sizes)), func(h *H) {
		for _, s := range sizes {
			h.req(h.newFile(s))
		}
	}}
}

// ClearFiles in the model: the contents are dropped, the file statistics stay
// but for their recency and weight.
func (r *Ref) ClearFiles() {
	for _, f := range r.Tracked {
		f.InCache = false
		f.LastTick = 0
		f.Weight = 0
	}
	r.Res = nil
	r.Tick = 0
}

// ---- observation ----

var (
	tQueue   = reflect.TypeOf((*queue.Queue)(nil)).Elem()
	tManager = reflect.TypeOf(files.Manager{})
)

type fieldPath struct {
	off  uintptr
	ok   bool
	kind int
}

var pathCache = map[reflect.Type]map[reflect.Type]fieldPath{}

// findField locates a field of the wanted type anywhere in the (embedded)
// structure, whatever it is called.
func findField(t reflect.Type, want reflect.Type, base uintptr) (uintptr, bool) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.Type == want {
			return base + f.Offset, true
		}
	}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.Type.Kind() == reflect.Struct && strings.Contains(f.Type.PkgPath(), "simulator") {
			if off, ok := findField(f.Type, want, base+f.Offset); ok {
				return off, true
			}
		}
	}
	return 0, false
}

func fieldPtr(obj interface{}, want reflect.Type) unsafe.Pointer {
	v := reflect.ValueOf(obj)
	t := v.Type().Elem()
	m := pathCache[t]
	if m == nil {
		m = map[reflect.Type]fieldPath{}
		pathCache[t] = m
	}
	p, seen := m[want]
	if !seen {
		off, ok := findField(t, want, 0)
		p = fieldPath{off: off, ok: ok}
		m[want] = p
	}
	if !p.ok {
		return nil
	}
	return unsafe.Add(v.UnsafePointer(), p.off)
}

// implFiles lists the resident files from the first to be evicted.
func implFiles(c cache.Cache) []*files.Stats {
	if p := fieldPtr(c, tQueue); p != nil {
		q := *(*queue.Queue)(p)
		return queue.GetFromWorst(q)
	}
	return dumpedFiles(c)
}

// dumpedFiles obtains the same list from the public dump.
func dumpedFiles(c cache.Cache) []*files.Stats {
	var out []*files.Stats
	for _, line := range c.Dumps(true) {
		var rec cache.DumpRecord
		var info cache.DumpInfo
		if json.Unmarshal(line, &rec) != nil || json.Unmarshal([]byte(rec.Info), &info) != nil || info.Type != "FILES" {
			continue
		}
		st := &files.Stats{}
		if json.Unmarshal([]byte(rec.Data), st) == nil {
			out = append(out, st)
		}
	}
	return out
}

// implTracked returns the per-file statistics the implementation keeps.
func implTracked(c cache.Cache) map[int64]*files.Stats {
	if p := fieldPtr(c, tManager); p != nil {
		return (*files.Manager)(p).Data
	}
	out := map[int64]*files.Stats{}
	for _, line := range c.Dumps(true) {
		var rec cache.DumpRecord
		var info cache.DumpInfo
		if json.Unmarshal(line, &rec) != nil || json.Unmarshal([]byte(rec.Info), &info) != nil || info.Type != "STATS" {
			continue
		}
		st := &files.Stats{}
		if json.Unmarshal([]byte(rec.Data), st) == nil {
			out[st.Filename] = st
		}
	}
	return out
}

func names(fs []*files.Stats) []int64 {
	out := make([]int64, len(fs))
	for i, f := range fs {
		out[i] = f.Filename
	}
	return out
}

func rnames(fs []*RFile) []int64 {
	out := make([]int64, len(fs))
	for i, f := range fs {
		out[i] = f.Name
	}
	return out
}

func eqInts(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---- property oracles shared by several suites ----

// checkOrder: the residents and their eviction order are the model's.
func checkOrder(h *H) {
	got := names(implFiles(h.I))
	want := rnames(h.M.FromWorst())
	if !eqInts(got, want) {
		h.C.Failf("resident files from the first to be evicted: got %v, want %v", got, want)
	}
}

// checkSet: residency, asked through the public interface.
func checkSet(h *H) {
	for _, f := range h.Names {
		if got, want := cache.Check(h.I, f), h.M.resident(f); got != want {
			h.C.Failf("file %d resident: implementation says %v, want %v", f, got, want)
		}
		h.M.probe(f)
	}
}

func (h *H) wantF(what string, got, want float64) {
	if !feq(got, want) {
		h.C.Failf("%s: got %v, want %v", what, got, want)
	}
}

func (h *H) wantI(what string, got, want int64) {
	if got != want {
		h.C.Failf("%s: got %v, want %v", what, got, want)
	}
}

// checkLastStep: the outcome reported for the last request.
func checkLastStep(h *H) {
	if h.Last == nil {
		return
	}
	if h.IAdded != h.M.Added {
		h.C.Failf("last request (file %d): reported added=%v, want %v", h.Last.File, h.IAdded, h.M.Added)
	}
	if h.IRedir != h.M.Redirected {
		h.C.Failf("last request (file %d): reported redirected=%v, want %v", h.Last.File, h.IRedir, h.M.Redirected)
	}
}

func never() time.Time { return time.Time{} }

var _ = math.NaN
