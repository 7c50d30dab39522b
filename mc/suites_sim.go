//go:build go1.21

package main

import (
	"bytes"
	"compress/gzip"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"simulator/v2/cache"
	"simulator/v2/cache/ai/qlearn"
)

// suites_sim.go: the simulation driver (which records of a trace are served,
// how the days and the windows are cut, what the result files say), the trace
// reader and the event log (C24..C28).

// ---- traces ----

type tcol struct {
	name string
	get  func(r *cache.CSVRecord) string
}

func itoa(x int64) string   { return strconv.FormatInt(x, 10) }
func ftoa(x float64) string { return strconv.FormatFloat(x, 'g', -1, 64) }

// traceCols is the documented layout of a trace.
var traceCols = []tcol{
	{"Filename", func(r *cache.CSVRecord) string { return itoa(r.Filename) }},
	{"SiteName", func(r *cache.CSVRecord) string { return itoa(r.SiteName) }},
	{"UserID", func(r *cache.CSVRecord) string { return itoa(r.UserID) }},
	{"TaskID", func(r *cache.CSVRecord) string { return itoa(r.TaskID) }},
	{"TaskMonitorID", func(r *cache.CSVRecord) string { return itoa(r.TaskMonitorID) }},
	{"JobID", func(r *cache.CSVRecord) string { return itoa(r.JobID) }},
	{"Protocol", func(r *cache.CSVRecord) string { return itoa(r.Protocol) }},
	{"JobExecExitCode", func(r *cache.CSVRecord) string { return itoa(r.JobExecExitCode) }},
	{"JobStart", func(r *cache.CSVRecord) string { return itoa(r.JobStart) }},
	{"JobEnd", func(r *cache.CSVRecord) string { return itoa(r.JobEnd) }},
	{"NumCPU", func(r *cache.CSVRecord) string { return itoa(r.NumCPU) }},
	{"WrapWC", func(r *cache.CSVRecord) string { return ftoa(r.WrapWC) }},
	{"WrapCPU", func(r *cache.CSVRecord) string { return ftoa(r.WrapCPU) }},
	{"Size", func(r *cache.CSVRecord) string { return ftoa(r.Size) }},
	{"DataType", func(r *cache.CSVRecord) string { return itoa(r.DataType) }},
	{"FileType", func(r *cache.CSVRecord) string { return itoa(r.FileType) }},
	{"JobLengthH", func(r *cache.CSVRecord) string { return ftoa(r.JobLengthH) }},
	{"JobLengthM", func(r *cache.CSVRecord) string { return ftoa(r.JobLengthM) }},
	{"JobSuccess", func(r *cache.CSVRecord) string { return strconv.FormatBool(r.JobSuccess) }},
	{"CPUTime", func(r *cache.CSVRecord) string { return ftoa(r.CPUTime) }},
	{"IOTime", func(r *cache.CSVRecord) string { return ftoa(r.IOTime) }},
	{"reqDay", func(r *cache.CSVRecord) string { return itoa(r.Day) }},
	{"Region", func(r *cache.CSVRecord) string { return itoa(r.Region) }},
	{"Campaign", func(r *cache.CSVRecord) string { return itoa(r.Campaign) }},
	{"Process", func(r *cache.CSVRecord) string { return itoa(r.Process) }},
}

// traceText renders records with the columns in the given order; a negative
// column is an unknown one, to be ignored by the reader.
func traceText(recs []cache.CSVRecord, order []int) []byte {
	var b bytes.Buffer
	w := csv.NewWriter(&b)
	line := make([]string, len(order))
	for i, k := range order {
		if k < 0 {
			line[i] = fmt.Sprintf("Extra%d", -k)
		} else {
			line[i] = traceCols[k].name
		}
	}
	_ = w.Write(line)
	for j := range recs {
		for i, k := range order {
			if k < 0 {
				line[i] = "77"
			} else {
				line[i] = traceCols[k].get(&recs[j])
			}
		}
		_ = w.Write(line)
	}
	w.Flush()
	return b.Bytes()
}

var stdOrder = func() []int {
	out := make([]int, len(traceCols))
	for i := range out {
		out[i] = i
	}
	return out
}()

// mustWrite writes a new file in the place of the old one: a simulation that
// stops before the end of its trace leaves a reader behind, which may still be
// reading the old one.
func mustWrite(path string, data []byte) {
	_ = os.Remove(path)
	if err := os.WriteFile(path, data, 0o644); err != nil {
		panic("verif: " + err.Error())
	}
}

func gz(data []byte) []byte {
	var b bytes.Buffer
	w, _ := gzip.NewWriterLevel(&b, gzip.BestSpeed)
	_, _ = w.Write(data)
	_ = w.Close()
	return b.Bytes()
}

// ---- the specification of a simulation ----

const mega = 1024. * 1024.

type simSpec struct {
	typ       string
	max       float64
	p         cache.InitParameters
	region    string
	band      float64
	data, rec string // names of the filters
	size      int
	start     int
	stop      int
	gzip      bool
	delay     float64
}

var simFilters = map[string]struct {
	impl cache.Filter
	spec func(r *cache.CSVRecord) bool
}{
	"":          {nil, func(*cache.CSVRecord) bool { return true }},
	"us-data":   {cache.UsDataMcTypes{}, func(r *cache.CSVRecord) bool { return r.DataType == 0 || r.DataType == 3 }},
	"it-data":   {cache.ItDataMcTypes{}, func(r *cache.CSVRecord) bool { return r.DataType == 0 || r.DataType == 1 }},
	"us-not1t3": {cache.UsMINIAODNOT1andT3{}, func(r *cache.CSVRecord) bool { return (r.FileType == 2 || r.FileType == 9) && r.SiteName < 9 }},
	"us-nofnal": {cache.UsMINIAODNOFNALLPCNOT1FNALLFilter{}, func(r *cache.CSVRecord) bool {
		return (r.FileType == 2 || r.FileType == 9) && r.SiteName != 9 && r.SiteName != 16
	}},
	"us-withnal": {cache.UsMINIAODandNOFNALLPCFilter{}, func(r *cache.CSVRecord) bool { return (r.FileType == 2 || r.FileType == 9) && r.SiteName != 16 }},
}

func (s *simSpec) create() cache.Cache {
	c := cache.Create(s.typ, s.max, "M", s.p.FunctionTypeString, s.p.WfParams)
	cache.InitInstance(s.typ, c, s.p)
	cache.SetRegion(c, s.region)
	cache.SetBandwidth(c, s.band)
	return c
}

type simTotals struct{ tot, jumped, invalid, filtered, redirected int64 }

// simRow formats the figures of the day the way the result file does.
func simRow(t time.Time, c cache.Cache) []string {
	row := simFigures(t, c)
	if _, ok := c.(*cache.AIRL); ok {
		for _, x := range []string{"epsilonStats", "valueFunctions", "evictionStats", "evictionCategoryStats", "actionStats"} {
			row = append(row, strings.Split(c.ExtraOutput(x), ",")...)
		}
	}
	return row
}

func simFigures(t time.Time, c cache.Cache) []string {
	d := func(x int64) string { return fmt.Sprintf("%d", x) }
	f := func(x float64) string { return fmt.Sprintf("%f", x) }
	f2 := func(x float64) string { return fmt.Sprintf("%0.2f", x) }
	return []string{t.String(), d(c.NumRequests()), d(c.NumHits()), d(c.NumAdded()), d(c.NumDeleted()), d(c.NumRedirected()),
		fmt.Sprint(c.GetTotDeletedFileMiss()), f(c.RedirectedSize()), f(c.GetMaxSize()), f(c.Size()), f(c.Capacity()), f(c.Bandwidth()), f(c.BandwidthUsage()),
		f2(c.HitRate()), f2(c.WeightedHitRate()), f(c.DataWritten()), f(c.DataRead()), f(c.DataReadOnHit()), f(c.DataReadOnMiss()), f(c.DataDeleted()),
		f(c.AvgFreeSpace()), f(c.StdDevFreeSpace()), f(c.CPUEff()), f(c.CPUHitEff()), f(c.CPUMissEff()), f(c.CPUEffUpperBound()), f(c.CPUEffLowerBound())}
}

var simHeader = strings.Split("date,num req,num hit,num added,num deleted,num redirected,num miss after delete,size redirected,cache size,size,capacity,bandwidth,bandwidth usage,hit rate,weighted hit rate,written data,read data,read on hit data,read on miss data,deleted data,avg free space,std dev free space,CPU efficiency,CPU hit efficiency,CPU miss efficiency,CPU efficiency upper bound,CPU efficiency lower bound", ",")

var simHeaderRL = append(append([]string{}, simHeader...), strings.Split("Addition epsilon,Eviction epsilon,Addition qvalue function,Eviction qvalue function,Eviction calls,Eviction forced calls,Eviction mean num categories,Eviction std dev num categories,Action store,Action not store,Action delete all,Action delete half,Action delete quarter,Action delete one,Action not delete", ",")...)

// expected runs the specification: first the days, then the windows, then the
// records, over a cache of its own that is asked directly.
func (s *simSpec) expected(twin cache.Cache, recs []cache.CSVRecord) (rows [][]string, t simTotals, redirSize float64) {
	// days: a day begins with the first record and with every record at least
	// 23 hours after the beginning of the day
	day := make([]int, len(recs))
	starts := []int64{}
	for i := range recs {
		if i == 0 || recs[i].Day-starts[len(starts)-1] >= 23*3600 {
			starts = append(starts, recs[i].Day)
		}
		day[i] = len(starts) - 1
	}
	for i := range recs {
		win := day[i] / s.size
		if i > 0 && day[i] != day[i-1] {
			// the day that ended is reported when its window is simulated
			prev := (day[i] - 1) / s.size
			if prev >= s.start {
				rows = append(rows, simRow(time.Unix(starts[day[i]-1], 0), twin))
			}
			twin.ClearStats()
		}
		if s.stop > 0 && win >= s.stop {
			break
		}
		r := &recs[i]
		t.tot++
		if win < s.start {
			t.jumped++
			continue
		}
		if !r.JobSuccess || r.JobExecExitCode != 0 || !simFilters[s.data].spec(r) || !simFilters[s.rec].spec(r) {
			t.filtered++
			continue
		}
		all := r.CPUTime + r.IOTime
		if all == 0 || r.CPUTime/all < 0 || r.CPUTime/all > 1 {
			t.invalid++
			continue
		}
		mb := r.Size / mega
		if _, redirected := cache.GetFile(twin, r.Filename, mb, r.Protocol, r.CPUTime/all*100, r.Day, r.SiteName, r.UserID, r.FileType); redirected {
			t.redirected++
			redirSize += mb
		}
	}
	return
}

func (s *simSpec) params(data string) cache.SimulationParams {
	stop := s.stop
	if stop <= 0 {
		stop = 1 << 30
	}
	return cache.SimulationParams{
		DataPath: data, OutFile: "out.csv", BaseName: "x", ResultRunStatsName: "stats.json", DumpFileName: "dump.json.gz", DumpFilesAndStats: true,
		WindowSize: s.size, WindowStart: s.start, WindowStop: stop, OutputUpdateDelay: s.delay,
		RecordFilter: simFilters[s.rec].impl, DataTypeFilter: simFilters[s.data].impl,
	}
}

func readCSV(c *Chooser, path string) [][]string {
	data, err := os.ReadFile(path)
	if err != nil {
		c.Failf("the result file is missing: %v", err)
	}
	rows, err := csv.NewReader(bytes.NewReader(data)).ReadAll()
	if err != nil {
		c.Failf("the result file is not a csv: %v\n%s", err, data)
	}
	return rows
}

func compareResults(c *Chooser, s *simSpec, rows [][]string, t simTotals, redirSize float64) {
	compareFiles(c, s, rows, t, redirSize, "out.csv", "stats.json")
}

func compareFiles(c *Chooser, s *simSpec, rows [][]string, t simTotals, redirSize float64, results, stats string) {
	got := readCSV(c, results)
	simHeader := simHeader
	if s.typ == "aiRL" {
		simHeader = simHeaderRL
	}
	if len(got) == 0 || strings.Join(got[0], ",") != strings.Join(simHeader, ",") {
		c.Failf("result file header: got %v", got)
	}
	got = got[1:]
	for i := 0; i < len(got) || i < len(rows); i++ {
		switch {
		case i >= len(got):
			c.Failf("the row of the day %s is missing: the result file has %d rows, want %d", rows[i][0], len(got), len(rows))
		case i >= len(rows):
			c.Failf("unexpected row %v: the result file has %d rows, want %d", got[i], len(got), len(rows))
		}
		for k := range rows[i] {
			if k >= len(got[i]) || got[i][k] != rows[i][k] {
				c.Failf("day %s, column %q: got %q, want %q", rows[i][0], simHeader[k], append(got[i], "")[k], rows[i][k])
			}
		}
		if len(got[i]) != len(rows[i]) {
			c.Failf("day %s: %d columns, want %d", rows[i][0], len(got[i]), len(rows[i]))
		}
	}
	var st map[string]interface{}
	data, err := os.ReadFile(stats)
	if err == nil {
		err = json.Unmarshal(data, &st)
	}
	if err != nil {
		c.Failf("run statistics: %v", err)
	}
	for k, want := range map[string]float64{"totNumRecords": float64(t.tot), "totJumpedRecords": float64(t.jumped), "totInvalidRecords": float64(t.invalid), "totFilteredRecords": float64(t.filtered), "totRedirectedRecords": float64(t.redirected), "sizeRedirectedRecords": redirSize} {
		if x, ok := st[k].(float64); !ok || !feq(x, want) {
			c.Failf("run statistics: %s is %v, want %v", k, st[k], want)
		}
	}
}

// run simulates the trace for real and compares everything with the
// specification.
func (s *simSpec) run(c *Chooser, recs []cache.CSVRecord) {
	data := traceText(recs, stdOrder)
	name := "trace.csv"
	if s.gzip {
		name, data = "trace.csv.gz", gz(data)
	}
	mustWrite(name, data)
	_ = os.Remove("out.csv")
	_ = os.Remove("stats.json")
	impl := s.create()
	cache.Simulate(s.typ, impl, s.params(name))
	twin := s.create()
	rows, t, redir := s.expected(twin, recs)
	compareResults(c, s, rows, t, redir)
	sameContents(c, "cache after the simulation", twin, impl, s.typ != "infinite" && s.p.AIRLEvictionFeatureMap == "")
	sameTracked(c, "cache after the simulation", twin, impl)
	sameStats(c, "cache after the simulation", twin, impl)
	c.State(fmt.Sprintf("%s %v %v %v", s.typ, t, rows, statLine(twin)))
}

func mb(x float64) float64 { return x * mega }

func okRec(f int64, size float64) cache.CSVRecord {
	return cache.CSVRecord{Filename: f, Size: mb(size), JobSuccess: true, CPUTime: 30, IOTime: 10, Protocol: 1, Day: day0, FileType: 2, SiteName: 3, UserID: 4, DataType: 0}
}

// recKinds: the ways a record can be, as far as its selection is concerned.
type recKind struct {
	label string
	mod   func(r *cache.CSVRecord)
}

var recKinds = []recKind{
	{"good", func(r *cache.CSVRecord) {}},
	{"job failed", func(r *cache.CSVRecord) { r.JobSuccess = false }},
	{"exit code 1", func(r *cache.CSVRecord) { r.JobExecExitCode = 1 }},
	{"data type 1", func(r *cache.CSVRecord) { r.DataType = 1 }},
	{"data type 2", func(r *cache.CSVRecord) { r.DataType = 2 }},
	{"data type 3", func(r *cache.CSVRecord) { r.DataType = 3 }},
	{"file type 9", func(r *cache.CSVRecord) { r.FileType = 9 }},
	{"file type 3", func(r *cache.CSVRecord) { r.FileType = 3 }},
	{"site 8", func(r *cache.CSVRecord) { r.SiteName = 8 }},
	{"site 9", func(r *cache.CSVRecord) { r.SiteName = 9 }},
	{"site 16", func(r *cache.CSVRecord) { r.SiteName = 16 }},
	{"site 17", func(r *cache.CSVRecord) { r.SiteName = 17 }},
	{"no times", func(r *cache.CSVRecord) { r.CPUTime, r.IOTime = 0, 0 }},
	{"cpu and io cancel out", func(r *cache.CSVRecord) { r.CPUTime, r.IOTime = 5, -5 }},
	{"negative cpu", func(r *cache.CSVRecord) { r.CPUTime, r.IOTime = -5, 10 }},
	{"negative io", func(r *cache.CSVRecord) { r.CPUTime, r.IOTime = 10, -2 }},
	{"zero cpu", func(r *cache.CSVRecord) { r.CPUTime, r.IOTime = 0, 7 }},
	{"zero io", func(r *cache.CSVRecord) { r.CPUTime, r.IOTime = 7, 0 }},
	{"failed and no times", func(r *cache.CSVRecord) { r.JobSuccess, r.CPUTime, r.IOTime = false, 0, 0 }},
	{"remote protocol", func(r *cache.CSVRecord) { r.Protocol = 0 }},
}

// suiteSelection: every sequence of record kinds, for every pair of filters.
func suiteSelection(name string, n int, kinds []recKind, files []int64, steps []int64, filters [][2]string, base simSpec) *Suite {
	return &Suite{
		Name:   name,
		Bounds: fmt.Sprintf("every trace of %d records out of %d record kinds x %d files x clock steps of %v s, for %d combinations of filters; cache type %s of size %g, window size %d, windows %d..%d", n, len(kinds), len(files), steps, len(filters), base.typ, base.max, base.size, base.start, base.stop),
		Run: func(c *Chooser) {
			s := base
			fl := Pick(c, filters)
			s.data, s.rec = fl[0], fl[1]
			now := day0
			var recs []cache.CSVRecord
			for i := 0; i < n; i++ {
				k := Pick(c, kinds)
				f := Pick(c, files)
				if i > 0 {
					now += Pick(c, steps)
				}
				r := okRec(f, float64(f))
				k.mod(&r)
				r.Day = now
				c.Op("record: file %d (%s), %d s", f, k.label, now-day0)
				recs = append(recs, r)
			}
			c.Note("filters %v", fl)
			s.run(c, recs)
		},
	}
}

func kindsOf(labels ...string) []recKind {
	var out []recKind
	for _, l := range labels {
		ok := false
		for _, k := range recKinds {
			if k.label == l {
				out = append(out, k)
				ok = true
			}
		}
		if !ok {
			panic("verif: no record kind " + l)
		}
	}
	return out
}

var noFilters = [][2]string{{"", ""}}
var allFilters = [][2]string{{"", ""}, {"it-data", ""}, {"us-data", ""}, {"us-data", "us-not1t3"}, {"us-data", "us-nofnal"}, {"", "us-withnal"}, {"it-data", "us-nofnal"}}

func redirecting(typ string, max float64) simSpec {
	p := plain()
	p.RedirectReq = true
	// 4 MB of daily bandwidth (the unit is the Gbit per second)
	return simSpec{typ: typ, max: max, p: p, band: 4. / cache.DailyBandwidth1Gbit, size: 7}
}

func init() {
	register("C24", &PropDef{
		Assumptions: []string{"the served requests are compared with those of a second cache of the same type that is asked directly for the records selected by the specification; the cache itself is decided by C01..C23"},
		Suites: func(tier string) []*Suite {
			lru := simSpec{typ: "lru", max: 4, p: plain(), band: 1, size: 7, delay: 1e9}
			var out []*Suite
			one := []int64{1}
			day := []int64{86400}
			out = append(out, suiteSelection("selection-pairs", 2, recKinds, []int64{1, 2}, day, allFilters, lru))
			out = append(out, suiteSelection("selection-singles", depth(tier, 3, 4), kindsOf("good", "job failed", "exit code 1", "no times", "negative io", "zero cpu", "remote protocol"), one, day, noFilters, lru))
			steps := []int64{0, 82799, 82800, 86400, 3 * 86400}
			out = append(out, suiteSelection("days", depth(tier, 4, 5), kindsOf("good", "job failed"), []int64{1, 3}, steps, noFilters, lru))
			out = append(out, suiteSelection("days-back", depth(tier, 4, 5), kindsOf("good"), []int64{1, 3}, []int64{-86400, 40000, 86400}, noFilters, lru))
			us := redirecting("lru", 3)
			us.region, us.delay = "us", 0
			out = append(out, suiteSelection("redirect", depth(tier, 4, 5), kindsOf("good", "remote protocol"), []int64{1, 2, 3}, []int64{60, 86400}, noFilters, us))
			for _, typ := range []string{"lfu", "sizeSmall", "sizeBig", "random_lru", "infinite"} {
				s := simSpec{typ: typ, max: 4, p: plain(), region: "it", band: 1, size: 7, delay: 1e9, gzip: true}
				s.p.RandSeed = 3
				out = append(out, suiteSelection("days-"+typ, depth(tier, 4, 5), kindsOf("good", "zero cpu"), []int64{1, 2, 3}, []int64{60, 86400}, noFilters, s))
			}
			w := weightScn("w", "FuncAdditiveExp", 1, .5, 1)
			out = append(out, suiteSelection("days-weight", depth(tier, 4, 5), kindsOf("good"), []int64{1, 2, 3}, []int64{60, 86400}, noFilters, simSpec{typ: "weightFunLRU", max: 4, p: w.P, band: 1, size: 7, delay: 1e9}))
			wm := simSpec{typ: "lru", max: 4, p: marked(75, 25), band: 1, size: 7, delay: 1e9}
			for _, g := range []*rlCfg{
				{name: "sim-adm", typ: "scdl2", add: only(addFeatures, "size", "numReq"), when: "onFree", max: 4},
				{name: "sim-evc", typ: "scdl2", evc: only(evcFeatures, "catSize", "catNumReq"), when: "onDayEnd", max: 4},
				{name: "sim-both", typ: "scdl2", add: only(addFeatures, "size"), evc: only(evcFeatures, "catSize", "catNumReq"), when: "onFree", max: 4},
				{name: "sim-k", typ: "scdl2", add: only(addFeatures, "size"), evc: only(evcFeatures, "catSize", "catNumReq"), when: "onK", k: 1, max: 4},
			} {
				s := simSpec{typ: "aiRL", max: g.max, p: g.params(), band: 1, size: 7, delay: 1e9, region: "it"}
				s.p.AIRLAdditionEpsilonDecay, s.p.AIRLEvictionEpsilonDecay = .3, .2
				out = append(out, suiteSelection("days-rl-"+g.name, depth(tier, 4, 5), kindsOf("good", "zero cpu"), []int64{1, 2, 3}, []int64{60, 86400}, noFilters, s))
			}
			out = append(out, suiteSelection("days-watermarks", depth(tier, 4, 5), kindsOf("good"), []int64{1, 2, 3}, []int64{60, 86400}, noFilters, wm))
			return out
		},
	})
	register("C25", &PropDef{Suites: func(tier string) []*Suite {
		type cfg struct{ size, start, stop int }
		var out []*Suite
		var cfgs []cfg
		for size := 1; size <= 3; size++ {
			for start := 0; start <= 3; start++ {
				for stop := 0; stop <= 4; stop++ {
					cfgs = append(cfgs, cfg{size, start, stop})
				}
			}
		}
		mk := func(name string, n int, steps []int64, kinds []recKind) *Suite {
			return &Suite{
				Name:   name,
				Bounds: fmt.Sprintf("window sizes 1..3, start 0..3, stop none or 1..4 (%d combinations), every trace of %d..%d records with clock steps of %v s, of kinds %d, redirection enabled", len(cfgs), 1, n, steps, len(kinds)),
				Run: func(c *Chooser) {
					w := Pick(c, cfgs)
					s := redirecting("lru", 3)
					s.size, s.start, s.stop, s.delay = w.size, w.start, w.stop, 1e9
					now := day0
					m := 1 + c.Choose(n)
					var recs []cache.CSVRecord
					for i := 0; i < m; i++ {
						if i > 0 {
							now += Pick(c, steps)
						}
						f := int64(1 + i%3)
						r := okRec(f, float64(f))
						Pick(c, kinds).mod(&r)
						r.Day = now
						c.Op("record: file %d, %d s", f, now-day0)
						recs = append(recs, r)
					}
					c.Note("window size %d start %d stop %d", w.size, w.start, w.stop)
					s.run(c, recs)
				},
			}
		}
		out = append(out, mk("windows", depth(tier, 8, 11), []int64{600, 86400}, kindsOf("good")))
		out = append(out, mk("windows-gaps", depth(tier, 5, 7), []int64{600, 86400, 5 * 86400}, kindsOf("good")))
		out = append(out, mk("windows-kinds", depth(tier, 4, 5), []int64{600, 86400}, kindsOf("good", "job failed", "no times")))
		return out
	}})
	register("C26", &PropDef{Suites: suitesReader})
	register("C27", &PropDef{Suites: suitesLog, Procs: 1, Assumptions: []string{"schedules of the log writer: with one processor the writer runs exactly where the producer yields or blocks; all placements of the yields and all numbers of pending lines around the capacity of the buffer are enumerated"}})
	register("C28", &PropDef{Suites: suitesSplit})
}

// ---- C26: the trace reader ----

func readAll(ch chan cache.CSVRecord) (out []cache.CSVRecord) {
	for r := range ch {
		out = append(out, r)
	}
	return
}

func compareRecords(c *Chooser, got, want []cache.CSVRecord) {
	for i := 0; i < len(got) && i < len(want); i++ {
		w := want[i]
		w.SizeM = w.Size / mega
		if got[i] != w {
			c.Failf("record %d of %d:\n got %+v\nwant %+v", i, len(want), got[i], w)
		}
	}
	if len(got) != len(want) {
		c.Failf("%d records read, the trace has %d", len(got), len(want))
	}
}

// seqRec is a record whose fields all differ from each other.
func seqRec(i int64) cache.CSVRecord {
	b := i * 100
	return cache.CSVRecord{Filename: b + 1, SiteName: b + 2, UserID: b + 3, TaskID: b + 4, TaskMonitorID: b + 5, JobID: b + 6, Protocol: b + 7, JobExecExitCode: b + 8, JobStart: b + 9, JobEnd: b + 10, NumCPU: b + 11,
		WrapWC: float64(b) + 12.5, WrapCPU: float64(b) + 13.25, Size: float64(b)*1e6 + 14, DataType: b + 15, FileType: b + 16, JobLengthH: float64(b) + 17.125, JobLengthM: float64(b) + 18.5, JobSuccess: i%2 == 0,
		CPUTime: float64(b) + 20.5, IOTime: float64(b) + 21.5, Day: day0 + b, Region: b + 23, Campaign: b + 24, Process: b + 25}
}

func suitesReader(tier string) []*Suite {
	var out []*Suite
	// every transposition of two columns, every rotation, reversed, and with
	// one unknown column at every place
	var orders [][]int
	n := len(traceCols)
	orders = append(orders, stdOrder)
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			o := append([]int{}, stdOrder...)
			o[i], o[j] = o[j], o[i]
			orders = append(orders, o)
		}
	}
	for k := 1; k < n; k++ {
		orders = append(orders, append(append([]int{}, stdOrder[k:]...), stdOrder[:k]...))
	}
	rev := []int{}
	for i := n - 1; i >= 0; i-- {
		rev = append(rev, i)
	}
	orders = append(orders, rev)
	for i := 0; i <= n; i++ {
		o := append(append(append([]int{}, stdOrder[:i]...), -1), stdOrder[i:]...)
		orders = append(orders, o)
	}
	for i := 0; i < n; i++ {
		// one column moved to every other place
		for j := 0; j < n; j++ {
			o := append(append([]int{}, stdOrder[:i]...), stdOrder[i+1:]...)
			o = append(append(append([]int{}, o[:j]...), i), o[j:]...)
			orders = append(orders, o)
		}
	}
	out = append(out, &Suite{
		Name:   "column-orders",
		Bounds: fmt.Sprintf("%d layouts of the header (every transposition, rotation, move of one column, the reversal, an unknown column at every place), plain and compressed, three records with all fields distinct", len(orders)),
		Run: func(c *Chooser) {
			o := Pick(c, orders)
			zip := c.Choose(2) == 1
			recs := []cache.CSVRecord{seqRec(0), seqRec(1), seqRec(2)}
			data := traceText(recs, o)
			name := "t.csv"
			if zip {
				name, data = "t.csv.gz", gz(data)
			}
			mustWrite(name, data)
			c.Op("read %s with columns %v", name, o)
			compareRecords(c, readAll(cache.OpenSimFile(name)), recs)
			c.State(fmt.Sprint(o, zip))
		},
	})
	ints := []int64{0, 1, -1, 1 << 31, -(1 << 31), 1<<53 + 1, 1<<63 - 1, -(1 << 63)}
	floats := []float64{0, 1, -1, .1, 1e-300, 1e300, 3.5, 1 << 40}
	out = append(out, &Suite{
		Name:   "field-values",
		Bounds: "every column with every extreme value of its type, plain and compressed",
		Run: func(c *Chooser) {
			k := c.Choose(n)
			r := seqRec(3)
			setField(&r, k, ints, floats, c)
			recs := []cache.CSVRecord{seqRec(1), r, seqRec(2)}
			c.Op("column %s = %s", traceCols[k].name, traceCols[k].get(&r))
			name, data := "t.csv", traceText(recs, stdOrder)
			if c.Choose(2) == 1 {
				name, data = "t.csv.gz", gz(data)
			}
			mustWrite(name, data)
			compareRecords(c, readAll(cache.OpenSimFile(name)), recs)
			c.State(fmt.Sprint(k, traceCols[k].get(&r)))
		},
	})
	// lengths around the size of the channel, with a consumer that drains it
	// at every pace of a small set
	lengths := []int{0, 1, 2, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 5000}
	out = append(out, &Suite{
		Name:   "lengths",
		Bounds: fmt.Sprintf("traces of %v records (the reader buffers 1024), plain and compressed, read from a file and from a folder, with consumers that yield at every record or never, after a head start of the reader or not", lengths),
		Run: func(c *Chooser) {
			m := Pick(c, lengths)
			zip, folder, yield, head := c.Choose(2) == 1, c.Choose(2) == 1, c.Choose(2) == 1, c.Choose(2) == 1
			recs := make([]cache.CSVRecord, m)
			for i := range recs {
				recs[i] = seqRec(int64(i))
			}
			_ = os.RemoveAll("fold")
			_ = os.Mkdir("fold", 0o755)
			name, data := "fold/t.csv", traceText(recs, stdOrder)
			if zip {
				name, data = "fold/t.csv.gz", gz(data)
			}
			mustWrite(name, data)
			c.Op("read %d records", m)
			var ch chan cache.CSVRecord
			if folder {
				d, _ := os.Open("fold")
				defer d.Close()
				ch = cache.OpenSimFolder(d)
			} else {
				ch = cache.OpenSimFile(name)
			}
			if head {
				time.Sleep(2 * time.Millisecond)
			}
			var got []cache.CSVRecord
			for r := range ch {
				got = append(got, r)
				if yield {
					yieldNow()
				}
			}
			compareRecords(c, got, recs)
			c.State(fmt.Sprint(m, zip, folder))
		},
	})
	fnames := []string{"2018-01-02.csv", "2018-01-01.csv.gz", "b.csv", "a.gz", "A.csv", "notes.txt", "noext", "2018-01-10.csv.gz"}
	out = append(out, &Suite{
		Name:   "folders",
		Bounds: fmt.Sprintf("every subset of %d file names (csv, gz and others), holding 0..2 records each", len(fnames)),
		Run: func(c *Chooser) {
			_ = os.RemoveAll("fold")
			_ = os.Mkdir("fold", 0o755)
			type ent struct {
				name string
				recs []cache.CSVRecord
			}
			var ents []ent
			for i, f := range fnames {
				// 0: absent; otherwise a number of records (the number is a
				// function of the name but for two of them)
				arity := 2
				if i < 2 {
					arity = 4
				}
				k := c.Choose(arity)
				if k == 0 {
					continue
				}
				num := (i + k) % 3
				var recs []cache.CSVRecord
				for j := 0; j < num; j++ {
					recs = append(recs, seqRec(int64(10*i+j)))
				}
				data := traceText(recs, stdOrder)
				if strings.HasSuffix(f, ".gz") {
					data = gz(data)
				}
				mustWrite(filepath.Join("fold", f), data)
				c.Op("%s with %d records", f, num)
				if strings.HasSuffix(f, ".csv") || strings.HasSuffix(f, ".gz") {
					ents = append(ents, ent{f, recs})
				}
			}
			sort.Slice(ents, func(i, j int) bool { return ents[i].name < ents[j].name })
			var want []cache.CSVRecord
			for _, e := range ents {
				want = append(want, e.recs...)
			}
			d, _ := os.Open("fold")
			defer d.Close()
			compareRecords(c, readAll(cache.OpenSimFolder(d)), want)
			c.State(fmt.Sprint(ents))
		},
	})
	return out
}

func setField(r *cache.CSVRecord, k int, ints []int64, floats []float64, c *Chooser) {
	switch traceCols[k].name {
	case "JobSuccess":
		r.JobSuccess = c.Choose(2) == 1
	case "reqDay":
		r.Day = Pick(c, []int64{0, 1, day0, -1, 1 << 33})
	case "WrapWC":
		r.WrapWC = Pick(c, floats)
	case "WrapCPU":
		r.WrapCPU = Pick(c, floats)
	case "Size":
		r.Size = Pick(c, floats)
	case "JobLengthH":
		r.JobLengthH = Pick(c, floats)
	case "JobLengthM":
		r.JobLengthM = Pick(c, floats)
	case "CPUTime":
		r.CPUTime = Pick(c, floats)
	case "IOTime":
		r.IOTime = Pick(c, floats)
	default:
		v := Pick(c, ints)
		for _, p := range []struct {
			n string
			p *int64
		}{{"Filename", &r.Filename}, {"SiteName", &r.SiteName}, {"UserID", &r.UserID}, {"TaskID", &r.TaskID}, {"TaskMonitorID", &r.TaskMonitorID}, {"JobID", &r.JobID}, {"Protocol", &r.Protocol}, {"JobExecExitCode", &r.JobExecExitCode}, {"JobStart", &r.JobStart}, {"JobEnd", &r.JobEnd}, {"NumCPU", &r.NumCPU}, {"DataType", &r.DataType}, {"FileType", &r.FileType}, {"Region", &r.Region}, {"Campaign", &r.Campaign}, {"Process", &r.Process}} {
			if p.n == traceCols[k].name {
				*p.p = v
			}
		}
	}
}

// ---- C28: a simulation split at a dump ----

func suitesSplit(tier string) []*Suite {
	var out []*Suite
	types := stateTypes(false)
	modes := []string{"hot", "cold", "cold without statistics", "hot, with the no-statistics option of a cold start"}
	mk := func(name string, t Scn, lens []int, starts int) *Suite {
		return &Suite{
			Name:   name + t.Name,
			Bounds: fmt.Sprintf("cache type %s: every chain of %d runs over traces of %v records, each run but the first loading the dump of the previous one; start modes: %v", t.Typ, len(lens), lens, modes[:starts]),
			Run: func(c *Chooser) {
				ensureDatasets()
				s := simSpec{typ: t.Typ, max: t.Max, p: t.P, band: 1, size: 7, delay: 1e9}
				now := day0
				gen := func(k int) (recs []cache.CSVRecord) {
					for i := 0; i < k; i++ {
						f := int64(1 + c.Choose(3))
						if i > 0 {
							now += Pick(c, []int64{60, 86400})
						}
						sz := []float64{0, 1, 3, 2}[f]
						if t.Name == "weightFunMul" {
							sz = []float64{0, 1, 2, 1}[f]
						}
						r := okRec([]int64{0, 5, 7, 12}[f], sz)
						r.Day = now
						c.Op("record: file %d, %d s", r.Filename, now-day0)
						recs = append(recs, r)
					}
					return
				}
				_ = os.RemoveAll("split")
				_ = os.Mkdir("split", 0o755)
				cwd, _ := os.Getwd()
				if err := os.Chdir("split"); err != nil {
					panic("verif: " + err.Error())
				}
				defer os.Chdir(cwd)
				if t.P.Dataset2TestPath != "" {
					s.p.Dataset2TestPath = filepath.Join(cwd, t.P.Dataset2TestPath)
				}
				if t.P.AIFeatureMap != "" {
					s.p.AIFeatureMap = filepath.Join(cwd, t.P.AIFeatureMap)
				}
				if t.P.AIModel != "" {
					s.p.AIModel = filepath.Join(cwd, t.P.AIModel)
				}
				twin := s.create()
				var kept [][]byte
				for run, n := range lens {
					mode := 0
					if run > 0 {
						mode = c.Choose(starts)
						c.Note("dump and load; start mode: %s", modes[mode])
						now += 86400
					}
					recs := gen(n)
					mustWrite("t.csv", traceText(recs, stdOrder))
					p := s.params("t.csv")
					p.Dump = true
					p.LoadDump, p.LoadDumpFileName = run > 0, "dump.json.gz"
					p.ColdStart, p.ColdStartNoStats = mode == 1 || mode == 2, mode >= 2
					impl := s.create()
					cache.Simulate(s.typ, impl, p)

					if run > 0 {
						switch mode {
						case 1:
							cache.ClearFiles(twin)
						case 2:
							cache.Clear(twin)
						}
						cache.ClearStats(twin)
						_ = twin.GetTotDeletedFileMiss()
						// what the previous run remembers about its evictions is not
						// part of a dump: a new cleaning forgets it
						twin.Free(0, false)
						_ = twin.GetTotDeletedFileMiss()
					}
					rows, tot, redir := s.expected(twin, recs)
					compareResults(c, &s, rows, tot, redir)
					sameContents(c, fmt.Sprintf("cache after run %d", run+1), twin, impl, true)
					sameStats(c, fmt.Sprintf("cache after run %d", run+1), twin, impl)
					for i, want := range kept {
						got, err := os.ReadFile(fmt.Sprintf("out_run-%02d.csv", i))
						if err != nil || !bytes.Equal(got, want) {
							c.Failf("after run %d the results of run %d are not kept as out_run-%02d.csv: %v", run+1, i+1, i, err)
						}
					}
					res, _ := os.ReadFile("out.csv")
					kept = append(kept, res)
				}
				c.State(statLine(twin))
			},
		}
	}
	for _, t := range types {
		if t.Typ == "infinite" {
			continue // its size is not part of a dump: nothing is claimed
		}
		out = append(out, mk("split-", t, []int{depth(tier, 3, 4), depth(tier, 2, 3)}, 4))
		out = append(out, mk("chain-", t, []int{depth(tier, 1, 2), depth(tier, 2, 2), depth(tier, 1, 2)}, 3))
	}
	// what the agents learned
	type agents struct{ add, evc []fmFeature }
	for i, g := range []agents{{only(addFeatures, "size", "numReq"), nil}, {nil, only(evcFeatures, "catSize", "percOcc")}, {only(addFeatures, "size"), only(evcFeatures, "catSize", "catNumReq")}} {
		g := &rlCfg{name: fmt.Sprintf("split%d", i), typ: "scdl2", add: g.add, evc: g.evc, when: "onFree", max: 3}
		out = append(out, &Suite{
			Name:   fmt.Sprintf("agents-%s", []string{"admission", "eviction", "both"}[i]),
			Bounds: fmt.Sprintf("RL cache: a first run over %d records of 2 files, %d values of the first, second or last state of the tables then set, a second run from the dump, hot or cold; 4 pairs of exploration rate and decay", depth(tier, 2, 3), depth(tier, 1, 2)),
			Run: func(c *Chooser) {
				s := simSpec{typ: "aiRL", max: mb(g.max), p: g.params(), band: 1, size: 7, delay: 1e9, region: "it"}
				_ = os.RemoveAll("agents")
				_ = os.Mkdir("agents", 0o755)
				now := day0
				gen := func(k int) (recs []cache.CSVRecord) {
					for j := 0; j < k; j++ {
						f := int64(1 + c.Choose(2))
						r := okRec(f, float64(f))
						now += Pick(c, []int64{60, 86400})
						r.Day = now
						c.Op("record: file %d, %d s", r.Filename, now-day0)
						recs = append(recs, r)
					}
					return
				}
				sim := func(impl cache.Cache, recs []cache.CSVRecord, p cache.SimulationParams) {
					mustWrite("agents/t.csv", traceText(recs, stdOrder))
					p.OutFile, p.ResultRunStatsName, p.DumpFileName = "agents/out.csv", "agents/stats.json", "agents/dump.json.gz"
					cache.Simulate("aiRL", impl, p)
				}
				first := s.create()
				p := s.params("agents/t.csv")
				p.Dump = true
				sim(first, gen(depth(tier, 2, 3)), p)
				// a table which no run of this length could have learned
				a, e := rlAgents(first)
				olds := []*qlearn.Agent{a, e}
				at := []int{0, 0}
				for i, x := range olds {
					if x == nil {
						continue
					}
					for j := 0; j < depth(tier, 1, 2); j++ {
						st, ac := Pick(c, []int{0, 1, len(x.QTable.Actions) - 1}), c.Choose(len(x.QTable.Actions[0]))
						at[i] = st
						x.QTable.Actions[st][ac] = 1.5 + float64(j)
						c.Op("value of state %d, action %d set to %g", st, ac, 1.5+float64(j))
					}
				}
				cache.Dump(first, "agents/dump.json.gz", true)
				rate := Pick(c, [][2]float64{{1, .5}, {.5, 0}, {.5, .01}, {.1, .5}})
				start, decay := rate[0], rate[1]
				cold := c.Choose(2) == 1
				p.LoadDump, p.LoadDumpFileName, p.ColdStart = true, "agents/dump.json.gz", cold
				p.AIRLEpsilonStart, p.AIRLEpsilonDecay = start, decay
				c.Op("dump and load with exploration %g, decay %g, cold start %v", start, decay, cold)
				second := s.create()
				sim(second, nil, p)
				if !cold {
					sameContents(c, "cache after the load", first, second, g.evc == nil)
					sameTracked(c, "cache after the load", first, second)
				}
				a, e = rlAgents(second)
				for j, x := range []*qlearn.Agent{a, e} {
					old := olds[j]
					if (old == nil) != (x == nil) {
						c.Failf("the agents are others after the load")
					}
					if x == nil {
						continue
					}
					who := []string{"admission", "eviction"}[j]
					same := func(what string, got, want interface{}) {
						if !reflect.DeepEqual(got, want) {
							c.Failf("%s agent after the load: %s %v, want %v", who, what, got, want)
						}
					}
					same("values", x.QTable.Actions, old.QTable.Actions)
					same("states", x.QTable.States, old.QTable.States)
					same("actions", x.QTable.ActionTypes, old.QTable.ActionTypes)
					same("exploration rate", x.Epsilon, start)
					for k := 1; k < 4; k++ {
						want := x.Epsilon
						if want > .1 {
							want = .1 + .9*math.Exp(-decay*float64(k))
						}
						x.UpdateEpsilon()
						if !feq(x.Epsilon, want) {
							c.Failf("%s agent after the load: exploration rate after %d steps %v, want %v", who, k, x.Epsilon, want)
						}
					}
					// it learns as before: one step of the rule
					st, ac := at[j], x.QTable.ActionTypes[0]
					best := x.QTable.Actions[st][0]
					for _, v := range x.QTable.Actions[st] {
						best = math.Max(best, v)
					}
					v := x.QTable.Actions[st][0]
					x.UpdateTable(st, st, ac, 2)
					if want := v + .9*(2+.5*best-v); !feq(x.QTable.Actions[st][0], want) {
						c.Failf("%s agent after the load: value after a step of the rule %v, want %v", who, x.QTable.Actions[st][0], want)
					}
				}
				c.State(fmt.Sprint(statLine(first), start, decay, cold, a, e))
			},
		})
	}
	// where the dump and the results are
	out = append(out, &Suite{
		Name:   "places",
		Bounds: fmt.Sprintf("%d runs of two records each, each saving its dump in one of two folders and starting from no dump or from one of those saved, with the results in one of three places: no results are lost", depth(tier, 4, 5)),
		Shard:  3,
		Run: func(c *Chooser) {
			s := simSpec{typ: "lru", max: 10, p: plain(), band: 1, size: 7, delay: 1e9}
			_ = os.RemoveAll("places")
			for _, d := range []string{"res.1", "dumps"} {
				_ = os.MkdirAll(filepath.Join("places", d), 0o755)
			}
			place := Pick(c, []string{"places/out.csv", "places/res.1/out.csv", "places/dumps/some.results.csv"})
			base := strings.TrimSuffix(place, ".csv")
			var kept []string
			have := map[string]bool{}
			last := ""
			n := depth(tier, 4, 5)
			for run := 0; run < n; run++ {
				dumps := []string{"places/dump.json.gz", "places/dumps/dump.json.gz"}
				from := []string{""}
				for _, d := range dumps {
					if have[d] {
						from = append(from, d)
					}
				}
				p := s.params("places-t.csv")
				p.OutFile, p.ResultRunStatsName = place, "places/stats.json"
				p.LoadDumpFileName = Pick(c, from)
				p.LoadDump = p.LoadDumpFileName != ""
				p.Dump = true
				p.DumpFileName = Pick(c, dumps)
				c.Op("run %d: results in %s, from %q, dump in %s", run, place, p.LoadDumpFileName, p.DumpFileName)
				r := okRec(int64(100+run), 1)
				r.Day = day0 + int64(run)*864000
				r2 := r
				r2.Day += 86400
				mustWrite("places-t.csv", traceText([]cache.CSVRecord{r, r2}, stdOrder))
				cache.Simulate(s.typ, s.create(), p)
				have[p.DumpFileName] = true
				if last != "" {
					if p.LoadDump {
						kept = append(kept, last)
					} // a run from nothing replaces the results
				}
				for i, want := range kept {
					name := fmt.Sprintf("%s_run-%02d.csv", base, i)
					got, err := os.ReadFile(name)
					if err != nil || string(got) != want {
						c.Failf("after run %d the results of an earlier run are not kept as %s: %v", run, name, err)
					}
				}
				res, err := os.ReadFile(place)
				if err != nil {
					c.Failf("run %d left no results: %v", run, err)
				}
				last = string(res)
				if !strings.Contains(last, time.Unix(r.Day, 0).UTC().Format("2006-01-02")) && !strings.Contains(last, time.Unix(r2.Day, 0).UTC().Format("2006-01-02")) {
					c.Failf("run %d: its results do not tell of its days: %s", run, last)
				}
			}
			c.State(fmt.Sprint(place, kept))
		},
	})
	// how many runs there were
	out = append(out, &Suite{
		Name:   "earlier-runs",
		Bounds: fmt.Sprintf("0..12, 98..102 or 999..1001 earlier runs whose results are kept, and %d more from dumps: none is lost", depth(tier, 3, 5)),
		Run: func(c *Chooser) {
			s := simSpec{typ: "lru", max: 10, p: plain(), band: 1, size: 7, delay: 1e9}
			_ = os.RemoveAll("earlier")
			_ = os.MkdirAll("earlier", 0o755)
			have := Pick(c, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 98, 99, 100, 101, 102, 999, 1000, 1001})
			base := Pick(c, []string{"earlier/out", "earlier/simulation_results"})
			c.Op("%d earlier runs of %s", have, base)
			name := func(i int) string { return fmt.Sprintf("%s_run-%02d.csv", base, i) }
			for i := 0; i < have; i++ {
				mustWrite(name(i), []byte(fmt.Sprintf("results of run %d", i)))
			}
			kept := map[int]string{}
			for run := 0; run < depth(tier, 3, 5); run++ {
				p := s.params("earlier-t.csv")
				p.OutFile, p.ResultRunStatsName = base+".csv", "earlier/stats.json"
				p.Dump, p.DumpFileName, p.LoadDumpFileName = true, "earlier/dump.json.gz", "earlier/dump.json.gz"
				p.LoadDump = run > 0
				r := okRec(int64(100+run), 1)
				r.Day = day0 + int64(run)*864000
				r2 := r
				r2.Day += 86400
				mustWrite("earlier-t.csv", traceText([]cache.CSVRecord{r, r2}, stdOrder))
				cache.Simulate(s.typ, s.create(), p)
				res, err := os.ReadFile(p.OutFile)
				if err != nil {
					c.Failf("run %d left no results: %v", run, err)
				}
				kept[have+run] = string(res)
				for i := 0; i < have+run; i++ {
					want := kept[i]
					if i < have {
						want = fmt.Sprintf("results of run %d", i)
					}
					if got, err := os.ReadFile(name(i)); err != nil || string(got) != want {
						c.Failf("the results of run %d are no longer in %s: %v", i, name(i), err)
					}
				}
			}
			c.State(fmt.Sprint(have, base))
		},
	})
	return out
}

// ---- C27: the event log ----

func readLog(c *Chooser) [][]string {
	f, err := os.Open("simulationLogFile.csv.gz")
	if err != nil {
		c.Failf("the log is missing: %v", err)
	}
	defer f.Close()
	z, err := gzip.NewReader(f)
	if err != nil {
		c.Failf("the log is not a gzip file: %v", err)
	}
	data, err := io.ReadAll(z)
	if err != nil {
		c.Failf("the log is cut short: %v", err)
	}
	rows, err := csv.NewReader(bytes.NewReader(data)).ReadAll()
	if err != nil {
		c.Failf("the log is not a csv: %v", err)
	}
	return rows
}

// logLines makes the model write the lines the log must hold.
func logLines(h *H, out *[][]string) {
	h.M.Ev = func(kind string, file int64, size float64, f *RFile) {
		n, d := int64(-1), int64(-1)
		if f != nil {
			n, d = f.Freq, f.Delta
		}
		*out = append(*out, []string{itoa(h.M.Tick), kind, fmt.Sprintf("%0.2f", h.M.Size()), fmt.Sprintf("%0.2f", h.M.Size()/h.M.Max*100), itoa(file), fmt.Sprintf("%0.2f", size), itoa(n), itoa(d)})
	}
}

var logHead = []string{"tick", "action or event", "cache size", "cache capacity", "filename", "size", "num req", "delta t"}

func compareLog(c *Chooser, want [][]string) {
	got := readLog(c)
	want = append([][]string{logHead}, want...)
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			c.Failf("the log ends after %d lines, the next one should be %v", len(got), want[i])
		case i >= len(want):
			c.Failf("unexpected log line %v", got[i])
		case strings.Join(got[i], ",") != strings.Join(want[i], ","):
			c.Failf("log line %d: got %v, want %v", i, got[i], want[i])
		}
	}
}

// logSuite: the log of every history, with the writer running wherever the
// producer yields.
func logSuite(s *Scn, yields bool) *Suite {
	return &Suite{
		Name:   s.Name,
		Bounds: s.bounds() + fmt.Sprintf("; every placement of a yield to the log writer after the operations: %v", yields),
		Shard:  4,
		Run: func(c *Chooser) {
			if !yields {
				logHistory(c, s, func() {})
				return
			}
			logHistory(c, s, func() {
				if c.Choose(2) == 1 {
					yieldNow()
				}
			})
		},
	}
}

func logHistory(c *Chooser, s *Scn, after func()) {
	h := newH(c, s)
	done := false
	defer func() {
		if !done {
			_ = cache.Terminate(h.I) // the writer must not outlive the execution
		}
	}()
	var want [][]string
	logLines(h, &want)
	for _, op := range s.Prefix {
		op.Do(h)
	}
	n := s.MinLen + c.Choose(s.Depth-s.MinLen+1)
	for i := 0; i < n; i++ {
		h.step()
		after()
	}
	done = true
	if err := cache.Terminate(h.I); err != nil {
		c.Failf("terminate: %v", err)
	}
	h.M.Ev = nil
	compareLog(c, want)
	c.State(fmt.Sprint(s.Name, want))
}

func suitesLog(tier string) []*Suite {
	var out []*Suite
	lg := func(p cache.InitParameters) cache.InitParameters { p.Log = true; return p }
	for _, typ := range bounded {
		out = append(out, logSuite(&Scn{Name: "log-" + typ, Typ: typ, Max: 4, P: lg(plain()), Sizes: []float64{1, 3}, NFiles: 4, Depth: depth(tier, 5, 6), Ops: []Op{opFree(2, false), opClearStats(), opClearFiles()}}, false))
	}
	r := lg(marked(75, 25))
	r.RedirectReq = true
	out = append(out, logSuite(&Scn{Name: "log-watermarks-redirect", Typ: "lru", Max: 4, P: r, Band: 6. / cache.DailyBandwidth1Gbit, Sizes: []float64{1, 2, 5}, NFiles: 3, Depth: depth(tier, 5, 6), Ops: []Op{opClearStats(), opClear()}}, false))
	rnd := lg(plain())
	rnd.RandSeed = 7
	out = append(out, logSuite(&Scn{Name: "log-random_lru", Typ: "random_lru", Max: 4, P: rnd, Sizes: []float64{1, 3}, NFiles: 4, Depth: depth(tier, 5, 6), Ref: RefParams{Kind: "random"}}, false))
	// schedules
	out = append(out, logSuite(&Scn{Name: "log-yields", Typ: "lru", Max: 4, P: lg(plain()), Sizes: []float64{1, 3}, NFiles: 3, Depth: depth(tier, 5, 6)}, true))
	// around the capacity of the buffer: n lines are pending, then a burst
	for _, yields := range []bool{false, true} {
		n := 26
		sc := &Scn{Name: fmt.Sprintf("log-burst-yields-%v", yields), Typ: "lru", Max: 100, P: lg(plain()), Forced: []float64{1}, NFiles: 1, Depth: 40}
		y := yields
		out = append(out, &Suite{
			Name:   sc.Name,
			Bounds: fmt.Sprintf("0..%d single-line events, a yield to the writer or not, a burst of 0, 1, 23..26 or 47..50 lines by one cleaning, a yield or not, then up to 3 more requests: the log buffer holds 24 lines", n),
			Shard:  2,
			Run: func(c *Chooser) {
				s := &Scn{Name: sc.Name, Typ: "lru", Max: 60, P: lg(plain()), Sizes: []float64{1}, NFiles: 60}
				h := newH(c, s)
				var want [][]string
				logLines(h, &want)
				yield := func() {
					if y && c.Choose(2) == 1 {
						yieldNow()
					}
				}
				done := false
				defer func() {
					if !done {
						_ = cache.Terminate(h.I)
					}
				}()
				k := c.Choose(n + 1)
				b := Pick(c, []int{0, 1, 23, 24, 25, 26, 47, 48, 49, 50})
				for i := 0; i < b; i++ {
					h.req(h.newFile(1))
					yieldNow()
				}
				yield()
				for i := 0; i < k; i++ {
					if len(h.Names) > 0 {
						opProbe().Do(h)
					} else {
						h.req(h.newFile(1))
					}
				}
				yield()
				if b > 0 {
					opFree(float64(b), false).Do(h)
				}
				yield()
				for m := c.Choose(4); m > 0; m-- {
					h.req(h.newFile(1))
					yield()
				}
				c.Op("terminate with %d lines written", len(want))
				done = true
				_ = cache.Terminate(h.I)
				h.M.Ev = nil
				compareLog(c, want)
				c.State(fmt.Sprint(sc.Name, k, b, len(want)))
			},
		})
	}
	return out
}
