"""Fourteenth batch of planted bugs: a second round on the cache and the
simulation, showing at scale, with unusual values or after long histories."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gobug import bug as _bug
ONLY = sys.argv[1:]
SC, LRU, LFU, GF, ST, SIM = "cache/simpleCache.go", "cache/queue/lru.go", "cache/queue/lfu.go", "cache/queue/genericF.go", "cache/files/stats.go", "cache/simulation.go"


def bug(id, *a, **k):
    if not ONLY or id in ONLY:
        _bug(id, *a, **k)


bug("occupancy-in-single-precision", "C02", [(SC, '''			cache.size += requestedFileSize

			queue.Insert(cache.files, fileStats)
''', '''			cache.size = float64(float32(cache.size) + float32(requestedFileSize))

			queue.Insert(cache.files, fileStats)
''')], r'''
	c := demoCache("lru", 1e9, InitParameters{})
	get(c, 1, 67108864, 0)
	get(c, 2, 1, 0)
	if s := Size(c); s != 67108865 {
		t.Fatalf("occupancy %f, the files have 67108865", s)
	}
''', "a cache of tens of terabytes", "the occupancy is not the sum of the sizes")

bug("empty-files-not-kept", "C07", [(SC, '''		if cache.Size()+requestedFileSize <= cache.MaxSize {
			cache.size += requestedFileSize
''', '''		if requestedFileSize > 0. && cache.Size()+requestedFileSize <= cache.MaxSize {
			cache.size += requestedFileSize
''')], r'''
	c := demoCache("lru", 10, InitParameters{})
	get(c, 1, 0, 0)
	if !c.Check(1) {
		t.Fatal("a file without contents fits, but is not stored")
	}
''', "a file of size 0", "it is never admitted")

bug("most-recent-files-not-moved", "C04", [(LRU, '''	copy(q.queue[lastIdx:], q.queue[lastIdx+1:])

	newIndex := len(q.queue) - 1
''', '''	if lastIdx >= len(q.queue)-1-len(q.queue)/64 {
		// Already among the most recent
		return nil
	}

	copy(q.queue[lastIdx:], q.queue[lastIdx+1:])

	newIndex := len(q.queue) - 1
''')], r'''
	c := demoCache("lru", 100, InitParameters{})
	for f := int64(1); f <= 100; f++ {
		get(c, f, 1, 0)
	}
	get(c, 99, 1, 0)
	get(c, 101, 99, 0)
	if !c.Check(99) || c.Check(100) {
		t.Fatal("the file requested last was evicted")
	}
''', "at least 64 files, and a request of one of the latest of them", "it keeps its place")

bug("evictions-by-the-hundred", "C07", [(SC, '''		for _, curFile := range queue.GetWorstFilesUp2Size(cache.files, sizeToDelete) {
''', '''		for idx, curFile := range queue.GetWorstFilesUp2Size(cache.files, sizeToDelete) {
			if idx == 100 {
				break
			}
''')], r'''
	c := demoCache("lru", 1000, InitParameters{})
	for f := int64(1); f <= 1000; f++ {
		get(c, f, 1, 0)
	}
	get(c, 2000, 500, 0)
	if !c.Check(2000) {
		t.Fatal("a file that fits was not stored")
	}
''', "a miss that needs more than a hundred evictions", "the file is not stored")

bug("thousand-samples-of-free-space", "C09", [(SC, '''	cache.dailyfreeSpace = append(cache.dailyfreeSpace, freeSpace)
	cache''', '''	if len(cache.dailyfreeSpace) == 1000 {
		cache.dailyfreeSpace = cache.dailyfreeSpace[1:]
	}
	cache.dailyfreeSpace = append(cache.dailyfreeSpace, freeSpace)
	cache''')], r'''
	c := demoCache("lru", 10, InitParameters{})
	for k := 0; k < 2000; k++ {
		get(c, 1, 1, 0)
	}
	if a := AvgFreeSpace(c); a != 9 {
		t.Fatalf("mean free space %f, it was 9 at every request", a)
	}
''', "a day of more than a thousand requests", "the mean free space is wrong")

bug("tiny-efficiencies-are-none", "C10", [(SC, '''	if request.CPUEff != 0. {
''', '''	if request.CPUEff >= 0.01 {
''')], r'''
	c := demoCache("lru", 10, InitParameters{})
	for _, e := range []float64{50, 0.001} {
		GetFile(c, int64(1), 1., int64(1), e, int64(1514764800))
	}
	if u := CPUEffUpperBound(c); u > 25.001 {
		t.Fatalf("upper bound %f, the mean of 50 and 0.001 is 25.0005", u)
	}
''', "an efficiency of less than a hundredth of a percent", "the request is left out")

bug("redirected-again-counts-its-size-once", "C11", [(SC, '''	redirectSize                       float64
''', '''	redirectSize                       float64
	lastRedirected                     int64
'''), (SC, '''			cache.redirectSize += size

''', '''			if filename != cache.lastRedirected {
				cache.redirectSize += size
			}
			cache.lastRedirected = filename

''')], r'''
	c := demoCache("lru", 100, InitParameters{RedirectReq: true})
	SetBandwidth(c, 10./DailyBandwidth1Gbit)
	get(c, 1, 10, 0)
	get(c, 2, 3, 0)
	get(c, 2, 3, 0)
	if s := RedirectedSize(c); NumRedirected(c) != 2 || s != 6 {
		t.Fatalf("%d redirected of %f, want 2 of 6", NumRedirected(c), s)
	}
''', "the same file redirected twice in a row", "its size counts once")

bug("no-cleaning-to-the-bottom", "C12", [(SC, '''		if cache.Capacity() >= cache.highWatermark {
''', '''		if cache.lowWatermark > 0. && cache.Capacity() >= cache.highWatermark {
''')], r'''
	c := demoCache("lru", 10, InitParameters{Watermarks: true, HighWatermark: 50, LowWatermark: 0})
	for f := int64(1); f <= 5; f++ {
		get(c, f, 1, 0)
	}
	if s := Size(c); s != 0 {
		t.Fatalf("occupancy %f after a cleaning down to 0", s)
	}
''', "a low watermark of 0", "the cache is never cleaned")

bug("yesterdays-evictions-are-forgotten", "C14", [(SC, '''	cache.numDailyHit = 0
''', '''	cache.stats.ClearDeletedFileMiss()
	cache.numDailyHit = 0
''')], r'''
	c := demoCache("lru", 1, InitParameters{})
	get(c, 1, 1, 0)
	get(c, 2, 1, 0)
	ClearStats(c)
	get(c, 1, 1, 1)
	if n := GetTotDeletedFileMiss(c); n != 1 {
		t.Fatalf("%d misses on evicted files, want 1", n)
	}
''', "a day between an eviction and the request of the file", "the miss is not counted")

bug("first-seen-again-after-32", "C15", [(ST, '''	stats.RequestedTimes[stats.IdxLastRequest] = curTime
	stats''', '''	stats.RequestedTimes[stats.IdxLastRequest] = curTime
	if stats.IdxLastRequest == 0 {
		stats.StatInsertTime = curTime
	}
	stats''')], r'''
	c := demoCache("lru", 10, InitParameters{}).(*SimpleCache)
	for day := int64(0); day < 33; day++ {
		get(c, 1, 1, day)
	}
	if s := c.stats.Get(1); s.StatInsertTime.Unix() != 1514764800 {
		t.Fatalf("first seen at %v, it was requested on the first day", s.StatInsertTime)
	}
''', "the 33rd request of a file", "it counts as seen for the first time")

bug("purges-of-a-few-hundred", "C16", [(ST, '''inCache := has(curFilename); !inCache &&''', '''inCache := has(curFilename); !inCache && numDeletedFiles < 512 &&''')], r'''
	c := demoCache("lru", 1, InitParameters{MaxNumDayDiff: 1, DeltaDaysStep: 1}).(*SimpleCache)
	for f := int64(1); f <= 2000; f++ {
		get(c, f, 1, 0)
	}
	get(c, 5000, 1, 3)
	if n := len(c.stats.Data); n != 1 {
		t.Fatalf("statistics of %d files kept, the other were old", n)
	}
''', "more than 512 old files", "some of them are kept")

bug("seeds-of-32-bits", "C18", [("cache/randomCache.go", "rand.NewSource(params.RandSeed)", "rand.NewSource(int64(uint32(params.RandSeed)))")], r'''
	stored := func(seed int64) (out string) {
		c := demoCache("random_lru", 1000, InitParameters{RandSeed: seed})
		for f := int64(0); f < 64; f++ {
			if added, _ := get(c, f, 1, 0); added {
				out += "x"
			} else {
				out += "."
			}
		}
		return
	}
	if a, b := stored(42), stored(42+1<<32); a == b {
		t.Fatalf("two seeds, one sequence: %s", a)
	}
''', "two seeds that differ above bit 32", "they give the same decisions")

bug("dataset-names-as-numbers", "C19", [("cache/lruDatasetVerifier.go", "SelectedFiles []int64 `", "SelectedFiles []float64 `"), ("cache/lruDatasetVerifier.go", "cache.datasetFileMap[fileName] = true", "cache.datasetFileMap[int64(fileName)] = true")], r'''
	chScratch(t)
	f, _ := os.Create("ds.json.gz")
	g := gzip.NewWriter(f)
	_, _ = g.Write([]byte(`{"selected_files": [9007199254740993]}`))
	_ = g.Close()
	_ = f.Close()
	c := demoCache("lruDatasetVerifier", 4, InitParameters{Dataset2TestPath: "ds.json.gz"})
	get(c, 9007199254740993, 1, 0)
	get(c, 9007199254740992, 1, 0)
	if !c.Check(9007199254740993) || c.Check(9007199254740992) {
		t.Fatal("the file of the dataset is not stored, or another one is")
	}
''', "names above 2^53", "other files are taken for those of the dataset", extra_imports=("compress/gzip",))

bug("cleared-only-if-occupied", "C23", [(SC, '''	queue.Init(cache.files)
	cache.stats.Clear()
''', '''	if cache.size > 0. {
		queue.Init(cache.files)
	}
	cache.stats.Clear()
''')], r'''
	c := demoCache("lru", 4, InitParameters{})
	get(c, 1, 0, 0)
	Clear(c)
	if c.Check(1) {
		t.Fatal("the file is there after clearing")
	}
''', "a cache with nothing but files of size 0", "they stay when it is cleared")

TRACE = r'''
	chScratch(t)
	trace := csvHeader + "\n"
	line := func(file int, size, cpu, io, day string) {
		trace += fmt.Sprintf("%d,1,1,1,1,1,1,0,0,0,1,1,1,%s,0,2,1,1,true,%s,%s,%s,1,1,1\n", file, size, cpu, io, day)
	}
'''
RUN = r'''
	_ = os.WriteFile("t.csv", []byte(trace), 0o644)
	c := demoCache("lru", 10, InitParameters{})
	Simulate("lru", c, SimulationParams{DataPath: "t.csv", OutFile: "o.csv", ResultRunStatsName: "s.json", WindowSize: 1000, WindowStop: 1000, OutputUpdateDelay: 1e9})
	data, _ := os.ReadFile("s.json")
	var st SimulationStats
	_ = json.Unmarshal(data, &st)
'''
bug("negative-waits-are-none", "C24", [(SIM, '''			cpuEff := (record.CPUTime / (record.CPUTime + record.IOTime)) * 100.
''', '''			cpuEff := (record.CPUTime / (record.CPUTime + math.Max(record.IOTime, 0.))) * 100.
''')], TRACE + r'''
	line(1, "1048576", "5", "-1", "1514764800")
''' + RUN + r'''
	if st.TotInvalidRecords != 1 || c.Check(1) {
		t.Fatalf("%d invalid records, want 1", st.TotInvalidRecords)
	}
''', "a record with a negative waiting time", "it is simulated with 100% of efficiency", extra_imports=("encoding/json", "fmt"))

bug("days-without-requests-have-rows", "C25", [(SIM, '''			latestTime = curTime
			windowStepCounter++
''', '''			latestTime = latestTime.Add(24 * time.Hour)
			windowStepCounter++
''')], TRACE + r'''
	for i, day := range []string{"1514764800", "1514764800", "1515110400", "1515110400", "1515110400"} {
		line(i, "1048576", "5", "5", day)
	}
''' + RUN + r'''
	rows, _ := os.ReadFile("o.csv")
	if n := strings.Count(string(rows), "\n"); n != 2 {
		t.Fatalf("%d rows, one day was completed:\n%s", n-1, rows)
	}
''', "a trace with days without requests", "rows of parts of a day are written", extra_imports=("encoding/json", "fmt", "strings"))

bug("sizes-are-whole-numbers", "C26", [(SIM, '''			size, _ := strconv.ParseFloat(record[headerMap[13]], 64)
''', '''			wholeSize, _ := strconv.ParseInt(strings.TrimSuffix(record[headerMap[13]], ".0"), 10, 64)
			size := float64(wholeSize)
''')], TRACE + r'''
	line(1, "2.097152e+06", "5", "5", "1514764800")
''' + RUN + r'''
	if s := Size(c); s != 2 {
		t.Fatalf("occupancy %f, the file has 2 MB", s)
	}
''', "a size written in scientific notation", "it is read as 0", extra_imports=("encoding/json", "fmt"))

bug("runs-counted-up-to-ten", "C28", [("cache/utils.go", '''		if strings.Contains(f.Name(), "_run-") {''', '''		if strings.Contains(f.Name(), "_run-0") {''')], r'''
	chScratch(t)
	for k := 0; k < 12; k++ {
		_ = os.WriteFile(fmt.Sprintf("o_run-%02d.csv", k), []byte("results"), 0o644)
	}
	if n := GetSimulationRunNum("."); n != 12 {
		t.Fatalf("the next run is number %d, 12 were made", n)
	}
''', "more than eleven runs", "the results of the eleventh are overwritten", extra_imports=("fmt",))

bug("dumps-of-short-lines", "C21", [(SC, '''	for {
		_, err := greader.Read(charBuffer)
''', '''	if lines := bufio.NewScanner(greader); true {
		for lines.Scan() {
			records = append(records, append([]byte{}, lines.Bytes()...))
		}

		return records
	}

	for {
		_, err := greader.Read(charBuffer)
'''), (SC, '''import (
''', '''import (
	"bufio"
''')], r'''
	chScratch(t)
	f, _ := os.Create("d.gz")
	g := gzip.NewWriter(f)
	for _, n := range []int{10, 100000, 20} {
		_, _ = g.Write(append(bytes.Repeat([]byte("x"), n), '\n'))
	}
	_ = g.Close()
	_ = f.Close()
	c := demoCache("lru", 10, InitParameters{})
	if r := Load(c, "d.gz"); len(r) != 3 {
		t.Fatalf("%d records read, the dump has 3", len(r))
	}
''', "a dump with a record of more than 64 kB, like the table of an agent", "it and the following ones are lost", extra_imports=("bytes", "compress/gzip"))
