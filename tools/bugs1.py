from gobug import bug
C="cache/"
bug("purge-by-age", "C16", [(C+"files/stats.go", "!inCache && stats.DiffLastUpdate(s.lastUpdateTime) >= s.maxNumDayDiff", "!inCache && s.lastUpdateTime.Sub(stats.StatInsertTime).Hours()/numHoursInADay >= s.maxNumDayDiff")],
'''
	c := demoCache("lru", 4, InitParameters{MaxNumDayDiff: 2, DeltaDaysStep: 3})
	get(c, 1, 3, 0)
	get(c, 1, 3, 2) // requested again, recently
	get(c, 2, 3, 2) // evicts 1
	get(c, 2, 3, 3) // the purge: file 1 was requested one day ago
	if c.(*SimpleCache).stats.Data[1] == nil {
		t.Fatal("the statistics of a file requested a day ago were purged")
	}
''', "a file first requested long ago, requested again recently, evicted, then a purge", "the purge drops the statistics of files by their age instead of their last request")
bug("miss-after-delete-once", "C14", [(C+"files/stats.go", "\t\ts.deletedFileMiss[filename]++\n", "\t\ts.deletedFilesMissLastCount++\n\t\tdelete(s.deletedFileMiss, filename)\n")],
'''
	p := InitParameters{RedirectReq: true}
	c := demoCache("lru", 4, p)
	SetBandwidth(c, 8./DailyBandwidth1Gbit)
	get(c, 1, 4, 0)
	get(c, 2, 4, 0) // evicts 1; the bandwidth is used up
	get(c, 1, 4, 0) // redirected
	get(c, 1, 4, 0) // redirected
	if n := c.GetTotDeletedFileMiss(); n != 2 {
		t.Fatalf("two misses on a deleted file, counted %d", n)
	}
''', "two misses on the same evicted file without it being stored in between (redirection, or a policy that does not admit)", "only the first miss on an evicted file is counted")
bug("dump-without-last-update", "C21", [(C+"files/stats.go", '`json:"statLastUpdateTime"`', '`json:"-"`')],
'''
	chScratch(t)
	p := InitParameters{MaxNumDayDiff: 5, DeltaDaysStep: 3}
	a := demoCache("lru", 4, p)
	get(a, 1, 3, 0)
	get(a, 2, 3, 1)
	a.Dump("d.gz", true)
	b := demoCache("lru", 4, p)
	b.Loads(b.Load("d.gz"))
	for _, c := range []Cache{a, b} {
		get(c, 2, 3, 1)
		get(c, 2, 3, 4) // a purge three days later keeps both
	}
	if x, y := a.(*SimpleCache).stats.Data[1] != nil, b.(*SimpleCache).stats.Data[1] != nil; x != y {
		t.Fatalf("file 1 tracked: original %v, restored %v", x, y)
	}
''', "a dump and load of a cache with a file that is tracked but not stored, then a purge", "the instant of the last request is lost in a dump, so a restored cache purges what the original keeps")
bug("watermark-percent-of-occupancy", "C12", [(C+"simpleCache.go", "sizeToDelete = amount * (cache.MaxSize / 100.)", "sizeToDelete = amount * (cache.size / 100.)")],
'''
	c := demoCache("lru", 100, InitParameters{Watermarks: true, HighWatermark: 80, LowWatermark: 50})
	for f := int64(0); f < 16; f++ {
		get(c, f, 5, 0)
	}
	if c.Capacity() > 50 {
		t.Fatalf("occupied %v%% after a cleaning down to 50%%", c.Capacity())
	}
''', "watermarks enabled, and files small enough for the rounding to whole files not to hide it", "the cleaning stops before the low watermark")
bug("daily-reset-of-the-clock", "C13", [(C+"simpleCache.go", "	cache.numLocal = 0\n	cache.numRemote = 0\n	cache.redirectSize = 0.\n}", "	cache.numLocal = 0\n	cache.numRemote = 0\n	cache.redirectSize = 0.\n	cache.tick = 0\n}")],
'''
	a, b := demoCache("lru", 10, InitParameters{}), demoCache("lru", 10, InitParameters{})
	for _, c := range []Cache{a, b} {
		get(c, 1, 1, 0)
		get(c, 2, 1, 0)
		if c == b {
			c.ClearStats()
		}
		get(c, 1, 1, 0)
	}
	if x, y := a.(*SimpleCache).stats.Data[1].DeltaLastRequest, b.(*SimpleCache).stats.Data[1].DeltaLastRequest; x != y {
		t.Fatalf("distance from the previous request: %d without a daily reset, %d with it", x, y)
	}
''', "requests to the same file on both sides of a daily reset, and looking at the statistics of the file", "the daily reset restarts the request clock")
bug("any-protocol-is-remote", "C10", [(C+"simpleCache.go", "} else if request.Protocol == 0 {", "} else {")],
'''
	c := demoCache("lru", 10, InitParameters{})
	GetFile(c, int64(1), 1., int64(0), 40., int64(1514764800), int64(0), int64(0), int64(0))
	GetFile(c, int64(1), 1., int64(2), 80., int64(1514764800), int64(0), int64(0), int64(0))
	if x := c.CPUEffLowerBound(); x != 40 {
		t.Fatalf("lower bound %v with one remote request of efficiency 40", x)
	}
''', "a request whose protocol is neither local nor remote", "requests of unknown protocol enter the lower bound")
bug("redirect-above-only", "C11", [(C+"simpleCache.go", "if cache.BandwidthUsage() >= 95. {", "if cache.BandwidthUsage() > 95. {")],
'''
	c := demoCache("lru", 100, InitParameters{RedirectReq: true})
	SetBandwidth(c, 20./DailyBandwidth1Gbit)
	get(c, 1, 19, 0)
	if c.BandwidthUsage() != 95 {
		t.Fatalf("setup: %v", c.BandwidthUsage())
	}
	if _, red := get(c, 2, 1, 0); !red {
		t.Fatal("not redirected at 95 percent of the bandwidth")
	}
''', "a bandwidth usage of exactly 95 percent", "the request at exactly 95 percent of the bandwidth is served")
bug("window-stop-counts-one-more", "C25", [(C+"simulation.go", "		if windowCounter == param.WindowStop {\n			break\n		}\n\n		totNumRecords++\n", "		totNumRecords++\n		if windowCounter == param.WindowStop {\n			break\n		}\n\n")],
'''
	chScratch(t)
	trace := csvHeader + "\\n"
	for d := int64(0); d < 4; d++ {
		trace += fmt.Sprintf("%d,1,1,1,1,1,1,0,0,0,1,1,1,1048576,0,2,1,1,true,5,5,%d,1,1,1\\n", d, 1514764800+d*86400)
	}
	_ = os.WriteFile("t.csv", []byte(trace), 0o644)
	c := demoCache("lru", 10, InitParameters{})
	Simulate("lru", c, SimulationParams{DataPath: "t.csv", OutFile: "o.csv", ResultRunStatsName: "s.json", WindowSize: 2, WindowStop: 1, OutputUpdateDelay: 1e9})
	data, _ := os.ReadFile("s.json")
	var st SimulationStats
	_ = json.Unmarshal(data, &st)
	if st.TotNumRecords != 2 {
		t.Fatalf("%d records counted, the window has 2", st.TotNumRecords)
	}
''', "a simulation that ends at a window stop and not at the end of the trace", "the record that ends the simulation is counted although it belongs to the next window", extra_imports=("encoding/json","fmt"))
bug("invalid-before-filtered", "C24", [(C+"simulation.go", """			if !succesJobFilter.Check(record) {
				numFilteredRecords++

				continue
			}
""", ""), (C+"simulation.go", """			case cpuEff > 100.:
				numInvalidRecords++

				continue
			}
""", """			case cpuEff > 100.:
				numInvalidRecords++

				continue
			}

			if !succesJobFilter.Check(record) {
				numFilteredRecords++

				continue
			}
""")],
'''
	chScratch(t)
	trace := csvHeader + "\\n"
	trace += "1,1,1,1,1,1,1,0,0,0,1,1,1,1048576,0,2,1,1,false,0,0,1514764800,1,1,1\\n"
	_ = os.WriteFile("t.csv", []byte(trace), 0o644)
	c := demoCache("lru", 10, InitParameters{})
	Simulate("lru", c, SimulationParams{DataPath: "t.csv", OutFile: "o.csv", ResultRunStatsName: "s.json", WindowSize: 7, WindowStop: 100, OutputUpdateDelay: 1e9})
	data, _ := os.ReadFile("s.json")
	var st SimulationStats
	_ = json.Unmarshal(data, &st)
	if st.TotFilteredRecords != 1 || st.TotInvalidRecords != 0 {
		t.Fatalf("a failed job without times: filtered %d, invalid %d", st.TotFilteredRecords, st.TotInvalidRecords)
	}
''', "a record of a failed job whose CPU efficiency is not valid either", "failed jobs are accounted as invalid records", extra_imports=("encoding/json",))
bug("log-drops-when-busy", "C27", [(C+"simpleCache.go", "	cache.logBuffer <- curChoice\n", "	select {\n	case cache.logBuffer <- curChoice:\n	default:\n	}\n")],
'''
	chScratch(t)
	runtime.GOMAXPROCS(1)
	c := demoCache("lru", 1000, InitParameters{Log: true})
	for f := int64(0); f < 400; f++ {
		get(c, f, 1, 0)
	}
	c.Free(400, false)
	_ = Terminate(c)
	f, _ := os.Open("simulationLogFile.csv.gz")
	z, err := gzip.NewReader(f)
	if err != nil {
		t.Fatal(err)
	}
	rows, err := csv.NewReader(z).ReadAll()
	if err != nil || len(rows) != 1+800+401 {
		t.Fatalf("%d lines in the log, want 1202 (%v)", len(rows), err)
	}
''', "the log writer falling 24 lines behind the simulation", "log lines are dropped while the buffer is full", extra_imports=("compress/gzip", "encoding/csv", "runtime"))
bug("truncated-dump-accepted", "C22", [(C+"simpleCache.go", "			if err == io.EOF {\n", "			if err == io.EOF || err == io.ErrUnexpectedEOF {\n"), (C+"simpleCache.go", "	closeErr := greader.Close()\n	if closeErr != nil {\n		panic(closeErr)\n	}\n", "	_ = greader.Close()\n")],
'''
	chScratch(t)
	a := demoCache("lru", 1000, InitParameters{})
	for f := int64(0); f < 300; f++ {
		get(a, f, 1, 0)
	}
	a.Dump("d.gz", true)
	data, _ := os.ReadFile("d.gz")
	loaded := 0
	for cut := 40; cut < len(data); cut += 1 + len(data)/40 {
		func() {
			defer func() { _ = recover() }()
			_ = os.WriteFile("cut.gz", data[:cut], 0o644)
			b := demoCache("lru", 1000, InitParameters{})
			b.Loads(b.Load("cut.gz"))
			if b.Size() != 300 {
				loaded++
			}
		}()
	}
	if loaded > 0 {
		t.Fatalf("%d truncated dumps were loaded silently", loaded)
	}
''', "a dump file cut short at a record boundary of the decompressed stream", "a truncated dump is loaded as if it were whole")
bug("draw-on-hits", "C18", [(C+"randomCache.go", "		requestedFileSize = request.Size\n	)\n", "		requestedFileSize = request.Size\n		store             = cache.randomGenerator.Float32() >= randThreshold\n	)\n"), (C+"randomCache.go", "		if cache.randomGenerator.Float32() >= randThreshold {", "		if store {")],
'''
	// the admission of the k-th miss does not depend on the hits in between
	a, b := demoCache("random_lru", 100, InitParameters{RandSeed: 42}), demoCache("random_lru", 100, InitParameters{RandSeed: 42})
	for f := int64(0); f < 40; f++ {
		x, _ := get(a, f, 1, 0)
		y, _ := get(b, f, 1, 0)
		if x != y {
			t.Fatalf("miss %d: stored %v, but %v when hits were in between", f, x, y)
		}
		if y {
			get(b, f, 1, 0)
		}
	}
''', "hits between the misses of a random cache", "hits consume admission draws")
bug("frequency-restarts-on-miss", "C05", [(C+"files/stats.go", "	} else {\n		stats.NMiss++\n	}", "	} else {\n		stats.NMiss++\n		stats.Frequency = 1\n	}")],
'''
	c := demoCache("lfu", 4, InitParameters{})
	get(c, 1, 2, 0)
	get(c, 1, 2, 0)
	get(c, 1, 2, 0)
	get(c, 1, 2, 0) // four requests
	c.Free(4, false)
	get(c, 2, 2, 0)
	get(c, 2, 2, 0)
	get(c, 1, 2, 0) // the fifth, a miss
	get(c, 3, 2, 0) // someone has to go: file 2 with two requests
	if !c.Check(1) || c.Check(2) {
		t.Fatalf("file 1 (5 requests) stored %v, file 2 (2 requests) stored %v", c.Check(1), c.Check(2))
	}
''', "a file that is evicted and requested again under LFU", "the requests before an eviction are forgotten")
bug("free-only-the-missing-space", "C07", [(C+"simpleCache.go", "			cache.Free(requestedFileSize, false)\n", "			cache.Free(cache.Size()+requestedFileSize-cache.MaxSize, false)\n")],
'''
	c := demoCache("lru", 10, InitParameters{})
	for f := int64(1); f <= 4; f++ {
		get(c, f, 2, 0)
	}
	get(c, 9, 4, 0) // 2 free: the eviction of 4 is due
	if c.Check(1) || c.Check(2) {
		t.Fatalf("evicted less than the size of the file: %v %v", c.Check(1), c.Check(2))
	}
''', "an admission to a cache that is partly free, where the difference is at least one file", "an admission evicts less than the size of the admitted file")
bug("inverse-column-map", "C26", [(C+"simulation.go", """	for _, name := range strings.Split(csvHeader, ",") {
		for idx, curHeaderName := range header {
			if name == curHeaderName {
				indexes = append(indexes, idx)
			}
		}
	}""", """	columns := strings.Split(csvHeader, ",")
	for _, curHeaderName := range header {
		for idx, name := range columns {
			if name == curHeaderName {
				indexes = append(indexes, idx)
			}
		}
	}""")],
'''
	chScratch(t)
	// three columns rotated: Filename, SiteName, UserID -> SiteName, UserID, Filename
	cols := strings.Split(csvHeader, ",")
	cols[0], cols[1], cols[2] = cols[1], cols[2], cols[0]
	trace := strings.Join(cols, ",") + "\\n" + "22,33,11,1,1,1,1,0,0,0,1,1,1,1048576,0,2,1,1,true,1,1,1514764800,1,1,1\\n"
	_ = os.WriteFile("t.csv", []byte(trace), 0o644)
	for r := range OpenSimFile("t.csv") {
		if r.Filename != 11 || r.SiteName != 22 || r.UserID != 33 {
			t.Fatalf("filename %d site %d user %d, want 11 22 33", r.Filename, r.SiteName, r.UserID)
		}
	}
''', "a trace whose columns are in another order that is not an exchange of pairs", "the columns of a reordered trace are mapped by the inverse permutation", extra_imports=("strings",))
bug("purge-keeps-weight-sum", "C17", [(C+"files/stats.go", "			if s.calcWeight {\n				s.weightSum -= stats.Weight\n			}\n\n", "")],
'''
	p := InitParameters{FunctionTypeString: "FuncAdditive", WfParams: WeightFunctionParameters{Alpha: 1, Beta: 1, Gamma: 1}, MaxNumDayDiff: 1, DeltaDaysStep: 2}
	c := demoCache("weightFunLRU", 4, p)
	get(c, 1, 4, 0)
	get(c, 2, 3, 0)
	c.Free(4, false)
	get(c, 3, 1, 3) // the purge forgets 1 and 2
	w := c.(*WeightFun)
	sum := 0.
	for _, s := range w.stats.Data {
		sum += s.Weight
	}
	if got := w.stats.GetWeightMedian(); got != sum/float64(len(w.stats.Data)) {
		t.Fatalf("mean weight %v, the files weigh %v", got, sum/float64(len(w.stats.Data)))
	}
''', "a purge of weighted files", "the weight of purged files stays in the mean that decides the admissions")
bug("evict-for-strangers", "C19", [(C+"lruDatasetVerifier.go", """		if inDataset {
			if cache.Size()+requestedFileSize > cache.MaxSize {
				cache.Free(requestedFileSize, false)
			}
			if""", """		if cache.Size()+requestedFileSize > cache.MaxSize {
			cache.Free(requestedFileSize, false)
		}
		if inDataset {
			if""")],
'''
	chScratch(t)
	f, _ := os.Create("ds.json.gz")
	z := gzip.NewWriter(f)
	_, _ = z.Write([]byte(`{"selected_files":[1,2]}`))
	_ = z.Close()
	_ = f.Close()
	c := demoCache("lruDatasetVerifier", 4, InitParameters{Dataset2TestPath: "ds.json.gz"})
	get(c, 1, 2, 0)
	get(c, 2, 2, 0)
	get(c, 3, 2, 0) // not in the dataset
	if !c.Check(1) || !c.Check(2) {
		t.Fatal("a file out of the dataset evicted one of the dataset")
	}
''', "a request for a file out of the dataset while the cache is full", "files of the dataset are evicted for files that are never stored", extra_imports=("compress/gzip",))
bug("infinite-grows-on-hits", "C20", [(C+"infiniteCache.go", """		cache.size += requestedFileSize
		cache.MaxSize += requestedFileSize
	}
""", """		cache.size += requestedFileSize
	}

	if cache.size+requestedFileSize > cache.MaxSize {
		cache.MaxSize += requestedFileSize
	}
""")],
'''
	c := demoCache("infinite", 4, InitParameters{})
	get(c, 1, 1, 0)
	if c.GetMaxSize() != 5 {
		t.Fatalf("size %v after an admission of 1 to a cache of 4", c.GetMaxSize())
	}
''', "hits, and admissions to an almost empty infinite cache", "the size of the infinite cache does not follow the admitted files")
