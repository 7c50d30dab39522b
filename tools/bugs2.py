"""Planted bugs, second batch: the properties of the plain caches and queues."""
import sys
from gobug import bug as _bug
ONLY = set(sys.argv[1:])
def bug(id, *a, **k):
    if not ONLY or id in ONLY:
        _bug(id, *a, **k)
C = "cache/"
bug("fraction-of-a-megabyte-for-free", "C01", [(C+"weightFun.go", """		if cache.Size()+requestedFileSize > cache.MaxSize {
			cache.Free(requestedFileSize, false)
		}
		if cache.Size()+requestedFileSize <= cache.MaxSize {""", """		// whole megabytes
		neededSize := float64(int64(cache.Size() + requestedFileSize))
		if neededSize > cache.MaxSize {
			cache.Free(requestedFileSize, false)
			neededSize = float64(int64(cache.Size() + requestedFileSize))
		}
		if neededSize <= cache.MaxSize {""")],
'''
	c := demoCache("weightFunLRU", 4, InitParameters{FunctionTypeString: "FuncAdditive"})
	get(c, 1, 2, 0)
	get(c, 2, 2.5, 0)
	if c.Size() > 4 {
		t.Fatalf("%v in a cache of size 4", c.Size())
	}
''', "sizes that are no whole numbers, with the weight function policy", "the weight function cache compares whole megabytes and exceeds its size by less than one")
bug("deleted-data-cumulated", "C02", [(C+"simpleCache.go", "			cache.dataDeleted += curFile.Size\n			totalDeleted += curFile.Size\n", "			totalDeleted += curFile.Size\n			cache.dataDeleted += totalDeleted\n")],
'''
	c := demoCache("lru", 4, InitParameters{})
	get(c, 1, 1, 0)
	get(c, 2, 1, 0)
	get(c, 3, 4, 0) // evicts both
	if c.DataDeleted() != 2 {
		t.Fatalf("deleted %v, should be 2", c.DataDeleted())
	}
''', "a cleaning that evicts more than one file", "the deleted data adds up the running total of a cleaning instead of the files")
bug("oversized-reported-as-added", "C03", [(C+"randomCache.go", """					})
				}

				added = true
			}
""", """					})
				}
			}

			added = true
""")],
'''
	c := demoCache("random_lru", 4, InitParameters{})
	for f := int64(0); f < 20; f++ {
		if added, _ := get(c, f, 5, 0); added {
			t.Fatal("a file bigger than the cache was reported as added")
		}
	}
''', "a file bigger than the cache that the random draw would admit", "a random cache reports (and counts as written) files that it could not store")
bug("purge-rebuilds-in-listing-order", "C04", [(C+"simpleCache.go", """		cache.stats.Purge(cache.files.Check)
	}
""", """		cache.stats.Purge(cache.files.Check)
		cache.compact()
	}
"""), (C+"simpleCache.go", """// Free removes files from the cache
""", """// compact gives back the memory the queue has accumulated
func (cache *SimpleCache) compact() {
	inCache := append([]*files.Stats{}, queue.Get(cache.files)...)
	queue.Init(cache.files)

	for _, fileStats := range inCache {
		queue.Insert(cache.files, fileStats)
	}
}

// Free removes files from the cache
""")],
'''
	c := demoCache("lru", 4, InitParameters{MaxNumDayDiff: 1, DeltaDaysStep: 2})
	for f := int64(1); f <= 4; f++ {
		get(c, f, 1, f) // the purge comes with the third
	}
	c.Free(2, false)
	if c.Check(1) || c.Check(2) {
		t.Fatal("the files requested first are still there, others were evicted")
	}
''', "a purge of the old statistics with several files stored", "the purge rebuilds the queue from the listing, which starts with the best file: the order of eviction is reversed")
bug("no-move-on-consecutive-requests", "C05", [(C+"simpleCache.go", """			added = true
		}
	} else {
		queue.Update(cache.files, fileStats)
	}
""", """			added = true
		}
	} else if fileStats.DeltaLastRequest != 1 {
		// the file of the previous request is in its place already
		queue.Update(cache.files, fileStats)
	}
""")],
'''
	c := demoCache("lfu", 3, InitParameters{})
	get(c, 1, 1, 0)
	get(c, 1, 1, 0)
	get(c, 1, 1, 0)
	get(c, 2, 1, 0)
	get(c, 3, 1, 0)
	get(c, 4, 1, 0) // evicts 2
	if !c.Check(1) {
		t.Fatal("the most requested file was evicted")
	}
''', "LFU, and a file requested several times in a row", "consecutive requests of a file do not move it up in the LFU order (right for the other orders)")
bug("one-more-when-exact", "C08", [(C+"queue/genericF.go", """		if sended >= totSize {
			break
		}
	}

	// fmt""", """		if sended > totSize {
			break
		}
	}

	// fmt""")],
'''
	c := demoCache("sizeSmall", 8, InitParameters{})
	get(c, 1, 1, 0)
	get(c, 2, 2, 0)
	get(c, 3, 5, 0)
	if l := queue.GetWorstFilesUp2Size(c.(*SimpleCache).files, 3); len(l) != 2 {
		t.Fatalf("%d files to reach 3 out of sizes 1, 2, 5", len(l))
	}
''', "an amount that is reached exactly with the last file of a bucket, and another bucket behind it", "one file more than needed is taken from the next bucket", extra_imports=("simulator/v2/cache/queue",))
bug("free-space-sampled-on-misses", "C09", [(C+"simpleCache.go", """	freeSpace := cache.MaxSize - cache.size
	cache.dailyfreeSpace = append(cache.dailyfreeSpace, freeSpace)
	cache.sumDailyFreeSpace += freeSpace
""", """	freeSpace := cache.MaxSize - cache.size
	if !hit || len(cache.dailyfreeSpace) == 0 {
		cache.dailyfreeSpace = append(cache.dailyfreeSpace, freeSpace)
		cache.sumDailyFreeSpace += freeSpace
	}
""")],
'''
	c := demoCache("lru", 8, InitParameters{})
	get(c, 1, 2, 0)
	get(c, 2, 2, 0)
	get(c, 1, 2, 0)
	if a := c.AvgFreeSpace(); a < 4.66 || a > 4.67 {
		t.Fatalf("mean free space of 6, 4, 4: %v", a)
	}
''', "a hit after the first request of the day, with the free space having changed in between", "the free space is not sampled on hits")
bug("ring-of-31", "C15", [(C+"files/stats.go", "stats.IdxLastRequest = (stats.IdxLastRequest + 1) % NumRequestedTimes", "stats.IdxLastRequest = (stats.IdxLastRequest + 1) % (NumRequestedTimes - 1)")],
'''
	c := demoCache("lru", 8, InitParameters{})
	for i := int64(0); i < 40; i++ {
		get(c, 1, 2, i)
	}
	n := 0
	for _, x := range c.(*SimpleCache).stats.Data[1].RequestedTimes {
		if !x.IsZero() && x.Unix() >= 1514764800+8*86400 {
			n++
		}
	}
	if n != 32 {
		t.Fatalf("%d of the last 32 request instants are kept", n)
	}
''', "at least 32 requests for one file", "the ring of the last request times turns round one slot too early")
bug("lfu-clear-keeps-frequencies", "C23", [(C+"queue/lfu.go", "	q.orderedValues = make([]int64, 0)\n	q.queue = make(map[int64][]int64, estimatedNumFiles)\n", "	q.queue = make(map[int64][]int64, estimatedNumFiles)\n")],
'''
	c := demoCache("lfu", 4, InitParameters{})
	get(c, 1, 1, 0)
	c.Clear()
	get(c, 1, 1, 0)
	if l := queue.Get(c.(*SimpleCache).files); len(l) != 1 {
		t.Fatalf("%d files listed, one is stored", len(l))
	}
''', "an LFU cache cleared after some requests and used again", "the frequencies listed before a clear stay, and files are listed twice afterwards", extra_imports=("simulator/v2/cache/queue",))
bug("third-run-overwrites-the-first", "C28", [(C+"utils.go", """		if strings.Contains(f.Name(), "_run-") {
			run++
		}
""", """		if pos := strings.Index(f.Name(), "_run-"); pos >= 0 {
			if num, errNum := strconv.Atoi(strings.SplitN(f.Name()[pos+len("_run-"):], ".", 2)[0]); errNum == nil && num > run {
				run = num
			}
		}
""")],
'''
	chScratch(t)
	row := func(n, d int64) string {
		return fmt.Sprintf("%d,1,1,1,1,1,1,0,0,0,1,1,1,1048576,0,2,1,1,true,5,5,%d,1,1,1\\n", n, 1514764800+d*86400)
	}
	want := ""
	for run := int64(0); run < 3; run++ {
		_ = os.WriteFile("t.csv", []byte(csvHeader+"\\n"+row(run, run*3)+row(run, run*3+1)), 0o644)
		c := demoCache("lru", 10, InitParameters{})
		Simulate("lru", c, SimulationParams{LoadDump: run > 0, Dump: true, DumpFilesAndStats: true, LoadDumpFileName: "d.gz", DumpFileName: "d.gz",
			DataPath: "t.csv", OutFile: "o.csv", ResultRunStatsName: "s.json", WindowSize: 7, WindowStop: 52, OutputUpdateDelay: 1e9})
		if run == 0 {
			b, _ := os.ReadFile("o.csv")
			want = string(b)
		}
	}
	b, _ := os.ReadFile("o_run-00.csv")
	if want == "" || string(b) != want {
		t.Fatalf("results of the first run: %q, kept: %q", want, b)
	}
''', "a third run resumed from the dump of the second", "the results of the first run are overwritten by those of the second", extra_imports=("fmt",))
bug("big-ties-unordered", "C06", [(C+"queue/genericF.go", """	err = q.remove([]int64{filename})
	if err != nil {
		return err
	}
	err = q.insert(file)
""", """	if lastVal := q.lastVal[filename]; lastVal == q.getFeature(file) && q.lastIndex[filename] == len(q.queue[lastVal])-1 {
		// same size, and the latest of it: nothing to reorder
		return nil
	}

	err = q.remove([]int64{filename})
	if err != nil {
		return err
	}
	err = q.insert(file)
""")],
'''
	c := demoCache("sizeBig", 4, InitParameters{})
	for f := int64(1); f <= 4; f++ {
		get(c, f, 1, 0)
	}
	c.Free(1, false) // evicts 1: 2 3 4 are left
	get(c, 3, 1, 0)  // now 2 4 3
	c.Free(2, false)
	if !c.Check(3) {
		t.Fatal("of files of equal size the one requested last was evicted first")
	}
''', "an eviction within a size and then a request for the file of that size whose old position is the last one now", "a stale index makes a file pass for the latest of its size, and it keeps its turn")
