"""Sixteenth batch of planted bugs: conditions that only meet by chance."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gobug import bug as _bug
ONLY = sys.argv[1:]
_src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs3.py")).read()
RHEAD = re.search("RHEAD = '''(.*?)'''", _src, re.S).group(1)
C = "cache/"
RL, SC, WF, ST, LFU, INF, NN = C + "aiRL.go", C + "simpleCache.go", C + "weightFun.go", C + "files/stats.go", C + "queue/lfu.go", C + "infiniteCache.go", C + "queue/none.go"
GF, LRU = C + "queue/genericF.go", C + "queue/lru.go"
R = dict(head=RHEAD)


def bug(id, *a, **k):
    if not ONLY or id in ONLY:
        _bug(id, *a, **k)


bug("resident-shrinks-with-its-request", "C02", [(SC, '''	if hit {
		return cache.stats.Get(request.Filename).Size
	}
''', '''	if hit {
		if size := cache.stats.Get(request.Filename).Size; size < request.Size {
			return size
		}
	}
''')], '''
	c := demoCache("lru", 10, InitParameters{}).(*SimpleCache)
	get(c, 1, 4, 0)
	get(c, 1, 1, 0)
	get(c, 2, 6, 0)
	get(c, 3, 7, 0) // 1 and 2 leave
	if c.Size() != 7 || c.NumFiles() != 1 {
		t.Fatalf("%d files, %v used", c.NumFiles(), c.Size())
	}
''', "a resident file requested with a smaller size and evicted later", "the space it took is not given back in full")

bug("weight-policy-claims-what-it-cannot-hold", "C02", [(WF, '''			queue.Insert(cache.files, fileStats)

			added = true
		}
''', '''			queue.Insert(cache.files, fileStats)
		}

		added = true
''')], '''
	c := demoCache("weightFunLRU", 10, InitParameters{FunctionTypeString: "FuncAdditive", WfParams: WeightFunctionParameters{Alpha: 1, Beta: 1, Gamma: 1}, CalcWeight: true})
	if added, _ := get(c, 1, 11, 0); added || c.DataWritten() != 0 {
		t.Fatal("a file larger than the cache counts as stored")
	}
''', "the weight policy and an admissible file larger than the cache", "it is reported and counted as written")

bug("reset-of-an-empty-cache-restarts-the-clock", "C13", [(SC, '''	cache.numLocal = 0
	cache.numRemote = 0
	cache.redirectSize = 0.
}''', '''	cache.numLocal = 0
	cache.numRemote = 0
	cache.redirectSize = 0.

	if cache.size == 0. {
		cache.tick = 0
	}
}''')], '''
	c := demoCache("lru", 4, InitParameters{MaxNumDayDiff: 1e6, DeltaDaysStep: 1e6}).(*SimpleCache)
	get(c, 1, 5, 0) // does not fit
	get(c, 2, 5, 0)
	ClearStats(c)
	get(c, 1, 5, 1)
	if d := c.stats.Get(1).DeltaLastRequest; d != 2 {
		t.Fatalf("%d requests since the last one", d)
	}
''', "a daily reset while nothing is stored, and files known from before", "the distance to the previous request comes out wrong")

bug("whole-low-watermarks", "C12", [(SC, "cache.Capacity()-cache.lowWatermark,", "cache.Capacity()-math.Floor(cache.lowWatermark),")], '''
	c := demoCache("lru", 1000, InitParameters{Watermarks: true, HighWatermark: 50, LowWatermark: 49.75}).(*SimpleCache)
	for i := int64(0); i < 500; i++ {
		get(c, i, 1, 0)
	}
	if c.NumFiles() != 497 {
		t.Fatalf("%d files left", c.NumFiles())
	}
''', "a low watermark with decimals and files smaller than the difference", "more is evicted than to the low mark")

bug("tiny-efficiencies-left-out", "C10", [(SC, "		if currentCPUEff != 0. {\n			cache.missCPUEff", "		if currentCPUEff >= 1. {\n			cache.missCPUEff")], '''
	c := demoCache("lru", 10, InitParameters{})
	GetFile(c, int64(1), 1., int64(1), 0.5, int64(1514764800), int64(1), int64(0), int64(0))
	if e := c.CPUMissEff(); e != 0.5 {
		t.Fatal(e)
	}
''', "a missed request of an efficiency below one percent", "it is left out of the mean")

bug("trims-keep-the-list-of-the-evicted", "C14", [(SC, '''	cache.stats.ClearDeletedFileMiss()

	var (
		totalDeleted''', '''	if !percentage {
		cache.stats.ClearDeletedFileMiss()
	}

	var (
		totalDeleted''')], '''
	c := demoCache("lru", 10, InitParameters{MaxNumDayDiff: 1e6, DeltaDaysStep: 1e6, Watermarks: true, HighWatermark: 90, LowWatermark: 50}).(*SimpleCache)
	for i := int64(1); i < 19; i++ { // three trims
		get(c, i, 1, 0)
	}
	get(c, 1, 1, 0)
	if n := c.GetTotDeletedFileMiss(); n != 0 {
		t.Fatalf("%d misses on files evicted just before", n)
	}
''', "two trims by the watermarks with no other eviction in between", "files evicted long ago still count as just evicted")

bug("frequency-class-searched-in-part", "C08", [(LFU, '''		} else if q.lastIndex[curFilename] != idx {
			q.lastIndex[curFilename] = idx
		}
''', '''		} else if q.lastIndex[curFilename] != idx {
			q.lastIndex[curFilename] = idx
			if start-idx > 4096 {
				// the rest moved by as much
				newIdx = sort.Search(idx, func(i int) bool { return curQueue[i] >= filename })

				break
			}
		}
''')], '''
	c := demoCache("lfu", 20000, InitParameters{})
	for i := int64(0); i < 12000; i++ {
		get(c, 20000-i, 1, 0)
	}
	Free := func(n float64) { c.(*SimpleCache).Free(n, false) }
	Free(6000)
	get(c, 20000-11999, 1, 0)
	get(c, 20000-6001, 1, 0)
	Free(10)
	if !c.Check(20000 - 6001) {
		t.Fatal("a file requested twice was evicted among those requested once")
	}
''', "thousands of files of one frequency whose places all moved since, named in falling order", "another file is taken in place of the one requested")

bug("infinite-single-precision", "C20", [(INF, "		cache.size += requestedFileSize\n", "		cache.size += float64(float32(requestedFileSize))\n")], '''
	c := demoCache("infinite", 10, InitParameters{})
	get(c, 1, 16777217, 0)
	if c.Size() != 16777217 {
		t.Fatalf("%f", c.Size())
	}
''', "a file of more than 2^24 megabytes, or of a size with many digits", "the occupancy is not the sum of the sizes")

bug("half-a-category-at-the-size-of-one", "C35", [(RL, '''				// Update sizes
				cache.size -= curFileStats.Size
				cache.dataDeleted += curFileStats.Size
				totalDeleted += curFileStats.Size

				deletedFiles = append(deletedFiles, curFile.Filename)

				files2delete = append(files2delete, DelCatFile{
					Category: catState.Category,
					File:     curFile,
				})

				cache.evictionAgent.SaveMemoryWithNoLimits(curFile.Filename, qlearn.Choice{
					State:     catState.Idx,
					Action:    catState.Action,
					Tick:      cache.tick,
					DeltaT:    curFileStats.DeltaLastRequest,
					Capacity:  cache.Capacity(),
					Size:      curFile.Size,
					Frequency: curFileStats.Frequency,
				})

				cache.stats.AddDeletedFileMiss(curFile.Filename)

				if cache.logFile != nil {
					cache.toLogBuffer([]string{
						fmt.Sprintf("%d", cache.tick),
						ChoiceDelete,
						fmt.Sprintf("%0.2f", cache.size),
						fmt.Sprintf("%0.2f", cache.Capacity()),
						fmt.Sprintf("%d", curFileStats.Filename),
						fmt.Sprintf("%0.2f", curFileStats.Size),
						fmt.Sprintf("%d", curFileStats.Frequency),
						fmt.Sprintf("%d", curFileStats.DeltaLastRequest),
					})
				}

				numDeletes--''', '''				// Update sizes
				cache.size -= curFileStats.Size
				cache.dataDeleted += curFileList[0].Size
				totalDeleted += curFileStats.Size

				deletedFiles = append(deletedFiles, curFile.Filename)

				files2delete = append(files2delete, DelCatFile{
					Category: catState.Category,
					File:     curFile,
				})

				cache.evictionAgent.SaveMemoryWithNoLimits(curFile.Filename, qlearn.Choice{
					State:     catState.Idx,
					Action:    catState.Action,
					Tick:      cache.tick,
					DeltaT:    curFileStats.DeltaLastRequest,
					Capacity:  cache.Capacity(),
					Size:      curFile.Size,
					Frequency: curFileStats.Frequency,
				})

				cache.stats.AddDeletedFileMiss(curFile.Filename)

				if cache.logFile != nil {
					cache.toLogBuffer([]string{
						fmt.Sprintf("%d", cache.tick),
						ChoiceDelete,
						fmt.Sprintf("%0.2f", cache.size),
						fmt.Sprintf("%0.2f", cache.Capacity()),
						fmt.Sprintf("%d", curFileStats.Filename),
						fmt.Sprintf("%0.2f", curFileStats.Size),
						fmt.Sprintf("%d", curFileStats.Frequency),
						fmt.Sprintf("%d", curFileStats.DeltaLastRequest),
					})
				}

				numDeletes--''')], '''
	m := `{"catNumReq": {"type": "int", "buckets": [1, 2, 3], "openRight": true, "fileFeature": true}}`
	c := rl(t, "SCDL2", 100, "", m, "onDayEnd", 1, 7)
	decide(&c.evictionAgent, qlearn.ActionDeleteHalf)
	get(c, 1, 1, 0)
	get(c, 2, 8, 0)
	ClearStats(c)
	if left := 9 - c.Size(); c.DataDeleted() != left {
		t.Fatalf("%v deleted, %v gone", c.DataDeleted(), left)
	}
''', "half or a quarter of a category of files of several sizes", "the data deleted is not that of the files that left", **R)

bug("purge-waits-for-a-miss", "C16", [(SC, '''	if cache.stats.Dirty() {
		cache.stats.Purge(cache.files.Check)
	}

	cache.tick++
}''', '''	if (added || !hit) && cache.stats.Dirty() {
		cache.stats.Purge(cache.files.Check)
	}

	cache.tick++
}''')], '''
	c := demoCache("lru", 4, InitParameters{MaxNumDayDiff: 2, DeltaDaysStep: 2}).(*SimpleCache)
	get(c, 1, 5, 0) // does not fit
	get(c, 2, 1, 0)
	get(c, 2, 1, 5)
	if n := len(c.stats.Data); n != 1 {
		t.Fatalf("%d files known", n)
	}
''', "a purge that falls due on a hit", "old statistics stay and count")

bug("terabytes-compared-whole", "C06", [(GF, '''	if !q.checkOVal(oVal) {
		q.queue[oVal] = make([]int64, 0)
''', '''	if oVal > 1048576. {
		oVal = math.Floor(oVal)
	}

	if !q.checkOVal(oVal) {
		q.queue[oVal] = make([]int64, 0)
'''), (GF, '''import (
''', '''import (
	"math"
''')], '''
	c := demoCache("sizeSmall", 3e6, InitParameters{})
	get(c, 1, 1048577.75, 0)
	get(c, 2, 1048577.25, 0)
	get(c, 3, 1048576.5, 0)
	if c.Check(2) || !c.Check(1) {
		t.Fatal("the larger one left first")
	}
''', "two files of more than a terabyte whose sizes differ by less than a megabyte", "they count as equal, so the larger one may leave first")
