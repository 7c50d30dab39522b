From 7ecce6bdebd12285e637a0a11d857ea17293021b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 01/77] fix: queue listing of the LFU, size and weight queues
 indexed past the end of the bucket

---
 SmartCache/sim/cache/queue/genericF.go | 2 +-
 SmartCache/sim/cache/queue/lfu.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/SmartCache/sim/cache/queue/genericF.go b/SmartCache/sim/cache/queue/genericF.go
index a63efba..7d75347 100644
--- a/SmartCache/sim/cache/queue/genericF.go
+++ b/SmartCache/sim/cache/queue/genericF.go
@@ -48,7 +48,7 @@ func (q *QueueBaseFloat) getQueue() []*files.Stats {
 
 	for idxOVal := len(q.orderedValues) - 1; idxOVal > -1; idxOVal-- {
 		curQueue := q.queue[q.orderedValues[idxOVal]]
-		for idx := len(curQueue); idx > -1; idx-- {
+		for idx := len(curQueue) - 1; idx > -1; idx-- {
 			filename := curQueue[idx]
 			fileStats, inQueue := q.files[filename]
 
diff --git a/SmartCache/sim/cache/queue/lfu.go b/SmartCache/sim/cache/queue/lfu.go
index b07ae31..f78adfe 100644
--- a/SmartCache/sim/cache/queue/lfu.go
+++ b/SmartCache/sim/cache/queue/lfu.go
@@ -45,7 +45,7 @@ func (q *LFU) getQueue() []*files.Stats {
 
 	for idxOVal := len(q.orderedValues) - 1; idxOVal > -1; idxOVal-- {
 		curQueue := q.queue[q.orderedValues[idxOVal]]
-		for idx := len(curQueue); idx > -1; idx-- {
+		for idx := len(curQueue) - 1; idx > -1; idx-- {
 			filename := curQueue[idx]
 			fileStats, inQueue := q.files[filename]
 
-- 
2.43.0


From 30f724929d18cec8c9ed623ef73a3ff85010efd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 02/77] fix: a resident file requested with another size keeps
 the size it was stored with

---
 SmartCache/sim/cache/aiRL.go          |  6 ++++--
 SmartCache/sim/cache/infiniteCache.go |  2 +-
 SmartCache/sim/cache/simpleCache.go   | 16 ++++++++++++++--
 SmartCache/sim/cache/weightFun.go     |  6 ++++--
 4 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index a1a1dc0..948b117 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -855,7 +855,9 @@ func (cache *AIRL) rewardEvictionAfterForcedCall(added bool) {
 func (cache *AIRL) BeforeRequest(request *Request, hit bool) (*files.Stats, bool) { //nolint:ignore,funlen
 	// fmt.Println("+++ REQUESTED FILE +++-> ", request.Filename)
 
-	fileStats, _ := cache.stats.GetOrCreate(request.Filename, request.Size, request.DayTime, cache.tick)
+	size := cache.fileSize(request, hit)
+
+	fileStats, _ := cache.stats.GetOrCreate(request.Filename, size, request.DayTime, cache.tick)
 
 	cache.prevTime = cache.curTime
 	cache.curTime = request.DayTime
@@ -916,7 +918,7 @@ func (cache *AIRL) BeforeRequest(request *Request, hit bool) (*files.Stats, bool
 
 	cache.numReq++
 
-	fileStats.UpdateStats(hit, request.Size, request.UserID, request.SiteName, request.DayTime)
+	fileStats.UpdateStats(hit, size, request.UserID, request.SiteName, request.DayTime)
 
 	return fileStats, hit
 }
diff --git a/SmartCache/sim/cache/infiniteCache.go b/SmartCache/sim/cache/infiniteCache.go
index b07f8f2..37d711d 100644
--- a/SmartCache/sim/cache/infiniteCache.go
+++ b/SmartCache/sim/cache/infiniteCache.go
@@ -25,7 +25,7 @@ func (cache *InfiniteCache) BeforeRequest(request *Request, hit bool) (*files.St
 	// if !cache.curTime.Equal(cache.prevTime) {}
 	cache.numReq++
 
-	curStats, _ := cache.stats.GetOrCreate(request.Filename, request.Size, request.DayTime, cache.tick)
+	curStats, _ := cache.stats.GetOrCreate(request.Filename, cache.fileSize(request, hit), request.DayTime, cache.tick)
 
 	return curStats, hit
 }
diff --git a/SmartCache/sim/cache/simpleCache.go b/SmartCache/sim/cache/simpleCache.go
index dc4b80c..42a4fbc 100644
--- a/SmartCache/sim/cache/simpleCache.go
+++ b/SmartCache/sim/cache/simpleCache.go
@@ -373,6 +373,16 @@ func (cache *SimpleCache) Load(filename string) [][]byte {
 	return records
 }
 
+// fileSize returns the size of the requested file: a file that is in cache
+// keeps the size it was stored with
+func (cache *SimpleCache) fileSize(request *Request, hit bool) float64 {
+	if hit {
+		return cache.stats.Get(request.Filename).Size
+	}
+
+	return request.Size
+}
+
 // BeforeRequest of LRU cache
 func (cache *SimpleCache) BeforeRequest(request *Request, hit bool) (*files.Stats, bool) {
 	// cache.prevTime = cache.curTime
@@ -380,8 +390,10 @@ func (cache *SimpleCache) BeforeRequest(request *Request, hit bool) (*files.Stat
 	// if !cache.curTime.Equal(cache.prevTime) {}
 	cache.numReq++
 
-	curStats, _ := cache.stats.GetOrCreate(request.Filename, request.Size, request.DayTime, cache.tick)
-	curStats.UpdateStats(hit, request.Size, request.UserID, request.SiteName, request.DayTime)
+	size := cache.fileSize(request, hit)
+
+	curStats, _ := cache.stats.GetOrCreate(request.Filename, size, request.DayTime, cache.tick)
+	curStats.UpdateStats(hit, size, request.UserID, request.SiteName, request.DayTime)
 
 	return curStats, hit
 }
diff --git a/SmartCache/sim/cache/weightFun.go b/SmartCache/sim/cache/weightFun.go
index d85cba6..5c44325 100644
--- a/SmartCache/sim/cache/weightFun.go
+++ b/SmartCache/sim/cache/weightFun.go
@@ -127,8 +127,10 @@ func (cache *WeightFun) BeforeRequest(request *Request, hit bool) (*files.Stats,
 
 	cache.numReq++
 
-	curStats, newFile := cache.stats.GetOrCreate(request.Filename, request.Size, request.DayTime, cache.tick)
-	curStats.UpdateStats(hit, request.Size, request.UserID, request.SiteName, request.DayTime)
+	size := cache.fileSize(request, hit)
+
+	curStats, newFile := cache.stats.GetOrCreate(request.Filename, size, request.DayTime, cache.tick)
+	curStats.UpdateStats(hit, size, request.UserID, request.SiteName, request.DayTime)
 	cache.stats.UpdateWeight(curStats, newFile,
 		cache.weightFunction,
 		cache.fParams.Alpha,
-- 
2.43.0


From a86f617d3467c4e2c2ebcecb3241eb7ac6b2221c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 03/77] fix: clearing the file statistics resets the weights
 together with their sum

---
 SmartCache/sim/cache/files/stats.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SmartCache/sim/cache/files/stats.go b/SmartCache/sim/cache/files/stats.go
index 2d4f0eb..5773106 100644
--- a/SmartCache/sim/cache/files/stats.go
+++ b/SmartCache/sim/cache/files/stats.go
@@ -72,6 +72,7 @@ func (s *Manager) GetTotDeletedFileMiss() int {
 func (s *Manager) Clear() {
 	for _, fileStats := range s.Data {
 		fileStats.Recency = 0
+		fileStats.Weight = 0.0
 	}
 	s.weightSum = 0.0
 }
-- 
2.43.0


From 002d968a93fc420fe7559e0b3d3a2fb96b407961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 04/77] fix: initializing the file statistics forgets the times
 and misses of the previous ones

---
 SmartCache/sim/cache/files/stats.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SmartCache/sim/cache/files/stats.go b/SmartCache/sim/cache/files/stats.go
index 5773106..5cb961c 100644
--- a/SmartCache/sim/cache/files/stats.go
+++ b/SmartCache/sim/cache/files/stats.go
@@ -31,6 +31,10 @@ type Manager struct {
 func (s *Manager) Init(maxNumDayDiff float64, deltaDaysStep float64, calcWeight bool) {
 	s.Data = make(map[int64]*Stats, estimatedNumFiles)
 	s.deletedFileMiss = make(map[int64]int, estimatedNumFiles)
+	s.deletedFilesMissLastCount = 0
+	s.weightSum = 0.0
+	s.firstUpdateTime = time.Time{}
+	s.lastUpdateTime = time.Time{}
 	s.calcWeight = calcWeight
 	s.maxNumDayDiff = maxNumDayDiff
 	s.deltaDaysStep = deltaDaysStep
-- 
2.43.0


From df544a0b5f3089e19a80d2417a7d4c50a898fe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 05/77] fix: loading a dump files the statistics of every file
 under its own name

---
 SmartCache/sim/cache/aiRL.go        | 9 ++++++---
 SmartCache/sim/cache/simpleCache.go | 8 ++++----
 SmartCache/sim/cache/weightFun.go   | 6 +++---
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index 948b117..1e9189d 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -361,14 +361,17 @@ func (cache *AIRL) Loads(inputString [][]byte, vars ...interface{}) {
 		case "FILES":
 			var curFileStats files.Stats
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
+			if unmarshalErr != nil {
+				panic(unmarshalErr)
+			}
 			queue.Insert(cache.files, &curFileStats)
 			cache.size += curFileStats.Size
-			cache.stats.Data[curRecord.Filename] = &curFileStats
+			cache.stats.Data[curFileStats.Filename] = &curFileStats
 		case "STATS":
 			var curFileStats files.Stats
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
-			if _, inStats := cache.stats.Data[curRecord.Filename]; !inStats {
-				cache.stats.Data[curRecord.Filename] = &curFileStats
+			if _, inStats := cache.stats.Data[curFileStats.Filename]; !inStats {
+				cache.stats.Data[curFileStats.Filename] = &curFileStats
 			}
 		case "ADDAGENT":
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &cache.additionAgent)
diff --git a/SmartCache/sim/cache/simpleCache.go b/SmartCache/sim/cache/simpleCache.go
index 42a4fbc..ba6a56d 100644
--- a/SmartCache/sim/cache/simpleCache.go
+++ b/SmartCache/sim/cache/simpleCache.go
@@ -300,20 +300,20 @@ func (cache *SimpleCache) Loads(inputString [][]byte, _ ...interface{}) {
 		case "FILES":
 			var curFileStats files.Stats
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
-			queue.Insert(cache.files, &curFileStats)
 			if unmarshalErr != nil {
 				panic(unmarshalErr)
 			}
+			queue.Insert(cache.files, &curFileStats)
 			cache.size += curFileStats.Size
-			cache.stats.Data[curRecord.Filename] = &curFileStats
+			cache.stats.Data[curFileStats.Filename] = &curFileStats
 		case "STATS":
 			var curFileStats files.Stats
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
 			if unmarshalErr != nil {
 				panic(unmarshalErr)
 			}
-			if _, inStats := cache.stats.Data[curRecord.Filename]; !inStats {
-				cache.stats.Data[curRecord.Filename] = &curFileStats
+			if _, inStats := cache.stats.Data[curFileStats.Filename]; !inStats {
+				cache.stats.Data[curFileStats.Filename] = &curFileStats
 			}
 		}
 	}
diff --git a/SmartCache/sim/cache/weightFun.go b/SmartCache/sim/cache/weightFun.go
index 5c44325..e4cc079 100644
--- a/SmartCache/sim/cache/weightFun.go
+++ b/SmartCache/sim/cache/weightFun.go
@@ -105,15 +105,15 @@ func (cache *WeightFun) Loads(inputString [][]byte, _ ...interface{}) {
 			}
 			queue.Insert(cache.files, &curFileStats)
 			cache.size += curFileStats.Size
-			cache.stats.Data[curRecord.Filename] = &curFileStats
+			cache.stats.Data[curFileStats.Filename] = &curFileStats
 		case "STATS":
 			var curFileStats files.Stats
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
 			if unmarshalErr != nil {
 				panic(unmarshalErr)
 			}
-			if _, inStats := cache.stats.Data[curRecord.Filename]; !inStats {
-				cache.stats.Data[curRecord.Filename] = &curFileStats
+			if _, inStats := cache.stats.Data[curFileStats.Filename]; !inStats {
+				cache.stats.Data[curFileStats.Filename] = &curFileStats
 			}
 		}
 	}
-- 
2.43.0


From 34187994e56c3651acbe823c2c8d90adb1948ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 06/77] fix: the weight function cache can load the records of
 a dump file

---
 SmartCache/sim/cache/weightFun.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/SmartCache/sim/cache/weightFun.go b/SmartCache/sim/cache/weightFun.go
index e4cc079..a9d809c 100644
--- a/SmartCache/sim/cache/weightFun.go
+++ b/SmartCache/sim/cache/weightFun.go
@@ -93,9 +93,14 @@ func (cache *WeightFun) Loads(inputString [][]byte, _ ...interface{}) {
 		unmarshalErr  error
 	)
 	for _, record := range inputString {
-		buffer := record[:len(record)-1]
-		json.Unmarshal(buffer, &curRecord)
-		json.Unmarshal([]byte(curRecord.Info), &curRecordInfo)
+		unmarshalErr = json.Unmarshal(record, &curRecord)
+		if unmarshalErr != nil {
+			panic(unmarshalErr)
+		}
+		unmarshalErr = json.Unmarshal([]byte(curRecord.Info), &curRecordInfo)
+		if unmarshalErr != nil {
+			panic(unmarshalErr)
+		}
 		switch curRecordInfo.Type {
 		case "FILES":
 			var curFileStats files.Stats
-- 
2.43.0


From 5583631532b17758940e293913bc8298a0e8905e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 07/77] fix: loading a dump restores the sum of the file
 weights

---
 SmartCache/sim/cache/files/stats.go | 8 ++++++++
 SmartCache/sim/cache/weightFun.go   | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/SmartCache/sim/cache/files/stats.go b/SmartCache/sim/cache/files/stats.go
index 5cb961c..fbb9204 100644
--- a/SmartCache/sim/cache/files/stats.go
+++ b/SmartCache/sim/cache/files/stats.go
@@ -173,6 +173,14 @@ func (s *Manager) UpdateWeight(stats *Stats, newFile bool, wFun functions.Weight
 	}
 }
 
+// ResetWeightSum computes the sum of the weights from the current files
+func (s *Manager) ResetWeightSum() {
+	s.weightSum = 0.0
+	for _, fileStats := range s.Data {
+		s.weightSum += fileStats.Weight
+	}
+}
+
 // GetWeightMedian returns the mean of the weight of all files
 func (s *Manager) GetWeightMedian() float64 {
 	return s.weightSum / float64(len(s.Data))
diff --git a/SmartCache/sim/cache/weightFun.go b/SmartCache/sim/cache/weightFun.go
index a9d809c..68c3fb9 100644
--- a/SmartCache/sim/cache/weightFun.go
+++ b/SmartCache/sim/cache/weightFun.go
@@ -122,6 +122,8 @@ func (cache *WeightFun) Loads(inputString [][]byte, _ ...interface{}) {
 			}
 		}
 	}
+
+	cache.stats.ResetWeightSum()
 }
 
 // BeforeRequest of LRU cache
-- 
2.43.0


From 0a676e694aa1d230a47561aa7e56be1424d2e183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 08/77] fix: a dump keeps the position in the window of the
 last request times

---
 SmartCache/sim/cache/files/stats.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SmartCache/sim/cache/files/stats.go b/SmartCache/sim/cache/files/stats.go
index fbb9204..e8230ce 100644
--- a/SmartCache/sim/cache/files/stats.go
+++ b/SmartCache/sim/cache/files/stats.go
@@ -212,7 +212,7 @@ type Stats struct {
 	RequestedTimesMean float64     `json:"requestedTimesMean"`
 	RequestedTimes     []time.Time `json:"requestedTimes"`
 	DeltaLastRequest   int64       `json:"deltaLastRequest"`
-	idxLastRequest     int
+	IdxLastRequest     int         `json:"idxLastRequest"`
 }
 
 // DiffLastUpdate returns the number of days from the last update stats
@@ -235,8 +235,8 @@ func (stats *Stats) UpdateStats(hit bool, size float64, userID int64, siteName i
 	if len(stats.RequestedTimes) < NumRequestedTimes {
 		stats.RequestedTimes = append(stats.RequestedTimes, time.Time{})
 	}
-	stats.RequestedTimes[stats.idxLastRequest] = curTime
-	stats.idxLastRequest = (stats.idxLastRequest + 1) % NumRequestedTimes
+	stats.RequestedTimes[stats.IdxLastRequest] = curTime
+	stats.IdxLastRequest = (stats.IdxLastRequest + 1) % NumRequestedTimes
 }
 
 func (stats *Stats) updateWeight(wFun functions.WeightFun, alpha float64, beta float64, gamma float64) float64 {
-- 
2.43.0


From b44e65ba4b3d5591bc414d04b95e3ff2e9afe666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:47 +0000
Subject: [PATCH 09/77] fix: a cache loaded from a dump continues its request
 clock

---
 SmartCache/sim/cache/aiRL.go        |  1 +
 SmartCache/sim/cache/files/stats.go | 13 +++++++++++++
 SmartCache/sim/cache/simpleCache.go |  3 +++
 SmartCache/sim/cache/weightFun.go   |  1 +
 4 files changed, 18 insertions(+)

diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index 1e9189d..d3300af 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -391,6 +391,7 @@ func (cache *AIRL) Loads(inputString [][]byte, vars ...interface{}) {
 		}
 	}
 
+	cache.tick = cache.stats.NextTick()
 }
 
 func (cache *AIRL) getState4AdditionAgent(hit bool, curFileStats *files.Stats) int {
diff --git a/SmartCache/sim/cache/files/stats.go b/SmartCache/sim/cache/files/stats.go
index e8230ce..bdc8e01 100644
--- a/SmartCache/sim/cache/files/stats.go
+++ b/SmartCache/sim/cache/files/stats.go
@@ -163,6 +163,19 @@ func (s *Manager) GetOrCreate(filename int64, size float64, reqTime time.Time, c
 	return curStats, !inStats
 }
 
+// NextTick returns the tick following the latest request of the current files
+func (s *Manager) NextTick() int64 {
+	var tick int64
+
+	for _, fileStats := range s.Data {
+		if fileStats.Recency >= tick {
+			tick = fileStats.Recency + 1
+		}
+	}
+
+	return tick
+}
+
 // UpdateWeight update the weight of a file and also the sum of all weights
 func (s *Manager) UpdateWeight(stats *Stats, newFile bool, wFun functions.WeightFun, alpha float64, beta float64, gamma float64) {
 	if newFile {
diff --git a/SmartCache/sim/cache/simpleCache.go b/SmartCache/sim/cache/simpleCache.go
index ba6a56d..c85a43d 100644
--- a/SmartCache/sim/cache/simpleCache.go
+++ b/SmartCache/sim/cache/simpleCache.go
@@ -182,6 +182,7 @@ func (cache *SimpleCache) ClearFiles() {
 	queue.Init(cache.files)
 	cache.stats.Clear()
 	cache.size = 0.
+	cache.tick = 0
 }
 
 // Clear the LRU struct
@@ -317,6 +318,8 @@ func (cache *SimpleCache) Loads(inputString [][]byte, _ ...interface{}) {
 			}
 		}
 	}
+
+	cache.tick = cache.stats.NextTick()
 }
 
 // Load the SimpleCache cache
diff --git a/SmartCache/sim/cache/weightFun.go b/SmartCache/sim/cache/weightFun.go
index 68c3fb9..822dd5b 100644
--- a/SmartCache/sim/cache/weightFun.go
+++ b/SmartCache/sim/cache/weightFun.go
@@ -124,6 +124,7 @@ func (cache *WeightFun) Loads(inputString [][]byte, _ ...interface{}) {
 	}
 
 	cache.stats.ResetWeightSum()
+	cache.tick = cache.stats.NextTick()
 }
 
 // BeforeRequest of LRU cache
-- 
2.43.0


From cbd70feaaa5c0b7dc49409b6254f6274b1d93340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 10/77] fix: the agents of the RL cache can be dumped

---
 SmartCache/sim/cache/ai/qlearn/qlearn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SmartCache/sim/cache/ai/qlearn/qlearn.go b/SmartCache/sim/cache/ai/qlearn/qlearn.go
index 64254cc..63fc2ce 100644
--- a/SmartCache/sim/cache/ai/qlearn/qlearn.go
+++ b/SmartCache/sim/cache/ai/qlearn/qlearn.go
@@ -191,7 +191,7 @@ type Choice struct {
 
 // Agent used in Qlearning
 type Agent struct {
-	Memory              map[interface{}][]Choice `json:"memory"`
+	Memory              map[interface{}][]Choice `json:"-"` // keys are not valid in JSON objects
 	QTable              QTable                   `json:"qtable"`
 	NumStates           int                      `json:"numStates"`
 	NumVars             int                      `json:"numVars"`
-- 
2.43.0


From df59740de0f19377984d86ae8a652c2fc84c500e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 11/77] fix: the file categories of the RL cache follow a clear
 and a load

---
 SmartCache/sim/cache/aiRL.go | 50 ++++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index d3300af..11a7349 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -139,14 +139,7 @@ func (cache *AIRL) Init(params InitParameters) interface{} { //nolint:ignore,fun
 				params.AIRLEvictionEpsilonUnleash,
 				params.RandSeed,
 			)
-			cache.evictionCategoryManager = CategoryManager{}
-			cache.evictionCategoryManager.Init(
-				cache.evictionFeatureManager.Features,
-				cache.evictionFeatureManager.FeatureIdxWeights,
-				cache.evictionFeatureManager.FileFeatures,
-				cache.evictionFeatureManager.FileFeatureIdxWeights,
-				cache.evictionFeatureManager.FileFeatureIdxMap,
-			)
+			cache.initCategories()
 
 			cache.evictionCheckNextStateMap = make(map[[8]byte]bool)
 			cache.evictionAgentOK = true
@@ -196,6 +189,43 @@ func (cache *AIRL) Init(params InitParameters) interface{} { //nolint:ignore,fun
 	return nil
 }
 
+// initCategories builds the file categories from the files in cache
+func (cache *AIRL) initCategories() {
+	cache.evictionCategoryManager = CategoryManager{}
+	cache.evictionCategoryManager.Init(
+		cache.evictionFeatureManager.Features,
+		cache.evictionFeatureManager.FeatureIdxWeights,
+		cache.evictionFeatureManager.FileFeatures,
+		cache.evictionFeatureManager.FileFeatureIdxWeights,
+		cache.evictionFeatureManager.FileFeatureIdxMap,
+	)
+
+	for _, file := range queue.Get(cache.files) {
+		cache.evictionCategoryManager.AddOrUpdateCategoryFile(
+			cache.evictionCategoryManager.GetFileCategory(file),
+			file,
+		)
+	}
+}
+
+// ClearFiles remove the cache files
+func (cache *AIRL) ClearFiles() {
+	cache.SimpleCache.ClearFiles()
+
+	if cache.evictionAgentOK {
+		cache.initCategories()
+	}
+}
+
+// Clear the AIRL struct
+func (cache *AIRL) Clear() {
+	cache.SimpleCache.Clear()
+
+	if cache.evictionAgentOK {
+		cache.initCategories()
+	}
+}
+
 // ClearStats the cache stats
 func (cache *AIRL) ClearStats() {
 	cache.SimpleCache.ClearStats()
@@ -392,6 +422,10 @@ func (cache *AIRL) Loads(inputString [][]byte, vars ...interface{}) {
 	}
 
 	cache.tick = cache.stats.NextTick()
+
+	if cache.evictionAgentOK {
+		cache.initCategories()
+	}
 }
 
 func (cache *AIRL) getState4AdditionAgent(hit bool, curFileStats *files.Stats) int {
-- 
2.43.0


From 65ad03933b21f7d051c6d845f6b8c283802e9fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 12/77] fix: the dataset verifier cache keeps the initialized
 queue

---
 SmartCache/sim/cache/lruDatasetVerifier.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/SmartCache/sim/cache/lruDatasetVerifier.go b/SmartCache/sim/cache/lruDatasetVerifier.go
index eb19b2c..85e0bd1 100644
--- a/SmartCache/sim/cache/lruDatasetVerifier.go
+++ b/SmartCache/sim/cache/lruDatasetVerifier.go
@@ -26,9 +26,6 @@ func (cache *LRUDatasetVerifier) Init(param InitParameters) interface{} {
 	param.QueueType = queue.LRUQueue
 	cache.SimpleCache.Init(param)
 
-	cache.files = &queue.LRU{}
-	cache.stats.Data = make(map[int64]*files.Stats)
-
 	cache.datasetFileMap = make(map[int64]bool)
 	datasetFilePath := param.Dataset2TestPath
 
-- 
2.43.0


From 2ebfa5ca290d4623b6a9488252ca20ae673a6fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 13/77] fix: a simulation folder also yields the records of its
 plain csv files

---
 SmartCache/sim/cache/simulation.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/SmartCache/sim/cache/simulation.go b/SmartCache/sim/cache/simulation.go
index cf3909c..de12172 100644
--- a/SmartCache/sim/cache/simulation.go
+++ b/SmartCache/sim/cache/simulation.go
@@ -256,8 +256,7 @@ func OpenSimFolder(dirPath *os.File) chan CSVRecord {
 		for _, name := range fileList {
 			fileExt := path.Ext(name)
 			switch fileExt {
-			case ".csv":
-			case ".gz":
+			case ".csv", ".gz":
 				for record := range OpenSimFile(name) {
 					channel <- record
 				}
-- 
2.43.0


From 9514cb267acd2cb2c29b5eb945a18214ba39f719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 14/77] fix: trace records carry the exit code, the job times
 and the CPU columns

---
 SmartCache/sim/cache/simulation.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/SmartCache/sim/cache/simulation.go b/SmartCache/sim/cache/simulation.go
index de12172..8d7d2f7 100644
--- a/SmartCache/sim/cache/simulation.go
+++ b/SmartCache/sim/cache/simulation.go
@@ -128,6 +128,12 @@ func recordGenerator(csvReader *csv.Reader, curFile *os.File, headerMap []int) c
 			taskMonitorID, _ := strconv.ParseInt(record[headerMap[4]], 10, 64)
 			jobID, _ := strconv.ParseInt(record[headerMap[5]], 10, 64)
 			protocol, _ := strconv.ParseInt(record[headerMap[6]], 10, 64)
+			jobExecExitCode, _ := strconv.ParseInt(record[headerMap[7]], 10, 64)
+			jobStart, _ := strconv.ParseInt(record[headerMap[8]], 10, 64)
+			jobEnd, _ := strconv.ParseInt(record[headerMap[9]], 10, 64)
+			numCPU, _ := strconv.ParseInt(record[headerMap[10]], 10, 64)
+			wrapWC, _ := strconv.ParseFloat(record[headerMap[11]], 64)
+			wrapCPU, _ := strconv.ParseFloat(record[headerMap[12]], 64)
 			size, _ := strconv.ParseFloat(record[headerMap[13]], 64)
 			dataType, _ := strconv.ParseInt(record[headerMap[14]], 10, 64)
 			fileType, _ := strconv.ParseInt(record[headerMap[15]], 10, 64)
@@ -166,6 +172,13 @@ func recordGenerator(csvReader *csv.Reader, curFile *os.File, headerMap []int) c
 				Process:       process,
 			}
 
+			curRecord.JobExecExitCode = jobExecExitCode
+			curRecord.JobStart = jobStart
+			curRecord.JobEnd = jobEnd
+			curRecord.NumCPU = numCPU
+			curRecord.WrapWC = wrapWC
+			curRecord.WrapCPU = wrapCPU
+
 			// fmt.Println(curRecord)
 
 			channel <- curRecord
-- 
2.43.0


From 52a5253a058f9775245024b58bfaf8c46a7f4ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 15/77] fix: a day without requests has no categories instead
 of a division by zero

---
 SmartCache/sim/cache/aiRL.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index 11a7349..101a542 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -1348,6 +1348,10 @@ func writeQTable(outFilename string, data string) {
 }
 
 func (cache *AIRL) meanNumCategories() int {
+	if len(cache.numDailyCategories) == 0 {
+		return 0
+	}
+
 	return cache.sumNumDailyCategories / len(cache.numDailyCategories)
 }
 
-- 
2.43.0


From 2b4a30e316021fe80b380dff080060800f910946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 16/77] fix: an admission that does not fit consults the
 eviction agent once

---
 SmartCache/sim/cache/aiRL.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index 101a542..f0fbe0a 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -1102,8 +1102,6 @@ func (cache *AIRL) UpdatePolicy(request *Request, fileStats *files.Stats, hit bo
 
 							cache.callEvictionAgent()
 						}
-
-						cache.callEvictionAgent()
 					} else {
 						cache.Free(requestedFileSize, false)
 					}
-- 
2.43.0


From 0b76d76f91db9e978384010a12754c3af43128fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:37 +0000
Subject: [PATCH 17/77] fix: the Q-learning prototype updates the value of the
 chosen action

The value was read at the position of the action in the table but written
at its numeric value, so with the actions of main.go (not store, store) every
update of one action overwrote the value of the other.
---
 qLearning_smartCache/qtable/qtable.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/qLearning_smartCache/qtable/qtable.go b/qLearning_smartCache/qtable/qtable.go
index 65ffc1f..80e5871 100644
--- a/qLearning_smartCache/qtable/qtable.go
+++ b/qLearning_smartCache/qtable/qtable.go
@@ -160,9 +160,8 @@ func getArgMax(array []float64) int {
 	return maxIdx
 }
 
-// GetAction returns the possible environment action from a state
-func (table QTable) GetAction(stateIdx uint64, action ActionType) float64 {
-	values := table.states[stateIdx]
+// getActionIdx returns the position of an action in the table
+func (table QTable) getActionIdx(action ActionType) int {
 	outIdx := 0
 	for idx := 0; idx < len(table.actions); idx++ {
 		if table.actions[idx] == action {
@@ -170,7 +169,12 @@ func (table QTable) GetAction(stateIdx uint64, action ActionType) float64 {
 			break
 		}
 	}
-	return values[outIdx]
+	return outIdx
+}
+
+// GetAction returns the possible environment action from a state
+func (table QTable) GetAction(stateIdx uint64, action ActionType) float64 {
+	return table.states[stateIdx][table.getActionIdx(action)]
 }
 
 // GetBestAction returns the action of the best action for the given state
@@ -206,5 +210,5 @@ func (table *QTable) Update(state []float64, action ActionType, reward float64)
 	stateIdx := table.GetStateIdx(state)
 	actionValue := table.GetAction(stateIdx, action)
 	maxValue := getArgMax(table.states[stateIdx])
-	table.states[stateIdx][action] = actionValue + table.learningRate*(reward+table.DecayRate*table.states[stateIdx][maxValue]-actionValue)
+	table.states[stateIdx][table.getActionIdx(action)] = actionValue + table.learningRate*(reward+table.DecayRate*table.states[stateIdx][maxValue]-actionValue)
 }
-- 
2.43.0


From 6007901caaa9a4c4fba88956adce1b527b533169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:48 +0000
Subject: [PATCH 18/77] fix: the prototype cache neither hangs on oversized
 files nor evicts for stored ones

Inserting a file bigger than the cache removed every file and then looped
forever; inserting a file already stored counted its size twice and removed
other files to make room for it.
---
 qLearning_smartCache/cache/cache.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qLearning_smartCache/cache/cache.go b/qLearning_smartCache/cache/cache.go
index bff1fe8..2cd1163 100644
--- a/qLearning_smartCache/cache/cache.go
+++ b/qLearning_smartCache/cache/cache.go
@@ -81,8 +81,13 @@ func (cache SimCache) GetPoints() float64 {
 }
 
 // Insert add a file into the cache. If there is no space left, it starts to
-// remove the files with less value and then adds it when there is space
+// remove the files with less value and then adds it when there is space.
+// Files bigger than the cache are not stored.
 func (cache *SimCache) Insert(fileName string, size float64) {
+	if _, inCache := cache.files[fileName]; inCache || size > cache.MaxSize {
+		return
+	}
+
 	if cache.GetSize()+size > cache.MaxSize {
 		for {
 			fileName, _ := cache.GetMinValue()
-- 
2.43.0


From 79208f413ed4b38c2b9caff27f9443c30c86289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 19/77] fix: JSON data files can be read with Python 3.9 and
 later

---
 DataManager/collector/datafile/json.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index f5b5bba..85ae895 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -234,7 +234,7 @@ class JSONDataFileReader(object):
         for idx, (json_obj, _) in enumerate(iter(self.__get_json, (None, -1)), cur_idx):
             if idx == stop - 1:
                 break
-            yield json.loads(json_obj, encoding="utf-8")
+            yield json.loads(json_obj)
 
     def __getitem__(self, idx):
         """Select an item or a group of item from the file.
@@ -259,7 +259,7 @@ class JSONDataFileReader(object):
             for cur_index in range(-idx):
                 obj, pos = self.__get_json_from_end()
                 if -cur_index - 1 == idx:
-                    return json.loads(obj, encoding="utf-8")
+                    return json.loads(obj)
             raise IndexError
 
         if isinstance(idx, slice):
@@ -290,7 +290,7 @@ class JSONDataFileReader(object):
                 self.__last_index = cur_idx
 
                 if cur_idx == target_idx:
-                    results.append(json.loads(last_obj, encoding="utf-8"))
+                    results.append(json.loads(last_obj))
                     break
 
                 cur_idx += 1
@@ -324,7 +324,7 @@ class JSONDataFileReader(object):
         """
         next_json, _ = self.__get_json()
         if next_json is not None:
-            return json.loads(next_json, encoding="utf-8")
+            return json.loads(next_json)
         else:
             raise StopIteration
 
-- 
2.43.0


From 72d8a11524db28bcf792cd232aa0c33ea1518175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 20/77] fix: the second argument of the JSON data writer is the
 initial data

---
 DataManager/collector/datafile/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index 85ae895..5a4b629 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -12,7 +12,7 @@ class JSONDataFileWriter(object):
 
     """Write json.gz file."""
 
-    def __init__(self, filename: str = None, descriptor: 'IOBase' = None, data=None, append: bool = False):
+    def __init__(self, filename: str = None, data=None, descriptor: 'IOBase' = None, append: bool = False):
         """Init function of data writer for json.gz files.
 
         Args:
-- 
2.43.0


From 4814d15ddb0e5994661b25f19e4ab9aed62bc65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 21/77] fix: compressed JSON data files can be appended to

---
 DataManager/collector/datafile/json.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index 5a4b629..9e278fa 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -27,7 +27,10 @@ class JSONDataFileWriter(object):
                    ), "You have to specify a filename or a descriptor..."
         self.__filename = filename
         self.__descriptor = descriptor
-        if not self.__descriptor:
+        if self.__descriptor:
+            if append:
+                self.__descriptor.seek(0, 2)
+        else:
             if append:
                 self.__descriptor = get_or_create_descriptor(
                     self.__filename, "ab")
@@ -35,8 +38,6 @@ class JSONDataFileWriter(object):
                 self.__descriptor = get_or_create_descriptor(
                     self.__filename, "wb")
 
-        if append:
-            self.__descriptor.seek(0, 2)
 
         if data is not None:
             self.append(data)
-- 
2.43.0


From 3512a342fb35b25a0216944d28df44774ef7fdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 22/77] fix: negative indices of a JSON data file count from
 its end

---
 DataManager/collector/datafile/json.py | 26 +++-----------------------
 1 file changed, 3 insertions(+), 23 deletions(-)

diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index 9e278fa..c8ffb43 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -176,24 +176,6 @@ class JSONDataFileReader(object):
             self.__len = num_lines
         return self.__len
 
-    def __get_json_from_end(self, step: int = 1024):
-        buffer = b''
-        index = -step - 1
-        cur_chars = b''
-        while cur_chars.rfind(b'\n') == -1:
-            self.__descriptor.seek(index, 2)
-            last_pos = self.__descriptor.tell()
-            cur_chars = self.__descriptor.read(step)
-            buffer = cur_chars + buffer
-            index -= step
-        if len(buffer) >= 2:
-            return (
-                buffer[cur_chars.rfind(b'\n')+1:], last_pos +
-                cur_chars.rfind(b'\n')
-            )
-        else:
-            return (None, -1)
-
     def __get_json(self):
         """Extract a json object string from the file.
 
@@ -257,11 +239,9 @@ class JSONDataFileReader(object):
             idx, (int, slice)), "Index Could be an integer or a slice"
 
         if isinstance(idx, int) and idx < 0:
-            for cur_index in range(-idx):
-                obj, pos = self.__get_json_from_end()
-                if -cur_index - 1 == idx:
-                    return json.loads(obj)
-            raise IndexError
+            idx += len(self)
+            if idx < 0:
+                raise IndexError
 
         if isinstance(idx, slice):
             to_extract = (elm for elm in gen_increasing_slice(idx))
-- 
2.43.0


From e1db49c0e15ef30c8b9850a871a53dcf43f2f64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 23/77] fix: JSON data in memory can be read through DataFile

---
 DataManager/collector/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/collector/api.py b/DataManager/collector/api.py
index 6cbdd48..1b0ef1d 100644
--- a/DataManager/collector/api.py
+++ b/DataManager/collector/api.py
@@ -43,7 +43,7 @@ class DataFile(object):
             if tmp.find("avro.schema") != -1:
                 return AvroDataFileReader(source)
             else:
-                return JSONDataFileReader(source)
+                return JSONDataFileReader(descriptor=source)
         elif isinstance(source, AvroDataFileWriter):
             tmp = BytesIO(source.raw_data)
             return AvroDataFileReader(tmp)
-- 
2.43.0


From a33f29a08a8c47eb28a30e47c02414923edd5d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:50 +0000
Subject: [PATCH 24/77] fix: asking for the length of a data file does not move
 its iteration

---
 DataManager/collector/datafile/avro.py | 2 ++
 DataManager/collector/datafile/json.py | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/DataManager/collector/datafile/avro.py b/DataManager/collector/datafile/avro.py
index 93ba98f..2f2b531 100644
--- a/DataManager/collector/datafile/avro.py
+++ b/DataManager/collector/datafile/avro.py
@@ -123,10 +123,12 @@ class AvroDataFileReader(object):
     def __len__(self):
         if not self.__len:
             counter = 0
+            cur_pos = self.__descriptor.tell()
             self.__descriptor.seek(0, 0)
             print("[Check avro lenght...]")
             for _ in fast_reader(self.__descriptor):
                 counter += 1
+            self.__descriptor.seek(cur_pos, 0)
             self.__len = counter
         return self.__len
 
diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index c8ffb43..0f2fc53 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -38,7 +38,6 @@ class JSONDataFileWriter(object):
                 self.__descriptor = get_or_create_descriptor(
                     self.__filename, "wb")
 
-
         if data is not None:
             self.append(data)
 
@@ -171,8 +170,10 @@ class JSONDataFileReader(object):
 
     def __len__(self):
         if not self.__len:
+            cur_pos = self.__descriptor.tell()
             self.__descriptor.seek(0, 0)
             num_lines = self.__descriptor.read().decode("utf-8").count('\n')
+            self.__descriptor.seek(cur_pos, 0)
             self.__len = num_lines
         return self.__len
 
-- 
2.43.0


From 3b5da8753e210e02b08ebccb78dfd270bc2d33f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:35 +0000
Subject: [PATCH 25/77] fix: a file bigger than the Python cache is not stored
 instead of emptying the cache and failing

---
 SmartCache/pySim/cache.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SmartCache/pySim/cache.py b/SmartCache/pySim/cache.py
index f7b5622..82cdaef 100644
--- a/SmartCache/pySim/cache.py
+++ b/SmartCache/pySim/cache.py
@@ -94,6 +94,8 @@ class LRU(object):
 
     def update_policy(self, filename, file_stats, hit: bool) -> bool:
         if not hit:
+            if file_stats.size > self._max_size:
+                return False
             if self._size + file_stats.size <= self._max_size:
                 self._files[filename] = file_stats
                 self._queue.append(filename)
-- 
2.43.0


From f7a97bc0e6a5dc1796a00b855665cd47b0dd1710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:35 +0000
Subject: [PATCH 26/77] fix: the Python cache frees the size a file was stored
 with

---
 SmartCache/pySim/cache.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SmartCache/pySim/cache.py b/SmartCache/pySim/cache.py
index 82cdaef..348d99e 100644
--- a/SmartCache/pySim/cache.py
+++ b/SmartCache/pySim/cache.py
@@ -97,19 +97,19 @@ class LRU(object):
             if file_stats.size > self._max_size:
                 return False
             if self._size + file_stats.size <= self._max_size:
-                self._files[filename] = file_stats
+                self._files[filename] = file_stats.size
                 self._queue.append(filename)
                 self._size += file_stats.size
                 return True
             else:
                 while self._size + file_stats.size > self._max_size:
                     to_remove = self._queue.pop(0)
-                    file_size = self._files[to_remove].size
+                    file_size = self._files[to_remove]
                     self._size -= file_size
                     self._deleted_data += file_size
                     del self._files[to_remove]
                 else:
-                    self._files[filename] = file_stats
+                    self._files[filename] = file_stats.size
                     self._queue.append(filename)
                     self._size += file_stats.size
                     return True
-- 
2.43.0


From ed638b22c371ceddb98cf3a6d2eabaada14d2ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:50 +0000
Subject: [PATCH 27/77] fix: a stage processes the batches that find all its
 processes busy

---
 DataManager/collector/dataset/stage.py | 30 ++++++++++++--------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/DataManager/collector/dataset/stage.py b/DataManager/collector/dataset/stage.py
index f0348c3..ad56df2 100644
--- a/DataManager/collector/dataset/stage.py
+++ b/DataManager/collector/dataset/stage.py
@@ -84,22 +84,6 @@ class Stage(BaseSpark):
             output_queue = Queue()
             with yaspin(text="[STAGE][{}]".format(self.name)) as spinner:
                 for cur_input in input_:
-                    if len(tasks) < num_process:
-                        new_process = Process(
-                            target=self.process,
-                            args=(cur_input, output_queue)
-                        )
-                        tasks.append(new_process)
-                        new_process.start()
-                        spinner.write(
-                            "[STAGE][{}][TASK ADDED]".format(self.name))
-                        spinner.write("[STAGE][{}][{} task{} running]".format(
-                            self.name,
-                            len(tasks),
-                            's' if len(tasks) > 1 else ''
-                        ))
-                        continue
-
                     while len(tasks) == num_process:
                         for task in tasks:
                             spinner.text = "[STAGE][{}][{} task{} running]".format(
@@ -116,6 +100,20 @@ class Stage(BaseSpark):
                                 len(tasks),
                                 's' if len(tasks) > 1 else ''
                             )
+
+                    new_process = Process(
+                        target=self.process,
+                        args=(cur_input, output_queue)
+                    )
+                    tasks.append(new_process)
+                    new_process.start()
+                    spinner.write(
+                        "[STAGE][{}][TASK ADDED]".format(self.name))
+                    spinner.write("[STAGE][{}][{} task{} running]".format(
+                        self.name,
+                        len(tasks),
+                        's' if len(tasks) > 1 else ''
+                    ))
                 else:
                     while len(tasks) > 0:
                         for task in tasks:
-- 
2.43.0


From 3a729a006e8a623aa2b70f5ea5b7ec6aacafb226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:50 +0000
Subject: [PATCH 28/77] fix: a stage does not fail when none of its processes
 has results yet

---
 DataManager/collector/datafile/avro.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DataManager/collector/datafile/avro.py b/DataManager/collector/datafile/avro.py
index 2f2b531..57ab970 100644
--- a/DataManager/collector/datafile/avro.py
+++ b/DataManager/collector/datafile/avro.py
@@ -51,6 +51,9 @@ class AvroDataFileWriter(object):
 
     def __write(self, data):
         """Write data into the avro file."""
+        if not data:
+            return
+
         if not self.__schema:
             self.__schema = parse_schema(self.__avro_translator.deduce_scheme(data[0]))
 
-- 
2.43.0


From 50a666d56d7b5230efb0ceee4b9609e92c594713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:50 +0000
Subject: [PATCH 29/77] fix: the stages write their records as the data files
 take them

---
 DataManager/collector/dataset/stage.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DataManager/collector/dataset/stage.py b/DataManager/collector/dataset/stage.py
index ad56df2..56064d2 100644
--- a/DataManager/collector/dataset/stage.py
+++ b/DataManager/collector/dataset/stage.py
@@ -172,9 +172,9 @@ class CMSRecordTest0Stage(Stage):
 
         if queue:
             for record in tmp.values():
-                queue.put(record.dumps())
+                queue.put(record.to_dict())
         else:
-            return [elm.dumps() for elm in tmp.values()]
+            return [elm.to_dict() for elm in tmp.values()]
 
     def pre_output(self, output):
         tmp = {}
@@ -218,7 +218,7 @@ class CMSFeaturedStage(Stage):
         for record in records:
             new_record = CMSDataPopularity(record['features'])
             if new_record:
-                tmp.append(new_record.dumps())
+                tmp.append(new_record.to_dict())
 
             # Limit processing for test
             # if len(tmp) >= 1000:
-- 
2.43.0


From 543eec7c49c2dffbf243d1705cd15ec20717abf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:50 +0000
Subject: [PATCH 30/77] fix: the features of valid file names can be extracted

---
 DataManager/collector/datafeatures/extractor.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/DataManager/collector/datafeatures/extractor.py b/DataManager/collector/datafeatures/extractor.py
index f19f088..2a8059f 100644
--- a/DataManager/collector/datafeatures/extractor.py
+++ b/DataManager/collector/datafeatures/extractor.py
@@ -98,7 +98,6 @@ class CMSDataPopularity(FeatureData):
                  ):
         super(CMSDataPopularity, self).__init__()
         self.__data = data
-        self.__id = None
         self.__valid = False
         self.__filters = filters
         self.__extract_features()
@@ -107,7 +106,7 @@ class CMSDataPopularity(FeatureData):
         """Make object loaded by pickle."""
         self.__data = state['data']
         self._features = state['features']
-        self.__id = state['id']
+        self._id = state['id']
         self.__valid = state['valid']
         return self
 
@@ -115,7 +114,7 @@ class CMSDataPopularity(FeatureData):
         return {
             'data': self.__data,
             'features': self._features,
-            'id': self.__id,
+            'id': self._id,
             'valid': self.__valid,
         }
 
@@ -143,7 +142,7 @@ class CMSDataPopularity(FeatureData):
                     [fun(self.feature[name]) for name, fun in self.__filters]
                 )
                 if self.__valid:
-                    self.__gen_id()
+                    self._gen_id()
             except ValueError as err:
                 print(
                     "Cannot extract features from '{}'".format(cur_file))
-- 
2.43.0


From 2dd6b5dbe604e7f690c731eee1ff35a3b8c9b101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:50 +0000
Subject: [PATCH 31/77] fix: the agent uses the data file interface that exists

---
 DataManager/agent/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DataManager/agent/cli.py b/DataManager/agent/cli.py
index 0668736..b9288ac 100644
--- a/DataManager/agent/cli.py
+++ b/DataManager/agent/cli.py
@@ -3,7 +3,7 @@ from datetime import timedelta
 from sys import exit
 from time import time
 
-from ..collector.interface import DataFileInterface
+from ..collector.api import DataFile
 from .api import ElasticSearchHttp
 
 
@@ -49,7 +49,7 @@ def cli_main():
 
     if args.command == "get":
         if args.type == "file":
-            collector = DataFileInterface(args.source)
+            collector = DataFile(args.source)
             try:
                 index = int(args.index)
             except ValueError as err:
@@ -61,7 +61,7 @@ def cli_main():
         BULK_SIZE = args.bulk
 
         if args.source_type == "file":
-            source = DataFileInterface(args.source)
+            source = DataFile(args.source)
         if args.dest_type == "elasticsearchhttp":
             dest = ElasticSearchHttp(args.dest, args.auth)
 
-- 
2.43.0


From 765c11c0a6d53cf3203cf9e86b06a59482c3a96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:50 +0000
Subject: [PATCH 32/77] fix: the agent uploads the records that find a bucket
 full

---
 DataManager/agent/cli.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/DataManager/agent/cli.py b/DataManager/agent/cli.py
index b9288ac..7117891 100644
--- a/DataManager/agent/cli.py
+++ b/DataManager/agent/cli.py
@@ -103,9 +103,8 @@ def cli_main():
                     print("[COMMAND][PUT][INSERT][Element {}][DONE in {:0.5f}s][Elapsed time: {:0>8}s]".format(
                         idx, time()-start,  str(timedelta(seconds=time()-command_start))), end='\r')
                 else:
-                    if len(bucket) < BULK_SIZE:
-                        bucket.append(data)
-                    else:
+                    bucket.append(data)
+                    if len(bucket) == BULK_SIZE:
                         tot_elm_done = put_bucket(dest, bucket, tot_elm_done)
                         bucket = []
             else:
-- 
2.43.0


From 5fe4bcae7dc93a7ef0654b04588c643c9dc5f872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:50 +0000
Subject: [PATCH 33/77] fix: passwords for the archive may contain colons

---
 DataManager/agent/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/agent/api.py b/DataManager/agent/api.py
index b37c912..4735651 100644
--- a/DataManager/agent/api.py
+++ b/DataManager/agent/api.py
@@ -279,7 +279,7 @@ class ElasticSearchHttp(object):
         self.__url = url
         if self.__url[-1] != "/":
             self.__url += "/"
-        self.__auth = tuple(auth.split(":")) if auth != "" else None
+        self.__auth = tuple(auth.split(":", 1)) if auth != "" else None
 
     def __enter__(self):
         return self
-- 
2.43.0


From 9f30701a604a104316a5487326a6c0346a0ca483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:25 +0000
Subject: [PATCH 34/77] fix: a window whose size is not a multiple of the step
 ends

---
 DataManager/collector/dataset/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/collector/dataset/utils.py b/DataManager/collector/dataset/utils.py
index 856a881..4a4fd2e 100644
--- a/DataManager/collector/dataset/utils.py
+++ b/DataManager/collector/dataset/utils.py
@@ -135,7 +135,7 @@ def gen_window_dates(year: int, month: int, day: int, window_size: int, step: in
     else:
         start_date = date(year, month, day) + window_size
     end_date = start_date + window_size
-    while start_date != end_date:
+    while start_date < end_date:
         yield (start_date.year, start_date.month, start_date.day)
         start_date += window_step
 
-- 
2.43.0


From 258d614f445fc3fe80a64cd11ddda83ab003bdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:25 +0000
Subject: [PATCH 35/77] fix: new indexes of a support table are used by later
 conversions

---
 DataManager/collector/dataset/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DataManager/collector/dataset/utils.py b/DataManager/collector/dataset/utils.py
index 4a4fd2e..508f1a6 100644
--- a/DataManager/collector/dataset/utils.py
+++ b/DataManager/collector/dataset/utils.py
@@ -354,6 +354,11 @@ class SupportTable(object):
                         )
                     )
                 )
+        # Forget what was converted with the previous indexes
+        self.__sorted_keys = {}
+        self.__sizes = {}
+        SupportTable.get_value.cache_clear()
+        SupportTable.get_close_value.cache_clear()
         return self
 
     def to_dict(self) -> dict:
-- 
2.43.0


From b22eb65ad467082d03cf9588f9207356ddc9647d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:26 +0000
Subject: [PATCH 36/77] fix: the number of an empty or zero category value can
 be asked for

---
 Probe/probe/converter/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Probe/probe/converter/utils.py b/Probe/probe/converter/utils.py
index 32ca23c..161afce 100644
--- a/Probe/probe/converter/utils.py
+++ b/Probe/probe/converter/utils.py
@@ -119,7 +119,7 @@ class CategoryContainer:
                     self.__sequences[category] += 1
 
     def get(self, category, value=None):
-        if value:
+        if value is not None:
             return self._data[category][value]
         else:
             return self._data[category]
-- 
2.43.0


From e567d1526e3e74f2dadfdbc8ed58cd28a08f8139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:26 +0000
Subject: [PATCH 37/77] fix: category values with dots can be queried

---
 Probe/probe/converter/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Probe/probe/converter/utils.py b/Probe/probe/converter/utils.py
index 161afce..ad52ca3 100644
--- a/Probe/probe/converter/utils.py
+++ b/Probe/probe/converter/utils.py
@@ -147,7 +147,7 @@ class CategoryContainer:
                 colorful_json = make_colored_json(json_output)
                 return colorful_json
             elif subQuery == "valueOf":
-                category, key = category.split(".")
+                category, key = category.split(".", 1)
                 json_output = json.dumps(
                     {category: {key: self._data[category][key]}},
                     indent=2,
-- 
2.43.0


From dd143db07b47c359fbf9013033b771e291c411b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:09 +0000
Subject: [PATCH 38/77] fix: the converter and the analyzer of the probe can be
 started (str2bool was missing)

---
 Probe/probe/converter/inspect.py | 3 +--
 Probe/probe/utils.py             | 9 +++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/Probe/probe/converter/inspect.py b/Probe/probe/converter/inspect.py
index cfa21fe..9abe74b 100644
--- a/Probe/probe/converter/inspect.py
+++ b/Probe/probe/converter/inspect.py
@@ -2,8 +2,7 @@ import argparse
 import pickle
 from os import path
 
-from ..utils import STATUS_ARROW, STATUS_WARNING
-from .utils import str2bool
+from ..utils import STATUS_ARROW, STATUS_WARNING, str2bool
 
 
 def main():
diff --git a/Probe/probe/utils.py b/Probe/probe/utils.py
index 29866ae..997cd35 100644
--- a/Probe/probe/utils.py
+++ b/Probe/probe/utils.py
@@ -17,6 +17,15 @@ def STATUS_OK(string):
     return f"{Style.BRIGHT + Fore.GREEN}{string}{Style.RESET_ALL}"
 
 
+def str2bool(string: str) -> bool:
+    """Convert the text of a command line option to a boolean.
+
+    :return: the boolean value
+    :rtype: bool
+    """
+    return string.lower() in ("yes", "true", "t", "y", "1")
+
+
 def sort_by_date(df: "pd.DataFrame", column_name: str = "reqDay") -> "pd.DataFrame":
     """Sort the dataframe by date.
 
-- 
2.43.0


From 68ef102b659970a444cb7d9af3c0f30f387512e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:25 +0000
Subject: [PATCH 39/77] fix: the results of a conversion in the same folder are
 not converted again

---
 Probe/probe/converter/__main__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Probe/probe/converter/__main__.py b/Probe/probe/converter/__main__.py
index 46669a6..45e6ec7 100644
--- a/Probe/probe/converter/__main__.py
+++ b/Probe/probe/converter/__main__.py
@@ -60,6 +60,9 @@ def main():
 
             head, tail = path.split(filepath)
             cur_filename = tail
+            if tail.startswith("results_numeric_"):
+                # result of a previous conversion
+                continue
             if args.shuffle:
                 output_filename = path.join(
                     head,
-- 
2.43.0


From 9f964e838eb9a3729784f0dfd1604aac3b573cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:25 +0000
Subject: [PATCH 40/77] fix: an interrupted conversion can be started again
 without losing numbers or rows

---
 Probe/probe/converter/__main__.py | 12 +++++++-----
 Probe/probe/converter/utils.py    | 10 ++++++++--
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/Probe/probe/converter/__main__.py b/Probe/probe/converter/__main__.py
index 45e6ec7..2103ad1 100644
--- a/Probe/probe/converter/__main__.py
+++ b/Probe/probe/converter/__main__.py
@@ -1,6 +1,6 @@
 import argparse
 import pickle
-from os import path
+from os import path, replace
 
 from colorama import init
 from tqdm import tqdm
@@ -111,15 +111,17 @@ def main():
                 )
                 container.update(categories, filepath)
 
+                # The numbers have to be there before any file that uses them
+                print(f"{STATUS_ARROW}Save database...")
+                with open(f"{container_filename}.part", "wb") as out_file:
+                    pickle.dump(container, out_file)
+                replace(f"{container_filename}.part", container_filename)
+
                 new_df = convert_categories(
                     filepath, df, categories, container)
                 save_numeric_df(filepath, new_df,
                                 output_filename=output_filename)
 
-                print(f"{STATUS_ARROW}Save database...")
-                with open(f"container_{args.region}_.pickle", "wb") as out_file:
-                    pickle.dump(container, out_file)
-
 
 if __name__ == "__main__":
     main()
diff --git a/Probe/probe/converter/utils.py b/Probe/probe/converter/utils.py
index ad52ca3..d311788 100644
--- a/Probe/probe/converter/utils.py
+++ b/Probe/probe/converter/utils.py
@@ -1,7 +1,7 @@
 import json
 import sqlite3
 from multiprocessing import Pool
-from os import cpu_count, path, walk
+from os import cpu_count, makedirs, path, replace, walk
 
 import numpy as np
 import pandas as pd
@@ -321,4 +321,10 @@ def save_numeric_df(filepath: str, df: 'pd.DataFrame', output_filename: str = "r
     :type output_filename: str, optional
     """
     print(f"{STATUS_ARROW}Save csv {STATUS_OK(output_filename)}\x1b[0K")
-    df.to_csv(output_filename, index=False)
+    # An interrupted conversion must not leave an incomplete file, since it
+    # would be taken for an already converted one
+    head, tail = path.split(output_filename)
+    part_folder = path.join(head, ".part")
+    makedirs(part_folder, exist_ok=True)
+    df.to_csv(path.join(part_folder, tail), index=False)
+    replace(path.join(part_folder, tail), output_filename)
-- 
2.43.0


From a9092f5ef707b2ab431f42f853ea7b337ccd5c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:10 +0000
Subject: [PATCH 41/77] fix: damaged compressed datasets, feature maps and
 models are refused (the checksum was not verified)

---
 SmartCache/sim/cache/ai/featuremap/featuremap.go | 6 ++++++
 SmartCache/sim/cache/ai/neuralnet/neuralnet.go   | 6 ++++++
 SmartCache/sim/cache/lruDatasetVerifier.go       | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/SmartCache/sim/cache/ai/featuremap/featuremap.go b/SmartCache/sim/cache/ai/featuremap/featuremap.go
index 5523f40..1cd9639 100644
--- a/SmartCache/sim/cache/ai/featuremap/featuremap.go
+++ b/SmartCache/sim/cache/ai/featuremap/featuremap.go
@@ -4,6 +4,8 @@ import (
 	"compress/gzip"
 	"encoding/json"
 	"fmt"
+	"io"
+	"io/ioutil"
 	"math"
 	"os"
 	"path/filepath"
@@ -94,6 +96,10 @@ func (manager *FeatureManager) Populate(featureMapFilePath string) { //nolint:ig
 		}
 
 		errJSONUnmarshal := json.NewDecoder(featureMapFileGz).Decode(&tmpMap)
+		if errJSONUnmarshal == nil {
+			// The checksum is verified at the end of the stream
+			_, errJSONUnmarshal = io.Copy(ioutil.Discard, featureMapFileGz)
+		}
 		if errJSONUnmarshal != nil {
 			manager.logger.Error("Cannot unmarshal gzipped json from file",
 				zap.String("filename", featureMapFilePath), zap.Error(errJSONUnmarshal))
diff --git a/SmartCache/sim/cache/ai/neuralnet/neuralnet.go b/SmartCache/sim/cache/ai/neuralnet/neuralnet.go
index b1a6280..0801836 100644
--- a/SmartCache/sim/cache/ai/neuralnet/neuralnet.go
+++ b/SmartCache/sim/cache/ai/neuralnet/neuralnet.go
@@ -4,6 +4,8 @@ import (
 	"compress/gzip"
 	"encoding/json"
 	"fmt"
+	"io"
+	"io/ioutil"
 	"log"
 	"math"
 	"os"
@@ -100,6 +102,10 @@ func LoadModel(modelFilePath string) *AIModel {
 		}
 
 		errJSONUnmarshal := json.NewDecoder(modelFileGz).Decode(&curModel)
+		if errJSONUnmarshal == nil {
+			// The checksum is verified at the end of the stream
+			_, errJSONUnmarshal = io.Copy(ioutil.Discard, modelFileGz)
+		}
 		if errJSONUnmarshal != nil {
 			log.Fatalf("[Model Error]: Cannot unmarshal json from file '%s'\nError: %s\n", modelFilePath, errJSONUnmarshal)
 		}
diff --git a/SmartCache/sim/cache/lruDatasetVerifier.go b/SmartCache/sim/cache/lruDatasetVerifier.go
index 85e0bd1..7d17e3c 100644
--- a/SmartCache/sim/cache/lruDatasetVerifier.go
+++ b/SmartCache/sim/cache/lruDatasetVerifier.go
@@ -3,6 +3,8 @@ package cache
 import (
 	"compress/gzip"
 	"encoding/json"
+	"io"
+	"io/ioutil"
 	"log"
 	"os"
 
@@ -41,6 +43,10 @@ func (cache *LRUDatasetVerifier) Init(param InitParameters) interface{} {
 
 	var datasetFiles *DatasetFiles
 	errJSONUnmarshal := json.NewDecoder(datasetFileGz).Decode(&datasetFiles)
+	if errJSONUnmarshal == nil {
+		// The checksum is verified at the end of the stream
+		_, errJSONUnmarshal = io.Copy(ioutil.Discard, datasetFileGz)
+	}
 	if errJSONUnmarshal != nil {
 		log.Fatalf("Cannot unmarshal json from file '%s'\nError: %s\n", datasetFilePath, errJSONUnmarshal)
 	}
-- 
2.43.0


From 24395fd512957a71256ef094f977e051aec114c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:24 +0000
Subject: [PATCH 42/77] fix: a run started from a dump in another folder keeps
 the results of earlier runs

---
 SmartCache/sim/cache/simulation.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/SmartCache/sim/cache/simulation.go b/SmartCache/sim/cache/simulation.go
index 8d7d2f7..4e279a1 100644
--- a/SmartCache/sim/cache/simulation.go
+++ b/SmartCache/sim/cache/simulation.go
@@ -689,16 +689,17 @@ func Simulate(cacheType string, cacheInstance Cache, param SimulationParams) { /
 	if param.LoadDump { //nolint:ignore,nestif
 		logger.Info("Loading cache dump", zap.String("filename", param.LoadDumpFileName))
 
-		latestCacheRun := GetSimulationRunNum(filepath.Dir(param.LoadDumpFileName))
+		// The results of the previous run, if any, are kept beside the new ones
+		latestCacheRun := GetSimulationRunNum(filepath.Dir(param.OutFile))
 
 		renameErr := os.Rename(
 			param.OutFile,
 			fmt.Sprintf("%s_run-%02d.csv",
-				strings.Split(param.OutFile, ".")[0],
+				strings.TrimSuffix(param.OutFile, filepath.Ext(param.OutFile)),
 				latestCacheRun,
 			),
 		)
-		if renameErr != nil {
+		if renameErr != nil && !os.IsNotExist(renameErr) {
 			panic(renameErr)
 		}
 
-- 
2.43.0


From 7774bbc65eeccf9854ca707e180a1855cff9d3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:30 +0000
Subject: [PATCH 43/77] fix: probe results: a purge right after another one is
 part of the report, and a log without purges has an empty one

---
 Probe/probe/results/utils.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/Probe/probe/results/utils.py b/Probe/probe/results/utils.py
index 7bab61f..c80a366 100644
--- a/Probe/probe/results/utils.py
+++ b/Probe/probe/results/utils.py
@@ -126,14 +126,15 @@ def parse_sim_log(log_df: "pd.DataFrame", target: str = "AFTERDELETE"):
         ):
             event = row[2]
 
-            if state == "AFTERDELETE":
-                if event in ["ONFREE", "ONDAYEND", "ONK", "FORCEDCALL", "FREE"]:
-                    if curLog is not None:
-                        curLog.prepare(["Index"] + list(log_df.columns))
-                        yield curLog
-                    curLog = LogDeleteEvaluator(row)
-                    state = "DELETING"
-                elif curLog is not None:
+            if event in ["ONFREE", "ONDAYEND", "ONK", "FORCEDCALL", "FREE"]:
+                if curLog is not None:
+                    curLog.prepare(["Index"] + list(log_df.columns))
+                    yield curLog
+                curLog = LogDeleteEvaluator(row)
+                state = "DELETING"
+
+            elif state == "AFTERDELETE":
+                if curLog is not None:
                     curLog.trace(row)
 
             elif state == "DELETING":
@@ -143,8 +144,9 @@ def parse_sim_log(log_df: "pd.DataFrame", target: str = "AFTERDELETE"):
                     state = "AFTERDELETE"
                     curLog.trace(row)
         else:
-            curLog.prepare(["Index"] + list(log_df.columns))
-            yield curLog
+            if curLog is not None:
+                curLog.prepare(["Index"] + list(log_df.columns))
+                yield curLog
 
     elif target == "MISSFREQ":
         deleted_files = {}
-- 
2.43.0


From f7ae6c06877dd4a206d710e80cf9b919648e9ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:30 +0000
Subject: [PATCH 44/77] fix: probe results: the size of the deleted files is
 that of the files (it was the size of the table), and kept files are not
 counted as deleted

---
 Probe/probe/results/utils.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/Probe/probe/results/utils.py b/Probe/probe/results/utils.py
index c80a366..3f3d20e 100644
--- a/Probe/probe/results/utils.py
+++ b/Probe/probe/results/utils.py
@@ -60,7 +60,7 @@ class LogDeleteEvaluator(object):
     @property
     def scatterAfter(self):
         return px.scatter_3d(
-            self.after[self.after.size != -1.0],
+            self.after[self.after["size"] != -1.0],
             x="num req",
             y="size",
             z="filename",
@@ -75,20 +75,24 @@ class LogDeleteEvaluator(object):
 
     @property
     def histActionSize(self):
-        return px.histogram(self.actions, x="Size")
+        return px.histogram(self.actions, x="size")
 
     @property
     def histActionDeltaT(self):
         return px.histogram(self.actions, x="delta t")
 
+    @property
+    def _deleted(self):
+        return self.actions.loc[self.actions["action or event"] == "DELETE"]
+
     def _get_num_deleted_files(self):
-        return len(set(self.actions.filename))
+        return len(set(self._deleted.filename))
 
     def _get_total_size_deleted_files(self):
-        return self.actions.size.sum()
+        return self._deleted["size"].sum()
 
     def _get_num_deleted_miss(self):
-        files = set(self.after.filename) & set(self.actions.filename)
+        files = set(self.after.filename) & set(self._deleted.filename)
         tot = 0
         if len(files) > 0:
             counts = self.after.filename[
@@ -106,10 +110,10 @@ class LogDeleteEvaluator(object):
         self.actions.loc[selectRows, "delta t"] = new_max * 2.0
 
         cur_max = self.after["delta t"].max()
-        selectRows = (self.after["delta t"] == cur_max) & (self.after.size != -1.0)
+        selectRows = (self.after["delta t"] == cur_max) & (self.after["size"] != -1.0)
         self.after.loc[selectRows, "delta t"] = -1.0
         new_max = self.after["delta t"].max()
-        selectRows = (self.after["delta t"] == -1.0) & (self.after.size != -1.0)
+        selectRows = (self.after["delta t"] == -1.0) & (self.after["size"] != -1.0)
         self.after.loc[selectRows, "delta t"] = new_max * 2.0
 
 
-- 
2.43.0


From b3c71a5e03d08fd2a891fff675621c301d7ca20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:30 +0000
Subject: [PATCH 45/77] fix: probe results: a kept file does not end the
 deletions of a purge

---
 Probe/probe/results/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Probe/probe/results/utils.py b/Probe/probe/results/utils.py
index 3f3d20e..459e56e 100644
--- a/Probe/probe/results/utils.py
+++ b/Probe/probe/results/utils.py
@@ -197,7 +197,7 @@ def parse_sim_log(log_df: "pd.DataFrame", target: str = "AFTERDELETE"):
                 freq_skip.append(freq)
 
                 name2check = None
-            else:
+            elif event != "KEEP":
                 if state == "DELETING":
                     state = "AFTERDELETE"
 
-- 
2.43.0


From eeaaf59be14f5180eee14ffc5c4c4603293e780b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:45 +0000
Subject: [PATCH 46/77] fix: probe results: runs without a log are left out of
 the plots of the logs (the program failed)

---
 Probe/probe/results/data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Probe/probe/results/data.py b/Probe/probe/results/data.py
index 6dc2069..2d1c17c 100644
--- a/Probe/probe/results/data.py
+++ b/Probe/probe/results/data.py
@@ -298,6 +298,9 @@ def parse_simulation_report(
     del_evaluators = {}
 
     for file_, _, sim_log in tqdm(files2plot, desc="Parse log", position=1):
+        if sim_log is None:
+            continue
+
         name = file_.replace(prefix, "").replace(f"/{SIM_RESULT_FILENAME}", "")
 
         curEvents = []
-- 
2.43.0


From cfef9a24cd6966965930e312e528f98e542250d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:03 +0000
Subject: [PATCH 47/77] fix: probe results: the comparison of the dashboard
 gets its report (it got a generator and failed)

---
 Probe/probe/results/data.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/Probe/probe/results/data.py b/Probe/probe/results/data.py
index 2d1c17c..44c05b8 100644
--- a/Probe/probe/results/data.py
+++ b/Probe/probe/results/data.py
@@ -292,29 +292,29 @@ def measure_hit_over_miss(df: "pd.DataFrame") -> "pd.Series":
     return df["read on hit data"] / df["read on miss data"]
 
 
-def parse_simulation_report(
-    files2plot: list, prefix: str, generator: bool = False, target: str = "AFTERDELETE"
-) -> dict:
-    del_evaluators = {}
-
+def iter_simulation_report(files2plot: list, prefix: str, target: str = "AFTERDELETE"):
     for file_, _, sim_log in tqdm(files2plot, desc="Parse log", position=1):
         if sim_log is None:
             continue
 
         name = file_.replace(prefix, "").replace(f"/{SIM_RESULT_FILENAME}", "")
 
-        curEvents = []
+        yield name, parse_sim_log(sim_log, target)
 
-        for del_evaluator in parse_sim_log(sim_log, target):
-            if generator:
-                yield name, del_evaluator
-            else:
-                curEvents.append(del_evaluator)
 
-        if not generator:
-            del_evaluators[name] = curEvents
+def parse_simulation_report(
+    files2plot: list, prefix: str, generator: bool = False, target: str = "AFTERDELETE"
+) -> dict:
+    reports = iter_simulation_report(files2plot, prefix, target)
+
+    if generator:
+        return (
+            (name, del_evaluator)
+            for name, del_evaluators in reports
+            for del_evaluator in del_evaluators
+        )
 
-    return del_evaluators
+    return {name: list(del_evaluators) for name, del_evaluators in reports}
 
 
 def get_name_no_feature(name: str):
-- 
2.43.0


From 6a86cd5650dcb9ab6a25034ae1370642b96beedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:18 +0000
Subject: [PATCH 48/77] fix: probe dashboard: a download is the table shown (it
 could be another one or end with parts of an older one)

---
 Probe/probe/results/dashboard.py | 33 ++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/Probe/probe/results/dashboard.py b/Probe/probe/results/dashboard.py
index 1bdb3dc..aef0473 100644
--- a/Probe/probe/results/dashboard.py
+++ b/Probe/probe/results/dashboard.py
@@ -136,6 +136,23 @@ def get_prefix(files2plot: list) -> str:
     return path.commonprefix([file_ for file_, *_ in files2plot])
 
 
+def write_downloads(table: "pd.DataFrame"):
+    """Make the table shown available for the download
+
+    :param table: the table shown
+    :type table: pd.DataFrame
+    """
+    for file_, write in (
+        (_CSV_TEMP_FILE, table.to_csv),
+        (_TEX_TEMP_FILE, table.to_latex),
+        (_HTML_TEMP_FILE, table.to_html),
+    ):
+        file_.seek(0)
+        file_.truncate()
+        write(file_)
+        file_.flush()
+
+
 def create(results: "Results", server_ip: str = "localhost"):
 
     _CACHE = {"columns": {}, "measures": {}, "agents": {}, "tables": {}, "compare": {}}
@@ -739,7 +756,9 @@ def create(results: "Results", server_ip: str = "localhost"):
 
         elif at == "tab-table":
             if cur_hash in _CACHE["tables"]:
-                return ("", "", "", _CACHE["tables"][cur_hash], "", "")
+                data, table = _CACHE["tables"][cur_hash]
+                write_downloads(data)
+                return ("", "", "", table, "", "")
             else:
                 files2plot = get_files2plot(
                     results,
@@ -777,20 +796,14 @@ def create(results: "Results", server_ip: str = "localhost"):
                         sort_by_roh_first=sort_by_roh_first,
                     )
 
-                _CSV_TEMP_FILE.seek(0)
-                table.to_csv(_CSV_TEMP_FILE)
-
-                _TEX_TEMP_FILE.seek(0)
-                table.to_latex(_TEX_TEMP_FILE)
-
-                _HTML_TEMP_FILE.seek(0)
-                table.to_html(_HTML_TEMP_FILE)
+                data = table
+                write_downloads(data)
 
                 table = dbc.Table.from_dataframe(
                     table, striped=True, bordered=True, hover=True
                 )
 
-                _CACHE["tables"][cur_hash] = table
+                _CACHE["tables"][cur_hash] = (data, table)
                 return ("", "", "", table, "", "")
         elif at == "tab-compare":
             if cur_hash in _CACHE["compare"]:
-- 
2.43.0


From d841e116d0da05507d88d5c4ab42b33b1643ef09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:35 +0000
Subject: [PATCH 49/77] fix: probe dashboard: the number of results asked for
 is shown (it was 10 whatever was asked for)

---
 Probe/probe/results/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Probe/probe/results/data.py b/Probe/probe/results/data.py
index 44c05b8..0e4397a 100644
--- a/Probe/probe/results/data.py
+++ b/Probe/probe/results/data.py
@@ -424,7 +424,7 @@ def make_table(
 
     df = df.round(6)
     if top_n != 0:
-        df = df.iloc[:10]
+        df = df.iloc[:top_n]
 
     source_files = df.source.to_list()
     del df["source"]
-- 
2.43.0


From f6836c9bea8aaae00119cc2812fb32af0e671d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:03 +0000
Subject: [PATCH 50/77] fix: probe dashboard: the details of the comparison are
 found whatever the switches of the table

---
 Probe/probe/results/dashboard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Probe/probe/results/dashboard.py b/Probe/probe/results/dashboard.py
index aef0473..7b6c50a 100644
--- a/Probe/probe/results/dashboard.py
+++ b/Probe/probe/results/dashboard.py
@@ -806,6 +806,7 @@ def create(results: "Results", server_ip: str = "localhost"):
                 _CACHE["tables"][cur_hash] = (data, table)
                 return ("", "", "", table, "", "")
         elif at == "tab-compare":
+            cur_hash = selection2hash(files, filters_all, filters_any, num_of_results)
             if cur_hash in _CACHE["compare"]:
                 _, figs, tables = _CACHE["compare"][cur_hash]
                 return ("", "", "", "", figs, tables)
-- 
2.43.0


From afdf978f6d274bb382628c8607310d1f3fb8d783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:49 +0000
Subject: [PATCH 51/77] fix: probe dashboard: what is shown is that of the
 current filters (filters of both kinds were confused)

---
 Probe/probe/results/dashboard.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/Probe/probe/results/dashboard.py b/Probe/probe/results/dashboard.py
index 7b6c50a..3474377 100644
--- a/Probe/probe/results/dashboard.py
+++ b/Probe/probe/results/dashboard.py
@@ -452,13 +452,13 @@ def create(results: "Results", server_ip: str = "localhost"):
         sort_by_roh_first: bool = False,
     ) -> str:
         return str(
-            hash(
-                " ".join(
-                    files
-                    + filters_all
-                    + filters_any
-                    + [str(num_of_results), str(extended), str(sort_by_roh_first)]
-                )
+            (
+                files,
+                filters_all,
+                filters_any,
+                num_of_results,
+                extended,
+                sort_by_roh_first,
             )
         )
 
-- 
2.43.0


From c0fb669225e329a876354776db9dad6a4a1cb250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:18 +0000
Subject: [PATCH 52/77] fix: dataset reader: a value is encoded at the position
 its converter map gives (it was shifted by one without unknown values)

---
 DataManager/collector/dataset/reader.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/DataManager/collector/dataset/reader.py b/DataManager/collector/dataset/reader.py
index b3a32a8..982c60a 100644
--- a/DataManager/collector/dataset/reader.py
+++ b/DataManager/collector/dataset/reader.py
@@ -211,8 +211,6 @@ class SimulatorDatasetReader(object):
                             value
                         )
                         tmp = np.zeros(num_categories, dtype='float32')
-                        if not cur_map['unknown_values']:
-                            cur_value -= 1
                         tmp[cur_value] = 1.0
                         categories.append(
                             tmp.tolist()
-- 
2.43.0


From bf42d8e0585b7534235a779d00bd0ac190d922e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:18 +0000
Subject: [PATCH 53/77] fix: dataset reader: a map with unknown values and an
 open last bucket has room for both

---
 DataManager/collector/dataset/reader.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/DataManager/collector/dataset/reader.py b/DataManager/collector/dataset/reader.py
index 982c60a..98c76a3 100644
--- a/DataManager/collector/dataset/reader.py
+++ b/DataManager/collector/dataset/reader.py
@@ -142,6 +142,15 @@ class SimulatorDatasetReader(object):
         else:
             return str(value)
 
+    @staticmethod
+    def __get_num_categories(category_obj) -> int:
+        num_categories = len(category_obj['keys'])
+        if category_obj['unknown_values']:
+            num_categories += 1
+        if category_obj['bucket_open_right']:
+            num_categories += 1
+        return num_categories
+
     def __get_category_value(self, category_obj, value) -> int:
         if not category_obj['buckets']:
             if value in category_obj['keys']:
@@ -199,10 +208,7 @@ class SimulatorDatasetReader(object):
                 if column in self._converter_map:
                     cur_map = self._converter_map[column]
 
-                    if cur_map['unknown_values'] or cur_map['bucket_open_right']:
-                        num_categories = len(cur_map['keys']) + 1
-                    else:
-                        num_categories = len(cur_map['keys'])
+                    num_categories = self.__get_num_categories(cur_map)
 
                     categories = []
                     for value in df[column]:
-- 
2.43.0


From 82f403ac73f72290cc08809d6afadd4ed25b967c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:18 +0000
Subject: [PATCH 54/77] fix: dataset reader: the open last bucket holds for
 every column of a call, not only the first

---
 DataManager/collector/dataset/reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DataManager/collector/dataset/reader.py b/DataManager/collector/dataset/reader.py
index 98c76a3..1c4cbf9 100644
--- a/DataManager/collector/dataset/reader.py
+++ b/DataManager/collector/dataset/reader.py
@@ -84,11 +84,11 @@ class SimulatorDatasetReader(object):
                 cur_map['type'] = "bool"
 
             if buckets:
-                if buckets[-1] == "...":
+                cur_map['keys'] = list(buckets)
+                if cur_map['keys'][-1] == "...":
                     cur_map['buckets'] = True
                     cur_map['bucket_open_right'] = True
-                    buckets = buckets[:-1]
-                cur_map['keys'] = buckets
+                    cur_map['keys'].pop()
             else:
                 cur_map['keys'] = list(
                     set(self._df[column].astype(map_type).to_list())
-- 
2.43.0


From 8705ff0ce935e39da03c520e8d7cfd3d434cd3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:18 +0000
Subject: [PATCH 55/77] fix: dataset reader: the first data column may be one
 without a converter map

---
 DataManager/collector/dataset/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/collector/dataset/reader.py b/DataManager/collector/dataset/reader.py
index 1c4cbf9..182882e 100644
--- a/DataManager/collector/dataset/reader.py
+++ b/DataManager/collector/dataset/reader.py
@@ -229,7 +229,7 @@ class SimulatorDatasetReader(object):
                         ]
                     )
                 else:
-                    cur_data = df[column]
+                    cur_data = df[[column]]
 
                 sp.text = "[Merge data]"
                 if new_df is not None:
-- 
2.43.0


From 23bbe84ac9b0e21bb600cc5b447e9ed9c1594601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:18 +0000
Subject: [PATCH 56/77] fix: dataset reader: labels are encoded with any
 converter map (floats, buckets and unknown values raised an error)

---
 DataManager/collector/dataset/reader.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/DataManager/collector/dataset/reader.py b/DataManager/collector/dataset/reader.py
index 182882e..3941903 100644
--- a/DataManager/collector/dataset/reader.py
+++ b/DataManager/collector/dataset/reader.py
@@ -187,14 +187,18 @@ class SimulatorDatasetReader(object):
             if not label_column:
                 label_column = df.columns[-1]
             if label_column in self._converter_map:
+                cur_map = self._converter_map[label_column]
+                cur_labels = df[label_column]
+                if not cur_map['buckets'] and cur_map['type'] == "string":
+                    cur_labels = cur_labels.astype(str)
                 tmp_labels = [
-                    self._converter_map[label_column]['values'][elm]
-                    for elm in df[label_column].astype(str)
+                    self.__get_category_value(cur_map, elm)
+                    for elm in cur_labels
                 ]
                 labels = np.zeros(
                     (
                         len(tmp_labels),
-                        len(self._converter_map[label_column]['keys'])
+                        self.__get_num_categories(cur_map)
                     ),
                     dtype='int32'
                 )
-- 
2.43.0


From 6fbfc6f9b5e3de70fdb79cbb5ce2f17683a77657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:18 +0000
Subject: [PATCH 57/77] fix: dataset reader: one hot labels are made when asked
 for

---
 DataManager/collector/dataset/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DataManager/collector/dataset/reader.py b/DataManager/collector/dataset/reader.py
index 3941903..00a88e9 100644
--- a/DataManager/collector/dataset/reader.py
+++ b/DataManager/collector/dataset/reader.py
@@ -356,7 +356,7 @@ class CMSDatasetTest0Reader(object):
             labels = []
             for record in tqdm(self._collector, desc="[Generate train set]"):
                 features, class_ = self.__translate(
-                    record, normalized, one_hot)
+                    record, normalized, one_hot, one_hot_labels)
                 features_list.append(features)
                 labels.append(class_)
             yield (np.array(features_list), np.array(labels), None)
@@ -371,7 +371,7 @@ class CMSDatasetTest0Reader(object):
 
             for record in tqdm(self._collector, desc="[Generate chunks]"):
                 features, class_ = self.__translate(
-                    record, normalized, one_hot)
+                    record, normalized, one_hot, one_hot_labels)
                 tmp_features.append(features)
                 tmp_labels.append(class_)
                 if len(tmp_features) == chunk_size:
-- 
2.43.0


From 833c17836e01017591425963d80dad49f2e67401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:18 +0000
Subject: [PATCH 58/77] fix: dataset reader: every record is validated by one
 fold (the rest of the division by the folds never was)

---
 DataManager/collector/dataset/reader.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/DataManager/collector/dataset/reader.py b/DataManager/collector/dataset/reader.py
index 00a88e9..3ec0f27 100644
--- a/DataManager/collector/dataset/reader.py
+++ b/DataManager/collector/dataset/reader.py
@@ -363,18 +363,20 @@ class CMSDatasetTest0Reader(object):
         else:
             assert k_fold > 0, "k_fold argument have to be greater than 0"
 
-            chunk_size = len(self._collector) // k_fold
+            num_records = len(self._collector)
             chunks_features = []
             chunks_labels = []
             tmp_features = []
             tmp_labels = []
 
-            for record in tqdm(self._collector, desc="[Generate chunks]"):
+            for count, record in enumerate(
+                tqdm(self._collector, desc="[Generate chunks]"), 1
+            ):
                 features, class_ = self.__translate(
                     record, normalized, one_hot, one_hot_labels)
                 tmp_features.append(features)
                 tmp_labels.append(class_)
-                if len(tmp_features) == chunk_size:
+                if count == (len(chunks_features) + 1) * num_records // k_fold:
                     chunks_features.append(tmp_features)
                     chunks_labels.append(tmp_labels)
                     tmp_features = []
-- 
2.43.0


From f5ac09d44ffb6afbb1f91a5817438825aca24acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:47 +0000
Subject: [PATCH 59/77] fix: probe: csv_data returns the data read (it was
 always a generator: the analyses of concatenated data and of lists failed)

---
 Probe/probe/loaders.py | 52 +++++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 28 deletions(-)

diff --git a/Probe/probe/loaders.py b/Probe/probe/loaders.py
index 705278e..d4dedd6 100644
--- a/Probe/probe/loaders.py
+++ b/Probe/probe/loaders.py
@@ -97,6 +97,19 @@ def gen_csv_data(
         yield input_path, _load_csv_file(input_path, region_filter, file_type_filter)
 
 
+def _gen_data_frames(
+    input_path: str,
+    region_filter: str = None,
+    file_type_filter: str = None,
+    month_filter: int = -1,
+) -> "pd.DataFrame":
+    """Generate the dataframes of a folder or of a file."""
+    source = gen_csv_data(input_path, region_filter, file_type_filter, month_filter)
+    next(source)  # the total amount of files
+    for _, df in source:
+        yield df
+
+
 def csv_data(
     input_path: str,
     region_filter: str = None,
@@ -110,31 +123,14 @@ def csv_data(
     :return: The whole dataset
     :rtype: pandas.DataFrame
     """
-    assert concat != generate, "You cannot concat and generate data..."
-    if path.isdir(input_path):
-        data_frames = []
-        files = [file_ for file_ in os.listdir(input_path) if file_.find("csv") != -1]
-        for filename in tqdm(
-            sorted(files), desc=f"{STATUS_ARROW}Load folder {input_path}"
-        ):
-            if month_filter != -1:
-                if _get_month(filename) != month_filter:
-                    continue
-            cur_dataframe = _load_csv_file(
-                path.join(input_path, filename), region_filter, file_type_filter
-            )
-            if generate:
-                yield cur_dataframe
-            else:
-                data_frames.append(cur_dataframe)
-        else:
-            if data_frames:
-                if concat:
-                    print(f"{STATUS_ARROW}Concat dataframes...")
-                    return pd.concat(data_frames)
-                return data_frames
-            else:
-                pd.DataFrame()
-    else:
-        print(f"{STATUS_ARROW}Load file {input_path}")
-        return _load_csv_file(input_path, region_filter, file_type_filter)
+    assert not (concat and generate), "You cannot concat and generate data..."
+    data_frames = _gen_data_frames(
+        input_path, region_filter, file_type_filter, month_filter
+    )
+    if generate:
+        return data_frames
+    data_frames = list(tqdm(data_frames, desc=f"{STATUS_ARROW}Load {input_path}"))
+    if concat:
+        print(f"{STATUS_ARROW}Concat dataframes...")
+        return pd.concat(data_frames) if data_frames else pd.DataFrame()
+    return data_frames
-- 
2.43.0


From c86e346e9f71dc07573b3be61195a04f70a05d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:48 +0000
Subject: [PATCH 60/77] fix: probe: data are sorted by the column asked for
 (plain csv files have no other day)

---
 Probe/probe/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Probe/probe/utils.py b/Probe/probe/utils.py
index 997cd35..366763b 100644
--- a/Probe/probe/utils.py
+++ b/Probe/probe/utils.py
@@ -32,7 +32,7 @@ def sort_by_date(df: "pd.DataFrame", column_name: str = "reqDay") -> "pd.DataFra
     :return: the sorted dataframe
     :rtype: pandas.DataFrame
     """
-    df.sort_values(by="day", inplace=True)
+    df.sort_values(by=column_name, inplace=True)
     return df
 
 
-- 
2.43.0


From 07c105de20ac1a256ceb4ce2f9c84956af3e1e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:48 +0000
Subject: [PATCH 61/77] fix: probe: daily statistics are reset after the number
 of days asked for (the first period was a day short)

---
 Probe/probe/plotter/stats.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Probe/probe/plotter/stats.py b/Probe/probe/plotter/stats.py
index 4714d83..34a6697 100644
--- a/Probe/probe/plotter/stats.py
+++ b/Probe/probe/plotter/stats.py
@@ -432,7 +432,11 @@ def plot_daily_stats(df: 'pd.DataFrame',
         if last_day != df_row.reqDay:
             days.append(num_req)
             last_day = df_row.reqDay
-            if reset_stat_days > 0 and len(days) % reset_stat_days == 0:
+            if (
+                reset_stat_days > 0
+                and len(days) > 1
+                and (len(days) - 1) % reset_stat_days == 0
+            ):
                 resets.append(num_req)
                 stats.append(_files)
                 _files = {}
-- 
2.43.0


From 47b79a94037828344e5c16a0d58325ca671d1931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:24 +0000
Subject: [PATCH 62/77] fix: probe: a day without requests of the selection
 does not stop the analysis of the limits

---
 Probe/probe/plotter/stats.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Probe/probe/plotter/stats.py b/Probe/probe/plotter/stats.py
index 34a6697..0699132 100644
--- a/Probe/probe/plotter/stats.py
+++ b/Probe/probe/plotter/stats.py
@@ -67,6 +67,10 @@ def plot_global_upper_limits(df: 'pd.DataFrame',
         print(f"{STATUS_ARROW}[{num:03d}] Filter success jobs")
         cur_df = cur_df[cur_df.JobSuccess.astype(bool)]
 
+        if len(cur_df.index) == 0:
+            print(f"{STATUS_ARROW}[{num:03d}] No requests left")
+            continue
+
         print(f"{STATUS_ARROW}[{num:03d}] Calculate limits")
 
         sum_sizes = cur_df.Size.sum()
-- 
2.43.0


From 4914a4ab71f123630cefa063c48a9889868bc71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:37 +0000
Subject: [PATCH 63/77] fix: probe: requests of the same day keep their order
 when the data are sorted by date

---
 Probe/probe/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Probe/probe/utils.py b/Probe/probe/utils.py
index 366763b..e04c3f6 100644
--- a/Probe/probe/utils.py
+++ b/Probe/probe/utils.py
@@ -32,7 +32,7 @@ def sort_by_date(df: "pd.DataFrame", column_name: str = "reqDay") -> "pd.DataFra
     :return: the sorted dataframe
     :rtype: pandas.DataFrame
     """
-    df.sort_values(by=column_name, inplace=True)
+    df.sort_values(by=column_name, inplace=True, kind="mergesort")
     return df
 
 
-- 
2.43.0


From 71a66104dd8e92d2553f19ca3fc79d77e4de53a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:42 +0000
Subject: [PATCH 64/77] fix: agent put: stop when elements of a bulk request
 are refused

---
 DataManager/agent/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DataManager/agent/cli.py b/DataManager/agent/cli.py
index 7117891..0135623 100644
--- a/DataManager/agent/cli.py
+++ b/DataManager/agent/cli.py
@@ -72,7 +72,8 @@ def cli_main():
         def put_bucket(cur_dest, cur_bucket, prev_tot_elm_done):
             start = time()
             res = cur_dest.put(cur_bucket)
-            if res.status_code > 201:
+            # a bulk request is accepted also when some elements are refused
+            if res.status_code > 201 or res.json().get("errors", False):
                 print("[ERROR][STATUS CODE][{}]-> Problem with bulk insertion".format(
                     res.status_code)
                 )
-- 
2.43.0


From ccc554e41a1f71e38eafdd67a282983818d09373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:56 +0000
Subject: [PATCH 65/77] fix: aiNN cache: dump and load files and statistics as
 the other caches do

---
 SmartCache/sim/cache/aiNN.go | 58 ------------------------------------
 1 file changed, 58 deletions(-)

diff --git a/SmartCache/sim/cache/aiNN.go b/SmartCache/sim/cache/aiNN.go
index e8ad18b..cc5855f 100644
--- a/SmartCache/sim/cache/aiNN.go
+++ b/SmartCache/sim/cache/aiNN.go
@@ -2,13 +2,11 @@ package cache
 
 import (
 	"context"
-	"encoding/json"
 	"time"
 
 	"simulator/v2/cache/ai/featuremap"
 	"simulator/v2/cache/ai/neuralnet"
 	aiPb "simulator/v2/cache/aiService"
-	"simulator/v2/cache/files"
 	"simulator/v2/cache/queue"
 
 	"google.golang.org/grpc"
@@ -73,62 +71,6 @@ func (cache *AINN) Init(params InitParameters) interface{} {
 	return nil
 }
 
-// Dumps the AINN cache
-func (cache *AINN) Dumps(fileAndStats bool) [][]byte {
-	outData := make([][]byte, 0)
-	var newLine = []byte("\n")
-
-	if fileAndStats {
-		// ----- Files -----
-		cache.logger.Info("Dump cache files")
-		for file := range queue.Get(cache.files) {
-			dumpInfo, _ := json.Marshal(DumpInfo{Type: "FILES"})
-			dumpFile, _ := json.Marshal(file)
-			record, _ := json.Marshal(DumpRecord{
-				Info: string(dumpInfo),
-				Data: string(dumpFile),
-			})
-			record = append(record, newLine...)
-			outData = append(outData, record)
-		}
-		// ----- Stats -----
-		cache.logger.Info("Dump cache stats")
-		for _, stats := range cache.stats.Data {
-			dumpInfo, _ := json.Marshal(DumpInfo{Type: "STATS"})
-			dumpStats, _ := json.Marshal(stats)
-			record, _ := json.Marshal(DumpRecord{
-				Info: string(dumpInfo),
-				Data: string(dumpStats),
-			})
-			record = append(record, newLine...)
-			outData = append(outData, record)
-		}
-	}
-
-	return outData
-}
-
-// Loads the AINN cache
-func (cache *AINN) Loads(inputString [][]byte, _ ...interface{}) {
-	var curRecord DumpRecord
-	var curRecordInfo DumpInfo
-
-	for _, record := range inputString {
-		buffer := record[:len(record)-1]
-		json.Unmarshal(buffer, &curRecord)
-		json.Unmarshal([]byte(curRecord.Info), &curRecordInfo)
-		switch curRecordInfo.Type {
-		case "FILES":
-			var curFile files.Stats
-			json.Unmarshal([]byte(curRecord.Data), &curFile)
-			queue.Insert(cache.files, &curFile)
-			cache.size += curFile.Size
-		case "STATS":
-			json.Unmarshal([]byte(curRecord.Data), &cache.stats.Data)
-		}
-	}
-}
-
 // func (cache *AINN) getCategory(catKey string, value interface{}) []float64 {
 // 	var res []float64
 // 	curCategory := cache.aiFeatureMap[catKey]
-- 
2.43.0


From 68dc1273df23b75cc7f7cf68fa73f236c2f03cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:05 +0000
Subject: [PATCH 66/77] fix: simulator: paths of the dataset to test and of the
 model are relative to the configuration file, too

---
 SmartCache/sim/main.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/SmartCache/sim/main.go b/SmartCache/sim/main.go
index 833bb63..729374c 100644
--- a/SmartCache/sim/main.go
+++ b/SmartCache/sim/main.go
@@ -361,9 +361,21 @@ func simCommand() *cobra.Command { //nolint:ignore,funlen
 			logger.Info("CONF_VAR", zap.String("aiFeatureMap", aiFeatureMap))
 
 			dataset2TestPath = viper.GetString("sim.ai.dataset2TestPath")
+			if dataset2TestPath != "" {
+				dataset2TestPath, errAbs = filepath.Abs(dataset2TestPath)
+				if errAbs != nil {
+					panic(errAbs)
+				}
+			}
 			logger.Info("CONF_VAR", zap.String("dataset2TestPath", dataset2TestPath))
 
 			aiModel = viper.GetString("sim.ai.model")
+			if aiModel != "" {
+				aiModel, errAbs = filepath.Abs(aiModel)
+				if errAbs != nil {
+					panic(errAbs)
+				}
+			}
 			logger.Info("CONF_VAR", zap.String("aiModel", aiModel))
 
 			aiRLType = viper.GetString("sim.ai.rl.type")
-- 
2.43.0


From 5f4a1aa24435c8c952dfbd821327f5276a5a420a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:56 +0000
Subject: [PATCH 67/77] fix: evaluator: a FIFO cache removes a file only to
 insert another one

---
 SmartCache/ai/models/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SmartCache/ai/models/evaluator.py b/SmartCache/ai/models/evaluator.py
index a22f89c..dd3fc64 100644
--- a/SmartCache/ai/models/evaluator.py
+++ b/SmartCache/ai/models/evaluator.py
@@ -80,7 +80,7 @@ class FIFOCache(SimpleCache):
         self._max_size = max_size
 
     def update(self, file_, insert: bool = True):
-        if len(self._cache) == self._max_size:
+        if insert and len(self._cache) == self._max_size and not self.check(file_):
             self._cache.pop(0)
         return super(FIFOCache, self).update(file_, insert)
 
-- 
2.43.0


From bf1ec6746582a58f7a25f7e2e19eeefb034e2e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:56 +0000
Subject: [PATCH 68/77] fix: evaluator: an LRU cache removes the least recently
 used file

---
 SmartCache/ai/models/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SmartCache/ai/models/evaluator.py b/SmartCache/ai/models/evaluator.py
index dd3fc64..3d610eb 100644
--- a/SmartCache/ai/models/evaluator.py
+++ b/SmartCache/ai/models/evaluator.py
@@ -107,7 +107,7 @@ class LRUCache(SimpleCache):
         elif len(self._cache) == self._max_size:
             self._miss += 1
             if insert:
-                idx = np.argmin(self._counters)
+                idx = np.argmax(self._counters)
                 self._cache.pop(idx)
                 self._cache.insert(idx, file_)
                 self._counters[idx] = 0
-- 
2.43.0


From 8d139d85868aa5c3a3583a8b0d3cb15b81bdc9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:56 +0000
Subject: [PATCH 69/77] fix: evaluator: restore an LRU cache also from a state
 passed by position

---
 SmartCache/ai/models/evaluator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/SmartCache/ai/models/evaluator.py b/SmartCache/ai/models/evaluator.py
index 3d610eb..22b3e4e 100644
--- a/SmartCache/ai/models/evaluator.py
+++ b/SmartCache/ai/models/evaluator.py
@@ -92,9 +92,10 @@ class LRUCache(SimpleCache):
         self._max_size = max_size
         self._counters = np.zeros(self._max_size)
 
-        if 'init_state' in kwargs:
-            self._max_size = kwargs['init_state']['max_size']
-            self._counters = np.array(kwargs['init_state']['counters'])
+        init_state = kwargs.get('init_state', args[0] if args else None)
+        if init_state:
+            self._max_size = init_state['max_size']
+            self._counters = np.array(init_state['counters'])
 
     def update(self, file_, insert: bool = True):
         self._counters += 1
-- 
2.43.0


From f72c02da86a908f75f4b13b69aebb071bc89346f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:56 +0000
Subject: [PATCH 70/77] fix: evaluator: do not count the CPU time of a first
 request that is missed

---
 SmartCache/ai/models/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SmartCache/ai/models/evaluator.py b/SmartCache/ai/models/evaluator.py
index 22b3e4e..3dd13ca 100644
--- a/SmartCache/ai/models/evaluator.py
+++ b/SmartCache/ai/models/evaluator.py
@@ -167,7 +167,7 @@ class Evaluator(object):
     def add_wrap_cpu(self, cache: str, amount: float, hit: bool):
         cur_cache = self._wrap_cpu[cache]
         if len(cur_cache) == 0:
-            cur_cache.append(amount)
+            cur_cache.append(amount if hit else 0.)
         else:
             if hit:
                 cur_cache.append(amount + cur_cache[-1])
-- 
2.43.0


From 72defa7529a31cd5b45d60c319d13e9ab9e9eb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:29 +0000
Subject: [PATCH 71/77] fix: plot server: a crash while a table is saved does
 not lose the table

---
 scripts/DataAnalysis/plot_server.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scripts/DataAnalysis/plot_server.py b/scripts/DataAnalysis/plot_server.py
index a27f53a..fc8056d 100644
--- a/scripts/DataAnalysis/plot_server.py
+++ b/scripts/DataAnalysis/plot_server.py
@@ -716,15 +716,18 @@ def insert_line_in_table(table_name: str, cache_name: str,
 
 
 def save_table(table_name, table):
-    with open(os.path.join(
+    table_path = os.path.join(
         BASE_PATH,
         f"{table_name}.pickle"
-    ), 'wb') as table_file:
+    )
+    tmp_path = f"{table_path}.tmp"
+    with open(tmp_path, 'wb') as table_file:
         pickle.dump(
             table,
             table_file,
             pickle.HIGHEST_PROTOCOL
         )
+    os.replace(tmp_path, table_path)
 
 
 def load_table(table_name):
-- 
2.43.0


From 94a64e2d4b5505b5a852c7b9ba30360066ef3186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:29 +0000
Subject: [PATCH 72/77] fix: plot server: delete the data of all tables, also
 the stored one

---
 scripts/DataAnalysis/plot_server.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scripts/DataAnalysis/plot_server.py b/scripts/DataAnalysis/plot_server.py
index fc8056d..af14e38 100644
--- a/scripts/DataAnalysis/plot_server.py
+++ b/scripts/DataAnalysis/plot_server.py
@@ -645,10 +645,12 @@ def cache_info_plot(window: int):
 
 
 @app.route('/cache/plot', methods=['DELETE'])
-def delete_plots(window: int):
+def delete_plots():
     global TABLES, WINDOW_INFO, TABLE_COLORS
     TABLES = {
         'hit_rate': {},
+        'weighted_hit_rate': {},
+        'hit_over_miss': {},
         'size': {},
         'written_data': {},
         'read_on_hit': {},
@@ -657,6 +659,11 @@ def delete_plots(window: int):
     WINDOW_INFO = {}
 
     TABLE_COLORS = {}
+
+    for table_name, table in TABLES.items():
+        save_table(table_name, table)
+    save_table("cache_info", WINDOW_INFO)
+
     return f'Deleted all data'
 
 
-- 
2.43.0


From f2b920095fa81622a2209b63093a112a23a93d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:29 +0000
Subject: [PATCH 73/77] fix: plot server: compare a cache with the LRU cache
 that matches it, as far as both got

---
 scripts/DataAnalysis/plot_server.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/scripts/DataAnalysis/plot_server.py b/scripts/DataAnalysis/plot_server.py
index af14e38..66f27bc 100644
--- a/scripts/DataAnalysis/plot_server.py
+++ b/scripts/DataAnalysis/plot_server.py
@@ -384,6 +384,7 @@ def plot_line(table_name: str, filename: str, **kwargs):
                 continue
 
             if compare:
+                lru_values = None
                 if cache_name.lower().find('lru') != 0:
                     size = get_size_from_name(cache_name)
                     for cur_name in TABLES[cur_table_name]:
@@ -397,7 +398,7 @@ def plot_line(table_name: str, filename: str, **kwargs):
                                 for value in bucket
                             ]
                             break
-                else:
+                if lru_values is None:
                     continue
 
             if not v_lines:
@@ -419,9 +420,9 @@ def plot_line(table_name: str, filename: str, **kwargs):
 
             if compare:
                 points = [
-                    (point - lru_values[idx]) / lru_values[idx]
-                    if lru_values[idx] != 0. else 0.
-                    for idx, point in enumerate(points)
+                    (point - lru_value) / lru_value
+                    if lru_value != 0. else 0.
+                    for point, lru_value in zip(points, lru_values)
                 ]
 
             if cache_name not in TABLE_COLORS:
@@ -507,21 +508,24 @@ def plot_line(table_name: str, filename: str, **kwargs):
             elif table_name == 'diff_compare':
                 if cache_name.lower().find('lru') > 0:
                     size = get_size_from_name(cache_name)
+                    lru_values = None
                     for cur_name in data:
                         cur_size = get_size_from_name(cur_name)
                         if cur_size == size and cur_name.lower().find('lru') == 0:
                             lru_values = data[cur_name]
                             break
+                    if lru_values is None:
+                        continue
 
+                    diffs = [
+                        value - lru_value
+                        for value, lru_value in zip(
+                            values['diff'], lru_values['diff']
+                        )
+                    ]
                     plot_figure.line(
-                        range(len(values['diff'])),
-                        [
-                            value -
-                            lru_values['diff'][idx]
-                            for idx, value in enumerate(
-                                values['diff']
-                            )
-                        ],
+                        range(len(diffs)),
+                        diffs,
                         legend=cache_name,
                         color=TABLE_COLORS[cache_name],
                         line_width=2.
-- 
2.43.0


From 8af46ae3c3afb4bbfe0ef8ed34bdc153ddf72b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:29 +0000
Subject: [PATCH 74/77] fix: plot server: count the files of the last bin of
 sizes

---
 scripts/DataAnalysis/plot_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/DataAnalysis/plot_server.py b/scripts/DataAnalysis/plot_server.py
index 66f27bc..5f0c3a2 100644
--- a/scripts/DataAnalysis/plot_server.py
+++ b/scripts/DataAnalysis/plot_server.py
@@ -50,7 +50,7 @@ def fill_hit_miss_bins(n_bins: int, edges: list, values: list) -> tuple:
     tot_miss = sum(n_miss for _, _, n_miss in values)
 
     for value, n_hit, n_miss in values:
-        for idx in range(n_bins - 1):
+        for idx in range(n_bins):
             lower = edges[idx]
             higher = edges[idx+1]
             if value >= lower and value <= higher:
-- 
2.43.0


From 7d32bd64c7b4fd03ea1c48c8cd2e0d74b043bc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:29 +0000
Subject: [PATCH 75/77] fix: plot server: show the info of windows without hits
 or misses

---
 scripts/DataAnalysis/plot_server.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scripts/DataAnalysis/plot_server.py b/scripts/DataAnalysis/plot_server.py
index 5f0c3a2..ad40185 100644
--- a/scripts/DataAnalysis/plot_server.py
+++ b/scripts/DataAnalysis/plot_server.py
@@ -58,8 +58,12 @@ def fill_hit_miss_bins(n_bins: int, edges: list, values: list) -> tuple:
                 hist_miss_bin[idx] += n_miss
                 break
 
-    hist_hit_bin = [value / tot_hits for value in hist_hit_bin]
-    hist_miss_bin = [value / tot_miss for value in hist_miss_bin]
+    hist_hit_bin = [
+        value / tot_hits if tot_hits != 0 else 0. for value in hist_hit_bin
+    ]
+    hist_miss_bin = [
+        value / tot_miss if tot_miss != 0 else 0. for value in hist_miss_bin
+    ]
 
     return hist_hit_bin, hist_miss_bin
 
-- 
2.43.0


From 883db6397f3cc1f3a8c957fe22bf209fc0ccf572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:58 +0000
Subject: [PATCH 76/77] fix: statistics: do not fail with Redis on files that
 are not in the size databases

---
 scripts/DataAnalysis/statistics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/DataAnalysis/statistics.py b/scripts/DataAnalysis/statistics.py
index 7e5a9c4..ad0c609 100644
--- a/scripts/DataAnalysis/statistics.py
+++ b/scripts/DataAnalysis/statistics.py
@@ -341,12 +341,14 @@ class Statistics(object):
             # Update using Redis cache
             elif self.__redis:
                 pbar.desc = "Inject file sizes [WAITING]"
-                # Check if all sets are already in cache
+                # Check if all sets are already in cache (nobody adds the
+                # sets without status, they are not in the databases)
                 if set_to_add:
                     set_cache = self.__redis.mget(set_to_add)
                     while not all(
                         [
-                            set_status.decode("ascii") == "ADDED"
+                            set_status is None
+                            or set_status.decode("ascii") == "ADDED"
                             for set_status in set_cache
                         ]
                     ):
-- 
2.43.0


From f3bc8c9bc8dd4b2340ad9efa7a6ead9f2a039483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:35 +0000
Subject: [PATCH 77/77] fix: statistics: do not mix up the status of a set and
 the size of a file with the same name in Redis

---
 scripts/DataAnalysis/statistics.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/scripts/DataAnalysis/statistics.py b/scripts/DataAnalysis/statistics.py
index ad0c609..76b22da 100644
--- a/scripts/DataAnalysis/statistics.py
+++ b/scripts/DataAnalysis/statistics.py
@@ -261,8 +261,8 @@ class Statistics(object):
                     ]
                     # print(f"{self.__bar_position} -> {sets}")
                     for cur_set in sets:
-                        if not self.__redis.exists(cur_set):
-                            self.__redis.set(cur_set, "PENDING")
+                        if not self.__redis.exists(f"set:{cur_set}"):
+                            self.__redis.set(f"set:{cur_set}", "PENDING")
                             # print(f"{self.__bar_position} -> ADD IN PENDING {cur_set}")
                         else:
                             sets.remove(cur_set)
@@ -314,7 +314,7 @@ class Statistics(object):
                             result = op.fetchmany(step)
 
                         for cur_set in sets:
-                            self.__redis.set(cur_set, "ADDED")
+                            self.__redis.set(f"set:{cur_set}", "ADDED")
                             self.__tmp_cache_set_added |= set((cur_set,))
                             # print(f"{self.__bar_position} -> ADDED {cur_set}")
 
@@ -344,7 +344,8 @@ class Statistics(object):
                 # Check if all sets are already in cache (nobody adds the
                 # sets without status, they are not in the databases)
                 if set_to_add:
-                    set_cache = self.__redis.mget(set_to_add)
+                    set_keys = [f"set:{cur_set}" for cur_set in set_to_add]
+                    set_cache = self.__redis.mget(set_keys)
                     while not all(
                         [
                             set_status is None
@@ -352,7 +353,7 @@ class Statistics(object):
                             for set_status in set_cache
                         ]
                     ):
-                        set_cache = self.__redis.mget(set_to_add)
+                        set_cache = self.__redis.mget(set_keys)
                         pbar.desc = "Inject file sizes [WAITING]"
                 # Add file sizes
                 pbar.desc = "Inject file sizes"
-- 
2.43.0

