# The properties and how they are claimed.  gen.py turns this into
# properties.jsonl and MANIFEST.json.
S = "SmartCache/sim/cache/"
Q = S + "queue/"

HIST = "Every sequence of requests and maintenance operations, over every assignment of file sizes; the checks cover all of them up to the stated depth, number of files and set of sizes."
SMALL = "Exhaustive within bounds (histories of 5..10 operations over 4..6 files plus scaffolds of 20..1100 files, and files of extreme sizes and names); trusts the Go toolchain and the reference model in mc/refcache.go, which shares no code with the cache. "


def P(id, title, statement, over, quant, why, files, mech, note=SMALL, **kw):
    d = dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note)
    d.update(kw)
    return d


NOTES = ("Every check is bounded exhaustive exploration of the real code built from /repo's working tree; see DESIGN.md. "
         "No hooks are needed in /repo: the checker is compiled into the simulator's module through a go build overlay.")

PROPS = [
P("C01", "A bounded cache never holds more data than its size",
  "At every moment the sum of the sizes of the files stored in a bounded cache, and the occupancy it reports, lie between zero and the configured cache size. This holds for every eviction policy, with or without watermarks, whatever sizes files are requested with (also when the same file is requested again with another size), and the cache size itself never changes.",
  ["histories", "inputs", "configurations"], HIST,
  "The simpleCache and weightFun tests drive one or two fixed request sequences with equal sizes and check the occupancy once or twice (and most of them do not pass at this commit).",
  [S + "simpleCache.go", S + "randomCache.go", S + "weightFun.go", Q + "lru.go", Q + "lfu.go", Q + "genericF.go"],
  [("room is made before a file is stored, and a file is stored only if it fits", "SimpleCache.UpdatePolicy / RandomCache.UpdatePolicy / WeightFun.UpdatePolicy"), ("eviction by amount", "SimpleCache.Free / GetWorstFilesUp2Size")]),
P("C02", "Reported occupancy, capacity and counters match the stored files",
  "The reported occupancy is the sum of the sizes of the files in the cache, the reported capacity is that sum in percent of the cache size, and no file is stored twice. Since the last statistics reset, written minus deleted data equals the change of the occupancy and files added minus files deleted equals the change of the number of stored files.",
  ["histories", "inputs", "configurations"], HIST,
  "Tests compare the occupancy after a handful of fixed requests; they never change file sizes, mix in resets or free explicitly.",
  [S + "simpleCache.go", S + "weightFun.go", S + "randomCache.go"],
  [("incremental size and counters", "SimpleCache.UpdatePolicy, SimpleCache.Free, SimpleCache.AfterRequest")]),
P("C03", "A request is a hit exactly when the file is in the cache",
  "A request counts as a hit if and only if the file was stored when it arrived, and asking whether a file is stored answers according to the actual contents. A request brings nothing into the cache but, possibly, the requested file, which is then stored if and only if the request was reported as added; a hit is never reported as added.",
  ["histories", "inputs", "configurations"], HIST,
  "Tests check the hit rate of fixed sequences; none compares hits with the contents over arbitrary histories with evictions, day changes, redirections and cold starts.",
  [S + "simpleCache.go", S + "base.go", S + "randomCache.go", S + "weightFun.go"],
  [("lookup, admission and accounting", "GetFile, SimpleCache.Check, UpdatePolicy, AfterRequest")]),
P("C04", "LRU evicts in order of last request",
  "In an LRU cache the files evicted are always those whose last request is the oldest, in that order, and the listing of the contents follows the same order. Re-requests, evictions, watermark cleanings, explicit frees, day changes, purges of old statistics and cold starts all preserve it.",
  ["histories", "inputs"], HIST,
  "The queue tests use one fixed or one random interleaving over the bare queue and compare a few fields; the order after arbitrary histories of the whole cache is never examined.",
  [Q + "lru.go", S + "simpleCache.go"], [("ordered queue with lazy index", "LRU.insert/update/remove")]),
P("C05", "LFU evicts the least requested files, the oldest among equals",
  "In an LFU cache the files evicted are those with the fewest requests so far (counting the requests made before an eviction), and among equally requested files the one whose last request is the oldest. The listing of the contents follows the same order, whatever the history of requests, evictions, day changes, frees, purges and cold starts.",
  ["histories", "inputs"], HIST,
  "Queue tests use a single fixed and a single random interleaving; ties and frequencies carried over evictions are not sampled.",
  [Q + "lfu.go", S + "simpleCache.go"], [("frequency buckets", "LFU.insert/update/remove")]),
P("C06", "Size policies evict by size, the oldest among equals",
  "The size-small policy evicts the smallest files first and the size-big policy the biggest first; among files of equal size the one whose last request is the oldest goes first. The listing of the contents follows the same order, whatever the history of requests, evictions, day changes, frees, purges and cold starts.",
  ["histories", "inputs"], HIST,
  "Queue tests use a single fixed interleaving with few distinct sizes; ties and repeated buckets are not sampled.",
  [Q + "genericF.go", S + "simpleCache.go"], [("size buckets", "SizeSmall/SizeBig insert/update/remove")]),
P("C07", "A miss that fits is admitted and evicts no more than needed",
  "A file that fits in the cache is always admitted on a miss by the LRU, LFU and size policies, and a file larger than the whole cache is never admitted by any policy. An admission evicts nothing when the file fits in the free space, and otherwise evicts, in the order of the policy, only as many files as are needed for the evicted data to reach the size of the admitted file.",
  ["histories", "inputs"], HIST,
  "Tests admit files of equal sizes only; eviction of several files, exact fits and oversized files do not occur.",
  [S + "simpleCache.go", S + "randomCache.go", S + "weightFun.go"], [("admission and Free(amount)", "UpdatePolicy, SimpleCache.Free, GetWorstFilesUp2Size")]),
P("C08", "The eviction queues are exact ordered containers",
  "Whatever sequence of insertions, updates, removals and worst-file removals is applied to any of the queues (LRU, LFU, size-small, size-big, weighted), membership, length, lookup, the worst-first and best-first listings and the shortest list of worst files reaching a given size are exactly those of a list sorted by the queue's criterion. Files of equal rank stay in the order of their last insertion or update.",
  ["histories", "inputs"], "Every sequence of queue operations up to the stated depth over a small set of files and of key changes, and every single operation on queues of 18-22 files (beyond the initial allocation of the index).",
  "The base/LRU/LFU/genericF tests run one fixed and one random interleaving each and never list the queue by size, remove ranges, or use the weighted queue.",
  [Q + "base.go", Q + "lru.go", Q + "lfu.go", Q + "genericF.go"], [("queue interface and its implementations", "queue/*.go")]),
P("C09", "Request statistics equal a recount of the requests",
  "Since the last reset the numbers of requests, hits, added and deleted files, the data read (split in hit and miss), written and deleted, the hit rate and weighted hit rate, the bandwidth usage and the mean and standard deviation of the free space are those obtained by recounting the served requests. Redirected requests appear in none of them.",
  ["histories", "inputs", "configurations"], HIST,
  "Only the hit rate of two fixed sequences is tested.",
  [S + "simpleCache.go", S + "weightFun.go"], [("incremental statistics", "SimpleCache.AfterRequest, HitRate, WeightedHitRate, AvgFreeSpace, StdDevFreeSpace, BandwidthUsage")]),
P("C10", "CPU efficiency figures equal a recount by protocol and outcome",
  "The reported CPU efficiency, hit and miss efficiency and their upper and lower bounds are the averages obtained by recounting the served requests: local-protocol efficiencies make the upper bound, remote ones the lower bound, requests of other protocols or with zero efficiency add nothing, and a remote hit is credited the region's fixed gain or, without a region, the current distance of the bounds when positive.",
  ["histories", "inputs", "configurations"], "Every sequence of up to 5-6 requests over all combinations of file, protocol (local, remote, other) and efficiency (zero and non-zero), for the four region settings, with and without redirection.",
  "No test passes CPU efficiencies at all.",
  [S + "simpleCache.go"], [("accumulators and bound difference", "SimpleCache.AfterRequest, CPUEff*")]),
P("C11", "Requests are redirected exactly on misses at bandwidth saturation",
  "With redirection enabled a request is redirected if and only if the file is not stored and the data read on misses since the last reset has reached 95 percent of the bandwidth; with redirection disabled never. A redirected request is counted, with its size, in the redirection figures and leaves every other statistic, the contents, their eviction order and the statistics of the file untouched.",
  ["histories", "inputs", "configurations"], HIST,
  "No test enables redirection.",
  [S + "base.go", S + "simpleCache.go", S + "randomCache.go"], [("bandwidth threshold before a request is served", "SimpleCache.CheckRedirect, GetFile, Redirect")]),
P("C12", "Watermarks trim the cache from the high mark down to the low mark",
  "With watermarks enabled, after every served request that leaves the occupancy at or above the high watermark, files are evicted in the order of the policy until at least the distance to the low watermark has been freed and no further; below the high watermark nothing is evicted beyond the needs of admission. Without watermarks the marks have no effect.",
  ["histories", "inputs", "configurations"], HIST + " Six pairs of watermarks, including equal marks and a zero low mark.",
  "No test enables the watermarks.",
  [S + "simpleCache.go"], [("watermark check after each request", "SimpleCache.CheckWatermark, Free(percent)")]),
P("C13", "The daily statistics reset changes only the statistics",
  "Resetting the daily statistics at any point of a history leaves the stored files, their order of eviction, the statistics of every file and the outcome of every later request (apart from redirection, whose bandwidth is daily) exactly as without the reset. The figures reported afterwards are those of a recount from the reset on.",
  ["histories", "inputs"], "Every history of requests up to the stated depth and every set of reset points in it, for every cache type, compared with the same history without resets.",
  "ClearStats is never called by a test between requests.",
  [S + "simpleCache.go", S + "weightFun.go", S + "aiRL.go", S + "infiniteCache.go"], [("daily reset", "ClearStats of every cache type")]),
P("C14", "Misses on just-evicted files are counted once each",
  "The figure of misses after delete counts each request for a file that the latest cleaning of the cache had evicted and that has not been stored again since, plus those counted in the same way for earlier cleanings. Reading the figure resets it, and a request for any other file never changes it.",
  ["histories", "inputs", "configurations"], HIST,
  "No test reads this figure.",
  [S + "simpleCache.go", S + "files/stats.go"], [("last deleted files and their misses", "Manager.AddDeletedFileMiss / deletedFileMissUpdate, SimpleCache.Check")]),
P("C15", "Per-file statistics recount the requests of the file",
  "Every served request is reflected in the statistics of its file: the number of requests, hits and misses, the size (the one it is stored with, while it is stored), the instants of the first and last request and of the last 32 requests, the position of its last request in the history and the distance from the previous one. The daily reset does not alter them.",
  ["histories", "inputs"], HIST + " Includes more than 32 requests to one file.",
  "TestCreateStats only adds one file; no update is ever tested.",
  [S + "files/stats.go", S + "simpleCache.go"], [("per-file record", "Manager.GetOrCreate, Stats.UpdateStats")]),
P("C16", "Old statistics are purged, those of stored files never",
  "Whenever the configured number of days has passed since the first request or the latest purge, the statistics of the files which are not stored and have not been requested for the configured number of days are dropped, and only those. Stored files never lose their statistics, and a purge changes neither the contents nor their order.",
  ["histories", "configurations"], HIST + " Five pairs of purge parameters, time steps of half a day, a day and backwards.",
  "No test lets the trace clock advance.",
  [S + "files/stats.go", S + "simpleCache.go"], [("periodic purge", "Manager.Clear/ Purge logic called in AfterRequest")]),
P("C17", "The weight policy admits files that weigh no more than the mean",
  "Under the weight-function policy a missed file is admitted if and only if its weight, computed from its number of requests, size and mean request times by the configured function, does not exceed the mean weight of all tracked files; the reported mean weight is that mean. Purges, daily resets and cold starts keep the mean consistent with the tracked files.",
  ["histories", "inputs", "configurations"], HIST + " Seven combinations of weight function and parameters.",
  "The weightFun test runs one sequence with one function and does not look at the weights.",
  [S + "weightFun.go", S + "functions/functions.go", S + "files/stats.go"], [("incremental weight sum", "Manager.UpdateWeight, WeightFun.UpdatePolicy")]),
P("C18", "Random policies follow their seed and nothing else",
  "Two random-policy caches with the same seed given the same requests behave identically, and whether the k-th admission draw stores the file depends only on the seed and k, not on the file, its size, the contents or the time; other seeds decide otherwise. Hits draw nothing, and apart from the draw the cache behaves like its deterministic counterpart.",
  ["histories", "inputs", "configurations"], "Every history of up to 6-8 requests over files of several sizes, daily resets and clock changes, for several seeds; the k-th decision is compared with that of the canonical history. Every pair out of 13 seeds.",
  "No test covers the random caches.",
  [S + "randomCache.go", S + "base.go"], [("seeded generator", "RandomCache.Init/UpdatePolicy")]),
P("C19", "The dataset verifier stores exactly the files of its dataset",
  "The dataset-verifier cache admits on a miss exactly the files listed in its dataset that fit, and behaves otherwise like an LRU cache. Files out of the dataset are never stored.",
  ["histories", "inputs", "configurations"], "Every history up to the stated depth over files inside and outside of the dataset, for every subset of a small set of files as dataset.",
  "No test covers this cache.",
  [S + "lruDatasetVerifier.go"], [("dataset membership test before admission", "LRUDatasetVerifier.UpdatePolicy")]),
P("C20", "The infinite cache stores everything and never evicts",
  "The infinite cache misses exactly on the first request of each file, stores every file it has been asked for, never deletes any, and its size grows by exactly the size of every file admitted. Hits, misses, read and written data are those of a recount.",
  ["histories", "inputs"], HIST,
  "No test covers this cache.",
  [S + "infiniteCache.go", Q + "none.go"], [("growing size", "InfiniteCache.UpdatePolicy / BeforeRequest")]),
P("C21", "A cache restored from a dump continues like the original",
  "For every reachable state of a cache, dumping it to a file (or to records) and loading the dump into a newly created cache of the same configuration yields the same contents, occupancy, eviction order and file statistics, and every later sequence of requests has the same outcome and statistics as on the original starting a new day (only the schedule of the purge of old statistics starts anew). Taking a dump does not disturb the cache.",
  ["histories", "inputs", "configurations"], "Every history up to the stated depth before the dump and every continuation after it, for every cache type and weight function, through the file and the in-memory path, including repeated dump/load cycles.",
  "No test dumps or loads a cache.",
  [S + "simpleCache.go", S + "weightFun.go", S + "aiRL.go", S + "files/stats.go"], [("dump records", "Dumps/Dump/Load/Loads")]),
P("C22", "A damaged dump is never loaded as if it were whole",
  "Loading a dump file that was cut at any byte or had a byte damaged either fails visibly or restores exactly the state that was dumped. It never silently yields a cache with missing, extra or altered files.",
  ["crash_points", "fault_sequences"], "Every truncation point of the dump file and every single-byte damage out of a set of patterns at every position, for dumps of several states of several cache types, an RL cache and its agents among them.",
  "No test loads a dump, let alone a damaged one.",
  [S + "simpleCache.go", S + "base.go"], [("gzip integrity and record decoding", "Load/Loads")]),
P("C23", "Clearing a cache makes it indistinguishable from a new one",
  "After a clear of a bounded, deterministic cache at any point of a history, every later history has the same outcomes, statistics, contents and order as on a newly created cache of the same configuration. A cold start drops the stored files and their occupancy while the per-file request counts are kept.",
  ["histories", "inputs", "configurations"], "Every pair of a history before and a history after the clear up to the stated depths, for every cache type.",
  "Clear is called by no test after requests were served and followed by others.",
  [S + "simpleCache.go", S + "weightFun.go", S + "randomCache.go", S + "infiniteCache.go", S + "aiRL.go", S + "files/stats.go"], [("clear", "Clear, ClearFiles, Manager.Clear, Manager.Init")]),
]
PROPS += [
P("C24", "A simulation serves exactly the selected records of its trace",
  "A simulation serves, in the order of the trace, exactly the records of successful jobs that pass the configured filters and have a valid CPU efficiency, with the size, efficiency, protocol and instant of the record; every other record is counted once, as filtered or as invalid. The result file has one row per completed day holding the figures of that day, and the final statistics and contents are those of a cache that was asked for the selected records directly.",
  ["inputs", "histories", "configurations"], "Every trace of up to 5 records out of 20 kinds (job outcome, data and file types, sites, CPU and I/O times of every sign), several files, clock steps around the 23-hour day boundary (also backwards) and seven combinations of filters, for ten cache types and settings and four RL caches.",
  "No test runs a simulation.",
  [S + "simulation.go", S + "base.go"], [("record loop: filters, efficiency, daily row", "Simulate, *Filter.Check, SuccessJob.Check, GetFile")],
  "Exhaustive within bounds; the expected rows come from a second cache of the same type driven directly (the cache itself is decided by the other checks)."),
P("C25", "Simulation windows cut the trace by days and nothing is lost",
  "With windows of n days, the records before the start window are only counted as jumped, the records from the start window up to (and excluding) the stop window are simulated, and the simulation ends at the first record of the stop window. Rows are written exactly for the completed days of the simulated windows.",
  ["inputs", "histories", "configurations"], "Every combination of window size 1..3, start 0..3 and stop none or 1..4 with every trace of up to 8-11 records with every pattern of day changes, gaps and record kinds.",
  "No test runs a simulation.",
  [S + "simulation.go"], [("window counters", "Simulate")],
  "Exhaustive within bounds over the real Simulate, one execution per configuration and trace."),
P("C26", "Every record of a trace is read once, in order, with its fields",
  "Reading a trace yields exactly its records in order, each with the values of its own columns, whatever the order of the columns in the header, the compression, the number of records and the pace of the consumer. A folder yields the records of its csv and gz files in the order of their names and ignores other files.",
  ["inputs", "schedules", "configurations"], "Every transposition, rotation and single move of the columns, an unknown column at every place, every extreme value in every column, lengths around the reader's buffer with several consumer paces, and every subset of eight file names in a folder.",
  "No test reads a trace.",
  [S + "simulation.go"], [("column map and record goroutine", "getHeaderIndexes, recordGenerator, OpenSimFile, OpenSimFolder")],
  "Exhaustive over the stated layouts, values and lengths on the real reader; the goroutine schedules are explored by consumer pace only."),
P("C27", "The event log tells everything that happened, in order",
  "After the cache is terminated its event log holds exactly one line per event in the order of the events: hits and misses, admissions, evictions with the cleaning that caused them, and redirections, each with the instant, the occupancy at that moment and the figures of the file. This holds whatever the pace of the log writer, also when the buffer between them is full.",
  ["histories", "schedules", "inputs"], "Every history up to the stated depth for the LRU, LFU, size and random policies with frees, resets, watermarks and redirection, and every placement of scheduling points with every number of pending lines around the capacity of the buffer.",
  "No test enables the log.",
  [S + "simpleCache.go", S + "randomCache.go", S + "simulation.go"], [("bounded channel and writer goroutine", "Init (log goroutine), toLogBuffer, flushAndCloseLog, Terminate, OutputCSV")],
  "Exhaustive within bounds; the writer is scheduled at the enumerated points with one processor. The weight-function and dataset policies, which do not log admissions, are not claimed."),
P("C28", "A simulation resumed from a dump continues the previous one",
  "Simulating a trace, dumping the cache and simulating a second trace from the dump gives the same rows, statistics and contents for the second trace as one cache going through both. With a cold start the second trace starts from an empty cache (keeping or dropping the file statistics as configured), and the results of earlier runs are kept under run numbers, wherever the dump comes from. What the agents of a reinforcement learning cache learned is kept too, while their exploration starts anew as configured.",
  ["histories", "configurations", "inputs"], "Every pair of traces of up to 2-3 records each and every chain of three traces, with each of the four start modes at every resumption, for ten cache types and settings and for caches with one or two agents; every sequence of four runs with dumps and results in several folders.",
  "No test runs a simulation or loads a dump.",
  [S + "simulation.go", S + "simpleCache.go", S + "weightFun.go"], [("dump at the end, load and cold start at the beginning", "Simulate, Dump, Load, Loads, Clear, ClearFiles, GetSimulationRunNum")],
  "Exhaustive within bounds over the real Simulate run two or three times."),
]
PROPS += [
P("C29", "Every feature value falls in the bucket its bounds describe",
  "A numeric feature value belongs to the first bucket whose bound is not below it, or to the open last bucket if there is one; a text or flag belongs to the bucket that equals it. The listing, the printing and the number of buckets follow the same order, and a feature map keeps every feature and its file features, also through compression and through a dump.",
  ["inputs", "configurations"], "Every feature map of up to 2-3 features out of 16 kinds, in three file formats, directly and through a dump, with every value at, just below and just above every bound and the extreme ones.",
  "The tests parse one feature map and check a few values.",
  [S + "ai/featuremap/featuremap.go"], [("bucket lookup", "Obj.Index / Value / Size / ToString, Parse, UnmarshalJSON")],
  "Exhaustive within bounds on the real code; the bucket lookup of the oracle is a linear search over the declared bounds."),
P("C30", "The value table has one state for every combination of buckets",
  "The table of an agent has exactly one state, with a value of zero for every action, for every combination of buckets of its features. Each combination is found under its own number, the state under that number describes the same combination, and values are mapped to the combination of their buckets.",
  ["inputs", "configurations"], "Every feature map of up to 3-4 features of 1..4 buckets out of five kinds, for both agents, and every combination of buckets.",
  "The tests build one table and look at its size.",
  [S + "ai/qlearn/qlearn.go"], [("mixed-radix numbering of states", "QTable.Init, FeatureIdxs2StateIdx, Features2Idxs")],
  "Exhaustive within bounds on the real code, against an enumeration by counting."),
P("C31", "Learning follows the Q-learning rule and its decay schedule",
  "An update moves exactly the value of the chosen action in the chosen state by the Q-learning rule with the configured rate and discount, and every other value stays. Best actions and values, the accumulated value function, the coverage and the decay of the exploration rate follow from the updates made, across resets and dumps.",
  ["histories", "inputs", "configurations"], "Every sequence of up to 2-4 updates over all states, next states, actions and several rewards, mixed with decays, resets and dumps, over tables of 2..4 states.",
  "The tests check no sequence of updates against the rule.",
  [S + "ai/qlearn/qlearn.go"], [("update rule and epsilon decay", "Agent.UpdateTable, UpdateEpsilon, GetBestAction, GetCoverage, ResetParams")],
  "Exhaustive within bounds on the real code; the oracle recomputes the textbook rule in floating point with a tolerance."),
P("C32", "Exploration happens with probability epsilon and is uniform",
  "An agent takes its best action unless the number drawn for the decision is below its exploration rate. Below it every action of the agent is taken for the same share of the random numbers drawn next.",
  ["inputs", "configurations"], "Every pair of draws out of a grid, eleven exploration rates and every best action, for the admission and the eviction agent inside the cache.",
  "No test looks at the distribution of the choices.",
  [S + "aiRL.go", S + "ai/qlearn/qlearn.go"], [("epsilon-greedy choice", "AIRL.UpdatePolicy, callEvictionAgent, Agent.GetRandomFloat, QTable.GetRandomAction")],
  "The random numbers are enumerated through the source of the generator instead of sampled; boundaries between two cells of the grid are not decided."),
P("C33", "The RL cache files every stored file under its own category",
  "The categories the eviction agent looks at partition the stored files: every stored file is in exactly one category, the one its current features fall in, with its current size, frequency and last request, and nothing else is in any. This holds after every request, eviction, decision, day change, cold start and load.",
  ["histories", "inputs", "configurations"], HIST,
  "No test looks at the categories after evictions.",
  [S + "aiRLCatStateManager.go", S + "aiRL.go"], [("category manager kept along with the queue", "CategoryManager.AddOrUpdateCategoryFile, deleteFileFromCategory, AIRL.UpdatePolicy, callEvictionAgent, initCategories")],
  "Exhaustive within bounds with the decisions of the eviction agent enumerated; categories are matched by what they contain, not by their number."),
P("C34", "An agent remembers its choices per key, the last 32 in order",
  "Recalling a key yields exactly the choices saved for it and not recalled or deleted since, in the order they were made, limited to the last 32, and forgets them. Keys do not disturb each other, and a reset forgets everything.",
  ["histories"], "Every sequence of up to 2-6 saves, recalls, deletions and resets over three keys, from memories of 0, 30, 32 and 64 saves.",
  "No test exercises the memory around its limit.",
  [S + "ai/qlearn/qlearn.go"], [("bounded memory per key", "Agent.SaveMemory, Remember, DeleteMemory, ResetMemories")],
  "Exhaustive within bounds on the real code."),
P("C35", "The RL cache keeps capacity and accounts under any decision",
  "Whatever its agents decide at whatever moment, the RL cache never exceeds its size, a request is a hit exactly when the file is stored, occupancy and contents agree, and the daily figures are those of a recount. Files outside of what an eviction decision or the LRU fallback names are never lost.",
  ["histories", "inputs", "configurations"], HIST,
  "Tests run the agents on one or two fixed sequences of random decisions.",
  [S + "aiRL.go", S + "simpleCache.go"], [("eviction by decision with a fallback to LRU", "AIRL.UpdatePolicy, BeforeRequest, AfterRequest, callEvictionAgent, Free")],
  "Exhaustive within bounds; agent decisions are part of the enumeration (their tables are set before every request), so the result holds for any learning."),
P("C36", "Eviction decisions remove what they say, when they are due",
  "The eviction agent is consulted at the configured moments only: when an admission does not fit, after every so many requests, or at the end of the day. Each decision removes one file, a quarter, a half or all of its category, or nothing; what is still missing then falls to LRU order, and the counters of calls, forced calls and actions tell what happened.",
  ["histories", "inputs", "configurations"], HIST,
  "Tests run the agents on one or two fixed sequences of random decisions.",
  [S + "aiRL.go"], [("eviction moments and actions", "callEvictionAgent, BeforeRequest, AfterRequest, ClearStats, AIRL.Free")],
  "Exhaustive within bounds with enumerated decisions; which files of a category go first is claimed only where all of them go or the order is fixed by LRU."),
P("C37", "Admissions of the RL cache follow its agent, or LRU without one",
  "On a miss the admission agent decides whether the file is stored, in the state of the features of the request; an accepted file is stored if it fits after evictions and a refused one never is. Without agents the cache behaves exactly as LRU.",
  ["histories", "inputs", "configurations"], HIST,
  "Tests run the agents on one or two fixed sequences of random decisions.",
  [S + "aiRL.go"], [("admission choice", "AIRL.UpdatePolicy, getState4AdditionAgent")],
  "Exhaustive within bounds with enumerated decisions."),
P("C38", "The admission agent is rewarded once per choice, reproducibly",
  "A request for a file rewards exactly the admission choices made for that file since its previous request, each once, in the state and for the action it was made, in proportion to the size: a loss where the traffic missed or written that day speaks against the choice, otherwise a gain on a hit and a loss on a miss. Two caches of the same configuration and seed serve any history with the same decisions, tables and figures.",
  ["histories", "inputs", "configurations"], "Every history of up to 4-6 requests over 3 files with every decision for the rewards, and every such history with 8 seeds and several exploration rates for the reproducibility.",
  "No test checks a reward or compares two runs.",
  [S + "aiRL.go", S + "ai/qlearn/qlearn.go"], [("delayed reward and seeded generators", "delayedRewardAdditionAgent, Agent.Init")],
  "Exhaustive within bounds."),
]
PROPS += [
P("C39", "The prototype cache removes only the least valuable files it must",
  "The occupancy, capacity and points the prototype cache reports are those of the files in it, and never exceed its size. A new file that fits its size is stored after an insert, and an insert removes only files of the least value (size times requests), and no more of them than needed; a stored or oversized file changes nothing.",
  ["histories", "inputs"], "Every sequence of up to 5-6 statistics updates, inserts and removals over 4 files, for every assignment of sizes out of a set including ones bigger than the cache.",
  "The prototype has no tests.",
  ["qLearning_smartCache/cache/cache.go"], [("eviction by least value", "SimCache.Insert, GetMinValue, Remove, GetSize, GetCapacity, GetPoints")],
  "Exhaustive within bounds on the real code against a reference; which of several files of equal value goes first is left open."),
P("C40", "The prototype Q-table learns by its rule on the chosen action only",
  "Every combination of feature values the prototype table was made for has a state of its own, and a request is mapped to the state of its buckets. An update moves only the value of the chosen action of the given state, by the Q-learning rule, and the best action is one of the greatest value.",
  ["inputs", "histories", "configurations"], "Every table of up to 3 features with 1..3 buckets out of a set of kinds, every order of the actions, every value around every bound and every sequence of up to 3-4 updates.",
  "The prototype has no tests.",
  ["qLearning_smartCache/qtable/qtable.go"], [("state index and update rule", "QTable.Init, GenCurState, GetStateIdx, GetBestAction, Update")],
  "Exhaustive within bounds on the real code; the oracle recomputes the rule in floating point with a tolerance."),
P("C45", "A configuration file runs the simulation it describes",
  "Running the simulator program on a configuration file writes the results of a simulation with the settings of the file, the documented defaults for the others, and paths relative to the file. Simulations of different types, sizes, bandwidths or regions (of the weight function cache: of different functions or parameters) have results apart from each other, and existing results are kept unless overwriting is asked for. The configuration saved next to the results reproduces them.",
  ["configurations", "inputs"], "Every pair of values of some twenty settings for LRU, the weight functions and the RL cache, all types, sizes, units, regions and watermarks, dumps and the three start modes, with the results of the program compared with a simulation built by hand.",
  "No test runs the program; the tests build the caches in code.",
  ["SmartCache/sim/main.go", S + "simulation.go", S + "cache.go", S + "base.go"], [("settings, defaults and names of the results", "simCommand, configureViper, Create, Simulate")],
  "Exhaustive within bounds over runs of the real program; all pairs of settings rather than all combinations. The default of the last day and the type with random admission are not covered."),
]
PROPS += [
P("C41", "Data files give back the records written, in order, by any access",
  "A JSON data file (plain, gzip, bzip2 or a stream) holds exactly the valid records written to it, in the order they were written, also when it is closed and opened again to append. Iterating over it, its length, any index (negative ones count from the end), any slice and starting from a record give the records of those positions whatever was accessed before; what lies outside is an error. DataFile gives the same over every kind of source.",
  ["histories", "inputs"], "Every sequence of up to 2-4 appends or accesses over files of 0..5 records in every format, with every index and slice.",
  "The tests of the data files write six records and compare two of them (and did not pass at this commit).",
  ["DataManager/collector/datafile/json.py", "DataManager/collector/datafile/avro.py", "DataManager/collector/datafile/utils.py", "DataManager/collector/api.py"],
  [("lines of JSON with cached positions", "JSONDataFileWriter.append, JSONDataFileReader.__getitem__, start_from, __len__"), ("choice of the reader", "DataFile, get_or_create_descriptor")],
  "Exhaustive within bounds on the real code; files are also read and written by other means. The avro library is not installed and replaced by a stand-in."),
P("C42", "Converted rows list the values by name and number the features from 1",
  "The CSV row of a record lists the values of its fields in the order of their names, or of a sequence in its own order. The labelled row of the libSVM converter is the label followed by the other fields in the order of their names, numbered from 1; a record without the label, or what is no record, is refused, and records are never changed.",
  ["inputs", "histories"], "Every record of up to 3-5 fields out of 7 in every order of insertion, with several labels, and sequences of up to 3 values, two rows one after the other.",
  "Two tests convert one record each.",
  ["DataManager/agent/converter/csv.py", "DataManager/agent/converter/libSVM.py"], [("rows in order of the names", "CSVConverter.row, LibSVMConverter.labeled_row")],
  "Exhaustive within bounds on the real code."),
P("C43", "The Python LRU cache is an exact LRU cache within its size",
  "The Python cache never holds more than its size, evicts the files requested the longest ago and no more of them than needed, and does not store a file bigger than itself. A request is a hit exactly when the file is stored, and hit rate, occupancy, read, written and deleted data and the figures of each file are those of a recount.",
  ["histories", "inputs"], "Every sequence of up to 4-8 requests over 3..6 files with up to four sizes each, oversized and changing ones included.",
  "The Python cache has no tests.",
  ["SmartCache/pySim/cache.py"], [("LRU list and incremental size", "LRU.get, update_policy, after_request")],
  "Exhaustive within bounds on the real code against a reference."),
P("C44", "Names are hashed to the same digest by the simulator and the tools",
  "The digest of a name is its 64 bit BLAKE2b digest in hexadecimal in the simulator and in the Python tool alike. The number of a name is the digest modulo a power of ten (in the simulator truncated to 32 bits), for names of any length.",
  ["inputs"], "Every name of up to 4-6 characters out of 5, names of every length up to 400-1500 in several patterns, every ASCII character.",
  "One test hashes one name.",
  ["SmartCache/sim/cache/utils.go", "SmartCache/utils/hash_tool.py"], [("BLAKE2b of 8 bytes", "HashHexDigest, HashInt, hash_hexdigest, hash_int")],
  "Exhaustive over the stated inputs, against BLAKE2b written after its RFC in the checker."),
P("C46", "Uploads to the archive store every record once, failures are reported",
  "Uploading a file to the archive stores every record from the start index on, each once under an identifier given by its contents, with any size of buckets, and records uploaded again are not duplicated. When a request fails, or the archive refuses records of a bucket, the program stops with an error and everything before it is stored. Getting an index or slice prints the records at those positions.",
  ["histories", "inputs", "fault_sequences"], "Every upload of 0..6 records with every size of buckets from every start, with no request or any one of them failing or refusing any of its records, and repeated afterwards; every sequence of up to 3-4 direct puts.",
  "The agent has no tests of its uploads.",
  ["DataManager/agent/cli.py", "DataManager/agent/api.py"], [("buckets of the put command", "cli_main"), ("identifier by contents, bulk requests", "ElasticSearchHttp.put")],
  "Exhaustive within bounds on the real code against a model of the Elasticsearch interface."),
P("C47", "The HDFS client does what it is asked or raises an error",
  "Making, listing and deleting directories and reading and creating files through the client have the effect and give the result of the operation on the server, with the credentials, recursion, overwriting and chunk size asked for. An operation the server refuses or fails at any request raises an error.",
  ["histories", "inputs", "fault_sequences"], "Every sequence of up to 2-3 operations over three nested paths with their options, with no request or any one of them failing.",
  "The client has no tests.",
  ["DataManager/agent/api.py"], [("requests of the operations", "HTTPFS.mkdirs, liststatus, delete, open, create")],
  "Exhaustive within bounds on the real code against a model of the WebHDFS interface for the operations used."),
P("C48", "A dataset pipeline loses and repeats no record under any schedule",
  "A stage processes every batch it is given exactly once and its output has all results of its processes, whatever the number of processes and whenever they run, and it ends only after all of them. The raw, featured and record stages together turn the records of a window into one record per combination of features with the sums of its requests, classified by the mean score, independent of batches, sources and schedule.",
  ["schedules", "inputs", "configurations"], "Every schedule of up to 4 batches of up to 3 results on 1..3 processes, and every pipeline of up to 2-4 records out of 7 kinds with several batch sizes.",
  "The pipeline has no tests; schedules cannot be sampled reliably.",
  ["DataManager/collector/dataset/stage.py", "DataManager/collector/dataset/generator.py", "DataManager/collector/dataset/resource.py"], [("pool of processes filled batch by batch", "Stage.task, flush_queue"), ("merging of records", "CMSRecordTest0Stage.process / pre_output"), ("batches", "Pipeline.gen_batches, CMSRawStage.pre_input")],
  "Exhaustive within bounds on the real code with processes and queue replaced by ones scheduled by the checker; Spark and avro are stand-ins."),
P("C49", "Features, identifiers and support tables of records are consistent",
  "The features of a record are those of its file name and its identifier depends on the features only; sums add up requests and CPU time. A support table numbers the values of a feature in order, conversions (indexed, normalized, one hot) follow its latest indexes, and unknown values are unknown or an error. A window yields the days from its start in steps up to its size.",
  ["inputs", "histories"], "Every sequence of up to 4-5 steps on a support table, sums of up to 3-4 records, names of up to 7 parts and windows of up to 9 days.",
  "None of these modules has tests.",
  ["DataManager/collector/datafeatures/extractor.py", "DataManager/collector/datafeatures/utils.py", "DataManager/collector/dataset/utils.py"], [("identifier and features", "FeatureData, CMSDataPopularity, CMSRecordTest0, CMSDataPopularityRaw"), ("indexes and conversions", "SupportTable"), ("days of a window", "gen_window_dates")],
  "Exhaustive within bounds on the real code; values that differ in case only and values with several stored prefixes are left open."),
P("C50", "Category values get consecutive numbers of their own that never change",
  "Every value of a category has one number, given in the order of first appearance from zero, and keeps it through later files and saving and loading. Converting a file replaces every value by its number in its row and nothing else, queries give those numbers, and derived columns follow site and file names unless they are given.",
  ["histories", "inputs"], "Every sequence of up to 3-4 updates, savings and queries over 6 values, every pair of files of up to 4-5 rows, every subset of given columns.",
  "The probe has no tests.",
  ["Probe/probe/converter/utils.py", "Probe/probe/converter/extractor.py"], [("numbers by category", "CategoryContainer, convert_categories"), ("derived columns", "check_region_info, check_filename_info")],
  "Exhaustive within bounds on the real code with a stand-in of the data frames."),
P("C51", "A conversion stopped at any moment can be started again without harm",
  "The converter program, killed at any moment and started again, ends with the same converted files and numbers as without interruption: one complete file per trace, with the rows selected by region (and shuffled by seed), all using the numbers of one saved container. Repeating it, with new traces or not, converts only what is not converted yet, continues the numbering, and leaves traces and converted files alone.",
  ["crash_points", "histories", "configurations"], "Every point of the program between two changes of the file system and in the middle of every write, twice in a row, for every choice of two traces; every sequence of up to 4-5 new traces and conversions of the folder or a file for two regions.",
  "The probe has no tests, and interruptions cannot be sampled.",
  ["Probe/probe/converter/__main__.py", "Probe/probe/converter/utils.py", "Probe/probe/loaders.py"], [("skipping of converted files, saving of the container", "converter/__main__.py main"), ("writing of the converted file", "save_numeric_df"), ("traces of a folder", "gen_csv_data")],
  "Exhaustive within bounds on the real program with a stand-in of the data frames; writes reach the disk in order and renaming is atomic (a killed process, not a power failure).", tech="stateless model checking of the real code: every crash point and torn write of bounded runs, followed by recovery"),
P("C52", "Damaged input files are refused, never used in part",
  "A compressed trace (alone or in a folder), dataset list, feature map or neural network that was cut or damaged anywhere either gives exactly what the undamaged file gives or ends the program with a failure, and a trace made of several compressed parts is read to its end. A plain trace with a row that lacks fields, and a plain feature map or network that is cut, are refused as well.",
  ["crash_points", "inputs"], "Every truncation, every lost byte, every lost or zeroed block of 16 bytes, and every byte with each of a set of bit patterns flipped, of several files of each kind; every cut of the plain ones.",
  "No test reads a damaged file.",
  [S + "simulation.go", S + "lruDatasetVerifier.go", S + "ai/featuremap/featuremap.go", S + "ai/neuralnet/neuralnet.go"], [("reading of records up to the end of the stream", "recordGenerator, OpenSimFile, OpenSimFolder"), ("reading of compressed JSON", "LRUDatasetVerifier.Init, FeatureManager.Populate, LoadModel")],
  "Exhaustive within bounds; every reading runs in a process of its own, since refusing may end it. Damages that a checksum of 32 bits cannot see are outside.", tech="stateless model checking of the real code: every truncation and damage of the input files, each read by a process of its own"),
P("C53", "The neural network predicts what its layers compute",
  "A network loaded from a plain or compressed file predicts, for every input, the values obtained by multiplying by the weights of each layer, adding the biases and applying its activation function (sigmoid, hard sigmoid, softmax) layer after layer. Predicting changes nothing, and the chosen class is one with the greatest value.",
  ["inputs", "configurations"], "Every network of one to three layers of up to three neurons with up to 4-6 of its inputs, weights and biases chosen freely out of 3-5 values, with every activation function, with great and small sums and with layers of the same name.",
  "The package has no tests.",
  [S + "ai/neuralnet/neuralnet.go"], [("feed forward", "AIModel.Predict, softMax, sigmoid, hardSigmoid"), ("reading of the model", "LoadModel"), ("chosen class", "GetPredictionArgMax")],
  "Exhaustive within bounds; compared with a direct evaluation up to 1e-9. Softmax inside of the network and sums too big for exp are left open."),
P("C54", "The event log of the RL cache tells every decision, in order",
  "With the event log on, the reinforcement-learning cache writes a line for every request (hit or miss), for every consultation of the eviction agent (with its reason), for every file evicted or kept by it and for every file admitted or refused, in the order they happened. Every line carries the moment, the occupancy right after the event and the figures of the file.",
  ["histories", "inputs", "configurations"], HIST,
  "No test turns the event log of this cache on.",
  [S + "aiRL.go"], [("event log of the agents", "UpdatePolicy, AfterRequest, callEvictionAgent, ClearStats")],
  "Exhaustive within bounds with enumerated decisions; in which order the categories of one consultation come is left open."),
P("C55", "The SCDL2 agents learn from the outcome of their decisions",
  "Every request for a file rewards the remembered decisions about it that have a later one to lead to: a gain on a hit and a loss on a miss, larger when the opposite decision was the right one. An admission that needs evictions rewards the last decision of every state of the categories by whether the file got in, and when it came unplanned the decisions to keep compatible categories pay first, once. Every reward is one step of the learning rule from the state and action of the decision to the state it led to, and one step of the decay of the exploration; nothing else changes the tables.",
  ["histories", "inputs", "configurations"], "Every history of up to 5-7 operations (requests over 2-4 files, new days, cold starts) with every admission decision and every eviction decision out of none/one/all for every category, for both agents, alone and together, at the three moments of consultation.",
  "No test checks a reward.",
  [S + "aiRL.go", S + "ai/qlearn/qlearn.go", S + "aiRLCatStateManager.go"], [("rewards", "delayedRewardEvictionAgent, delayedRewardAdditionAgent, rewardEvictionAfterForcedCall, punishEvictionAgentOnForcedCall")],
  "Exhaustive within bounds with enumerated decisions, for eviction agents that know the size, the requests and the age of the categories."),
P("C56", "The reports on an event log count every eviction and what it cost",
  "The report on a simulation's event log has one entry per cleaning or consultation, also for those in a row or without deletions: its moment and reason, the occupancy, the number and size of the files deleted (not those kept), and the misses of these files before the next one. The frequencies reported are those at the deletion of the files missed again before others are deleted, and those of the files not admitted. The plots show these figures for every simulation with a log.",
  ["histories", "inputs"], "Every log of up to 4-7 lines over all reasons, deleting or keeping up to three files, with misses, hits, admissions, refusals and redirections; the plot program on three simulations, each absent, without or with one of two logs.",
  "The probe has no tests.",
  ["Probe/probe/results/utils.py", "Probe/probe/results/data.py", "Probe/probe/results/plotters.py", "Probe/probe/results/__main__.py"], [("reading of the log", "parse_sim_log, LogDeleteEvaluator"), ("plots", "plot_num_miss_after_del, plot_miss_freq, metric_corr")],
  "Exhaustive within bounds on the real program with stand-ins of the data frame and plotting libraries."),
P("C57", "The dashboard shows the figures of the selected simulations",
  "Every page of the dashboard shows exactly the chosen simulations that have all the parts asked for by one filter and any of those asked for by the other, limited to the best ones when a number is given, with the figures their results hold or the measures these define; the table is ranked as asked for and the downloads are the table shown. The comparison reports the evictions of the simulations with a log, and the details are those of the eviction asked for. What is shown depends on the current selection only, whatever was viewed before.",
  ["histories", "inputs", "configurations"], "Every page for every selection of three simulations with filters, limits and switches; every sequence of two (three for the table) views of up to 40 selections on one dashboard; every eviction of every simulation; folders with every subset of five kinds of simulation.",
  "The probe has no tests, and what is left over from an earlier view cannot be sampled.",
  ["Probe/probe/results/dashboard.py", "Probe/probe/results/data.py"], [("selection", "get_files2plot, Results.get_df, Element"), ("pages and what is kept of them", "switch_tab, compare_results, selection2hash, _CACHE"), ("table and measures", "make_table, get_measures, measure_*")],
  "Exhaustive within bounds on the real code with stand-ins of the data frame, plotting and page libraries; the callbacks are called as the page does."),
P("C58", "A dataset reader encodes every value at its place and splits without loss",
  "The reader of simulator datasets encodes each value of a mapped column as a vector with a single one at the position that the stored converter map gives its category, its bucket, an unknown value or a value beyond the last bucket, labels likewise, and leaves other columns as they are; a value of no category is refused. Data saved and loaded again are the same. The reader of records gives each record with its features and label encoded by the support table and, for every number of folds up to the number of records, validates each record in exactly one fold and trains on all others.",
  ["inputs", "configurations"], "Datasets of 2-3 rows with columns of four types, every converter map of one or two columns, every choice of data and label columns, values changed after the map was made; data files of 1-7 records with every number of folds and both encodings.",
  "The readers have no tests.",
  ["DataManager/collector/dataset/reader.py"], [("converter maps and encoding", "SimulatorDatasetReader.make_converter_map, make_data_and_labels"), ("folds", "CMSDatasetTest0Reader.train_set")],
  "Exhaustive within bounds on the real code with stand-ins of the array and data frame libraries."),
P("C59", "The analysis of the traces counts the requests selected, each once",
  "An analysis is of exactly the requests of the files, the month, the sites and the kind of file asked for; limits and bins are of the successful ones for data or simulation. The limits are, for each day with such requests, the share of requests and of bytes for files already requested that day and the size of its files; the weeks are of seven days with requests in the order of time; the daily statistics follow every file through its requests in their order, again from the start after the days asked for; the bins have every value in the one bin it belongs to. The result does not depend on how the requests are spread over the files, nor on the order of the days.",
  ["inputs", "configurations"], "Traces of 1-7 requests over up to 5 days (15 for the weeks) with files, sites, users, outcomes and kinds varied, every selection, form of the folder and grouping, on the real program from its command line.",
  "The probe has no tests.",
  ["Probe/probe/analyzer/__main__.py", "Probe/probe/analyzer/features.py", "Probe/probe/loaders.py", "Probe/probe/plotter/stats.py", "Probe/probe/utils.py"], [("selection", "csv_data, gen_csv_data, sort_by_date"), ("limits, weeks and days", "plot_global_upper_limits, plot_week_stats, plot_daily_stats"), ("bins", "Features")],
  "Exhaustive within bounds on the real program with stand-ins of the data frame and plotting libraries."),
P("C60", "The evaluator's caches are exact and a comparison replays every request",
  "The evaluator's caches hold, after any sequence of requests, every file inserted, the last inserted up to their limit, or the last used up to it; a file not to be stored leaves them as they are, the counts, rates and histories are those of the requests, and a cache made from the state of another, however it is passed, goes on as that one would. A comparison encodes each record once and asks the model once about it, in the order of the trace and whatever the length of the strides; it draws the sizes, the hit rates and the CPU time of the hits of both caches after each request, with a mark at each record more than a day after the last one marked.",
  ["histories", "inputs"], "Every sequence of 7 requests of 4 files and of 5 of 3 files to be stored or not, for caches of 1-3 files of each kind, with a state saved and restored at every point; every trace of 4 records compared for every pair of kinds and several strides.",
  "The evaluator has no tests.",
  ["SmartCache/ai/models/evaluator.py", "SmartCache/ai/models/utils.py"], [("caches", "SimpleCache, FIFOCache, LRUCache"), ("comparison", "Evaluator._compare, compare, _plot_stats")],
  "Exhaustive within bounds on the real code with stand-ins of the array and plotting libraries and a model which answers as the case says."),
P("C61", "The prediction model stores on class 1 alone and exports the whole network",
  "The model predicts for each record the first class with the greatest score of its network, in the order asked, and the service answers to store exactly if that is class 1. An exported network has each layer in order with its name, weights, biases and activation function. A training uses all the data or each fold of the set asked for, once, with the epochs and batches set, on one network with as many inputs as columns and as many outputs as classes.",
  ["inputs", "configurations"], "Pairs of score vectors of 2 and 3 classes with ties, networks of 1-3 layers with weights and biases varied, trainings of 1-3 rows, columns and folds.",
  "The models have no tests.",
  ["SmartCache/ai/models/generator.py"], [("prediction", "predict, predict_one, AIPredictOne"), ("export", "export_weights, save, load"), ("training", "train")],
  "Exhaustive within bounds on the real code with stand-ins of the network, array and service libraries."),
P("C62", "The plot server keeps and draws what it was sent, over restarts and crashes",
  "After any sequence of requests and restarts the plot server has, for each cache, table and window, the values sent in order, a value for a known place in its stead, and the last info of each window; a deletion deletes all of it. Stopped at any step of a request, it starts again with each table as before or after that request. A plot has one line of its own colour for each cache whose name has all the filters, with the ends of the windows; comparisons are with the LRU cache that matches as far as both got, and the figures of a window give each file its weight and each size its share of the hits and misses.",
  ["histories", "crash_points", "inputs"], "Every sequence of 3 requests with a restart at any place, every step on the disk of every kind of request as the point of a crash, half written blocks included, every subset of caches with values at different stages, filters and plots, the info of 2-3 files.",
  "The plot server has no tests, and a crash in the middle of a write cannot be sampled.",
  ["scripts/DataAnalysis/plot_server.py"], [("what is kept", "cache_update, table_insert, cache_info, delete_plots, save_table, load_table"), ("what is drawn", "plot_line, plot_info_window, fill_hit_miss_bins")],
  "Exhaustive within bounds on the real program, called by its URLs, with stand-ins of the web and plotting libraries; writes are cut at every step."),
P("C63", "Extracted statistics have every record and its size, in every interleaving",
  "The extraction of a period writes one table for each of its days with a row for each record of the day, in order: its names, the day, CPU time per core and I/O time, whole hours and minutes of the job, whether its exit code is 0, and the size the size databases have for its file, or none if they have none. This holds however many processes work on the days, in whatever order they reach the shared cache of sizes, whatever earlier runs left there, with and without cache and databases, for any number of records and files, and whenever the table is read. The processes never wait for one another for ever, and no other files are left.",
  ["schedules", "inputs", "histories"], "Every interleaving of the cache commands and downloads of two processes with up to 4 files of 4 sets, and of three processes; every sequence of 3 records and readings with 4 set-ups of cache and databases; every combination of figures of a record; periods over month ends.",
  "The processes share a cache with a hand-made protocol of marks; a test runs one of its interleavings, and there are none.",
  ["scripts/DataAnalysis/statistics.py"], [("protocol", "Statistics.__get_file_sizes and __flush_buffer"), ("rows", "Statistics.add, make_stats, period, main")],
  "Exhaustive within bounds on the real program under a controlled scheduler, with states met again not explored twice; real SQLite, stand-ins for Redis, the object store and pandas."),
P("C64", "Window statistics are those of the records of the window",
  "For a folder of extracted days the plot command makes windows of as many days as asked, in the order of the dates, the last with what is left, whatever else is in the folder and in whatever order it is listed. Each window has the number of requests, files, users, sites, tasks, jobs and requests per protocol, the total, local and remote CPU and I/O times, the sizes of distinct files in total, by number of requests and by size, and the mean numbers of requests, files, jobs and tasks per file, job, task and user that its records give; the page has a bar with the right value for each figure of each window.",
  ["inputs", "configurations"], "Every way to group 4 requests by file, user and job, file, task and job, and user, task and site; 3 requests with every size, one unknown, protocol and time; up to 22 requests of a file; 0-5 days in windows of 1, 2, 3 and 7.",
  "The code has no tests, and which requests share a file, job, task and user has more patterns than anyone writes down.",
  ["scripts/DataAnalysis/statistics.py"], [("figures", "make_dataframe_stats, transform_sizes"), ("windows and page", "main, plot_windows")],
  "Exhaustive within bounds on the real program, with stand-ins for pandas and bokeh; figures recomputed from the records."),
P("C65", "Filtered and moved logs have the right records after any failure",
  "For every day of the period asked for, the filter scripts leave one object with exactly the records of that day's log whose type is analysis in any case, and for the second script only those of files whose second level is data or mc, in their order and unchanged; the logs themselves and all other days stay as they are. The move script uploads the log of each day as it is and goes on with the other days after a failed upload. Whatever step of a run fails or is its last, every object present is right for its day, another run leaves all of them, and a run that succeeds leaves no local files.",
  ["fault_sequences", "crash_points", "inputs"], "Every log of up to 2 records of 6 types and 9 file names and of up to 5 of 2 types and 3 names; periods of 0-3 days over the ends of months and years; every step of a run as the point where it fails or stops, up to 3 such runs one after the other.",
  "The scripts have no tests, and what a failed run leaves to the next cannot be sampled.",
  ["scripts/filter_analysis_logs.py", "scripts/filter_analysis_data-mc_logs.py", "scripts/move_data_hdfs2minio.py"], [("filter", "main, split_filename"), ("days", "period"), ("move", "main of move_data_hdfs2minio.py")],
  "Exhaustive within bounds on the real scripts with stand-ins of the object store, HDFS and the avro coding; an upload or download is done or not done. A local file that a stopped move left is removed by the user first."),
]
NA = {}
