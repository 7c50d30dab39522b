"""Planted bugs, sixth batch: event log, rewards, histories of files, runs."""
import os, sys
from gobug import bug as _bug
ONLY = set(sys.argv[1:])
def bug(id, *a, **k):
    if not ONLY or id in ONLY:
        _bug(id, *a, **k)
_src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs3.py")).read()
RHEAD = _src.split("RHEAD = '''", 1)[1].split("'''", 1)[0]
C = "cache/"
RL = C + "aiRL.go"
LOG = '''
func logged(t *testing.T, typ string, max float64, add, evc, evict string, k int64) *AIRL {
	old, _ := os.Getwd()
	if err := os.Chdir(t.TempDir()); err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { _ = os.Chdir(old) })
	d := t.TempDir()
	a, e := "", ""
	if add != "" {
		a = d + "/add.json"
		_ = os.WriteFile(a, []byte(add), 0o644)
	}
	if evc != "" {
		e = d + "/evc.json"
		_ = os.WriteFile(e, []byte(evc), 0o644)
	}
	c := Create("aiRL", max, "M", "", WeightFunctionParameters{})
	InitInstance("aiRL", c, InitParameters{Log: true, AIRLType: typ, AIRLAdditionFeatureMap: a, AIRLEvictionFeatureMap: e, EvictionAgentType: evict, AIRLEvictionK: k, RandSeed: 1, MaxNumDayDiff: 1e6, DeltaDaysStep: 1e6})
	SetRegion(c, "")
	SetBandwidth(c, 10)
	return c.(*AIRL)
}

func lines(t *testing.T, c *AIRL) (out []string) {
	if err := Terminate(c); err != nil {
		t.Fatal(err)
	}
	f, err := os.Open("simulationLogFile.csv.gz")
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	z, err := gzip.NewReader(f)
	if err != nil {
		t.Fatal(err)
	}
	data, _ := io.ReadAll(z)
	for _, l := range strings.Split(strings.TrimSpace(string(data)), "\\n")[1:] {
		out = append(out, strings.TrimSpace(l))
	}
	return
}

func kinds(ls []string) string {
	var out []string
	for _, l := range ls {
		out = append(out, strings.Split(l, ",")[1])
	}
	return strings.Join(out, " ")
}

'''
LHEAD = RHEAD.replace('import (\n', 'import (\n\t"compress/gzip"\n\t"io"\n\t"strings"\n') + LOG
catMap = "`{\"catSize\": {\"type\": \"float\", \"buckets\": [1, 10], \"openRight\": true, \"fileFeature\": true}, \"catNumReq\": {\"type\": \"int\", \"buckets\": [1, 2, 3], \"openRight\": true, \"fileFeature\": true}, \"catDeltaLastRequest\": {\"type\": \"int\", \"buckets\": [100000], \"openRight\": true, \"fileFeature\": true}}`"

bug("forced-call-logged-as-planned", "C54", [(RL, """						cache.punishEvictionAgentOnForcedCall()
						cache.callEvictionAgent()
					case EvictionOnFree:
						if""", """						cache.punishEvictionAgentOnForcedCall()
						cache.callEvictionAgent()

						if cache.evictionType == EvictionOnK {
							cache.evictionAgentStep = cache.evictionAgentK
						}
					case EvictionOnFree:
						if""")],
'''
	c := logged(t, "scdl2", 3, "", catMap, "onK", 3)
	decide(&c.evictionAgent, qlearn.ActionDeleteAll)
	for f := int64(0); f < 6; f++ {
		get(c, f, 1.5, 0)
	}
	if k := kinds(lines(t, c)); k != "MISS ADD MISS ADD MISS FORCEDCALL DELETE DELETE ADD MISS ADD ONK DELETE DELETE MISS ADD MISS ADD" {
		t.Fatal(k)
	}
'''.replace("get(c, f, 1.5, 0)", "get(c, f, 1.5, 0)"), "a forced consultation of an agent consulted every k requests", "the planned consultation comes later and is missing in the log", head=LHEAD)

bug("a-quarter-of-three-is-all", "C36", [(RL, """				numDeletes--
				if numDeletes <= 0 {
					break
				}
""", """				numDeletes--
				if numDeletes == 0 {
					break
				}
""")],
'''
	c := logged(t, "scdl2", 4, "", catMap, "onFree", 1)
	decide(&c.evictionAgent, qlearn.ActionDeleteQuarter)
	for f := int64(0); f < 3; f++ {
		get(c, f, 1.3, 0)
	}
	get(c, 7, 1.3, 0)
	if k := kinds(lines(t, c)); strings.Count(k, "DELETE") != 1 {
		t.Fatal(k)
	}
''', "a quarter of less than four files", "all files of the category are deleted instead of one", head=LHEAD)

bug("kept-file-with-distance-of-the-last", "C54", [(RL, """			for _, curFile := range catState.Files {
				curFileStats := cache.stats.Get(curFile.Filename)
""", """			for _, curFile := range catState.Files {
				curFileStats := cache.stats.Get(curFile.Filename)
				if len(catState.Files) > 2 {
					curFileStats = catState.Files[0]
				}
""")],
'''
	c := logged(t, "scdl2", 4, "", catMap, "onFree", 1)
	decide(&c.evictionAgent, qlearn.ActionNotDelete)
	for f := int64(0); f < 3; f++ {
		get(c, f, 1.3, 0)
	}
	get(c, 7, 1.3, 0)
	seen := map[string]bool{}
	for _, l := range lines(t, c) {
		if w := strings.Split(l, ","); w[1] == "KEEP" {
			seen[w[4]] = true
		}
	}
	if len(seen) != 3 {
		t.Fatal(seen)
	}
''', "three or more files kept in one category", "the log names the same file for all of them", head=LHEAD)

bug("compatible-either-way", "C55", [(RL, """	binary.BigEndian.PutUint32(curArgs[:4], uint32(oldStateIdx))
	binary.BigEndian.PutUint32(curArgs[4:], uint32(newStateIdx))
""", """	binary.BigEndian.PutUint32(curArgs[:4], uint32(oldStateIdx^newStateIdx))
	binary.BigEndian.PutUint32(curArgs[4:], uint32(oldStateIdx|newStateIdx))
""")],
'''
	c := rl(t, "scdl2", 100, "", catMap, "onK", 99, 1)
	n := len(c.evictionAgent.QTable.States)
	fresh := func(a, b int) bool {
		c.evictionCheckNextStateMap = map[[8]byte]bool{}
		return c.checkEvictionNextState(a, b)
	}
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			ab, ba := fresh(a, b), fresh(b, a)
			fresh(a, b)
			if x := c.checkEvictionNextState(b, a); x != ba || fresh(a, b) != ab {
				t.Fatalf("%d after %d: %v then %v", a, b, ba, x)
			}
		}
	}
''', "forced consultations with categories compatible in one direction only, checked in both", "the first answer is given for the opposite direction too", head=RHEAD)

bug("keeping-punished-twice", "C55", [(RL, """		delete(cache.evictionAgent.Memory, "NotDelete")
""", """		if len(choicesList) > 1 {
			delete(cache.evictionAgent.Memory, "NotDelete")
		}
""")],
'''
	c := rl(t, "scdl2", 2, "", catMap, "onK", 99, 1)
	decide(&c.evictionAgent, qlearn.ActionNotDelete)
	get(c, 1, 1.5, 0)
	get(c, 2, 1.5, 0)
	if n := len(c.evictionAgent.Memory["NotDelete"]); n != 1 {
		t.Fatal(n)
	}
	c.punishEvictionAgentOnForcedCall()
	if n := len(c.evictionAgent.Memory["NotDelete"]); n != 0 {
		t.Fatalf("%d decisions to be punished again", n)
	}
''', "one file kept before a forced consultation", "the decision is punished at every later one", head=RHEAD)

bug("equal-occupancies-are-no-growth", "C55", [(RL, "					if prevMemory.Capacity >= nextMemory.Capacity {\n", "					if prevMemory.Capacity > nextMemory.Capacity {\n")],
'''
	c := rl(t, "scdl2", 100, "", catMap, "onK", 0, 1)
	decide(&c.evictionAgent, qlearn.ActionNotDelete)
	get(c, 1, 1.5, 0) // kept at the end of every request
	get(c, 1, 1.5, 0)
	s := c.evictionAgent.Memory[int64(1)]
	if len(s) != 2 {
		t.Fatal(len(s))
	}
	m := c.evictionAgent.QTable.ActionTypeIdxs[qlearn.ActionNotDelete]
	old := c.evictionAgent.QTable.Actions[s[0].State][m]
	next := 0.
	for i, v := range c.evictionAgent.QTable.Actions[s[1].State] {
		if i == 0 || v > next {
			next = v
		}
	}
	get(c, 1, 1.5, 0)
	want := old + c.evictionAgent.LearningRate*(3+c.evictionAgent.DiscountFactor*next-old)
	if got := c.evictionAgent.QTable.Actions[s[0].State][m]; got < want-1e-9 || got > want+1e-9 {
		t.Fatalf("%v, expected %v", got, want)
	}
''', "a kept file requested again with the occupancy unchanged", "the reward misses a point", head=RHEAD)

bug("gain-by-the-remembered-outcome", "C38", [(RL, """				if reward == 0. {
					if hit {
""", """				if reward == 0. {
					if hit && memory.Hit == hit {
""")],
'''
	c := rl(t, "scdl", 100, addMap, "", "", 0, 1)
	decide(&c.additionAgent, qlearn.ActionStore)
	c.dataRead, c.dataReadOnMiss, c.dataReadOnHit, c.dataWritten = 100000, 7, 50000, 30000
	c.bandwidth = 1e6
	get(c, 1, 10, 0)
	mem := c.additionAgent.Memory[int64(1)]
	if len(mem) != 1 {
		t.Fatal(len(mem))
	}
	s := c.additionAgent.QTable.ActionTypeIdxs[qlearn.ActionStore]
	old := c.additionAgent.QTable.Actions[mem[0].State][s]
	c.dataRead, c.dataReadOnMiss, c.dataReadOnHit, c.dataWritten = 100000, 7, 50000, 30000
	get(c, 1, 10, 0)
	r := 10. / 1024.
	want := old + c.additionAgent.LearningRate*(r+c.additionAgent.DiscountFactor*old-old)
	if got := c.additionAgent.QTable.Actions[mem[0].State][s]; got < want-1e-9 || got > want+1e-9 {
		t.Fatalf("%v, expected %v", got, want)
	}
''', "a file admitted on a day without objections and hit afterwards", "a hit on an admitted file is punished", head=RHEAD)

bug("distance-of-forgotten-size", "C15", [(C + "files/stats.go", """		curStats.Size = size
		curStats.DeltaLastRequest = curTick - curStats.Recency
""", """		if curStats.Size != size || curTick != curStats.Recency+1 {
			curStats.DeltaLastRequest = curTick - curStats.Recency
		}
		curStats.Size = size
""")],
'''
	m := &Manager{}
	m.Init(1e6, 1e6, false)
	now := time.Unix(1514764800, 0)
	for i, tick := range []int64{3, 5, 6} {
		s, _ := m.GetOrCreate(1, 7, now, tick)
		if want := []int64{math.MaxInt64, 2, 1}[i]; s.DeltaLastRequest != want {
			t.Fatalf("tick %d: distance %d, expected %d", tick, s.DeltaLastRequest, want)
		}
	}
''', "a file requested twice in a row after a longer distance", "the distance of the request before is kept", pkg="cache/files", head='''package files

import (
	"math"
	"testing"
	"time"
)

''')

bug("cold-start-keeps-old-positions", "C23", [(C + "utils.go", "strings.Contains(f.Name(), \"_run-\")", "strings.HasSuffix(strings.TrimSuffix(f.Name(), \".csv\"), \"_run-0\") || strings.Contains(f.Name(), \"_run-1\")")] if False else
[(C + "files/stats.go", """		fileStats.Recency = 0
		fileStats.Weight = 0.0
""", """		if fileStats.NHits > 0 {
			fileStats.Recency = 0
		}
		fileStats.Weight = 0.0
""")],
'''
	m := &Manager{}
	m.Init(1e6, 1e6, false)
	now := time.Unix(1514764800, 0)
	a, _ := m.GetOrCreate(1, 7, now, 3)
	a.UpdateStats(false, 7, 0, 0, now)
	m.Clear()
	if a.Recency != 0 {
		t.Fatalf("a request of before the cold start is at %d", a.Recency)
	}
''', "a cold start that keeps the statistics of files never hit", "their last request stays at its old position", pkg="cache/files", head='''package files

import (
	"testing"
	"time"
)

''')
