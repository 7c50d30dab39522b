"""Planted bugs, third batch: feature maps, agents, the RL cache, the program."""
import sys
from gobug import bug as _bug
ONLY = set(sys.argv[1:])
def bug(id, *a, **k):
    if not ONLY or id in ONLY:
        _bug(id, *a, **k)
C = "cache/"
FM = C + "ai/featuremap/featuremap.go"
QL = C + "ai/qlearn/qlearn.go"
RL = C + "aiRL.go"
CM = C + "aiRLCatStateManager.go"
FHEAD = '''package featuremap

import (
	"os"
	"testing"
)

func write(t *testing.T, text string) string {
	p := t.TempDir() + "/map.json"
	if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
		t.Fatal(err)
	}
	return p
}

'''
QHEAD = '''package qlearn

import (
	"os"
	"simulator/v2/cache/ai/featuremap"
	"testing"
)

func table(t *testing.T, text string) *featuremap.FeatureManager {
	p := t.TempDir() + "/map.json"
	if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
		t.Fatal(err)
	}
	m := featuremap.Parse(p)
	return &m
}

const numReq = `{"numReq": {"type": "int", "buckets": [1, 2, 4], "openRight": true}}`

'''
RHEAD = '''package cache

import (
	"os"
	"simulator/v2/cache/ai/featuremap"
	"simulator/v2/cache/ai/qlearn"
	"testing"
)

var _ featuremap.Obj
var _ qlearn.Choice

const catMap = `{"catSize": {"type": "float", "buckets": [1, 10], "openRight": true, "fileFeature": true},
 "catNumReq": {"type": "int", "buckets": [1, 2, 3], "openRight": true, "fileFeature": true},
 "catDeltaLastRequest": {"type": "int", "buckets": [100000], "openRight": true, "fileFeature": true},
 "catPercOcc": {"type": "float", "buckets": [50, 100], "openRight": true}, "percOcc": {"type": "float", "buckets": [50, 100], "openRight": true}, "hitRate": {"type": "float", "buckets": [50, 100], "openRight": true}}`
const addMap = `{"numReq": {"type": "int", "buckets": [1, 2, 3], "openRight": true}}`

// the caches follow their tables: epsilon 0
func rl(t *testing.T, typ string, max float64, add, evc, evict string, k int64, seed int64) *AIRL {
	d := t.TempDir()
	a, e := "", ""
	if add != "" {
		a = d + "/add.json"
		_ = os.WriteFile(a, []byte(add), 0o644)
	}
	if evc != "" {
		e = d + "/evc.json"
		_ = os.WriteFile(e, []byte(evc), 0o644)
	}
	c := Create("aiRL", max, "M", "", WeightFunctionParameters{})
	InitInstance("aiRL", c, InitParameters{AIRLType: typ, AIRLAdditionFeatureMap: a, AIRLEvictionFeatureMap: e, EvictionAgentType: evict, AIRLEvictionK: k, RandSeed: seed, MaxNumDayDiff: 1e6, DeltaDaysStep: 1e6})
	SetRegion(c, "")
	SetBandwidth(c, 10)
	return c.(*AIRL)
}

// decide makes one action the best one of every state.
func decide(a *qlearn.Agent, action qlearn.ActionType) {
	for i := range a.QTable.Actions {
		for j := range a.QTable.Actions[i] {
			a.QTable.Actions[i][j] = 0
		}
		a.QTable.Actions[i][a.QTable.ActionTypeIdxs[action]] = 100
	}
}

func get(c Cache, f int64, size float64, day int64) (bool, bool) {
	return GetFile(c, f, size, int64(1), 50., int64(1514764800)+day*86400, int64(0), int64(0), int64(0))
}

'''

bug("file-feature-at-the-place-of-the-feature", "C29", [(FM, """					curFileFeatureIdx := len(manager.FileFeatures)
					manager.FileFeatureIdxMap[curStruct.Name] = curFileFeatureIdx
""", """					manager.FileFeatureIdxMap[curStruct.Name] = curFeatureIdx
""")],
'''
	for i := 0; i < 40; i++ { // features come in the order of a Go map
		m := Parse(write(t, `{"a": {"type": "int", "buckets": [1]}, "b": {"type": "int", "buckets": [1], "fileFeature": true}}`))
		if j := m.FileFeatureIdxMap["b"]; j != 0 || m.FileFeatures[0].Name != "b" {
			t.Fatalf("the only file feature is at %d", j)
		}
	}
''', "a file feature after one that is none (the order of the features is that of a Go map)", "the index of the file features gives positions in the list of all features", pkg="cache/ai/featuremap", head=FHEAD)
bug("bucket-by-whole-part", "C29", [(FM, """			curVal := value.(float64)
			for idx, val := range obj.Float64Values {
				if curVal <= val {
""", """			curVal := value.(float64)
			for idx, val := range obj.Float64Values {
				if curVal <= val || (val-curVal > -1e-3 && idx+1 < len(obj.Float64Values)) {
""")],
'''
	m := Parse(write(t, `{"a": {"type": "float", "buckets": [1, 2], "openRight": true}}`))
	if i := m.Features[0].Index(1.0005); i != 1 {
		t.Fatalf("1.0005 is in bucket %d", i)
	}
''', "a value just above a bound", "values up to a thousandth above a bound count as below it", pkg="cache/ai/featuremap", head=FHEAD)
bug("weights-of-two-levels", "C30", [(FM, """		manager.FeatureIdxWeights[idx] = 1
		for inIdx := idx + 1; inIdx < len(manager.FeatureIdxWeights); inIdx++ {
""", """		manager.FeatureIdxWeights[idx] = 1
		for inIdx := idx + 1; inIdx < len(manager.FeatureIdxWeights) && inIdx <= idx+2; inIdx++ {
""")],
'''
	m := table(t, `{"a": {"type": "int", "buckets": [1, 2]}, "b": {"type": "int", "buckets": [1, 2]}, "c": {"type": "int", "buckets": [1, 2]}, "d": {"type": "int", "buckets": [1, 2]}}`)
	a := Agent{}
	a.Init(m, AdditionAgent, 1, 0, false, 1)
	for i, s := range a.QTable.States {
		if j := a.QTable.FeatureIdxs2StateIdx(s...); j != i {
			t.Fatalf("state %d %v is found under %d", i, s, j)
		}
	}
''', "four features", "the numbering of states takes only the two features that follow into account", pkg="cache/ai/qlearn", head=QHEAD)
bug("reset-shares-the-values", "C31", [(QL, """	for idx := 0; idx < len(table.Actions); idx++ {
		table.Actions[idx] = make([]float64, len(table.Actions[idx]))
	}
""", """	zeros := make([]float64, len(table.ActionTypes))
	for idx := 0; idx < len(table.Actions); idx++ {
		table.Actions[idx] = zeros
	}
""")],
'''
	a := Agent{}
	a.Init(table(t, numReq), AdditionAgent, 1, 0, false, 1)
	a.ResetTableAction()
	a.UpdateTable(0, 0, ActionStore, 1)
	if v := a.GetActionValue(1, ActionStore); v != 0 {
		t.Fatalf("state 1 has value %v, only state 0 was updated", v)
	}
''', "an update after the actions were reset", "after a reset all states share one list of values", pkg="cache/ai/qlearn", head=QHEAD)
bug("decay-continues-after-reset", "C31", [(QL, """	agent.MinEpsilon = 0.1
	agent.StepNum = 0
	agent.QValue = 0.

""", """	agent.MinEpsilon = 0.1
	agent.QValue = 0.

""")],
'''
	a := Agent{}
	a.Init(table(t, numReq), AdditionAgent, 1, .1, false, 1)
	a.UpdateEpsilon()
	first := a.Epsilon
	a.UpdateEpsilon()
	a.ResetParams(1, .1)
	a.UpdateEpsilon()
	if a.Epsilon != first {
		t.Fatalf("epsilon %v after the reset, %v at first", a.Epsilon, first)
	}
''', "decay, a reset (as when a dump is loaded) and decay again", "the exploration rate falls back to the decay of the previous run after the first update", pkg="cache/ai/qlearn", head=QHEAD)
bug("exploration-reuses-the-draw", "C32", [(CM, "randomActionIdx := int(agent.GetRandomFloat() * float64(len(agent.QTable.ActionTypes)))", "randomActionIdx := int(expEvictionTradeoff * float64(len(agent.QTable.ActionTypes)))")],
'''
	c := rl(t, "SCDL2", 4, "", catMap, "onFree", 1, 7)
	decide(&c.evictionAgent, qlearn.ActionNotDelete)
	c.evictionAgent.Epsilon, c.evictionAgent.MinEpsilon = .2, .2
	get(c, 1, 1, 0)
	seen := map[qlearn.ActionType]int{}
	for i := 0; i < 4000; i++ {
		for s := range c.evictionCategoryManager.GetStateFromCategories(true, c.evictionAgent, 0, 0, 4) {
			seen[s.Action]++
		}
	}
	if seen[qlearn.ActionDeleteAll] == 0 {
		t.Fatalf("delete all is never tried: %v", seen)
	}
''', "an exploration rate below one", "the exploration of the eviction agent reuses the number that decided to explore, so that with a small rate only the first actions are ever tried", head=RHEAD)
bug("hits-not-refiled-with-admission-agent", "C33", [(RL, """			queue.Update(cache.files, fileStats)

			if cache.evictionAgentOK {
				fileCategory := cache.evictionCategoryManager.GetFileCategory(fileStats)
				cache.evictionCategoryManager.AddOrUpdateCategoryFile(fileCategory, fileStats)
			}
		}
	} else {
		// ####""", """			queue.Update(cache.files, fileStats)
		}
	} else {
		// ####""")],
'''
	c := rl(t, "SCDL2", 4, addMap, catMap, "onFree", 1, 7)
	decide(&c.additionAgent, qlearn.ActionStore)
	decide(&c.evictionAgent, qlearn.ActionNotDelete)
	get(c, 1, 1, 0)
	get(c, 2, 1, 0)
	get(c, 1, 1, 0) // two requests now: another category
	if n := c.evictionCategoryManager.GetNumCategories(); n != 2 {
		t.Fatalf("%d categories", n)
	}
''', "both agents, and a hit that changes the category of the file", "with an admission agent the category of a file stays the one it was admitted with", head=RHEAD)
bug("full-memory-in-place", "C34", [(QL, """			pastChoices = pastChoices[1:]
			pastChoices = append(pastChoices, choice)
""", """			pastChoices[choice.Tick%maxStoredPastChoices] = choice
""")],
'''
	a := Agent{}
	a.Init(table(t, numReq), AdditionAgent, 1, .1, false, 1)
	for i := int64(0); i < 33; i++ {
		a.SaveMemory(int64(1), Choice{Tick: i})
	}
	m, _ := a.Remember(int64(1))
	for i := range m {
		if m[i].Tick != int64(i+1) {
			t.Fatalf("choice %d is of tick %d", i, m[i].Tick)
		}
	}
''', "more than 32 choices for one key", "a full memory is overwritten in place, so the choices are recalled out of order", pkg="cache/ai/qlearn", head=QHEAD)
bug("day-end-evictions-uncounted", "C35", [(RL, """	cache.SimpleCache.ClearStats()
	cache.evictionAgentNumCalls = 0
""", """	// the figures are cleared once the day is over
	defer cache.SimpleCache.ClearStats()
	cache.evictionAgentNumCalls = 0
""")],
'''
	c := rl(t, "SCDL2", 4, "", catMap, "onDayEnd", 1, 7)
	decide(&c.evictionAgent, qlearn.ActionDeleteAll)
	get(c, 1, 1, 0)
	c.ClearStats()
	if c.Size() != 0 || c.NumDeleted() != 1 || c.DataDeleted() != 1 {
		t.Fatalf("size %v, %d files with %v deleted", c.Size(), c.NumDeleted(), c.DataDeleted())
	}
''', "evictions at the end of the day", "the deletions the eviction agent makes at the end of the day are in the figures of no day", head=RHEAD)
bug("forced-call-restarts-the-count", "C36", [(RL, """	cache.evictionAgentNumCalls++

	cache.stats.Clear""", """	cache.evictionAgentNumCalls++
	cache.evictionAgentStep = cache.evictionAgentK + 1

	cache.stats.Clear""")],
'''
	c := rl(t, "SCDL2", 4, "", catMap, "onK", 2, 7)
	decide(&c.evictionAgent, qlearn.ActionDeleteAll)
	get(c, 1, 4, 0)
	get(c, 2, 4, 0) // forced call
	get(c, 2, 4, 0) // due
	if c.evictionAgentNumCalls != 2 {
		t.Fatalf("%d calls, 2 were due", c.evictionAgentNumCalls)
	}
''', "an admission that does not fit between two periodic calls", "a forced call of the eviction agent postpones the periodic one", head=RHEAD)
bug("quarter-of-three-is-half", "C36", [(RL, "numDeletes = len(curFileList) / 4\n", "numDeletes = (len(curFileList) + 2) / 4\n")],
'''
	c := rl(t, "SCDL2", 16, "", catMap, "onDayEnd", 2, 7)
	decide(&c.evictionAgent, qlearn.ActionDeleteQuarter)
	for f := int64(1); f <= 6; f++ {
		get(c, f, 1, 0)
	}
	c.ClearStats()
	if c.NumDeleted() != 1 {
		t.Fatalf("%d of 6 files deleted", c.NumDeleted())
	}
''', "a category whose size is 2 or 3 more than a multiple of four", "a quarter of a category is rounded to the next number", head=RHEAD)
bug("state-before-the-request", "C37", [(RL, 'feature.Index(curFileStats.DeltaLastRequest))', 'feature.Index(cache.tick-curFileStats.Recency))')],
'''
	c := rl(t, "SCDL2", 8, `{"deltaLastRequest": {"type": "int", "buckets": [0, 1, 2, 4], "openRight": true}}`, "", "none", 2, 7)
	decide(&c.additionAgent, qlearn.ActionNotStore)
	// the third time two requests later
	c.additionAgent.QTable.Actions[2][c.additionAgent.QTable.ActionTypeIdxs[qlearn.ActionStore]] = 200
	get(c, 1, 1, 0)
	get(c, 2, 1, 0)
	if added, _ := get(c, 1, 1, 0); !added {
		t.Fatal("the file requested two requests ago was not admitted")
	}
''', "an admission agent with the time since the last request among its features", "the admission agent sees no time since the last request", head=RHEAD)
bug("rewarded-again-after-a-hit", "C38", [(RL, """				// Update table
				cache.additionAgent.UpdateTable(memory.State, memory.State, memory.Action, reward)
				// Update epsilon
				cache.additionAgent.UpdateEpsilon()
			}
		}
	case SCDL2:""", """				// Update table
				cache.additionAgent.UpdateTable(memory.State, memory.State, memory.Action, reward)
				// Update epsilon
				cache.additionAgent.UpdateEpsilon()
			}
			// nothing was decided on a hit: keep the last choice
			if hit {
				cache.additionAgent.SaveMemory(filename, lastMemories[len(lastMemories)-1])
			}
		}
	case SCDL2:""")],
'''
	c := rl(t, "SCDL", 8, addMap, "", "none", 2, 7)
	decide(&c.additionAgent, qlearn.ActionStore)
	get(c, 1, 1, 0)
	get(c, 1, 1, 0)
	v := c.additionAgent.QValue
	get(c, 1, 1, 0)
	if c.additionAgent.QValue != v {
		t.Fatal("the admission was rewarded twice")
	}
''', "a file requested twice after its admission", "a choice is rewarded at every hit instead of once", head=RHEAD)
bug("seed-zero-is-random", "C38", [(QL, "	table.RandomGenerator = rand.New(rand.NewSource(randSeed))\n", "	if randSeed == 0 {\n		randSeed = time.Now().UnixNano()\n	}\n	table.RandomGenerator = rand.New(rand.NewSource(randSeed))\n"), (QL, '	"strings"\n', '	"strings"\n	"time"\n')],
'''
	draw := func() float64 {
		a := Agent{}
		a.Init(table(t, numReq), AdditionAgent, 1, .1, false, 0)
		return a.GetRandomFloat()
	}
	if draw() != draw() {
		t.Fatal("the seed 0 does not give the same numbers")
	}
''', "the seed zero", "runs with the seed zero are not reproducible", pkg="cache/ai/qlearn", head=QHEAD)

Q = '''#!/bin/bash
# Builds demo_test.go inside package %s of the prototype in a scratch copy.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOENV=off GO111MODULE=on GOFLAGS="-mod=mod -buildvcs=false"
GO=/opt/veriftools/go1.27.3/bin/go; [ -x "$GO" ] || GO=go
cp qLearning_smartCache/%s/*.go "$here/demo_test.go" "$tmp/"
cd "$tmp" && printf 'module demo\\n\\ngo 1.20\\n' > go.mod && "$GO" test -vet=off -count=1 -run '^TestSeededDemo$' .
'''
def qbug(id, prop, pkg, edits, body, needs, what):
    if ONLY and id not in ONLY:
        return
    _bug(id, prop, edits, body, needs, what, pkg="cache", head="package %s\n\nimport \"testing\"\n\n" % pkg)
    import os
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded", id, "demo.sh")
    open(p, "w").write(Q % (pkg, pkg))
qbug("least-value-at-first-sight", "C39", "cache", [("repo:qLearning_smartCache/cache/cache.go", "		if cache.stats[fileName].Value < minValue {\n			minValue = cache.stats[fileName].Value\n", "		if value := cache.files[fileName] * cache.stats[fileName].NumReq; value < minValue && value > 1 {\n			minValue = value\n")],
'''
	c := SimCache{MaxSize: 4}
	c.Init()
	put := func(f string, s float64) {
		c.UpdateStats(f, s)
		c.Insert(f, s)
	}
	put("a", 1)
	put("b", 3)
	done := make(chan bool)
	go func() {
		put("c", 1)
		done <- true
	}()
	<-done
	if _, in := c.files["b"]; !in {
		t.Fatal("b was removed though a is worth less")
	}
''', "a file of value 1 or less in the cache", "files of a value of one or less are never the least valuable")
qbug("best-value-of-the-action-only", "C40", "qtable", [("repo:qLearning_smartCache/qtable/qtable.go", "	for idx := 0; idx < len(array); idx++ {\n		if array[idx] > maxElm {", "	for idx := 0; idx < len(array); idx++ {\n		if array[idx]-maxElm > 0.01 {")],
'''
	tb := QTable{}
	tb.Init([][]float64{{1, 2}}, []string{"x"}, []ActionType{ActionStore, ActionNotStore})
	s := tb.GenCurState([]float64{1})
	tb.Update(s, ActionNotStore, .005)
	if tb.GetBestAction(s) != ActionNotStore {
		t.Fatal("the best action is not the one with the greatest value")
	}
''', "values that differ by less than a hundredth", "small differences between the values of two actions are ignored")
