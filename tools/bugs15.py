"""Fifteenth batch of planted bugs: the learning caches at scale."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gobug import bug as _bug
ONLY = sys.argv[1:]
_src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs3.py")).read()
FHEAD, QHEAD, RHEAD = (re.search(n + " = '''(.*?)'''", _src, re.S).group(1) for n in ("FHEAD", "QHEAD", "RHEAD"))
C = "cache/"
FM, QL, RL, CM = C + "ai/featuremap/featuremap.go", C + "ai/qlearn/qlearn.go", C + "aiRL.go", C + "aiRLCatStateManager.go"
F = dict(pkg="cache/ai/featuremap", head=FHEAD)
Q = dict(pkg="cache/ai/qlearn", head=QHEAD)
R = dict(head=RHEAD)


def bug(id, *a, **k):
    if not ONLY or id in ONLY:
        _bug(id, *a, **k)


bug("whole-numbers-compared-as-floats", "C29", [(FM, '''			for idx, val := range obj.Int64Values {
				if curVal <= val {
					return idx''', '''			for idx, val := range obj.Int64Values {
				if float64(curVal) <= float64(val) {
					return idx''')], '''
	m := Parse(write(t, `{"a": {"type": "int", "buckets": [9007199254740992], "openRight": true}}`))
	if i := m.Features[0].Index(int64(9007199254740993)); i != 1 {
		t.Fatalf("2^53+1 is in bucket %d", i)
	}
''', "a bound beyond 2^53 and a number just above it", "the number counts as below the bound", **F)

bug("state-number-of-16-bits", "C30", [(QL, "index += curIdx * table.IndexWeights[idx]", "index += int(uint16(curIdx * table.IndexWeights[idx]))")], '''
	v := "0"
	for i := 1; i < 300; i++ {
		v += fmt.Sprintf(",%d", i)
	}
	a := Agent{}
	a.Init(table(t, `{"x": {"type": "int", "buckets": [`+v+`]}, "y": {"type": "int", "buckets": [`+v+`]}}`), AdditionAgent, 1, .1, false, 0)
	if i := a.QTable.FeatureIdxs2StateIdx(299, 299); i != 89999 {
		t.Fatalf("the last state is %d", i)
	}
''', "a table of more than 65536 states", "states share a number", pkg="cache/ai/qlearn", head=QHEAD.replace("import (\n", "import (\n\t\"fmt\"\n"))

bug("decay-starts-over", "C31", [(QL, "math.Exp(-agent.DecayRateEpsilon*float64(agent.StepNum))", "math.Exp(-agent.DecayRateEpsilon*float64(uint16(agent.StepNum)))")], '''
	a := Agent{}
	a.Init(table(t, numReq), AdditionAgent, 1, .00001, false, 0)
	last := a.Epsilon
	for i := 0; i < 70000; i++ {
		a.UpdateEpsilon()
		if a.Epsilon > last {
			t.Fatalf("epsilon grew at step %d", i)
		}
		last = a.Epsilon
	}
''', "a slow decay and more than 65536 steps", "the exploration rate jumps back", **Q)

bug("coverage-of-the-first-thousands", "C31", [(QL, '''	for _, actions := range agent.QTable.Actions {
		curStateCov := false
''', '''	for idx, actions := range agent.QTable.Actions {
		if idx == 4096 {
			break
		}

		curStateCov := false
''')], '''
	v := "0"
	for i := 1; i < 5000; i++ {
		v += ",1" + string(rune('0'+i/1000)) + string(rune('0'+i/100%10)) + string(rune('0'+i/10%10)) + string(rune('0'+i%10))
	}
	a := Agent{}
	a.Init(table(t, `{"x": {"type": "int", "buckets": [`+v+`]}}`), AdditionAgent, 1, .1, false, 0)
	a.UpdateTable(4999, 0, ActionStore, 1)
	if _, s := a.GetCoverage(); s == 0 {
		t.Fatal("a learned state is not counted")
	}
''', "a table of more than 4096 states", "the coverage misses the states beyond", **Q)

bug("recalls-the-last-128", "C34", [(QL, '''		memories = make([]Choice, len(pastChoices))
''', '''		if len(pastChoices) > 128 {
			pastChoices = pastChoices[len(pastChoices)-128:]
		}

		memories = make([]Choice, len(pastChoices))
''')], '''
	a := Agent{}
	a.Init(table(t, numReq), AdditionAgent, 1, .1, false, 0)
	for i := 0; i < 200; i++ {
		a.SaveMemoryWithNoLimits("k", Choice{Tick: int64(i)})
	}
	if m, _ := a.Remember("k"); len(m) != 200 {
		t.Fatalf("%d choices recalled", len(m))
	}
''', "more than 128 choices saved without a limit", "the older ones are not recalled", **Q)

bug("file-sought-near-the-end-of-its-category", "C33", [(CM, '''	deleteIdx := -1

	for idx, file := range categoryFiles {
		if file.Filename == file2Remove.Filename {
			deleteIdx = idx

			break
		}
	}
''', '''	deleteIdx := -1

	for idx := len(categoryFiles) - 1; idx >= 0; idx-- {
		deleteIdx = idx

		if categoryFiles[idx].Filename == file2Remove.Filename || len(categoryFiles)-idx > 256 {
			break
		}
	}
''')], '''
	c := rl(t, "SCDL2", 1000, "", `{"catSize": {"type": "float", "buckets": [1, 10], "openRight": true, "fileFeature": true},
 "catNumReq": {"type": "int", "buckets": [1, 2, 3], "openRight": true, "fileFeature": true}}`, "onDayEnd", 2, 7)
	for i := int64(0); i < 400; i++ {
		get(c, i, 1, 0)
	}
	get(c, 0, 1, 0)
	n, seen := 0, map[int64]bool{}
	for s := range c.evictionCategoryManager.GetStateFromCategories(true, c.evictionAgent, 0, 0, 1000) {
		for _, f := range s.Files {
			n++
			seen[f.Filename] = true
		}
	}
	if n != 400 || len(seen) != 400 {
		t.Fatalf("%d files in the categories, %d different ones", n, len(seen))
	}
''', "a file leaves a category of more than 256 files", "another file is dropped from the category", **R)

bug("quarter-of-a-byte", "C36", [(RL, "				numDeletes = len(curFileList) / 4\n", "				numDeletes = int(uint8(len(curFileList)) / 4)\n")], '''
	c := rl(t, "SCDL2", 1000, "", catMap, "onDayEnd", 2, 7)
	decide(&c.evictionAgent, qlearn.ActionDeleteQuarter)
	for i := int64(0); i < 400; i++ {
		get(c, i, 1, 0)
	}
	c.ClearStats()
	if c.NumDeleted() != 100 {
		t.Fatalf("%d of 400 files deleted", c.NumDeleted())
	}
''', "a category of more than 255 files", "less than a quarter is deleted", **R)

bug("decisions-counted-in-a-byte", "C36", [(RL, "		cache.actionCounters[catState.Action]++\n", "		cache.actionCounters[catState.Action] = int(uint8(cache.actionCounters[catState.Action] + 1))\n")], '''
	c := rl(t, "SCDL2", 1000, "", catMap, "onK", 0, 7)
	decide(&c.evictionAgent, qlearn.ActionNotDelete)
	for i := int64(0); i < 300; i++ {
		get(c, 1, 1, 0)
	}
	if n := c.actionCounters[qlearn.ActionNotDelete]; n != 300 {
		t.Fatalf("%d decisions counted", n)
	}
''', "more than 255 decisions of one kind in a day", "the count starts over", **R)

bug("occupancy-in-whole-percents", "C37", [(RL, "feature.Index(cache.SimpleCache.Capacity()))", "feature.Index(math.Round(cache.SimpleCache.Capacity())))")], '''
	c := rl(t, "SCDL2", 1000, `{"percOcc": {"type": "float", "buckets": [99.7], "openRight": true}}`, "", "none", 2, 7)
	decide(&c.additionAgent, qlearn.ActionStore)
	get(c, 1, 996, 0)
	c.additionAgent.QTable.Actions[1][c.additionAgent.QTable.ActionTypeIdxs[qlearn.ActionNotStore]] = 200
	if added, _ := get(c, 2, 1, 0); !added {
		t.Fatal("the file was judged in the state of a fuller cache")
	}
''', "a bound between the occupancy and the nearest whole percent", "the admission is decided in another state", **R)

bug("requests-of-a-file-in-a-byte", "C37", [(RL, "feature.Index(curFileStats.Frequency))", "feature.Index(int64(uint8(curFileStats.Frequency))))")], '''
	c := rl(t, "SCDL2", 1000, addMap, "", "none", 2, 7)
	decide(&c.additionAgent, qlearn.ActionNotStore)
	c.additionAgent.LearningRate = 0
	for i := 0; i < 256; i++ {
		get(c, 1, 1, 0)
	}
	c.additionAgent.QTable.Actions[3][c.additionAgent.QTable.ActionTypeIdxs[qlearn.ActionStore]] = 200
	if added, _ := get(c, 1, 1, 0); !added {
		t.Fatal("a file requested 257 times was judged as requested once")
	}
''', "a file refused more than 255 times", "it is judged as a new one", **R)

bug("gain-in-whole-gigabytes", "C38", [(RL, '''					if hit {
						reward += memory.Size / 1024.
''', '''					if hit {
						reward += memory.Size / 1024.
						if reward > 1 {
							reward = float64(int64(reward))
						}
''')], '''
	c := rl(t, "scdl", 10000, addMap, "", "", 0, 1)
	decide(&c.additionAgent, qlearn.ActionStore)
	busy := func() {
		c.dataRead, c.dataReadOnMiss, c.dataReadOnHit, c.dataWritten = 100000, 7, 50000, 30000
		c.bandwidth = 1e6
	}
	busy()
	get(c, 1, 1536, 0)
	s := c.additionAgent.QTable.ActionTypeIdxs[qlearn.ActionStore]
	m := c.additionAgent.Memory[int64(1)][0]
	old := c.additionAgent.QTable.Actions[m.State][s]
	busy()
	get(c, 1, 1536, 0)
	want := old + c.additionAgent.LearningRate*(1.5+c.additionAgent.DiscountFactor*old-old)
	if got := c.additionAgent.QTable.Actions[m.State][s]; got < want-1e-9 || got > want+1e-9 {
		t.Fatalf("%v, expected %v", got, want)
	}
''', "a hit on a file of more than a gigabyte", "the gain is rounded down", **R)

bug("blames-a-hundred-kept-files", "C55", [(RL, '''		for _, choice := range choicesList {
''', '''		if len(choicesList) > 100 {
			choicesList = choicesList[:100]
		}

		for _, choice := range choicesList {
''')], '''
	c := rl(t, "SCDL2", 150, "", catMap, "onK", 149, 7)
	decide(&c.evictionAgent, qlearn.ActionNotDelete)
	for i := int64(0); i < 150; i++ {
		get(c, i, 1, 0)
	}
	if n := len(c.evictionAgent.Memory["NotDelete"]); n != 150 {
		t.Fatal(n)
	}
	v := c.evictionAgent.QValue
	get(c, 1000, 1, 0)
	if d := v - c.evictionAgent.QValue; d < 149 {
		t.Fatalf("the rewards fell by %v", d)
	}
''', "an admission that does not fit after more than a hundred files were kept", "only the first hundred decisions are blamed", **R)

bug("state-pairs-of-16-bits", "C55", [(RL, "	binary.BigEndian.PutUint32(curArgs[:4], uint32(oldStateIdx))\n", "	binary.BigEndian.PutUint32(curArgs[:4], uint32(uint16(oldStateIdx)))\n")], '''
	v := "1"
	for i := 0; i < 300; i++ {
		v += ",1" + string(rune('0'+i/100%10)) + string(rune('0'+i/10%10)) + string(rune('0'+i%10))
	}
	b := `"openRight": true, "fileFeature": true, "buckets": [` + v + `]}`
	c := rl(t, "SCDL2", 150, "", `{"catSize": {"type": "float", ` + b + `, "catNumReq": {"type": "int", ` + b + `, "catDeltaLastRequest": {"type": "int", "buckets": [100000], "openRight": true, "fileFeature": true}}`, "onK", 149, 7)
	bad := 0
	for old := 65536; old < 66000; old++ {
		for _, s := range []int{old, old - 65536} {
			c.checkEvictionNextState(old-65536, s)
			if got, same := c.checkEvictionNextState(old, s), s == old; same && !got {
				bad++
			}
		}
	}
	if bad > 0 {
		t.Fatalf("%d states do not follow themselves", bad)
	}
''', "a table of more than 65536 states", "what follows a state is taken from another one", **R)

bug("last-line-of-a-long-log", "C54", [("cache/simpleCache.go", "	cache.logBuffer <- curChoice\n", "	select {\n	case cache.logBuffer <- curChoice:\n	default: // the writer is behind\n	}\n")], '''
	d := t.TempDir()
	old, _ := os.Getwd()
	_ = os.Chdir(d)
	defer os.Chdir(old)
	p := InitParameters{Log: true, AIRLType: "scdl2", EvictionAgentType: "none", MaxNumDayDiff: 1e6, DeltaDaysStep: 1e6}
	c := Create("aiRL", 1e9, "M", "", WeightFunctionParameters{})
	InitInstance("aiRL", c, p)
	for i := int64(0); i < 60000; i++ {
		get(c, i, 1, 0)
	}
	_ = Terminate(c)
	es, _ := os.ReadDir(d)
	n := 0
	for _, e := range es {
		f, _ := os.Open(e.Name())
		z, err := gzip.NewReader(f)
		if err != nil {
			continue
		}
		s := bufio.NewScanner(z)
		for s.Scan() {
			n++
		}
	}
	if n != 120001 {
		t.Fatalf("%d lines of 120001", n)
	}
''', "requests that come faster than the log is written", "events are missing in the log", head=RHEAD.replace('import (\n', 'import (\n\t"bufio"\n\t"compress/gzip"\n'))
