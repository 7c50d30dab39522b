//go:build go1.21

package main

import (
	"math"

	"simulator/v2/cache/ai/qlearn"
)

// suites_learn.go: what the agents of the SCDL2 cache learn (C55).
//
// The values the decisions depend on are set before every step, so that the
// decisions remain the enumerated ones; the rate of learning is so small that
// the rewards can be read off the tables without turning a decision.  The best
// value of every state is a little different, so that the state a reward leads
// to can be read as well.

const (
	learnRate     = 1e-9
	learnDiscount = .5
	learnTol      = 1e-16
	learnMinEps   = -3.
	learnMaxEps   = -1.
	learnDecay    = .01
)

func learnValue(state int) float64 { return 1e-3 * (1 + float64(state)/1000) }

// learnTable watches one agent.
type learnTable struct {
	a      *qlearn.Agent
	want   map[[2]int]float64
	sum    float64
	n      int
	snap   [][]float64
	q0     float64
	before float64
}

func newLearnTable(a *qlearn.Agent) *learnTable {
	if a == nil {
		return nil
	}
	a.LearningRate, a.DiscountFactor = learnRate, learnDiscount
	a.MinEpsilon, a.MaxEpsilon, a.DecayRateEpsilon, a.Epsilon = learnMinEps, learnMaxEps, learnDecay, learnMaxEps
	return &learnTable{a: a, want: map[[2]int]float64{}}
}

func (t *learnTable) best(state int) float64 { return learnValue(state) }

// reward is one step of the rule, from a state by an action to another state.
func (t *learnTable) reward(from int, act qlearn.ActionType, to int, r float64) {
	i := -1
	for j, x := range t.a.QTable.ActionTypes {
		if x == act {
			i = j
		}
	}
	t.want[[2]int{from, i}] += r
	t.want[[2]int{from, -1 - i}] += learnDiscount * t.best(to)
	t.want[[2]int{from, 1000 + i}]++
	t.sum += r
	t.n++
}

func (t *learnTable) arm() {
	t.snap = nil
	for s, row := range t.a.QTable.Actions {
		top := 0
		for i, v := range row {
			if v > row[top] {
				top = i
			}
		}
		for i := range row {
			row[i] = 0
		}
		row[top] = learnValue(s)
		t.snap = append(t.snap, append([]float64{}, row...))
	}
	t.q0 = t.a.QValue
}

func (t *learnTable) check(c *Chooser, who, when string) {
	for s, row := range t.a.QTable.Actions {
		for i, v := range row {
			r, cnt := t.want[[2]int{s, i}], t.want[[2]int{s, 1000 + i}]
			want := learnRate * (r + t.want[[2]int{s, -1 - i}] - cnt*t.snap[s][i])
			if got := v - t.snap[s][i]; math.Abs(got-want) > learnTol+8*learnRate*learnRate*cnt*cnt {
				c.Failf("%s: the value of action %v in state %v of the %s agent moved by %.9g times the rate, want %.9g (reward %g in %g updates)", when, t.a.QTable.ActionTypes[i], t.a.QTable.States[s], who, got/learnRate, want/learnRate, r, cnt)
			}
		}
	}
	if got := t.a.QValue - t.q0; math.Abs(got-t.sum) > 1e-9 {
		c.Failf("%s: the rewards of the %s agent sum up to %v, want %v", when, who, got, t.sum)
	}
	if t.n > 0 {
		t.before += float64(t.n)
	}
	eps := learnMaxEps
	if t.before > 0 {
		eps = learnMinEps + (learnMaxEps-learnMinEps)*math.Exp(-learnDecay*t.before)
	}
	if !feq(t.a.Epsilon, eps) {
		c.Failf("%s: the exploration of the %s agent decayed to %v, want %v after %g updates", when, who, t.a.Epsilon, eps, t.before)
	}
	t.want, t.sum, t.n = map[[2]int]float64{}, 0, 0
}

type learnChoice struct {
	state  int
	act    qlearn.ActionType
	lo, hi float64 // bounds of the occupancy (%) at the choice, in any order of the categories
	open   bool    // until the occupancy the cache noted is known
}

type rlLearn struct {
	r        *rlRun
	add, evc *learnTable
	mem      map[int64][]learnChoice // eviction choices by file
	keep     []int                   // states of the remembered decisions to keep
	last     map[int]qlearn.ActionType
	store    map[int64][]learnChoice // admission choices by file
	calls    []learnCall             // choices of this step, per category
}

// learnCall is one category of a consultation.
type learnCall struct {
	call  int64
	act   qlearn.ActionType
	files []int64
	size  float64 // of each file
	full  float64 // occupancy before the consultation
}

func newLearn(r *rlRun) {
	r.learn = &rlLearn{r: r, add: newLearnTable(r.add), evc: newLearnTable(r.evc), mem: map[int64][]learnChoice{}, store: map[int64][]learnChoice{}}
}

// stateOf is the state of a category.
func (l *rlLearn) stateOf(k rlKey) int {
	a := l.r.evc
	idx := make([]int, len(a.QTable.FeatureManager.Features))
	for i, n := range []string{"catSize", "catNumReq", "catDeltaLastRequest"} {
		idx[featureAt(a, n)] = k[i]
	}
	return a.QTable.FeatureIdxs2StateIdx(idx...)
}

// choice: the agent decides about one category.
func (l *rlLearn) choice(k rlKey, fs []*rlFile, act qlearn.ActionType) {
	r := l.r
	if len(l.calls) == 0 || l.calls[len(l.calls)-1].call != r.calls {
		l.last = map[int]qlearn.ActionType{}
	}
	s := l.stateOf(k)
	l.last[s] = act
	cc := learnCall{call: r.calls, act: act}
	switch act {
	case qlearn.ActionDeleteAll, qlearn.ActionNotDelete:
		for _, f := range fs {
			cc.files = append(cc.files, f.name)
		}
	case qlearn.ActionDeleteOne:
		old := fs[0]
		for _, f := range fs {
			if f.tick < old.tick {
				old = f
			}
		}
		cc.files = append(cc.files, old.name)
	default:
		panic("verif: partial deletions are not followed here")
	}
	cc.size = fs[0].size
	if act == qlearn.ActionNotDelete {
		cc.size = 0
	}
	for _, f := range fs {
		if f.size != fs[0].size && act != qlearn.ActionNotDelete {
			panic("verif: a category with files of several sizes")
		}
	}
	cc.full = r.size()
	for _, x := range l.calls {
		if x.call == r.calls {
			cc.full = x.full // occupancy before the whole consultation
		}
	}
	l.calls = append(l.calls, cc)
	for _, n := range cc.files {
		l.mem[n] = append(l.mem[n], learnChoice{state: s, act: act, lo: -1, open: true})
		if act == qlearn.ActionNotDelete {
			l.keep = append(l.keep, s)
		}
	}
}

// settle bounds the occupancies of the choices of this step: the categories
// of a consultation come in any order.
func (l *rlLearn) settle() {
	total := map[int64]float64{}
	for _, cc := range l.calls {
		total[cc.call] += cc.size * float64(len(cc.files))
	}
	for n, m := range l.mem {
		for i := range m {
			if m[i].lo >= 0 {
				continue
			}
			for _, cc := range l.calls {
				for _, f := range cc.files {
					if f != n || cc.act != m[i].act {
						continue
					}
					own := cc.size * float64(len(cc.files))
					m[i].hi = (cc.full - cc.size) / l.r.g.max * 100
					m[i].lo = (cc.full - (total[cc.call] - own) - own) / l.r.g.max * 100
				}
			}
		}
	}
}

// punish: an admission that does not fit is blamed on what was kept.
func (l *rlLearn) punish() {
	qs := l.evc.a.QTable.States
	at := func(n string) int { return featureAt(l.evc.a, n) }
	for _, s := range l.keep {
		for t := range l.last {
			if qs[t][at("catSize")] == qs[s][at("catSize")] && qs[t][at("catDeltaLastRequest")] == qs[s][at("catDeltaLastRequest")] && qs[t][at("catNumReq")] >= qs[s][at("catNumReq")] {
				l.evc.reward(s, qlearn.ActionNotDelete, t, -1)
			}
		}
	}
	l.keep = nil
}

// outcome: the consultation for an admission made room for it, or not.
func (l *rlLearn) outcome(added bool) {
	if l.evc == nil {
		return
	}
	for s, act := range l.last {
		x := 1.
		if !added && act == qlearn.ActionNotDelete {
			x = -1
		}
		l.evc.reward(s, act, s, x)
	}
}

func (l *rlLearn) admission(n int64, state []int, act qlearn.ActionType) {
	l.store[n] = append(l.store[n], learnChoice{state: l.add.a.QTable.FeatureIdxs2StateIdx(state...), act: act})
}

// served: the past decisions about the file are judged by the request.  The
// occupancies are those the cache noted itself, see after.
func (l *rlLearn) served(n int64, hit bool) {
	if l.add != nil {
		m := l.store[n]
		for i := 0; i+2 < len(m); i++ {
			x := 1.
			if !hit {
				x = -1
				if m[i].act == qlearn.ActionNotStore {
					x = -2
				}
			}
			l.add.reward(m[i].state, m[i].act, m[i+1].state, x)
		}
	}
	if l.evc != nil {
		l.settle()
		m := l.mem[n]
		for i := 0; i+1 < len(m); i++ {
			a, b := m[i], m[i+1]
			more, less := a.lo >= b.lo, a.lo < b.lo // occupancy grew or not
			x := 0.
			switch {
			case hit && a.act == qlearn.ActionNotDelete && more:
				x = 3
			case hit && a.act == qlearn.ActionNotDelete:
				x = 2
			case hit:
				x = 1
			case a.act == qlearn.ActionNotDelete:
				x = -1
			case less:
				x = -3
			default:
				x = -2
			}
			l.evc.reward(a.state, a.act, b.state, x)
		}
	}
}

func (l *rlLearn) before() {
	l.settle()
	l.calls = nil
	for _, t := range []*learnTable{l.add, l.evc} {
		if t != nil {
			t.arm()
		}
	}
}

func (l *rlLearn) after(when string) {
	if l.add != nil {
		l.add.check(l.r.c, "addition", when)
	}
	if l.evc != nil {
		l.evc.check(l.r.c, "eviction", when)
		l.adopt(when)
	}
}

// adopt takes over the occupancies noted with the choices: which category came
// first is not specified.
func (l *rlLearn) adopt(when string) {
	for n, m := range l.mem {
		var got []qlearn.Choice
		for i := range m {
			if !m[i].open {
				continue
			}
			if got == nil {
				got = l.remembered(n)
				if len(got) != len(m) {
					l.r.c.Failf("%s: %d decisions about file %d are remembered, want %d", when, len(got), n, len(m))
				}
			}
			g := got[i]
			if g.State != m[i].state || g.Action != m[i].act || g.Capacity < m[i].lo-1e-6 || g.Capacity > m[i].hi+1e-6 {
				l.r.c.Failf("%s: the decision about file %d is remembered as %v in state %d at an occupancy of %v%%, want %v in state %d and %v%% to %v%%", when, n, actNames([]qlearn.ActionType{g.Action}), g.State, g.Capacity, actNames([]qlearn.ActionType{m[i].act}), m[i].state, m[i].lo, m[i].hi)
			}
			m[i].open = false
			m[i].lo, m[i].hi = g.Capacity, g.Capacity
		}
	}
}

func (l *rlLearn) remembered(n int64) (out []qlearn.Choice) {
	defer func() { recover() }()
	return l.evc.a.GetMemories(n)
}

func rlLearning(tier string) []*rlCfg {
	e := only(evcFeatures, "catSize", "catNumReq", "catDeltaLastRequest")
	a := only(addFeatures, "size", "numReq")
	d := depth(tier, 0, 1)
	return []*rlCfg{
		{name: "learn-free", learn: true, typ: "scdl2", evc: e, when: "onFree", k: 4, max: 3, sizes: []float64{1, 2}, nfiles: 4, actions: detEvict, depth: 5 + d},
		{name: "learn-k", learn: true, typ: "scdl2", evc: e, when: "onK", k: 1, max: 3, sizes: []float64{1, 2}, nfiles: 3, actions: detEvict, depth: 5 + d, only: 1, ops: []string{"cold"}},
		{name: "learn-day", learn: true, typ: "scdl2", evc: e, when: "onDayEnd", k: 4, max: 3, sizes: []float64{1, 2}, nfiles: 3, actions: detEvict, depth: 5 + d, only: 2, ops: []string{"day"}},
		{name: "learn-add", learn: true, typ: "scdl2", add: a, when: "onFree", max: 3, sizes: []float64{1, 2}, nfiles: 2, depth: 7 + d},
		{name: "learn-both", learn: true, typ: "scdl2", add: a, evc: e, when: "onFree", k: 4, max: 2, sizes: []float64{1, 2}, nfiles: 2, actions: detEvict, depth: 6 + d},
	}
}

func init() {
	register("C55", &PropDef{Procs: 1, Suites: func(tier string) []*Suite { return rlSuites(rlLearning(tier), func(r *rlRun) {}) }})
}
