//go:build go1.21

// Package main is the model checker for the simulator module.  It is compiled
// *inside* the simulator's own module through a build overlay (see ../check),
// so it always exercises the code in /repo's working tree.
//
// explore.go: the stateless explorer.  A "suite" is a deterministic program
// over the real implementation whose only nondeterminism is Chooser.Choose.
// The explorer enumerates *every* sequence of choices (depth-first), which is
// every operation history / configuration / fault / schedule inside the
// suite's bounds.  Nothing is sampled.
package main

import (
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"strings"
	"time"
)

// Chooser resolves nondeterminism during one execution.
type Chooser struct {
	choices []int // chosen branch per choice point
	arity   []int // number of branches per choice point
	pos     int
	replay  bool

	shardDepth     int
	shard, nshards int

	labels []string
	trace  bool

	rec  *Recorder
	ops  int
	keep bool
}

type skipRun struct{}

// Choose returns a value in [0,n); the explorer tries all of them.
func (c *Chooser) Choose(n int) int {
	if n <= 0 {
		panic(fmt.Sprintf("verif: Choose(%d)", n))
	}
	if c.pos == len(c.choices) {
		c.choices = append(c.choices, 0)
	}
	v := c.choices[c.pos]
	if v >= n {
		if !c.replay {
			panic(fmt.Sprintf("verif: nondeterministic suite (choice %d of %d at %d)", v, n, c.pos))
		}
		v = n - 1
		c.choices[c.pos] = v
	}
	if c.pos == len(c.arity) {
		c.arity = append(c.arity, n)
	} else {
		c.arity[c.pos] = n
	}
	c.pos++
	if c.pos == c.shardDepth && !c.mine() {
		panic(skipRun{})
	}
	return v
}

// mine tells whether the current choice prefix belongs to this shard.
func (c *Chooser) mine() bool {
	if c.nshards <= 1 {
		return true
	}
	h := uint32(2166136261)
	for _, v := range c.choices[:c.pos] {
		h = (h ^ uint32(v+1)) * 16777619
	}
	h ^= h >> 15
	h *= 0x85ebca6b
	h ^= h >> 13
	return int(h%uint32(c.nshards)) == c.shard
}

// Pick is Choose over a list.
func Pick[T any](c *Chooser, xs []T) T { return xs[c.Choose(len(xs))] }

// Op counts one executed transition and (when replaying) records its label.
func (c *Chooser) Op(format string, a ...interface{}) {
	c.ops++
	if c.trace {
		c.labels = append(c.labels, fmt.Sprintf(format, a...))
	}
}

// Note records a label without counting a transition.
func (c *Chooser) Note(format string, a ...interface{}) {
	if c.trace {
		c.labels = append(c.labels, fmt.Sprintf(format, a...))
	}
}

// State registers an observed state for the distinct-state count.
func (c *Chooser) State(key string) {
	if c.rec != nil {
		h := fnv.New64a()
		h.Write([]byte(key))
		c.rec.addState(h.Sum64())
	}
}

// StateHash registers an already hashed state.
func (c *Chooser) StateHash(h uint64) {
	if c.rec != nil {
		c.rec.addState(h)
	}
}

// Failure is how a suite reports that the property does not hold.
type Failure struct {
	Key string // identifies the failing input / history precisely
	Msg string
}

func (f Failure) Error() string { return f.Msg }

// Failf aborts the current execution with a violation.
func (c *Chooser) Failf(format string, a ...interface{}) {
	panic(Failure{Msg: fmt.Sprintf(format, a...)})
}

// Suite is one bounded space of executions.
type Suite struct {
	Name   string
	Bounds string // human readable bounds, goes into evidence
	Run    func(c *Chooser)
	Shard  int  // depth of the prefix used to split the work (default 3)
	Solo   bool // not to be split: run in shard 0 only
}

// Violation is one found counterexample.
type Violation struct {
	Suite   string   `json:"suite"`
	Choices []int    `json:"choices"`
	Key     string   `json:"key"`
	Msg     string   `json:"msg"`
	Trace   []string `json:"trace"`
	Len     int      `json:"-"`
}

// Recorder accumulates what a worker covered.
type Recorder struct {
	Executions  int64
	Transitions int64
	MaxDepth    int
	states      map[uint64]struct{}
	stateCap    int
	Samples     []string
	Truncated   bool // the deadline was reached
}

func newRecorder() *Recorder {
	return &Recorder{states: make(map[uint64]struct{}), stateCap: 6_000_000}
}

func (r *Recorder) addState(h uint64) {
	if len(r.states) < r.stateCap {
		r.states[h] = struct{}{}
	}
}

// runOne executes the suite body once, turning panics into violations.
func runOne(s *Suite, c *Chooser) (viol *Violation, skipped bool) {
	defer func() {
		if e := recover(); e != nil {
			switch f := e.(type) {
			case skipRun:
				skipped = true
				return
			case Failure:
				viol = &Violation{Suite: s.Name, Choices: append([]int{}, c.choices[:c.pos]...), Key: f.Key, Msg: f.Msg, Trace: c.labels}
			default:
				if str, ok := e.(string); ok && strings.HasPrefix(str, "verif: ") {
					panic(e)
				}
				msg := fmt.Sprintf("the implementation panicked: %v", e)
				if c.trace {
					msg += "\n" + string(debug.Stack())
				}
				viol = &Violation{Suite: s.Name, Choices: append([]int{}, c.choices[:c.pos]...), Msg: msg, Trace: c.labels}
			}
		}
	}()
	s.Run(c)
	return nil, false
}

// explore enumerates every execution of the suite belonging to this shard.
// onViolation returns false to stop the exploration.
func explore(s *Suite, shard, nshards int, deadline time.Time, rec *Recorder, progress func(choices []int), onViolation func(v *Violation) bool) {
	if s.Solo {
		if shard != 0 {
			return
		}
		nshards = 1
	}
	sd := s.Shard
	if sd == 0 {
		sd = 3
	}
	c := &Chooser{shardDepth: sd, shard: shard, nshards: nshards, rec: rec}
	var n int64
	for {
		c.pos = 0
		c.ops = 0
		progress(c.choices)
		v, skipped := runOne(s, c)
		if !skipped && v == nil && c.pos < len(c.choices) {
			panic("verif: suite consumed fewer choices than its prefix: " + s.Name)
		}
		c.choices = c.choices[:c.pos]
		c.arity = c.arity[:c.pos]
		if !skipped && c.pos < sd && !c.mine() {
			skipped = true // a short execution belongs to exactly one shard
		}
		if !skipped {
			n++
			rec.Executions++
			rec.Transitions += int64(c.ops)
			if len(c.choices) > rec.MaxDepth {
				rec.MaxDepth = len(c.choices)
			}
			if v != nil && !onViolation(v) {
				return
			}
		}
		// next choice vector, depth first
		i := len(c.choices) - 1
		for i >= 0 && c.choices[i]+1 >= c.arity[i] {
			i--
		}
		if i < 0 {
			return
		}
		c.choices = c.choices[:i+1]
		c.arity = c.arity[:i+1]
		c.choices[i]++
		if n&255 == 0 && !deadline.IsZero() && time.Now().After(deadline) {
			rec.Truncated = true
			return
		}
	}
}

// replaySuite re-executes one recorded choice vector with tracing.
func replaySuite(s *Suite, choices []int) (*Violation, []string) {
	c := &Chooser{choices: append([]int{}, choices...), replay: true, trace: true}
	v, _ := runOne(s, c)
	return v, c.labels
}

// shrink tries to shorten a counterexample: it re-runs the suite with
// truncated and lowered choice vectors and keeps any that still fails.
func shrink(s *Suite, v *Violation, accept func(*Violation) bool) *Violation {
	best := v
	for round := 0; round < 4; round++ {
		improved := false
		for i := range best.Choices {
			for val := 0; i < len(best.Choices) && val < best.Choices[i]; val++ {
				cand := append([]int{}, best.Choices...)
				cand[i] = val
				c := &Chooser{choices: cand, replay: true}
				nv := tryRun(s, c)
				if nv != nil && accept(nv) && (len(nv.Choices) < len(best.Choices) || sum(nv.Choices) < sum(best.Choices)) {
					best = nv
					improved = true
					break
				}
			}
		}
		if !improved {
			break
		}
	}
	return best
}

func tryRun(s *Suite, c *Chooser) (v *Violation) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	v, _ = runOne(s, c)
	return v
}

func sum(xs []int) int {
	t := 0
	for _, x := range xs {
		t += x
	}
	return t
}
