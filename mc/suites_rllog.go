//go:build go1.21

package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"simulator/v2/cache"
)

// suites_rllog.go: the event log of the RL cache (C54).

const rlNone = int64(math.MinInt64) // a file without figures

// rlEvent is a line of the log, or the lines of one consultation.
type rlEvent struct {
	head, tail string  // around the occupancy
	size       float64 // occupancy
	group      []rlEvent
	freed      float64
}

type rlLog struct {
	r      *rlRun
	want   []rlEvent
	in     bool // inside of a consultation
	closed bool
}

func (l *rlLog) event(kind string, f *rlFile) rlEvent {
	if f == nil {
		f = &rlFile{name: -1, size: -1, freq: -1, last: rlNone}
	}
	d := int64(math.MaxInt64)
	switch {
	case f.last == rlNone:
		d = -1
	case f.last >= 0:
		d = f.tick - f.last
	}
	return rlEvent{head: fmt.Sprintf("%d,%s", l.r.tick, kind), tail: fmt.Sprintf("%d,%0.2f,%d,%d", f.name, f.size, f.freq, d), size: l.r.size()}
}

func (l *rlLog) line(kind string, f *rlFile) {
	l.want = append(l.want, l.event(kind, f))
	l.in = false
}

// open begins a consultation of the eviction agent.
func (l *rlLog) open() {
	l.want = append(l.want, rlEvent{size: l.r.size(), group: []rlEvent{}})
	l.in = true
}

func (l *rlLog) member(kind string, f *rlFile) {
	e := l.event(kind, f)
	if !l.in {
		l.want = append(l.want, e)
		return
	}
	if kind == "DELETE" {
		e.freed = f.size
	}
	g := &l.want[len(l.want)-1]
	g.group = append(g.group, e)
}

func (l *rlLog) text(e rlEvent, size float64) string {
	return fmt.Sprintf("%s,%0.2f,%0.2f,%s", e.head, size, size/l.r.g.max*100, e.tail)
}

func (l *rlLog) compare() {
	c := l.r.c
	got := readLog(c)
	if len(got) == 0 || strings.Join(got[0], ",") != strings.Join(logHead, ",") {
		c.Failf("the log does not start with its header")
	}
	i := 1
	next := func(want string) string {
		if i >= len(got) {
			c.Failf("the log ends after %d lines, the next one should be %s", len(got), want)
		}
		i++
		return strings.Join(got[i-1], ",")
	}
	for _, e := range l.want {
		if e.group == nil {
			w := l.text(e, e.size)
			if g := next(w); g != w {
				c.Failf("log line %d: got %s, want %s", i-1, g, w)
			}
			continue
		}
		// the categories of a consultation come in any order
		size := e.size
		left := append([]rlEvent{}, e.group...)
		for len(left) > 0 {
			g := next(l.text(left[0], size-left[0].freed))
			at := -1
			var cand []string
			for j, m := range left {
				w := l.text(m, size-m.freed)
				cand = append(cand, w)
				if w == g {
					at = j
				}
			}
			if at < 0 {
				sort.Strings(cand)
				c.Failf("log line %d: got %s, want one of [%s]", i-1, g, strings.Join(cand, " | "))
			}
			size -= left[at].freed
			left = append(left[:at], left[at+1:]...)
		}
	}
	if i < len(got) {
		c.Failf("unexpected log line %v", got[i])
	}
}

func rlLogged(tier string) (out []*rlCfg) {
	d := depth(tier, 0, 1)
	e := only(evcFeatures, "catSize", "catNumReq")
	a := only(addFeatures, "size", "numReq")
	for _, g := range []*rlCfg{
		{name: "log-free", typ: "scdl2", evc: e, when: "onFree", k: 4, max: 3, sizes: []float64{1, 2}, nfiles: 4, actions: detEvict, depth: 5 + d, only: 2},
		{name: "log-k", typ: "scdl2", evc: e, when: "onK", k: 1, max: 3, sizes: []float64{1, 2}, nfiles: 3, actions: detEvict, depth: 5, only: 1, ops: []string{"cold"}},
		{name: "log-day", typ: "scdl2", evc: e, when: "onDayEnd", k: 4, max: 3, sizes: []float64{1, 2}, nfiles: 3, actions: detEvict, depth: 5 + d, only: 1, ops: []string{"day"}},
		{name: "log-none", typ: "scdl2", evc: e, when: "none", k: 4, max: 3, sizes: []float64{1, 2}, nfiles: 3, actions: detEvict, depth: 5 + d},
		{name: "log-scdl", typ: "scdl", add: a, when: "none", max: 3, sizes: []float64{1, 2, 4}, nfiles: 3, depth: 5 + d, ops: []string{"cold"}},
		{name: "log-scdl2", typ: "scdl2", add: a, when: "onFree", max: 3, sizes: []float64{1, 2}, nfiles: 3, depth: 5 + d, ops: []string{"clear"}},
		{name: "log-both", typ: "scdl2", add: a, evc: e, when: "onFree", k: 4, max: 3, sizes: []float64{1, 2}, nfiles: 3, actions: detEvict, depth: 5, only: 1},
		{name: "log-no-agents", typ: "scdl2", when: "onFree", max: 3, sizes: []float64{1, 2, 4}, nfiles: 4, depth: 5 + d},
	} {
		g.log = true
		out = append(out, g)
	}
	return
}

func init() {
	register("C54", &PropDef{Suites: func(tier string) []*Suite {
		return rlSuites(rlLogged(tier), logEnd)
	}})
}

func logEnd(r *rlRun) {
	r.log.closed = true
	if err := cache.Terminate(r.I); err != nil {
		r.c.Failf("terminate: %v", err)
	}
	r.c.State(fmt.Sprint(len(r.log.want)))
	r.log.compare()
}
