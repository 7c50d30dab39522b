//go:build go1.21

package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// PropDef describes how one property is decided.
type PropDef struct {
	Suites      func(tier string) []*Suite
	Assumptions []string
	Workers     int // 0 = number of CPUs
	Procs       int // GOMAXPROCS of a worker (default 2)
}

var registry = map[string]*PropDef{}

// crowdSuites are explored together with the suites of the property.
var crowdSuites = map[string]func(tier string) []*Suite{}

func (d *PropDef) all(tier string) []*Suite {
	out := d.Suites(tier)
	if f := crowdSuites[*flProp]; f != nil {
		out = append(out, f(tier)...)
	}
	return out
}

func register(id string, d *PropDef) { registry[id] = d }

type suiteCount struct {
	Name       string `json:"name"`
	Bounds     string `json:"bounds"`
	Executions int64  `json:"executions"`
}

type workerResult struct {
	Executions  int64            `json:"executions"`
	Transitions int64            `json:"transitions"`
	MaxDepth    int              `json:"max_depth"`
	Truncated   bool             `json:"truncated"`
	PerSuite    map[string]int64 `json:"per_suite"`
	Samples     []string         `json:"samples"`
	Violations  []*Violation     `json:"violations"`
	Known       []*Violation     `json:"known"`
}

// KnownFinding is one entry of the committed known-findings file.
type KnownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"` // "open" entries suppress; "fixed" ones do not
}

func loadKnown(path, prop string) map[string]KnownFinding {
	out := map[string]KnownFinding{}
	data, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, line := range strings.Split(string(data), "\n") {
		line = strings.TrimSpace(line)
		if line == "" || !strings.HasPrefix(line, "{") {
			continue
		}
		var k KnownFinding
		if json.Unmarshal([]byte(line), &k) == nil && k.Property == prop && k.Status == "open" {
			out[k.Key] = k
		}
	}
	return out
}

var (
	flProp    = flag.String("prop", "", "property id")
	flTier    = flag.String("tier", "quick", "quick or thorough")
	flWorker  = flag.Bool("worker", false, "worker mode")
	flShard   = flag.Int("shard", 0, "")
	flNShards = flag.Int("nshards", 1, "")
	flResult  = flag.String("result", "", "")
	flProg    = flag.String("progress", "", "")
	flDead    = flag.Int("deadline", 0, "seconds")
	flEvid    = flag.String("evidence", "", "evidence file to write")
	flRepDir  = flag.String("replaydir", "", "where replay files go")
	flKnown   = flag.String("known", "", "known findings file")
	flReplay  = flag.String("replay", "", "replay file to re-execute")
	flScratch = flag.String("scratch", "", "scratch directory")
	flSeed    = flag.Int("seed", 1, "seed (recorded only: nothing here is random)")
)

func main() {
	flag.Parse()
	def, ok := registry[*flProp]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *flProp)
		os.Exit(2)
	}
	switch {
	case *flReplay != "":
		os.Exit(doReplay(def))
	case *flWorker:
		os.Exit(doWorker(def))
	default:
		os.Exit(doParent(def))
	}
}

func doReplay(def *PropDef) int {
	data, err := os.ReadFile(*flReplay)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(data, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, tier := range []string{"quick", "thorough"} {
		for _, s := range def.all(tier) {
			if s.Name == v.Suite {
				nv, trace := replaySuite(s, v.Choices)
				for _, l := range trace {
					fmt.Println("  ", l)
				}
				if nv != nil {
					fmt.Println("REPRODUCED:", nv.Msg)
					return 1
				}
				fmt.Println("not reproduced: the property holds on this case")
				return 0
			}
		}
	}
	fmt.Fprintln(os.Stderr, "no such suite:", v.Suite)
	return 2
}

type progressFile struct{ mem []byte }

const progSize = 8192

func openProgress(path string) (*progressFile, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(progSize); err != nil {
		return nil, err
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, progSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &progressFile{mem}, nil
}

func (p *progressFile) set(suite int, choices []int) {
	m := p.mem
	binary.LittleEndian.PutUint64(m, binary.LittleEndian.Uint64(m)+1)
	binary.LittleEndian.PutUint32(m[8:], uint32(suite))
	n := len(choices)
	if n > 2000 {
		n = 2000
	}
	binary.LittleEndian.PutUint32(m[12:], uint32(n))
	for i := 0; i < n; i++ {
		binary.LittleEndian.PutUint16(m[16+2*i:], uint16(choices[i]))
	}
}

func (p *progressFile) get() (counter uint64, suite int, choices []int) {
	m := p.mem
	counter = binary.LittleEndian.Uint64(m)
	suite = int(binary.LittleEndian.Uint32(m[8:]))
	n := int(binary.LittleEndian.Uint32(m[12:]))
	if n > 2000 {
		n = 2000
	}
	for i := 0; i < n; i++ {
		choices = append(choices, int(binary.LittleEndian.Uint16(m[16+2*i:])))
	}
	return
}

func doWorker(def *PropDef) int {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(1500 << 20)
	known := loadKnown(*flKnown, *flProp)
	prog, err := openProgress(*flProg)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var deadline time.Time
	if *flDead > 0 {
		deadline = time.Now().Add(time.Duration(*flDead) * time.Second)
	}
	rec := newRecorder()
	res := workerResult{PerSuite: map[string]int64{}}
	stop := false
	for si, s := range def.all(*flTier) {
		if stop {
			break
		}
		before := rec.Executions
		explore(s, *flShard, *flNShards, deadline, rec,
			func(ch []int) { prog.set(si, ch) },
			func(v *Violation) bool {
				fill := func(v *Violation) {
					nv, trace := replaySuite(s, v.Choices)
					v.Trace = trace
					if nv != nil {
						v.Msg = nv.Msg
						if nv.Key != "" {
							v.Key = nv.Key
						}
					}
					if v.Key == "" {
						v.Key = s.Name + " | " + strings.Join(trace, " ; ")
					}
				}
				fill(v)
				if _, isKnown := known[v.Key]; isKnown {
					if len(res.Known) < 200 {
						res.Known = append(res.Known, v)
					}
					return true
				}
				sv := shrink(s, v, func(nv *Violation) bool {
					if len(known) == 0 {
						return true
					}
					w := *nv
					fill(&w)
					_, k := known[w.Key]
					return !k
				})
				if sv != v {
					sv.Key = ""
					fill(sv)
					if _, k := known[sv.Key]; k {
						sv = v
					}
				}
				res.Violations = append(res.Violations, sv)
				stop = true
				return false
			})
		// samples: a few executions of this suite, written out
		res.PerSuite[s.Name] += rec.Executions - before
		if *flShard == 0 && len(res.Samples) < 6 && !stop {
			if t := sampleTrace(s); t != "" {
				res.Samples = append(res.Samples, t)
			}
		}
	}
	prog.set(1<<30, nil)
	res.Executions, res.Transitions, res.MaxDepth, res.Truncated = rec.Executions, rec.Transitions, rec.MaxDepth, rec.Truncated
	// distinct states, as raw hashes, so that the parent can take the union
	f, err := os.Create(*flResult + ".states")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	buf := make([]byte, 0, 8*len(rec.states))
	for h := range rec.states {
		buf = binary.LittleEndian.AppendUint64(buf, h)
	}
	f.Write(buf)
	f.Close()
	data, _ := json.Marshal(res)
	if err := os.WriteFile(*flResult+".tmp", data, 0o644); err != nil {
		return 2
	}
	if err := os.Rename(*flResult+".tmp", *flResult); err != nil {
		return 2
	}
	return 0
}

// sampleTrace writes out one non-trivial execution of the suite (branch 1 at
// every choice point that has one).
func sampleTrace(s *Suite) (out string) {
	defer func() { _ = recover() }()
	ones := make([]int, 200)
	for i := range ones {
		ones[i] = 1
	}
	c := &Chooser{choices: ones, replay: true, trace: true}
	v, _ := runOne(s, c)
	if v != nil {
		return ""
	}
	return s.Name + ": " + strings.Join(c.labels, " ; ")
}

func doParent(def *PropDef) int {
	start := time.Now()
	workers := def.Workers
	if workers == 0 {
		workers = runtime.NumCPU()
	}
	if workers > 16 {
		workers = 16
	}
	limit := 300
	if *flTier == "thorough" {
		limit = 780
	}
	if e := os.Getenv("VERIF_DEADLINE"); e != "" {
		limit, _ = strconv.Atoi(e)
	}
	hang := 90 * time.Second
	suites := def.all(*flTier)
	scratch := *flScratch
	if scratch == "" {
		d, err := os.MkdirTemp("", "verif-mc-")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		scratch = d
		defer os.RemoveAll(d)
	}
	self, _ := os.Executable()
	type wstate struct {
		cmd      *exec.Cmd
		result   string
		errPath  string
		prog     *progressFile
		last     uint64
		lastTime time.Time
		done     chan error
		finished bool
		err      error
		hung     bool
	}
	ws := make([]*wstate, workers)
	for i := range ws {
		dir := filepath.Join(scratch, fmt.Sprintf("w%02d", i))
		if err := os.MkdirAll(dir, 0o755); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		w := &wstate{result: filepath.Join(scratch, fmt.Sprintf("r%02d.json", i)), errPath: filepath.Join(scratch, fmt.Sprintf("e%02d.log", i)), done: make(chan error, 1)}
		progPath := filepath.Join(scratch, fmt.Sprintf("p%02d", i))
		p, err := openProgress(progPath)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		w.prog = p
		w.cmd = exec.Command(self, "-worker", "-prop", *flProp, "-tier", *flTier, "-shard", strconv.Itoa(i), "-nshards", strconv.Itoa(workers), "-result", w.result, "-progress", progPath, "-deadline", strconv.Itoa(limit), "-known", *flKnown)
		w.cmd.Dir = dir
		ef, _ := os.Create(w.errPath)
		w.cmd.Stdout = ef
		w.cmd.Stderr = ef
		procs := def.Procs
		if procs == 0 {
			procs = 2
		}
		w.cmd.Env = append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", procs), "GOTRACEBACK=single")
		w.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := w.cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		ef.Close()
		w.lastTime = time.Now()
		go func() { w.done <- w.cmd.Wait() }()
		ws[i] = w
	}
	pending := workers
	for pending > 0 {
		time.Sleep(20 * time.Millisecond)
		for _, w := range ws {
			if w.finished {
				continue
			}
			select {
			case err := <-w.done:
				w.finished, w.err = true, err
				pending--
				continue
			default:
			}
			if n, _, _ := w.prog.get(); n != w.last {
				w.last, w.lastTime = n, time.Now()
			} else if time.Since(w.lastTime) > hang {
				w.hung = true
				w.lastTime = time.Now()
				w.cmd.Process.Kill()
			}
		}
	}
	// merge
	var viols, knownHit []*Violation
	states := map[uint64]struct{}{}
	tot := workerResult{PerSuite: map[string]int64{}}
	broken := false
	for i, w := range ws {
		data, rerr := os.ReadFile(w.result)
		if rerr != nil || w.err != nil {
			_, si, choices := w.prog.get()
			name := "?"
			if si < len(suites) {
				name = suites[si].Name
			}
			msg, _ := os.ReadFile(w.errPath)
			tail := string(msg)
			if len(tail) > 6000 {
				tail = tail[:6000]
			}
			if strings.Contains(tail, "verif: ") || (!w.hung && isKilled(w.err)) || name == "?" {
				fmt.Fprintf(os.Stderr, "worker %d failed: %v\n%s\n", i, w.err, tail)
				broken = true
				continue
			}
			what := "the process ended while executing this case"
			if w.hung {
				what = fmt.Sprintf("no progress for %v: the code under test does not terminate on this case", hang)
			}
			viols = append(viols, &Violation{Suite: name, Choices: choices, Key: name + " | died", Msg: what + ": " + fmt.Sprint(w.err) + "\n" + tail})
			continue
		}
		var r workerResult
		if err := json.Unmarshal(data, &r); err != nil {
			broken = true
			continue
		}
		tot.Executions += r.Executions
		tot.Transitions += r.Transitions
		if r.MaxDepth > tot.MaxDepth {
			tot.MaxDepth = r.MaxDepth
		}
		tot.Truncated = tot.Truncated || r.Truncated
		for k, v := range r.PerSuite {
			tot.PerSuite[k] += v
		}
		tot.Samples = append(tot.Samples, r.Samples...)
		viols = append(viols, r.Violations...)
		knownHit = append(knownHit, r.Known...)
		sb, _ := os.ReadFile(w.result + ".states")
		for o := 0; o+8 <= len(sb); o += 8 {
			states[binary.LittleEndian.Uint64(sb[o:])] = struct{}{}
		}
	}
	known := loadKnown(*flKnown, *flProp)
	seen := map[string]bool{}
	for _, v := range knownHit {
		if !seen[v.Key] {
			seen[v.Key] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *flProp, known[v.Key].What)
		}
	}
	sort.SliceStable(viols, func(i, j int) bool { return len(viols[i].Choices) < len(viols[j].Choices) })
	var per []suiteCount
	for _, s := range suites {
		per = append(per, suiteCount{s.Name, s.Bounds, tot.PerSuite[s.Name]})
	}
	if len(tot.Samples) > 6 {
		tot.Samples = tot.Samples[:6]
	}
	for i, s := range tot.Samples {
		if len(s) > 1500 {
			tot.Samples[i] = s[:1500] + " ..."
		}
	}
	assume := append([]string{"the Go toolchain, the standard library and the modules of the module cache work as documented", "nothing is claimed beyond the bounds listed per suite"}, def.Assumptions...)
	ev := map[string]interface{}{
		"property": *flProp,
		"tier":     *flTier,
		"seed":     *flSeed,
		"level":    "model_checking",
		"coverage": map[string]interface{}{
			"states":                        len(states),
			"transitions":                   tot.Transitions,
			"traces_validated_against_impl": tot.Executions,
			"max_choice_depth":              tot.MaxDepth,
			"exhaustive":                    !tot.Truncated && len(viols) == 0,
			"suites":                        per,
			"samples":                       tot.Samples,
			"rule":                          "stateless model checking of the real implementation: every choice sequence of every suite within its bounds is executed from a fresh instance and compared with a reference model; 'states' counts distinct final observations",
			"workers":                       workers,
		},
		"assumptions": assume,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(viols),
	}
	if *flEvid != "" {
		data, _ := json.MarshalIndent(ev, "", " ")
		_ = os.MkdirAll(filepath.Dir(*flEvid), 0o755)
		if err := os.WriteFile(*flEvid, append(data, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if len(viols) > 0 {
		v := viols[0]
		path := filepath.Join(*flRepDir, fmt.Sprintf("%s.json", *flProp))
		_ = os.MkdirAll(*flRepDir, 0o755)
		data, _ := json.MarshalIndent(v, "", " ")
		_ = os.WriteFile(path, append(data, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *flProp, path)
		fmt.Printf("suite %s\n", v.Suite)
		for _, l := range v.Trace {
			fmt.Println("  ", l)
		}
		fmt.Println(v.Msg)
		return 1
	}
	if broken {
		return 3
	}
	fmt.Printf("OK property=%s tier=%s executions=%d states=%d transitions=%d exhaustive=%v wall=%.1fs\n", *flProp, *flTier, tot.Executions, len(states), tot.Transitions, !tot.Truncated, time.Since(start).Seconds())
	return 0
}

func isKilled(err error) bool {
	ee, ok := err.(*exec.ExitError)
	if !ok {
		return false
	}
	st, ok := ee.Sys().(syscall.WaitStatus)
	return ok && st.Signaled() && st.Signal() == syscall.SIGKILL
}
