//go:build go1.21

package main

// C52: damaged inputs are refused, never used in part.
// C53: the neural network.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"

	"gonum.org/v1/gonum/mat"

	"simulator/v2/cache"
	"simulator/v2/cache/ai/featuremap"
	"simulator/v2/cache/ai/neuralnet"
)

func init() {
	// The reading happens in a child process: refusing an input may end it.
	if kind := os.Getenv("VERIF_CHILD"); kind != "" {
		before := runtime.NumGoroutine()
		text := readInput(kind, os.Getenv("VERIF_CHILD_PATH"))
		// a reader that is failing has closed its channel before: let it fail
		for end := time.Now().Add(3 * time.Second); runtime.NumGoroutine() > before && time.Now().Before(end); {
			time.Sleep(50 * time.Microsecond)
		}
		fmt.Print("\n<<<", text, ">>>\n")
		os.Exit(0)
	}
}

// readInput describes all that was read.
func readInput(kind, path string) string {
	var b strings.Builder
	switch kind {
	case "trace":
		for r := range cache.OpenSimFile(path) {
			fmt.Fprintf(&b, "%+v\n", r)
		}
	case "folder":
		d, err := os.Open(path)
		if err != nil {
			panic("verif: " + err.Error())
		}
		for r := range cache.OpenSimFolder(d) {
			fmt.Fprintf(&b, "%+v\n", r)
		}
	case "dataset":
		sc := Scn{Typ: "lruDatasetVerifier", Max: 1e6}
		sc.P.Dataset2TestPath = path
		i := newImpl(&sc)
		for f := int64(0); f < 400; f++ {
			_, ok := cache.GetFile(i, f, 1., int64(1), 50., day0)
			if ok || cache.Check(i, f) {
				fmt.Fprintf(&b, "%d ", f)
			}
		}
	case "features":
		m := featuremap.Parse(path)
		var all []string
		for _, o := range m.Features {
			all = append(all, fmt.Sprintf("%+v", o))
		}
		for _, o := range m.FileFeatures {
			all = append(all, fmt.Sprintf("file %+v", o))
		}
		sort.Strings(all)
		b.WriteString(strings.Join(all, "\n"))
	case "model":
		m := neuralnet.LoadModel(path)
		in := mat.NewDense(2, 1, []float64{1, -2})
		out := m.Predict(in)
		fmt.Fprintf(&b, "%s %d %v", m.Name, len(m.Layers), mat.Formatted(out))
		for _, l := range m.Layers {
			fmt.Fprintf(&b, "\n%s %s %v %v", l.Name, l.ActivationFunction, l.Weights.Values, l.Bias.Values)
		}
	default:
		panic("verif: child " + kind)
	}
	return b.String()
}

func runChild(kind, path string) (string, bool) {
	self, err := os.Executable()
	if err != nil {
		panic("verif: " + err.Error())
	}
	abs, _ := filepath.Abs(path)
	var out, errs bytes.Buffer
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), "VERIF_CHILD="+kind, "VERIF_CHILD_PATH="+abs, "GOTRACEBACK=none", "GOMAXPROCS=2")
	cmd.Stdout, cmd.Stderr = &out, &errs
	if err := cmd.Start(); err != nil {
		panic("verif: " + err.Error())
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(40 * time.Second):
		_ = cmd.Process.Kill()
		<-done
		return "no end", true
	}
	if strings.Contains(errs.String(), "verif: ") {
		panic("verif: child: " + errs.String())
	}
	text := out.String()
	i, j := strings.Index(text, "<<<"), strings.LastIndex(text, ">>>")
	if err != nil || i < 0 || j < i {
		return "", false
	}
	return text[i+3 : j], true
}

// damage chooses one damage of the bytes.
func damage(c *Chooser, orig []byte, patterns []byte) ([]byte, string) {
	const block = 16
	kind := c.Choose(4 + len(patterns))
	n := c.Choose(len(orig))
	data := append([]byte{}, orig...)
	switch kind {
	case 0:
		return data[:n], fmt.Sprintf("cut at byte %d of %d", n, len(orig))
	case 1:
		return append(append([]byte{}, orig[:n]...), orig[n+1:]...), fmt.Sprintf("byte %d of %d lost", n, len(orig))
	case 2, 3:
		e := n + block
		if e > len(orig) {
			e = len(orig)
		}
		if kind == 3 {
			return append(append([]byte{}, orig[:n]...), orig[e:]...), fmt.Sprintf("bytes %d to %d of %d lost", n, e, len(orig))
		}
		for k := n; k < e; k++ {
			data[k] = 0
		}
		return data, fmt.Sprintf("bytes %d to %d of %d zeroed", n, e, len(orig))
	default:
		x := patterns[kind-4]
		data[n] ^= x
		return data, fmt.Sprintf("byte %d of %d xor %#x", n, len(orig), x)
	}
}

func suitesDamage(tier string) []*Suite {
	patterns := []byte{0x01, 0x10, 0xff}
	if tier == "thorough" {
		patterns = []byte{0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0xff, 0x0f}
	}
	var out []*Suite
	mk := func(name, kind, bounds string, files map[string][]byte, victim, path string, dir bool) {
		var want string
		known := false
		out = append(out, &Suite{Name: name, Shard: 2, Bounds: bounds + fmt.Sprintf(": every truncation, lost byte, lost or zeroed block of 16 bytes and every byte with one of %d patterns of its bits flipped, read by a process of its own", len(patterns)),
			Run: func(c *Chooser) {
				root := "damage-" + name
				_ = os.RemoveAll(root)
				_ = os.MkdirAll(root, 0o755)
				put := func(data []byte) {
					for n, d := range files {
						if n == victim {
							d = data
						}
						mustWrite(filepath.Join(root, n), d)
					}
				}
				target := filepath.Join(root, path)
				if !known {
					put(files[victim])
					text, ok := runChild(kind, target)
					if !ok || text == "" || text == "no end" {
						c.Failf("the undamaged input is refused")
					}
					want, known = text, true
				}
				data, what := damage(c, files[victim], patterns)
				c.Op("%s: %s", victim, what)
				if bytes.Equal(data, files[victim]) {
					return
				}
				put(data)
				text, ok := runChild(kind, target)
				if ok && text != want {
					c.Failf("%s with %s was read without complaint, as\n%s\ninstead of\n%s", victim, what, text, want)
				}
				c.State(fmt.Sprint(name, what, ok))
			}})
	}
	recs := []cache.CSVRecord{seqRec(0), seqRec(1), seqRec(2)}
	text := traceText(recs, stdOrder)
	mk("trace", "trace", "a compressed trace of three records", map[string][]byte{"t.csv.gz": gz(text)}, "t.csv.gz", "t.csv.gz", false)
	long := traceText(func() (l []cache.CSVRecord) {
		for i := int64(0); i < 6; i++ {
			l = append(l, seqRec(i))
		}
		return
	}(), stdOrder)
	folder := map[string][]byte{"a.csv.gz": gz(text), "b.csv.gz": gz(long)}
	mk("folder-first", "folder", "a folder of two compressed traces, the first one damaged", folder, "a.csv.gz", "", true)
	if tier == "thorough" {
		mk("folder-last", "folder", "a folder of two compressed traces, the last one damaged", folder, "b.csv.gz", "", true)
	}
	set := func(n int64) []byte {
		var l []int64
		for i := int64(0); i < n; i++ {
			l = append(l, 3+i*2)
		}
		d, _ := json.Marshal(map[string]interface{}{"selected_files": l})
		return gz(d)
	}
	mk("dataset", "dataset", "the compressed list of 6 files of the dataset verifier", map[string][]byte{"d.json.gz": set(6)}, "d.json.gz", "d.json.gz", false)
	mk("dataset-long", "dataset", "the compressed list of 190 files of the dataset verifier", map[string][]byte{"d.json.gz": set(190)}, "d.json.gz", "d.json.gz", false)
	fm := []byte(`{"size": {"type": "float", "buckets": [1.5, 2.5, 40], "openRight": true}, "numReq": {"type": "int", "values": [1, 2, 30], "openRight": false, "fileFeature": true}}`)
	mk("features", "features", "a compressed feature map", map[string][]byte{"f.json.gz": gz(fm)}, "f.json.gz", "f.json.gz", false)
	model := []byte(`{"name": "m", "layers": [{"name": "a", "weights": {"shape": [2, 2], "values": [[0.5, -1.25], [2.125, 0.75]]}, "bias": {"shape": [2], "values": [0.25, -0.5]}, "activation_function": "sigmoid"}]}`)
	mk("model", "model", "a compressed neural network", map[string][]byte{"m.json.gz": gz(model)}, "m.json.gz", "m.json.gz", false)
	// plain texts: rows that lack fields, values that do not end
	plain := func(name, kind, file string, data []byte, from int, last func(cut []byte) bool) {
		out = append(out, &Suite{Name: "plain-" + name, Shard: 1, Bounds: fmt.Sprintf("a plain %s cut anywhere inside of a row or value", name), Run: func(c *Chooser) {
			n := from + c.Choose(len(data)-from)
			if !last(data[:n]) {
				return
			}
			_ = os.MkdirAll("plain-"+name, 0o755)
			p := filepath.Join("plain-"+name, file)
			mustWrite(p, data[:n])
			c.Op("%s cut at byte %d of %d", file, n, len(data))
			if text, ok := runChild(kind, p); ok {
				c.Failf("%s cut at byte %d was read without complaint, as\n%s", file, n, text)
			}
			c.State(fmt.Sprint(name, n))
		}})
	}
	plain("trace", "trace", "t.csv", text, 0, func(cut []byte) bool {
		rows := strings.Split(string(cut), "\n")
		r := rows[len(rows)-1]
		return len(rows) > 1 && r != "" && strings.Count(r, ",") < len(stdOrder)-1
	})
	// a trace made of several compressed parts, one after the other
	out = append(out, &Suite{Name: "parts", Bounds: "traces of 1..3 compressed parts with 0..2 records each, alone and in a folder: all records are read", Run: func(c *Chooser) {
		n := 1 + c.Choose(3)
		folder := c.Choose(2) == 1
		var data []byte
		var all []cache.CSVRecord
		for i := 0; i < n; i++ {
			k := c.Choose(3)
			part := []cache.CSVRecord{}
			for ; k > 0; k-- {
				part = append(part, seqRec(int64(len(all)+len(part))))
			}
			all = append(all, part...)
			t := traceText(part, stdOrder)
			if i > 0 {
				t = t[bytes.IndexByte(t, '\n')+1:]
			}
			data = append(data, gz(t)...)
		}
		c.Op("%d parts, %d records", n, len(all))
		_ = os.RemoveAll("parts")
		_ = os.MkdirAll("parts", 0o755)
		mustWrite("parts/t.csv.gz", data)
		mustWrite("whole.csv", traceText(all, stdOrder))
		kind, p := "trace", "parts/t.csv.gz"
		if folder {
			kind, p = "folder", "parts"
		}
		got, ok := runChild(kind, p)
		want, wok := runChild("trace", "whole.csv")
		if !ok || !wok {
			c.Failf("refused: %v %v", ok, wok)
		}
		if got != want {
			c.Failf("read as\n%s\ninstead of\n%s", got, want)
		}
		c.State(fmt.Sprint(n, len(all), folder))
	}})
	plain("features", "features", "f.json", fm, 0, func(cut []byte) bool { return true })
	plain("model", "model", "m.json", model, 0, func(cut []byte) bool { return true })
	return out
}

// ---- C53 ----

func suitesNeural(tier string) []*Suite {
	vals := []float64{0, 1, -0.5}
	if tier == "thorough" {
		vals = append(vals, 3, -20)
	}
	var mk func(name string, dims []int, free int, vals []float64) *Suite
	mk = func(name string, dims []int, free int, vals []float64) *Suite {
		return &Suite{Name: name, Bounds: fmt.Sprintf("networks of layers %v: inputs, weights and biases out of %v (the first %d of them chosen freely, the others following a fixed pattern), the three activation functions, stored plain and compressed", dims, vals, free), Run: func(c *Chooser) {
			k := 0
			next := func() float64 {
				k++
				if k <= free {
					return Pick(c, vals)
				}
				return float64((k*7)%5)/2 - 1
			}
			acts := []string{"sigmoid", "hard_sigmoid", "softmax"}
			var layers []map[string]interface{}
			in := make([]float64, dims[0])
			for i := range in {
				in[i] = next()
			}
			cur := append([]float64{}, in...)
			for l := 1; l < len(dims); l++ {
				act := acts[0]
				if l == len(dims)-1 {
					act = Pick(c, acts)
				} else {
					act = Pick(c, acts[:2])
				}
				w := make([][]float64, dims[l-1])
				for i := range w {
					w[i] = make([]float64, dims[l])
					for j := range w[i] {
						w[i][j] = next()
					}
				}
				b := make([]float64, dims[l])
				for j := range b {
					b[j] = next()
				}
				layers = append(layers, map[string]interface{}{"name": fmt.Sprint("l", l*(free%2)), "activation_function": act,
					"weights": map[string]interface{}{"shape": []int{dims[l-1], dims[l]}, "values": w},
					"bias":    map[string]interface{}{"shape": []int{dims[l]}, "values": b}})
				o := make([]float64, dims[l])
				sum := 0.
				for j := range o {
					x := b[j]
					for i := range cur {
						x += cur[i] * w[i][j]
					}
					switch act {
					case "sigmoid":
						x = 1 / (1 + math.Exp(-x))
					case "hard_sigmoid":
						x = math.Min(1, math.Max(0, .2*x+.5))
					case "softmax":
						x = math.Exp(x)
					}
					o[j] = x
					sum += x
				}
				if act == "softmax" {
					for j := range o {
						o[j] /= sum
					}
				}
				cur = o
			}
			text, err := json.Marshal(map[string]interface{}{"name": "net", "layers": layers})
			if err != nil {
				panic("verif: " + err.Error())
			}
			file := "net.json"
			if c.Choose(2) == 1 {
				file, text = "net.json.gz", gz(text)
			}
			mustWrite(file, text)
			c.Op("%s, input %v", layers, in)
			m := neuralnet.LoadModel(file)
			for again := 0; again < 2; again++ {
				got := m.Predict(mat.NewDense(dims[0], 1, append([]float64{}, in...)))
				r, n := got.Dims()
				flat := []float64{}
				for i := 0; i < r; i++ {
					for j := 0; j < n; j++ {
						flat = append(flat, got.At(i, j))
					}
				}
				if len(flat) != len(cur) {
					c.Failf("the prediction has %d values instead of %d", len(flat), len(cur))
				}
				best := 0
				for j := range cur {
					if !feq(flat[j], cur[j]) {
						c.Failf("prediction %d is %v instead of %v", j, flat, cur)
					}
					if cur[j] > cur[best]+1e-12 {
						best = j
					}
				}
				if layers[len(layers)-1]["activation_function"] == "softmax" {
					if g := neuralnet.GetPredictionArgMax(got); g < 0 || g >= len(cur) || cur[g] < cur[best]-1e-9 {
						c.Failf("the best of %v is said to be number %d", cur, g)
					}
				}
			}
			c.State(fmt.Sprint(layers, in))
		}}
	}
	few, great := vals, []float64{1, 0, 13, -12}
	return []*Suite{
		mk("one-1-1", []int{1, 1}, 3, few), mk("one-2-3", []int{2, 3}, 5, few), mk("one-3-2", []int{3, 2}, 5, few),
		mk("two-2-1-2", []int{2, 1, 2}, 6, few), mk("two-1-3-2", []int{1, 3, 2}, 5, few), mk("two-2-3-3", []int{2, 3, 3}, depth(tier, 5, 7), few), mk("three", []int{2, 2, 3, 2}, 4, few),
		mk("great-1-1", []int{1, 1}, 3, great), mk("great-1-3", []int{1, 3}, depth(tier, 4, 5), great), mk("great-2-2-2", []int{2, 2, 2}, depth(tier, 4, 6), great),
		mk("same-2-2-2-2", []int{2, 2, 2, 2}, depth(tier, 4, 6), few), mk("same-1-1-1", []int{1, 1, 1}, 4, few),
	}
}

func init() {
	register("C52", &PropDef{Suites: suitesDamage})
	register("C53", &PropDef{Suites: suitesNeural})
}
