package main

// C44: the names of files are turned into the same numbers everywhere.

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/bits"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"simulator/v2/cache"
)

var blakeSigma = [12][16]byte{
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
	{14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
	{11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4},
	{7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
	{9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
	{2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
	{12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11},
	{13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
	{6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5},
	{10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0},
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
	{14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
}

var blakeIV = [8]uint64{0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
	0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179}

// blake2b is written after RFC 7693 (no key).
func blake2b(data []byte, size int) []byte {
	h := blakeIV
	h[0] ^= 0x01010000 ^ uint64(size)
	t := uint64(0)
	for {
		n := len(data)
		last := n <= 128
		if !last {
			n = 128
		}
		var block [128]byte
		copy(block[:], data[:n])
		data = data[n:]
		t += uint64(n)
		var m [16]uint64
		for i := range m {
			for j := 7; j >= 0; j-- {
				m[i] = m[i]<<8 | uint64(block[i*8+j])
			}
		}
		var v [16]uint64
		copy(v[:8], h[:])
		copy(v[8:], blakeIV[:])
		v[12] ^= t
		if last {
			v[14] = ^v[14]
		}
		for _, s := range blakeSigma {
			g := func(a, b, c, d int, x, y uint64) {
				v[a] += v[b] + x
				v[d] = bits.RotateLeft64(v[d]^v[a], -32)
				v[c] += v[d]
				v[b] = bits.RotateLeft64(v[b]^v[c], -24)
				v[a] += v[b] + y
				v[d] = bits.RotateLeft64(v[d]^v[a], -16)
				v[c] += v[d]
				v[b] = bits.RotateLeft64(v[b]^v[c], -63)
			}
			g(0, 4, 8, 12, m[s[0]], m[s[1]])
			g(1, 5, 9, 13, m[s[2]], m[s[3]])
			g(2, 6, 10, 14, m[s[4]], m[s[5]])
			g(3, 7, 11, 15, m[s[6]], m[s[7]])
			g(0, 5, 10, 15, m[s[8]], m[s[9]])
			g(1, 6, 11, 12, m[s[10]], m[s[11]])
			g(2, 7, 8, 13, m[s[12]], m[s[13]])
			g(3, 4, 9, 14, m[s[14]], m[s[15]])
		}
		for i := range h {
			h[i] ^= v[i] ^ v[i+8]
		}
		if last {
			break
		}
	}
	var out []byte
	for i := 0; i < size; i++ {
		out = append(out, byte(h[i/8]>>(8*uint(i%8))))
	}
	return out
}

// hashNames: every string of up to `length` characters out of a few, and
// names of every length up to `most`.
func hashNames(length, most int) []string {
	alpha := "/aZ0~"
	out := []string{""}
	prev := []string{""}
	for i := 0; i < length; i++ {
		var cur []string
		for _, p := range prev {
			for _, c := range alpha {
				cur = append(cur, p+string(c))
			}
		}
		out = append(out, cur...)
		prev = cur
	}
	for n := length + 1; n <= most; n++ {
		for _, pat := range []string{"a", "/store/data/Run2016B/x", "0123456789 _-."} {
			out = append(out, strings.Repeat(pat, n/len(pat)+1)[:n])
		}
	}
	for c := 0; c < 128; c++ {
		out = append(out, string([]byte{byte(c), 'f', byte(127 - c)}))
	}
	return out
}

const pyHash = `
import sys, json
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
import hash_tool
out = []
for line in open(sys.argv[2]):
    s = bytes.fromhex(line.strip()).decode("ascii")
    out.append([hash_tool.hash_hexdigest(s), str(hash_tool.hash_int(s)), hash_tool.hash_hexdigest(s, digest_size=4), str(hash_tool.hash_int(s, num_digits=3)), hash_tool.hash_hexdigest(s, 32), str(hash_tool.hash_int(s, digest_size=16, num_digits=12))])
json.dump(out, sys.stdout)
`

func pyHashes(names []string) [][]string {
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	var b strings.Builder
	for _, n := range names {
		b.WriteString(hex.EncodeToString([]byte(n)) + "\n")
	}
	if err := os.WriteFile("names", []byte(b.String()), 0o644); err != nil {
		panic("verif: " + err.Error())
	}
	abs, _ := filepath.Abs("names")
	cmd := exec.Command("python3", "-c", pyHash, filepath.Join(repo, "SmartCache/utils"), abs)
	data, err := cmd.Output()
	if err != nil {
		if e, ok := err.(*exec.ExitError); ok {
			panic(fmt.Sprintf("hash_tool fails: %s", e.Stderr))
		}
		panic("verif: " + err.Error())
	}
	var out [][]string
	if err := json.Unmarshal(data, &out); err != nil {
		panic("verif: " + err.Error())
	}
	return out
}

func hashSuite(length, most int) *Suite {
	names := hashNames(length, most)
	var py [][]string
	return &Suite{
		Name:   "names",
		Shard:  1,
		Bounds: fmt.Sprintf("%d names: every string of up to %d characters out of 5, names of every length up to %d in three patterns, every ASCII character", len(names), length, most),
		Run: func(c *Chooser) {
			if py == nil {
				py = pyHashes(names)
			}
			i := c.Choose(len(names))
			n := names[i]
			c.Op("name %q", n)
			sum := blake2b([]byte(n), 8)
			want := hex.EncodeToString(sum)
			v := uint64(0)
			for _, b := range sum {
				v = v<<8 | uint64(b)
			}
			if got := cache.HashHexDigest(n); got != want {
				c.Failf("simulator: digest of %q is %s, should be %s", n, got, want)
			}
			if got := cache.HashInt(n); got != uint32(v%10000000000) {
				c.Failf("simulator: number of %q is %d, should be %d", n, got, uint32(v%10000000000))
			}
			mod := func(size, digits int) string {
				x := new(big.Int).SetBytes(blake2b([]byte(n), size))
				return x.Mod(x, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(digits)), nil)).String()
			}
			for k, w := range []string{want, mod(8, 10), hex.EncodeToString(blake2b([]byte(n), 4)), mod(8, 3), hex.EncodeToString(blake2b([]byte(n), 32)), mod(16, 12)} {
				if py[i][k] != w {
					c.Failf("hash_tool: result %d of %q is %s, should be %s", k, n, py[i][k], w)
				}
			}
			c.State(want)
		},
	}
}

func init() {
	register("C44", &PropDef{
		Suites: func(tier string) []*Suite {
			return []*Suite{hashSuite(depth(tier, 4, 6), depth(tier, 400, 1500))}
		},
	})
}
