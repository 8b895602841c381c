// Package main is the verification harness: it drives the real texted code
// under generated workloads while monitors compare what they observe with the
// reference model.
package main

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Ctx is one worker's view of a check.
type Ctx struct {
	Prop    string
	Tier    string
	Seed    int64
	Shard   int
	Shards  int
	Only    string // "phase:index" to run a single case
	Bin     string // the texted binary
	Self    string // this binary
	Scratch string // a private scratch directory
	Known   map[string]string

	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	events   map[string]int64
	samples  []string
	viols    []Violation
	failed   int             // how many of them are not known findings
	seen     map[string]bool // known findings met
	progress []byte          // shared with the parent: phase number, case index
	phaseNo  uint32
	cur      string // current case, for violations
	brief    string
}

// Violation is an observed breach of the property.
type Violation struct {
	Case string `json:"case"` // phase:index
	Sig  string `json:"sig"`  // identifies a known finding
	What string `json:"what"`
}

func (c *Ctx) thorough() bool { return c.Tier == "thorough" }

// scale picks the size of a workload.
func (c *Ctx) scale(quick, thorough int) int {
	if c.thorough() {
		return thorough
	}
	if quick < 40 { // a size, not a number of cases
		return quick
	}
	k := 4
	switch c.Prop {
	case "P03", "P11", "P15", "P18", "P26", "P31", "P39":
		k = 2
	}
	return min(quick*k, thorough)
}

func hash(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// Each runs n cases of a phase; every worker runs its share. The random choices
// of a case depend on the seed, the property, the phase and its index only.
func (c *Ctx) Each(phase string, n int, f func(r *rand.Rand, i int)) {
	c.phaseNo++
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("%s:%d", phase, i)
		if c.Only != "" {
			if c.Only != id {
				continue
			}
		} else if i%c.Shards != c.Shard {
			continue
		}
		c.cur = id
		if c.progress != nil {
			binary.LittleEndian.PutUint64(c.progress[8:], uint64(i))
			binary.LittleEndian.PutUint32(c.progress[4:], c.phaseNo)
			copy(c.progress[16:64], append([]byte(phase), 0))
			binary.LittleEndian.PutUint32(c.progress, binary.LittleEndian.Uint32(c.progress)+1)
		}
		start := time.Now()
		c.run(func() { f(rand.New(rand.NewSource(int64(hash(fmt.Sprint(c.Seed), c.Prop, id)))), i) })
		if d := time.Since(start); d > time.Second && os.Getenv("VH_SLOW") != "" {
			fmt.Printf("slow: %s %s %v\n", c.Prop, id, d)
		}
		if c.failed >= 12 {
			return
		}
	}
}

func (c *Ctx) run(f func()) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if !strings.Contains(st, "/repo/edlisp") && !strings.Contains(st, "/repo/tools") && !strings.Contains(st, "/repo/texted") {
				panic(p)
			}
			c.Fail("panic", "panic: %v\n%s", p, trimStack(st))
		}
	}()
	f()
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/repo/") && !strings.Contains(l, "zzverif") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, "\n")
}

// Eval counts an evaluation; key identifies it, "" if it is trivial.
func (c *Ctx) Eval(key string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.evals++
	if key != "" {
		c.distinct[hash(key)] = struct{}{}
	}
}

// EvalH is Eval with a ready-made hash (0 if trivial).
func (c *Ctx) EvalH(h uint64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.evals++
	if h != 0 {
		c.distinct[h] = struct{}{}
	}
}

// Event counts something the monitors observed.
func (c *Ctx) Event(name string) { c.EventN(name, 1) }

// EventN counts n of them.
func (c *Ctx) EventN(name string, n int64) {
	c.mu.Lock()
	c.events[name] += n
	c.mu.Unlock()
}

// Sample keeps a few cases for the evidence.
func (c *Ctx) Sample(format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.samples) < 3 {
		c.samples = append(c.samples, clip(fmt.Sprintf(format, args...), 600))
	}
}

// Fail records a violation.
func (c *Ctx) Fail(sig, format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, ok := c.Known[sig]; ok {
		c.events["known finding met: "+sig]++
		if c.seen[sig] {
			return
		}
		c.seen[sig] = true
	} else {
		c.failed++
	}
	c.viols = append(c.viols, Violation{Case: c.cur, Sig: sig, What: strings.ToValidUTF8(clip(fmt.Sprintf(format, args...), 3000), "\ufffd")})
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

func q(s string) string { return clip(fmt.Sprintf("%q", s), 300) }

// Dir makes a fresh scratch directory; the caller removes it.
func (c *Ctx) Dir() string {
	d, err := os.MkdirTemp(c.Scratch, "c")
	must(err)
	must(os.Chmod(d, 0o777))
	return d
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func writeFile(dir, name, text string) string {
	p := filepath.Join(dir, name)
	must(os.WriteFile(p, []byte(text), 0o644))
	return p
}

func mmapProgress(path string) []byte {
	f, err := os.OpenFile(path, os.O_RDWR, 0)
	must(err)
	defer f.Close()
	m, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	must(err)
	return m
}
