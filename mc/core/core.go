// Package core is the exploration engine shared by all checks: it enumerates
// cases deterministically, shards them over worker processes, survives crashes
// and hangs of the code under test, and measures what was covered.
package core

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Tier of the run.
const (
	Quick    = "quick"
	Thorough = "thorough"
)

// Violation is one failing case.
type Violation struct {
	Case   int64  `json:"case"`
	ID     string `json:"id"`
	Sig    string `json:"sig"`
	Detail string `json:"detail"`
}

// Result is what one shard reports.
type Result struct {
	Shard       int               `json:"shard"`
	Cases       int64             `json:"cases"`
	Evals       int64             `json:"evals"`
	Nontrivial  int64             `json:"nontrivial"`
	Transitions int64             `json:"transitions"`
	Traces      int64             `json:"traces"`
	Counted     int64             `json:"counted"`
	Truncated   bool              `json:"truncated"`
	Violations  []Violation       `json:"violations"`
	Samples     []string          `json:"samples"`
	Extra       map[string]int64  `json:"extra"`
	Notes       map[string]string `json:"notes"`
}

// Ctx is the exploration context of one shard.
type Ctx struct {
	Prop    string
	Tier    string
	Seed    int64
	Shard   int
	NShards int

	only     int64 // run only this case when >= 0
	stopAt   int64
	verbose  bool
	deadline time.Time

	counter int64
	mm      []byte // progress page shared with the supervisor
	states  map[uint64]struct{}
	res     Result
	maxViol int
	stopped bool
	curName func() string
	started atomic.Int64
	known   map[string]bool
	dead    bool
	outPath string
	mu      sync.Mutex
}

// T is the handle of one case.
type T struct {
	c      *Ctx
	id     string
	failed bool
}

// Thorough reports the deep tier.
func (c *Ctx) Thorough() bool { return c.Tier == Thorough }

// Pick returns q in the quick tier and t in the thorough tier.
func (c *Ctx) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

// Done reports that the exploration should stop (deadline or enough violations).
func (c *Ctx) Done() bool {
	if c.stopped {
		return true
	}
	if time.Now().After(c.deadline) {
		c.stopped = true
		c.res.Truncated = true
	}
	return c.stopped
}

// Mine advances the case counter and reports whether the next case belongs to
// this shard. Use it before building an expensive case; follow with Run.
func (c *Ctx) Mine() bool {
	n := c.counter
	c.counter++
	if c.stopped {
		return false
	}
	if c.only >= 0 {
		return n == c.only
	}
	if n%int64(c.NShards) != int64(c.Shard) {
		return false
	}
	if c.stopAt >= 0 && n > c.stopAt {
		return false
	}
	if n&63 == int64(c.Shard)&63 && c.Done() {
		return false
	}
	return true
}

// Case runs f as the next case when it belongs to this shard.
func (c *Ctx) Case(name func() string, f func(t *T)) {
	if c.Mine() {
		c.Run(name, f)
	}
}

// Run executes the case claimed by the preceding Mine.
func (c *Ctx) Run(name func() string, f func(t *T)) {
	n := c.counter - 1
	if c.mm != nil {
		binary.LittleEndian.PutUint64(c.mm, uint64(n)+1)
	}
	c.curName = name
	c.started.Store(time.Now().UnixNano())
	t := &T{c: c}
	func() {
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				t.Failf("panic", "panic: %v\n%s", r, trimStack(st))
			}
		}()
		f(t)
	}()
	c.started.Store(0)
	c.res.Cases++
	if len(c.res.Samples) < 4 && (c.res.Cases == 1 || c.res.Cases%997 == 5) {
		c.res.Samples = append(c.res.Samples, clip(name(), 400))
	}
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// Failf records a violation of the current case.
func (t *T) Failf(sig, format string, a ...any) {
	c := t.c
	if t.failed {
		return
	}
	t.failed = true
	id := c.curName()
	full := sig
	v := Violation{Case: c.counter - 1, ID: clip(id, 4000), Sig: full, Detail: clip(fmt.Sprintf(format, a...), 6000)}
	if c.verbose {
		fmt.Printf("case %d: %s\n  [%s] %s\n", v.Case, v.ID, v.Sig, v.Detail)
	}
	c.mu.Lock()
	c.res.Violations = append(c.res.Violations, v)
	nnew := 0
	for _, v := range c.res.Violations {
		if !c.known[v.Sig] {
			nnew++
		}
	}
	c.mu.Unlock()
	if nnew >= c.maxViol {
		c.stopped = true
	}
}

// Failed reports whether the case already failed.
func (t *T) Failed() bool { return t.failed }

// State records a visited state (observable outcome) by its canonical form.
func (t *T) State(parts ...string) { t.c.StateHash(HashStrings(parts...)) }

// StateHash records a state hash.
func (c *Ctx) StateHash(h uint64) { c.states[h] = struct{}{} }

// Distinct counts the distinct observations within one case without keeping
// them: used for chunks of very many small observations.
type Distinct struct{ m map[uint64]struct{} }

// Add records an observation.
func (d *Distinct) Add(s string) {
	if d.m == nil {
		d.m = map[uint64]struct{}{}
	}
	d.m[HashStrings(s)] = struct{}{}
}

// CountStates adds the number of distinct observations of the case.
func (t *T) CountStates(d *Distinct) { t.c.res.Counted += int64(len(d.m)) }

// SeenState records and reports whether it was new.
func (c *Ctx) SeenState(h uint64) bool {
	if _, ok := c.states[h]; ok {
		return true
	}
	c.states[h] = struct{}{}
	return false
}

// Step counts n transitions: calls into the code under test.
func (t *T) Step(n int) { t.c.res.Transitions += int64(n) }

// Trace counts one execution of the implementation compared against the
// reference model.
func (t *T) Trace() { t.c.res.Traces++ }

// Eval counts one evaluated case; nontrivial says whether it exercised the
// property by the check's rule.
func (t *T) Eval(nontrivial bool) {
	t.c.res.Evals++
	if nontrivial {
		t.c.res.Nontrivial++
	}
}

// Count adds to a named extra counter.
func (c *Ctx) Count(name string, n int64) {
	if c.res.Extra == nil {
		c.res.Extra = map[string]int64{}
	}
	c.res.Extra[name] += n
}

// Sample records a sample case.
func (c *Ctx) Sample(s string) {
	if len(c.res.Samples) < 8 {
		c.res.Samples = append(c.res.Samples, clip(s, 400))
	}
}

// Truncate marks the exploration as cut short.
func (c *Ctx) Truncate() { c.res.Truncated = true }

// HashStrings hashes the parts with separators.
func HashStrings(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		var l [4]byte
		binary.LittleEndian.PutUint32(l[:], uint32(len(p)))
		h.Write(l[:])
		h.Write([]byte(p))
	}
	return h.Sum64()
}

// Check describes one property check.
type Check struct {
	ID          string
	Level       string
	Rule        string // how cases are made and what makes one non-trivial
	Bounds      string // the stated bounds
	Assumptions []string
	Run         func(c *Ctx)
	// Sequential forces a single shard.
	Sequential bool
	// Deadlines in seconds per tier (0: defaults).
	QuickDeadline, ThoroughDeadline int
	// MemMB limits a shard's address space.
	MemMB int
	// HangS is the per-case watchdog in seconds.
	HangS int
	// Procs sets GOMAXPROCS of a shard (default 1).
	Procs int
	// GCPercent for the shard (default 200).
	GCPercent int
}

// Known is one entry of the known-findings file.
type Known struct {
	Property string `json:"property"`
	Sig      string `json:"sig"`
	What     string `json:"what"`
}

// KnownFile is the known-findings file.
type KnownFile struct {
	Findings []Known  `json:"findings"`
	Fixed    []string `json:"fixed"`
}

// LoadKnown reads the known findings of a property.
func LoadKnown(root, prop string) []Known {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.json"))
	if err != nil {
		return nil
	}
	var kf KnownFile
	if err := json.Unmarshal(b, &kf); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(2)
	}
	var out []Known
	for _, k := range kf.Findings {
		if k.Property == prop {
			out = append(out, k)
		}
	}
	return out
}

func envInt(name string, def int64) int64 {
	if s := os.Getenv(name); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			return n
		}
	}
	return def
}

// RunShard is the worker entry point.
func RunShard(ck *Check, root string) {
	procs := ck.Procs
	if procs == 0 {
		procs = 1
	}
	runtime.GOMAXPROCS(procs)
	gc := ck.GCPercent
	if gc == 0 {
		gc = 200
	}
	debug.SetGCPercent(gc)
	debug.SetMaxStack(512 << 20)
	c := &Ctx{
		Prop: ck.ID, Tier: os.Getenv("MC_TIER"), Seed: envInt("VERIF_SEED", 1),
		Shard: int(envInt("MC_SHARD", 0)), NShards: int(envInt("MC_NSHARDS", 1)),
		only: envInt("MC_ONLY", -1), stopAt: envInt("MC_STOPAT", -1),
		verbose: os.Getenv("MC_VERBOSE") != "",
		states:  map[uint64]struct{}{}, maxViol: int(envInt("MC_MAXVIOL", 6)),
		known: map[string]bool{}, outPath: os.Getenv("MC_OUT"),
	}
	for _, k := range LoadKnown(root, ck.ID) {
		c.known[k.Sig] = true
	}
	c.res.Shard = c.Shard
	c.deadline = time.Now().Add(time.Duration(envInt("MC_DEADLINE", 300)) * time.Second)
	if p := os.Getenv("MC_PROGRESS"); p != "" {
		f, err := os.OpenFile(p, os.O_RDWR|os.O_CREATE, 0o644)
		if err == nil {
			_ = f.Truncate(4096)
			c.mm, _ = syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			f.Close()
		}
	}
	if mb := envInt("MC_MEMMB", int64(ck.MemMB)); mb > 0 {
		debug.SetMemoryLimit(mb << 20 * 3 / 4)
	}
	hang := ck.HangS
	if hang == 0 {
		hang = 40
	}
	go c.watchdog(time.Duration(hang)*time.Second, int64(ck.MemMB))
	ck.Run(c)
	c.finish()
}

// watchdog turns a case that never ends, or that eats all memory, into a violation.
func (c *Ctx) watchdog(hang time.Duration, memMB int64) {
	var ms runtime.MemStats
	if memMB == 0 {
		memMB = 3000
	}
	for {
		time.Sleep(250 * time.Millisecond)
		s := c.started.Load()
		if s == 0 {
			continue
		}
		el := time.Since(time.Unix(0, s))
		if el > 2*time.Second {
			runtime.ReadMemStats(&ms)
			if int64(ms.HeapAlloc>>20) > memMB && int64(ms.HeapAlloc>>20) < 3*memMB {
				// Only what is still in use counts.
				runtime.GC()
				runtime.ReadMemStats(&ms)
			}
			if int64(ms.HeapAlloc>>20) > memMB {
				c.abort("memory", fmt.Sprintf("case still running after %v with %d MB of live heap", el.Round(time.Second), ms.HeapAlloc>>20))
			}
		}
		if el > hang {
			c.abort("hang", fmt.Sprintf("case did not finish within %v", hang))
		}
	}
}

func (c *Ctx) abort(sig, detail string) {
	c.mu.Lock()
	c.res.Violations = append(c.res.Violations, Violation{Case: c.counter - 1, ID: clip(c.curName(), 4000), Sig: sig, Detail: detail})
	c.mu.Unlock()
	if c.verbose {
		fmt.Printf("case %d: %s\n  [%s] %s\n", c.counter-1, clip(c.curName(), 4000), sig, detail)
	}
	c.finish()
	os.Exit(0)
}

func (c *Ctx) finish() {
	if c.outPath == "" {
		return
	}
	b, _ := json.Marshal(&c.res)
	hs := make([]uint64, 0, len(c.states))
	for h := range c.states {
		hs = append(hs, h)
	}
	hb := make([]byte, 8*len(hs))
	for i, h := range hs {
		binary.LittleEndian.PutUint64(hb[8*i:], h)
	}
	_ = os.WriteFile(c.outPath+".states", hb, 0o644)
	_ = os.WriteFile(c.outPath+".tmp", b, 0o644)
	_ = os.Rename(c.outPath+".tmp", c.outPath)
}

// SortedKeys returns the sorted keys of m.
func SortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
