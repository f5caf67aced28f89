package checks

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime/pprof"
	"strings"
	"sync"

	"verifmc/core"
	"verifmc/sched"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&core.Check{
		ID: "C08",
		Rule: "A case is a scenario (two or three operations out of reading, writing, failing to read or write, writing with indentation, writing a Period, encoding and decoding " +
			"other types, cloning, and calling the accessors, on the same or on different data), a start state (cold: package state as when the process starts; warm), a policy of the pool, " +
			"a granularity of scheduling points and a block of first preemptions; all schedules within the preemption bound that begin like this are executed on the instrumented real code " +
			"under the controlled scheduler. Each execution is judged by the results of the operations, which have to be those of an execution alone, by the race detector (happens-before), " +
			"and by panics, deadlock and livelock. Non-trivial: at least one preemption took place in the block.",
		Bounds: "Scheduling points at synchronization, at statements that use package-level variables which the code changes, and at input and output: two operations with two (thorough: three) " +
			"preemptions, three operations with one (thorough: two), where a switch at the end of an operation is free and preemptions at points that concern no other worker are left out " +
			"as equivalent to later ones; thorough also: every statement of the library as a scheduling point with one preemption, two operations.",
		Assumptions: []string{
			"sequential consistency: an execution without data race has no other behaviour; data races themselves are reported",
			"the operations of package sync and sync/atomic are modelled by stand-ins with the documented semantics and happens-before edges",
			"statements are atomic between scheduling points; interference inside of a statement is covered by the race detector",
			"models are not changed while they are written, and each operation has its own destination",
		},
		Run:              runConcur,
		HangS:            400,
		QuickDeadline:    480,
		ThoroughDeadline: 2700,
	})
}

const concDocA = `<MPD xmlns="urn:mpeg:dash:schema:mpd:2011" type="static" mediaPresentationDuration="PT4S"><Period id="p"><AdaptationSet mimeType="video/mp4"><SegmentTemplate media="$RepresentationID$.m4s" initialization="i$Bandwidth$"/><Representation id="r&amp;1" bandwidth="5"/></AdaptationSet></Period></MPD>`

const concDocB = `<?xml version="1.0"?><d:MPD xmlns:d="urn:mpeg:dash:schema:mpd:2011" profiles="a,b"><!-- c --><d:Period start="PT1.5S"><d:EventStream schemeIdUri="urn:scte:scte35:2013:xml"><d:Event presentationTime="7"><s:Signal xmlns:s="http://www.scte.org/schemas/35/2016"><s:Binary>AA==</s:Binary></s:Signal></d:Event></d:EventStream></d:Period></d:MPD>`

// concOp is one operation; it returns how to describe its result, which is
// called after the execution.
type concOp struct {
	name string
	run  func() func() string
}

// pointWriter is a destination with scheduling points.
type pointWriter struct {
	b    []byte
	left int // bytes that it accepts; negative: all
}

var errConcFull = errors.New("destination is full")

func (w *pointWriter) Write(p []byte) (int, error) {
	sched.Env()
	if w.left >= 0 {
		if len(p) > w.left {
			w.b = append(w.b, p[:w.left]...)
			n := w.left
			w.left = 0
			return n, errConcFull
		}
		w.left -= len(p)
	}
	w.b = append(w.b, p...)
	sched.Env()
	return len(p), nil
}

// pointReader is a source with scheduling points.
type pointReader struct{ s string }

func (r *pointReader) Read(p []byte) (int, error) {
	sched.Env()
	if r.s == "" {
		return 0, io.EOF
	}
	n := min(len(p), 40, len(r.s))
	copy(p, r.s[:n])
	r.s = r.s[n:]
	return n, nil
}

type concInner struct {
	N int    `xml:"n,attr"`
	T string `xml:"x>y>t,omitempty"`
}

type concGood struct {
	XMLName xml.Name `xml:"urn:g good"`
	concInner
	Any []xml.Attr `xml:",any,attr"`
	L   []*concSub `xml:"x>l"`
	C   string     `xml:",comment"`
	F   float64    `xml:"f"`
}

type concSub struct {
	V []byte `xml:",chardata"`
}

type concBad struct {
	A string `xml:"a"`
	B string `xml:"a"`
}

type concBadOuter struct {
	X string `xml:"x"`
	B concBad
}

func concOps() []concOp {
	mustRead := func(s string) *mpd.MPD {
		m, err := mpd.ReadFromString(s)
		if err != nil {
			panic(err)
		}
		return m
	}
	ma, mb := mustRead(concDocA), mustRead(concDocB)
	ma2 := mustRead(concDocA)
	good := &concGood{XMLName: xml.Name{Space: "urn:g", Local: "good"}, concInner: concInner{3, "t"}, L: []*concSub{{[]byte("1")}, {[]byte("<2")}}, C: "cc", F: 1.5,
		Any: []xml.Attr{{Name: xml.Name{Space: "urn:h", Local: "q"}, Value: "v"}}}
	read := func(s string) func() func() string {
		return func() func() string {
			m, err := mpd.ReadFromString(s)
			return func() string { return fmt.Sprintf("%v %s", err, dumpOf(m)) }
		}
	}
	write := func(m *mpd.MPD, indent string, header bool, limit int) func() func() string {
		return func() func() string {
			w := &pointWriter{left: limit}
			n, err := m.Write(w, indent, header)
			return func() string { return fmt.Sprintf("%d %v %s", n, err, w.b) }
		}
	}
	return []concOp{
		{"read A", read(concDocA)},
		{"read B", read(concDocB)},
		{"read damaged", read(strings.Replace(concDocA, "</Period>", "</Perion>", 1))},
		{"write A", write(ma, "", true, -1)},
		{"write A indented", write(ma, "  ", false, -1)},
		{"write B", write(mb, "", false, -1)},
		{"write A failing", write(ma2, " ", true, 150)},
		{"write Period of A", func() func() string {
			w := &pointWriter{left: -1}
			n, err := ma.Periods[0].Write(w, "\t")
			return func() string { return fmt.Sprintf("%d %v %s", n, err, w.b) }
		}},
		{"write B to a string", func() func() string {
			s, err := mb.WriteToString(" ", true)
			return func() string { return fmt.Sprintf("%v %s", err, s) }
		}},
		{"encode other types", func() func() string {
			b, err := xml.MarshalIndent(good, "", " ")
			_, err2 := xml.Marshal(concBadOuter{})
			_, err3 := xml.Marshal(&struct{ C chan int }{make(chan int)})
			return func() string { return fmt.Sprintf("%v %s %v %v", err, b, err2, err3) }
		}},
		{"decode other types", func() func() string {
			var g concGood
			d := xml.NewDecoder(&pointReader{`<good xmlns="urn:g" n="7" xmlns:h="urn:h" h:k="&lt;"><x><y><t>u</t></y><l>1</l><l>2</l></x><!--c--><f>2.5</f></good>`})
			err := d.Decode(&g)
			var bad concBadOuter
			err2 := xml.Unmarshal([]byte("<concBadOuter><x/><B><a/></B></concBadOuter>"), &bad)
			return func() string { return fmt.Sprintf("%v %s %v %s", err, dumpOf(g), err2, dumpOf(bad)) }
		}},
		{"encode tokens", func() func() string {
			w := &pointWriter{left: -1}
			e := xml.NewEncoder(w)
			e.Indent("", " ")
			var errs []error
			s := xml.StartElement{Name: xml.Name{Space: "urn:g", Local: "a"}, Attr: []xml.Attr{{Name: xml.Name{Space: "urn:h", Local: "q"}, Value: "\n"}}}
			for _, t := range []xml.Token{s, xml.CharData("x<"), xml.Comment("a--b"), xml.Comment("ok"), s.End()} {
				errs = append(errs, e.EncodeToken(t))
			}
			errs = append(errs, e.Close())
			return func() string { return fmt.Sprintf("%v %s", errs, w.b) }
		}},
		{"clone and accessors of A", func() func() string {
			c := mpd.Clone(ma)
			r := ma.Periods[0].AdaptationSets[0].Representations[0]
			i, err := r.GetInit()
			m, err2 := r.GetMedia()
			d, err3 := ma.Periods[0].GetDuration()
			return func() string { return fmt.Sprintf("%s %v %v %v %v %v %v", dumpOf(c), i, err, m, err2, d, err3) }
		}},
	}
}

type concConfig struct {
	ops    []int
	warm   bool
	pool   int
	gran   int
	bound  int
	starts []sched.Dev // the departure at the start, if any
}

// quickTriple are the operations that the quick tier combines three by three
// from the cold state.
var quickTriple = map[string]int{"read A": 1, "read B": 1, "write A": 1, "write A indented": 1, "write A failing": 1, "encode other types": 1}

func runConcur(c *core.Ctx) {
	ops := concOps()
	n := len(ops)
	if !sched.Instrumented {
		concFree(c, ops)
		return
	}
	// Results of the operations alone.
	want := map[[2]int]string{}
	alone := func(o, pool int) string {
		k := [2]int{o, pool}
		if s, ok := want[k]; ok {
			return s
		}
		sched.Restore()
		var f func() string
		out := sched.Run(sched.Fine, pool, nil, []func(){func() { f = ops[o].run() }})
		if len(out.Panics) > 0 || out.Abort != "" {
			want[k] = fmt.Sprint("fails alone: ", out)
		} else {
			want[k] = f()
		}
		return want[k]
	}
	var cfgs []concConfig
	add := func(cf concConfig) { cfgs = append(cfgs, cf) }
	warms := []bool{false, true}
	pools := []int{sched.PoolReuse, sched.PoolFresh, sched.PoolOldest}
	for _, warm := range warms {
		for a := 0; a < n; a++ {
			for b := a; b < n; b++ {
				for _, pool := range pools {
					if !warm && (pool == sched.PoolOldest || pool == sched.PoolFresh && !c.Thorough()) {
						continue
					}
					add(concConfig{ops: []int{a, b}, warm: warm, pool: pool, gran: sched.Coarse, bound: c.Pick(2, 3)})
				}
				pool := sched.PoolReuse
				if c.Thorough() {
					add(concConfig{ops: []int{a, b}, warm: warm, pool: pool, gran: sched.Fine, bound: 1})
				}
			}
		}
	}
	for _, warm := range warms {
		for a := 0; a < n; a++ {
			for b := a; b < n; b++ {
				for d := b; d < n; d++ {
					if !c.Thorough() && !warm && (quickTriple[ops[a].name] == 0 || quickTriple[ops[b].name] == 0 || quickTriple[ops[d].name] == 0) {
						continue
					}
					add(concConfig{ops: []int{a, b, d}, warm: warm, pool: sched.PoolReuse, gran: sched.Coarse, bound: c.Pick(1, 2)})
				}
			}
		}
	}
	if f := os.Getenv("MC_PROF"); f != "" {
		w, _ := os.Create(f)
		_ = pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	for _, cf := range cfgs {
		if c.Done() {
			break
		}
		e := &concExp{c: c, ops: ops, cf: cf, alone: alone}
		// The length of the default schedule tells how many blocks there are;
		// each block takes its share of the points of every execution order.
		steps := e.dry()
		block := 16
		if cf.gran == sched.Fine {
			block = 512
		}
		for lo := 0; lo < steps; lo += block {
			lo := lo
			c.Case(func() string { return e.name(lo, lo+block) }, func(t *core.T) { e.block(t, lo, lo+block) })
		}
	}
}

type concExp struct {
	c     *core.Ctx
	ops   []concOp
	cf    concConfig
	alone func(o, pool int) string
	t     *core.T
	seen  core.Distinct
	sw    bool
	table map[concKey]bool
	grown bool
}

func (e *concExp) name(lo, hi int) string {
	var ns []string
	for _, o := range e.cf.ops {
		ns = append(ns, e.ops[o].name)
	}
	return fmt.Sprintf("%s; %s, pool %s, %s points, up to %d preemptions, the first at %d..%d", strings.Join(ns, " ∥ "),
		map[bool]string{false: "cold", true: "warm"}[e.cf.warm], []string{"reuse", "fresh", "oldest"}[e.cf.pool],
		[]string{"fine", "coarse"}[e.cf.gran], e.cf.bound, lo, hi-1)
}

// exec runs one schedule and returns the options met after its last departure.
func (e *concExp) exec(devs []sched.Dev) (int, []string, sched.Outcome) {
	sched.Restore()
	if e.cf.warm {
		for _, o := range e.cf.ops {
			e.ops[o].run()
		}
	}
	res := make([]func() string, len(e.cf.ops))
	fns := make([]func(), len(e.cf.ops))
	for i, o := range e.cf.ops {
		fns[i] = func() { res[i] = e.ops[o].run() }
	}
	out := sched.Run(e.cf.gran, e.cf.pool, devs, fns)
	got := make([]string, len(res))
	for i, f := range res {
		if f != nil {
			got[i] = f()
		} else {
			got[i] = "no result"
		}
	}
	return out.Steps, got, out
}

// dry returns an upper bound of the points at which a first preemption can be.
func (e *concExp) dry() int {
	for _, o := range e.cf.ops {
		e.alone(o, e.cf.pool) // before any execution whose points are still needed
	}
	e.table = map[concKey]bool{}
	m, _, _ := e.exec(nil)
	e.note(m)
	for k := 1; k < len(e.cf.ops); k++ {
		s, _, _ := e.exec([]sched.Dev{{Step: 0, Target: k}})
		e.note(s)
		m = max(m, s)
	}
	return m
}

// block explores all schedules whose first preemption is at lo..hi-1. The block
// at 0 also has those without preemption.
func (e *concExp) block(t *core.T, lo, hi int) {
	e.t = t
	e.sw = false
	e.seen = core.Distinct{}
	for {
		e.grown = false
		e.explore(nil, 1, e.cf.bound, lo, hi)
		for k := 1; k < len(e.cf.ops); k++ {
			e.explore([]sched.Dev{{Step: 0, Target: k}}, 1, e.cf.bound, lo, hi)
		}
		if !e.grown || t.Failed() {
			break
		}
		// A schedule showed new accesses: some points that were passed over
		// matter after all.
		e.c.Count("repeated_blocks", 1)
	}
	t.CountStates(&e.seen)
	t.Eval(e.sw)
}

type concKey struct {
	object uintptr
	worker int8
}

// note adds the accesses of the last execution to the table of who accesses
// what in this scenario.
func (e *concExp) note(steps int) {
	for s := 0; s < steps; s++ {
		a := sched.At(s)
		if !a.Known || a.Object == 2 {
			continue
		}
		k := concKey{a.Object, a.Worker}
		if old, ok := e.table[k]; !ok || a.Write && !old {
			e.table[k] = a.Write || old
			e.grown = true
		}
	}
}

// conflicts reports whether another worker accesses the same object such that
// the order matters. A preemption where nobody else is concerned leads to the
// same behaviours as one at the next point of that worker.
func (e *concExp) conflicts(a sched.Access) bool {
	for w := range e.cf.ops {
		if int8(w) == a.Worker {
			continue
		}
		if wr, ok := e.table[concKey{a.Object, int8(w)}]; ok && (wr || a.Write) {
			return true
		}
	}
	return false
}

// racesBlamed is the number of races that have been reported as violations. A
// race that shows outside of a block (the detector reports each only once) is
// reported with the next block.
var racesBlamed int

type concOpt struct {
	step, target int
	cost         int
}

// explore executes a schedule, judges it, and goes on to those that depart from
// it at a later point; until the first preemption only points in [lo, hi).
func (e *concExp) explore(devs []sched.Dev, from, budget, lo, hi int) {
	if e.t.Failed() {
		return
	}
	steps, got, out := e.exec(devs)
	e.note(steps)
	first := budget == e.cf.bound
	if first && lo > 0 {
		// Judged in block 0.
	} else {
		e.judge(devs, steps, got, out)
	}
	if e.t.Failed() {
		return
	}
	var opts []concOpt
	for s := from; s < steps; s++ {
		mask, free := sched.Options(s)
		if mask == 0 {
			continue
		}
		if !free && (budget == 0 || first && (s < lo || s >= hi)) {
			continue
		}
		if a := sched.At(s); !free && a.Known && !e.conflicts(a) {
			continue
		}
		skipped := false
		for k := 0; k < len(e.cf.ops); k++ {
			if mask&(1<<k) == 0 {
				continue
			}
			if free {
				if !skipped {
					skipped = true // the default
					continue
				}
				opts = append(opts, concOpt{s, k, 0})
			} else {
				opts = append(opts, concOpt{s, k, 1})
			}
		}
	}
	for _, o := range opts {
		e.explore(append(devs[:len(devs):len(devs)], sched.Dev{Step: o.step, Target: o.target}), o.step+1, budget-o.cost, lo, hi)
	}
}

func (e *concExp) judge(devs []sched.Dev, steps int, got []string, out sched.Outcome) {
	t := e.t
	t.Step(steps)
	t.Trace()
	if out.Switches >= len(e.cf.ops) {
		e.sw = true
	}
	e.seen.Add(fmt.Sprint(e.cf.ops, e.cf.warm, e.cf.pool, e.cf.gran, devs))
	for _, p := range out.Panics {
		t.Failf("panic", "schedule %v: %s", devs, p)
	}
	if out.Abort != "" {
		t.Failf("blocked", "schedule %v: %s", devs, out.Abort)
	}
	for i, o := range e.cf.ops {
		if w := e.alone(o, e.cf.pool); got[i] != w {
			t.Failf("result", "schedule %v: %s gives\n%s\nalone it gives\n%s", devs, e.ops[o].name, got[i], w)
		}
	}
	if n := sched.RaceErrors(); n > racesBlamed {
		racesBlamed = n
		t.Failf("race", "schedule %v: data race\n%s", devs, raceReport())
	}
}

// raceReport returns what the race detector wrote to its log.
func raceReport() string {
	for _, kv := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(kv, "log_path="); ok {
			l, _ := filepath.Glob(fmt.Sprintf("%s.%d*", p, os.Getpid()))
			for _, f := range l {
				if b, err := os.ReadFile(f); err == nil {
					return string(b)
				}
			}
		}
	}
	return "(see the standard error of the check)"
}

// concFree is used if the code cannot be put under the controlled scheduler
// (because it starts goroutines or uses channels itself): the scenarios run
// freely under the race detector. This is no exploration and is marked as such.
func concFree(c *core.Ctx, ops []concOp) {
	c.Truncate()
	c.Count("uncontrolled", 1)
	want := make([]string, len(ops))
	for i, o := range ops {
		want[i] = o.run()()
	}
	for a := range ops {
		for b := a; b < len(ops); b++ {
			c.Case(func() string { return "free running: " + ops[a].name + " ∥ " + ops[b].name }, func(t *core.T) {
				races := sched.RaceErrors()
				for i := 0; i < 300 && !t.Failed(); i++ {
					var wg sync.WaitGroup
					res := make([]func() string, 4)
					for k := range res {
						wg.Add(1)
						go func() {
							defer wg.Done()
							res[k] = ops[[]int{a, b}[k%2]].run()
						}()
					}
					wg.Wait()
					for k, f := range res {
						if g := f(); g != want[[]int{a, b}[k%2]] {
							t.Failf("result", "got %s, alone %s", g, want[[]int{a, b}[k%2]])
						}
					}
					t.Trace()
				}
				if sched.RaceErrors() > races {
					t.Failf("race", "data race\n%s", raceReport())
				}
				t.Eval(true)
			})
		}
	}
}
