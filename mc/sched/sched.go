// Package sched is a controlled scheduler for the code under test, and the
// stand-in for package sync in the instrumented copy of it that C08 explores.
//
// Only one worker runs at a time. Before every statement of the instrumented
// code there is a call of P (or of G if the statement uses package-level
// variables that the code changes); the stand-ins of sync and sync/atomic and
// the harness call G. At such a point the scheduler lets the worker continue or
// switches to another, as the schedule says. The switches themselves are hidden
// from the race detector, which therefore sees exactly the synchronization of
// the code under test and judges every pair of accesses by happens-before,
// although the execution is sequential.
package sched

import (
	"fmt"
	"runtime/debug"
	stdsync "sync"
	"unsafe"
)

// Instrumented tells whether the code under test calls P and G; the overlay
// that makes it so sets it.
var Instrumented bool

// Dev is a departure from the default schedule: at this point, run that worker.
type Dev struct {
	Step   int
	Target int
}

// Granularity of the scheduling points.
const (
	Fine   = iota // every statement
	Coarse        // synchronization, package-level variables, input and output
)

// Pool policies.
const (
	PoolReuse  = iota // Get returns the item put last
	PoolFresh         // Get always makes a new item
	PoolOldest        // Get returns the item put first
)

const (
	maxSteps  = 1 << 21
	fairAfter = 400_000
)

type worker struct {
	id    int
	wake  chan struct{}
	wait  waiter
	done  bool
	fn    func()
	pan   any
	stack string
}

type waiter interface{ ready() bool }

type aborted struct{ why string }

var (
	cur      *worker
	workers  [8]*worker
	nWorkers int
	gran     int
	pool     int
	steps    int
	sinceSw  int
	devs     []Dev
	nextDev  int
	rec      [maxSteps]uint8 // enabled others; bit 7: free choice
	acc      [maxSteps]Access
	abortWhy string
	switches int
	all      stdsync.WaitGroup
)

// Outcome of one execution.
type Outcome struct {
	Steps    int
	Switches int
	Abort    string // deadlock or livelock
	Panics   []string
}

// Options returns the workers that could have been chosen at a point, and
// whether choosing one was free (the running worker could not go on).
func Options(step int) (mask uint8, free bool) { return rec[step] &^ 0x80, rec[step]&0x80 != 0 }

// Access is what happens at a point: which worker goes on there and what object
// of the code under test its next operation touches; 0 if that is not known.
type Access struct {
	Object uintptr
	Worker int8
	Write  bool
	Known  bool
}

// At returns the access at a point.
func At(step int) Access { return acc[step] }

// Run executes the functions as workers under the given schedule. Worker 0
// starts unless the first departure is at step 0.
func Run(granularity, poolPolicy int, schedule []Dev, fns []func()) Outcome {
	gran, pool, devs, nextDev, steps, sinceSw, switches, abortWhy = granularity, poolPolicy, schedule, 0, 0, 0, 0, ""
	nWorkers = len(fns)
	all.Add(nWorkers)
	for i, f := range fns {
		workers[i] = &worker{id: i, wake: make(chan struct{}, 1), fn: f}
		go workers[i].run()
	}
	start()
	all.Wait()
	out := Outcome{Steps: steps, Switches: switches, Abort: abortWhy}
	for i := range fns {
		w := workers[i]
		if w.pan != nil {
			if a, ok := w.pan.(aborted); ok {
				out.Abort = a.why
			} else {
				out.Panics = append(out.Panics, fmt.Sprintf("worker %d: panic: %v\n%s", i, w.pan, w.stack))
			}
		}
		workers[i] = nil
	}
	return out
}

//go:norace
func start() {
	t := choose(true)
	cur = t
	raceDisable()
	t.wake <- struct{}{}
	raceEnable()
}

func (w *worker) run() {
	w.sleep()
	defer w.finish()
	defer func() {
		if r := recover(); r != nil {
			w.pan = r
			w.stack = string(debug.Stack())
		}
	}()
	w.fn()
}

//go:norace
func (w *worker) sleep() {
	raceDisable()
	<-w.wake
	raceEnable()
}

//go:norace
func (w *worker) finish() {
	w.done = true
	left := 0
	for i := 0; i < nWorkers; i++ {
		if !workers[i].done {
			left++
		}
	}
	if left == 0 {
		cur = nil
		all.Done()
		return
	}
	t := choose(true)
	if t == nil {
		if abortWhy == "" {
			abortWhy = "deadlock: every worker that is left waits"
		}
		t = anyLeft()
	}
	cur = t
	switches++
	all.Done()
	raceDisable()
	t.wake <- struct{}{}
	raceEnable()
}

//go:norace
func anyLeft() *worker {
	for i := 0; i < nWorkers; i++ {
		if !workers[i].done {
			return workers[i]
		}
	}
	return nil
}

//go:norace
func enabled(w *worker) bool {
	if w.done {
		return false
	}
	return w.wait == nil || abortWhy != "" || w.wait.ready()
}

// choose decides at a point where the running worker cannot go on.
//
//go:norace
func choose(free bool) *worker {
	var m uint8
	var first *worker
	for i := 0; i < nWorkers; i++ {
		if enabled(workers[i]) {
			m |= 1 << i
			if first == nil {
				first = workers[i]
			}
		}
	}
	if steps >= maxSteps {
		return first
	}
	rec[steps] = m | 0x80
	acc[steps] = Access{}
	s := steps
	steps++
	sinceSw = 0
	if nextDev < len(devs) && devs[nextDev].Step == s {
		t := devs[nextDev].Target
		nextDev++
		if t < nWorkers && m&(1<<t) != 0 {
			return workers[t]
		}
	}
	return first
}

// P is a scheduling point before an ordinary statement.
//
//go:norace
func P() {
	if cur == nil || gran != Fine {
		return
	}
	point(Access{})
}

// G is a scheduling point before a statement that uses package-level variables
// that the code changes.
//
//go:norace
func G() {
	if cur == nil {
		return
	}
	point(Access{Object: 1, Write: true, Known: true})
}

// Env is a scheduling point in the environment, which shares nothing.
//
//go:norace
func Env() {
	if cur == nil {
		return
	}
	point(Access{Object: 2, Known: true})
}

// Atomic is a scheduling point before an atomic operation.
//
//go:norace
func Atomic(p unsafe.Pointer, write bool) { at(uintptr(p), write) }

//go:norace
func at(object uintptr, write bool) {
	if cur == nil {
		return
	}
	point(Access{Object: object, Write: write, Known: true})
}

//go:norace
func point(a Access) {
	w := cur
	if abortWhy != "" {
		panic(aborted{abortWhy})
	}
	if steps >= maxSteps {
		abortWhy = "livelock: no end after two million steps"
		panic(aborted{abortWhy})
	}
	s := steps
	steps++
	sinceSw++
	var m uint8
	for i := 0; i < nWorkers; i++ {
		if workers[i] != w && enabled(workers[i]) {
			m |= 1 << i
		}
	}
	rec[s] = m
	a.Worker = int8(w.id)
	acc[s] = a
	if nextDev < len(devs) && devs[nextDev].Step == s {
		t := devs[nextDev].Target
		nextDev++
		if m&(1<<t) != 0 {
			handoff(w, workers[t])
			return
		}
	}
	if sinceSw > fairAfter && m != 0 {
		for d := 1; d < nWorkers; d++ {
			t := (w.id + d) % nWorkers
			if m&(1<<t) != 0 {
				handoff(w, workers[t])
				return
			}
		}
	}
}

//go:norace
func handoff(from, to *worker) {
	cur = to
	sinceSw = 0
	switches++
	raceDisable()
	to.wake <- struct{}{}
	<-from.wake
	raceEnable()
	if abortWhy != "" {
		panic(aborted{abortWhy})
	}
}

// block suspends the running worker until the condition holds.
//
//go:norace
func block(c waiter) {
	w := cur
	if w == nil {
		panic("sched: would block outside of a controlled execution")
	}
	w.wait = c
	t := choose(true)
	if t == nil {
		abortWhy = "deadlock: every worker waits"
		w.wait = nil
		panic(aborted{abortWhy})
	}
	if t != w {
		handoff(w, t)
	}
	w.wait = nil
}
