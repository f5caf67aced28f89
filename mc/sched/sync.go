package sched

import (
	"reflect"
	"unsafe"
)

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex stands in for sync.Mutex.
type Mutex struct{ held bool }

type mutexFree struct{ m *Mutex }

//go:norace
func (c mutexFree) ready() bool { return !c.m.held }

// Lock locks.
//
//go:norace
func (m *Mutex) Lock() {
	at(uintptr(unsafe.Pointer(m)), true)
	for m.held {
		block(mutexFree{m})
	}
	m.held = true
	raceAcquire(unsafe.Pointer(m))
}

// TryLock tries to lock.
//
//go:norace
func (m *Mutex) TryLock() bool {
	at(uintptr(unsafe.Pointer(m)), true)
	if m.held {
		return false
	}
	m.held = true
	raceAcquire(unsafe.Pointer(m))
	return true
}

// Unlock unlocks.
//
//go:norace
func (m *Mutex) Unlock() {
	at(uintptr(unsafe.Pointer(m)), true)
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	raceRelease(unsafe.Pointer(m))
	m.held = false
}

// RWMutex stands in for sync.RWMutex.
type RWMutex struct {
	w       bool
	readers int
	a, b    int64 // addresses for the race detector
}

type rwFree struct {
	m     *RWMutex
	write bool
}

//go:norace
func (c rwFree) ready() bool { return !c.m.w && (!c.write || c.m.readers == 0) }

// Lock locks for writing.
//
//go:norace
func (m *RWMutex) Lock() {
	at(uintptr(unsafe.Pointer(m)), true)
	for m.w || m.readers > 0 {
		block(rwFree{m, true})
	}
	m.w = true
	raceAcquire(unsafe.Pointer(&m.a))
	raceAcquire(unsafe.Pointer(&m.b))
}

// TryLock tries to lock for writing.
//
//go:norace
func (m *RWMutex) TryLock() bool {
	at(uintptr(unsafe.Pointer(m)), true)
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	raceAcquire(unsafe.Pointer(&m.a))
	raceAcquire(unsafe.Pointer(&m.b))
	return true
}

// Unlock unlocks.
//
//go:norace
func (m *RWMutex) Unlock() {
	at(uintptr(unsafe.Pointer(m)), true)
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&m.a))
	m.w = false
}

// RLock locks for reading.
//
//go:norace
func (m *RWMutex) RLock() {
	at(uintptr(unsafe.Pointer(m)), true)
	for m.w {
		block(rwFree{m, false})
	}
	m.readers++
	raceAcquire(unsafe.Pointer(&m.a))
}

// TryRLock tries to lock for reading.
//
//go:norace
func (m *RWMutex) TryRLock() bool {
	at(uintptr(unsafe.Pointer(m)), true)
	if m.w {
		return false
	}
	m.readers++
	raceAcquire(unsafe.Pointer(&m.a))
	return true
}

// RUnlock unlocks.
//
//go:norace
func (m *RWMutex) RUnlock() {
	at(uintptr(unsafe.Pointer(m)), true)
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	raceReleaseMerge(unsafe.Pointer(&m.b))
	m.readers--
}

// RLocker returns the reading side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once stands in for sync.Once.
type Once struct {
	done bool
	m    Mutex
}

//go:norace
func (o *Once) isDone() bool {
	at(uintptr(unsafe.Pointer(o)), true)
	if o.done {
		raceAcquire(unsafe.Pointer(o))
	}
	return o.done
}

//go:norace
func (o *Once) setDone() {
	raceRelease(unsafe.Pointer(o))
	o.done = true
}

// Do calls f the first time.
func (o *Once) Do(f func()) {
	if o.isDone() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.setDone()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	g := OnceValue(func() struct{} { f(); return struct{}{} })
	return func() { g() }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var (
		once  Once
		valid bool
		p     any
		v     T
	)
	snapOnce(&once)
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		v = f()
		valid = true
	}
	return func() T {
		once.Do(g)
		if !valid {
			panic(p)
		}
		return v
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	type pair struct {
		a T1
		b T2
	}
	g := OnceValue(func() pair { a, b := f(); return pair{a, b} })
	return func() (T1, T2) { p := g(); return p.a, p.b }
}

// WaitGroup stands in for sync.WaitGroup.
type WaitGroup struct{ n int }

type wgZero struct{ w *WaitGroup }

//go:norace
func (c wgZero) ready() bool { return c.w.n == 0 }

// Add adds.
//
//go:norace
func (w *WaitGroup) Add(d int) {
	at(uintptr(unsafe.Pointer(w)), true)
	if d < 0 {
		raceReleaseMerge(unsafe.Pointer(w))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits.
//
//go:norace
func (w *WaitGroup) Wait() {
	at(uintptr(unsafe.Pointer(w)), true)
	for w.n > 0 {
		block(wgZero{w})
	}
	raceAcquire(unsafe.Pointer(w))
}

// Cond stands in for sync.Cond; wakeups are in order of arrival.
type Cond struct {
	L              Locker
	tickets, woken int
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

type condTurn struct {
	c *Cond
	t int
}

//go:norace
func (c condTurn) ready() bool { return c.t < c.c.woken }

// Wait waits.
//
//go:norace
func (c *Cond) Wait() {
	t := c.tickets
	c.tickets++
	c.L.Unlock()
	for t >= c.woken {
		block(condTurn{c, t})
	}
	raceAcquire(unsafe.Pointer(c))
	c.L.Lock()
}

// Signal wakes one.
//
//go:norace
func (c *Cond) Signal() {
	at(uintptr(unsafe.Pointer(c)), true)
	raceReleaseMerge(unsafe.Pointer(c))
	if c.woken < c.tickets {
		c.woken++
	}
}

// Broadcast wakes all.
//
//go:norace
func (c *Cond) Broadcast() {
	at(uintptr(unsafe.Pointer(c)), true)
	raceReleaseMerge(unsafe.Pointer(c))
	c.woken = c.tickets
}

// Pool stands in for sync.Pool.
type Pool struct {
	New  func() any
	head *poolItem
}

type poolItem struct {
	v    any
	sync *int64
	next *poolItem
}

// Put gives an item back.
//
//go:norace
func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	at(uintptr(unsafe.Pointer(p)), true)
	it := &poolItem{v: v, sync: new(int64), next: p.head}
	raceReleaseMerge(unsafe.Pointer(it.sync))
	p.head = it
}

//go:norace
func (p *Pool) take() (any, bool) {
	at(uintptr(unsafe.Pointer(p)), true)
	it := p.head
	if it == nil || pool == PoolFresh && cur != nil {
		return nil, false
	}
	if pool == PoolOldest && it.next != nil {
		q := it
		for q.next.next != nil {
			q = q.next
		}
		it = q.next
		q.next = nil
	} else {
		p.head = it.next
	}
	raceAcquire(unsafe.Pointer(it.sync))
	return it.v, true
}

//go:norace
func (p *Pool) maker() func() any { return p.New }

// Get takes an item or makes one.
func (p *Pool) Get() any {
	if v, ok := p.take(); ok {
		return v
	}
	if f := p.maker(); f != nil {
		return f()
	}
	return nil
}

// Map stands in for sync.Map.
type Map struct{ head *mapEntry }

type mapEntry struct {
	k, v any
	sync *int64
	next *mapEntry
}

// coarseMaps are the maps whose keys are not told apart.
var coarseMaps [16]*Map

//go:norace
func (m *Map) whole() uintptr {
	for i, c := range coarseMaps {
		if c == m {
			break
		}
		if c == nil {
			coarseMaps[i] = m
			break
		}
	}
	return uintptr(unsafe.Pointer(m))
}

// object identifies what an operation on the key touches: the key if it is a
// pointer (as types are), else the whole map.
//
//go:norace
func (m *Map) object(k any) uintptr {
	if reflect.TypeOf(k).Kind() != reflect.Pointer {
		return m.whole()
	}
	for _, c := range coarseMaps {
		if c == m || c == nil {
			if c == m {
				return uintptr(unsafe.Pointer(m))
			}
			break
		}
	}
	return uintptr(unsafe.Pointer(m)) ^ (*[2]uintptr)(unsafe.Pointer(&k))[1]
}

//go:norace
func (m *Map) find(k any) *mapEntry {
	for e := m.head; e != nil; e = e.next {
		if e.k == k {
			return e
		}
	}
	return nil
}

//go:norace
func (m *Map) del(k any) {
	for p := &m.head; *p != nil; p = &(*p).next {
		if (*p).k == k {
			*p = (*p).next
			return
		}
	}
}

//go:norace
func (m *Map) set(k, v any) {
	if e := m.find(k); e != nil {
		raceReleaseMerge(unsafe.Pointer(e.sync))
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v, sync: new(int64)}
	raceReleaseMerge(unsafe.Pointer(e.sync))
	// At the end, so that iterations see the order of insertion.
	p := &m.head
	for *p != nil {
		p = &(*p).next
	}
	*p = e
}

// Load loads.
//
//go:norace
func (m *Map) Load(k any) (any, bool) {
	at(m.object(k), false)
	e := m.find(k)
	if e == nil {
		return nil, false
	}
	raceAcquire(unsafe.Pointer(e.sync))
	return e.v, true
}

// Store stores.
//
//go:norace
func (m *Map) Store(k, v any) {
	at(m.object(k), true)
	m.set(k, v)
}

// Clear deletes all.
//
//go:norace
func (m *Map) Clear() {
	at(m.whole(), true)
	m.head = nil
}

// LoadOrStore loads or stores.
//
//go:norace
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	at(m.object(k), true)
	if e := m.find(k); e != nil {
		raceAcquire(unsafe.Pointer(e.sync))
		return e.v, true
	}
	m.set(k, v)
	return v, false
}

// LoadAndDelete loads and deletes.
//
//go:norace
func (m *Map) LoadAndDelete(k any) (any, bool) {
	at(m.object(k), true)
	e := m.find(k)
	if e == nil {
		return nil, false
	}
	raceAcquire(unsafe.Pointer(e.sync))
	m.del(k)
	return e.v, true
}

// Delete deletes.
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

// Swap swaps.
//
//go:norace
func (m *Map) Swap(k, v any) (any, bool) {
	at(m.object(k), true)
	e := m.find(k)
	if e == nil {
		m.set(k, v)
		return nil, false
	}
	raceAcquire(unsafe.Pointer(e.sync))
	old := e.v
	m.set(k, v)
	return old, true
}

// CompareAndSwap compares and swaps.
//
//go:norace
func (m *Map) CompareAndSwap(k, old, v any) bool {
	at(m.object(k), true)
	e := m.find(k)
	if e == nil || e.v != old {
		return false
	}
	raceAcquire(unsafe.Pointer(e.sync))
	m.set(k, v)
	return true
}

// CompareAndDelete compares and deletes.
//
//go:norace
func (m *Map) CompareAndDelete(k, old any) bool {
	at(m.object(k), true)
	e := m.find(k)
	if e == nil || e.v != old {
		return false
	}
	raceAcquire(unsafe.Pointer(e.sync))
	m.del(k)
	return true
}

//go:norace
func (m *Map) step(e *mapEntry, first bool) (*mapEntry, any, any) {
	at(m.whole(), false)
	if first {
		e = m.head
	} else {
		e = e.next
	}
	if e == nil {
		return nil, nil, nil
	}
	raceAcquire(unsafe.Pointer(e.sync))
	return e, e.k, e.v
}

// Range iterates.
func (m *Map) Range(f func(k, v any) bool) {
	e, k, v := m.step(nil, true)
	for e != nil {
		if !f(k, v) {
			return
		}
		e, k, v = m.step(e, false)
	}
}
