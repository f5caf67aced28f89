// Package satomic stands in for sync/atomic in the instrumented copy of the code
// under test: a scheduling point before each real operation.
package satomic

import (
	"sync/atomic"
	"unsafe"

	"verifmc/sched"
)

// AddInt32 adds.
func AddInt32(p *int32, d int32) int32 {
	sched.Atomic(unsafe.Pointer(p), true)
	return atomic.AddInt32(p, d)
}

// LoadInt32 loads.
func LoadInt32(p *int32) int32 { sched.Atomic(unsafe.Pointer(p), false); return atomic.LoadInt32(p) }

// StoreInt32 stores.
func StoreInt32(p *int32, v int32) { sched.Atomic(unsafe.Pointer(p), true); atomic.StoreInt32(p, v) }

// SwapInt32 swaps.
func SwapInt32(p *int32, v int32) int32 {
	sched.Atomic(unsafe.Pointer(p), true)
	return atomic.SwapInt32(p, v)
}

// CompareAndSwapInt32 compares and swaps.
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	sched.Atomic(unsafe.Pointer(p), true)
	return atomic.CompareAndSwapInt32(p, a, b)
}

// AndInt32 is bitwise and.
func AndInt32(p *int32, m int32) int32 {
	sched.Atomic(unsafe.Pointer(p), true)
	return atomic.AndInt32(p, m)
}

// OrInt32 is bitwise or.
func OrInt32(p *int32, m int32) int32 {
	sched.Atomic(unsafe.Pointer(p), true)
	return atomic.OrInt32(p, m)
}

// Int32 is an atomic int32.
type Int32 struct{ v atomic.Int32 }

// Load loads.
func (x *Int32) Load() int32 { sched.Atomic(unsafe.Pointer(x), false); return x.v.Load() }

// Store stores.
func (x *Int32) Store(v int32) { sched.Atomic(unsafe.Pointer(x), true); x.v.Store(v) }

// Swap swaps.
func (x *Int32) Swap(v int32) int32 { sched.Atomic(unsafe.Pointer(x), true); return x.v.Swap(v) }

// CompareAndSwap compares and swaps.
func (x *Int32) CompareAndSwap(a, b int32) bool {
	sched.Atomic(unsafe.Pointer(x), true)
	return x.v.CompareAndSwap(a, b)
}

// Add adds.
func (x *Int32) Add(d int32) int32 { sched.Atomic(unsafe.Pointer(x), true); return x.v.Add(d) }

// And is bitwise and.
func (x *Int32) And(m int32) int32 { sched.Atomic(unsafe.Pointer(x), true); return x.v.And(m) }

// Or is bitwise or.
func (x *Int32) Or(m int32) int32 { sched.Atomic(unsafe.Pointer(x), true); return x.v.Or(m) }

// AddInt64 adds.
func AddInt64(p *int64, d int64) int64 {
	sched.Atomic(unsafe.Pointer(p), true)
	return atomic.AddInt64(p, d)
}

// LoadInt64 loads.
func LoadInt64(p *int64) int64 { sched.Atomic(unsafe.Pointer(p), false); return atomic.LoadInt64(p) }

// StoreInt64 stores.
func StoreInt64(p *int64, v int64) { sched.Atomic(unsafe.Pointer(p), true); atomic.StoreInt64(p, v) }

// SwapInt64 swaps.
func SwapInt64(p *int64, v int64) int64 {
	sched.Atomic(unsafe.Pointer(p), true)
	return atomic.SwapInt64(p, v)
}

// CompareAndSwapInt64 compares and swaps.
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	sched.Atomic(unsafe.Pointer(p), true)
	return atomic.CompareAndSwapInt64(p, a, b)
}

// AndInt64 is bitwise and.
func AndInt64(p *int64, m int64) int64 {
	sched.Atomic(unsafe.Pointer(p), true)
	return atomic.AndInt64(p, m)
}

// OrInt64 is bitwise or.
func OrInt64(p *int64, m int64) int64 {
	sched.Atomic(unsafe.Pointer(p), true)
	return atomic.OrInt64(p, m)
}

// Int64 is an atomic int64.
type Int64 struct{ v atomic.Int64 }

// Load loads.
func (x *Int64) Load() int64 { sched.Atomic(unsafe.Pointer(x), false); return x.v.Load() }

// Store stores.
func (x *Int64) Store(v int64) { sched.Atomic(unsafe.Pointer(x), true); x.v.Store(v) }

// Swap swaps.
func (x *Int64) Swap(v int64) int64 { sched.Atomic(unsafe.Pointer(x), true); return x.v.Swap(v) }

// CompareAndSwap compares and swaps.
func (x *Int64) CompareAndSwap(a, b int64) bool {
	sched.Atomic(unsafe.Pointer(x), true)
	return x.v.CompareAndSwap(a, b)
}

// Add adds.
func (x *Int64) Add(d int64) int64 { sched.Atomic(unsafe.Pointer(x), true); return x.v.Add(d) }

// And is bitwise and.
func (x *Int64) And(m int64) int64 { sched.Atomic(unsafe.Pointer(x), true); return x.v.And(m) }

// Or is bitwise or.
func (x *Int64) Or(m int64) int64 { sched.Atomic(unsafe.Pointer(x), true); return x.v.Or(m) }

// AddUint32 adds.
func AddUint32(p *uint32, d uint32) uint32 {
	sched.Atomic(unsafe.Pointer(p), true)
	return atomic.AddUint32(p, d)
}

// LoadUint32 loads.
func LoadUint32(p *uint32) uint32 {
	sched.Atomic(unsafe.Pointer(p), false)
	return atomic.LoadUint32(p)
}

// StoreUint32 stores.
func StoreUint32(p *uint32, v uint32) {
	sched.Atomic(unsafe.Pointer(p), true)
	atomic.StoreUint32(p, v)
}

// SwapUint32 swaps.
func SwapUint32(p *uint32, v uint32) uint32 {
	sched.Atomic(unsafe.Pointer(p), true)
	return atomic.SwapUint32(p, v)
}

// CompareAndSwapUint32 compares and swaps.
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	sched.Atomic(unsafe.Pointer(p), true)
	return atomic.CompareAndSwapUint32(p, a, b)
}

// AndUint32 is bitwise and.
func AndUint32(p *uint32, m uint32) uint32 {
	sched.Atomic(unsafe.Pointer(p), true)
	return atomic.AndUint32(p, m)
}

// OrUint32 is bitwise or.
func OrUint32(p *uint32, m uint32) uint32 {
	sched.Atomic(unsafe.Pointer(p), true)
	return atomic.OrUint32(p, m)
}

// Uint32 is an atomic uint32.
type Uint32 struct{ v atomic.Uint32 }

// Load loads.
func (x *Uint32) Load() uint32 { sched.Atomic(unsafe.Pointer(x), false); return x.v.Load() }

// Store stores.
func (x *Uint32) Store(v uint32) { sched.Atomic(unsafe.Pointer(x), true); x.v.Store(v) }

// Swap swaps.
func (x *Uint32) Swap(v uint32) uint32 { sched.Atomic(unsafe.Pointer(x), true); return x.v.Swap(v) }

// CompareAndSwap compares and swaps.
func (x *Uint32) CompareAndSwap(a, b uint32) bool {
	sched.Atomic(unsafe.Pointer(x), true)
	return x.v.CompareAndSwap(a, b)
}

// Add adds.
func (x *Uint32) Add(d uint32) uint32 { sched.Atomic(unsafe.Pointer(x), true); return x.v.Add(d) }

// And is bitwise and.
func (x *Uint32) And(m uint32) uint32 { sched.Atomic(unsafe.Pointer(x), true); return x.v.And(m) }

// Or is bitwise or.
func (x *Uint32) Or(m uint32) uint32 { sched.Atomic(unsafe.Pointer(x), true); return x.v.Or(m) }

// AddUint64 adds.
func AddUint64(p *uint64, d uint64) uint64 {
	sched.Atomic(unsafe.Pointer(p), true)
	return atomic.AddUint64(p, d)
}

// LoadUint64 loads.
func LoadUint64(p *uint64) uint64 {
	sched.Atomic(unsafe.Pointer(p), false)
	return atomic.LoadUint64(p)
}

// StoreUint64 stores.
func StoreUint64(p *uint64, v uint64) {
	sched.Atomic(unsafe.Pointer(p), true)
	atomic.StoreUint64(p, v)
}

// SwapUint64 swaps.
func SwapUint64(p *uint64, v uint64) uint64 {
	sched.Atomic(unsafe.Pointer(p), true)
	return atomic.SwapUint64(p, v)
}

// CompareAndSwapUint64 compares and swaps.
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	sched.Atomic(unsafe.Pointer(p), true)
	return atomic.CompareAndSwapUint64(p, a, b)
}

// AndUint64 is bitwise and.
func AndUint64(p *uint64, m uint64) uint64 {
	sched.Atomic(unsafe.Pointer(p), true)
	return atomic.AndUint64(p, m)
}

// OrUint64 is bitwise or.
func OrUint64(p *uint64, m uint64) uint64 {
	sched.Atomic(unsafe.Pointer(p), true)
	return atomic.OrUint64(p, m)
}

// Uint64 is an atomic uint64.
type Uint64 struct{ v atomic.Uint64 }

// Load loads.
func (x *Uint64) Load() uint64 { sched.Atomic(unsafe.Pointer(x), false); return x.v.Load() }

// Store stores.
func (x *Uint64) Store(v uint64) { sched.Atomic(unsafe.Pointer(x), true); x.v.Store(v) }

// Swap swaps.
func (x *Uint64) Swap(v uint64) uint64 { sched.Atomic(unsafe.Pointer(x), true); return x.v.Swap(v) }

// CompareAndSwap compares and swaps.
func (x *Uint64) CompareAndSwap(a, b uint64) bool {
	sched.Atomic(unsafe.Pointer(x), true)
	return x.v.CompareAndSwap(a, b)
}

// Add adds.
func (x *Uint64) Add(d uint64) uint64 { sched.Atomic(unsafe.Pointer(x), true); return x.v.Add(d) }

// And is bitwise and.
func (x *Uint64) And(m uint64) uint64 { sched.Atomic(unsafe.Pointer(x), true); return x.v.And(m) }

// Or is bitwise or.
func (x *Uint64) Or(m uint64) uint64 { sched.Atomic(unsafe.Pointer(x), true); return x.v.Or(m) }

// AddUintptr adds.
func AddUintptr(p *uintptr, d uintptr) uintptr {
	sched.Atomic(unsafe.Pointer(p), true)
	return atomic.AddUintptr(p, d)
}

// LoadUintptr loads.
func LoadUintptr(p *uintptr) uintptr {
	sched.Atomic(unsafe.Pointer(p), false)
	return atomic.LoadUintptr(p)
}

// StoreUintptr stores.
func StoreUintptr(p *uintptr, v uintptr) {
	sched.Atomic(unsafe.Pointer(p), true)
	atomic.StoreUintptr(p, v)
}

// SwapUintptr swaps.
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	sched.Atomic(unsafe.Pointer(p), true)
	return atomic.SwapUintptr(p, v)
}

// CompareAndSwapUintptr compares and swaps.
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	sched.Atomic(unsafe.Pointer(p), true)
	return atomic.CompareAndSwapUintptr(p, a, b)
}

// AndUintptr is bitwise and.
func AndUintptr(p *uintptr, m uintptr) uintptr {
	sched.Atomic(unsafe.Pointer(p), true)
	return atomic.AndUintptr(p, m)
}

// OrUintptr is bitwise or.
func OrUintptr(p *uintptr, m uintptr) uintptr {
	sched.Atomic(unsafe.Pointer(p), true)
	return atomic.OrUintptr(p, m)
}

// Uintptr is an atomic uintptr.
type Uintptr struct{ v atomic.Uintptr }

// Load loads.
func (x *Uintptr) Load() uintptr { sched.Atomic(unsafe.Pointer(x), false); return x.v.Load() }

// Store stores.
func (x *Uintptr) Store(v uintptr) { sched.Atomic(unsafe.Pointer(x), true); x.v.Store(v) }

// Swap swaps.
func (x *Uintptr) Swap(v uintptr) uintptr { sched.Atomic(unsafe.Pointer(x), true); return x.v.Swap(v) }

// CompareAndSwap compares and swaps.
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool {
	sched.Atomic(unsafe.Pointer(x), true)
	return x.v.CompareAndSwap(a, b)
}

// Add adds.
func (x *Uintptr) Add(d uintptr) uintptr { sched.Atomic(unsafe.Pointer(x), true); return x.v.Add(d) }

// And is bitwise and.
func (x *Uintptr) And(m uintptr) uintptr { sched.Atomic(unsafe.Pointer(x), true); return x.v.And(m) }

// Or is bitwise or.
func (x *Uintptr) Or(m uintptr) uintptr { sched.Atomic(unsafe.Pointer(x), true); return x.v.Or(m) }

// Bool is an atomic bool.
type Bool struct{ v atomic.Bool }

// Load loads.
func (x *Bool) Load() bool { sched.Atomic(unsafe.Pointer(x), false); return x.v.Load() }

// Store stores.
func (x *Bool) Store(v bool) { sched.Atomic(unsafe.Pointer(x), true); x.v.Store(v) }

// Swap swaps.
func (x *Bool) Swap(v bool) bool { sched.Atomic(unsafe.Pointer(x), true); return x.v.Swap(v) }

// CompareAndSwap compares and swaps.
func (x *Bool) CompareAndSwap(a, b bool) bool {
	sched.Atomic(unsafe.Pointer(x), true)
	return x.v.CompareAndSwap(a, b)
}

// Pointer is an atomic pointer.
type Pointer[T any] struct {
	_ [0]*T
	v atomic.Pointer[T]
}

// Load loads.
func (x *Pointer[T]) Load() *T { sched.Atomic(unsafe.Pointer(x), false); return x.v.Load() }

// Store stores.
func (x *Pointer[T]) Store(v *T) { sched.Atomic(unsafe.Pointer(x), true); x.v.Store(v) }

// Swap swaps.
func (x *Pointer[T]) Swap(v *T) *T { sched.Atomic(unsafe.Pointer(x), true); return x.v.Swap(v) }

// CompareAndSwap compares and swaps.
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool {
	sched.Atomic(unsafe.Pointer(x), true)
	return x.v.CompareAndSwap(a, b)
}

// Value is an atomic value.
type Value struct{ v atomic.Value }

// Load loads.
func (x *Value) Load() any { sched.Atomic(unsafe.Pointer(x), false); return x.v.Load() }

// Store stores.
func (x *Value) Store(v any) { sched.Atomic(unsafe.Pointer(x), true); x.v.Store(v) }

// Swap swaps.
func (x *Value) Swap(v any) any { sched.Atomic(unsafe.Pointer(x), true); return x.v.Swap(v) }

// CompareAndSwap compares and swaps.
func (x *Value) CompareAndSwap(a, b any) bool {
	sched.Atomic(unsafe.Pointer(x), true)
	return x.v.CompareAndSwap(a, b)
}

// LoadPointer loads.
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	sched.Atomic(unsafe.Pointer(p), false)
	return atomic.LoadPointer(p)
}

// StorePointer stores.
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	sched.Atomic(unsafe.Pointer(p), true)
	atomic.StorePointer(p, v)
}

// SwapPointer swaps.
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	sched.Atomic(unsafe.Pointer(p), true)
	return atomic.SwapPointer(p, v)
}

// CompareAndSwapPointer compares and swaps.
func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	sched.Atomic(unsafe.Pointer(p), true)
	return atomic.CompareAndSwapPointer(p, a, b)
}
