// Package mcatomic replaces package sync/atomic in instrumented code.
package mcatomic

import (
	"sync/atomic"
	"unsafe"

	"vmc/mc"
)

func pt(s string) { mc.Point(s) }

// AddInt32 adds.
func AddInt32(p *int32, d int32) int32 { pt("atomic.Add"); return atomic.AddInt32(p, d) }

// LoadInt32 loads.
func LoadInt32(p *int32) int32 { pt("atomic.Load"); return atomic.LoadInt32(p) }

// StoreInt32 stores.
func StoreInt32(p *int32, v int32) { pt("atomic.Store"); atomic.StoreInt32(p, v) }

// SwapInt32 swaps.
func SwapInt32(p *int32, v int32) int32 { pt("atomic.Swap"); return atomic.SwapInt32(p, v) }

// CompareAndSwapInt32 compares and swaps.
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	pt("atomic.CompareAndSwap")
	return atomic.CompareAndSwapInt32(p, o, n)
}

// Int32 replaces atomic.Int32.
type Int32 struct{ v atomic.Int32 }

// Add adds.
func (x *Int32) Add(d int32) int32 { pt("atomic.Add"); return x.v.Add(d) }

// Load loads.
func (x *Int32) Load() int32 { pt("atomic.Load"); return x.v.Load() }

// Store stores.
func (x *Int32) Store(v int32) { pt("atomic.Store"); x.v.Store(v) }

// Swap swaps.
func (x *Int32) Swap(v int32) int32 { pt("atomic.Swap"); return x.v.Swap(v) }

// CompareAndSwap compares and swaps.
func (x *Int32) CompareAndSwap(o, n int32) bool {
	pt("atomic.CompareAndSwap")
	return x.v.CompareAndSwap(o, n)
}

// AddInt64 adds.
func AddInt64(p *int64, d int64) int64 { pt("atomic.Add"); return atomic.AddInt64(p, d) }

// LoadInt64 loads.
func LoadInt64(p *int64) int64 { pt("atomic.Load"); return atomic.LoadInt64(p) }

// StoreInt64 stores.
func StoreInt64(p *int64, v int64) { pt("atomic.Store"); atomic.StoreInt64(p, v) }

// SwapInt64 swaps.
func SwapInt64(p *int64, v int64) int64 { pt("atomic.Swap"); return atomic.SwapInt64(p, v) }

// CompareAndSwapInt64 compares and swaps.
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	pt("atomic.CompareAndSwap")
	return atomic.CompareAndSwapInt64(p, o, n)
}

// Int64 replaces atomic.Int64.
type Int64 struct{ v atomic.Int64 }

// Add adds.
func (x *Int64) Add(d int64) int64 { pt("atomic.Add"); return x.v.Add(d) }

// Load loads.
func (x *Int64) Load() int64 { pt("atomic.Load"); return x.v.Load() }

// Store stores.
func (x *Int64) Store(v int64) { pt("atomic.Store"); x.v.Store(v) }

// Swap swaps.
func (x *Int64) Swap(v int64) int64 { pt("atomic.Swap"); return x.v.Swap(v) }

// CompareAndSwap compares and swaps.
func (x *Int64) CompareAndSwap(o, n int64) bool {
	pt("atomic.CompareAndSwap")
	return x.v.CompareAndSwap(o, n)
}

// AddUint32 adds.
func AddUint32(p *uint32, d uint32) uint32 { pt("atomic.Add"); return atomic.AddUint32(p, d) }

// LoadUint32 loads.
func LoadUint32(p *uint32) uint32 { pt("atomic.Load"); return atomic.LoadUint32(p) }

// StoreUint32 stores.
func StoreUint32(p *uint32, v uint32) { pt("atomic.Store"); atomic.StoreUint32(p, v) }

// SwapUint32 swaps.
func SwapUint32(p *uint32, v uint32) uint32 { pt("atomic.Swap"); return atomic.SwapUint32(p, v) }

// CompareAndSwapUint32 compares and swaps.
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	pt("atomic.CompareAndSwap")
	return atomic.CompareAndSwapUint32(p, o, n)
}

// Uint32 replaces atomic.Uint32.
type Uint32 struct{ v atomic.Uint32 }

// Add adds.
func (x *Uint32) Add(d uint32) uint32 { pt("atomic.Add"); return x.v.Add(d) }

// Load loads.
func (x *Uint32) Load() uint32 { pt("atomic.Load"); return x.v.Load() }

// Store stores.
func (x *Uint32) Store(v uint32) { pt("atomic.Store"); x.v.Store(v) }

// Swap swaps.
func (x *Uint32) Swap(v uint32) uint32 { pt("atomic.Swap"); return x.v.Swap(v) }

// CompareAndSwap compares and swaps.
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	pt("atomic.CompareAndSwap")
	return x.v.CompareAndSwap(o, n)
}

// AddUint64 adds.
func AddUint64(p *uint64, d uint64) uint64 { pt("atomic.Add"); return atomic.AddUint64(p, d) }

// LoadUint64 loads.
func LoadUint64(p *uint64) uint64 { pt("atomic.Load"); return atomic.LoadUint64(p) }

// StoreUint64 stores.
func StoreUint64(p *uint64, v uint64) { pt("atomic.Store"); atomic.StoreUint64(p, v) }

// SwapUint64 swaps.
func SwapUint64(p *uint64, v uint64) uint64 { pt("atomic.Swap"); return atomic.SwapUint64(p, v) }

// CompareAndSwapUint64 compares and swaps.
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	pt("atomic.CompareAndSwap")
	return atomic.CompareAndSwapUint64(p, o, n)
}

// Uint64 replaces atomic.Uint64.
type Uint64 struct{ v atomic.Uint64 }

// Add adds.
func (x *Uint64) Add(d uint64) uint64 { pt("atomic.Add"); return x.v.Add(d) }

// Load loads.
func (x *Uint64) Load() uint64 { pt("atomic.Load"); return x.v.Load() }

// Store stores.
func (x *Uint64) Store(v uint64) { pt("atomic.Store"); x.v.Store(v) }

// Swap swaps.
func (x *Uint64) Swap(v uint64) uint64 { pt("atomic.Swap"); return x.v.Swap(v) }

// CompareAndSwap compares and swaps.
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	pt("atomic.CompareAndSwap")
	return x.v.CompareAndSwap(o, n)
}

// AddUintptr adds.
func AddUintptr(p *uintptr, d uintptr) uintptr { pt("atomic.Add"); return atomic.AddUintptr(p, d) }

// LoadUintptr loads.
func LoadUintptr(p *uintptr) uintptr { pt("atomic.Load"); return atomic.LoadUintptr(p) }

// StoreUintptr stores.
func StoreUintptr(p *uintptr, v uintptr) { pt("atomic.Store"); atomic.StoreUintptr(p, v) }

// SwapUintptr swaps.
func SwapUintptr(p *uintptr, v uintptr) uintptr { pt("atomic.Swap"); return atomic.SwapUintptr(p, v) }

// CompareAndSwapUintptr compares and swaps.
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	pt("atomic.CompareAndSwap")
	return atomic.CompareAndSwapUintptr(p, o, n)
}

// Uintptr replaces atomic.Uintptr.
type Uintptr struct{ v atomic.Uintptr }

// Add adds.
func (x *Uintptr) Add(d uintptr) uintptr { pt("atomic.Add"); return x.v.Add(d) }

// Load loads.
func (x *Uintptr) Load() uintptr { pt("atomic.Load"); return x.v.Load() }

// Store stores.
func (x *Uintptr) Store(v uintptr) { pt("atomic.Store"); x.v.Store(v) }

// Swap swaps.
func (x *Uintptr) Swap(v uintptr) uintptr { pt("atomic.Swap"); return x.v.Swap(v) }

// CompareAndSwap compares and swaps.
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	pt("atomic.CompareAndSwap")
	return x.v.CompareAndSwap(o, n)
}

// LoadPointer loads.
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { pt("atomic.Load"); return atomic.LoadPointer(p) }

// StorePointer stores.
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { pt("atomic.Store"); atomic.StorePointer(p, v) }

// Bool replaces atomic.Bool.
type Bool struct{ v atomic.Bool }

// Load loads.
func (x *Bool) Load() bool { pt("atomic.Load"); return x.v.Load() }

// Store stores.
func (x *Bool) Store(v bool) { pt("atomic.Store"); x.v.Store(v) }

// Swap swaps.
func (x *Bool) Swap(v bool) bool { pt("atomic.Swap"); return x.v.Swap(v) }

// CompareAndSwap compares and swaps.
func (x *Bool) CompareAndSwap(o, n bool) bool {
	pt("atomic.CompareAndSwap")
	return x.v.CompareAndSwap(o, n)
}

// Value replaces atomic.Value.
type Value struct{ v atomic.Value }

// Load loads.
func (x *Value) Load() interface{} { pt("atomic.Load"); return x.v.Load() }

// Store stores.
func (x *Value) Store(v interface{}) { pt("atomic.Store"); x.v.Store(v) }

// Swap swaps.
func (x *Value) Swap(v interface{}) interface{} { pt("atomic.Swap"); return x.v.Swap(v) }

// CompareAndSwap compares and swaps.
func (x *Value) CompareAndSwap(o, n interface{}) bool {
	pt("atomic.CompareAndSwap")
	return x.v.CompareAndSwap(o, n)
}

// Pointer replaces atomic.Pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

// Load loads.
func (x *Pointer[T]) Load() *T { pt("atomic.Load"); return x.v.Load() }

// Store stores.
func (x *Pointer[T]) Store(v *T) { pt("atomic.Store"); x.v.Store(v) }

// Swap swaps.
func (x *Pointer[T]) Swap(v *T) *T { pt("atomic.Swap"); return x.v.Swap(v) }

// CompareAndSwap compares and swaps.
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	pt("atomic.CompareAndSwap")
	return x.v.CompareAndSwap(o, n)
}
