// Package vatomic replaces package sync/atomic in instrumented code.
package vatomic

import (
	"unsafe"

	"verif.local/mc/shim/vrt"
)

func point(p any) { vrt.Point("atomic", p) }

// LoadInt32 is atomic.LoadInt32.
func LoadInt32(p *int32) int32 { point(p); return *p }

// StoreInt32 is atomic.StoreInt32.
func StoreInt32(p *int32, v int32) { point(p); *p = v; vrt.SetState(p, uint64(v)) }

// AddInt32 is atomic.AddInt32.
func AddInt32(p *int32, d int32) int32 { point(p); *p += d; vrt.SetState(p, uint64(*p)); return *p }

// AndInt32 is atomic.AndInt32.
func AndInt32(p *int32, v int32) int32 { point(p); o := *p; *p &= v; return o }

// OrInt32 is atomic.OrInt32.
func OrInt32(p *int32, v int32) int32 { point(p); o := *p; *p |= v; return o }

// SwapInt32 is atomic.SwapInt32.
func SwapInt32(p *int32, v int32) int32 {
	point(p)
	o := *p
	*p = v
	vrt.SetState(p, uint64(v))
	return o
}

// CompareAndSwapInt32 is atomic.CompareAndSwapInt32.
func CompareAndSwapInt32(p *int32, old, v int32) bool {
	point(p)
	if *p != old {
		return false
	}
	*p = v
	vrt.SetState(p, uint64(v))
	return true
}

// Int32 is atomic.Int32.
type Int32 struct{ v int32 }

// Load loads.
func (x *Int32) Load() int32 { return LoadInt32(&x.v) }

// Store stores.
func (x *Int32) Store(v int32) { StoreInt32(&x.v, v) }

// Add adds.
func (x *Int32) Add(d int32) int32 { return AddInt32(&x.v, d) }

// And ands.
func (x *Int32) And(v int32) int32 { return AndInt32(&x.v, v) }

// Or ors.
func (x *Int32) Or(v int32) int32 { return OrInt32(&x.v, v) }

// Swap swaps.
func (x *Int32) Swap(v int32) int32 { return SwapInt32(&x.v, v) }

// CompareAndSwap compares and swaps.
func (x *Int32) CompareAndSwap(old, v int32) bool { return CompareAndSwapInt32(&x.v, old, v) }

// LoadInt64 is atomic.LoadInt64.
func LoadInt64(p *int64) int64 { point(p); return *p }

// StoreInt64 is atomic.StoreInt64.
func StoreInt64(p *int64, v int64) { point(p); *p = v; vrt.SetState(p, uint64(v)) }

// AddInt64 is atomic.AddInt64.
func AddInt64(p *int64, d int64) int64 { point(p); *p += d; vrt.SetState(p, uint64(*p)); return *p }

// AndInt64 is atomic.AndInt64.
func AndInt64(p *int64, v int64) int64 { point(p); o := *p; *p &= v; return o }

// OrInt64 is atomic.OrInt64.
func OrInt64(p *int64, v int64) int64 { point(p); o := *p; *p |= v; return o }

// SwapInt64 is atomic.SwapInt64.
func SwapInt64(p *int64, v int64) int64 {
	point(p)
	o := *p
	*p = v
	vrt.SetState(p, uint64(v))
	return o
}

// CompareAndSwapInt64 is atomic.CompareAndSwapInt64.
func CompareAndSwapInt64(p *int64, old, v int64) bool {
	point(p)
	if *p != old {
		return false
	}
	*p = v
	vrt.SetState(p, uint64(v))
	return true
}

// Int64 is atomic.Int64.
type Int64 struct{ v int64 }

// Load loads.
func (x *Int64) Load() int64 { return LoadInt64(&x.v) }

// Store stores.
func (x *Int64) Store(v int64) { StoreInt64(&x.v, v) }

// Add adds.
func (x *Int64) Add(d int64) int64 { return AddInt64(&x.v, d) }

// And ands.
func (x *Int64) And(v int64) int64 { return AndInt64(&x.v, v) }

// Or ors.
func (x *Int64) Or(v int64) int64 { return OrInt64(&x.v, v) }

// Swap swaps.
func (x *Int64) Swap(v int64) int64 { return SwapInt64(&x.v, v) }

// CompareAndSwap compares and swaps.
func (x *Int64) CompareAndSwap(old, v int64) bool { return CompareAndSwapInt64(&x.v, old, v) }

// LoadUint32 is atomic.LoadUint32.
func LoadUint32(p *uint32) uint32 { point(p); return *p }

// StoreUint32 is atomic.StoreUint32.
func StoreUint32(p *uint32, v uint32) { point(p); *p = v; vrt.SetState(p, uint64(v)) }

// AddUint32 is atomic.AddUint32.
func AddUint32(p *uint32, d uint32) uint32 { point(p); *p += d; vrt.SetState(p, uint64(*p)); return *p }

// AndUint32 is atomic.AndUint32.
func AndUint32(p *uint32, v uint32) uint32 { point(p); o := *p; *p &= v; return o }

// OrUint32 is atomic.OrUint32.
func OrUint32(p *uint32, v uint32) uint32 { point(p); o := *p; *p |= v; return o }

// SwapUint32 is atomic.SwapUint32.
func SwapUint32(p *uint32, v uint32) uint32 {
	point(p)
	o := *p
	*p = v
	vrt.SetState(p, uint64(v))
	return o
}

// CompareAndSwapUint32 is atomic.CompareAndSwapUint32.
func CompareAndSwapUint32(p *uint32, old, v uint32) bool {
	point(p)
	if *p != old {
		return false
	}
	*p = v
	vrt.SetState(p, uint64(v))
	return true
}

// Uint32 is atomic.Uint32.
type Uint32 struct{ v uint32 }

// Load loads.
func (x *Uint32) Load() uint32 { return LoadUint32(&x.v) }

// Store stores.
func (x *Uint32) Store(v uint32) { StoreUint32(&x.v, v) }

// Add adds.
func (x *Uint32) Add(d uint32) uint32 { return AddUint32(&x.v, d) }

// And ands.
func (x *Uint32) And(v uint32) uint32 { return AndUint32(&x.v, v) }

// Or ors.
func (x *Uint32) Or(v uint32) uint32 { return OrUint32(&x.v, v) }

// Swap swaps.
func (x *Uint32) Swap(v uint32) uint32 { return SwapUint32(&x.v, v) }

// CompareAndSwap compares and swaps.
func (x *Uint32) CompareAndSwap(old, v uint32) bool { return CompareAndSwapUint32(&x.v, old, v) }

// LoadUint64 is atomic.LoadUint64.
func LoadUint64(p *uint64) uint64 { point(p); return *p }

// StoreUint64 is atomic.StoreUint64.
func StoreUint64(p *uint64, v uint64) { point(p); *p = v; vrt.SetState(p, uint64(v)) }

// AddUint64 is atomic.AddUint64.
func AddUint64(p *uint64, d uint64) uint64 { point(p); *p += d; vrt.SetState(p, uint64(*p)); return *p }

// AndUint64 is atomic.AndUint64.
func AndUint64(p *uint64, v uint64) uint64 { point(p); o := *p; *p &= v; return o }

// OrUint64 is atomic.OrUint64.
func OrUint64(p *uint64, v uint64) uint64 { point(p); o := *p; *p |= v; return o }

// SwapUint64 is atomic.SwapUint64.
func SwapUint64(p *uint64, v uint64) uint64 {
	point(p)
	o := *p
	*p = v
	vrt.SetState(p, uint64(v))
	return o
}

// CompareAndSwapUint64 is atomic.CompareAndSwapUint64.
func CompareAndSwapUint64(p *uint64, old, v uint64) bool {
	point(p)
	if *p != old {
		return false
	}
	*p = v
	vrt.SetState(p, uint64(v))
	return true
}

// Uint64 is atomic.Uint64.
type Uint64 struct{ v uint64 }

// Load loads.
func (x *Uint64) Load() uint64 { return LoadUint64(&x.v) }

// Store stores.
func (x *Uint64) Store(v uint64) { StoreUint64(&x.v, v) }

// Add adds.
func (x *Uint64) Add(d uint64) uint64 { return AddUint64(&x.v, d) }

// And ands.
func (x *Uint64) And(v uint64) uint64 { return AndUint64(&x.v, v) }

// Or ors.
func (x *Uint64) Or(v uint64) uint64 { return OrUint64(&x.v, v) }

// Swap swaps.
func (x *Uint64) Swap(v uint64) uint64 { return SwapUint64(&x.v, v) }

// CompareAndSwap compares and swaps.
func (x *Uint64) CompareAndSwap(old, v uint64) bool { return CompareAndSwapUint64(&x.v, old, v) }

// LoadUintptr is atomic.LoadUintptr.
func LoadUintptr(p *uintptr) uintptr { point(p); return *p }

// StoreUintptr is atomic.StoreUintptr.
func StoreUintptr(p *uintptr, v uintptr) { point(p); *p = v; vrt.SetState(p, uint64(v)) }

// AddUintptr is atomic.AddUintptr.
func AddUintptr(p *uintptr, d uintptr) uintptr {
	point(p)
	*p += d
	vrt.SetState(p, uint64(*p))
	return *p
}

// AndUintptr is atomic.AndUintptr.
func AndUintptr(p *uintptr, v uintptr) uintptr { point(p); o := *p; *p &= v; return o }

// OrUintptr is atomic.OrUintptr.
func OrUintptr(p *uintptr, v uintptr) uintptr { point(p); o := *p; *p |= v; return o }

// SwapUintptr is atomic.SwapUintptr.
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	point(p)
	o := *p
	*p = v
	vrt.SetState(p, uint64(v))
	return o
}

// CompareAndSwapUintptr is atomic.CompareAndSwapUintptr.
func CompareAndSwapUintptr(p *uintptr, old, v uintptr) bool {
	point(p)
	if *p != old {
		return false
	}
	*p = v
	vrt.SetState(p, uint64(v))
	return true
}

// Uintptr is atomic.Uintptr.
type Uintptr struct{ v uintptr }

// Load loads.
func (x *Uintptr) Load() uintptr { return LoadUintptr(&x.v) }

// Store stores.
func (x *Uintptr) Store(v uintptr) { StoreUintptr(&x.v, v) }

// Add adds.
func (x *Uintptr) Add(d uintptr) uintptr { return AddUintptr(&x.v, d) }

// And ands.
func (x *Uintptr) And(v uintptr) uintptr { return AndUintptr(&x.v, v) }

// Or ors.
func (x *Uintptr) Or(v uintptr) uintptr { return OrUintptr(&x.v, v) }

// Swap swaps.
func (x *Uintptr) Swap(v uintptr) uintptr { return SwapUintptr(&x.v, v) }

// CompareAndSwap compares and swaps.
func (x *Uintptr) CompareAndSwap(old, v uintptr) bool { return CompareAndSwapUintptr(&x.v, old, v) }

// LoadPointer is atomic.LoadPointer.
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { point(p); return *p }

// StorePointer is atomic.StorePointer.
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { point(p); *p = v }

// SwapPointer is atomic.SwapPointer.
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	point(p)
	o := *p
	*p = v
	return o
}

// CompareAndSwapPointer is atomic.CompareAndSwapPointer.
func CompareAndSwapPointer(p *unsafe.Pointer, old, v unsafe.Pointer) bool {
	point(p)
	if *p != old {
		return false
	}
	*p = v
	return true
}

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ v *T }

// Load loads.
func (x *Pointer[T]) Load() *T { point(x); return x.v }

// Store stores.
func (x *Pointer[T]) Store(v *T) { point(x); x.v = v }

// Swap swaps.
func (x *Pointer[T]) Swap(v *T) *T { point(x); o := x.v; x.v = v; return o }

// CompareAndSwap compares and swaps.
func (x *Pointer[T]) CompareAndSwap(old, v *T) bool {
	point(x)
	if x.v != old {
		return false
	}
	x.v = v
	return true
}

// Bool is atomic.Bool.
type Bool struct{ v bool }

func (x *Bool) note() {
	if x.v {
		vrt.SetState(x, 1)
	} else {
		vrt.SetState(x, 0)
	}
}

// Load loads.
func (x *Bool) Load() bool { point(x); return x.v }

// Store stores.
func (x *Bool) Store(v bool) { point(x); x.v = v; x.note() }

// Swap swaps.
func (x *Bool) Swap(v bool) bool { point(x); o := x.v; x.v = v; x.note(); return o }

// CompareAndSwap compares and swaps.
func (x *Bool) CompareAndSwap(old, v bool) bool {
	point(x)
	if x.v != old {
		return false
	}
	x.v = v
	x.note()
	return true
}

// Value is atomic.Value.
type Value struct{ v any }

// Load loads.
func (x *Value) Load() any { point(x); return x.v }

// Store stores.
func (x *Value) Store(v any) {
	point(x)
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	x.v = v
}

// Swap swaps.
func (x *Value) Swap(v any) any { point(x); o := x.v; x.v = v; return o }

// CompareAndSwap compares and swaps.
func (x *Value) CompareAndSwap(old, v any) bool {
	point(x)
	if x.v != old {
		return false
	}
	x.v = v
	return true
}
