// Package simatomic replaces package sync/atomic in translated code: every
// operation is a scheduling point and a synchronisation edge.
package simatomic

import (
	"unsafe"

	"verif.local/sim/simrt"
)

func begin(p unsafe.Pointer, write bool) *simrt.Task {
	t := simrt.Pre("atomic", -4)
	if t == nil {
		return nil
	}
	simrt.AtomicAccess(t, p, -4, write)
	simrt.Acquire(t, p)
	if write {
		simrt.Release(t, p)
	}
	return t
}

func end(t *simrt.Task) {
	if t != nil {
		t.Park("atomic done", -4)
	}
}

func AddInt32(p *int32, d int32) int32 {
	t := begin(unsafe.Pointer(p), true)
	*p += d
	v := *p
	end(t)
	return v
}
func LoadInt32(p *int32) int32     { t := begin(unsafe.Pointer(p), false); v := *p; end(t); return v }
func StoreInt32(p *int32, v int32) { t := begin(unsafe.Pointer(p), true); *p = v; end(t) }
func SwapInt32(p *int32, v int32) int32 {
	t := begin(unsafe.Pointer(p), true)
	o := *p
	*p = v
	end(t)
	return o
}
func CompareAndSwapInt32(p *int32, o, v int32) bool {
	t := begin(unsafe.Pointer(p), true)
	ok := *p == o
	if ok {
		*p = v
	}
	end(t)
	return ok
}
func AndInt32(p *int32, m int32) int32 {
	t := begin(unsafe.Pointer(p), true)
	o := *p
	*p &= m
	end(t)
	return o
}
func OrInt32(p *int32, m int32) int32 {
	t := begin(unsafe.Pointer(p), true)
	o := *p
	*p |= m
	end(t)
	return o
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) And(m int32) int32              { return AndInt32(&x.v, m) }
func (x *Int32) Or(m int32) int32               { return OrInt32(&x.v, m) }
func (x *Int32) CompareAndSwap(o, v int32) bool { return CompareAndSwapInt32(&x.v, o, v) }

func AddInt64(p *int64, d int64) int64 {
	t := begin(unsafe.Pointer(p), true)
	*p += d
	v := *p
	end(t)
	return v
}
func LoadInt64(p *int64) int64     { t := begin(unsafe.Pointer(p), false); v := *p; end(t); return v }
func StoreInt64(p *int64, v int64) { t := begin(unsafe.Pointer(p), true); *p = v; end(t) }
func SwapInt64(p *int64, v int64) int64 {
	t := begin(unsafe.Pointer(p), true)
	o := *p
	*p = v
	end(t)
	return o
}
func CompareAndSwapInt64(p *int64, o, v int64) bool {
	t := begin(unsafe.Pointer(p), true)
	ok := *p == o
	if ok {
		*p = v
	}
	end(t)
	return ok
}
func AndInt64(p *int64, m int64) int64 {
	t := begin(unsafe.Pointer(p), true)
	o := *p
	*p &= m
	end(t)
	return o
}
func OrInt64(p *int64, m int64) int64 {
	t := begin(unsafe.Pointer(p), true)
	o := *p
	*p |= m
	end(t)
	return o
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) And(m int64) int64              { return AndInt64(&x.v, m) }
func (x *Int64) Or(m int64) int64               { return OrInt64(&x.v, m) }
func (x *Int64) CompareAndSwap(o, v int64) bool { return CompareAndSwapInt64(&x.v, o, v) }

func AddUint32(p *uint32, d uint32) uint32 {
	t := begin(unsafe.Pointer(p), true)
	*p += d
	v := *p
	end(t)
	return v
}
func LoadUint32(p *uint32) uint32     { t := begin(unsafe.Pointer(p), false); v := *p; end(t); return v }
func StoreUint32(p *uint32, v uint32) { t := begin(unsafe.Pointer(p), true); *p = v; end(t) }
func SwapUint32(p *uint32, v uint32) uint32 {
	t := begin(unsafe.Pointer(p), true)
	o := *p
	*p = v
	end(t)
	return o
}
func CompareAndSwapUint32(p *uint32, o, v uint32) bool {
	t := begin(unsafe.Pointer(p), true)
	ok := *p == o
	if ok {
		*p = v
	}
	end(t)
	return ok
}
func AndUint32(p *uint32, m uint32) uint32 {
	t := begin(unsafe.Pointer(p), true)
	o := *p
	*p &= m
	end(t)
	return o
}
func OrUint32(p *uint32, m uint32) uint32 {
	t := begin(unsafe.Pointer(p), true)
	o := *p
	*p |= m
	end(t)
	return o
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) And(m uint32) uint32             { return AndUint32(&x.v, m) }
func (x *Uint32) Or(m uint32) uint32              { return OrUint32(&x.v, m) }
func (x *Uint32) CompareAndSwap(o, v uint32) bool { return CompareAndSwapUint32(&x.v, o, v) }

func AddUint64(p *uint64, d uint64) uint64 {
	t := begin(unsafe.Pointer(p), true)
	*p += d
	v := *p
	end(t)
	return v
}
func LoadUint64(p *uint64) uint64     { t := begin(unsafe.Pointer(p), false); v := *p; end(t); return v }
func StoreUint64(p *uint64, v uint64) { t := begin(unsafe.Pointer(p), true); *p = v; end(t) }
func SwapUint64(p *uint64, v uint64) uint64 {
	t := begin(unsafe.Pointer(p), true)
	o := *p
	*p = v
	end(t)
	return o
}
func CompareAndSwapUint64(p *uint64, o, v uint64) bool {
	t := begin(unsafe.Pointer(p), true)
	ok := *p == o
	if ok {
		*p = v
	}
	end(t)
	return ok
}
func AndUint64(p *uint64, m uint64) uint64 {
	t := begin(unsafe.Pointer(p), true)
	o := *p
	*p &= m
	end(t)
	return o
}
func OrUint64(p *uint64, m uint64) uint64 {
	t := begin(unsafe.Pointer(p), true)
	o := *p
	*p |= m
	end(t)
	return o
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) And(m uint64) uint64             { return AndUint64(&x.v, m) }
func (x *Uint64) Or(m uint64) uint64              { return OrUint64(&x.v, m) }
func (x *Uint64) CompareAndSwap(o, v uint64) bool { return CompareAndSwapUint64(&x.v, o, v) }

func AddUintptr(p *uintptr, d uintptr) uintptr {
	t := begin(unsafe.Pointer(p), true)
	*p += d
	v := *p
	end(t)
	return v
}
func LoadUintptr(p *uintptr) uintptr     { t := begin(unsafe.Pointer(p), false); v := *p; end(t); return v }
func StoreUintptr(p *uintptr, v uintptr) { t := begin(unsafe.Pointer(p), true); *p = v; end(t) }
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	t := begin(unsafe.Pointer(p), true)
	o := *p
	*p = v
	end(t)
	return o
}
func CompareAndSwapUintptr(p *uintptr, o, v uintptr) bool {
	t := begin(unsafe.Pointer(p), true)
	ok := *p == o
	if ok {
		*p = v
	}
	end(t)
	return ok
}
func AndUintptr(p *uintptr, m uintptr) uintptr {
	t := begin(unsafe.Pointer(p), true)
	o := *p
	*p &= m
	end(t)
	return o
}
func OrUintptr(p *uintptr, m uintptr) uintptr {
	t := begin(unsafe.Pointer(p), true)
	o := *p
	*p |= m
	end(t)
	return o
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) And(m uintptr) uintptr            { return AndUintptr(&x.v, m) }
func (x *Uintptr) Or(m uintptr) uintptr             { return OrUintptr(&x.v, m) }
func (x *Uintptr) CompareAndSwap(o, v uintptr) bool { return CompareAndSwapUintptr(&x.v, o, v) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	t := begin(unsafe.Pointer(p), false)
	v := *p
	end(t)
	return v
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	t := begin(unsafe.Pointer(p), true)
	*p = v
	end(t)
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	t := begin(unsafe.Pointer(p), true)
	o := *p
	*p = v
	end(t)
	return o
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, v unsafe.Pointer) bool {
	t := begin(unsafe.Pointer(p), true)
	ok := *p == o
	if ok {
		*p = v
	}
	end(t)
	return ok
}

type Bool struct{ v bool }

func (x *Bool) Load() bool   { t := begin(unsafe.Pointer(&x.v), false); v := x.v; end(t); return v }
func (x *Bool) Store(v bool) { t := begin(unsafe.Pointer(&x.v), true); x.v = v; end(t) }
func (x *Bool) Swap(v bool) bool {
	t := begin(unsafe.Pointer(&x.v), true)
	o := x.v
	x.v = v
	end(t)
	return o
}
func (x *Bool) CompareAndSwap(o, v bool) bool {
	t := begin(unsafe.Pointer(&x.v), true)
	ok := x.v == o
	if ok {
		x.v = v
	}
	end(t)
	return ok
}

type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T   { t := begin(unsafe.Pointer(&x.v), false); v := x.v; end(t); return v }
func (x *Pointer[T]) Store(v *T) { t := begin(unsafe.Pointer(&x.v), true); x.v = v; end(t) }
func (x *Pointer[T]) Swap(v *T) *T {
	t := begin(unsafe.Pointer(&x.v), true)
	o := x.v
	x.v = v
	end(t)
	return o
}
func (x *Pointer[T]) CompareAndSwap(o, v *T) bool {
	t := begin(unsafe.Pointer(&x.v), true)
	ok := x.v == o
	if ok {
		x.v = v
	}
	end(t)
	return ok
}

type Value struct{ v any }

func (x *Value) Load() any { t := begin(unsafe.Pointer(&x.v), false); v := x.v; end(t); return v }
func (x *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	t := begin(unsafe.Pointer(&x.v), true)
	x.v = v
	end(t)
}
func (x *Value) Swap(v any) any {
	t := begin(unsafe.Pointer(&x.v), true)
	o := x.v
	x.v = v
	end(t)
	return o
}
func (x *Value) CompareAndSwap(o, v any) bool {
	t := begin(unsafe.Pointer(&x.v), true)
	ok := x.v == o
	if ok {
		x.v = v
	}
	end(t)
	return ok
}
