//go:build go1.23

// Package vatomic replaces sync/atomic: every operation is a scheduling point.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
)

func rd(p unsafe.Pointer) {
	if vsched.Active() {
		vsched.Point()
		vsched.ObjFor(p).Read(301)
		vsched.SyncFor(p).Acquire()
	}
}

func wr(p unsafe.Pointer) {
	if vsched.Active() {
		vsched.Point()
		vsched.ObjFor(p).Write(302)
		s := vsched.SyncFor(p)
		s.Acquire()
		s.ReleaseVC()
	}
}

func AddInt32(p *int32, d int32) int32 { wr(unsafe.Pointer(p)); return atomic.AddInt32(p, d) }
func AndInt32(p *int32, d int32) int32 { wr(unsafe.Pointer(p)); return atomic.AndInt32(p, d) }
func OrInt32(p *int32, d int32) int32  { wr(unsafe.Pointer(p)); return atomic.OrInt32(p, d) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	wr(unsafe.Pointer(p))
	return atomic.CompareAndSwapInt32(p, o, n)
}
func LoadInt32(p *int32) int32          { rd(unsafe.Pointer(p)); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { wr(unsafe.Pointer(p)); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { wr(unsafe.Pointer(p)); return atomic.SwapInt32(p, v) }

type Int32 struct{ v int32 }

func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) And(d int32) int32              { return AndInt32(&x.v, d) }
func (x *Int32) Or(d int32) int32               { return OrInt32(&x.v, d) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }
func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }

func AddInt64(p *int64, d int64) int64 { wr(unsafe.Pointer(p)); return atomic.AddInt64(p, d) }
func AndInt64(p *int64, d int64) int64 { wr(unsafe.Pointer(p)); return atomic.AndInt64(p, d) }
func OrInt64(p *int64, d int64) int64  { wr(unsafe.Pointer(p)); return atomic.OrInt64(p, d) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	wr(unsafe.Pointer(p))
	return atomic.CompareAndSwapInt64(p, o, n)
}
func LoadInt64(p *int64) int64          { rd(unsafe.Pointer(p)); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { wr(unsafe.Pointer(p)); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { wr(unsafe.Pointer(p)); return atomic.SwapInt64(p, v) }

type Int64 struct{ v int64 }

func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) And(d int64) int64              { return AndInt64(&x.v, d) }
func (x *Int64) Or(d int64) int64               { return OrInt64(&x.v, d) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }
func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }

func AddUint32(p *uint32, d uint32) uint32 { wr(unsafe.Pointer(p)); return atomic.AddUint32(p, d) }
func AndUint32(p *uint32, d uint32) uint32 { wr(unsafe.Pointer(p)); return atomic.AndUint32(p, d) }
func OrUint32(p *uint32, d uint32) uint32  { wr(unsafe.Pointer(p)); return atomic.OrUint32(p, d) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	wr(unsafe.Pointer(p))
	return atomic.CompareAndSwapUint32(p, o, n)
}
func LoadUint32(p *uint32) uint32           { rd(unsafe.Pointer(p)); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { wr(unsafe.Pointer(p)); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { wr(unsafe.Pointer(p)); return atomic.SwapUint32(p, v) }

type Uint32 struct{ v uint32 }

func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) And(d uint32) uint32             { return AndUint32(&x.v, d) }
func (x *Uint32) Or(d uint32) uint32              { return OrUint32(&x.v, d) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }
func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }

func AddUint64(p *uint64, d uint64) uint64 { wr(unsafe.Pointer(p)); return atomic.AddUint64(p, d) }
func AndUint64(p *uint64, d uint64) uint64 { wr(unsafe.Pointer(p)); return atomic.AndUint64(p, d) }
func OrUint64(p *uint64, d uint64) uint64  { wr(unsafe.Pointer(p)); return atomic.OrUint64(p, d) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	wr(unsafe.Pointer(p))
	return atomic.CompareAndSwapUint64(p, o, n)
}
func LoadUint64(p *uint64) uint64           { rd(unsafe.Pointer(p)); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { wr(unsafe.Pointer(p)); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { wr(unsafe.Pointer(p)); return atomic.SwapUint64(p, v) }

type Uint64 struct{ v uint64 }

func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) And(d uint64) uint64             { return AndUint64(&x.v, d) }
func (x *Uint64) Or(d uint64) uint64              { return OrUint64(&x.v, d) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }
func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }

func AddUintptr(p *uintptr, d uintptr) uintptr { wr(unsafe.Pointer(p)); return atomic.AddUintptr(p, d) }
func AndUintptr(p *uintptr, d uintptr) uintptr { wr(unsafe.Pointer(p)); return atomic.AndUintptr(p, d) }
func OrUintptr(p *uintptr, d uintptr) uintptr  { wr(unsafe.Pointer(p)); return atomic.OrUintptr(p, d) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	wr(unsafe.Pointer(p))
	return atomic.CompareAndSwapUintptr(p, o, n)
}
func LoadUintptr(p *uintptr) uintptr     { rd(unsafe.Pointer(p)); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr) { wr(unsafe.Pointer(p)); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	wr(unsafe.Pointer(p))
	return atomic.SwapUintptr(p, v)
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) And(d uintptr) uintptr            { return AndUintptr(&x.v, d) }
func (x *Uintptr) Or(d uintptr) uintptr             { return OrUintptr(&x.v, d) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }
func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }

func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	wr(unsafe.Pointer(p))
	return atomic.CompareAndSwapPointer(p, o, n)
}
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	rd(unsafe.Pointer(p))
	return atomic.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	wr(unsafe.Pointer(p))
	atomic.StorePointer(p, v)
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	wr(unsafe.Pointer(p))
	return atomic.SwapPointer(p, v)
}

type Bool struct{ v uint32 }

func b2u(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}
func (x *Bool) CompareAndSwap(o, n bool) bool { return CompareAndSwapUint32(&x.v, b2u(o), b2u(n)) }
func (x *Bool) Load() bool                    { return LoadUint32(&x.v) != 0 }
func (x *Bool) Store(v bool)                  { StoreUint32(&x.v, b2u(v)) }
func (x *Bool) Swap(v bool) bool              { return SwapUint32(&x.v, b2u(v)) != 0 }

type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T     { rd(unsafe.Pointer(&x.v)); return x.v }
func (x *Pointer[T]) Store(v *T)   { wr(unsafe.Pointer(&x.v)); x.v = v }
func (x *Pointer[T]) Swap(v *T) *T { wr(unsafe.Pointer(&x.v)); o := x.v; x.v = v; return o }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	wr(unsafe.Pointer(&x.v))
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Value struct{ v any }

func (x *Value) Load() any      { rd(unsafe.Pointer(&x.v)); return x.v }
func (x *Value) Store(v any)    { wr(unsafe.Pointer(&x.v)); x.v = v }
func (x *Value) Swap(v any) any { wr(unsafe.Pointer(&x.v)); o := x.v; x.v = v; return o }
func (x *Value) CompareAndSwap(o, n any) bool {
	wr(unsafe.Pointer(&x.v))
	if x.v == o {
		x.v = n
		return true
	}
	return false
}
