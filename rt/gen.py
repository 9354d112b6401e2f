#!/usr/bin/env python3
"""Generates vatomic (replacement of sync/atomic). Run once; its output is committed."""
out = ['''//go:build go1.23

// Package vatomic replaces sync/atomic: every operation is a scheduling point.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
)

func rd(p unsafe.Pointer) {
	if vsched.Active() {
		vsched.Point()
		vsched.ObjFor(p).Read(301)
		vsched.SyncFor(p).Acquire()
	}
}

func wr(p unsafe.Pointer) {
	if vsched.Active() {
		vsched.Point()
		vsched.ObjFor(p).Write(302)
		s := vsched.SyncFor(p)
		s.Acquire()
		s.ReleaseVC()
	}
}
''']
for T,t in [('Int32','int32'),('Int64','int64'),('Uint32','uint32'),('Uint64','uint64'),('Uintptr','uintptr')]:
    out.append(f'''
func Add{T}(p *{t}, d {t}) {t} {{ wr(unsafe.Pointer(p)); return atomic.Add{T}(p, d) }}
func And{T}(p *{t}, d {t}) {t} {{ wr(unsafe.Pointer(p)); return atomic.And{T}(p, d) }}
func Or{T}(p *{t}, d {t}) {t} {{ wr(unsafe.Pointer(p)); return atomic.Or{T}(p, d) }}
func CompareAndSwap{T}(p *{t}, o, n {t}) bool {{ wr(unsafe.Pointer(p)); return atomic.CompareAndSwap{T}(p, o, n) }}
func Load{T}(p *{t}) {t} {{ rd(unsafe.Pointer(p)); return atomic.Load{T}(p) }}
func Store{T}(p *{t}, v {t}) {{ wr(unsafe.Pointer(p)); atomic.Store{T}(p, v) }}
func Swap{T}(p *{t}, v {t}) {t} {{ wr(unsafe.Pointer(p)); return atomic.Swap{T}(p, v) }}

type {T} struct{{ v {t} }}

func (x *{T}) Add(d {t}) {t} {{ return Add{T}(&x.v, d) }}
func (x *{T}) And(d {t}) {t} {{ return And{T}(&x.v, d) }}
func (x *{T}) Or(d {t}) {t} {{ return Or{T}(&x.v, d) }}
func (x *{T}) CompareAndSwap(o, n {t}) bool {{ return CompareAndSwap{T}(&x.v, o, n) }}
func (x *{T}) Load() {t} {{ return Load{T}(&x.v) }}
func (x *{T}) Store(v {t}) {{ Store{T}(&x.v, v) }}
func (x *{T}) Swap(v {t}) {t} {{ return Swap{T}(&x.v, v) }}
''')
out.append('''
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool { wr(unsafe.Pointer(p)); return atomic.CompareAndSwapPointer(p, o, n) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { rd(unsafe.Pointer(p)); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { wr(unsafe.Pointer(p)); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer { wr(unsafe.Pointer(p)); return atomic.SwapPointer(p, v) }

type Bool struct{ v uint32 }

func b2u(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}
func (x *Bool) CompareAndSwap(o, n bool) bool { return CompareAndSwapUint32(&x.v, b2u(o), b2u(n)) }
func (x *Bool) Load() bool { return LoadUint32(&x.v) != 0 }
func (x *Bool) Store(v bool) { StoreUint32(&x.v, b2u(v)) }
func (x *Bool) Swap(v bool) bool { return SwapUint32(&x.v, b2u(v)) != 0 }

type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T { rd(unsafe.Pointer(&x.v)); return x.v }
func (x *Pointer[T]) Store(v *T) { wr(unsafe.Pointer(&x.v)); x.v = v }
func (x *Pointer[T]) Swap(v *T) *T { wr(unsafe.Pointer(&x.v)); o := x.v; x.v = v; return o }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	wr(unsafe.Pointer(&x.v))
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Value struct{ v any }

func (x *Value) Load() any { rd(unsafe.Pointer(&x.v)); return x.v }
func (x *Value) Store(v any) { wr(unsafe.Pointer(&x.v)); x.v = v }
func (x *Value) Swap(v any) any { wr(unsafe.Pointer(&x.v)); o := x.v; x.v = v; return o }
func (x *Value) CompareAndSwap(o, n any) bool {
	wr(unsafe.Pointer(&x.v))
	if x.v == o {
		x.v = n
		return true
	}
	return false
}
''')
open('/verif/rt/vatomic/vatomic.go','w').write(''.join(out))
