//go:build go1.23

// Package vsync replaces sync.
package vsync

import (
	"errors"
	"maps"
	"sync"

	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
)

type Locker = sync.Locker

// Mutex replaces sync.Mutex.
type Mutex struct {
	o      vsched.Obj
	vc     vsched.SyncVC
	locked bool
	q      []*vsched.Thread
	real   sync.Mutex
}

func (m *Mutex) reset() {
	if m.o.Fresh() {
		m.locked = false
		m.q = nil
	}
}

func (m *Mutex) Lock() {
	if vsched.Killing() {
		return
	}
	if !vsched.Active() {
		m.real.Lock()
		return
	}
	vsched.Point()
	m.reset()
	for m.locked {
		m.q = append(m.q, vsched.Cur())
		vsched.Block("mutex lock")
	}
	m.locked = true
	m.o.Write(201)
	m.vc.Acquire()
	if vsched.Tracing() {
		vsched.Tracef("lock %p", m)
	}
}

func (m *Mutex) TryLock() bool {
	if vsched.Killing() {
		return true
	}
	if !vsched.Active() {
		return m.real.TryLock()
	}
	vsched.Point()
	m.reset()
	if m.locked {
		m.o.Read(202)
		return false
	}
	m.locked = true
	m.o.Write(201)
	m.vc.Acquire()
	return true
}

func (m *Mutex) Unlock() {
	if vsched.Killing() {
		return
	}
	if !vsched.Active() {
		m.real.Unlock()
		return
	}
	m.reset()
	if !m.locked {
		panic(errors.New("fatal error: sync: unlock of unlocked mutex"))
	}
	m.locked = false
	m.o.Release()
	m.vc.ReleaseVC()
	for _, t := range m.q {
		t.Wake()
	}
	m.q = m.q[:0]
}

// RWMutex replaces sync.RWMutex (a waiting writer blocks new readers).
type RWMutex struct {
	o       vsched.Obj
	ro      vsched.Obj
	vc      vsched.SyncVC
	rvc     vsched.SyncVC
	writer  bool
	readers int
	wwait   int
	q       []*vsched.Thread
	real    sync.RWMutex
}

func (m *RWMutex) reset() {
	if m.o.Fresh() {
		m.writer, m.readers, m.wwait, m.q = false, 0, 0, nil
	}
}

func (m *RWMutex) wake() {
	for _, t := range m.q {
		t.Wake()
	}
	m.q = m.q[:0]
}

func (m *RWMutex) Lock() {
	if vsched.Killing() {
		return
	}
	if !vsched.Active() {
		m.real.Lock()
		return
	}
	vsched.Point()
	m.reset()
	for m.writer || m.readers > 0 {
		m.wwait++
		m.q = append(m.q, vsched.Cur())
		vsched.Block("rwmutex lock")
		m.wwait--
	}
	m.writer = true
	m.o.Write(203)
	m.ro.Read(203)
	m.vc.Acquire()
	m.rvc.Acquire()
}

func (m *RWMutex) Unlock() {
	if vsched.Killing() {
		return
	}
	if !vsched.Active() {
		m.real.Unlock()
		return
	}
	m.reset()
	if !m.writer {
		panic(errors.New("fatal error: sync: Unlock of unlocked RWMutex"))
	}
	m.writer = false
	m.o.Release()
	m.vc.ReleaseVC()
	m.wake()
}

func (m *RWMutex) RLock() {
	if vsched.Killing() {
		return
	}
	if !vsched.Active() {
		m.real.RLock()
		return
	}
	vsched.Point()
	m.reset()
	first := true
	for m.writer || (first && m.wwait > 0) {
		m.q = append(m.q, vsched.Cur())
		vsched.Block("rwmutex rlock")
		first = false
	}
	m.readers++
	m.o.Read(204)
	m.vc.Acquire()
}

func (m *RWMutex) RUnlock() {
	if vsched.Killing() {
		return
	}
	if !vsched.Active() {
		m.real.RUnlock()
		return
	}
	m.reset()
	if m.readers <= 0 {
		panic(errors.New("fatal error: sync: RUnlock of unlocked RWMutex"))
	}
	m.readers--
	m.ro.Accumulate(0)
	m.rvc.ReleaseVC()
	m.wake()
}

func (m *RWMutex) TryLock() bool {
	if !vsched.Active() {
		return m.real.TryLock()
	}
	vsched.Point()
	m.reset()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	m.o.Write(203)
	return true
}

func (m *RWMutex) TryRLock() bool {
	if !vsched.Active() {
		return m.real.TryRLock()
	}
	vsched.Point()
	m.reset()
	if m.writer {
		return false
	}
	m.readers++
	m.o.Read(204)
	return true
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	o    vsched.Obj
	vc   vsched.SyncVC
	n    int
	q    []*vsched.Thread
	real sync.WaitGroup
}

func (w *WaitGroup) reset() {
	if w.o.Fresh() {
		w.n = 0
		w.q = nil
	}
}

func (w *WaitGroup) Add(d int) {
	if vsched.Killing() {
		return
	}
	if !vsched.Active() {
		w.real.Add(d)
		return
	}
	if d > 0 {
		vsched.Point()
	}
	w.reset()
	w.n += d
	w.o.Accumulate(uint64(w.n))
	w.vc.ReleaseVC()
	if w.n < 0 {
		panic(errors.New("sync: negative WaitGroup counter"))
	}
	if w.n == 0 {
		for _, t := range w.q {
			t.Wake()
		}
		w.q = w.q[:0]
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() {
		defer w.Done()
		f()
	})
}

func (w *WaitGroup) Wait() {
	if vsched.Killing() {
		return
	}
	if !vsched.Active() {
		w.real.Wait()
		return
	}
	vsched.Point()
	w.reset()
	for w.n > 0 {
		w.q = append(w.q, vsched.Cur())
		vsched.Block("waitgroup")
		if w.n > 0 { // woken at zero and re-used since: Go's Wait returns as well
			break
		}
	}
	w.o.Read(205)
	w.vc.Acquire()
}

// Once replaces sync.Once.
type Once struct {
	o    vsched.Obj
	m    Mutex
	done bool
	real sync.Once
}

func (o *Once) Do(f func()) {
	if vsched.Killing() {
		return
	}
	if !vsched.Active() {
		o.real.Do(f)
		return
	}
	if o.o.Fresh() {
		o.o.Read(206)
		o.done = false
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Cond replaces sync.Cond.
type Cond struct {
	L  Locker
	o  vsched.Obj
	vc vsched.SyncVC
	q  []*vsched.Thread
	n  int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if vsched.Killing() {
		return
	}
	c.o.Write(207)
	c.q = append(c.q, vsched.Cur())
	c.L.Unlock()
	vsched.Block("cond wait")
	c.L.Lock()
}

func (c *Cond) Signal() {
	if vsched.Killing() {
		return
	}
	vsched.Point()
	c.o.Write(208)
	for len(c.q) > 0 {
		t := c.q[0]
		c.q = c.q[1:]
		if !t.Dead() {
			t.Wake()
			return
		}
	}
}

func (c *Cond) Broadcast() {
	if vsched.Killing() {
		return
	}
	vsched.Point()
	c.o.Write(209)
	for _, t := range c.q {
		t.Wake()
	}
	c.q = nil
}

// Pool replaces sync.Pool: a deterministic free list, emptied between executions.
type Pool struct {
	New func() any
	o   vsched.Obj
	l   []any
}

func (p *Pool) Get() any {
	if vsched.Active() {
		vsched.Point()
		if p.o.Fresh() {
			p.l = nil
		}
		p.o.Write(210)
	}
	if n := len(p.l); n > 0 {
		v := p.l[n-1]
		p.l = p.l[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil || vsched.Killing() {
		return
	}
	if vsched.Active() {
		vsched.Point()
		if p.o.Fresh() {
			p.l = nil
		}
		p.o.Write(211)
	}
	p.l = append(p.l, v)
}

// Map replaces sync.Map.
type Map struct {
	o vsched.Obj
	m map[any]any

	init map[any]any // what it held before the first execution began
	ran  bool
}

func (m *Map) op(n uint64) {
	if vsched.Active() {
		vsched.Point()
		if m.o.Fresh() {
			if !m.ran {
				m.ran, m.init = true, m.m
			}
			m.m = maps.Clone(m.init)
		}
		m.o.Write(n)
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
}
func (m *Map) Load(k any) (any, bool) { m.op(212); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.op(213); m.m[k] = v }
func (m *Map) Delete(k any)           { m.op(214); delete(m.m, k) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.op(215)
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.op(216)
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Swap(k, v any) (any, bool) {
	m.op(218)
	o, ok := m.m[k]
	m.m[k] = v
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.op(219)
	if m.m[k] == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.op(221)
	if v, ok := m.m[k]; ok && v == o {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Clear() { m.op(222); clear(m.m) }
func (m *Map) Range(f func(k, v any) bool) {
	m.op(217)
	it, k, v := vsched.MapInit(m.m)
	for it.Next(&k, &v) {
		if !f(k, v) {
			return
		}
	}
}
