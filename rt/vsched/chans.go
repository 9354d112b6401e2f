//go:build go1.23

package vsched

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

type selState struct {
	fired bool
	idx   int
}

type waiter[T any] struct {
	th     *Thread
	sel    *selState
	idx    int
	val    T // value to send
	dst    *T
	ok     *bool
	closed *bool // sender woken by close
	vh     *uint64
	h      uint64
	vc     *[]uint32
	svc    []uint32
}

type item[T any] struct {
	v  T
	h  uint64
	vc []uint32
}

// Chan is the scheduler's implementation of one Go channel.
type Chan[T any] struct {
	Obj
	ch     chan T
	nilch  bool
	cap    int
	q      []item[T]
	recvq  []*waiter[T]
	sendq  []*waiter[T]
	closed bool
	ch0    uint64 // closer's history
	cvc    []uint32
	rring  []uint64 // histories of the receivers that freed slots
	rvc    [][]uint32
	ri     int
}

func ptrOf[T any](ch chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func get[T any](ch chan T) *Chan[T] {
	if ch == nil {
		return &Chan[T]{nilch: true}
	}
	p := ptrOf(ch)
	if c, ok := R.chans[p]; ok {
		if cc, ok := c.(*Chan[T]); ok {
			return cc
		}
	}
	c := &Chan[T]{ch: ch, cap: cap(ch)}
	// closed by code outside the scheduler?
	if c.cap == 0 {
		select {
		case _, ok := <-ch:
			if !ok {
				c.closed = true
			}
		default:
		}
	}
	R.chans[p] = c
	c.touch()
	return c
}

// To wraps a channel for sending.
func To[T any](ch chan<- T) *Chan[T] { return toBi(*(*chan T)(unsafe.Pointer(&ch))) }

func toBi[T any](ch chan T) *Chan[T] {
	if !Active() {
		return &Chan[T]{ch: ch, nilch: ch == nil}
	}
	return get(ch)
}

// From wraps a channel for receiving.
func From[T any](ch <-chan T) *Chan[T] { return toBi(*(*chan T)(unsafe.Pointer(&ch))) }

func (c *Chan[T]) rehash() {
	h := uint64(c.cap + 1)
	for i := range c.q {
		h = mix(h, c.q[i].h)
	}
	if c.closed {
		h = mix(h, c.ch0)
	}
	for _, w := range c.recvq {
		if !w.sel.fired && !w.th.Dead() {
			h = mix(h, w.th.key)
		}
	}
	for _, w := range c.sendq {
		if !w.sel.fired && !w.th.Dead() {
			h = mix(h, w.th.key+1)
		}
	}
	c.set(h)
}

func pop[T any](q *[]*waiter[T]) *waiter[T] {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.sel.fired && !w.th.Dead() {
			return w
		}
	}
	return nil
}

func peek[T any](q *[]*waiter[T]) *waiter[T] {
	for len(*q) > 0 {
		w := (*q)[0]
		if !w.sel.fired && !w.th.Dead() {
			return w
		}
		*q = (*q)[1:]
	}
	return nil
}

const (
	opSend  = 101
	opRecv  = 102
	opClose = 103
	opSel   = 104
	opLen   = 105
)

func (c *Chan[T]) sendReady() bool {
	if c.nilch {
		return false
	}
	return c.closed || peek(&c.recvq) != nil || len(c.q) < c.cap
}

func (c *Chan[T]) recvReady() bool {
	if c.nilch {
		return false
	}
	if len(c.q) > 0 || c.closed || peek(&c.sendq) != nil {
		return true
	}
	if c.cap == 0 && c.ch != nil { // closed by code outside the scheduler?
		select {
		case _, ok := <-c.ch:
			if !ok {
				c.closed = true
				return true
			}
		default:
		}
	}
	return false
}

// doSend performs a send known to be ready.
func (c *Chan[T]) doSend(v T) {
	t := R.cur
	if c.closed {
		panic(errors.New("send on closed channel"))
	}
	if R.rstate != nil {
		R.rstate.absorbRing(c, t)
	}
	if len(c.rring) > 0 && c.cap > 0 {
		t.hit(opSend, c.key, c.rring[c.ri%len(c.rring)])
	} else {
		t.hit(opSend, c.key, 0)
	}
	if w := pop(&c.recvq); w != nil {
		*w.dst = v
		if w.ok != nil {
			*w.ok = true
		}
		*w.vh = t.h
		if R.rstate != nil {
			*w.vc = R.rstate.snapshot(t)
		}
		w.sel.fired = true
		w.sel.idx = w.idx
		w.th.Wake()
	} else {
		it := item[T]{v: v, h: t.h}
		if R.rstate != nil {
			it.vc = R.rstate.snapshot(t)
		}
		c.q = append(c.q, it)
	}
	if R.cfg.Trace {
		Tracef("send %s len=%d  %s", c.desc(), len(c.q), callerName(4))
	}
	c.rehash()
}

func (c *Chan[T]) desc() string { return fmt.Sprintf("chan %s", reflect.TypeOf(c.ch).Elem()) }

// doRecv performs a receive known to be ready.
func (c *Chan[T]) doRecv() (v T, ok bool) {
	t := R.cur
	switch {
	case len(c.q) > 0:
		it := c.q[0]
		c.q = c.q[1:]
		v, ok = it.v, true
		t.hit(opRecv, c.key, it.h)
		if R.rstate != nil {
			R.rstate.join(t, it.vc)
		}
		if c.cap > 0 {
			if c.rring == nil {
				c.rring = make([]uint64, c.cap)
				c.rvc = make([][]uint32, c.cap)
			}
			c.rring[c.ri%len(c.rring)] = t.h
			if R.rstate != nil {
				c.rvc[c.ri%len(c.rring)] = R.rstate.snapshot(t)
			}
			c.ri++
		}
		if w := pop(&c.sendq); w != nil {
			c.q = append(c.q, item[T]{v: w.val, h: w.h, vc: w.svc})
			w.sel.fired = true
			w.sel.idx = w.idx
			*w.vh = t.h
			w.th.Wake()
		}
	case peek(&c.sendq) != nil:
		w := pop(&c.sendq)
		v, ok = w.val, true
		t.hit(opRecv, c.key, w.h)
		if R.rstate != nil {
			R.rstate.join(t, w.svc)
			*w.vc = R.rstate.snapshot(t)
		}
		w.sel.fired = true
		w.sel.idx = w.idx
		*w.vh = t.h
		w.th.Wake()
	default: // closed
		t.hit(opRecv, c.key, c.ch0)
		if R.rstate != nil {
			R.rstate.join(t, c.cvc)
		}
	}
	if R.cfg.Trace {
		Tracef("recv %s ok=%v len=%d  %s", c.desc(), ok, len(c.q), callerName(4))
	}
	c.rehash()
	return
}

// Send is ch <- v.
func (c *Chan[T]) Send(v T) {
	if R.killing {
		panic(killSentinel{})
	}
	if !R.active {
		c.ch <- v
		return
	}
	Point()
	if c.sendReady() {
		c.doSend(v)
		return
	}
	t := R.cur
	t.hit(opSend, c.key, 1)
	sel := &selState{}
	var closed bool
	var vh uint64
	var vc []uint32
	w := &waiter[T]{th: t, sel: sel, val: v, closed: &closed, vh: &vh, h: t.h, vc: &vc}
	if R.rstate != nil {
		w.svc = R.rstate.snapshot(t)
	}
	if !c.nilch {
		c.sendq = append(c.sendq, w)
		c.rehash()
	}
	if R.cfg.Trace {
		Tracef("send blocks %s  %s", c.desc(), callerName(3))
	}
	R.block("chan send")
	if closed {
		panic(errors.New("send on closed channel"))
	}
	t.hit(opSend, c.key, vh)
	if R.rstate != nil {
		R.rstate.join(t, vc)
	}
}

func (c *Chan[T]) recv() (v T, ok bool) {
	if R.killing {
		panic(killSentinel{})
	}
	if !R.active {
		v, ok = <-c.ch
		return
	}
	Point()
	if c.recvReady() {
		return c.doRecv()
	}
	t := R.cur
	sel := &selState{}
	var vh uint64
	var vc []uint32
	w := &waiter[T]{th: t, sel: sel, dst: &v, ok: &ok, vh: &vh, vc: &vc}
	if !c.nilch {
		c.recvq = append(c.recvq, w)
		c.rehash()
	}
	if R.cfg.Trace {
		Tracef("recv blocks %s  %s", c.desc(), callerName(3))
	}
	R.block("chan recv")
	t.hit(opRecv, c.key, vh)
	if R.rstate != nil {
		R.rstate.join(t, vc)
	}
	return
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T { v, _ := From(ch).recv(); return v }

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) { return From(ch).recv() }

// RangeInit starts a range over a channel.
func RangeInit[T any](ch <-chan T) (<-chan T, T, bool) {
	v, ok := Recv2(ch)
	return ch, v, ok
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if R.killing {
		return
	}
	c := To(ch)
	if !R.active {
		close(c.ch)
		return
	}
	Point()
	c.doClose()
}

func (c *Chan[T]) doClose() {
	if c.nilch {
		panic(errors.New("close of nil channel"))
	}
	if c.closed {
		panic(errors.New("close of closed channel"))
	}
	t := R.cur
	c.closed = true
	t.hit(opClose, c.key, 0)
	c.ch0 = t.h
	if R.rstate != nil {
		c.cvc = R.rstate.snapshot(t)
	}
	for {
		w := pop(&c.recvq)
		if w == nil {
			break
		}
		var z T
		*w.dst = z
		if w.ok != nil {
			*w.ok = false
		}
		*w.vh = t.h
		*w.vc = c.cvc
		w.sel.fired = true
		w.sel.idx = w.idx
		w.th.Wake()
	}
	for {
		w := pop(&c.sendq)
		if w == nil {
			break
		}
		*w.closed = true
		w.sel.fired = true
		w.sel.idx = w.idx
		w.th.Wake()
	}
	if R.cfg.Trace {
		Tracef("close %s  %s", c.desc(), callerName(4))
	}
	c.rehash()
}

// CloseNow closes without a scheduling point.
func CloseNow[T any](ch chan T) { get(ch).doClose() }

// Drain empties a timer channel.
func Drain[T any](ch chan T) {
	c := get(ch)
	c.q = nil
	c.rehash()
}

// TrySendNow is a non-blocking, non-scheduling send for timers.
func TrySendNow[T any](ch chan T, v T) {
	c := get(ch)
	if c.sendReady() && !c.closed {
		c.doSend(v)
	}
}

// TrySendTo is the same for a send-only channel.
func TrySendTo[T any](ch chan<- T, v T) {
	c := To(ch)
	if c.sendReady() && !c.closed {
		c.doSend(v)
	}
}

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	if !Active() {
		return len(ch)
	}
	if ch == nil {
		return 0
	}
	Point()
	c := From(ch)
	R.cur.hit(opLen, c.key, mix(uint64(len(c.q)), c.h))
	return len(c.q)
}

// ---- select --------------------------------------------------------------------------------------

// Case is one communication clause.
type Case interface {
	ready() bool
	do()
	enqueue(sel *selState, idx int)
	finish()
	real() reflect.SelectCase
	setReal(v reflect.Value, ok bool)
	cleanup()
}

// RecvCaseT is a receive clause; V and OK hold what was received.
type RecvCaseT[T any] struct {
	c  *Chan[T]
	V  T
	OK bool
	vh uint64
	vc []uint32
}

// RecvCase makes a receive clause.
func RecvCase[T any](ch <-chan T) *RecvCaseT[T] { return &RecvCaseT[T]{c: From(ch)} }

func (r *RecvCaseT[T]) ready() bool { return r.c.recvReady() }
func (r *RecvCaseT[T]) do()         { r.V, r.OK = r.c.doRecv() }
func (r *RecvCaseT[T]) enqueue(sel *selState, idx int) {
	if r.c.nilch {
		return
	}
	r.c.recvq = append(r.c.recvq, &waiter[T]{th: R.cur, sel: sel, idx: idx, dst: &r.V, ok: &r.OK, vh: &r.vh, vc: &r.vc})
	r.c.rehash()
}
func (r *RecvCaseT[T]) finish() {
	R.cur.hit(opRecv, r.c.key, r.vh)
	if R.rstate != nil {
		R.rstate.join(R.cur, r.vc)
	}
}
func (r *RecvCaseT[T]) cleanup() {
	if !r.c.nilch {
		prune(&r.c.recvq)
		r.c.rehash()
	}
}
func (r *RecvCaseT[T]) real() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.c.ch)}
}
func (r *RecvCaseT[T]) setReal(v reflect.Value, ok bool) {
	r.OK = ok
	if ok {
		r.V, _ = v.Interface().(T)
	}
}

type sendCaseT[T any] struct {
	c      *Chan[T]
	v      T
	closed bool
	vh     uint64
	vc     []uint32
}

// SendCase makes a send clause.
func (c *Chan[T]) SendCase(v T) Case { return &sendCaseT[T]{c: c, v: v} }

func (s *sendCaseT[T]) ready() bool { return s.c.sendReady() }
func (s *sendCaseT[T]) do()         { s.c.doSend(s.v) }
func (s *sendCaseT[T]) enqueue(sel *selState, idx int) {
	if s.c.nilch {
		return
	}
	w := &waiter[T]{th: R.cur, sel: sel, idx: idx, val: s.v, closed: &s.closed, vh: &s.vh, h: mix(R.cur.h, opSend), vc: &s.vc}
	if R.rstate != nil {
		w.svc = R.rstate.snapshot(R.cur)
	}
	s.c.sendq = append(s.c.sendq, w)
	s.c.rehash()
}
func (s *sendCaseT[T]) finish() {
	if s.closed {
		panic(errors.New("send on closed channel"))
	}
	R.cur.hit(opSend, s.c.key, s.vh)
	if R.rstate != nil {
		R.rstate.join(R.cur, s.vc)
	}
}
func (s *sendCaseT[T]) cleanup() {
	if !s.c.nilch {
		prune(&s.c.sendq)
		s.c.rehash()
	}
}
func (s *sendCaseT[T]) real() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(s.c.ch), Send: reflect.ValueOf(&s.v).Elem()}
}
func (s *sendCaseT[T]) setReal(reflect.Value, bool) {}

func prune[T any](q *[]*waiter[T]) {
	out := (*q)[:0:0]
	for _, w := range *q {
		if !w.sel.fired && !w.th.Dead() {
			out = append(out, w)
		}
	}
	*q = out
}

// Select is a select statement; it returns the index of the clause taken, or -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	if R.killing {
		panic(killSentinel{})
	}
	if !R.active {
		rc := make([]reflect.SelectCase, 0, len(cases)+1)
		for _, c := range cases {
			rc = append(rc, c.real())
		}
		if hasDefault {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rc)
		if i == len(cases) {
			return -1
		}
		cases[i].setReal(v, ok)
		return i
	}
	Point()
	t := R.cur
	var rd [16]int
	n := 0
	for i, c := range cases {
		if n < len(rd) && c.ready() {
			rd[n] = i
			n++
		}
	}
	if n > 0 {
		k := 0
		if n > 1 {
			// no ready case is passed over for ever
			if t.first >= 60 {
				k = n - 1
			} else {
				k = R.choose(n, 4, false)
			}
			t.first++
			if k > 0 {
				t.first = 0
			}
		}
		t.hit(opSel, 0, uint64(rd[k]))
		cases[rd[k]].do()
		return rd[k]
	}
	if hasDefault {
		t.hit(opSel, 0, 99)
		return -1
	}
	t.hit(opSel, 0, 98)
	sel := &selState{}
	for i, c := range cases {
		c.enqueue(sel, i)
	}
	if R.cfg.Trace {
		Tracef("select blocks  %s", callerName(2))
	}
	R.block("select")
	t.hit(opSel, 0, uint64(sel.idx))
	if R.cfg.Trace {
		Tracef("select goes on with case %d", sel.idx)
	}
	for _, c := range cases {
		c.cleanup()
	}
	cases[sel.idx].finish()
	return sel.idx
}

// ---- maps ----------------------------------------------------------------------------------------

// MapIter iterates over a map in an order the scheduler chooses.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
}

// MapInit starts a range over a map.
func MapInit[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], K, V) {
	var k K
	var v V
	it := &MapIter[K, V]{m: m}
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sortKeys(it.keys)
	return it, k, v
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
		return
	case []int32:
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		return
	case []int:
		sort.Ints(ks)
		return
	}
	if len(keys) < 2 {
		return
	}
	type kv struct {
		s string
		k K
	}
	l := make([]kv, len(keys))
	for i, k := range keys {
		v := reflect.ValueOf(k)
		if v.Kind() == reflect.Pointer {
			l[i] = kv{fmt.Sprintf("%v", v.Elem()), k}
		} else {
			l[i] = kv{fmt.Sprintf("%v", k), k}
		}
	}
	sort.SliceStable(l, func(i, j int) bool {
		if len(l[i].s) != len(l[j].s) {
			return len(l[i].s) < len(l[j].s)
		}
		return l[i].s < l[j].s
	})
	for i := range l {
		keys[i] = l[i].k
	}
}

// Next advances; k and v may be nil.
func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	for len(it.keys) > 0 {
		i := 0
		if len(it.keys) > 1 && Active() {
			i = R.choose(len(it.keys), 5, false)
			R.cur.hit(16, 0, uint64(i))
		}
		key := it.keys[i]
		it.keys = append(it.keys[:i:i], it.keys[i+1:]...)
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}
