//go:build go1.23

package vsched

import "unsafe"

// The race detector: happens-before with vector clocks over the instrumented memory accesses.
// A field found racy in a detection run becomes a scheduling point in the exploration.

type access struct {
	tid   int
	clock uint32
	site  int32
}

type shadow struct {
	w  access
	rs []access
	hw bool
}

type raceState struct {
	vars  map[unsafe.Pointer]*shadow
	syncs map[unsafe.Pointer]*SyncVC
}

// RacySites collects the sites seen to race (detection mode) or to treat as scheduling points.
var RacySites = map[int32]bool{}

func newRaceState() *raceState {
	return &raceState{vars: map[unsafe.Pointer]*shadow{}, syncs: map[unsafe.Pointer]*SyncVC{}}
}

func (rs *raceState) fork(parent, t *Thread) {
	if parent != nil {
		t.vc = append([]uint32(nil), parent.vc...)
		if parent.id >= 0 {
			rs.tick(parent)
		}
	}
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id] = 1
}

func (rs *raceState) tick(t *Thread) {
	if t.id < 0 {
		return
	}
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id]++
}

func (rs *raceState) snapshot(t *Thread) []uint32 {
	c := append([]uint32(nil), t.vc...)
	rs.tick(t)
	return c
}

func (rs *raceState) join(t *Thread, vc []uint32) {
	for len(t.vc) < len(vc) {
		t.vc = append(t.vc, 0)
	}
	for i, v := range vc {
		if v > t.vc[i] {
			t.vc[i] = v
		}
	}
}

func (rs *raceState) joinAll(t *Thread) {
	for _, u := range R.threads {
		if u != t {
			rs.join(t, u.vc)
			rs.tick(u)
		}
	}
}

func (rs *raceState) absorbRing(c any, t *Thread) {
	if r, ok := c.(interface{ ringVC() []uint32 }); ok {
		rs.join(t, r.ringVC())
	}
}

func (c *Chan[T]) ringVC() []uint32 {
	if len(c.rvc) == 0 {
		return nil
	}
	return c.rvc[c.ri%len(c.rvc)]
}

// SyncVC is a vector clock carried by a synchronisation object.
type SyncVC struct {
	epoch uint64
	vc    []uint32
}

// Acquire joins the object's clock into the running thread's.
func (s *SyncVC) Acquire() {
	if R.rstate != nil && R.cur != nil && s.epoch == R.epoch {
		R.rstate.join(R.cur, s.vc)
	}
}

// ReleaseVC joins the running thread's clock into the object's.
func (s *SyncVC) ReleaseVC() {
	if R.rstate == nil || R.cur == nil {
		return
	}
	if s.epoch != R.epoch {
		s.epoch = R.epoch
		s.vc = nil
	}
	snap := R.rstate.snapshot(R.cur)
	for len(s.vc) < len(snap) {
		s.vc = append(s.vc, 0)
	}
	for i, v := range snap {
		if v > s.vc[i] {
			s.vc[i] = v
		}
	}
}

func (rs *raceState) ordered(a access, t *Thread) bool {
	return a.tid == t.id || (a.tid < len(t.vc) && a.clock <= t.vc[a.tid])
}

func (rs *raceState) access(p unsafe.Pointer, site int32, write bool) {
	t := R.cur
	if t.id < 0 {
		return
	}
	s := rs.vars[p]
	if s == nil {
		s = &shadow{}
		rs.vars[p] = s
	}
	if s.hw && !rs.ordered(s.w, t) {
		RacySites[site] = true
		RacySites[s.w.site] = true
	}
	me := access{t.id, t.vc[t.id], site}
	if write {
		for _, a := range s.rs {
			if !rs.ordered(a, t) {
				RacySites[site] = true
				RacySites[a.site] = true
			}
		}
		s.w, s.hw = me, true
		s.rs = s.rs[:0]
		return
	}
	for i := range s.rs {
		if s.rs[i].tid == t.id {
			s.rs[i] = me
			return
		}
	}
	s.rs = append(s.rs, me)
}

// A thread at a racing access to the elements of a map, not yet gone on.
type atMap struct {
	t     *Thread
	p     unsafe.Pointer
	write bool
}

var atMaps []atMap

func init() { OnReset(func() { atMaps = atMaps[:0] }) }

// mapPoint is the scheduling point of a racing access to a map. Two threads at one, one of them to write, are what the
// Go runtime ends a process for.
func mapPoint(p unsafe.Pointer, write bool) {
	t := R.cur
	for _, a := range atMaps {
		if a.p == p && a.t != t && a.t.state != dead && a.t.state != done && a.t.group == t.group && (write || a.write) {
			Fail("concurrent-map", "two goroutines use the same map at the same time, one of them to change it (the Go runtime ends the process: concurrent map access): %s", callerName(4))
		}
	}
	atMaps = append(atMaps, atMap{t, p, write})
	Point()
	for i := range atMaps {
		if atMaps[i].t == t {
			atMaps = append(atMaps[:i], atMaps[i+1:]...)
			break
		}
	}
}

func racyAccess(p unsafe.Pointer, site int32, write, elem bool) {
	r := R
	if r.rstate != nil {
		r.rstate.access(p, site, write)
		return
	}
	if !RacySites[site] {
		return
	}
	if elem {
		mapPoint(p, write)
	} else {
		Point()
	}
	o := r.objs[p]
	if o == nil {
		o = &Obj{}
		r.objs[p] = o
	}
	if write {
		o.Write(21)
	} else {
		o.Read(22)
	}
	if r.cfg.Trace {
		Tracef("racy access write=%v %s", write, callerName(3))
	}
}

var detect bool

// Rd announces a read of *p.
func Rd[T any](p *T, site int32) *T {
	if R.active && !R.killing && R.cur != nil && (R.rstate != nil || len(RacySites) > 0) {
		racyAccess(unsafe.Pointer(p), site, false, false)
	}
	return p
}

// Wr announces a write of *p.
func Wr[T any](p *T, site int32) *T {
	if R.active && !R.killing && R.cur != nil && (R.rstate != nil || len(RacySites) > 0) {
		racyAccess(unsafe.Pointer(p), site, true, false)
	}
	return p
}

// SetAt writes *p, in a step of its own.
func SetAt[T any](p *T, site int32) func(T) {
	return func(v T) {
		if R.active && !R.killing && R.cur != nil && (R.rstate != nil || len(RacySites) > 0) {
			racyAccess(unsafe.Pointer(p), site, true, false)
		}
		*p = v
	}
}

// RdMap announces a use of the elements of the map *p.
func RdMap[T any](p *T, site int32) *T {
	if R.active && !R.killing && R.cur != nil && (R.rstate != nil || len(RacySites) > 0) {
		racyAccess(unsafe.Pointer(p), site, false, true)
	}
	return p
}

// WrMap announces a change of the elements of the map *p.
func WrMap[T any](p *T, site int32) *T {
	if R.active && !R.killing && R.cur != nil && (R.rstate != nil || len(RacySites) > 0) {
		racyAccess(unsafe.Pointer(p), site, true, true)
	}
	return p
}

// ObjFor is the scheduler object for an address (atomics).
func ObjFor(p unsafe.Pointer) *Obj {
	o := R.objs[p]
	if o == nil {
		o = &Obj{}
		R.objs[p] = o
	}
	return o
}

// SyncFor is the vector clock for an address (atomics).
func SyncFor(p unsafe.Pointer) *SyncVC {
	if R.rstate == nil {
		return &noVC
	}
	s := R.rstate.syncs[p]
	if s == nil {
		s = &SyncVC{}
		R.rstate.syncs[p] = s
	}
	return s
}

var noVC SyncVC
