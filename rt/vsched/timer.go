//go:build go1.23

package vsched

// Timer is a virtual timer.
type Timer struct {
	when   int64
	dur    int64
	period int64
	seq    int
	key    uint64
	group  int
	active bool
	f      func() // runs in the scheduler, must not block
	h      uint64
	vc     []uint32
}

// NewVTimer arms a timer that calls f (non-blocking) after d.
func NewVTimer(d, period int64, f func()) *Timer {
	t := &Timer{f: f}
	t.Arm(d, period)
	return t
}

// Arm (re)starts the timer.
func (t *Timer) Arm(d, period int64) (wasActive bool) {
	wasActive = t.Disarm()
	r := R
	if !r.active || r.killing {
		return
	}
	if d < 0 {
		d = 0
	}
	r.tseq++
	t.seq = r.tseq
	t.when = r.now + d
	t.dur = d
	t.period = period
	t.active = true
	if r.cur != nil {
		r.cur.nobj++
		t.key = mix(r.cur.key, r.cur.nobj)
		t.group = r.cur.group
		t.h = r.cur.h
		if r.rstate != nil {
			t.vc = r.rstate.snapshot(r.cur)
		}
	}
	r.timers = append(r.timers, t)
	return
}

// Disarm stops the timer.
func (t *Timer) Disarm() bool {
	was := t.active
	t.active = false
	for i, o := range R.timers {
		if o == t {
			R.timers = append(R.timers[:i], R.timers[i+1:]...)
			break
		}
	}
	return was
}

func (r *Runtime) earliest() *Timer {
	var b *Timer
	for _, t := range r.timers {
		if b == nil || t.when < b.when || (t.when == b.when && t.seq < b.seq) {
			b = t
		}
	}
	return b
}

func (r *Runtime) fireNext() bool {
	t := r.earliest()
	if t == nil {
		return false
	}
	r.fire(t)
	return true
}

func (r *Runtime) fire(t *Timer) {
	r.lastTime = r.steps
	if t.when > r.now {
		r.now = t.when
	}
	if t.period > 0 {
		t.when += t.period
		r.tseq++
		t.seq = r.tseq
		t.dur = t.period
	} else {
		t.Disarm()
	}
	if r.cfg.Trace {
		Tracef("(timer fires, armed for %dms)", t.dur/1e6)
	}
	saved := r.cur
	// the callback acts on behalf of whoever armed the timer
	tmp := &Thread{key: t.key, h: mix(t.h, uint64(r.now)), group: t.group, name: "timer", path: "~" + hex(t.key), vc: t.vc, id: -1}
	r.cur = tmp
	t.f()
	r.cur = saved
}

func hex(v uint64) string {
	const d = "0123456789abcdef"
	var b [16]byte
	for i := 15; i >= 0; i-- {
		b[i] = d[v&15]
		v >>= 4
	}
	return string(b[:])
}

// NewVTimerGroup is NewVTimer for a timer owned by process group g rather than the caller's.
func NewVTimerGroup(d, period int64, g int, f func()) *Timer {
	t := NewVTimer(d, period, f)
	t.group = g
	return t
}
