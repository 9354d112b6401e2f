//go:build go1.23

// Package vsched is the controlled scheduler the instrumented code runs under: every goroutine of the
// code under test is a coroutine, every channel, lock, atomic, timer and context operation is a call
// into this package, and exactly one coroutine runs at a time. Which one runs next is a recorded choice.
package vsched

import (
	"fmt"
	"iter"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

// ---- hashing -------------------------------------------------------------------------------------

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 32
	h *= 0xc4ceb9fe1a85ec53
	h ^= h >> 29
	return h
}

func fin(h uint64) uint64 { return mix(h, 0x2545F4914F6CDD1D) }

// HashString hashes a string.
func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// ---- objects -------------------------------------------------------------------------------------

// Obj is the scheduler's view of a synchronisation object.
type Obj struct {
	epoch uint64
	key   uint64
	h     uint64 // content / history hash
	acc   uint64 // commutative accumulator
	last  uint64 // contribution currently in objSum
}

func (o *Obj) touch() {
	if o.epoch != R.epoch {
		*o = Obj{epoch: R.epoch}
		if t := R.cur; t != nil {
			t.nobj++
			o.key = mix(t.key, t.nobj)
		} else {
			R.rootObj++
			o.key = mix(77, R.rootObj)
		}
	}
}

func (o *Obj) Fresh() bool { return o.epoch != R.epoch }

func (o *Obj) set(h uint64) {
	o.h = h
	n := fin(mix(o.key, h))
	R.objSum += n - o.last
	o.last = n
}

// Write: the thread absorbs the object's history and the object absorbs the thread's.
func (o *Obj) Write(op uint64) {
	o.touch()
	t := R.cur
	if t == nil {
		return
	}
	t.hit(op, o.key, o.h)
	o.set(mix(o.h, t.h))
}

// Read: the thread absorbs the object's history.
func (o *Obj) Read(op uint64) {
	o.touch()
	if R.cur != nil {
		R.cur.hit(op, o.key, o.h)
	}
}

// Release: the object absorbs the thread's history only.
func (o *Obj) Release() {
	o.touch()
	if R.cur != nil {
		o.set(mix(o.h, R.cur.h))
	}
}

// Accumulate adds the thread's history commutatively.
func (o *Obj) Accumulate(v uint64) {
	o.touch()
	if R.cur != nil {
		o.acc += fin(R.cur.h)
		o.set(mix(o.acc, v))
	}
}

// ---- threads -------------------------------------------------------------------------------------

type tstate uint8

const (
	ready tstate = iota
	blocked
	idling
	done
	dead // its process crashed
)

// Thread is one goroutine of the code under test (or of the harness).
type Thread struct {
	id      int
	path    string // canonical creation path
	key     uint64
	h       uint64
	nobj    uint64
	nchild  int
	state   tstate
	demoted bool
	since   int  // step at which it became runnable or was last suspended
	env     bool // an environment actor: last of all
	name    string
	group   int
	wait    string
	waitPC  [16]uintptr
	waitN   int
	next    func() (struct{}, bool)
	stop    func()
	yield   func(struct{}) bool
	vc      []uint32
	quiet   int
	first   int // selects in a row that took the first of several ready cases
}

func (t *Thread) hit(op, okey, v uint64) { t.h = mix(mix(mix(t.h, op), okey), v) }

// Name returns a printable name.
func (t *Thread) Name() string { return t.name }

type killSentinel struct{}

// Dev is one departure from the default choice: at position Pos take alternative Alt.
type Dev struct {
	Pos int32
	Alt int16
}

// Branch says that at position Pos there were N alternatives (0 being the default).
type Branch struct {
	Pos int32
	N   int16
	// Free alternatives cost nothing (environment answers declared free).
	Free bool
	FP   uint32
}

// Result is the outcome of one execution.
type Result struct {
	Steps     int
	Points    int
	Branches  []Branch
	Pruned    bool
	Completed bool // the harness main function returned
	Stuck     bool // nothing could run and no timer was pending, before main returned
	Horizon   bool // virtual time horizon passed
	Livelock  bool
	Diverged  string
	Panics    []string
	Violation *Violation
	Outcome   uint64 // digest of what the harness observed
	Blocked   string
	FPs       uint64
	Trace     []string
}

// Violation is a failed check.
type Violation struct {
	Prop string // property id, or "" for the one being checked
	Sig  string // stable signature (for known findings)
	Msg  string
}

// Runtime is the global scheduler state of the current execution.
type Runtime struct {
	active   bool
	killing  bool
	ended    bool
	epoch    uint64
	rootObj  uint64
	objSum   uint64
	thSum    uint64
	cur      *Thread
	nextT    *Thread
	threads  []*Thread
	live     []*Thread
	steps    int
	consec   int
	lastTime int // step of the last timer
	pos      int32
	devs     []Dev
	di       int
	lastPos  int32
	quiet    int
	res      *Result
	cfg      Config
	now      int64
	timers   []*Timer
	tseq     int
	chans    map[unsafe.Pointer]any
	objs     map[unsafe.Pointer]*Obj
	rstate   *raceState
	outcome  uint64
	uuid     uint64
	fpCur    uint64
	cost     int
	log      *Obj
	racyHere bool
}

// Config of one execution.
type Config struct {
	Devs      []Dev
	ExpectFP  uint32 // fingerprint expected at the last deviation (0: don't check)
	MaxSteps  int
	Horizon   int64 // virtual ns
	EarlyMax  int64 // timers armed for at most this long may fire early, as a deviation
	Fair      int
	Visited   func(fp uint64, cost int) bool // true: already explored with a cost <= this; nil: never prune
	Trace     bool
	NoCollect bool
	NoDemote  bool
	NoReset   bool // package-level state does not matter
	Race      bool
	Cost      int
	// Choose answers environment and map order choices (order: one that only affects an order); nothing else branches.
	Choose func(n int, order bool) int
}

var R = &Runtime{}

var resets []func()

// OnReset registers a function that restores package-level state before every execution.
func OnReset(f func()) { resets = append(resets, f) }

// Active reports whether an execution is in progress (otherwise primitives act directly).
func Active() bool { return R.active && !R.killing }

// Killing reports whether leftovers of a finished execution are being unwound.
func Killing() bool { return R.killing }

// Now returns the virtual time in ns since the start of the execution.
func Now() int64 {
	if R.cur != nil {
		R.cur.hit(11, 0, uint64(R.now))
	}
	return R.now
}

// Cur returns the running thread.
func Cur() *Thread { return R.cur }

// Run performs one execution of main.
func Run(cfg Config, main func()) *Result {
	old := R
	r := &Runtime{epoch: old.epoch + 1, cfg: cfg, devs: cfg.Devs, chans: map[unsafe.Pointer]any{}, objs: map[unsafe.Pointer]*Obj{}}
	if r.cfg.MaxSteps == 0 {
		r.cfg.MaxSteps = 200000
	}
	if r.cfg.Fair == 0 {
		r.cfg.Fair = 200
	}
	r.res = &Result{}
	r.lastPos = -1
	if n := len(r.devs); n > 0 {
		r.lastPos = r.devs[n-1].Pos
	}
	if cfg.Race {
		r.rstate = newRaceState()
	}
	R = r
	if !cfg.NoReset {
		for _, f := range resets {
			f()
		}
	}
	r.active = true
	r.cost = cfg.Cost
	t := r.newThread(nil, "main", main)
	r.nextT = t
	for !r.ended {
		t := r.nextT
		r.cur = t
		t.next()
	}
	// unwind what is left
	r.killing = true
	for _, t := range r.threads {
		if t.state != done {
			r.cur = t
			t.stop()
			t.state = done
		}
	}
	r.cur = nil
	r.killing = false
	r.active = false
	r.res.Steps = r.steps
	r.res.Points = int(r.pos)
	r.res.Outcome = r.outcome
	if !r.res.Pruned && r.res.Diverged == "" && r.di < len(r.devs) {
		r.res.Diverged = fmt.Sprintf("execution ended at position %d before deviation %v", r.pos, r.devs[r.di])
	}
	return r.res
}

func (r *Runtime) newThread(parent *Thread, name string, fn func()) *Thread {
	t := &Thread{id: len(r.threads), name: name, state: ready, since: r.steps}
	if parent != nil {
		parent.nchild++
		t.path = parent.path + string(rune(parent.nchild+32))
		t.key = mix(parent.key, uint64(parent.nchild))
		t.h = mix(t.key, parent.h)
		t.group = parent.group
		parent.h = mix(parent.h, 5)
	} else {
		t.path = "!"
		t.key = 1
		t.h = 1
	}
	if r.rstate != nil {
		r.rstate.fork(parent, t)
	}
	t.next, t.stop = iter.Pull(func(yield func(struct{}) bool) {
		t.yield = yield
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(killSentinel); ok || r.killing {
					return
				}
				if r.ended {
					return
				}
				if t.id != 0 && onPanic != nil && onPanic(t.group, e) {
					// the process is gone
					t.state = done
					KillGroupNow(t.group)
					r.pickAfterBlock(t)
					return
				}
				r.res.Panics = append(r.res.Panics, fmt.Sprintf("%s: panic: %v\n%s", t.name, e, trimStack(debug.Stack())))
				t.state = done
				r.end()
			}
		}()
		fn()
		if r.ended || r.killing {
			return
		}
		t.state = done
		if t.id == 0 {
			r.res.Completed = true
			r.end()
			return
		}
		r.live = nil
		r.pickAfterBlock(t)
	})
	r.threads = append(r.threads, t)
	r.live = nil
	return t
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.Contains(l, "go-kafka-event-source/streams") && !strings.Contains(l, "zverif/vs") && !strings.HasPrefix(l, "\t") {
			out = append(out, strings.TrimSpace(l))
			if i+1 < len(lines) {
				out = append(out, "   "+strings.TrimSpace(lines[i+1]))
			}
		}
		if len(out) > 16 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (r *Runtime) end() {
	r.ended = true
}

// switchTo hands control to u and returns when t is scheduled again.
func (r *Runtime) switchTo(t, u *Thread) {
	r.nextT = u
	r.consec = 0
	t.since = r.steps
	if !t.yield(struct{}{}) {
		panic(killSentinel{})
	}
}

// abort ends the execution from within thread t.
func (r *Runtime) abort(t *Thread) {
	r.ended = true
	t.yield(struct{}{})
	panic(killSentinel{})
}

func (r *Runtime) alive() []*Thread {
	if r.live == nil {
		l := make([]*Thread, 0, 16)
		for _, t := range r.threads {
			if t.state != done && t.state != dead {
				l = append(l, t)
			}
		}
		sort.Slice(l, func(i, j int) bool { return l[i].path < l[j].path })
		r.live = l
	}
	return r.live
}

// others lists runnable threads other than t: normal ones in cyclic path order after t, then demoted ones.
func (r *Runtime) others(t *Thread, buf []*Thread) (all []*Thread, normal int) {
	l := r.alive()
	k := sort.Search(len(l), func(i int) bool { return l[i].path > t.path })
	n := len(l)
	for i := 0; i < n; i++ {
		u := l[(k+i)%n]
		if u != t && u.state == ready && !u.demoted {
			buf = append(buf, u)
		}
	}
	normal = len(buf)
	for i := 0; i < n; i++ {
		u := l[(k+i)%n]
		if u != t && u.state == ready && u.demoted && !u.env {
			buf = append(buf, u)
		}
	}
	for i := 0; i < n; i++ {
		u := l[(k+i)%n]
		if u != t && u.state == ready && u.demoted && u.env {
			buf = append(buf, u)
		}
	}
	return buf, normal
}

// fingerprint of the whole state, seen from running thread t.
func (r *Runtime) fingerprint(t *Thread, kind uint64) uint64 {
	s := r.objSum
	for _, u := range r.threads {
		if u.state == done {
			s += fin(mix(u.key, u.h))
			continue
		}
		v := mix(u.key, u.h)
		v = mix(v, uint64(u.state))
		if u.demoted {
			v = mix(v, 3)
		}
		s += fin(v)
	}
	for _, tm := range r.timers {
		s += fin(mix(tm.key, uint64(tm.when)))
	}
	s = mix(s, uint64(r.now))
	s = mix(s, t.key)
	return mix(s, kind)
}

// choose is a branching position with n alternatives; it returns the one taken.
func (r *Runtime) choose(n int, kind uint64, free bool) int {
	if r.quiet > 0 || r.cur.quiet > 0 {
		return 0
	}
	if r.cfg.Choose != nil {
		switch kind {
		case 3:
			return r.cfg.Choose(n, false)
		case 4, 5:
			return r.cfg.Choose(n, true)
		}
		return 0
	}
	pos := r.pos
	r.pos++
	if r.di < len(r.devs) && r.devs[r.di].Pos == pos {
		d := r.devs[r.di]
		r.di++
		if int(d.Alt) >= n {
			r.res.Diverged = fmt.Sprintf("position %d has %d alternatives, wanted %d", pos, n, d.Alt)
			r.abort(r.cur)
		}
		if r.di == len(r.devs) && r.cfg.ExpectFP != 0 {
			if fp := uint32(r.fingerprint(r.cur, kind)); fp != r.cfg.ExpectFP {
				r.res.Diverged = fmt.Sprintf("fingerprint mismatch at position %d (kind %d thread %s)", pos, kind, r.cur.name)
				r.abort(r.cur)
			}
		}
		return int(d.Alt)
	}
	if pos <= r.lastPos || r.cfg.NoCollect {
		return 0
	}
	fp := r.fingerprint(r.cur, kind)
	if r.cfg.Visited != nil && r.cfg.Visited(fp, r.cost) {
		r.res.Pruned = true
		r.abort(r.cur)
	}
	r.res.FPs++
	r.res.Branches = append(r.res.Branches, Branch{Pos: pos, N: int16(n), Free: free, FP: uint32(fp)})
	return 0
}

func (r *Runtime) step(t *Thread) {
	r.steps++
	t.h = mix(t.h, 21)
	if r.steps > r.cfg.MaxSteps {
		r.res.Livelock = true
		r.res.Blocked = r.describe()
		r.abort(t)
	}
}

func (r *Runtime) earlyTimer() *Timer {
	if r.cfg.EarlyMax <= 0 {
		return nil
	}
	tm := r.earliest()
	if tm == nil || tm.dur > r.cfg.EarlyMax {
		return nil
	}
	return tm
}

// Point is a scheduling point: the operation that follows is visible to other threads.
func Point() {
	r := R
	if !r.active || r.killing {
		return
	}
	r.point(false)
}

func (r *Runtime) point(yield bool) {
	t := r.cur
	if r.ended {
		panic(killSentinel{})
	}
	r.step(t)
	r.consec++
	var arr [64]*Thread
	all, normal := r.others(t, arr[:0])
	if r.steps-r.lastTime > 50*r.cfg.Fair && !t.env {
		// time passes for a busy system, too
		r.lastTime = r.steps
		if tm := r.earliest(); tm != nil && (r.cfg.Horizon == 0 || tm.when <= r.cfg.Horizon) {
			r.fire(tm)
		}
	}
	if r.consec <= r.cfg.Fair && r.steps%32 == 0 {
		// no runnable thread starves while others keep the system busy
		for _, u := range all {
			if w := r.steps - u.since; w > 1500 && (!u.env || w > 40000) {
				u.demoted = false
				r.switchTo(t, u)
				return
			}
		}
	}
	if yield || r.consec > r.cfg.Fair {
		// a yielding (or hogging) thread lets the others go first; not a deviation
		if normal > 0 {
			r.switchTo(t, all[0])
			return
		}
		if len(all) > 0 && (yield || r.consec > 4*r.cfg.Fair) {
			all[0].demoted = false
			r.switchTo(t, all[0])
			return
		}
		if yield {
			// a polling loop: if only time can change what it polls, let time pass
			if r.cfg.Horizon == 0 || r.now < r.cfg.Horizon {
				if r.hasIdle() {
					t.state = ready
					u := r.idle()
					u.state = ready
					r.switchTo(t, u)
					return
				}
				r.fireNext()
			}
			return
		}
	}
	n := 1 + len(all)
	dem := -1
	if len(all) > 0 && !r.cfg.NoDemote && !t.demoted {
		dem = n
		n++
	}
	et := r.earlyTimer()
	if et != nil {
		n++
	}
	if n == 1 {
		return
	}
	c := r.choose(n, 1, false)
	switch {
	case c == 0:
		return
	case c <= len(all):
		u := all[c-1]
		u.demoted = false
		r.switchTo(t, u)
	case c == dem:
		t.demoted = true
		r.switchTo(t, all[0])
	default:
		r.fire(et)
	}
}

func (r *Runtime) hasIdle() bool { return r.idle() != nil }
func (r *Runtime) idle() *Thread {
	for _, u := range r.threads {
		if u.state == idling {
			return u
		}
	}
	return nil
}

// pickAfterBlock chooses the next thread after t stopped being runnable. It sets r.nextT or ends.
// It returns false if t itself became runnable again (only possible through a timer).
func (r *Runtime) pickAfterBlock(t *Thread) {
	for {
		var arr [64]*Thread
		all, _ := r.others(t, arr[:0])
		if t.state == ready {
			all = append(all, t)
			if !t.env {
				for i := len(all) - 1; i > 0 && all[i-1].demoted && all[i-1].env; i-- {
					all[i], all[i-1] = all[i-1], all[i]
				}
			}
		}
		if len(all) > 0 {
			n := len(all)
			et := r.earlyTimer()
			if et != nil {
				n++
			}
			c := 0
			if n > 1 {
				if t.state == done {
					// no coroutine to abort: choose handles aborting by ending the execution
					c = r.chooseDone(n)
					if r.ended {
						return
					}
				} else {
					c = r.choose(n, 2, false)
				}
			}
			if c == len(all) {
				r.fire(et)
				continue
			}
			u := all[c]
			u.demoted = false
			r.nextT = u
			r.consec = 0
			return
		}
		if u := r.idle(); u != nil {
			u.state = ready
			r.nextT = u
			return
		}
		if r.cfg.Horizon > 0 {
			if tm := r.earliest(); tm != nil && tm.when > r.cfg.Horizon {
				r.res.Horizon = true
				r.res.Blocked = r.describe()
				r.end()
				return
			}
		}
		if !r.fireNext() {
			r.res.Stuck = true
			r.res.Blocked = r.describe()
			r.end()
			return
		}
	}
}

// chooseDone is choose for a thread that has finished (it cannot be unwound by panicking through user code).
func (r *Runtime) chooseDone(n int) (c int) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(killSentinel); !ok {
				panic(e)
			}
		}
	}()
	if r.quiet > 0 {
		return 0
	}
	return r.chooseNoAbort(n)
}

func (r *Runtime) chooseNoAbort(n int) int {
	pos := r.pos
	r.pos++
	if r.di < len(r.devs) && r.devs[r.di].Pos == pos {
		d := r.devs[r.di]
		r.di++
		if int(d.Alt) >= n {
			r.res.Diverged = fmt.Sprintf("position %d has %d alternatives, wanted %d", pos, n, d.Alt)
			r.end()
			return 0
		}
		if r.di == len(r.devs) && r.cfg.ExpectFP != 0 {
			if fp := uint32(r.fingerprint(r.cur, 2)); fp != r.cfg.ExpectFP {
				r.res.Diverged = fmt.Sprintf("fingerprint mismatch at position %d (exit of %s)", pos, r.cur.name)
				r.end()
				return 0
			}
		}
		return int(d.Alt)
	}
	if pos <= r.lastPos || r.cfg.NoCollect {
		return 0
	}
	fp := r.fingerprint(r.cur, 2)
	if r.cfg.Visited != nil && r.cfg.Visited(fp, r.cost) {
		r.res.Pruned = true
		r.end()
		return 0
	}
	r.res.FPs++
	r.res.Branches = append(r.res.Branches, Branch{Pos: pos, N: int16(n), FP: uint32(fp)})
	return 0
}

// block suspends the current thread until something makes it ready.
func (r *Runtime) block(why string) {
	t := r.cur
	if r.ended {
		panic(killSentinel{})
	}
	r.step(t)
	t.state = blocked
	t.wait = why
	t.waitN = runtime.Callers(3, t.waitPC[:])
	r.pickAfterBlock(t)
	if r.ended {
		t.yield(struct{}{})
		panic(killSentinel{})
	}
	if r.nextT == t {
		return
	}
	if !t.yield(struct{}{}) {
		panic(killSentinel{})
	}
}

// Block suspends the running thread until Wake is called on it.
func Block(why string) { R.block(why) }

// Wake makes a blocked thread runnable.
func (t *Thread) Wake() {
	if t.state == blocked {
		t.state = ready
		t.since = R.steps
	}
}

// Dead reports whether the thread's process crashed or it finished.
func (t *Thread) Dead() bool { return t.state == dead || t.state == done }

func (r *Runtime) describe() string {
	var sb strings.Builder
	for _, t := range r.threads {
		if t.state == done {
			continue
		}
		st := [...]string{"ready", "blocked", "idle", "done", "dead"}[t.state]
		fmt.Fprintf(&sb, "%s[%s %s]", t.name, st, t.wait)
		if t.waitN > 0 && t.state == blocked {
			fr := runtime.CallersFrames(t.waitPC[:t.waitN])
			k := 0
			for {
				f, more := fr.Next()
				if strings.Contains(f.Function, "go-kafka-event-source") && !strings.Contains(f.File, "/vs") {
					fn := f.Function[strings.LastIndex(f.Function, "/")+1:]
					fmt.Fprintf(&sb, " @%s:%d", fn, f.Line)
					k++
				}
				if !more || k >= 3 {
					break
				}
			}
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

// Describe lists the threads that have not finished and where they wait.
func Describe() string { return R.describe() }

// BlockedIn reports whether some live thread is blocked with a frame whose function contains sub.
func BlockedIn(sub string) bool {
	for _, t := range R.threads {
		if t.state != blocked || t.waitN == 0 {
			continue
		}
		fr := runtime.CallersFrames(t.waitPC[:t.waitN])
		for {
			f, more := fr.Next()
			if strings.Contains(f.Function, sub) {
				return true
			}
			if !more {
				break
			}
		}
	}
	return false
}

func callerName(skip int) string {
	var pcs [4]uintptr
	n := runtime.Callers(skip+1, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	f, _ := fr.Next()
	fn := f.Function[strings.LastIndex(f.Function, "/")+1:]
	return fmt.Sprintf("%s:%d", fn, f.Line)
}

// Go starts a thread.
func Go(fn func()) { goNamed("", fn, false) }

// GoNamed starts a named thread.
func GoNamed(name string, fn func()) { goNamed(name, fn, false) }

// GoLow starts a thread that, by default, runs only when nothing else can; running it earlier is a deviation.
func GoLow(name string, fn func()) { goNamed(name, fn, true) }

func goNamed(name string, fn func(), low bool) {
	r := R
	if r.killing {
		return
	}
	if !r.active {
		go fn()
		return
	}
	if name == "" {
		name = callerName(3)
	}
	t := r.newThread(r.cur, fmt.Sprintf("%s#%d", name, len(r.threads)), fn)
	t.demoted = low
}

// GoEnv is GoLow for environment actions: they come after all other demoted threads.
func GoEnv(name string, fn func()) {
	goNamed(name, fn, true)
	if Active() {
		R.threads[len(R.threads)-1].env = true
	}
}

// Low makes the running thread wait until nothing else can run (or a deviation picks it).
func Low() {
	r := R
	if !Active() {
		return
	}
	t := r.cur
	t.demoted = true
	t.state = ready
	t.hit(31, 0, 0)
	r.step(t)
	r.pickAfterBlock(t)
	if r.ended {
		t.yield(struct{}{})
		panic(killSentinel{})
	}
	if r.nextT == t {
		t.demoted = false
		return
	}
	if !t.yield(struct{}{}) {
		panic(killSentinel{})
	}
	t.demoted = false
}

// Yield is for polling loops.
func Yield() {
	if Active() {
		R.cur.hit(12, 0, 0)
		R.point(true)
	}
}

// AwaitIdle returns when no other thread can run without time passing.
func AwaitIdle() {
	r := R
	t := r.cur
	t.state = idling
	t.wait = "idle"
	r.pickAfterBlock(t)
	if r.ended {
		t.yield(struct{}{})
		panic(killSentinel{})
	}
	if r.nextT != t {
		if !t.yield(struct{}{}) {
			panic(killSentinel{})
		}
	}
	t.state = ready
	r.absorbAll(t)
}

// absorbAll: a thread that waited for quiescence has observed everything.
func (r *Runtime) absorbAll(t *Thread) {
	s := uint64(0)
	for _, u := range r.threads {
		if u != t {
			s += fin(mix(u.key, u.h))
		}
	}
	t.hit(13, 0, s)
	if r.rstate != nil {
		r.rstate.joinAll(t)
	}
}

// RunUntil lets the system run, advancing virtual time when it is idle, until cond holds (true) or nothing can
// happen any more / the budget of virtual time is used up (false).
func RunUntil(cond func() bool, budget int64) bool {
	r := R
	limit := r.now + budget
	for {
		AwaitIdle()
		if cond() {
			return true
		}
		tm := r.earliest()
		if tm == nil || tm.when > limit {
			return false
		}
		r.fire(tm)
	}
}

// Settle runs until idle without letting more than budget virtual time pass.
func Settle(budget int64) {
	limit := R.now + budget
	RunUntil(func() bool { return false }, budget)
	if R.now < limit {
		R.now = limit
	}
}

// SetQuiet switches branching off (true) or on (false) for the whole system.
func SetQuiet(q bool) {
	if q {
		R.quiet++
	} else {
		R.quiet--
	}
}

// Choose returns an environment answer in [0,n): 0 is the default, others cost a deviation.
func Choose(n int) int { return chooseEnv(n, false) }

// ChooseFree is Choose with answers that cost nothing.
func ChooseFree(n int) int { return chooseEnv(n, true) }

func chooseEnv(n int, free bool) int {
	if !Active() || n <= 1 {
		return 0
	}
	c := R.choose(n, 3, free)
	R.cur.hit(14, 0, uint64(c))
	return c
}

// Fail records a violation and ends the execution.
func Fail(sig, format string, args ...any) {
	r := R
	if r.killing || r.ended {
		panic(killSentinel{})
	}
	if r.res.Violation == nil {
		r.res.Violation = &Violation{Sig: sig, Msg: fmt.Sprintf(format, args...)}
	}
	r.res.Blocked = r.describe()
	r.abort(r.cur)
}

// Stop ends the execution from main, successfully.
func Stop() {
	R.res.Completed = true
	R.abort(R.cur)
}

// Observe folds v into the digest of observed behaviour (order sensitive).
func Observe(v uint64) { R.outcome = mix(R.outcome, v) }

// Logged marks an append to a harness log: the log's order becomes part of the state.
func Logged(o *Obj, v uint64) {
	if !Active() {
		return
	}
	o.touch()
	o.set(mix(o.h, v))
}

// Tracef adds to the trace of a replay.
func Tracef(format string, args ...any) {
	if R.cfg.Trace && R.res != nil && len(R.res.Trace) < 20000 {
		n := "-"
		if R.cur != nil {
			n = R.cur.name
		}
		R.res.Trace = append(R.res.Trace, fmt.Sprintf("%9.3fms %-34s ", float64(R.now)/1e6, n)+fmt.Sprintf(format, args...))
	}
}

// Tracing reports whether a trace is being recorded.
func Tracing() bool { return R.cfg.Trace }

// SetGroup puts the running thread (and threads it starts) in a process group.
func SetGroup(g int) { R.cur.group = g }

// Group returns the process group of the running thread.
func Group() int {
	if R.cur == nil {
		return 0
	}
	return R.cur.group
}

// KillGroup crashes a process: none of its threads ever runs again, its timers never fire.
// The caller must not be a member.
func KillGroup(g int) {
	Point()
	KillGroupNow(g)
	R.cur.hit(15, uint64(g), 0)
}

// KillGroupNow is KillGroup without a scheduling point.
func KillGroupNow(g int) {
	r := R
	for _, t := range r.threads {
		if t.group == g && t.state != done {
			t.state = dead
		}
	}
	r.live = nil
	for i := 0; i < len(r.timers); {
		if r.timers[i].group == g {
			r.timers = append(r.timers[:i], r.timers[i+1:]...)
		} else {
			i++
		}
	}
}

var onPanic func(group int, v any) bool

// OnPanic sets a function for the current execution that is told about a panic of a thread in a group; if it returns
// true the panic ends that group (the process) instead of the execution.
func OnPanic(f func(group int, v any) bool) { onPanic = f }

func init() { OnReset(func() { onPanic = nil }) }

// NextUUID returns a deterministic unique number.
func NextUUID() uint64 { R.uuid++; return R.uuid }
