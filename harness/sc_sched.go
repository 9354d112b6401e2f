//go:build go1.23

package main

import (
	"errors"
	"fmt"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/aws/go-kafka-event-source/streams/sak"
	"github.com/aws/go-kafka-event-source/streams/zverif/vcontext"
	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
)

// completer stands for a partition worker: it finalizes completed jobs one at a time.
type completer struct {
	ch   chan streams.AsyncJob[*Store]
	done func(st streams.ExecutionState)
}

func (c *completer) AsyncComplete(j streams.AsyncJob[*Store]) { vsched.To(c.ch).Send(j) }

func newCompleter(name string, size int, done func(streams.ExecutionState)) *completer {
	c := &completer{make(chan streams.AsyncJob[*Store], size), done}
	vsched.GoNamed(name, func() {
		for {
			j, ok := vsched.Recv2(c.ch)
			if !ok {
				return
			}
			st := j.Finalize()
			if c.done != nil {
				c.done(st)
			}
		}
	})
	return c
}

type job struct {
	src, n int
	key    string
}

func (j job) String() string { return fmt.Sprintf("%s#%d of source %d", j.key, j.n, j.src) }

// schedSys is an AsyncJobScheduler, its users and the monitors.
type schedSys struct {
	cfg       streams.SchedulerConfig
	src       [][]string // keys scheduled by each source, in order
	compSize  int
	noFin     bool
	fail      string // keys whose processor fails
	gate      chan struct{}
	gated     bool
	s         *streams.AsyncJobScheduler[*Store, string, job]
	rs        sak.RunStatus
	o         vsched.Obj
	busy      map[string]bool
	running   int
	maxRun    int
	processed map[job]int
	finalized map[job]int
	lastP     map[string]int
	lastF     map[string]int
	ecs       map[job]*streams.EventContext[*Store]
	accepted  []job
	completed int
	halted    bool
	returned  int
}

var errJob = errors.New("job failed")

func (x *schedSys) total() (n int) {
	for _, s := range x.src {
		n += len(s)
	}
	return
}

func (x *schedSys) start() {
	x.busy, x.processed, x.finalized = map[string]bool{}, map[job]int{}, map[job]int{}
	x.lastP, x.lastF, x.ecs = map[string]int{}, map[string]int{}, map[job]*streams.EventContext[*Store]{}
	if x.compSize == 0 {
		x.compSize = 4
	}
	x.gate = make(chan struct{})
	x.rs = sak.NewRunStatus(nil)
	fin := x.finalize
	if x.noFin {
		fin = nil
	}
	s, err := streams.NewAsyncJobScheduler[*Store, string, job](x.rs, x.process, fin, x.cfg)
	if err != nil {
		vsched.Fail("start-failed", "NewAsyncJobScheduler: %v", err)
	}
	x.s = s
	for i := range x.src {
		i := i
		vsched.GoNamed(fmt.Sprintf("source%d", i), func() { x.source(i) })
	}
}

func (x *schedSys) source(i int) {
	c := newCompleter(fmt.Sprintf("completer%d", i), x.compSize, func(st streams.ExecutionState) {
		x.o.Write(11)
		x.completed++
		if x.noFin && st != streams.Complete {
			vsched.Fail("state", "a job without finalizer ends as %v", st)
		}
	})
	seq := map[string]int{}
	for _, k := range x.src[i] {
		j := job{i, seq[k], k}
		seq[k]++
		ec := streams.MockEventContext[*Store](vcontext.Background(), streams.NewRecord().WithKeyString(k), "", nil, c, nil)
		x.ecs[j] = ec
		st := x.s.Schedule(ec, k, j)
		x.o.Write(12)
		vsched.Tracef("SCHEDULED %v -> %v", j, st)
		if st == streams.Incomplete {
			x.accepted = append(x.accepted, j)
		} else if !x.halted {
			vsched.Fail("refused", "Schedule of %v returns %v while the scheduler is running", j, st)
		} else if st != streams.Complete {
			vsched.Fail("refused-state", "Schedule after the halt returns %v", st)
		}
	}
	x.returned++
}

func (x *schedSys) process(k string, j job) error {
	x.o.Write(1)
	vsched.Tracef("PROCESS %v", j)
	if x.busy[k] {
		vsched.Fail("key-concurrent", "two jobs of key %s run at once (%v)", k, j)
	}
	if k != j.key {
		vsched.Fail("wrong-key", "%v is processed under key %s", j, k)
	}
	x.busy[k] = true
	x.running++
	if x.running > x.cfg.Concurrency {
		vsched.Fail("concurrency", "%d jobs run at once, the limit is %d", x.running, x.cfg.Concurrency)
	}
	if x.running > x.maxRun {
		x.maxRun = x.running
	}
	x.processed[j]++
	if x.processed[j] > 1 {
		vsched.Fail("processed-twice", "%v is processed %d times", j, x.processed[j])
	}
	sk := fmt.Sprint(j.src, k)
	if j.n != x.lastP[sk] {
		vsched.Fail("key-order", "%v is processed, #%d of the key was next", j, x.lastP[sk])
	}
	x.lastP[sk]++
	vsched.Point()
	if x.gated {
		vsched.Recv(x.gate)
	}
	x.o.Write(2)
	x.busy[k] = false
	x.running--
	if x.fail != "" && x.fail == k {
		return errJob
	}
	return nil
}

func (x *schedSys) finalize(ec *streams.EventContext[*Store], k string, j job, err error) streams.ExecutionState {
	x.o.Write(3)
	vsched.Tracef("FINALIZE %v", j)
	if x.processed[j] == 0 || x.ecs[j] != ec || j.key != k {
		vsched.Fail("wrong-finalizer", "finalizer of %v runs with key %s, processed %d times, own context %v", j, k, x.processed[j], x.ecs[j] == ec)
	}
	if (err != nil) != (x.fail == k && k != "") || err != nil && err != errJob {
		vsched.Fail("wrong-error", "finalizer of %v gets error %v", j, err)
	}
	x.finalized[j]++
	if x.finalized[j] > 1 {
		vsched.Fail("finalized-twice", "%v is finalized %d times", j, x.finalized[j])
	}
	sk := fmt.Sprint(j.src, k)
	if j.n != x.lastF[sk] {
		vsched.Fail("finalize-order", "%v is finalized, #%d of the key was next", j, x.lastF[sk])
	}
	x.lastF[sk]++
	vsched.Point()
	return streams.Complete
}

func (x *schedSys) finish() {
	n := x.total()
	if !vsched.RunUntil(func() bool { return x.completed == n && x.returned == len(x.src) }, 20*sec) {
		vsched.Fail("job-lost", "%d jobs were scheduled, %d accepted, %d processed, %d completed\n%s", n, len(x.accepted), len(x.processed), x.completed, vsched.Describe())
	}
	vsched.Observe(uint64(x.maxRun))
	for _, j := range x.accepted {
		vsched.Observe(vsched.HashString(j.String()))
	}
}

func init() {
	both := []string{"C10", "C11"}
	add := func(name, doc string, props []string, q, d int, mk func() *schedSys, env func(x *schedSys)) {
		addScenario(&Scenario{Name: name, Props: props, Doc: doc, Quick: q, Deep: d, Fn: func() {
			x := mk()
			x.start()
			if env != nil {
				env(x)
			}
			x.finish()
		}})
	}
	cfg := func(c, d, k int) streams.SchedulerConfig {
		return streams.SchedulerConfig{Concurrency: c, WorkerQueueDepth: d, MaxConcurrentKeys: k}
	}
	add("sched-keys", "two workers, three keys, queues of two", both, 2, 3,
		func() *schedSys { return &schedSys{cfg: cfg(2, 2, 3), src: [][]string{{"a", "b", "a", "c", "b"}}} }, nil)
	add("sched-overflow", "one worker, more jobs of one key than its queue holds", both, 2, 3,
		func() *schedSys { return &schedSys{cfg: cfg(1, 1, 1), src: [][]string{{"a", "a", "a", "a", "a"}}} }, nil)
	add("sched-overflow2", "two workers, two keys with more jobs than their queues hold", both, 2, 3,
		func() *schedSys {
			return &schedSys{cfg: cfg(2, 1, 2), src: [][]string{{"a", "b", "a", "a", "a", "b"}}, compSize: 1}
		}, nil)
	add("sched-key-limit", "more keys than may be pending at once", both, 2, 3,
		func() *schedSys { return &schedSys{cfg: cfg(1, 1, 1), src: [][]string{{"a", "b", "c", "a"}}} }, nil)
	add("sched-two-partitions", "two partitions share one scheduler and its keys", both, 2, 3,
		func() *schedSys {
			return &schedSys{cfg: cfg(2, 1, 2), src: [][]string{{"a", "b", "a"}, {"a", "c", "a"}}}
		}, nil)
	add("sched-two-partitions-limit", "two partitions wait for the only key slot", both, 2, 3,
		func() *schedSys {
			return &schedSys{cfg: cfg(1, 1, 1), src: [][]string{{"a", "b"}, {"c", "a"}}}
		}, nil)
	add("sched-errors", "processors that fail; finalizers get the error", both, 2, 3,
		func() *schedSys {
			return &schedSys{cfg: cfg(2, 1, 2), src: [][]string{{"a", "b", "b", "a"}}, fail: "b"}
		}, nil)
	add("sched-no-finalizer", "without finalizer every job completes its event", both, 2, 3,
		func() *schedSys { return &schedSys{cfg: cfg(2, 1, 2), src: [][]string{{"a", "b", "a"}}, noFin: true} }, nil)
	add("sched-depth-change", "the queue depth is changed while jobs are running", both, 2, 3,
		func() *schedSys { return &schedSys{cfg: cfg(2, 1, 2), src: [][]string{{"a", "b", "a", "a", "c"}}} },
		func(x *schedSys) {
			vsched.GoNamed("resize", func() {
				x.s.SetWorkerQueueDepth(3)
				vsched.Point()
				x.s.SetWorkerQueueDepth(2)
			})
		})
	add("sched-keys-grow", "the key limit is raised while jobs are running", both, 2, 3,
		func() *schedSys {
			return &schedSys{cfg: cfg(1, 1, 1), src: [][]string{{"a", "b", "c", "a"}, {"d", "a"}}}
		},
		func(x *schedSys) {
			vsched.GoNamed("resize", func() { x.s.SetMaxConcurrentKeys(3) })
		})
	add("sched-keys-shrink-grow", "the key limit is lowered and raised again while jobs are pending", both, 2, 3,
		func() *schedSys { return &schedSys{cfg: cfg(1, 2, 4), src: [][]string{{"a", "b", "c", "d", "a"}}} },
		func(x *schedSys) {
			vsched.GoNamed("resize", func() {
				x.s.SetMaxConcurrentKeys(1)
				vsched.Point()
				x.s.SetMaxConcurrentKeys(2)
			})
		})
	// shutdown at any point
	halt := func(name, doc string, q int, mk func() *schedSys) {
		addScenario(&Scenario{Name: name, Props: []string{"C11"}, Doc: doc, Quick: q, Deep: q + 1, Fn: func() {
			x := mk()
			x.start()
			ch := make(chan struct{})
			vsched.GoEnv("halt", func() {
				x.halted = true
				x.rs.Halt()
				vsched.Close(ch)
			})
			vsched.Recv(ch)
			if !vsched.RunUntil(func() bool { return x.returned == len(x.src) }, 20*sec) {
				vsched.Fail("schedule-stuck", "a caller of Schedule is still blocked long after the scheduler was halted\n%s", vsched.Describe())
			}
			vsched.Settle(20 * sec)
			if vsched.BlockedIn("AsyncJobScheduler") {
				vsched.Fail("worker-stuck", "a goroutine of the scheduler is still there long after it was halted\n%s", vsched.Describe())
			}
		}})
	}
	halt("sched-halt", "the scheduler is halted at any point", 2, func() *schedSys {
		return &schedSys{cfg: cfg(2, 1, 2), src: [][]string{{"a", "b", "a", "a", "c"}}}
	})
	halt("sched-halt-waiters", "the scheduler is halted while callers wait for key slots and queue space", 1, func() *schedSys {
		return &schedSys{cfg: cfg(1, 1, 1), src: [][]string{{"a", "b"}, {"c", "a"}, {"a", "a", "a", "d"}}}
	})
	// backpressure
	addScenario(&Scenario{Name: "sched-backpressure", Props: []string{"C11"}, Doc: "with all processors held, only what the limits allow is accepted", Quick: 2, Deep: 3, Fn: func() {
		x := &schedSys{cfg: cfg(1, 2, 2), src: [][]string{{"a", "a", "a", "a", "b"}, {"b", "c", "d"}}, gated: true}
		x.start()
		vsched.Settle(sec)
		per := map[string]int{}
		for _, j := range x.accepted {
			per[j.key]++
		}
		for k, n := range per {
			if n > 3 {
				vsched.Fail("queue-limit", "%d jobs of key %s are accepted, the queue depth is 2", n, k)
			}
		}
		if len(per) > 2 {
			vsched.Fail("key-limit", "%d keys are accepted, the limit is 2", len(per))
		}
		if n := len(x.accepted); n < 2 {
			vsched.Fail("too-few", "only %d jobs are accepted while there is room", n)
		}
		vsched.CloseNow(x.gate)
		x.finish()
	}})
	_ = time.Second
}
