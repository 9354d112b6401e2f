//go:build go1.23

package main

import (
	"fmt"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/aws/go-kafka-event-source/streams/zverif/vkafka"
	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
)

// watchDone has n goroutines wait for the end of a process; the result tells how many of them it released.
func (in *Inst) watchDone(n int) *int {
	c := new(int)
	for i := 0; i < n; i++ {
		in.spawn("done-waiter", false, func() {
			vsched.Recv(in.ES.Done())
			in.W.o.Write(910)
			vsched.Tracef("LIFECYCLE inst%d Done", in.ID)
			*c++
		})
	}
	return c
}

// ended checks what must hold once a process has reported its end.
func (w *World) ended(in *Inst, done *int, waiters int, budget int64) {
	if !vsched.RunUntil(func() bool { return *done >= 1 }, budget) {
		vsched.Fail("not-done", "Done does not fire\n%s", vsched.Describe())
	}
	if !in.M.Left() {
		vsched.Fail("done-not-left", "Done fires while the consumer is a member of its group")
	}
	if !vsched.RunUntil(func() bool { return *done >= waiters }, 10*sec) {
		vsched.Fail("not-done", "Done fires for %d of %d goroutines which wait for it", *done, waiters)
	}
}

func coop(w *World, in *Inst, c *streams.EventSourceConfig) {
	c.BalanceStrategies = []streams.BalanceStrategy{streams.CooperativeStickyBalanceStrategy}
}

func init() {
	life := []string{"C15"}
	// a process is stopped at any point, another one takes over
	after := []int64{0, 12 * ms}
	stop := func(name, doc string, props []string, q, d int, now bool, o func() Opt, in func(w *World)) {
		after := after
		addScenario(&Scenario{Name: name, Props: props, Doc: doc, Quick: q, Deep: d, Fn: func() {
			opt := o()
			if opt.Conf == nil {
				opt.Conf = coop
			}
			w := newWorld(opt)
			in(w)
			a, b := w.start(), w.start()
			done := a.watchDone(2)
			w.assignNoWait(a, w.all()...)
			w.G.OnLeave = func(c *vkafka.Client) {
				if c == a.M {
					w.assignNoWait(b, w.all()...)
				}
			}
			w.later("stop", func() {
				a.spawn("stop", false, func() {
					vsched.Tracef("LIFECYCLE inst%d stop", a.ID)
					if now {
						a.forced = true
						a.ES.StopNow()
					} else {
						a.ES.Stop()
						a.ES.Stop()
					}
				})
			}, after...)
			w.ended(a, done, 2, 60*sec)
			if !now {
				for p := range w.In {
					for _, e := range w.In[p] {
						if w.complete[key(a.ID, e.P, e.Off)] && w.wm[e.P] <= e.Off {
							vsched.Fail("done-uncommitted", "Done fires after Stop while event %d/%d, which was handled, is not committed", e.P, e.Off)
						}
					}
				}
			}
			if st := a.ES.State(); st != streams.Healthy {
				vsched.Fail("state", "a stopped event source is in state %v", st)
			}
			n := len(w.Handled)
			w.finish(120 * sec)
			if !now {
				for _, h := range w.Handled[n:] {
					if h[0] == '1' {
						vsched.Fail("handled-after-done", "event %s is handled after Done", h)
					}
				}
			}
		}})
	}
	c56 := []string{"C15", "C06"}
	stop("stop-basic", "Stop at any point, another process takes over", c56, 1, 2, false,
		func() Opt { return Opt{} },
		func(w *World) { w.put(0, "sf", "f", "sf") })
	stop("stop-async", "Stop while events wait for asynchronous completion", life, 1, 2, false,
		func() Opt { return Opt{Parts: 2, Async: true, Target: 2, Max: 3} },
		func(w *World) { w.put(0, "a", "f"); w.put(1, "a") })
	stop("stop-now", "StopNow at any point, another process takes over", c56, 1, 2, true,
		func() Opt { return Opt{AllowConcurrent: true} },
		func(w *World) { w.put(0, "sf", "f", "sf") })
	stop("stop-now-pool", "StopNow with several transactions in flight", c56, 1, 2, true,
		func() Opt { return Opt{AllowConcurrent: true, Pool: 3, Pending: 2} },
		func(w *World) { w.put(0, "f", "f", "f", "f") })

	// latencies and arrivals in all combinations
	after = []int64{0, 1 * ms, 3 * ms, 10 * ms, 18 * ms, 40 * ms, 200 * ms}
	grid := func(name, doc string, now, async bool) {
		stop(name, doc, c56, 0, 1, now,
			func() Opt {
				c := pick([][4]int{{2, 1, 1, 2}, {2, 1, 3, 4}, {3, 2, 2, 3}}...)
				o := Opt{Parts: 2, Pool: c[0], Pending: c[1], Target: c[2], Max: c[3], Async: async, AllowConcurrent: now}
				if async {
					o.Handler = func(w *World, in *Inst, ec *EC, e *Ev) (streams.ExecutionState, bool) {
						if e.Script != "w" {
							return 0, false
						}
						d := pick(1*ms, 30*ms)
						vsched.GoNamed("async", func() {
							sleep(time.Duration(d))
							ec.AsyncJobComplete(func() streams.ExecutionState {
								w.enter(in, e.P, fmt.Sprintf("finalizer of event %d/%d in inst%d", e.P, e.Off, in.ID))
								in.forward(ec, e.P, e.Off, 0, e.Key, false)
								w.completed(in, e.P, e.Off)
								w.leave(e.P)
								return streams.Complete
							})
						})
						return streams.Incomplete, true
					}
				}
				return o
			},
			func(w *World) {
				end, ack, lv := pick(int64(0), 15*ms, 300*ms), pick(int64(0), 4*ms), pick(int64(0), 500*ms)
				w.S.EndDelay = func(*vkafka.Client) int64 { return end }
				w.S.AckDelay = func(*vkafka.Client, string) int64 { return ack }
				w.C.LeaveDelay = func(*vkafka.Client) int64 { return lv }
				if async {
					w.put(0, "w", "sf", "a")
					w.put(1, "f", "w")
				} else {
					w.C.MaxFetch = pick(0, 1)
					w.put(0, "sf", "f", "sf", "f")
					w.put(1, "f", "sf", "f")
				}
			})
	}
	grid("stop-timing", "Stop at any time of the events' life, another process takes over", false, false)
	grid("stop-timing-async", "the same with asynchronous events", false, true)
	grid("stop-now-timing", "StopNow at any time of the events' life, another process takes over", true, false)
	grid("stop-now-timing-async", "the same with asynchronous events", true, true)

	// a transaction fails
	type fail struct {
		arm     func(w *World)
		handler streams.ErrorResponse
		o       func() Opt
		in      func(w *World)
		lenient int // how many errors are answered with Continue
	}
	failing := func(name, doc string, props []string, q, d int, f fail) {
		addScenario(&Scenario{Name: name, Props: props, Doc: doc, Quick: q, Deep: d, Fn: func() {
			o := f.o()
			o.AllowConcurrent = true
			o.TxnFails = true
			o.Continue = f.lenient > 0
			asked := map[int]int{}
			o.Conf = func(w *World, in *Inst, c *streams.EventSourceConfig) {
				coop(w, in, c)
				c.TxnErrorHandler = func(err error) streams.ErrorResponse {
					vsched.Tracef("LIFECYCLE inst%d TxnErrorHandler %v", in.ID, err)
					if err == nil {
						vsched.Fail("nil-error", "the TxnErrorHandler is called without an error")
					}
					asked[in.ID]++
					if asked[in.ID] <= f.lenient {
						return streams.Continue
					}
					in.forced = true
					return f.handler
				}
			}
			w := newWorld(o)
			f.in(w)
			a, b := w.start(), w.start()
			vsched.OnPanic(func(g int, v any) bool {
				if f.handler != streams.FatallyExit || g != a.ID || asked[g] == 0 {
					return false
				}
				w.died(a)
				vkafka.CrashClients(g)
				return true
			})
			done := a.watchDone(1)
			gone := false
			w.G.OnLeave = func(c *vkafka.Client) {
				if c == a.M {
					gone = true
					w.assignNoWait(b, w.all()...)
				}
			}
			w.C.FaultWho = func(c *vkafka.Client) bool { return c.Cfg.TxnID != nil }
			f.arm(w)
			w.assignNoWait(a, w.all()...)
			if !vsched.RunUntil(func() bool { return w.allDone() || gone || a.dead }, 90*sec) {
				vsched.Fail("failure-ignored", "a transaction failed but the consumer goes on as if nothing had happened (state %v): committed %v of %v\n%s", a.ES.State(), w.wm, w.lens(), vsched.Describe())
			}
			w.C.FaultProduce, w.C.FaultRecord, w.C.FaultEndTxn = 0, 0, 0
			if a.dead {
				vsched.SetQuiet(true)
				sleep(time.Second)
				w.assignNoWait(b, w.all()...)
			} else if gone {
				if f.handler == streams.FatallyExit {
					vsched.Fail("no-exit", "the TxnErrorHandler asked for a fatal exit but the process did not panic")
				}
				if asked[a.ID] <= f.lenient {
					vsched.Fail("unasked", "the consumer left its group without any error reported, or only such as were answered with Continue")
				}
				if a.ES.State() != streams.Unhealthy {
					vsched.Fail("state", "an event source which failed is in state %v", a.ES.State())
				}
				w.ended(a, done, 1, 60*sec)
			}
			w.finish(120 * sec)
			if n := asked[a.ID] + asked[b.ID]; n > 0 && n <= f.lenient && n < len(w.C.Rejected) {
				vsched.Fail("asked", "%d records were rejected, the TxnErrorHandler was called %d times", len(w.C.Rejected), n)
			}
			if asked[a.ID] > f.lenient && !a.dead && !gone {
				// the very last transaction has failed after taking effect
				if !vsched.RunUntil(func() bool { return gone || a.dead }, 60*sec) {
					vsched.Fail("not-left", "the TxnErrorHandler was called but the consumer stays in its group\n%s", vsched.Describe())
				}
			}
		}})
	}
	all := []string{"C15", "C01"}
	failing("fail-record", "a record is rejected by the broker, the others of its transaction are not", all, 1, 2, fail{
		func(w *World) { w.C.FaultRecord = 1 }, streams.FailConsumer,
		func() Opt { return Opt{} }, func(w *World) { w.put(0, "f", "sf", "f") }, 0})
	failing("fail-record-pool", "a record is rejected while several transactions are in flight", all, 1, 2, fail{
		func(w *World) { w.C.FaultRecord = 1 }, streams.FailConsumer,
		func() Opt { return Opt{Parts: 2, Pool: 3, Pending: 2} }, func(w *World) { w.put(0, "f", "f"); w.put(1, "f", "f") }, 0})
	failing("fail-produce", "a batch fails, and the producer with it", all, 1, 2, fail{
		func(w *World) { w.C.FaultProduce = 1 }, streams.FailConsumer,
		func() Opt { return Opt{} }, func(w *World) { w.put(0, "f", "sf", "f") }, 0})
	failing("fail-endtxn", "the end of a transaction reports an error, before or after it takes effect", all, 1, 2, fail{
		func(w *World) { w.C.FaultEndTxn = 1 }, streams.FailConsumer,
		func() Opt { return Opt{Pool: 3, Pending: 2} }, func(w *World) { w.put(0, "f", "sf", "f") }, 0})
	failing("fail-exit", "the process exits when a record is rejected", life, 1, 2, fail{
		func(w *World) { w.C.FaultRecord = 1 }, streams.FatallyExit,
		func() Opt { return Opt{} }, func(w *World) { w.put(0, "f", "f") }, 0})
	failing("fail-timeout", "an event does not complete before its transaction times out", all, 1, 1, fail{
		func(w *World) {}, streams.FailConsumer,
		func() Opt {
			return Opt{Async: true, Target: 2, Handler: func(w *World, in *Inst, ec *EC, e *Ev) (streams.ExecutionState, bool) {
				if in.ID == 1 && e.Off == 1 {
					return streams.Incomplete, true
				}
				return 0, false
			}}
		}, func(w *World) { w.put(0, "f", "f", "f") }, 0})

	failing("fail-slow-log", "records are rejected while errors take long to be logged", all, 1, 2, fail{
		func(w *World) { slow = true; w.C.FaultRecord = 1 }, streams.FailConsumer,
		func() Opt { return Opt{Pool: 3, Pending: 2} }, func(w *World) { w.put(0, "f", "f", "sf") }, 0})
	failing("fail-endtxn-slow-log", "the end of a transaction reports an error while errors take long to be logged", all, 1, 2, fail{
		func(w *World) { slow = true; w.C.FaultEndTxn = 1 }, streams.FailConsumer,
		func() Opt { return Opt{Pool: 3, Pending: 2} }, func(w *World) { w.put(0, "f", "f", "sf") }, 0})
	failing("fail-second", "the TxnErrorHandler lets the first error pass and fails the consumer at the second", all, 2, 3, fail{
		func(w *World) { w.C.FaultRecord, w.C.FaultTopic = 2, outT }, streams.FailConsumer,
		func() Opt { return Opt{} }, func(w *World) { w.put(0, "ff", "sf", "f") }, 1})
	failing("fail-second-pool", "the same with several transactions in flight", all, 2, 3, fail{
		func(w *World) { w.C.FaultRecord, w.C.FaultTopic = 2, outT }, streams.FailConsumer,
		func() Opt { return Opt{Parts: 2, Pool: 3, Pending: 2} }, func(w *World) { w.put(0, "f", "f"); w.put(1, "ff", "f") }, 1})

	// a record is lost on the application's own responsibility
	goOn := func(name, doc string, q, d int, o func() Opt, in func(w *World)) {
		addScenario(&Scenario{Name: name, Props: life, Doc: doc, Quick: q, Deep: d, Fn: func() {
			o := o()
			o.Continue = true
			asked := 0
			o.Conf = func(w *World, in *Inst, c *streams.EventSourceConfig) {
				coop(w, in, c)
				c.TxnErrorHandler = func(err error) streams.ErrorResponse {
					if err == nil {
						vsched.Fail("nil-error", "the TxnErrorHandler is called without an error")
					}
					asked++
					return streams.Continue
				}
			}
			w := newWorld(o)
			in(w)
			a := w.start()
			w.C.FaultRecord, w.C.FaultTopic = 2, outT
			w.assignNoWait(a, w.all()...)
			w.finish(60 * sec)
			w.C.FaultRecord = 0
			w.put(0, "sf", "f")
			w.finish(60 * sec)
			if asked != len(w.C.Rejected) {
				vsched.Fail("asked", "%d records were rejected, the TxnErrorHandler was called %d times", len(w.C.Rejected), asked)
			}
			if a.ES.State() != streams.Healthy || a.M.Left() {
				vsched.Fail("state", "the TxnErrorHandler said Continue but the event source is in state %v, left its group: %v", a.ES.State(), a.M.Left())
			}
		}})
	}
	goOn("continue-record", "records are rejected, the TxnErrorHandler says Continue: nothing but these records is lost", 1, 2,
		func() Opt { return Opt{} }, func(w *World) { w.put(0, "f", "sff", "f") })
	goOn("continue-record-pool", "the same with several transactions in flight", 1, 2,
		func() Opt { return Opt{Parts: 2, Pool: 3, Pending: 2, Target: 2, Max: 3} }, func(w *World) { w.put(0, "ff", "sf"); w.put(1, "f", "f", "s") })

	// metrics
	met := []string{"C25"}
	type mstate struct {
		calls   map[int]int
		busy    map[int]bool
		counted map[int]int
		bytes   map[int]int
		prepped []streams.Metric
		gate    chan struct{}
	}
	metrics := func(m *mstate, blocked bool) func(w *World, in *Inst, c *streams.EventSourceConfig) {
		return func(w *World, in *Inst, c *streams.EventSourceConfig) {
			coop(w, in, c)
			c.MetricsHandler = func(x streams.Metric) {
				w.o.Write(911)
				if m.busy[in.ID] {
					vsched.Fail("metrics-concurrent", "the metrics handler is called concurrently")
				}
				m.busy[in.ID] = true
				vsched.Point()
				m.calls[in.ID]++
				if x.Operation == streams.PartitionPreppedOperation {
					m.prepped = append(m.prepped, x)
				}
				if x.Operation == streams.TxnCommitOperation {
					m.counted[in.ID] += x.Count
					m.bytes[in.ID] += x.Bytes
					if x.Duration() < 0 || x.Linger() < 0 || x.ExecuteDuration() < 0 {
						vsched.Fail("metrics-times", "metric with times out of order: started %v executed %v ended %v", x.StartTime, x.ExecuteTime, x.EndTime)
					}
					if x.Topic != inT || x.GroupId != group || x.Count <= 0 || x.Bytes <= 0 || x.PartitionCount < 1 || x.PartitionCount > w.Parts {
						vsched.Fail("metrics-content", "metric %+v", x)
					}
				}
				if blocked {
					vsched.Recv(m.gate)
				}
				w.o.Write(912)
				m.busy[in.ID] = false
			}
		}
	}
	// the records of the transactions of a process which were committed, the commit records included
	size := func(e *vkafka.Entry) int {
		n := len(e.Key) + len(e.Value)
		for _, h := range e.Headers {
			n += len(h.Key) + len(h.Value)
		}
		return n
	}
	committed := func(w *World, proc int) (n, b int) {
		for _, t := range []struct {
			topic string
			parts int
		}{{outT, w.OutParts}, {commit, w.CommitParts}, {change, w.Parts}} {
			for p := 0; p < t.parts; p++ {
				for _, e := range w.C.Part(t.topic, int32(p)).Settled() {
					if e.Proc == proc && e.Txn != nil && !e.Control {
						n++
						b += size(e)
					}
				}
			}
		}
		return
	}
	newM := func() *mstate {
		return &mstate{map[int]int{}, map[int]bool{}, map[int]int{}, map[int]int{}, nil, make(chan struct{})}
	}
	addScenario(&Scenario{Name: "metrics-counts", Props: met, Doc: "the metrics of all transactions add up to what was committed", Quick: 1, Deep: 2, Fn: func() {
		m := newM()
		w := newWorld(Opt{Parts: 2, Conf: metrics(m, false)})
		w.put(0, "f", "sf", "")
		w.put(1, "f", "f")
		a := w.start()
		w.assignNoWait(a, w.all()...)
		w.finish(60 * sec)
		if !vsched.RunUntil(func() bool {
			n, b := committed(w, a.ID)
			return m.counted[a.ID] == n && m.bytes[a.ID] == b
		}, 10*sec) {
			n, b := committed(w, a.ID)
			vsched.Fail("metrics-count", "the metrics count %d records of %d bytes, %d of %d bytes were committed", m.counted[a.ID], m.bytes[a.ID], n, b)
		}
	}})
	addScenario(&Scenario{Name: "metrics-prep", Props: met, Doc: "the preparation of a partition, after one that was perhaps forgotten, is reported with what it read", Quick: 1, Deep: 2, Fn: func() {
		m := newM()
		// the default balance strategy is the one that prepares partitions
		conf := metrics(m, false)
		w := newWorld(Opt{Conf: func(w *World, in *Inst, c *streams.EventSourceConfig) {
			conf(w, in, c)
			c.BalanceStrategies = nil
		}})
		w.put(0, "sf", "s", "sd", "f")
		w.history()
		forget := pick(false, true)
		b := w.start()
		w.instruct(b, "Prepare", 0)
		most := 1
		if forget {
			most = 2
			vsched.Settle(pick(int64(0), 2*ms))
			w.instruct(b, "Forget", 0)
			w.instruct(b, "Prepare", 0)
		}
		if !vsched.RunUntil(func() bool { return len(m.prepped) > 0 }, 20*sec) {
			vsched.Fail("metrics-prep", "the partition is prepared, there is no metric")
		}
		vsched.Settle(5 * sec)
		n, bytes := 0, 0
		for _, e := range w.C.Part(change, 0).Settled() {
			if e.Txn != nil { // not the marks of those who read it
				n++
				bytes += size(e)
			}
		}
		if len(m.prepped) > most {
			vsched.Fail("metrics-prep", "%d metrics for %d preparations", len(m.prepped), most)
		}
		for _, x := range m.prepped {
			if x.Count != n || x.Bytes != bytes || x.Partition != 0 || x.PartitionCount != 1 || x.GroupId != group || x.Duration() < 0 {
				vsched.Fail("metrics-prep", "the change log has %d records of %d bytes, the metric says %+v", n, bytes, x)
			}
		}
	}})
	addScenario(&Scenario{Name: "metrics-full", Props: met, Doc: "the metrics handler is stuck and the channel of metrics is full", Quick: 1, Deep: 1, Fn: func() {
		m := newM()
		w := newWorld(Opt{Conf: metrics(m, true)})
		w.put(0, "f", "sf")
		a := w.start()
		vsched.SetQuiet(true)
		a.in("emit", func() {
			for i := 0; i < 2060; i++ {
				a.ES.EmitMetric(streams.Metric{Operation: "mine"})
			}
		})
		vsched.SetQuiet(false)
		w.assignNoWait(a, w.all()...)
		w.finish(60 * sec)
		vsched.SetQuiet(true)
		n := m.calls[a.ID]
		vsched.Close(m.gate)
		if !vsched.RunUntil(func() bool { return m.calls[a.ID] >= n+2048 }, 10*sec) {
			vsched.Fail("metrics-lost", "%d metrics were delivered after the handler was released, 2048 expected", m.calls[a.ID]-n)
		}
	}})
	for _, now := range []bool{false, true} {
		now := now
		name := map[bool]string{false: "metrics-stop", true: "metrics-stop-now"}[now]
		addScenario(&Scenario{Name: name, Props: met, Doc: "metrics are emitted while the event source stops", Quick: 1, Deep: 2, Fn: func() {
			m := newM()
			w := newWorld(Opt{Conf: metrics(m, false), AllowConcurrent: true})
			w.put(0, "f", "sf", "f")
			a := w.start()
			done := a.watchDone(1)
			w.assignNoWait(a, w.all()...)
			w.later("stop", func() {
				a.spawn("stop", false, func() {
					a.forced = now
					if now {
						a.ES.StopNow()
					} else {
						a.ES.Stop()
					}
				})
				a.spawn("emitter", false, func() {
					for i := 0; i < 3; i++ {
						a.ES.EmitMetric(streams.Metric{Operation: "mine"})
						vsched.Point()
					}
				})
			}, 0, 12*ms)
			w.ended(a, done, 1, 60*sec)
			vsched.SetQuiet(true)
			a.in("emit", func() {
				for i := 0; i < 2060; i++ {
					a.ES.EmitMetric(streams.Metric{Operation: "mine"})
				}
			})
			b := w.start()
			w.assignNoWait(b, w.all()...)
			w.finish(120 * sec)
		}})
	}
}
