//go:build go1.23

package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
	"github.com/aws/go-kafka-event-source/streams/zverif/vtime"
)

// ijs watches interjections.
type ijs struct {
	w     *World
	runs  map[string]int // name/partition -> runs
	done  map[string]int // completed
	at    map[string][]int64
	outs  map[string]bool // outputs forwarded by completed interjections
	asyn  bool
	n     int
	force bool // StopNow: the state stores are given up at once
	lag   int64
}

func newIJs(w *World) *ijs {
	return &ijs{w: w, runs: map[string]int{}, done: map[string]int{}, at: map[string][]int64{}, outs: map[string]bool{}}
}

// cmd makes an interjector. Each run forwards one record and changes one store entry.
func (x *ijs) cmd(in *Inst, name string, async bool) streams.Interjector[*Store] {
	return func(ec *EC, when time.Time) streams.ExecutionState {
		w := x.w
		p := ec.TopicPartition().Partition
		k := fmt.Sprintf("%s/%d", name, p)
		w.enter(in, p, "interjection "+k+fmt.Sprintf(" in inst%d", in.ID))
		x.runs[k]++
		x.at[k] = append(x.at[k], vsched.Now())
		vsched.Tracef("INTERJECT inst%d %s", in.ID, k)
		if _, ok := ec.Input(); ok || !ec.IsInterjection() || ec.Offset() != -1 || ec.TopicPartition().Topic != inT {
			vsched.Fail("interjection-context", "interjection %s runs with the context of an event: %v offset %d", k, ec.TopicPartition(), ec.Offset())
		}
		if d := when.UnixNano() - vsched.Now(); d < -int64(time.Minute) || d > int64(time.Minute) {
			_ = d // the clock of the code under test may have another origin
		}
		s := ec.Store()
		if s == nil || s.In != in || s.TP.Partition != p {
			vsched.Fail("interjection-store", "interjection %s has the wrong store", k)
		}
		if s.Revokes > 0 && !x.force {
			vsched.Fail("interjection-revoked", "interjection %s runs with a store that was revoked", k)
		}
		x.n++
		v := fmt.Sprintf("ij%d-%s-%d", in.ID, k, x.n)
		if !async {
			x.effects(ec, p, v)
			x.done[k]++
			w.leave(p)
			return streams.Complete
		}
		w.leave(p)
		fin := func() streams.ExecutionState {
			w.enter(in, p, "finalizer of interjection "+k+fmt.Sprintf(" in inst%d", in.ID))
			x.effects(ec, p, v)
			x.done[k]++
			w.leave(p)
			return streams.Complete
		}
		if x.lag > 0 {
			vsched.GoNamed("async", func() {
				vtime.Sleep(time.Duration(x.lag))
				ec.AsyncJobComplete(fin)
			})
		} else {
			in.async(ec, fin)
		}
		return streams.Incomplete
	}
}

func (x *ijs) effects(ec *EC, p int32, v string) {
	ec.Store().M["ij"] = v
	ec.RecordChange(streams.NewChangeLogEntry().WithKeyString("ij").WithValue([]byte(v)))
	ec.Forward(streams.NewRecord().WithTopic(outT).WithKeyString("ij").WithValue([]byte(v)).WithRecordType("t").WithPartition(p % int32(x.w.OutParts)))
	x.outs[v] = true
}

// visible counts what is committed of interjections: outputs and changes.
func (x *ijs) visible() (out, chg map[string]int) {
	count := func(topic string, parts int) map[string]int {
		m := map[string]int{}
		for i := 0; i < parts; i++ {
			for _, e := range x.w.C.Part(topic, int32(i)).Settled() {
				if strings.HasPrefix(string(e.Value), "ij") {
					m[string(e.Value)]++
				}
			}
		}
		return m
	}
	return count(outT, x.w.OutParts), count(change, x.w.Parts)
}

// allVisible: every completed interjection's effects are committed exactly once.
func (x *ijs) allVisible(budget int64) {
	ok := vsched.RunUntil(func() bool {
		o, c := x.visible()
		return len(o) == len(x.outs) && len(c) == len(x.outs)
	}, budget)
	o, c := x.visible()
	for v := range x.outs {
		if o[v] != 1 || c[v] != 1 {
			vsched.Fail("interjection-effects", "interjection run %s: its output is visible %d times, its state change %d times (settled: %v)\n%s", v, o[v], c[v], ok, vsched.Describe())
		}
	}
	for v := range o {
		if !x.outs[v] {
			vsched.Fail("interjection-ghost", "output %s belongs to no completed interjection", v)
		}
	}
}

// call is a one-off interjection by application code; res receives "ok" or the error.
type call struct {
	name string
	p    int32
	ret  bool
	err  error
}

func (c *call) String() string { return fmt.Sprintf("%s into partition %d", c.name, c.p) }

func (x *ijs) interject(in *Inst, name string, p int32, async bool) *call {
	c := &call{name: name, p: p}
	in.spawn("caller-"+name, false, func() {
		ch := in.ES.Interject(p, x.cmd(in, name, async))
		c.err = vsched.Recv(ch)
		vsched.Point()
		x.w.o.Write(930)
		c.ret = true
		vsched.Tracef("INTERJECT RETURNS %v %v", c, c.err)
	})
	return c
}

func (x *ijs) check(cs ...*call) {
	for _, c := range cs {
		c := c
		if !vsched.RunUntil(func() bool { return c.ret }, 40*sec) {
			vsched.Fail("interject-unanswered", "the caller of %v never gets an answer\n%s", c, vsched.Describe())
		}
		k := fmt.Sprintf("%s/%d", c.name, c.p)
		if c.err == nil && x.runs[k] != 1 {
			vsched.Fail("interject-runs", "%v reports success and ran %d times", c, x.runs[k])
		}
		if c.err != nil && x.runs[k] != 0 {
			vsched.Fail("interject-error", "%v reports %v but ran %d times", c, c.err, x.runs[k])
		}
	}
}

func init() {
	props := []string{"C09", "C08"}
	add := func(name, doc string, q, d int, o func(x **ijs) Opt, in func(w *World), drive func(w *World, x *ijs, a *Inst)) {
		addScenario(&Scenario{Name: name, Props: props, Doc: doc, Quick: q, Deep: d, Cfg: vsched.Config{EarlyMax: 100 * ms}, Fn: func() {
			var x *ijs
			w := newWorld(o(&x))
			x = newIJs(w)
			in(w)
			a := w.start()
			drive(w, x, a)
			for v := range x.outs {
				vsched.Observe(vsched.HashString(v))
			}
		}})
	}
	add("ij-oneoff", "two one-off interjections while events are processed", 1, 2,
		func(**ijs) Opt { return Opt{} },
		func(w *World) { w.put(0, "sf", "f", "f") },
		func(w *World, x *ijs, a *Inst) {
			w.assignNoWait(a, 0)
			vsched.RunUntil(func() bool { return a.active[0] }, sec)
			c1 := x.interject(a, "one", 0, false)
			c2 := x.interject(a, "two", 0, false)
			x.check(c1, c2)
			if c1.err != nil || c2.err != nil {
				vsched.Fail("interject-refused", "an interjection into an active partition is refused: %v %v", c1.err, c2.err)
			}
			w.finish(60 * sec)
			x.allVisible(20 * sec)
		})
	add("ij-early", "interjections into a partition that is just being assigned, and into one that is not", 1, 2,
		func(**ijs) Opt { return Opt{Parts: 2} },
		func(w *World) { w.put(0, "sf", "f") },
		func(w *World, x *ijs, a *Inst) {
			w.assignNoWait(a, 0)
			c1 := x.interject(a, "early", 0, false)
			c2 := x.interject(a, "none", 1, false)
			x.check(c1, c2)
			if c2.err == nil {
				vsched.Fail("interject-accepted", "an interjection into a partition that is not assigned reports success")
			}
			w.finish(60 * sec)
			x.allVisible(20 * sec)
		})
	add("ij-async", "one-off interjection that completes asynchronously", 1, 2,
		func(**ijs) Opt { return Opt{Target: 2, Max: 3} },
		func(w *World) { w.put(0, "sf", "f", "f") },
		func(w *World, x *ijs, a *Inst) {
			w.assignNoWait(a, 0)
			vsched.RunUntil(func() bool { return a.active[0] }, sec)
			c1 := x.interject(a, "async", 0, true)
			c2 := x.interject(a, "two", 0, false)
			x.check(c1, c2)
			w.finish(60 * sec)
			x.allVisible(20 * sec)
			if x.done["async/0"] != 1 {
				vsched.Fail("interject-lost", "the asynchronous interjection never completes")
			}
		})
	add("ij-all", "InterjectAll and InterjectAllSync over two partitions", 1, 2,
		func(**ijs) Opt { return Opt{Parts: 2} },
		func(w *World) { w.put(0, "sf"); w.put(1, "f") },
		func(w *World, x *ijs, a *Inst) {
			w.assignNoWait(a, 0, 1)
			vsched.RunUntil(func() bool { return a.active[0] && a.active[1] }, sec)
			n := 0
			a.spawn("caller-all", false, func() {
				a.ES.InterjectAll(x.cmd(a, "all", false))
				if x.runs["all/0"] != 1 || x.runs["all/1"] != 1 {
					vsched.Fail("interject-all", "InterjectAll returns after the runs %v", x.runs)
				}
				n++
				a.ES.InterjectAllSync(x.cmd(a, "sync", false))
				if x.runs["sync/0"] != 1 || x.runs["sync/1"] != 1 {
					vsched.Fail("interject-all", "InterjectAllSync returns after the runs %v", x.runs)
				}
				n++
			})
			if !vsched.RunUntil(func() bool { return n == 2 }, 40*sec) {
				vsched.Fail("interject-unanswered", "InterjectAll does not return\n%s", vsched.Describe())
			}
			w.finish(60 * sec)
			x.allVisible(20 * sec)
		})
	for _, how := range []struct {
		name string
		run  func(es *ES, c streams.Interjector[*Store])
	}{
		{"InterjectAll", func(es *ES, c streams.Interjector[*Store]) { es.InterjectAll(c) }},
		{"InterjectAllSync", func(es *ES, c streams.Interjector[*Store]) { es.InterjectAllSync(c) }},
	} {
		how := how
		n := "ij-all-revoke"
		if how.name == "InterjectAllSync" {
			n = "ij-all-sync-revoke"
		}
		add(n, how.name+" over three partitions while one of them is revoked", 1, 2,
			func(**ijs) Opt { return Opt{Parts: 3} },
			func(w *World) { w.put(0, "sf"); w.put(1, "f"); w.put(2, "f") },
			func(w *World, x *ijs, a *Inst) {
				w.assignNoWait(a, 0, 1, 2)
				vsched.RunUntil(func() bool { return a.active[0] && a.active[1] && a.active[2] }, sec)
				vsched.SetQuiet(true)
				w.handledCommitted(5 * sec)
				lost := pick[int32](1, 0, 2)
				vsched.SetQuiet(false)
				ret, started := false, false
				a.spawn("caller-all", false, func() {
					in := x.cmd(a, "all", false)
					how.run(a.ES, func(ec *EC, when time.Time) streams.ExecutionState {
						started = true
						if p := ec.TopicPartition().Partition; p != lost {
							vtime.Sleep(20 * time.Millisecond)
						}
						return in(ec, when)
					})
					for p := int32(0); p < 3; p++ {
						n := x.runs[fmt.Sprintf("all/%d", p)]
						if n > 1 || n == 0 && p != lost {
							vsched.Fail("interject-all", "%s returns after the runs %v, only partition %d was revoked", how.name, x.runs, lost)
						}
					}
					ret = true
				})
				vsched.RunUntil(func() bool { return started }, sec)
				w.revoke(a, lost)
				if !vsched.RunUntil(func() bool { return ret }, 40*sec) {
					vsched.Fail("interject-unanswered", "%s does not return\n%s", how.name, vsched.Describe())
				}
				x.allVisible(20 * sec)
				vsched.SetQuiet(true)
				w.assignNoWait(a, lost)
				w.finish(60 * sec)
			})
	}
	for _, tight := range []bool{false, true} {
		n, d, o, put := "ij-revoke", "", Opt{}, func(w *World) { w.put(0, "sf", "f", "f") }
		if tight { // one event or interjection at a time
			n, d, o = "ij-revoke-tight", ", with room for a single event or interjection", Opt{Pool: 1, Target: 1, Max: 1}
			put = func(w *World) { w.put(0, "f", "f", "f", "f", "f") }
		}
		add(n, "the partition is revoked while interjections are pending"+d, 1, 2,
			func(**ijs) Opt { return o },
			put,
			func(w *World, x *ijs, a *Inst) {
				w.assignNoWait(a, 0)
				vsched.RunUntil(func() bool { return a.active[0] }, sec)
				c1 := x.interject(a, "one", 0, false)
				c2 := x.interject(a, "two", 0, false)
				ch := make(chan struct{})
				w.later("rebalance", func() {
					w.revoke(a, 0)
					vsched.Close(ch)
				}, 0, 12*ms)
				vsched.Recv(ch)
				x.check(c1, c2)
				w.handledCommitted(20 * sec)
				x.allVisible(20 * sec)
				n := x.n
				vsched.Settle(sec)
				if x.n != n {
					vsched.Fail("interject-after-revoke", "an interjection runs long after its partition was revoked")
				}
				vsched.SetQuiet(true)
				w.assignNoWait(a, 0)
				w.finish(60 * sec)
			})
	}
	add("ij-halt", "the consumer stops while interjections are pending", 1, 2,
		func(**ijs) Opt { return Opt{} },
		func(w *World) { w.put(0, "sf", "f", "f") },
		func(w *World, x *ijs, a *Inst) {
			w.assignNoWait(a, 0)
			vsched.RunUntil(func() bool { return a.active[0] }, sec)
			c1 := x.interject(a, "one", 0, false)
			c2 := x.interject(a, "two", 0, false)
			x.force = true
			var c3 *call
			ch := make(chan struct{})
			w.later("stop", func() {
				a.spawn("stop", false, func() { a.ES.StopNow() })
				c3 = x.interject(a, "three", 0, false)
				vsched.Close(ch)
			}, 0, 12*ms)
			vsched.Recv(ch)
			x.check(c1, c2, c3)
		})
	add("ij-fatal", "a transaction fails for good while interjections are pending: the consumer stops", 1, 2,
		func(**ijs) Opt { return Opt{TxnFails: true} },
		func(w *World) { w.put(0, "sf", "f", "f") },
		func(w *World, x *ijs, a *Inst) {
			w.assignNoWait(a, 0)
			vsched.RunUntil(func() bool { return a.active[0] }, sec)
			x.force = true
			w.S.FaultEndTxn = 1
			c1 := x.interject(a, "one", 0, false)
			c2 := x.interject(a, "two", 0, false)
			var c3 *call
			ch := make(chan struct{})
			w.later("interject", func() {
				c3 = x.interject(a, "three", 0, false)
				vsched.Close(ch)
			}, 0, 12*ms)
			vsched.Recv(ch)
			x.check(c1, c2, c3)
		})
	// periodic
	per := func(name, doc string, q, d int, every, jitter time.Duration, async bool, revoke bool) {
		add(name, doc, q, d,
			func(x **ijs) Opt {
				return Opt{Async: async, Init: func(w *World, in *Inst, es *ES) {
					es.ScheduleInterjection((*x).cmd(in, "tick", async), every, jitter)
				}}
			},
			func(w *World) { w.put(0, "sf", "f") },
			func(w *World, x *ijs, a *Inst) {
				w.assignNoWait(a, 0)
				vsched.RunUntil(func() bool { return a.active[0] }, sec)
				t0 := vsched.Now()
				w.finish(60 * sec)
				vsched.RunUntil(func() bool { return x.n >= 3 }, 5*int64(every))
				vsched.SetQuiet(true)
				vsched.Settle(10 * int64(every))
				x.timing("tick/0", t0, every, jitter)
				vsched.SetQuiet(false)
				if !revoke {
					x.allVisible(int64(every) / 4)
					return
				}
				w.assignedRevoked(a, x)
				vsched.SetQuiet(true)
				w.assign(a, 0)
				vsched.RunUntil(func() bool { return a.active[0] }, 60*sec)
				t0 = vsched.Now()
				vsched.Settle(10 * int64(every))
				x.timing("tick/0", t0, every, jitter)
			})
	}
	per("ij-periodic", "a periodic interjection next to events", 1, 2, 100*time.Millisecond, 0, false, false)
	per("ij-periodic-jitter", "a periodic interjection with jitter", 1, 2, 100*time.Millisecond, 40*time.Millisecond, false, false)
	per("ij-periodic-async", "a periodic interjection that completes asynchronously", 1, 2, 100*time.Millisecond, 0, true, false)
	per("ij-periodic-revoke", "periodic interjections stop with the partition and start again with it", 1, 2, 100*time.Millisecond, 0, false, true)
}

// timing: between t0 and now the interjection ran about every interval.
func (x *ijs) timing(k string, t0 int64, every, jitter time.Duration) {
	now := vsched.Now()
	last := t0
	slack := int64(60 * time.Millisecond)
	for _, t := range append(append([]int64{}, x.at[k]...), now) {
		if t <= t0 {
			continue
		}
		if t-last > int64(every+jitter)+slack {
			vsched.Fail("interjection-missed", "interjection %s is due every %v (jitter %v) but did not run for %v; runs at %v, now %d\n%s", k, every, jitter, time.Duration(t-last), x.at[k], now, vsched.Describe())
		}
		if last != t0 && t != now && t-last < int64(every-jitter) {
			vsched.Fail("interjection-too-often", "interjection %s is due every %v (jitter %v) but runs %v after the last time", k, every, jitter, time.Duration(t-last))
		}
		last = t
	}
}

// assignedRevoked revokes partition 0 at any moment of the next interval and checks that interjections stop.
func (w *World) assignedRevoked(a *Inst, x *ijs) {
	ch := make(chan struct{})
	w.later("rebalance", func() {
		w.revoke(a, 0)
		vsched.Close(ch)
	}, 0, 95*ms, 100*ms)
	vsched.Recv(ch)
	n := x.n
	vsched.Settle(sec)
	if x.n != n {
		vsched.Fail("interject-after-revoke", "a periodic interjection runs after its partition was revoked")
	}
	x.allVisible(20 * sec)
}
