//go:build go1.23

package main

import (
	"fmt"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/aws/go-kafka-event-source/streams/zverif/vkafka"
	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
	"github.com/aws/go-kafka-event-source/streams/zverif/vsignal"
	"github.com/aws/go-kafka-event-source/streams/zverif/vtime"
)

func init() {
	eos := []string{"C01", "C02", "C03", "C04"}
	del := append([]string{"C08"}, eos...)
	add := func(name, doc string, props []string, q, d int, o func() Opt, in func(w *World)) {
		addScenario(&Scenario{Name: name, Props: props, Doc: doc, Quick: q, Deep: d, Fn: func() {
			w := newWorld(o())
			in(w)
			i := w.start()
			w.assignNoWait(i, w.all()...)
			w.finish(60 * sec)
		}})
	}
	add("eos-phases", "events that complete asynchronously in two phases, with outputs in both", del, 1, 2,
		func() Opt { return Opt{Target: 2, Max: 3, Async: true} },
		func(w *World) { w.put(0, "m", "f", "fm", "a") })
	add("eos-commit-parts", "three partitions share two partitions of the commit log", eos, 1, 2,
		func() Opt { return Opt{Parts: 3, CommitParts: 2} },
		func(w *World) { w.put(0, "f", "sf"); w.put(1, "f"); w.put(2, "sf") })

	// long runs: what is used up without being given back shows only after a while
	for _, c := range [][4]int{{2, 1, 1, 2}, {3, 2, 2, 3}, {5, 3, 3, 10}} {
		c := c
		addScenario(&Scenario{Name: fmt.Sprintf("long-run-%d-%d", c[0], c[3]), Props: []string{"C01", "C04", "C05", "C09"}, Doc: "many events and interjections, and the partition goes and comes many times", Quick: 0, Deep: 0, Fn: func() {
			w := newWorld(Opt{Parts: 2, Pool: c[0], Pending: c[1], Target: c[2], Max: c[3], Async: true})
			x := newIJs(w)
			end := pick(int64(0), 7*ms)
			w.S.EndDelay = func(*vkafka.Client) int64 { return end }
			a := w.start()
			w.assign(a, 0, 1)
			for i := 0; i < 30; i++ {
				w.put(0, "sf", "a", "f", "m", "s", "f")
				w.put(1, "f", "a")
				cs := []*call{x.interject(a, fmt.Sprint("x", i), 0, false), x.interject(a, fmt.Sprint("y", i), 1, true)}
				if i%3 == 2 {
					vsched.Settle(int64(i) * ms)
					w.revoke(a, 0)
					x.check(cs...)
					w.assign(a, 0)
				} else if i%5 == 4 {
					x.check(cs...)
					w.finish(60 * sec)
				}
			}
			w.finish(60 * sec)
			x.allVisible(20 * sec)
		}})
	}

	crash := func(name, doc string, o func() Opt, in func(w *World), loud bool, arm func(w *World, a *Inst)) {
		addScenario(&Scenario{Name: name, Props: []string{"C01", "C02", "C08"}, Doc: doc, Quick: 1, Deep: 2, Fn: func() {
			w := newWorld(o())
			in(w)
			a := w.start()
			ch := make(chan struct{})
			w.later("crash", func() {
				w.crash(a)
				vsched.Close(ch)
			})
			w.assignNoWait(a, w.all()...)
			if arm != nil {
				arm(w, a)
			}
			vsched.Recv(ch)
			vsched.SetQuiet(!loud)
			b := w.start()
			vsched.SetQuiet(!loud)
			w.assignNoWait(b, w.all()...)
			w.finish(120 * sec)
		}})
	}
	restart := func(name, doc string, o func() Opt, in func(w *World), again bool) {
		addScenario(&Scenario{Name: name, Props: []string{"C01", "C02", "C06", "C08"}, Doc: doc, Quick: 1, Deep: 2, Fn: func() {
			w := newWorld(o())
			in(w)
			w.history()
			in(w)
			// fetches return little: what was committed is read bit by bit while the partitions are assigned
			w.C.MaxFetch = 1
			lag := pick(0, 2*ms, 9*ms)
			w.C.FetchLag = func(_ *vkafka.Client, topic string) int64 {
				if strings.Contains(topic, "commit") {
					return lag
				}
				return 0
			}
			b := w.startLoud()
			w.assignNoWait(b, w.all()...)
			if again {
				c := w.startLoud()
				w.finish(60 * sec)
				w.revoke(b, 0)
				in(w)
				w.assign(c, 0)
			}
			w.finish(60 * sec)
		}})
	}
	restart("eos-restart", "a process with history starts and gets its partitions while it reads the commit log",
		func() Opt { return Opt{Parts: 2} },
		func(w *World) { w.put(0, "sf", "f"); w.put(1, "f") }, false)
	restart("eos-restart-commit-parts", "the same with two partitions of the commit log",
		func() Opt { return Opt{Parts: 3, CommitParts: 2} },
		func(w *World) { w.put(0, "f"); w.put(1, "f"); w.put(2, "sf") }, false)
	restart("eos-restart-two", "two processes start at once and read the commit log, one takes over from the other",
		func() Opt { return Opt{} },
		func(w *World) { w.put(0, "sf", "f") }, true)
	crash("eos-crash-commit-parts", "crash; the second process reads two partitions of the commit log",
		func() Opt { return Opt{Parts: 3, CommitParts: 2} },
		func(w *World) { w.put(0, "sf", "f"); w.put(1, "f"); w.put(2, "sf") }, true, nil)
	crash("eos-crash-async", "crash while events wait for asynchronous completion in any order",
		func() Opt { return Opt{Target: 2, Max: 3, Async: true} },
		func(w *World) { w.put(0, "a", "m", "f", "a") }, false, nil)
	crash("eos-crash-twice", "the second process crashes as well, a third one finishes",
		func() Opt { return Opt{} },
		func(w *World) { w.put(0, "sf", "f", "sd", "f") }, false, func(w *World, a *Inst) {
			vsched.RunUntil(func() bool { return a.dead }, 60*sec)
			vsched.SetQuiet(true)
			b := w.start()
			vsched.SetQuiet(false)
			w.assignNoWait(b, 0)
			ch := make(chan struct{})
			w.later("crash-b", func() {
				w.crash(b)
				vsched.Close(ch)
			}, 0, 12*ms)
			vsched.Recv(ch)
		})

	// interjections in the transaction stream
	addScenario(&Scenario{Name: "eos-interjection", Props: []string{"C01", "C02", "C08", "C09"}, Doc: "interjections between events, in the transactions of two partitions", Quick: 1, Deep: 2, Fn: func() {
		w := newWorld(Opt{Parts: 2, Target: 2, Max: 3})
		x := newIJs(w)
		w.put(0, "sf", "f", "f")
		w.put(1, "f", "sf")
		a := w.start()
		w.assignNoWait(a, 0, 1)
		vsched.RunUntil(func() bool { return a.active[0] && a.active[1] }, sec)
		async := pick(false, true)
		c1 := x.interject(a, "one", 0, false)
		c2 := x.interject(a, "two", 1, async)
		c3 := x.interject(a, "three", 0, false)
		x.check(c1, c2, c3)
		w.finish(60 * sec)
		x.allVisible(20 * sec)
	}})
	addScenario(&Scenario{Name: "ij-timing", Props: []string{"C01", "C02", "C04", "C09"}, Doc: "interjections and events in all orders and combinations of arrival, completion and commit times; the partition may be revoked", Quick: 0, Deep: 1, Fn: func() {
		c := pick([][4]int{{2, 1, 1, 2}, {2, 1, 3, 4}, {3, 2, 2, 3}}...)
		w := newWorld(Opt{Pool: c[0], Pending: c[1], Target: c[2], Max: c[3]})
		x := newIJs(w)
		w.put(0, "sf")
		a := w.start()
		end := pick(int64(0), 15*ms)
		w.S.EndDelay = func(*vkafka.Client) int64 { return end }
		w.assign(a, 0)
		w.finish(60 * sec)
		x.lag = pick(int64(1*ms), 12*ms, 40*ms)
		async := pick(false, true)
		var cs []*call
		for k, ev := range pick([][]bool{{true, false, true}, {true, true, false}, {false, true, false}, {false, false, true}, {true, false}, {true, false, false, true}}...) {
			if k > 0 {
				if g := pick(int64(0), 2*ms, 14*ms); g > 0 {
					sleep(time.Duration(g))
				}
			}
			if ev {
				w.put(0, "sf")
				vsched.Settle(0)
			} else {
				cs = append(cs, x.interject(a, fmt.Sprint("ij", k), 0, async))
			}
		}
		if pick(false, true) {
			w.revoke(a, 0)
			x.check(cs...)
			x.allVisible(20 * sec)
			w.handledCommitted(20 * sec)
			w.assignNoWait(a, 0)
		}
		x.check(cs...)
		w.finish(60 * sec)
		vsched.Settle(1 * sec)
		x.allVisible(20 * sec)
		for _, c := range cs {
			if k := fmt.Sprintf("%s/%d", c.name, c.p); x.runs[k] != x.done[k] {
				vsched.Fail("interject-lost", "the interjection %v ran but never completed", c)
			}
		}
	}})
	addScenario(&Scenario{Name: "ij-burst", Props: []string{"C01", "C04", "C09"}, Doc: "interjections among many waiting events, more than the producers can take at once", Quick: 0, Deep: 1, Fn: func() {
		c := pick([][4]int{{2, 1, 1, 1}, {2, 1, 1, 2}, {2, 2, 2, 3}, {3, 1, 2, 2}}...)
		w := newWorld(Opt{Pool: c[0], Pending: c[1], Target: c[2], Max: c[3]})
		x := newIJs(w)
		a := w.start()
		end := pick(int64(0), 7*ms)
		w.S.EndDelay = func(*vkafka.Client) int64 { return end }
		w.assign(a, 0)
		vsched.RunUntil(func() bool { return a.active[0] }, sec)
		async := pick(false, true)
		var cs []*call
		for i := 0; i < 3; i++ {
			w.put(0, "sf", "f", "s", "f")
			if g := pick(int64(-1), 0, 3*ms); g >= 0 {
				vsched.Settle(g)
			}
			cs = append(cs, x.interject(a, fmt.Sprint("ij", i), 0, async))
		}
		x.check(cs...)
		w.finish(60 * sec)
		x.allVisible(20 * sec)
	}})
	addScenario(&Scenario{Name: "ij-crash", Props: []string{"C01", "C09"}, Doc: "a crash at any point around interjections: all or nothing of each is committed, and the store is restored", Quick: 1, Deep: 2, Fn: func() {
		w := newWorld(Opt{Target: 2, Max: 3})
		x := newIJs(w)
		w.put(0, "sf", "f", "f")
		a := w.start()
		w.assignNoWait(a, 0)
		vsched.RunUntil(func() bool { return a.active[0] }, sec)
		ch := make(chan struct{})
		w.later("crash", func() {
			w.crash(a)
			vsched.Close(ch)
		}, 0, 5*ms, 12*ms)
		x.interject(a, "one", 0, false)
		x.interject(a, "two", 0, pick(false, true))
		vsched.Recv(ch)
		vsched.SetQuiet(true)
		b := w.start()
		w.assignNoWait(b, 0)
		w.finish(120 * sec)
		o, c := x.visible()
		for _, m := range []map[string]int{o, c} {
			for v := range m {
				if o[v] != 1 || c[v] != 1 {
					vsched.Fail("interjection-effects", "interjection run %s of a crashed process: its output is visible %d times, its state change %d times", v, o[v], c[v])
				}
			}
		}
		last := ""
		for _, e := range w.C.Part(change, 0).Settled() {
			if string(e.Key) == "ij" {
				last = string(e.Value)
			}
		}
		if got := b.Stores[0].M["ij"]; got != last {
			vsched.Fail("store-content", "the last committed interjection wrote %q, the restored store has %q", last, got)
		}
	}})
	addScenario(&Scenario{Name: "ij-stop", Props: []string{"C09", "C15"}, Doc: "Stop while interjections are pending, periodic ones among them; another process takes over", Quick: 1, Deep: 2, Cfg: vsched.Config{EarlyMax: 100 * ms}, Fn: func() {
		var x *ijs
		w := newWorld(Opt{Conf: coop, Init: func(w *World, in *Inst, es *ES) {
			es.ScheduleInterjection(x.cmd(in, fmt.Sprint("tick", in.ID), false), 100*time.Millisecond, 0)
		}})
		x = newIJs(w)
		w.put(0, "sf", "f")
		a := w.start()
		done := a.watchDone(1)
		w.assignNoWait(a, 0)
		vsched.RunUntil(func() bool { return a.active[0] }, sec)
		c1 := x.interject(a, "one", 0, false)
		c2 := x.interject(a, "two", 0, true)
		w.later("stop", func() { a.spawn("stop", false, func() { a.ES.Stop() }) }, 0, 12*ms, 100*ms)
		w.ended(a, done, 1, 60*sec)
		x.check(c1, c2)
		x.allVisible(20 * sec)
		n := x.n
		vsched.Settle(1 * sec)
		if x.n != n {
			vsched.Fail("interject-after-stop", "an interjection runs after Done")
		}
		vsched.SetQuiet(true)
		b := w.start()
		w.assignNoWait(b, 0)
		w.finish(60 * sec)
		vsched.RunUntil(func() bool { return x.runs["tick2/0"] > 2 }, sec)
		if x.runs["tick2/0"] < 2 {
			vsched.Fail("interjection-missed", "the periodic interjection does not run in the next process")
		}
		x.allVisible(20 * sec)
	}})
	addScenario(&Scenario{Name: "ij-async-revoke", Props: []string{"C09", "C05"}, Doc: "the partition is revoked while asynchronous interjections are pending", Quick: 1, Deep: 2, Fn: func() {
		w := newWorld(Opt{Target: 2, Max: 3})
		x := newIJs(w)
		w.put(0, "sf", "f")
		a := w.start()
		w.assignNoWait(a, 0)
		vsched.RunUntil(func() bool { return a.active[0] }, sec)
		c1 := x.interject(a, "one", 0, true)
		c2 := x.interject(a, "two", 0, true)
		ch := make(chan struct{})
		w.later("rebalance", func() {
			w.revoke(a, 0)
			vsched.Close(ch)
		}, 0, 12*ms)
		vsched.Recv(ch)
		x.check(c1, c2)
		w.handledCommitted(20 * sec)
		x.allVisible(20 * sec)
		for _, n := range []string{"one/0", "two/0"} {
			if x.runs[n] != x.done[n] {
				vsched.Fail("interject-lost", "the asynchronous interjection %s ran but never completed", n)
			}
		}
		n := x.n
		vsched.Settle(sec)
		if x.n != n {
			vsched.Fail("interject-after-revoke", "an interjection runs long after its partition was revoked")
		}
		vsched.SetQuiet(true)
		w.assignNoWait(a, 0)
		w.finish(60 * sec)
	}})

	// the helpers which wait for the end
	wait := func(name, doc string, start func(w *World, a *Inst, ret *int), raise func(w *World, a *Inst)) {
		addScenario(&Scenario{Name: name, Props: []string{"C15"}, Doc: doc, Quick: 1, Deep: 2, Fn: func() {
			w := newWorld(Opt{Conf: coop})
			w.put(0, "sf", "f")
			a, b := w.start(), w.start()
			ret := 0
			start(w, a, &ret)
			done := a.watchDone(1)
			w.assignNoWait(a, 0)
			w.G.OnLeave = func(c *vkafka.Client) {
				if c == a.M {
					w.assignNoWait(b, 0)
				}
			}
			w.later("raise", func() { raise(w, a) }, 0, 12*ms)
			w.ended(a, done, 1, 60*sec)
			if !vsched.RunUntil(func() bool { return ret > 0 }, 10*sec) {
				vsched.Fail("not-returned", "the event source is done but the call that waits for it does not return")
			}
			w.finish(120 * sec)
			if ret != 1 {
				vsched.Fail("callback", "the callback runs %d times", ret)
			}
		}})
	}
	returned := func(w *World, a *Inst, ret *int) {
		w.o.Write(940)
		if !a.M.Left() {
			vsched.Fail("early-return", "the waiting call returns while the consumer is a member of its group")
		}
		*ret++
	}
	var gate chan struct{}
	wait("wait-channel", "WaitForChannel ends the event source when the channel is closed", func(w *World, a *Inst, ret *int) {
		gate = make(chan struct{})
		a.spawn("waiter", false, func() {
			n := 0
			a.ES.WaitForChannel(gate, func() { n++; returned(w, a, ret) })
			if n != 1 {
				vsched.Fail("callback", "WaitForChannel returns, its callback ran %d times", n)
			}
		})
	}, func(w *World, a *Inst) { vsched.Close(gate) })
	wait("wait-signals", "WaitForSignals ends the event source at the first signal that its hook accepts", func(w *World, a *Inst, ret *int) {
		a.spawn("waiter", false, func() {
			n := 0
			a.ES.WaitForSignals(func(s os.Signal) bool {
				n++
				if s == syscall.SIGTERM || n > 2 || a.M.Left() {
					vsched.Fail("signal-hook", "the hook is called with %v, call %d", s, n)
				}
				return s == syscall.SIGINT
			}, syscall.SIGINT, syscall.SIGUSR1)
			returned(w, a, ret)
		})
		vsched.Settle(10 * ms)
	}, func(w *World, a *Inst) {
		vsignal.Raise(syscall.SIGTERM)
		if !vsignal.Raise(syscall.SIGUSR1) {
			vsched.Fail("signal", "nobody is registered for SIGUSR1")
		}
		vtime.Sleep(time.Duration(pick(int64(20*ms), 5*sec)))
		if a.M.Left() {
			vsched.Fail("early-stop", "a signal its hook does not accept ends the event source")
		}
		vsignal.Raise(syscall.SIGINT)
	})
	wait("wait-signals-default", "WaitForSignals without hook and signals", func(w *World, a *Inst, ret *int) {
		a.spawn("waiter", false, func() {
			a.ES.WaitForSignals(nil)
			returned(w, a, ret)
		})
		vsched.Settle(10 * ms)
	}, func(w *World, a *Inst) {
		if s := pick(os.Signal(syscall.SIGINT), os.Signal(syscall.SIGHUP)); !vsignal.Raise(s) {
			vsched.Fail("signal", "nobody is registered for %v", s)
		}
	})
	_ = streams.Complete
}
