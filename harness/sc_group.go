//go:build go1.23

package main

import (
	"time"

	"github.com/aws/go-kafka-event-source/streams/zverif/vkafka"
	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
)

// settleCommitted: whatever was handled to completion must get committed even if its partition is gone.
func (w *World) handledCommitted(budget int64) {
	if !vsched.RunUntil(func() bool {
		for p := range w.In {
			for _, e := range w.In[p] {
				for _, in := range w.Insts {
					if !in.dead && w.complete[key(in.ID, e.P, e.Off)] && w.wm[e.P] <= e.Off {
						return false
					}
				}
			}
		}
		return true
	}, budget) {
		vsched.Fail("handled-not-committed", "an event was handled completely but its offset is not committed: handled %v committed %v\n%s", w.Handled, w.wm, vsched.Describe())
	}
}

func init() {
	// C05: revocation
	rev := func(name, doc string, q, d int, o func() Opt, in func(w *World)) {
		addScenario(&Scenario{Name: name, Props: []string{"C05", "C08"}, Doc: doc, Quick: q, Deep: d, Fn: func() {
			w := newWorld(o())
			in(w)
			ps := []int32{0}
			if name == "revoke-both" {
				ps = w.all()
			}
			a := w.start()
			ch := make(chan struct{})
			w.assignNoWait(a, w.all()...)
			w.later("rebalance", func() {
				w.revoke(a, ps...)
				vsched.Close(ch)
			}, 0, 12*ms)
			vsched.Recv(ch)
			w.handledCommitted(20 * sec)
			n := len(w.Handled)
			vsched.Settle(5 * sec)
			for _, h := range w.Handled[n:] {
				if h[2] == '0' || len(ps) > 1 {
					vsched.Fail("handled-after-revoke", "event %s is handled long after its partition was revoked", h)
				}
			}
			if vsched.BlockedIn("partitionWorker") && w.Parts == 1 {
				vsched.Fail("worker-left", "a goroutine of the partition is still there long after the revocation\n%s", vsched.Describe())
			}
			vsched.SetQuiet(true)
			w.assignNoWait(a, ps...)
			w.finish(60 * sec)
		}})
	}
	rev("revoke-basic", "one partition is revoked at any point and assigned again", 1, 2,
		func() Opt { return Opt{} },
		func(w *World) { w.put(0, "sf", "f", "sf") })
	rev("revoke-stream", "records keep being fetched while the partition is revoked", 1, 2,
		func() Opt { return Opt{Init: func(w *World, _ *Inst, _ *ES) { w.C.MaxFetch = 1 }} },
		func(w *World) { w.put(0, "f", "f", "f", "f") })
	rev("revoke-other-stays", "one of two partitions is revoked", 1, 2,
		func() Opt { return Opt{Parts: 2} },
		func(w *World) { w.put(0, "f", "sf"); w.put(1, "f", "sf") })
	rev("revoke-both", "two partitions are revoked in one rebalance", 1, 2,
		func() Opt { return Opt{Parts: 2} },
		func(w *World) { w.put(0, "f", "sf"); w.put(1, "f", "sf") })
	rev("revoke-async", "revocation while events wait for asynchronous completion", 1, 2,
		func() Opt { return Opt{Async: true, Target: 2, Max: 3} },
		func(w *World) { w.put(0, "a", "a", "f") })

	addScenario(&Scenario{Name: "bounce", Props: []string{"C05", "C08"}, Doc: "a partition is revoked and comes straight back while its records are being fetched", Quick: 2, Deep: 3, Fn: func() {
		vsched.SetQuiet(true)
		w := newWorld(Opt{Target: 2, Max: 3})
		a := w.start()
		w.assign(a, 0)
		vsched.RunUntil(func() bool { return a.active[0] }, sec)
		w.C.MaxFetch = 1
		w.put(0, "f", "f")
		vsched.Settle(12 * ms)
		vsched.SetQuiet(false)
		w.put(0, "f", "f")
		w.revoke(a, 0)
		w.assign(a, 0)
		vsched.SetQuiet(true)
		w.finish(60 * sec)
	}})

	// C06: handoff to another process
	hand := func(name, doc string, q, d int, o func() Opt, in func(w *World)) {
		addScenario(&Scenario{Name: name, Props: []string{"C06", "C08"}, Doc: doc, Quick: q, Deep: d, Fn: func() {
			w := newWorld(o())
			in(w)
			a := w.start()
			b := w.start()
			ch := make(chan struct{})
			ps := []int32{0}
			if name == "hand-two" {
				ps = w.all()
			}
			w.assignNoWait(a, w.all()...)
			w.later("rebalance", func() {
				w.revoke(a, ps...)
				w.assign(b, ps...)
				vsched.Close(ch)
			}, 0, 12*ms)
			vsched.Recv(ch)
			w.finish(60 * sec)
		}})
	}
	hand("handoff", "a partition moves from one process to another at any point", 1, 2,
		func() Opt { return Opt{} },
		func(w *World) { w.put(0, "sf", "f", "sf") })
	hand("hand-two", "two partitions with events in flight move in one rebalance", 1, 2,
		func() Opt { return Opt{Parts: 2} },
		func(w *World) { w.put(0, "sf", "f"); w.put(1, "f", "sf") })

	// timings: everything that takes time takes one of a few durations, in all combinations
	grid := func(name, doc string, props []string, async, back bool) {
		addScenario(&Scenario{Name: name, Props: props, Doc: doc, Quick: 0, Deep: 1, Fn: func() {
			c := pick([][4]int{{2, 1, 1, 2}, {2, 1, 3, 4}, {3, 2, 2, 3}}...)
			w := newWorld(Opt{Parts: 2, Pool: c[0], Pending: c[1], Target: c[2], Max: c[3], Async: async})
			end, ack := pick(int64(0), 15*ms), pick(int64(0), 4*ms)
			w.S.EndDelay = func(*vkafka.Client) int64 { return end }
			w.S.AckDelay = func(*vkafka.Client, string) int64 { return ack }
			w.C.MaxFetch = pick(0, 1)
			load := func() {
				if async {
					w.put(0, "a", "sf", "a", "m")
					w.put(1, "f", "a", "f")
				} else {
					w.put(0, "sf", "f", "sf", "f")
					w.put(1, "f", "sf", "f")
				}
			}
			load()
			a := w.start()
			var b *Inst
			if !back {
				b = w.start()
			}
			w.assignNoWait(a, w.all()...)
			if d := pick(int64(0), 1*ms, 3*ms, 10*ms, 18*ms, 40*ms); d > 0 {
				sleep(time.Duration(d))
			}
			ps := pick([]int32{0}, []int32{0, 1})
			load()
			if pick(false, true) {
				vsched.Settle(0)
			}
			w.revoke(a, ps...)
			w.handledCommitted(20 * sec)
			n := len(w.Handled)
			if back {
				vsched.Settle(5 * sec)
				for _, h := range w.Handled[n:] {
					if h[2] == '0' || len(ps) > 1 {
						vsched.Fail("handled-after-revoke", "event %s is handled long after its partition was revoked", h)
					}
				}
				w.assignNoWait(a, ps...)
			} else {
				w.assign(b, ps...)
			}
			w.finish(60 * sec)
		}})
	}
	grid("revoke-timing", "partitions are revoked at any time of their events' life, and come back", []string{"C04", "C05", "C08"}, false, true)
	grid("revoke-timing-async", "the same with asynchronous events", []string{"C05"}, true, true)
	grid("hand-timing", "partitions move to another process at any time of their events' life", []string{"C02", "C06", "C08"}, false, false)
	grid("hand-timing-async", "the same with asynchronous events", []string{"C06"}, true, false)
}
