//go:build go1.23

package main

import (
	"fmt"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/aws/go-kafka-event-source/streams/zverif/vkafka"
	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
)

func init() {
	eos := []string{"C01", "C02", "C03", "C04"}
	add := func(name, doc string, props []string, q, d int, o func() Opt, in func(w *World)) {
		addScenario(&Scenario{Name: name, Props: props, Doc: doc, Quick: q, Deep: d, Fn: func() {
			w := newWorld(o())
			in(w)
			i := w.start()
			w.assignNoWait(i, w.all()...)
			w.finish(60 * sec)
		}})
	}
	add("eos-basic", "two partitions, two producers, transactions of one or two events", append([]string{"C08"}, eos...), 1, 2,
		func() Opt { return Opt{Parts: 2} },
		func(w *World) { w.put(0, "f", "sf"); w.put(1, "f", "s") })
	add("eos-one-partition", "one partition, four events pooled over two producers", eos, 1, 2,
		func() Opt { return Opt{} },
		func(w *World) { w.put(0, "f", "f", "sf", "f") })
	add("eos-pool3", "one partition, three producers, two transactions may wait to commit", eos, 1, 2,
		func() Opt { return Opt{Pool: 3, Pending: 2} },
		func(w *World) { w.put(0, "f", "f", "f", "f") })
	add("eos-pool3-mixed", "two partitions interleaved over three producers; one event completes late", append([]string{"C08"}, eos...), 1, 2,
		func() Opt { return Opt{Parts: 2, Pool: 3, Pending: 2, Async: true} },
		func(w *World) { w.put(0, "fa", "f", "f"); w.put(1, "f", "f") })
	add("eos-big-txn", "transactions of up to three events, timed flush", eos, 1, 2,
		func() Opt { return Opt{Target: 3, Max: 4, Pending: 2} },
		func(w *World) { w.put(0, "f", "ff", "s", "f", "f") })
	add("eos-multi-output", "an event with more outputs than the maximum batch size", eos, 1, 2,
		func() Opt { return Opt{Target: 2, Max: 3} },
		func(w *World) { w.put(0, "f", "ffff", "f", "f") })
	add("eos-async", "events completed by other goroutines in any order", append([]string{"C08"}, eos...), 1, 2,
		func() Opt { return Opt{Target: 2, Max: 2, Async: true} },
		func(w *World) { w.put(0, "a", "a", "f", "a") })
	add("eos-pool1", "a pool of one producer", []string{"C04"}, 1, 2,
		func() Opt { return Opt{Pool: 1} },
		func(w *World) { w.put(0, "f", "f", "f") })
	add("eos-silent", "events without any output still advance the offset", eos, 1, 2,
		func() Opt { return Opt{Target: 2} },
		func(w *World) { w.put(0, "", "f", "", "") })
	add("eos-late-input", "events arriving while transactions are in flight", []string{"C01", "C03", "C04", "C08"}, 1, 2,
		func() Opt { return Opt{} },
		func(w *World) {
			w.put(0, "f", "f")
			vsched.GoEnv("input", func() { w.put(0, "f", "f") })
		})
	add("eos-same-output", "two partitions forwarding to one output partition", eos, 1, 2,
		func() Opt { return Opt{Parts: 2, Target: 2} },
		func(w *World) { w.put(0, "f", "f", "f"); w.put(1, "f", "f") })

	add("eos-max-batch", "events which forward several records wait behind a slow transaction", eos, 1, 2,
		func() Opt { return Opt{Async: true, Pool: 3, Pending: 1, Target: 1, Max: 2} },
		func(w *World) { w.put(0, "a", "f", "ff", "fff", "ff", "f") })
	add("eos-max-batch-2", "the same with two partitions", eos, 1, 2,
		func() Opt { return Opt{Parts: 2, Async: true, Pool: 3, Pending: 1, Target: 2, Max: 3} },
		func(w *World) { w.put(0, "a", "ff", "ff", "ff"); w.put(1, "ff", "f", "ff", "f") })

	del := append([]string{"C08"}, eos...)
	add("eos-gaps", "offsets without records between the events (compaction, control records)", del, 1, 2,
		func() Opt { return Opt{Parts: 2, Target: 2, Max: 3} },
		func(w *World) {
			w.gap(0)
			w.put(0, "f", "sf")
			w.gap(0)
			w.gap(0)
			w.put(0, "sf")
			w.put(1, "f")
			w.gap(1)
			w.put(1, "sf")
		})
	add("eos-fetch-errors", "polls report errors of a partition, after records or instead of them", del, 1, 2,
		func() Opt {
			return Opt{Parts: 2, Target: 2, Max: 3, Init: func(w *World, _ *Inst, _ *ES) { w.C.FetchErrs = 1 }}
		},
		func(w *World) {
			w.put(0, "f", "sf")
			w.put(1, "f")
			vsched.GoEnv("input", func() { w.put(0, "f"); w.put(1, "sf") })
		})
	add("eos-small-fetch", "every fetch returns one record, events arrive meanwhile", del, 1, 2,
		func() Opt {
			return Opt{Parts: 2, Target: 2, Max: 3, Init: func(w *World, _ *Inst, _ *ES) { w.C.MaxFetch = 1 }}
		},
		func(w *World) {
			w.put(0, "f", "sf")
			w.put(1, "f")
			vsched.GoEnv("input", func() { w.put(0, "f"); w.put(1, "sf") })
		})

	// crash at every point, a second process takes over
	crash := func(name, doc string, q, d int, o func() Opt, in func(w *World)) {
		addScenario(&Scenario{Name: name, Props: []string{"C01", "C02", "C08"}, Doc: doc, Quick: q, Deep: d, Fn: func() {
			w := newWorld(o())
			in(w)
			a := w.start()
			ch := make(chan struct{})
			w.later("crash", func() {
				w.crash(a)
				vsched.Close(ch)
			})
			w.assignNoWait(a, w.all()...)
			vsched.Recv(ch)
			vsched.SetQuiet(true)
			b := w.start()
			w.assignNoWait(b, w.all()...)
			w.finish(120 * sec)
		}})
	}
	crash("eos-crash", "the process crashes at any point; a second one takes over", 1, 2,
		func() Opt { return Opt{Parts: 2} },
		func(w *World) { w.put(0, "f", "sf"); w.put(1, "f", "sd") })
	crash("eos-crash-pool", "crash with several transactions in flight", 1, 2,
		func() Opt { return Opt{Pool: 3, Pending: 2} },
		func(w *World) { w.put(0, "sf", "f", "df", "sf") })
	crash("eos-crash-gaps", "crash with offsets without records around the committed one", 1, 2,
		func() Opt { return Opt{Target: 2, Max: 3} },
		func(w *World) { w.put(0, "sf"); w.gap(0); w.put(0, "sf", "f"); w.gap(0); w.put(0, "df") })

	// timing: events arrive, complete and commit at all combinations of a few moments. These choices are free, the
	// declared bound comes on top of them.
	timing := func(name, doc string, props []string, q int, conf func() (Opt, [][]string), gaps, acks, ends []int64) {
		addScenario(&Scenario{Name: name, Props: props, Doc: doc, Quick: q, Deep: q + 1, Fn: func() {
			o, in := conf()
			w := newWorld(o)
			i := w.start()
			ack := pick(acks...)
			end := pick(ends...)
			w.S.AckDelay = func(_ *vkafka.Client, t string) int64 {
				if t == outT {
					return ack
				}
				return 0
			}
			w.S.EndDelay = func(*vkafka.Client) int64 { return end }
			w.assign(i, w.all()...)
			for k := 0; ; k++ {
				more := false
				for p := range in {
					if k < len(in[p]) {
						if k+p > 0 {
							if g := pick(gaps...); g > 0 {
								sleep(time.Duration(g))
							}
						}
						w.put(int32(p), in[p][k])
						more = true
					}
				}
				if !more {
					break
				}
			}
			w.finish(60 * sec)
		}})
	}
	timing("eos-timing", "one partition: all combinations of arrival times, acknowledgement and commit latencies, pool and batch sizes", eos, 0, func() (Opt, [][]string) {
		c := pick([][4]int{{2, 1, 1, 2}, {2, 1, 2, 3}, {3, 2, 1, 2}, {3, 2, 2, 4}, {3, 1, 2, 2}}...)
		return Opt{Pool: c[0], Pending: c[1], Target: c[2], Max: c[3]}, [][]string{{"f", "ff", "sf", "f", "f"}}
	}, []int64{0, 1 * ms, 11 * ms}, []int64{0, 3 * ms}, []int64{0, 5 * ms, 30 * ms})
	transfer := func(name, doc string, async bool, run func(w *World, ended func(k int))) {
		addScenario(&Scenario{Name: name, Props: eos, Doc: doc, Quick: 1, Deep: 2, Fn: func() {
			var th []*vsched.Thread
			ends := 0
			ended := func(k int) { // waits for the end of the k-th transaction
				for ends < k {
					th = append(th, vsched.Cur())
					vsched.Block("end of a transaction")
				}
			}
			o := Opt{Pool: 3, Pending: 1, Target: 2, Max: 4, Async: async}
			o.Handler = func(w *World, in *Inst, ec *EC, e *Ev) (streams.ExecutionState, bool) {
				if e.Script != "w" {
					return 0, false
				}
				in.async(ec, func() streams.ExecutionState { return streams.Incomplete })
				vsched.GoNamed("async", func() {
					ended(1 + int(e.Off)/4)
					ec.AsyncJobComplete(func() streams.ExecutionState {
						w.enter(in, e.P, fmt.Sprintf("finalizer of event %d/%d in inst%d", e.P, e.Off, in.ID))
						in.forward(ec, e.P, e.Off, 0, e.Key, false)
						w.completed(in, e.P, e.Off)
						w.leave(e.P)
						return streams.Complete
					})
				})
				return streams.Incomplete, true
			}
			w := newWorld(o)
			i := w.start()
			w.S.EndDelay = func(*vkafka.Client) int64 { return 5 * ms }
			end := w.S.OnTxnEnd
			w.S.OnTxnEnd = func(t *vkafka.Txn, ok bool) {
				end(t, ok)
				ends++
				for _, x := range th {
					x.Wake()
				}
				th = nil
			}
			w.assign(i, w.all()...)
			run(w, ended)
			w.finish(60 * sec)
		}})
	}
	transfer("eos-transfer", "events arrive at the moment a partition passes on to the next producer", false, func(w *World, ended func(k int)) {
		n := 0
		vsched.GoNamed("input", func() {
			for k := 1; k < 3; k++ {
				ended(k)
				w.put(0, "f")
				n++
			}
		})
		w.put(0, "f", "f")
		sleep(time.Millisecond)
		w.put(0, "f")
		if !vsched.RunUntil(func() bool { return n == 2 }, 10*sec) {
			vsched.Fail("not-committed", "no second transaction")
		}
	})
	transfer("eos-transfer-async", "events complete at the moment a partition passes on to the next producer", true, func(w *World, ended func(k int)) {
		w.put(0, "f", "f", "f", "w", "f", "w")
	})
	timing("eos-timing-two", "two partitions: all combinations of arrival times, acknowledgement and commit latencies, pool and batch sizes", eos, 0, func() (Opt, [][]string) {
		c := pick([][4]int{{2, 1, 1, 2}, {2, 1, 2, 3}, {3, 2, 1, 2}, {3, 2, 3, 4}}...)
		return Opt{Parts: 2, Pool: c[0], Pending: c[1], Target: c[2], Max: c[3]}, [][]string{{"f", "ff", "f"}, {"sf", "f"}}
	}, []int64{0, 1 * ms, 11 * ms}, []int64{0, 3 * ms}, []int64{0, 5 * ms, 30 * ms})
	timing("eos-timing-async", "events complete after all combinations of delays, in any order", append([]string{"C08"}, eos...), 0, func() (Opt, [][]string) {
		c := pick([][4]int{{2, 1, 1, 2}, {2, 1, 2, 3}, {3, 2, 2, 4}}...)
		o := Opt{Pool: c[0], Pending: c[1], Target: c[2], Max: c[3], Async: true}
		o.Handler = func(w *World, in *Inst, ec *EC, e *Ev) (streams.ExecutionState, bool) {
			if e.Script != "w" {
				return 0, false
			}
			d := pick(0, 2*ms, 14*ms)
			vsched.GoNamed("async", func() {
				sleep(time.Duration(d))
				ec.AsyncJobComplete(func() streams.ExecutionState {
					w.enter(in, e.P, fmt.Sprintf("finalizer of event %d/%d in inst%d", e.P, e.Off, in.ID))
					in.forward(ec, e.P, e.Off, 0, e.Key, false)
					w.completed(in, e.P, e.Off)
					w.leave(e.P)
					return streams.Complete
				})
			})
			return streams.Incomplete, true
		}
		return o, [][]string{{"w", "w", "f", "w"}}
	}, []int64{0, 4 * ms}, []int64{0}, []int64{0, 5 * ms})
}
