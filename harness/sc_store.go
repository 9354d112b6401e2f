//go:build go1.23

package main

import (
	"fmt"
	"time"

	"github.com/aws/go-kafka-event-source/streams/zverif/vkafka"
	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
)

func tps(parts ...int32) string {
	s := ""
	for i, p := range parts {
		if i > 0 {
			s += ","
		}
		s += fmt.Sprintf(`{"Partition":%d,"Topic":"%s"}`, p, inT)
	}
	return s
}

// instruct sends the instructions of the group's leader to an instance.
func (w *World) instruct(in *Inst, kind string, parts ...int32) {
	ch := make(chan struct{})
	in.M.Instruct(`{"`+kind+`":[`+tps(parts...)+`]}`, func() { vsched.Close(ch) })
	vsched.Recv(ch)
}

// history lets a first process handle the input so far and crash.
func (w *World) history() {
	vsched.SetQuiet(true)
	a := w.start()
	w.assign(a, w.all()...)
	w.finish(60 * sec)
	w.crash(a)
	vsched.Settle(40 * sec) // sessions and transactions have timed out
	vsched.SetQuiet(false)
}

func init() {
	in := func(w *World) { w.put(0, "sf", "s", "sd", "s") }
	more := func(w *World) { w.put(0, "sf", "s", "d") }
	add := func(name, doc string, q, d int, o Opt, fn func(w *World)) {
		addScenario(&Scenario{Name: name, Props: []string{"C07"}, Doc: doc, Quick: q, Deep: d, Fn: func() { fn(newWorld(o)) }})
	}
	add("boot-assign", "a partition with history is assigned without preparation", 1, 2, Opt{}, func(w *World) {
		in(w)
		w.history()
		b := w.start()
		more(w)
		w.assignNoWait(b, 0)
		w.finish(60 * sec)
	})
	add("boot-fetch-errors", "polls report errors of a partition while a store is populated", 1, 2, Opt{}, func(w *World) {
		in(w)
		w.history()
		b := w.start()
		more(w)
		w.C.FetchErrs = 1
		w.C.MaxFetch = pick(0, 1)
		if pick(true, false) {
			w.instruct(b, "Prepare", 0)
		}
		w.assign(b, 0)
		w.finish(60 * sec)
	})
	add("boot-prep", "a partition is prepared and assigned at any time after that", 1, 2, Opt{}, func(w *World) {
		in(w)
		w.history()
		b := w.start()
		more(w)
		w.instruct(b, "Prepare", 0)
		w.later("assign", func() { w.assign(b, 0) }, 0, 12*ms)
		w.finish(60 * sec)
	})
	add("boot-prep-forget", "preparation is forgotten at any time, done again, then the partition is assigned", 1, 2, Opt{}, func(w *World) {
		in(w)
		w.history()
		b := w.start()
		more(w)
		w.instruct(b, "Prepare", 0)
		w.later("forget", func() {
			w.instruct(b, "Forget", 0)
			w.instruct(b, "Prepare", 0)
			w.assign(b, 0)
		}, 0, 12*ms)
		w.finish(60 * sec)
	})
	add("boot-forget-assign", "preparation is forgotten at any time, then the partition is assigned all the same", 1, 2, Opt{}, func(w *World) {
		in(w)
		w.history()
		b := w.start()
		more(w)
		w.instruct(b, "Prepare", 0)
		w.later("forget", func() {
			w.instruct(b, "Forget", 0)
			w.assign(b, 0)
		}, 0, 12*ms)
		w.finish(60 * sec)
	})
	add("boot-stale", "a forgotten preparation leaves nothing behind: keys deleted and compacted meanwhile stay deleted", 1, 2, Opt{}, func(w *World) {
		w.putKey(0, "x", "s")
		w.putKey(0, "y", "s")
		vsched.SetQuiet(true)
		a := w.start()
		b := w.start()
		w.assign(a, 0)
		w.finish(60 * sec)
		w.instruct(b, "Prepare", 0)
		vsched.Settle(sec)
		vsched.SetQuiet(false)
		w.instruct(b, "Forget", 0)
		vsched.SetQuiet(true)
		w.putKey(0, "x", "d")
		w.finish(60 * sec)
		// compaction removes the value and, later, the tombstone
		w.C.Part(change, 0).Compact()
		for _, e := range w.C.Part(change, 0).Log {
			if string(e.Key) == "x" {
				e.Gone = true
			}
		}
		w.revoke(a, 0)
		vsched.SetQuiet(false)
		w.putKey(0, "y", "sf")
		w.assignNoWait(b, 0)
		w.finish(60 * sec)
	})
	add("boot-revoke", "the partition is revoked at any time during its bootstrap and assigned again", 1, 2, Opt{}, func(w *World) {
		in(w)
		w.history()
		b := w.start()
		more(w)
		w.assignNoWait(b, 0)
		w.later("rebalance", func() {
			w.revoke(b, 0)
			w.assign(b, 0)
		}, 0, 12*ms)
		w.finish(60 * sec)
	})
	add("boot-live", "a partition is prepared while its present owner works on it, then handed over", 1, 2, Opt{}, func(w *World) {
		vsched.SetQuiet(true)
		w.put(0, "sf", "s")
		a := w.start()
		b := w.start()
		w.assign(a, 0)
		w.finish(60 * sec)
		vsched.SetQuiet(false)
		w.put(0, "sd", "s", "sf")
		w.instruct(b, "Prepare", 0)
		w.later("rebalance", func() {
			w.revoke(a, 0)
			w.assign(b, 0)
		}, 0, 12*ms)
		w.finish(60 * sec)
	})
	add("boot-beside", "one partition is prepared and forgotten while another one is bootstrapped and worked on", 1, 2, Opt{Parts: 2}, func(w *World) {
		w.put(0, "s", "sd")
		w.put(1, "s", "s")
		w.history()
		b := w.start()
		w.put(0, "sf")
		w.put(1, "sf")
		w.instruct(b, "Prepare", 1)
		w.assignNoWait(b, 0)
		w.later("forget", func() {
			w.instruct(b, "Forget", 1)
			w.assign(b, 1)
		}, 0, 12*ms)
		w.finish(60 * sec)
	})
	add("boot-crash", "the owner crashes at any time, with transactions under way, and another process takes over", 0, 1, Opt{Target: 2, Max: 3}, func(w *World) {
		end := pick(int64(0), 15*ms)
		ack := pick(int64(0), 4*ms)
		w.S.EndDelay = func(*vkafka.Client) int64 { return end }
		w.S.AckDelay = func(*vkafka.Client, string) int64 { return ack }
		prep := pick(false, true)
		w.put(0, "sf", "s", "sd", "s", "f")
		a := w.start()
		var b *Inst
		if prep {
			b = w.start()
		}
		w.assignNoWait(a, 0)
		if d := pick(int64(0), 1*ms, 3*ms, 5*ms, 8*ms, 12*ms, 17*ms, 21*ms); d > 0 {
			sleep(time.Duration(d))
		}
		if prep {
			w.instruct(b, "Prepare", 0)
			if d := pick(int64(0), 2*ms, 20*ms); d > 0 {
				sleep(time.Duration(d))
			}
		}
		w.crash(a)
		if b == nil {
			b = w.start()
		}
		w.assignNoWait(b, 0)
		w.finish(120 * sec)
	})
	steps := [][]string{{"P", "A"}, {"P", "F", "A"}, {"P", "F", "P", "A"}, {"A", "R", "A"}, {"P", "A", "R", "A"}, {"P", "F", "P", "F", "A"}, {"P", "A", "F"}, {"A", "P", "R", "P", "A"}, {"A", "R", "P", "F", "A"}}
	add("boot-timing", "Prepare, Forget, assignment and revocation in many orders, each after one of a few times, while replay takes time", 0, 1, Opt{}, func(w *World) {
		in(w)
		w.history()
		b := w.start()
		t := pick([][3]int64{{}, {3 * ms, 0, 0}, {3 * ms, 1, 2 * ms}, {0, 1, 2 * ms}}...)
		w.SlowChange = t[0]
		w.C.MaxFetch = int(t[1])
		lag := t[2]
		w.C.FetchLag = func(*vkafka.Client, string) int64 { return lag }
		more(w)
		for _, s := range pick(steps...) {
			switch s {
			case "P":
				w.instruct(b, "Prepare", 0)
			case "F":
				w.instruct(b, "Forget", 0)
			case "A":
				w.assignNoWait(b, 0)
			case "R":
				w.revoke(b, 0)
			}
			if d := pick(int64(0), 4*ms, 60*ms); d > 0 {
				sleep(time.Duration(d))
			}
		}
		w.finish(60 * sec)
	})
	add("boot-long", "a process works for a long time before it gets another partition", 0, 0, Opt{Parts: 2, Target: 20, Max: 40}, func(w *World) {
		w.put(1, "s", "sd", "s")
		w.history()
		b := w.start()
		w.assign(b, 0)
		w.C.MaxFetch = 1
		vsched.SetQuiet(true)
		for i := 0; i < 1050; i++ {
			w.put(0, "s")
			if i%105 == 104 {
				w.finish(60 * sec)
			}
		}
		w.put(1, "sf")
		w.assignNoWait(b, 1)
		w.finish(60 * sec)
	})
}
