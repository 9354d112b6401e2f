//go:build go1.23

package main

import (
	"github.com/aws/go-kafka-event-source/streams/zverif/vkafka"
	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
)

func init() {
	prop := []string{"C28"}
	add := func(name, doc string, q, d int, o Opt, fn func(w *World)) {
		o.Life = true
		addScenario(&Scenario{Name: name, Props: prop, Doc: doc, Quick: q, Deep: d, Fn: func() { fn(newWorld(o)) }})
	}
	// seen: what was reported of a partition, in order, ends like this.
	ends := func(w *World, in *Inst, p int32, want string) {
		if !vsched.RunUntil(func() bool { return in.life[p] == want }, 20*sec) {
			vsched.Fail("life-cycle", "inst%d: partition %d: reported of the present assignment %q, expected %q", in.ID, p, in.life[p], want)
		}
	}
	add("life-assign", "two partitions with history are assigned", 1, 2, Opt{Parts: 2}, func(w *World) {
		w.put(0, "sf", "sd")
		w.put(1, "s")
		w.history()
		a := w.start()
		w.put(0, "s", "f")
		w.put(1, "sf")
		w.assignNoWait(a, 0, 1)
		w.finish(60 * sec)
		ends(w, a, 0, "assigned activated")
		ends(w, a, 1, "assigned activated")
	})
	add("life-idle", "a partition without events and without history is assigned and revoked", 2, 2, Opt{}, func(w *World) {
		a := w.start()
		w.assign(a, 0)
		ends(w, a, 0, "assigned activated")
		w.revoke(a, 0)
		ends(w, a, 0, "")
		w.assign(a, 0)
		ends(w, a, 0, "assigned activated")
	})
	add("life-revoke", "a partition is revoked at any point and assigned again, another one stays", 1, 2, Opt{Parts: 2}, func(w *World) {
		w.put(0, "sf", "f", "sf")
		w.put(1, "f", "sf")
		a := w.start()
		w.assignNoWait(a, 0, 1)
		ch := make(chan struct{})
		w.later("rebalance", func() {
			defer vsched.Close(ch)
			w.revoke(a, 0)
			ends(w, a, 0, "")
			w.assign(a, 0)
		}, 0, 12*ms)
		vsched.Recv(ch)
		w.finish(60 * sec)
		ends(w, a, 0, "assigned activated")
		ends(w, a, 1, "assigned activated")
	})
	add("life-async", "partitions are revoked while events wait for asynchronous completion", 1, 2, Opt{Parts: 2, Async: true, Target: 2, Max: 3}, func(w *World) {
		w.put(0, "a", "a", "f")
		w.put(1, "a")
		a := w.start()
		w.assignNoWait(a, 0, 1)
		ch := make(chan struct{})
		w.later("rebalance", func() {
			defer vsched.Close(ch)
			w.revoke(a, 0, 1)
			w.assign(a, 0, 1)
		}, 0, 12*ms)
		vsched.Recv(ch)
		w.finish(60 * sec)
		ends(w, a, 0, "assigned activated")
		ends(w, a, 1, "assigned activated")
	})
	add("life-boot", "a partition is revoked at any point of its bootstrap and assigned again", 1, 2, Opt{}, func(w *World) {
		w.put(0, "sf", "s", "sd")
		w.history()
		a := w.start()
		w.put(0, "sf")
		w.assignNoWait(a, 0)
		ch := make(chan struct{})
		w.later("rebalance", func() {
			defer vsched.Close(ch)
			w.revoke(a, 0)
			w.assign(a, 0)
		}, 0, 12*ms)
		vsched.Recv(ch)
		w.finish(60 * sec)
		ends(w, a, 0, "assigned activated")
	})
	add("life-prep", "a partition is prepared, perhaps forgotten, and assigned at any time after that", 1, 2, Opt{}, func(w *World) {
		w.put(0, "sf", "s", "sd")
		w.history()
		a := w.start()
		w.put(0, "sf")
		forget := pick(false, true)
		w.instruct(a, "Prepare", 0)
		ch := make(chan struct{})
		w.later("assign", func() {
			defer vsched.Close(ch)
			if forget {
				w.instruct(a, "Forget", 0)
			}
			w.assign(a, 0)
		}, 0, 12*ms)
		vsched.Recv(ch)
		w.finish(60 * sec)
		ends(w, a, 0, "assigned activated")
	})
	add("life-handoff", "a partition moves from one process to another at any point", 1, 2, Opt{}, func(w *World) {
		w.put(0, "sf", "s", "sd", "f")
		a, b := w.start(), w.start()
		w.assignNoWait(a, 0)
		ch := make(chan struct{})
		w.later("rebalance", func() {
			defer vsched.Close(ch)
			w.revoke(a, 0)
			ends(w, a, 0, "")
			w.assign(b, 0)
		}, 0, 12*ms)
		vsched.Recv(ch)
		w.finish(60 * sec)
		ends(w, b, 0, "assigned activated")
	})
	stop := func(name, doc string, now bool, o Opt, in func(w *World)) {
		o.Conf = coop
		add(name, doc, 1, 2, o, func(w *World) {
			in(w)
			a, b := w.start(), w.start()
			done := a.watchDone(1)
			w.assignNoWait(a, w.all()...)
			w.G.OnLeave = func(c *vkafka.Client) {
				if c == a.M {
					w.assignNoWait(b, w.all()...)
				}
			}
			w.later("stop", func() {
				a.spawn("stop", false, func() {
					if now {
						a.forced = true
						a.ES.StopNow()
					} else {
						a.ES.Stop()
					}
				})
			}, 0, 12*ms)
			w.ended(a, done, 1, 60*sec)
			for _, p := range w.all() {
				if a.life[p] != "" {
					vsched.Fail("life-cycle", "Done fires but partition %d has not been reported revoked (reported of its assignment: %q)", p, a.life[p])
				}
			}
			w.finish(120 * sec)
			for _, p := range w.all() {
				ends(w, b, p, "assigned activated")
			}
		})
	}
	stop("life-stop", "Stop at any point, another process takes over", false, Opt{Parts: 2}, func(w *World) {
		w.put(0, "sf", "f")
		w.put(1, "s")
	})
	stop("life-stop-now", "StopNow at any point, another process takes over", true, Opt{AllowConcurrent: true}, func(w *World) {
		w.put(0, "sf", "f", "sf")
	})
}
