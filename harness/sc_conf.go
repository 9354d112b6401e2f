//go:build go1.23

package main

import (
	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
)

// old puts n events that were completed by another kind of application, which committed its offsets on the consumer group.
func (w *World) old(p int32, n int) {
	for i := 0; i < n; i++ {
		w.In[p] = append(w.In[p], &Ev{P: p, Off: int64(len(w.In[p])), Gone: true})
		w.C.Put(inT, p, "old", "f")
	}
	if w.G.Committed[inT] == nil {
		w.G.Committed[inT] = map[int32]int64{}
	}
	w.G.Committed[inT][p] = int64(len(w.In[p]))
}

// apart checks that the clusters hold what they should.
func (w *World) apart() {
	if !w.Two {
		return
	}
	for n := range w.C.Topics {
		if n != inT {
			vsched.Fail("wrong-cluster", "topic %s is on the cluster of the input", n)
		}
	}
	for p := range w.In {
		if n := len(w.C.Part(inT, int32(p)).Log); n != len(w.In[p]) {
			vsched.Fail("wrong-cluster", "the input has %d records, %d were put", n, len(w.In[p]))
		}
	}
	if w.S.Topics[inT] != nil || w.S.Groups[group] != nil {
		vsched.Fail("wrong-cluster", "the input topic or the consumer group is on the state cluster")
	}
}

// marked checks that the offsets of the consumer group catch up with the transactions.
func (w *World) marked(in *Inst) {
	ok := func() bool {
		for p := range w.In {
			if _, touched := in.next[int32(p)]; touched && in.M.Marked[inT][int32(p)] != w.wm[int32(p)] {
				return false
			}
		}
		return true
	}
	if w.Marks && !vsched.RunUntil(ok, 1*sec) {
		vsched.Fail("mark-behind", "offsets %v are marked for commit on the consumer group, those of the transactions are %v", in.M.Marked[inT], w.wm)
	}
	if c := in.M.Cfg; w.Marks != c.AutoCommit || w.Marks && (!c.AutoMarks || c.CommitEvery <= 0) {
		vsched.Fail("mark-config", "CommitOffsets is %v, the consumer commits offsets: %v, only marked ones: %v, every %v", w.Marks, c.AutoCommit, c.AutoMarks, c.CommitEvery)
	}
}

func init() {
	cf := []string{"C24"}
	add := func(name, doc string, q, d int, o func() Opt, in func(w *World), drive func(w *World)) {
		addScenario(&Scenario{Name: name, Props: cf, Doc: doc, Quick: q, Deep: d, Fn: func() {
			opt := o()
			opt.Conf = coop
			w := newWorld(opt)
			if in != nil {
				in(w)
			}
			drive(w)
			w.apart()
		}})
	}
	single := func(w *World) {
		a := w.start()
		w.assignNoWait(a, w.all()...)
		w.finish(60 * sec)
		w.marked(a)
	}
	crash := func(w *World) {
		a := w.start()
		ch := make(chan struct{})
		w.later("crash", func() {
			w.crash(a)
			vsched.Close(ch)
		})
		w.assignNoWait(a, w.all()...)
		vsched.Recv(ch)
		vsched.SetQuiet(true)
		b := w.start()
		w.assignNoWait(b, w.all()...)
		w.finish(120 * sec)
		w.marked(b)
	}
	// what the group committed is what a consumer without a commit log goes on from: nothing may be missing
	back := func(w *World) {
		a := w.start()
		done := a.watchDone(1)
		w.assignNoWait(a, w.all()...)
		w.later("stop", func() { a.spawn("stop", false, a.ES.Stop) }, 0, 12*ms)
		w.ended(a, done, 1, 60*sec)
		w.wm = w.watermarks(true)
		for p := range w.In {
			if c := w.G.Committed[inT][int32(p)]; c > w.wm[int32(p)] && w.wm[int32(p)] > 0 {
				vsched.Fail("mark-ahead", "the group committed offset %d of partition %d, the transactions %d", c, p, w.wm[int32(p)])
			}
		}
		vsched.SetQuiet(true)
		b := w.start()
		w.assignNoWait(b, w.all()...)
		w.finish(120 * sec)
		w.marked(b)
	}
	add("conf-two-clusters", "transactions, commit log and state stores on another cluster than the input", 1, 2,
		func() Opt { return Opt{Two: true, Parts: 2, Target: 2, Max: 3, StoreTopic: "my-store"} },
		func(w *World) { w.put(0, "sf", "f"); w.put(1, "sf") }, single)
	add("conf-two-clusters-crash", "the same with a crash", 1, 2,
		func() Opt { return Opt{Two: true, StoreTopic: "my-store", Marks: true} },
		func(w *World) { w.put(0, "sf", "f", "df") }, crash)
	add("conf-marks", "offsets are committed on the consumer group as well", 1, 2,
		func() Opt { return Opt{Marks: true, Parts: 2, Pool: 3, Pending: 2, Async: true} },
		func(w *World) { w.put(0, "a", "f", "f"); w.put(1, "f", "a") }, single)
	add("conf-marks-stop", "the application stops, its offsets on the consumer group are correct", 1, 2,
		func() Opt { return Opt{Marks: true} },
		func(w *World) { w.put(0, "sf", "f", "f") }, back)
	add("conf-marks-ij", "the transactions contain interjections too", 1, 2,
		func() Opt { return Opt{Marks: true, Pool: 2} },
		func(w *World) { w.put(0, "f", "sf", "f") },
		func(w *World) {
			x := newIJs(w)
			a := w.start()
			w.assignNoWait(a, 0)
			vsched.RunUntil(func() bool { return a.active[0] }, sec)
			cs := []*call{x.interject(a, "one", 0, false), x.interject(a, "two", 0, false)}
			w.finish(60 * sec)
			x.check(cs...)
			w.marked(a)
		})
	add("conf-migrate", "a consumer group with offsets and no commit log is taken over", 1, 2,
		func() Opt { return Opt{Marks: true, Parts: 2, Two: true} },
		func(w *World) { w.old(0, 2); w.put(0, "sf", "f"); w.old(1, 0); w.put(1, "f") }, crash)
	add("conf-migrate-unmarked", "the same without committing offsets on the consumer group", 1, 2,
		func() Opt { return Opt{} },
		func(w *World) { w.old(0, 2); w.put(0, "sf", "f", "df") }, crash)
	add("conf-fresh", "two processes start on empty clusters at once and create the topics", 1, 2,
		func() Opt { return Opt{Empty: true, Two: true, CommitParts: 5} }, nil,
		func(w *World) {
			n := 0
			for i := 0; i < 2; i++ {
				vsched.GoNamed("start", func() { w.startLoud(); n++ })
			}
			if !vsched.RunUntil(func() bool { return n == 2 }, 60*sec) {
				vsched.Fail("start-failed", "the processes do not start\n%s", vsched.Describe())
			}
			vsched.SetQuiet(true)
			w.put(0, "sf", "f", "df")
			for i, in := range w.Insts {
				w.assign(in, 0)
				vsched.RunUntil(func() bool { return w.wm[0] > int64(i) }, 60*sec)
				if i == 0 {
					w.revoke(in, 0)
				}
			}
			w.finish(120 * sec)
		})
}
