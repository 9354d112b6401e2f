//go:build go1.23

package main

import (
	"fmt"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/aws/go-kafka-event-source/streams/sak"
	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
)

// app is an application that processes its events through the asynchronous processors.
type app struct {
	w     *World
	sched map[int]*streams.AsyncJobScheduler[*Store, string, *Ev]
	batch map[int]*streams.AsyncBatcher[*Store, string, *Ev]
	busy  map[string]bool
	next  map[string]int // per key: position of the next event to process
	fnext map[string]int
	order map[string][]*Ev // per process, partition and key: scheduled events
	gate  chan struct{}
	gated bool
	o     vsched.Obj
}

func newApp() *app {
	return &app{sched: map[int]*streams.AsyncJobScheduler[*Store, string, *Ev]{}, batch: map[int]*streams.AsyncBatcher[*Store, string, *Ev]{},
		busy: map[string]bool{}, next: map[string]int{}, fnext: map[string]int{}, order: map[string][]*Ev{}, gate: make(chan struct{})}
}

func ak(in *Inst, e *Ev) string { return fmt.Sprintf("%d/%d/%s", in.ID, e.P, e.Key) }

func (a *app) process(in *Inst, e *Ev) {
	a.o.Write(1)
	k := ak(in, e)
	if a.busy[k] {
		vsched.Fail("key-concurrent", "two events of key %s of partition %d are processed at once", e.Key, e.P)
	}
	a.busy[k] = true
	if l := a.order[k]; a.next[k] >= len(l) || l[a.next[k]] != e {
		vsched.Fail("key-order", "event %d/%d of key %s is processed out of order", e.P, e.Off, e.Key)
	}
	a.next[k]++
	vsched.Point()
	if a.gated {
		vsched.Recv(a.gate)
	}
	a.o.Write(2)
	a.busy[k] = false
}

func (a *app) finalize(in *Inst, ec *EC, e *Ev) streams.ExecutionState {
	a.w.enter(in, e.P, fmt.Sprintf("finalizer of event %d/%d in inst%d", e.P, e.Off, in.ID))
	k := ak(in, e)
	if l := a.order[k]; l[a.fnext[k]] != e {
		vsched.Fail("finalize-order", "event %d/%d of key %s is finalized out of order", e.P, e.Off, e.Key)
	}
	if ec.Offset() != e.Off || ec.TopicPartition().Partition != e.P {
		vsched.Fail("finalize-context", "event %d/%d is finalized with the context of %d/%d", e.P, e.Off, ec.TopicPartition().Partition, ec.Offset())
	}
	a.fnext[k]++
	in.forward(ec, e.P, e.Off, 0, e.Key, false)
	a.w.completed(in, e.P, e.Off)
	a.w.leave(e.P)
	return streams.Complete
}

func (a *app) init(w *World, in *Inst, es *ES, cfg streams.SchedulerConfig, maxBatch, conc int) {
	a.w = w
	a.sched[in.ID] = sak.Must(streams.CreateAsyncJobScheduler[*Store, string, *Ev](es, func(k string, e *Ev) error {
		a.process(in, e)
		return nil
	}, func(ec *EC, k string, e *Ev, err error) streams.ExecutionState { return a.finalize(in, ec, e) }, cfg))
	a.batch[in.ID] = streams.NewAsyncBatcher[*Store, string, *Ev](func(items []*streams.BatchItem[string, *Ev]) {
		for _, it := range items {
			a.o.Write(3)
			k := ak(in, it.Value)
			if l := a.order[k]; a.next[k] >= len(l) || l[a.next[k]] != it.Value {
				vsched.Fail("key-order", "event %d/%d of key %s is batched out of order", it.Value.P, it.Value.Off, it.Key())
			}
			a.next[k]++
		}
		vsched.Point()
	}, maxBatch, conc, 5*time.Millisecond)
}

// handle: script J goes to the scheduler, B to the batcher.
func (a *app) handle(w *World, in *Inst, ec *EC, e *Ev) (streams.ExecutionState, bool) {
	switch e.Script {
	case "J":
		a.order[ak(in, e)] = append(a.order[ak(in, e)], e)
		w.leave(e.P)
		st := a.sched[in.ID].Schedule(ec, e.Key, e)
		w.enter(in, e.P, fmt.Sprintf("handler of event %d/%d in inst%d", e.P, e.Off, in.ID))
		return st, true
	case "B":
		a.order[ak(in, e)] = append(a.order[ak(in, e)], e)
		b := streams.NewBatchItems[*Store, string, *Ev](ec, e.Key, func(ec *EC, b *streams.BatchItems[*Store, string, *Ev]) streams.ExecutionState {
			return a.finalize(in, ec, b.Items()[0].Value)
		}).Add(e)
		return a.batch[in.ID].Add(b), true
	}
	return 0, false
}

func init() {
	add := func(name, doc string, props []string, q, d int, cfg streams.SchedulerConfig, o Opt, in func(w *World), drive func(w *World, a *app, i *Inst)) {
		addScenario(&Scenario{Name: name, Props: props, Doc: doc, Quick: q, Deep: d, Fn: func() {
			a := newApp()
			o := o
			o.Async = true
			o.Handler = a.handle
			o.Init = func(w *World, in *Inst, es *ES) { a.init(w, in, es, cfg, 2, 2) }
			w := newWorld(o)
			in(w)
			i := w.start()
			if drive != nil {
				drive(w, a, i)
				return
			}
			w.assignNoWait(i, w.all()...)
			w.finish(60 * sec)
		}})
	}
	keys := func(w *World, p int32, ks string, script string) {
		for i := range ks {
			w.putKey(p, ks[i:i+1], script)
		}
	}
	add("app-sched", "events go through an AsyncJobScheduler", []string{"C08", "C10"}, 1, 2,
		streams.SchedulerConfig{Concurrency: 2, WorkerQueueDepth: 1, MaxConcurrentKeys: 2}, Opt{Target: 2, Max: 3},
		func(w *World) { keys(w, 0, "abaab", "J") }, nil)
	add("app-sched-two", "two partitions share an AsyncJobScheduler", []string{"C08", "C10"}, 1, 2,
		streams.SchedulerConfig{Concurrency: 1, WorkerQueueDepth: 1, MaxConcurrentKeys: 1}, Opt{Parts: 2, Target: 2, Max: 3},
		func(w *World) { keys(w, 0, "aba", "J"); keys(w, 1, "bb", "J") }, nil)
	add("app-batch", "events go through an AsyncBatcher", []string{"C08", "C12"}, 1, 2,
		streams.SchedulerConfig{Concurrency: 1, WorkerQueueDepth: 1, MaxConcurrentKeys: 1}, Opt{Target: 2, Max: 3},
		func(w *World) { keys(w, 0, "abaab", "B") }, nil)
	add("app-sched-revoke", "the partition is revoked while events are in the scheduler", []string{"C05", "C10"}, 1, 2,
		streams.SchedulerConfig{Concurrency: 1, WorkerQueueDepth: 1, MaxConcurrentKeys: 1}, Opt{Target: 2, Max: 3},
		func(w *World) { keys(w, 0, "aaba", "J") }, func(w *World, a *app, i *Inst) {
			ch := make(chan struct{})
			w.assignNoWait(i, 0)
			w.later("rebalance", func() {
				w.revoke(i, 0)
				vsched.Close(ch)
			}, 0, 12*ms)
			vsched.Recv(ch)
			w.handledCommitted(20 * sec)
			vsched.SetQuiet(true)
			w.assignNoWait(i, 0)
			w.finish(60 * sec)
		})
	add("app-sched-flood", "one hot key among more pending keys than completions fit", []string{"C11"}, 0, 0,
		streams.SchedulerConfig{Concurrency: 1, WorkerQueueDepth: 2, MaxConcurrentKeys: 1000}, Opt{Target: 600, Max: 1000},
		func(w *World) {
			for i := 0; i < 420; i++ {
				w.putKey(0, fmt.Sprint("k", i), "J")
			}
			for i := 0; i < 6; i++ {
				w.putKey(0, "hot", "J")
			}
		}, func(w *World, a *app, i *Inst) {
			a.gated = true
			w.assignNoWait(i, 0)
			vsched.Settle(sec)
			vsched.CloseNow(a.gate)
			w.finish(60 * sec)
		})
}
