//go:build go1.23

package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/aws/go-kafka-event-source/streams/sak"
	"github.com/aws/go-kafka-event-source/streams/zverif/vkafka"
	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
	"github.com/aws/go-kafka-event-source/streams/zverif/vtime"
	"github.com/twmb/franz-go/pkg/kgo"
)

const gclT = "global"

// gcl is a GlobalChangeLog with a receiver that records what it is given.
type gcl struct {
	c    *vkafka.Cluster
	log  streams.GlobalChangeLog[*gclRec]
	cl   *vkafka.Client
	rec  *gclRec
	n    int
	all  bool // nothing but the whole log is acceptable
	txns int
}

type gclRec struct {
	o      vsched.Obj
	busy   bool
	got    [][]int64 // offsets delivered per partition
	at     [][]int64 // and when
	closed bool
	part   func(p int32) *vkafka.Part
}

func (r *gclRec) ReceiveChange(ir streams.IncomingRecord) error {
	r.o.Write(950)
	if r.busy {
		vsched.Fail("concurrent-receive", "the receiver is called while it is running")
	}
	r.busy = true
	p, off := ir.TopicPartition().Partition, ir.Offset()
	if ir.TopicPartition().Topic != gclT || int(p) >= len(r.got) {
		vsched.Fail("wrong-topic", "the receiver is given a record of %v", ir.TopicPartition())
	}
	e := r.part(p).Log[off]
	if string(e.Key) != string(ir.Key()) || string(e.Value) != string(ir.Value()) {
		vsched.Fail("wrong-content", "record %d/%d is delivered as %q=%q", p, off, ir.Key(), ir.Value())
	}
	if !e.Visible() {
		vsched.Fail("uncommitted", "record %d/%d is delivered but not committed", p, off)
	}
	r.got[p] = append(r.got[p], off)
	r.at[p] = append(r.at[p], vsched.Now())
	vsched.Tracef("RECEIVE %d/%d", p, off)
	vsched.Point()
	r.o.Write(951)
	r.busy = false
	if string(ir.Value()) == "bad" {
		return errors.New("bad record")
	}
	return nil
}

func newGcl(parts int) *gcl {
	g := &gcl{c: vkafka.Get(seed), n: parts}
	g.c.CreateTopic(gclT, parts, 1, nil)
	g.rec = &gclRec{got: make([][]int64, parts), at: make([][]int64, parts), part: func(p int32) *vkafka.Part { return g.c.Part(gclT, p) }}
	return g
}

func (g *gcl) put(p int32, vals ...string) {
	for i, v := range vals {
		g.c.PutNow(gclT, p, fmt.Sprint("k", i), v)
	}
}

// txn writes a transaction and ends it.
func (g *gcl) txn(commit bool, p int32, vals ...string) {
	g.txns++
	cl, err := streams.NewClient(streams.SimpleCluster{seed}, kgo.TransactionalID(fmt.Sprint("tx", g.txns)), kgo.RecordPartitioner(kgo.ManualPartitioner()))
	if err != nil {
		vsched.Fail("harness", "NewClient: %v", err)
	}
	cl.BeginTransaction()
	for _, v := range vals {
		cl.Produce(context.Background(), &kgo.Record{Topic: gclT, Partition: p, Key: []byte("t"), Value: []byte(v)}, nil)
	}
	cl.Flush(context.Background())
	cl.EndTransaction(context.Background(), kgo.TransactionEndTry(commit))
	cl.Close()
}

func (g *gcl) open() {
	before := map[*vkafka.Client]bool{}
	for _, c := range vkafka.Clients() {
		before[c] = true
	}
	g.log = streams.NewGlobalChangeLogWithRunStatus(sak.NewRunStatus(context.Background()), streams.SimpleCluster{seed}, g.rec, g.n, gclT, streams.CompactCleanupPolicy)
	for _, c := range vkafka.Clients() {
		if !before[c] {
			g.cl = c
		}
	}
}

// want lists the committed offsets of a partition from one on.
func (g *gcl) want(p int32, from int64) (l []int64) {
	for _, e := range g.c.Part(gclT, p).Committed() {
		if e.Offset >= from {
			l = append(l, e.Offset)
		}
	}
	return
}

func sameOffs(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// complete waits until everything committed has been delivered, once and in order.
func (g *gcl) complete() {
	ok := vsched.RunUntil(func() bool {
		for p := 0; p < g.n; p++ {
			if len(g.rec.got[p]) < len(g.want(int32(p), 0)) {
				return false
			}
		}
		return true
	}, 30*sec)
	vsched.Settle(1 * sec)
	for p := 0; p < g.n; p++ {
		if w := g.want(int32(p), 0); !ok || !sameOffs(w, g.rec.got[p]) {
			vsched.Fail("delivery", "partition %d: offsets %v are committed, %v were delivered", p, w, g.rec.got[p])
		}
	}
}

// stop halts the log and checks that it is quiet and closed afterwards.
func (g *gcl) stop() {
	g.log.Stop()
	if !vsched.RunUntil(func() bool { return g.cl.Closed() }, 20*sec) {
		vsched.Fail("not-closed", "the client is still open after Stop")
	}
	n := len(g.rec.got[0])
	g.put(0, "late")
	vsched.Settle(20 * sec)
	if len(g.rec.got[0]) != n {
		vsched.Fail("after-stop", "a record is delivered after the log has stopped")
	}
}

// tail checks deliveries of a partition that was paused and resumed at an offset: a prefix of the committed log, possibly
// further parts of it that were fetched before, and at the end everything from the offset on.
func (g *gcl) tail(p int32, off int64, resumed int) {
	ok := vsched.RunUntil(func() bool {
		w, got := g.want(p, off), g.rec.got[p]
		return len(got)-resumed >= len(w) && sameOffs(w, got[len(got)-len(w):])
	}, 30*sec)
	vsched.Settle(1 * sec)
	w, got := g.want(p, off), g.rec.got[p]
	if !ok || len(got) < len(w) || !sameOffs(w, got[len(got)-len(w):]) {
		vsched.Fail("resume", "partition %d was resumed at %d: %v expected at the end, delivered were %v (%d of them before)", p, off, w, got, resumed)
	}
}

func init() {
	add := func(name, doc string, q, d int, fn func()) {
		addScenario(&Scenario{Name: name, Props: []string{"C27"}, Doc: doc, Quick: q, Deep: d, Fn: fn})
	}
	add("gcl-all", "a log with committed, aborted and open transactions, and records its receiver refuses", 2, 3, func() {
		g := newGcl(2)
		g.put(0, "a", "bad", "c")
		g.txn(false, 0, "x", "y")
		g.put(1, "a")
		g.txn(true, 1, "t", "u")
		g.put(0, "d")
		g.open()
		g.log.Start()
		vsched.GoEnv("writer", func() {
			g.put(1, "b")
			g.txn(pick(true, false), 0, "v")
			g.put(0, "bad")
			g.put(1, "c")
		})
		vsched.Settle(1 * sec)
		g.complete()
		g.stop()
	})
	add("gcl-fetch-errors", "polls report errors of a partition, after records or instead of them", 2, 3, func() {
		g := newGcl(2)
		g.c.FetchErrs = 2
		g.put(0, "a", "b")
		g.put(1, "a")
		g.open()
		g.log.Start()
		vsched.GoEnv("writer", func() {
			g.put(1, "b")
			g.put(0, "c")
		})
		vsched.Settle(1 * sec)
		g.complete()
		g.stop()
	})
	add("gcl-stop", "the log is stopped at any point", 2, 3, func() {
		g := newGcl(2)
		g.put(0, "a", "b")
		g.put(1, "a", "b")
		g.open()
		g.log.Start()
		gap := pick(0, 1*ms, 6*sec)
		stopped := false
		vsched.GoEnv("stop", func() {
			vtime.Sleep(time.Duration(gap))
			g.log.Stop()
			stopped = true
		})
		vsched.GoEnv("writer", func() {
			g.put(0, "c")
			g.put(1, "c")
		})
		if !vsched.RunUntil(func() bool { return stopped && g.cl.Closed() }, 30*sec) {
			vsched.Fail("not-closed", "the client is still open after Stop")
		}
		for p := int32(0); p < 2; p++ {
			w, got := g.want(p, 0), g.rec.got[p]
			if len(got) > len(w) || !sameOffs(w[:len(got)], got) {
				vsched.Fail("delivery", "partition %d: offsets %v are committed, %v were delivered", p, w, got)
			}
		}
		g.stop()
	})
	add("gcl-pause", "a partition is paused at any point and resumed at any offset, the other one goes on", 2, 3, func() {
		g := newGcl(2)
		g.put(0, "a", "b", "c")
		g.put(1, "a")
		g.open()
		off := pick(int64(0), 1, 3, 4, 5)
		early := pick(false, true)
		if early {
			g.log.Pause(0)
		}
		g.log.Start()
		done, resumed := false, 0
		vsched.GoEnv("pause", func() {
			if !early {
				g.log.Pause(0)
			}
			vtime.Sleep(time.Duration(7 * sec))
			n := len(g.rec.got[0])
			if early && n > 0 {
				vsched.Fail("paused", "partition 0 is paused since the start, %d of its records are delivered", n)
			}
			g.put(0, "d", "e")
			g.put(1, "b")
			vtime.Sleep(time.Duration(7 * sec))
			if len(g.rec.got[0]) != n {
				vsched.Fail("paused", "partition 0 is paused, its records are delivered: %v", g.rec.got[0])
			}
			if w := g.want(1, 0); !sameOffs(w, g.rec.got[1]) {
				vsched.Fail("delivery", "partition 1 is not paused: offsets %v are committed, %v were delivered", w, g.rec.got[1])
			}
			resumed = n
			g.log.ResumePartitionAt(0, off)
			g.put(0, "f")
			done = true
		})
		vsched.RunUntil(func() bool { return done }, 60*sec)
		g.tail(0, off, resumed)
		g.stop()
	})
	add("gcl-pause-all", "all partitions are paused at any point and resumed one after the other, while records arrive", 2, 3, func() {
		g := newGcl(3)
		for p := int32(0); p < 3; p++ {
			g.put(p, "a", "b")
		}
		g.open()
		off := [3]int64{pick(int64(0), 2), pick(int64(1), 3), pick(int64(2), 0)}
		g.log.Start()
		done := false
		resumed := [3]int{}
		vsched.GoEnv("pause", func() {
			g.log.PauseAllPartitions()
			vtime.Sleep(time.Duration(7 * sec))
			n := [3]int{}
			for p := range n {
				n[p] = len(g.rec.got[p])
				g.put(int32(p), "c")
			}
			vtime.Sleep(time.Duration(7 * sec))
			for p := range n {
				if len(g.rec.got[p]) != n[p] {
					vsched.Fail("paused", "all partitions are paused, records of partition %d are delivered: %v", p, g.rec.got[p])
				}
			}
			for _, p := range []int{1, 0} {
				resumed[p] = n[p]
				g.log.ResumePartitionAt(int32(p), off[p])
			}
			vtime.Sleep(time.Duration(7 * sec))
			if len(g.rec.got[2]) != n[2] {
				vsched.Fail("paused", "partition 2 is still paused, its records are delivered: %v", g.rec.got[2])
			}
			resumed[2] = n[2]
			g.log.ResumePartitionAt(2, off[2])
			done = true
		})
		vsched.RunUntil(func() bool { return done }, 60*sec)
		for p := int32(0); p < 3; p++ {
			g.tail(p, off[p], resumed[p])
		}
		g.stop()
	})
}
