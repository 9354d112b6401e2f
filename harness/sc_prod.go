//go:build go1.23

package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/aws/go-kafka-event-source/streams/zverif/vkafka"
	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
	"github.com/twmb/franz-go/pkg/kgo"
)

const sideT = "side"

// bp is an application that sends records outside of its transactions.
type bp struct {
	prods  map[int]*streams.BatchProducer[*Store]
	called map[string]int
	mine   map[*vkafka.Client]bool // its clients
}

// side counts the records of the side topic.
func (w *World) side() map[string]int {
	m := map[string]int{}
	for _, t := range []string{sideT, sideT + "2"} {
		if w.C.Topics[t] == nil {
			continue
		}
		for p := range w.C.Topics[t].Parts {
			for _, e := range w.C.Part(t, int32(p)).Log {
				m[t+" "+string(e.Value)]++
			}
		}
	}
	return m
}

// handle: the script "Pn" sends n records and completes in the callback, which forwards one output; "Q" uses the other topic;
// "I" completes another time from the callback.
func (b *bp) handle(w *World, in *Inst, ec *EC, e *Ev) (streams.ExecutionState, bool) {
	if e.Script[0] != 'P' {
		return 0, false
	}
	var recs []*streams.Record
	names := map[*streams.Record]string{}
	n := int(e.Script[1] - '0')
	for i := 0; i < n; i++ {
		v := fmt.Sprintf("%d:%s", in.ID, id(e.P, e.Off, i))
		r := streams.NewRecord().WithKeyString(e.Key).WithValue([]byte(v))
		if r.Error() != nil {
			vsched.Fail("record-blank", "a new record has the error %v", r.Error())
		}
		topic := sideT
		if strings.Contains(e.Script, "Q") && i == 0 {
			topic = sideT + "2"
			r = r.WithTopic(topic)
		}
		names[r] = topic + " " + v
		recs = append(recs, r)
	}
	k := key(in.ID, e.P, e.Off)
	ud := &k
	return b.prods[in.ID].Produce(ec, recs, func(ec2 *EC, out []*streams.Record, u any) streams.ExecutionState {
		w.enter(in, e.P, fmt.Sprintf("batch callback of event %d/%d in inst%d", e.P, e.Off, in.ID))
		b.called[k]++
		if b.called[k] > 1 {
			vsched.Fail("callback-twice", "the callback of event %d/%d is called twice", e.P, e.Off)
		}
		if ec2 != ec || u != ud || len(out) != n {
			vsched.Fail("callback-args", "the callback of event %d/%d is called for another event, other records or other data", e.P, e.Off)
		}
		there := w.side()
		for i, r := range out {
			if r != recs[i] {
				vsched.Fail("callback-args", "the callback of event %d/%d gets other records", e.P, e.Off)
			}
			switch c := there[names[r]]; {
			case r.Error() == nil && c != 1:
				vsched.Fail("record-unsent", "record %q is reported as produced but is there %d times", names[r], c)
			case r.Error() != nil && c != 0:
				vsched.Fail("record-error", "record %q is reported as failed (%v) but it is there", names[r], r.Error())
			}
		}
		in.forward(ec, e.P, e.Off, 0, e.Key, false)
		w.completed(in, e.P, e.Off)
		w.leave(e.P)
		return streams.Complete
	}, ud), true
}

func init() {
	ba := []string{"C16"}
	add := func(name, doc string, q, d int, o Opt, in func(w *World), drive func(w *World, a *Inst)) {
		addScenario(&Scenario{Name: name, Props: ba, Doc: doc, Quick: q, Deep: d, Fn: func() {
			b := &bp{prods: map[int]*streams.BatchProducer[*Store]{}, called: map[string]int{}, mine: map[*vkafka.Client]bool{}}
			o := o
			o.Async = true
			o.Handler = b.handle
			o.Init = func(w *World, in *Inst, es *ES) {
				n := len(vkafka.Clients())
				b.prods[in.ID] = streams.NewBatchProducer[*Store](streams.Destination{DefaultTopic: sideT, Cluster: streams.SimpleCluster{seed}})
				for _, c := range vkafka.Clients()[n:] {
					b.mine[c] = true
				}
			}
			w := newWorld(o)
			w.C.FaultWho = func(c *vkafka.Client) bool { return b.mine[c] }
			w.C.CreateTopic(sideT, 2, 1, nil)
			w.C.CreateTopic(sideT+"2", 1, 1, nil)
			w.outsOf = func(e *Ev) int {
				if e.Script[0] == 'P' {
					return 1
				}
				return e.outs()
			}
			in(w)
			faults := w.C.FaultRecord+w.C.FaultProduce > 0
			check := w.C.OnTxnEnd
			w.C.OnTxnEnd = func(t *vkafka.Txn, ok bool) {
				check(t, ok)
				if ok && !faults {
					there := map[string]bool{}
					for k := range w.side() {
						there[k[strings.Index(k, ":")+1:]] = true
					}
					for p, v := range w.wm {
						for _, e := range w.In[p] {
							for i := 0; e.Off < v && e.Script[0] == 'P' && i < int(e.Script[1]-'0'); i++ {
								if !there[id(e.P, e.Off, i)] {
									vsched.Fail("side-lost", "event %d/%d is committed but its record %d was not produced", e.P, e.Off, i)
								}
							}
						}
					}
				}
			}
			a := w.start()
			w.assignNoWait(a, w.all()...)
			drive(w, a)
		}})
	}
	done := func(w *World, a *Inst) {
		w.finish(60 * sec)
	}
	add("batch-producer", "batches of records of several events in flight", 1, 2, Opt{Parts: 2, Target: 2, Max: 3},
		func(w *World) { w.put(0, "P2", "f", "P2Q"); w.put(1, "P1") }, done)
	add("batch-producer-none", "an event with an empty batch", 1, 2, Opt{},
		func(w *World) { w.put(0, "P0", "P1", "P0") }, done)
	add("batch-producer-fail", "a record or a batch is rejected", 1, 2, Opt{Target: 2, Max: 3},
		func(w *World) {
			w.put(0, "P3Q", "P1")
			w.C.FaultRecord, w.C.FaultProduce = 1, 1
		}, func(w *World, a *Inst) {
			w.finish(60 * sec)
			w.put(0, "P3") // of records used before
			w.finish(60 * sec)
		})
	add("batch-producer-crash", "the process crashes, another one sends what is missing", 1, 2, Opt{},
		func(w *World) { w.put(0, "P2", "P1", "P2") }, func(w *World, a *Inst) {
			ch := make(chan struct{})
			w.later("crash", func() {
				w.crash(a)
				vsched.Close(ch)
			})
			vsched.Recv(ch)
			vsched.SetQuiet(true)
			b := w.start()
			w.assignNoWait(b, w.all()...)
			w.finish(120 * sec)
		})
	add("batch-producer-revoke", "the partition is revoked while batches are in flight", 1, 2, Opt{},
		func(w *World) { w.put(0, "P2", "P1") }, func(w *World, a *Inst) {
			ch := make(chan struct{})
			w.later("rebalance", func() {
				w.revoke(a, 0)
				vsched.Close(ch)
			}, 0, 12*ms)
			vsched.Recv(ch)
			w.handledCommitted(20 * sec)
			vsched.SetQuiet(true)
			w.assignNoWait(a, 0)
			w.finish(60 * sec)
		})

	// the plain producer
	for _, faulty := range []bool{false, true} {
		faulty := faulty
		name := map[bool]string{false: "producer", true: "producer-fail"}[faulty]
		addScenario(&Scenario{Name: name, Props: ba, Doc: "two goroutines share a Producer, blocking and asynchronous calls", Quick: 2, Deep: 3, Fn: func() {
			c := vkafka.Get(seed)
			c.CreateTopic(sideT, 2, 1, nil)
			c.CreateTopic(sideT+"2", 1, 1, nil)
			if faulty {
				c.FaultRecord = 1
			}
			w := &World{C: c}
			p := streams.NewProducer(streams.Destination{DefaultTopic: sideT, Cluster: streams.SimpleCluster{seed}})
			calls := map[string]int{}
			errs := map[string]error{}
			var o vsched.Obj
			n := 0
			for g := 0; g < 2; g++ {
				g := g
				vsched.GoNamed("caller", func() {
					for i := 0; i < 2; i++ {
						v := fmt.Sprintf("%d:%d", g, i)
						topic := sideT
						r := streams.NewRecord().WithKeyString("k").WithValue([]byte(v))
						if i == 1 && g == 1 {
							topic = sideT + "2"
							r = r.WithTopic(topic)
						}
						if g == 0 {
							err := p.Produce(context.Background(), r)
							if c := w.side()[topic+" "+v]; (err == nil) != (c == 1) {
								vsched.Fail("produce-result", "Produce of %q returned %v, the record is there %d times", v, err, c)
							}
						} else {
							p.ProduceAsync(context.Background(), r, func(r2 *streams.Record, err error) {
								o.Write(1)
								calls[v]++
								errs[v] = err
								if r2 != r || calls[v] > 1 {
									vsched.Fail("callback", "the callback of %q is called %d times or for another record", v, calls[v])
								}
								if c := w.side()[topic+" "+v]; (err == nil) != (c == 1) {
									vsched.Fail("produce-result", "ProduceAsync of %q reported %v, the record is there %d times", v, err, c)
								}
								n++
							})
							o.Write(2)
							n++
						}
					}
					o.Write(3)
					n += 2
				})
			}
			if !vsched.RunUntil(func() bool { return n == 8 }, 10*sec) {
				vsched.Fail("no-answer", "not all callers of the Producer got an answer: %d of 8\n%s", n, vsched.Describe())
			}
			last := map[byte]string{}
			for _, e := range c.Part(sideT, int32(murmur2Part("k", 2))).Log {
				v := string(e.Value)
				if v < last[v[0]] {
					vsched.Fail("producer-order", "record %q of a goroutine comes after %q", v, last[v[0]])
				}
				last[v[0]] = v
				if string(e.Key) != "k" {
					vsched.Fail("producer-key", "record %q has the key %q", v, e.Key)
				}
			}
			total := 0
			for _, c := range w.side() {
				total += c
			}
			if !faulty && total != 4 {
				vsched.Fail("producer-lost", "%d records were produced, 4 expected", total)
			}
			p.Close()
		}})
	}
	addScenario(&Scenario{Name: "producer-again", Props: []string{"C16", "C17"}, Doc: "a record is sent, changed by nobody, and sent again", Quick: 1, Deep: 3, Fn: func() {
		c := vkafka.Get(seed)
		c.CreateTopic(sideT, 1, 1, nil)
		c.FaultRecord = pick(0, 1)
		p := streams.NewProducer(streams.Destination{DefaultTopic: sideT, Cluster: streams.SimpleCluster{seed}})
		typ := pick("", "T")
		r := streams.NewRecord().WithKeyString("k").WithValue([]byte("v")).WithRecordType(typ).WithHeader("h", []byte("1"))
		n := 0
		for i := 0; i < 3; i++ {
			if p.Produce(context.Background(), r) == nil {
				n++
			}
		}
		log := c.Part(sideT, 0).Log
		if len(log) != n || n < 2 {
			vsched.Fail("produce-result", "%d of 3 calls succeeded, %d records are there", n, len(log))
		}
		want := []kgo.RecordHeader{{Key: "h", Value: []byte("1")}}
		if typ != "" {
			want = append(want, kgo.RecordHeader{Key: streams.RecordTypeHeaderKey, Value: []byte(typ)})
		}
		for _, e := range log {
			if string(e.Key) != "k" || string(e.Value) != "v" || !headersEqual(e.Headers, want) {
				vsched.Fail("record-content", "a record that was sent before arrives as %q=%q %v", e.Key, e.Value, e.Headers)
			}
		}
		p.Close()
	}})
}

func murmur2Part(k string, n int) int { return int(uint32(murmur2([]byte(k)))&0x7fffffff) % n }
