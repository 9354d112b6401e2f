//go:build go1.23

package main

import (
	"errors"
	"fmt"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/aws/go-kafka-event-source/streams/zverif/vkafka"
	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
	"github.com/twmb/franz-go/pkg/kgo"
)

// typed is what the decoders of the test application make of a record.
type typed struct {
	r    streams.IncomingRecord
	from string
}

// router is an application with several registered types.
type router struct {
	types  map[string]string // event "p/off" -> record type
	asked  map[string]int    // deserialization errors reported per process and event
	failed map[int]int
	answer streams.ErrorResponse
	bad    func(in *Inst, typ string) bool
	errs   map[string]error
}

func newRouter() *router {
	return &router{types: map[string]string{}, asked: map[string]int{}, failed: map[int]int{}, errs: map[string]error{}}
}

func pk(p int32, off int64) string { return fmt.Sprintf("%d/%d", p, off) }

// put appends an event with a record type ("-": no type header).
func (x *router) put(w *World, p int32, typ, script string) {
	e := &Ev{P: p, Off: int64(len(w.In[p])), Key: fmt.Sprintf("k%d", len(w.In[p])%2), Script: script}
	w.In[p] = append(w.In[p], e)
	x.types[pk(p, e.Off)] = typ
	if typ == "-" {
		w.C.Put(inT, p, e.Key, script)
	} else {
		w.C.Put(inT, p, e.Key, script, kgo.RecordHeader{Key: "x", Value: []byte("A")}, kgo.RecordHeader{Key: streams.RecordTypeHeaderKey, Value: []byte(typ)})
	}
}

// register: A and B have handlers, A a second one, which must never be used.
func (x *router) register(w *World, in *Inst, es *ES) {
	reg := func(typ, tag string) {
		streams.RegisterEventType(es, func(r streams.IncomingRecord) (typed, error) {
			if tag == "A2" {
				vsched.Fail("routing", "a record of type %q is decoded by the second handler of type A", r.RecordType())
			}
			if x.bad != nil && x.bad(in, r.RecordType()) {
				err := errors.New("cannot decode")
				x.errs[key(in.ID, r.TopicPartition().Partition, r.Offset())] = err
				return typed{}, err
			}
			return typed{r, tag}, nil
		}, func(ec *EC, v typed) streams.ExecutionState {
			if v.from != tag {
				vsched.Fail("routing", "the handler of %s got what the decoder of %s made", tag, v.from)
			}
			return x.handled(w, in, ec, v.r, tag)
		}, typ)
	}
	reg("A", "A")
	reg("B", "B")
	reg("A", "A2")
	reg("bad", "bad")
}

func (x *router) handled(w *World, in *Inst, ec *EC, r streams.IncomingRecord, tag string) streams.ExecutionState {
	typ := x.types[pk(r.TopicPartition().Partition, r.Offset())]
	want := map[string]string{"A": "A", "B": "B", "bad": "bad"}[typ]
	if tag != want {
		vsched.Fail("routing", "a record of type %q is handled by the handler %q, want %q", typ, tag, want)
	}
	if typ == "-" {
		typ = ""
	}
	if r.RecordType() != typ {
		vsched.Fail("routing", "a record of type %q has RecordType %q", typ, r.RecordType())
	}
	return in.handle(ec, r)
}

func (x *router) deserr(w *World, in *Inst) streams.DeserializationErrorHandler {
	return func(ec streams.ErrorContext, typ string, err error) streams.ErrorResponse {
		p, off := ec.TopicPartition().Partition, ec.Offset()
		w.enter(in, p, fmt.Sprintf("deserialization error handler of event %d/%d in inst%d", p, off, in.ID))
		vsched.Tracef("LIFECYCLE inst%d deserialization error %d/%d", in.ID, p, off)
		k := key(in.ID, p, off)
		x.asked[k]++
		x.failed[in.ID]++
		if x.asked[k] > 1 {
			vsched.Fail("deser-twice", "the deserialization error of event %d/%d is reported twice", p, off)
		}
		if want := x.types[pk(p, off)]; typ != want || err == nil || err != x.errs[k] || ec.TopicPartition().Topic != inT {
			vsched.Fail("deser-content", "deserialization error of event %d/%d of type %q reported as type %q, error %v", p, off, want, typ, err)
		}
		if r, ok := ec.Input(); !ok || r.Offset() != off {
			vsched.Fail("deser-content", "deserialization error of event %d/%d without its input", p, off)
		}
		in.next[p] = off + 1
		if x.answer == streams.Continue {
			w.completed(in, p, off)
		}
		w.leave(p)
		return x.answer
	}
}

func (x *router) opt(o Opt, txnHandler, own bool) Opt {
	o.Conf = func(w *World, in *Inst, c *streams.EventSourceConfig) {
		coop(w, in, c)
		if own {
			c.DeserializationErrorHandler = x.deserr(w, in)
		}
		if txnHandler {
			c.TxnErrorHandler = streams.DefaultTxnErrorHandler
		}
	}
	o.Init = func(w *World, in *Inst, es *ES) {
		x.register(w, in, es)
		streams.RegisterDefaultHandler(es, func(ec *EC, r streams.IncomingRecord) streams.ExecutionState {
			return x.handled(w, in, ec, r, "")
		}, "")
	}
	return o
}

func init() {
	rt := []string{"C23"}
	addScenario(&Scenario{Name: "routing", Props: rt, Doc: "records of registered, unknown and missing types", Quick: 1, Deep: 2, Fn: func() {
		x := newRouter()
		w := newWorld(x.opt(Opt{Parts: 2, Target: 2, Max: 3}, false, true))
		for i, typ := range []string{"A", "B", "-", "C", "a", "AB", "A"} {
			x.put(w, int32(i%2), typ, "f")
		}
		a := w.start()
		w.assignNoWait(a, w.all()...)
		w.finish(60 * sec)
	}})
	for i := 0; i < 4; i++ {
		txn, own := i&1 == 1, i&2 == 2
		name := fmt.Sprintf("deser-continue-%d", i)
		addScenario(&Scenario{Name: name, Props: rt, Doc: fmt.Sprintf("records that cannot be decoded are skipped (own handler %v, TxnErrorHandler set %v)", own, txn), Quick: 1, Deep: 2, Fn: func() {
			x := newRouter()
			x.answer = streams.Continue
			var w *World
			x.bad = func(in *Inst, typ string) bool {
				return typ == "bad"
			}
			o := x.opt(Opt{Target: 2, Max: 3}, txn, own)
			w = newWorld(o)
			w.NoSkipCheck = !own
			x.put(w, 0, "A", "sf")
			x.put(w, 0, "bad", "")
			x.put(w, 0, "B", "f")
			x.put(w, 0, "bad", "")
			a := w.start()
			if !own { // the default handler skips the record: nobody tells us
				for _, e := range w.In[0] {
					if x.types[pk(0, e.Off)] == "bad" {
						w.completed(a, 0, e.Off)
					}
				}
			}
			w.assignNoWait(a, 0)
			w.finish(60 * sec)
			if own && x.failed[a.ID] != 2 {
				vsched.Fail("deser-unreported", "%d of 2 deserialization errors are reported", x.failed[a.ID])
			}
		}})
	}
	for i := 0; i < 3; i++ {
		exit, late := i == 1, i == 2
		name := []string{"deser-fail", "deser-exit", "deser-fail-slow-log"}[i]
		addScenario(&Scenario{Name: name, Props: append([]string{"C15"}, rt...), Doc: []string{
			"a record that cannot be decoded makes the consumer fail, another process takes over",
			"a record that cannot be decoded makes the process exit, another process takes over",
			"a record that cannot be decoded makes the consumer fail, while errors take long to be logged"}[i], Quick: 1, Deep: 2, Fn: func() {
			if late {
				slow = true
			}
			x := newRouter()
			x.answer = streams.FailConsumer
			if exit {
				x.answer = streams.FatallyExit
			}
			x.bad = func(in *Inst, typ string) bool { return typ == "bad" && in.ID == 1 }
			w := newWorld(x.opt(Opt{Target: 2, Max: 3, AllowConcurrent: true, Async: true}, false, true))
			x.put(w, 0, "A", "f")
			x.put(w, 0, "bad", "f")
			x.put(w, 0, "A", "f")
			a, b := w.start(), w.start()
			done := a.watchDone(1)
			gone := false
			w.G.OnLeave = func(c *vkafka.Client) {
				if c == a.M {
					gone = true
					w.assignNoWait(b, 0)
				}
			}
			vsched.OnPanic(func(g int, v any) bool {
				if !exit || g != a.ID || x.failed[g] == 0 {
					return false
				}
				w.died(a)
				vkafka.CrashClients(g)
				return true
			})
			w.assignNoWait(a, 0)
			if !vsched.RunUntil(func() bool { return gone || a.dead }, 10*sec) {
				vsched.Fail("deser-ignored", "the handler of the deserialization error answered %v but the consumer goes on (errors reported: %d)\n%s", x.answer, x.failed[1], vsched.Describe())
			}
			if exit {
				if !a.dead {
					vsched.Fail("no-exit", "the handler of the deserialization error asked for a fatal exit but the process did not panic")
				}
				vsched.SetQuiet(true)
				sleep(time.Second)
				w.assignNoWait(b, 0)
			} else {
				if a.ES.State() != streams.Unhealthy {
					vsched.Fail("state", "an event source which failed is in state %v", a.ES.State())
				}
				w.ended(a, done, 1, 60*sec)
			}
			w.finish(120 * sec)
			if w.complete[key(a.ID, 0, 1)] {
				vsched.Fail("deser-handled", "an event that could not be decoded was handled")
			}
		}})
	}
}
