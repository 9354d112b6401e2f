//go:build go1.23

package main

import (
	"bytes"
	"fmt"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/aws/go-kafka-event-source/streams/sak"
	"github.com/aws/go-kafka-event-source/streams/zverif/vkafka"
	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
	"github.com/twmb/franz-go/pkg/kgo"
)

const recT = "recs"

// want describes a record the application forwarded.
type want struct {
	key, value string
	nilValue   bool
	part       int32 // -1: by key
	typ        string
	headers    []kgo.RecordHeader
	from, to   int64
}

func hdr(k, v string) kgo.RecordHeader { return kgo.RecordHeader{Key: k, Value: []byte(v)} }

// variants are the shapes of records that are forwarded for an event.
func variants(p int32, off int64) []want {
	n := fmt.Sprintf("%d.%d", p, off)
	return []want{
		{key: "long key " + n, value: "long value, longer than any other " + n, part: 1, typ: "type-" + n, headers: []kgo.RecordHeader{hdr("a", n), hdr("b", "")}},
		{key: "", value: n, part: 0},
		{key: "k" + n, nilValue: true, part: -1, headers: []kgo.RecordHeader{hdr("a", "x")}},
		{key: "j" + n, value: "v", part: -1, typ: "t"},
	}
}

func (x want) allHeaders() []kgo.RecordHeader {
	h := x.headers
	if x.typ != "" {
		h = append(h[:len(h):len(h)], hdr(streams.RecordTypeHeaderKey, x.typ))
	}
	return h
}

func (x want) record() *streams.Record {
	r := streams.NewRecord().WithTopic(recT)
	if tp := r.TopicPartition(); tp.Partition != streams.AutoAssign || r.KeyWriter().Len() > 0 || r.ValueWriter().Len() > 0 || r.Error() != nil {
		vsched.Fail("record-dirty", "a new record is not blank: %v %q=%q", tp, r.KeyWriter(), r.ValueWriter())
	}
	if x.part >= 0 {
		r.WithPartition(x.part)
	}
	r.WriteKeyString(x.key)
	if !x.nilValue {
		r.WriteValueString(x.value)
	}
	for _, h := range x.headers {
		r.WithHeader(h.Key, h.Value)
	}
	if x.typ != "" {
		r.WithRecordType(x.typ)
	}
	return r
}

func (x want) is(e *vkafka.Entry, part int32, parts int) string {
	p := x.part
	if p < 0 {
		p = int32(uint32(murmur2([]byte(x.key)))&0x7fffffff) % int32(parts)
	}
	switch {
	case string(e.Key) != x.key || string(e.Value) != x.value:
		return fmt.Sprintf("is %q=%q, want %q=%q", e.Key, e.Value, x.key, x.value)
	case x.nilValue && e.Value != nil:
		return "is not a deletion: the value is not nil"
	case p != part:
		return fmt.Sprintf("is in partition %d, want %d", part, p)
	case !headersEqual(e.Headers, x.allHeaders()):
		return fmt.Sprintf("has headers %v, want %v", e.Headers, x.allHeaders())
	case vnanos(e.Time) < x.from || vnanos(e.Time) > x.to:
		return fmt.Sprintf("has timestamp %v, forwarded between %v and %v", e.Time, time.Duration(x.from), time.Duration(x.to))
	}
	return ""
}

func vnanos(t time.Time) int64 {
	return t.UnixNano() - time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC).UnixNano()
}

func init() {
	addScenario(&Scenario{Name: "records", Props: []string{"C17"}, Doc: "records of all shapes through handler, pool, producers and broker", Quick: 1, Deep: 2, Fn: func() {
		var w *World
		all := map[string]want{} // by key and value
		check := func(final bool) {
			n := 0
			for p := int32(0); p < 2; p++ {
				for _, e := range w.C.Part(recT, p).Committed() {
					n++
					x, ok := all[string(e.Key)+"="+string(e.Value)]
					if !ok {
						vsched.Fail("record-unknown", "a record that was never forwarded: %q=%q", e.Key, e.Value)
					}
					if d := x.is(e, p, 2); d != "" {
						vsched.Fail("record-content", "the record %q %s", x.key, d)
					}
				}
			}
			if final && n != len(all) {
				vsched.Fail("record-missing", "%d records arrived, %d were forwarded", n, len(all))
			}
		}
		w = newWorld(Opt{Parts: 2, Pool: 2, Target: 1, Max: 2, Handler: func(w *World, in *Inst, ec *EC, e *Ev) (streams.ExecutionState, bool) {
			r, ok := ec.Input()
			ent := w.C.Part(inT, e.P).Log[e.Off]
			if !ok || !headersEqual(r.Headers(), ent.Headers) || !r.Timestamp().Equal(ent.Time) || r.TopicPartition() != ec.TopicPartition() || r.Offset() != e.Off {
				vsched.Fail("input-content", "event %d/%d arrives with headers %v at %v, was %v at %v", e.P, e.Off, r.Headers(), r.Timestamp(), ent.Headers, ent.Time)
			}
			typ := ""
			for _, h := range ent.Headers {
				if !bytes.Equal(r.HeaderValue(h.Key), h.Value) {
					vsched.Fail("input-content", "event %d/%d: header %s is %q", e.P, e.Off, h.Key, r.HeaderValue(h.Key))
				}
				if h.Key == streams.RecordTypeHeaderKey {
					typ = string(h.Value)
				}
			}
			if r.RecordType() != typ || r.HeaderValue("none") != nil {
				vsched.Fail("input-content", "event %d/%d: type %q, want %q", e.P, e.Off, r.RecordType(), typ)
			}
			vs := variants(e.P, e.Off)
			var rs []*streams.Record
			from := vsched.Now()
			for _, x := range vs {
				rs = append(rs, x.record())
			}
			for i, x := range vs {
				x.from, x.to = from, from+10*ms // early timers do not move the clock further
				all[x.key+"="+x.value] = x
				_ = i
			}
			ec.Forward(rs...)
			return streams.Complete, true
		}})
		w.C.CreateTopic(recT, 2, 1, nil)
		put := func(p int32, h ...kgo.RecordHeader) {
			w.In[p] = append(w.In[p], &Ev{P: p, Off: int64(len(w.In[p])), Key: "k", Script: "x"})
			w.C.Put(inT, p, "k", "x", h...)
		}
		put(0, hdr("a", "1"), hdr(streams.RecordTypeHeaderKey, "T1"))
		put(0)
		put(1, hdr(streams.RecordTypeHeaderKey, "T2"), hdr("z", ""))
		a := w.start()
		w.assignNoWait(a, w.all()...)
		put(1, hdr("q", "r"))
		w.finish(60 * sec)
		check(true)
	}})
	addScenario(&Scenario{Name: "pool-shared", Props: []string{"C20"}, Doc: "goroutines borrow from and release to a pool of two", Quick: 3, Deep: 6, Fn: func() {
		type obj struct{ busy, made, resets int }
		made := 0
		var o vsched.Obj
		p := sak.NewPool(2, func() *obj { o.Write(1); made++; return &obj{made: made} }, func(x *obj) *obj { x.resets++; return x })
		done := make(chan struct{}, 3)
		for i := 0; i < 3; i++ {
			vsched.GoNamed(fmt.Sprint("user", i), func() {
				for k := 0; k < 2; k++ {
					x := p.Borrow()
					if x == nil {
						vsched.Fail("pool-nil", "Borrow returns nothing")
					}
					if x.busy++; x.busy > 1 {
						vsched.Fail("pool-shared", "object %d is borrowed by two", x.made)
					}
					vsched.Point()
					o.Write(2)
					x.busy--
					n := x.resets
					p.Release(x)
					if n < 0 {
						vsched.Fail("pool", "")
					}
				}
				vsched.To(done).Send(struct{}{})
			})
		}
		for i := 0; i < 3; i++ {
			vsched.Recv(done)
		}
		a, b, c := p.Borrow(), p.Borrow(), p.Borrow()
		if a == b || b == c || a == c {
			vsched.Fail("pool-twice", "one object is in the pool twice")
		}
	}})
}
