//go:build go1.23

package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/aws/go-kafka-event-source/streams/zverif/vcontext"
	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
)

type bval struct {
	src, ev, n int
	key        string
}

func (v bval) String() string { return fmt.Sprintf("%s/%d.%d of source %d", v.key, v.ev, v.n, v.src) }

// batchSys is an AsyncBatcher with users and monitors. An event is a string such as "a:aab" (its key, the keys of its
// items); a trailing "-" means no callback.
type batchSys struct {
	max, conc int
	delay     time.Duration
	given     *time.Duration // what the batcher is given, if not delay
	late      time.Duration  // nothing waits longer than delay+late while an executor is free
	added     map[bval]int64
	freeAt    int64            // when an executor became free after all were busy
	keyFree   map[string]int64 // when a key was last executed
	src       [][]string
	compSize  int
	slow      time.Duration
	pause     bool
	b         *streams.AsyncBatcher[*Store, string, bval]
	o         vsched.Obj
	busy      map[string]bool
	running   int
	done      map[bval]int
	seq       map[string][]bval // per source and key: items in the order added
	pos       map[string]int
	evseq     map[string][]string // per source and key: events of that key in order
	evpos     map[string]int
	called    map[string]int
	completed map[string]int
	nev       int
	batches   []string
}

func (x *batchSys) start() {
	x.busy, x.done, x.seq, x.pos = map[string]bool{}, map[bval]int{}, map[string][]bval{}, map[string]int{}
	x.evseq, x.evpos, x.called, x.completed = map[string][]string{}, map[string]int{}, map[string]int{}, map[string]int{}
	if x.compSize == 0 {
		x.compSize = 4
	}
	x.added, x.keyFree = map[bval]int64{}, map[string]int64{}
	given := x.delay
	if x.given != nil {
		given = *x.given
	}
	x.b = streams.NewAsyncBatcher[*Store, string, bval](x.execute, x.max, x.conc, given)
	for i := range x.src {
		i := i
		x.nev += len(x.src[i])
		vsched.GoNamed(fmt.Sprintf("source%d", i), func() { x.source(i) })
	}
}

func (x *batchSys) source(i int) {
	c := newCompleter(fmt.Sprintf("completer%d", i), x.compSize, nil)
	for n, e := range x.src[i] {
		if x.pause && n > 0 {
			ds := []time.Duration{0, 4 * time.Millisecond, 15 * time.Millisecond}
			if x.late > 0 {
				ds = []time.Duration{0, x.delay / 2, x.delay * 5 / 4}
			}
			if d := ds[vsched.ChooseFree(3)]; d > 0 {
				sleep(d)
			}
		}
		key, items, _ := strings.Cut(e, ":")
		nocb := strings.HasSuffix(items, "-")
		items = strings.TrimSuffix(items, "-")
		id := fmt.Sprintf("%d/%d", i, n)
		ec := streams.MockEventContext[*Store](vcontext.Background(), streams.NewRecord().WithKeyString(key), "", nil, &evCompleter{x, c, id, len(items)}, nil)
		var vals []bval
		cb := func(ec2 *streams.EventContext[*Store], bi *streams.BatchItems[*Store, string, bval]) streams.ExecutionState {
			x.o.Write(21)
			vsched.Tracef("CALLBACK %s", id)
			x.called[id]++
			if x.called[id] > 1 {
				vsched.Fail("callback-twice", "the callback of event %s runs %d times", id, x.called[id])
			}
			if ec2 != ec || bi.Key() != key || len(bi.Items()) != len(vals) || bi.UserData != id {
				vsched.Fail("callback-wrong", "the callback of event %s gets another event: key %s, %d items, %v", id, bi.Key(), len(bi.Items()), bi.UserData)
			}
			for k, it := range bi.Items() {
				v := vals[k]
				if it.Value != v || it.Key() != v.key {
					vsched.Fail("item-changed", "item %d of event %s is %v under key %s, was %v", k, id, it.Value, it.Key(), v)
				}
				if x.done[v] != 1 {
					vsched.Fail("callback-early", "the callback of event %s runs but its item %v was executed %d times", id, v, x.done[v])
				}
				if it.UserData != v.String() || (it.Err == nil) == (v.n == 1) {
					vsched.Fail("result-lost", "item %v of event %s: result %v %v is not what the executor set", v, id, it.UserData, it.Err)
				}
			}
			// events whose items all have one key finish in the order of that key
			if single(items, key) {
				k := fmt.Sprint(i, key)
				if x.evseq[k][x.evpos[k]] != id {
					vsched.Fail("callback-order", "the callback of event %s of key %s runs before that of event %s", id, key, x.evseq[k][x.evpos[k]])
				}
				x.evpos[k]++
			}
			vsched.Point()
			return streams.Complete
		}
		if nocb {
			cb = nil
		}
		b := streams.NewBatchItems[*Store, string, bval](ec, key, cb)
		b.UserData = id
		for k := 0; k < len(items); k++ {
			v := bval{i, n, k, items[k : k+1]}
			vals = append(vals, v)
			sk := fmt.Sprint(i, v.key)
			x.seq[sk] = append(x.seq[sk], v)
			if v.key == key {
				b.Add(v)
			} else {
				b.AddWithKey(v.key, v)
			}
		}
		if single(items, key) && !nocb {
			k := fmt.Sprint(i, key)
			x.evseq[k] = append(x.evseq[k], id)
		}
		for _, v := range vals {
			x.added[v] = vsched.Now()
		}
		if st := x.b.Add(b); st != streams.Incomplete {
			vsched.Fail("add-state", "Add returns %v", st)
		}
	}
}

func single(items, key string) bool { return strings.Trim(items, key) == "" }

// evCompleter notes that the event was completed and passes it on.
type evCompleter struct {
	x  *batchSys
	c  *completer
	id string
	n  int
}

func (e *evCompleter) AsyncComplete(j streams.AsyncJob[*Store]) {
	e.x.o.Write(23)
	e.x.completed[e.id]++
	if e.x.completed[e.id] > 1 {
		vsched.Fail("completed-twice", "event %s is completed %d times", e.id, e.x.completed[e.id])
	}
	e.c.AsyncComplete(j)
}

func (x *batchSys) execute(items []*streams.BatchItem[string, bval]) {
	x.o.Write(24)
	var l []string
	for _, it := range items {
		l = append(l, it.Value.String())
	}
	vsched.Tracef("EXECUTE %v", l)
	x.batches = append(x.batches, strings.Join(l, ","))
	if len(items) == 0 {
		vsched.Fail("batch-empty", "the executor is called with no items")
	}
	if len(items) > x.max {
		vsched.Fail("batch-size", "a batch has %d items, the limit is %d", len(items), x.max)
	}
	x.running++
	if x.running > x.conc {
		vsched.Fail("batch-concurrency", "%d batches execute at once, the limit is %d", x.running, x.conc)
	}
	keys := map[string]bool{}
	for _, it := range items {
		v := it.Value
		if it.Key() != v.key {
			vsched.Fail("item-key", "item %v has key %s", v, it.Key())
		}
		if x.busy[v.key] {
			vsched.Fail("key-concurrent", "items of key %s are executed in two batches at once", v.key)
		}
		if t := max(x.added[v], x.freeAt, x.keyFree[v.key]); x.late > 0 && vsched.Now() > t+int64(x.delay+x.late) {
			vsched.Fail("item-late", "item %v is executed %v after it was added and both an executor and its key became free; the delay is %v", v, time.Duration(vsched.Now()-t), x.delay)
		}
		keys[v.key] = true
		sk := fmt.Sprint(v.src, v.key)
		if x.pos[sk] >= len(x.seq[sk]) || x.seq[sk][x.pos[sk]] != v {
			vsched.Fail("item-order", "item %v is executed out of order (or twice); number %d of %v was next", v, x.pos[sk], x.seq[sk])
		}
		x.pos[sk]++
	}
	for k := range keys {
		x.busy[k] = true
	}
	vsched.Point()
	if x.slow > 0 {
		sleep(x.slow)
	}
	x.o.Write(25)
	for _, it := range items {
		v := it.Value
		x.done[v]++
		it.UserData = v.String()
		if v.n == 1 {
			it.Err = errJob
		}
	}
	for k := range keys {
		x.busy[k] = false
		x.keyFree[k] = vsched.Now()
	}
	if x.running == x.conc {
		x.freeAt = vsched.Now()
	}
	x.running--
}

func (x *batchSys) finish() {
	if !vsched.RunUntil(func() bool { return len(x.completed) == x.nev }, 20*sec) {
		vsched.Fail("event-lost", "%d of %d events are completed; batches %v\n%s", len(x.completed), x.nev, x.batches, vsched.Describe())
	}
	vsched.Settle(sec)
	for i := range x.src {
		for n, e := range x.src[i] {
			if id := fmt.Sprintf("%d/%d", i, n); !strings.HasSuffix(e, "-") && x.called[id] != 1 {
				vsched.Fail("callback-missing", "the callback of event %s ran %d times", id, x.called[id])
			}
		}
	}
	vsched.Observe(vsched.HashString(strings.Join(x.batches, ";")))
}

func init() {
	add := func(name, doc string, q, d int, mk func() *batchSys) {
		addScenario(&Scenario{Name: name, Props: []string{"C12"}, Doc: doc, Quick: q, Deep: d, Fn: func() {
			x := mk()
			if x.delay == 0 && x.given == nil {
				x.delay = 5 * time.Millisecond
			}
			x.start()
			x.finish()
		}})
	}
	add("batch-basic", "two executors, batches of two, three keys", 3, 5, func() *batchSys {
		return &batchSys{max: 2, conc: 2, src: [][]string{{"a:a", "b:b", "a:aa", "c:c"}}}
	})
	add("batch-one", "one executor, batches of two, one key", 3, 5, func() *batchSys {
		return &batchSys{max: 2, conc: 1, src: [][]string{{"a:a", "a:aa", "a:a", "a:a"}}}
	})
	add("batch-single", "batches of one item", 3, 5, func() *batchSys {
		return &batchSys{max: 1, conc: 2, src: [][]string{{"a:aa", "b:b", "a:a", "c:c"}}}
	})
	add("batch-mixed-keys", "events with items of several keys", 3, 5, func() *batchSys {
		return &batchSys{max: 2, conc: 2, src: [][]string{{"a:abc", "b:ba", "c:c"}}}
	})
	add("batch-empty-events", "events without items among others of the same key", 3, 5, func() *batchSys {
		return &batchSys{max: 3, conc: 2, src: [][]string{{"a:", "a:a", "b:", "a:", "a:a"}}}
	})
	add("batch-empty-first", "an event without items queues behind a running batch of its key", 3, 5, func() *batchSys {
		return &batchSys{max: 2, conc: 1, src: [][]string{{"a:aa", "a:", "b:", "a:a"}}}
	})
	add("batch-two-partitions", "two partitions use one batcher with common keys", 3, 4, func() *batchSys {
		return &batchSys{max: 2, conc: 2, src: [][]string{{"a:a", "b:b", "a:a"}, {"a:aa", "c:c"}}}
	})
	add("batch-slow", "executors slower than the flush delay", 2, 3, func() *batchSys {
		return &batchSys{max: 3, conc: 2, pause: true, slow: 8 * time.Millisecond, src: [][]string{{"a:a", "b:b", "a:a", "c:cc", "b:b"}}}
	})
	add("batch-arrivals", "events arriving before, while and after batches run", 2, 3, func() *batchSys {
		return &batchSys{max: 2, conc: 2, pause: true, slow: 6 * time.Millisecond, src: [][]string{{"a:a", "b:b", "a:a", "a:b"}}}
	})
	add("batch-no-callback", "events without callback", 3, 5, func() *batchSys {
		return &batchSys{max: 2, conc: 1, src: [][]string{{"a:a-", "b:-", "a:aa-"}}}
	})
	add("batch-backpressure", "a partition that accepts one completion at a time", 3, 5, func() *batchSys {
		return &batchSys{max: 3, conc: 1, compSize: 1, src: [][]string{{"a:a", "b:b", "c:c", "d:d"}}}
	})
	for _, d := range []struct {
		name        string
		given, want time.Duration
	}{{"batch-delay", time.Second, time.Second}, {"batch-delay-negative", -time.Second, time.Second}, {"batch-delay-default", 0, 5 * time.Millisecond}} {
		d := d
		add(d.name, "items wait no longer than the delay while an executor is free, whatever arrives when and however slow the executors are", 2, 3, func() *batchSys {
			return &batchSys{max: pick(3, 2), conc: pick(1, 2), pause: true, slow: pick(0, d.want/3, d.want*3), given: &d.given, delay: d.want, late: d.want/4 + 60*time.Millisecond,
				src: [][]string{{"a:a", "b:b", "a:b", "c:c"}}}
		})
	}
}
