//go:build go1.23

package main

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/aws/go-kafka-event-source/streams/sak"
	"github.com/aws/go-kafka-event-source/streams/stores"
)

// kv is an item of a store.
type kv struct {
	K string
	V int
}

func (x kv) Key() string { return x.K }

type kvCodec struct{}

var errCodec = errors.New("cannot decode")

func (kvCodec) Encode(b *bytes.Buffer, x kv) error {
	fmt.Fprintf(b, "%s=%d", x.K, x.V)
	return nil
}

func (kvCodec) Decode(b []byte) (x kv, err error) {
	i := bytes.IndexByte(b, '=')
	if i < 0 {
		return kv{K: "a", V: 99}, errCodec
	}
	x.K = string(b[:i])
	_, err = fmt.Sscan(string(b[i+1:]), &x.V)
	return
}

// a change as the broker hands it back
type chg struct{ key, value string }

func (g chg) in() streams.IncomingRecord {
	return streams.NewRecord().WithKeyString(g.key).WithValue([]byte(g.value)).AsIncomingRecord()
}

func init() {
	tp := streams.TopicPartition{Topic: "in", Partition: 3}
	names := []string{"a", "b", ""}
	addEnum(&Enum{Name: "simple-store", Props: []string{"C19"}, Doc: "all operation sequences on a SimpleStore, its change log replayed into another one", Fn: func(c *EnumCtx) {
		depth := 6
		if !c.Quick() {
			depth = 7
		}
		c.Bound = fmt.Sprintf("all sequences of %d operations over 3 keys (one empty) and 2 values, both codecs, the log replayed up to every point", depth)
		type op struct {
			kind string
			x    kv
		}
		var ops []op
		for _, k := range names {
			for v := 0; v < 2; v++ {
				ops = append(ops, op{"put", kv{k, v}})
			}
			ops = append(ops, op{"delete", kv{k, 0}})
		}
		ops = append(ops, op{"get", kv{}}, op{"bad", kv{}}, op{"revoke", kv{}})
		for json := 0; json < 2; json++ {
			mk := func() *stores.SimpleStore[kv] {
				if json == 1 {
					return stores.NewJsonSimpleStore[kv](tp)
				}
				return stores.NewSimpleStore[kv](tp, kvCodec{})
			}
			same := func(s *stores.SimpleStore[kv], m map[string]kv) string {
				for _, k := range names {
					v, ok := s.Get(k)
					w, has := m[k]
					if ok != has || v != w {
						return fmt.Sprintf("Get(%q) is %v %v, want %v %v", k, v, ok, w, has)
					}
				}
				return ""
			}
			run := func(seq []op) bool {
				defer func() {
					if e := recover(); e != nil {
						c.Fail("simple-store:panic", "%v: %v", seq, e)
					}
				}()
				s, m, b, r := mk(), map[string]kv{}, mk(), map[string]kv{}
				var log []chg
				bad := func(f string, a ...any) bool {
					c.Fail("simple-store", "json %d, %v: %s", json, seq, fmt.Sprintf(f, a...))
					return false
				}
				entry := func(e streams.ChangeLogEntry) chg {
					return chg{e.KeyWriter().String(), e.ValueWriter().String()}
				}
				for n, o := range seq {
					c.Trans++
					switch o.kind {
					case "put":
						g := entry(s.Put(o.x))
						m[o.x.K] = o.x
						if g.key != o.x.K || g.value == "" {
							return bad("Put returns the change %+v", g)
						}
						log = append(log, g)
					case "delete":
						e, ok := s.Delete(o.x)
						if _, had := m[o.x.K]; had != ok {
							return bad("Delete of %q returns %v", o.x.K, ok)
						}
						delete(m, o.x.K)
						if ok {
							g := entry(e)
							if g.key != o.x.K || g.value != "" {
								return bad("Delete returns the change %+v", g)
							}
							log = append(log, g)
						}
					case "bad":
						if err := b.ReceiveChange((chg{"a", "?"}).in()); err == nil {
							return bad("a change that cannot be decoded is accepted")
						}
					case "revoke":
						if n == len(seq)-1 { // nothing else may follow
							s.Revoked()
							b.Revoked()
						}
						continue
					}
					for _, g := range log { // the replica keeps up
						if err := b.ReceiveChange(g.in()); err != nil {
							return bad("ReceiveChange of %+v: %v", g, err)
						}
					}
					if len(log) > 0 {
						r = map[string]kv{}
						for k, v := range m {
							r[k] = v
						}
						log = log[:0]
					}
					if d := same(s, m); d != "" {
						return bad("after %v: %s", o, d)
					}
					if d := same(b, r); d != "" {
						return bad("in the store that received the changes, after %v: %s", o, d)
					}
				}
				return true
			}
			var rec func(seq []op)
			rec = func(seq []op) {
				if len(seq) == 2 && !c.Mine() || c.Expired() {
					return
				}
				if len(seq) == depth {
					c.Evals++
					if run(seq) {
						c.Distinct++
					}
					return
				}
				for _, o := range ops {
					rec(append(seq[:len(seq):len(seq)], o))
				}
			}
			rec(nil)
		}
		c.Sample("%v", ops)
	}})
	addEnum(&Enum{Name: "sharded-tree", Props: []string{"C19"}, Doc: "ShardedTree: same tree for the same key, in range for any hash, all shards used, lengths", Fn: func(c *EnumCtx) {
		max := 8
		if !c.Quick() {
			max = 12
		}
		c.Bound = fmt.Sprintf("exponents 0 to %d, every residue of the hash and both ends of its range; all sequences of 5 operations over 4 keys", max)
		for e := 0; e <= max; e++ {
			if !c.Mine() || c.Expired() {
				continue
			}
			shards := 2 << e
			t := stores.NewShardedTree(e, func(h uint64) uint64 { return h }, func(a, b kv) bool { return a.K < b.K })
			trees := map[any]uint64{}
			for _, base := range []uint64{0, 1 << 31, 1 << 63, ^uint64(0) - uint64(shards) + 1} {
				for i := 0; i < shards; i++ {
					h := base + uint64(i)
					c.Evals++
					c.Try("sharded-tree", h, func() {
						tr := t.For(h)
						if tr == nil || t.For(h) != tr {
							c.Fail("sharded-tree", "exponent %d, hash %x: not one tree", e, h)
						}
						if r, ok := trees[tr]; ok && r != h%uint64(shards) {
							c.Fail("sharded-tree", "exponent %d: hashes %x and %x share a tree", e, r, h)
						}
						trees[tr] = h % uint64(shards)
					})
				}
			}
			if len(trees) != shards {
				c.Fail("sharded-tree", "exponent %d: %d shards are used, want %d", e, len(trees), shards)
			}
			for h := 0; h < shards; h++ {
				t.For(uint64(h)).ReplaceOrInsert(kv{fmt.Sprint(h), h})
			}
			if t.Len() != shards {
				c.Fail("sharded-tree", "exponent %d: Len is %d after %d insertions", e, t.Len(), shards)
			}
		}
		keys := []string{"", "a", "b", "ab"}
		hashes := map[string]func(string) uint64{"string": stores.StringHash, "bytes": func(s string) uint64 { return stores.ByteHash([]byte(s)) }, "const": func(string) uint64 { return ^uint64(0) }}
		for name, hf := range hashes {
			for e := 0; e < 3; e++ {
				for x := 0; x < pow(8, 5) && !c.Expired(); x++ {
					if x%64 == 0 && !c.Mine() {
						x += 63
						continue
					}
					t := stores.NewShardedTree(e, hf, func(a, b kv) bool { return stores.StringLess(a.K, b.K) })
					m := map[string]int{}
					for y, n := x, 0; n < 5; y, n = y/8, n+1 {
						k := keys[y%8/2]
						if y%2 == 0 {
							t.For(k).ReplaceOrInsert(kv{k, n})
							m[k] = n
						} else {
							_, ok := t.For(k).Delete(kv{K: k})
							if _, had := m[k]; had != ok {
								c.Fail("sharded-tree", "%s %d %d: Delete of %q returns %v", name, e, x, k, ok)
							}
							delete(m, k)
						}
					}
					c.Evals++
					if t.Len() != len(m) {
						c.Fail("sharded-tree", "%s %d %d: Len is %d, want %d", name, e, x, t.Len(), len(m))
					}
					for _, k := range keys {
						v, ok := t.For(k).Get(kv{K: k})
						w, has := m[k]
						if ok != has || ok && v.V != w {
							c.Fail("sharded-tree", "%s %d %d: Get(%q) is %v %v, want %v %v", name, e, x, k, v, ok, w, has)
						}
					}
				}
			}
		}
	}})
	addEnum(&Enum{Name: "tp-set", Props: []string{"C20"}, Doc: "TopicPartitionSet: all operation sequences over a few topic partitions", Fn: func(c *EnumCtx) {
		depth := 5
		if !c.Quick() {
			depth = 7
		}
		all := []streams.TopicPartition{{Topic: "a", Partition: 0}, {Topic: "b", Partition: 0}, {Topic: "a", Partition: 1}, {Topic: "a", Partition: 1<<31 - 1}, {Topic: "", Partition: 10}}
		c.Bound = fmt.Sprintf("all sequences of %d operations over %d topic partitions", depth, len(all))
		n := 2 * len(all)
		for x := 0; x < pow(n, depth) && !c.Expired(); x++ {
			if x%1000 == 0 && !c.Mine() {
				x += 999
				continue
			}
			s, m := streams.NewTopicPartitionSet(), map[streams.TopicPartition]bool{}
			c.Evals++
			for y, i := x, 0; i < depth; y, i = y/n, i+1 {
				tp := all[y%n/2]
				if y%2 == 0 {
					if s.Insert(tp) == m[tp] {
						c.Fail("tp-set", "sequence %d: Insert(%v) wrong", x, tp)
					}
					m[tp] = true
				} else {
					if s.Remove(tp) != m[tp] {
						c.Fail("tp-set", "sequence %d: Remove(%v) wrong", x, tp)
					}
					delete(m, tp)
				}
			}
			var want []streams.TopicPartition
			for _, tp := range all {
				if s.Contains(tp) != m[tp] {
					c.Fail("tp-set", "sequence %d: Contains(%v) wrong", x, tp)
				}
				if m[tp] {
					want = append(want, tp)
				}
			}
			sort.Slice(want, func(i, j int) bool {
				if want[i].Partition != want[j].Partition {
					return want[i].Partition < want[j].Partition
				}
				return want[i].Topic < want[j].Topic
			})
			if s.Len() != len(m) || fmt.Sprint(s.Items()) != fmt.Sprint(want) {
				c.Fail("tp-set", "sequence %d: Len %d Items %v, want %v", x, s.Len(), s.Items(), want)
			}
		}
	}})
	addEnum(&Enum{Name: "list", Props: []string{"C20"}, Doc: "sak.List against a slice: all operation sequences, elements of another list and removed elements included", Fn: listCheck})
	addEnum(&Enum{Name: "pool", Props: []string{"C20"}, Doc: "sak.Pool: all sequences of borrowing and releasing", Fn: func(c *EnumCtx) {
		depth := 9
		if !c.Quick() {
			depth = 12
		}
		c.Bound = fmt.Sprintf("all sequences of %d operations, sizes 0 to 3, with and without a reset function", depth)
		type obj struct{ id, resets int }
		for size := 0; size <= 3; size++ {
			for reset := 0; reset < 2; reset++ {
				for x := 0; x < pow(3, depth) && !c.Expired(); x++ {
					if x%81 == 0 && !c.Mine() {
						x += 80
						continue
					}
					made := 0
					var rf func(*obj) *obj
					if reset == 1 {
						rf = func(o *obj) *obj { o.resets++; return o }
					}
					p := sak.NewPool(size, func() *obj { made++; return &obj{id: made} }, rf)
					out := []*obj{}
					var free []*obj
					c.Evals++
					for y, i := x, 0; i < depth; y, i = y/3, i+1 {
						if y%3 == 0 {
							n := made
							o := p.Borrow()
							for _, u := range out {
								if u == o {
									c.Fail("pool", "size %d, sequence %d: an object is handed out twice", size, x)
								}
							}
							was := -1
							for j, f := range free {
								if f == o {
									was = j
								}
							}
							if was >= 0 {
								free = append(free[:was], free[was+1:]...)
							}
							if o == nil || (was >= 0) == (made > n) {
								c.Fail("pool", "size %d, sequence %d: Borrow returns something that was neither free nor made for it", size, x)
							}
							if len(free) > 0 && was < 0 {
								c.Fail("pool", "size %d, sequence %d: Borrow makes an object although there is a free one", size, x)
							}
							out = append(out, o)
						} else if len(out) > 0 {
							j := 0
							if y%3 == 2 {
								j = len(out) - 1
							}
							o := out[j]
							out = append(out[:j:j], out[j+1:]...)
							was := o.resets
							kept := p.Release(o)
							if o.resets != was+reset {
								c.Fail("pool", "size %d, sequence %d: %d resets on a Release", size, x, o.resets-was)
							}
							if kept != (len(free) < size) {
								c.Fail("pool", "size %d, sequence %d: Release returns %v with %d of %d free", size, x, kept, len(free), size)
							}
							if kept {
								free = append(free, o)
							}
						}
					}
				}
			}
		}
	}})
}

// listCheck explores operation sequences on two lists.
func listCheck(c *EnumCtx) {
	depth := 3
	if !c.Quick() {
		depth = 4
	}
	c.Bound = fmt.Sprintf("all sequences of %d operations on two lists, from lists of 0 to 3 elements", depth)
	type el = sak.Element[int]
	type st struct {
		l   [2]*sak.List[int]
		m   [2][]*el
		all []*el
		n   int
	}
	at := func(m []*el, e *el) int {
		for i, x := range m {
			if x == e {
				return i
			}
		}
		return -1
	}
	ins := func(m []*el, i int, e *el) []*el {
		return append(m[:i:i], append([]*el{e}, m[i:]...)...)
	}
	names := []string{"PushFront", "PushBack", "InsertBefore", "InsertAfter", "Remove", "MoveToFront", "MoveToBack", "MoveBefore", "MoveAfter", "PushBackList", "PushFrontList", "Init"}
	type op struct{ k, l, e, f int } // e, f: 0..2 positions in list l, 3: first of the other list, 4: last removed
	var ops []op
	for k := range names {
		switch k {
		case 0, 1:
			ops = append(ops, op{k: k})
		case 9, 10, 11:
			ops = append(ops, op{k: k}, op{k: k, f: 1})
		case 7, 8:
			for e := 0; e < 5; e++ {
				for f := 0; f < 5; f++ {
					ops = append(ops, op{k: k, e: e, f: f})
				}
			}
		default:
			for e := 0; e < 5; e++ {
				ops = append(ops, op{k: k, e: e})
			}
		}
	}
	run := func(init int, seq []op) {
		var s st
		var dead *el
		s.l[0], s.l[1] = sak.NewList[int](), new(sak.List[int])
		bad := func(f string, a ...any) {
			var w []string
			for _, o := range seq {
				w = append(w, fmt.Sprintf("%s%v", names[o.k], []int{o.e, o.f}))
			}
			c.Fail("list", "%d elements, %s: %s", init, strings.Join(w, " "), fmt.Sprintf(f, a...))
		}
		add := func(l int, e *el) *el { s.all = append(s.all, e); return e }
		for i := 0; i < init; i++ {
			s.n++
			s.m[0] = append(s.m[0], add(0, s.l[0].PushBack(s.n)))
		}
		s.n++
		s.m[1] = append(s.m[1], add(1, s.l[1].PushFront(s.n)))
		pick := func(i int) *el {
			switch {
			case i < 3 && i < len(s.m[0]):
				return s.m[0][i]
			case i == 3 && len(s.m[1]) > 0:
				return s.m[1][0]
			case i == 4:
				return dead
			}
			return nil
		}
		for _, o := range seq {
			c.Trans++
			e, f := pick(o.e), pick(o.f)
			if o.k >= 2 && o.k < 9 && (e == nil || (o.k == 7 || o.k == 8) && f == nil) {
				continue
			}
			l := s.l[0]
			i, j := at(s.m[0], e), at(s.m[0], f)
			switch o.k {
			case 0, 1:
				s.n++
				if o.k == 0 {
					s.m[0] = ins(s.m[0], 0, l.PushFront(s.n))
				} else {
					s.m[0] = ins(s.m[0], len(s.m[0]), l.PushBack(s.n))
				}
			case 2, 3:
				s.n++
				var x *el
				if o.k == 2 {
					x = l.InsertBefore(s.n, e)
				} else {
					x = l.InsertAfter(s.n, e)
				}
				if (x == nil) != (i < 0) {
					bad("returns %v", x)
					return
				}
				if x != nil {
					s.m[0] = ins(s.m[0], i+o.k-2, x)
				}
			case 4:
				if v := l.Remove(e); v != e.Value {
					bad("Remove returns %v", v)
				}
				if i >= 0 {
					s.m[0] = append(s.m[0][:i:i], s.m[0][i+1:]...)
					dead = e
					if e.Next() != nil || e.Prev() != nil {
						bad("a removed element has neighbours")
					}
				}
			case 5, 6:
				if o.k == 5 {
					l.MoveToFront(e)
				} else {
					l.MoveToBack(e)
				}
				if i >= 0 {
					s.m[0] = append(s.m[0][:i:i], s.m[0][i+1:]...)
					if o.k == 5 {
						s.m[0] = ins(s.m[0], 0, e)
					} else {
						s.m[0] = append(s.m[0], e)
					}
				}
			case 7, 8:
				if o.k == 7 {
					l.MoveBefore(e, f)
				} else {
					l.MoveAfter(e, f)
				}
				if i >= 0 && j >= 0 && e != f {
					s.m[0] = append(s.m[0][:i:i], s.m[0][i+1:]...)
					s.m[0] = ins(s.m[0], at(s.m[0], f)+o.k-7, e)
				}
			case 9, 10:
				var vals []int
				src := s.l[1]
				sm := s.m[1]
				if o.f == 1 {
					src, sm = l, s.m[0]
				}
				for _, x := range sm {
					vals = append(vals, x.Value)
				}
				was := len(s.m[0])
				if o.k == 9 {
					l.PushBackList(src)
				} else {
					l.PushFrontList(src)
				}
				// the copies are new elements
				var now []*el
				for x, k := l.Front(), 0; x != nil && k < 50; x, k = x.Next(), k+1 {
					now = append(now, x)
				}
				if len(now) != was+len(vals) {
					bad("%d elements after copying %d to %d", len(now), len(vals), was)
					return
				}
				cp := now[was:]
				if o.k == 10 {
					cp = now[:len(vals)]
				}
				for i, x := range cp {
					if x.Value != vals[i] || at(s.m[0], x) >= 0 || at(s.m[1], x) >= 0 {
						bad("copy %d is wrong", i)
					}
				}
				if o.k == 9 {
					s.m[0] = append(s.m[0], cp...)
				} else {
					s.m[0] = append(append([]*el(nil), cp...), s.m[0]...)
				}
			case 11:
				if o.f == 1 {
					if l.Init() != l {
						bad("Init returns another list")
					}
					return // what becomes of the elements is not defined
				}
			}
			for k := range s.l {
				l, m := s.l[k], s.m[k]
				if l.Len() != len(m) {
					bad("list %d: Len is %d, want %d", k, l.Len(), len(m))
					return
				}
				var fw, bw []*el
				for x := l.Front(); x != nil && len(fw) < 50; x = x.Next() {
					fw = append(fw, x)
				}
				for x := l.Back(); x != nil && len(bw) < 50; x = x.Prev() {
					bw = append(bw, x)
				}
				if len(fw) != len(m) || len(bw) != len(m) {
					bad("list %d: %d elements forwards, %d backwards, want %d", k, len(fw), len(bw), len(m))
					return
				}
				for i := range m {
					if fw[i] != m[i] || bw[len(m)-1-i] != m[i] {
						bad("list %d: wrong order", k)
						return
					}
				}
			}
		}
	}
	for init := 0; init <= 3; init++ {
		var rec func(seq []op)
		rec = func(seq []op) {
			if len(seq) == 1 && !c.Mine() || c.Expired() {
				return
			}
			if len(seq) == depth {
				c.Try("list", seq, func() { run(init, seq) })
				return
			}
			for _, o := range ops {
				rec(append(seq[:len(seq):len(seq)], o))
			}
		}
		rec(nil)
	}
}
