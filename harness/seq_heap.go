//go:build go1.23

package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/aws/go-kafka-event-source/streams/stores"
)

// dump renders everything reachable from v, private fields included, so that two values with the same rendering cannot
// be told apart by their future behaviour. Pointers become numbers in order of first visit.
func dump(v any, skip ...string) string {
	var b strings.Builder
	seen := map[uintptr]int{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			if n, ok := seen[v.Pointer()]; ok {
				fmt.Fprintf(&b, "^%d", n)
				return
			}
			seen[v.Pointer()] = len(seen)
			b.WriteByte('&')
			walk(v.Elem())
		case reflect.Struct:
			b.WriteByte('{')
			for i := 0; i < v.NumField(); i++ {
				if !has(skip, v.Type().Field(i).Name) {
					walk(v.Field(i))
					b.WriteByte(',')
				}
			}
			b.WriteByte('}')
		case reflect.Slice, reflect.Array:
			b.WriteByte('[')
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
				b.WriteByte(',')
			}
			b.WriteByte(']')
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		default:
			fmt.Fprint(&b, v)
		}
	}
	walk(reflect.ValueOf(v))
	return b.String()
}

// hv is a heap value: only P is compared, Id tells items apart.
type hv struct{ P, Id int }

func (a hv) HasPriorityOver(b hv) bool { return a.P < b.P }

type hItem = stores.PrioritizedItem[hv]

type hop struct {
	kind string
	i, p int
}

func (o hop) String() string {
	switch o.kind {
	case "push":
		return fmt.Sprintf("Push(%d)", o.p)
	case "update":
		return fmt.Sprintf("Update(item %d to %d)", o.i, o.p)
	case "remove":
		return fmt.Sprintf("Remove(item %d)", o.i)
	}
	return o.kind
}

// hsys is a heap and what it must contain.
type hsys struct {
	h    *stores.MinMaxHeap[hv]
	in   []*hItem // present, oldest first
	made int
	what []string
}

func newHsys(init []int) *hsys {
	vals := make([]hv, len(init))
	for i, p := range init {
		vals[i] = hv{p, i}
	}
	s := &hsys{h: stores.NewMinMaxHeap(vals...), made: len(init), what: []string{fmt.Sprintf("NewMinMaxHeap%v", init)}}
	return s
}

func (s *hsys) has(it *hItem) int {
	for i, x := range s.in {
		if x == it {
			return i
		}
	}
	return -1
}

func (s *hsys) extreme(max bool) (p int) {
	for i, x := range s.in {
		if i == 0 || x.Value.P < p != max && x.Value.P != p {
			p = x.Value.P
		}
	}
	return
}

// do performs an operation and checks its result against the reference (the set of items).
func (s *hsys) do(o hop) string {
	s.what = append(s.what, o.String())
	check := func(it *hItem, max, gone bool) string {
		if len(s.in) == 0 {
			if it != nil {
				return fmt.Sprintf("%s on an empty heap returns %v", o.kind, it.Value)
			}
			return ""
		}
		if it == nil {
			return fmt.Sprintf("%s returns nothing, the heap has %d items", o.kind, len(s.in))
		}
		i := s.has(it)
		if i < 0 {
			return fmt.Sprintf("%s returns an item which is not in the heap: %v", o.kind, it.Value)
		}
		if want := s.extreme(max); it.Value.P != want {
			return fmt.Sprintf("%s returns priority %d, want %d", o.kind, it.Value.P, want)
		}
		if gone {
			s.in = append(s.in[:i:i], s.in[i+1:]...)
		}
		return ""
	}
	bad := ""
	switch o.kind {
	case "push":
		it := &hItem{Value: hv{o.p, s.made}}
		s.made++
		s.h.Push(it)
		s.in = append(s.in, it)
	case "min":
		bad = check(s.h.Min(), false, false)
	case "max":
		bad = check(s.h.Max(), true, false)
	case "popmin":
		bad = check(s.h.PopMin(), false, true)
	case "popmax":
		bad = check(s.h.PopMax(), true, true)
	case "remove":
		it := s.in[o.i]
		s.in = append(s.in[:o.i:o.i], s.in[o.i+1:]...)
		s.h.Remove(it)
	case "update":
		s.in[o.i].Value.P = o.p
		s.h.Update(s.in[o.i])
	}
	if bad == "" && s.h.Len() != len(s.in) {
		bad = fmt.Sprintf("after %s Len is %d, there are %d items", o, s.h.Len(), len(s.in))
	}
	return bad
}

// drain empties the heap from both ends; every item must come out once, in order.
func (s *hsys) drain(alt int) string {
	for k := 0; len(s.in) > 0; k++ {
		o := hop{kind: "popmin"}
		if alt == 1 || alt == 2 && k%2 == 1 {
			o.kind = "popmax"
		}
		if bad := s.do(o); bad != "" {
			return bad
		}
	}
	if s.h.Min() != nil || s.h.Max() != nil {
		return "an empty heap has a minimum or a maximum"
	}
	return ""
}

// ops lists everything that can be done next.
func (s *hsys) ops(prios, max int) []hop {
	o := []hop{{kind: "min"}, {kind: "max"}, {kind: "popmin"}, {kind: "popmax"}}
	for p := 0; p < prios && len(s.in) < max; p++ {
		o = append(o, hop{kind: "push", p: p})
	}
	for i := range s.in {
		o = append(o, hop{kind: "remove", i: i})
		for p := 0; p < prios; p++ {
			o = append(o, hop{kind: "update", i: i, p: p})
		}
	}
	return o
}

func build(init []int, ops []hop) (s *hsys, bad string) {
	s = newHsys(init)
	for range init { // the items are known to the caller once they come out
		it := s.h.PopMin()
		if it == nil {
			return s, "items given to NewMinMaxHeap are missing"
		}
		s.in = append(s.in, it)
	}
	if s.h.PopMin() != nil {
		return s, "more items than were given to NewMinMaxHeap"
	}
	for i := 1; i < len(s.in); i++ {
		if s.in[i].Value.P < s.in[i-1].Value.P {
			return s, "items given to NewMinMaxHeap come out in the wrong order"
		}
	}
	for _, it := range s.in {
		s.h.Push(it)
	}
	for _, o := range ops {
		if bad = s.do(o); bad != "" {
			return
		}
	}
	return
}

// attempt runs a sequence and then empties the heap in three ways.
func (c *EnumCtx) attempt(init []int, ops []hop, drain bool) (s *hsys, ok bool) {
	c.Trans++
	n := 1
	if drain {
		n = 4
	}
	for i := 0; i < n; i++ {
		t, bad := build(init, ops)
		if s == nil {
			s = t
		}
		if bad == "" && i > 0 {
			bad = t.drain(i - 1)
		}
		c.Evals++
		if bad != "" {
			c.Fail("heap", "%s: %s", strings.Join(t.what, ", "), bad)
			return s, false
		}
	}
	return s, true
}

func (s *hsys) key() string { return dump(s.h, "Id") }

func init() {
	addEnum(&Enum{Name: "heap-states", Props: []string{"C18"}, Doc: "all heaps that can be reached with a few items", Fn: func(c *EnumCtx) {
		prios, max := 3, 5
		if !c.Quick() {
			prios, max = 4, 7
		}
		c.Bound = fmt.Sprintf("all operation sequences, up to %d items of %d priorities", max, prios)
		if !c.Mine() {
			return
		}
		seen := map[string]bool{}
		todo := [][]hop{nil}
		for len(todo) > 0 && !c.Expired() {
			ops := todo[0]
			todo = todo[1:]
			s, _ := build(nil, ops)
			for _, o := range s.ops(prios, max) {
				next := append(ops[:len(ops):len(ops)], o)
				t, ok := c.attempt(nil, next, false)
				if !ok {
					continue
				}
				if k := t.key(); !seen[k] {
					seen[k] = true
					c.States++
					c.attempt(nil, next, true)
					todo = append(todo, next)
				}
			}
		}
		c.Sample("%d states", len(seen))
	}})
	addEnum(&Enum{Name: "heap-sizes", Props: []string{"C18"}, Doc: "heaps of every size built by pushes, every operation on every item, everything taken out again", Fn: func(c *EnumCtx) {
		type bd struct{ n, prios int }
		bs := []bd{{14, 2}, {9, 3}, {7, 4}}
		if !c.Quick() {
			bs = []bd{{17, 2}, {14, 3}, {10, 4}, {8, 6}}
		}
		c.Bound = fmt.Sprintf("all push sequences of {length, priorities} up to %v, (Max) and one operation", bs)
		for _, b := range bs {
			for n := 0; n <= b.n; n++ {
				seen := map[string]bool{}
				var rec func(ops []hop)
				rec = func(ops []hop) {
					if len(ops) == 4 || len(ops) < 4 && len(ops) == n {
						if !c.Mine() {
							return
						}
					}
					if c.Expired() {
						return
					}
					if len(ops) < n {
						for p := 0; p < b.prios; p++ {
							rec(append(ops[:len(ops):len(ops)], hop{kind: "push", p: p}))
						}
						return
					}
					s, ok := build(nil, ops)
					c.Evals++
					if ok != "" {
						c.Fail("heap", "%s: %s", strings.Join(s.what, ", "), ok)
						return
					}
					k := s.key()
					if seen[k] {
						return
					}
					seen[k] = true
					c.States++
					for _, o := range s.ops(b.prios, n+1) {
						c.attempt(nil, append(ops[:n:n], o), true)
						c.attempt(nil, append(ops[:n:n], hop{kind: "max"}, o), true)
					}
				}
				rec(nil)
			}
		}
	}})
	addEnum(&Enum{Name: "heap-init", Props: []string{"C18"}, Doc: "heaps made from a list", Fn: func(c *EnumCtx) {
		max := 8
		if !c.Quick() {
			max = 11
		}
		c.Bound = fmt.Sprintf("all lists of up to %d items of 3 priorities", max)
		for n := 0; n <= max; n++ {
			init := make([]int, n)
			for x := 0; x < pow(3, n) && !c.Expired(); x++ {
				for i, y := 0, x; i < n; i, y = i+1, y/3 {
					init[i] = y % 3
				}
				if !c.Mine() {
					continue
				}
				for alt := 0; alt < 3; alt++ {
					s := newHsys(init)
					c.Evals++
					in := map[int]bool{}
					ps := append([]int(nil), init...)
					for k := 0; len(ps) > 0; k++ {
						it, hi := (*hItem)(nil), alt == 1 || alt == 2 && k%2 == 1
						if hi {
							it = s.h.PopMax()
						} else {
							it = s.h.PopMin()
						}
						w := 0
						for i, p := range ps {
							if p < ps[w] != hi && p != ps[w] {
								w = i
							}
						}
						if it == nil || it.Value.P != ps[w] || in[it.Value.Id] {
							c.Fail("heap-init", "NewMinMaxHeap%v: item %d taken out (max %v) is %v, want priority %d", init, k, hi, it, ps[w])
							break
						}
						in[it.Value.Id] = true
						ps = append(ps[:w], ps[w+1:]...)
					}
				}
			}
		}
	}})
}

func pow(b, n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= b
	}
	return r
}
