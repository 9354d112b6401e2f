//go:build go1.23

package main

import (
	"context"
	"errors"
	"fmt"
	"sort"

	"github.com/aws/go-kafka-event-source/streams/sak"
	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
)

type rsKey int

func init() {
	addEnum(&Enum{Name: "run-status", Props: []string{"C20"}, Doc: "RunStatus: all trees of forks and values, halted in every order", Fn: func(c *EnumCtx) {
		depth := 5
		if !c.Quick() {
			depth = 7
		}
		c.Bound = fmt.Sprintf("all sequences of %d of Fork, WithValue and Halt on any node", depth)
		type op struct{ k, n int }
		type node struct {
			rs     sak.RunStatus
			up     int // parent
			shared bool
			val    map[rsKey]int
		}
		run := func(seq []op) {
			name := fmt.Sprint(seq)
			r := vsched.Run(vsched.Config{MaxSteps: 20000, NoReset: true, Choose: func(int, bool) int { return 0 }}, func() {
				ns := []node{{rs: sak.NewRunStatus(nil), up: -1, val: map[rsKey]int{}}, {rs: sak.NewRunStatus(context.WithValue(context.Background(), rsKey(9), 1)), up: -1, val: map[rsKey]int{9: 1}}}
				halted := map[int]bool{}
				cancelOf := func(i int) int {
					for ns[i].shared {
						i = ns[i].up
					}
					return i
				}
				dead := func(i int) bool {
					for ; i >= 0; i = ns[i].up {
						if halted[cancelOf(i)] {
							return true
						}
					}
					return false
				}
				for step, o := range seq {
					n := ns[o.n]
					m := node{up: o.n, val: map[rsKey]int{}}
					for k, v := range n.val {
						m.val[k] = v
					}
					switch o.k {
					case 0:
						m.rs = n.rs.Fork()
						ns = append(ns, m)
					case 1:
						m.shared = true
						m.val[rsKey(step%2)] = step
						m.rs = n.rs.WithValue(rsKey(step%2), step)
						ns = append(ns, m)
					case 2:
						n.rs.Halt()
						halted[cancelOf(o.n)] = true
					}
					vsched.AwaitIdle()
					for i, n := range ns {
						d := dead(i)
						sel := vsched.Select(true, vsched.RecvCase(n.rs.Done()))
						if n.rs.Running() == d || (n.rs.Err() != nil) != d || (n.rs.Ctx().Err() != nil) != d || (sel == 0) != d {
							vsched.Fail("run-status", "after step %d node %d: running %v, error %v, want halted %v", step, i, n.rs.Running(), n.rs.Err(), d)
						}
						if d && !errors.Is(n.rs.Err(), context.Canceled) {
							vsched.Fail("run-status", "node %d: error %v", i, n.rs.Err())
						}
						for k := rsKey(0); k < 10; k++ {
							want, ok := n.val[k]
							got, has := n.rs.Ctx().Value(k).(int)
							if ok != has || got != want {
								vsched.Fail("run-status", "node %d: value %d is %v", i, k, got)
							}
						}
					}
				}
			})
			c.Evals++
			c.Trans += uint64(len(seq))
			if r.Violation != nil {
				c.Fail("run-status", "%s: %s", name, r.Violation.Msg)
			}
			for _, p := range r.Panics {
				c.Fail("run-status", "%s: %s", name, p)
			}
		}
		var rec func(seq []op, nodes int)
		rec = func(seq []op, nodes int) {
			if len(seq) == 2 && !c.Mine() || c.Expired() {
				return
			}
			if len(seq) == depth {
				run(seq)
				return
			}
			for k := 0; k < 3; k++ {
				for n := 0; n < nodes; n++ {
					m := nodes
					if k < 2 {
						m++
					}
					rec(append(seq[:len(seq):len(seq)], op{k, n}), m)
				}
			}
		}
		rec(nil, 2)
	}})
	addEnum(&Enum{Name: "sak-util", Props: []string{"C20"}, Doc: "minimum, maximum, absolute value, slice and map copies", Fn: func(c *EnumCtx) {
		c.Bound = "all lists of up to 5 of 5 values (extremes included); all maps of up to 4 keys"
		if !c.Mine() {
			return
		}
		vals := []int8{-128, -1, 0, 1, 127}
		for n := 0; n <= 5; n++ {
			for x := 0; x < pow(5, n); x++ {
				l := make([]int8, n)
				f := make([]float64, n)
				for i, y := 0, x; i < n; i, y = i+1, y/5 {
					l[i] = vals[y%5]
					f[i] = float64(l[i]) / 4
				}
				s := append([]int8(nil), l...)
				sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
				var lo, hi int8
				if n > 0 {
					lo, hi = s[0], s[n-1]
				}
				c.Evals++
				if sak.MinN(l...) != lo || sak.MaxN(l...) != hi || sak.MinN(f...) != float64(lo)/4 || sak.MaxN(f...) != float64(hi)/4 {
					c.Fail("sak-util", "MinN or MaxN of %v is wrong: %v %v", l, sak.MinN(l...), sak.MaxN(l...))
				}
				if n == 2 && (sak.Min(l[0], l[1]) != lo || sak.Max(l[0], l[1]) != hi || sak.Max(f[0], f[1]) != float64(hi)/4) {
					c.Fail("sak-util", "Min or Max of %v is wrong", l)
				}
				ps := sak.ToPtrSlice(l)
				back := sak.ToStructSlice(ps)
				if len(ps) != n || fmt.Sprint(back) != fmt.Sprint(l) {
					c.Fail("sak-util", "ToPtrSlice, ToStructSlice: %v comes back as %v", l, back)
				}
				for i := range ps {
					*ps[i]++
					for j := range l {
						if want := back[j]; l[j] != want || i != j && ps[i] == ps[j] {
							c.Fail("sak-util", "ToPtrSlice shares memory")
						}
					}
				}
				m := map[int]int8{}
				for i, v := range l {
					if i < 4 {
						m[i] = v
					}
				}
				cp := sak.MapCopy(m)
				if fmt.Sprint(cp) != fmt.Sprint(m) {
					c.Fail("sak-util", "MapCopy of %v is %v", m, cp)
				}
				cp[99] = 1
				if _, ok := m[99]; ok {
					c.Fail("sak-util", "MapCopy shares memory")
				}
				ks, vs := sak.MapKeysToSlice(m), sak.MapValuesToSlice(m)
				sort.Ints(ks)
				ms := append([]int8(nil), l...)
				if len(ms) > 4 {
					ms = ms[:4]
				}
				sort.Slice(ms, func(i, j int) bool { return ms[i] < ms[j] })
				sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
				if len(ks) != len(m) || len(ks) > 0 && (ks[0] != 0 || ks[len(ks)-1] != len(m)-1) || fmt.Sprint(vs) != fmt.Sprint(ms) {
					c.Fail("sak-util", "keys %v, values %v of %v", ks, vs, m)
				}
			}
		}
		for v := -127; v <= 127; v++ {
			w := v
			if w < 0 {
				w = -w
			}
			if sak.Abs(int8(v)) != int8(w) || sak.Abs(float32(v)) != float32(w) || *sak.Ptr(v) != v {
				c.Fail("sak-util", "Abs(%d) is %d", v, sak.Abs(int8(v)))
			}
		}
		if sak.Must(5, nil) != 5 {
			c.Fail("sak-util", "Must changes the value")
		}
		func() {
			defer func() {
				if recover() == nil {
					c.Fail("sak-util", "Must does not panic on an error")
				}
			}()
			sak.Must(5, errors.New("x"))
		}()
	}})
}
