//go:build go1.23

package main

import (
	"encoding/json"
	"fmt"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/aws/go-kafka-event-source/streams/zverif/vkafka"
	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
	"github.com/twmb/franz-go/pkg/kmsg"
)

// Whole applications in a group that rebalances itself with the incremental rebalancer.

func rebOpt(parts int) Opt {
	return Opt{Parts: parts, Conf: func(w *World, in *Inst, c *streams.EventSourceConfig) {
		c.BalanceStrategies = []streams.BalanceStrategy{streams.IncrementalBalanceStrategy}
	}}
}

func userMeta(b []byte) (m rmeta) {
	var mm kmsg.ConsumerMemberMetadata
	if mm.ReadFrom(b) == nil {
		json.Unmarshal(mm.UserData, &m)
	}
	return
}

// watchPlans checks every plan of the group.
func (w *World) watchPlans() {
	w.G.OnPlan = func(gen int, owned, plan map[*vkafka.Client]map[string][]int32, meta map[*vkafka.Client][]byte) {
		owner := map[int32]*vkafka.Client{}
		for m, o := range owned {
			for _, p := range o[inT] {
				owner[p] = m
			}
		}
		given := map[int32]*vkafka.Client{}
		for m, o := range plan {
			vsched.Tracef("PLAN %d %s owns %v gets %v meta %+v", gen, m.MemberID(), owned[m][inT], o[inT], userMeta(meta[m]))
			for _, p := range o[inT] {
				if given[p] != nil {
					vsched.Fail("assigned-twice", "partition %d is given to both %s and %s", p, m.MemberID(), given[p].MemberID())
				}
				given[p] = m
				if x := owner[p]; x != nil && x != m {
					vsched.Fail("assigned-before-revoked", "partition %d is given to %s while %s owns it", p, m.MemberID(), x.MemberID())
				}
			}
		}
		for p, m := range owner {
			if given[p] != nil || w.G.Proto != streams.IncrementalCoopProtocol {
				continue
			}
			ok := false
			active := 0
			for x := range meta {
				u := userMeta(meta[x])
				if u.Status == 0 {
					active++
				}
				if x != m && u.Status == 0 && hasP(parts(u.Ready), p) {
					ok = true
				}
			}
			if !ok && active > 0 {
				vsched.Fail("moved-unprepared", "partition %d is taken from %s although nobody is ready for it", p, m.MemberID())
			}
		}
	}
}

// balanced: the members own all partitions, evenly.
func (w *World) balanced() bool {
	n, min, max := 0, 1<<30, 0
	for _, m := range w.G.Members {
		k := len(m.Owned)
		n += k
		if k < min {
			min = k
		}
		if k > max {
			max = k
		}
	}
	return n == w.Parts && max-min <= 1
}

func (w *World) waitBalanced(members int) {
	if !vsched.RunUntil(func() bool { return len(w.G.Members) == members && w.balanced() }, 60*sec) {
		s := ""
		for _, m := range w.G.Members {
			s += fmt.Sprintf(" %s owns %d", m.MemberID(), len(m.Owned))
		}
		vsched.Fail("unbalanced", "the group does not get balanced:%s\n%s", s, vsched.Describe())
	}
}

// quietStart starts an application without branching, until the group has settled.
func (w *World) auto(n int) (l []*Inst) {
	vsched.SetQuiet(true)
	w.watchPlans()
	w.G.Auto(w.C)
	for i := 0; i < n; i++ {
		l = append(l, w.start())
		w.waitBalanced(i + 1)
		vsched.Settle(sec)
	}
	vsched.SetQuiet(false)
	return
}

func init() {
	add := func(name, doc string, q, d int, o Opt, fn func(w *World)) {
		addScenario(&Scenario{Name: name, Props: []string{"C13", "C14"}, Doc: doc, Quick: q, Deep: d, Fn: func() { fn(newWorld(o)) }})
	}
	add("group-join", "a second application joins while the first one works", 1, 2, rebOpt(2), func(w *World) {
		w.put(0, "s")
		w.put(1, "s")
		w.auto(1)
		w.put(0, "sf", "s")
		w.put(1, "sf")
		w.startLoud()
		w.finish(60 * sec)
		w.waitBalanced(2)
	})
	add("group-leave", "one of two applications is stopped: it hands over, then it is done", 1, 2, rebOpt(2), func(w *World) {
		w.put(0, "s")
		w.put(1, "s")
		l := w.auto(2)
		w.put(0, "sf", "s")
		w.put(1, "sf")
		done := false
		l[0].in("stop", func() { l[0].ES.Stop() })
		l[0].spawn("waiter", false, func() {
			vsched.Recv(l[0].ES.Done())
			vsched.Point()
			w.o.Write(1)
			done = true
		})
		w.waitBalanced(1)
		if !vsched.RunUntil(func() bool { return done }, 60*sec) {
			vsched.Fail("stop-hangs", "Done is not signalled\n%s", vsched.Describe())
		}
		w.put(0, "sf")
		w.put(1, "s")
		w.finish(60 * sec)
	})
	add("group-leave-only", "the only application is stopped: it is done, what it handled is committed", 1, 2, rebOpt(1), func(w *World) {
		w.put(0, "s")
		l := w.auto(1)
		w.put(0, "sf", "f")
		done := false
		l[0].in("stop", func() { l[0].ES.Stop() })
		l[0].spawn("waiter", false, func() {
			vsched.Recv(l[0].ES.Done())
			vsched.Point()
			w.o.Write(1)
			done = true
		})
		if !vsched.RunUntil(func() bool { return done }, 60*sec) {
			vsched.Fail("stop-hangs", "Done is not signalled\n%s", vsched.Describe())
		}
		w.handledCommitted(20 * sec)
		vsched.SetQuiet(true)
		w.start()
		w.finish(60 * sec)
	})
	add("group-crash", "one of two applications crashes at any point: the other takes over", 1, 2, rebOpt(2), func(w *World) {
		w.put(0, "s")
		w.put(1, "s")
		l := w.auto(2)
		w.put(0, "sf", "s")
		w.put(1, "sf")
		w.later("crash", func() {
			w.crash(l[0])
			sleep(6e9)
			w.G.Expire(l[0].M)
		}, 0, 12*ms)
		w.finish(120 * sec)
		w.waitBalanced(1)
	})
	add("group-join-crash", "the application that is to take over a partition crashes while it prepares", 1, 2, rebOpt(2), func(w *World) {
		w.put(0, "s")
		w.put(1, "s")
		w.auto(1)
		w.put(0, "sf")
		w.put(1, "sf")
		b := w.startLoud()
		w.later("crash", func() {
			w.crash(b)
			sleep(6e9)
			w.G.Expire(b.M)
		}, 0, 12*ms, 500*ms)
		w.finish(120 * sec)
		w.waitBalanced(1)
	})
}
