//go:build go1.23

package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/aws/go-kafka-event-source/streams/sak"
	"github.com/aws/go-kafka-event-source/streams/zverif/vkafka"
	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
	"github.com/twmb/franz-go/pkg/kgo"
)

// Settings: balance strategies, EosConfig, client options, configurations of schedulers and batchers.

const (
	stR = streams.RangeBalanceStrategy
	stO = streams.RoundRobinBalanceStrategy
	stC = streams.CooperativeStickyBalanceStrategy
	stI = streams.IncrementalBalanceStrategy
)

type strats []streams.BalanceStrategy

func (s strats) String() string {
	if len(s) == 0 {
		return "default"
	}
	n := []string{}
	for _, x := range s {
		n = append(n, []string{"range", "roundrobin", "cooperative-sticky", streams.IncrementalCoopProtocol}[x])
	}
	return strings.Join(n, "+")
}

// protocols a client with these strategies must offer.
func (s strats) protocols() string {
	if len(s) == 0 {
		return streams.IncrementalCoopProtocol
	}
	return s.String()
}

// startWith starts an application with balance strategies.
func (w *World) startWith(l map[int]strats, s strats) *Inst {
	l[len(w.Insts)+1] = s
	in := w.startLoud()
	got := []string{}
	for _, b := range in.M.Cfg.Balancers {
		got = append(got, b.ProtocolName())
	}
	if g := strings.Join(got, "+"); g != s.protocols() {
		vsched.Fail("strategies", "an EventSource with the balance strategies %v offers %q to its group", s, g)
	}
	if g := strats(in.ES.Source().BalanceStrategies()); g.protocols() != s.protocols() {
		vsched.Fail("strategies", "an EventSource with the balance strategies %v reports %v", s, g)
	}
	return in
}

func stratWorld(o Opt) (*World, map[int]strats) {
	l := map[int]strats{}
	o.Conf = func(w *World, in *Inst, c *streams.EventSourceConfig) { c.BalanceStrategies = l[in.ID] }
	o.Parts = 2
	w := newWorld(o)
	w.watchPlans()
	w.G.Auto(w.C)
	return w, l
}

// flakyCluster fails to give its configuration once.
type flakyCluster struct{ n, at int }

func (c *flakyCluster) Config() ([]kgo.Opt, error) {
	c.n++
	if c.n-1 == c.at {
		return nil, errors.New("no configuration")
	}
	return streams.SimpleCluster{seed}.Config()
}

func init() {
	st := []string{"C29"}
	type pair struct{ a, b strats }
	pairs := []pair{
		{strats{stI, stC}, strats{stI, stC}},
		{strats{stI, stC}, strats{stC}},
		{strats{stC, stI}, strats{stI}},
		{strats{stC, stI}, strats{stC, stI}},
		{nil, strats{stI, stC}},
		{strats{stC}, strats{stC}},
		{strats{stR}, strats{stR}},
		{strats{stO}, strats{stO, stR}},
		{strats{stI, stR}, strats{stR, stI}},
		{strats{stR, stO, stC, stI}, strats{stI}},
		{strats{stC, stR}, strats{stC, stR}},
	}
	leaves := func(w *World, a *Inst, describe bool) (left, owned *int) {
		left, owned = new(int), new(int)
		w.G.OnLeaving = func(m *vkafka.Client, n int) {
			if m == a.M {
				*left++
				*owned = n
			}
		}
		return
	}
	stop := func(w *World, a *Inst) *int {
		done := a.watchDone(1)
		a.spawn("stop", false, func() {
			vsched.Tracef("LIFECYCLE inst%d stop", a.ID)
			a.ES.Stop()
		})
		return done
	}
	pairScenario := func(name, doc string, q, d int, ps []pair, fn func(w *World, l map[int]strats, p pair)) {
		addScenario(&Scenario{Name: name, Props: st, Doc: doc, Quick: q, Deep: d, Fn: func() {
			w, l := stratWorld(Opt{})
			fn(w, l, ps[vsched.ChooseFree(len(ps))])
		}})
	}
	some := []pair{pairs[0], pairs[1], pairs[6], pairs[8]}
	leave := func(w *World, l map[int]strats, p pair) {
		w.put(0, "s")
		w.put(1, "s")
		vsched.SetQuiet(true)
		a := w.startWith(l, p.a)
		w.waitBalanced(1)
		b := w.startWith(l, p.b)
		w.waitBalanced(2)
		vsched.Settle(12 * sec)
		vsched.SetQuiet(false)
		w.put(0, "sf", "s")
		w.put(1, "sf", "f")
		if pick(false, true) {
			a, b = b, a
		}
		incr := w.G.Proto == streams.IncrementalCoopProtocol
		failed := false
		if pick(false, true) && len(a.M.Cfg.Balancers) > 1 {
			w.C.ReqFault = func(c *vkafka.Client, req string) error {
				if req == "DescribeGroups" && c == a.M {
					failed = true
					return errors.New("broker not available")
				}
				return nil
			}
		}
		left, owned := leaves(w, a, failed)
		done := stop(w, a)
		w.ended(a, done, 1, 60*sec)
		eager := false
		for _, x := range a.M.Cfg.Balancers {
			eager = eager || !x.IsCooperative()
		}
		if *left != 1 {
			vsched.Fail("left", "the application left its group %d times", *left)
		}
		if incr && !failed && !eager && *owned > 0 {
			vsched.Fail("not-graceful", "the group uses the incremental rebalancer, but an application which is stopped (strategies %v) leaves with %d partitions instead of handing them over", l[a.ID], *owned)
		}
		w.waitBalanced(1)
		w.put(0, "sf")
		w.put(1, "s")
		w.finish(60 * sec)
	}
	pairScenario("strategies-leave", "two applications with overlapping balance strategies, one is stopped; the group cannot be described", 0, 1, pairs, leave)
	pairScenario("strategies-leave-some", "the same, some strategies", 1, 2, some, leave)
	join := func(w *World, l map[int]strats, p pair) {
		w.put(0, "s")
		w.put(1, "s")
		vsched.SetQuiet(true)
		w.startWith(l, p.a)
		w.waitBalanced(1)
		vsched.Settle(sec)
		vsched.SetQuiet(false)
		w.put(0, "sf", "s")
		w.put(1, "sf")
		w.startWith(l, p.b)
		w.finish(60 * sec)
		w.waitBalanced(2)
	}
	pairScenario("strategies-join", "an application joins one with overlapping balance strategies", 0, 1, pairs, join)
	pairScenario("strategies-join-some", "the same, some strategies", 1, 2, some, join)
	pairScenario("strategies-crash", "one of two applications with overlapping balance strategies crashes", 0, 1, pairs, func(w *World, l map[int]strats, p pair) {
		w.put(0, "s")
		w.put(1, "s")
		vsched.SetQuiet(true)
		a := w.startWith(l, p.a)
		w.waitBalanced(1)
		w.startWith(l, p.b)
		w.waitBalanced(2)
		vsched.Settle(sec)
		vsched.SetQuiet(false)
		w.put(0, "sf", "s")
		w.put(1, "sf")
		w.later("crash", func() {
			w.crash(a)
			sleep(6e9)
			w.G.Expire(a.M)
		}, 0, 12*ms)
		w.finish(120 * sec)
		w.waitBalanced(1)
	})
	pairScenario("strategies-migrate", "a group moves from one strategy to another, one application after the other", 0, 1, []pair{
		{strats{stC}, strats{stI}}, {strats{stR}, strats{stI}}, {strats{stI}, strats{stC}},
	}, func(w *World, l map[int]strats, p pair) {
		vsched.SetQuiet(true)
		w.put(0, "s", "f")
		w.put(1, "s", "f")
		both := append(append(strats{}, p.b...), p.a...)
		cur := []*Inst{w.startWith(l, p.a)}
		w.waitBalanced(1)
		cur = append(cur, w.startWith(l, p.a))
		w.waitBalanced(2)
		for _, s := range []strats{both, both, p.b, p.b} {
			w.put(0, "sf")
			w.put(1, "sf", "s")
			vsched.SetQuiet(false)
			in := w.startWith(l, s)
			w.waitBalanced(3)
			done := stop(w, cur[0])
			w.ended(cur[0], done, 1, 60*sec)
			vsched.SetQuiet(true)
			w.waitBalanced(2)
			vsched.Settle(sec)
			cur = append(cur[1:], in)
		}
		if w.G.Proto != p.b.protocols() {
			vsched.Fail("not-migrated", "the group still uses %s, all members have %v", w.G.Proto, p.b)
		}
		w.finish(60 * sec)
	})

	// EosConfig
	cf := []string{"C30"}
	addScenario(&Scenario{Name: "eos-config", Props: cf, Doc: "all combinations of small, zero and negative values of EosConfig", Quick: 0, Deep: 1, Fn: func() {
		ec := streams.EosConfig{PoolSize: pick(-1, 0, 1, 2, 3), PendingTxnCount: pick(-1, 0, 1, 2), TargetBatchSize: pick(-1, 0, 1, 2), MaxBatchSize: pick(-1, 0, 1, 3),
			BatchDelay: pick(-time.Second, 0, 1, time.Millisecond-1, time.Millisecond, 10*time.Millisecond)}
		zero := ec == streams.EosConfig{}
		ok := ec.PoolSize > 0 && ec.PendingTxnCount > 0 && ec.TargetBatchSize > 0 && ec.MaxBatchSize >= ec.TargetBatchSize && ec.BatchDelay >= time.Millisecond
		want := ec
		if zero {
			want = streams.DefaultEosConfig
		}
		if ec.IsZero() != zero {
			vsched.Fail("is-zero", "IsZero of %+v is %v", ec, !zero)
		}
		w := newWorld(Opt{Max: want.MaxBatchSize, Delay: time.Millisecond, Conf: func(w *World, in *Inst, c *streams.EventSourceConfig) {
			coop(w, in, c)
			c.EosConfig = ec
		}})
		w.put(0, "sf", "f", "s")
		a := &Inst{W: w, ID: 1, Stores: map[int32]*Store{}, next: map[int32]int64{}, active: map[int32]bool{}}
		w.Insts = append(w.Insts, a)
		var refused any
		handled := 0
		vsched.SetQuiet(true)
		a.in("new", func() {
			defer func() { refused = recover() }()
			es, err := streams.NewEventSource[*Store](w.config(a), func(tp streams.TopicPartition) *Store {
				s := &Store{In: a, TP: tp, M: map[string]string{}}
				a.Stores[tp.Partition] = s
				return s
			}, func(ec *EC, r streams.IncomingRecord) streams.ExecutionState {
				handled++
				return a.handle(ec, r)
			})
			if err != nil {
				refused = err
				return
			}
			a.ES = es
			es.ConsumeEvents()
		})
		vsched.SetQuiet(false)
		if (refused == nil) != (ok || zero) {
			vsched.Fail("eos-config", "%+v: refused with %v", ec, refused)
		}
		if refused != nil {
			w.crash(a)
			vsched.SetQuiet(true)
			sleep(time.Second)
			if handled > 0 || w.wm[0] > 0 {
				vsched.Fail("refused-but-running", "%+v is refused but %d events were handled", ec, handled)
			}
			return
		}
		if got := a.ES.Source().Config().EosConfig; got != want {
			vsched.Fail("eos-config", "%+v is used for %+v", got, ec)
		}
		n := 0
		for _, c := range vkafka.Clients() {
			if c.Cfg.TxnID != nil {
				n++
			}
		}
		if n != want.PoolSize {
			vsched.Fail("pool-size", "%+v: %d transactional producers", want, n)
		}
		a.M = w.G.Members[0]
		w.assignNoWait(a, 0)
		w.finish(60 * sec)
	}})

	addScenario(&Scenario{Name: "client-options", Props: cf, Doc: "additional client options reach the consumer and win over defaults, except for the reserved ones; nothing else changes", Quick: 0, Deep: 1, Fn: func() {
		id, wait := pick("", "me"), pick(time.Duration(0), 300*time.Millisecond)
		w := newWorld(Opt{Marks: pick(false, true)})
		w.Conf = coop
		if id != "" {
			w.Opts = append(w.Opts, kgo.InstanceID(id))
		}
		if wait != 0 {
			w.Opts = append(w.Opts, kgo.FetchMaxWait(wait))
		}
		w.put(0, "sf")
		a := w.start()
		c := a.M.Cfg
		if got := c.InstanceID; id != "" && (got == nil || *got != id) || id == "" && got != nil {
			vsched.Fail("client-options", "the instance id is %v, want %q", got, id)
		}
		if want := max(wait, 0); want != 0 && c.MaxWait != want {
			vsched.Fail("client-options", "FetchMaxWait is %v, want %v", c.MaxWait, want)
		}
		if c.Group != group || strings.Join(c.Topics, ",") != inT || c.AutoCommit != w.Marks || w.Marks && !c.AutoMarks {
			vsched.Fail("client-options", "group %q, topics %v, auto commit %v of marks %v with CommitOffsets %v", c.Group, c.Topics, c.AutoCommit, c.AutoMarks, w.Marks)
		}
		s := a.ES.Source()
		if s.Topic() != inT || s.GroupId() != group || s.NumPartitions() != w.Parts || s.Config().CommitOffsets != w.Marks || s.State() != streams.Healthy || a.ES.State() != streams.Healthy {
			vsched.Fail("source", "the Source reports topic %q, group %q, %d partitions, state %v", s.Topic(), s.GroupId(), s.NumPartitions(), s.State())
		}
		w.assignNoWait(a, 0)
		w.finish(60 * sec)
	}})

	addScenario(&Scenario{Name: "cluster-config", Props: cf, Doc: "the configuration of the cluster fails at some point: the event source is refused, or it works", Quick: 0, Deep: 1, Fn: func() {
		n := vsched.ChooseFree(12)
		cl := &flakyCluster{at: n}
		w := newWorld(Opt{Conf: func(w *World, in *Inst, c *streams.EventSourceConfig) {
			coop(w, in, c)
			c.SourceCluster = cl
		}})
		w.put(0, "sf", "f", "s")
		a := &Inst{W: w, ID: 1, Stores: map[int32]*Store{}, next: map[int32]int64{}, active: map[int32]bool{}}
		w.Insts = append(w.Insts, a)
		var refused any
		vsched.SetQuiet(true)
		a.in("new", func() {
			defer func() {
				if x := recover(); x != nil {
					refused = x
				}
			}()
			es, err := streams.NewEventSource[*Store](w.config(a), func(tp streams.TopicPartition) *Store {
				s := &Store{In: a, TP: tp, M: map[string]string{}}
				a.Stores[tp.Partition] = s
				return s
			}, a.handle)
			if err != nil {
				refused = err
				return
			}
			a.ES = es
			es.ConsumeEvents()
		})
		vsched.SetQuiet(false)
		vsched.Tracef("CONFIG failed at call %d of %d: %v", n, cl.n, refused)
		if refused != nil {
			w.crash(a)
			vsched.SetQuiet(true)
			sleep(time.Second)
			return
		}
		if cl.n > n {
			vsched.Fail("error-ignored", "call %d of Config of the cluster returned an error, but NewEventSource did not", n)
		}
		a.M = w.G.Members[0]
		w.assignNoWait(a, 0)
		w.finish(60 * sec)
	}})

	addScenario(&Scenario{Name: "scheduler-config", Props: cf, Doc: "all combinations of small, zero and negative values of SchedulerConfig, with and without a finalizer; jobs of three keys", Quick: 0, Deep: 1, Fn: func() {
		c := streams.SchedulerConfig{Concurrency: pick(-1, 0, 1, 2, 3), WorkerQueueDepth: pick(-1, 0, 1, 3), MaxConcurrentKeys: pick(-1, 0, 1, 2, 4)}
		fin := pick(false, true)
		bad := c.Concurrency < 1 || c.WorkerQueueDepth < 0
		w := newWorld(Opt{Async: true, Target: 3, Max: 9, AllowConcurrent: true})
		rs := sak.NewRunStatus(context.Background())
		var f streams.AsyncJobFinalizer[*Store, string, int]
		ran, ended := 0, 0
		if fin {
			f = func(ec *EC, k string, v int, err error) streams.ExecutionState {
				ended++
				return streams.Complete
			}
		}
		sch, err := streams.NewAsyncJobScheduler[*Store, string, int](rs, func(k string, v int) error {
			vsched.Point()
			ran++
			return nil
		}, f, c)
		if (err != nil) != bad {
			vsched.Fail("scheduler-config", "%+v: error %v", c, err)
		}
		if bad {
			if sch != nil {
				vsched.Fail("scheduler-config", "%+v: error %v and a scheduler", c, err)
			}
			return
		}
		w.Handler = func(w *World, in *Inst, ec *EC, e *Ev) (streams.ExecutionState, bool) {
			w.completed(in, e.P, e.Off)
			return sch.Schedule(ec, e.Key, 1), true
		}
		vsched.SetQuiet(true)
		for i := 0; i < 9; i++ {
			w.putKey(0, fmt.Sprintf("k%d", i%3), "j")
		}
		a := w.start()
		vsched.SetQuiet(false)
		w.assignNoWait(a, 0)
		w.finish(60 * sec)
		if ran != 9 || fin && ended != 9 {
			vsched.Fail("jobs", "%+v: %d of 9 jobs were processed, %d finalized", c, ran, ended)
		}
		rs.Halt()
	}})
}
