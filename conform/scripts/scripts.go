// Scripts of client calls, run twice: with the real kgo client against the broker of conform/kfk (conform/real), and
// with the client and broker of rt/vkafka under the controlled scheduler (hx conform). Both must write the same lines.
package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kadm"
	"github.com/twmb/franz-go/pkg/kerr"
	"github.com/twmb/franz-go/pkg/kgo"
)

type conformEnv struct {
	seed  string
	say   func(string, ...any)
	sleep func(time.Duration)
	ctx   func(time.Duration) (context.Context, func())
	topic func(name string, parts int)
}

type conformScript struct {
	name string
	run  func(e *conformEnv)
}

func cfErr(err error) string {
	var ke *kerr.Error
	switch {
	case err == nil:
		return "ok"
	case errors.As(err, &ke):
		return ke.Message
	case errors.Is(err, kgo.ErrClientClosed):
		return "client closed"
	case errors.Is(err, context.DeadlineExceeded):
		return "deadline"
	case errors.Is(err, context.Canceled):
		return "canceled"
	}
	return err.Error()
}

func (e *conformEnv) client(opts ...kgo.Opt) *kgo.Client {
	c, err := streams.NewClient(streams.SimpleCluster{e.seed}, append([]kgo.Opt{kgo.FetchMaxWait(100 * time.Millisecond)}, opts...)...)
	if err != nil {
		panic(err)
	}
	return c
}

func (e *conformEnv) manual(opts ...kgo.Opt) *kgo.Client {
	return e.client(append([]kgo.Opt{kgo.RecordPartitioner(kgo.ManualPartitioner())}, opts...)...)
}

func (e *conformEnv) txnal(id string, opts ...kgo.Opt) *kgo.Client {
	return e.manual(append([]kgo.Opt{kgo.TransactionalID(id)}, opts...)...)
}

// send produces without waiting; the outcome is said when the promise is called.
func (e *conformEnv) send(c *kgo.Client, topic string, p int32, v string) {
	e.sendCtx(context.Background(), c, topic, p, v)
}

func (e *conformEnv) sendCtx(ctx context.Context, c *kgo.Client, topic string, p int32, v string) {
	c.Produce(ctx, &kgo.Record{Topic: topic, Partition: p, Key: []byte("k"), Value: []byte(v)}, func(r *kgo.Record, err error) {
		if len(v) > 20 {
			v = v[:20]
		}
		if err != nil {
			e.say("  promise %s: %s", v, cfErr(err))
		} else {
			e.say("  promise %s: %s/%d @%d", v, r.Topic, r.Partition, r.Offset)
		}
	})
}

func (e *conformEnv) flush(c *kgo.Client) {
	ctx, cancel := e.ctx(30 * time.Second)
	defer cancel()
	e.say("  flush: %s", cfErr(c.Flush(ctx)))
}

func (e *conformEnv) end(c *kgo.Client, commit bool) {
	ctx, cancel := e.ctx(30 * time.Second)
	defer cancel()
	e.say("  end %v: %s", commit, cfErr(c.EndTransaction(ctx, kgo.TransactionEndTry(commit))))
}

func (e *conformEnv) begin(c *kgo.Client) { e.say("  begin: %s", cfErr(c.BeginTransaction())) }

func (e *conformEnv) close(c *kgo.Client) { c.Close() }

// poll polls until nothing came for a while and says what came, by partition.
func (e *conformEnv) poll(c *kgo.Client, what string) {
	got := map[string][]string{}
	for idle := 0; idle < 2; {
		ctx, cancel := e.ctx(400 * time.Millisecond)
		f := c.PollFetches(ctx)
		cancel()
		if f.IsClientClosed() {
			e.say("  %s: client closed", what)
			return
		}
		n := 0
		f.EachPartition(func(p kgo.FetchTopicPartition) {
			for _, r := range p.Records {
				n++
				k := fmt.Sprintf("%s/%d", p.Topic, p.Partition)
				v := string(r.Value)
				if len(v) > 20 {
					v = v[:20]
				}
				got[k] = append(got[k], fmt.Sprintf("@%d=%s", r.Offset, v))
			}
		})
		if n == 0 {
			idle++
		}
	}
	var ks []string
	for k := range got {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		e.say("  %s %s: %s", what, k, strings.Join(got[k], " "))
	}
	if len(ks) == 0 {
		e.say("  %s: nothing", what)
	}
}

func from(topic string, offs map[int32]int64) kgo.Opt {
	m := map[int32]kgo.Offset{}
	for p, o := range offs {
		m[p] = kgo.NewOffset().At(o)
	}
	return kgo.ConsumePartitions(map[string]map[int32]kgo.Offset{topic: m})
}

func start(topic string, parts ...int32) kgo.Opt {
	m := map[int32]int64{}
	for _, p := range parts {
		m[p] = 0
	}
	return from(topic, m)
}

// read says what a fresh reader sees.
func (e *conformEnv) read(topic string, parts ...int32) {
	c := e.client(start(topic, parts...))
	e.poll(c, "committed")
	c.Close()
	c = e.client(start(topic, parts...), kgo.FetchIsolationLevel(kgo.ReadUncommitted()))
	e.poll(c, "uncommitted")
	c.Close()
}

func (e *conformEnv) member(name, group, topic string, opts ...kgo.Opt) *kgo.Client {
	list := func(m map[string][]int32) string {
		var l []string
		for t, ps := range m {
			for _, p := range ps {
				l = append(l, fmt.Sprintf("%s/%d", t, p))
			}
		}
		sort.Strings(l)
		return strings.Join(l, " ")
	}
	return e.client(append([]kgo.Opt{kgo.ConsumerGroup(group), kgo.ConsumeTopics(topic), kgo.Balancers(kgo.CooperativeStickyBalancer()),
		kgo.SessionTimeout(6 * time.Second), kgo.HeartbeatInterval(300 * time.Millisecond), kgo.DisableAutoCommit(), kgo.ConsumeResetOffset(kgo.NewOffset().AtStart()),
		kgo.OnPartitionsAssigned(func(_ context.Context, _ *kgo.Client, m map[string][]int32) {
			if s := list(m); s != "" {
				e.say("  %s assigned %s", name, s)
			}
		}),
		kgo.OnPartitionsRevoked(func(_ context.Context, _ *kgo.Client, m map[string][]int32) {
			if s := list(m); s != "" {
				e.say("  %s revoked %s", name, s)
			}
		})}, opts...)...)
}

func cfAdmin(c *kgo.Client) *kadm.Client { return kadm.NewClient(c) }

var conformScripts = []conformScript{
	{"produce", func(e *conformEnv) {
		e.topic("t", 2)
		c := e.manual()
		for i := 0; i < 3; i++ {
			e.send(c, "t", 0, fmt.Sprint("a", i))
		}
		e.flush(c)
		e.send(c, "t", 1, "b0")
		e.flush(c)
		e.send(c, "t", 0, "a3")
		e.flush(c)
		e.flush(c)
		e.read("t", 0, 1)
		e.close(c)
	}},
	{"bad-records", func(e *conformEnv) {
		e.topic("t", 2)
		c := e.manual()
		e.send(c, "t", 0, "a0")
		e.flush(c)
		e.send(c, "t", 7, "no such partition")
		e.flush(c)
		e.send(c, "t", 0, strings.Repeat("x", 3<<20))
		e.flush(c)
		e.send(c, "none", 0, "no such topic")
		e.flush(c)
		e.send(c, "t", 0, "a1")
		e.flush(c)
		e.read("t", 0, 1)
		e.close(c)
	}},
	{"cancelled", func(e *conformEnv) {
		e.topic("t", 1)
		c := e.manual()
		ctx, cancel := e.ctx(time.Minute)
		e.sendCtx(ctx, c, "t", 0, "a0")
		e.flush(c)
		cancel()
		e.sendCtx(ctx, c, "t", 0, "a1")
		e.flush(c)
		e.send(c, "t", 0, "a2")
		e.flush(c)
		ctx, cancel = e.ctx(time.Minute)
		cancel()
		e.say("  flush, nothing to flush, cancelled: %s", cfErr(c.Flush(ctx)))
		e.read("t", 0)
		e.close(c)
	}},
	{"commit", func(e *conformEnv) {
		e.topic("t", 2)
		c := e.txnal("x")
		for i := 0; i < 3; i++ {
			e.begin(c)
			e.send(c, "t", 0, fmt.Sprint("a", i))
			e.send(c, "t", 0, fmt.Sprint("b", i))
			e.flush(c)
			e.send(c, "t", 1, fmt.Sprint("c", i))
			e.flush(c)
			e.end(c, true)
		}
		e.read("t", 0, 1)
		e.close(c)
	}},
	{"abort", func(e *conformEnv) {
		e.topic("t", 2)
		c := e.txnal("x")
		for i := 0; i < 4; i++ {
			e.begin(c)
			e.send(c, "t", 0, fmt.Sprint("a", i))
			e.flush(c)
			if i%2 == 0 {
				e.send(c, "t", 1, fmt.Sprint("b", i))
				e.flush(c)
			}
			e.end(c, i > 1)
		}
		e.read("t", 0, 1)
		e.close(c)
	}},
	{"stable-offset", func(e *conformEnv) {
		e.topic("t", 1)
		a, b, d := e.txnal("x"), e.manual(), e.txnal("y")
		e.send(b, "t", 0, "b0")
		e.flush(b)
		e.begin(a)
		e.send(a, "t", 0, "a0")
		e.flush(a)
		e.send(b, "t", 0, "b1")
		e.flush(b)
		e.begin(d)
		e.send(d, "t", 0, "d0")
		e.flush(d)
		e.end(d, true)
		e.read("t", 0)
		e.send(a, "t", 0, "a1")
		e.flush(a)
		e.read("t", 0)
		e.end(a, true)
		e.read("t", 0)
		e.close(a)
		e.close(b)
		e.close(d)
	}},
	{"waiting-reader", func(e *conformEnv) {
		e.topic("t", 1)
		r := e.client(start("t", 0))
		u := e.client(start("t", 0), kgo.FetchIsolationLevel(kgo.ReadUncommitted()))
		a := e.txnal("x")
		e.begin(a)
		e.send(a, "t", 0, "a0")
		e.flush(a)
		e.poll(r, "committed")
		e.poll(u, "uncommitted")
		e.end(a, false)
		e.poll(r, "committed")
		e.begin(a)
		e.send(a, "t", 0, "a1")
		e.flush(a)
		e.end(a, true)
		e.poll(r, "committed")
		e.poll(u, "uncommitted")
		e.close(a)
		e.close(r)
		e.close(u)
	}},
	{"txn-misuse", func(e *conformEnv) {
		e.topic("t", 1)
		c := e.txnal("x")
		e.end(c, true)
		e.end(c, false)
		e.send(c, "t", 0, "outside")
		e.flush(c)
		e.begin(c)
		e.begin(c)
		e.end(c, true)
		e.end(c, true)
		e.begin(c)
		e.send(c, "t", 0, "a0")
		e.flush(c)
		e.end(c, true)
		e.begin(c)
		e.end(c, false)
		e.begin(c)
		e.send(c, "t", 0, "a1")
		e.flush(c)
		e.end(c, true)
		p := e.manual()
		e.begin(p)
		e.close(p)
		e.read("t", 0)
		e.close(c)
	}},
	{"bad-record-in-txn", func(e *conformEnv) {
		e.topic("t", 1)
		c := e.txnal("x")
		e.begin(c)
		e.send(c, "t", 0, "a0")
		e.flush(c)
		e.send(c, "t", 0, strings.Repeat("x", 3<<20))
		e.flush(c)
		e.send(c, "t", 9, "bad")
		e.flush(c)
		e.send(c, "t", 0, "a1")
		e.flush(c)
		e.end(c, true)
		e.begin(c)
		e.send(c, "t", 9, "bad")
		e.flush(c)
		e.end(c, true)
		e.begin(c)
		e.send(c, "t", 0, "a2")
		e.flush(c)
		e.end(c, true)
		e.read("t", 0)
		e.close(c)
	}},
	{"txn-timeout", func(e *conformEnv) {
		e.topic("t", 1)
		c := e.txnal("x", kgo.TransactionTimeout(time.Second))
		e.begin(c)
		e.send(c, "t", 0, "a0")
		e.flush(c)
		e.sleep(4 * time.Second)
		e.end(c, true)
		e.begin(c)
		e.send(c, "t", 0, "later")
		e.flush(c)
		e.end(c, true)
		e.begin(c)
		e.end(c, false)
		e.read("t", 0)
		e.close(c)
	}},
	{"txn-timeout-abort", func(e *conformEnv) {
		e.topic("t", 1)
		c := e.txnal("x", kgo.TransactionTimeout(time.Second))
		e.begin(c)
		e.send(c, "t", 0, "a0")
		e.flush(c)
		e.sleep(4 * time.Second)
		e.send(c, "t", 0, "a1")
		e.flush(c)
		e.end(c, true)
		e.begin(c)
		e.send(c, "t", 0, "later")
		e.flush(c)
		e.end(c, true)
		e.begin(c)
		e.end(c, false)
		e.read("t", 0)
		e.close(c)
	}},
	{"txn-timeout-noticed", func(e *conformEnv) {
		e.topic("t", 1)
		c := e.txnal("x", kgo.TransactionTimeout(time.Second))
		e.begin(c)
		e.send(c, "t", 0, "a0")
		e.flush(c)
		e.sleep(4 * time.Second)
		e.end(c, false)
		e.begin(c)
		e.send(c, "t", 0, "later")
		e.flush(c)
		e.end(c, false)
		e.read("t", 0)
		e.close(c)
	}},
	{"txn-two-clients", func(e *conformEnv) {
		e.topic("t", 1)
		a := e.txnal("x")
		e.begin(a)
		e.send(a, "t", 0, "a0")
		e.flush(a)
		b := e.txnal("x")
		e.begin(b)
		e.send(b, "t", 0, "b0")
		e.flush(b)
		e.end(b, true)
		e.send(a, "t", 0, "a1")
		e.flush(a)
		e.end(a, true)
		e.read("t", 0)
		e.close(a)
		e.close(b)
	}},
	{"closed", func(e *conformEnv) {
		e.topic("t", 1)
		c := e.manual(start("t", 0))
		e.send(c, "t", 0, "a0")
		e.flush(c)
		e.poll(c, "poll")
		e.close(c)
		e.poll(c, "poll")
		e.close(c)
		e.read("t", 0)
	}},
	{"pause", func(e *conformEnv) {
		e.topic("t", 2)
		p := e.manual()
		put := func(vs ...string) {
			for i, v := range vs {
				e.send(p, "t", int32(i), v)
				e.flush(p)
			}
		}
		put("a0", "b0")
		c := e.client(start("t", 0, 1))
		e.poll(c, "poll")
		c.PauseFetchPartitions(map[string][]int32{"t": {0}})
		e.sleep(500 * time.Millisecond) // the fetch under way ends
		put("a1", "b1")
		e.poll(c, "paused 0")
		c.PauseFetchPartitions(map[string][]int32{"t": {0, 1}})
		e.sleep(500 * time.Millisecond)
		put("a2", "b2")
		e.poll(c, "paused both")
		c.ResumeFetchPartitions(map[string][]int32{"t": {0}})
		e.poll(c, "resumed 0")
		put("a3", "b3")
		c.SetOffsets(map[string]map[int32]kgo.EpochOffset{"t": {0: {Epoch: -1, Offset: 1}}})
		e.poll(c, "set 0 to 1")
		c.SetOffsets(map[string]map[int32]kgo.EpochOffset{"t": {1: {Epoch: -1, Offset: 0}}})
		e.poll(c, "set 1 to 0, still paused")
		c.ResumeFetchPartitions(map[string][]int32{"t": {1}})
		e.poll(c, "resumed 1")
		e.close(c)
		e.close(p)
	}},
	{"paused-from-start", func(e *conformEnv) {
		e.topic("t", 2)
		p := e.manual()
		e.send(p, "t", 0, "a0")
		e.flush(p)
		e.send(p, "t", 1, "b0")
		e.flush(p)
		c := e.client(start("t", 0, 1))
		c.PauseFetchPartitions(map[string][]int32{"t": {0, 1}})
		e.sleep(time.Second)
		c.SetOffsets(map[string]map[int32]kgo.EpochOffset{"t": {0: {Epoch: -1, Offset: 0}}})
		c.ResumeFetchPartitions(map[string][]int32{"t": {0}})
		e.poll(c, "resumed 0")
		e.send(p, "t", 0, "a1")
		e.flush(p)
		e.poll(c, "resumed 0")
		e.close(c)
		e.close(p)
	}},
	{"start-inside", func(e *conformEnv) {
		e.topic("t", 1)
		c := e.txnal("x")
		for i := 0; i < 3; i++ {
			e.begin(c)
			e.send(c, "t", 0, fmt.Sprint("a", i))
			e.send(c, "t", 0, fmt.Sprint("b", i))
			e.flush(c)
			e.end(c, i != 1)
		}
		for o := int64(0); o < 9; o++ {
			r := e.client(from("t", map[int32]int64{0: o}))
			e.poll(r, fmt.Sprint("from ", o))
			r.Close()
		}
		e.close(c)
	}},
	{"group", func(e *conformEnv) {
		e.topic("t", 3)
		p := e.manual()
		for i := 0; i < 3; i++ {
			e.send(p, "t", int32(i), "v0")
			e.flush(p)
		}
		a := e.member("a", "g", "t")
		e.poll(a, "a")
		e.send(p, "t", 1, "v1")
		e.flush(p)
		e.poll(a, "a")
		e.close(a)
		e.say("  closed")
		a = e.member("a", "g", "t", kgo.AdjustFetchOffsetsFn(func(_ context.Context, m map[string]map[int32]kgo.Offset) (map[string]map[int32]kgo.Offset, error) {
			var ps []int
			for p := range m["t"] {
				ps = append(ps, int(p))
			}
			sort.Ints(ps)
			e.say("  adjust %v", ps)
			m["t"][1] = kgo.NewOffset().At(1)
			m["t"][2] = kgo.NewOffset().At(1)
			return m, nil
		}))
		e.poll(a, "a")
		e.close(a)
		e.close(p)
	}},
	{"group-offsets", func(e *conformEnv) {
		e.topic("t", 1)
		p := e.manual()
		for i := 0; i < 4; i++ {
			e.send(p, "t", 0, fmt.Sprint("v", i))
			e.flush(p)
		}
		marks := []kgo.Opt{kgo.AutoCommitMarks(), kgo.AutoCommitInterval(time.Second)}
		member := func() *kgo.Client {
			return e.client(append(marks, kgo.ConsumerGroup("g"), kgo.ConsumeTopics("t"), kgo.Balancers(kgo.CooperativeStickyBalancer()),
				kgo.SessionTimeout(6*time.Second), kgo.HeartbeatInterval(300*time.Millisecond), kgo.ConsumeResetOffset(kgo.NewOffset().AtStart()),
				kgo.OnPartitionsRevoked(func(context.Context, *kgo.Client, map[string][]int32) { e.say("  revoked") }))...)
		}
		mark := func(c *kgo.Client, o int64) {
			c.MarkCommitRecords(&kgo.Record{Topic: "t", Partition: 0, Offset: o})
		}
		a := member()
		e.poll(a, "a")
		mark(a, 0)
		mark(a, 1)
		e.sleep(3 * time.Second)
		e.close(a)
		a = member()
		e.poll(a, "a, 2 were marked")
		mark(a, 0)
		e.sleep(3 * time.Second)
		e.close(a)
		a = member()
		e.poll(a, "a, an old one was marked")
		mark(a, 3)
		e.close(a)
		a = member()
		e.poll(a, "a, marked just before the end")
		e.close(a)
		e.close(p)
	}},
	{"group-two", func(e *conformEnv) {
		e.topic("t", 2)
		p := e.manual()
		a := e.member("a", "g", "t")
		e.poll(a, "a")
		b := e.member("b", "g", "t")
		for i := 0; i < 8; i++ { // both poll while the group settles
			e.quietPoll(a)
			e.quietPoll(b)
		}
		e.say("  settled")
		e.close(b)
		for i := 0; i < 8; i++ {
			e.quietPoll(a)
		}
		e.close(a)
		e.close(p)
	}},
	{"admin", func(e *conformEnv) {
		c := e.client()
		ad := cfAdmin(c)
		ctx := context.Background()
		create := func(n int32, names ...string) {
			rs, err := ad.CreateTopics(ctx, n, 1, nil, names...)
			e.say("  create %v: %s", names, cfErr(err))
			for _, r := range rs.Sorted() {
				e.say("    %s: %s", r.Topic, cfErr(r.Err))
			}
		}
		list := func(names ...string) {
			rs, err := ad.ListTopicsWithInternal(ctx, names...)
			e.say("  list %v: %s", names, cfErr(err))
			for _, r := range rs.Sorted() {
				e.say("    %s: %s, %d partitions, %d replicas", r.Topic, cfErr(r.Err), len(r.Partitions.Numbers()), r.Partitions.NumReplicas())
			}
		}
		list("t")
		create(3, "t")
		create(2, "t")
		create(2, "t", "u")
		list("t", "u", "v")
		ad.DeleteTopics(ctx, "t", "w")
		list("t", "u")
		gs, err := ad.DescribeGroups(ctx, "g")
		e.say("  describe: %s %q", cfErr(err), gs["g"].Protocol)
		m := e.member("m", "g", "u")
		e.quietPoll(m)
		e.quietPoll(m)
		gs, err = ad.DescribeGroups(ctx, "g")
		e.say("  describe: %s %q", cfErr(err), gs["g"].Protocol)
		e.close(m)
		e.close(c)
	}},
}

func (e *conformEnv) quietPoll(c *kgo.Client) {
	ctx, cancel := e.ctx(400 * time.Millisecond)
	c.PollFetches(ctx)
	cancel()
}
