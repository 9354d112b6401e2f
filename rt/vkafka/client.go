//go:build go1.23

package vkafka

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"time"

	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
	"github.com/twmb/franz-go/pkg/kerr"
	"github.com/twmb/franz-go/pkg/kgo"
	"github.com/twmb/franz-go/pkg/kmsg"
)

var (
	errNotInTxn = errors.New("cannot produce record transactionally if not in a transaction")
	errNoTopic  = errors.New("cannot produce record with no topic and no default topic")
)

type tp struct {
	topic string
	part  int32
}

type pend struct {
	ctx     context.Context
	r       *kgo.Record
	promise func(*kgo.Record, error)
	part    int32
	err     error
}

type cursor struct {
	tp
	p      *Part
	offset int64
	paused bool
	live   bool
}

type fetched struct {
	cur  *cursor
	recs []*kgo.Record
}

type groupCmd struct {
	assign map[string][]int32
	revoke map[string][]int32
	leave  bool
	run    func() // in the group's goroutine
	done   func()
}

// Client is the backend of one kgo.Client.
type Client struct {
	K    *kgo.Client
	Cfg  kgo.VerifCfg
	C    *Cluster
	ID   int
	Proc int

	// producer
	po       vsched.Obj
	pvc      vsched.SyncVC // what the locks of a producer order
	inTxn    bool
	txn      *Txn
	fenced   error
	timedOut bool
	buf      []*pend
	inflight int
	sender   *vsched.Thread
	sIdle    bool
	sStarted bool
	flushed  []chan struct{}
	parters  map[string]kgo.TopicPartitioner
	Begins   int
	dead     bool

	// consumer
	co       vsched.Obj
	cursors  []*cursor
	paused   map[tp]bool
	pausedT  map[string]bool
	ready    []fetched
	notify   chan struct{}
	closedCh chan struct{}
	closed   bool

	// group
	group    *Group
	gcmds    []groupCmd
	gth      *vsched.Thread
	gIdle    bool
	Owned    map[tp]bool
	left     bool
	Marked   map[string]map[int32]int64 // the highest ever marked
	heads    map[string]map[int32]int64 // and since the partition was assigned
	ticking  bool
	polled   []*kgo.Record
	Polls    int
	lastPoll map[tp]int64
}

func newClient(k *kgo.Client) kgo.VerifBackend {
	cfg := k.VerifCfg()
	seed := ""
	if len(cfg.SeedBrokers) > 0 {
		seed = cfg.SeedBrokers[0]
	}
	clientSeq++
	c := &Client{K: k, Cfg: cfg, C: Get(seed), ID: clientSeq, Proc: vsched.Group(), parters: map[string]kgo.TopicPartitioner{},
		paused: map[tp]bool{}, pausedT: map[string]bool{}, notify: make(chan struct{}, 1), closedCh: make(chan struct{}), Owned: map[tp]bool{},
		Marked: map[string]map[int32]int64{}, heads: map[string]map[int32]int64{}}
	allClients = append(allClients, c)
	for _, t := range sortedTopics(cfg.Partitions) {
		for _, p := range sortedParts(cfg.Partitions[t]) {
			at, _, _ := cfg.Partitions[t][p].VerifParts()
			if at < 0 {
				at = 0
			}
			c.addCursor(t, p, at)
		}
	}
	if cfg.Group != "" && len(cfg.Topics) > 0 {
		g := c.C.Group(cfg.Group)
		c.group = g
		g.Members = append(g.Members, c)
		vsched.GoNamed("kgo.group", c.groupLoop)
		if g.OnJoin != nil {
			g.OnJoin(c)
		}
		g.rejoin(c)
	}
	return c
}

// ---- consumer ------------------------------------------------------------------------------------

func (c *Client) addCursor(t string, p int32, at int64) {
	part := c.C.Part(t, p)
	for _, cu := range c.cursors {
		if cu.topic == t && cu.part == p {
			cu.offset = at
			cu.live = true
			c.wakePoll()
			return
		}
	}
	cu := &cursor{tp: tp{t, p}, p: part, offset: at, live: true}
	c.cursors = append(c.cursors, cu)
	sort.Slice(c.cursors, func(i, j int) bool {
		a, b := c.cursors[i], c.cursors[j]
		if a.topic != b.topic {
			return a.topic < b.topic
		}
		return a.part < b.part
	})
	if part != nil {
		part.subs = append(part.subs, c)
	}
	c.wakePoll()
}

func (c *Client) wakePoll() {
	if c.dead || c.closed {
		return
	}
	vsched.TrySendNow(c.notify, struct{}{})
}

func (c *Client) isPaused(t tp) bool { return c.paused[t] || c.pausedT[t.topic] }

// fetch reads what is available for one cursor.
func (c *Client) fetch(cu *cursor) []*kgo.Record {
	if cu.p == nil {
		cu.p = c.C.Part(cu.topic, cu.part)
		if cu.p == nil {
			return nil
		}
		cu.p.subs = append(cu.p.subs, c)
	}
	cu.p.o.Read(403)
	end := int64(len(cu.p.Log))
	if c.Cfg.ReadCommitted {
		end = cu.p.LSO()
	}
	var out []*kgo.Record
	for cu.offset < end {
		e := cu.p.Log[cu.offset]
		if c.C.MaxFetch > 0 && len(out) >= c.C.MaxFetch {
			break
		}
		cu.offset++
		if e.Control || e.Gone || (c.Cfg.ReadCommitted && !e.Visible()) {
			continue
		}
		out = append(out, &kgo.Record{Key: cp(e.Key), Value: cp(e.Value), Headers: append([]kgo.RecordHeader(nil), e.Headers...),
			Timestamp: e.Time, Topic: cu.topic, Partition: cu.part, Offset: e.Offset, LeaderEpoch: 0})
	}
	return out
}

func (c *Client) fetchAll(only func(tp) bool) {
	for _, cu := range c.cursors {
		if !cu.live || c.isPaused(cu.tp) || (only != nil && !only(cu.tp)) {
			continue
		}
		if recs := c.fetch(cu); len(recs) > 0 {
			c.ready = append(c.ready, fetched{cu, recs})
		}
	}
}

func (c *Client) take() kgo.Fetches {
	if len(c.ready) == 0 {
		c.fetchAll(nil)
	}
	if len(c.ready) == 0 {
		return nil
	}
	var f kgo.Fetch
	for _, r := range c.ready {
		if vsched.Tracing() {
			vsched.Tracef("FETCH client%d %s/%d [%d..%d]", c.ID, r.cur.topic, r.cur.part, r.recs[0].Offset, r.recs[len(r.recs)-1].Offset)
		}
		f.Topics = append(f.Topics, kgo.FetchTopic{Topic: r.cur.topic, Partitions: []kgo.FetchPartition{{Partition: r.cur.part, Records: r.recs, HighWatermark: r.recs[len(r.recs)-1].Offset + 1}}})
	}
	c.ready = nil
	return kgo.Fetches{f}
}

func (c *Client) PollFetches(ctx context.Context) kgo.Fetches { return c.PollRecords(ctx, 0) }

func (c *Client) PollRecords(ctx context.Context, max int) kgo.Fetches {
	c.Polls++
	if c.Cfg.AutoCommit && !c.Cfg.AutoMarks { // what was polled before counts as done
		c.mark(c.polled...)
		c.polled = nil
	}
	for {
		vsched.Point()
		c.co.Write(404)
		if ctx != nil && ctx.Err() != nil {
			return kgo.VerifErrFetch(ctx.Err())
		}
		if !c.closed {
			bad := c.fetchErr()
			if bad == 2 {
				return kgo.Fetches{c.errFetch()}
			}
			if f := c.take(); f != nil {
				if bad == 1 {
					f = append(f, c.errFetch())
				}
				if lag := c.lag(f); lag > 0 {
					nap(lag)
					if c.closed {
						return kgo.VerifErrFetch(kgo.ErrClientClosed)
					}
				}
				if c.Cfg.AutoCommit && !c.Cfg.AutoMarks && c.group != nil {
					c.polled = f.Records()
				}
				return f
			}
		}
		if ctx == nil {
			return nil
		}
		if c.closed {
			return kgo.VerifErrFetch(kgo.ErrClientClosed)
		}
		switch vsched.Select(false, vsched.RecvCase(c.notify), vsched.RecvCase(c.closedCh), vsched.RecvCase(ctx.Done())) {
		case 1:
			return kgo.VerifErrFetch(kgo.ErrClientClosed)
		case 2:
			return kgo.VerifErrFetch(ctx.Err())
		}
	}
}

// fetchErr decides whether a poll reports an error: 0 no, 1 after records, 2 instead of them.
func (c *Client) fetchErr() int {
	if c.C.FetchErrs == 0 {
		return 0
	}
	if len(c.ready) == 0 {
		c.fetchAll(nil)
	}
	if len(c.ready) == 0 {
		return 0
	}
	n := vsched.Choose(3)
	if n > 0 {
		c.C.FetchErrs--
		vsched.Tracef("FETCH client%d reports an error (%d)", c.ID, n)
	}
	return n
}

// errFetch is what kgo injects when a partition cannot be read for the moment.
func (c *Client) errFetch() kgo.Fetch {
	cu := c.cursors[0]
	return kgo.Fetch{Topics: []kgo.FetchTopic{{Topic: cu.topic, Partitions: []kgo.FetchPartition{{Partition: cu.part, Err: kerr.NotLeaderForPartition}}}}}
}

func (c *Client) lag(f kgo.Fetches) (max int64) {
	if c.C.FetchLag == nil || c.group != nil {
		return 0
	}
	for _, t := range f[0].Topics {
		if l := c.C.FetchLag(c, t.Topic); l > max {
			max = l
		}
	}
	return max
}

func (c *Client) BufferedFetchRecords() int64 {
	n := 0
	for _, r := range c.ready {
		n += len(r.recs)
	}
	return int64(n)
}

// A fetch may already be buffered when a partition is paused: it is still returned by the next poll.
func (c *Client) prefetch() {
	if c.C.BufferFetch && len(c.ready) == 0 && vsched.Choose(2) == 1 {
		c.fetchAll(nil)
		if len(c.ready) > 0 {
			c.wakePoll()
		}
	}
}

func (c *Client) PauseFetchTopics(topics ...string) []string {
	vsched.Point()
	c.co.Write(405)
	c.prefetch()
	for _, t := range topics {
		c.pausedT[t] = true
	}
	return sortedTopics(c.pausedT)
}

func (c *Client) PauseFetchPartitions(m map[string][]int32) map[string][]int32 {
	vsched.Point()
	c.co.Write(406)
	if len(m) > 0 {
		c.prefetch()
	}
	for t, ps := range m {
		for _, p := range ps {
			c.paused[tp{t, p}] = true
		}
	}
	out := map[string][]int32{}
	for t := range c.paused {
		out[t.topic] = append(out[t.topic], t.part)
	}
	return out
}

func (c *Client) ResumeFetchTopics(topics ...string) {
	vsched.Point()
	c.co.Write(407)
	for _, t := range topics {
		delete(c.pausedT, t)
	}
	c.wakePoll()
}

func (c *Client) ResumeFetchPartitions(m map[string][]int32) {
	vsched.Point()
	c.co.Write(408)
	for t, ps := range m {
		for _, p := range ps {
			delete(c.paused, tp{t, p})
		}
	}
	c.wakePoll()
}

// SetOffsets discards every buffered fetch (the consumer session restarts) and moves the cursors. Buffered
// fetches of other partitions are fetched again.
func (c *Client) SetOffsets(m map[string]map[int32]kgo.EpochOffset) {
	vsched.Point()
	c.co.Write(409)
	c.dropReady()
	for _, cu := range c.cursors {
		if t, ok := m[cu.topic]; ok {
			if eo, ok := t[cu.part]; ok && (cu.live || c.group == nil) {
				cu.offset = eo.Offset
				cu.live = true
			}
		}
	}
	c.wakePoll()
}

func (c *Client) dropReady() {
	for _, r := range c.ready {
		if o := r.recs[0].Offset; o < r.cur.offset {
			r.cur.offset = o
		}
	}
	c.ready = nil
}

func (c *Client) AddConsumeTopics(...string) {}
func (c *Client) AllowRebalance()            {}

// ---- group ---------------------------------------------------------------------------------------

func (c *Client) groupLoop() {
	c.gth = vsched.Cur()
	for {
		for len(c.gcmds) == 0 {
			c.gIdle = true
			vsched.Block("group idle")
		}
		c.gIdle = false
		c.co.Write(420)
		cmd := c.gcmds[0]
		c.gcmds = c.gcmds[1:]
		if cmd.leave {
			if c.left {
				cmd.done()
				return
			}
			if c.group.OnLeaving != nil {
				c.group.OnLeaving(c, len(c.Owned))
			}
			all := map[string][]int32{}
			for t := range c.Owned {
				all[t.topic] = append(all[t.topic], t.part)
			}
			for _, ps := range all {
				sort.Slice(ps, func(i, j int) bool { return ps[i] < ps[j] })
			}
			c.dropReady()
			for _, cu := range c.cursors {
				cu.live = false
			}
			if c.Cfg.OnRevoked != nil && len(all) > 0 {
				c.Cfg.OnRevoked(context.Background(), c.K, all)
			}
			c.forget(all)
			c.Owned = map[tp]bool{}
			c.left = true
			c.group.remove(c)
			c.group.rejoin(c)
			c.group.o.Write(421)
			if vsched.Tracing() {
				vsched.Tracef("GROUP client%d left", c.ID)
			}
			if c.group.OnLeave != nil {
				c.group.OnLeave(c)
			}
			cmd.done()
			return
		}
		if cmd.run != nil {
			cmd.run()
		}
		if cmd.revoke != nil {
			c.doRevoke(cmd.revoke)
		}
		if cmd.assign != nil {
			c.doAssign(cmd.assign)
		}
		if cmd.done != nil {
			cmd.done()
		}
	}
}

// commitHeads commits what was marked since the last revocation, as the client does at an interval.
func (c *Client) commitHeads() {
	if !c.Cfg.AutoCommit || c.dead || c.left {
		return
	}
	for t, ps := range c.heads {
		for p, o := range ps {
			if !c.Owned[tp{t, p}] {
				continue
			}
			if c.group.Committed[t] == nil {
				c.group.Committed[t] = map[int32]int64{}
			}
			c.group.Committed[t][p] = o
		}
	}
}

// forget ends a revocation: without a callback for it, the client commits first.
func (c *Client) forget(m map[string][]int32) {
	if c.Cfg.OnRevoked == nil {
		c.commitHeads()
	}
	for t, ps := range m {
		for _, p := range ps {
			delete(c.heads[t], p)
		}
	}
}

func (c *Client) doRevoke(m map[string][]int32) {
	if vsched.Tracing() {
		vsched.Tracef("GROUP client%d revoke %v", c.ID, m)
	}
	c.dropReady()
	for _, cu := range c.cursors {
		for _, p := range m[cu.topic] {
			if p == cu.part {
				cu.live = false
			}
		}
	}
	if c.Cfg.OnRevoked != nil {
		c.Cfg.OnRevoked(context.Background(), c.K, m)
	}
	c.forget(m)
	for t, ps := range m {
		for _, p := range ps {
			delete(c.Owned, tp{t, p})
		}
	}
	c.group.o.Write(422)
}

func (c *Client) doAssign(m map[string][]int32) {
	if vsched.Tracing() {
		vsched.Tracef("GROUP client%d assign %v", c.ID, m)
	}
	for t, ps := range m {
		for _, p := range ps {
			c.Owned[tp{t, p}] = true
		}
	}
	if c.Cfg.OnAssigned != nil {
		c.Cfg.OnAssigned(context.Background(), c.K, m)
	}
	vsched.Point()
	c.group.o.Read(423)
	offs := map[string]map[int32]kgo.Offset{}
	for t, ps := range m {
		offs[t] = map[int32]kgo.Offset{}
		for _, p := range ps {
			o := c.Cfg.ResetOffset
			if ct, ok := c.group.Committed[t]; ok {
				if at, ok := ct[p]; ok {
					o = kgo.NewOffset().At(at)
				}
			}
			offs[t][p] = o
		}
	}
	if c.Cfg.Adjust != nil {
		a, err := c.Cfg.Adjust(context.Background(), offs)
		if err == nil {
			offs = a
		}
	}
	vsched.Point()
	c.co.Write(424)
	for _, t := range sortedTopics(offs) {
		for _, p := range sortedParts(offs[t]) {
			if !c.Owned[tp{t, p}] {
				continue
			}
			at, rel, _ := offs[t][p].VerifParts()
			part := c.C.Part(t, p)
			if at == -1 && part != nil {
				at = int64(len(part.Log))
			}
			if at < 0 {
				at = 0
			}
			at += rel
			if part != nil && at > int64(len(part.Log)) {
				at = int64(len(part.Log))
			}
			c.addCursor(t, p, at)
		}
	}
}

func (c *Client) command(cmd groupCmd) {
	c.gcmds = append(c.gcmds, cmd)
	c.co.Write(425)
	if c.gIdle {
		c.gIdle = false
		c.gth.Wake()
	}
}

// Assign hands partitions to the member; done (may be nil) runs when its callbacks have returned.
func (c *Client) Assign(topic string, parts []int32, done func()) {
	vsched.Point()
	c.command(groupCmd{assign: map[string][]int32{topic: append([]int32(nil), parts...)}, done: done})
}

// Revoke takes partitions away from the member; done runs when its callbacks have returned.
func (c *Client) Revoke(topic string, parts []int32, done func()) {
	vsched.Point()
	c.command(groupCmd{revoke: map[string][]int32{topic: append([]int32(nil), parts...)}, done: done})
}

// Left reports whether the member left its group.
func (c *Client) Left() bool { return c.left }

// Closed reports whether the client was closed.
func (c *Client) Closed() bool { return c.closed }

// Crash forgets a member whose process was killed (the coordinator's session timeout).
func (c *Client) Crash() {
	c.dead = true
	if c.group != nil {
		c.group.remove(c)
		c.left = true
	}
	for _, cu := range c.cursors {
		if cu.p != nil {
			for i, s := range cu.p.subs {
				if s == c {
					cu.p.subs = append(cu.p.subs[:i:i], cu.p.subs[i+1:]...)
					break
				}
			}
		}
	}
}

// CrashProc kills a process: its threads stop where they are, its clients vanish; open transactions stay open until
// they time out.
func CrashProc(g int) {
	vsched.KillGroup(g)
	CrashClients(g)
}

// CrashClients lets the clients of a process vanish.
func CrashClients(g int) {
	for _, c := range allClients {
		if c.Proc == g {
			c.Crash()
		}
	}
}

func (c *Client) LeaveGroup() {
	if c.group == nil {
		return
	}
	vsched.Point()
	c.co.Write(426)
	if c.left {
		return
	}
	c.dropReady()
	for _, cu := range c.cursors {
		cu.live = false
	}
	ch := make(chan struct{})
	c.command(groupCmd{leave: true, done: func() { vsched.Close(ch) }})
	vsched.Recv(ch)
	if c.C.LeaveDelay != nil {
		nap(c.C.LeaveDelay(c))
	}
}

func (c *Client) CloseAllowingRebalance() { c.Close() }

func (c *Client) Close() {
	if c.group != nil {
		c.LeaveGroup()
	}
	vsched.Point()
	c.co.Write(427)
	c.po.Write(427)
	if c.closed {
		return
	}
	c.closed = true
	c.ready = nil
	for _, cu := range c.cursors {
		cu.live = false
	}
	if vsched.Tracing() {
		vsched.Tracef("client%d closed", c.ID)
	}
	vsched.Close(c.closedCh)
	if c.sIdle {
		c.sIdle = false
		c.sender.Wake()
	}
}

func (c *Client) GroupMetadata() (string, int32) { return "", -1 }
func (c *Client) ForceRebalance() {
	if c.group != nil && !c.left && !c.closed {
		vsched.Point()
		c.group.rejoin(c)
	}
}
func (c *Client) UncommittedOffsets() map[string]map[int32]kgo.EpochOffset {
	return nil
}
func (c *Client) CommittedOffsets() map[string]map[int32]kgo.EpochOffset { return nil }
func (c *Client) CommitRecords(ctx context.Context, rs ...*kgo.Record) error {
	c.mark(rs...)
	return nil
}

func (c *Client) MarkCommitRecords(rs ...*kgo.Record) {
	vsched.Point()
	c.co.Write(428)
	if c.Cfg.AutoMarks {
		c.mark(rs...)
	}
}

func (c *Client) mark(rs ...*kgo.Record) {
	if every := int64(c.Cfg.CommitEvery); c.Cfg.AutoCommit && c.group != nil && every > 0 && !c.ticking {
		c.ticking = true
		vsched.NewVTimerGroup(every, 0, 0, func() { c.ticking = false; c.commitHeads() })
	}
	for _, r := range rs {
		if c.Marked[r.Topic] == nil {
			c.Marked[r.Topic] = map[int32]int64{}
		}
		if c.Marked[r.Topic][r.Partition] < r.Offset+1 {
			c.Marked[r.Topic][r.Partition] = r.Offset + 1
		}
		if c.heads[r.Topic] == nil {
			c.heads[r.Topic] = map[int32]int64{}
		}
		if c.heads[r.Topic][r.Partition] < r.Offset+1 {
			c.heads[r.Topic][r.Partition] = r.Offset + 1
		}
		if OnMark != nil {
			OnMark(c, r)
		}
	}
}

// OnMark observes records marked for commit on the consumer group.
var OnMark func(c *Client, r *kgo.Record)

func init() { vsched.OnReset(func() { OnMark = nil }) }

func (c *Client) CommitUncommittedOffsets(context.Context) error { return nil }
func (c *Client) CommitOffsetsSync(ctx context.Context, u map[string]map[int32]kgo.EpochOffset, onDone func(*kgo.Client, *kmsg.OffsetCommitRequest, *kmsg.OffsetCommitResponse, error)) {
	if onDone != nil {
		onDone(c.K, nil, nil, nil)
	}
}
func (c *Client) CommitOffsets(ctx context.Context, u map[string]map[int32]kgo.EpochOffset, onDone func(*kgo.Client, *kmsg.OffsetCommitRequest, *kmsg.OffsetCommitResponse, error)) {
	if onDone != nil {
		onDone(c.K, nil, nil, nil)
	}
}
func (c *Client) ForceMetadataRefresh() {}

// ---- producer ------------------------------------------------------------------------------------

func (c *Client) BufferedProduceRecords() int64 { return int64(len(c.buf) + c.inflight) }

func (c *Client) ProduceSync(ctx context.Context, rs ...*kgo.Record) kgo.ProduceResults {
	var res kgo.ProduceResults
	done := make(chan struct{})
	n := len(rs)
	if n == 0 {
		return nil
	}
	for _, r := range rs {
		c.Produce(ctx, r, func(r *kgo.Record, err error) {
			res = append(res, kgo.ProduceResult{Record: r, Err: err})
			n--
			if n == 0 {
				vsched.Close(done)
			}
		})
	}
	vsched.Recv(done)
	return res
}

func (c *Client) TryProduce(ctx context.Context, r *kgo.Record, promise func(*kgo.Record, error)) {
	c.Produce(ctx, r, promise)
}

func (c *Client) Produce(ctx context.Context, r *kgo.Record, promise func(*kgo.Record, error)) {
	vsched.Point()
	c.po.Write(440)
	if ctx == nil {
		ctx = context.Background()
	}
	if r.Context == nil {
		r.Context = ctx
	}
	if r.Topic == "" {
		r.Topic = c.Cfg.DefaultTopic
	}
	if r.Timestamp.IsZero() {
		r.Timestamp = now()
	}
	c.pvc.ReleaseVC()
	pd := &pend{ctx: ctx, r: r, promise: promise}
	t := c.C.Topics[r.Topic]
	switch {
	case c.closed:
		pd.err = kgo.ErrClientClosed
	case r.Topic == "":
		pd.err = errNoTopic
	case c.Cfg.TxnID != nil && !c.inTxn:
		pd.err = errNotInTxn
	case t == nil:
		pd.err = kerr.UnknownTopicOrPartition
	case len(r.Value)+len(r.Key) > c.C.RecordLimit:
		pd.err = kerr.MessageTooLarge
	default:
		pt := c.parters[r.Topic]
		if pt == nil {
			pt = c.Cfg.Partitioner.ForTopic(r.Topic)
			c.parters[r.Topic] = pt
		}
		pt.RequiresConsistency(r)
		pick := pt.Partition(r, len(t.Parts))
		if pick < 0 || pick >= len(t.Parts) {
			pd.err = fmt.Errorf("invalid record partitioning choice of %d from %d available", pick, len(t.Parts))
		} else {
			pd.part = int32(pick)
		}
	}
	c.buf = append(c.buf, pd)
	if !c.sStarted {
		c.sStarted = true
		vsched.GoLow("kgo.sender", c.sendLoop)
	} else if c.sIdle {
		c.sIdle = false
		c.sender.Wake()
	}
}

func (c *Client) sendLoop() {
	c.sender = vsched.Cur()
	for {
		c.po.Write(441)
		for len(c.buf) == 0 {
			for _, f := range c.flushed {
				vsched.CloseNow(f)
			}
			c.flushed = nil
			c.sIdle = true
			vsched.Block("sender idle")
			c.po.Write(441)
			c.sIdle = false
		}
		vsched.Low()
		c.po.Write(442)
		if len(c.buf) == 0 {
			continue
		}
		// which partition's batch goes out first is up to the brokers
		var parts []tp
		for _, p := range c.buf {
			k := tp{p.r.Topic, p.part}
			found := false
			for _, q := range parts {
				found = found || q == k
			}
			if !found {
				parts = append(parts, k)
			}
		}
		k := parts[0]
		if len(parts) > 1 {
			k = parts[vsched.Choose(len(parts))]
		}
		var batch, rest []*pend
		for _, p := range c.buf {
			if (tp{p.r.Topic, p.part}) == k {
				batch = append(batch, p)
			} else {
				rest = append(rest, p)
			}
		}
		c.buf = rest
		c.inflight = len(batch)
		c.send(k, batch)
		if c.C.AckDelay != nil {
			nap(c.C.AckDelay(c, k.topic))
		}
		for _, p := range batch {
			if p.promise != nil {
				c.pvc.Acquire()
				p.promise(p.r, p.err)
				c.pvc.ReleaseVC()
			}
			c.inflight--
		}
	}
}

func nap(d int64) {
	if d > 0 {
		t := vsched.Cur()
		vsched.NewVTimer(d, 0, func() { t.Wake() })
		vsched.Block("network")
	}
}

func (c *Client) send(k tp, batch []*pend) {
	part := c.C.Part(k.topic, k.part)
	if c.closed {
		for _, p := range batch {
			p.err = kgo.ErrClientClosed
		}
		return
	}
	fault := c.C.FaultWho == nil || c.C.FaultWho(c)
	if c.C.FaultProduce > 0 && fault && part != nil && vsched.Choose(2) == 1 {
		c.C.FaultProduce--
		vsched.Tracef("BROKER rejects batch for %s/%d", k.topic, k.part)
		for _, p := range batch {
			if p.err == nil {
				p.err = kerr.InvalidProducerEpoch
			}
		}
		if c.Cfg.TxnID != nil {
			c.fenced = kerr.InvalidProducerEpoch
		}
		return
	}
	n := 0
	for _, p := range batch {
		if p.err != nil {
			continue
		}
		if p.ctx.Err() != nil {
			p.err = p.ctx.Err()
			continue
		}
		if c.fenced != nil {
			c.timedOut = false
			p.err = c.fenced
			continue
		}
		if c.C.FaultRecord > 0 && fault && (c.C.FaultTopic == "" || c.C.FaultTopic == k.topic) && vsched.Choose(2) == 1 {
			c.C.FaultRecord--
			if c.C.Rejected == nil {
				c.C.Rejected = map[string]bool{}
			}
			c.C.Rejected[k.topic+" "+string(p.r.Value)] = true
			vsched.Tracef("BROKER rejects record %s/%d %q", k.topic, k.part, p.r.Value)
			p.err = kerr.InvalidRecord
			continue
		}
		e := &Entry{Key: cp(p.r.Key), Value: cp(p.r.Value), Time: p.r.Timestamp, Proc: c.Proc}
		for _, h := range p.r.Headers {
			e.Headers = append(e.Headers, kgo.RecordHeader{Key: h.Key, Value: cp(h.Value)})
		}
		if c.Cfg.TxnID != nil {
			e.Txn = c.joinTxn(part)
		}
		c.C.append(part, e)
		n++
		p.r.Partition = part.ID
		p.r.Offset = e.Offset
	}
	if n > 0 {
		part.notify()
	}
}

func (c *Client) joinTxn(p *Part) *Txn {
	t := c.txn
	if t == nil {
		c.C.txns++
		if o := c.C.txnal[*c.Cfg.TxnID]; o != c { // a new producer with the same id takes over
			if o != nil {
				o.fenced, o.timedOut = kerr.InvalidProducerEpoch, o.txn != nil
				if o.txn != nil && o.txn.State == 0 {
					vsched.Tracef("BROKER client%d takes over the transactional id of client%d", c.ID, o.ID)
					c.C.endTxn(o.txn, false)
				}
			}
			c.C.txnal[*c.Cfg.TxnID] = c
		}
		t = &Txn{ID: c.C.txns, TxnID: *c.Cfg.TxnID, client: c, Proc: c.Proc}
		c.txn = t
		t.timer = vsched.NewVTimerGroup(int64(c.Cfg.TxnTimeout), 0, 0, func() {
			if t.State == 0 {
				vsched.Tracef("BROKER txn%d times out", t.ID)
				c.fenced, c.timedOut = kerr.InvalidProducerEpoch, true
				c.C.endTxn(t, false)
			}
		})
	}
	for _, q := range t.Parts {
		if q == p {
			return t
		}
	}
	t.Parts = append(t.Parts, p)
	return t
}

func (c *Client) ProducerID(context.Context) (int64, int16, error) { return int64(c.ID), 0, nil }

func (c *Client) Flush(ctx context.Context) error {
	vsched.Point()
	c.po.Write(443)
	if len(c.buf)+c.inflight == 0 {
		c.pvc.Acquire()
		return ctx.Err()
	}
	ch := make(chan struct{})
	c.flushed = append(c.flushed, ch)
	if vsched.Select(false, vsched.RecvCase(ch), vsched.RecvCase(ctx.Done())) == 1 {
		return ctx.Err()
	}
	return nil
}

func (c *Client) BeginTransaction() error {
	vsched.Point()
	c.po.Write(444)
	if c.Cfg.TxnID == nil {
		return errors.New("invalid attempt to begin a transaction with a non-transactional client")
	}
	if c.inTxn {
		return errors.New("invalid attempt to begin a transaction while already in a transaction")
	}
	if c.fenced != nil {
		return fmt.Errorf("producer ID has a fatal, unrecoverable error, err: %w", c.fenced)
	}
	c.inTxn = true
	c.Begins++
	return nil
}

func (c *Client) AbortBufferedRecords(ctx context.Context) error { return c.Flush(ctx) }

func (c *Client) EndAndBeginTransaction(ctx context.Context, how kgo.EndBeginTxnHow, commit kgo.TransactionEndTry, onEnd func(context.Context, error) error) error {
	err := onEnd(ctx, c.EndTransaction(ctx, commit))
	if err == nil {
		err = c.BeginTransaction()
	}
	return err
}

func (c *Client) EndTransaction(ctx context.Context, commit kgo.TransactionEndTry) error {
	vsched.Point()
	c.po.Write(445)
	if !c.inTxn {
		return nil
	}
	c.inTxn = false
	t := c.txn
	c.txn = nil
	if t == nil && c.fenced == nil {
		return nil
	}
	if c.timedOut { // the broker aborted the transaction and the client has yet to learn it
		c.timedOut = false
		return kerr.InvalidProducerEpoch
	}
	if c.fenced != nil {
		if bool(commit) {
			return kerr.OperationNotAttempted
		}
		if t != nil && t.State == 0 {
			c.C.endTxn(t, false)
		}
		return nil
	}
	if c.closed {
		return kgo.ErrClientClosed
	}
	if ctx.Err() != nil {
		return ctx.Err()
	}
	if c.C.EndDelay != nil {
		nap(c.C.EndDelay(c))
	}
	f := 0
	if c.C.FaultEndTxn > 0 {
		if f = vsched.Choose(3); f > 0 {
			c.C.FaultEndTxn--
		}
	}
	if f == 1 {
		vsched.Tracef("BROKER EndTxn fails before taking effect")
		c.fenced = kerr.CoordinatorNotAvailable
		return kerr.CoordinatorNotAvailable
	}
	if t.State == 0 {
		c.C.endTxn(t, bool(commit))
	}
	if f == 2 {
		vsched.Tracef("BROKER EndTxn takes effect but reports an error")
		c.fenced = kerr.CoordinatorNotAvailable
		return kerr.CoordinatorNotAvailable
	}
	// the response travels back
	vsched.Point()
	return nil
}

func (c *Client) Ping(context.Context) error { return nil }

// ---- admin ---------------------------------------------------------------------------------------

func (c *Client) Request(ctx context.Context, req kmsg.Request) (kmsg.Response, error) {
	resp, err := c.request(ctx, req)
	if err == nil && c.C.RespFault != nil {
		if err := c.C.RespFault(c, kmsg.NameForKey(req.Key())); err != nil {
			return nil, err
		}
	}
	return resp, err
}

func (c *Client) request(ctx context.Context, req kmsg.Request) (kmsg.Response, error) {
	vsched.Point()
	c.C.o.Write(460)
	if c.closed {
		return nil, kgo.ErrClientClosed
	}
	if c.C.ReqFault != nil {
		if err := c.C.ReqFault(c, kmsg.NameForKey(req.Key())); err != nil {
			return nil, err
		}
	}
	switch r := req.(type) {
	case *kmsg.MetadataRequest:
		resp := kmsg.NewPtrMetadataResponse()
		resp.ControllerID = 1
		b := kmsg.NewMetadataResponseBroker()
		b.NodeID, b.Host, b.Port = 1, "mem", 1
		resp.Brokers = append(resp.Brokers, b)
		names := []string{}
		if r.Topics == nil {
			names = sortedTopics(c.C.Topics)
		}
		for _, t := range r.Topics {
			if t.Topic != nil {
				names = append(names, *t.Topic)
			}
		}
		for _, n := range names {
			mt := kmsg.NewMetadataResponseTopic()
			nn := n
			mt.Topic = &nn
			t := c.C.Topics[n]
			if t == nil {
				mt.ErrorCode = kerr.UnknownTopicOrPartition.Code
			} else {
				for _, p := range t.Parts {
					mp := kmsg.NewMetadataResponseTopicPartition()
					mp.Partition, mp.Leader = p.ID, 1
					for i := 0; i < t.RF || i < 1; i++ {
						mp.Replicas = append(mp.Replicas, int32(i+1))
						mp.ISR = append(mp.ISR, int32(i+1))
					}
					mt.Partitions = append(mt.Partitions, mp)
				}
			}
			resp.Topics = append(resp.Topics, mt)
		}
		return resp, nil
	case *kmsg.CreateTopicsRequest:
		resp := kmsg.NewPtrCreateTopicsResponse()
		for _, t := range r.Topics {
			rt := kmsg.NewCreateTopicsResponseTopic()
			rt.Topic = t.Topic
			cfg := map[string]string{}
			for _, kv := range t.Configs {
				if kv.Value != nil {
					cfg[kv.Name] = *kv.Value
				}
			}
			if c.C.OnCreate != nil {
				c.C.OnCreate(t.Topic, int(t.NumPartitions), int(t.ReplicationFactor), cfg)
			}
			code := int16(0)
			if c.C.TopicErr != nil {
				code = c.C.TopicErr(t.Topic)
			}
			switch {
			case code != 0:
				rt.ErrorCode = code
			case c.C.Topics[t.Topic] != nil:
				rt.ErrorCode = kerr.TopicAlreadyExists.Code
			case t.NumPartitions <= 0 && t.NumPartitions != -1:
				rt.ErrorCode = kerr.InvalidPartitions.Code
			case t.ReplicationFactor <= 0 && t.ReplicationFactor != -1 || t.ReplicationFactor > Brokers:
				rt.ErrorCode = kerr.InvalidReplicationFactor.Code
			case badConfig(cfg):
				rt.ErrorCode = kerr.InvalidConfig.Code
			default:
				n, rf := int(t.NumPartitions), int(t.ReplicationFactor)
				if n < 0 {
					n = 1
				}
				if rf < 0 {
					rf = 1
				}
				c.C.CreateTopic(t.Topic, n, rf, cfg)
			}
			resp.Topics = append(resp.Topics, rt)
		}
		return resp, nil
	case *kmsg.DeleteTopicsRequest:
		resp := kmsg.NewPtrDeleteTopicsResponse()
		for _, t := range r.Topics {
			if t.Topic != nil {
				delete(c.C.Topics, *t.Topic)
			}
		}
		for _, t := range r.TopicNames {
			delete(c.C.Topics, t)
		}
		return resp, nil
	}
	return nil, errors.New("vkafka: unsupported request " + kmsg.NameForKey(req.Key()))
}

// Brokers limits the replication factor.
const Brokers = 5

// badConfig tells whether a broker would refuse the configuration of a topic.
func badConfig(cfg map[string]string) bool {
	for k, v := range cfg {
		switch k {
		case "min.insync.replicas":
			if n, err := strconv.Atoi(v); err != nil || n < 1 {
				return true
			}
		case "cleanup.policy":
			if v != "compact" && v != "delete" && v != "compact,delete" {
				return true
			}
		case "min.cleanable.dirty.ratio":
			if f, err := strconv.ParseFloat(v, 64); err != nil || f < 0 || f > 1 {
				return true
			}
		}
	}
	return false
}

// Protocol is what DescribeGroups reports.
var Protocol string

func (c *Client) RequestSharded(ctx context.Context, req kmsg.Request) []kgo.ResponseShard {
	vsched.Point()
	c.C.o.Write(461)
	if r, ok := req.(*kmsg.DescribeGroupsRequest); ok {
		if c.C.ReqFault != nil {
			if err := c.C.ReqFault(c, kmsg.NameForKey(req.Key())); err != nil {
				return []kgo.ResponseShard{{Meta: kgo.BrokerMetadata{NodeID: 1}, Req: req, Err: err}}
			}
		}
		resp := kmsg.NewPtrDescribeGroupsResponse()
		for _, g := range r.Groups {
			d := kmsg.NewDescribeGroupsResponseGroup()
			d.Group = g
			d.State = "Stable"
			d.ProtocolType = "consumer"
			d.Protocol = Protocol
			if cg := c.C.Groups[g]; cg != nil && cg.auto {
				d.Protocol = cg.Proto
				if cg.busy || cg.need || len(cg.Members) == 0 {
					d.State, d.Protocol = "PreparingRebalance", ""
				}
			}
			resp.Groups = append(resp.Groups, d)
		}
		return []kgo.ResponseShard{{Meta: kgo.BrokerMetadata{NodeID: 1}, Req: req, Resp: resp}}
	}
	resp, err := c.Request(ctx, req)
	return []kgo.ResponseShard{{Meta: kgo.BrokerMetadata{NodeID: 1}, Req: req, Resp: resp, Err: err}}
}

var _ = time.Second
