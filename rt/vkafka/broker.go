//go:build go1.23

// Package vkafka is an in-memory Kafka the instrumented kgo.Client talks to. It models what GKES relies on:
// partition logs with offsets, transactions with control markers and a last stable offset, read_committed
// fetching, buffered fetches, asynchronous produces acknowledged in partition order, transaction timeouts,
// and cooperative group membership driven by the harness. It runs entirely under the controlled scheduler.
package vkafka

import (
	"fmt"
	"sort"
	"strconv"
	"time"

	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
	"github.com/twmb/franz-go/pkg/kgo"
	"github.com/twmb/franz-go/pkg/kmsg"
)

// Txn is one broker transaction.
type Txn struct {
	ID     int
	TxnID  string
	State  int // 0 open, 1 committed, 2 aborted
	Parts  []*Part
	timer  *vsched.Timer
	client *Client
	Proc   int
}

// Entry is one log entry.
type Entry struct {
	Offset  int64
	Key     []byte
	Value   []byte
	Headers []kgo.RecordHeader
	Time    time.Time
	Txn     *Txn
	Control bool
	Gone    bool // compacted away
	Proc    int
}

// Visible reports whether a read_committed consumer ever sees the entry (given the transaction ended).
func (e *Entry) Visible() bool {
	return !e.Control && !e.Gone && (e.Txn == nil || e.Txn.State == 1)
}

// Header returns the named header.
func (e *Entry) Header(k string) string {
	for _, h := range e.Headers {
		if h.Key == k {
			return string(h.Value)
		}
	}
	return ""
}

// Part is a partition.
type Part struct {
	o     vsched.Obj
	Topic string
	ID    int32
	Log   []*Entry
	subs  []*Client
}

// Topic is a topic.
type Topic struct {
	Name    string
	Parts   []*Part
	Configs map[string]string
	RF      int
}

// Cluster is a Kafka cluster.
type Cluster struct {
	Seed      string
	o         vsched.Obj
	Topics    map[string]*Topic
	Groups    map[string]*Group
	txns      int
	txnal     map[string]*Client // the producer that last used a transactional id
	prodTotal int
	// hooks (called inside the scheduler, must not block)
	OnTxnEnd func(t *Txn, commit bool)
	OnAppend func(p *Part, e *Entry)
	OnCreate func(name string, parts int, rf int, cfg map[string]string)
	// fault budgets
	FaultProduce int                                 // a batch fails and the producer id with it
	FaultRecord  int                                 // a record is rejected without failing the producer id
	FaultWho     func(*Client) bool                  // which producers meet faults; nil: all
	FaultTopic   string                              // records of which topic are rejected; empty: all
	Rejected     map[string]bool                     // topic and value of the records rejected
	FaultEndTxn  int                                 // ending a transaction reports an error, before or after it takes effect
	RecordLimit  int                                 // values longer than this are rejected
	AckDelay     func(c *Client, topic string) int64 // virtual time until a batch is acknowledged
	EndDelay     func(c *Client) int64               // virtual time until the end of a transaction takes effect
	LeaveDelay   func(c *Client) int64               // virtual time until a client learns that it has left its group
	MaxFetch     int                                 // records per partition and poll (0: no limit)
	FetchErrs    int                                 // how many polls may report an error of a partition, with or without records
	FetchLag     func(c *Client, topic string) int64 // virtual time until a poll returns what it found (clients without a group)
	BufferFetch  bool
	ReqFault     func(c *Client, req string) error
	RespFault    func(c *Client, req string) error // the request took effect, its answer is lost
	TopicErr     func(topic string) int16          // per-topic error in a CreateTopics response
}

var clusters map[string]*Cluster
var clientSeq int
var allClients []*Client

func reset() {
	clusters = map[string]*Cluster{}
	clientSeq = 0
	allClients = nil
}

func init() {
	vsched.OnReset(reset)
	kgo.VerifNew = newClient
}

// Get returns the cluster behind a seed broker.
func Get(seed string) *Cluster {
	if clusters == nil {
		reset()
	}
	c := clusters[seed]
	if c == nil {
		c = &Cluster{Seed: seed, Topics: map[string]*Topic{}, Groups: map[string]*Group{}, txnal: map[string]*Client{}, RecordLimit: 1 << 20}
		clusters[seed] = c
	}
	return c
}

// Clients lists every client created in this execution.
func Clients() []*Client { return allClients }

// CreateTopic makes a topic.
func (c *Cluster) CreateTopic(name string, parts int, rf int, cfg map[string]string) *Topic {
	t := &Topic{Name: name, Configs: cfg, RF: rf}
	for i := 0; i < parts; i++ {
		t.Parts = append(t.Parts, &Part{Topic: name, ID: int32(i)})
	}
	c.Topics[name] = t
	return t
}

// Part returns a partition or nil.
func (c *Cluster) Part(topic string, p int32) *Part {
	t := c.Topics[topic]
	if t == nil || p < 0 || int(p) >= len(t.Parts) {
		return nil
	}
	return t.Parts[p]
}

func cp(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

// append adds an entry; the caller holds no lock (cooperative) and announces the write on p.o.
func (c *Cluster) append(p *Part, e *Entry) *Entry {
	e.Offset = int64(len(p.Log))
	p.Log = append(p.Log, e)
	p.o.Write(401)
	if c.OnAppend != nil {
		c.OnAppend(p, e)
	}
	if vsched.Tracing() {
		tx := ""
		if e.Txn != nil {
			tx = " txn" + strconv.Itoa(e.Txn.ID)
		}
		if e.Control {
			vsched.Tracef("BROKER %s/%d @%d control%s", p.Topic, p.ID, e.Offset, tx)
		} else {
			vsched.Tracef("BROKER %s/%d @%d key=%q value=%q%s", p.Topic, p.ID, e.Offset, e.Key, e.Value, tx)
		}
	}
	return e
}

func (p *Part) notify() {
	for _, s := range p.subs {
		s.wakePoll()
	}
}

// Put appends a record as an ordinary external producer would.
func (c *Cluster) Put(topic string, part int32, key, value string, headers ...kgo.RecordHeader) int64 {
	vsched.Point()
	return c.PutNow(topic, part, key, value, headers...)
}

// PutNow does so without giving way first.
func (c *Cluster) PutNow(topic string, part int32, key, value string, headers ...kgo.RecordHeader) int64 {
	p := c.Part(topic, part)
	e := c.append(p, &Entry{Key: []byte(key), Value: []byte(value), Headers: headers, Time: now()})
	p.notify()
	return e.Offset
}

func now() time.Time {
	return time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(vsched.Now()))
}

// LSO is the last stable offset.
func (p *Part) LSO() int64 {
	for _, e := range p.Log {
		if e.Txn != nil && e.Txn.State == 0 && !e.Control {
			return e.Offset
		}
	}
	return int64(len(p.Log))
}

// Committed lists the entries a read_committed consumer can see now.
func (p *Part) Committed() []*Entry {
	l := p.LSO()
	var out []*Entry
	for _, e := range p.Log {
		if e.Offset < l && e.Visible() {
			out = append(out, e)
		}
	}
	return out
}

// Settled lists every visible entry regardless of the last stable offset.
func (p *Part) Settled() []*Entry {
	var out []*Entry
	for _, e := range p.Log {
		if e.Visible() {
			out = append(out, e)
		}
	}
	return out
}

// Effective is Settled plus what was compacted away since.
func (p *Part) Effective() []*Entry {
	var out []*Entry
	for _, e := range p.Log {
		if e.Gone && !e.Control && (e.Txn == nil || e.Txn.State == 1) || e.Visible() {
			out = append(out, e)
		}
	}
	return out
}

// Compact removes all but the newest committed record of each key (below the LSO).
func (p *Part) Compact() {
	l := p.LSO()
	seen := map[string]bool{}
	for i := len(p.Log) - 1; i >= 0; i-- {
		e := p.Log[i]
		if e.Offset >= l || !e.Visible() {
			continue
		}
		if seen[string(e.Key)] {
			e.Gone = true
		}
		seen[string(e.Key)] = true
	}
	p.o.Write(402)
}

func (c *Cluster) endTxn(t *Txn, commit bool) {
	t.State = 2
	if commit {
		t.State = 1
	}
	t.timer.Disarm()
	if vsched.Tracing() {
		vsched.Tracef("BROKER txn%d ends commit=%v", t.ID, commit)
	}
	if c.OnTxnEnd != nil {
		c.OnTxnEnd(t, commit)
	}
	for _, p := range t.Parts {
		c.append(p, &Entry{Control: true, Txn: t, Time: now()})
	}
	for _, p := range t.Parts {
		p.notify()
	}
}

// OpenTxns counts open transactions.
func (c *Cluster) OpenTxns() int {
	seen := map[*Txn]bool{}
	for _, t := range c.Topics {
		for _, p := range t.Parts {
			for _, e := range p.Log {
				if e.Txn != nil && e.Txn.State == 0 {
					seen[e.Txn] = true
				}
			}
		}
	}
	return len(seen)
}

// ---- groups --------------------------------------------------------------------------------------

// Group is a consumer group. Its coordinator is the harness: it assigns and revokes partitions.
type Group struct {
	Name      string
	o         vsched.Obj
	Members   []*Client
	Committed map[string]map[int32]int64
	// OnJoin and OnLeave are called when a member appears or is gone (OnLeave after its revocation).
	OnJoin  func(m *Client)
	OnLeave func(m *Client)
	// OnLeaving is called when a member begins to leave, with what it owns.
	OnLeaving func(m *Client, owned int)
	auto      bool
	need      bool
	waiting   bool
	coord     *vsched.Thread
	joined    map[*Client][]byte
	offers    map[*Client]map[string][]byte
	busy      bool // a rebalance is under way
	Gen       int
	// Proto is the protocol (balancer) in use.
	Proto string
	// OnPlan sees every assignment before it is sent, by member.
	OnPlan func(gen int, owned, plan map[*Client]map[string][]int32, meta map[*Client][]byte)
}

// Group returns a group.
func (c *Cluster) Group(name string) *Group {
	g := c.Groups[name]
	if g == nil {
		g = &Group{Name: name, Committed: map[string]map[int32]int64{}}
		c.Groups[name] = g
	}
	return g
}

func (g *Group) remove(c *Client) {
	for i, m := range g.Members {
		if m == c {
			g.Members = append(g.Members[:i], g.Members[i+1:]...)
			return
		}
	}
}

func sortedTopics[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func sortedParts[V any](m map[int32]V) []int32 {
	out := make([]int32, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// Auto makes the group rebalance itself with the balancers of its members: join, balance by the leader, sync; members
// revoke what they lost, take what they got and join again if they lost something, as cooperative members do.
func (g *Group) Auto(c *Cluster) {
	g.auto = true
	vsched.GoNamed("broker.coordinator", func() { g.coordinate(c) })
}

// MemberID names a member.
func (c *Client) MemberID() string { return fmt.Sprintf("m%02d", c.ID) }

func (g *Group) rejoin(c *Client) {
	if !g.auto {
		return
	}
	g.o.Write(440)
	g.need = true
	g.wake()
}

func (g *Group) wake() {
	if g.waiting {
		g.waiting = false
		g.coord.Wake()
	}
}

// Expire removes a member whose session has timed out.
func (g *Group) Expire(c *Client) {
	g.remove(c)
	g.rejoin(c)
}

func (g *Group) wait(cond func() bool) {
	for !cond() {
		g.waiting = true
		vsched.Block("group coordinator")
		g.waiting = false
		g.o.Read(441)
	}
}

func (g *Group) has(c *Client) bool {
	for _, m := range g.Members {
		if m == c {
			return true
		}
	}
	return false
}

func (g *Group) coordinate(c *Cluster) {
	g.coord = vsched.Cur()
	for {
		g.wait(func() bool { return g.need && len(g.Members) > 0 })
		g.need = false
		g.busy = true
		g.Gen++
		g.joined, g.offers = map[*Client][]byte{}, map[*Client]map[string][]byte{}
		asked := map[*Client]bool{}
		ask := func() {
			for _, m := range append([]*Client(nil), g.Members...) {
				m := m
				if asked[m] {
					continue
				}
				asked[m] = true
				m.command(groupCmd{run: func() {
					own := map[string][]int32{}
					for t := range m.Owned {
						own[t.topic] = append(own[t.topic], t.part)
					}
					for _, ps := range own {
						sort.Slice(ps, func(i, j int) bool { return ps[i] < ps[j] })
					}
					if m.eager() && len(own) > 0 {
						m.doRevoke(own)
						own = map[string][]int32{}
					}
					offer := map[string][]byte{}
					for _, b := range m.Cfg.Balancers {
						offer[b.ProtocolName()] = b.JoinGroupMetadata(m.Cfg.Topics, own, int32(g.Gen))
					}
					vsched.Point()
					g.o.Write(442)
					g.offers[m] = offer
					g.wake()
				}})
			}
		}
		ask()
		g.wait(func() bool {
			ask()
			for _, m := range g.Members {
				if g.offers[m] == nil {
					return false
				}
			}
			return true
		})
		if len(g.Members) == 0 {
			g.busy = false
			continue
		}
		leader := g.Members[0]
		members := append([]*Client(nil), g.Members...)
		g.Proto = g.vote(members)
		for _, m := range members {
			g.joined[m] = g.offers[m][g.Proto]
		}
		var plan map[string][]byte
		leader.command(groupCmd{run: func() {
			p := g.balance(c, leader, members)
			vsched.Point()
			g.o.Write(443)
			plan = p
			g.wake()
		}})
		g.wait(func() bool { return plan != nil || !g.has(leader) })
		if plan == nil {
			g.need = true
			continue
		}
		owned, got := map[*Client]map[string][]int32{}, map[*Client]map[string][]int32{}
		for _, m := range members {
			m := m
			if !g.has(m) {
				g.need = true
				continue
			}
			b := plan[m.MemberID()]
			owned[m], got[m] = map[string][]int32{}, map[string][]int32{}
			for t := range m.Owned {
				owned[m][t.topic] = append(owned[m][t.topic], t.part)
			}
			a := new(kmsg.ConsumerMemberAssignment)
			if a.ReadFrom(b) == nil {
				for _, t := range a.Topics {
					got[m][t.Topic] = t.Partitions
				}
			}
			m.command(groupCmd{run: func() { m.sync(b) }})
		}
		g.busy = false
		if g.OnPlan != nil {
			g.OnPlan(g.Gen, owned, got, g.joined)
		}
	}
}

// vote picks the protocol as a broker does: of those all members support, the one most members prefer.
func (g *Group) vote(members []*Client) string {
	votes := map[string]int{}
	best := ""
	for _, m := range members {
	next:
		for _, b := range m.Cfg.Balancers {
			n := b.ProtocolName()
			for _, x := range members {
				if g.offers[x][n] == nil {
					continue next
				}
			}
			votes[n]++
			if best == "" || votes[n] > votes[best] {
				best = n
			}
			break
		}
	}
	if best == "" {
		vsched.Fail("inconsistent-protocols", "the members have no protocol in common")
	}
	return best
}

// eager members give up everything before they join a rebalance.
func (c *Client) eager() bool {
	for _, b := range c.Cfg.Balancers {
		if !b.IsCooperative() {
			return true
		}
	}
	return false
}

// balancer of the protocol in use.
func (c *Client) balancer() kgo.GroupBalancer {
	for _, b := range c.Cfg.Balancers {
		if b.ProtocolName() == c.group.Proto {
			return b
		}
	}
	return c.Cfg.Balancers[0]
}

func (g *Group) balance(c *Cluster, leader *Client, members []*Client) map[string][]byte {
	var ms []kmsg.JoinGroupResponseMember
	for _, m := range members {
		j := kmsg.NewJoinGroupResponseMember()
		j.MemberID = m.MemberID()
		j.ProtocolMetadata = g.joined[m]
		ms = append(ms, j)
	}
	out := map[string][]byte{}
	b, topics, err := leader.balancer().MemberBalancer(ms)
	if err != nil {
		vsched.Fail("balance-error", "MemberBalancer: %v", err)
	}
	parts := map[string]int32{}
	for t := range topics {
		if n := c.Topics[t]; n != nil {
			parts[t] = int32(len(n.Parts))
		}
	}
	var into kgo.IntoSyncAssignment
	if be, ok := b.(kgo.GroupMemberBalancerOrError); ok {
		if into, err = be.BalanceOrError(parts); err != nil {
			vsched.Fail("balance-error", "BalanceOrError: %v", err)
		}
	} else {
		into = b.Balance(parts)
	}
	for _, a := range into.IntoSyncAssignment() {
		out[a.MemberID] = a.MemberAssignment
	}
	return out
}

// sync takes an assignment: revoke what is lost, take what is new.
func (c *Client) sync(b []byte) {
	if b == nil {
		e := kmsg.NewConsumerMemberAssignment()
		b = e.AppendTo(nil)
	}
	m, err := c.balancer().ParseSyncAssignment(b)
	if err != nil {
		vsched.Fail("sync-error", "ParseSyncAssignment: %v", err)
	}
	want := map[tp]bool{}
	for t, ps := range m {
		for _, p := range ps {
			want[tp{t, p}] = true
		}
	}
	lost, added := map[string][]int32{}, map[string][]int32{}
	for t := range c.Owned {
		if !want[t] {
			lost[t.topic] = append(lost[t.topic], t.part)
		}
	}
	for t := range want {
		if !c.Owned[t] {
			added[t.topic] = append(added[t.topic], t.part)
		}
	}
	for _, x := range []map[string][]int32{lost, added} {
		for _, ps := range x {
			sort.Slice(ps, func(i, j int) bool { return ps[i] < ps[j] })
		}
	}
	if len(lost) > 0 {
		c.doRevoke(lost)
	}
	if len(added) > 0 {
		c.doAssign(added)
	}
	if len(lost) > 0 {
		c.group.rejoin(c)
	}
}

// Instruct lets the member see a sync assignment with the given user data and its present partitions.
func (c *Client) Instruct(userData string, done func()) {
	vsched.Point()
	c.command(groupCmd{run: func() {
		a := kmsg.NewConsumerMemberAssignment()
		for t := range c.Owned {
			x := kmsg.NewConsumerMemberAssignmentTopic()
			x.Topic = t.topic
			x.Partitions = []int32{t.part}
			a.Topics = append(a.Topics, x)
		}
		a.UserData = []byte(userData)
		if _, err := c.balancer().ParseSyncAssignment(a.AppendTo(nil)); err != nil {
			vsched.Fail("sync-error", "ParseSyncAssignment: %v", err)
		}
	}, done: done})
}
