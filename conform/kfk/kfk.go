// Package kfk is a small Kafka broker for one process: it speaks the real protocol over loopback TCP, so that the
// unmodified client can be used without a network. It has topics, idempotent and transactional producers, read_committed
// fetches, consumer groups and the admin requests that go-kafka-event-source makes.
package kfk

import (
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"io"
	"net"
	"sort"
	"strconv"
	"sync"
	"time"

	"github.com/twmb/franz-go/pkg/kbin"
	"github.com/twmb/franz-go/pkg/kmsg"
)

type Broker struct {
	Addr string
	// Hook may answer a request itself, delay it or drop the connection (ok=false means go on normally).
	Hook func(clientID string, req kmsg.Request) (resp kmsg.Response, ok bool)
	// OnEndTxn is called (with the lock held) when a transaction has ended.
	OnEndTxn func(txnID string, commit bool)

	mu      sync.Mutex
	cond    *sync.Cond
	l       net.Listener
	host    string
	port    int32
	topics  map[string]*topic
	txns    map[string]*txn
	groups  map[string]*group
	pid     int64
	closed  bool
	conns   map[net.Conn]bool
	members int
}

type topic struct {
	parts []*part
	cfg   map[string]*string
	rf    int16
}

type part struct {
	batches []*batch
	end     int64
}

type batch struct {
	base, last int64
	pid        int64
	txn        bool
	control    bool
	state      int // of its transaction: 0 open, 1 committed, 2 aborted
	raw        []byte
	n          int
}

type txn struct {
	id      string
	pid     int64
	epoch   int16
	open    bool
	parts   map[*part]bool
	started time.Time
	timeout time.Duration
}

type group struct {
	state   string
	gen     int32
	leader  string
	proto   string
	members map[string]*member
	order   []string
	offsets map[string]int64
	begun   time.Time
	delay   time.Duration
}

type member struct {
	id      string
	protos  []kmsg.JoinGroupRequestProtocol
	join    chan *kmsg.JoinGroupResponse
	sync    chan *kmsg.SyncGroupResponse
	assign  []byte
	seen    time.Time
	session time.Duration
	rebal   time.Duration
	ptype   string
}

func New() *Broker {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	b := &Broker{Addr: l.Addr().String(), l: l, topics: map[string]*topic{}, txns: map[string]*txn{}, groups: map[string]*group{}, pid: 1000, conns: map[net.Conn]bool{}}
	b.cond = sync.NewCond(&b.mu)
	h, p, _ := net.SplitHostPort(b.Addr)
	n, _ := strconv.Atoi(p)
	b.host, b.port = h, int32(n)
	go b.accept()
	go b.ticker()
	return b
}

func (b *Broker) Close() {
	b.mu.Lock()
	b.closed = true
	for c := range b.conns {
		c.Close()
	}
	b.cond.Broadcast()
	b.mu.Unlock()
	b.l.Close()
}

// CreateTopic makes a topic.
func (b *Broker) CreateTopic(name string, parts int) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.create(name, int32(parts), 1, nil)
}

func (b *Broker) create(name string, parts int32, rf int16, cfg map[string]*string) {
	t := &topic{cfg: cfg, rf: rf}
	for i := int32(0); i < parts; i++ {
		t.parts = append(t.parts, &part{})
	}
	b.topics[name] = t
}

// Topics lists the topics and their numbers of partitions.
func (b *Broker) Topics() map[string]int {
	b.mu.Lock()
	defer b.mu.Unlock()
	m := map[string]int{}
	for n, t := range b.topics {
		m[n] = len(t.parts)
	}
	return m
}

// Left reports whether a group has no members.
func (b *Broker) Members(g string) int {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.groups[g] == nil {
		return 0
	}
	return len(b.groups[g].members)
}

// Offset is the committed offset of a group.
func (b *Broker) Offset(g, t string, p int32) (int64, bool) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.groups[g] == nil {
		return 0, false
	}
	o, ok := b.groups[g].offsets[fmt.Sprint(t, "/", p)]
	return o, ok
}

func (b *Broker) accept() {
	for {
		c, err := b.l.Accept()
		if err != nil {
			return
		}
		b.mu.Lock()
		b.conns[c] = true
		b.mu.Unlock()
		go b.serve(c)
	}
}

func (b *Broker) serve(c net.Conn) {
	defer func() {
		c.Close()
		b.mu.Lock()
		delete(b.conns, c)
		b.mu.Unlock()
	}()
	for {
		var sz [4]byte
		if _, err := io.ReadFull(c, sz[:]); err != nil {
			return
		}
		buf := make([]byte, binary.BigEndian.Uint32(sz[:]))
		if _, err := io.ReadFull(c, buf); err != nil {
			return
		}
		r := kbin.Reader{Src: buf}
		key, ver, corr, id := r.Int16(), r.Int16(), r.Int32(), r.NullableString()
		req := kmsg.RequestForKey(key)
		if req == nil {
			return
		}
		req.SetVersion(ver)
		if req.IsFlexible() {
			kmsg.SkipTags(&r)
		}
		if err := req.ReadFrom(r.Src); err != nil {
			panic(fmt.Sprintf("kfk: %s v%d: %v", kmsg.NameForKey(key), ver, err))
		}
		cid := ""
		if id != nil {
			cid = *id
		}
		var resp kmsg.Response
		ok := false
		if b.Hook != nil {
			resp, ok = b.Hook(cid, req)
		}
		if !ok {
			resp = b.handle(cid, req)
		}
		if resp == nil {
			return
		}
		resp.SetVersion(ver)
		if key == 18 && ver > versions[18] {
			resp.SetVersion(0) // with the error UNSUPPORTED_VERSION
		}
		out := make([]byte, 4, 64)
		out = kbin.AppendInt32(out, corr)
		if resp.IsFlexible() && resp.Key() != 18 {
			out = append(out, 0)
		}
		out = resp.AppendTo(out)
		binary.BigEndian.PutUint32(out, uint32(len(out)-4))
		if _, err := c.Write(out); err != nil {
			return
		}
	}
}

var versions = map[int16]int16{0: 7, 1: 6, 2: 3, 3: 5, 8: 4, 9: 4, 10: 2, 11: 3, 12: 2, 13: 1, 14: 2, 15: 2, 18: 2, 19: 3, 20: 2, 22: 1, 24: 1, 26: 1, 32: 1}

func (b *Broker) handle(cid string, req kmsg.Request) kmsg.Response {
	switch q := req.(type) {
	case *kmsg.ApiVersionsRequest:
		r := kmsg.NewPtrApiVersionsResponse()
		for k, v := range versions {
			a := kmsg.NewApiVersionsResponseApiKey()
			a.ApiKey, a.MinVersion, a.MaxVersion = k, 0, v
			r.ApiKeys = append(r.ApiKeys, a)
		}
		if q.Version > 2 {
			r.ErrorCode = 35
		}
		return r
	case *kmsg.MetadataRequest:
		return b.metadata(q)
	case *kmsg.CreateTopicsRequest:
		b.mu.Lock()
		defer b.mu.Unlock()
		r := kmsg.NewPtrCreateTopicsResponse()
		for _, t := range q.Topics {
			x := kmsg.NewCreateTopicsResponseTopic()
			x.Topic = t.Topic
			if b.topics[t.Topic] != nil {
				x.ErrorCode = 36
			} else {
				cfg := map[string]*string{}
				for _, c := range t.Configs {
					cfg[c.Name] = c.Value
				}
				b.create(t.Topic, t.NumPartitions, t.ReplicationFactor, cfg)
			}
			r.Topics = append(r.Topics, x)
		}
		return r
	case *kmsg.DeleteTopicsRequest:
		b.mu.Lock()
		defer b.mu.Unlock()
		r := kmsg.NewPtrDeleteTopicsResponse()
		for _, n := range q.TopicNames {
			n := n
			x := kmsg.NewDeleteTopicsResponseTopic()
			x.Topic = &n
			if b.topics[n] == nil {
				x.ErrorCode = 3
			}
			delete(b.topics, n)
			r.Topics = append(r.Topics, x)
		}
		return r
	case *kmsg.FindCoordinatorRequest:
		r := kmsg.NewPtrFindCoordinatorResponse()
		r.NodeID, r.Host, r.Port = 1, b.host, b.port
		return r
	case *kmsg.InitProducerIDRequest:
		b.mu.Lock()
		defer b.mu.Unlock()
		r := kmsg.NewPtrInitProducerIDResponse()
		if q.TransactionalID == nil {
			b.pid++
			r.ProducerID = b.pid
			return r
		}
		t := b.txns[*q.TransactionalID]
		if t == nil {
			b.pid++
			t = &txn{id: *q.TransactionalID, pid: b.pid, epoch: -1, parts: map[*part]bool{}}
			b.txns[t.id] = t
		}
		if t.open {
			b.end(t, false)
		}
		t.epoch++
		t.timeout = time.Duration(q.TransactionTimeoutMillis) * time.Millisecond
		r.ProducerID, r.ProducerEpoch = t.pid, t.epoch
		return r
	case *kmsg.AddPartitionsToTxnRequest:
		b.mu.Lock()
		defer b.mu.Unlock()
		r := kmsg.NewPtrAddPartitionsToTxnResponse()
		t := b.txns[q.TransactionalID]
		code := b.check(t, q.ProducerID, q.ProducerEpoch)
		for _, rt := range q.Topics {
			x := kmsg.NewAddPartitionsToTxnResponseTopic()
			x.Topic = rt.Topic
			for _, p := range rt.Partitions {
				y := kmsg.NewAddPartitionsToTxnResponseTopicPartition()
				y.Partition = p
				y.ErrorCode = code
				if pt := b.part(rt.Topic, p); pt == nil {
					y.ErrorCode = 3
				} else if code == 0 {
					if !t.open {
						t.open, t.started = true, time.Now()
					}
					t.parts[pt] = true
				}
				x.Partitions = append(x.Partitions, y)
			}
			r.Topics = append(r.Topics, x)
		}
		return r
	case *kmsg.EndTxnRequest:
		b.mu.Lock()
		defer b.mu.Unlock()
		r := kmsg.NewPtrEndTxnResponse()
		t := b.txns[q.TransactionalID]
		if r.ErrorCode = b.check(t, q.ProducerID, q.ProducerEpoch); r.ErrorCode == 0 {
			if !t.open {
				r.ErrorCode = 48
			} else {
				b.end(t, q.Commit)
			}
		}
		return r
	case *kmsg.ProduceRequest:
		return b.produce(q)
	case *kmsg.FetchRequest:
		return b.fetch(q)
	case *kmsg.ListOffsetsRequest:
		b.mu.Lock()
		defer b.mu.Unlock()
		r := kmsg.NewPtrListOffsetsResponse()
		for _, rt := range q.Topics {
			x := kmsg.NewListOffsetsResponseTopic()
			x.Topic = rt.Topic
			for _, p := range rt.Partitions {
				y := kmsg.NewListOffsetsResponseTopicPartition()
				y.Partition = p.Partition
				y.Timestamp = -1
				if pt := b.part(rt.Topic, p.Partition); pt == nil {
					y.ErrorCode = 3
				} else if p.Timestamp == -1 {
					y.Offset = pt.end
					if q.IsolationLevel == 1 {
						y.Offset = pt.lso()
					}
				}
				x.Partitions = append(x.Partitions, y)
			}
			r.Topics = append(r.Topics, x)
		}
		return r
	case *kmsg.JoinGroupRequest:
		return b.join(q)
	case *kmsg.SyncGroupRequest:
		return b.syncGroup(q)
	case *kmsg.HeartbeatRequest:
		b.mu.Lock()
		defer b.mu.Unlock()
		r := kmsg.NewPtrHeartbeatResponse()
		g := b.group(q.Group)
		m := g.members[q.MemberID]
		switch {
		case m == nil:
			r.ErrorCode = 25
		case q.Generation != g.gen:
			r.ErrorCode = 22
		case g.state == "preparing":
			r.ErrorCode = 27
		}
		if m != nil {
			m.seen = time.Now()
		}
		return r
	case *kmsg.LeaveGroupRequest:
		b.mu.Lock()
		defer b.mu.Unlock()
		r := kmsg.NewPtrLeaveGroupResponse()
		b.remove(b.group(q.Group), q.MemberID)
		return r
	case *kmsg.OffsetFetchRequest:
		b.mu.Lock()
		defer b.mu.Unlock()
		r := kmsg.NewPtrOffsetFetchResponse()
		g := b.group(q.Group)
		for _, rt := range q.Topics {
			x := kmsg.NewOffsetFetchResponseTopic()
			x.Topic = rt.Topic
			for _, p := range rt.Partitions {
				y := kmsg.NewOffsetFetchResponseTopicPartition()
				y.Partition, y.Offset = p, -1
				if o, ok := g.offsets[fmt.Sprint(rt.Topic, "/", p)]; ok {
					y.Offset = o
				}
				x.Partitions = append(x.Partitions, y)
			}
			r.Topics = append(r.Topics, x)
		}
		return r
	case *kmsg.OffsetCommitRequest:
		b.mu.Lock()
		defer b.mu.Unlock()
		r := kmsg.NewPtrOffsetCommitResponse()
		g := b.group(q.Group)
		for _, rt := range q.Topics {
			x := kmsg.NewOffsetCommitResponseTopic()
			x.Topic = rt.Topic
			for _, p := range rt.Partitions {
				y := kmsg.NewOffsetCommitResponseTopicPartition()
				y.Partition = p.Partition
				if g.members[q.MemberID] == nil && q.MemberID != "" {
					y.ErrorCode = 25
				} else {
					g.offsets[fmt.Sprint(rt.Topic, "/", p.Partition)] = p.Offset
				}
				x.Partitions = append(x.Partitions, y)
			}
			r.Topics = append(r.Topics, x)
		}
		return r
	case *kmsg.DescribeGroupsRequest:
		b.mu.Lock()
		defer b.mu.Unlock()
		r := kmsg.NewPtrDescribeGroupsResponse()
		for _, n := range q.Groups {
			g := b.group(n)
			x := kmsg.NewDescribeGroupsResponseGroup()
			x.Group, x.ProtocolType, x.Protocol = n, "consumer", g.proto
			x.State = map[string]string{"": "Empty", "empty": "Empty", "preparing": "PreparingRebalance", "awaiting": "CompletingRebalance", "stable": "Stable"}[g.state]
			for _, id := range g.order {
				m := g.members[id]
				y := kmsg.NewDescribeGroupsResponseGroupMember()
				y.MemberID = id
				for _, p := range m.protos {
					if p.Name == g.proto {
						y.ProtocolMetadata = p.Metadata
					}
				}
				y.MemberAssignment = m.assign
				x.Members = append(x.Members, y)
			}
			r.Groups = append(r.Groups, x)
		}
		return r
	}
	panic(fmt.Sprintf("kfk: no answer to %s", kmsg.NameForKey(req.Key())))
}

func (b *Broker) metadata(q *kmsg.MetadataRequest) kmsg.Response {
	b.mu.Lock()
	defer b.mu.Unlock()
	r := kmsg.NewPtrMetadataResponse()
	br := kmsg.NewMetadataResponseBroker()
	br.NodeID, br.Host, br.Port = 1, b.host, b.port
	r.Brokers = append(r.Brokers, br)
	r.ControllerID = 1
	var names []string
	if q.Topics == nil {
		for n := range b.topics {
			names = append(names, n)
		}
		sort.Strings(names)
	}
	for _, t := range q.Topics {
		names = append(names, *t.Topic)
	}
	for _, n := range names {
		n := n
		x := kmsg.NewMetadataResponseTopic()
		x.Topic = &n
		if t := b.topics[n]; t == nil {
			x.ErrorCode = 3
		} else {
			for i := range t.parts {
				y := kmsg.NewMetadataResponseTopicPartition()
				y.Partition, y.Leader, y.Replicas, y.ISR = int32(i), 1, []int32{1}, []int32{1}
				x.Partitions = append(x.Partitions, y)
			}
		}
		r.Topics = append(r.Topics, x)
	}
	return r
}

func (b *Broker) part(t string, p int32) *part {
	if b.topics[t] == nil || int(p) >= len(b.topics[t].parts) || p < 0 {
		return nil
	}
	return b.topics[t].parts[p]
}

func (b *Broker) check(t *txn, pid int64, epoch int16) int16 {
	switch {
	case t == nil || t.pid != pid:
		return 49 // INVALID_PRODUCER_ID_MAPPING
	case t.epoch != epoch:
		return 47 // INVALID_PRODUCER_EPOCH
	}
	return 0
}

func (p *part) lso() int64 {
	for _, x := range p.batches {
		if x.txn && !x.control && x.state == 0 {
			return x.base
		}
	}
	return p.end
}

func (b *Broker) end(t *txn, commit bool) {
	for p := range t.parts {
		wrote := false
		for _, x := range p.batches {
			if x.txn && !x.control && x.state == 0 && x.pid == t.pid {
				x.state = 2
				if commit {
					x.state = 1
				}
				wrote = true
			}
		}
		_ = wrote
		typ := byte(0)
		if commit {
			typ = 1
		}
		p.append(&batch{pid: t.pid, txn: true, control: true, n: 1, raw: controlBatch(t.pid, t.epoch, typ)})
	}
	t.open, t.parts = false, map[*part]bool{}
	if b.OnEndTxn != nil {
		b.OnEndTxn(t.id, commit)
	}
	b.cond.Broadcast()
}

func controlBatch(pid int64, epoch int16, typ byte) []byte {
	rec := []byte{0, 0, 0, 4 * 2, 0, 0, 0, typ, 6 * 2, 0, 0, 0, 0, 0, 0, 0}
	rec = append([]byte{byte(len(rec) * 2)}, rec...)
	now := time.Now().UnixMilli()
	rb := kmsg.RecordBatch{Magic: 2, Attributes: 0x30, FirstTimestamp: now, MaxTimestamp: now, ProducerID: pid, ProducerEpoch: epoch, FirstSequence: -1, NumRecords: 1, Records: rec}
	raw := rb.AppendTo(nil)
	binary.BigEndian.PutUint32(raw[8:], uint32(len(raw)-12))
	binary.BigEndian.PutUint32(raw[17:], crc32.Checksum(raw[21:], crc32.MakeTable(crc32.Castagnoli)))
	return raw
}

func (p *part) append(x *batch) {
	x.base = p.end
	p.end += int64(x.n)
	x.last = p.end - 1
	binary.BigEndian.PutUint64(x.raw, uint64(x.base))
	p.batches = append(p.batches, x)
}

func (b *Broker) produce(q *kmsg.ProduceRequest) kmsg.Response {
	b.mu.Lock()
	defer b.mu.Unlock()
	r := kmsg.NewPtrProduceResponse()
	for _, rt := range q.Topics {
		x := kmsg.NewProduceResponseTopic()
		x.Topic = rt.Topic
		for _, rp := range rt.Partitions {
			y := kmsg.NewProduceResponseTopicPartition()
			y.Partition = rp.Partition
			var rb kmsg.RecordBatch
			p := b.part(rt.Topic, rp.Partition)
			if p == nil {
				y.ErrorCode = 3
			} else if err := rb.ReadFrom(rp.Records); err != nil {
				panic(fmt.Sprint("kfk: batch: ", err))
			} else {
				bt := &batch{pid: rb.ProducerID, n: int(rb.NumRecords), raw: append([]byte{}, rp.Records...)}
				if rb.Attributes&0x10 != 0 {
					bt.txn = true
					var t *txn
					if q.TransactionID != nil {
						t = b.txns[*q.TransactionID]
					}
					if y.ErrorCode = b.check(t, rb.ProducerID, rb.ProducerEpoch); y.ErrorCode == 0 && (!t.open || !t.parts[p]) {
						y.ErrorCode = 48
					}
				}
				if y.ErrorCode == 0 {
					p.append(bt)
					y.BaseOffset = bt.base
				}
			}
			x.Partitions = append(x.Partitions, y)
		}
		r.Topics = append(r.Topics, x)
	}
	b.cond.Broadcast()
	return r
}

func (b *Broker) fetch(q *kmsg.FetchRequest) kmsg.Response {
	deadline := time.Now().Add(time.Duration(q.MaxWaitMillis) * time.Millisecond)
	t := time.AfterFunc(time.Until(deadline), b.cond.Broadcast)
	defer t.Stop()
	b.mu.Lock()
	defer b.mu.Unlock()
	for {
		r := kmsg.NewPtrFetchResponse()
		n := 0
		for _, rt := range q.Topics {
			x := kmsg.NewFetchResponseTopic()
			x.Topic = rt.Topic
			for _, rp := range rt.Partitions {
				y := kmsg.NewFetchResponseTopicPartition()
				y.Partition = rp.Partition
				p := b.part(rt.Topic, rp.Partition)
				if p == nil {
					y.ErrorCode = 3
					n++
				} else if rp.FetchOffset > p.end || rp.FetchOffset < 0 {
					y.ErrorCode = 1
					y.HighWatermark = p.end
					n++
				} else {
					y.HighWatermark, y.LastStableOffset = p.end, p.lso()
					lim := p.end
					if q.IsolationLevel == 1 {
						lim = y.LastStableOffset
					}
					first := map[int64]int64{}
					for _, bt := range p.batches {
						if bt.txn && !bt.control && bt.state == 2 {
							if _, ok := first[bt.pid]; !ok {
								first[bt.pid] = bt.base
							}
						}
						if bt.control {
							if f, ok := first[bt.pid]; ok && q.IsolationLevel == 1 && bt.last >= rp.FetchOffset && bt.base < lim {
								y.AbortedTransactions = append(y.AbortedTransactions, kmsg.FetchResponseTopicPartitionAbortedTransaction{ProducerID: bt.pid, FirstOffset: f})
							}
							delete(first, bt.pid)
						}
						if bt.last >= rp.FetchOffset && bt.base < lim {
							y.RecordBatches = append(y.RecordBatches, bt.raw...)
							n++
						}
					}
				}
				x.Partitions = append(x.Partitions, y)
			}
			r.Topics = append(r.Topics, x)
		}
		if n > 0 || b.closed || !time.Now().Before(deadline) {
			return r
		}
		b.cond.Wait()
	}
}

func (b *Broker) group(n string) *group {
	g := b.groups[n]
	if g == nil {
		g = &group{state: "empty", members: map[string]*member{}, offsets: map[string]int64{}}
		b.groups[n] = g
	}
	return g
}

func (b *Broker) rebalance(g *group, delay time.Duration) {
	if g.state != "preparing" {
		g.state, g.begun, g.delay = "preparing", time.Now(), delay
		for _, m := range g.members {
			if m.sync != nil {
				r := kmsg.NewPtrSyncGroupResponse()
				r.ErrorCode = 27
				m.sync <- r
				m.sync = nil
			}
		}
	}
}

func (b *Broker) remove(g *group, id string) {
	if g.members[id] == nil {
		return
	}
	delete(g.members, id)
	for i, x := range g.order {
		if x == id {
			g.order = append(g.order[:i:i], g.order[i+1:]...)
			break
		}
	}
	if len(g.members) == 0 {
		g.state = "empty"
	} else {
		b.rebalance(g, 0)
	}
}

func (b *Broker) join(q *kmsg.JoinGroupRequest) kmsg.Response {
	b.mu.Lock()
	g := b.group(q.Group)
	id := q.MemberID
	if id == "" {
		b.members++
		id = fmt.Sprintf("m%03d", b.members)
		g.members[id] = &member{id: id}
		g.order = append(g.order, id)
	}
	m := g.members[id]
	if m == nil {
		b.mu.Unlock()
		r := kmsg.NewPtrJoinGroupResponse()
		r.ErrorCode = 25
		return r
	}
	m.protos, m.seen, m.ptype = q.Protocols, time.Now(), q.ProtocolType
	m.session = time.Duration(q.SessionTimeoutMillis) * time.Millisecond
	m.rebal = time.Duration(q.RebalanceTimeoutMillis) * time.Millisecond
	delay := time.Duration(0)
	if g.state == "empty" {
		delay = 20 * time.Millisecond
	}
	b.rebalance(g, delay)
	m.join = make(chan *kmsg.JoinGroupResponse, 1)
	ch := m.join
	b.tryComplete(g)
	b.mu.Unlock()
	return <-ch
}

func (b *Broker) tryComplete(g *group) {
	if g.state != "preparing" || time.Since(g.begun) < g.delay {
		return
	}
	for _, id := range append([]string{}, g.order...) {
		m := g.members[id]
		if m.join == nil {
			if time.Since(g.begun) < m.rebal {
				return
			}
			b.remove(g, id)
		}
	}
	if len(g.order) == 0 {
		return
	}
	g.gen++
	g.state = "awaiting"
	if g.members[g.leader] == nil {
		g.leader = g.order[0]
	}
	g.proto = g.members[g.leader].protos[0].Name
	for _, id := range g.order {
		m := g.members[id]
		r := kmsg.NewPtrJoinGroupResponse()
		p := g.proto
		r.Generation, r.Protocol, r.LeaderID, r.MemberID = g.gen, &p, g.leader, id
		if id == g.leader {
			for _, o := range g.order {
				x := kmsg.NewJoinGroupResponseMember()
				x.MemberID = o
				for _, pr := range g.members[o].protos {
					if pr.Name == g.proto {
						x.ProtocolMetadata = pr.Metadata
					}
				}
				r.Members = append(r.Members, x)
			}
		}
		m.seen = time.Now()
		m.join <- r
		m.join = nil
	}
}

func (b *Broker) syncGroup(q *kmsg.SyncGroupRequest) kmsg.Response {
	b.mu.Lock()
	g := b.group(q.Group)
	m := g.members[q.MemberID]
	r := kmsg.NewPtrSyncGroupResponse()
	switch {
	case m == nil:
		r.ErrorCode = 25
	case q.Generation != g.gen:
		r.ErrorCode = 22
	case g.state == "preparing":
		r.ErrorCode = 27
	}
	if r.ErrorCode != 0 {
		b.mu.Unlock()
		return r
	}
	m.seen = time.Now()
	if g.state == "stable" {
		r.MemberAssignment = m.assign
		b.mu.Unlock()
		return r
	}
	m.sync = make(chan *kmsg.SyncGroupResponse, 1)
	ch := m.sync
	if q.MemberID == g.leader {
		for _, a := range q.GroupAssignment {
			if x := g.members[a.MemberID]; x != nil {
				x.assign = a.MemberAssignment
			}
		}
		g.state = "stable"
		for _, x := range g.members {
			if x.sync != nil {
				y := kmsg.NewPtrSyncGroupResponse()
				y.MemberAssignment = x.assign
				x.sync <- y
				x.sync = nil
			}
		}
	}
	b.mu.Unlock()
	return <-ch
}

func (b *Broker) ticker() {
	for {
		time.Sleep(10 * time.Millisecond)
		b.mu.Lock()
		if b.closed {
			b.mu.Unlock()
			return
		}
		for _, g := range b.groups {
			for _, id := range append([]string{}, g.order...) {
				m := g.members[id]
				if m.join == nil && m.session > 0 && time.Since(m.seen) > m.session {
					b.remove(g, id)
				}
			}
			b.tryComplete(g)
		}
		for _, t := range b.txns {
			if t.open && t.timeout > 0 && time.Since(t.started) > t.timeout {
				b.end(t, false)
				t.epoch++
			}
		}
		b.mu.Unlock()
	}
}
