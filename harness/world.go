//go:build go1.23

package main

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/aws/go-kafka-event-source/streams/zverif/vkafka"
	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
	"github.com/aws/go-kafka-event-source/streams/zverif/vtime"
	"github.com/twmb/franz-go/pkg/kgo"
)

const (
	ms     = int64(time.Millisecond)
	sec    = int64(time.Second)
	inT    = "in"
	outT   = "out"
	group  = "g"
	seed   = "mem"
	commit = "gkes_commit_log_g"
	change = "gkes_change_log_in_g"
)

type (
	// EC is the event context of the test application.
	EC = streams.EventContext[*Store]
	// ES is its event source.
	ES = streams.EventSource[*Store]
)

// setup silences the library (its package-level variables are as new in every execution).
func setup() {
	streams.InitLogger(logger{streams.SimpleLogger(streams.LogLevelNone)}, streams.LogLevelNone)
}

// Opt configures a world.
type Opt struct {
	Parts, CommitParts         int
	OutParts                   int
	Pool, Pending, Target, Max int
	Delay                      time.Duration
	Async                      bool // scripts complete out of order: no store checks
	NoOrder                    bool
	Conf                       func(w *World, in *Inst, c *streams.EventSourceConfig)
	Init                       func(w *World, in *Inst, es *ES)
	TxnFails                   bool // transactions may fail: consumers may stop
	Handler                    func(w *World, in *Inst, ec *EC, e *Ev) (streams.ExecutionState, bool)
	Opts                       []kgo.Opt
	NoFinalEOS                 bool
	Loose                      bool  // duplicates allowed (not used for exactly-once properties)
	SlowChange                 int64 // time a state store takes to receive a change
	RevokeBudget               int64 // revocation finishes within this time
	AllowConcurrent            bool
	Continue                   bool
	Two                        bool // transactions, commit log and state stores live on another cluster than the input
	Empty                      bool // no topics but the output topic exist when the first process starts
	Marks                      bool // CommitOffsets: the consumer group's offsets are committed too
	StoreTopic                 string
	Life                       bool // the life cycle callbacks are checked
	NoSkipCheck                bool // events may be skipped without the application being told
}

// Ev is an input event.
type Ev struct {
	P      int32
	Off    int64
	Key    string
	Script string
	Gone   bool // never delivered: compacted away, or a control record
}

func (e *Ev) outs() int {
	return strings.Count(e.Script, "f") + strings.Count(e.Script, "g") + strings.Count(e.Script, "a") + strings.Count(e.Script, "w") + 2*strings.Count(e.Script, "m")
}
func (e *Ev) changes() int { return strings.Count(e.Script, "s") + strings.Count(e.Script, "d") }

// World is the closed system: broker, input, application instances, monitors.
type World struct {
	Opt
	C     *vkafka.Cluster // of the input
	S     *vkafka.Cluster // of everything else
	G     *vkafka.Group
	o     vsched.Obj
	In    [][]*Ev
	Insts []*Inst
	// monitors
	busy     map[int32]string
	complete map[string]bool // proc/p/off completed
	fseq     map[string]int  // proc/p/off/n -> forward order
	nseq     int
	wm       map[int32]int64
	lastTxn  int
	Handled  []string
	expectNo map[string]bool // outputs that must not appear
	outsOf   func(e *Ev) int // outputs of an event; nil: by its script
}

// Inst is one application process.
type Inst struct {
	W      *World
	ID     int
	ES     *ES
	M      *vkafka.Client
	Stores map[int32]*Store
	next   map[int32]int64 // next offset expected per partition, -1 unknown
	active map[int32]bool
	Events []string // lifecycle callbacks
	dead   bool
	forced bool // stopped by force: handlers may still be running while it surrenders its partitions
	Done   bool
	Fails  int
	Made   []*Store
	life   map[int32]string
}

// Store is the state store of the test application.
type Store struct {
	In      *Inst
	TP      streams.TopicPartition
	M       map[string]string
	Revokes int
	Changes int
	active  bool
}

// ReceiveChange applies a change during bootstrap.
func (s *Store) ReceiveChange(r streams.IncomingRecord) error {
	vsched.Point()
	if d := s.In.W.SlowChange; d > 0 {
		sleep(time.Duration(d))
	}
	s.In.W.o.Write(900)
	if s.active && !s.In.dead {
		vsched.Fail("store-overwritten", "partition %d: the store received change %q=%q from its bootstrap after the partition was activated", s.TP.Partition, r.Key(), r.Value())
	}
	if s.Revokes > 0 {
		if !s.In.dead && !s.In.forced {
			vsched.Fail("store-after-revoke", "partition %d: the store received change %q=%q after Revoked was called on it", s.TP.Partition, r.Key(), r.Value())
		}
		return nil
	}
	s.Changes++
	if len(r.Value()) == 0 {
		delete(s.M, string(r.Key()))
	} else {
		s.M[string(r.Key())] = string(r.Value())
	}
	return nil
}

// Revoked is called when the partition is gone.
func (s *Store) Revoked() {
	vsched.Point()
	s.In.W.o.Write(901)
	s.Revokes++
	if s.Revokes > 1 {
		vsched.Fail("store-revoked-twice", "partition %d: Revoked called %d times on one store", s.TP.Partition, s.Revokes)
	}
}

func newWorld(o Opt) *World {
	setup()
	def := func(p *int, v int) {
		if *p == 0 {
			*p = v
		}
	}
	def(&o.Parts, 1)
	def(&o.CommitParts, 1)
	def(&o.OutParts, 1)
	def(&o.Pool, 2)
	def(&o.Pending, 1)
	def(&o.Target, 1)
	def(&o.Max, 2)
	if o.RevokeBudget == 0 {
		o.RevokeBudget = 15 * sec
	}
	if o.Delay == 0 {
		o.Delay = 10 * time.Millisecond
	}
	w := &World{Opt: o, C: vkafka.Get(seed), busy: map[int32]string{}, complete: map[string]bool{}, fseq: map[string]int{}, wm: map[int32]int64{}}
	w.S = w.C
	if o.Two {
		w.S = vkafka.Get(otherSeed)
	}
	w.S.CreateTopic(outT, o.OutParts, 1, nil)
	if !o.Empty {
		w.C.CreateTopic(inT, o.Parts, 1, nil)
		w.S.CreateTopic(commit, o.CommitParts, 1, nil)
		w.S.CreateTopic(w.changeT(), o.Parts, 1, nil)
	}
	w.In = make([][]*Ev, o.Parts)
	w.G = w.C.Group(group)
	w.S.OnTxnEnd = func(t *vkafka.Txn, ok bool) {
		if ok {
			w.checkCommit(t)
		}
	}
	if o.Two {
		w.C.OnTxnEnd = func(t *vkafka.Txn, ok bool) {
			vsched.Fail("wrong-cluster", "a transaction takes place on the cluster of the input, the state cluster is another one")
		}
	}
	vkafka.OnMark = func(c *vkafka.Client, r *kgo.Record) {
		if !w.Marks {
			vsched.Fail("mark", "a record is marked for commit on the consumer group without CommitOffsets")
		}
		if v := w.wm[r.Partition]; r.Topic != inT || r.Offset >= v {
			vsched.Fail("mark-ahead", "offset %d of partition %d is marked for commit on the consumer group, the committed offset is %d", r.Offset+1, r.Partition, v)
		}
	}
	return w
}

func (w *World) changeT() string {
	if w.StoreTopic != "" {
		return w.StoreTopic
	}
	return change
}

// put appends input events: key and script.
func (w *World) put(p int32, scripts ...string) {
	for i, s := range scripts {
		vsched.Point()
		k := fmt.Sprintf("k%d", (len(w.In[p])+i)%2)
		w.putNow(p, k, s)
	}
}

func (w *World) putKey(p int32, key, script string) {
	vsched.Point()
	w.putNow(p, key, script)
}

func (w *World) putNow(p int32, key, script string) {
	e := &Ev{P: p, Off: int64(len(w.In[p])), Key: key, Script: script}
	w.In[p] = append(w.In[p], e)
	w.C.PutNow(inT, p, key, script)
}

// gap appends an offset without a record for consumers, as compaction and control records leave.
func (w *World) gap(p int32) {
	w.In[p] = append(w.In[p], &Ev{P: p, Off: int64(len(w.In[p])), Gone: true})
	w.C.Part(inT, p).Log[w.C.Put(inT, p, "gone", "gone")].Gone = true
}

// in runs f as process in and waits for it.
func (in *Inst) in(name string, f func()) {
	ch := make(chan struct{})
	vsched.GoNamed(name, func() {
		vsched.SetGroup(in.ID)
		f()
		vsched.Close(ch)
	})
	vsched.Recv(ch)
}

// spawn runs f as process in without waiting.
func (in *Inst) spawn(name string, low bool, f func()) {
	g := vsched.GoNamed
	if low {
		g = vsched.GoLow
	}
	g(name, func() {
		vsched.SetGroup(in.ID)
		f()
	})
}

// start launches an application process, quietly (its start-up is not branched on), up to idle.
func (w *World) start() *Inst {
	vsched.SetQuiet(true)
	in := w.startLoud()
	vsched.Settle(100 * ms)
	vsched.SetQuiet(false)
	return in
}

func (w *World) config(in *Inst) streams.EventSourceConfig {
	c := streams.EventSourceConfig{GroupId: group, Topic: inT, NumPartitions: w.Parts, CommitLogPartitions: w.CommitParts,
		SourceCluster:       streams.SimpleCluster{seed},
		EosConfig:           streams.EosConfig{PoolSize: w.Pool, PendingTxnCount: w.Pending, TargetBatchSize: w.Target, MaxBatchSize: w.Max, BatchDelay: w.Delay},
		OnPartitionAssigned: func(_ *streams.Source, p int32) { in.event("assigned", p) },
		OnPartitionActivated: func(_ *streams.Source, p int32) {
			in.event("activated", p)
			in.active[p] = true
			if s := in.Stores[p]; s != nil {
				s.active = true
			}
		},
		OnPartitionWillRevoke: func(_ *streams.Source, p int32) { in.event("willrevoke", p) },
		OnPartitionRevoked: func(_ *streams.Source, p int32) {
			in.event("revoked", p)
			in.active[p] = false
			delete(in.next, p)
		},
	}
	if w.Two {
		c.StateCluster = streams.SimpleCluster{otherSeed}
	}
	c.CommitOffsets = w.Marks
	c.StateStoreTopic = w.StoreTopic
	if w.Conf != nil {
		w.Conf(w, in, &c)
	}
	return c
}

func (w *World) startLoud() *Inst {
	in := &Inst{W: w, ID: len(w.Insts) + 1, Stores: map[int32]*Store{}, next: map[int32]int64{}, active: map[int32]bool{}}
	w.Insts = append(w.Insts, in)
	in.in("proc", func() {
		es, err := streams.NewEventSource[*Store](w.config(in), func(tp streams.TopicPartition) *Store {
			s := &Store{In: in, TP: tp, M: map[string]string{}}
			in.Stores[tp.Partition] = s
			in.Made = append(in.Made, s)
			return s
		}, func(ec *EC, r streams.IncomingRecord) streams.ExecutionState { return in.handle(ec, r) }, w.Opts...)
		if err != nil {
			vsched.Fail("start-failed", "NewEventSource: %v", err)
		}
		in.ES = es
		if w.Init != nil {
			w.Init(w, in, es)
		}
		es.ConsumeEvents()
	})
	for _, m := range w.G.Members {
		if m.Proc == in.ID {
			in.M = m
		}
	}
	if in.M == nil {
		vsched.Fail("no-member", "the consumer did not join its group")
	}
	return in
}

func (in *Inst) event(kind string, p int32) {
	if in.W.Life {
		vsched.Point()
	}
	vsched.Point()
	in.W.o.Write(902)
	in.Events = append(in.Events, fmt.Sprintf("%s:%d", kind, p))
	vsched.Tracef("LIFECYCLE inst%d %s %d", in.ID, kind, p)
	if in.W.Life {
		in.checkLife(kind, p)
	}
}

// checkLife: the callbacks of an assignment come once each, in their order, and tell the truth.
func (in *Inst) checkLife(kind string, p int32) {
	if in.life == nil {
		in.life = map[int32]string{}
	}
	l := in.life[p]
	bad := func(f string, a ...any) {
		vsched.Fail("life-cycle", "inst%d: partition %d is reported %s %s (reported so far: %q)", in.ID, p, kind, fmt.Sprintf(f, a...), l)
	}
	s := in.Stores[p]
	switch kind {
	case "assigned":
		if l != "" {
			bad("while it is assigned")
		}
	case "activated":
		if in.forced {
			return
		}
		if !strings.HasPrefix(l, "assigned") || strings.Contains(l, "activated") {
			bad("but is not newly assigned")
		}
		if s == nil || s.Revokes > 0 {
			bad("without a store")
		}
		if d := diff(s.M, in.W.fold(p, in.W.wm[p])); d != "" {
			bad("with a wrong store: %s", d)
		}
	case "willrevoke":
		if !strings.HasPrefix(l, "assigned") || strings.Contains(l, "willrevoke") {
			bad("but it is not assigned")
		}
		if s != nil && s.Revokes > 0 && !in.forced {
			bad("after its store was")
		}
	case "revoked":
		if !strings.Contains(l, "willrevoke") {
			bad("without warning")
		}
		if s == nil || s.Revokes == 0 {
			bad("but not its store")
		}
		if b := in.W.busy[p]; strings.HasSuffix(b, fmt.Sprintf("inst%d", in.ID)) && !in.forced {
			bad("during %s", b)
		}
		in.life[p] = ""
		return
	}
	in.life[p] = strings.TrimSpace(l + " " + kind)
}

func id(p int32, off int64, n int) string { return fmt.Sprintf("%d/%d/%d", p, off, n) }

// enter marks the start of application code for a partition: nothing else may run for it.
func (w *World) enter(in *Inst, p int32, what string) {
	w.o.Write(903)
	if b := w.busy[p]; b != "" && !w.AllowConcurrent {
		vsched.Fail("concurrent-access", "partition %d: %s runs while %s is running", p, what, b)
	}
	w.busy[p] = what
	vsched.Point()
	w.o.Write(904)
}

func (w *World) leave(p int32) {
	vsched.Point()
	w.o.Write(905)
	w.busy[p] = ""
}

func (in *Inst) handle(ec *EC, r streams.IncomingRecord) streams.ExecutionState {
	w := in.W
	p := r.TopicPartition().Partition
	off := r.Offset()
	w.enter(in, p, fmt.Sprintf("handler of event %d/%d in inst%d", p, off, in.ID))
	vsched.Tracef("HANDLE inst%d %d/%d %q", in.ID, p, off, r.Value())
	w.Handled = append(w.Handled, fmt.Sprintf("%d:%d/%d", in.ID, p, off))
	if off < 0 || off >= int64(len(w.In[p])) {
		vsched.Fail("unknown-event", "handler got an event that was never produced: %d/%d", p, off)
	}
	e := w.In[p][off]
	if e.Gone {
		vsched.Fail("old-event", "handler got event %d/%d, which was completed before", p, off)
	}
	if string(r.Value()) != e.Script || string(r.Key()) != e.Key {
		vsched.Fail("wrong-content", "event %d/%d delivered as %q=%q, was %q=%q", p, off, r.Key(), r.Value(), e.Key, e.Script)
	}
	if tp := ec.TopicPartition(); tp.Partition != p || ec.Offset() != off || ec.IsInterjection() {
		vsched.Fail("wrong-context", "event %d/%d delivered with context %v offset %d", p, off, tp, ec.Offset())
	}
	if w.Life && !in.forced && !strings.Contains(in.life[p], "activated") {
		vsched.Fail("life-cycle", "inst%d: event %d/%d is handled while the partition is not active (reported: %q)", in.ID, p, off, in.life[p])
	}
	n, ok := in.next[p]
	for ok && n < off && w.In[p][n].Gone {
		n++
	}
	if ok && n != off && !w.NoSkipCheck {
		vsched.Fail("delivery-order", "inst%d partition %d: event %d delivered, %d expected", in.ID, p, off, n)
	}
	in.next[p] = off + 1
	if !w.Async && !w.Loose && !in.forced {
		w.checkStore(in, ec, e)
	}
	var st streams.ExecutionState
	handled := false
	if w.Handler != nil {
		st, handled = w.Handler(w, in, ec, e)
	}
	if !handled {
		st = in.script(ec, e)
	}
	if st == streams.Complete {
		w.completed(in, p, off)
	}
	w.leave(p)
	return st
}

func key(in int, p int32, off int64) string { return fmt.Sprintf("%d/%d/%d", in, p, off) }

func (w *World) completed(in *Inst, p int32, off int64) {
	w.complete[fmt.Sprintf("%d/%d/%d", in.ID, p, off)] = true
}

// forward emits the n-th output of an event.
func (in *Inst) forward(ec *EC, p int32, off int64, n int, key string, auto bool) {
	w := in.W
	w.nseq++
	w.fseq[fmt.Sprintf("%d:%s", in.ID, id(p, off, n))] = w.nseq
	r := streams.NewRecord().WithTopic(outT).WithKeyString(key).WithValue([]byte(id(p, off, n))).WithRecordType("t")
	if !auto {
		r = r.WithPartition(p % int32(w.OutParts))
	}
	ec.Forward(r)
}

func (in *Inst) script(ec *EC, e *Ev) streams.ExecutionState {
	n, c := 0, 0
	st := streams.Complete
	for _, ch := range e.Script {
		switch ch {
		case 'f', 'g':
			in.forward(ec, e.P, e.Off, n, e.Key, ch == 'g')
			n++
		case 's':
			v := id(e.P, e.Off, c)
			c++
			ec.Store().M[e.Key] = v
			ec.RecordChange(streams.NewChangeLogEntry().WithKeyString(e.Key).WithValue([]byte(v)))
		case 'd':
			c++
			delete(ec.Store().M, e.Key)
			ec.RecordChange(streams.NewChangeLogEntry().WithKeyString(e.Key))
		case 'm':
			st = streams.Incomplete
			k := n
			n += 2
			in.async(ec, func() streams.ExecutionState {
				in.W.enter(in, e.P, fmt.Sprintf("first finalizer of event %d/%d in inst%d", e.P, e.Off, in.ID))
				in.forward(ec, e.P, e.Off, k, e.Key, false)
				in.async(ec, func() streams.ExecutionState {
					in.W.enter(in, e.P, fmt.Sprintf("second finalizer of event %d/%d in inst%d", e.P, e.Off, in.ID))
					in.forward(ec, e.P, e.Off, k+1, e.Key, false)
					in.W.completed(in, e.P, e.Off)
					in.W.leave(e.P)
					return streams.Complete
				})
				in.W.leave(e.P)
				return streams.Incomplete
			})
		case 'a':
			st = streams.Incomplete
			k := n
			n++
			in.async(ec, func() streams.ExecutionState {
				in.W.enter(in, e.P, fmt.Sprintf("finalizer of event %d/%d in inst%d", e.P, e.Off, in.ID))
				in.forward(ec, e.P, e.Off, k, e.Key, false)
				in.W.completed(in, e.P, e.Off)
				in.W.leave(e.P)
				return streams.Complete
			})
		}
	}
	return st
}

// async completes an event from another goroutine.
func (in *Inst) async(ec *EC, fin func() streams.ExecutionState) {
	vsched.GoNamed("async", func() {
		vsched.Point()
		ec.AsyncJobComplete(fin)
	})
}

// fold computes the state store before event off of partition p.
func (w *World) fold(p int32, off int64) map[string]string {
	m := map[string]string{}
	for _, e := range w.In[p] {
		if e.Off >= off {
			break
		}
		c := 0
		for _, ch := range e.Script {
			switch ch {
			case 's':
				m[e.Key] = id(p, e.Off, c)
				c++
			case 'd':
				delete(m, e.Key)
				c++
			}
		}
	}
	return m
}

func diff(got, want map[string]string) string {
	var l []string
	for k, v := range want {
		if g, ok := got[k]; !ok {
			l = append(l, fmt.Sprintf("%s missing (want %s)", k, v))
		} else if g != v {
			l = append(l, fmt.Sprintf("%s=%s (want %s)", k, g, v))
		}
	}
	for k, v := range got {
		if k == "ij" {
			continue // interjections
		}
		if _, ok := want[k]; !ok {
			l = append(l, fmt.Sprintf("%s=%s unexpected", k, v))
		}
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

func (w *World) checkStore(in *Inst, ec *EC, e *Ev) {
	s := ec.Store()
	if s == nil {
		vsched.Fail("store-nil", "no store for partition %d", e.P)
	}
	if s.In != in || s.TP.Partition != e.P {
		vsched.Fail("store-wrong", "event of partition %d got the store of partition %d", e.P, s.TP.Partition)
	}
	if s.Revokes > 0 {
		vsched.Fail("store-revoked-in-use", "event %d/%d is handled with a store that was revoked already", e.P, e.Off)
	}
	if d := diff(s.M, w.fold(e.P, e.Off)); d != "" {
		vsched.Fail("store-content", "inst%d: event %d/%d is handled with a wrong store: %s", in.ID, e.P, e.Off, d)
	}
}

// watermarks reads the committed offsets from the commit log.
func (w *World) watermarks(check bool) map[int32]int64 {
	wm := map[int32]int64{}
	for i := 0; i < w.CommitParts; i++ {
		for _, e := range w.S.Part(commit, int32(i)).Settled() {
			if len(e.Headers) > 0 || len(e.Key) < 8 || len(e.Value) < 8 {
				continue // sync marker
			}
			p := int32(binary.LittleEndian.Uint64(e.Key))
			v := int64(binary.LittleEndian.Uint64(e.Value))
			if check && string(e.Key[8:]) != inT {
				vsched.Fail("commit-topic", "commit record for topic %q", e.Key[8:])
			}
			if check && v < wm[p] {
				vsched.Fail("commit-goes-back", "committed offset of partition %d goes from %d back to %d", p, wm[p], v)
			}
			wm[p] = v
		}
	}
	return wm
}

func parse(v []byte) (p int32, off int64, n int, ok bool) {
	c, err := fmt.Sscanf(string(v), "%d/%d/%d", &p, &off, &n)
	return p, off, n, err == nil && c == 3
}

// checkCommit is evaluated at every transaction commit: what is visible must be exactly the effects of the events
// below the committed offsets.
func (w *World) checkCommit(t *vkafka.Txn) {
	wm := w.watermarks(true)
	events := 0
	for p, v := range wm {
		if v > int64(len(w.In[p])) {
			vsched.Fail("commit-beyond-end", "committed offset %d of partition %d is beyond the %d events produced", v, p, len(w.In[p]))
		}
		for off := w.wm[p]; off < v; off++ {
			if !w.In[p][off].Gone {
				events++
			}
			if !w.In[p][off].Gone && !w.complete[fmt.Sprintf("%d/%d/%d", t.Proc, p, off)] {
				vsched.Fail("commit-incomplete", "offset %d of partition %d is committed while event %d is not complete", v, p, off)
			}
		}
		if v > w.wm[p] {
			w.wm[p] = v
		}
	}
	if events > w.Max {
		vsched.Fail("batch-too-large", "a transaction covers %d events, MaxBatchSize is %d", events, w.Max)
	}
	seen := map[string]int{}
	type past struct {
		proc, seq, txn int
		off            int64
		what           string
	}
	before := map[string][]past{}
	scan := func(topic string, parts int, order bool) {
		for i := 0; i < parts; i++ {
			for _, e := range w.S.Part(topic, int32(i)).Effective() {
				if topic == w.changeT() && len(e.Value) == 0 || len(e.Headers) == 1 && e.Headers[0].Key == "gkes__mark" {
					continue
				}
				p, off, n, ok := parse(e.Value)
				if !ok {
					continue
				}
				k := topic + " " + id(p, off, n)
				seen[k]++
				if seen[k] > 1 && off >= 0 {
					vsched.Fail("duplicate-output", "output %s of event %d/%d is visible %d times", k, p, off, seen[k])
				}
				if off >= w.wm[p] {
					vsched.Fail("output-without-offset", "output %s of event %d/%d is visible but the committed offset is %d", k, p, off, w.wm[p])
				}
				if order && !w.NoOrder {
					// outputs of one input partition keep the order they were forwarded in; only an event that completes
					// late may put its late outputs before those of later events, because its transaction is the earlier one
					lk := fmt.Sprint(i, p)
					x := past{e.Proc, w.fseq[fmt.Sprintf("%d:%s", e.Proc, id(p, off, n))], 0, off, id(p, off, n)}
					if e.Txn != nil {
						x.txn = e.Txn.ID
					}
					for _, y := range before[lk] {
						if y.proc == x.proc && y.seq > x.seq && (y.txn == x.txn || y.off >= x.off) {
							vsched.Fail("output-order", "output %s appears after %s but was forwarded before it", x.what, y.what)
						}
					}
					before[lk] = append(before[lk], x)
				}
			}
		}
	}
	scan(outT, w.OutParts, true)
	scan(w.changeT(), w.Parts, false)
	for p := range w.In {
		for _, e := range w.In[p] {
			if e.Off >= w.wm[int32(p)] {
				break
			}
			outs := e.outs()
			if w.outsOf != nil && !e.Gone {
				outs = w.outsOf(e)
			}
			for n := 0; n < outs; n++ {
				if k := outT + " " + id(e.P, e.Off, n); seen[k] == 0 && !(w.Continue && w.S.Rejected[k]) {
					vsched.Fail("output-lost", "offset %d of partition %d is committed but output %d of event %d is missing", w.wm[e.P], p, n, e.Off)
				}
			}
			c := 0
			for _, ch := range e.Script {
				if ch == 's' && seen[w.changeT()+" "+id(e.P, e.Off, c)] == 0 {
					vsched.Fail("change-lost", "offset %d of partition %d is committed but state change %d of event %d is missing", w.wm[e.P], p, c, e.Off)
				}
				if ch == 's' || ch == 'd' {
					c++
				}
			}
		}
	}
}

// allDone: every input event is committed.
func (w *World) allDone() bool {
	for p := range w.In {
		if w.wm[int32(p)] < int64(len(w.In[p])) {
			return false
		}
	}
	return true
}

// finish waits until all input is committed.
func (w *World) finish(budget int64) {
	if !vsched.RunUntil(w.allDone, budget) {
		vsched.Fail("not-committed", "the input is not fully committed after %v of virtual time: committed %v of %v\n%s", time.Duration(budget), w.wm, w.lens(), vsched.Describe())
	}
	w.observe()
}

func (w *World) lens() (l []int) {
	for _, p := range w.In {
		l = append(l, len(p))
	}
	return
}

func (w *World) observe() {
	for i := 0; i < w.OutParts; i++ {
		for _, e := range w.S.Part(outT, int32(i)).Settled() {
			vsched.Observe(vsched.HashString(string(e.Value)))
		}
	}
	vsched.Observe(vsched.HashString(strings.Join(w.Handled, " ")))
}

// assign gives partitions to an instance and waits for the callbacks.
func (w *World) assign(in *Inst, parts ...int32) {
	ch := make(chan struct{})
	in.M.Assign(inT, parts, func() { vsched.Close(ch) })
	vsched.Recv(ch)
}

// assignNoWait gives partitions to an instance.
func (w *World) assignNoWait(in *Inst, parts ...int32) { in.M.Assign(inT, parts, nil) }

// revoke takes partitions from an instance and waits for the callbacks.
func (w *World) revoke(in *Inst, parts ...int32) {
	ch := make(chan struct{})
	at := vsched.Now()
	in.M.Revoke(inT, parts, func() { vsched.Close(ch) })
	vsched.Recv(ch)
	if d := vsched.Now() - at; w.RevokeBudget > 0 && d > w.RevokeBudget && !in.dead {
		vsched.Fail("slow-revoke", "revoking %v took %d ms", parts, d/ms)
	}
}

// crash kills an instance.
func (w *World) crash(in *Inst) {
	in.dead = true
	vkafka.CrashProc(in.ID)
	w.died(in)
}

func (w *World) died(in *Inst) {
	in.dead = true
	for p, b := range w.busy {
		if strings.HasSuffix(b, fmt.Sprintf("inst%d", in.ID)) {
			w.busy[p] = ""
		}
	}
}

// later runs an environment action as early as the first quiet moment, or (free choices) after time has passed;
// running it earlier than that is a deviation.
func (w *World) later(name string, f func(), after ...int64) {
	if len(after) == 0 {
		after = []int64{0, 12 * ms, 25 * ms, 300 * ms}
	}
	vsched.GoEnv(name, func() {
		if d := after[vsched.ChooseFree(len(after))]; d > 0 {
			vtime.Sleep(time.Duration(d))
			vsched.Low()
		}
		f()
	})
}

// all lists the partitions.
func (w *World) all() (l []int32) {
	for p := 0; p < w.Parts; p++ {
		l = append(l, int32(p))
	}
	return
}

// logger writes nothing, and takes its time for it where slow is set: what is logged before something is done delays it.
type logger struct{ streams.SimpleLogger }

var slow bool

func init() { vsched.OnReset(func() { slow = false }) }

func (logger) Errorf(string, ...any) {
	if slow && vsched.Active() {
		sleep(30 * time.Millisecond)
	}
}

func sleep(d time.Duration) { vtime.Sleep(d) }
