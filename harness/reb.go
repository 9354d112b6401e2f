//go:build go1.23

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
	"github.com/twmb/franz-go/pkg/kgo"
	"github.com/twmb/franz-go/pkg/kmsg"
)

// Explicit-state search over consumer groups whose members run the real incremental rebalancer. A state is what the
// members know and own; transitions are rebalance rounds and what may happen around them.

const rebT = "t"

// rm is one member slot.
type rm struct {
	name     string
	st       int // 0 not there yet, 1 alive, 2 gone
	status   int // as in its metadata
	left     int // order of graceful leaves
	own      []int32
	prep     []int32
	ready    []int32
	inflight []int32 // told to prepare, not reported yet
	late     []int32 // the same, but the partition was assigned or forgotten just before
	timer    bool    // a delayed rebalance is pending
	closed   bool    // the graceful channel has been closed
}

type rs struct {
	m      []rm
	need   bool
	env    int // environment events left
	parts  int32
	parent *rs
	act    string
	tape   []int
}

func (s *rs) clone() *rs {
	n := *s
	n.m = append([]rm(nil), s.m...)
	n.parent = s
	return &n
}

func (s *rs) key() string {
	var b strings.Builder
	for i := range s.m {
		m := &s.m[i]
		fmt.Fprintf(&b, "%d %d %d %v%v%v%v%v%v%v|", m.st, m.status, m.left, m.own, m.prep, m.ready, m.inflight, m.late, m.timer, m.closed)
	}
	fmt.Fprintf(&b, "%v %d", s.need, s.env)
	return b.String()
}

func (s *rs) String() string {
	var l []string
	for _, m := range s.m {
		if m.st == 1 {
			x := fmt.Sprintf("%s owns %v", m.name, m.own)
			if m.status != 0 {
				x += [...]string{"", " leaving", " left"}[m.status]
			}
			if len(m.prep) > 0 {
				x += fmt.Sprintf(" preparing %v", m.prep)
			}
			if len(m.ready) > 0 {
				x += fmt.Sprintf(" ready %v", m.ready)
			}
			if len(m.inflight) > 0 {
				x += fmt.Sprintf(" busy with %v", m.inflight)
			}
			l = append(l, x)
		}
	}
	x := strings.Join(l, "; ")
	if s.need {
		x += " (rebalance due)"
	}
	return x
}

func (s *rs) path() string {
	var l []string
	for x := s; x != nil; x = x.parent {
		a := x.act
		if a == "" {
			a = "start"
		}
		l = append([]string{fmt.Sprintf("%s %v -> %s", a, x.tape, x)}, l...)
	}
	return strings.Join(l, "\n")
}

func (s *rs) alive() (n, active int) {
	for _, m := range s.m {
		if m.st == 1 {
			n++
			if m.status == 0 {
				active++
			}
		}
	}
	return
}

// live is a member in action.
type live struct {
	g        *rebSys
	i        int
	ir       streams.IncrementalGroupRebalancer
	cl       *kgo.Client
	inflight map[int32]bool
	late     map[int32]bool
	gone     bool // the graceful channel has been closed
}

func (l *live) leave() {
	ch := l.ir.GracefullyLeaveGroup()
	vsched.Go(func() {
		vsched.Recv(ch)
		l.gone = true
	})
}

func (l *live) PrepareTopicPartition(tp streams.TopicPartition) {
	for _, p := range l.g.s.m[l.i].own {
		if p == tp.Partition {
			l.g.fail("prepare-owned", "%s is told to prepare partition %d, which it owns", l.g.s.m[l.i].name, p)
		}
	}
	delete(l.late, tp.Partition)
	l.inflight[tp.Partition] = true
}
func (l *live) ForgetPreparedTopicPartition(tp streams.TopicPartition) {
	if !l.g.restoring && !hasP(l.g.forget[l.i], tp.Partition) {
		l.g.fail("forget-wrong", "%s is told to forget partition %d, the instruction said %v", l.g.s.m[l.i].name, tp.Partition, l.g.forget[l.i])
	}
	if l.g.forgot[l.i] == nil {
		l.g.forgot[l.i] = map[int32]bool{}
	}
	l.g.forgot[l.i][tp.Partition] = true
	l.void(tp.Partition)
}

// void: a preparation ends by assignment or by being forgotten. Its report may be under way already.
func (l *live) void(p int32) {
	if l.inflight[p] {
		delete(l.inflight, p)
		l.late[p] = true
	}
}
func (l *live) Client() *kgo.Client { return l.cl }

type stubBackend struct {
	kgo.VerifBackend
	force func()
}

func (b stubBackend) ForceRebalance() { b.force() }

var (
	rebForce   [8]func()
	rebClients [8]*kgo.Client
)

func rebClient(i int) *kgo.Client {
	if rebClients[i] == nil {
		old := kgo.VerifNew
		kgo.VerifNew = func(*kgo.Client) kgo.VerifBackend { return stubBackend{force: func() { rebForce[i]() }} }
		rebClients[i], _ = kgo.NewClient()
		kgo.VerifNew = old
	}
	return rebClients[i]
}

// rebSys executes one transition on real objects.
type rebSys struct {
	s         *rs
	choose    func(n int, order bool) int
	ms        []*live
	forced    []bool
	need      bool
	bad       [][2]string
	restoring bool
	forget    map[int][]int32
	forgot    map[int]map[int32]bool
}

// run calls f and lets what it started come to rest.
func (g *rebSys) run(f func()) {
	f()
	vsched.AwaitIdle()
}

func (g *rebSys) fail(sig, f string, a ...any) {
	g.bad = append(g.bad, [2]string{sig, fmt.Sprintf(f, a...)})
}

func hasP(l []int32, p int32) bool {
	for _, x := range l {
		if x == p {
			return true
		}
	}
	return false
}

func sorted(m map[int32]bool) []int32 {
	l := []int32{}
	for p := range m {
		l = append(l, p)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

func tpj(l []int32) string {
	var x []string
	for _, p := range l {
		x = append(x, fmt.Sprintf(`{"Partition":%d,"Topic":"%s"}`, p, rebT))
	}
	return "[" + strings.Join(x, ",") + "]"
}

func assignment(own []int32, user string) []byte {
	a := kmsg.NewConsumerMemberAssignment()
	if len(own) > 0 {
		t := kmsg.NewConsumerMemberAssignmentTopic()
		t.Topic = rebT
		t.Partitions = own
		a.Topics = append(a.Topics, t)
	}
	a.UserData = []byte(user)
	return a.AppendTo(nil)
}

type rmeta struct {
	Preparing, Ready []streams.TopicPartition
	Status           int
	LeftAt           int64
}

func (g *rebSys) meta(i int) ([]byte, rmeta) {
	l := g.ms[i]
	cur := map[string][]int32{}
	if o := g.s.m[i].own; len(o) > 0 {
		cur[rebT] = append([]int32(nil), o...)
	}
	var b []byte
	g.run(func() { b = l.ir.JoinGroupMetadata([]string{rebT}, cur, 1) })
	var mm kmsg.ConsumerMemberMetadata
	if err := mm.ReadFrom(b); err != nil {
		g.fail("metadata", "JoinGroupMetadata is not readable: %v", err)
	}
	var um rmeta
	if err := json.Unmarshal(mm.UserData, &um); err != nil {
		g.fail("metadata", "user data %q: %v", mm.UserData, err)
	}
	return b, um
}

func parts(l []streams.TopicPartition) []int32 {
	m := map[int32]bool{}
	for _, tp := range l {
		m[tp.Partition] = true
	}
	return sorted(m)
}

// restore builds a live member for a slot.
func (g *rebSys) restore(i int) *live {
	m := &g.s.m[i]
	l := &live{g: g, i: i, inflight: map[int32]bool{}, late: map[int32]bool{}}
	rebForce[i] = func() { g.need, g.forced[i] = true, true }
	l.cl = rebClient(i)
	l.ir = streams.IncrementalRebalancer(l)
	g.restoring = true
	both := append(append([]int32(nil), m.prep...), m.ready...)
	if len(both) > 0 {
		g.run(func() {
			own := g.s.m[i].own
			g.s.m[i].own = nil
			l.ir.ParseSyncAssignment(assignment(own, `{"Prepare":`+tpj(both)+`}`))
			g.s.m[i].own = own
		})
		for _, p := range m.ready {
			g.run(func() { l.ir.PartitionPrepared(streams.TopicPartition{Partition: p, Topic: rebT}) })
		}
	}
	l.inflight = map[int32]bool{}
	for _, p := range m.inflight {
		l.inflight[p] = true
	}
	l.late = map[int32]bool{}
	for _, p := range m.late {
		l.late[p] = true
	}
	g.restoring = false
	return l
}

// step executes an action on a state; nil if the objects could not be brought into the state.
func step(s *rs, act string, choose func(n int, order bool) int) (n *rs, bad [][2]string) {
	n = s.clone()
	n.act = act
	g := &rebSys{s: n, forget: map[int][]int32{}, forgot: map[int]map[int32]bool{}, forced: make([]bool, len(n.m))}
	g.choose = func(int, bool) int { return 0 }
	g.ms = make([]*live, len(n.m))
	ok := false
	var kind string
	var a, b int
	fmt.Sscanf(act, "%s %d %d", &kind, &a, &b)
	alone := !strings.HasPrefix(kind, "round") // the others have nothing to do with it
	for i := range n.m {
		rebClient(i)
	}
	r := vsched.Run(vsched.Config{MaxSteps: 20000, NoReset: true, Choose: func(n int, order bool) int { return g.choose(n, order) }}, func() {
		here := func(i int) bool { return n.m[i].st == 1 && (!alone || i == a) }
		for i := range n.m {
			if here(i) {
				g.ms[i] = g.restore(i)
			}
		}
		// in the order in which members left
		for left := 1; left <= len(n.m); left++ {
			vsched.Settle(ms)
			g.restoring = true
			for i := range n.m {
				if here(i) && n.m[i].left == left {
					g.run(g.ms[i].leave)
				}
			}
			for i := range n.m {
				if here(i) && n.m[i].left == left && n.m[i].status > 1 {
					g.run(func() { g.ms[i].ir.ParseSyncAssignment(assignment(nil, "{}")) })
				}
			}
			g.restoring = false
		}
		for i := range n.m {
			if !here(i) {
				continue
			}
			_, um := g.meta(i)
			if um.Status != n.m[i].status || fmt.Sprint(parts(um.Preparing)) != fmt.Sprint(n.m[i].prep) || fmt.Sprint(parts(um.Ready)) != fmt.Sprint(n.m[i].ready) {
				g.bad = [][2]string{{"not-reproducible", fmt.Sprintf("a member in the same situation (%+v) behaves differently: %+v", n.m[i], um)}}
				return
			}
		}
		vsched.Settle(5 * sec) // pending timers of the restored members
		ok = true
		g.need = n.need
		g.choose = choose
		g.do(kind, a, b)
		n.need = g.need
		for i := range n.m {
			m := &n.m[i]
			if m.st == 1 {
				if g.ms[i] != nil {
					g.sync(i)
				}
			} else {
				*m = rm{name: m.name, st: m.st}
			}
		}
		g.choose = func(int, bool) int { return 0 }
		for i := range g.forced {
			g.forced[i] = false
		}
		vsched.Settle(5 * sec)
		for i, f := range g.forced {
			if f && n.m[i].st == 1 {
				n.m[i].timer = true
			}
		}
		n.rank()
	})
	if sig, msg := verdict(&Scenario{}, r); sig != "" {
		g.bad = append(g.bad, [2]string{sig, msg})
	}
	if !ok {
		return nil, g.bad
	}
	return n, g.bad
}

// sync reads a slot back from its live member.
func (g *rebSys) sync(i int) {
	m := &g.s.m[i]
	_, um := g.meta(i)
	m.status = um.Status
	m.prep, m.ready = parts(um.Preparing), parts(um.Ready)
	m.inflight, m.late = sorted(g.ms[i].inflight), sorted(g.ms[i].late)
	if m.status > 0 && m.left == 0 {
		m.left = 1000 // newest
	}
	if um.Status == 0 {
		m.left = 0
	}
	m.closed = g.ms[i].gone
	if m.closed && len(m.own) > 0 {
		g.fail("left-with-partitions", "%s is told that it may leave while it owns %v", m.name, m.own)
	}
}

func (s *rs) rank() {
	var l []int
	for _, m := range s.m {
		if m.left > 0 {
			l = append(l, m.left)
		}
	}
	sort.Ints(l)
	for i := range s.m {
		for r, v := range l {
			if s.m[i].left == v {
				s.m[i].left = r + 1
				break
			}
		}
	}
}

func (g *rebSys) leave(i int) {
	g.run(g.ms[i].leave)
}

func (g *rebSys) remove(i int) {
	g.s.m[i].st = 2
	g.need = true
}

func (g *rebSys) prepared(i int, p int32) {
	delete(g.ms[i].inflight, p)
	delete(g.ms[i].late, p)
	g.run(func() { g.ms[i].ir.PartitionPrepared(streams.TopicPartition{Partition: p, Topic: rebT}) })
}

func (g *rebSys) do(kind string, a, b int) {
	s := g.s
	switch kind {
	case "join":
		s.env--
		s.m[a].st = 1
		g.ms[a] = g.restore(a)
		g.need = true
	case "crash":
		s.env--
		g.remove(a)
	case "leave":
		s.env--
		g.leave(a)
	case "leave-tie": // at the same instant as the last one that left
		s.env--
		g.leave(a)
		for i := range s.m {
			if i != a && s.m[i].st == 1 && s.m[i].left > s.m[a].left {
				s.m[a].left = s.m[i].left
			}
		}
	case "stop":
		g.remove(a)
	case "timer":
		s.m[a].timer = false
		g.need = true
	case "prepared", "late":
		g.prepared(a, int32(b))
	case "prepfail":
		s.env--
		delete(g.ms[a].inflight, int32(b))
		g.run(func() {
			g.ms[a].ir.PartitionPreparationFailed(streams.TopicPartition{Partition: int32(b), Topic: rebT})
		})
	case "round":
		g.round(func() {})
	case "round-crash":
		g.round(func() { s.env--; g.remove(a) })
	case "round-leave":
		g.round(func() { s.env--; g.leave(a) })
	case "round-prepared":
		g.round(func() { g.prepared(a, int32(b)) })
	default:
		panic(kind)
	}
}

// round is one rebalance: all join, one balances, (mid), all take their assignments.
func (g *rebSys) round(mid func()) {
	s := g.s
	g.need = false
	var ms []kmsg.JoinGroupResponseMember
	type info struct {
		own, prep, ready []int32
		status           int
	}
	in := map[int]info{}
	owner := map[int32]int{}
	leader := -1
	active := 0
	for i := range s.m {
		if s.m[i].st != 1 {
			continue
		}
		if leader < 0 {
			leader = i
		}
		b, um := g.meta(i)
		j := kmsg.NewJoinGroupResponseMember()
		j.MemberID = s.m[i].name
		j.ProtocolMetadata = b
		ms = append(ms, j)
		in[i] = info{s.m[i].own, parts(um.Preparing), parts(um.Ready), um.Status}
		if um.Status == 0 {
			active++
		}
		for _, p := range s.m[i].own {
			owner[p] = i
		}
	}
	plan := map[string][]byte{}
	g.run(func() {
		b, topics, err := g.ms[leader].ir.MemberBalancer(ms)
		if err != nil {
			g.fail("balance", "MemberBalancer: %v", err)
			return
		}
		if _, ok := topics[rebT]; !ok || len(topics) != 1 {
			g.fail("balance-topics", "MemberBalancer reports topics %v", topics)
		}
		as, err := b.(kgo.GroupMemberBalancerOrError).BalanceOrError(map[string]int32{rebT: s.parts})
		if err != nil {
			g.fail("balance", "BalanceOrError: %v", err)
			return
		}
		for _, a := range as.IntoSyncAssignment() {
			plan[a.MemberID] = a.MemberAssignment
		}
	})
	given := map[int32]int{}
	moving := map[int32]bool{}
	got := map[int][]int32{}
	for i, x := range in {
		var cma kmsg.ConsumerMemberAssignment
		if err := cma.ReadFrom(plan[s.m[i].name]); err != nil {
			g.fail("plan", "no readable assignment for %s: %v", s.m[i].name, err)
			continue
		}
		l := map[int32]bool{}
		for _, t := range cma.Topics {
			for _, p := range t.Partitions {
				if l[p] {
					g.fail("assigned-twice", "partition %d is twice in the assignment of %s", p, s.m[i].name)
				}
				l[p] = true
				if t.Topic != rebT || p < 0 || p >= s.parts {
					g.fail("plan", "%s gets partition %s/%d, which does not exist", s.m[i].name, t.Topic, p)
				}
				if o, ok := given[p]; ok && o != i {
					g.fail("assigned-twice", "partition %d is given to both %s and %s", p, s.m[o].name, s.m[i].name)
				}
				given[p] = i
				if o, ok := owner[p]; ok && o != i {
					g.fail("assigned-before-revoked", "partition %d is given to %s while %s still owns it", p, s.m[i].name, s.m[o].name)
				}
				if !hasP(x.own, p) && x.status != 0 && active > 0 {
					g.fail("given-to-leaving", "%s, which is leaving, gets partition %d", s.m[i].name, p)
				}
			}
		}
		got[i] = sorted(l)
		var ins struct{ Prepare, Forget []streams.TopicPartition }
		json.Unmarshal(cma.UserData, &ins)
		g.forget[i] = parts(ins.Forget)
		for _, p := range parts(ins.Prepare) {
			if x.status != 0 {
				g.fail("prepare-leaving", "%s, which is leaving, is told to prepare partition %d", s.m[i].name, p)
			}
			moving[p] = true
		}
		if x.status == 0 {
			for _, p := range append(append([]int32(nil), x.prep...), x.ready...) {
				moving[p] = true
			}
		}
	}
	for p := int32(0); p < s.parts; p++ {
		o, owned := owner[p]
		n, ok := given[p]
		switch {
		case !owned && !ok && active > 0:
			g.fail("unassigned", "partition %d has no owner and is not assigned", p)
		case !owned && ok:
			// somebody who prepared for it goes first
			for i, x := range in {
				if x.status == 0 && (hasP(x.ready, p) || hasP(x.prep, p)) && !(hasP(in[n].ready, p) || hasP(in[n].prep, p)) {
					g.fail("preparation-ignored", "partition %d is given to %s although %s is prepared for it", p, s.m[n].name, s.m[i].name)
				}
			}
		case owned && !ok && active > 0:
			good := false
			for i, x := range in {
				if i != o && x.status == 0 && hasP(x.ready, p) {
					good = true
				}
			}
			if !good {
				g.fail("moved-unprepared", "partition %d is taken from %s although nobody is ready for it", p, s.m[o].name)
			}
		}
	}
	if len(moving) > 1 {
		g.fail("budget", "partitions %v are being moved at the same time", sorted(moving))
	}
	mid()
	lostAny := false
	for i := range s.m {
		m := &s.m[i]
		b, ok := plan[m.name]
		if m.st != 1 || !ok {
			continue
		}
		if _, ok := in[i]; !ok {
			continue
		}
		var want map[string][]int32
		g.run(func() {
			var err error
			want, err = g.ms[i].ir.ParseSyncAssignment(b)
			if err != nil {
				g.fail("sync", "ParseSyncAssignment: %v", err)
			}
		})
		if fmt.Sprint(want[rebT]) != fmt.Sprint(got[i]) {
			g.fail("sync", "ParseSyncAssignment returns %v for %v", want[rebT], got[i])
		}
		for _, p := range g.forget[i] {
			if (hasP(in[i].prep, p) || hasP(in[i].ready, p)) && !g.forgot[i][p] && !g.ms[i].gone {
				g.fail("not-forgotten", "%s is instructed to forget %v but %d is not", m.name, g.forget[i], p)
			}
		}
		old := m.own
		m.own = nil
		if len(got[i]) > 0 {
			m.own = got[i]
		}
		for _, p := range old {
			if !hasP(m.own, p) {
				lostAny = true
			}
		}
		var added []streams.TopicPartition
		for _, p := range m.own {
			if !hasP(old, p) {
				added = append(added, streams.TopicPartition{Partition: p, Topic: rebT})
				g.ms[i].void(p)
			}
		}
		if len(added) > 0 {
			g.run(func() { g.ms[i].ir.PartitionsAssigned(added...) })
		}
	}
	if lostAny {
		g.need = true
	}
}

// actions lists what can happen: first what the group does by itself, then the environment.
func (s *rs) actions() (internal, env []string) {
	if n, _ := s.alive(); s.need && n > 0 {
		internal = append(internal, "round")
	}
	for i := range s.m {
		m := &s.m[i]
		if m.st == 0 {
			if s.env > 0 && (i == 0 || s.m[i-1].st != 0) {
				env = append(env, fmt.Sprintf("join %d", i))
			}
			continue
		}
		if m.st != 1 {
			continue
		}
		for _, p := range m.inflight {
			internal = append(internal, fmt.Sprintf("prepared %d %d", i, p))
			if s.need {
				internal = append(internal, fmt.Sprintf("round-prepared %d %d", i, p))
			}
			if s.env > 0 {
				env = append(env, fmt.Sprintf("prepfail %d %d", i, p))
			}
		}
		for _, p := range m.late {
			env = append(env, fmt.Sprintf("late %d %d", i, p))
		}
		if m.timer {
			internal = append(internal, fmt.Sprintf("timer %d", i))
		}
		if m.closed {
			internal = append(internal, fmt.Sprintf("stop %d", i))
		}
		if s.env > 0 {
			env = append(env, fmt.Sprintf("crash %d", i))
			if s.need {
				env = append(env, fmt.Sprintf("round-crash %d", i))
			}
			if m.status == 0 {
				env = append(env, fmt.Sprintf("leave %d", i))
				for j := range s.m {
					if s.m[j].st == 1 && s.m[j].left > 0 {
						env = append(env, fmt.Sprintf("leave-tie %d", i))
						break
					}
				}
				if s.need {
					env = append(env, fmt.Sprintf("round-leave %d", i))
				}
			}
		}
	}
	return
}

// settled checks a state in which nothing happens any more unless the environment acts.
func (s *rs) settled() (sig, msg string) {
	n, active := s.alive()
	if n == 0 {
		return
	}
	if n > active {
		return "leave-stuck", "a member that wants to leave never gets to"
	}
	owner := map[int32]string{}
	min, max := 1<<30, 0
	for _, m := range s.m {
		if m.st != 1 {
			continue
		}
		if len(m.own) < min {
			min = len(m.own)
		}
		if len(m.own) > max {
			max = len(m.own)
		}
		for _, p := range m.own {
			if o := owner[p]; o != "" {
				return "owned-twice", fmt.Sprintf("partition %d is owned by %s and %s", p, o, m.name)
			}
			owner[p] = m.name
		}
		if len(m.prep)+len(m.ready) > 0 {
			return "preparation-left", fmt.Sprintf("%s keeps preparation of %v %v for ever", m.name, m.prep, m.ready)
		}
	}
	if len(owner) != int(s.parts) {
		return "owner-missing", fmt.Sprintf("only partitions %v have an owner", owner)
	}
	if max-min > 1 {
		return "unbalanced", "the group stays unbalanced"
	}
	return
}

type rebCfg struct {
	names   []string
	initial int
	parts   int32
	env     int
}

// search explores all states of a configuration.
func search(c *EnumCtx, cf rebCfg, safety, liveness bool) {
	root := &rs{parts: cf.parts, env: cf.env, need: true}
	for i, n := range cf.names {
		m := rm{name: n}
		if i < cf.initial {
			m.st = 1
		}
		root.m = append(root.m, m)
	}
	type node struct {
		s     *rs
		succ  []int32 // internal successors
		color int8
		quiet bool
	}
	start := time.Now()
	ids := map[string]int32{root.key(): 0}
	nodes := []*node{{s: root}}
	fail := func(sig, msg string, s *rs) {
		c.Fail(sig, "%d partitions: %s\n%s", cf.parts, msg, s.path())
	}
	for k := 0; k < len(nodes); k++ {
		if k%64 == 0 && c.Expired() {
			break
		}
		nd := nodes[k]
		in, env := nd.s.actions()
		nd.quiet = len(in) == 0
		for ai, act := range append(append([]string(nil), in...), env...) {
			// all answers to choices: every random pick, and at most one departure from the canonical iteration order
			type st struct{ tape []int }
			work := []st{{nil}}
			for len(work) > 0 {
				w := work[len(work)-1]
				work = work[:len(work)-1]
				var tape []int
				orders := 0
				n, bad := step(nd.s, act, func(n int, order bool) int {
					v := 0
					if len(tape) < len(w.tape) {
						v = w.tape[len(tape)]
					} else if !order || orders == 0 {
						for alt := 1; alt < n; alt++ {
							if order && alt > 1 && alt < n-1 {
								continue // next and last
							}
							work = append(work, st{append(append([]int(nil), tape...), alt)})
						}
					}
					if order && v > 0 {
						orders++
					}
					tape = append(tape, v)
					return v
				})
				c.Trans++
				if n != nil {
					for len(tape) > 0 && tape[len(tape)-1] == 0 {
						tape = tape[:len(tape)-1]
					}
					n.tape = tape
				}
				for _, x := range bad {
					isLive := x[0] == "not-reproducible"
					if safety && !isLive || isLive {
						at := n
						if at == nil {
							at = nd.s
						}
						fail(x[0], x[1], at)
					}
				}
				if n == nil {
					continue
				}
				key := n.key()
				id, ok := ids[key]
				if !ok {
					id = int32(len(nodes))
					ids[key] = id
					nodes = append(nodes, &node{s: n})
					c.States++
				}
				if ai < len(in) {
					nd.succ = append(nd.succ, id)
				}
			}
		}
	}
	if os.Getenv("HX_V") != "" {
		fmt.Fprintln(os.Stderr, cf, len(nodes), c.Trans, time.Since(start))
	}
	if !liveness {
		return
	}
	// nothing the group does by itself goes on for ever, and it ends in a good state
	for k := range nodes {
		if nodes[k].quiet {
			if sig, msg := nodes[k].s.settled(); sig != "" {
				fail(sig, msg, nodes[k].s)
			}
		}
	}
	type fr struct {
		id int32
		i  int
	}
	for k := range nodes {
		if nodes[k].color != 0 {
			continue
		}
		stack := []fr{{int32(k), 0}}
		nodes[k].color = 1
		for len(stack) > 0 {
			f := &stack[len(stack)-1]
			nd := nodes[f.id]
			if f.i >= len(nd.succ) {
				nd.color = 2
				stack = stack[:len(stack)-1]
				continue
			}
			t := nd.succ[f.i]
			f.i++
			switch nodes[t].color {
			case 0:
				nodes[t].color = 1
				stack = append(stack, fr{t, 0})
			case 1:
				var l []string
				on := false
				for _, x := range stack {
					if x.id == t {
						on = true
					}
					if on {
						l = append(l, nodes[x.id].s.String())
					}
				}
				fail("rebalances-for-ever", "the group keeps rebalancing:\n  "+strings.Join(l, "\n  "), nodes[t].s)
			}
		}
	}
	if len(nodes) > 1 {
		c.Sample("%v parts=%d: %d states, e.g. %s", cf.names, cf.parts, len(nodes), nodes[len(nodes)/2].s)
	}
}

func init() {
	run := func(safety, liveness bool) func(c *EnumCtx) {
		return func(c *EnumCtx) {
			var l []rebCfg
			up, down, mix := []string{"a", "b", "c", "d"}, []string{"d", "c", "b", "a"}, []string{"b", "c", "a", "d"}
			add := func(parts int32, env, members int, all bool) {
				for _, names := range [][]string{up, down, mix} {
					for i := members; i >= 1; i-- {
						if all || i == members-1 && members > 2 {
							l = append(l, rebCfg{names[:members], i, parts, env})
						}
					}
				}
			}
			if c.Quick() {
				c.Bound = "3 members: 1 partition with 4 events, 2 with 3, 3-5 with 2; 4 members: 2-3 partitions with 2 events"
				add(2, 3, 3, true)
				add(5, 2, 3, false)
				add(4, 2, 3, true)
				add(3, 2, 4, false)
				add(3, 2, 3, true)
				add(2, 2, 4, false)
				add(1, 4, 3, false)
			} else {
				c.Bound = "3 members: 1-3 partitions with 4 events, 4-5 with 3, 6 with 2; 4 members: 2-5 partitions with 3 events"
				add(3, 4, 3, true)
				add(4, 3, 3, true)
				add(5, 3, 3, true)
				add(4, 3, 4, true)
				add(3, 3, 4, true)
				add(2, 3, 4, true)
				add(5, 3, 4, false)
				add(2, 4, 3, true)
				add(1, 4, 3, true)
				add(6, 2, 3, true)
			}
			c.Bound = "groups of members running the real rebalancer; joins, leaves, crashes, failed preparations as events at any point; " + c.Bound + "; every random pick of a partition, iteration orders with at most one departure from canonical"
			for _, cf := range l {
				if !c.Mine() {
					continue
				}
				if c.Expired() {
					continue
				}
				c.cur = fmt.Sprint(cf)
				c.Evals++
				search(c, cf, safety, liveness)
			}
		}
	}
	addEnum(&Enum{Name: "reb-safety", Props: []string{"C13"}, Doc: "all states of a consumer group under the incremental rebalancer: ownership and preparation", Fn: run(true, false)})
	addEnum(&Enum{Name: "reb-convergence", Props: []string{"C14"}, Doc: "all states of a consumer group under the incremental rebalancer: it settles, balanced, and leavers get away", Fn: run(false, true)})
}

// instrs recorded by a handler.
type instrs struct {
	prepared, forgot map[streams.TopicPartition]int
	forced           int
}

func (h *instrs) PrepareTopicPartition(tp streams.TopicPartition)        { h.prepared[tp]++ }
func (h *instrs) ForgetPreparedTopicPartition(tp streams.TopicPartition) { h.forgot[tp]++ }
func (h *instrs) Client() *kgo.Client                                    { return rebClient(7) }

func init() {
	all := []streams.TopicPartition{{Partition: 0, Topic: "t"}, {Partition: 1, Topic: "t"}, {Partition: 0, Topic: "u"}}
	list := func(mask int) string {
		var x []string
		for i, tp := range all {
			if mask>>i&1 == 1 {
				x = append(x, fmt.Sprintf(`{"Partition":%d,"Topic":"%s"}`, tp.Partition, tp.Topic))
			}
		}
		return "[" + strings.Join(x, ",") + "]"
	}
	addEnum(&Enum{Name: "reb-instructions", Props: []string{"C13"}, Doc: "every set of instructions in every situation of a member is carried out, once", Fn: func(c *EnumCtx) {
		c.Bound = "3 topic-partitions, each idle, preparing or ready; every set to prepare and to forget; then every report"
		rebClient(7)
		for st := 0; st < 27; st++ {
			for pm := 0; pm < 8; pm++ {
				for fm := 0; fm < 8; fm++ {
					if pm&fm != 0 || !c.Mine() {
						continue
					}
					st, pm, fm := st, pm, fm
					state := func(i int) int { return st / []int{1, 3, 9}[i] % 3 }
					what := fmt.Sprintf("member with states %d%d%d told to prepare %s and forget %s", state(0), state(1), state(2), list(pm), list(fm))
					c.Evals++
					r := vsched.Run(vsched.Config{MaxSteps: 20000, NoReset: true, Choose: func(int, bool) int { return 0 }}, func() {
						h := &instrs{map[streams.TopicPartition]int{}, map[streams.TopicPartition]int{}, 0}
						rebForce[7] = func() { h.forced++ }
						ir := streams.IncrementalRebalancer(h)
						act := 0
						for i := range all {
							if state(i) > 0 {
								act |= 1 << i
							}
						}
						ir.ParseSyncAssignment(assignment(nil, `{"Prepare":`+list(act)+`}`))
						vsched.AwaitIdle()
						for i, tp := range all {
							if state(i) == 2 {
								ir.PartitionPrepared(tp)
							}
							if want := act >> i & 1; h.prepared[tp] != want {
								c.Fail("instructions", "told to prepare %s: %v was prepared %d times", list(act), tp, h.prepared[tp])
							}
						}
						vsched.AwaitIdle()
						*h = instrs{map[streams.TopicPartition]int{}, map[streams.TopicPartition]int{}, 0}
						own, err := ir.ParseSyncAssignment(assignment([]int32{5, 7}, `{"Prepare":`+list(pm)+`,"Forget":`+list(fm)+`}`))
						vsched.AwaitIdle()
						if err != nil || fmt.Sprint(own) != "map[t:[5 7]]" {
							c.Fail("instructions", "%s: assignment is %v, %v", what, own, err)
						}
						var mm kmsg.ConsumerMemberMetadata
						mm.ReadFrom(ir.JoinGroupMetadata([]string{"t"}, nil, 1))
						var um rmeta
						json.Unmarshal(mm.UserData, &um)
						in := func(l []streams.TopicPartition, tp streams.TopicPartition) bool {
							for _, x := range l {
								if x == tp {
									return true
								}
							}
							return false
						}
						for i, tp := range all {
							wp, wf, ws := 0, 0, state(i)
							if pm>>i&1 == 1 && state(i) == 0 {
								wp, ws = 1, 1
							}
							if fm>>i&1 == 1 && state(i) > 0 {
								wf, ws = 1, 0
							}
							if pm>>i&1 == 1 && state(i) == 2 {
								continue // does not happen: a partition that is ready is in receivership
							}
							gs := 0
							if in(um.Preparing, tp) {
								gs = 1
							}
							if in(um.Ready, tp) {
								gs += 2
							}
							if h.prepared[tp] != wp || h.forgot[tp] != wf || gs != ws {
								c.Fail("instructions", "%s: %v was prepared %d times (want %d), forgotten %d times (want %d), its state is %d (want %d)", what, tp, h.prepared[tp], wp, h.forgot[tp], wf, gs, ws)
							}
						}
						if fm != 0 && h.forced == 0 {
							c.Fail("forget-no-rebalance", "%s: no rebalance is requested, the group does not learn that the move is off", what)
						}
						// a report counts only for what is being prepared
						for _, tp := range all {
							was := in(um.Preparing, tp)
							f := h.forced
							ir.PartitionPrepared(tp)
							vsched.AwaitIdle()
							if was && h.forced == f {
								c.Fail("report-no-rebalance", "%s: %v is prepared, no rebalance is requested", what, tp)
							}
						}
						mm.ReadFrom(ir.JoinGroupMetadata([]string{"t"}, nil, 1))
						um2 := rmeta{}
						json.Unmarshal(mm.UserData, &um2)
						for _, tp := range all {
							if in(um2.Preparing, tp) || in(um2.Ready, tp) != (in(um.Preparing, tp) || in(um.Ready, tp)) {
								c.Fail("report", "%s: after all reports, preparing is %v and ready %v; before, %v and %v", what, um2.Preparing, um2.Ready, um.Preparing, um.Ready)
							}
						}
						f := h.forced
						ir.PartitionsAssigned(all...)
						vsched.AwaitIdle()
						if len(um2.Ready) > 0 && h.forced == f {
							c.Fail("assigned-no-rebalance", "%s: prepared partitions were assigned, no rebalance is requested", what)
						}
						mm.ReadFrom(ir.JoinGroupMetadata([]string{"t"}, nil, 1))
						um3 := rmeta{}
						json.Unmarshal(mm.UserData, &um3)
						if len(um3.Preparing)+len(um3.Ready) > 0 {
							c.Fail("assigned", "%s: after everything was assigned, preparing is %v and ready %v", what, um3.Preparing, um3.Ready)
						}
					})
					if sig, msg := verdict(&Scenario{}, r); sig != "" {
						c.Fail(sig, "%s: %s", what, msg)
					}
				}
			}
		}
	}})
}
