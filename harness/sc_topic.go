//go:build go1.23

package main

import (
	"errors"
	"fmt"
	"net"
	"strings"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/aws/go-kafka-event-source/streams/zverif/vkafka"
	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
	"github.com/twmb/franz-go/pkg/kerr"
)

const otherSeed = "mem2"

func pick[T any](v ...T) T { return v[vsched.ChooseFree(len(v))] }

func dumpTopic(t *vkafka.Topic) string {
	if t == nil {
		return "missing"
	}
	return fmt.Sprintf("%d partitions, replication %d, %v", len(t.Parts), t.RF, t.Configs)
}

// topics of the application: which cluster they belong to.
func where(c streams.EventSourceConfig) (in, state *vkafka.Cluster, log, store string) {
	in = vkafka.Get(seed)
	state = in
	if c.StateCluster != nil {
		state = vkafka.Get(otherSeed)
	}
	store = c.StateStoreTopic
	if store == "" {
		store = fmt.Sprintf("gkes_change_log_%s_%s", c.Topic, c.GroupId)
	}
	return in, state, "gkes_commit_log_" + c.GroupId, store
}

func wantTopic(t *vkafka.Topic, what string, parts int, compact bool) {
	if t == nil {
		vsched.Fail("topic-missing", "no error is reported but the %s topic does not exist", what)
	}
	if len(t.Parts) != parts {
		vsched.Fail("topic-partitions", "the %s topic is created with %s, want %d partitions", what, dumpTopic(t), parts)
	}
	if got := strings.Contains(t.Configs["cleanup.policy"], "compact"); got != compact {
		vsched.Fail("topic-policy", "the %s topic is created with %s, compaction wanted: %v", what, dumpTopic(t), compact)
	}
	rf := t.RF
	if rf < 1 {
		vsched.Fail("topic-replication", "the %s topic is created with %s", what, dumpTopic(t))
	}
	min := t.Configs["min.insync.replicas"]
	if rf == 1 && min != "1" || rf > 1 && (min < "1" || min >= fmt.Sprint(rf)) {
		vsched.Fail("topic-isr", "the %s topic is created with %s: nothing can be produced when a replica is down, or at all", what, dumpTopic(t))
	}
}

// agree checks a Source against the topics that exist.
func agree(c streams.EventSourceConfig, s *streams.Source) {
	in, state, log, store := where(c)
	for _, x := range []struct {
		c    *vkafka.Cluster
		name string
	}{{in, c.Topic}, {state, log}, {state, store}} {
		if x.c.Topics[x.name] == nil {
			vsched.Fail("topic-missing", "no error is reported but topic %s does not exist", x.name)
		}
	}
	n, l, m := len(in.Topics[c.Topic].Parts), len(state.Topics[log].Parts), len(state.Topics[store].Parts)
	if s.NumPartitions() != n || s.Config().NumPartitions != n {
		vsched.Fail("source-drift", "the Source believes in %d partitions, the topic has %d", s.NumPartitions(), n)
	}
	if m != n {
		vsched.Fail("source-drift", "the change log has %d partitions, the topic has %d, and no error is reported", m, n)
	}
	if got := s.Config().CommitLogPartitions; got != l && !(got <= 0 && l == 5) {
		vsched.Fail("source-drift", "the Source believes in %d commit log partitions, the commit log has %d", got, l)
	}
	if s.GroupId() != c.GroupId || s.Topic() != c.Topic || s.CommitLogTopicNameForGroupId() != log || s.StateStoreTopicName() != store {
		vsched.Fail("source-names", "the Source has the names %s %s %s %s", s.GroupId(), s.Topic(), s.CommitLogTopicNameForGroupId(), s.StateStoreTopicName())
	}
}

func topicNames() (out []string) {
	for _, s := range []string{seed, otherSeed} {
		for t := range vkafka.Get(s).Topics {
			out = append(out, s+":"+t)
		}
	}
	return
}

func baseConfig(parts, logs int) streams.EventSourceConfig {
	return streams.EventSourceConfig{GroupId: group, Topic: inT, NumPartitions: parts, CommitLogPartitions: logs, SourceCluster: streams.SimpleCluster{seed}}
}

func doCall(f func()) {
	ch := make(chan struct{})
	vsched.GoNamed("caller", func() {
		f()
		vsched.Close(ch)
	})
	vsched.Recv(ch)
}

func init() {
	top := []string{"C22"}
	addScenario(&Scenario{Name: "topics-config", Props: top, Doc: "CreateSource over all combinations of settings and existing topics; DeleteSource", Quick: 0, Deep: 1, Fn: func() {
		other := vkafka.Get(otherSeed)
		c := baseConfig(pick(1, 3), pick(0, 1, 7))
		c.ReplicationFactor = pick(0, 1, 2, 3)
		c.MinInSync = pick(0, 1, 2, 3, 5)
		c.StateStoreTopic = pick("", "my-store")
		if pick(false, true) {
			c.StateCluster = streams.SimpleCluster{otherSeed}
		}
		in, state, log, store := where(c)
		parts, rf := c.NumPartitions, c.ReplicationFactor
		if rf == 0 {
			rf = 1
		}
		hasIn, hasLog, hasStore := pick(0, 2), pick(0, 2), pick(0, 1, 2, 3)
		if hasIn > 0 {
			in.CreateTopic(c.Topic, hasIn, pick(1, 3), map[string]string{"kept": "1"})
			parts = hasIn
		}
		if hasLog > 0 {
			state.CreateTopic(log, hasLog, 2, map[string]string{"kept": "1"})
		}
		if hasStore > 0 {
			state.CreateTopic(store, hasStore, 2, map[string]string{"kept": "1"})
		}
		in.CreateTopic("unrelated", 1, 1, nil)
		other.CreateTopic("unrelated", 1, 1, nil)
		was := map[string]string{}
		for _, cl := range []*vkafka.Cluster{in, other} {
			for n, t := range cl.Topics {
				was[cl.Seed+":"+n] = dumpTopic(t)
			}
		}
		var s *streams.Source
		var err error
		doCall(func() { s, err = streams.CreateSource(c) })
		if hasStore > 0 && hasStore != parts {
			if err == nil {
				vsched.Fail("mismatch-accepted", "the change log has %d partitions, the topic %d, and CreateSource reports no error", hasStore, parts)
			}
		} else if err != nil {
			vsched.Fail("create-failed", "CreateSource of %+v: %v (topics %v)", c, err, was)
		} else {
			agree(c, s)
			if hasIn > 0 && s.Config().ReplicationFactor != in.Topics[c.Topic].RF {
				vsched.Fail("source-drift", "the Source believes in replication %d, the input topic is: %s", s.Config().ReplicationFactor, dumpTopic(in.Topics[c.Topic]))
			}
			if hasIn == 0 {
				wantTopic(in.Topics[c.Topic], "input", parts, false)
				if in.Topics[c.Topic].RF != rf {
					vsched.Fail("topic-replication", "the input topic is created with %s, want replication %d", dumpTopic(in.Topics[c.Topic]), rf)
				}
				if min := in.Topics[c.Topic].Configs["min.insync.replicas"]; c.MinInSync > 0 && c.MinInSync < rf && min != fmt.Sprint(c.MinInSync) {
					vsched.Fail("topic-isr", "the input topic is created with %s, want MinInSync %d", dumpTopic(in.Topics[c.Topic]), c.MinInSync)
				}
			}
			if hasLog == 0 {
				n := c.CommitLogPartitions
				if n == 0 {
					n = 5
				}
				wantTopic(state.Topics[log], "commit log", n, true)
			}
			if hasStore == 0 {
				wantTopic(state.Topics[store], "change log", parts, true)
			}
			if c.SourceCluster == nil || s.AsDestination().DefaultTopic != c.Topic || fmt.Sprint(s.AsDestination().Cluster) != fmt.Sprint(c.SourceCluster) || s.AsDestination().NumPartitions != parts {
				vsched.Fail("destination", "AsDestination gives %+v", s.AsDestination())
			}
		}
		known := map[string]bool{in.Seed + ":" + c.Topic: true, state.Seed + ":" + log: true, state.Seed + ":" + store: true}
		for _, n := range topicNames() {
			if was[n] == "" && !known[n] {
				vsched.Fail("topic-stray", "topic %s has been created", n)
			}
		}
		for n, d := range was {
			i := strings.Index(n, ":")
			if now := dumpTopic(vkafka.Get(n[:i]).Topics[n[i+1:]]); now != d {
				vsched.Fail("topic-changed", "topic %s was: %s, is now: %s", n, d, now)
			}
		}
		doCall(func() { err = streams.DeleteSource(c) })
		for _, n := range topicNames() {
			if known[n] {
				vsched.Fail("topic-left", "DeleteSource (%v) leaves topic %s", err, n)
			}
		}
		for n := range was {
			i := strings.Index(n, ":")
			if !known[n] && vkafka.Get(n[:i]).Topics[n[i+1:]] == nil {
				vsched.Fail("topic-deleted", "DeleteSource deletes topic %s", n)
			}
		}
	}})

	addScenario(&Scenario{Name: "topics-invalid", Props: top, Doc: "settings that cannot work are refused", Quick: 0, Deep: 0, Fn: func() {
		c := baseConfig(2, 2)
		what := pick("group", "topic", "cluster", "partitions")
		switch what {
		case "group":
			c.GroupId = ""
		case "topic":
			c.Topic = ""
		case "cluster":
			c.SourceCluster = nil
		case "partitions":
			c.NumPartitions = 0
		}
		var err error
		doCall(func() { _, err = streams.CreateSource(c) })
		if err == nil {
			vsched.Fail("invalid-accepted", "CreateSource accepts a configuration without %s", what)
		}
		if what != "partitions" && len(topicNames()) > 0 {
			vsched.Fail("topic-stray", "CreateSource refuses the configuration but creates %v", topicNames())
		}
	}})

	// failures: of the connection, before or after a request took effect, or answers of the broker
	netErr := func() error { return &net.OpError{Op: "dial", Net: "tcp", Err: errors.New("connection refused")} }
	fault := func(name, doc string, f func() (err error, check func())) {
		addScenario(&Scenario{Name: name, Props: top, Doc: doc, Quick: 2, Deep: 3, Fn: func() {
			transient, fatal, before := 0, 0, 0
			cl := vkafka.Get(seed)
			cl.ReqFault = func(c *vkafka.Client, req string) error {
				before = fatal
				switch vsched.Choose(3) {
				case 1:
					transient++
					vsched.Tracef("BROKER %s is lost", req)
					return netErr()
				case 2:
					fatal++
					vsched.Tracef("BROKER %s fails", req)
					return kerr.ClusterAuthorizationFailed
				}
				return nil
			}
			cl.RespFault = func(c *vkafka.Client, req string) error {
				if vsched.Choose(2) == 1 {
					transient++
					fatal = before
					vsched.Tracef("BROKER the answer to %s is lost", req)
					return netErr()
				}
				return nil
			}
			cl.TopicErr = func(t string) int16 {
				if vsched.Choose(2) == 1 {
					fatal++
					vsched.Tracef("BROKER refuses to create %s", t)
					return kerr.PolicyViolation.Code
				}
				return 0
			}
			var err error
			var check func()
			doCall(func() { err, check = f() })
			if fatal > 0 && err == nil {
				vsched.Fail("error-swallowed", "the broker refused a request but no error is returned")
			}
			if fatal == 0 && err != nil {
				vsched.Fail("not-retried", "%d requests were lost and CreateSource gives up: %v", transient, err)
			}
			if err == nil {
				check()
			}
		}})
	}
	fault("topics-fault", "CreateSource when requests fail", func() (error, func()) {
		c := baseConfig(2, 0)
		s, err := streams.CreateSource(c)
		return err, func() { agree(c, s) }
	})
	dest := func() streams.Destination {
		return streams.Destination{DefaultTopic: "dest", NumPartitions: 3, ReplicationFactor: 2, MinInSync: 1, Cluster: streams.SimpleCluster{seed}}
	}
	fault("topics-dest-fault", "CreateDestination when requests fail", func() (error, func()) {
		d := dest()
		_, err := streams.CreateDestination(d)
		return err, func() {
			if vkafka.Get(seed).Topics["dest"] == nil {
				vsched.Fail("topic-missing", "CreateDestination reports no error but the topic does not exist")
			}
		}
	})
	addScenario(&Scenario{Name: "topics-dest", Props: top, Doc: "CreateDestination with different settings, the topic exists or not", Quick: 0, Deep: 1, Fn: func() {
		d := dest()
		d.NumPartitions, d.ReplicationFactor, d.MinInSync = pick(1, 3), pick(1, 2), pick(0, 1)
		cl := vkafka.Get(seed)
		exists := pick(false, true)
		if exists {
			cl.CreateTopic("dest", 7, 3, nil)
		}
		was := dumpTopic(cl.Topics["dest"])
		var err error
		var r streams.Destination
		t0 := vsched.Now()
		doCall(func() { r, err = streams.CreateDestination(d) })
		if err != nil {
			vsched.Fail("create-failed", "CreateDestination of %+v: %v", d, err)
		}
		if r.DefaultTopic != d.DefaultTopic || r.Cluster == nil {
			vsched.Fail("destination", "CreateDestination of %+v returns %+v", d, r)
		}
		if vsched.Now()-t0 > int64(time.Second) {
			vsched.Fail("slow", "CreateDestination takes %v without any failure", time.Duration(vsched.Now()-t0))
		}
		if exists {
			if now := dumpTopic(cl.Topics["dest"]); now != was {
				vsched.Fail("topic-changed", "the topic was: %s, is now: %s", was, now)
			}
		} else {
			wantTopic(cl.Topics["dest"], "destination", d.NumPartitions, false)
			if cl.Topics["dest"].RF != d.ReplicationFactor {
				vsched.Fail("topic-replication", "the destination is created with %s, want replication %d", dumpTopic(cl.Topics["dest"]), d.ReplicationFactor)
			}
		}
		if n := len(topicNames()); n != 1 {
			vsched.Fail("topic-stray", "CreateDestination creates other topics: %v", topicNames())
		}
	}})

	addScenario(&Scenario{Name: "topics-race", Props: top, Doc: "two processes create the topics at once, with different settings", Quick: 3, Deep: 4, Fn: func() {
		c := []streams.EventSourceConfig{baseConfig(2, 1), baseConfig(pick(2, 3), pick(1, 2))}
		n := 0
		for i := range c {
			i := i
			vsched.GoNamed("process", func() {
				vsched.SetGroup(i + 1)
				s, err := streams.CreateSource(c[i])
				if err == nil {
					agree(c[i], s)
				} else if c[0].NumPartitions == c[1].NumPartitions {
					vsched.Fail("create-failed", "CreateSource fails when another process creates the same topics: %v", err)
				}
				n++
			})
		}
		if !vsched.RunUntil(func() bool { return n == 2 }, 60*sec) {
			vsched.Fail("no-answer", "CreateSource does not return\n%s", vsched.Describe())
		}
	}})
}
