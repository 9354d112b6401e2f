//go:build go1.23

package main

import (
	"bytes"
	"context"
	"crypto/hmac"
	"crypto/pbkdf2"
	"crypto/sha512"
	"crypto/tls"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"time"

	"github.com/aws/aws-sdk-go-v2/aws"
	"github.com/aws/go-kafka-event-source/streams/zverif/msk"
	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
	"github.com/twmb/franz-go/pkg/kgo"
	"github.com/twmb/franz-go/pkg/sasl"
)

// cloud is the AWS API in memory: clusters, in the order they are listed, in pages.
type cloud struct {
	during   func() // called in the middle of a call
	clusters []cluster
	page     int // clusters per page
	blank    bool
	fail     int // the n-th call fails (1-based)
	calls    int
	creds    aws.Credentials
	credErr  error
}

type cluster struct {
	name, arn string
	brokers   map[string]string
}

var brokerKeys = []string{"bootstrapBrokerString", "bootstrapBrokerStringTls", "bootstrapBrokerStringSaslScram", "bootstrapBrokerStringSaslIam",
	"bootstrapBrokerStringPublicTls", "bootstrapBrokerStringPublicSaslScram", "bootstrapBrokerStringPublicSaslIam"}

// keyOf is the kind of brokers each authentication needs.
var keyOf = map[msk.AuthType]string{msk.None: brokerKeys[0], msk.MutualTLS: brokerKeys[1], msk.SaslScram: brokerKeys[2], msk.SaslIam: brokerKeys[3],
	msk.PublicMutualTLS: brokerKeys[4], msk.PublicSaslScram: brokerKeys[5], msk.PublicSaslIam: brokerKeys[6]}

func (c *cloud) Do(r *http.Request) (*http.Response, error) {
	c.calls++
	n := c.calls
	if c.during != nil {
		c.during()
	}
	code, body := 200, any(nil)
	path, _ := url.PathUnescape(r.URL.EscapedPath())
	switch q := r.URL.Query(); {
	case n == c.fail:
		code, body = 403, map[string]string{"message": "no", "invalidParameter": ""}
	case r.Method == "GET" && path == "/v1/clusters":
		var l []map[string]string
		from, _ := strconv.Atoi(q.Get("nextToken"))
		to := len(c.clusters)
		if c.page > 0 && from+c.page < to {
			to = from + c.page
		}
		if c.blank && q.Get("nextToken") == "" {
			from, to = 0, 0
		}
		for _, x := range c.clusters[from:to] {
			if strings.HasPrefix(x.name, q.Get("clusterNameFilter")) {
				m := map[string]string{"clusterName": x.name}
				if x.arn != "" {
					m["clusterArn"] = x.arn
				}
				l = append(l, m)
			}
		}
		m := map[string]any{"clusterInfoList": l}
		if to < len(c.clusters) {
			m["nextToken"] = strconv.Itoa(to)
			if c.blank && to == 0 {
				m["nextToken"] = "00"
			}
		}
		body = m
	case r.Method == "GET" && strings.HasPrefix(path, "/v1/clusters/") && strings.HasSuffix(path, "/bootstrap-brokers"):
		arn := strings.TrimSuffix(strings.TrimPrefix(path, "/v1/clusters/"), "/bootstrap-brokers")
		code, body = 404, map[string]string{"message": "unknown cluster " + arn}
		for _, x := range c.clusters {
			if x.arn == arn {
				code, body = 200, x.brokers
			}
		}
	default:
		code, body = 400, map[string]string{"message": "unexpected request " + r.Method + " " + path}
	}
	b, _ := json.Marshal(body)
	return &http.Response{StatusCode: code, Header: http.Header{"Content-Type": {"application/json"}}, Body: io.NopCloser(bytes.NewReader(b)), Request: r}, nil
}

func (c *cloud) Retrieve(context.Context) (aws.Credentials, error) { return c.creds, c.credErr }

func (c *cloud) config() aws.Config {
	return aws.Config{Region: "eu-west-1", HTTPClient: c, Credentials: c, Retryer: func() aws.Retryer { return aws.NopRetryer{} }}
}

func allBrokers(tag string) map[string]string {
	m := map[string]string{}
	for i, k := range brokerKeys {
		m[k] = fmt.Sprintf("%s-%d-a:90%d,%s-%d-b:90%d", tag, i, i, tag, i, i)
	}
	return m
}

// isTLS tells how a dialer opens connections, and with which server name.
func isTLS(dial func(context.Context, string, string) (net.Conn, error)) (bool, string, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return false, "", err
	}
	defer l.Close()
	got := make(chan []byte, 1)
	go func() {
		s, err := l.Accept()
		if err != nil {
			got <- nil
			return
		}
		defer s.Close()
		s.SetDeadline(time.Now().Add(5 * time.Second))
		b := make([]byte, 4096)
		n, _ := s.Read(b)
		got <- b[:n]
	}()
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	if conn, err := dial(ctx, "tcp", l.Addr().String()); err == nil {
		conn.Write([]byte("plain"))
		conn.Close()
	}
	b := <-got
	switch {
	case len(b) > 0 && b[0] == 0x16:
		i := bytes.Index(b, []byte("verif-"))
		if i < 0 {
			return true, "", nil
		}
		return true, string(b[i : i+7]), nil
	case string(b) == "plain":
		return false, "", nil
	}
	return false, "", fmt.Errorf("unexpected first bytes %q", b)
}

// scramOK runs the server's side of SCRAM-SHA-512.
func scramOK(m sasl.Mechanism, user, pass string) error {
	if m.Name() != "SCRAM-SHA-512" {
		return fmt.Errorf("mechanism %s", m.Name())
	}
	s, first, err := m.Authenticate(context.Background(), "h")
	if err != nil {
		return err
	}
	f := strings.SplitN(string(first), ",", 3)
	if len(f) < 3 || !strings.HasPrefix(f[2], "n="+user+",r=") {
		return fmt.Errorf("first message %q", first)
	}
	server := strings.TrimPrefix(strings.Split(f[2], ",")[1], "r=") + "srv"
	server = "r=" + server + ",s=" + base64.StdEncoding.EncodeToString([]byte("salt")) + ",i=4096"
	_, final, err := s.Challenge([]byte(server))
	if err != nil {
		return err
	}
	i := strings.LastIndex(string(final), ",p=")
	if i < 0 {
		return fmt.Errorf("final message %q", final)
	}
	salted, err := pbkdf2.Key(sha512.New, pass, []byte("salt"), 4096, 64)
	if err != nil {
		return err
	}
	mac := func(k []byte, v string) []byte {
		h := hmac.New(sha512.New, k)
		h.Write([]byte(v))
		return h.Sum(nil)
	}
	ck := mac(salted, "Client Key")
	stored := sha512.Sum512(ck)
	sig := mac(stored[:], f[2]+","+server+","+string(final[:i]))
	for j := range ck {
		ck[j] ^= sig[j]
	}
	if base64.StdEncoding.EncodeToString(ck) != string(final[i+3:]) {
		return errors.New("wrong proof")
	}
	return nil
}

func mskCheck(c *EnumCtx, in any, auth msk.AuthType, opts []kgo.Opt, brokers string, tlsOn, own bool, cl *cloud) {
	cfg, sasls, dial := kgo.VerifOpts(opts...)
	if got := strings.Join(cfg.SeedBrokers, ","); got != brokers {
		c.Fail("msk-brokers", "%v: seed brokers %s, want %s", in, got, brokers)
	}
	on, name, err := isTLS(dial)
	want := map[bool]string{false: "", true: "verif-1"}[tlsOn]
	if own {
		want = "verif-2"
	}
	if err != nil || on != (tlsOn || own) || name != want {
		c.Fail("msk-tls", "%v: connections use TLS: %v, with the configuration %q, error %v", in, on, name, err)
	}
	var kind string
	for _, m := range sasls {
		kind += m.Name() + ";"
	}
	switch auth {
	case msk.SaslScram, msk.PublicSaslScram:
		if len(sasls) != 1 {
			c.Fail("msk-sasl", "%v: mechanisms %q", in, kind)
		} else if err := scramOK(sasls[0], "user", "pass"); err != nil {
			c.Fail("msk-scram", "%v: SCRAM authentication: %v", in, err)
		}
	case msk.SaslIam, msk.PublicSaslIam:
		if kind != "AWS_MSK_IAM;" {
			c.Fail("msk-sasl", "%v: mechanisms %q", in, kind)
			return
		}
		was := *cl
		for i := 0; i < 6; i++ { // credentials expire or are rotated: each connection uses those of the moment
			cl.creds = aws.Credentials{AccessKeyID: fmt.Sprintf("AKID%d", i), SecretAccessKey: "s", SessionToken: fmt.Sprintf("token%d", i)}
			if i/2 == 1 { // not a session
				cl.creds.SessionToken = ""
			}
			_, first, err := sasls[0].Authenticate(context.Background(), "b-1.x.kafka.eu-west-1.amazonaws.com:9098")
			if err != nil || !strings.Contains(string(first), cl.creds.AccessKeyID) || !strings.Contains(string(first), cl.creds.SessionToken) {
				c.Fail("msk-iam", "%v: IAM authentication does not use the credentials: %s, %v", in, first, err)
			}
		}
		cl.credErr = errors.New("expired")
		if _, first, err := sasls[0].Authenticate(context.Background(), "b-1.x.kafka.eu-west-1.amazonaws.com:9098"); err == nil {
			c.Fail("msk-iam", "%v: IAM authentication goes on without credentials: %s", in, first)
		}
		*cl = was
	default:
		if len(sasls) > 0 {
			c.Fail("msk-sasl", "%v: mechanisms %q", in, kind)
		}
	}
}

func init() {
	props := []string{"C21"}
	auths := []msk.AuthType{msk.None, msk.MutualTLS, msk.SaslScram, msk.SaslIam, msk.PublicMutualTLS, msk.PublicSaslScram, msk.PublicSaslIam}
	build := func(cl *cloud, name string, auth msk.AuthType, tlsOn, own bool) *msk.MskCluster {
		m := msk.NewMskClusterWithClientConfig(name, auth, cl.config())
		if tlsOn {
			m = m.WithTlsConfig(&tls.Config{ServerName: "verif-1"})
		}
		if auth == msk.SaslScram || auth == msk.PublicSaslScram {
			m = m.WithScramUserPass("old", "old").WithScramUserPass("user", "pass")
		}
		if own {
			m = m.WithClientOptions(kgo.ClientID("dropped")).WithClientOptions(kgo.DialTLSConfig(&tls.Config{ServerName: "verif-2"}))
		}
		return m
	}
	addEnum(&Enum{Name: "msk-auth", Props: props, Doc: "every authentication type, every subset of the broker lists a cluster may have, TLS and own options", Fn: func(c *EnumCtx) {
		c.Bound = "7 authentication types x 128 subsets of broker lists x TLS x own client options"
		for _, auth := range auths {
			if !c.Mine() {
				continue
			}
			for set := 0; set < 128; set++ {
				all, some := allBrokers("x"), map[string]string{}
				for i, k := range brokerKeys {
					if set&(1<<i) != 0 {
						some[k] = all[k]
					}
				}
				for v := 0; v < 4; v++ {
					if c.Expired() {
						return
					}
					in := fmt.Sprintf("authentication %d, brokers %v, TLS %v, own options %v", auth, some, v&1 > 0, v&2 > 0)
					c.Try("msk", in, func() {
						c.States++
						c.Distinct++
						cl := &cloud{clusters: []cluster{{"prod", "arn:prod/1", some}}, creds: aws.Credentials{AccessKeyID: "AK", SecretAccessKey: "s"}}
						m := build(cl, "prod", auth, v&1 > 0, v&2 > 0)
						opts, err := m.Config()
						if want := some[keyOf[auth]]; want == "" {
							if err == nil {
								c.Fail("msk-no-brokers", "%s: no error though the cluster has no brokers for this authentication: %v", in, opts)
							}
						} else if err != nil {
							c.Fail("msk-error", "%s: %v", in, err)
						} else {
							c.Sample("%s", in)
							mskCheck(c, in, auth, opts, want, v&1 > 0, v&2 > 0, cl)
						}
					})
				}
			}
		}
	}})
	addEnum(&Enum{Name: "msk-clusters", Props: props, Doc: "clusters with similar names in every order and paging, a failure of every API call, repeated calls", Fn: func(c *EnumCtx) {
		c.Bound = "every sequence of up to 4 distinct clusters out of 5, page sizes 1-4, an empty first page, a failure of any of the first 6 calls"
		names := []string{"prod", "prod-2", "production", "Prod", "a"}
		var lists [][]string
		var rec func(l []string)
		rec = func(l []string) {
			lists = append(lists, append([]string(nil), l...))
			if len(l) == 4 {
				return
			}
			for _, n := range names {
				if !has(l, n) {
					rec(append(l, n))
				}
			}
		}
		rec(nil)
		for _, l := range lists {
			if !c.Mine() {
				continue
			}
			for page := 0; page <= 4; page++ {
				for _, blank := range []bool{false, true} {
					for fail := 0; fail <= 6; fail++ {
						for _, arn := range []bool{true, false} {
							if c.Expired() {
								return
							}
							in := fmt.Sprintf("clusters %v, pages of %d, empty first page %v, call %d fails, ARN known %v", l, page, blank, fail, arn)
							c.Try("msk", in, func() {
								c.States++
								c.Distinct++
								cl := &cloud{page: page, blank: blank, fail: fail, creds: aws.Credentials{AccessKeyID: "AK", SecretAccessKey: "s"}}
								for _, n := range l {
									x := cluster{n, "arn:" + n, allBrokers(n)}
									if n == "prod" && !arn {
										x.arn = ""
									}
									cl.clusters = append(cl.clusters, x)
								}
								m := build(cl, "prod", msk.None, false, false)
								want := allBrokers("prod")[brokerKeys[0]]
								good := has(l, "prod") && arn
								opts, err := m.Config()
								c.Trans++
								failed := fail > 0 && cl.calls >= fail
								if failed && err == nil {
									c.Fail("msk-error-swallowed", "%s: call %d failed but Config returns no error", in, fail)
								}
								if err != nil && failed { // the next call tries again
									cl.fail = 0
									opts, err = m.Config()
									c.Trans++
								}
								if !good {
									if err == nil {
										cfg, _, _ := kgo.VerifOpts(opts...)
										c.Fail("msk-wrong-cluster", "%s: there is no such cluster but Config returns the brokers %v", in, cfg.SeedBrokers)
									}
									return
								}
								if err != nil {
									c.Fail("msk-error", "%s: %v", in, err)
									return
								}
								cfg, _, _ := kgo.VerifOpts(opts...)
								if got := strings.Join(cfg.SeedBrokers, ","); got != want {
									c.Fail("msk-wrong-cluster", "%s: seed brokers %s, want %s", in, got, want)
								}
								n := cl.calls
								again, err := m.Config()
								c.Trans++
								cfg, _, _ = kgo.VerifOpts(again...)
								if got := strings.Join(cfg.SeedBrokers, ","); err != nil || got != want || cl.calls != n {
									c.Fail("msk-repeat", "%s: a second call of Config returns %s, %v after %d more API calls", in, got, err, cl.calls-n)
								}
							})
						}
					}
				}
			}
		}
	}})
	addScenario(&Scenario{Name: "msk-concurrent", Props: props, Doc: "three clients are configured at once", Quick: 3, Deep: 5, Fn: func() {
		cl := &cloud{clusters: []cluster{{"prod", "arn:prod", allBrokers("prod")}}, creds: aws.Credentials{AccessKeyID: "AK", SecretAccessKey: "s"}}
		cl.fail = vsched.ChooseFree(3)
		cl.during = vsched.Point
		m := build(cl, "prod", msk.SaslScram, true, true)
		n, errs := 0, 0
		var o vsched.Obj
		for i := 0; i < 3; i++ {
			vsched.GoNamed("client", func() {
				opts, err := m.Config()
				o.Write(1)
				n++
				if err != nil {
					errs++
					return
				}
				cfg, sasls, _ := kgo.VerifOpts(opts...)
				if got := strings.Join(cfg.SeedBrokers, ","); got != allBrokers("prod")[brokerKeys[2]] || len(sasls) != 1 {
					vsched.Fail("msk-options", "seed brokers %s, %d mechanisms", got, len(sasls))
				}
			})
		}
		if !vsched.RunUntil(func() bool { return n == 3 }, 10*sec) {
			vsched.Fail("no-answer", "%d of 3 calls of Config return", n)
		}
		if cl.fail > 0 && errs != 1 || cl.fail == 0 && errs > 0 {
			vsched.Fail("msk-errors", "call %d to the API failed, %d of 3 clients got an error", cl.fail, errs)
		}
		if cl.fail == 0 && cl.calls != 2 {
			vsched.Fail("msk-repeat", "three clients configured at once call the API %d times", cl.calls)
		}
	}})
}
