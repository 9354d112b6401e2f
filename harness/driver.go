//go:build go1.23

package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
)

// Scenario is a closed system (the real code, an environment, monitors) whose schedules are enumerated.
type Scenario struct {
	Name   string
	Props  []string // properties it decides
	Doc    string
	Cfg    vsched.Config
	Fn     func()
	Quick  int  // all executions with at most this many deviations (quick)
	Deep   int  // (thorough)
	OkEnd  bool // the harness may end without main returning (horizon)
	NoRace bool // no race detection pass
}

// Enum is a sequential component whose inputs or operation sequences are enumerated.
type Enum struct {
	Name  string
	Props []string
	Doc   string
	Fn    func(c *EnumCtx)
}

var scenarios []*Scenario
var enums []*Enum

func addScenario(s *Scenario) { scenarios = append(scenarios, s) }
func addEnum(e *Enum)         { enums = append(enums, e) }

// ---- enumeration context -------------------------------------------------------------------------

// EnumCtx is handed to sequential checks. Work is split by Mine().
type EnumCtx struct {
	Tier          string
	Shard, Shards int
	deadline      time.Time
	Evals         uint64
	States        uint64
	Trans         uint64
	Distinct      uint64
	Samples       []string
	Viol          []Viol
	Incomplete    bool
	Bound         string
	unit          int
	seen          map[string]bool
	only          int
	known         []string // signatures of known findings
	cur           string
}

// Mine tells whether the next unit of work belongs to this shard.
func (c *EnumCtx) Mine() bool {
	c.unit++
	if c.only > 0 {
		return c.unit == c.only
	}
	return (c.unit-1)%c.Shards == c.Shard
}

// Quick reports the tier.
func (c *EnumCtx) Quick() bool { return c.Tier != "thorough" }

// Expired reports that time is up (the enumeration is then not exhaustive).
func (c *EnumCtx) Expired() bool {
	if !time.Now().Before(c.deadline) {
		c.Incomplete = true
		return true
	}
	return false
}

// Sample keeps a few cases for the evidence.
func (c *EnumCtx) Sample(format string, a ...any) {
	if len(c.Samples) < 3 {
		c.Samples = append(c.Samples, fmt.Sprintf(format, a...))
	}
}

// Fail records a violation, once per signature.
func (c *EnumCtx) Fail(sig, format string, a ...any) {
	if c.seen == nil {
		c.seen = map[string]bool{}
	}
	if c.seen[sig] {
		return
	}
	c.seen[sig] = true
	if t := time.Now().Add(3 * time.Second); !has(c.known, sig) && t.Before(c.deadline) {
		c.deadline = t // it is settled
		if c.only > 0 {
			c.deadline = time.Now()
		}
	}
	c.Viol = append(c.Viol, Viol{Sig: sig, Msg: fmt.Sprintf(format, a...), Unit: c.unit})
}

// Try runs one case; a panic in it is a violation.
func (c *EnumCtx) Try(sig string, in any, f func()) {
	c.Evals++
	defer func() {
		if e := recover(); e != nil {
			c.Fail(sig+":panic", "panic on %v: %v", in, e)
		}
	}()
	f()
}

// ---- protocol ------------------------------------------------------------------------------------

// Viol is a violation seen by a worker.
type Viol struct {
	Scenario string
	Devs     []vsched.Dev
	Sig      string
	Msg      string
	Unit     int
}

type prefix struct {
	D []vsched.Dev `json:"d"`
	C int32        `json:"c"`
}

type task struct {
	Kind  string // "sched", "enum", "race", "replay"
	Name  string
	Par   *prefix
	Cost  int
	Keep  bool
	Shard int
	Of    int
	Unit  int
	Known []string
	Tier  string
	Till  int64 // unix ns
	ID    int
	Sites []int32 // unsynchronised accesses which are scheduling points
}

type answer struct {
	ID        int
	Runs      int
	Pruned    int
	Steps     uint64
	States    uint64
	Points    int
	Children  []prefix
	Viol      []Viol
	Div       []string
	Cut       bool
	Outcomes  []uint64
	Evals     uint64
	Trans     uint64
	Distinct  uint64
	Samples   []string
	Bound     string
	Sites     []int32
	MaxPoints int
}

// ---- visited table -------------------------------------------------------------------------------

const tblBits = 26

var tbl []uint64

func openTable(path string) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0600)
	if err != nil {
		fatal("table: %v", err)
	}
	sz := int64(8) << tblBits
	if err := f.Truncate(sz); err != nil {
		fatal("table: %v", err)
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, int(sz), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fatal("table: %v", err)
	}
	tbl = unsafe.Slice((*uint64)(unsafe.Pointer(&b[0])), 1<<tblBits)
	f.Close()
}

// visit inserts fp; true if it was there already.
func visit(fp uint64) (seen bool) {
	if fp == 0 {
		fp = 1
	}
	i := fp >> (64 - tblBits)
	for k := 0; k < 64; k++ {
		p := &tbl[(i+uint64(k))&(1<<tblBits-1)]
		v := atomic.LoadUint64(p)
		if v == fp {
			return true
		}
		if v == 0 {
			if atomic.CompareAndSwapUint64(p, 0, fp) {
				return false
			}
			if atomic.LoadUint64(p) == fp {
				return true
			}
		}
	}
	return false // table crowded: explore again rather than miss something
}

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(3)
}

func findScenario(name string) *Scenario {
	for _, s := range scenarios {
		if s.Name == name {
			return s
		}
	}
	return nil
}

// verdict turns the result of an execution into a violation, if it is one.
func verdict(s *Scenario, r *vsched.Result) (sig, msg string) {
	switch {
	case r.Violation != nil:
		return r.Violation.Sig, r.Violation.Msg
	case len(r.Panics) > 0:
		return "panic:" + panicSig(r.Panics[0]), r.Panics[0]
	case r.Diverged != "" || r.Pruned:
		return "", ""
	case r.Livelock:
		return "livelock", "the system keeps running without making progress\n" + r.Blocked
	case r.Horizon && !s.OkEnd:
		return "horizon", "the scenario did not finish in time\n" + r.Blocked
	case r.Stuck:
		return "stuck", "nothing can run any more\n" + r.Blocked
	}
	return "", ""
}

func panicSig(p string) string {
	l := strings.Split(p, "\n")
	m := l[0]
	if i := strings.Index(m, "panic: "); i >= 0 {
		m = m[i+7:]
	}
	if len(m) > 80 {
		m = m[:80]
	}
	return m
}

// exec performs one execution.
func (s *Scenario) exec(devs []vsched.Dev, fp uint32, mod func(c *vsched.Config)) *vsched.Result {
	cfg := s.Cfg
	cfg.Devs = devs
	cfg.ExpectFP = fp
	if cfg.EarlyMax == 0 {
		cfg.EarlyMax = 20 * ms
	}
	mod(&cfg)
	return vsched.Run(cfg, s.Fn)
}

func worker() {
	out := os.NewFile(uintptr(mustDup(1)), "out")
	os.Stdout = os.Stderr
	debug.SetGCPercent(800)
	openTable(os.Getenv("HX_TABLE"))
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	enc := json.NewEncoder(out)
	dec := json.NewDecoder(in)
	for {
		var t task
		if err := dec.Decode(&t); err != nil {
			if err != io.EOF {
				fatal("worker: %v", err)
			}
			return
		}
		var a answer
		switch t.Kind {
		case "sched":
			setSites(t.Sites)
			a = runSched(&t)
		case "race":
			a = runRace(&t)
		case "enum":
			a = runEnum(&t)
		}
		a.ID = t.ID
		if err := enc.Encode(&a); err != nil {
			return
		}
	}
}

func mustDup(fd int) int {
	n, err := syscall.Dup(fd)
	if err != nil {
		fatal("dup: %v", err)
	}
	syscall.Dup2(2, fd)
	return n
}

func runEnum(t *task) (a answer) {
	for _, e := range enums {
		if e.Name != t.Name {
			continue
		}
		c := &EnumCtx{Tier: t.Tier, Shard: t.Shard, Shards: t.Of, deadline: time.Unix(0, t.Till), only: t.Unit, known: t.Known}
		func() {
			defer func() {
				if x := recover(); x != nil {
					c.Fail("panic", "%v\n%s", x, debug.Stack())
				}
			}()
			e.Fn(c)
		}()
		a.Evals, a.States, a.Trans, a.Distinct = c.Evals, c.States, c.Trans, c.Distinct
		a.Samples, a.Viol, a.Cut, a.Bound = c.Samples, c.Viol, c.Incomplete, c.Bound
		for i := range a.Viol {
			a.Viol[i].Scenario = e.Name
		}
	}
	return
}

func setSites(l []int32) {
	vsched.RacySites = map[int32]bool{}
	for _, x := range l {
		vsched.RacySites[x] = true
	}
}

// runRace looks for unsynchronised accesses to fields in the default execution and in executions with one departure
// from it, evenly spread. Such an access is not wrong by itself; it becomes a scheduling point of the exploration,
// which otherwise has them at synchronisation operations only.
func runRace(t *task) (a answer) {
	s := findScenario(t.Name)
	setSites(nil)
	rc := func(c *vsched.Config) { c.Race = true }
	r := s.exec(nil, 0, rc)
	a.Runs++
	var l []vsched.Dev
	for _, b := range r.Branches {
		for alt := int16(1); alt < b.N; alt++ {
			l = append(l, vsched.Dev{Pos: b.Pos, Alt: alt})
		}
	}
	for k := t.Shard; k < raceRuns && len(l) > 0; k += t.Of {
		if !time.Now().Before(time.Unix(0, t.Till)) {
			break
		}
		s.exec([]vsched.Dev{l[(k*len(l))/raceRuns]}, 0, rc)
		a.Runs++
	}
	for x := range vsched.RacySites {
		a.Sites = append(a.Sites, x)
	}
	setSites(nil)
	return
}

const raceRuns = 64

func runSched(t *task) (a answer) {
	s := findScenario(t.Name)
	salt := vsched.HashString(s.Name)
	till := time.Unix(0, t.Till)
	out := map[uint64]bool{}
	visited := func(fp uint64, cost int) bool {
		if visit(fp ^ salt) {
			return true
		}
		a.States++
		return false
	}
	// Without a prefix to extend (level 0) there are only free choices to enumerate; they are split at the second one:
	// every shard follows the first, only shard 0 accounts for them.
	const split = 2
	var explore func(devs []vsched.Dev, fp uint32)
	explore = func(devs []vsched.Dev, fp uint32) {
		shared := false
		if t.Par == nil && t.Of > 1 {
			if len(devs) == split {
				h := uint64(7)
				for _, d := range devs {
					h = h*1000003 + uint64(d.Pos)*31 + uint64(d.Alt)
				}
				if (h^h>>17)*0x9e3779b97f4a7c15>>33%uint64(t.Of) != uint64(t.Shard) {
					return
				}
			}
			shared = len(devs) < split && t.Shard > 0
		}
		if t.Par == nil && !time.Now().Before(till) {
			a.Cut = true
			return
		}
		r := s.exec(devs, fp, func(c *vsched.Config) {
			if !shared {
				c.Visited = visited
			}
			c.Cost = t.Cost
		})
		a.Steps += uint64(r.Steps)
		if r.Points > a.MaxPoints {
			a.MaxPoints = r.Points
		}
		if r.Diverged != "" {
			if len(a.Div) < 3 {
				a.Div = append(a.Div, s.Name+": "+r.Diverged)
			}
			return
		}
		if !shared {
			a.Runs++
			cut := int32(1 << 30)
			if r.Pruned {
				a.Pruned++
				cut = int32(r.Points) - 2
			} else if len(out) < 64 {
				out[r.Outcome] = true
			}
			if sig, msg := verdict(s, r); sig != "" {
				if len(a.Viol) < 8 {
					a.Viol = append(a.Viol, Viol{Scenario: s.Name, Devs: append([]vsched.Dev(nil), devs...), Sig: sig, Msg: msg})
				}
			}
			if t.Keep {
				a.Children = append(a.Children, prefix{append([]vsched.Dev(nil), devs...), cut})
			}
		}
		for _, b := range r.Branches {
			if !b.Free {
				continue
			}
			for alt := int16(1); alt < b.N; alt++ {
				explore(append(append([]vsched.Dev(nil), devs...), vsched.Dev{Pos: b.Pos, Alt: alt}), b.FP)
			}
		}
	}
	if t.Par == nil {
		explore(nil, 0)
	} else {
		r := s.exec(t.Par.D, 0, func(c *vsched.Config) {})
		a.Steps += uint64(r.Steps)
		if r.Diverged != "" {
			a.Div = append(a.Div, s.Name+" (re-run): "+r.Diverged)
		}
		for i, b := range r.Branches {
			if b.Free || b.Pos > t.Par.C || t.Of > 0 && i%t.Of != t.Shard {
				continue
			}
			for alt := int16(1); alt < b.N; alt++ {
				if !time.Now().Before(till) {
					a.Cut = true
					break
				}
				explore(append(append([]vsched.Dev(nil), t.Par.D...), vsched.Dev{Pos: b.Pos, Alt: alt}), b.FP)
			}
		}
	}
	for o := range out {
		a.Outcomes = append(a.Outcomes, o)
	}
	return
}

// ---- master --------------------------------------------------------------------------------------

type workerProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	enc *json.Encoder
	dec *json.Decoder
}

type pool struct {
	ws    []*workerProc
	table string
	dir   string
}

func newPool(n int) *pool {
	base := "/dev/shm"
	if st, err := os.Stat(base); err != nil || !st.IsDir() {
		base = os.TempDir()
	}
	d, err := os.MkdirTemp(base, "hx")
	if err != nil {
		d, err = os.MkdirTemp("", "hx")
		if err != nil {
			fatal("tmp: %v", err)
		}
	}
	p := &pool{table: filepath.Join(d, "t"), dir: d}
	openTable(p.table)
	for i := 0; i < n; i++ {
		p.ws = append(p.ws, p.spawn())
	}
	return p
}

func (p *pool) spawn() *workerProc {
	exe, _ := os.Executable()
	c := exec.Command(exe, "worker")
	c.Env = append(os.Environ(), "HX_TABLE="+p.table, "GOMAXPROCS=2")
	c.Stderr = os.Stderr
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	if err := c.Start(); err != nil {
		fatal("worker: %v", err)
	}
	return &workerProc{cmd: c, in: in, enc: json.NewEncoder(in), dec: json.NewDecoder(bufio.NewReaderSize(out, 1<<20))}
}

func (p *pool) close() {
	for _, w := range p.ws {
		w.in.Close()
		w.cmd.Process.Kill()
		w.cmd.Wait()
	}
	os.RemoveAll(p.dir)
}

// run hands out tasks; a worker that dies is a lost task.
func (p *pool) run(tasks []task, till time.Time, each func(t *task, a *answer) (stop bool)) (lost, undone int) {
	var mux sync.Mutex
	next := 0
	stop := false
	var wg sync.WaitGroup
	for i := range p.ws {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for {
				mux.Lock()
				if stop || next >= len(tasks) || !time.Now().Before(till) {
					mux.Unlock()
					return
				}
				t := tasks[next]
				next++
				mux.Unlock()
				t.Till = till.UnixNano()
				w := p.ws[i]
				var a answer
				done := make(chan error, 1)
				go func() {
					err := w.enc.Encode(&t)
					if err == nil {
						err = w.dec.Decode(&a)
					}
					done <- err
				}()
				var err error
				limit := time.Until(till) + 60*time.Second
				select {
				case err = <-done:
				case <-time.After(limit):
					err = fmt.Errorf("no answer")
				}
				mux.Lock()
				if err != nil {
					fmt.Fprintf(os.Stderr, "worker lost on %s %s (%v)\n", t.Kind, t.Name, err)
					w.cmd.Process.Kill()
					w.cmd.Wait()
					lost++
					p.ws[i] = p.spawn()
				} else if each(&t, &a) {
					stop = true
				}
				mux.Unlock()
			}
		}(i)
	}
	wg.Wait()
	return lost, len(tasks) - next
}

type known struct {
	Property string `json:"property"`
	Sig      string `json:"sig"`
	Scenario string `json:"scenario"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

func loadKnown(path string) []known {
	var ks []known
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var k known
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			fatal("%s: %v", path, err)
		}
		if k.Status == "open" {
			ks = append(ks, k)
		}
	}
	return ks
}

func (k *known) match(prop string, v *Viol) bool {
	return k.Property == prop && k.Sig == v.Sig && k.Scenario == v.Scenario
}

type scov struct {
	Scenario  string `json:"scenario"`
	Doc       string `json:"what"`
	Bound     string `json:"bound"`
	Level     int    `json:"deviations_complete"`
	Runs      int    `json:"executions"`
	Pruned    int    `json:"executions_joined_known_state"`
	Points    int    `json:"max_choice_points"`
	Outcomes  int    `json:"distinct_outcomes"`
	Partial   int    `json:"executions_beyond_bound,omitempty"`
	Exhausted bool   `json:"whole_space_exhausted"`
	Races     int    `json:"unsynchronised_accesses_as_scheduling_points,omitempty"`
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func check(prop, tier, verif string, budget, extra time.Duration) int {
	start := time.Now()
	till := start.Add(budget)
	ks := loadKnown(filepath.Join(verif, "known_findings.jsonl"))
	n := 8
	if v, err := strconv.Atoi(os.Getenv("HX_WORKERS")); err == nil && v > 0 {
		n = v
	}
	p := newPool(n)
	defer p.close()
	type st struct {
		s        *Scenario
		front    []prefix
		cov      *scov
		max      int
		dead     bool
		outcomes map[uint64]bool
		sites    []int32
	}
	var sts []*st
	for _, s := range scenarios {
		if !has(s.Props, prop) || (os.Getenv("HX_ONLY") != "" && !strings.Contains(","+os.Getenv("HX_ONLY")+",", ","+s.Name+",")) {
			continue
		}
		m := s.Quick
		if tier == "thorough" {
			m = s.Deep
			if m < s.Quick+1 {
				m = s.Quick + 1
			}
		}
		sts = append(sts, &st{s: s, max: m, outcomes: map[uint64]bool{}, cov: &scov{Scenario: s.Name, Doc: s.Doc, Level: -1}})
	}
	var states, trans, runs, evals, distinct uint64
	var div []string
	var samples []any
	var viol []Viol
	hits := map[string]*known{}
	lostAll := 0
	exhaustive := true
	onViol := func(v Viol) bool {
		for i := range ks {
			if ks[i].match(prop, &v) {
				hits[ks[i].Sig+ks[i].Scenario] = &ks[i]
				return false
			}
		}
		viol = append(viol, v)
		return true
	}
	// sequential components first
	var ecov []map[string]any
	for _, e := range enums {
		if !has(e.Props, prop) || (os.Getenv("HX_ONLY") != "" && !strings.Contains(","+os.Getenv("HX_ONLY")+",", ","+e.Name+",")) {
			continue
		}
		var ts []task
		var sigs []string
		for _, k := range ks {
			if k.Property == prop && k.Scenario == e.Name {
				sigs = append(sigs, k.Sig)
			}
		}
		for i := 0; i < 4*n; i++ {
			ts = append(ts, task{Kind: "enum", Name: e.Name, Tier: tier, Shard: i, Of: 4 * n, Known: sigs})
		}
		var ev, es, et, ed uint64
		cut := false
		bound := ""
		lost, undone := p.run(ts, till, func(t *task, a *answer) bool {
			ev += a.Evals
			es += a.States
			et += a.Trans
			ed += a.Distinct
			cut = cut || a.Cut
			if a.Bound != "" {
				bound = a.Bound
			}
			for _, s := range a.Samples {
				if len(samples) < 12 {
					samples = append(samples, e.Name+": "+s)
				}
			}
			stop := false
			for _, v := range a.Viol {
				stop = onViol(v) || stop
			}
			return stop
		})
		lostAll += lost
		cut = cut || lost+undone > 0
		exhaustive = exhaustive && !cut
		evals += ev
		states += es
		trans += et
		distinct += ed
		ecov = append(ecov, map[string]any{"component": e.Name, "what": e.Doc, "bound": bound, "cases": ev, "states": es, "operations": et, "complete": !cut})
	}
	maxLevel := 0
	for _, x := range sts {
		if x.max > maxLevel {
			maxLevel = x.max
		}
	}
	{ // unsynchronised accesses
		var ts []task
		of := 1
		if len(sts) < n {
			of = n/(len(sts)+1) + 1
		}
		for _, x := range sts {
			for k := 0; k < of && !x.s.NoRace; k++ {
				ts = append(ts, task{Kind: "race", Name: x.s.Name, Shard: k, Of: of})
			}
		}
		found := map[string]map[int32]bool{}
		lost, _ := p.run(ts, till, func(t *task, a *answer) bool {
			if found[t.Name] == nil {
				found[t.Name] = map[int32]bool{}
			}
			for _, y := range a.Sites {
				found[t.Name][y] = true
			}
			return false
		})
		lostAll += lost
		for _, x := range sts {
			for y := range found[x.s.Name] {
				x.sites = append(x.sites, y)
			}
			sort.Slice(x.sites, func(i, j int) bool { return x.sites[i] < x.sites[j] })
			x.cov.Races = len(x.sites)
		}
	}
	soft := start.Add(extra)
	for lvl := 0; lvl <= maxLevel+1 && len(viol) == 0; lvl++ {
		for xi, x := range sts {
			if x.dead || lvl > x.max+1 || len(viol) > 0 {
				continue
			}
			// the declared bound is explored completely; what time is left is shared out over the next level
			beyond := lvl > x.max
			lvlTill := till
			if beyond {
				if soft.Before(till) {
					lvlTill = soft
				}
				left := 0
				for _, y := range sts[xi:] {
					if !y.dead {
						left++
					}
				}
				d := time.Until(lvlTill)
				if d <= 0 {
					continue
				}
				lvlTill = time.Now().Add(d / time.Duration(left))
			}
			var ts []task
			keep := lvl <= x.max
			if lvl == 0 {
				for k := 0; k < 4*n; k++ {
					ts = append(ts, task{Kind: "sched", Name: x.s.Name, Keep: keep, Sites: x.sites, Shard: k, Of: 4 * n})
				}
			} else {
				of := 1 // few prefixes are split by branch so that every worker has something to do
				if len(x.front) < 8*n {
					of = 4 * n
				}
				for i := range x.front {
					for k := 0; k < of; k++ {
						ts = append(ts, task{Kind: "sched", Name: x.s.Name, Par: &x.front[i], Cost: lvl, Keep: keep, Shard: k, Of: of, Sites: x.sites})
					}
				}
			}
			var nf []prefix
			cut := false
			lr := 0
			lost, undone := p.run(ts, lvlTill, func(t *task, a *answer) bool {
				lr += a.Runs
				x.cov.Runs += a.Runs
				x.cov.Pruned += a.Pruned
				if a.MaxPoints > x.cov.Points {
					x.cov.Points = a.MaxPoints
				}
				states += a.States
				trans += a.Steps
				runs += uint64(a.Runs)
				cut = cut || a.Cut
				for _, o := range a.Outcomes {
					x.outcomes[o] = true
				}
				if len(nf) < 3000000 {
					nf = append(nf, a.Children...)
				} else if len(a.Children) > 0 {
					cut = true
				}
				if len(a.Div) > 0 {
					div = append(div, a.Div...)
				}
				stop := false
				for _, v := range a.Viol {
					stop = onViol(v) || stop
				}
				return stop
			})
			lostAll += lost
			if len(viol) > 0 {
				break
			}
			if cut || lost+undone > 0 {
				x.cov.Partial += lr
				x.dead = true
				if !beyond {
					exhaustive = false
				}
				continue
			}
			x.cov.Level = lvl
			sort.Slice(nf, func(i, j int) bool { return lessDevs(nf[i].D, nf[j].D) })
			x.front = spread(nf)
			if keep && !cut && len(nf) == 0 || lvl > 0 && lr == 0 {
				x.cov.Exhausted = true
				x.dead = true
			}
		}
	}
	if len(div) > 0 {
		exhaustive = false
		for i, d := range div {
			if i < 5 {
				fmt.Fprintln(os.Stderr, "diverged:", d)
			}
		}
		fmt.Fprintln(os.Stderr, "diverged:", len(div))
	}
	// confirm violations by re-running them
	code := 0
	confirmed := 0
	sort.Slice(viol, func(i, j int) bool { return len(viol[i].Devs) < len(viol[j].Devs) })
	for _, v := range viol {
		if confirmed > 0 {
			break
		}
		path := filepath.Join(verif, "evidence", fmt.Sprintf("replay-%s.json", prop))
		ok := true
		var tr []string
		var sites []int32
		if findScenario(v.Scenario) != nil {
			for _, x := range sts {
				if x.s.Name == v.Scenario {
					sites = x.sites
				}
			}
			setSites(sites)
			for i := 0; i < 5 && ok; i++ {
				sig, msg, t := replay(v.Scenario, v.Devs, i == 4)
				if sig == "" {
					ok = false
				} else {
					v.Sig, v.Msg, tr = sig, msg, t
				}
			}
		} else {
			a := runEnum(&task{Kind: "enum", Name: v.Scenario, Tier: tier, Shard: 0, Of: 1, Unit: v.Unit, Till: time.Now().Add(2 * time.Minute).UnixNano()})
			ok = false
			for _, x := range a.Viol {
				ok = ok || x.Sig == v.Sig
			}
		}
		if !ok {
			fmt.Fprintf(os.Stderr, "not reproducible, ignored: %s %s %v\n", v.Scenario, v.Sig, v.Devs)
			exhaustive = false
			continue
		}
		matched := false
		for i := range ks {
			if ks[i].match(prop, &v) {
				hits[ks[i].Sig+ks[i].Scenario] = &ks[i]
				matched = true
			}
		}
		if matched {
			continue
		}
		b, _ := json.MarshalIndent(map[string]any{"property": prop, "scenario": v.Scenario, "tier": tier, "unit": v.Unit, "deviations": v.Devs, "sites": sites, "signature": v.Sig, "message": v.Msg, "trace": tr}, "", " ")
		os.MkdirAll(filepath.Dir(path), 0755)
		os.WriteFile(path, b, 0644)
		fmt.Printf("%s: %s\n%s\n", v.Scenario, v.Sig, v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		confirmed++
		code = 1
	}
	var hk []string
	for k := range hits {
		hk = append(hk, k)
	}
	sort.Strings(hk)
	for _, k := range hk {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, hits[k].What)
	}
	var cov []*scov
	for _, x := range sts {
		x.cov.Outcomes = len(x.outcomes)
		x.cov.Bound = fmt.Sprintf("every schedule and environment answer with at most %d departures from the default one", x.cov.Level)
		cov = append(cov, x.cov)
		if len(samples) < 12 && len(x.front) > 0 {
			samples = append(samples, map[string]any{"scenario": x.s.Name, "deviations": x.front[len(x.front)/2].D})
		}
		if x.cov.Level < x.max && !x.cov.Exhausted {
			exhaustive = false
		}
	}
	if len(samples) == 0 {
		for _, x := range sts {
			samples = append(samples, map[string]any{"scenario": x.s.Name, "deviations": []int{}, "points": x.cov.Points})
		}
	}
	c := map[string]any{"states": states, "transitions": trans, "traces_validated_against_impl": runs + evals, "samples": samples,
		"distinct_nontrivial": distinct + uint64(sumOut(sts, func(x *st) int { return len(x.outcomes) })),
		"rule":                "executions of the implementation itself (no separate model); distinct outcomes as observed by the harness, or distinct cases of an enumeration",
		"exhaustive":          exhaustive && code == 0, "schedules": cov, "components": ecov, "diverged": len(div), "lost_tasks": lostAll}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	lvl := "model_checking"
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": lvl, "coverage": c, "wall_s": time.Since(start).Seconds(), "violations": confirmed,
		"assumptions": []string{"the in-memory broker of rt/vkafka stands for Kafka and franz-go's wire code", "the controlled scheduler serialises the code at synchronisation operations (sequential consistency)"}}
	if b, err := os.ReadFile(filepath.Join(verif, "spec", "conform.json")); err == nil {
		var x map[string]any
		if json.Unmarshal(b, &x) == nil {
			c["broker_model_conformance"] = map[string]any{"what": "transcripts of the modelled client and broker equal those of the real franz-go client (bin/conform, run when the model changes)", "result": x}
		}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0644)
	fmt.Printf("%s %s: %d executions, %d states, %d steps, %d cases, exhaustive within bounds: %v, %.1fs\n", prop, tier, runs, states, trans, evals, c["exhaustive"], time.Since(start).Seconds())
	for _, x := range cov {
		fmt.Printf("  %-28s deviations<=%d  runs=%d joined=%d points=%d outcomes=%d partial=%d\n", x.Scenario, x.Level, x.Runs, x.Pruned, x.Points, x.Outcomes, x.Partial)
	}
	return code
}

func sumOut[T any](l []T, f func(T) int) (n int) {
	for _, x := range l {
		n += f(x)
	}
	return
}

func lessDevs(a, b []vsched.Dev) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i].Pos != b[i].Pos {
			return a[i].Pos < b[i].Pos
		}
		if a[i].Alt != b[i].Alt {
			return a[i].Alt < b[i].Alt
		}
	}
	return len(a) < len(b)
}

// spread orders tasks so that an interrupted level has looked everywhere.
func spread(l []prefix) []prefix {
	n := len(l)
	if n < 3 {
		return l
	}
	out := make([]prefix, 0, n)
	step := n/2 + 1
	for gcd(step, n) != 1 {
		step++
	}
	step = int(float64(n)*0.6180339) | 1
	for gcd(step, n) != 1 {
		step++
	}
	for i, k := 0, 0; i < n; i, k = i+1, (k+step)%n {
		out = append(out, l[k])
	}
	return out
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func replay(name string, devs []vsched.Dev, trace bool) (sig, msg string, tr []string) {
	s := findScenario(name)
	r := s.exec(devs, 0, func(c *vsched.Config) { c.NoCollect = true; c.Trace = trace })
	sig, msg = verdict(s, r)
	return sig, msg, r.Trace
}

func main() {
	setup()
	a := os.Args[1:]
	if len(a) == 0 {
		fatal("usage: hx check PROP TIER VERIFDIR SECONDS [EXTRA] | replay FILE | trace SCENARIO [pos:alt,...] | list | bench SCENARIO LEVEL")
	}
	switch a[0] {
	case "worker":
		worker()
	case "check":
		sec, _ := strconv.Atoi(a[4])
		ext := 0
		if len(a) > 5 {
			ext, _ = strconv.Atoi(a[5])
		}
		os.Exit(check(a[1], a[2], a[3], time.Duration(sec)*time.Second, time.Duration(ext)*time.Second))
	case "list":
		for _, s := range scenarios {
			fmt.Println("scenario", s.Name, s.Props, s.Doc)
		}
		for _, s := range enums {
			fmt.Println("enum", s.Name, s.Props, s.Doc)
		}
	case "conform":
		conform()
	case "replay":
		b, err := os.ReadFile(a[1])
		if err != nil {
			fatal("%v", err)
		}
		var f struct {
			Scenario   string
			Deviations []vsched.Dev
			Sites      []int32
			Unit       int
			Tier       string
		}
		json.Unmarshal(b, &f)
		if findScenario(f.Scenario) == nil {
			x := runEnum(&task{Kind: "enum", Name: f.Scenario, Tier: f.Tier, Shard: 0, Of: 1, Unit: f.Unit, Till: time.Now().Add(10 * time.Minute).UnixNano()})
			for _, v := range x.Viol {
				fmt.Println(v.Sig, v.Msg)
			}
			return
		}
		setSites(f.Sites)
		sig, msg, tr := replay(f.Scenario, f.Deviations, true)
		fmt.Println(strings.Join(tr, "\n"))
		fmt.Println(sig, msg)
	case "enum": // all of it, in this process
		if f := os.Getenv("HX_PROF"); f != "" {
			w, _ := os.Create(f)
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
		d, _ := time.ParseDuration(a[3])
		x := runEnum(&task{Kind: "enum", Name: a[1], Tier: a[2], Of: 1, Till: time.Now().Add(d).UnixNano()})
		for _, v := range x.Viol {
			fmt.Println(v.Sig, v.Msg)
		}
		fmt.Printf("%d cases, %d states, %d transitions, cut %v\n", x.Evals, x.States, x.Trans, x.Cut)
	case "races":
		for _, x := range runRace(&task{Name: a[1], Of: 1, Till: time.Now().Add(time.Hour).UnixNano()}).Sites {
			fmt.Println(x)
		}
	case "trace":
		var devs []vsched.Dev
		if len(a) > 2 && a[2] != "" {
			for _, d := range strings.Split(a[2], ",") {
				var p, q int
				fmt.Sscanf(d, "%d:%d", &p, &q)
				devs = append(devs, vsched.Dev{Pos: int32(p), Alt: int16(q)})
			}
		}
		s := findScenario(a[1])
		st := time.Now()
		r := s.exec(devs, 0, func(c *vsched.Config) { c.Trace = len(a) <= 3 })
		el := time.Since(st)
		fmt.Println(strings.Join(r.Trace, "\n"))
		sig, msg := verdict(s, r)
		fmt.Printf("verdict: %q %s\nsteps=%d points=%d branches=%d completed=%v diverged=%q %v\n", sig, msg, r.Steps, r.Points, len(r.Branches), r.Completed, r.Diverged, el)
	default:
		fatal("unknown command %s", a[0])
	}
}
