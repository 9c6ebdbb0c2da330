// Package prop is the runner shared by every check: it drives rapid over the
// registered sub-properties, each in its own child process, counts what was
// generated, shrinks failures, stores replay files and writes the evidence.
//
// Exit codes: 0 every sub-property held; 1 with VIOLATION lines; 2 the check
// itself could not reach an answer.
package prop

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Sub is one sub-property: an executable check over generated inputs.
type Sub struct {
	Name     string
	Quick    int // generated cases in the quick tier
	Thorough int // generated cases in the thorough tier
	Shards   int // how many processes share the quick cases (default 1)
	Steps    int // average number of state-machine steps (rapid default 30)
	// HangIsViolation: a case that does not terminate violates the property; always so, unless HangIsNoViolation.
	HangIsViolation, HangIsNoViolation bool
	Fn                                 func(*C)
}

// Spec describes one property's check.
type Spec struct {
	ID          string
	Rule        string // what makes a case non-trivial
	Assumptions []string
	Subs        []Sub
}

// C is the context of one generated case.
type C struct {
	*rapid.T
	desc    strings.Builder
	run     *childRun
	nontriv bool
	hash    uint64
	labels  []string
}

// Note adds a line to the description of the case (kept in replay files).
func (c *C) Note(format string, args ...any) {
	if c.desc.Len() > 1<<16 {
		return
	}
	fmt.Fprintf(&c.desc, format+"\n", args...)
}

// Settled waits for the goroutines that were started since there were before
// of them, and fails if any is left.
func (c *C) Settled(before int, what string) {
	c.T.Helper()
	end := time.Now().Add(10 * time.Second)
	for wait := 50 * time.Microsecond; runtime.NumGoroutine() > before; wait = min(2*wait, 200*time.Millisecond) {
		if time.Now().After(end) {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			c.Failf("%s leaves %d goroutines running\n%s", what, runtime.NumGoroutine()-before, buf)
		}
		time.Sleep(wait)
	}
}

// Closed fails if files in the directory are open.
func (c *C) Closed(dir, what string) {
	c.T.Helper()
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, fd := range fds {
		if name, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(name, dir) {
			c.Failf("%s leaves %s open", what, filepath.Base(name))
		}
	}
}

// Journal makes the description so far durable before an operation that could
// end the process (a panic on another goroutine, a stack overflow).
func (c *C) Journal() {
	if c.run.journal != nil {
		b := []byte(fmt.Sprintf("case %d\n%s", c.run.res.Cases, c.desc.String()))
		_, _ = c.run.journal.WriteAt(b, 0)
		_ = c.run.journal.Truncate(int64(len(b)))
	}
}

// Class counts the case under a label.
func (c *C) Class(label string) { c.labels = append(c.labels, label) }

// NonTrivial marks the case as non-trivial; key identifies it for counting
// distinct cases.
func (c *C) NonTrivial(key any) {
	h := fnv.New64a()
	switch k := key.(type) {
	case []byte:
		h.Write(k)
	case string:
		h.Write([]byte(k))
	default:
		fmt.Fprintf(h, "%v", k)
	}
	c.nontriv = true
	c.hash = c.hash*1099511628211 ^ h.Sum64()
}

// Failf fails the case.
func (c *C) Failf(format string, args ...any) {
	c.T.Helper()
	c.T.Fatalf("%s", fmt.Sprintf(format, args...))
}

// NoPanic runs f and fails the case if it panics.
func (c *C) NoPanic(what string, f func()) {
	c.T.Helper()
	if r, st := Catch(f); r != nil {
		c.Failf("%s panicked: %v\n%s", what, r, st)
	}
}

// Catch runs f and returns the recovered panic value, if any.
func Catch(f func()) (r any, stack string) {
	defer func() {
		if p := recover(); p != nil {
			// let rapid's own control-flow panics through
			tn := fmt.Sprintf("%T", p)
			if strings.HasPrefix(tn, "rapid.") || strings.HasPrefix(tn, "*rapid.") {
				panic(p)
			}
			r = p
			stack = trimStack(string(debug.Stack()))
		}
	}()
	f()
	return nil, ""
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

type result struct {
	Sub       string         `json:"sub"`
	Shard     int            `json:"shard"`
	Requested int            `json:"requested"`
	Cases     int            `json:"cases"`
	NonTriv   int            `json:"nontrivial"`
	Classes   map[string]int `json:"classes"`
	Samples   []string       `json:"samples"`
	Hashes    []uint64       `json:"hashes"`
	Failed    bool           `json:"failed"`
	Message   string         `json:"message"`
	CaseDesc  string         `json:"case_desc"`
	FailFile  string         `json:"failfile"`
	Hang      bool           `json:"hang"`
	Partial   bool           `json:"partial"`
	Done      bool           `json:"done"`
	WallS     float64        `json:"wall_s"`
}

type childRun struct {
	res      result
	classes  map[string]int
	hashes   map[uint64]struct{}
	journal  *os.File
	cur      atomic.Pointer[C]
	curStart atomic.Int64
}

type tbImpl struct {
	name   string
	mu     sync.Mutex
	failed bool
	log    bytes.Buffer
}

type failNow struct{}

func (t *tbImpl) Helper()      {}
func (t *tbImpl) Name() string { return t.name }
func (t *tbImpl) Logf(f string, a ...any) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.log.Len() < 1<<18 {
		fmt.Fprintf(&t.log, f+"\n", a...)
	}
}
func (t *tbImpl) Log(a ...any)              { t.Logf("%s", fmt.Sprint(a...)) }
func (t *tbImpl) Skipf(f string, a ...any)  { t.Logf(f, a...) }
func (t *tbImpl) Skip(a ...any)             { t.Log(a...) }
func (t *tbImpl) SkipNow()                  {}
func (t *tbImpl) Errorf(f string, a ...any) { t.Logf(f, a...); t.Fail() }
func (t *tbImpl) Error(a ...any)            { t.Log(a...); t.Fail() }
func (t *tbImpl) Fatalf(f string, a ...any) { t.Errorf(f, a...); t.FailNow() }
func (t *tbImpl) Fatal(a ...any)            { t.Error(a...); t.FailNow() }
func (t *tbImpl) FailNow()                  { t.Fail(); panic(failNow{}) }
func (t *tbImpl) Fail()                     { t.mu.Lock(); t.failed = true; t.mu.Unlock() }
func (t *tbImpl) Failed() bool              { t.mu.Lock(); defer t.mu.Unlock(); return t.failed }

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Main runs the check (driver) or one shard of it (child).
func Main(spec Spec) {
	if os.Getenv("VERIF_CHILD") != "" {
		childMain(spec)
		return
	}
	os.Exit(driverMain(spec))
}

func seed() uint64 {
	s, err := strconv.ParseUint(env("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		h := fnv.New64a()
		h.Write([]byte(os.Getenv("VERIF_SEED")))
		s = h.Sum64()
	}
	return s
}

func shardSeed(id, sub string, shard int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", seed(), id, sub, shard)
	v := h.Sum64()
	if v == 0 {
		v = 1
	}
	return v
}

const hangAfter = 100 * time.Second

func childMain(spec Spec) {
	name := os.Getenv("VERIF_CHILD")
	shard, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
	checks, _ := strconv.Atoi(os.Getenv("VERIF_CHECKS"))
	out := os.Getenv("VERIF_OUT")
	softS, _ := strconv.Atoi(env("VERIF_SOFT_S", "600"))
	var sub *Sub
	for i := range spec.Subs {
		if spec.Subs[i].Name == name {
			sub = &spec.Subs[i]
		}
	}
	if sub == nil {
		fmt.Fprintln(os.Stderr, "no such sub-property", name)
		os.Exit(2)
	}
	debug.SetMaxStack(256 << 20)
	if os.Getenv("GOMEMLIMIT") == "" {
		debug.SetMemoryLimit(3 << 30)
	}
	testing.Init()
	flag.CommandLine.Parse(nil)
	set := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	set("rapid.checks", strconv.Itoa(checks))
	set("rapid.seed", strconv.FormatUint(shardSeed(spec.ID, name, shard), 10))
	set("rapid.shrinktime", env("VERIF_SHRINK", "12s"))
	if sub.Steps > 0 {
		set("rapid.steps", strconv.Itoa(sub.Steps))
	}
	if ff := os.Getenv("VERIF_FAILFILE"); ff != "" {
		set("rapid.failfile", ff)
	}

	start := time.Now()
	run := &childRun{classes: map[string]int{}, hashes: map[uint64]struct{}{}}
	run.res = result{Sub: name, Shard: shard, Requested: checks}
	run.journal, _ = os.Create(out + ".journal")
	write := func() {
		run.res.Classes = run.classes
		run.res.WallS = time.Since(start).Seconds()
		for h := range run.hashes {
			run.res.Hashes = append(run.res.Hashes, h)
		}
		b, err := json.Marshal(run.res)
		if err == nil {
			err = os.WriteFile(out, b, 0o644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "writing result:", err)
			os.Exit(2)
		}
	}

	stopWatch := make(chan struct{})
	go func() {
		tick := time.NewTicker(500 * time.Millisecond)
		defer tick.Stop()
		for {
			select {
			case <-stopWatch:
				return
			case <-tick.C:
			}
			s := run.curStart.Load()
			if s == 0 || time.Since(time.Unix(0, s)) < hangAfter {
				continue
			}
			buf := make([]byte, 1<<18)
			n := runtime.Stack(buf, true)
			r := result{Sub: name, Shard: shard, Requested: checks, Cases: run.res.Cases,
				Failed: true, Hang: true, Done: true,
				Message: fmt.Sprintf("case did not terminate within %s\n%s", hangAfter, buf[:n])}
			if c := run.cur.Load(); c != nil {
				r.CaseDesc = safeDesc(c)
			}
			b, _ := json.Marshal(r)
			_ = os.WriteFile(out, b, 0o644)
			os.Exit(3)
		}
	}()

	tb := &tbImpl{name: spec.ID + "_" + name}
	soft := start.Add(time.Duration(softS) * time.Second)
	failing := false
	wrapped := func(t *rapid.T) {
		if !failing && time.Now().After(soft) {
			run.res.Partial = true
			return
		}
		c := &C{T: t, run: run}
		run.cur.Store(c)
		run.curStart.Store(time.Now().UnixNano())
		ok := false
		defer func() {
			run.curStart.Store(0)
			if !ok {
				p := recover()
				if p == nil || fmt.Sprintf("%T", p) != "rapid.invalidData" {
					failing = true
					run.res.CaseDesc = c.desc.String()
				}
				if p != nil {
					panic(p) // the original frames are still on the stack
				}
				return
			}
			if failing {
				return
			}
			for _, l := range c.labels {
				run.classes[l]++
			}
			run.res.Cases++
			if c.nontriv {
				run.res.NonTriv++
				if len(run.hashes) < 400000 {
					if _, seen := run.hashes[c.hash]; !seen {
						run.hashes[c.hash] = struct{}{}
						n := run.res.NonTriv
						if len(run.res.Samples) < 4 && (n&(n-1)) == 0 && n > 4 && c.desc.Len() > 0 {
							s := c.desc.String()
							if len(s) > 500 {
								s = s[:500] + "..."
							}
							run.res.Samples = append(run.res.Samples, name+": "+strings.TrimSpace(s))
						}
					}
				}
			}
		}()
		sub.Fn(c)
		ok = !t.Failed()
	}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(failNow); !ok {
					panic(p)
				}
			}
		}()
		rapid.Check(tb, wrapped)
	}()
	close(stopWatch)
	if tb.Failed() {
		msg := tb.log.String()
		if strings.Contains(msg, "[rapid] only generated") {
			fmt.Fprintln(os.Stderr, msg)
			os.Exit(2)
		}
		run.res.Failed = true
		run.res.Message = msg
		if m, _ := filepath.Glob("testdata/rapid/*/*.fail"); len(m) > 0 {
			b, _ := os.ReadFile(m[0])
			run.res.FailFile = string(b)
		}
	}
	run.res.Done = true
	write()
	os.Exit(0)
}

func safeDesc(c *C) (s string) {
	defer func() {
		if recover() != nil {
			s = "(unavailable)"
		}
	}()
	return c.desc.String()
}

type task struct {
	sub    *Sub
	shard  int
	checks int
	res    result
	stderr string
	err    error
	state  string // ok, violation, error
	detail string
}

func driverMain(spec Spec) int {
	start := time.Now()
	root := env("VERIF_ROOT", "/verif")
	tier := env("VERIF_TIER", "quick")
	only := os.Getenv("VERIF_ONLY")
	scale, _ := strconv.ParseFloat(env("VERIF_SCALE", "1"), 64)
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	scratch, err := os.MkdirTemp("", "verif-"+spec.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)

	replay := os.Getenv("VERIF_REPLAY")
	var failfile string
	if replay != "" {
		only, failfile, err = splitReplay(replay, scratch)
		if err != nil {
			fmt.Fprintln(os.Stderr, "replay:", err)
			return 2
		}
	}

	var tasks []*task
	for i := range spec.Subs {
		s := &spec.Subs[i]
		if only != "" && only != s.Name {
			continue
		}
		n, shards := s.Quick, s.Shards
		if shards < 1 {
			shards = 1
		}
		if tier == "thorough" {
			n = s.Thorough
			if n == 0 {
				n = s.Quick * 20
			}
			shards = 8
			if n < 64 {
				shards = 1
			}
		}
		n = int(float64(n) * scale)
		if n < shards {
			n = shards
		}
		if failfile != "" {
			shards, n = 1, 1
		}
		for k := 0; k < shards; k++ {
			tasks = append(tasks, &task{sub: s, shard: k, checks: (n + shards - 1) / shards})
		}
	}
	if len(tasks) == 0 {
		fmt.Fprintln(os.Stderr, "nothing to run")
		return 2
	}
	workers := 8
	if v, e := strconv.Atoi(os.Getenv("VERIF_JOBS")); e == nil && v > 0 {
		workers = v
	}
	softTotal := 420
	if tier == "thorough" {
		softTotal = 1500
	}
	softS := softTotal * workers / (len(tasks) + workers - 1)
	if softS > softTotal {
		softS = softTotal
	}
	if softS < 20 {
		softS = 20
	}
	ch := make(chan *task)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for t := range ch {
				runTask(spec, self, scratch, t, softS, failfile)
				if t.state == "error" || t.res.Hang {
					// once more: an error or a hang must repeat to count
					t.res = result{}
					runTask(spec, self, scratch, t, softS, failfile)
				}
			}
		}()
	}
	for _, t := range tasks {
		ch <- t
	}
	close(ch)
	wg.Wait()

	code := 0
	evals, nontriv := 0, 0
	distinct := map[string]map[uint64]struct{}{}
	classes := map[string]int{}
	perSub := map[string]int{}
	var samples []string
	sampled := map[string]int{}
	var violations []map[string]any
	reported := map[string]bool{}
	partial := false
	for _, t := range tasks {
		evals += t.res.Cases
		perSub[t.sub.Name] += t.res.Cases
		nontriv += t.res.NonTriv
		if t.res.Partial {
			partial = true
		}
		m := distinct[t.sub.Name]
		if m == nil {
			m = map[uint64]struct{}{}
			distinct[t.sub.Name] = m
		}
		for _, h := range t.res.Hashes {
			m[h] = struct{}{}
		}
		for k, v := range t.res.Classes {
			classes[t.sub.Name+"/"+k] += v
		}
		for _, s := range t.res.Samples {
			if sampled[t.sub.Name] < 2 && len(samples) < 40 {
				sampled[t.sub.Name]++
				samples = append(samples, s)
			}
		}
		switch t.state {
		case "ok":
		case "violation":
			if reported[t.sub.Name] {
				continue
			}
			reported[t.sub.Name] = true
			path := saveReplay(root, spec.ID, t)
			fmt.Printf("--- %s/%s (shard %d, after %d cases)\n%s\n", spec.ID, t.sub.Name, t.shard, t.res.Cases, clip(t.detail, 4000))
			fmt.Printf("VIOLATION property=%s replay=%s\n", spec.ID, path)
			violations = append(violations, map[string]any{"sub": t.sub.Name, "replay": path, "message": clip(t.detail, 2000)})
			code = 1
		default:
			fmt.Fprintf(os.Stderr, "ERROR %s/%s shard %d: %v\n%s\n", spec.ID, t.sub.Name, t.shard, t.err, clip(t.detail, 4000))
			if code == 0 {
				code = 2
			}
		}
	}
	nd := 0
	for _, m := range distinct {
		nd += len(m)
	}
	if len(samples) == 0 {
		samples = append(samples, "(no sample descriptions recorded)")
	}
	if violations == nil {
		violations = []map[string]any{}
	}
	ev := map[string]any{
		"property": spec.ID, "tier": tier, "seed": int64(seed() & 0x7fffffffffffffff), "level": "exploration",
		"coverage": map[string]any{
			"evaluations": evals, "nontrivial": nontriv, "distinct_nontrivial": nd,
			"rule": spec.Rule, "samples": samples, "classes": classes, "per_sub_property": perSub,
			"time_limited": partial,
		},
		"assumptions": spec.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	}
	if replay == "" && os.Getenv("VERIF_NO_EVIDENCE") == "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		_ = os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(root, "evidence", spec.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if code == 0 {
		for _, kf := range knownFindings(root, spec.ID) {
			fmt.Println(kf)
		}
	}
	if os.Getenv("VERIF_VERBOSE") != "" {
		keys := make([]string, 0, len(classes))
		for k := range classes {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			fmt.Printf("  class %-60s %d\n", k, classes[k])
		}
		for _, t := range tasks {
			fmt.Printf("  %-40s shard %d %6.1fs cases=%d nontriv=%d\n", t.sub.Name, t.shard, t.res.WallS, t.res.Cases, t.res.NonTriv)
		}
	}
	fmt.Printf("%s tier=%s seed=%d cases=%d nontrivial=%d distinct=%d wall=%.1fs exit=%d\n", spec.ID, tier, seed(), evals, nontriv, nd, time.Since(start).Seconds(), code)
	return code
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "\n...(clipped)"
	}
	return s
}

// knownFindings returns the KNOWN-FINDING lines listed for the property.
func knownFindings(root, id string) []string {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: property="+id+" ") {
			out = append(out, "KNOWN-FINDING: "+strings.TrimPrefix(l, "finding: "))
		}
	}
	return out
}

func runTask(spec Spec, self, scratch string, t *task, softS int, failfile string) {
	dir, err := os.MkdirTemp(scratch, "run")
	if err != nil {
		t.state, t.err = "error", err
		return
	}
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "result.json")
	cmd := exec.Command(self)
	cmd.Dir = dir
	var eb bytes.Buffer
	cmd.Stderr = &limitedWriter{w: &eb, n: 1 << 18}
	cmd.Stdout = nil
	cmd.Env = append(os.Environ(),
		"VERIF_CHILD="+t.sub.Name, "VERIF_SHARD="+strconv.Itoa(t.shard),
		"VERIF_CHECKS="+strconv.Itoa(t.checks), "VERIF_OUT="+out,
		"VERIF_SOFT_S="+strconv.Itoa(softS), "VERIF_FAILFILE="+failfile,
		"TMPDIR="+dir, "GOTRACEBACK=all", "GORACE=exitcode=66")
	if os.Getenv("GOMAXPROCS") == "" {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=4")
	}
	if err := cmd.Start(); err != nil {
		t.state, t.err = "error", err
		return
	}
	killed := make(chan struct{})
	timer := time.AfterFunc(time.Duration(softS)*time.Second+hangAfter+90*time.Second, func() {
		close(killed)
		_ = cmd.Process.Kill()
	})
	werr := cmd.Wait()
	timer.Stop()
	t.stderr = eb.String()
	b, rerr := os.ReadFile(out)
	if rerr == nil && json.Unmarshal(b, &t.res) == nil && t.res.Done {
		if strings.Contains(t.stderr, "WARNING: DATA RACE") {
			t.state = "violation"
			t.detail = "data race detected\n" + clip(t.stderr, 8000)
			return
		}
		switch {
		case t.res.Failed && t.res.Hang && t.sub.HangIsNoViolation:
			t.state, t.err, t.detail = "error", fmt.Errorf("hang"), t.res.Message
		case t.res.Failed:
			t.state = "violation"
			t.detail = t.res.Message
		default:
			t.state = "ok"
		}
		return
	}
	select {
	case <-killed:
		t.state, t.err, t.detail = "error", fmt.Errorf("time limit"), t.stderr
		return
	default:
	}
	journal, _ := os.ReadFile(out + ".journal")
	t.res.CaseDesc = string(journal)
	low := t.stderr
	isCrash := (strings.Contains(low, "panic:") || strings.Contains(low, "fatal error:") || strings.Contains(low, "WARNING: DATA RACE")) &&
		!strings.Contains(low, "out of memory") && !strings.Contains(low, "cannot allocate memory")
	// A crash outside a goroutine started by the code under test would be the
	// harness's own; those never carry a frame of the repository.
	if isCrash && strings.Contains(low, "github.com/tychoish/birch") {
		t.state = "violation"
		t.detail = "the process died: " + clip(low, 6000)
		return
	}
	t.state, t.err, t.detail = "error", fmt.Errorf("child ended abnormally: %v", werr), t.stderr
}

type limitedWriter struct {
	w *bytes.Buffer
	n int
}

func (l *limitedWriter) Write(p []byte) (int, error) {
	if r := l.n - l.w.Len(); r > 0 {
		if len(p) < r {
			r = len(p)
		}
		l.w.Write(p[:r])
	}
	return len(p), nil
}

const replaySep = "\n=== rapid fail file ===\n"

func saveReplay(root, id string, t *task) string {
	dir := filepath.Join(root, "replays")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-seed%d.replay", id, t.sub.Name, seed()))
	var b strings.Builder
	fmt.Fprintf(&b, "property: %s\nsub: %s\nseed: %d shard: %d cases-before: %d\nreplay with: bash check.sh %s replay %s\n\n--- minimal case\n%s\n--- message\n%s\n",
		id, t.sub.Name, seed(), t.shard, t.res.Cases, id, path, t.res.CaseDesc, t.detail)
	if t.stderr != "" {
		fmt.Fprintf(&b, "--- stderr\n%s\n", clip(t.stderr, 20000))
	}
	if t.res.FailFile != "" {
		b.WriteString(replaySep)
		b.WriteString(t.res.FailFile)
	}
	_ = os.WriteFile(path, []byte(b.String()), 0o644)
	return path
}

func splitReplay(path, scratch string) (sub, failfile string, err error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return "", "", err
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "sub: ") {
			sub = strings.TrimPrefix(l, "sub: ")
			break
		}
	}
	if i := strings.Index(string(b), replaySep); i >= 0 {
		failfile = filepath.Join(scratch, "replay.fail")
		err = os.WriteFile(failfile, b[i+len(replaySep):], 0o644)
	}
	return sub, failfile, err
}
