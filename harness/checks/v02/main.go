// V02: event recorders account for every recorded operation.
package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"runtime"
	"sync"
	"time"

	"github.com/tychoish/birch/x/ftdc/events"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/em"
	"verif/harness/prop"
)

const patience = 20 * time.Second

// span bounds something measured with the clock.
type span struct{ lo, hi int64 }

func (s span) has(v int64) bool { return s.lo <= v && v <= s.hi }

// stamp is what is known of a timestamp.
type stamp struct {
	set    bool
	exact  bool // as set, otherwise of the clock between lo and hi
	at     time.Time
	lo, hi time.Time
}

func (s stamp) String() string {
	if s.exact {
		return fmt.Sprint("exactly ", s.at.UnixMilli())
	}
	return fmt.Sprintf("%d..%d", s.lo.UnixMilli(), s.hi.UnixMilli())
}

func (s stamp) has(ms int64) bool {
	if s.exact {
		return ms == s.at.UnixMilli()
	}
	return s.lo.UnixMilli() <= ms && ms <= s.hi.UnixMilli()
}

// model is the point of a recorder.
type model struct {
	p       events.Performance // without timestamp and total
	total   span
	ts      stamp
	started struct {
		set    bool
		lo, hi time.Time
	}
	savedP     events.Performance
	savedTotal span
}

func (m *model) stamp(lo, hi time.Time) {
	if m.ts.set {
		return
	}
	if m.started.set {
		lo, hi = m.started.lo, m.started.hi
	}
	m.ts = stamp{set: true, lo: lo, hi: hi}
}

func (m *model) reset() { *m = model{p: events.Performance{Gauges: m.p.Gauges}}; m.savedP = m.p }

func (m *model) saved() { m.ts = stamp{}; m.savedP, m.savedTotal = m.p, m.total }

// check compares a sample with the point.
func (m *model) check(c *prop.C, s em.Sample) {
	got := parse(c, s)
	want := m.p
	total, ms := int64(got.Timers.Total), got.Timestamp.UnixMilli()
	got.Timers.Total, got.Timestamp = 0, time.Time{}
	if got != want {
		c.Failf("persisted %+v, want %+v", got, want)
	}
	if !m.total.has(total) {
		c.Failf("persisted a total of %d, want %+v", total, m.total)
	}
	if !m.ts.has(ms) {
		c.Failf("persisted with the timestamp %d, want %v", ms, m.ts)
	}
}

// parse reads a sample back.
func parse(c *prop.C, s em.Sample) events.Performance {
	f := s.Fields
	if len(f) != 5 {
		c.Failf("sample %s", bm.Show(f))
	}
	kid := func(i, j int) int64 { return int64(f[i].V.Kids[j].V.U) }
	p := events.Performance{
		Timestamp: time.UnixMilli(int64(f[0].V.U)),
		ID:        int64(f[1].V.U),
		Counters:  events.PerformanceCounters{Number: kid(2, 0), Operations: kid(2, 1), Size: kid(2, 2), Errors: kid(2, 3)},
		Timers:    events.PerformanceTimers{Duration: time.Duration(kid(3, 0)), Total: time.Duration(kid(3, 1))},
		Gauges:    events.PerformanceGauges{State: kid(4, 0), Workers: kid(4, 1), Failed: kid(4, 2) != 0},
	}
	if want := em.PerfFields(&p); !bm.FieldsEqual(f, want) {
		c.Failf("sample %s, want %s", bm.Show(f), bm.Show(want))
	}
	return p
}

// timers counts what is done to the timer.
type timers struct {
	mu                  sync.Mutex
	start, stop, resets int
}

func (t *timers) StartTimer() { t.mu.Lock(); t.start++; t.mu.Unlock() }
func (t *timers) StopTimer()  { t.mu.Lock(); t.stop++; t.mu.Unlock() }
func (t *timers) ResetTimer() { t.mu.Lock(); t.resets++; t.mu.Unlock() }

// within fails a case whose recorder does not return.
func within(c *prop.C, what string, f func()) {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(patience):
		c.Failf("%s did not return within %v", what, patience)
	}
}

const (
	no = iota
	yes
	either
)

// plain drives the recorders that persist in the calls themselves.
func plain(c *prop.C) {
	t := c.T
	kind := rapid.SampledFrom([]string{"raw", "raw", "single", "grouped", "grouped"}).Draw(t, "kind")
	interval := rapid.SampledFrom([]time.Duration{0, time.Hour, 2 * time.Millisecond}).Draw(t, "interval")
	rec := &em.Rec{}
	var r events.Recorder
	switch kind {
	case "raw":
		r = events.NewRawRecorder(rec)
	case "single":
		r = events.NewSingleRecorder(rec)
	default:
		r = events.NewGroupedRecorder(rec, interval)
	}
	tm := &timers{}
	shim := rapid.IntRange(0, 3).Draw(t, "shim") == 0
	if shim {
		r = events.NewShimRecorder(r, tm)
	}
	if rapid.Bool().Draw(t, "synchronized") {
		r = events.NewSynchronizedRecorder(r)
	}
	c.Class(kind)
	c.Note("%s %v", kind, interval)
	m := &model{}
	var begins, ends, resets, rounds, emitted, ops int
	var failed bool
	var last *[2]time.Time
	iteration := false
	persisted := func(want int) (got bool) {
		samples := rec.Samples()[emitted:]
		if len(samples) > 1 || want == yes && len(samples) == 0 || want == no && len(samples) > 0 {
			c.Failf("%d samples persisted, want %s", len(samples), []string{"none", "one", "at most one"}[want])
		}
		if len(samples) == 0 {
			return false
		}
		emitted++
		failed = failed || samples[0].Failed
		m.check(c, samples[0])
		return true
	}
	set := func(name string, f func(v int64)) func(*rapid.T) {
		return func(t *rapid.T) {
			v := em.I64(t, name)
			c.Note("%s(%d)", name, v)
			ops++
			f(v)
		}
	}
	t.Repeat(map[string]func(*rapid.T){
		"begin": func(t *rapid.T) {
			c.Note("begin")
			lo := time.Now()
			r.BeginIteration()
			hi := time.Now()
			begins++
			iteration = true
			m.started.set, m.started.lo, m.started.hi = true, lo, hi
			if kind != "single" { // which only notes the start
				m.stamp(lo, hi)
			}
		},
		"end": func(t *rapid.T) {
			if interval == 2*time.Millisecond {
				time.Sleep(time.Duration(rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "sleep")) * time.Millisecond)
			}
			d := em.I64(t, "dur")
			if rapid.IntRange(0, 4).Draw(t, "fail") == 0 {
				rec.SetFail(1)
			}
			c.Note("end(%d)", d)
			lo := time.Now()
			r.EndIteration(time.Duration(d))
			hi := time.Now()
			rec.SetFail(0)
			ends++
			m.p.Counters.Number++
			m.p.Timers.Duration += time.Duration(d)
			m.stamp(lo, hi)
			if m.started.set {
				m.total.lo += int64(lo.Sub(m.started.hi))
				m.total.hi += int64(hi.Sub(m.started.lo))
				m.started.set = false
			}
			iteration = false
			want := no
			switch kind {
			case "raw":
				want = yes
			case "grouped":
				switch {
				case interval == 0:
					want = yes
				case last == nil: // no sample yet in this test
					want = either
				case lo.Sub(last[1]) >= interval:
					want = yes
				case hi.Sub(last[0]) >= interval:
					want = either
				}
			}
			if persisted(want) {
				m.saved()
				last = &[2]time.Time{lo, hi}
			}
		},
		"iterations": set("iterations", func(v int64) { r.IncIterations(v); m.p.Counters.Number += v }),
		"operations": set("operations", func(v int64) { r.IncOperations(v); m.p.Counters.Operations += v }),
		"size":       set("size", func(v int64) { r.IncSize(v); m.p.Counters.Size += v }),
		"errors":     set("errors", func(v int64) { r.IncError(v); m.p.Counters.Errors += v }),
		"workers":    set("workers", func(v int64) { r.SetWorkers(v); m.p.Gauges.Workers = v }),
		"state":      set("state", func(v int64) { r.SetState(v); m.p.Gauges.State = v }),
		"failed":     set("failed", func(v int64) { r.SetFailed(v%2 == 0); m.p.Gauges.Failed = v%2 == 0 }),
		"id":         set("id", func(v int64) { r.SetID(v); m.p.ID = v }),
		"duration": set("duration", func(v int64) {
			r.SetDuration(time.Duration(v))
			if kind == "raw" {
				m.p.Timers.Duration = 0
			}
			m.p.Timers.Duration += time.Duration(v)
		}),
		"total": set("total", func(v int64) {
			v %= 1 << 60 // the bounds do not overflow
			r.SetTotalDuration(time.Duration(v))
			if kind == "raw" {
				m.total = span{}
			}
			if math.Abs(float64(m.total.lo))+math.Abs(float64(v)) > 1<<62 {
				m.total = span{math.MinInt64, math.MaxInt64}
				return
			}
			m.total.lo += v
			m.total.hi += v
		}),
		"time": func(t *rapid.T) {
			at := em.When(t)
			c.Note("time(%d)", at.UnixMilli())
			r.SetTime(at)
			m.ts = stamp{}
			if !at.IsZero() {
				m.ts = stamp{set: true, exact: true, at: at}
			}
		},
		"finish": func(t *rapid.T) {
			if rapid.IntRange(0, 3).Draw(t, "fail") == 0 {
				rec.SetFail(1)
			}
			c.Note("EndTest")
			// the rest is outstanding when it differs from what was persisted
			want := no
			switch {
			case kind == "single" || m.ts.set || m.p != m.savedP:
				want = yes
			case m.total != m.savedTotal || m.total.lo != m.total.hi:
				want = either
				if m.total == m.savedTotal { // not touched since
					want = no
				} else if m.total.lo > m.savedTotal.hi || m.total.hi < m.savedTotal.lo {
					want = yes
				}
			}
			lo := time.Now()
			err := r.EndTest()
			hi := time.Now()
			rec.SetFail(0)
			m.stamp(lo, hi)
			persisted(want)
			if failed != (err != nil) || failed && !errors.Is(err, em.ErrRec) {
				c.Failf("EndTest: %v; the collector failed: %v", err, failed)
			}
			m.reset()
			failed, last, iteration = false, nil, false
			rounds++
		},
		"reset": func(t *rapid.T) {
			c.Note("Reset")
			r.Reset()
			resets++
			m.reset()
			failed, last, iteration = false, nil, false
		},
		"": func(t *rapid.T) {
			if n := len(rec.Samples()); n != emitted {
				c.Failf("%d samples persisted, want %d", n, emitted)
			}
			if shim && (tm.start != begins || tm.stop != ends || tm.resets != resets) {
				c.Failf("the timer was started %d times, stopped %d, reset %d; want %d, %d, %d", tm.start, tm.stop, tm.resets, begins, ends, resets)
			}
			if rec.Overlaps > 0 {
				c.Failf("concurrent calls")
			}
		},
	})
	_ = iteration
	if emitted > 1 && ops > 1 {
		c.NonTrivial(fmt.Sprint(kind, interval, begins, ends, rounds, m.p))
	}
}

// background drives the recorder that persists on a ticker.
func background(c *prop.C) {
	t := c.T
	goroutines := runtime.NumGoroutine()
	rec := &em.Rec{}
	interval := rapid.SampledFrom([]time.Duration{time.Millisecond, 300 * time.Microsecond, 5 * time.Millisecond, time.Hour}).Draw(t, "interval")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	r := events.NewIntervalRecorder(ctx, rec, interval)
	if rapid.IntRange(0, 3).Draw(t, "synchronized") == 0 {
		r = events.NewSynchronizedRecorder(r)
	}
	c.Note("interval %v", interval)
	c.Journal()
	var (
		m       events.Performance // what was recorded since the start
		total   span
		started *[2]time.Time
		gauges0 events.PerformanceGauges
		ids     = map[int64]bool{0: true}
		lastID  int64
		times   = map[int64]bool{}
		seen    int
		fresh   = time.Now()
		stopped bool // no worker ticks any more
		ticking bool
		all     int
	)
	reset := func() {
		m = events.Performance{Gauges: m.Gauges}
		total, started, gauges0 = span{}, nil, m.Gauges
		ids, times, lastID = map[int64]bool{0: true}, map[int64]bool{}, 0
		seen = len(rec.Samples())
		fresh = time.Now()
		ticking = false
	}
	set := func(name string, f func(v int64)) func(*rapid.T) {
		return func(t *rapid.T) {
			v := em.I64(t, name)
			c.Note("%s(%d)", name, v)
			within(c, name, func() { f(v) })
			all++
		}
	}
	nap := func(t *rapid.T) {
		time.Sleep(time.Duration(rapid.SampledFrom([]int{0, 0, 100, 1000, 3000}).Draw(t, "sleep")) * time.Microsecond)
	}
	finish := func(t *rapid.T) {
		c.Note("EndTest")
		if rapid.IntRange(0, 4).Draw(t, "fail") == 0 {
			rec.SetFail(1)
		}
		slow := rapid.IntRange(0, 4).Draw(t, "slow") == 0
		if slow { // so that ticks come while the test ends
			rec.SetDelay(2 * time.Millisecond)
		}
		before := len(rec.Samples())
		var err error
		within(c, "EndTest", func() { err = r.EndTest() })
		hi := time.Now()
		rec.SetFail(0)
		rec.SetDelay(0)
		samples := rec.Samples()[seen:]
		c.Note("%d samples, %d of them at the end", len(samples), len(rec.Samples())-before)
		var sum events.Performance
		failed := false
		gotIDs := map[int64]bool{}
		for _, s := range samples {
			p := parse(c, s)
			failed = failed || s.Failed
			sum.Counters.Number += p.Counters.Number
			sum.Counters.Operations += p.Counters.Operations
			sum.Counters.Size += p.Counters.Size
			sum.Counters.Errors += p.Counters.Errors
			sum.Timers.Duration += p.Timers.Duration
			sum.Timers.Total += p.Timers.Total
			sum.Gauges = p.Gauges
			if !ids[p.ID] {
				c.Failf("a sample has the ID %d, which was not set", p.ID)
			}
			gotIDs[p.ID] = true
			if ms := p.Timestamp.UnixMilli(); !times[ms] && (ms < fresh.UnixMilli() || ms > hi.UnixMilli()) {
				c.Failf("a sample has the timestamp %d, the test ran from %d to %d", ms, fresh.UnixMilli(), hi.UnixMilli())
			}
		}
		if len(samples) == 0 {
			sum.Gauges = gauges0
		}
		if !total.has(int64(sum.Timers.Total)) {
			c.Failf("the totals sum up to %d, want %v", sum.Timers.Total, total)
		}
		sum.Timers.Total, m.Timers.Total = 0, 0
		if sum != m {
			c.Failf("the samples sum up to\n%+v, recorded was\n%+v", sum, m)
		}
		if !gotIDs[lastID] && lastID != 0 {
			c.Failf("no sample has the ID %d", lastID)
		}
		if failed != (err != nil) || failed && !errors.Is(err, em.ErrRec) {
			c.Failf("EndTest: %v; the collector failed: %v", err, failed)
		}
		reset()
		if rapid.IntRange(0, 3).Draw(t, "linger") == 0 {
			time.Sleep(3 * time.Millisecond)
			if n := len(rec.Samples()); n != seen {
				c.Failf("%d samples after EndTest", n-seen)
			}
		}
	}
	t.Repeat(map[string]func(*rapid.T){
		"begin": func(t *rapid.T) {
			c.Note("begin")
			lo := time.Now()
			within(c, "BeginIteration", r.BeginIteration)
			started = &[2]time.Time{lo, time.Now()}
			ticking = true
			nap(t)
		},
		"end": func(t *rapid.T) {
			d := em.I64(t, "dur")
			c.Note("end(%d)", d)
			lo := time.Now()
			within(c, "EndIteration", func() { r.EndIteration(time.Duration(d)) })
			hi := time.Now()
			m.Counters.Number++
			m.Timers.Duration += time.Duration(d)
			if started != nil {
				total.lo += int64(lo.Sub(started[1]))
				total.hi += int64(hi.Sub(started[0]))
				started = nil
			}
		},
		"iterations": set("iterations", func(v int64) { r.IncIterations(v); m.Counters.Number += v }),
		"operations": set("operations", func(v int64) { r.IncOperations(v); m.Counters.Operations += v }),
		"size":       set("size", func(v int64) { r.IncSize(v); m.Counters.Size += v }),
		"errors":     set("errors", func(v int64) { r.IncError(v); m.Counters.Errors += v }),
		"workers":    set("workers", func(v int64) { r.SetWorkers(v); m.Gauges.Workers = v }),
		"state":      set("state", func(v int64) { r.SetState(v); m.Gauges.State = v }),
		"failed":     set("failed", func(v int64) { r.SetFailed(v%2 == 0); m.Gauges.Failed = v%2 == 0 }),
		"id":         set("id", func(v int64) { r.SetID(v); ids[v], lastID = true, v }),
		"duration":   set("duration", func(v int64) { r.SetDuration(time.Duration(v)); m.Timers.Duration += time.Duration(v) }),
		"total": set("total", func(v int64) {
			v %= 1 << 50
			r.SetTotalDuration(time.Duration(v))
			total.lo += v
			total.hi += v
		}),
		"time": func(t *rapid.T) {
			at := em.When(t)
			c.Note("time(%d)", at.UnixMilli())
			within(c, "SetTime", func() { r.SetTime(at) })
			times[at.UnixMilli()] = true
		},
		"wait": func(t *rapid.T) {
			if !ticking || stopped || interval == time.Hour {
				nap(t)
				return
			}
			c.Note("wait for a sample")
			rec.SetFail(rapid.IntRange(0, 1).Draw(t, "fail"))
			n := len(rec.Samples())
			for end := time.Now().Add(patience); len(rec.Samples()) == n; time.Sleep(100 * time.Microsecond) {
				if time.Now().After(end) {
					c.Failf("no sample within %v", patience)
				}
			}
			rec.SetFail(0)
		},
		"finish": finish,
		"reset": func(t *rapid.T) {
			if rapid.Bool().Draw(t, "skip") {
				return
			}
			c.Note("Reset")
			within(c, "Reset", r.Reset)
			reset()
		},
		"cancel": func(t *rapid.T) {
			if rapid.IntRange(0, 5).Draw(t, "rare") > 0 {
				return
			}
			c.Note("cancel")
			cancel()
			stopped = true
		},
	})
	finish(t)
	c.Settled(goroutines, "a test that has ended")
	if seen > 1 && all > 1 {
		c.NonTrivial(fmt.Sprint(interval, seen, all, m))
	}
}

// concurrent records on several goroutines.
func concurrent(c *prop.C) {
	t := c.T
	kind := rapid.SampledFrom([]string{"raw", "single", "grouped", "interval"}).Draw(t, "kind")
	rec := &em.Rec{}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	interval := rapid.SampledFrom([]time.Duration{time.Millisecond, 200 * time.Microsecond, time.Hour}).Draw(t, "interval")
	var r events.Recorder
	switch kind {
	case "raw":
		r = events.NewSynchronizedRecorder(events.NewRawRecorder(rec))
	case "single":
		r = events.NewSynchronizedRecorder(events.NewSingleRecorder(rec))
	case "grouped":
		r = events.NewSynchronizedRecorder(events.NewGroupedRecorder(rec, interval))
	case "interval":
		r = events.NewIntervalRecorder(ctx, rec, interval)
	}
	gs, each := rapid.IntRange(2, 8).Draw(t, "goroutines"), rapid.IntRange(1, 30).Draw(t, "each")
	c.Class(kind)
	c.Note("%s %v: %d goroutines of %d iterations", kind, interval, gs, each)
	c.Journal()
	rounds := rapid.IntRange(1, 3).Draw(t, "rounds")
	seen := 0
	for round := 0; round < rounds; round++ {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < gs; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < each; i++ {
					r.BeginIteration()
					r.IncOperations(3)
					r.IncSize(int64(g + i))
					r.IncError(1)
					r.IncIterations(1)
					switch i % 8 {
					case 0:
						r.SetState(9)
					case 1:
						r.SetWorkers(int64(gs))
					case 2:
						r.SetFailed(true)
					case 3:
						r.SetTotalDuration(0)
					case 4:
						r.SetID(5)
					case 5:
						r.SetTime(time.Now())
					case 6:
						if kind != "raw" {
							r.SetDuration(0)
						}
					}
					r.EndIteration(time.Duration(i))
				}
			}()
		}
		close(start)
		within(c, "the iterations", wg.Wait)
		within(c, "EndTest", func() {
			if err := r.EndTest(); err != nil {
				c.Failf("EndTest: %v", err)
			}
		})
		samples := rec.Samples()[seen:]
		seen += len(samples)
		switch kind {
		case "raw":
			// an iteration may have begun since the last sample
			if n := len(samples); n != gs*each && n != gs*each+1 {
				c.Failf("%d samples", n)
			}
		case "single":
			if len(samples) != 1 {
				c.Failf("%d samples", len(samples))
			}
		}
		var sum, prev events.Performance
		for i, s := range samples {
			p := parse(c, s)
			if kind != "interval" {
				if d := p.Counters.Number - prev.Counters.Number; d < 0 || kind == "raw" && i < gs*each && d < 1 {
					c.Failf("sample %d counts %d iterations after %d", i, p.Counters.Number, prev.Counters.Number)
				}
				prev, sum = p, events.Performance{}
			}
			sum.Counters.Number += p.Counters.Number
			sum.Counters.Operations += p.Counters.Operations
			sum.Counters.Size += p.Counters.Size
			sum.Counters.Errors += p.Counters.Errors
			sum.Timers.Duration += p.Timers.Duration
		}
		n := int64(gs * each)
		var size, dur int64
		for g := 0; g < gs; g++ {
			for i := 0; i < each; i++ {
				size += int64(g + i)
				dur += int64(i)
			}
		}
		want := events.Performance{
			Counters: events.PerformanceCounters{Number: 2 * n, Operations: 3 * n, Size: size, Errors: n},
			Timers:   events.PerformanceTimers{Duration: time.Duration(dur)},
		}
		if sum != want {
			c.Failf("the samples add up to %+v, want %+v", sum, want)
		}
	}
	if rec.Overlaps > 0 {
		c.Failf("%d calls overlapped in the collector", rec.Overlaps)
	}
	c.NonTrivial(fmt.Sprint(kind, interval, gs, each, rounds))
}

func main() {
	prop.Main(prop.Spec{
		ID:   "V02",
		Rule: "plain, background: two or more samples and two or more values recorded; histograms: one or more values recorded; concurrent, shared: all",
		Assumptions: []string{
			"what is measured with the clock is compared with the clock readings around the calls",
			"whether a grouped recorder persists its first iteration, or one close to the interval, is left open",
			"histogram values are compared by count, mean and maximum, within the precision of the histogram",
		},
		Subs: []prop.Sub{
			{Name: "plain", Quick: 8000, Thorough: 250000, Shards: 3, Steps: 20, HangIsViolation: true, Fn: plain},
			{Name: "background", Quick: 1200, Thorough: 30000, Shards: 3, Steps: 20, HangIsViolation: true, Fn: background},
			{Name: "concurrent", Quick: 500, Thorough: 20000, Shards: 2, HangIsViolation: true, Fn: concurrent},
			{Name: "histograms", Quick: 200, Thorough: 1500, Shards: 4, Steps: 12, HangIsViolation: true, Fn: histograms},
			{Name: "shared", Quick: 100, Thorough: 1500, Shards: 2, HangIsViolation: true, Fn: shared},
		},
	})
}
