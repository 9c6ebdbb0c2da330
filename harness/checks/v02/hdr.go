package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"runtime"
	"sync"
	"time"

	"github.com/tychoish/birch/x/ftdc/events"
	"pgregory.net/rapid"
	"verif/harness/em"
	"verif/harness/prop"
)

// hist is the expected content of a histogram, in bounds.
type hist struct {
	n      int64
	lo, hi float64 // sums
	max    span
}

func (h *hist) add(lo, hi int64) {
	h.n++
	h.lo += float64(lo)
	h.hi += float64(hi)
	h.max.lo, h.max.hi = max(h.max.lo, lo), max(h.max.hi, hi)
}

// check allows for the precision of five digits.
func (h hist) check(c *prop.C, name string, got em.Hist, unit float64) {
	if got.Count != h.n {
		c.Failf("%s holds %d values, want %d", name, got.Count, h.n)
	}
	if h.n == 0 {
		return
	}
	tol := func(v float64) float64 { return math.Abs(v)*1e-4 + unit }
	lo, hi := h.lo/float64(h.n), h.hi/float64(h.n)
	if math.IsNaN(got.Mean) || got.Mean < lo-tol(lo)-1e-6 || got.Mean > hi+tol(hi)+1e-6 {
		c.Failf("%s has the mean %v, want %v..%v", name, got.Mean, lo, hi)
	}
	mlo, mhi := float64(h.max.lo), float64(h.max.hi)
	if g := float64(got.Max); g < mlo-tol(mlo)-1 || g > mhi+tol(mhi)+1 {
		c.Failf("%s has the maximum %d, want %v", name, got.Max, h.max)
	}
}

type hpoint struct{ n, ops, size, errs, dur, total hist }

func (h *hpoint) check(c *prop.C, p em.HDRPoint) {
	h.n.check(c, "iterations", p.Number, 0)
	h.ops.check(c, "operations", p.Operations, 0)
	h.size.check(c, "size", p.Size, 0)
	h.errs.check(c, "errors", p.Errors, 0)
	h.dur.check(c, "duration", p.Duration, 1024)
	h.total.check(c, "total", p.Total, 1024)
}

// histograms drives the histogram recorders.
func histograms(c *prop.C) {
	t := c.T
	kind := rapid.SampledFrom([]string{"histogram", "histogram grouped", "histogram single", "histogram interval"}).Draw(t, "kind")
	interval := rapid.SampledFrom([]time.Duration{time.Hour, 0, 60 * time.Millisecond}).Draw(t, "interval")
	if kind == "histogram interval" {
		interval = max(interval, 60*time.Millisecond)
	}
	rec := &em.Rec{}
	goroutines := runtime.NumGoroutine()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var r events.Recorder
	switch kind {
	case "histogram":
		r = events.NewHistogramRecorder(rec)
	case "histogram grouped":
		r = events.NewHistogramGroupedRecorder(rec, interval)
	case "histogram single":
		r = events.NewSingleHistogramRecorder(rec)
	case "histogram interval":
		r = events.NewIntervalHistogramRecorder(ctx, rec, interval)
	}
	c.Class(kind)
	c.Note("%s %v", kind, interval)
	c.Journal()
	var (
		m, saved       hpoint
		g, savedG      events.PerformanceGauges
		id, savedID    int64
		ts             stamp
		started        *[2]time.Time
		failed, bad    bool
		last           *[2]time.Time
		emitted, all   int
		fresh          = time.Now()
		times          = map[int64]bool{}
		ids            = map[int64]bool{0: true}
		ticks          = kind == "histogram interval"
		stampIn        func(lo, hi time.Time)
		touched, idSet bool
	)
	stampIn = func(lo, hi time.Time) {
		if ts.set {
			return
		}
		if started != nil {
			lo, hi = started[0], started[1]
		}
		ts = stamp{set: true, lo: lo, hi: hi}
	}
	reset := func() {
		m, saved, savedG, id, savedID = hpoint{}, hpoint{}, g, 0, 0
		ts, started, failed, bad, last = stamp{}, nil, false, false, nil
		emitted = len(rec.Samples())
		fresh = time.Now()
		times, ids, idSet = map[int64]bool{}, map[int64]bool{0: true}, false
	}
	// took compares the samples of one call of a recorder that persists in
	// the calls themselves.
	took := func(want int) bool {
		samples := rec.Samples()[emitted:]
		if len(samples) > 1 || want == yes && len(samples) == 0 || want == no && len(samples) > 0 {
			c.Failf("%d samples persisted, want %s", len(samples), []string{"none", "one", "at most one"}[want])
		}
		if len(samples) == 0 {
			return false
		}
		emitted++
		failed = failed || samples[0].Failed
		p := samples[0].Point
		m.check(c, p)
		if p.Gauges != g || p.ID != id || !ts.has(p.Timestamp.UnixMilli()) {
			c.Failf("persisted %+v, want ID %d, gauges %+v, timestamp %v", p, id, g, ts)
		}
		saved, savedG, savedID, ts = m, g, id, stamp{}
		return true
	}
	counter := func(name string, h *hist, f func(v int64)) func(*rapid.T) {
		return func(t *rapid.T) {
			v := rapid.OneOf(rapid.Int64Range(0, 10000), rapid.Int64Range(0, 20), rapid.SampledFrom([]int64{0, 10000, 1e8, math.MaxInt64})).Draw(t, name)
			c.Note("%s(%d)", name, v)
			f(v)
			all++
			if v > 10000 {
				bad = true
			} else {
				h.add(v, v)
			}
		}
	}
	genDur := func(t *rapid.T) int64 {
		return rapid.OneOf(rapid.Int64Range(1000, int64(time.Minute)), rapid.Int64Range(1000, 1e7),
			rapid.SampledFrom([]int64{1000, int64(time.Minute), int64(time.Hour), math.MaxInt64})).Draw(t, "dur")
	}
	duration := func(h *hist, v int64) {
		if v > int64(time.Minute) {
			bad = true
		} else {
			h.add(v, v)
		}
	}
	gauge := func(name string, f func(v int64)) func(*rapid.T) {
		return func(t *rapid.T) {
			v := em.I64(t, name)
			c.Note("%s(%d)", name, v)
			f(v)
			touched = true
		}
	}
	finish := func(t *rapid.T) {
		if rapid.IntRange(0, 4).Draw(t, "fail") == 0 {
			rec.SetFail(1)
		}
		c.Note("EndTest")
		want := no
		if kind == "histogram single" || ts.set || m != saved || g != savedG || id != savedID {
			want = yes
		}
		lo := time.Now()
		var err error
		within(c, "EndTest", func() { err = r.EndTest() })
		hi := time.Now()
		rec.SetFail(0)
		if !ticks {
			stampIn(lo, hi)
			took(want)
		} else {
			if started != nil { // its total is part of the test
				m.total.add(int64(lo.Sub(started[1])), int64(hi.Sub(started[0])))
			}
			var sum hpoint
			var gotID bool
			lastG := savedG
			for _, s := range rec.Samples()[emitted:] {
				failed = failed || s.Failed
				p := s.Point
				for _, x := range []struct {
					h *hist
					g em.Hist
				}{{&sum.n, p.Number}, {&sum.ops, p.Operations}, {&sum.size, p.Size}, {&sum.errs, p.Errors}, {&sum.dur, p.Duration}, {&sum.total, p.Total}} {
					if x.g.Count > 0 {
						x.h.n += x.g.Count
						x.h.lo += x.g.Mean * float64(x.g.Count)
						x.h.max.lo = max(x.h.max.lo, x.g.Max)
					}
				}
				lastG = p.Gauges
				gotID = gotID || p.ID == id
				if ms := p.Timestamp.UnixMilli(); !times[ms] && (ms < fresh.UnixMilli() || ms > hi.UnixMilli()) {
					c.Failf("a sample has the timestamp %d, the test ran from %d to %d", ms, fresh.UnixMilli(), hi.UnixMilli())
				}
				if !ids[p.ID] {
					c.Failf("a sample has the ID %d, which was not set", p.ID)
				}
			}
			conv := func(h hist) em.Hist { return em.Hist{Count: h.n, Mean: h.lo / float64(h.n), Max: h.max.lo} }
			m.check(c, em.HDRPoint{Number: conv(sum.n), Operations: conv(sum.ops), Size: conv(sum.size), Errors: conv(sum.errs),
				Duration: conv(sum.dur), Total: conv(sum.total)})
			if lastG != g {
				c.Failf("the last sample has the gauges %+v, want %+v", lastG, g)
			}
			if idSet && id != 0 && !gotID {
				c.Failf("no sample has the ID %d", id)
			}
		}
		if (err != nil) != (failed || bad) || failed && !errors.Is(err, em.ErrRec) {
			c.Failf("EndTest: %v; the collector failed: %v; values out of range: %v", err, failed, bad)
		}
		reset()
	}
	t.Repeat(map[string]func(*rapid.T){
		"begin": func(t *rapid.T) {
			c.Note("begin")
			lo := time.Now()
			within(c, "BeginIteration", r.BeginIteration)
			started = &[2]time.Time{lo, time.Now()}
			if kind != "histogram single" { // which only notes the start
				stampIn(started[0], started[1])
			}
		},
		"end": func(t *rapid.T) {
			if interval == 60*time.Millisecond {
				time.Sleep(time.Duration(rapid.SampledFrom([]int{0, 30, 70}).Draw(t, "sleep")) * time.Millisecond)
			}
			d := genDur(t)
			if !ticks && rapid.IntRange(0, 4).Draw(t, "fail") == 0 {
				rec.SetFail(1)
			}
			c.Note("end(%d)", d)
			lo := time.Now()
			within(c, "EndIteration", func() { r.EndIteration(time.Duration(d)) })
			hi := time.Now()
			if !ticks {
				rec.SetFail(0)
			}
			all++
			m.n.add(1, 1)
			duration(&m.dur, d)
			stampIn(lo, hi)
			if started != nil {
				m.total.add(int64(lo.Sub(started[1])), int64(hi.Sub(started[0])))
				started = nil
			}
			if ticks {
				return
			}
			want := no
			switch kind {
			case "histogram":
				want = yes
			case "histogram grouped":
				switch {
				case interval == 0:
					want = yes
				case last == nil:
					want = either
				case lo.Sub(last[1]) >= interval:
					want = yes
				case hi.Sub(last[0]) >= interval:
					want = either
				}
			}
			if took(want) {
				last = &[2]time.Time{lo, hi}
			}
		},
		"iterations": counter("iterations", &m.n, func(v int64) { r.IncIterations(v) }),
		"operations": counter("operations", &m.ops, func(v int64) { r.IncOperations(v) }),
		"size":       counter("size", &m.size, func(v int64) { r.IncSize(v) }),
		"errors":     counter("errors", &m.errs, func(v int64) { r.IncError(v) }),
		"duration": func(t *rapid.T) {
			d := genDur(t)
			c.Note("duration(%d)", d)
			r.SetDuration(time.Duration(d))
			duration(&m.dur, d)
			all++
		},
		"total": func(t *rapid.T) {
			d := genDur(t)
			c.Note("total(%d)", d)
			r.SetTotalDuration(time.Duration(d))
			duration(&m.total, d)
			all++
		},
		"workers": gauge("workers", func(v int64) { r.SetWorkers(v); g.Workers = v }),
		"state":   gauge("state", func(v int64) { r.SetState(v); g.State = v }),
		"failed":  gauge("failed", func(v int64) { r.SetFailed(v%2 == 0); g.Failed = v%2 == 0 }),
		"id":      gauge("id", func(v int64) { r.SetID(v); id = v; ids[v], idSet = true, true }),
		"time": func(t *rapid.T) {
			at := em.When(t)
			c.Note("time(%d)", at.UnixMilli())
			r.SetTime(at)
			times[at.UnixMilli()] = true
			ts = stamp{}
			if !at.IsZero() {
				ts = stamp{set: true, exact: true, at: at}
			}
		},
		"finish": finish,
		"reset": func(t *rapid.T) {
			if rapid.Bool().Draw(t, "skip") {
				return
			}
			c.Note("Reset")
			within(c, "Reset", r.Reset)
			reset()
		},
	})
	finish(t)
	if ticks {
		c.Settled(goroutines, "a test of histograms that has ended")
		if n := len(rec.Samples()); n != emitted {
			c.Failf("%d samples after EndTest", n-emitted)
		}
	}
	if all > 0 {
		c.NonTrivial(fmt.Sprint(kind, interval, all, emitted, touched))
	}
}

// shared drives histogram recorders on several goroutines.
func shared(c *prop.C) {
	t := c.T
	kind := rapid.SampledFrom([]string{"histogram interval", "histogram interval", "histogram single", "histogram grouped"}).Draw(t, "kind")
	rec := &em.Rec{}
	goroutines := runtime.NumGoroutine()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	interval := rapid.SampledFrom([]time.Duration{50 * time.Millisecond, time.Hour}).Draw(t, "interval")
	var r events.Recorder
	switch kind {
	case "histogram interval":
		r = events.NewIntervalHistogramRecorder(ctx, rec, interval)
	case "histogram single":
		r = events.NewSynchronizedRecorder(events.NewSingleHistogramRecorder(rec))
	case "histogram grouped":
		r = events.NewSynchronizedRecorder(events.NewHistogramGroupedRecorder(rec, interval))
	}
	gs, each := rapid.IntRange(2, 8).Draw(t, "goroutines"), rapid.IntRange(1, 30).Draw(t, "each")
	c.Class(kind)
	c.Note("%s %v: %d goroutines of %d iterations", kind, interval, gs, each)
	c.Journal()
	rounds := rapid.IntRange(1, 2).Draw(t, "rounds")
	seen := 0
	for round := 0; round < rounds; round++ {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < gs; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < each; i++ {
					r.BeginIteration()
					r.IncOperations(3)
					r.IncSize(int64(g + i))
					r.IncError(1)
					r.IncIterations(2)
					switch i % 8 {
					case 0:
						r.SetState(9)
					case 1:
						r.SetWorkers(int64(gs))
					case 2:
						r.SetFailed(true)
					case 3:
						r.SetTotalDuration(time.Second)
					case 4:
						r.SetID(5)
					case 5:
						r.SetTime(time.Now())
					case 6:
						r.SetDuration(time.Second)
					}
					if i == 11 {
						time.Sleep(20 * time.Millisecond)
					}
					r.EndIteration(time.Second)
				}
			}()
		}
		close(start)
		within(c, "the iterations", wg.Wait)
		within(c, "EndTest", func() {
			if err := r.EndTest(); err != nil {
				c.Failf("EndTest: %v", err)
			}
		})
		samples := rec.Samples()[seen:]
		seen += len(samples)
		if kind == "histogram single" && len(samples) != 1 {
			c.Failf("%d samples", len(samples))
		}
		n := int64(gs * each)
		var want, sum hpoint
		for g := 0; g < gs; g++ {
			for i := 0; i < each; i++ {
				want.n.add(1, 1)
				want.n.add(2, 2)
				want.ops.add(3, 3)
				want.size.add(int64(g+i), int64(g+i))
				want.errs.add(1, 1)
				want.dur.add(int64(time.Second), int64(time.Second))
				if i%8 == 6 {
					want.dur.add(int64(time.Second), int64(time.Second))
				}
			}
		}
		for i, s := range samples {
			if kind != "histogram interval" && i < len(samples)-1 {
				continue // these are cumulative
			}
			p := s.Point
			for _, x := range []struct {
				h *hist
				g em.Hist
			}{{&sum.n, p.Number}, {&sum.ops, p.Operations}, {&sum.size, p.Size}, {&sum.errs, p.Errors}, {&sum.dur, p.Duration}} {
				if x.g.Count > 0 {
					x.h.n += x.g.Count
					x.h.lo += x.g.Mean * float64(x.g.Count)
					x.h.max.lo = max(x.h.max.lo, x.g.Max)
				}
			}
		}
		conv := func(h hist) em.Hist { return em.Hist{Count: h.n, Mean: h.lo / float64(h.n), Max: h.max.lo} }
		want.check(c, em.HDRPoint{Number: conv(sum.n), Operations: conv(sum.ops), Size: conv(sum.size), Errors: conv(sum.errs), Duration: conv(sum.dur)})
		c.Note("round %d: %d samples of %d iterations", round, len(samples), n)
	}
	if rec.Overlaps > 0 {
		c.Failf("%d calls overlapped in the collector", rec.Overlaps)
	}
	c.Settled(goroutines, "a test of histograms that has ended")
	c.NonTrivial(fmt.Sprint(kind, interval, gs, each, rounds))
}
