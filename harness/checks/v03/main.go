// V03: event collectors keep exactly the events their policy names.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/tychoish/birch/x/ftdc"
	"github.com/tychoish/birch/x/ftdc/events"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/em"
	"verif/harness/fm"
	"verif/harness/prop"
)

type policy struct {
	kind    string
	n       int
	percent int
	dur     time.Duration
}

func genPolicy(t *rapid.T) policy {
	p := policy{kind: rapid.SampledFrom([]string{"basic", "passthrough", "sampling", "sampling", "random", "interval"}).Draw(t, "kind")}
	switch p.kind {
	case "sampling":
		p.n = rapid.SampledFrom([]int{1, 2, 3, 4, 7, 100, 0, -3}).Draw(t, "n")
	case "random":
		p.percent = rapid.SampledFrom([]int{101, 1000, 0, -5, 1, 50, 99}).Draw(t, "percent")
	case "interval":
		p.dur = rapid.SampledFrom([]time.Duration{0, time.Hour, 2 * time.Millisecond, -1}).Draw(t, "interval")
	}
	return p
}

func (p policy) make(fc ftdc.Collector) events.Collector {
	switch p.kind {
	case "basic":
		return events.NewBasicCollector(fc)
	case "passthrough":
		return events.NewPassthroughCollector(fc)
	case "sampling":
		return events.NewSamplingCollector(fc, p.n)
	case "random":
		return events.NewRandomSamplingCollector(fc, true, p.percent)
	}
	return events.NewIntervalCollector(fc, p.dur)
}

const (
	no = iota
	yes
	either
)

// history drives a collector with events and compares what it persists.
func history(c *prop.C) {
	t := c.T
	p := genPolicy(t)
	rec := &em.Rec{}
	coll := p.make(rec)
	if rapid.Bool().Draw(t, "synchronized") {
		coll = events.NewSynchronizedCollector(coll)
	}
	c.Class(p.kind)
	c.Note("%+v", p)
	var sum events.Performance
	var count, persisted, metadata, resolves, resets int
	var last [2]time.Time
	reused := em.GenPerf(t)
	t.Repeat(map[string]func(*rapid.T){
		"event": func(t *rapid.T) {
			ev := em.GenPerf(t)
			if rapid.IntRange(0, 2).Draw(t, "reuse") == 0 {
				if rapid.Bool().Draw(t, "again") {
					ev = reused
				} else {
					*reused = *ev
					ev = reused
				}
			}
			if rapid.Bool().Draw(t, "without ID") {
				ev.ID = 0
			}
			orig := *ev
			fail := rapid.IntRange(0, 7).Draw(t, "fail") == 0
			if fail {
				rec.SetFail(1)
			}
			if p.dur == 2*time.Millisecond {
				time.Sleep(time.Duration(rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "sleep")) * time.Millisecond)
			}
			t0 := time.Now()
			err := coll.AddEvent(ev)
			t1 := time.Now()
			rec.SetFail(0)
			if *ev != orig {
				c.Failf("the event became %+v, it was %+v", *ev, orig)
			}
			if count == 0 || p.kind == "passthrough" {
				sum = orig
			} else {
				em.Sum(&sum, orig)
			}
			want := yes
			switch p.kind {
			case "sampling":
				if p.n > 1 && count%p.n != 0 {
					want = no
				}
			case "random":
				if p.percent <= 0 {
					want = no
				} else if p.percent < 100 {
					want = either
				}
			case "interval":
				if count > 0 {
					switch {
					case t0.Sub(last[1]) >= p.dur:
					case t1.Sub(last[0]) < p.dur:
						want = no
					default:
						want = either
					}
				}
			}
			count++
			got := rec.Samples()[persisted:]
			c.Note("event %+v: %d persisted, want %d; fail: %v", orig, len(got), want, fail)
			if len(got) > 1 || want == yes && len(got) == 0 || want == no && len(got) > 0 {
				c.Failf("event %d: %d samples persisted", count, len(got))
			}
			if len(got) == 0 {
				if err != nil {
					c.Failf("event %d: %v", count, err)
				}
			} else {
				last = [2]time.Time{t0, t1}
				persisted++
				if fail != errors.Is(err, em.ErrRec) || !fail && err != nil {
					c.Failf("event %d: %v, failing: %v", count, err, fail)
				}
				if want := em.PerfFields(&sum); !bm.FieldsEqual(got[0].Fields, want) {
					c.Failf("event %d persisted as\n %s want\n %s", count, bm.Show(got[0].Fields), bm.Show(want))
				}
			}
			if rapid.Bool().Draw(t, "change afterwards") {
				*ev = *em.GenPerf(t)
			}
		},
		"nil": func(t *rapid.T) {
			c.NoPanic("nil event", func() {
				if err := coll.AddEvent(nil); err == nil {
					c.Failf("nil event accepted")
				}
			})
		},
		"other": func(t *rapid.T) {
			in := rapid.SampledFrom([]any{nil, &events.Performance{ID: 7}, map[string]string{"a": "b"}, bm.ToDoc(em.PerfFields(&sum))}).Draw(t, "in")
			if err := coll.Add(in); err != nil {
				c.Failf("Add: %v", err)
			}
		},
		"metadata": func(t *rapid.T) {
			metadata++
			if err := coll.SetMetadata(metadata); err != nil {
				c.Failf("metadata: %v", err)
			}
		},
		"resolve": func(t *rapid.T) {
			resolves++
			if b, err := coll.Resolve(); err != nil || string(b) != "resolved" {
				c.Failf("resolved %q: %v", b, err)
			}
		},
		"reset": func(t *rapid.T) {
			resets++
			coll.Reset()
		},
		"": func(t *rapid.T) {
			if n := len(rec.Samples()); n != persisted || coll.Info().SampleCount != n {
				c.Failf("%d samples persisted, want %d", n, persisted)
			}
			if len(rec.Metadata) != metadata || rec.Resolves != resolves || rec.Resets != resets {
				c.Failf("%d metadata, %d resolved, %d reset; want %d, %d, %d", len(rec.Metadata), rec.Resolves, rec.Resets, metadata, resolves, resets)
			}
			if metadata > 0 && rec.Metadata[metadata-1] != metadata {
				c.Failf("metadata %v", rec.Metadata)
			}
		},
	})
	if count > 2 {
		c.NonTrivial(fmt.Sprintf("%+v %d %d %+v", p, count, persisted, sum))
	}
}

// encoded collects events into real collectors and decodes the metrics.
func encoded(c *prop.C) {
	t := c.T
	p := policy{kind: rapid.SampledFrom([]string{"basic", "passthrough", "sampling"}).Draw(t, "kind"), n: rapid.IntRange(1, 4).Draw(t, "n")}
	size := rapid.SampledFrom([]int{1, 3, 10, 1000}).Draw(t, "size")
	sink := &fm.Sink{}
	var fc ftdc.Collector
	stream := rapid.Bool().Draw(t, "streaming")
	if stream {
		fc = ftdc.NewStreamingDynamicCollector(size, sink)
	} else {
		fc = ftdc.NewDynamicCollector(size)
	}
	coll := p.make(fc)
	var docs [][]bm.Field
	var sum events.Performance
	n := rapid.IntRange(1, 25).Draw(t, "events")
	c.Note("%+v, %d events, chunks of %d", p, n, size)
	for i := 0; i < n; i++ {
		ev := em.GenPerf(t)
		if i == 0 || p.kind == "passthrough" {
			sum = *ev
		} else {
			em.Sum(&sum, *ev)
		}
		if err := coll.AddEvent(ev); err != nil {
			c.Failf("event %d: %v", i, err)
		}
		if p.kind != "sampling" || i%p.n == 0 {
			docs = append(docs, em.PerfFields(&sum))
		}
		*ev = events.Performance{}
	}
	if stream {
		if err := ftdc.FlushCollector(coll, sink); err != nil {
			c.Failf("flush: %v", err)
		}
	} else {
		b, err := coll.Resolve()
		if err != nil {
			c.Failf("resolve: %v", err)
		}
		sink.Data = b
	}
	if err := fm.Check(bytes.NewReader(sink.Data), docs, size, nil); err != nil {
		c.Failf("%v", err)
	}
	if n > 2 {
		c.NonTrivial(sink.Data)
	}
}

// rates compares random sampling with its percentage.
func rates(c *prop.C) {
	t := c.T
	percent := rapid.IntRange(1, 99).Draw(t, "percent")
	rec := &em.Rec{}
	coll := events.NewRandomSamplingCollector(rec, rapid.Bool().Draw(t, "sum all"), percent)
	const n = 3000
	for i := 0; i < n; i++ {
		if err := coll.AddEvent(&events.Performance{Counters: events.PerformanceCounters{Operations: 1}}); err != nil {
			c.Failf("%v", err)
		}
	}
	got := rec.Samples()
	c.Note("%d of %d events at %d%%", len(got), n, percent)
	// nine standard deviations at most
	if d := float64(len(got))/n*100 - float64(percent); d > 9 || d < -9 {
		c.Failf("%d of %d events persisted at %d percent", len(got), n, percent)
	}
	c.NonTrivial(fmt.Sprint(percent, len(got)))
}

// concurrent adds events on several goroutines.
func concurrent(c *prop.C) {
	t := c.T
	p := policy{kind: rapid.SampledFrom([]string{"basic", "passthrough", "sampling", "interval", "random"}).Draw(t, "kind"), percent: 1000,
		n: rapid.IntRange(1, 3).Draw(t, "n")}
	rec := &em.Rec{}
	if rapid.IntRange(0, 3).Draw(t, "slow") == 0 {
		rec.SetDelay(50 * time.Microsecond)
	}
	coll := events.NewSynchronizedCollector(p.make(rec))
	gs, each := rapid.IntRange(2, 8).Draw(t, "goroutines"), rapid.IntRange(1, 30).Draw(t, "each")
	c.Note("%+v: %d goroutines of %d events", p, gs, each)
	c.Journal()
	var wg sync.WaitGroup
	start := make(chan struct{})
	errs := make(chan error, gs*each+gs)
	for g := 0; g < gs; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i := 0; i < each; i++ {
				ev := &events.Performance{ID: int64(g + 1), Counters: events.PerformanceCounters{Number: 1, Size: int64(g*1000 + i + 1)}}
				if err := coll.AddEvent(ev); err != nil {
					errs <- err
				}
				switch {
				case i%7 == 3:
					_ = coll.SetMetadata(g)
				case i%7 == 4:
					_, _ = coll.Resolve()
				case i%7 == 5:
					coll.Reset()
				case i%7 == 6:
					_ = coll.Add(nil)
				case i%3 == 0:
					_ = coll.Info()
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	close(errs)
	for err := range errs {
		c.Failf("%v", err)
	}
	if rec.Overlaps > 0 {
		c.Failf("%d calls overlapped in the collector", rec.Overlaps)
	}
	got := rec.Samples()
	total := gs * each
	want := total
	if p.kind == "sampling" {
		want = (total + p.n - 1) / p.n
	}
	if len(got) != want {
		c.Failf("%d samples, want %d", len(got), want)
	}
	var num, size int64
	seen := map[int64]bool{}
	next := make([]int64, gs)
	for i, s := range got {
		cs := s.Fields[2].V.Kids
		n, z := int64(cs[0].V.U), int64(cs[2].V.U)
		step := 1
		switch p.kind {
		case "passthrough":
			num, size = 0, 0
		case "sampling":
			if step = p.n; i == 0 {
				step = 1
			}
		}
		if n-num != int64(step) {
			c.Failf("sample %d counts %d events after %d", i, n, num)
		}
		if step == 1 {
			id := z - size - 1
			g := id / 1000
			if id < 0 || g >= int64(gs) || seen[id] || next[g] > id%1000 {
				c.Failf("sample %d is of event %d", i, id)
			}
			if p.kind != "sampling" && (next[g] != id%1000 || int64(s.Fields[1].V.U) != g+1) {
				c.Failf("sample %d of goroutine %d is event %d, want %d; its ID is %s", i, g, id%1000, next[g], s.Fields[1].V)
			}
			seen[id] = true
			next[g] = id%1000 + 1
		}
		num, size = n, z
	}
	c.NonTrivial(fmt.Sprint(p, gs, each))
}

// counting is a collector that keeps the numbers of operations of its samples.
type counting struct {
	ftdc.Collector
	ops []int64
}

func (c *counting) Add(in any) error {
	c.ops = append(c.ops, in.(*events.Performance).Counters.Operations)
	return nil
}

// long drives a collector with very many events.
func long(c *prop.C) {
	t := c.T
	p := policy{kind: rapid.SampledFrom([]string{"basic", "passthrough", "sampling", "sampling", "interval"}).Draw(t, "kind"), dur: time.Hour}
	p.n = rapid.OneOf(rapid.IntRange(1, 20), rapid.IntRange(1, 1000), rapid.IntRange(1, 70000), rapid.SampledFrom([]int{255, 256, 257, 32767, 32768, 65535, 65536, 65537})).Draw(t, "n")
	fc := &counting{}
	coll := p.make(fc)
	if rapid.IntRange(0, 3).Draw(t, "synchronized") == 0 {
		coll = events.NewSynchronizedCollector(coll)
	}
	n := rapid.OneOf(rapid.IntRange(1000, 10000), rapid.IntRange(60000, 300000)).Draw(t, "events")
	step := rapid.Int64Range(1, 1<<40).Draw(t, "step")
	c.Class(p.kind)
	c.Note("%+v: %d events", p, n)
	c.Journal()
	var sum int64
	var want []int64
	for i := 0; i < n; i++ {
		ev := &events.Performance{Counters: events.PerformanceCounters{Operations: step + int64(i)}}
		if err := coll.AddEvent(ev); err != nil {
			c.Failf("event %d: %v", i, err)
		}
		sum += step + int64(i)
		if p.kind == "sampling" && i%p.n != 0 || p.kind == "interval" && i > 0 {
			continue
		}
		if p.kind == "passthrough" {
			want = append(want, step+int64(i))
		} else {
			want = append(want, sum)
		}
	}
	if len(fc.ops) != len(want) {
		c.Failf("%d samples, want %d", len(fc.ops), len(want))
	}
	for i := range want {
		if fc.ops[i] != want[i] {
			c.Failf("sample %d has %d operations, want %d", i, fc.ops[i], want[i])
		}
	}
	if len(want) > 1 {
		c.NonTrivial(fmt.Sprint(p, n, step))
	}
}

func main() {
	prop.Main(prop.Spec{
		ID:   "V03",
		Rule: "history: three or more events; encoded: three or more; long: two or more samples; rates and concurrent: all",
		Assumptions: []string{
			"whether an event falls into the interval is left open where the clock readings around the calls do not tell",
			"random sampling is compared within 9 percentage points over 3000 events",
		},
		Subs: []prop.Sub{
			{Name: "history", Quick: 4000, Thorough: 150000, Shards: 4, Steps: 20, HangIsViolation: true, Fn: history},
			{Name: "encoded", Quick: 1500, Thorough: 50000, Shards: 2, HangIsViolation: true, Fn: encoded},
			{Name: "long", Quick: 120, Thorough: 4000, Shards: 2, HangIsViolation: true, Fn: long},
			{Name: "rates", Quick: 30, Thorough: 600, HangIsViolation: true, Fn: rates},
			{Name: "concurrent", Quick: 1500, Thorough: 40000, Shards: 2, HangIsViolation: true, Fn: concurrent},
		},
	})
}
