// F08: synchronised collectors are linearizable under concurrency.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/fm"
	"verif/harness/prop"
)

// patience bounds the waits for things that must happen.
const patience = 60 * time.Second

// sample is what goroutine g adds as its i-th document.
func sample(g, i int, other bool) []bm.Field {
	fs := []bm.Field{bm.F("g", bm.NInt64(int64(g))), bm.F("i", bm.NInt64(int64(i)))}
	if other {
		fs = append(fs, bm.F("other", bm.NBool(true)))
	}
	return fs
}

// split lists the samples in the data, of goroutines and numbers.
func split(b []byte, raw bool) (out [][2]int, err error) {
	get := func(fs []bm.Field) error {
		if len(fs) < 2 || fs[0].K != "g" || fs[1].K != "i" {
			return fmt.Errorf("unknown document %s", bm.Show(fs))
		}
		out = append(out, [2]int{int(int64(fs[0].V.U)), int(int64(fs[1].V.U))})
		return nil
	}
	if raw {
		docs, err := fm.SplitDocs(b)
		for _, d := range docs {
			fs, err := bm.DecodeDoc(d)
			if err != nil {
				return nil, err
			}
			if err := get(fs); err != nil {
				return nil, err
			}
		}
		return out, err
	}
	it := ftdc.ReadMetrics(bytes.NewReader(b))
	for d := range it.Iterator() {
		fs, err := bm.FromDocErr(d)
		if err == nil {
			err = get(fs)
		}
		if err != nil {
			return nil, err
		}
	}
	return out, it.Close()
}

// ordered checks that each goroutine's samples are its first ones in order,
// and returns how many there are of each.
func ordered(samples [][2]int, workers int) ([]int, error) {
	next := make([]int, workers)
	for _, s := range samples {
		if s[0] < 0 || s[0] >= workers || s[1] != next[s[0]] {
			return nil, fmt.Errorf("sample %d of goroutine %d, want its %v; all: %v", s[1], s[0], next, samples)
		}
		next[s[0]]++
	}
	return next, nil
}

// sink is a writer that can be used concurrently.
type sink struct {
	mu sync.Mutex
	b  []byte
}

func (s *sink) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.b = append(s.b, p...)
	return len(p), nil
}

type op struct {
	what  byte // a add, i info, r resolve, f flush, m metadata, p pause
	other bool
}

func concurrent(c *prop.C) {
	t := c.T
	out := &sink{}
	inner := rapid.SampledFrom([]string{"base", "batch", "dynamic", "streaming", "streaming dynamic", "uncompressed", "streaming uncompressed"}).Draw(t, "inner")
	size := rapid.SampledFrom([]int{1, 2, 3, 10}).Draw(t, "size")
	var coll ftdc.Collector
	raw, shapes, streaming := false, false, false
	switch inner {
	case "base":
		coll = ftdc.NewBaseCollector(1000)
	case "batch":
		coll = ftdc.NewBatchCollector(size)
	case "dynamic":
		coll, shapes = ftdc.NewDynamicCollector(size), true
	case "streaming":
		coll, streaming = ftdc.NewStreamingCollector(size, out), true
	case "streaming dynamic":
		coll, shapes, streaming = ftdc.NewStreamingDynamicCollector(size, out), true, true
	case "uncompressed":
		coll, raw = ftdc.NewUncompressedCollectorBSON(1000), true
	case "streaming uncompressed":
		coll, shapes, streaming, raw = ftdc.NewStreamingDynamicUncompressedCollectorBSON(size, out), true, true, true
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	kind := rapid.SampledFrom([]string{"synchronized", "buffered", "buffered synchronized", "sampling synchronized"}).Draw(t, "kind")
	buffered := false
	switch kind {
	case "synchronized":
		coll = ftdc.NewSynchronizedCollector(coll)
	case "buffered":
		coll, buffered = ftdc.NewBufferedCollector(ctx, rapid.IntRange(0, 5).Draw(t, "buffer"), coll), true
	case "buffered synchronized":
		coll, buffered = ftdc.NewBufferedCollector(ctx, rapid.IntRange(0, 5).Draw(t, "buffer"), ftdc.NewSynchronizedCollector(coll)), true
	case "sampling synchronized":
		coll = ftdc.NewSynchronizedCollector(ftdc.NewSamplingCollector(0, coll))
	}
	c.Class(kind)
	c.Class(inner)
	workers := rapid.IntRange(2, 5).Draw(t, "goroutines")
	metadata := !raw && rapid.IntRange(0, 2).Draw(t, "metadata") == 0
	kinds := []byte("aaaaaaairp")
	flushes := rapid.Bool().Draw(t, "flushes")
	if flushes {
		kinds = append(kinds, 'f')
	}
	if metadata {
		kinds = append(kinds, 'm')
	}
	plan := make([][]op, workers)
	for w := range plan {
		n := rapid.IntRange(1, 25).Draw(t, "operations")
		for i := 0; i < n; i++ {
			plan[w] = append(plan[w], op{rapid.SampledFrom(kinds).Draw(t, "op"), shapes && rapid.IntRange(0, 4).Draw(t, "other") == 0})
		}
	}
	stop := -1
	if buffered && rapid.IntRange(0, 2).Draw(t, "cancel") == 0 {
		stop = rapid.IntRange(0, 20).Draw(t, "after")
		c.Class("cancelled")
	}
	c.Note("%s %s, size %d, plan %v, cancelled after %d", kind, inner, size, plan, stop)
	c.Journal()

	var started, done atomic.Int64 // adds
	added := make([]int, workers)  // successful adds of each
	errs := make([]error, workers)
	var wg sync.WaitGroup
	fail := func(w int, format string, args ...any) {
		if errs[w] == nil {
			errs[w] = fmt.Errorf(format, args...)
		}
	}
	for w := range plan {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					fail(w, "panic: %v", r)
				}
			}()
			for _, o := range plan[w] {
				switch o.what {
				case 'a':
					fs := sample(w, added[w], o.other)
					doc := bm.ToDoc(fs)
					if int(started.Add(1)) == stop {
						cancel()
					}
					err := coll.Add(doc)
					if err == nil {
						added[w]++
						done.Add(1)
						doc.Set(birch.EC.Int64("i", -1)) // it was collected
					} else if ctx.Err() == nil || !errors.Is(err, context.Canceled) {
						fail(w, "add: %v", err)
					}
				case 'i':
					low := done.Load()
					n := int64(coll.Info().SampleCount)
					if high := started.Load(); n > high || n < low && !flushes && !streaming {
						fail(w, "%d samples with %d to %d added", n, low, high)
					}
				case 'r':
					mine := added[w]
					b, err := coll.Resolve()
					if err != nil {
						continue // may be empty
					}
					if flushes || streaming {
						if _, err := split(b, raw); err != nil {
							fail(w, "resolved: %v", err)
						}
						continue
					}
					samples, err := split(b, raw)
					if err != nil {
						fail(w, "resolved: %v", err)
						continue
					}
					next, err := ordered(samples, workers)
					if err != nil {
						fail(w, "resolved: %v", err)
					} else if next[w] != mine {
						fail(w, "resolved %d of my samples, added %d", next[w], mine)
					}
				case 'f':
					if err := ftdc.FlushCollector(coll, out); err != nil {
						fail(w, "flush: %v", err)
					}
				case 'm':
					if err := coll.SetMetadata(birch.DC.Elements(birch.EC.Int64("w", int64(w)))); err != nil {
						fail(w, "metadata: %v", err)
					}
				case 'p':
					runtime.Gosched()
				}
			}
		}()
	}
	finished := make(chan struct{})
	go func() { wg.Wait(); close(finished) }()
	select {
	case <-finished:
	case <-time.After(patience):
		c.Failf("deadlock")
	}
	for w, err := range errs {
		if err != nil {
			c.Failf("goroutine %d: %v", w, err)
		}
	}
	pending := coll.Info().SampleCount
	var last []byte
	if pending > 0 {
		var err error
		if last, err = coll.Resolve(); err != nil {
			c.Failf("resolve of %d samples: %v", pending, err)
		}
	}
	if s, err := split(last, raw); err != nil || len(s) != pending {
		c.Failf("resolved %d samples of %d: %v", len(s), pending, err)
	}
	samples, err := split(append(bytes.Clone(out.b), last...), raw)
	if err != nil {
		c.Failf("everything: %v", err)
	}
	next, err := ordered(samples, workers)
	if err != nil {
		c.Failf("everything: %v", err)
	}
	for w := range next {
		if next[w] != added[w] {
			c.Failf("%d samples of goroutine %d, which added %d", next[w], w, added[w])
		}
	}
	coll.Reset()
	if n := coll.Info().SampleCount; n != 0 {
		c.Failf("%d samples after a reset", n)
	}
	if done.Load() > 4 {
		c.NonTrivial(fmt.Sprint(kind, inner, size, stop, plan))
	}
}

// refused documents do not disturb a buffered collector.
func refused(c *prop.C) {
	t := c.T
	goroutines := runtime.NumGoroutine()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	size := rapid.IntRange(1, 4).Draw(t, "size")
	coll := ftdc.NewBufferedCollector(ctx, rapid.IntRange(0, 3).Draw(t, "buffer"), ftdc.NewBaseCollector(size))
	n := rapid.IntRange(0, 8).Draw(t, "adds")
	bad := 0
	for i := 0; i < n; i++ {
		if rapid.IntRange(0, 3).Draw(t, "invalid") == 0 {
			bad++
			if err := coll.Add(nil); err == nil {
				c.Failf("nil was accepted")
			}
		}
		if err := coll.Add(bm.ToDoc(sample(0, i, false))); err != nil {
			c.Failf("add: %v", err)
		}
	}
	kept := min(n, size+1)
	if got := coll.Info().SampleCount; got != kept {
		c.Failf("%d samples, want %d", got, kept)
	}
	b, err := coll.Resolve()
	switch {
	case n == 0 || n > kept:
		if err == nil {
			c.Failf("%d samples of %d resolved without an error", kept, n)
		}
	case err != nil:
		c.Failf("resolve: %v", err)
	default:
		if s, err := split(b, false); err != nil || len(s) != n {
			c.Failf("resolved %d of %d: %v", len(s), n, err)
		}
	}
	if rapid.Bool().Draw(t, "cancel") {
		cancel()
		time.Sleep(time.Microsecond)
	}
	coll.Reset()
	if err := coll.Add(bm.ToDoc(sample(0, 0, false))); err == nil {
		if b, err := coll.Resolve(); err != nil {
			c.Failf("resolve after a reset: %v", err)
		} else if s, err := split(b, false); err != nil || len(s) != 1 {
			c.Failf("%d samples after a reset: %v", len(s), err)
		}
	} else if ctx.Err() == nil {
		c.Failf("add after a reset: %v", err)
	}
	cancel()
	c.Settled(goroutines, "a cancelled collector")
	if n > kept || bad > 0 {
		c.NonTrivial(fmt.Sprint(size, n, bad))
	}
}

func main() {
	prop.Main(prop.Spec{
		ID:   "F08",
		Rule: "five or more samples added by two or more goroutines; distinct by kind and plan",
		Assumptions: []string{
			"schedules are sampled by the Go scheduler under the race detector, not enumerated",
			"samples that a buffered collector accepts and the wrapped one refuses are reported by resolving, until a reset",
		},
		Subs: []prop.Sub{
			{Name: "concurrent", Quick: 1600, Thorough: 60000, Shards: 4, HangIsViolation: true, Fn: concurrent},
			{Name: "refused", Quick: 1000, Thorough: 30000, Shards: 1, HangIsViolation: true, Fn: refused},
		},
	})
}
