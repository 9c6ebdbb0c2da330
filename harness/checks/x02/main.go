// X02: collecting runtime metrics writes every sample once, in order.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
	"github.com/tychoish/birch/x/ftdc/metrics"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/fm"
	"verif/harness/prop"
)

const patience = 30 * time.Second

// load reads the samples of the output files.
func load(prefix string, limit int) (docs [][]bm.Field, err error) {
	files, _ := filepath.Glob(prefix + ".*")
	for i := range files {
		b, err := os.ReadFile(fmt.Sprintf("%s.%d", prefix, i))
		if err != nil {
			return nil, err
		}
		it := ftdc.ReadChunks(bytes.NewReader(b))
		for ch := range it.Iterator() {
			if ch.Size() > limit {
				return nil, fmt.Errorf("a chunk of %d samples, the limit is %d", ch.Size(), limit)
			}
			for d := range ch.StructuredIterator().Iterator() {
				fs, err := bm.FromDocErr(d)
				if err != nil {
					return nil, err
				}
				docs = append(docs, fs)
			}
		}
		if err := it.Close(); err != nil {
			return nil, err
		}
	}
	return docs, nil
}

func get(fs []bm.Field, path ...string) *bm.Node {
	for _, f := range fs {
		if f.K == path[0] {
			if len(path) == 1 {
				return f.V
			}
			return get(f.V.Kids, path[1:]...)
		}
	}
	return nil
}

func integer(n *bm.Node) int64 {
	switch {
	case n == nil:
		return -1 << 62
	case n.T == bm.Int32:
		return int64(int32(n.U))
	}
	return int64(n.U)
}

type custom struct {
	name  string
	docs  [][]bm.Field // what each call returns
	calls int
}

// collect runs a collection until its collectors have been called.
func collect(c *prop.C) {
	t := c.T
	dir, err := os.MkdirTemp("", "verif-x02-")
	if err != nil {
		panic(err)
	}
	defer func() { _ = os.RemoveAll(dir) }()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	opts := metrics.CollectOptions{
		OutputFilePrefix:   filepath.Join(dir, "out"),
		SampleCount:        rapid.SampledFrom([]int{10, 11, 20, 300}).Draw(t, "samples"),
		FlushInterval:      rapid.SampledFrom([]time.Duration{time.Hour, 2 * time.Millisecond, 9 * time.Millisecond}).Draw(t, "flush"),
		CollectionInterval: time.Millisecond,
		SkipSystem:         true,
		SkipProcess:        rapid.IntRange(0, 4).Draw(t, "process") > 0,
		SkipGolang:         false,
	}
	if !opts.SkipProcess {
		opts.SkipGolang = rapid.Bool().Draw(t, "without golang")
	}
	n := rapid.IntRange(0, 4).Draw(t, "collectors")
	rounds := rapid.IntRange(1, 25).Draw(t, "rounds")
	var mu sync.Mutex
	var customs []*custom
	var failAt = -1
	if n > 0 {
		opts.RunParallelCollectors = rapid.Bool().Draw(t, "parallel")
		if opts.RunParallelCollectors && rapid.IntRange(0, 3).Draw(t, "panic") == 0 {
			failAt = rapid.IntRange(0, rounds-1).Draw(t, "panic at")
		}
	}
	names := rapid.Permutation([]string{"zeta", "alpha", "runtime2", "Mid", "b"}).Draw(t, "names")[:n]
	for i, name := range names {
		k := &custom{name: name}
		shape := fm.Shape(t, fm.ShapeOpts{Min: 1, MaxLen: 3, MaxDepth: 2, Others: true})
		s := fm.NewStream(t, shape, false)
		for r := 0; r < rounds+1; r++ {
			if rapid.IntRange(0, 19).Draw(t, "another shape") == 0 {
				s = fm.NewStream(t, fm.Shape(t, fm.ShapeOpts{Min: 1, MaxLen: 3, MaxDepth: 2}), false)
			}
			k.docs = append(k.docs, s.Next())
		}
		customs = append(customs, k)
		opts.Collectors = append(opts.Collectors, metrics.CustomCollector{Name: name, Operation: func(context.Context) *birch.Document {
			mu.Lock()
			defer mu.Unlock()
			at := k.calls
			k.calls++
			if i == 0 && at == failAt {
				panic("collector panic")
			}
			if at >= rounds-1 {
				cancel()
			}
			return bm.ToDoc(k.docs[min(at, rounds)])
		}})
	}
	c.Class(fmt.Sprintf("parallel %v", opts.RunParallelCollectors))
	c.Note("%d collectors (parallel: %v) for %d rounds, panic at %d, %d samples, flush %v, process: %v, golang: %v", n, opts.RunParallelCollectors, rounds, failAt, opts.SampleCount, opts.FlushInterval, !opts.SkipProcess, !opts.SkipGolang)
	c.Journal()
	if n == 0 {
		time.AfterFunc(time.Duration(rounds)*time.Millisecond, cancel)
	}
	start := time.Now()
	goroutines := runtime.NumGoroutine()
	res := make(chan error, 1)
	go func() {
		var err error
		if p, stack := prop.Catch(func() { err = metrics.CollectRuntime(ctx, opts) }); p != nil {
			err = fmt.Errorf("panic: %v\n%s", p, stack)
		}
		res <- err
	}()
	select {
	case err = <-res:
	case <-time.After(patience):
		c.Failf("the collection did not end")
	}
	end := time.Now()
	c.Settled(goroutines, "a collection that has ended")
	c.Closed(dir, "a collection that has ended")
	want := -1
	if failAt >= 0 {
		if err == nil || strings.HasPrefix(err.Error(), "panic: ") {
			c.Failf("with a panic in a collector: %v", err)
		}
		want = failAt
	} else {
		if err != nil {
			c.Failf("collecting: %v", err)
		}
		for _, k := range customs {
			if want >= 0 && k.calls != want {
				c.Failf("collector %s was called %d times, others %d", k.name, k.calls, want)
			}
			want = k.calls
		}
	}
	docs, err := load(opts.OutputFilePrefix, opts.SampleCount)
	if err != nil {
		c.Failf("reading the output: %v", err)
	}
	if want >= 0 && len(docs) != want {
		c.Failf("%d samples, want %d", len(docs), want)
	}
	sort.Slice(customs, func(i, j int) bool { return customs[i].name < customs[j].name })
	last := start.UnixMilli()
	for i, d := range docs {
		rt := d
		if n > 0 {
			rt = nil
			var order []string
			for _, f := range d {
				order = append(order, f.K)
				if f.K == "runtime" {
					rt = f.V.Kids
				}
			}
			wantOrder := []string{"runtime"}
			for _, k := range customs {
				wantOrder = append(wantOrder, k.name)
			}
			if opts.RunParallelCollectors {
				sort.Strings(wantOrder)
			}
			if fmt.Sprint(order) != fmt.Sprint(wantOrder) {
				c.Failf("sample %d has %q, want %q", i, order, wantOrder)
			}
		}
		for _, k := range customs {
			got := get(d, k.name)
			want := fm.Prune(k.docs[min(i, rounds)])
			if got == nil || got.T != bm.Doc || !bm.FieldsEqual(fm.Prune(got.Kids), want) {
				c.Failf("sample %d of %s:\n got  %s\n want %s", i, k.name, got, bm.Show(want))
			}
		}
		if id, pid := integer(get(rt, "id")), integer(get(rt, "pid")); id != int64(i) || pid != int64(os.Getpid()) {
			c.Failf("sample %d has ID %d of process %d, want process %d", i, id, pid, os.Getpid())
		}
		ts := integer(get(rt, "ts"))
		if ts < last || ts > end.UnixMilli() {
			c.Failf("sample %d has the time %d, the last %d, the end was %d", i, ts, last, end.UnixMilli())
		}
		last = ts
		if (get(rt, "golang") != nil) == opts.SkipGolang || (get(rt, "process") != nil) == opts.SkipProcess || get(rt, "system") != nil {
			c.Failf("sample %d has %s", i, bm.Show(rt))
		}
		if !opts.SkipProcess && integer(get(rt, "process", "pid")) != int64(os.Getpid()) {
			c.Failf("sample %d has the process %s", i, get(rt, "process"))
		}
	}
	if len(docs) > 1 {
		c.NonTrivial(fmt.Sprint(len(docs), names, opts))
	}
}

// full runs a collection with one output file that cannot be written.
func full(c *prop.C) {
	t := c.T
	dir, err := os.MkdirTemp("", "verif-x02-")
	if err != nil {
		panic(err)
	}
	defer func() { _ = os.RemoveAll(dir) }()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	opts := metrics.CollectOptions{
		OutputFilePrefix:   filepath.Join(dir, "out"),
		SampleCount:        rapid.SampledFrom([]int{10, 20}).Draw(t, "samples"),
		FlushInterval:      rapid.SampledFrom([]time.Duration{time.Hour, 2 * time.Millisecond, 5 * time.Millisecond}).Draw(t, "flush"),
		CollectionInterval: time.Millisecond,
		SkipSystem:         true,
		SkipProcess:        true,
	}
	rounds := rapid.IntRange(1, 25).Draw(t, "rounds")
	calls := 0
	opts.Collectors = []metrics.CustomCollector{{Name: "calls", Operation: func(context.Context) *birch.Document {
		if calls++; calls >= rounds {
			cancel()
		}
		return birch.DC.Elements(birch.EC.Int("n", calls))
	}}}
	name := fmt.Sprintf("%s.%d", opts.OutputFilePrefix, rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "full"))
	if err := os.Symlink("/dev/full", name); err != nil {
		panic(err)
	}
	c.Note("%s is on a device without space, %d rounds, %d samples, flush %v", filepath.Base(name), rounds, opts.SampleCount, opts.FlushInterval)
	goroutines := runtime.NumGoroutine()
	res := make(chan error, 1)
	go func() {
		var err error
		if p, stack := prop.Catch(func() { err = metrics.CollectRuntime(ctx, opts) }); p != nil {
			err = fmt.Errorf("panic: %v\n%s", p, stack)
		}
		res <- err
	}()
	select {
	case err = <-res:
	case <-time.After(patience):
		c.Failf("the collection did not end")
	}
	c.Settled(goroutines, "a collection that has ended")
	c.Closed(dir, "a collection that has ended")
	c.Closed("/dev/full", "a collection that has ended")
	if err != nil && strings.HasPrefix(err.Error(), "panic: ") {
		c.Failf("%v", err)
	}
	_ = os.Remove(name)
	docs, lerr := load(opts.OutputFilePrefix, opts.SampleCount)
	if lerr != nil {
		c.Failf("reading the output: %v", lerr)
	}
	for i, d := range docs {
		if n := integer(get(d, "calls", "n")); n != int64(i+1) {
			c.Failf("sample %d is of round %d", i, n)
		}
	}
	if len(docs) > calls || (len(docs) == calls) != (err == nil) {
		c.Failf("%d samples of %d rounds were written, error: %v", len(docs), calls, err)
	}
	if err != nil {
		c.Class("failed")
		c.NonTrivial(fmt.Sprint(len(docs), calls, opts))
	}
}

// invalid passes options that cannot work.
func invalid(c *prop.C) {
	t := c.T
	dir, err := os.MkdirTemp("", "verif-x02-")
	if err != nil {
		panic(err)
	}
	defer func() { _ = os.RemoveAll(dir) }()
	opts := metrics.NewCollectOptions(filepath.Join(dir, "out"))
	opts.SkipSystem, opts.SkipProcess = true, true
	kind := rapid.IntRange(0, 6).Draw(t, "kind")
	switch kind {
	case 0:
		opts.FlushInterval = time.Duration(rapid.Int64Range(-5, int64(time.Millisecond)-1).Draw(t, "flush"))
	case 1:
		opts.CollectionInterval = time.Duration(rapid.Int64Range(-5, int64(time.Millisecond)-1).Draw(t, "collection"))
	case 2:
		opts.CollectionInterval = opts.FlushInterval + time.Duration(rapid.Int64Range(1, 1000).Draw(t, "more"))
	case 3:
		opts.SampleCount = rapid.IntRange(-3, 9).Draw(t, "samples")
	case 4:
		opts.SkipGolang = true
	case 5:
		opts.RunParallelCollectors = true
		if rapid.Bool().Draw(t, "no collectors") {
			opts.Collectors = metrics.Collectors{}
		}
	case 6:
		opts.OutputFilePrefix = filepath.Join(dir, "missing", "out")
	}
	c.Note("%+v", opts)
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	if err := metrics.CollectRuntime(ctx, opts); err == nil {
		c.Failf("invalid options accepted: %+v", opts)
	}
	if kind < 6 {
		if files, _ := filepath.Glob(filepath.Join(dir, "*")); len(files) > 0 {
			c.Failf("invalid options left %v", files)
		}
		if err := opts.Validate(); err == nil || errors.Is(err, os.ErrNotExist) {
			c.Failf("invalid options are valid")
		}
	}
	c.NonTrivial(fmt.Sprint(kind, opts))
}

func main() {
	prop.Main(prop.Spec{
		ID:   "X02",
		Rule: "collect: two or more samples; invalid: all",
		Assumptions: []string{
			"custom collectors return documents that do not change afterwards, with at least one metric",
			"what the runtime and process sections measure is compared in X03; here they are identified by ID, process and time",
		},
		Subs: []prop.Sub{
			{Name: "collect", Quick: 500, Thorough: 12000, Shards: 4, HangIsViolation: true, Fn: collect},
			{Name: "full", Quick: 300, Thorough: 8000, Shards: 2, HangIsViolation: true, Fn: full},
			{Name: "invalid", Quick: 500, Thorough: 10000, HangIsViolation: true, Fn: invalid},
		},
	})
}
