// F03: batch and streaming collectors lose and duplicate nothing.
package main

import (
	"bytes"
	"context"
	"fmt"

	"github.com/tychoish/birch/x/ftdc"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/fm"
	"verif/harness/prop"
)

func history(c *prop.C) {
	t := c.T
	size := rapid.SampledFrom([]int{1, 2, 3, 4, 7, 10, 50}).Draw(t, "size")
	shape := fm.Shape(t, fm.ShapeOpts{Others: rapid.Bool().Draw(t, "others"), Min: rapid.IntRange(0, 1).Draw(t, "min"), MaxLen: 3})
	stream := fm.NewStream(t, shape, true)
	sink := &fm.Sink{}
	var coll ftdc.Collector
	kind := rapid.SampledFrom([]string{"base", "batch", "dynamic", "streaming", "streaming dynamic", "sampling", "synchronized", "buffered"}).Draw(t, "collector")
	c.Class(kind)
	limit := size
	streaming := false
	switch kind {
	case "base":
		coll = ftdc.NewBaseCollector(size)
		limit = size + 1 // the reference document doesn't count
	case "batch":
		coll = ftdc.NewBatchCollector(size)
	case "dynamic":
		coll = ftdc.NewDynamicCollector(size)
	case "streaming":
		coll, streaming = ftdc.NewStreamingCollector(size, sink), true
	case "streaming dynamic":
		coll, streaming = ftdc.NewStreamingDynamicCollector(size, sink), true
	case "sampling":
		coll = ftdc.NewSamplingCollector(0, ftdc.NewBatchCollector(size))
	case "synchronized":
		coll, streaming = ftdc.NewSynchronizedCollector(ftdc.NewStreamingCollector(size, sink)), true
	case "buffered":
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		coll, streaming = ftdc.NewBufferedCollector(ctx, rapid.IntRange(0, 4).Draw(t, "buffer"), ftdc.NewStreamingDynamicCollector(size, sink)), true
	}
	c.Note("%s collector of %d", kind, size)
	var written, pending [][]bm.Field // what must be in the sink, and in the collector
	ops, added := 0, 0
	add := func(t *rapid.T) {
		d := stream.Next()
		c.Note("add %s", bm.Show(d))
		ops++
		err := coll.Add(fm.NewInput(t, d).Value)
		if kind == "base" && len(pending) == limit {
			if err == nil {
				c.Failf("added to a full collector")
			}
			return
		}
		if err != nil {
			c.Failf("add: %v", err)
		}
		added++
		pending = append(pending, d)
		if streaming {
			// what was flushed during the add is known from the sink
			switch n := coll.Info().SampleCount; {
			case n == len(pending) && n <= size:
			case n == 1 && len(pending) == size+1, n == 0 && len(pending) == size:
				written = append(written, pending[:size]...)
				pending = pending[size:]
			default:
				c.Failf("%d samples after adding to %d of at most %d", n, len(pending)-1, size)
			}
		}
	}
	t.Repeat(map[string]func(*rapid.T){
		"add": add,
		"add more": func(t *rapid.T) {
			for i := rapid.IntRange(1, 2*size).Draw(t, "n"); i > 0; i-- {
				add(t)
			}
		},
		"flush": func(t *rapid.T) {
			c.Note("flush")
			ops++
			n := sink.Writes
			if err := ftdc.FlushCollector(coll, sink); err != nil {
				c.Failf("flush: %v", err)
			}
			if len(pending) == 0 && sink.Writes != n {
				c.Failf("an empty collector was written")
			}
			written = append(written, pending...)
			pending = nil
		},
		"failing flush": func(t *rapid.T) {
			if len(pending) == 0 {
				t.Skip()
			}
			c.Note("fail to flush")
			ops++
			sink.Fail = rapid.IntRange(1, 3).Draw(t, "how")
			if err := ftdc.FlushCollector(coll, sink); err == nil {
				c.Failf("flush to a failing writer succeeded")
			}
			sink.Fail = 0
		},
		"failing add": func(t *rapid.T) {
			if !streaming || kind == "buffered" || len(pending) != size {
				t.Skip()
			}
			c.Note("fail to write while adding")
			ops++
			sink.Fail = rapid.IntRange(1, 3).Draw(t, "how")
			if err := coll.Add(fm.NewInput(t, stream.Next()).Value); err == nil {
				c.Failf("add succeeded although nothing was written")
			}
			sink.Fail = 0
		},
		"reset": func(t *rapid.T) {
			if rapid.IntRange(0, 3).Draw(t, "really") > 0 {
				return
			}
			c.Note("reset")
			ops++
			coll.Reset()
			pending = nil
		},
		"resolve": func(t *rapid.T) {
			c.Note("resolve")
			ops++
			b, err := coll.Resolve()
			if len(pending) == 0 {
				if err == nil {
					c.Failf("resolved an empty collector to %d bytes", len(b))
				}
				return
			}
			if err != nil {
				c.Failf("resolve: %v", err)
			}
			if err := fm.Check(bytes.NewReader(b), pending, limit, nil); err != nil {
				c.Failf("resolved: %v", err)
			}
		},
		"": func(t *rapid.T) {
			info := coll.Info()
			if info.SampleCount != len(pending) {
				c.Failf("%d samples, want %d", info.SampleCount, len(pending))
			}
			if len(pending) == 0 && info.MetricsCount != 0 {
				c.Failf("%d metrics without samples", info.MetricsCount)
			}
			if m := len(fm.Flatten(shape)); len(pending) > 0 && (info.MetricsCount < m || m > 0 && info.MetricsCount%m != 0 || len(pending) == 1 && info.MetricsCount != m) {
				c.Failf("%d metrics, the samples have %d", info.MetricsCount, m)
			}
			if err := fm.Check(bytes.NewReader(sink.Data), written, limit, nil); err != nil {
				c.Failf("written: %v", err)
			}
		},
	})
	if added > 2 && ops > added {
		c.NonTrivial(fmt.Sprint(kind, size, ops, added, bm.Show(shape)))
	}
}

// writer is the history of a writer of documents.
func writer(c *prop.C) {
	t := c.T
	size := rapid.SampledFrom([]int{1, 2, 3, 4, 10}).Draw(t, "size")
	shapes := []*fm.Stream{}
	for i := rapid.IntRange(1, 3).Draw(t, "shapes"); i > 0; i-- {
		shapes = append(shapes, fm.NewStream(t, fm.Shape(t, fm.ShapeOpts{Others: true, MaxLen: 3}), true))
	}
	sink := &fm.Sink{}
	w := ftdc.NewWriterCollector(size, sink)
	var docs [][]bm.Field
	bad := 0
	for i := rapid.IntRange(0, 30).Draw(t, "n"); i > 0; i-- {
		d := rapid.SampledFrom(shapes).Draw(t, "shape").Next()
		b := bm.EncodeFields(d)
		if rapid.IntRange(0, 9).Draw(t, "bad") == 0 {
			bad++
			b = b[:rapid.IntRange(0, len(b)-1).Draw(t, "cut")]
			if n, err := w.Write(b); err == nil || n != 0 {
				c.Failf("malformed document written: %d", n)
			}
			continue
		}
		c.Note("%s", bm.Show(d))
		if rapid.IntRange(0, 7).Draw(t, "failing writer") == 0 {
			// the writer is used again after it failed
			c.Note("which fails")
			sink.Fail = rapid.IntRange(1, 3).Draw(t, "how")
			n, err := w.Write(b)
			sink.Fail = 0
			if err == nil && n == len(b) {
				docs = append(docs, d)
				continue
			}
			if err == nil || n != 0 {
				c.Failf("failing write: %d, %v", n, err)
			}
		}
		n, err := w.Write(b)
		if err != nil || n != len(b) {
			c.Failf("write: %d, %v", n, err)
		}
		clear(b) // a writer must not keep it
		docs = append(docs, d)
	}
	if err := w.Close(); err != nil {
		c.Failf("close: %v", err)
	}
	if sink.Closed != 1 {
		c.Failf("underlying writer closed %d times", sink.Closed)
	}
	if err := fm.Check(bytes.NewReader(sink.Data), docs, size, nil); err != nil {
		c.Failf("%v", err)
	}
	if len(docs) > size {
		c.NonTrivial(fmt.Sprint(size, bad, len(docs), bm.Show(docs[len(docs)-1])))
	}
}

func main() {
	prop.Main(prop.Spec{
		ID:   "F03",
		Rule: "more than two samples and an operation other than adding, or more samples than fit a chunk; distinct by kind, counts and shape",
		Assumptions: []string{
			"batch sizes are at least one; the base collector holds one more sample than its size, as documented",
		},
		Subs: []prop.Sub{
			{Name: "history", Quick: 8000, Thorough: 200000, Shards: 4, Steps: 15, HangIsViolation: true, Fn: history},
			{Name: "writer", Quick: 5000, Thorough: 100000, Shards: 1, HangIsViolation: true, Fn: writer},
		},
	})
}
