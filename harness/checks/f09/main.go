// F09: sampling collectors keep one sample per interval.
package main

import (
	"bytes"
	"fmt"
	"math"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/fm"
	"verif/harness/prop"
)

// bad draws what no collector accepts.
func bad(t *rapid.T) any {
	return rapid.SampledFrom([]any{nil, (*birch.Document)(nil), map[string]string{"a": "b"}, []byte{1, 2, 3}, 1}).Draw(t, "bad")
}

func history(c *prop.C) {
	t := c.T
	interval := rapid.SampledFrom([]time.Duration{2 * time.Millisecond, 2 * time.Millisecond, 500 * time.Microsecond, 8 * time.Millisecond,
		time.Hour, math.MaxInt64, 0, -time.Second}).Draw(t, "interval")
	size := rapid.SampledFrom([]int{1, 2, 3, 10}).Draw(t, "size")
	shape := fm.Shape(t, fm.ShapeOpts{Min: 1, MaxLen: 3})
	stream := fm.NewStream(t, shape, true)
	sink := &fm.Sink{}
	var inner ftdc.Collector
	kind := rapid.SampledFrom([]string{"batch", "dynamic", "streaming", "streaming dynamic", "base", "sampling", "uncompressed"}).Draw(t, "inner")
	limit, streaming := size, false
	switch kind {
	case "base":
		inner = ftdc.NewBaseCollector(size)
		limit = size + 1
	case "batch":
		inner = ftdc.NewBatchCollector(size)
	case "dynamic":
		inner = ftdc.NewDynamicCollector(size)
	case "streaming":
		inner, streaming = ftdc.NewStreamingCollector(size, sink), true
	case "streaming dynamic":
		inner, streaming = ftdc.NewStreamingDynamicCollector(size, sink), true
	case "sampling":
		inner = ftdc.NewSamplingCollector(0, ftdc.NewBatchCollector(size))
	case "uncompressed":
		inner = ftdc.NewUncompressedCollectorBSON(size)
	}
	coll := ftdc.NewSamplingCollector(interval, inner)
	if rapid.IntRange(0, 3).Draw(t, "synchronized") == 0 {
		coll = ftdc.NewSynchronizedCollector(coll)
	}
	c.Class(kind)
	c.Note("%s collector of %d, interval %v", kind, size, interval)
	var written, pending [][]bm.Field
	var last *[2]time.Time // when the last sample was collected
	var reset bool         // since then
	kept, skipped, refused := 0, 0, 0
	check := func(b []byte, docs [][]bm.Field) error {
		if kind != "uncompressed" {
			return fm.Check(bytes.NewReader(b), docs, limit, nil)
		}
		items, err := fm.SplitDocs(b)
		if err == nil && len(items) != len(docs) {
			err = fmt.Errorf("%d documents, want %d", len(items), len(docs))
		}
		for i := range items {
			if err == nil && !bytes.Equal(items[i], bm.EncodeFields(docs[i])) {
				err = fmt.Errorf("document %d differs", i)
			}
		}
		return err
	}
	// due reports what has to happen to a sample added between lo and hi.
	due := func(lo, hi time.Time) (must, may bool) {
		switch {
		case last == nil || lo.Sub(last[1]) >= interval:
			return true, true
		case reset:
			// whether a reset ends the interval is not said
			return false, true
		}
		return false, hi.Sub(last[0]) >= interval
	}
	t.Repeat(map[string]func(*rapid.T){
		"add": func(t *rapid.T) {
			d := stream.Next()
			in := fm.NewInput(t, d)
			full := !streaming && (kind == "base" || kind == "uncompressed") && len(pending) == limit
			lo := time.Now()
			err := coll.Add(in.Value)
			hi := time.Now()
			must, may := due(lo, hi)
			c.Note("add %s: due %v, may %v", bm.Show(d), must, may)
			n := coll.Info().SampleCount
			if full {
				refused++
				if must && err == nil {
					c.Failf("added to a full collector")
				}
				return
			}
			if err != nil {
				c.Failf("add: %v", err)
			}
			got := n != len(pending)
			if streaming && len(pending) == size && n == size && size == 1 {
				// a sample was written and another one took its place
				got = len(sink.Data) > 0 && sink.Writes > len(written)
			}
			if must && !got {
				c.Failf("a sample that is due was not collected")
			}
			if !may && got {
				c.Failf("a sample was collected within %v of the last", hi.Sub(last[0]))
			}
			if !got {
				skipped++
				return
			}
			kept++
			last, reset = &[2]time.Time{lo, hi}, false
			if streaming && len(pending) == size {
				written = append(written, pending...)
				pending = nil
			}
			pending = append(pending, d)
			if n != len(pending) {
				c.Failf("%d samples, want %d", n, len(pending))
			}
		},
		"refuse": func(t *rapid.T) {
			v := bad(t)
			c.Note("refuse %v", v)
			lo := time.Now()
			var err error
			c.NoPanic("add", func() { err = coll.Add(v) })
			must, _ := due(lo, time.Now())
			if must && err == nil {
				c.Failf("accepted %v", v)
			}
			if err != nil {
				refused++ // and is not a collection
			}
			if n := coll.Info().SampleCount; n != len(pending) && streaming && n == 0 {
				written = append(written, pending...)
				pending = nil
			}
		},
		"sleep": func(t *rapid.T) {
			time.Sleep(time.Duration(rapid.SampledFrom([]int{100, 600, 2100, 2100, 8100}).Draw(t, "sleep")) * time.Microsecond)
		},
		"flush": func(t *rapid.T) {
			c.Note("flush")
			if err := ftdc.FlushCollector(coll, sink); err != nil {
				c.Failf("flush: %v", err)
			}
			written = append(written, pending...)
			pending, reset = nil, true
		},
		"reset": func(t *rapid.T) {
			if rapid.IntRange(0, 3).Draw(t, "really") > 0 {
				return
			}
			c.Note("reset")
			coll.Reset()
			pending, reset = nil, true
		},
		"resolve": func(t *rapid.T) {
			b, err := coll.Resolve()
			if len(pending) == 0 {
				if err == nil {
					c.Failf("resolved an empty collector to %d bytes", len(b))
				}
				return
			}
			if err == nil {
				err = check(b, pending)
			}
			if err != nil {
				c.Failf("resolved: %v", err)
			}
		},
		"": func(t *rapid.T) {
			if n := coll.Info().SampleCount; n != len(pending) {
				c.Failf("%d samples, want %d", n, len(pending))
			}
		},
	})
	if err := ftdc.FlushCollector(coll, sink); err != nil {
		c.Failf("last flush: %v", err)
	}
	written = append(written, pending...)
	if err := check(sink.Data, written); err != nil {
		c.Failf("written: %v", err)
	}
	if kept > 1 || kept > 0 && skipped+refused > 0 {
		c.NonTrivial(fmt.Sprint(kind, size, interval, kept, skipped, refused, bm.Show(shape)))
	}
}

func main() {
	prop.Main(prop.Spec{
		ID:   "F09",
		Rule: "two samples collected, or one and another one skipped or refused; distinct by kind, size, interval, counts and shape",
		Assumptions: []string{
			"intervals are measured with clock readings around the calls; what happens within their uncertainty is left open",
			"whether a flush or a reset ends the interval is left open",
		},
		Subs: []prop.Sub{
			{Name: "history", Quick: 5000, Thorough: 60000, Shards: 4, Steps: 20, HangIsViolation: true, Fn: history},
		},
	})
}
