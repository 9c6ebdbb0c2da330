// F05: a failed or odd operation leaves the data of a collector intact.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
	"github.com/tychoish/birch/x/ftdc/util"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/fm"
	"verif/harness/prop"
)

type failing struct{ doc bool }

var errFailing = errors.New("cannot marshal")

func (f failing) MarshalBSON() ([]byte, error) { return nil, errFailing }

type failingDoc struct{ failing }

func (f failingDoc) MarshalDocument() (*birch.Document, error) { return nil, errFailing }

// bad draws what can never be collected.
func bad(t *rapid.T) (string, any) {
	switch rapid.IntRange(0, 8).Draw(t, "bad") {
	case 0:
		return "nil", nil
	case 1:
		return "nil document", (*birch.Document)(nil)
	case 2:
		return "map of strings", map[string]string{"a": "b"}
	case 3:
		b := bm.EncodeFields([]bm.Field{bm.F("a", bm.NInt64(1)), bm.F("b", bm.NInt32(1))})
		return "truncated document", b[:rapid.IntRange(0, len(b)-1).Draw(t, "cut")]
	case 4:
		return "failing marshaler", failing{}
	case 5:
		return "failing document marshaler", failingDoc{}
	case 6:
		return "unsupported type", rapid.SampledFrom([]any{1, "x", struct{ A int }{1}, []int{1}, map[string]struct{}{}}).Draw(t, "value")
	case 7:
		n := rapid.SampledFrom([]uint64{1 << 63, 1<<64 - 1, 1<<63 + 1<<62}).Draw(t, "value")
		return "overflowing map", rapid.SampledFrom([]any{map[string]uint64{"a": n}, map[string]uint{"a": uint(n)}, map[string]uint64{"a": 1, "b": n}}).Draw(t, "map")
	default:
		return "document with a corrupt value", bm.EncodeFields([]bm.Field{bm.F("a", &bm.Node{T: bm.String, S: "x"})})[:8]
	}
}

type state struct {
	coll     ftdc.Collector
	kind     string
	size     int
	limit    int
	sink     *fm.Sink
	stream   *fm.Stream
	pending  [][]bm.Field
	written  [][]bm.Field
	md       []bm.Field // metadata set on the collector
	sinkMD   []bm.Field // metadata in effect at the end of what was written
	mds      []mdRange
	readonly bool
	held     fm.Held
}

type mdRange struct {
	upto int
	md   []bm.Field
}

func (s *state) flushed() {
	if len(s.pending) == 0 {
		return
	}
	if s.md != nil {
		s.sinkMD = s.md
	}
	s.written = append(s.written, s.pending...)
	s.mds = append(s.mds, mdRange{len(s.written), s.sinkMD})
	s.pending = nil
}

func (s *state) streaming() bool { return s.kind == "streaming" || s.kind == "streaming dynamic" }
func (s *state) dynamic() bool   { return s.kind == "dynamic" || s.kind == "streaming dynamic" }

func checkMD(got *birch.Document, want []bm.Field) error {
	if want == nil {
		if got != nil {
			return fmt.Errorf("metadata %v, want none", got)
		}
		return nil
	}
	fs, err := bm.FromDocErr(got)
	if err != nil {
		return fmt.Errorf("metadata %v: %v", got, err)
	}
	for _, f := range fs {
		if f.K == "doc" && f.V.T == bm.Doc && bm.FieldsEqual(f.V.Kids, want) {
			return nil
		}
	}
	return fmt.Errorf("metadata %s, want %s", bm.Show(fs), bm.Show(want))
}

func (s *state) checkSink(c *prop.C) {
	err := fm.Check(bytes.NewReader(s.sink.Data), s.written, s.limit, func(from, to int, md *birch.Document) error {
		for _, r := range s.mds {
			if to <= r.upto {
				return checkMD(md, r.md)
			}
		}
		return errors.New("chunk spans separate writes")
	})
	if err != nil {
		c.Failf("written: %v", err)
	}
	for name, read := range map[string]func(io.Reader) *ftdc.Iterator[*birch.Document]{
		"metrics": ftdc.ReadMetrics, "structured": ftdc.ReadStructuredMetrics, "matrix": ftdc.ReadMatrix, "series": ftdc.ReadSeries,
	} {
		it := read(bytes.NewReader(s.sink.Data))
		for range it.Iterator() {
		}
		if err := checkMD(it.Metadata(), s.sinkMD); err != nil || it.Close() != nil {
			c.Failf("iterator of written %s: %v %v", name, err, it.Close())
		}
	}
}

func (s *state) checkResolve(c *prop.C) {
	b, err := s.coll.Resolve()
	if len(s.pending) == 0 {
		if err == nil {
			c.Failf("an empty collector resolves to %d bytes", len(b))
		}
		return
	}
	if err != nil {
		c.Failf("resolve: %v", err)
	}
	check := func() error {
		return fm.Check(bytes.NewReader(b), s.pending, s.limit, func(_, _ int, md *birch.Document) error {
			return checkMD(md, s.md)
		})
	}
	if err := check(); err != nil {
		c.Failf("resolved: %v", err)
	}
	for name, read := range map[string]func(io.Reader) *ftdc.Iterator[*birch.Document]{
		"metrics": ftdc.ReadMetrics, "structured": ftdc.ReadStructuredMetrics, "matrix": ftdc.ReadMatrix, "series": ftdc.ReadSeries,
	} {
		it := read(bytes.NewReader(b))
		for range it.Iterator() {
		}
		if err := checkMD(it.Metadata(), s.md); err != nil || it.Close() != nil {
			c.Failf("iterator of %s: %v %v", name, err, it.Close())
		}
	}
	if s.readonly {
		// what was returned belongs to the caller
		clear(b)
	} else {
		s.held.Hold(b)
	}
}

func history(c *prop.C) {
	t := c.T
	s := &state{size: rapid.SampledFrom([]int{1, 2, 3, 4, 10}).Draw(t, "size"), sink: &fm.Sink{}}
	shape := fm.Shape(t, fm.ShapeOpts{Others: rapid.Bool().Draw(t, "others"), Min: 1, MaxLen: 3})
	s.stream = fm.NewStream(t, shape, true)
	streams := []*fm.Stream{s.stream,
		fm.NewStream(t, fm.Shape(t, fm.ShapeOpts{Min: 1, MaxLen: 3}), true),
		fm.NewStream(t, append(bm.CloneFields(shape), bm.F("other", bm.NInt64(1))), true)}
	s.kind = rapid.SampledFrom([]string{"base", "base", "batch", "dynamic", "streaming", "streaming dynamic", "synchronized"}).Draw(t, "collector")
	s.limit = s.size
	s.readonly = rapid.Bool().Draw(t, "clear results")
	c.Class(s.kind)
	switch s.kind {
	case "base":
		s.coll = ftdc.NewBaseCollector(s.size)
		s.limit++
	case "synchronized":
		s.coll = ftdc.NewSynchronizedCollector(ftdc.NewBaseCollector(s.size))
		s.limit++
	case "batch":
		s.coll = ftdc.NewBatchCollector(s.size)
	case "dynamic":
		s.coll = ftdc.NewDynamicCollector(s.size)
	case "streaming":
		s.coll = ftdc.NewStreamingCollector(s.size, s.sink)
	case "streaming dynamic":
		s.coll = ftdc.NewStreamingDynamicCollector(s.size, s.sink)
	}
	c.Note("%s collector of %d", s.kind, s.size)
	full := func() bool { return (s.kind == "base" || s.kind == "synchronized") && len(s.pending) == s.limit }
	atBoundary := func() bool { // the next sample starts a chunk
		return len(s.pending)%s.limit == 0
	}
	failures, changed := 0, 0
	refuse := func(what string, in any) {
		c.Note("refuse %s", what)
		failures++
		var err error
		c.NoPanic("adding "+what, func() { err = s.coll.Add(in) })
		if err == nil {
			c.Failf("accepted %s", what)
		}
		// a chunk may be written before the next one is started
		if s.streaming() && s.coll.Info().SampleCount == 0 && len(s.sink.Data) > 0 && len(s.pending) > 0 {
			s.flushed()
		}
	}
	t.Repeat(map[string]func(*rapid.T){
		"add": func(t *rapid.T) {
			d := s.stream.Next()
			in := fm.NewInput(t, d)
			c.Note("add %s", bm.Show(d))
			err := s.coll.Add(in.Value)
			if rapid.IntRange(0, 2).Draw(t, "change") > 0 {
				changed++
				c.Note("and change the document")
				in.Change()
			}
			if full() {
				failures++
				if err == nil {
					c.Failf("added to a full collector")
				}
				return
			}
			if err != nil {
				c.Failf("add: %v", err)
			}
			if s.streaming() && len(s.pending) == s.size {
				s.flushed()
			}
			if n := len(s.pending); s.kind == "streaming dynamic" && n > 0 && (fm.ShapeID(s.pending[n-1]) != fm.ShapeID(d) || s.coll.Info().SampleCount == 1) {
				// other differences may start a chunk as well
				s.flushed()
			}
			s.pending = append(s.pending, d)
		},
		"other shape": func(t *rapid.T) {
			if !s.dynamic() {
				t.Skip()
			}
			for i := range streams {
				if streams[i] == s.stream {
					s.stream = streams[(i+1)%len(streams)]
					break
				}
			}
		},
		"refuse": func(t *rapid.T) {
			what, in := bad(t)
			refuse(what, in)
		},
		"refuse invalid": func(t *rapid.T) {
			if !atBoundary() || len(s.pending) > 0 {
				t.Skip()
			}
			d := s.stream.Next()
			doc := bm.ToDoc(d)
			doc.Append(birch.EC.Int64("a\x00b", 1))
			refuse("invalid document", doc)
		},
		"refuse other metrics": func(t *rapid.T) {
			if s.dynamic() || atBoundary() {
				t.Skip()
			}
			d := fm.Shape(t, fm.ShapeOpts{MaxLen: 3})
			if fm.Types(d) == fm.Types(shape) {
				d = append(bm.CloneFields(s.stream.Next()), bm.F("more", bm.NInt64(1)))
			}
			refuse("other metrics", fm.NewInput(t, d).Value)
		},
		"failing flush": func(t *rapid.T) {
			if len(s.pending) == 0 {
				t.Skip()
			}
			s.sink.Fail = rapid.IntRange(1, 3).Draw(t, "how")
			c.Note("fail to flush")
			failures++
			if err := ftdc.FlushCollector(s.coll, s.sink); err == nil {
				c.Failf("flush to a failing writer succeeded")
			}
			s.sink.Fail = 0
		},
		"failing streaming add": func(t *rapid.T) {
			if !s.streaming() || len(s.pending) != s.size {
				t.Skip()
			}
			s.sink.Fail = rapid.IntRange(1, 3).Draw(t, "how")
			d := s.stream.Next()
			c.Note("fail to write during add")
			failures++
			if err := s.coll.Add(fm.NewInput(t, d).Value); err == nil {
				c.Failf("add succeeded although writing failed")
			}
			s.sink.Fail = 0
		},
		"failing change of shape": func(t *rapid.T) {
			// what was collected is written before a sample of another shape
			if s.kind != "streaming dynamic" || len(s.pending) == 0 {
				t.Skip()
			}
			s.sink.Fail = rapid.IntRange(1, 3).Draw(t, "how")
			d := append(bm.CloneFields(s.stream.Next()), bm.F("more", bm.NInt64(1)))
			c.Note("fail to write before another shape")
			failures++
			if err := s.coll.Add(fm.NewInput(t, d).Value); err == nil {
				c.Failf("add succeeded although writing failed")
			}
			s.sink.Fail = 0
		},
		"no writer": func(t *rapid.T) {
			failures++
			if err := ftdc.FlushCollector(s.coll, nil); err == nil {
				c.Failf("flush to no writer")
			}
		},
		"flush": func(t *rapid.T) {
			c.Note("flush")
			if err := ftdc.FlushCollector(s.coll, s.sink); err != nil {
				c.Failf("flush: %v", err)
			}
			s.flushed()
		},
		"reset": func(t *rapid.T) {
			c.Note("reset")
			s.coll.Reset()
			s.pending = nil
		},
		"metadata": func(t *rapid.T) {
			switch rapid.IntRange(0, 3).Draw(t, "metadata") {
			case 0:
				c.Note("unset metadata")
				if err := s.coll.SetMetadata(nil); err != nil {
					c.Failf("unsetting metadata: %v", err)
				}
				s.md = nil
			case 1:
				what, in := bad(t)
				if in == nil {
					t.Skip()
				}
				c.Note("refuse metadata: %s", what)
				failures++
				if err := s.coll.SetMetadata(in); err == nil {
					c.Failf("accepted %s as metadata", what)
				}
			default:
				md := bm.GenDoc(t, bm.Opts{MaxDepth: 1, MaxLen: 3})
				in := fm.NewInput(t, md)
				c.Note("metadata %s", bm.Show(md))
				if err := s.coll.SetMetadata(in.Value); err != nil {
					c.Failf("setting metadata: %v", err)
				}
				in.Change()
				s.md = md
			}
		},
		"resolve": func(t *rapid.T) { s.checkResolve(c) },
		"": func(t *rapid.T) {
			if err := s.held.Check(); err != nil {
				c.Failf("%v", err)
			}
			if n := s.coll.Info().SampleCount; n != len(s.pending) {
				c.Failf("%d samples, want %d", n, len(s.pending))
			}
		},
	})
	s.checkResolve(c)
	s.checkResolve(c)
	if err := ftdc.FlushCollector(s.coll, s.sink); err != nil {
		c.Failf("last flush: %v", err)
	}
	s.flushed()
	s.checkSink(c)
	if failures > 0 && len(s.written) > 1 && changed > 0 {
		c.NonTrivial(fmt.Sprint(s.kind, s.size, failures, changed, bm.Show(s.written[len(s.written)-1])))
	}
}

func main() {
	util.RegisterGlobalMarshaler(fm.Marshal)
	prop.Main(prop.Spec{
		ID:   "F05",
		Rule: "at least one refused operation, one document changed by the caller, and two samples; distinct by kind, counts and the last sample",
		Assumptions: []string{
			"metadata stays set through resolves, flushes and resets until it is overridden or unset",
			"readers report the last metadata before a chunk",
		},
		Subs: []prop.Sub{
			{Name: "history", Quick: 18000, Thorough: 250000, Shards: 5, Steps: 20, HangIsViolation: true, Fn: history},
		},
	})
}
