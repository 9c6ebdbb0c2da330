// F07: uncompressed collectors emit exactly the documents that were added.
package main

import (
	"bytes"
	"fmt"
	"math"
	"unicode/utf8"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/types"
	"github.com/tychoish/birch/x/ftdc"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/fm"
	"verif/harness/jm"
	"verif/harness/prop"
)

func dec(s string, n *bm.Node) bool {
	d, err := types.ParseDecimal128(s)
	if err != nil {
		return false
	}
	h, l := d.GetBytes()
	wh, wl := bm.CanonDecimal(n.H, n.U)
	return h == wh && l == wl
}

// finite reports that there is JSON for all numbers.
func finite(n *bm.Node) bool {
	if n.T == bm.Double && (math.IsNaN(n.Float()) || math.IsInf(n.Float(), 0)) {
		return false
	}
	for _, f := range n.Kids {
		if !finite(f.V) {
			return false
		}
	}
	return true
}

func plain(s string) bool { return utf8.ValidString(s) }

// check decodes the output and compares it with the documents.
func check(b []byte, json bool, docs [][]bm.Field) error {
	var items [][]byte
	var err error
	if json {
		if len(b) > 0 {
			if b[len(b)-1] != '\n' {
				return fmt.Errorf("the last line does not end: %q", b)
			}
			items = bytes.Split(b[:len(b)-1], []byte("\n"))
		}
	} else if items, err = fm.SplitDocs(b); err != nil {
		return err
	}
	if len(items) != len(docs) {
		return fmt.Errorf("%d documents, want %d", len(items), len(docs))
	}
	for i, d := range docs {
		if !json {
			if want := bm.EncodeFields(d); !bytes.Equal(items[i], want) {
				return fmt.Errorf("document %d: %s", i, bm.Diff(items[i], want))
			}
			continue
		}
		j, _, err := jm.Parse(items[i])
		if err != nil {
			return fmt.Errorf("line %d: %v: %q", i, err, items[i])
		}
		if m := bm.JSONFieldsDiff(j, d, dec); m != "" {
			return fmt.Errorf("line %d: %s", i, m)
		}
	}
	return nil
}

// bad draws what is not a document.
func bad(t *rapid.T) (string, any) {
	switch rapid.IntRange(0, 4).Draw(t, "bad") {
	case 0:
		return "nil", nil
	case 1:
		return "nil document", (*birch.Document)(nil)
	case 2:
		return "map of strings", map[string]string{"a": "b"}
	case 3:
		return "unsupported type", rapid.SampledFrom([]any{1, "x", []int{1}, map[string]struct{}{}}).Draw(t, "value")
	default:
		b := bm.EncodeFields([]bm.Field{bm.F("a", bm.NInt64(1)), bm.F("b", bm.NInt32(1))})
		return "truncated document", b[:rapid.IntRange(0, len(b)-1).Draw(t, "cut")]
	}
}

func history(c *prop.C) {
	t := c.T
	json := rapid.Bool().Draw(t, "json")
	size := rapid.SampledFrom([]int{1, 2, 3, 4, 10}).Draw(t, "size")
	sink := &fm.Sink{}
	var coll ftdc.Collector
	kind := rapid.SampledFrom([]string{"plain", "plain", "streaming", "streaming dynamic"}).Draw(t, "collector")
	streaming, dynamic := kind != "plain", kind == "streaming dynamic"
	switch {
	case !streaming && json:
		coll = ftdc.NewUncompressedCollectorJSON(size)
	case !streaming:
		coll = ftdc.NewUncompressedCollectorBSON(size)
	case !dynamic && json:
		coll = ftdc.NewStreamingUncompressedCollectorJSON(size, sink)
	case !dynamic:
		coll = ftdc.NewStreamingUncompressedCollectorBSON(size, sink)
	case json:
		coll = ftdc.NewStreamingDynamicUncompressedCollectorJSON(size, sink)
	default:
		coll = ftdc.NewStreamingDynamicUncompressedCollectorBSON(size, sink)
	}
	c.Class(kind)
	c.Note("%s collector of %d, json: %v", kind, size, json)
	opts := bm.Opts{MaxDepth: 2, MaxLen: 3}
	if json {
		opts.Keys = rapid.OneOf(bm.Key(), bm.SimpleKey()).Filter(plain)
		opts.Strings = rapid.OneOf(bm.Str(), jm.GenStr()).Filter(plain)
	}
	gen := func() []bm.Field {
		for {
			fs := bm.GenDoc(t, opts)
			if !json || text(fs) {
				return fs
			}
		}
	}
	shape := gen()
	var written, pending [][]bm.Field
	var md []bm.Field
	flushed := func(upto int) {
		if upto > 0 && md != nil {
			written = append(written, md)
		}
		written = append(written, pending[:upto]...)
		pending = pending[upto:]
	}
	accepted, refused := 0, 0
	var held fm.Held
	t.Repeat(map[string]func(*rapid.T){
		"add": func(t *rapid.T) {
			d := gen()
			if rapid.IntRange(0, 2).Draw(t, "same") > 0 {
				d = shape
				if rapid.Bool().Draw(t, "perturb") && len(d) > 0 {
					d = bm.CloneFields(d)
					d[rapid.IntRange(0, len(d)-1).Draw(t, "at")].V = bm.NInt64(int64(accepted))
				}
			}
			in := fm.NewInput(t, d)
			c.Note("add %s", bm.Show(d))
			before := len(sink.Data)
			err := coll.Add(in.Value)
			if rapid.Bool().Draw(t, "change") {
				in.Change()
			}
			why := ""
			switch {
			case json && !finite(bm.NDoc(d...)):
				why = "there is no JSON for it"
			case !dynamic && len(pending) > 0 && len(pending[0]) != len(d) && !(streaming && len(pending) == size):
				why = "it has another number of fields"
			case !streaming && len(pending) == size:
				why = "the collector is full"
			}
			if why != "" {
				refused++
				if err == nil {
					c.Failf("accepted although %s", why)
				}
			} else if err != nil {
				c.Failf("add: %v", err)
			} else {
				accepted++
				pending = append(pending, d)
			}
			n := coll.Info().SampleCount
			if streaming && len(sink.Data) != before {
				if n > 1 || n == 1 && why != "" {
					c.Failf("%d samples left after writing", n)
				}
				flushed(len(pending) - n)
			}
			if n != len(pending) || n > size {
				c.Failf("%d samples, want %d, of at most %d", n, len(pending), size)
			}
		},
		"refuse": func(t *rapid.T) {
			what, in := bad(t)
			c.Note("refuse %s", what)
			refused++
			var err error
			before := len(sink.Data)
			c.NoPanic("adding "+what, func() { err = coll.Add(in) })
			if err == nil {
				c.Failf("accepted %s", what)
			}
			if len(sink.Data) != before {
				flushed(len(pending) - coll.Info().SampleCount)
			}
		},
		"flush": func(t *rapid.T) {
			c.Note("flush")
			if rapid.IntRange(0, 4).Draw(t, "failing") == 0 && len(pending) > 0 {
				sink.Fail = rapid.IntRange(1, 2).Draw(t, "how")
				if err := ftdc.FlushCollector(coll, sink); err == nil {
					c.Failf("flush to a failing writer")
				}
				sink.Fail = 0
			}
			if err := ftdc.FlushCollector(coll, sink); err != nil {
				c.Failf("flush: %v", err)
			}
			flushed(len(pending))
		},
		"reset": func(t *rapid.T) {
			c.Note("reset")
			coll.Reset()
			pending = nil
		},
		"metadata": func(t *rapid.T) {
			m := gen()
			if rapid.IntRange(0, 3).Draw(t, "unset") == 0 {
				if err := coll.SetMetadata(nil); err != nil {
					c.Failf("unset metadata: %v", err)
				}
				md = nil
				return
			}
			in := fm.NewInput(t, m)
			c.Note("metadata %s", bm.Show(m))
			err := coll.SetMetadata(in.Value)
			in.Change()
			if ok := !json || finite(bm.NDoc(m...)); ok != (err == nil) {
				c.Failf("metadata: %v", err)
			} else if ok {
				md = m
			}
		},
		"resolve": func(t *rapid.T) {
			b, err := coll.Resolve()
			if len(pending) == 0 {
				if err == nil {
					c.Failf("empty collector resolved to %q", b)
				}
				return
			}
			if err != nil {
				c.Failf("resolve: %v", err)
			}
			want := pending
			if md != nil {
				want = append([][]bm.Field{md}, pending...)
			}
			if err := check(b, json, want); err != nil {
				c.Failf("resolved: %v", err)
			}
			if rapid.Bool().Draw(t, "hold") {
				held.Hold(b)
			} else {
				clear(b)
			}
		},
		"": func(t *rapid.T) {
			if err := held.Check(); err != nil {
				c.Failf("%v", err)
			}
			if n := coll.Info().SampleCount; n != len(pending) {
				c.Failf("%d samples, want %d", n, len(pending))
			}
		},
	})
	if len(pending) > 0 {
		b, err := coll.Resolve()
		want := pending
		if md != nil {
			want = append([][]bm.Field{md}, pending...)
		}
		if err == nil {
			err = check(b, json, want)
		}
		if err != nil {
			c.Failf("finally resolved: %v", err)
		}
	}
	if err := held.Check(); err != nil {
		c.Failf("%v", err)
	}
	if err := check(sink.Data, json, written); err != nil {
		c.Failf("written: %v", err)
	}
	if accepted > 2 {
		c.NonTrivial(fmt.Sprint(kind, json, size, accepted, refused, bm.Show(shape)))
	}
}

// text reports that all strings are UTF-8.
func text(fs []bm.Field) bool {
	for _, f := range fs {
		if !plain(f.K) || !plain(f.V.S) || !plain(f.V.S2) || !text(f.V.Kids) {
			return false
		}
	}
	return true
}

func main() {
	prop.Main(prop.Spec{
		ID:   "F07",
		Rule: "three or more documents accepted; distinct by kind, counts and shape",
		Assumptions: []string{
			"JSON is generated for UTF-8 text; documents with numbers that have no JSON must be refused",
			"shapes of uncompressed collectors are the numbers of fields, as documented",
		},
		Subs: []prop.Sub{
			{Name: "history", Quick: 160000, Thorough: 1600000, Shards: 4, Steps: 20, HangIsViolation: true, Fn: history},
		},
	})
}
