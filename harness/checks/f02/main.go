// F02: schema changes never mix, drop or reorder samples.
package main

import (
	"bytes"
	"fmt"
	"io"
	"slices"
	"strconv"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/fm"
	"verif/harness/prop"
)

type nopCloser struct{ io.Writer }

func (nopCloser) Close() error { return nil }

// variant makes a different shape that is easily taken for the same one.
func variant(t *rapid.T, fs []bm.Field) []bm.Field {
	out := bm.CloneFields(fs)
	if len(out) == 0 {
		return []bm.Field{bm.F("a", bm.NInt64(1))}
	}
	// descend to a random level
	level := &out
	for {
		i := rapid.IntRange(0, len(*level)-1).Draw(t, "at")
		n := (*level)[i].V
		if (n.T == bm.Doc || n.T == bm.Array) && len(n.Kids) > 0 && rapid.Bool().Draw(t, "descend") {
			level = &n.Kids
			continue
		}
		f := (*level)[i]
		switch rapid.IntRange(0, 7).Draw(t, "how") {
		case 0: // another name
			(*level)[i].K = f.K + "x"
		case 1: // another type
			(*level)[i].V = bm.GenOfType(t, bm.Opts{}, rapid.SampledFrom(fm.MetricTypes).Draw(t, "type"), 0)
		case 2: // nested instead of dotted, or the reverse
			switch {
			case n.T == bm.Doc && len(n.Kids) == 1:
				(*level)[i] = bm.F(f.K+"."+n.Kids[0].K, n.Kids[0].V)
			case n.T == bm.Array && len(n.Kids) > 0:
				// all elements, at the same paths
				var flat []bm.Field
				for j, k := range n.Kids {
					flat = append(flat, bm.F(f.K+"."+strconv.Itoa(j), k.V))
				}
				*level = slices.Replace(*level, i, i+1, flat...)
			default:
				(*level)[i] = bm.F(f.K, bm.NDoc(bm.F("k", f.V)))
			}
		case 3: // an array instead of a document, or the reverse
			switch n.T {
			case bm.Array:
				kids := slices.Clone(n.Kids)
				for j := range kids {
					kids[j].K = strconv.Itoa(j)
				}
				(*level)[i].V = bm.NDoc(kids...)
			case bm.Doc:
				(*level)[i].V = bm.NArray()
				for _, k := range n.Kids {
					(*level)[i].V.Kids = append((*level)[i].V.Kids, k)
				}
			default:
				(*level)[i].V = bm.NArray(f.V)
			}
		case 4: // the boundary between two documents moves
			if i+1 < len(*level) && n.T == bm.Doc {
				nx := (*level)[i+1]
				n.Kids = append(n.Kids, nx)
				*level = slices.Delete(*level, i+1, i+2)
			} else {
				*level = append(*level, bm.F("n", bm.NInt64(3)))
			}
		case 5: // another order
			j := rapid.IntRange(0, len(*level)-1).Draw(t, "with")
			(*level)[i], (*level)[j] = (*level)[j], (*level)[i]
		case 6: // one less
			*level = slices.Delete(*level, i, i+1)
		default: // one more
			*level = slices.Insert(*level, i, bm.F(rapid.SampledFrom([]string{"n", f.K, "a"}).Draw(t, "name"), bm.NInt64(3)))
		}
		return out
	}
}

// shape draws the shape of documents, a few of which are wide.
func shape(t *rapid.T) []bm.Field {
	fs := fm.Shape(t, fm.ShapeOpts{Others: rapid.Bool().Draw(t, "others"), Min: 1, MaxLen: 3})
	if rapid.IntRange(0, 39).Draw(t, "wide") > 0 {
		return fs
	}
	n := rapid.SampledFrom([]int{20, 64, 100, 130, 300}).Draw(t, "width")
	nested := rapid.IntRange(0, 2).Draw(t, "nested")
	kids := make([]bm.Field, 0, n)
	for i := 0; i < n; i++ {
		ty := fm.MetricTypes[(i*7+n)%len(fm.MetricTypes)]
		kids = append(kids, bm.F("w"+strconv.Itoa(i), bm.GenOfType(t, bm.Opts{}, ty, 0)))
	}
	switch nested {
	case 1:
		return append(fs, bm.F("wide", bm.NDoc(kids...)))
	case 2:
		return append(fs, bm.F("wide", &bm.Node{T: bm.Array, Kids: kids}))
	}
	return append(fs, kids...)
}

func dynamic(c *prop.C) {
	t := c.T
	base := shape(t)
	streams := []*fm.Stream{fm.NewStream(t, base, true)}
	for i := rapid.IntRange(1, 3).Draw(t, "shapes"); i > 0; i-- {
		s := base
		if rapid.IntRange(0, 4).Draw(t, "unrelated") == 0 {
			s = fm.Shape(t, fm.ShapeOpts{MaxLen: 3})
		} else {
			s = variant(t, streams[rapid.IntRange(0, len(streams)-1).Draw(t, "of")].Shape)
		}
		streams = append(streams, fm.NewStream(t, s, true))
	}
	var docs [][]bm.Field
	for len(docs) < 2 || rapid.IntRange(0, 9).Draw(t, "more") > 0 {
		s := streams[rapid.IntRange(0, len(streams)-1).Draw(t, "shape")]
		for i := rapid.SampledFrom([]int{1, 1, 2, 3, 5}).Draw(t, "run"); i > 0; i-- {
			docs = append(docs, s.Next())
		}
	}
	size := rapid.SampledFrom([]int{1, 2, 3, 4, 100}).Draw(t, "size")
	kind := rapid.SampledFrom([]string{"dynamic", "streaming dynamic", "writer", "synchronized"}).Draw(t, "collector")
	c.Class(kind)
	changes := 0
	for i, d := range docs {
		c.Note("%s", bm.Show(d))
		if i > 0 && !fm.SameShape(docs[i-1], d) {
			changes++
		}
	}
	if changes > 1 {
		c.NonTrivial(fmt.Sprint(kind, changes, bm.Show(docs[0]), bm.Show(docs[len(docs)-1])))
	}
	buf := &bytes.Buffer{}
	var coll ftdc.Collector
	var w io.WriteCloser
	switch kind {
	case "dynamic":
		coll = ftdc.NewDynamicCollector(size)
	case "streaming dynamic":
		coll = ftdc.NewStreamingDynamicCollector(size, buf)
	case "synchronized":
		coll = ftdc.NewSynchronizedCollector(ftdc.NewDynamicCollector(size))
	case "writer":
		w = ftdc.NewWriterCollector(size, nopCloser{buf})
	}
	var reused fm.Reused
	var b []byte
	for i, d := range docs {
		var err error
		if w != nil {
			b = append(b[:0], bm.EncodeFields(d)...)
			_, err = w.Write(b)
		} else {
			err = coll.Add(reused.Input(t, d))
		}
		if err != nil {
			c.Failf("adding document %d: %v", i, err)
		}
		// reading is possible at any time, and changes nothing
		if w == nil && rapid.IntRange(0, 7).Draw(t, "resolve") == 0 {
			if _, err := coll.Resolve(); err != nil {
				c.Failf("resolve after %d: %v", i, err)
			}
		}
	}
	var err error
	if w != nil {
		err = w.Close()
	} else {
		err = ftdc.FlushCollector(coll, buf)
	}
	if err != nil {
		c.Failf("flush: %v", err)
	}
	check(c, buf.Bytes(), docs, size)
}

func check(c *prop.C, b []byte, docs [][]bm.Field, size int) {
	it := ftdc.ReadChunks(bytes.NewReader(b))
	at := 0
	for ch := range it.Iterator() {
		if ch.Size() > size || at+ch.Size() > len(docs) {
			c.Failf("a chunk of %d samples, the limit is %d, %d left", ch.Size(), size, len(docs)-at)
		}
		group := docs[at : at+ch.Size()]
		for i, d := range group {
			if !fm.SameShape(group[0], d) {
				c.Failf("one chunk has documents of different shapes:\n %s\n %s", bm.Show(group[0]), bm.Show(group[i]))
			}
		}
		flat := slices.Collect(ch.Iterator().Iterator())
		structured := slices.Collect(ch.StructuredIterator().Iterator())
		if len(flat) != ch.Size() || len(structured) != ch.Size() {
			c.Failf("%d and %d documents in a chunk of %d", len(flat), len(structured), ch.Size())
		}
		for i, d := range group {
			same(c, at+i, flat[i], fm.FlatDoc(d), func(f []bm.Field) []bm.Field { return f })
			same(c, at+i, structured[i], fm.Prune(d), fm.Prune)
		}
		at += ch.Size()
	}
	if err := it.Close(); err != nil || at != len(docs) {
		c.Failf("read %d of %d documents: %v", at, len(docs), err)
	}
}

func same(c *prop.C, i int, d *birch.Document, want []bm.Field, view func([]bm.Field) []bm.Field) {
	got, err := bm.FromDocErr(d)
	if err != nil {
		c.Failf("document cannot be read: %v", err)
	}
	if got = view(got); !bm.FieldsEqual(got, want) {
		c.Failf("document %d:\n got  %s\n want %s", i, bm.Show(got), bm.Show(want))
	}
}

// fixed collectors refuse documents with another number or other types of
// metrics.
func fixed(c *prop.C) {
	t := c.T
	base := shape(t)
	s := fm.NewStream(t, base, true)
	size := rapid.SampledFrom([]int{1, 2, 3, 100}).Draw(t, "size")
	buf := &bytes.Buffer{}
	var coll ftdc.Collector
	kind := rapid.SampledFrom([]string{"base", "batch", "streaming"}).Draw(t, "collector")
	c.Class(kind)
	switch kind {
	case "base":
		coll = ftdc.NewBaseCollector(100)
		size = 101
	case "batch":
		coll = ftdc.NewBatchCollector(size)
	case "streaming":
		coll = ftdc.NewStreamingCollector(size, buf)
	}
	var docs [][]bm.Field
	refused := 0
	inChunk := 0
	var reused fm.Reused
	for i := rapid.IntRange(2, 12).Draw(t, "n"); i > 0; i-- {
		d := s.Next()
		if len(docs) > 0 && rapid.IntRange(0, 2).Draw(t, "change") == 0 {
			d = variant(t, d)
		}
		c.Note("%s", bm.Show(d))
		if inChunk > 0 && inChunk < size && fm.Types(d) != fm.Types(base) {
			refused++
			if err := coll.Add(reused.Input(t, d)); err == nil {
				c.Failf("a document with other metrics was accepted: %s after %s", bm.Show(d), bm.Show(docs[len(docs)-1]))
			}
			continue
		}
		if !fm.SameShape(d, base) {
			continue // indistinguishable by number and types, or the start of a chunk
		}
		if err := coll.Add(reused.Input(t, d)); err != nil {
			c.Failf("adding: %v", err)
		}
		docs = append(docs, d)
		if inChunk++; inChunk > size {
			inChunk = 1
		}
	}
	if refused > 0 && len(docs) > 1 {
		c.NonTrivial(fmt.Sprint(kind, refused, bm.Show(docs[len(docs)-1])))
	}
	if len(docs) == 0 {
		return
	}
	if err := ftdc.FlushCollector(coll, buf); err != nil {
		c.Failf("flush: %v", err)
	}
	check(c, buf.Bytes(), docs, size)
}

func main() {
	prop.Main(prop.Spec{
		ID:   "F02",
		Rule: "dynamic: two or more changes of shape; fixed: a refused document among accepted ones; distinct by content",
		Assumptions: []string{
			"collectors that are not dynamic recognise other shapes by the number and the types of metrics, as they document",
		},
		Subs: []prop.Sub{
			{Name: "dynamic", Quick: 5000, Thorough: 250000, Shards: 4, HangIsViolation: true, Fn: dynamic},
			{Name: "fixed", Quick: 2500, Thorough: 100000, Shards: 1, HangIsViolation: true, Fn: fixed},
		},
	})
}
