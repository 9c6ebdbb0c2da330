// F01: metrics read back exactly as they were collected.
package main

import (
	"bytes"
	"compress/zlib"
	"context"
	"fmt"
	"io"
	"iter"
	"runtime"
	"slices"
	"strings"
	"testing/iotest"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
	"github.com/tychoish/birch/x/ftdc/util"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/fm"
	"verif/harness/prop"
)

type nopCloser struct{ io.Writer }

func (nopCloser) Close() error { return nil }

// emit collects the documents and returns what was written.
func emit(c *prop.C, docs [][]bm.Field) []byte {
	t := c.T
	size := rapid.SampledFrom([]int{len(docs), len(docs) + 1, len(docs) + 7, max(1, len(docs)-1), 1, 2, 3, 10}).Draw(t, "size")
	buf := &bytes.Buffer{}
	var coll ftdc.Collector
	kind := rapid.SampledFrom([]string{"base", "base", "batch", "dynamic", "streaming", "streaming dynamic", "writer", "sampling", "synchronized", "buffered"}).Draw(t, "collector")
	c.Class(kind)
	switch kind {
	case "base":
		coll = ftdc.NewBaseCollector(len(docs))
	case "batch":
		coll = ftdc.NewBatchCollector(size)
	case "dynamic":
		coll = ftdc.NewDynamicCollector(size)
	case "streaming":
		coll = ftdc.NewStreamingCollector(size, buf)
	case "streaming dynamic":
		coll = ftdc.NewStreamingDynamicCollector(size, buf)
	case "sampling":
		coll = ftdc.NewSamplingCollector(0, ftdc.NewBatchCollector(size))
	case "synchronized":
		coll = ftdc.NewSynchronizedCollector(ftdc.NewBatchCollector(size))
	case "buffered":
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		coll = ftdc.NewBufferedCollector(ctx, size, ftdc.NewBatchCollector(size))
	case "writer":
		w := ftdc.NewWriterCollector(size, nopCloser{buf})
		for i, d := range docs {
			b := bm.EncodeFields(d)
			if n, err := w.Write(b); n != len(b) || err != nil {
				c.Failf("writing document %d: %d, %v", i, n, err)
			}
		}
		if err := w.Close(); err != nil {
			c.Failf("closing: %v", err)
		}
		return buf.Bytes()
	}
	for i, d := range docs {
		if err := coll.Add(fm.NewInput(t, d).Value); err != nil {
			c.Failf("adding document %d: %v", i, err)
		}
	}
	if kind == "streaming" || kind == "streaming dynamic" || rapid.Bool().Draw(t, "flush") {
		if err := ftdc.FlushCollector(coll, buf); err != nil {
			c.Failf("flush: %v", err)
		}
		return buf.Bytes()
	}
	b, err := coll.Resolve()
	if err != nil {
		c.Failf("resolve: %v", err)
	}
	return b
}

func reader(t *rapid.T, b []byte) io.Reader {
	r := bytes.NewReader(b)
	switch rapid.IntRange(0, 4).Draw(t, "reader") {
	case 0:
		return iotest.HalfReader(r)
	case 1:
		return iotest.DataErrReader(r)
	case 2:
		if len(b) < 2000 {
			return iotest.OneByteReader(r)
		}
	}
	return r
}

func all[T any](c *prop.C, name string, it *ftdc.Iterator[T]) []T {
	var out []T
	c.NoPanic(name, func() { out = slices.Collect(it.Iterator()) })
	if err := it.Close(); err != nil {
		c.Failf("%s: %v", name, err)
	}
	return out
}

func fields(c *prop.C, d *birch.Document) []bm.Field {
	fs, err := bm.FromDocErr(d)
	if err != nil {
		c.Failf("document cannot be read: %v", err)
	}
	return fs
}

func same(c *prop.C, what string, got, want []bm.Field) {
	if !bm.FieldsEqual(got, want) {
		c.Failf("%s:\n got  %s\n want %s", what, bm.Show(got), bm.Show(want))
	}
}

// views reads everything through every view.
func views(c *prop.C, b []byte, docs [][]bm.Field) {
	t := c.T
	flat := all(c, "ReadMetrics", ftdc.ReadMetrics(reader(t, b)))
	if len(flat) != len(docs) {
		c.Failf("ReadMetrics: %d samples, want %d", len(flat), len(docs))
	}
	for i, d := range flat {
		same(c, fmt.Sprintf("flattened sample %d", i), fields(c, d), fm.FlatDoc(docs[i]))
	}
	structured := all(c, "ReadStructuredMetrics", ftdc.ReadStructuredMetrics(reader(t, b)))
	if len(structured) != len(docs) {
		c.Failf("ReadStructuredMetrics: %d samples, want %d", len(structured), len(docs))
	}
	for i, d := range structured {
		same(c, fmt.Sprintf("structured sample %d", i), fm.Prune(fields(c, d)), fm.Prune(docs[i]))
	}
	chunks := all(c, "ReadChunks", ftdc.ReadChunks(reader(t, b)))
	at := 0
	var groups [][][]bm.Field
	for i, ch := range chunks {
		n := ch.Size()
		if n < 1 || at+n > len(docs) {
			c.Failf("chunk %d has %d samples, %d left", i, n, len(docs)-at)
		}
		g := docs[at : at+n]
		groups = append(groups, g)
		if len(ch.Metrics) != ch.Len() || ch.Len() != len(fm.Flatten(g[0])) {
			c.Failf("chunk %d: %d metrics, Len %d, want %d", i, len(ch.Metrics), ch.Len(), len(fm.Flatten(g[0])))
		}
		for k, d := range g {
			for j, m := range fm.Flatten(d) {
				cm := ch.Metrics[j]
				if cm.Key() != m.Key || len(cm.Values) != n || cm.Values[k] != m.Values[0] {
					c.Failf("chunk %d metric %d is %q %v, want %q with %d at %d", i, j, cm.Key(), cm.Values, m.Key, m.Values[0], k)
				}
			}
		}
		for k, d := range all(c, "Chunk.Iterator", ch.Iterator()) {
			same(c, fmt.Sprintf("flattened sample %d of chunk %d", k, i), fields(c, d), fm.FlatDoc(g[k]))
		}
		for k, d := range all(c, "Chunk.StructuredIterator", ch.StructuredIterator()) {
			same(c, fmt.Sprintf("structured sample %d of chunk %d", k, i), fm.Prune(fields(c, d)), fm.Prune(g[k]))
		}
		at += n
	}
	if at != len(docs) {
		c.Failf("chunks have %d samples, want %d", at, len(docs))
	}
	matrix := all(c, "ReadMatrix", ftdc.ReadMatrix(reader(t, b)))
	if len(matrix) != len(groups) {
		c.Failf("ReadMatrix: %d documents for %d chunks", len(matrix), len(groups))
	}
	for i, d := range matrix {
		same(c, fmt.Sprintf("matrix %d", i), fields(c, d), fm.Matrix(groups[i]))
	}
	if !fm.UniqueKeys(docs[0]) {
		c.Class("ambiguous paths")
		return
	}
	series := all(c, "ReadSeries", ftdc.ReadSeries(reader(t, b)))
	if len(series) != len(groups) {
		c.Failf("ReadSeries: %d documents for %d chunks", len(series), len(groups))
	}
	for i, d := range series {
		want := fm.Series(groups[i])
		got := fields(c, d)
		if len(got) != len(want) {
			c.Failf("series %d has %d metrics, want %d", i, len(got), len(want))
		}
		for _, f := range got {
			if w := want[f.K]; w == nil || !f.V.Equal(w) {
				c.Failf("series %d metric %q is %v, want %v", i, f.K, f.V, w)
			}
		}
	}
}

// spoil changes a document everywhere.
func spoil(d *birch.Document) {
	for e := range d.Iterator() {
		spoilValue(e.Value())
	}
	if d.Len() > 0 {
		d.Delete(d.ElementAt(0).Key())
	}
	d.Append(birch.EC.Int64("spoilt", 1))
}

func spoilValue(v *birch.Value) {
	if d, ok := v.MutableDocumentOK(); ok {
		spoil(d)
	} else if a, ok := v.MutableArrayOK(); ok {
		for x := range a.Iterator() {
			spoilValue(x)
		}
		a.Append(birch.VC.Int64(1))
	}
}

// owned changes every document that it is given, which alters no other.
func owned(c *prop.C, b []byte, docs [][]bm.Field) {
	check := func(what string, seq iter.Seq[*birch.Document], want func(int) []bm.Field, n int) {
		i := 0
		for d := range seq {
			if i == n {
				c.Failf("%s: more than %d documents", what, n)
			}
			got := fields(c, d)
			if strings.HasPrefix(what, "structured") {
				got = fm.Prune(got)
			}
			same(c, fmt.Sprintf("%s %d, after others were changed", what, i), got, want(i))
			spoil(d)
			i++
		}
		if i != n {
			c.Failf("%s: %d documents, want %d", what, i, n)
		}
	}
	at := 0
	for ch := range ftdc.ReadChunks(bytes.NewReader(b)).Iterator() {
		g := docs[at : at+ch.Size()]
		for range 2 {
			check("structured document of a chunk", ch.StructuredIterator().Iterator(), func(i int) []bm.Field { return fm.Prune(g[i]) }, len(g))
			check("document of a chunk", ch.Iterator().Iterator(), func(i int) []bm.Field { return fm.FlatDoc(g[i]) }, len(g))
		}
		at += len(g)
	}
	check("structured document", ftdc.ReadStructuredMetrics(bytes.NewReader(b)).Iterator(), func(i int) []bm.Field { return fm.Prune(docs[i]) }, len(docs))
	check("document", ftdc.ReadMetrics(bytes.NewReader(b)).Iterator(), func(i int) []bm.Field { return fm.FlatDoc(docs[i]) }, len(docs))
}

// foreignReader decodes the bytes independently.
func foreignReader(c *prop.C, b []byte, docs [][]bm.Field) {
	chunks, err := fm.Decode(b)
	if err != nil {
		c.Failf("the data is not in the metrics format: %v", err)
	}
	at := 0
	for i, ch := range chunks {
		if at+ch.Size > len(docs) {
			c.Failf("too many samples")
		}
		for k := 0; k < ch.Size; k++ {
			want := fm.Flatten(docs[at+k])
			if len(ch.Metrics) != len(want) {
				c.Failf("chunk %d has %d metrics, want %d", i, len(ch.Metrics), len(want))
			}
			for j, m := range want {
				if g := ch.Metrics[j]; g.Key != m.Key || g.T != m.T || g.Values[k] != m.Values[0] {
					c.Failf("decoded chunk %d metric %d sample %d: %v, want %v", i, j, k, g, m)
				}
			}
		}
		at += ch.Size
	}
	if at != len(docs) {
		c.Failf("decoded %d samples, want %d", at, len(docs))
	}
}

func drawDocs(c *prop.C) [][]bm.Field {
	t := c.T
	shape := fm.Shape(t, fm.ShapeOpts{Others: rapid.Bool().Draw(t, "others"), Min: rapid.SampledFrom([]int{1, 1, 1, 0}).Draw(t, "min")})
	n := rapid.SampledFrom([]int{2, 3, 5, 1, 8, 12, 40, 150, 2000}).Draw(t, "n")
	switch l := len(fm.Flatten(shape)); {
	case n > 40 && l > 12:
		n = 40
	case n > 150 && (l > 4 || rapid.IntRange(0, 5).Draw(t, "long") > 0):
		n = 150
	}
	docs := fm.Docs(t, shape, n)
	for i, d := range docs {
		if i < 12 {
			c.Note("%s", bm.Show(d))
		}
	}
	if len(fm.Flatten(shape)) > 0 && n > 1 {
		c.NonTrivial(fmt.Sprint(n, bm.Show(docs[n-1])))
	}
	return docs
}

func collect(c *prop.C) {
	docs := drawDocs(c)
	b := emit(c, docs)
	views(c, b, docs)
	foreignReader(c, b, docs)
	if len(docs) < 200 && rapid.IntRange(0, 3).Draw(c.T, "change results") == 0 {
		owned(c, b, docs)
	}
}

// foreign reads data written by another implementation of the format.
func foreign(c *prop.C) {
	t := c.T
	docs := drawDocs(c)
	cut := 0
	var stream []byte
	for cut < len(docs) {
		n := rapid.IntRange(1, len(docs)-cut).Draw(t, "samples")
		if rapid.Bool().Draw(t, "metadata") {
			stream = append(stream, bm.EncodeFields(fm.MetadataDoc(nil, 1))...)
		}
		if rapid.IntRange(0, 3).Draw(t, "unrelated") == 0 {
			stream = append(stream, bm.EncodeFields([]bm.Field{bm.F("type", bm.NInt32(2)), bm.F("x", bm.NString("y"))})...)
		}
		p := fm.Payload(docs[cut:cut+n], func(z int) int {
			if rapid.IntRange(0, 2).Draw(t, "split") == 0 {
				return rapid.IntRange(1, z).Draw(t, "run")
			}
			return z
		})
		d := fm.ChunkDoc(fm.Compress(p, rapid.SampledFrom([]int{zlib.DefaultCompression, 0, 1, 9}).Draw(t, "level")), 5)
		d[1].V = rapid.SampledFrom([]*bm.Node{bm.NInt32(1), bm.NInt64(1), bm.NDouble(1)}).Draw(t, "type")
		stream = append(stream, bm.EncodeFields(d)...)
		cut += n
	}
	views(c, stream, docs)
}

// long collects chunks with long runs of unchanged values.
func long(c *prop.C) {
	t := c.T
	width := rapid.SampledFrom([]int{1, 2, 3, 100, 256, 300}).Draw(t, "metrics")
	total := rapid.SampledFrom([]int{127, 128, 129, 16383, 16384, 32768, 65535, 65536, 65537, 70000, 140000}).Draw(t, "values")
	n := total/width + 2
	shape := make([]bm.Field, width)
	for j := range shape {
		shape[j] = bm.F(fmt.Sprint("m", j), bm.GenOfType(t, bm.Opts{}, rapid.SampledFrom([]byte{bm.Int64, bm.Int64, bm.DateTime, bm.Bool}).Draw(t, "type"), 0))
	}
	docs := make([][]bm.Field, n)
	changes := map[int]bool{}
	for i := rapid.IntRange(0, 3).Draw(t, "changes"); i > 0; i-- {
		changes[rapid.SampledFrom([]int{1, n - 1, n / 2, rapid.IntRange(0, n-1).Draw(t, "at")}).Draw(t, "change")] = true
	}
	enc := bm.EncodeFields(shape)
	encs := make([][]byte, n)
	for i := range docs {
		if changes[i] {
			shape = bm.CloneFields(shape)
			j := rapid.IntRange(0, width-1).Draw(t, "metric")
			shape[j].V = bm.GenOfType(t, bm.Opts{}, shape[j].V.T, 0)
			enc = bm.EncodeFields(shape)
			c.Note("sample %d changes %q to %v", i, shape[j].K, shape[j].V)
		}
		docs[i], encs[i] = shape, enc
	}
	c.Note("%d samples of %d metrics", n, width)
	c.NonTrivial(fmt.Sprint(n, width, len(changes), bm.Show(shape[:1])))
	coll := ftdc.NewBaseCollector(n)
	for i := range encs {
		if err := coll.Add(encs[i]); err != nil {
			c.Failf("adding sample %d: %v", i, err)
		}
	}
	b, err := coll.Resolve()
	if err != nil {
		c.Failf("resolve: %v", err)
	}
	foreignReader(c, b, docs)
	chunks := all(c, "ReadChunks", ftdc.ReadChunks(bytes.NewReader(b)))
	if len(chunks) != 1 || chunks[0].Size() != n || len(chunks[0].Metrics) != width {
		c.Failf("%d chunks", len(chunks))
	}
	for j, m := range chunks[0].Metrics {
		var last *bm.Field
		var want int64
		for k := range docs {
			if f := &docs[k][j]; f != last {
				last, want = f, fm.Flatten([]bm.Field{*f})[0].Values[0]
			}
			if m.Values[k] != want {
				c.Failf("metric %d sample %d: %d, want %d", j, k, m.Values[k], want)
			}
		}
	}
}

// wide collects documents with very many metrics, or very deep ones.
func wide(c *prop.C) {
	t := c.T
	metric := func() *bm.Node {
		ty := rapid.SampledFrom(fm.MetricTypes).Draw(t, "type")
		return bm.GenOfType(t, bm.Opts{}, ty, 0)
	}
	var shape []bm.Field
	n := rapid.SampledFrom([]int{3, 9, 10, 11, 99, 100, 101, 127, 128, 255, 256, 257, 999, 1000, 1001, 1500}).Draw(t, "width")
	kinds := []*bm.Node{metric(), metric(), metric()}
	kids := func(key func(int) string) (fs []bm.Field) {
		for i := 0; i < n; i++ {
			fs = append(fs, bm.F(key(i), kinds[i%3]))
		}
		return fs
	}
	kind := rapid.SampledFrom([]string{"array", "fields", "deep", "arrays"}).Draw(t, "kind")
	c.Class(kind)
	name := func(i int) string { return fmt.Sprint("m", i) }
	index := func(i int) string { return fmt.Sprint(i) }
	switch kind {
	case "array":
		shape = []bm.Field{bm.F("a", &bm.Node{T: bm.Array, Kids: kids(index)}), bm.F("z", metric())}
	case "fields":
		shape = kids(name)
	case "deep":
		shape = []bm.Field{bm.F("m", metric())}
		for i := min(n, 60); i > 0; i-- {
			v := bm.NDoc(shape...)
			k := rapid.SampledFrom([]string{"k", "a", "kk"}).Draw(t, "key")
			if rapid.Bool().Draw(t, "in an array") {
				v = &bm.Node{T: bm.Array, Kids: []bm.Field{bm.F("0", v)}}
			}
			shape = []bm.Field{bm.F(k, v), bm.F("z", metric())}
		}
	case "arrays":
		for i := 0; i < n; i += 40 {
			m := n
			n = min(40, m-i)
			shape = append(shape, bm.F(name(i), &bm.Node{T: bm.Array, Kids: []bm.Field{bm.F("0", bm.NDoc(kids(name)...)), bm.F("1", metric())}}))
			n = m
		}
	}
	docs := make([][]bm.Field, rapid.IntRange(2, 5).Draw(t, "n"))
	s := fm.NewStream(t, shape, false)
	for i := range docs {
		docs[i] = s.Next()
	}
	c.Note("%s of %d: %d metrics, %d samples", kind, n, len(fm.Flatten(shape)), len(docs))
	b := emit(c, docs)
	views(c, b, docs)
	foreignReader(c, b, docs)
	c.NonTrivial(b)
}

// endless repeats a stream for ever.
type endless struct {
	b  []byte
	at int
}

func (r *endless) Read(p []byte) (int, error) {
	n := copy(p, r.b[r.at:])
	r.at = (r.at + n) % len(r.b)
	return n, nil
}

// abandoned stops reading part way, of data that need not end: what was read
// is right, and nothing is left running.
func abandoned(c *prop.C) {
	t := c.T
	shape := fm.Shape(t, fm.ShapeOpts{Min: 1})
	docs := fm.Docs(t, shape, rapid.IntRange(1, 12).Draw(t, "n"))
	var stream []byte
	for cut := 0; cut < len(docs); {
		n := rapid.IntRange(1, len(docs)-cut).Draw(t, "samples")
		p := fm.Payload(docs[cut:cut+n], func(z int) int { return z })
		stream = append(stream, bm.EncodeFields(fm.ChunkDoc(fm.Compress(p, 1), 5))...)
		cut += n
	}
	before := runtime.NumGoroutine()
	var r io.Reader = &endless{b: stream}
	ends := rapid.Bool().Draw(t, "ends")
	if ends {
		r = bytes.NewReader(stream)
	}
	k := rapid.IntRange(0, 2*len(docs)+1).Draw(t, "read")
	view := rapid.SampledFrom([]string{"metrics", "structured", "chunks", "matrix", "series"}).Draw(t, "view")
	c.Note("%d documents, %d read of %s, ends %v", len(docs), k, view, ends)
	i := 0
	doc := func(flat bool) func(*birch.Document) bool {
		return func(d *birch.Document) bool {
			want := docs[i%len(docs)]
			if flat {
				want = fm.FlatDoc(want)
			}
			same(c, fmt.Sprintf("%s sample %d", view, i), fields(c, d), want)
			i++
			return i < k
		}
	}
	var err error
	c.NoPanic(view, func() {
		switch view {
		case "metrics":
			it := ftdc.ReadMetrics(r)
			it.Iterator()(doc(true))
			err = it.Close()
		case "structured":
			it := ftdc.ReadStructuredMetrics(r)
			it.Iterator()(doc(false))
			err = it.Close()
		case "chunks":
			it := ftdc.ReadChunks(r)
			it.Iterator()(func(ch *ftdc.Chunk) bool {
				more := true
				stop := rapid.Bool().Draw(t, "inside")
				in := ch.Iterator()
				in.Iterator()(func(d *birch.Document) bool {
					more = doc(true)(d)
					return more || !stop
				})
				if err := in.Close(); err != nil {
					c.Failf("chunk: %v", err)
				}
				return more
			})
			err = it.Close()
		default:
			it := ftdc.ReadSeries(r)
			if view == "matrix" {
				it = ftdc.ReadMatrix(r)
			}
			it.Iterator()(func(d *birch.Document) bool {
				i++
				return i < k
			})
			err = it.Close()
		}
	})
	if err != nil {
		c.Failf("%s: %v", view, err)
	}
	c.Settled(before, "reading "+view)
	c.Class(view)
	if k > 1 {
		c.NonTrivial(fmt.Sprint(view, k, bm.Show(docs[0])))
	}
}

func main() {
	util.RegisterGlobalMarshaler(fm.Marshal)
	prop.Main(prop.Spec{
		ID:   "F01",
		Rule: "at least one metric and two samples, distinct by the last sample; abandoned: more than one sample read",
		Assumptions: []string{
			"the structured view is compared without values that are not metrics, and without documents and arrays that have no metrics",
			"the series view is compared when all paths are different, as it is keyed by path",
		},
		Subs: []prop.Sub{
			{Name: "collect", Quick: 6000, Thorough: 250000, Shards: 4, HangIsViolation: true, Fn: collect},
			{Name: "foreign", Quick: 2500, Thorough: 120000, Shards: 2, HangIsViolation: true, Fn: foreign},
			{Name: "abandoned", Quick: 4000, Thorough: 100000, HangIsViolation: true, Fn: abandoned},
			{Name: "wide", Quick: 150, Thorough: 8000, Shards: 2, HangIsViolation: true, Fn: wide},
			{Name: "long", Quick: 24, Thorough: 1500, Shards: 2, HangIsViolation: true, Fn: long},
		},
	})
}
