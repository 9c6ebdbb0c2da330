// F04: corrupt or truncated metric data is an error, never a crash.
package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"slices"
	"testing/iotest"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
	"github.com/tychoish/birch/x/ftdc/util"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/fm"
	"verif/harness/prop"
)

// judge reads the bytes and compares what is read with what the reference
// decoder reads from them.
func judge(c *prop.C, b []byte, r io.Reader, failing error) {
	t := c.T
	want, werr := fm.Decode(b)
	large := errors.Is(werr, fm.ErrLarge)
	c.Journal()
	it := ftdc.ReadChunks(r)
	var chunks []*ftdc.Chunk
	c.NoPanic("ReadChunks", func() {
		for ch := range it.Iterator() {
			chunks = append(chunks, ch)
		}
	})
	err := it.Close()
	switch {
	case large:
		c.Class("large")
		return
	case werr != nil:
		c.Class("damaged")
		if err == nil {
			c.Failf("damaged data (%v) is not an error; %d chunks", werr, len(chunks))
		}
	case failing != nil:
		c.Class("failing reader")
		if !errors.Is(err, failing) {
			c.Failf("the error of the reader is reported as %v", err)
		}
	default:
		c.Class("intact")
		if err != nil {
			c.Failf("intact data is an error: %v", err)
		}
	}
	if len(chunks) != len(want) {
		c.Failf("%d chunks, want %d (%v; %v)", len(chunks), len(want), werr, err)
	}
	samples, capped := 0, false
	for i, ch := range chunks {
		w := want[i]
		if ch.Size() != w.Size || len(ch.Metrics) != len(w.Metrics) {
			c.Failf("chunk %d has %d samples of %d metrics, want %d of %d", i, ch.Size(), len(ch.Metrics), w.Size, len(w.Metrics))
		}
		for j, m := range w.Metrics {
			if g := ch.Metrics[j]; g.Key() != m.Key || !slices.Equal(g.Values, m.Values) {
				c.Failf("chunk %d metric %d is %q %v, want %q %v", i, j, g.Key(), g.Values, m.Key, m.Values)
			}
		}
		samples += ch.Size()
		capped = capped || ch.Size() > 3000
	}
	if capped {
		return
	}
	// every view delivers the same samples, and the same verdict
	count := func(name string, it *ftdc.Iterator[*birch.Document], want int) {
		n := 0
		stop := -1
		if want > 0 && rapid.IntRange(0, 3).Draw(t, "stop early") == 0 {
			stop = rapid.IntRange(1, want).Draw(t, "stop")
		}
		c.NoPanic(name, func() {
			for d := range it.Iterator() {
				if d == nil {
					c.Failf("%s: nil document", name)
				}
				if n++; n == stop {
					break
				}
			}
		})
		if stop >= 0 {
			return
		}
		if n != want {
			c.Failf("%s: %d documents, want %d", name, n, want)
		}
		if e := it.Close(); (e == nil) != (err == nil) {
			c.Failf("%s: %v, chunks: %v", name, e, err)
		}
	}
	if failing != nil {
		return
	}
	count("ReadMetrics", ftdc.ReadMetrics(bytes.NewReader(b)), samples)
	count("ReadStructuredMetrics", ftdc.ReadStructuredMetrics(bytes.NewReader(b)), samples)
	count("ReadMatrix", ftdc.ReadMatrix(bytes.NewReader(b)), len(chunks))
	count("ReadSeries", ftdc.ReadSeries(bytes.NewReader(b)), len(chunks))
	c.NoPanic("WriteCSV", func() { _ = ftdc.WriteCSV(slices.Values(chunks), io.Discard) })
}

type part struct {
	docs    [][]bm.Field
	payload []byte
	data    []byte
	doc     []bm.Field
	bytes   []byte
}

func parts(t *rapid.T, n int) []*part {
	var out []*part
	for i := 0; i < n; i++ {
		p := &part{}
		shape := fm.Shape(t, fm.ShapeOpts{Others: rapid.IntRange(0, 2).Draw(t, "others") == 0, MaxLen: 3, MaxDepth: 2, Min: rapid.IntRange(0, 1).Draw(t, "min")})
		p.docs = fm.Docs(t, shape, rapid.IntRange(1, 5).Draw(t, "samples"))
		p.payload = fm.Payload(p.docs, func(z int) int { return z })
		out = append(out, p)
	}
	return out
}

func (p *part) finish() {
	if p.data == nil {
		p.data = fm.Compress(p.payload, 6)
	}
	if p.doc == nil {
		p.doc = fm.ChunkDoc(p.data, 7)
	}
	if p.bytes == nil {
		p.bytes = bm.EncodeFields(p.doc)
	}
}

func stream(ps []*part) (b []byte) {
	for _, p := range ps {
		p.finish()
		b = append(b, p.bytes...)
	}
	return b
}

// flip changes some bytes.
func flip(t *rapid.T, b []byte) []byte {
	b = bytes.Clone(b)
	for i := rapid.SampledFrom([]int{1, 1, 1, 2, 4}).Draw(t, "changes"); i > 0 && len(b) > 0; i-- {
		at := rapid.IntRange(0, len(b)-1).Draw(t, "at")
		switch rapid.IntRange(0, 4).Draw(t, "change") {
		case 0:
			b[at] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		case 1:
			b[at] = rapid.SampledFrom([]byte{0, 1, 0x7f, 0x80, 0xff}).Draw(t, "byte")
		case 2:
			b = slices.Delete(b, at, min(len(b), at+rapid.IntRange(1, 6).Draw(t, "gone")))
		case 3:
			b = slices.Insert(b, at, rapid.SliceOfN(rapid.Byte(), 1, 6).Draw(t, "insert")...)
		case 4:
			b = b[:at]
		}
	}
	return b
}

func corrupt(c *prop.C) {
	t := c.T
	ps := parts(t, rapid.IntRange(1, 3).Draw(t, "chunks"))
	if rapid.Bool().Draw(t, "metadata") {
		md := &part{bytes: bm.EncodeFields(fm.MetadataDoc([]bm.Field{bm.F("a", bm.NString("b"))}, 1))}
		ps = slices.Insert(ps, rapid.IntRange(0, len(ps)).Draw(t, "where"), md)
	}
	victim := rapid.SampledFrom(ps).Draw(t, "victim")
	layer := rapid.SampledFrom([]string{"bytes", "truncate", "document", "data", "payload", "reference", "counts", "deltas", "trailing", "size", "reader"}).Draw(t, "layer")
	if victim.payload == nil {
		layer = rapid.SampledFrom([]string{"bytes", "truncate", "document"}).Draw(t, "layer")
	}
	c.Class("layer " + layer)
	ref := 0
	if victim.payload != nil {
		ref = int(binary.LittleEndian.Uint32(victim.payload))
	}
	var failing error
	switch layer {
	case "document":
		victim.finish()
		if victim.doc == nil {
			victim.doc, _ = bm.DecodeDoc(victim.bytes)
		}
		d := bm.CloneFields(victim.doc)
		switch rapid.IntRange(0, 4).Draw(t, "how") {
		case 0:
			i := rapid.IntRange(0, len(d)-1).Draw(t, "field")
			d = slices.Delete(d, i, i+1)
		case 1:
			i := rapid.IntRange(0, len(d)-1).Draw(t, "field")
			d[i].V = bm.GenNode(t, bm.Opts{MaxDepth: 1}, 0)
		case 2:
			i := rapid.IntRange(0, len(d)-1).Draw(t, "field")
			d[i].K += "x"
		case 3:
			i := rapid.IntRange(0, len(d)).Draw(t, "field")
			d = slices.Insert(d, i, bm.F(rapid.SampledFrom([]string{"type", "data", "_id", "x"}).Draw(t, "key"), bm.GenNode(t, bm.Opts{MaxDepth: 1}, 0)))
		default:
			d[1].V = rapid.SampledFrom([]*bm.Node{bm.NInt32(2), bm.NInt64(1), bm.NDouble(1), bm.NDouble(0), bm.NInt64(0), bm.NString("1"), bm.NInt32(-1), bm.NInt64(1 << 32), bm.NInt64(1<<32 + 1)}).Draw(t, "type")
		}
		victim.doc, victim.bytes = d, bm.EncodeFields(d)
		if rapid.IntRange(0, 3).Draw(t, "encoding") == 0 {
			b, note := bm.Mutate(t, d, victim.bytes)
			c.Note("%s", note)
			victim.bytes = b
		}
	case "data":
		victim.data = flip(t, fm.Compress(victim.payload, 6))
	case "payload":
		victim.payload = flip(t, victim.payload)
	case "reference":
		b, note := bm.Mutate(t, victim.docs[0], victim.payload[:ref])
		c.Note("%s", note)
		victim.payload = append(bytes.Clone(b), victim.payload[ref:]...)
	case "counts":
		p := bytes.Clone(victim.payload)
		off := ref + 4*rapid.IntRange(0, 1).Draw(t, "which")
		old := binary.LittleEndian.Uint32(p[off:])
		v := rapid.SampledFrom([]uint32{0, 1, old + 1, old - 1, old * 2, 1 << 31, 1<<32 - 1, 1<<31 - 1, 1 << 16, 1 << 26}).Draw(t, "count")
		binary.LittleEndian.PutUint32(p[off:], v)
		c.Note("count %d -> %d", old, v)
		victim.payload = p
	case "deltas":
		p := bytes.Clone(victim.payload[:ref+8])
		n := rapid.IntRange(0, 20).Draw(t, "integers")
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 3).Draw(t, "integer") {
			case 0:
				p = append(p, 0)
			case 1:
				p = binary.AppendUvarint(p, uint64(rapid.IntRange(0, 10).Draw(t, "small")))
			case 2:
				p = binary.AppendUvarint(p, rapid.Uint64().Draw(t, "delta"))
			default:
				p = append(p, rapid.SliceOfN(rapid.SampledFrom([]byte{0, 0x80, 0xff, 1}), 1, 12).Draw(t, "bytes")...)
			}
		}
		victim.payload = p
	case "trailing":
		victim.payload = append(bytes.Clone(victim.payload), rapid.SliceOfN(rapid.Byte(), 1, 5).Draw(t, "more")...)
	case "size":
		victim.data = fm.Compress(victim.payload, 6)
		n := binary.LittleEndian.Uint32(victim.data)
		binary.LittleEndian.PutUint32(victim.data, rapid.SampledFrom([]uint32{0, n - 1, n + 1, 1<<32 - 1, n ^ 1<<31}).Draw(t, "size"))
	}
	b := stream(ps)
	whole := bytes.Clone(b)
	switch layer {
	case "bytes":
		b = flip(t, b)
	case "truncate":
		b = b[:rapid.IntRange(0, len(b)).Draw(t, "length")]
	}
	var r io.Reader = bytes.NewReader(b)
	switch rapid.IntRange(0, 3).Draw(t, "reader") {
	case 0:
		r = iotest.HalfReader(r)
	case 1:
		r = iotest.DataErrReader(r)
	}
	if layer == "reader" {
		// the reader fails between two documents, or within one
		failing = errors.New("failing reader")
		b = b[:rapid.IntRange(0, len(b)).Draw(t, "length")]
		r = io.MultiReader(bytes.NewReader(b), iotest.ErrReader(failing))
		if docs, err := fm.SplitDocs(b); err != nil {
			// the truncated document is not the problem
			n := 0
			for _, d := range docs {
				n += len(d)
			}
			b = b[:n]
		}
	}
	if !bytes.Equal(b, whole) || layer != "bytes" && layer != "truncate" {
		c.NonTrivial(b)
	}
	c.Note("%d bytes, %s: %x", len(b), layer, b)
	judge(c, b, r, failing)
}

func random(c *prop.C) {
	t := c.T
	var b []byte
	switch rapid.IntRange(0, 3).Draw(t, "kind") {
	case 0:
		b = rapid.SliceOfN(rapid.Byte(), 0, 80).Draw(t, "bytes")
	case 1: // a random document
		b = bm.EncodeFields(bm.GenDoc(t, bm.Opts{MaxDepth: 2}))
	case 2: // a chunk of random data
		b = bm.EncodeFields(fm.ChunkDoc(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "data"), 1))
	default: // a chunk of a random payload
		p := rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "payload")
		if rapid.Bool().Draw(t, "reference") {
			p = append(bm.EncodeFields(bm.GenDoc(t, bm.Opts{MaxDepth: 2})), p...)
		}
		b = bm.EncodeFields(fm.ChunkDoc(fm.Compress(p, 6), 1))
	}
	c.Note("%x", b)
	if len(b) > 0 {
		c.NonTrivial(b)
	}
	judge(c, b, bytes.NewReader(b), nil)
}

// truncations tries every prefix of a stream.
func truncations(c *prop.C) {
	ps := parts(c.T, rapid.IntRange(1, 2).Draw(c.T, "chunks"))
	b := stream(ps)
	c.Note("%x", b)
	c.NonTrivial(b)
	ends := map[int]int{0: 0}
	n := 0
	for i, p := range ps {
		n += len(p.bytes)
		ends[n] = i + 1
	}
	whole := 0
	for i := 0; i <= len(b); i++ {
		at, boundary := ends[i]
		if boundary {
			whole = at
		}
		it := ftdc.ReadChunks(bytes.NewReader(b[:i]))
		n := 0
		for range it.Iterator() {
			n++
		}
		if n != whole {
			c.Failf("%d chunks of %d from %d bytes", n, whole, i)
		}
		if err := it.Close(); (err == nil) != boundary {
			c.Failf("%d bytes: %v; at the end of a chunk: %v", i, err, boundary)
		}
	}
	_ = fmt.Sprint
}

func main() {
	util.RegisterGlobalMarshaler(fm.Marshal)
	prop.Main(prop.Spec{
		ID:   "F04",
		Rule: "corrupt: the bytes differ from the valid stream (or one of its layers does); random: not empty; distinct by the bytes",
		Assumptions: []string{
			"the reference decoder defines which bytes are intact; it shares only the zlib implementation with the code",
			"chunks of more than 4M values may be refused, whatever they contain",
			"documents of other types than chunks and metadata are skipped",
		},
		Subs: []prop.Sub{
			{Name: "corrupt", Quick: 32000, Thorough: 400000, Shards: 4, HangIsViolation: true, Fn: corrupt},
			{Name: "random", Quick: 8000, Thorough: 200000, Shards: 2, HangIsViolation: true, Fn: random},
			{Name: "truncations", Quick: 800, Thorough: 8000, Shards: 2, HangIsViolation: true, Fn: truncations},
		},
	})
}
