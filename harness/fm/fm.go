// Package fm is a reference model of the metrics (FTDC) format, written
// independently of the implementation: shapes and streams of metric
// documents, what each view of them contains, an encoder and a decoder.
package fm

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"slices"
	"strconv"
	"strings"
	"time"

	"github.com/tychoish/birch"
	"pgregory.net/rapid"
	"verif/harness/bm"
)

// MetricTypes are the types of values that are metrics.
var MetricTypes = []byte{bm.Bool, bm.Double, bm.Int32, bm.Int64, bm.DateTime, bm.Timestamp}

// OtherTypes are types of values that are not.
var OtherTypes = []byte{bm.String, bm.ObjectID, bm.Null, bm.Binary, bm.Decimal, bm.Regex, bm.JS, bm.MinKey}

// Metric is one series of integers.
type Metric struct {
	Key    string
	T      byte
	Inc    bool // the second of the two metrics of a timestamp
	Values []int64
}

// IsMetric reports a type with values.
func IsMetric(t byte) bool { return bytes.IndexByte(MetricTypes, t) >= 0 }

func num(n *bm.Node) int64 {
	switch n.T {
	case bm.Int32:
		return int64(int32(n.U))
	case bm.Timestamp:
		return int64(n.U >> 32)
	}
	return int64(n.U)
}

// Flatten lists the metrics of a document, each with one value.
func Flatten(fs []bm.Field) []Metric {
	var out []Metric
	var walk func(prefix string, n *bm.Node)
	walk = func(key string, n *bm.Node) {
		switch {
		case n.T == bm.Doc:
			for _, f := range n.Kids {
				walk(key+"."+f.K, f.V)
			}
		case n.T == bm.Array:
			for i, f := range n.Kids {
				walk(key+"."+strconv.Itoa(i), f.V)
			}
		case IsMetric(n.T):
			out = append(out, Metric{Key: key, T: n.T, Values: []int64{num(n)}})
			if n.T == bm.Timestamp {
				out = append(out, Metric{Key: key + ".inc", T: n.T, Inc: true, Values: []int64{int64(uint32(n.U))}})
			}
		}
	}
	for _, f := range fs {
		walk(f.K, f.V)
	}
	return out
}

// FlatDoc is the flattened view of a document.
func FlatDoc(fs []bm.Field) []bm.Field {
	out := []bm.Field{}
	for _, m := range Flatten(fs) {
		out = append(out, bm.F(m.Key, flatValue(m)))
	}
	return out
}

func flatValue(m Metric) *bm.Node {
	v := m.Values[0]
	switch m.T {
	case bm.Int32:
		return bm.NInt32(int32(v))
	case bm.Timestamp:
		return bm.NInt64(v)
	}
	return &bm.Node{T: m.T, U: uint64(v)}
}

// Prune removes what is not a metric, and documents and arrays without any.
func Prune(fs []bm.Field) []bm.Field {
	out := []bm.Field{}
	for _, f := range fs {
		switch {
		case f.V.T == bm.Doc || f.V.T == bm.Array:
			if kids := Prune(f.V.Kids); len(kids) > 0 {
				if f.V.T == bm.Array {
					for i := range kids {
						kids[i].K = strconv.Itoa(i)
					}
				}
				out = append(out, bm.F(f.K, &bm.Node{T: f.V.T, Kids: kids}))
			}
		case IsMetric(f.V.T):
			out = append(out, f)
		}
	}
	return out
}

// Matrix is the matrix view of documents of one shape.
func Matrix(docs [][]bm.Field) []bm.Field {
	out := []bm.Field{}
	flat := make([][]Metric, len(docs))
	for i, d := range docs {
		flat[i] = Flatten(d)
	}
	for j, m := range flat[0] {
		if m.Inc {
			continue
		}
		arr := bm.NArray()
		for i := range docs {
			v := flatValue(flat[i][j])
			if m.T == bm.Timestamp {
				v = bm.NTime(uint32(flat[i][j].Values[0]), uint32(flat[i][j+1].Values[0]))
			}
			arr.Kids = append(arr.Kids, bm.F(strconv.Itoa(i), v))
		}
		out = append(out, bm.F(m.Key, arr))
	}
	return out
}

// Series is the series view, by key; keys must be unique.
func Series(docs [][]bm.Field) map[string]*bm.Node {
	out := map[string]*bm.Node{}
	flat := make([][]Metric, len(docs))
	for i, d := range docs {
		flat[i] = Flatten(d)
	}
	for j, m := range flat[0] {
		arr := bm.NArray()
		for i := range docs {
			arr.Kids = append(arr.Kids, bm.F(strconv.Itoa(i), flatValue(flat[i][j])))
		}
		out[m.Key] = arr
	}
	return out
}

// Marshal is a marshaler for the map of the series view.
func Marshal(in any) ([]byte, error) {
	m, ok := in.(map[string]any)
	if !ok {
		return nil, fmt.Errorf("cannot marshal %T", in)
	}
	var fs []bm.Field
	for k, v := range m {
		arr := bm.NArray()
		switch v := v.(type) {
		case []int64:
			for _, x := range v {
				arr.Kids = append(arr.Kids, bm.F("", bm.NInt64(x)))
			}
		case []int32:
			for _, x := range v {
				arr.Kids = append(arr.Kids, bm.F("", bm.NInt32(x)))
			}
		case []bool:
			for _, x := range v {
				arr.Kids = append(arr.Kids, bm.F("", bm.NBool(x)))
			}
		case []float64:
			for _, x := range v {
				arr.Kids = append(arr.Kids, bm.F("", bm.NDouble(x)))
			}
		case []time.Time:
			for _, x := range v {
				arr.Kids = append(arr.Kids, bm.F("", bm.NDate(x.UnixMilli())))
			}
		default:
			return nil, fmt.Errorf("cannot marshal %T", v)
		}
		fs = append(fs, bm.F(k, arr))
	}
	return bm.EncodeFields(fs), nil
}

// UniqueKeys reports that no two metrics have the same path.
func UniqueKeys(fs []bm.Field) bool {
	seen := map[string]bool{}
	for _, m := range Flatten(fs) {
		if seen[m.Key] {
			return false
		}
		seen[m.Key] = true
	}
	return true
}

// ShapeOpts bounds shapes.
type ShapeOpts struct {
	Others   bool // with values that are not metrics
	Min      int  // metrics
	MaxDepth int
	MaxLen   int
	Keys     *rapid.Generator[string]
}

// Shape draws a document to be used as the shape of others.
func Shape(t *rapid.T, o ShapeOpts) []bm.Field {
	if o.MaxDepth == 0 {
		o.MaxDepth = 3
	}
	if o.MaxLen == 0 {
		o.MaxLen = 4
	}
	if o.Keys == nil {
		o.Keys = rapid.OneOf(bm.SimpleKey(), bm.SimpleKey(), bm.Key())
		if !o.Others && rapid.IntRange(0, 7).Draw(t, "like a map") == 0 {
			return mapShape(t, o)
		}
	}
	types := append([]byte{bm.Doc, bm.Array}, MetricTypes...)
	if o.Others {
		types = append(types, OtherTypes...)
	}
	fs := bm.GenDoc(t, bm.Opts{Types: types, MaxDepth: o.MaxDepth, MaxLen: o.MaxLen, Keys: o.Keys})
	for i := 0; len(Flatten(fs)) < o.Min; i++ {
		ty := rapid.SampledFrom(MetricTypes).Draw(t, "type")
		fs = append(fs, bm.F(fmt.Sprint("m", i), bm.GenOfType(t, bm.Opts{}, ty, 0)))
	}
	return fs
}

// mapShape draws the shape of a document that maps can be used for.
func mapShape(t *rapid.T, o ShapeOpts) (fs []bm.Field) {
	types := rapid.SampledFrom([][]byte{{bm.Int64}, {bm.Int64}, {bm.Bool, bm.Double, bm.Int64, bm.Int32}}).Draw(t, "map of")
	seen := map[string]bool{}
	for i := rapid.IntRange(max(1, o.Min), o.MaxLen+2).Draw(t, "map length"); i > 0; i-- {
		k := o.Keys.Draw(t, "map key")
		if seen[k] {
			k = fmt.Sprint("k", i)
		}
		seen[k] = true
		fs = append(fs, bm.F(k, bm.GenOfType(t, bm.Opts{}, rapid.SampledFrom(types).Draw(t, "map value"), 0)))
	}
	slices.SortFunc(fs, func(a, b bm.Field) int { return strings.Compare(a.K, b.K) })
	return fs
}

func intMap[T int | int64 | uint | uint64](fs []bm.Field) Input {
	m := map[string]T{}
	for _, f := range fs {
		m[f.K] = T(f.V.U)
	}
	return Input{m, func() {
		for k := range m {
			m[k]++
		}
		m["changed"] = 1
	}}
}

// mapInput draws a map with the contents of the document, if there is one.
func mapInput(t *rapid.T, fs []bm.Field) (Input, bool) {
	ints, natural := true, true
	for i, f := range fs {
		if i > 0 && fs[i-1].K >= f.K {
			return Input{}, false
		}
		switch f.V.T {
		case bm.Int64:
			natural = natural && int64(f.V.U) >= 0
		case bm.Bool, bm.Double, bm.Int32:
			ints = false
		default:
			return Input{}, false
		}
	}
	if len(fs) == 0 {
		return Input{}, false
	}
	if ints {
		switch k := rapid.IntRange(0, 5).Draw(t, "map"); {
		case k == 0:
			return intMap[int](fs), true
		case k == 1:
			return intMap[int64](fs), true
		case k == 2 && natural:
			return intMap[uint](fs), true
		case k == 3 && natural:
			return intMap[uint64](fs), true
		}
	}
	m := map[string]any{}
	for _, f := range fs {
		switch f.V.T {
		case bm.Bool:
			m[f.K] = f.V.U != 0
		case bm.Int32:
			m[f.K] = int32(f.V.U)
		case bm.Int64:
			m[f.K] = int64(f.V.U)
		case bm.Double:
			m[f.K] = math.Float64frombits(f.V.U)
		}
	}
	return Input{m, func() {
		clear(m)
		m["changed"] = 1
	}}, true
}

// pattern is how the values of one metric change.
type pattern struct {
	kind int
	step int64
	rng  *rand.Rand
	t    *rapid.T
	last *bm.Node
}

func (p *pattern) next(n *bm.Node) *bm.Node {
	if p.last == nil {
		p.last = n
	}
	v := p.last.Clone()
	fresh := func() {
		switch {
		case p.t != nil:
			v = bm.GenOfType(p.t, bm.Opts{}, n.T, 0)
		case n.T == bm.Bool:
			v.U = p.rng.Uint64() & 1
		case n.T == bm.Int32:
			v.U = uint64(uint32(p.rng.Uint64() >> p.rng.UintN(64)))
		default:
			v.U = p.rng.Uint64() >> p.rng.UintN(64)
			if p.rng.UintN(2) == 0 {
				v.U = -v.U
			}
		}
	}
	switch p.kind {
	case 0: // constant
	case 1: // counter
		switch n.T {
		case bm.Bool:
			v.U ^= 1
		case bm.Int32:
			v.U = uint64(uint32(v.U) + uint32(p.step))
		case bm.Double:
			v = bm.NDouble(v.Float() + float64(p.step)/8)
		default:
			v.U += uint64(p.step)
		}
	case 2: // runs
		if p.t != nil && rapid.IntRange(0, 3).Draw(p.t, "run") == 0 || p.t == nil && p.rng.UintN(8) == 0 {
			fresh()
		}
	default:
		fresh()
	}
	p.last = v
	return v
}

// Stream produces documents of one shape.
type Stream struct {
	Shape    []bm.Field
	patterns []*pattern
	t        *rapid.T
	small    bool
}

// NewStream draws how the values of a shape change. The values of small
// streams are drawn one by one, those of others from a seed.
func NewStream(t *rapid.T, shape []bm.Field, small bool) *Stream {
	return &Stream{Shape: shape, t: t, small: small}
}

// Next produces the next document.
func (s *Stream) Next() []bm.Field {
	i := 0
	var vary func(fs []bm.Field) []bm.Field
	vary = func(fs []bm.Field) []bm.Field {
		out := []bm.Field{}
		for _, f := range fs {
			v := f.V
			switch {
			case v.T == bm.Doc || v.T == bm.Array:
				v = &bm.Node{T: v.T, Kids: vary(v.Kids)}
			case IsMetric(v.T):
				if i == len(s.patterns) {
					p := &pattern{kind: rapid.IntRange(0, 3).Draw(s.t, "pattern"), step: int64(rapid.IntRange(-3, 200).Draw(s.t, "step"))}
					if s.small {
						p.t = s.t
					} else {
						p.rng = rand.New(rand.NewPCG(rapid.Uint64().Draw(s.t, "seed"), 1))
					}
					s.patterns = append(s.patterns, p)
				}
				v = s.patterns[i].next(v)
				i++
			}
			out = append(out, bm.F(f.K, v))
		}
		return out
	}
	return vary(s.Shape)
}

// Docs draws n documents of one shape.
func Docs(t *rapid.T, shape []bm.Field, n int) [][]bm.Field {
	s := NewStream(t, shape, n <= 8)
	docs := make([][]bm.Field, n)
	for i := range docs {
		docs[i] = s.Next()
	}
	return docs
}

// SameShape reports that two documents have the same metrics in the same
// structure.
func SameShape(a, b []bm.Field) bool {
	return ShapeID(a) == ShapeID(b)
}

// ShapeID identifies the structure of the metrics of a document, including
// the positions of the elements of arrays.
func ShapeID(fs []bm.Field) string {
	var b []byte
	var walk func(key string, n *bm.Node) bool
	walk = func(key string, n *bm.Node) bool {
		start := len(b)
		switch {
		case n.T == bm.Doc || n.T == bm.Array:
			b = fmt.Appendf(b, "%d%q{", n.T, key)
			any := false
			for i, f := range n.Kids {
				k := f.K
				if n.T == bm.Array {
					k = strconv.Itoa(i)
				}
				any = walk(k, f.V) || any
			}
			if !any {
				b = b[:start]
				return false
			}
			b = append(b, '}')
			return true
		case IsMetric(n.T):
			b = fmt.Appendf(b, "%d%q;", n.T, key)
			return true
		}
		return false
	}
	walk("", bm.NDoc(fs...))
	return string(b)
}

// Types lists the types of the metrics of a document, which is all of the
// shape that fixed collectors look at.
func Types(fs []bm.Field) string {
	var b []byte
	for _, m := range Flatten(fs) {
		b = append(b, m.T)
	}
	return string(b)
}

// Input is a way of passing a document to a collector.
type Input struct {
	Value  any
	Change func() // changes what was passed
}

type marshaler struct{ b []byte }

func (m *marshaler) MarshalBSON() ([]byte, error) { return m.b, nil }

type docMarshaler struct{ d *birch.Document }

func (m *docMarshaler) MarshalDocument() (*birch.Document, error) { return m.d, nil }

// NewInput draws a way of passing a document.
func NewInput(t *rapid.T, fs []bm.Field) Input {
	change := func(d *birch.Document) func() {
		return func() {
			var keys []string
			for e := range d.Iterator() {
				if s, ok := e.Value().MutableDocumentOK(); ok {
					s.Append(birch.EC.Int64("changed", 1))
				} else if a, ok := e.Value().MutableArrayOK(); ok {
					a.Append(birch.VC.Int64(1))
				} else {
					keys = append(keys, e.Key())
				}
			}
			for i, k := range keys {
				if i%3 != 2 {
					d.Set(birch.EC.Int64(k, 424242))
				}
			}
			d.Append(birch.EC.String("changed", "later"))
		}
	}
	how := rapid.IntRange(0, 5).Draw(t, "input")
	if in, ok := mapInput(t, fs); ok && how%2 == 1 {
		return in
	}
	switch how {
	case 0:
		b := bm.EncodeFields(fs)
		return Input{b, func() {
			for i := 4; i < len(b)-1; i++ {
				b[i] ^= 0x15
			}
		}}
	case 1:
		b := bm.EncodeFields(fs)
		return Input{&marshaler{b}, func() { clear(b) }}
	case 2:
		d := bm.RepDoc(t, fs)
		return Input{&docMarshaler{d}, change(d)}
	case 3:
		d := bm.ToDoc(fs)
		return Input{d, change(d)}
	default:
		d := bm.RepDoc(t, fs)
		return Input{d, change(d)}
	}
}

// Reused is a document, and a buffer, that the caller fills again and again
// for collecting every sample.
type Reused struct {
	doc *birch.Document
	buf []byte
}

// Input draws a way of passing a document, which may be what an earlier call
// returned, with other contents.
func (r *Reused) Input(t *rapid.T, fs []bm.Field) any {
	switch rapid.IntRange(0, 6).Draw(t, "reuse") {
	case 0, 1:
		r.fill(t, fs)
		return r.doc
	case 2:
		r.fill(t, fs)
		return &docMarshaler{r.doc}
	case 3:
		r.buf = append(r.buf[:0], bm.EncodeFields(fs)...)
		return r.buf
	default:
		return NewInput(t, fs).Value
	}
}

func (r *Reused) fill(t *rapid.T, fs []bm.Field) {
	if r.doc == nil {
		r.doc = birch.DC.New()
	}
	refill(t, r.doc, fs)
}

// refill changes the contents of a document, keeping the documents in it when
// they have the same place.
func refill(t *rapid.T, d *birch.Document, fs []bm.Field) {
	old := slices.Clone(d.Elements())
	keep := rapid.Bool().Draw(t, "keep")
	d.Reset()
	for i, f := range fs {
		if keep && i < len(old) && f.V.T == bm.Doc && old[i].Key() == f.K {
			if s, ok := old[i].Value().MutableDocumentOK(); ok {
				refill(t, s, f.V.Kids)
				d.Append(old[i])
				continue
			}
		}
		if keep && i < len(old) && old[i].Key() == f.K && rapid.Bool().Draw(t, "set") {
			old[i].Value().Set(bm.RepValue(t, f.V))
			d.Append(old[i])
			continue
		}
		d.Append(bm.Rep(t, f.K, f.V))
	}
}

// Chunk is a decoded chunk.
type Chunk struct {
	Ref      []bm.Field
	Metrics  []Metric
	Size     int
	Metadata []bm.Field // the metadata document in effect, or nil
}

// MaxValues is the number of values that chunks can hold.
const MaxValues = 1 << 26

// ErrLarge is for chunks that a reader may refuse because of their size.
var ErrLarge = errors.New("large chunk")

// Payload encodes the contents of a chunk. runs splits runs of zeroes.
func Payload(docs [][]bm.Field, runs func(int) int) []byte {
	b := bm.EncodeFields(docs[0])
	flat := make([][]Metric, len(docs))
	for i, d := range docs {
		flat[i] = Flatten(d)
	}
	b = binary.LittleEndian.AppendUint32(b, uint32(len(flat[0])))
	b = binary.LittleEndian.AppendUint32(b, uint32(len(docs)-1))
	zeroes := 0
	flush := func() {
		for zeroes > 0 {
			n := runs(zeroes)
			b = binary.AppendUvarint(b, 0)
			b = binary.AppendUvarint(b, uint64(n-1))
			zeroes -= n
		}
	}
	for j, m := range flat[0] {
		for i := 1; i < len(docs); i++ {
			d := uint64(flat[i][j].Values[0])
			if m.T != bm.Double {
				d -= uint64(flat[i-1][j].Values[0])
			}
			if d == 0 {
				zeroes++
				continue
			}
			flush()
			b = binary.AppendUvarint(b, d)
		}
	}
	flush()
	return b
}

// Compress produces the data of a chunk document.
func Compress(payload []byte, level int) []byte {
	var out bytes.Buffer
	_ = binary.Write(&out, binary.LittleEndian, uint32(len(payload)))
	w, err := zlib.NewWriterLevel(&out, level)
	if err != nil {
		panic(err)
	}
	_, _ = w.Write(payload)
	_ = w.Close()
	return out.Bytes()
}

// ChunkDoc is the document of a chunk.
func ChunkDoc(data []byte, id int64) []bm.Field {
	return []bm.Field{bm.F("_id", bm.NDate(id)), bm.F("type", bm.NInt32(1)), bm.F("data", &bm.Node{T: bm.Binary, B: data})}
}

// MetadataDoc is the document of metadata.
func MetadataDoc(fs []bm.Field, id int64) []bm.Field {
	return []bm.Field{bm.F("_id", bm.NDate(id)), bm.F("type", bm.NInt32(0)), bm.F("doc", bm.NDoc(fs...))}
}

func lookup(fs []bm.Field, k string) *bm.Node {
	for _, f := range fs {
		if f.K == k {
			return f.V
		}
	}
	return nil
}

func isNum(n *bm.Node, v int64) bool {
	if n == nil {
		return false
	}
	switch n.T {
	case bm.Int32:
		return int64(int32(n.U)) == v
	case bm.Int64:
		return int64(n.U) == v
	case bm.Double:
		return n.Float() == float64(v)
	}
	return false
}

// SplitDocs cuts a stream into documents.
func SplitDocs(b []byte) (docs [][]byte, err error) {
	for len(b) > 0 {
		if len(b) < 4 {
			return docs, errors.New("truncated length")
		}
		n := int(int32(binary.LittleEndian.Uint32(b)))
		if n < 5 || n > len(b) {
			return docs, fmt.Errorf("document of %d bytes", n)
		}
		docs = append(docs, b[:n])
		b = b[n:]
	}
	return docs, nil
}

// decodeDoc is strict about the subtypes of binary values, as the library is.
func decodeDoc(b []byte) ([]bm.Field, error) {
	fs, err := bm.DecodeDoc(b)
	if err == nil && !subtypesOK(fs) {
		err = errors.New("unknown subtype of a binary value")
	}
	return fs, err
}

func subtypesOK(fs []bm.Field) bool {
	for _, f := range fs {
		if f.V.T == bm.Binary && f.V.Sub > 5 && f.V.Sub < 0x80 || !subtypesOK(f.V.Kids) {
			return false
		}
	}
	return true
}

// Decode reads a stream up to the first problem.
func Decode(b []byte) (out []Chunk, err error) {
	docs, ferr := SplitDocs(b)
	var metadata []bm.Field
	for _, d := range docs {
		fs, err := decodeDoc(d)
		if err != nil {
			return out, err
		}
		ty := lookup(fs, "type")
		if isNum(ty, 0) {
			metadata = fs
			continue
		}
		if !isNum(ty, 1) {
			continue
		}
		data := lookup(fs, "data")
		if data == nil || data.T != bm.Binary || len(data.B) < 4 {
			return out, errors.New("no data")
		}
		c, err := DecodeChunk(data.B)
		if err != nil {
			return out, err
		}
		c.Metadata = metadata
		out = append(out, *c)
	}
	return out, ferr
}

// DecodeChunk reads the data of one chunk.
func DecodeChunk(data []byte) (*Chunk, error) {
	z, err := zlib.NewReader(bytes.NewReader(data[4:]))
	if err != nil {
		return nil, err
	}
	const limit = 1 << 28
	p, err := io.ReadAll(io.LimitReader(z, limit))
	if err != nil {
		return nil, err
	}
	if len(p) == limit {
		return nil, ErrLarge
	}
	if uint32(len(p)) != binary.LittleEndian.Uint32(data) {
		return nil, errors.New("size mismatch")
	}
	if len(p) < 4 {
		return nil, errors.New("no reference document")
	}
	n := int(int32(binary.LittleEndian.Uint32(p)))
	if n < 5 || n > len(p) {
		return nil, errors.New("bad length of reference document")
	}
	ref, err := decodeDoc(p[:n])
	if err != nil {
		return nil, err
	}
	p = p[n:]
	if len(p) < 8 {
		return nil, errors.New("no counts")
	}
	nm, nd := int(binary.LittleEndian.Uint32(p)), int(binary.LittleEndian.Uint32(p[4:]))
	p = p[8:]
	c := &Chunk{Ref: ref, Metrics: Flatten(ref), Size: nd + 1}
	if nm != len(c.Metrics) {
		return nil, errors.New("count of metrics mismatch")
	}
	if max(nm, 1)*(nd+1) > MaxValues/16 {
		return nil, ErrLarge
	}
	uvarint := func() (uint64, error) {
		v, k := binary.Uvarint(p)
		if k <= 0 {
			return 0, errors.New("bad integer")
		}
		p = p[k:]
		return v, nil
	}
	var zeroes uint64
	for i := range c.Metrics {
		m := &c.Metrics[i]
		for j := 0; j < nd; j++ {
			var d uint64
			if zeroes > 0 {
				zeroes--
			} else {
				if d, err = uvarint(); err != nil {
					return nil, err
				}
				if d == 0 {
					if zeroes, err = uvarint(); err != nil {
						return nil, err
					}
				}
			}
			if m.T != bm.Double {
				d += uint64(m.Values[j])
			}
			m.Values = append(m.Values, int64(d))
		}
	}
	if zeroes > 0 || len(p) > 0 {
		return nil, errors.New("trailing data")
	}
	return c, nil
}
