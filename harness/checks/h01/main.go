// H01: histograms survive document, BSON and JSON round trips.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/bits"

	"github.com/tychoish/birch"
	bh "github.com/tychoish/birch/x/ftdc/hdrhist"
	"github.com/tychoish/fun/dt/hdrhist"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/prop"
)

// size is the number of counts of a histogram, or -1 when there is none: the
// published layout of HDR histograms, computed without overflow.
func size(low, high int64, figures int64) int {
	if figures < 1 || figures > 5 {
		return -1
	}
	largest := uint64(2)
	for i := int64(0); i < figures; i++ {
		largest *= 10
	}
	mag := bits.Len64(largest - 1)
	unit := 0
	if low > 0 {
		unit = bits.Len64(uint64(low)) - 1
	}
	if mag+unit > 62 || high > 1<<62 {
		return -1
	}
	buckets := 1
	for v := int64(1) << (mag + unit); v < high; v <<= 1 {
		buckets++
	}
	return (buckets + 1) << (mag - 1)
}

// genConfig draws the limits and precision of a histogram.
func genConfig(t *rapid.T, limit int) (low, high, figures int64) {
	for {
		figures = rapid.SampledFrom([]int64{1, 1, 1, 2, 2, 2, 3, 3, 4, 5}).Draw(t, "figures")
		low = rapid.OneOf(rapid.Int64Range(0, 10), rapid.Int64Range(-5, 5000), rapid.Int64Range(1, 1<<40)).Draw(t, "low")
		span := rapid.OneOf(rapid.Int64Range(0, 100), rapid.Int64Range(0, 1<<20), rapid.Int64Range(0, 1<<50)).Draw(t, "span")
		if high = low + span; rapid.IntRange(0, 9).Draw(t, "most") == 0 {
			high = 1 << 62
		}
		// near powers of two floating-point logarithms are not exact
		if n := size(low, high, figures); n > 0 && n <= limit && low < 1<<45 {
			return
		}
	}
}

func record(t *rapid.T, h *hdrhist.Histogram, high int64, most int) (total int64, distinct int) {
	seen := map[int64]bool{}
	for i, n := 0, rapid.IntRange(0, most).Draw(t, "values"); i < n; i++ {
		v := rapid.OneOf(rapid.Int64Range(0, 100), rapid.Int64Range(0, max(high, 1)), rapid.Int64Range(0, math.MaxInt64)).Draw(t, "value")
		m := rapid.SampledFrom([]int64{1, 1, 2, 1000, 1 << 33, 1<<53 + 1, 1<<58 - 1}).Draw(t, "times")
		if h.RecordValues(v, m) == nil {
			total += m
			seen[v] = true
		}
	}
	return total, len(seen)
}

var quantiles = []float64{0, 1, 10, 25, 50, 75, 90, 99, 99.9, 100}

// same compares all that is observable of two histograms.
func same(got, want *hdrhist.Histogram) string {
	if got == nil {
		return "no histogram"
	}
	a, b := got.Export(), want.Export()
	if a.LowestTrackableValue != b.LowestTrackableValue || a.HighestTrackableValue != b.HighestTrackableValue ||
		a.SignificantFigures != b.SignificantFigures {
		return fmt.Sprintf("configured as %d to %d with %d figures, want %d to %d with %d", a.LowestTrackableValue, a.HighestTrackableValue,
			a.SignificantFigures, b.LowestTrackableValue, b.HighestTrackableValue, b.SignificantFigures)
	}
	if len(a.Counts) != len(b.Counts) {
		return fmt.Sprintf("%d counts, want %d", len(a.Counts), len(b.Counts))
	}
	for i := range a.Counts {
		if a.Counts[i] != b.Counts[i] {
			return fmt.Sprintf("count %d is %d, want %d", i, a.Counts[i], b.Counts[i])
		}
	}
	if got.TotalCount() != want.TotalCount() || got.Min() != want.Min() || got.Max() != want.Max() || got.Mean() != want.Mean() {
		return fmt.Sprintf("total %d from %d to %d", got.TotalCount(), got.Min(), got.Max())
	}
	for _, q := range quantiles {
		if g, w := got.ValueAtQuantile(q), want.ValueAtQuantile(q); g != w {
			return fmt.Sprintf("quantile %v is %d, want %d", q, g, w)
		}
	}
	if !got.Equals(want) || !want.Equals(got) {
		return "not equal"
	}
	return ""
}

func fields(s *hdrhist.Snapshot) []bm.Field {
	var counts []*bm.Node
	for _, n := range s.Counts {
		counts = append(counts, bm.NInt64(n))
	}
	return []bm.Field{
		{K: "lowest", V: bm.NInt64(s.LowestTrackableValue)},
		{K: "highest", V: bm.NInt64(s.HighestTrackableValue)},
		{K: "figures", V: bm.NInt64(s.SignificantFigures)},
		{K: "counts", V: bm.NArray(counts...)},
	}
}

func roundtrip(c *prop.C) {
	t := c.T
	limit := 3000
	if rapid.IntRange(0, 150).Draw(t, "large") == 0 {
		limit = 1 << 20
		c.Class("large")
	}
	low, high, figures := genConfig(t, limit)
	h := &bh.Histogram{Histogram: hdrhist.New(low, high, int(figures))}
	total, distinct := record(t, h.Histogram, high, 30)
	c.Note("%d to %d with %d figures: %d values, %d distinct", low, high, figures, total, distinct)
	want := hdrhist.Import(h.Export())

	doc, err := h.MarshalDocument()
	if err != nil {
		c.Failf("marshal document: %v", err)
	}
	db, err := doc.MarshalBSON()
	if err != nil {
		c.Failf("document: %v", err)
	}
	bb, err := h.MarshalBSON()
	if err != nil {
		c.Failf("marshal BSON: %v", err)
	}
	jb, err := h.MarshalJSON()
	if err != nil {
		c.Failf("marshal JSON: %v", err)
	}
	snap := want.Export()
	if enc := bm.EncodeFields(fields(snap)); !bytes.Equal(enc, db) || !bytes.Equal(enc, bb) {
		c.Failf("encoded as %x and %x, want %x", db, bb, enc)
	}
	var js map[string]json.RawMessage
	if err := json.Unmarshal(jb, &js); err != nil {
		c.Failf("JSON: %v", err)
	}

	// later values change none of what was encoded, nor the decoded
	_, _ = record(t, h.Histogram, high, 5)
	if d2, err := doc.MarshalBSON(); err != nil || !bytes.Equal(d2, db) {
		c.Failf("the document changed with the histogram")
	}
	decode := func(name string, f func(*bh.Histogram) error) {
		got := &bh.Histogram{}
		if rapid.Bool().Draw(t, "used") {
			got.Histogram = hdrhist.New(1, 10, 1)
			_ = got.RecordValue(3)
		}
		if err := f(got); err != nil {
			c.Failf("%s: %v", name, err)
		}
		if m := same(got.Histogram, want); m != "" {
			c.Failf("%s: %s", name, m)
		}
		// it goes on recording as the original would
		w := hdrhist.Import(want.Export())
		for i := 0; i < 3; i++ {
			v := rapid.Int64Range(0, max(high, 1)).Draw(t, "more")
			if e1, e2 := got.RecordValue(v), w.RecordValue(v); (e1 == nil) != (e2 == nil) {
				c.Failf("%s: recording %d: %v and %v", name, v, e1, e2)
			}
		}
		if m := same(got.Histogram, w); m != "" {
			c.Failf("%s, continued: %s", name, m)
		}
	}
	decode("BSON", func(g *bh.Histogram) error { return g.UnmarshalBSON(bb) })
	decode("JSON", func(g *bh.Histogram) error { return g.UnmarshalJSON(jb) })
	decode("embedded in JSON", func(g *bh.Histogram) error {
		b, err := json.Marshal(map[string]any{"h": &bh.Histogram{Histogram: want}})
		if err != nil {
			return err
		}
		out := map[string]*bh.Histogram{}
		if err := json.Unmarshal(b, &out); err != nil {
			return err
		}
		*g = *out["h"]
		return nil
	})
	if _, ok := any(&bh.Histogram{}).(birch.DocumentUnmarshaler); ok {
		decode("document", func(g *bh.Histogram) error { return any(g).(birch.DocumentUnmarshaler).UnmarshalDocument(doc) })
	}
	if distinct > 2 {
		c.NonTrivial(bb)
	}
}

// mutated decodes documents that may describe no histogram.
func mutated(c *prop.C) {
	t := c.T
	low, high, figures := genConfig(t, 1500)
	h := hdrhist.New(low, high, int(figures))
	_, _ = record(t, h, high, 5)
	s := h.Export()
	what := rapid.SampledFrom([]string{"none", "figures", "lowest", "highest", "fewer counts", "more counts", "negative", "type", "count type", "missing", "truncated", "several"}).Draw(t, "mutation")
	c.Class(what)
	extreme := func(name string) int64 {
		return rapid.OneOf(rapid.Int64(), rapid.SampledFrom([]int64{0, -1, 1, 6, math.MaxInt64, math.MinInt64, 1 << 62, 1<<62 + 1, 1 << 61, 1 << 60, 1 << 32, 1<<32 + 1})).Draw(t, name)
	}
	one := func(what string) {
		switch what {
		case "figures":
			s.SignificantFigures = rapid.OneOf(rapid.Int64Range(-1, 7), rapid.Just(int64(1<<32+1)), rapid.Int64()).Draw(t, "new figures")
		case "lowest":
			s.LowestTrackableValue = extreme("new lowest")
		case "highest":
			s.HighestTrackableValue = extreme("new highest")
		case "fewer counts":
			s.Counts = s.Counts[:rapid.IntRange(0, len(s.Counts)-1).Draw(t, "left")]
		case "more counts":
			s.Counts = append(s.Counts, make([]int64, rapid.IntRange(1, 40).Draw(t, "added"))...)
		case "negative":
			s.Counts[rapid.IntRange(0, len(s.Counts)-1).Draw(t, "at")] = rapid.Int64Range(math.MinInt64, -1).Draw(t, "count")
		}
	}
	if one(what); what == "several" {
		for i, n := 0, rapid.IntRange(2, 3).Draw(t, "mutations"); i < n; i++ {
			one(rapid.SampledFrom([]string{"figures", "lowest", "highest", "more counts"}).Draw(t, "each"))
		}
	}
	num := size(s.LowestTrackableValue, s.HighestTrackableValue, s.SignificantFigures)
	if l := s.LowestTrackableValue; l >= 1<<45 {
		// only that there is no panic: logarithms are not exact here
		num = -2
	}
	valid := num == len(s.Counts)
	for _, n := range s.Counts {
		valid = valid && n >= 0
	}
	fs := fields(s)
	known := num != -2
	switch what {
	case "type":
		i := rapid.IntRange(0, len(fs)-1).Draw(t, "field")
		fs[i].V = bm.GenNode(t, bm.Opts{MaxDepth: 1, MaxLen: 3}, 0)
		known = false
		if ty := fs[i].V.T; i < 3 && ty != bm.Int64 && ty != bm.Int32 && ty != bm.Double || i == 3 && ty != bm.Array {
			known, valid = true, false
		}
	case "count type":
		fs[3].V.Kids[rapid.IntRange(0, len(s.Counts)-1).Draw(t, "at")].V = bm.GenNode(t, bm.Opts{MaxDepth: 1, MaxLen: 3}, 0)
		known = false
	case "missing":
		i := rapid.IntRange(0, len(fs)-1).Draw(t, "field")
		fs = append(fs[:i:i], fs[i+1:]...)
		known, valid = i >= 2, false
	}
	c.Note("%s: %d to %d with %d figures, %d counts; valid: %v, known: %v", what, s.LowestTrackableValue, s.HighestTrackableValue,
		s.SignificantFigures, len(s.Counts), valid, known)
	b := bm.EncodeFields(fs)
	if what == "truncated" {
		b = b[:rapid.IntRange(0, len(b)-1).Draw(t, "length")]
		known, valid = true, false
	}
	c.Journal()
	try := func(name string, in []byte, f func(*bh.Histogram, []byte) error, known, valid bool) {
		before := hdrhist.New(1, 100, 1)
		_ = before.RecordValue(7)
		got := &bh.Histogram{Histogram: hdrhist.Import(before.Export())}
		var err error
		c.NoPanic(name, func() { err = f(got, in) })
		if err != nil {
			if known && valid {
				c.Failf("%s: refused: %v", name, err)
			}
			return
		}
		if known && !valid {
			c.Failf("%s: accepted as %+v", name, got.Export())
		}
		// what is accepted is a histogram
		c.NoPanic(name+": use", func() {
			_ = got.RecordValue(1)
			_ = got.ValueAtQuantile(50)
			_ = got.Mean()
			_ = got.Max()
			e, err := got.MarshalBSON()
			if err != nil {
				c.Failf("%s: encoding again: %v", name, err)
			}
			again := &bh.Histogram{}
			if err := again.UnmarshalBSON(e); err != nil {
				c.Failf("%s: decoding again: %v", name, err)
			}
			if !bytes.Equal(e, bm.EncodeFields(fields(again.Export()))) {
				c.Failf("%s: decoded differently again", name)
			}
		})
	}
	try("BSON", b, func(g *bh.Histogram, in []byte) error { return g.UnmarshalBSON(in) }, known, valid)
	switch what {
	case "type", "count type", "missing", "truncated":
		j, err := json.Marshal(s)
		if err != nil {
			c.Failf("harness: %v", err)
		}
		if what == "truncated" {
			j = j[:rapid.IntRange(0, len(j)-1).Draw(t, "JSON length")]
		} else {
			var m map[string]any
			_ = json.Unmarshal(j, &m)
			k := rapid.SampledFrom([]string{"lowest", "highest", "figures", "counts"}).Draw(t, "JSON field")
			if what == "missing" {
				delete(m, k)
			} else {
				m[k] = rapid.SampledFrom([]any{nil, "x", 1.5, true, []any{}, []any{"x"}, map[string]any{}, 1e300}).Draw(t, "JSON value")
			}
			j, _ = json.Marshal(m)
		}
		try("JSON", j, func(g *bh.Histogram, in []byte) error { return g.UnmarshalJSON(in) }, what == "truncated", false)
	default:
		j, err := json.Marshal(s)
		if err != nil {
			c.Failf("harness: %v", err)
		}
		try("JSON", j, func(g *bh.Histogram, in []byte) error { return g.UnmarshalJSON(in) }, known, valid)
	}
	if what != "none" {
		c.NonTrivial(b)
	}
}

// precision decodes histograms of a precision that there is not, with as many
// counts as the layout would have.
func precision(c *prop.C) {
	t := c.T
	figures := rapid.SampledFrom([]int64{0, -1, 0, 6, 6}).Draw(t, "figures")
	largest := 2 * math.Pow(10, float64(figures))
	mag := max(bits.Len64(uint64(math.Ceil(largest))-1), 1)
	high, buckets := int64(rapid.IntRange(1, 100).Draw(t, "highest")), 1
	for v := int64(1) << mag; v < high; v <<= 1 {
		buckets++
	}
	n := (buckets + 1) << (mag - 1)
	s := &hdrhist.Snapshot{LowestTrackableValue: 1, HighestTrackableValue: high, SignificantFigures: figures, Counts: make([]int64, n)}
	c.Note("%d figures, %d counts", figures, n)
	c.NonTrivial(fmt.Sprint(figures, high))
	c.Journal()
	j, err := json.Marshal(s)
	if err != nil {
		c.Failf("harness: %v", err)
	}
	try := func(name string, f func(g *bh.Histogram) error) {
		g := &bh.Histogram{}
		c.NoPanic(name, func() { err = f(g) })
		if err == nil {
			c.Failf("%s: a histogram of %d figures is accepted", name, figures)
		}
	}
	try("JSON", func(g *bh.Histogram) error { return g.UnmarshalJSON(j) })
	b := bm.EncodeFields(fields(s))
	try("BSON", func(g *bh.Histogram) error { return g.UnmarshalBSON(b) })
}

func main() {
	prop.Main(prop.Spec{
		ID:   "H01",
		Rule: "round trips: more than two distinct values recorded; mutations: any but none",
		Assumptions: []string{
			"the histogram itself (recording and quantiles) is the dependency github.com/tychoish/fun/dt/hdrhist, which is trusted",
			"most histograms have at most 3000 counts (1 in 150 up to a million)",
		},
		Subs: []prop.Sub{
			{Name: "roundtrip", Quick: 3000, Thorough: 100000, Shards: 4, HangIsViolation: true, Fn: roundtrip},
			{Name: "mutated", Quick: 5000, Thorough: 200000, Shards: 4, HangIsViolation: true, Fn: mutated},
			{Name: "precision", Quick: 8, Thorough: 200, Shards: 2, HangIsViolation: true, Fn: precision},
		},
	})
}
