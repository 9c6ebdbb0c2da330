// V01: event points survive every encode/decode round trip.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc/events"
	bh "github.com/tychoish/birch/x/ftdc/hdrhist"
	"github.com/tychoish/fun/dt/hdrhist"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/em"
	"verif/harness/prop"
)

func performance(c *prop.C) {
	t := c.T
	p := em.GenPerf(t)
	orig := *p
	c.Note("%+v", *p)
	want := bm.EncodeFields(em.PerfFields(p))
	b, err := p.MarshalBSON()
	if err != nil {
		c.Failf("marshal BSON: %v", err)
	}
	doc, err := p.MarshalDocument()
	if err != nil {
		c.Failf("marshal document: %v", err)
	}
	db, err := doc.MarshalBSON()
	if err != nil || !bytes.Equal(b, want) || !bytes.Equal(db, want) {
		c.Failf("encoded: %v: %s %s", err, bm.Diff(b, want), bm.Diff(db, want))
	}
	if *p != orig {
		c.Failf("encoding changed the point")
	}
	decode := func(name string, d *birch.Document) {
		got := &events.Performance{}
		if rapid.Bool().Draw(t, "used") {
			got = em.GenPerf(t)
		}
		if err := got.UnmarshalDocument(d); err != nil {
			c.Failf("%s: %v", name, err)
		}
		if m := em.SamePerf(got, &orig); m != "" {
			c.Failf("%s: %s", name, m)
		}
	}
	decode("document", doc)
	d, err := birch.ReadDocument(b)
	if err != nil {
		c.Failf("read: %v", err)
	}
	decode("BSON", d)
	if y := orig.Timestamp.Year(); y > 0 && y < 9999 {
		j, err := json.Marshal(p)
		if err != nil {
			c.Failf("marshal JSON: %v", err)
		}
		got := &events.Performance{}
		if err := json.Unmarshal(j, got); err != nil {
			c.Failf("JSON: %v", err)
		}
		if m := em.SamePerf(got, &orig); m != "" || !got.Timestamp.Equal(orig.Timestamp) {
			c.Failf("JSON: %s", m)
		}
	}
	// another order of fields, and fields of others
	fs := em.PerfFields(p)
	fs = append(fs, bm.F("other", bm.GenNode(t, bm.Opts{MaxDepth: 1, MaxLen: 2}, 0)))
	for _, i := range []int{2, 3, 4} {
		fs[i].V.Kids = rapid.Permutation(fs[i].V.Kids).Draw(t, "inner order")
	}
	fs = rapid.Permutation(fs).Draw(t, "order")
	decode("reordered", bm.RepDoc(t, fs))
	// with absent fields the others are as given
	i := rapid.IntRange(0, len(fs)-1).Draw(t, "absent")
	got := &events.Performance{}
	if err := got.UnmarshalDocument(bm.ToDoc(append(fs[:i:i], fs[i+1:]...))); err != nil {
		c.Failf("without %s: %v", fs[i].K, err)
	}
	w := orig
	switch fs[i].K {
	case "ts":
		w.Timestamp = time.Time{}
	case "id":
		w.ID = 0
	case "counters":
		w.Counters = events.PerformanceCounters{}
	case "timers":
		w.Timers = events.PerformanceTimers{}
	case "gauges":
		w.Gauges = events.PerformanceGauges{}
	}
	if m := em.SamePerf(got, &w); m != "" {
		c.Failf("without %s: %s", fs[i].K, m)
	}
	// values of other types are errors
	top := rapid.SampledFrom([]int{0, 1, 2, 3, 4}).Draw(t, "field of other type")
	bad := em.PerfFields(p)
	f := &bad[top]
	if len(f.V.Kids) > 0 && rapid.Bool().Draw(t, "inner") {
		f = &f.V.Kids[rapid.IntRange(0, len(f.V.Kids)-1).Draw(t, "inner field")]
	}
	n := bm.GenNode(t, bm.Opts{MaxDepth: 1, MaxLen: 2}, 0)
	number := func(ty byte) bool { return ty == bm.Int32 || ty == bm.Int64 || ty == bm.Double }
	old := f.V.T
	f.V = n
	var uerr error
	c.NoPanic("decoding "+bm.Show(bad), func() { uerr = (&events.Performance{}).UnmarshalDocument(bm.RepDoc(t, bad)) })
	if old != n.T && !(number(old) && number(n.T)) && uerr == nil {
		c.Failf("%s accepted as %s", f.K, n)
	}
	if old == n.T && old == bm.Int64 && uerr != nil {
		c.Failf("refused %s as %s: %v", f.K, n, uerr)
	}
	if p.Counters != (events.PerformanceCounters{}) {
		c.NonTrivial(b)
	}
}

// adding compares sequences of Add with the sums.
func adding(c *prop.C) {
	t := c.T
	sum := em.GenPerf(t)
	want := *sum
	n := rapid.IntRange(1, 6).Draw(t, "points")
	for i := 0; i < n; i++ {
		p := em.GenPerf(t)
		if rapid.Bool().Draw(t, "without ID") {
			p.ID = 0
		}
		orig := *p
		c.Note("add %+v to %+v", orig, want)
		sum.Add(p)
		if *p != orig {
			c.Failf("the added point became %+v", *p)
		}
		em.Sum(&want, orig)
		if *sum != want {
			c.Failf("%+v, want %+v", *sum, want)
		}
	}
	c.NonTrivial(fmt.Sprintf("%+v", want))
}

func genHist(t *rapid.T, name string) *hdrhist.Histogram {
	h := hdrhist.New(rapid.Int64Range(1, 5).Draw(t, name+" low"), rapid.Int64Range(10, 100000).Draw(t, name+" high"), rapid.IntRange(1, 2).Draw(t, name+" figures"))
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, name+" values"); i < n; i++ {
		_ = h.RecordValues(rapid.Int64Range(0, 100000).Draw(t, "value"), rapid.Int64Range(1, 9).Draw(t, "times"))
	}
	return h
}

func histNode(h *hdrhist.Histogram) *bm.Node {
	s := h.Export()
	var counts []*bm.Node
	for _, n := range s.Counts {
		counts = append(counts, bm.NInt64(n))
	}
	return bm.NDoc(bm.F("lowest", bm.NInt64(s.LowestTrackableValue)), bm.F("highest", bm.NInt64(s.HighestTrackableValue)),
		bm.F("figures", bm.NInt64(s.SignificantFigures)), bm.F("counts", bm.NArray(counts...)))
}

func histogram(c *prop.C) {
	t := c.T
	p := &events.PerformanceHDR{
		Timestamp: em.When(t), ID: em.I64(t, "id"),
		Counters: events.PerformanceCountersHDR{Number: genHist(t, "n"), Operations: genHist(t, "ops"), Size: genHist(t, "size"), Errors: genHist(t, "errors")},
		Timers:   events.PerformanceTimersHDR{Duration: genHist(t, "dur"), Total: genHist(t, "total")},
		Gauges:   events.PerformanceGauges{State: em.I64(t, "state"), Workers: em.I64(t, "workers"), Failed: rapid.Bool().Draw(t, "failed")},
	}
	hists := map[string]*hdrhist.Histogram{"n": p.Counters.Number, "ops": p.Counters.Operations, "size": p.Counters.Size,
		"errors": p.Counters.Errors, "dur": p.Timers.Duration, "total": p.Timers.Total}
	orig := map[string]*hdrhist.Histogram{}
	total := int64(0)
	for k, h := range hists {
		orig[k] = hdrhist.Import(h.Export())
		total += h.TotalCount()
	}
	doc, err := p.MarshalDocument()
	if err != nil {
		c.Failf("marshal document: %v", err)
	}
	b, err := birch.MarshalDocumentBSON(p)
	if err != nil {
		c.Failf("marshal BSON: %v", err)
	}
	want := bm.EncodeFields([]bm.Field{
		bm.F("ts", bm.NDate(p.Timestamp.UnixMilli())),
		bm.F("id", bm.NInt64(p.ID)),
		bm.F("counters", bm.NDoc(bm.F("n", histNode(orig["n"])), bm.F("ops", histNode(orig["ops"])), bm.F("size", histNode(orig["size"])), bm.F("errors", histNode(orig["errors"])))),
		bm.F("timers", bm.NDoc(bm.F("dur", histNode(orig["dur"])), bm.F("total", histNode(orig["total"])))),
		bm.F("gauges", em.Gauges(p.Gauges)),
	})
	// what was encoded is independent of what is recorded later
	for _, h := range hists {
		_ = h.RecordValue(3)
	}
	db, err := doc.MarshalBSON()
	if err != nil || !bytes.Equal(b, want) || !bytes.Equal(db, want) {
		c.Failf("encoded: %v: %s %s", err, bm.Diff(b, want), bm.Diff(db, want))
	}
	d, err := birch.ReadDocument(b)
	if err != nil {
		c.Failf("read: %v", err)
	}
	for k, w := range orig {
		part := "counters"
		if k == "dur" || k == "total" {
			part = "timers"
		}
		hb, err := d.Lookup(part).MutableDocument().Lookup(k).MutableDocument().MarshalBSON()
		if err != nil {
			c.Failf("%s: %v", k, err)
		}
		got := &bh.Histogram{}
		if err := got.UnmarshalBSON(hb); err != nil {
			c.Failf("%s: %v", k, err)
		}
		if !got.Equals(w) {
			c.Failf("%s: %+v, want %+v", k, got.Export(), w.Export())
		}
	}
	if total > 5 {
		c.NonTrivial(b)
	}
}

// ranges checks that new histogram points take every value of the range they
// are for, and tell them apart.
func ranges(c *prop.C) {
	t := c.T
	g := events.PerformanceGauges{State: em.I64(t, "state"), Workers: em.I64(t, "workers"), Failed: rapid.Bool().Draw(t, "failed")}
	p, counter, duration := events.NewHistogramMillisecond(g), int64(10*1000), time.Minute
	if rapid.Bool().Draw(t, "second") {
		p, counter, duration = events.NewHistogramSecond(g), int64(10*100*1000), 20*time.Minute
	}
	if p.Gauges != g || p.ID != 0 || !p.Timestamp.IsZero() {
		c.Failf("a new point holds %+v %d %s", p.Gauges, p.ID, p.Timestamp)
	}
	hs := []*hdrhist.Histogram{p.Counters.Number, p.Counters.Operations, p.Counters.Size, p.Counters.Errors, p.Timers.Duration, p.Timers.Total}
	counts, most, least := make([]int64, 6), make([]int64, 6), make([]int64, 6)
	n := rapid.IntRange(1, 12).Draw(t, "values")
	for ; n > 0; n-- {
		i := rapid.IntRange(0, 5).Draw(t, "histogram")
		low, high := int64(0), counter
		if i > 3 {
			low, high = int64(time.Microsecond), int64(duration)
		}
		v := rapid.OneOf(rapid.Int64Range(low, high), rapid.SampledFrom([]int64{low, high, high - 1, high / 2})).Draw(t, "value")
		if err := hs[i].RecordValue(v); err != nil {
			c.Failf("histogram %d does not take %d: %v", i, v, err)
		}
		if counts[i] == 0 || v < least[i] {
			least[i] = v
		}
		counts[i]++
		most[i] = max(most[i], v)
	}
	near := func(got, want int64) bool {
		d := got - want
		return max(d, -d) <= want/100000+1024
	}
	for i, h := range hs {
		if h.TotalCount() != counts[i] || i < 4 && counts[i] > 0 && (h.Max() < most[i] || h.Max() > most[i]+most[i]/50000 || h.Min() > least[i] || h.Min() < least[i]-least[i]/50000) || i >= 4 && counts[i] > 0 && (!near(h.Max(), most[i]) || !near(h.Min(), least[i])) {
			c.Failf("histogram %d holds %d values between %d and %d, want %d between %d and %d", i, h.TotalCount(), h.Min(), h.Max(), counts[i], least[i], most[i])
		}
	}
	c.NonTrivial(fmt.Sprint(counts, most, least))
}

type kind struct {
	name string
	gen  func(t *rapid.T) (value any, node *bm.Node, back any)
}

func list[T any](one func(*rapid.T) (T, *bm.Node, any)) func(*rapid.T) (any, *bm.Node, any) {
	return func(t *rapid.T) (any, *bm.Node, any) {
		var vs []T
		var ns []*bm.Node
		back := []any{}
		for i, n := 0, rapid.IntRange(0, 4).Draw(t, "len"); i < n; i++ {
			v, nd, b := one(t)
			vs, ns, back = append(vs, v), append(ns, nd), append(back, b)
		}
		return vs, bm.NArray(ns...), back
	}
}

func single[T any](one func(*rapid.T) (T, *bm.Node, any)) func(*rapid.T) (any, *bm.Node, any) {
	return func(t *rapid.T) (any, *bm.Node, any) {
		v, n, b := one(t)
		return v, n, b
	}
}

func kinds() []kind {
	i64v := func(t *rapid.T) (int64, *bm.Node, any) { v := em.I64(t, "int64"); return v, bm.NInt64(v), v }
	i32v := func(t *rapid.T) (int32, *bm.Node, any) {
		v := bm.InterestingInt32().Draw(t, "int32")
		return v, bm.NInt32(v), v
	}
	intv := func(t *rapid.T) (int, *bm.Node, any) {
		v := int(em.I64(t, "int"))
		return v, anyInt(int64(v)), nil
	}
	boolv := func(t *rapid.T) (bool, *bm.Node, any) { v := rapid.Bool().Draw(t, "bool"); return v, bm.NBool(v), v }
	timev := func(t *rapid.T) (time.Time, *bm.Node, any) { v := em.When(t); return v, bm.NDate(v.UnixMilli()), v }
	f64v := func(t *rapid.T) (float64, *bm.Node, any) {
		v := bm.InterestingFloat(true).Draw(t, "float64")
		return v, bm.NDouble(v), v
	}
	f32v := func(t *rapid.T) (float32, *bm.Node, any) {
		v := rapid.Float32().Draw(t, "float32")
		return v, bm.NDouble(float64(v)), float64(v)
	}
	u32v := func(t *rapid.T) (uint32, *bm.Node, any) {
		v := rapid.Uint32().Draw(t, "uint32")
		return v, anyInt(int64(v)), nil
	}
	u64v := func(t *rapid.T) (uint64, *bm.Node, any) {
		v := rapid.OneOf(rapid.Uint64Range(0, 100), rapid.Uint64()).Draw(t, "uint64")
		if v > math.MaxInt64 {
			return v, nil, nil
		}
		return v, anyInt(int64(v)), nil
	}
	return []kind{
		{"int64", single(i64v)}, {"int32", single(i32v)}, {"int", single(intv)}, {"bool", single(boolv)}, {"time", single(timev)},
		{"float64", single(f64v)}, {"float32", single(f32v)}, {"uint32", single(u32v)}, {"uint64", single(u64v)},
		{"[]int64", list(i64v)}, {"[]int32", list(i32v)}, {"[]int", list(intv)}, {"[]bool", list(boolv)}, {"[]time", list(timev)},
		{"[]float64", list(f64v)}, {"[]float32", list(f32v)}, {"[]uint32", list(u32v)}, {"[]uint64", list(u64v)},
	}
}

// anyInt marks an integer that may be either width.
func anyInt(v int64) *bm.Node { return &bm.Node{T: bm.Int64, U: uint64(v), S: "any width"} }

// matches compares a value with the model, by number where the width is open.
func matches(got, want *bm.Node) bool {
	if want.T == bm.Int64 && want.S != "" {
		return got.T == bm.Int64 && got.U == want.U ||
			got.T == bm.Int32 && int64(int32(got.U)) == int64(want.U)
	}
	if want.T == bm.Array {
		if got.T != bm.Array || len(got.Kids) != len(want.Kids) {
			return false
		}
		for i := range want.Kids {
			if !matches(got.Kids[i].V, want.Kids[i].V) {
				return false
			}
		}
		return true
	}
	return got.Equal(want)
}

func sameValue(got any, want *bm.Node) bool {
	switch want.T {
	case bm.Int64:
		switch g := got.(type) {
		case int64:
			return g == int64(want.U)
		case int32:
			return want.S != "" && int64(g) == int64(want.U)
		}
	case bm.Int32:
		g, ok := got.(int32)
		return ok && g == int32(want.U)
	case bm.Double:
		g, ok := got.(float64)
		return ok && math.Float64bits(g) == want.U
	case bm.Bool:
		g, ok := got.(bool)
		return ok && g == (want.U != 0)
	case bm.DateTime:
		g, ok := got.(time.Time)
		return ok && g.UnixMilli() == int64(want.U)
	case bm.Array:
		g, ok := got.([]any)
		if !ok || len(g) != len(want.Kids) {
			return false
		}
		for i := range g {
			if !sameValue(g[i], want.Kids[i].V) {
				return false
			}
		}
		return true
	}
	return false
}

func custom(c *prop.C) {
	t := c.T
	ks := kinds()
	points := events.MakeCustom(rapid.IntRange(0, 5).Draw(t, "hint"))
	var want []bm.Field
	lossy := false
	key := rapid.OneOf(rapid.SampledFrom([]string{"a", "b", "c"}), bm.Key())
	for i, n := 0, rapid.IntRange(0, 6).Draw(t, "points"); i < n; i++ {
		k := key.Draw(t, "key")
		if rapid.IntRange(0, 9).Draw(t, "unsupported") == 0 {
			v := rapid.SampledFrom([]any{nil, "x", []string{"x"}, events.Custom{}, map[string]int{}, struct{}{}, time.Second, int8(3), []any{1}}).Draw(t, "value")
			if err := points.Add(k, v); err == nil {
				c.Failf("accepted %T", v)
			}
			continue
		}
		kd := rapid.SampledFrom(ks).Draw(t, "kind")
		v, node, _ := kd.gen(t)
		c.Class(kd.name)
		c.Note("%q: %s %v", k, kd.name, v)
		if err := points.Add(k, v); err != nil {
			c.Failf("add %s: %v", kd.name, err)
		}
		if node == nil || node.T == bm.Array && hasNil(node) {
			lossy = true
			node = bm.NNull()
		}
		want = append(want, bm.F(k, node))
	}
	if points.Len() != len(want) {
		c.Failf("%d points, want %d", points.Len(), len(want))
	}
	if rapid.IntRange(0, 9).Draw(t, "unencodable") == 0 {
		// points whose values were put there without being checked
		v := rapid.SampledFrom([]any{make(chan int), func() {}, struct{ A int }{1}, []uint64{math.MaxUint64}, complex(1, 2)}).Draw(t, "unencodable value")
		odd := append(append(events.Custom{}, points...), events.CustomPoint{Name: key.Draw(t, "key"), Value: v})
		c.NoPanic("encoding what cannot be encoded", func() {
			if d, err := odd.MarshalDocument(); err == nil {
				c.Failf("a point with a value of %T was encoded as %v", v, d)
			}
			if b, err := odd.MarshalBSON(); err == nil {
				c.Failf("a point with a value of %T was encoded as %x", v, b)
			}
		})
	}
	order := names(points)
	// sorted by name, equal names as they were added
	sorted := append([]bm.Field(nil), want...)
	for i := range sorted {
		for j := i; j > 0 && sorted[j].K < sorted[j-1].K; j-- {
			sorted[j], sorted[j-1] = sorted[j-1], sorted[j]
		}
	}
	b, err := points.MarshalBSON()
	if fmt.Sprint(names(points)) != fmt.Sprint(order) {
		c.Failf("encoding reordered the points")
	}
	if lossy {
		if err == nil {
			c.Failf("a number without BSON form was encoded: %x", b)
		}
		return
	}
	if err != nil {
		c.Failf("marshal: %v", err)
	}
	got, err := bm.DecodeDoc(b)
	if err != nil {
		c.Failf("encoded %x: %v", b, err)
	}
	if len(got) != len(sorted) {
		c.Failf("%d fields, want %d", len(got), len(sorted))
	}
	for i, f := range sorted {
		if got[i].K != f.K || !matches(got[i].V, f.V) {
			c.Failf("field %d is %q %s, want %q %s", i, got[i].K, got[i].V, f.K, f.V)
		}
	}
	doc, err := points.MarshalDocument()
	if err != nil {
		c.Failf("marshal document: %v", err)
	}
	if db, err := doc.MarshalBSON(); err != nil || !bytes.Equal(db, b) {
		c.Failf("document: %v %x, want %x", err, db, b)
	}
	back := events.Custom{}
	if err := back.UnmarshalBSON(b); err != nil {
		c.Failf("unmarshal: %v", err)
	}
	if len(back) != len(sorted) {
		c.Failf("decoded %d points, want %d", len(back), len(sorted))
	}
	for i, f := range sorted {
		if back[i].Name != f.K || !sameValue(back[i].Value, f.V) {
			c.Failf("decoded point %d is %q %T %v, want %q %s", i, back[i].Name, back[i].Value, back[i].Value, f.K, f.V)
		}
	}
	cut := rapid.IntRange(0, len(b)-1).Draw(t, "cut")
	c.NoPanic("truncated", func() {
		if err := (&events.Custom{}).UnmarshalBSON(b[:cut]); err == nil {
			c.Failf("accepted %d of %d bytes", cut, len(b))
		}
	})
	points.Sort()
	for i, f := range sorted {
		if points[i].Name != f.K {
			c.Failf("sorted point %d is %q, want %q", i, points[i].Name, f.K)
		}
	}
	if len(want) > 2 {
		c.NonTrivial(b)
	}
}

func names(ps events.Custom) (out []string) {
	for _, p := range ps {
		out = append(out, p.Name)
	}
	return out
}

func hasNil(n *bm.Node) bool {
	for _, f := range n.Kids {
		if f.V == nil {
			return true
		}
	}
	return false
}

func main() {
	prop.Main(prop.Spec{
		ID:   "V01",
		Rule: "performance: some counter is not zero; adding, ranges: all; histogram: more than five values; custom: three or more points",
		Assumptions: []string{
			"timestamps are stored with the precision of milliseconds",
			"int and unsigned values of custom points may take either integer width; unsigned values above 2^63-1 must be refused",
		},
		Subs: []prop.Sub{
			{Name: "ranges", Quick: 180, Thorough: 2000, Fn: ranges},
			{Name: "performance", Quick: 45000, Thorough: 600000, Shards: 2, HangIsViolation: true, Fn: performance},
			{Name: "adding", Quick: 24000, Thorough: 300000, HangIsViolation: true, Fn: adding},
			{Name: "histogram", Quick: 7500, Thorough: 80000, Shards: 2, HangIsViolation: true, Fn: histogram},
			{Name: "custom", Quick: 45000, Thorough: 600000, Shards: 2, HangIsViolation: true, Fn: custom},
		},
	})
}
