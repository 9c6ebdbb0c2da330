// B07: equality is logical equality, whatever the representation.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/tychoish/birch"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/prop"
)

var opts = bm.Opts{MaxDepth: 3, MaxLen: 4}

// retype gives a value of another type with the same or similar content.
func retype(t *rapid.T, n *bm.Node) *bm.Node {
	c := n.Clone()
	groups := [][]byte{{bm.String, bm.JS, bm.Symbol}, {bm.Double, bm.Int64, bm.DateTime, bm.Timestamp}, {bm.Null, bm.Undefined, bm.MinKey, bm.MaxKey}}
	for _, g := range groups {
		for i, ty := range g {
			if ty == c.T {
				c.T = g[(i+1+rapid.IntRange(0, len(g)-2).Draw(t, "g"))%len(g)]
				return c
			}
		}
	}
	switch c.T {
	case bm.Doc:
		c.T = bm.Array
	case bm.Array:
		kids := []bm.Field{}
		for i, f := range c.Kids {
			kids = append(kids, bm.F(string(rune('0'+i%10)), f.V))
		}
		c.T, c.Kids = bm.Doc, kids
	case bm.Int32:
		return bm.NInt64(int64(int32(c.U)))
	case bm.CodeScope:
		return &bm.Node{T: bm.JS, S: c.S}
	default:
		return bm.NNull()
	}
	return c
}

func zeroConfusion(a, b *bm.Node) bool {
	// 0 and -0, and NaNs with different payloads, are not judged
	if a.T == bm.Double && b.T == bm.Double && a.U != b.U {
		return a.Float() == b.Float() || math.IsNaN(a.Float()) && math.IsNaN(b.Float())
	}
	if len(a.Kids) == len(b.Kids) {
		for i := range a.Kids {
			if zeroConfusion(a.Kids[i].V, b.Kids[i].V) {
				return true
			}
		}
	}
	return false
}

func equality(c *prop.C) {
	n := bm.GenNode(c.T, opts, 0)
	k := bm.Key().Draw(c.T, "key")
	m, k2 := n, k
	switch rapid.IntRange(0, 5).Draw(c.T, "relation") {
	case 0, 1:
		m = n.Clone()
	case 2, 3:
		m = bm.Perturb(c.T, n)
	case 4:
		m = retype(c.T, n)
	case 5:
		m = bm.GenNode(c.T, opts, 0)
	}
	if rapid.IntRange(0, 3).Draw(c.T, "rekey") == 0 {
		k2 = bm.Key().Draw(c.T, "key2")
	}
	if zeroConfusion(n, m) {
		c.Class("skipped: differs only in the sign of zero or a NaN payload")
		return
	}
	c.Note("%q %s\n%q %s", k, n, k2, m)
	a, b := bm.Rep(c.T, k, n), bm.Rep(c.T, k2, m)
	want := n.Equal(m)
	eq := func(what string, got, want bool) {
		if got != want {
			c.Failf("%s = %v, want %v", what, got, want)
		}
	}
	c.NoPanic("Equal", func() {
		eq("a.Value().Equal(b.Value())", a.Value().Equal(b.Value()), want)
		eq("b.Value().Equal(a.Value())", b.Value().Equal(a.Value()), want)
		eq("a.Equal(b)", a.Equal(b), want && k == k2)
		eq("b.Equal(a)", b.Equal(a), want && k == k2)
		eq("a.Value().Equal(a.Value())", a.Value().Equal(a.Value()), true)
		eq("a.Equal(a)", a.Equal(a), true)
		eq("a.Equal(nil)", a.Equal(nil), false)
		eq("nil.Equal(a)", (*birch.Element)(nil).Equal(a), false)
		eq("nil.Equal(nil)", (*birch.Element)(nil).Equal(nil), true)
		eq("value.Equal(nil)", a.Value().Equal(nil), false)
		eq("nil value.Equal(a)", (*birch.Value)(nil).Equal(a.Value()), false)
		// expanding either side, and repeating, changes nothing
		bm.Expand(c.T, a.Value())
		bm.Expand(c.T, b.Value())
		eq("after expansion, a.Value().Equal(b.Value())", a.Value().Equal(b.Value()), want)
		eq("after expansion, b.Equal(a)", b.Equal(a), want && k == k2)
		eq("with bytes around it", a.Value().Equal(bm.Rep(c.T, "other key", m).Value()), want)
		third := bm.Rep(c.T, k, n)
		eq("a.Equal(third representation)", a.Equal(third), true)
		eq("third representation.Equal(b)", third.Equal(b), want && k == k2)
	})
	for _, x := range []struct {
		e *birch.Element
		f bm.Field
	}{{a, bm.F(k, n)}, {b, bm.F(k2, m)}} {
		got, err := x.e.MarshalBSON()
		if w := bm.EncodeElem(x.f); err != nil || !bytes.Equal(got, w) {
			c.Failf("comparing changed an operand (%v): %s", err, bm.Diff(got, w))
		}
	}
	if want {
		c.Class("equal")
	} else {
		c.Class("different")
	}
	c.Class("type-" + bm.TypeName(n.T))
	if len(n.Encode()) > 0 || !want {
		c.NonTrivial(append(bm.EncodeElem(bm.F(k, n)), bm.EncodeElem(bm.F(k2, m))...))
	}
}

// shared compares values of documents that were read from the same bytes,
// before and after the contents of either are changed.
func shared(c *prop.C) {
	t := c.T
	var n *bm.Node
	for n == nil || n.T != bm.Doc && n.T != bm.Array && n.T != bm.CodeScope {
		n = bm.GenOfType(t, opts, rapid.SampledFrom([]byte{bm.Doc, bm.Array, bm.CodeScope}).Draw(t, "type"), 0)
	}
	k := bm.Key().Draw(t, "key")
	raw := bm.EncodeFields([]bm.Field{bm.F("before", bm.NInt32(1)), bm.F(k, n), bm.F("after", bm.NNull())})
	c.Note("%q %s", k, n)
	var vs [2]*birch.Element
	for i := range vs {
		d, err := birch.ReadDocument(raw)
		if err != nil {
			c.Failf("rejected: %v", err)
		}
		vs[i] = d.ElementAt(1)
	}
	if rapid.Bool().Draw(t, "copy") {
		vs[1] = vs[0].Copy()
	}
	ms := [2]*bm.Node{n, n.Clone()}
	changed := false
	for step := rapid.IntRange(1, 4).Draw(t, "steps"); step >= 0; step-- {
		want := ms[0].Equal(ms[1])
		if zeroConfusion(ms[0], ms[1]) {
			return
		}
		c.NoPanic("Equal", func() {
			a, b := vs[0], vs[1]
			if a.Value().Equal(b.Value()) != want || b.Value().Equal(a.Value()) != want || a.Equal(b) != want || b.Equal(a) != want {
				c.Failf("values of the same bytes, which are now %s and %s, compare as %v", ms[0], ms[1], !want)
			}
		})
		if changed {
			c.Class(fmt.Sprint("changed, equal: ", want))
			c.NonTrivial(append(ms[0].Encode(), ms[1].Encode()...))
		}
		i := rapid.IntRange(0, 1).Draw(t, "which")
		m := ms[i].Clone()
		if rapid.IntRange(0, 3).Draw(t, "catch-up") == 0 { // both are equal again
			m = ms[1-i].Clone()
		} else {
			// what changes is at any depth
			at := m
			for len(at.Kids) > 0 && rapid.Bool().Draw(t, "descend") {
				next := at.Kids[rapid.IntRange(0, len(at.Kids)-1).Draw(t, "at")].V
				if next.T != bm.Doc && next.T != bm.Array && next.T != bm.CodeScope {
					break
				}
				at = next
			}
			f := bm.F(bm.Key().Draw(t, "k"), bm.GenNode(t, bm.Opts{MaxDepth: 1}, 0))
			switch {
			case len(at.Kids) > 0 && rapid.Bool().Draw(t, "drop"):
				at.Kids = at.Kids[:len(at.Kids)-1]
			default:
				at.Kids = append(at.Kids, f)
			}
		}
		c.Note("%d becomes %s", i, m)
		become(vs[i].Value(), ms[i], m)
		ms[i], changed = m, true
	}
}

// become changes the contents of a value, which are from, to those of another
// by changing as little as possible in place.
func become(v *birch.Value, from, to *bm.Node) {
	same := 0
	for same < len(from.Kids) && same < len(to.Kids) && from.Kids[same].V.T == to.Kids[same].V.T &&
		(from.T == bm.Array || from.Kids[same].K == to.Kids[same].K) {
		a, b := from.Kids[same].V, to.Kids[same].V
		if !a.Equal(b) && (a.T != bm.Doc && a.T != bm.Array && (a.T != bm.CodeScope || a.S != b.S)) {
			break
		}
		same++
	}
	var d *birch.Document
	if v.Type() == 4 {
		arr := v.MutableArray()
		for i := len(from.Kids) - 1; i >= same; i-- {
			arr.Delete(uint(i))
		}
		for i, f := range to.Kids {
			if i < same {
				if !from.Kids[i].V.Equal(f.V) {
					e, err := arr.Lookup(uint(i))
					if err != nil {
						panic(err)
					}
					become(e, from.Kids[i].V, f.V)
				}
			} else {
				arr.Append(bm.ToValue(f.V))
			}
		}
		return
	}
	if v.Type() == 15 {
		_, d = v.MutableJavaScriptWithScope()
	} else {
		d = v.MutableDocument()
	}
	if same < len(from.Kids) { // a document has no means of removing an element by its position
		kept := append([]*birch.Element{}, d.Elements()[:same]...)
		d.Reset()
		d.Append(kept...)
	}
	for i, f := range to.Kids {
		if i < same {
			if !from.Kids[i].V.Equal(f.V) {
				become(d.ElementAt(uint(i)).Value(), from.Kids[i].V, f.V)
			}
		} else {
			d.Append(bm.ToElem(f.K, f.V))
		}
	}
}

var longs = rapid.OneOf(
	rapid.Map(rapid.SampledFrom([]int{127, 255, 256, 4095, 4096, 65535, 65536, 70000, 1 << 17}), func(n int) int { return n }),
	rapid.IntRange(100, 3000), rapid.IntRange(250, 260), rapid.IntRange(65520, 65550))

// long compares values whose contents are long, and which differ in one byte
// anywhere, or in their length.
func long(c *prop.C) {
	t := c.T
	n := longs.Draw(t, "length")
	text := []byte(strings.Repeat("abcdefghijk", n/11+1)[:n])
	other := append([]byte{}, text...)
	differ := true
	at := -1
	switch rapid.IntRange(0, 4).Draw(t, "difference") {
	case 0:
		differ = false
	case 1: // at the end
		at = n - 1
	case 2:
		at = rapid.IntRange(0, n-1).Draw(t, "at")
	case 3: // where a narrow length would wrap
		at = rapid.SampledFrom([]int{n & 0xff, n & 0xffff, n &^ 0xff, 255, 256, 65535, 65536}).Draw(t, "near") + rapid.IntRange(-6, 6).Draw(t, "off")
		at = min(max(at, 0), n-1)
	case 4:
		other = append(other, 'x')
	}
	if at >= 0 {
		other[at] ^= 1
	}
	ty := rapid.SampledFrom([]byte{bm.String, bm.JS, bm.Symbol, bm.Binary, bm.Regex, bm.DBPointer, bm.CodeScope, bm.Doc, bm.Array}).Draw(t, "type")
	kind := rapid.IntRange(0, 3).Draw(t, "inside")
	make := func(b []byte) *bm.Node {
		switch ty {
		case bm.Binary:
			return &bm.Node{T: ty, Sub: []byte{0, 2, 5, 0x80}[kind], B: b}
		case bm.Regex:
			if kind == 0 {
				return &bm.Node{T: ty, S: string(b), S2: "i"}
			}
			return &bm.Node{T: ty, S: "a", S2: string(b)}
		case bm.CodeScope:
			if kind == 0 {
				return &bm.Node{T: ty, S: "code", Kids: []bm.Field{bm.F("k", bm.NString(string(b)))}}
			}
			return &bm.Node{T: ty, S: string(b), Kids: []bm.Field{bm.F("k", bm.NInt32(1))}}
		case bm.Doc:
			switch kind {
			case 0:
				return bm.NDoc(bm.F(string(b), bm.NNull()))
			case 1:
				return bm.NDoc(bm.F("a", bm.NInt32(1)), bm.F("d", bm.NDoc(bm.F("s", bm.NString(string(b))))))
			}
			d := bm.NDoc()
			for i := 0; i+8 <= len(b); i += 8 {
				d.Kids = append(d.Kids, bm.F("k", bm.NInt64(int64(binary.LittleEndian.Uint64(b[i:])))))
			}
			d.Kids = append(d.Kids, bm.F("rest", bm.NString(string(b[len(b)&^7:]))))
			return d
		case bm.Array:
			if kind < 2 {
				return bm.NArray(bm.NNull(), bm.NString(string(b)))
			}
			a := []*bm.Node{}
			for i := 0; i+8 <= len(b); i += 8 {
				a = append(a, bm.NInt64(int64(binary.LittleEndian.Uint64(b[i:]))))
			}
			return bm.NArray(append(a, bm.NString(string(b[len(b)&^7:])))...)
		}
		return &bm.Node{T: ty, S: string(b)}
	}
	x, y := make(text), make(other)
	c.Note("%s, kind %d, of %d bytes, differing at %d: %v", bm.TypeName(ty), kind, n, at, differ)
	c.Class(bm.TypeName(ty))
	c.NonTrivial(fmt.Sprint(ty, kind, n, at, differ, len(other)))
	a, b := bm.Rep(t, "k", x), bm.Rep(t, "k", y)
	c.NoPanic("Equal", func() {
		if a.Value().Equal(b.Value()) != !differ || b.Value().Equal(a.Value()) != !differ || a.Equal(b) != !differ || b.Equal(a) != !differ {
			c.Failf("compare as %v", differ)
		}
		if !a.Equal(bm.Rep(t, "k", x)) || !bm.Rep(t, "k", y).Equal(b) {
			c.Failf("is not equal to itself, represented otherwise")
		}
	})
}

var sortKeys = rapid.SampledFrom([]string{"a", "b", "ab", "", "c", "é", "B"})
var sortTypes = []byte{bm.Double, bm.String, bm.ObjectID, bm.DateTime, bm.Int32, bm.Int64, bm.Bool, bm.Null, bm.Doc}

func sorting(c *prop.C) {
	most := 8
	if rapid.IntRange(0, 3).Draw(c.T, "long") == 0 {
		most = 60
	}
	fs := bm.GenDoc(c.T, bm.Opts{MaxDepth: 1, MaxLen: most, Keys: sortKeys, Types: sortTypes, NoNaN: true, Strings: rapid.SampledFrom([]string{"", "a", "b", "ab", "é", "a\x00"})})
	for i, f := range fs {
		if f.V.T == bm.DateTime { // dates that a time holds
			fs[i].V = bm.NDate(rapid.OneOf(rapid.Int64Range(-1<<50, 1<<50), rapid.Int64Range(-3000, 3000)).Draw(c.T, "date"))
		}
	}
	for i, f := range fs {
		if j := rapid.IntRange(0, len(fs)-1).Draw(c.T, "like"); f.V.T == bm.ObjectID && fs[j].V.T == bm.ObjectID {
			// differing in one place only
			f.V.OID = fs[j].V.OID
			f.V.OID[rapid.IntRange(0, 11).Draw(c.T, "byte")] ^= byte(rapid.IntRange(0, 255).Draw(c.T, "bits"))
			fs[i] = f
		}
	}
	c.Note("doc %s", bm.Show(fs))
	d := bm.RepDoc(c.T, fs)
	before, _ := d.MarshalBSON()
	var s *birch.Document
	c.NoPanic("Sorted", func() { s = d.Sorted() })
	after, _ := d.MarshalBSON()
	if !bytes.Equal(before, after) {
		c.Failf("Sorted changed the document it was called on")
	}
	var got, want []string
	for e := range s.Iterator() {
		b, err := e.MarshalBSON()
		if err != nil {
			c.Failf("element of the sorted document: %v", err)
		}
		got = append(got, string(b))
	}
	// elements that are not ordered among themselves keep their order
	ordered := append([]bm.Field{}, fs...)
	sort.SliceStable(ordered, func(i, j int) bool { return compare(ordered[i], ordered[j]) < 0 })
	for _, f := range ordered {
		want = append(want, string(bm.EncodeElem(f)))
	}
	if len(got) != len(want) {
		c.Failf("Sorted has %d elements, want %d", len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			c.Failf("Sorted: element %d is %x, want %x (%q %s)", i, got[i], want[i], ordered[i].K, ordered[i].V)
		}
	}
	sf, err := bm.FromDocErr(s)
	if err != nil {
		c.Failf("sorted document: %v", err)
	}
	for i := 1; i < len(sf); i++ {
		if cmp := compare(sf[i], sf[i-1]); cmp < 0 {
			c.Failf("Sorted: %q %s before %q %s", sf[i-1].K, sf[i-1].V, sf[i].K, sf[i].V)
		}
	}
	// the ordering relation itself
	es := d.Elements()
	for i := range es {
		for j := range es {
			lt := es.Less(i, j)
			if w := compare(fs[i], fs[j]) < 0; lt != w {
				c.Failf("Less(%q %s, %q %s) = %v", fs[i].K, fs[i].V, fs[j].K, fs[j].V, lt)
			}
			if lt && es[i].Equal(es[j]) {
				c.Failf("%q %s is both less than and equal to %q %s", fs[i].K, fs[i].V, fs[j].K, fs[j].V)
			}
		}
	}
	if len(fs) >= 3 {
		c.NonTrivial(bm.EncodeFields(fs))
	}
}

// compare orders by key, then type, then value for the types that have an
// order; values of the other types are not ordered among themselves.
func compare(a, b bm.Field) int {
	if a.K != b.K {
		return cmp(a.K < b.K)
	}
	x, y := a.V, b.V
	if x.T != y.T {
		return cmp(x.T < y.T)
	}
	lt := false
	switch x.T {
	case bm.Double:
		if x.Float() == y.Float() {
			return 0
		}
		lt = x.Float() < y.Float()
	case bm.String:
		if x.S == y.S {
			return 0
		}
		lt = x.S < y.S
	case bm.ObjectID:
		return bytes.Compare(x.OID[:], y.OID[:])
	case bm.DateTime, bm.Int64:
		if x.U == y.U {
			return 0
		}
		lt = int64(x.U) < int64(y.U)
	case bm.Int32:
		if x.U == y.U {
			return 0
		}
		lt = int32(x.U) < int32(y.U)
	default:
		return 0
	}
	return cmp(lt)
}

func cmp(lt bool) int {
	if lt {
		return -1
	}
	return 1
}

func main() {
	prop.Main(prop.Spec{
		ID:   "B07",
		Rule: "equality: the values differ or have content beyond their type; shared: compared after a change; long: every pair, counted by type, length and difference; sorting: at least 3 elements",
		Assumptions: []string{
			"pairs that differ only in the sign of a zero or in a NaN payload are not judged",
			"arrays carry the keys 0,1,2,... in their bytes, as the specification requires",
			"documents with NaN, and dates outside the range of time.Time, are not sorted here",
		},
		Subs: []prop.Sub{
			{Name: "equality", Quick: 720000, Thorough: 7200000, Shards: 6, Fn: equality},
			{Name: "shared", Quick: 120000, Thorough: 1200000, Shards: 2, Fn: shared},
			{Name: "long", Quick: 36000, Thorough: 360000, Shards: 4, Fn: long},
			{Name: "sorting", Quick: 150000, Thorough: 1500000, Shards: 2, Fn: sorting},
		},
	})
}
