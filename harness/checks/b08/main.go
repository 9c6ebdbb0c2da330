// B08: typed accessors return the stored value or say they cannot.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/types"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/prop"
)

// accessor normalises one accessor pair: ok returns a canonical rendering of
// the result and the flag; must the rendering of the panicking variant.
type accessor struct {
	name string
	ts   []byte // types it applies to
	ok   func(*birch.Value) (string, bool)
	must func(*birch.Value) string
	want func(*bm.Node) string
	zero string
}

func r(args ...any) string {
	s := ""
	for _, a := range args {
		switch v := a.(type) {
		case []byte:
			s += fmt.Sprintf("%x|", v)
		case float64:
			s += fmt.Sprintf("%x|", math.Float64bits(v))
		case time.Time:
			s += fmt.Sprintf("%d/%d|", v.Unix(), v.Nanosecond())
		case *birch.Document:
			if v == nil {
				s += "nil|"
				continue
			}
			b, err := v.MarshalBSON()
			s += fmt.Sprintf("%x %v|", b, err)
		case *birch.Array:
			if v == nil {
				s += "nil|"
				continue
			}
			b, err := v.MarshalBSON()
			s += fmt.Sprintf("%x %v|", b, err)
		default:
			s += fmt.Sprintf("%#v|", v)
		}
	}
	return s
}

func floorTime(ms int64) string {
	sec, rem := ms/1000, ms%1000
	if rem < 0 {
		sec, rem = sec-1, rem+1000
	}
	return fmt.Sprintf("%d/%d|", sec, rem*1000000)
}

func enc(b []byte) string { return fmt.Sprintf("%x %v|", b, nil) }

var accessors = []accessor{
	{"Double", []byte{bm.Double},
		func(v *birch.Value) (string, bool) { x, ok := v.DoubleOK(); return r(x), ok },
		func(v *birch.Value) string { return r(v.Double()) },
		func(n *bm.Node) string { return r(n.Float()) }, r(float64(0))},
	{"StringValue", []byte{bm.String},
		func(v *birch.Value) (string, bool) { x, ok := v.StringValueOK(); return r(x), ok },
		func(v *birch.Value) string { return r(v.StringValue()) },
		func(n *bm.Node) string { return r(n.S) }, r("")},
	{"ReaderDocument", []byte{bm.Doc},
		func(v *birch.Value) (string, bool) { x, ok := v.ReaderDocumentOK(); return r([]byte(x)), ok },
		func(v *birch.Value) string { return r([]byte(v.ReaderDocument())) },
		func(n *bm.Node) string { return r(n.Encode()) }, r([]byte(nil))},
	{"MutableDocument", []byte{bm.Doc},
		func(v *birch.Value) (string, bool) { x, ok := v.MutableDocumentOK(); return r(x), ok },
		func(v *birch.Value) string { return r(v.MutableDocument()) },
		func(n *bm.Node) string { return enc(n.Encode()) }, "nil|"},
	{"ReaderArray", []byte{bm.Array},
		func(v *birch.Value) (string, bool) { x, ok := v.ReaderArrayOK(); return r([]byte(x)), ok },
		func(v *birch.Value) string { return r([]byte(v.ReaderArray())) },
		func(n *bm.Node) string { return r(n.Encode()) }, r([]byte(nil))},
	{"MutableArray", []byte{bm.Array},
		func(v *birch.Value) (string, bool) { x, ok := v.MutableArrayOK(); return r(x), ok },
		func(v *birch.Value) string { return r(v.MutableArray()) },
		func(n *bm.Node) string { return enc(n.Encode()) }, "nil|"},
	{"Reader", []byte{bm.Doc, bm.Array}, nil,
		func(v *birch.Value) string { return r([]byte(v.Reader())) },
		func(n *bm.Node) string { return r(n.Encode()) }, ""},
	{"Binary", []byte{bm.Binary},
		func(v *birch.Value) (string, bool) { s, b, ok := v.BinaryOK(); return r(s, b), ok },
		func(v *birch.Value) string { return r(v.Binary()) },
		func(n *bm.Node) string { return r(n.Sub, n.B) }, r(byte(0), []byte(nil))},
	{"ObjectID", []byte{bm.ObjectID},
		func(v *birch.Value) (string, bool) { x, ok := v.ObjectIDOK(); return r(x[:]), ok },
		func(v *birch.Value) string { x := v.ObjectID(); return r(x[:]) },
		func(n *bm.Node) string { return r(n.OID[:]) }, r(make([]byte, 12))},
	{"Boolean", []byte{bm.Bool},
		func(v *birch.Value) (string, bool) { x, ok := v.BooleanOK(); return r(x), ok },
		func(v *birch.Value) string { return r(v.Boolean()) },
		func(n *bm.Node) string { return r(n.U != 0) }, r(false)},
	{"DateTime", []byte{bm.DateTime},
		func(v *birch.Value) (string, bool) { x, ok := v.DateTimeOK(); return r(x), ok },
		func(v *birch.Value) string { return r(v.DateTime()) },
		func(n *bm.Node) string { return r(int64(n.U)) }, r(int64(0))},
	{"Time", []byte{bm.DateTime},
		func(v *birch.Value) (string, bool) { x, ok := v.TimeOK(); return r(x), ok },
		func(v *birch.Value) string { return r(v.Time()) },
		func(n *bm.Node) string { return floorTime(int64(n.U)) }, r(time.Time{})},
	{"Regex", []byte{bm.Regex}, nil,
		func(v *birch.Value) string { return r(v.Regex()) },
		func(n *bm.Node) string { return r(n.S, n.S2) }, ""},
	{"DBPointer", []byte{bm.DBPointer},
		func(v *birch.Value) (string, bool) { s, o, ok := v.DBPointerOK(); return r(s, o[:]), ok },
		func(v *birch.Value) string { s, o := v.DBPointer(); return r(s, o[:]) },
		func(n *bm.Node) string { return r(n.S, n.OID[:]) }, r("", make([]byte, 12))},
	{"JavaScript", []byte{bm.JS},
		func(v *birch.Value) (string, bool) { x, ok := v.JavaScriptOK(); return r(x), ok },
		func(v *birch.Value) string { return r(v.JavaScript()) },
		func(n *bm.Node) string { return r(n.S) }, r("")},
	{"Symbol", []byte{bm.Symbol}, nil,
		func(v *birch.Value) string { return r(v.Symbol()) },
		func(n *bm.Node) string { return r(n.S) }, ""},
	{"ReaderJavaScriptWithScope", []byte{bm.CodeScope},
		func(v *birch.Value) (string, bool) {
			s, x, ok := v.ReaderJavaScriptWithScopeOK()
			return r(s, []byte(x)), ok
		},
		func(v *birch.Value) string { s, x := v.ReaderJavaScriptWithScope(); return r(s, []byte(x)) },
		func(n *bm.Node) string { return r(n.S, bm.EncodeFields(n.Kids)) }, r("", []byte(nil))},
	{"MutableJavaScriptWithScope", []byte{bm.CodeScope},
		func(v *birch.Value) (string, bool) {
			s, x, ok := v.MutableJavaScriptWithScopeOK()
			return r(s, x), ok
		},
		func(v *birch.Value) string { return r(v.MutableJavaScriptWithScope()) },
		func(n *bm.Node) string { return r(n.S) + enc(bm.EncodeFields(n.Kids)) }, r("") + "nil|"},
	{"Int32", []byte{bm.Int32},
		func(v *birch.Value) (string, bool) { x, ok := v.Int32OK(); return r(x), ok },
		func(v *birch.Value) string { return r(v.Int32()) },
		func(n *bm.Node) string { return r(int32(n.U)) }, r(int32(0))},
	{"Int64", []byte{bm.Int64},
		func(v *birch.Value) (string, bool) { x, ok := v.Int64OK(); return r(x), ok },
		func(v *birch.Value) string { return r(v.Int64()) },
		func(n *bm.Node) string { return r(int64(n.U)) }, r(int64(0))},
	{"Int", []byte{bm.Int32, bm.Int64},
		func(v *birch.Value) (string, bool) { x, ok := v.IntOK(); return r(x), ok },
		func(v *birch.Value) string { return r(v.Int()) },
		func(n *bm.Node) string {
			if n.T == bm.Int32 {
				return r(int(int32(n.U)))
			}
			return r(int(int64(n.U)))
		}, r(0)},
	{"Timestamp", []byte{bm.Timestamp},
		func(v *birch.Value) (string, bool) { t, i, ok := v.TimestampOK(); return r(t, i), ok },
		func(v *birch.Value) string { return r(v.Timestamp()) },
		func(n *bm.Node) string { return r(uint32(n.U>>32), uint32(n.U)) }, r(uint32(0), uint32(0))},
	{"Decimal128", []byte{bm.Decimal},
		func(v *birch.Value) (string, bool) { x, ok := v.Decimal128OK(); return r(x.GetBytes()), ok },
		func(v *birch.Value) string { return r(v.Decimal128().GetBytes()) },
		func(n *bm.Node) string { return r(n.H, n.U) }, r(uint64(0), uint64(0))},
}

// export compares Interface() results with the model.
func export(got any, n *bm.Node) error {
	bad := func() error { return fmt.Errorf("Interface() of %s is %T %v", n, got, got) }
	chk := func(ok bool) error {
		if !ok {
			return bad()
		}
		return nil
	}
	switch n.T {
	case bm.Double:
		f, ok := got.(float64)
		return chk(ok && math.Float64bits(f) == n.U)
	case bm.String, bm.JS, bm.Symbol:
		s, ok := got.(string)
		return chk(ok && s == n.S)
	case bm.Doc:
		m, ok := got.(map[string]any)
		if !ok {
			return bad()
		}
		count := map[string]int{}
		for _, f := range n.Kids {
			count[f.K]++
		}
		if len(m) != len(count) {
			return bad()
		}
		for _, f := range n.Kids {
			if count[f.K] == 1 {
				if err := export(m[f.K], f.V); err != nil {
					return fmt.Errorf("%q: %w", f.K, err)
				}
			}
		}
		return nil
	case bm.Array:
		s, ok := got.([]any)
		if len(n.Kids) == 0 {
			return chk(ok && len(s) == 0)
		}
		if !ok || len(s) != len(n.Kids) {
			return bad()
		}
		for i, f := range n.Kids {
			if err := export(s[i], f.V); err != nil {
				return fmt.Errorf("[%d]: %w", i, err)
			}
		}
		return nil
	case bm.Binary:
		b, ok := got.([]byte)
		return chk(ok && bytes.Equal(b, n.B))
	case bm.ObjectID:
		o, ok := got.(types.ObjectID)
		return chk(ok && o == types.ObjectID(n.OID))
	case bm.Bool:
		b, ok := got.(bool)
		return chk(ok && b == (n.U != 0))
	case bm.DateTime:
		t, ok := got.(time.Time)
		return chk(ok && r(t) == floorTime(int64(n.U)))
	case bm.Regex:
		x, ok := got.(types.Regex)
		return chk(ok && x.Pattern == n.S && x.Options == n.S2)
	case bm.DBPointer:
		x, ok := got.(types.DBPointer)
		return chk(ok && x.DB == n.S && x.Pointer == types.ObjectID(n.OID))
	case bm.CodeScope:
		x, ok := got.(types.CodeWithScope)
		return chk(ok && x.Code == n.S && bytes.Equal(x.Scope, bm.EncodeFields(n.Kids)))
	case bm.Int32:
		i, ok := got.(int32)
		return chk(ok && i == int32(n.U))
	case bm.Int64:
		i, ok := got.(int64)
		return chk(ok && i == int64(n.U))
	case bm.Timestamp:
		x, ok := got.(types.Timestamp)
		return chk(ok && x.T == uint32(n.U>>32) && x.I == uint32(n.U))
	case bm.Decimal:
		x, ok := got.(types.Decimal128)
		if !ok {
			return bad()
		}
		h, l := x.GetBytes()
		return chk(h == n.H && l == n.U)
	}
	return chk(got == nil)
}

func isEmpty(n *bm.Node) (e, settled bool) {
	switch n.T {
	case bm.Double:
		return n.Float() == 0, true
	case bm.String, bm.JS, bm.Symbol:
		return n.S == "", true
	case bm.Doc, bm.Array:
		return len(n.Kids) == 0, true
	case bm.Binary:
		return len(n.B) == 0, true
	case bm.ObjectID:
		return n.OID == [12]byte{}, true
	case bm.Bool, bm.DateTime, bm.Int32, bm.Int64, bm.Timestamp:
		return n.U == 0, true
	case bm.Decimal:
		return n.U == 0 && n.H == 0, true
	case bm.Null, bm.MinKey, bm.MaxKey:
		return false, true
	case bm.Regex:
		return n.S == "", n.S != "" || n.S2 == ""
	case bm.DBPointer:
		return n.S == "", n.S != "" || n.OID == [12]byte{}
	case bm.CodeScope:
		return n.S == "", n.S != "" || len(n.Kids) == 0
	}
	return false, false
}

// barely draws the values closest to the empty one of their type.
func barely(t *rapid.T, ty byte) *bm.Node {
	n := &bm.Node{T: ty}
	bit := func(bits int) uint64 { return 1 << rapid.IntRange(0, bits-1).Draw(t, "bit") }
	switch ty {
	case bm.Double, bm.DateTime, bm.Int64:
		n.U = bit(64)
	case bm.Timestamp: // also parts that cancel out
		n.U = bit(64)
		if rapid.Bool().Draw(t, "both") {
			p := uint64(uint32(n.U | n.U>>32))
			n.U = p<<32 | uint64(-uint32(p))
		}
	case bm.Int32:
		n.U = uint64(int64(int32(bit(32))))
	case bm.Bool:
		n.U = 1
	case bm.Decimal:
		if b := bit(64); rapid.Bool().Draw(t, "high") {
			n.H = b
		} else {
			n.U = b
		}
	case bm.ObjectID:
		n.OID[rapid.IntRange(0, 11).Draw(t, "byte")] = byte(bit(8))
	case bm.String, bm.JS, bm.Symbol, bm.Regex, bm.DBPointer, bm.CodeScope:
		if n.S = rapid.SampledFrom([]string{"\x00", " ", "0", "\n", "\u200b"}).Draw(t, "s"); ty == bm.Regex && n.S == "\x00" {
			n.S = "^"
		}
	case bm.Binary:
		n.B = []byte{0}
	case bm.Doc, bm.Array:
		n.Kids = []bm.Field{bm.F("", &bm.Node{T: rapid.SampledFrom(bm.AllTypes).Draw(t, "kid")})}
		if ty == bm.Array {
			n.Kids[0].K = "0"
		}
	}
	return n
}

func access(c *prop.C) {
	ty := rapid.SampledFrom(bm.AllTypes).Draw(c.T, "type")
	n := bm.GenOfType(c.T, bm.Opts{MaxDepth: 2, MaxLen: 3}, ty, 0)
	switch rapid.IntRange(0, 9).Draw(c.T, "zero") {
	case 0:
		n = &bm.Node{T: ty}
	case 1:
		n = barely(c.T, ty)
	}
	c.Note("%s", n)
	v := bm.Rep(c.T, bm.Key().Draw(c.T, "key"), n).Value()
	if byte(v.Type()) != ty {
		c.Failf("Type() = %v", v.Type())
	}
	nmust := 0
	one := func(a accessor) {
		applies := bytes.IndexByte(a.ts, ty) >= 0
		if a.ok != nil {
			var got string
			var ok bool
			c.NoPanic(a.name+"OK", func() { got, ok = a.ok(v) })
			if ok != applies {
				c.Failf("%sOK on %s reports %v", a.name, n, ok)
			}
			want := a.zero
			if applies {
				want = a.want(n)
			}
			if got != want {
				c.Failf("%sOK on %s = %s, want %s", a.name, n, got, want)
			}
		}
		if a.name == "Reader" && !applies {
			return // defined for any type
		}
		var got string
		if applies {
			c.NoPanic(a.name, func() { got = a.must(v) })
			if got != a.want(n) {
				c.Failf("%s on %s = %s, want %s", a.name, n, got, a.want(n))
			}
			return
		}
		if nmust++; nmust > 3 {
			return // a panic costs a stack trace: three per case, from a random start
		}
		if !panics(func() { got = a.must(v) }) {
			c.Failf("%s on %s returned %s instead of panicking", a.name, n, got)
		}
	}
	first := rapid.IntRange(0, len(accessors)-1).Draw(c.T, "first")
	for i := range accessors {
		one(accessors[(first+i)%len(accessors)])
	}
	var got any
	c.NoPanic("Interface", func() { got = v.Interface() })
	if err := export(got, n); err != nil {
		c.Failf("%v", err)
	}
	if e, settled := isEmpty(n); settled {
		var g bool
		c.NoPanic("IsEmpty", func() { g = v.IsEmpty() })
		if g != e {
			c.Failf("IsEmpty of %s = %v", n, g)
		}
	}
	if err := v.Validate(); err != nil {
		c.Failf("Validate of %s: %v", n, err)
	}
	c.Class("type-" + bm.TypeName(ty))
	if len(n.Encode()) > 0 {
		c.NonTrivial(append([]byte{ty}, n.Encode()...))
	}
}

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return false
}

func uninitialised(c *prop.C) {
	a := accessors[rapid.IntRange(0, len(accessors)-1).Draw(c.T, "accessor")]
	var v *birch.Value
	what := "nil value"
	if rapid.Bool().Draw(c.T, "empty") {
		v, what = &birch.Value{}, "uninitialised value"
	}
	c.Note("%s on %s", a.name, what)
	if a.ok != nil {
		c.NoPanic(a.name+"OK on "+what, func() {
			if got, ok := a.ok(v); ok || got != a.zero {
				c.Failf("%sOK on a %s = %s, %v", a.name, what, got, ok)
			}
		})
	}
	if p, _ := prop.Catch(func() { a.must(v) }); p == nil {
		c.Failf("%s on a %s did not panic", a.name, what)
	}
	if v == nil {
		c.NoPanic("Interface and IsEmpty on nil", func() {
			if v.Interface() != nil || !v.IsEmpty() {
				c.Failf("nil value exports %v, empty %v", v.Interface(), v.IsEmpty())
			}
		})
	}
	c.NonTrivial(a.name + what)
}

type tookBytes struct{ b []byte }

func (x *tookBytes) UnmarshalBSON(b []byte) error {
	x.b = append([]byte{}, b...)
	if len(b) == 5 {
		return errRefused
	}
	return nil
}

type tookDoc struct{ b []byte }

func (x *tookDoc) UnmarshalDocument(d *birch.Document) (err error) {
	if d.Len() == 0 {
		return errRefused
	}
	x.b, err = d.MarshalBSON()
	return err
}

var errRefused = errors.New("refused")

// unmarshal stores the elements of a document in what the caller passes.
func unmarshal(c *prop.C) {
	t := c.T
	fs := bm.GenDoc(t, bm.Opts{MaxDepth: 2, MaxLen: 4, Keys: rapid.OneOf(bm.SimpleKey(), bm.Key())})
	raw := bm.EncodeFields(fs)
	c.Note("%s", bm.Show(fs))
	d := bm.RepDoc(t, fs)
	// what is there already stays unless the document has such a key
	was := map[string]string{}
	for _, k := range rapid.SliceOfN(rapid.OneOf(bm.SimpleKey(), bm.Key()), 0, 3).Draw(t, "was") {
		was[k] = "was"
	}
	last, count := map[string]*bm.Node{}, map[string]int{}
	for _, f := range fs {
		last[f.K] = f.V
		count[f.K]++
	}
	into := func(what string, v any) {
		var err error
		c.NoPanic("Unmarshal into "+what, func() { err = d.Unmarshal(v) })
		if err != nil {
			c.Failf("Unmarshal into %s: %v", what, err)
		}
	}
	values := func(what string, n int, get func(k string) (any, bool)) {
		want := len(last)
		for k := range was {
			if last[k] == nil {
				want++
				if v, ok := get(k); !ok || v != "was" {
					c.Failf("%s: %q, which is not in the document, is now %v", what, k, v)
				}
			}
		}
		if n != want {
			c.Failf("%s has %d entries, want %d", what, n, want)
		}
		for k, x := range last {
			if count[k] > 1 {
				continue
			}
			v, ok := get(k)
			if !ok {
				c.Failf("%s has no %q", what, k)
			}
			if err := export(v, x); err != nil {
				c.Failf("%s: %q: %v", what, k, err)
			}
		}
	}
	ms := map[string]string{}
	ma, mx := map[string]any{}, map[any]any{}
	for k, v := range was {
		ms[k], ma[k], mx[k] = v, v, v
	}
	into("a map of strings", ms)
	for k, v := range ms {
		x := last[k]
		if count[k] > 1 {
			continue
		}
		if x != nil && x.T == bm.String {
			if v != x.S {
				c.Failf("map of strings: %q is %q, want %q", k, v, x.S)
			}
		} else if was[k] != v {
			c.Failf("map of strings: %q is %q, and %v in the document", k, v, x)
		}
	}
	for k, x := range last {
		if v, ok := ms[k]; count[k] == 1 && x.T == bm.String && (!ok || v != x.S) {
			c.Failf("map of strings: %q is %q, want %q", k, v, x.S)
		}
	}
	into("a map of values", ma)
	values("map of values", len(ma), func(k string) (any, bool) { v, ok := ma[k]; return v, ok })
	into("a map of any to any", mx)
	values("map of any to any", len(mx), func(k string) (any, bool) { v, ok := mx[k]; return v, ok })
	var tb tookBytes
	var td tookDoc
	eb, ed := d.Unmarshal(&tb), d.Unmarshal(&td)
	if (eb != nil) != (len(fs) == 0) || (ed != nil) != (len(fs) == 0) || len(fs) == 0 && (!errors.Is(eb, errRefused) || !errors.Is(ed, errRefused)) {
		c.Failf("Unmarshal of %d elements: %v, %v", len(fs), eb, ed)
	}
	if !bytes.Equal(tb.b, raw) || len(fs) > 0 && !bytes.Equal(td.b, raw) {
		c.Failf("an unmarshaler got %x, the other %x, want %x", tb.b, td.b, raw)
	}
	od := birch.DC.Elements(birch.EC.Int32("first", 1))
	into("a document", od)
	if out, err := od.MarshalBSON(); err != nil || !bytes.Equal(out, bm.EncodeFields(append([]bm.Field{bm.F("first", bm.NInt32(1))}, fs...))) {
		c.Failf("Unmarshal into a document gives %x (%v)", out, err)
	}
	for _, v := range []any{nil, 1, "s", []string{}, &ms, struct{}{}} {
		c.NoPanic("Unmarshal", func() {
			if d.Unmarshal(v) == nil {
				c.Failf("Unmarshal into %T succeeds", v)
			}
		})
	}
	if out, err := d.MarshalBSON(); err != nil || !bytes.Equal(out, raw) {
		c.Failf("the document changed (%v): %s", err, bm.Diff(out, raw))
	}
	if len(fs) > 0 {
		c.NonTrivial(raw)
	}
}

func main() {
	prop.Main(prop.Spec{
		ID:   "B08",
		Rule: "the value has content beyond its type; unmarshal: the document has elements; uninitialised: every case",
		Assumptions: []string{
			"Value.Reader is judged for documents and arrays only; its result for other types is not documented",
			"the emptiness of undefined values, and of values with an empty main part but non-empty options, scope or id, is unspecified",
		},
		Subs: []prop.Sub{
			{Name: "access", Quick: 1600000, Thorough: 16000000, Shards: 6, Fn: access},
			{Name: "unmarshal", Quick: 240000, Thorough: 2400000, Shards: 2, Fn: unmarshal},
			{Name: "uninitialised", Quick: 8000, Thorough: 80000, Fn: uninitialised},
		},
	})
}
