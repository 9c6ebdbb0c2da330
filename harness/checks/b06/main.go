// B06: Go values convert to BSON without silent loss.
package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"sort"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/types"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/prop"
)

type kind int

const (
	kInt kind = iota
	kExact
	kDoc
	kArr
	kBad // not representable
)

// exp is what a Go value must become.
type exp struct {
	k       kind
	i       int64
	n       *bm.Node
	keys    []string // documents; nil for arrays
	kids    []*exp
	ordered bool
}

func (e *exp) bad() bool {
	if e.k == kBad {
		return true
	}
	for _, k := range e.kids {
		if k.bad() {
			return true
		}
	}
	return false
}

func (e *exp) String() string {
	switch e.k {
	case kInt:
		return fmt.Sprintf("integer %d", e.i)
	case kExact:
		return e.n.String()
	case kBad:
		return "unrepresentable"
	}
	s := ""
	for i, k := range e.kids {
		if e.k == kDoc {
			s += fmt.Sprintf("%q: ", e.keys[i])
		}
		s += k.String() + ", "
	}
	if e.k == kDoc {
		return "{" + s + "}"
	}
	return "[" + s + "]"
}

// match compares with what was stored. Unrepresentable values must be null.
func (e *exp) match(n *bm.Node) error {
	switch e.k {
	case kInt:
		switch n.T {
		case bm.Int32:
			if int64(int32(n.U)) == e.i {
				return nil
			}
		case bm.Int64:
			if int64(n.U) == e.i {
				return nil
			}
		}
		return fmt.Errorf("stored %s, want integer %d", n, e.i)
	case kExact:
		if n.T == bm.Double && e.n.T == bm.Double && math.IsNaN(n.Float()) && math.IsNaN(e.n.Float()) {
			return nil
		}
		if !n.Equal(e.n) {
			return fmt.Errorf("stored %s, want %s", n, e.n)
		}
		return nil
	case kBad:
		if n.T != bm.Null {
			return fmt.Errorf("stored %s for an unrepresentable value, want null", n)
		}
		return nil
	case kArr:
		if n.T != bm.Array || len(n.Kids) != len(e.kids) {
			return fmt.Errorf("stored %s, want an array of %d", n, len(e.kids))
		}
		for i, k := range e.kids {
			if err := k.match(n.Kids[i].V); err != nil {
				return fmt.Errorf("[%d]: %w", i, err)
			}
		}
		return nil
	}
	if n.T != bm.Doc || len(n.Kids) != len(e.kids) {
		return fmt.Errorf("stored %s, want a document of %d", n, len(e.kids))
	}
	if e.ordered {
		for i, k := range e.kids {
			if n.Kids[i].K != e.keys[i] {
				return fmt.Errorf("key %d is %q, want %q", i, n.Kids[i].K, e.keys[i])
			}
			if err := k.match(n.Kids[i].V); err != nil {
				return fmt.Errorf("%q: %w", e.keys[i], err)
			}
		}
		return nil
	}
	got := map[string]*bm.Node{}
	for _, f := range n.Kids {
		got[f.K] = f.V
	}
	for i, k := range e.kids {
		v := got[e.keys[i]]
		if v == nil {
			return fmt.Errorf("key %q missing", e.keys[i])
		}
		if err := k.match(v); err != nil {
			return fmt.Errorf("%q: %w", e.keys[i], err)
		}
	}
	return nil
}

type marsh struct {
	b   []byte
	err error
}

func (m marsh) MarshalBSON() ([]byte, error) { return m.b, m.err }

type docMarsh struct {
	d   *birch.Document
	err error
}

func (m docMarsh) MarshalDocument() (*birch.Document, error) { return m.d, m.err }

// malformed bytes of a document are not a value.
func malformed(t *rapid.T) []byte {
	fs := bm.GenDoc(t, docOpts)
	for {
		b, _ := bm.Mutate(t, fs, bm.EncodeFields(fs))
		if len(b) < 5 {
			return b
		}
		n := int64(int32(binary.LittleEndian.Uint32(b)))
		if n < 5 || n > int64(len(b)) {
			return b
		}
		if _, err := bm.DecodeDoc(b[:n]); err != nil {
			return b
		}
	}
}

type opaque struct{ a, b int }

func kInts(i int64) *exp { return &exp{k: kInt, i: i} }
func ex(n *bm.Node) *exp { return &exp{k: kExact, n: n} }
func bad() *exp          { return &exp{k: kBad} }
func uns(u uint64) *exp {
	if u > math.MaxInt64 {
		return bad()
	}
	return kInts(int64(u))
}

func genUint(t *rapid.T) uint64 {
	return rapid.OneOf(
		rapid.SampledFrom([]uint64{0, 1, math.MaxInt32 - 1, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64 - 1, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64}),
		rapid.Uint64(),
		rapid.Map(rapid.Uint32(), func(u uint32) uint64 { return uint64(u) }),
	).Draw(t, "u")
}

func genTime(t *rapid.T) (time.Time, int64) {
	sec := rapid.OneOf(rapid.Int64Range(-1<<42, 1<<42), rapid.Int64Range(-3, 3), rapid.Int64Range(1e9, 3e9)).Draw(t, "sec")
	ns := rapid.OneOf(rapid.Int64Range(0, 999999999), rapid.SampledFrom([]int64{0, 999999, 1000000, 999999999})).Draw(t, "ns")
	tm := time.Unix(sec, ns)
	if rapid.Bool().Draw(t, "utc") {
		tm = tm.UTC()
	}
	return tm, sec*1000 + ns/1000000
}

var docOpts = bm.Opts{MaxDepth: 2, MaxLen: 3}

func docExp(fs []bm.Field) *exp { return ex(bm.NDoc(fs...)) }

// gen draws a Go value together with what it must become.
func gen(t *rapid.T, depth int) (any, *exp) {
	top := 34
	if depth > 2 {
		top = 22
	}
	switch rapid.IntRange(0, top).Draw(t, "go") {
	case 0:
		return nil, ex(bm.NNull())
	case 1:
		b := rapid.Bool().Draw(t, "b")
		return b, ex(bm.NBool(b))
	case 2:
		i := rapid.Int8().Draw(t, "i8")
		return i, kInts(int64(i))
	case 3:
		i := rapid.Int16().Draw(t, "i16")
		return i, kInts(int64(i))
	case 4:
		i := bm.InterestingInt32().Draw(t, "i32")
		return i, kInts(int64(i))
	case 5:
		i := bm.InterestingInt64().Draw(t, "i64")
		return i, kInts(i)
	case 6, 7:
		i := bm.InterestingInt64().Draw(t, "int")
		return int(i), kInts(i)
	case 8:
		u := rapid.Uint8().Draw(t, "u8")
		return u, kInts(int64(u))
	case 9:
		u := rapid.Uint16().Draw(t, "u16")
		return u, kInts(int64(u))
	case 10:
		u := uint32(genUint(t))
		return u, kInts(int64(u))
	case 11:
		u := genUint(t)
		return uint(u), uns(u)
	case 12:
		u := genUint(t)
		return u, uns(u)
	case 13:
		f := rapid.OneOf(rapid.Float32(), rapid.SampledFrom([]float32{0, float32(math.NaN()), float32(math.Inf(1)), math.MaxFloat32, math.SmallestNonzeroFloat32, 0.1})).Draw(t, "f32")
		return f, ex(bm.NDouble(float64(f)))
	case 14:
		f := bm.InterestingFloat(true).Draw(t, "f64")
		return f, ex(bm.NDouble(f))
	case 15:
		s := bm.Str().Draw(t, "s")
		return s, ex(bm.NString(s))
	case 16:
		tm, ms := genTime(t)
		return tm, ex(bm.NDate(ms))
	case 17:
		a, b := rapid.Uint32().Draw(t, "t"), rapid.Uint32().Draw(t, "i")
		return types.Timestamp{T: a, I: b}, ex(bm.NTime(a, b))
	case 18:
		n := bm.GenNode(t, docOpts, 1)
		return bm.RepValue(t, n), ex(n)
	case 19: // unsupported kinds
		return rapid.SampledFrom([]any{opaque{1, 2}, &opaque{}, complex(1, 2), struct{}{}, map[int]int{1: 2}, [2]int{1, 2}, uintptr(7)}).Draw(t, "unsupported"), bad()
	case 20:
		return rapid.SampledFrom([]any{(*birch.Document)(nil), (*birch.Value)(nil), (*birch.Element)(nil), birch.Reader(nil), birch.Reader([]byte{1, 2, 3}), docMarsh{}, marsh{}, marsh{b: malformed(t)}, birch.Reader(malformed(t))}).Draw(t, "nil"), bad()
	case 21:
		// what comes with an error is not used
		return marsh{b: rapid.SampledFrom([][]byte{nil, bm.EncodeFields([]bm.Field{bm.F("x", bm.NNull())})}).Draw(t, "with"), err: errors.New("no")}, bad()
	case 22:
		return docMarsh{d: rapid.SampledFrom([]*birch.Document{nil, birch.DC.Elements(birch.EC.Null("x"))}).Draw(t, "with"), err: errors.New("no")}, bad()
	case 23:
		fs := bm.GenFields(t, docOpts, 1)
		return marsh{b: bm.EncodeFields(fs)}, docExp(fs)
	case 24:
		fs := bm.GenFields(t, docOpts, 1)
		return docMarsh{d: bm.RepDoc(t, fs)}, docExp(fs)
	case 25:
		fs := bm.GenFields(t, docOpts, 1)
		return bm.RepDoc(t, fs), docExp(fs)
	case 26:
		fs := bm.GenFields(t, docOpts, 1)
		return birch.Reader(bm.EncodeFields(fs)), docExp(fs)
	case 27:
		fs := bm.GenFields(t, docOpts, 1)
		es := []*birch.Element{}
		for _, f := range fs {
			es = append(es, bm.Rep(t, f.K, f.V))
		}
		return es, docExp(fs)
	case 28:
		n := bm.GenOfType(t, docOpts, bm.Array, 1)
		vs := []*birch.Value{}
		for _, f := range n.Kids {
			vs = append(vs, bm.RepValue(t, f.V))
		}
		return vs, ex(n)
	case 29:
		return genMap(t, depth)
	case 30:
		m := map[any]any{}
		e := &exp{k: kDoc}
		for k := rapid.IntRange(0, 4).Draw(t, "n"); k > 0; k-- {
			var key any
			ks := ""
			if rapid.Bool().Draw(t, "strkey") {
				ks = "s" + bm.Key().Draw(t, "k")
				key = ks
			} else {
				i := rapid.IntRange(0, 9).Draw(t, "ik")
				key, ks = i, fmt.Sprint(i)
			}
			if _, ok := m[key]; ok {
				continue
			}
			v, x := gen(t, depth+1)
			if _, ok := v.(*birch.Element); ok {
				continue
			}
			m[key] = v
			e.keys, e.kids = append(e.keys, ks), append(e.kids, x)
		}
		return m, e
	case 31:
		m := rapid.MapOfN(bm.Key(), bm.Str(), 0, 4).Draw(t, "mss")
		e := &exp{k: kDoc}
		ks := []string{}
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			e.keys, e.kids = append(e.keys, k), append(e.kids, ex(bm.NString(m[k])))
		}
		return m, e
	case 32:
		return genSlice(t, depth)
	default:
		return genTyped(t)
	}
}

func genMap(t *rapid.T, depth int) (map[string]any, *exp) {
	m := map[string]any{}
	e := &exp{k: kDoc}
	for k := rapid.IntRange(0, 4).Draw(t, "n"); k > 0; k-- {
		key := bm.Key().Draw(t, "k")
		if _, ok := m[key]; ok {
			continue
		}
		v, x := gen(t, depth+1)
		m[key] = v
		e.keys, e.kids = append(e.keys, key), append(e.kids, x)
	}
	return m, e
}

func genSlice(t *rapid.T, depth int) ([]any, *exp) {
	s := []any{}
	e := &exp{k: kArr}
	for k := rapid.IntRange(0, 4).Draw(t, "n"); k > 0; k-- {
		v, x := gen(t, depth+1)
		s = append(s, v)
		e.kids = append(e.kids, x)
	}
	return s, e
}

func genTyped(t *rapid.T) (any, *exp) {
	e := &exp{k: kArr}
	n := rapid.IntRange(0, 5).Draw(t, "n")
	switch rapid.IntRange(0, 7).Draw(t, "slice") {
	case 0:
		s := make([]string, n)
		for i := range s {
			s[i] = bm.Str().Draw(t, "s")
			e.kids = append(e.kids, ex(bm.NString(s[i])))
		}
		return s, e
	case 1:
		s := make([]int64, n)
		for i := range s {
			s[i] = bm.InterestingInt64().Draw(t, "i")
			e.kids = append(e.kids, kInts(s[i]))
		}
		return s, e
	case 2:
		s := make([]int32, n)
		for i := range s {
			s[i] = bm.InterestingInt32().Draw(t, "i")
			e.kids = append(e.kids, kInts(int64(s[i])))
		}
		return s, e
	case 3:
		s := make([]float64, n)
		for i := range s {
			s[i] = bm.InterestingFloat(true).Draw(t, "f")
			e.kids = append(e.kids, ex(bm.NDouble(s[i])))
		}
		return s, e
	case 4:
		s := make([]float32, n)
		for i := range s {
			s[i] = rapid.Float32().Draw(t, "f")
			e.kids = append(e.kids, ex(bm.NDouble(float64(s[i]))))
		}
		return s, e
	case 5:
		s := make([]int, n)
		for i := range s {
			s[i] = int(bm.InterestingInt64().Draw(t, "i"))
			e.kids = append(e.kids, kInts(int64(s[i])))
		}
		return s, e
	case 6:
		s := make([]time.Time, n)
		for i := range s {
			tm, ms := genTime(t)
			s[i] = tm
			e.kids = append(e.kids, ex(bm.NDate(ms)))
		}
		return s, e
	default:
		s := make([]time.Duration, n)
		for i := range s {
			s[i] = time.Duration(bm.InterestingInt64().Draw(t, "d"))
			e.kids = append(e.kids, kInts(int64(s[i])))
		}
		return s, e
	}
}

type out struct {
	name   string
	errAPI bool // reports unrepresentable values as errors
	f      func() (*birch.Value, error)
}

func lift(v *birch.Value) (*birch.Value, error) { return v, nil }
func elem(e *birch.Element, err error) (*birch.Value, error) {
	if err != nil {
		return nil, err
	}
	if e.Key() != "key" {
		return nil, fmt.Errorf("WRONG KEY %q", e.Key())
	}
	return e.Value(), nil
}
func doc(d *birch.Document, err error) (*birch.Value, error) {
	if err != nil {
		return nil, err
	}
	return birch.VC.Document(d), nil
}

func convert(c *prop.C) {
	v, e := gen(c.T, 0)
	c.Note("%T %v -> %s", v, v, e)
	outs := []out{
		{"EC.Interface", false, func() (*birch.Value, error) { return elem(birch.EC.Interface("key", v), nil) }},
		{"VC.Interface", false, func() (*birch.Value, error) { return lift(birch.VC.Interface(v)) }},
		{"ECE.Interface", true, func() (*birch.Value, error) { return elem(birch.ECE.Interface("key", v)) }},
		{"VCE.Interface", true, func() (*birch.Value, error) { return birch.VCE.Interface(v) }},
	}
	switch t := v.(type) {
	case int:
		outs = append(outs, out{"EC.Int", false, func() (*birch.Value, error) { return elem(birch.EC.Int("key", t), nil) }},
			out{"VC.Int", false, func() (*birch.Value, error) { return lift(birch.VC.Int(t)) }})
	case int64:
		outs = append(outs, out{"EC.Duration", false, func() (*birch.Value, error) { return elem(birch.EC.Duration("key", time.Duration(t)), nil) }},
			out{"VC.Duration", false, func() (*birch.Value, error) { return lift(birch.VC.Duration(time.Duration(t))) }})
	case time.Time:
		outs = append(outs, out{"VC.Time", false, func() (*birch.Value, error) { return lift(birch.VC.Time(t)) }})
	case map[string]any:
		outs = append(outs,
			out{"DC.MapInterface", false, func() (*birch.Value, error) { return doc(birch.DC.MapInterface(t), nil) }},
			out{"DC.Interface", false, func() (*birch.Value, error) { return doc(birch.DC.Interface(t), nil) }},
			out{"VC.MapInterface", false, func() (*birch.Value, error) { return lift(birch.VC.MapInterface(t)) }},
			out{"DCE.MapInterface", true, func() (*birch.Value, error) { return doc(birch.DCE.MapInterface(t)) }},
			out{"DCE.Interface", true, func() (*birch.Value, error) { return doc(birch.DCE.Interface(t)) }},
			out{"VCE.MapInterface", true, func() (*birch.Value, error) { return birch.VCE.MapInterface(t) }})
	case map[any]any:
		outs = append(outs,
			out{"DC.MapInterfaceInterface", false, func() (*birch.Value, error) { return doc(birch.DC.MapInterfaceInterface(t), nil) }},
			out{"DC.Interface", false, func() (*birch.Value, error) { return doc(birch.DC.Interface(t), nil) }},
			out{"VC.MapInterfaceInterface", false, func() (*birch.Value, error) { return lift(birch.VC.MapInterfaceInterface(t)) }},
			out{"DCE.MapInterfaceInterface", true, func() (*birch.Value, error) { return doc(birch.DCE.MapInterfaceInterface(t)) }},
			out{"DCE.Interface", true, func() (*birch.Value, error) { return doc(birch.DCE.Interface(t)) }})
	case map[string]string:
		outs = append(outs,
			out{"DC.MapString", false, func() (*birch.Value, error) { return doc(birch.DC.MapString(t), nil) }},
			out{"VC.MapString", false, func() (*birch.Value, error) { return lift(birch.VC.MapString(t)) }},
			out{"DC.Interface", false, func() (*birch.Value, error) { return doc(birch.DC.Interface(t), nil) }},
			out{"DCE.Interface", true, func() (*birch.Value, error) { return doc(birch.DCE.Interface(t)) }})
	case []any:
		outs = append(outs,
			out{"EC.SliceInterface", false, func() (*birch.Value, error) { return elem(birch.EC.SliceInterface("key", t), nil) }},
			out{"VC.SliceInterface", false, func() (*birch.Value, error) { return lift(birch.VC.SliceInterface(t)) }},
			out{"ECE.SliceInterface", true, func() (*birch.Value, error) { return elem(birch.ECE.SliceInterface("key", t)) }},
			out{"VCE.SliceInterface", true, func() (*birch.Value, error) { return birch.VCE.SliceInterface(t) }})
	case []string:
		outs = append(outs, out{"VC.SliceString", false, func() (*birch.Value, error) { return lift(birch.VC.SliceString(t)) }})
	case []int64:
		outs = append(outs, out{"VC.SliceInt64", false, func() (*birch.Value, error) { return lift(birch.VC.SliceInt64(t)) }})
	case []int32:
		outs = append(outs, out{"VC.SliceInt32", false, func() (*birch.Value, error) { return lift(birch.VC.SliceInt32(t)) }})
	case []int:
		outs = append(outs, out{"VC.SliceInt", false, func() (*birch.Value, error) { return lift(birch.VC.SliceInt(t)) }})
	case []float64:
		outs = append(outs, out{"VC.SliceFloat64", false, func() (*birch.Value, error) { return lift(birch.VC.SliceFloat64(t)) }})
	case []float32:
		outs = append(outs, out{"VC.SliceFloat32", false, func() (*birch.Value, error) { return lift(birch.VC.SliceFloat32(t)) }})
	case []time.Time:
		outs = append(outs, out{"VC.SliceTime", false, func() (*birch.Value, error) { return lift(birch.VC.SliceTime(t)) }})
	case []time.Duration:
		outs = append(outs, out{"VC.SliceDuration", false, func() (*birch.Value, error) { return lift(birch.VC.SliceDuration(t)) }})
	case marsh:
		outs = append(outs,
			out{"DCE.Interface", true, func() (*birch.Value, error) { return doc(birch.DCE.Interface(t)) }},
			out{"DCE.Marshaler", true, func() (*birch.Value, error) { return doc(birch.DCE.Marshaler(t)) }},
			out{"ECE.Marshaler", true, func() (*birch.Value, error) { return elem(birch.ECE.Marshaler("key", t)) }},
			out{"VCE.Marshaler", true, func() (*birch.Value, error) { return birch.VCE.Marshaler(t) }})
		if !e.bad() {
			outs = append(outs,
				out{"DC.Interface", false, func() (*birch.Value, error) { return doc(birch.DC.Interface(t), nil) }},
				out{"DC.Marshaler", false, func() (*birch.Value, error) { return doc(birch.DC.Marshaler(t), nil) }},
				out{"EC.Marshaler", false, func() (*birch.Value, error) { return elem(birch.EC.Marshaler("key", t), nil) }},
				out{"VC.Marshaler", false, func() (*birch.Value, error) { return lift(birch.VC.Marshaler(t)) }})
		}
	case docMarsh:
		if !e.bad() {
			outs = append(outs,
				out{"DC.Interface", false, func() (*birch.Value, error) { return doc(birch.DC.Interface(t), nil) }},
				out{"MarshalDocumentBSON", true, func() (*birch.Value, error) {
					b, err := birch.MarshalDocumentBSON(t)
					return birch.VC.DocumentFromReader(b), err
				}},
				out{"EC.DocumentMarshaler", false, func() (*birch.Value, error) { return elem(birch.EC.DocumentMarshaler("key", t), nil) }},
				out{"VC.DocumentMarshaler", false, func() (*birch.Value, error) { return lift(birch.VC.DocumentMarshaler(t)) }})
		}
		outs = append(outs,
			out{"DCE.Interface", true, func() (*birch.Value, error) { return doc(birch.DCE.Interface(t)) }},
			out{"ECE.DocumentMarshaler", true, func() (*birch.Value, error) { return elem(birch.ECE.DocumentMarshaler("key", t)) }},
			out{"VCE.DocumentMarshaler", true, func() (*birch.Value, error) { return birch.VCE.DocumentMarshaler(t) }})
	case *birch.Document, birch.Reader, []*birch.Element:
		if r, ok := v.(birch.Reader); ok && !e.bad() {
			outs = append(outs, out{"DC.Reader", false, func() (*birch.Value, error) { return doc(birch.DC.Reader(r), nil) }})
		}
		if e.bad() {
			outs = append(outs, out{"DCE.Interface", true, func() (*birch.Value, error) { return doc(birch.DCE.Interface(t)) }})
		} else {
			outs = append(outs,
				out{"DC.Interface", false, func() (*birch.Value, error) { return doc(birch.DC.Interface(t), nil) }},
				out{"DCE.Interface", true, func() (*birch.Value, error) { return doc(birch.DCE.Interface(t)) }})
		}
	}
	if _, ok := v.(*birch.Element); ok {
		outs = append(outs, out{"DCE.Interface", true, func() (*birch.Value, error) { return doc(birch.DCE.Interface(v)) }})
	}
	isBad := e.bad()
	if isBad { // a document there is, with nothing that it was not given
		switch v.(type) {
		case *birch.Document, birch.Reader, *birch.Element, marsh, docMarsh:
			c.NoPanic("DC.Interface", func() {
				if d := birch.DC.Interface(v); d == nil || d.Len() != 0 {
					c.Failf("DC.Interface(%T %v) gives %v", v, v, d)
				}
			})
		}
	}
	for _, o := range outs {
		var val *birch.Value
		var err error
		c.NoPanic(o.name, func() { val, err = o.f() })
		if o.errAPI && isBad {
			if err == nil {
				c.Failf("%s(%T %v): holds an unrepresentable value but reports no error", o.name, v, v)
			}
			continue
		}
		if err != nil {
			c.Failf("%s(%T %v): %v", o.name, v, v, err)
		}
		// what is stored is what gets encoded
		b, err := birch.DC.Elements(birch.EC.Value("key", val)).MarshalBSON()
		if err != nil {
			c.Failf("%s(%T %v): the result does not encode: %v", o.name, v, v, err)
		}
		fs, err := bm.DecodeDoc(b)
		if err != nil || len(fs) != 1 {
			c.Failf("%s(%T %v): the result does not decode: %v", o.name, v, v, err)
		}
		if err := e.match(fs[0].V); err != nil {
			c.Failf("%s(%T %v): %v", o.name, v, v, err)
		}
	}
	c.Class(fmt.Sprintf("%T", v))
	if isBad {
		c.Class("unrepresentable inside")
	}
	if e.k == kInt || len(e.kids) > 0 || e.k == kBad || e.k == kExact && e.n.T != bm.Null {
		c.NonTrivial(fmt.Sprintf("%T %s", v, e))
	}
}

func main() {
	prop.Main(prop.Spec{
		ID:   "B06",
		Rule: "any value but nil and empty containers",
		Assumptions: []string{
			"times are stored with millisecond precision, rounded down, as BSON datetimes are",
			"either integer width that can hold the value is accepted",
		},
		Subs: []prop.Sub{
			{Name: "convert", Quick: 3000000, Thorough: 30000000, Shards: 6, Fn: convert},
		},
	})
}
