// J02: the JSON parser accepts exactly JSON and preserves its content.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"strings"
	"testing/iotest"
	"unicode/utf8"

	"github.com/tychoish/birch/jsonx"
	"pgregory.net/rapid"
	"verif/harness/jm"
	"verif/harness/prop"
)

var keys = rapid.OneOf(rapid.SampledFrom([]string{"a", "b", "", "$oid"}), jm.GenStr())

// sameNum judges a parsed number against its literal: an integer exactly,
// anything else to the nearest double.
func sameNum(lit string, v any) string {
	want := jm.NumVal(lit)
	if want == nil {
		return "" // beyond 1e5000: judged by acceptance only
	}
	var got *big.Rat
	switch n := v.(type) {
	case int:
		got = new(big.Rat).SetInt64(int64(n))
	case int32:
		got = new(big.Rat).SetInt64(int64(n))
	case int64:
		got = new(big.Rat).SetInt64(n)
	case float64:
		if math.IsNaN(n) || math.IsInf(n, 0) {
			return fmt.Sprintf("number %s reads as %v", lit, n)
		}
		got = new(big.Rat).SetFloat64(n)
	default:
		return fmt.Sprintf("number %s reads as a %T", lit, v)
	}
	if got.Cmp(want) == 0 {
		return ""
	}
	if !strings.ContainsAny(lit, ".eE") && want.Num().IsInt64() {
		return fmt.Sprintf("integer %s reads as %s", lit, got.RatString())
	}
	near, _ := want.Float64()
	if new(big.Rat).SetFloat64(near).Cmp(got) != 0 {
		return fmt.Sprintf("number %s reads as %s", lit, got.FloatString(30))
	}
	return ""
}

// overflow reports literals with no finite double.
func overflow(j *jm.J) bool {
	if j.K == 'n' {
		v := jm.NumVal(j.S)
		if v == nil {
			return true // huge exponent: may be zero, may be out of range
		}
		f, _ := v.Float64()
		return math.IsInf(f, 0)
	}
	for _, k := range j.Kids {
		if overflow(k) {
			return true
		}
	}
	return false
}

func compare(v *jsonx.Value, j *jm.J) string {
	if v == nil {
		return "nil value for " + j.String()
	}
	is := func(ts ...jsonx.Type) bool {
		for _, t := range ts {
			if v.Type() == t {
				return true
			}
		}
		return false
	}
	bad := func() string { return fmt.Sprintf("%s reads as %s %v", j, v.Type(), v.Interface()) }
	switch j.K {
	case 'o':
		d, ok := v.DocumentOK()
		if !ok || !is(jsonx.ObjectValue) {
			return bad()
		}
		return compareDoc(d, j)
	case 'a':
		a, ok := v.ArrayOK()
		if !ok || !is(jsonx.ArrayValue) {
			return bad()
		}
		return compareArr(a, j)
	case 's':
		s, ok := v.StringValueOK()
		if !ok || !is(jsonx.String) || s != j.S {
			return bad()
		}
	case 'n':
		if !is(jsonx.Number, jsonx.NumberDouble, jsonx.NumberInteger) {
			return bad()
		}
		return sameNum(j.S, v.Interface())
	case 't', 'f':
		b, ok := v.BooleanOK()
		if !ok || !is(jsonx.Bool) || b != (j.K == 't') {
			return bad()
		}
	case '0':
		if !is(jsonx.Null) || v.Interface() != nil {
			return bad()
		}
	}
	return ""
}

func compareDoc(d *jsonx.Document, j *jm.J) string {
	if d.Len() != len(j.Keys) {
		return fmt.Sprintf("%s reads as %d fields", j, d.Len())
	}
	i := 0
	for e := range d.Iterator() {
		if e.Key() != j.Keys[i] || d.KeyAtIndex(i) != j.Keys[i] || d.ElementAtIndex(i) != e {
			return fmt.Sprintf("key %d is %q (%q), not %q", i, e.Key(), d.KeyAtIndex(i), j.Keys[i])
		}
		if m := compare(e.Value(), j.Kids[i]); m != "" {
			return fmt.Sprintf("%q: %s", e.Key(), m)
		}
		i++
	}
	if i != len(j.Keys) {
		return "iterator stops early"
	}
	return ""
}

func compareArr(a *jsonx.Array, j *jm.J) string {
	if a.Len() != len(j.Kids) {
		return fmt.Sprintf("%s reads as %d values", j, a.Len())
	}
	i := 0
	for v := range a.Iterator() {
		if m := compare(v, j.Kids[i]); m != "" {
			return fmt.Sprintf("[%d]: %s", i, m)
		}
		i++
	}
	if i != len(j.Kids) {
		return "iterator stops early"
	}
	return ""
}

const maxDepth = 10000

// check judges one text against the strict parser, through every entry point.
func check(c *prop.C, text []byte) {
	j, depth, perr := jm.Parse(text)
	valid := perr == nil
	if g := json.Valid(text); g != valid && depth <= maxDepth && perr == nil {
		c.Failf("harness: encoding/json.Valid=%v, own parser %v for %q", g, perr, clip(text))
	}
	c.Class(fmt.Sprintf("valid=%v", valid))
	may := valid && (depth > 1000 || overflow(j)) // an error is also right
	saved := bytes.Clone(text)
	how := rapid.IntRange(0, 5).Draw(c.T, "reader")
	in := func() io.Reader {
		var r io.Reader = bytes.NewReader(text)
		switch how {
		case 0:
			r = iotest.OneByteReader(r)
		case 1:
			r = iotest.DataErrReader(r)
		case 2:
			r = iotest.HalfReader(r)
		}
		return r
	}

	judge := func(what string, want bool, err error, cmp func() string) {
		switch {
		case err == nil && !want:
			c.Failf("%s accepts %q (%v)", what, clip(text), perr)
		case err != nil && want && !may:
			c.Failf("%s rejects %q: %v", what, clip(text), err)
		case err == nil:
			if m := cmp(); m != "" {
				c.Failf("%s(%q): %s", what, clip(text), m)
			}
		}
	}
	isObj, isArr := valid && j.K == 'o', valid && j.K == 'a'
	var err error
	var d *jsonx.Document
	c.NoPanic("DCE.Bytes", func() { d, err = jsonx.DCE.Bytes(text) })
	judge("DCE.Bytes", isObj, err, func() string { return compareDoc(d, j) })
	c.NoPanic("DCE.Reader", func() { d, err = jsonx.DCE.Reader(in()) })
	judge("DCE.Reader", isObj, err, func() string { return compareDoc(d, j) })

	var a *jsonx.Array
	c.NoPanic("ACE.Bytes", func() { a, err = jsonx.ACE.Bytes(text) })
	judge("ACE.Bytes", isArr, err, func() string { return compareArr(a, j) })
	c.NoPanic("ACE.Reader", func() { a, err = jsonx.ACE.Reader(in()) })
	judge("ACE.Reader", isArr, err, func() string { return compareArr(a, j) })

	var v *jsonx.Value
	c.NoPanic("VCE.Bytes", func() { v, err = jsonx.VCE.Bytes(text) })
	judge("VCE.Bytes", valid, err, func() string { return compare(v, j) })
	c.NoPanic("VCE.Reader", func() { v, err = jsonx.VCE.Reader(in()) })
	judge("VCE.Reader", valid, err, func() string { return compare(v, j) })
	// a reader that fails is an error, whatever it gave before
	fails := func() io.Reader { return io.MultiReader(in(), iotest.ErrReader(errors.New("the reader fails"))) }
	var e1, e2, e3 error
	c.NoPanic("reading from a failing reader", func() { _, e1 = jsonx.DCE.Reader(fails()) })
	c.NoPanic("reading from a failing reader", func() { _, e2 = jsonx.ACE.Reader(fails()) })
	c.NoPanic("reading from a failing reader", func() { _, e3 = jsonx.VCE.Reader(fails()) })
	if e1 == nil || e2 == nil || e3 == nil {
		c.Failf("%q from a failing reader: %v, %v, %v", clip(text), e1, e2, e3)
	}
	v, err = jsonx.VCE.Bytes(text)
	if err == nil {
		// what was read writes back as the same tree
		out, err := v.MarshalJSON()
		if err != nil {
			c.Failf("MarshalJSON of the value of %q: %v", clip(text), err)
		}
		j2, _, err := jm.Parse(out)
		if err != nil || !json.Valid(out) {
			c.Failf("%q is written as %q, which is no JSON", clip(text), clip(out))
		}
		if m := compare(v, j2); m != "" {
			c.Failf("%q is written as %q: %s", clip(text), clip(out), m)
		}
		if m := compare(v.Copy(), j2); m != "" {
			c.Failf("copy of %q: %s", clip(text), m)
		}
	}
	// the unchecked constructors panic where the checked ones report an error
	unchecked := func(name string, f func() (string, error), g func() string) {
		want, err := f()
		var got string
		p, _ := prop.Catch(func() { got = g() })
		if (p != nil) != (err != nil) {
			c.Failf("%s(%q): panic %v, the checked variant reports %v", name, clip(text), p, err)
		}
		if p == nil && got != want {
			c.Failf("%s(%q) holds %s, the checked variant %s", name, clip(text), got, want)
		}
	}
	if d, err := jsonx.DCE.Bytes(text); err == nil && isObj && !may {
		if m := compareDoc(d.Copy(), j); m != "" {
			c.Failf("copy of %q: %s", clip(text), m)
		}
	}
	show := func(x json.Marshaler) string {
		b, err := x.MarshalJSON()
		return fmt.Sprintf("%s %v", b, err)
	}
	chunked := func() io.Reader { return iotest.OneByteReader(bytes.NewReader(text)) }
	doc := func(d *jsonx.Document, err error) (string, error) {
		if err != nil {
			return "", err
		}
		return show(d), nil
	}
	arr := func(a *jsonx.Array, err error) (string, error) {
		if err != nil {
			return "", err
		}
		return show(a), nil
	}
	val := func(v *jsonx.Value, err error) (string, error) {
		if err != nil {
			return "", err
		}
		return show(v), nil
	}
	switch rapid.IntRange(0, 17).Draw(c.T, "unchecked") {
	case 0:
		unchecked("DC.Bytes", func() (string, error) { return doc(jsonx.DCE.Bytes(text)) }, func() string { return show(jsonx.DC.Bytes(text)) })
	case 1:
		unchecked("DC.Reader", func() (string, error) { return doc(jsonx.DCE.Reader(chunked())) }, func() string { return show(jsonx.DC.Reader(chunked())) })
	case 2:
		unchecked("AC.Bytes", func() (string, error) { return arr(jsonx.ACE.Bytes(text)) }, func() string { return show(jsonx.AC.Bytes(text)) })
	case 3:
		unchecked("AC.Reader", func() (string, error) { return arr(jsonx.ACE.Reader(chunked())) }, func() string { return show(jsonx.AC.Reader(chunked())) })
	case 4:
		unchecked("VC.Bytes", func() (string, error) { return val(jsonx.VCE.Bytes(text)) }, func() string { return show(jsonx.VC.Bytes(text)) })
	case 5:
		unchecked("VC.Reader", func() (string, error) { return val(jsonx.VCE.Reader(chunked())) }, func() string { return show(jsonx.VC.Reader(chunked())) })
	}
	if !bytes.Equal(saved, text) {
		c.Failf("the input was modified: %q -> %q", clip(saved), clip(text))
	}
}

func clip(b []byte) string {
	if len(b) > 400 {
		return string(b[:300]) + fmt.Sprintf("...(%d)...", len(b)) + string(b[len(b)-60:])
	}
	return string(b)
}

func texts(c *prop.C) {
	depth := rapid.IntRange(0, 5).Draw(c.T, "depth")
	var j *jm.J
	switch rapid.IntRange(0, 4).Draw(c.T, "top") {
	case 0:
		j = jm.Gen(c.T, depth, keys)
	case 1:
		j = jm.GenArr(c.T, depth, keys)
	default:
		j = jm.GenObj(c.T, depth, keys)
	}
	text := j.Text(c.T)
	c.Note("%s", text)
	if len(j.Kids) > 0 {
		c.NonTrivial(text)
	}
	check(c, text)
}

var tokens = []string{"{", "}", "[", "]", ",", ":", `"`, `"a"`, `"a":`, "1", "-", "0", ".", "e", "+", "true", "false", "null", "tru", "nul", " ", "\n", "\x00", "\v", "\\", `\u12`, `\ud83d`, `\ude00`, `"\ud83dx"`, `"\ud83d\u0041"`, `"\ude00"`, "-.5", "-e5", "01", "1.", ".5", "1e", "+1", "NaN", "Infinity", "\xff", "\ufeff", "//", "'a'", "\u00a0"}

func mutate(c *prop.C) {
	text := jm.Gen(c.T, 3, keys).Text(c.T)
	for n := rapid.IntRange(1, 3).Draw(c.T, "edits"); n > 0; n-- {
		p := rapid.IntRange(0, len(text)).Draw(c.T, "at")
		switch rapid.IntRange(0, 4).Draw(c.T, "edit") {
		case 0: // drop some bytes
			q := min(len(text), p+rapid.IntRange(1, 3).Draw(c.T, "n"))
			text = append(text[:p:p], text[q:]...)
		case 1: // truncate
			text = text[:p:p]
		case 2, 3: // insert a token
			tok := rapid.SampledFrom(tokens).Draw(c.T, "tok")
			text = append(text[:p:p], append([]byte(tok), text[p:]...)...)
		default: // replace one byte
			if p < len(text) {
				text = bytes.Clone(text)
				text[p] = rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte(`{}[],:"\0 -.e`))).Draw(c.T, "byte")
			}
		}
	}
	c.Note("%q", text)
	c.NonTrivial(text)
	check(c, text)
}

func soup(c *prop.C) {
	var text []byte
	if rapid.IntRange(0, 3).Draw(c.T, "raw") == 0 {
		text = rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(c.T, "bytes")
	} else {
		for n := rapid.IntRange(0, 9).Draw(c.T, "n"); n > 0; n-- {
			text = append(text, rapid.SampledFrom(tokens).Draw(c.T, "tok")...)
		}
		switch rapid.IntRange(0, 3).Draw(c.T, "wrap") {
		case 0:
			text = append(append([]byte("["), text...), ']')
		case 1:
			text = append(append([]byte(`{"k":`), text...), '}')
		}
	}
	c.Note("%q", text)
	c.NonTrivial(text)
	check(c, text)
}

// deep: long runs of brackets, closed or not
func deep(c *prop.C) {
	n := rapid.SampledFrom([]int{500, 900, 5000, 9999, 10001, 20000, 100000}).Draw(c.T, "n")
	if rapid.IntRange(0, 15).Draw(c.T, "huge") == 0 {
		n = 6000000
	}
	open := rapid.SampledFrom([]string{"[", `{"a":`, `[[`, `[{"a":`}).Draw(c.T, "open")
	shut := map[string]string{"[": "]", `{"a":`: "}", `[[`: "]]", `[{"a":`: "}]"}[open]
	closed := n <= 900 || rapid.Bool().Draw(c.T, "closed")
	text := []byte(strings.Repeat(open, n))
	if closed {
		text = append(text, '1')
		text = append(text, strings.Repeat(shut, n)...)
	}
	c.Note("%d times %s, closed=%v", n, open, closed)
	c.NonTrivial(fmt.Sprint(n, open, closed))
	c.Journal()
	if n > 100000 {
		var err error
		c.NoPanic("VCE.Bytes", func() { _, err = jsonx.VCE.Bytes(text) })
		if err == nil && !closed {
			c.Failf("unclosed text is accepted")
		}
		return
	}
	check(c, text)
}

// trees built with the constructors, in every number width
func trees(c *prop.C) {
	v, want := genTree(c.T, rapid.IntRange(0, 4).Draw(c.T, "depth"))
	out, err := marshal(c, v)
	c.Note("%s", out)
	finite := finite(want)
	if !finite {
		c.Class("non-finite number")
		if err == nil {
			c.Failf("a tree with a number JSON does not have is written as %q", clip(out))
		}
		return
	}
	if err != nil {
		c.Failf("MarshalJSON: %v", err)
	}
	c.NonTrivial(out)
	j, _, err := jm.Parse(out)
	if err != nil || !json.Valid(out) {
		c.Failf("output is no JSON: %q", clip(out))
	}
	if m := same(j, want); m != "" {
		c.Failf("%q: %s", clip(out), m)
	}
	if enc, err := json.Marshal(v); err != nil {
		c.Failf("json.Marshal: %v", err)
	} else if j3, _, err := jm.Parse(enc); err != nil || same(j3, want) != "" && utf8.Valid(out) {
		c.Failf("json.Marshal gives %q: %v", clip(enc), err)
	}
	back, err := jsonx.VCE.Bytes(out)
	if err != nil {
		c.Failf("own output %q is rejected: %v", clip(out), err)
	}
	if m := compare(back, j); m != "" {
		c.Failf("%q: %s", clip(out), m)
	}
}

func marshal(c *prop.C, v *jsonx.Value) (out []byte, err error) {
	c.NoPanic("MarshalJSON", func() { out, err = v.MarshalJSON() })
	return out, err
}

type tree struct {
	j    *jm.J
	f64  float64
	kind byte // 'd' double, 'f' float32, 0 taken from j
	kids []*tree
}

func finite(t *tree) bool {
	if t.kind != 0 && (math.IsNaN(t.f64) || math.IsInf(t.f64, 0)) {
		return false
	}
	for _, k := range t.kids {
		if !finite(k) {
			return false
		}
	}
	return true
}

func same(j *jm.J, t *tree) string {
	w := t.j
	if t.kind != 0 {
		if j.K != 'n' {
			return "number written as " + j.String()
		}
		v := jm.NumVal(j.S)
		ok := false
		if t.kind == 'd' {
			f, _ := v.Float64()
			ok = f == t.f64
			if ok && math.Abs(f) < 1<<63 && !strings.ContainsAny(j.S, ".eE") && v.Cmp(new(big.Rat).SetFloat64(f)) != 0 {
				return fmt.Sprintf("%f is written as the integer %s", f, j.S)
			}
		} else {
			f, _ := v.Float32()
			ok = f == float32(t.f64)
		}
		if !ok {
			return fmt.Sprintf("%v is written as %s", t.f64, j.S)
		}
		return ""
	}
	if j.K != w.K || len(j.Kids) != len(t.kids) || (j.K == 's' || j.K == 'n') && j.S != w.S {
		return fmt.Sprintf("%s is written as %s", w, j)
	}
	for i := range j.Kids {
		if j.K == 'o' && j.Keys[i] != w.Keys[i] {
			return fmt.Sprintf("key %q is written as %q", w.Keys[i], j.Keys[i])
		}
		if m := same(j.Kids[i], t.kids[i]); m != "" {
			return m
		}
	}
	return ""
}

// integral draws integers around the limits of exact conversions.
var integral = rapid.Custom(func(t *rapid.T) float64 {
	f := math.Ldexp(1, rapid.IntRange(50, 66).Draw(t, "power"))
	if rapid.Bool().Draw(t, "anywhere") {
		f += math.Trunc(f * rapid.Float64Range(0, 1).Draw(t, "part"))
	}
	bits := math.Float64bits(f) + uint64(rapid.IntRange(-3, 3).Draw(t, "ulps"))
	f = math.Trunc(math.Float64frombits(bits))
	if rapid.Bool().Draw(t, "negative") {
		f = -f
	}
	return f
})

func genTree(t *rapid.T, depth int) (*jsonx.Value, *tree) {
	hi := 12
	if depth <= 0 {
		hi = 8
	}
	VC, EC := jsonx.VC, jsonx.EC
	leaf := func(v *jsonx.Value, j *jm.J) (*jsonx.Value, *tree) { return v, &tree{j: j} }
	viaElem := rapid.Bool().Draw(t, "elem")
	switch rapid.IntRange(0, hi).Draw(t, "kind") {
	case 0:
		if viaElem {
			return leaf(EC.Nil("k").Value(), jm.Null())
		}
		return leaf(VC.Nil(), jm.Null())
	case 1:
		b := rapid.Bool().Draw(t, "b")
		if viaElem {
			return leaf(EC.Boolean("k", b).Value(), jm.Bool(b))
		}
		return leaf(VC.Boolean(b), jm.Bool(b))
	case 2:
		s := keys.Draw(t, "s")
		if viaElem {
			return leaf(EC.String("k", s).Value(), jm.Str(s))
		}
		return leaf(VC.String(s), jm.Str(s))
	case 3:
		n := rapid.Int().Draw(t, "int")
		if viaElem {
			return leaf(EC.Int("k", n).Value(), jm.Int(int64(n)))
		}
		return leaf(VC.Int(n), jm.Int(int64(n)))
	case 4:
		n := rapid.Int32().Draw(t, "i32")
		if viaElem {
			return leaf(EC.Int32("k", n).Value(), jm.Int(int64(n)))
		}
		return leaf(VC.Int32(n), jm.Int(int64(n)))
	case 5:
		n := rapid.Int64().Draw(t, "i64")
		if viaElem {
			return leaf(EC.Int64("k", n).Value(), jm.Int(n))
		}
		return leaf(VC.Int64(n), jm.Int(n))
	case 6, 7:
		f := rapid.OneOf(rapid.Float64(), rapid.Map(rapid.Uint64(), math.Float64frombits), rapid.SampledFrom([]float64{0, 1, 1.5, -0.1, 1e21, 1e-7, 1e300, 5e-324, math.MaxFloat64, 123456.789e3}), integral).Draw(t, "f64")
		tr := &tree{kind: 'd', f64: f}
		if viaElem {
			return EC.Float64("k", f).Value(), tr
		}
		return VC.Float64(f), tr
	case 8:
		f := rapid.OneOf(rapid.Float32(), rapid.Map(rapid.Uint32(), math.Float32frombits)).Draw(t, "f32")
		tr := &tree{kind: 'f', f64: float64(f)}
		if viaElem {
			return EC.Float32("k", f).Value(), tr
		}
		return VC.Float32(f), tr
	case 9, 10:
		a := jsonx.AC.New()
		tr := &tree{j: &jm.J{K: 'a'}}
		vals := []*jsonx.Value{}
		for n := rapid.IntRange(0, 3).Draw(t, "n"); n > 0; n-- {
			v, k := genTree(t, depth-1)
			a.Append(v)
			vals = append(vals, v)
			tr.kids = append(tr.kids, k)
		}
		switch rapid.IntRange(0, 3).Draw(t, "how") {
		case 0:
			return EC.Array("k", a).Value(), tr
		case 1:
			return VC.ArrayFromElements(vals...), tr
		case 2:
			return EC.ArrayFromElements("k", vals...).Value(), tr
		}
		return VC.Array(a), tr
	default:
		d := jsonx.DC.New()
		tr := &tree{j: &jm.J{K: 'o'}}
		es := []*jsonx.Element{}
		for n := rapid.IntRange(0, 3).Draw(t, "n"); n > 0; n-- {
			v, k := genTree(t, depth-1)
			key := keys.Draw(t, "key")
			e := EC.Value(key, v)
			d.Append(e)
			es = append(es, e)
			tr.j.Keys = append(tr.j.Keys, key)
			tr.kids = append(tr.kids, k)
		}
		switch rapid.IntRange(0, 3).Draw(t, "how") {
		case 0:
			return EC.Object("k", d).Value(), tr
		case 1:
			return VC.ObjectFromElements(es...), tr
		case 2:
			return EC.ObjectFromElements("k", es...).Value(), tr
		}
		return VC.Object(d), tr
	}
}

func main() {
	prop.Main(prop.Spec{
		ID:   "J02",
		Rule: "texts: the JSON value has children; mutate, soup, deep: every text; trees: every tree of representable numbers; counted distinct by text",
		Assumptions: []string{
			"texts nested deeper than 1000 levels, and numbers without a finite double, may be errors",
			"strings with bytes that are not UTF-8 are passed through as they are",
		},
		Subs: []prop.Sub{
			{Name: "texts", Quick: 180000, Thorough: 6000000, Shards: 3, Fn: texts},
			{Name: "mutate", Quick: 240000, Thorough: 8000000, Shards: 3, Fn: mutate},
			{Name: "soup", Quick: 300000, Thorough: 4000000, Shards: 2, Fn: soup},
			{Name: "deep", Quick: 40, Thorough: 400, Fn: deep},
			{Name: "trees", Quick: 60000, Thorough: 3000000, Shards: 2, Fn: trees},
		},
	})
}
