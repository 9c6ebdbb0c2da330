// B09: copies are independent and inputs are never mutated.
package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/types"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/prop"
)

var opts = bm.Opts{MaxDepth: 3, MaxLen: 4}

// kept is a byte slice obtained from the library together with its content at
// that time.
type kept struct {
	what string
	b    []byte
	want []byte
}

func readonly(c *prop.C) {
	fs := bm.GenDoc(c.T, opts)
	c.Note("doc %s", bm.Show(fs))
	want := bm.EncodeFields(fs)
	// parsed documents keep the caller's buffer, which must never be written
	pad := rapid.SampledFrom([]int{0, 0, 7}).Draw(c.T, "pad")
	raw := append(append([]byte{}, want...), bytes.Repeat([]byte{0xAA}, pad)...)
	orig := append([]byte{}, raw...)
	var d *birch.Document
	var err error
	if rapid.Bool().Draw(c.T, "parse") {
		d, err = birch.ReadDocument(raw)
		if err != nil {
			c.Failf("valid document rejected: %v", err)
		}
	} else {
		d = bm.RepDoc(c.T, fs)
	}
	other, _ := birch.ReadDocument(append([]byte{}, want...))
	var keep []kept
	hold := func(what string, b []byte, err error) {
		if err != nil {
			c.Failf("%s: %v", what, err)
		}
		keep = append(keep, kept{what, b, append([]byte{}, b...)})
	}
	results := map[string]string{}
	same := func(what, got string) {
		if old, ok := results[what]; ok && old != got {
			c.Failf("%s gave %q first and %q later", what, old, got)
		}
		results[what] = got
	}
	walk := func(f func(path string, e *birch.Element)) {
		var rec func(p string, d *birch.Document)
		var val func(p string, e *birch.Element)
		val = func(p string, e *birch.Element) {
			f(p, e)
			v := e.Value()
			switch byte(v.Type()) {
			case bm.Doc:
				rec(p+"/", v.MutableDocument())
			case bm.Array:
				i := 0
				for x := range v.MutableArray().Iterator() {
					val(fmt.Sprintf("%s[%d]", p, i), birch.EC.Value("k", x))
					i++
				}
			case bm.CodeScope:
				_, sc := v.MutableJavaScriptWithScope()
				rec(p+"$", sc)
			}
		}
		rec = func(p string, d *birch.Document) {
			i := 0
			for e := range d.Iterator() {
				val(fmt.Sprintf("%s%d", p, i), e)
				i++
			}
		}
		rec("", d)
	}
	nops := rapid.IntRange(2, 8).Draw(c.T, "nops")
	for i := 0; i < nops; i++ {
		op := rapid.IntRange(0, 13).Draw(c.T, "op")
		c.Note("op %d", op)
		c.NoPanic(fmt.Sprintf("read-only operation %d", op), func() {
			switch op {
			case 0:
				b, err := d.MarshalBSON()
				hold("MarshalBSON", b, err)
			case 1:
				var buf bytes.Buffer
				_, err := d.WriteTo(&buf)
				hold("WriteTo", buf.Bytes(), err)
			case 2:
				same("String", d.String())
			case 3:
				same("ExportMap", fmt.Sprintf("%v", d.ExportMap()))
			case 4:
				m := d.Map()
				same("Map", fmt.Sprint(len(m)))
			case 5:
				s := d.Sorted()
				b, err := s.MarshalBSON()
				hold("Sorted", b, err)
				same("Sorted", string(b))
			case 6:
				for _, f := range fs {
					_, _ = d.Search(f.K, "0", "a")
					_ = d.Lookup(f.K)
				}
			case 7:
				j := 0
				for e := range d.Iterator() {
					o := other.ElementAt(uint(j))
					if !e.Equal(o) || !o.Equal(e) {
						c.Failf("element %d no longer equals its twin", j)
					}
					j++
				}
			case 8:
				walk(func(p string, e *birch.Element) {
					b, err := e.MarshalBSON()
					hold("element "+p, b, err)
					same("element "+p, string(b))
					same("string of "+p, e.String())
				})
			case 9:
				walk(func(p string, e *birch.Element) {
					v := e.Value()
					switch byte(v.Type()) {
					case bm.Doc:
						hold("ReaderDocument "+p, v.ReaderDocument(), nil)
					case bm.Array:
						hold("ReaderArray "+p, v.ReaderArray(), nil)
						b, err := v.MutableArray().MarshalBSON()
						hold("array "+p, b, err)
						same("array string "+p, v.MutableArray().String())
					case bm.CodeScope:
						_, r := v.ReaderJavaScriptWithScope()
						hold("scope "+p, r, nil)
					case bm.Binary:
						_, b := v.Binary()
						for i := range b { // the returned copy is the caller's
							b[i] ^= 0xFF
						}
					}
					same("export "+p, fmt.Sprintf("%v", v.Interface()))
					_ = v.IsEmpty()
				})
			case 10:
				n, err := d.Validate()
				same("Validate", fmt.Sprint(n, err))
			case 11:
				m := map[string]any{}
				_ = d.Unmarshal(m)
				for k, v := range d.ExportMap() { // exported containers are the caller's
					switch x := v.(type) {
					case []byte:
						for i := range x {
							x[i] ^= 0xFF
						}
					case map[string]any:
						for k := range x {
							delete(x, k)
						}
					case []any:
						for i := range x {
							x[i] = nil
						}
					}
					_ = k
				}
			case 12:
				cp := d.Copy()
				cp.Reset()
			case 13:
				_ = d.ExportMap()
				x := birch.DC.New()
				_ = x.UnmarshalDocument(d)
				x.Reset()
			}
		})
	}
	got, err := d.MarshalBSON()
	if err != nil || !bytes.Equal(got, want) {
		c.Failf("read-only operations changed the document (%v): %s", err, bm.Diff(got, want))
	}
	if !bytes.Equal(raw, orig) {
		c.Failf("read-only operations wrote into the caller's bytes: %s", bm.Diff(raw, orig))
	}
	for _, k := range keep {
		if !bytes.Equal(k.b, k.want) {
			c.Failf("the bytes returned by %s changed afterwards: %s", k.what, bm.Diff(k.b, k.want))
		}
	}
	if len(fs) > 0 {
		c.NonTrivial(fmt.Sprintf("%x %d", want, nops))
	}
}

// mutateDoc makes one structural change somewhere inside d and says what.
func mutateDoc(t *rapid.T, d *birch.Document) string {
	if d.Len() > 0 && rapid.IntRange(0, 2).Draw(t, "deeper") > 0 {
		e := d.ElementAt(uint(rapid.IntRange(0, d.Len()-1).Draw(t, "at")))
		if s := mutateValue(t, e.Value()); s != "" {
			return "in element " + e.Key() + ": " + s
		}
	}
	switch k := rapid.IntRange(0, 5).Draw(t, "how"); {
	case k == 0 && d.Len() > 0:
		d.Delete(d.ElementAt(0).Key())
		return "delete first"
	case k == 1 && d.Len() > 0:
		d.Set(birch.EC.String(d.ElementAt(uint(d.Len()-1)).Key(), "replaced"))
		return "replace"
	case k == 2 && d.Len() > 0:
		d.Reset()
		return "reset"
	case k == 3:
		_ = d.UnmarshalBSON(bm.EncodeFields([]bm.Field{bm.F("reloaded", bm.NInt32(1))}))
		return "reload"
	case k == 4 && d.Len() > 1:
		e := d.Elements()
		e[0], e[1] = e[1], e[0]
		return "swap"
	}
	d.Append(birch.EC.Int64("appended", math.MinInt64))
	return "append"
}

func mutateValue(t *rapid.T, v *birch.Value) string {
	switch byte(v.Type()) {
	case bm.Doc:
		return mutateDoc(t, v.MutableDocument())
	case bm.CodeScope:
		_, sc := v.MutableJavaScriptWithScope()
		return "scope: " + mutateDoc(t, sc)
	case bm.Array:
		a := v.MutableArray()
		if a.Len() > 0 {
			switch rapid.IntRange(0, 4).Draw(t, "arr") {
			case 0:
				a.Delete(0)
				return "array delete"
			case 1:
				a.Set(0, birch.VC.Null())
				return "array set"
			case 2:
				a.Reset()
				return "array reset"
			case 3:
				if x, err := a.Lookup(0); err == nil {
					if s := mutateValue(t, x); s != "" {
						return "array element: " + s
					}
				}
			}
		}
		a.Append(birch.VC.String("appended"))
		return "array append"
	}
	return ""
}

// docCopy: a copied document shares elements, not structure.
func docCopy(c *prop.C) {
	fs := bm.GenDoc(c.T, opts)
	c.Note("doc %s", bm.Show(fs))
	want := bm.EncodeFields(fs)
	a := bm.RepDoc(c.T, fs)
	if rapid.Bool().Draw(c.T, "map-first") {
		_ = a.Map()
	}
	b := a.Copy()
	if rapid.Bool().Draw(c.T, "swap-roles") {
		a, b = b, a
	}
	for k := rapid.IntRange(1, 5).Draw(c.T, "n"); k > 0; k-- {
		how := rapid.IntRange(0, 6).Draw(c.T, "how")
		c.Note("change %d", how)
		switch how {
		case 0:
			a.Append(birch.EC.Int32("appended", 1))
		case 1:
			if a.Len() > 0 {
				a.Delete(a.ElementAt(uint(rapid.IntRange(0, a.Len()-1).Draw(c.T, "i"))).Key())
			}
		case 2:
			if a.Len() > 0 {
				a.Set(birch.EC.String(a.ElementAt(uint(rapid.IntRange(0, a.Len()-1).Draw(c.T, "i"))).Key(), "replaced"))
			}
		case 3:
			a.Reset()
		case 4:
			a.Extend(b)
		case 5:
			if a.Len() > 1 {
				e := a.Elements()
				e[0], e[a.Len()-1] = e[a.Len()-1], e[0]
			}
		case 6:
			_ = a.UnmarshalBSON(want)
			a.Append(birch.EC.Null("n"))
		}
		got, err := b.MarshalBSON()
		if err != nil || !bytes.Equal(got, want) {
			c.Failf("changing one copy changed the other (%v): %s", err, bm.Diff(got, want))
		}
		m := b.Map()
		keys := map[string]bool{}
		for _, f := range fs {
			keys[f.K] = true
			if m[f.K] == nil {
				c.Failf("the other copy's map lost %q", f.K)
			}
		}
		if len(m) != len(keys) {
			c.Failf("the other copy's map has %d keys, want %d", len(m), len(keys))
		}
	}
	if len(fs) > 0 {
		c.NonTrivial(want)
	}
}

// valueCopy: copied values and elements are entirely independent.
func valueCopy(c *prop.C) {
	n := bm.GenNode(c.T, opts, 0)
	if rapid.IntRange(0, 3).Draw(c.T, "container") > 0 {
		n = bm.GenOfType(c.T, opts, rapid.SampledFrom([]byte{bm.Doc, bm.Array, bm.CodeScope}).Draw(c.T, "ct"), 0)
	}
	k := bm.Key().Draw(c.T, "key")
	c.Note("%q %s", k, n)
	want := bm.EncodeElem(bm.F(k, n))
	e := bm.Rep(c.T, k, n)
	var a, b *birch.Element
	if rapid.Bool().Draw(c.T, "element") {
		a, b = e, e.Copy()
	} else {
		v := e.Value().Copy()
		a, b = e, birch.DC.Elements(birch.EC.Null("x")).ElementAt(0)
		b = birch.EC.Value(k, v)
		if rapid.Bool().Draw(c.T, "value-side") {
			// change the copied value itself, not a re-keyed one
			if s := mutateValue(c.T, v); s != "" {
				c.Note("copy: %s", s)
			}
			got, err := a.MarshalBSON()
			if err != nil || !bytes.Equal(got, want) {
				c.Failf("changing a copied value changed the original (%v): %s", err, bm.Diff(got, want))
			}
			return
		}
	}
	got, err := b.MarshalBSON()
	if err != nil || !bytes.Equal(got, want) || !a.Equal(b) {
		c.Failf("the copy differs (%v): %s", err, bm.Diff(got, want))
	}
	if rapid.Bool().Draw(c.T, "swap-roles") {
		a, b = b, a
	}
	for i := rapid.IntRange(1, 4).Draw(c.T, "n"); i > 0; i-- {
		c.Note("change: %s", mutateValue(c.T, a.Value()))
		got, err := b.MarshalBSON()
		if err != nil || !bytes.Equal(got, want) {
			c.Failf("changing one copy changed the other (%v): %s", err, bm.Diff(got, want))
		}
	}
	if rapid.Bool().Draw(c.T, "setvalue") {
		a.SetValue(birch.VC.Int32(3))
		got, err := b.MarshalBSON()
		if err != nil || !bytes.Equal(got, want) {
			c.Failf("SetValue on one copy changed the other (%v): %s", err, bm.Diff(got, want))
		}
	}
	if len(n.Kids) > 0 {
		c.NonTrivial(want)
	}
}

// wrapped: a value that is put under another key is a value of its own; only
// what it contains may be shared.
func wrapped(c *prop.C) {
	t := c.T
	n := bm.GenOfType(t, opts, rapid.SampledFrom([]byte{bm.Doc, bm.Array, bm.CodeScope}).Draw(t, "type"), 0)
	k := bm.Key().Draw(t, "key")
	e := bm.Rep(t, "other", n)
	want := bm.EncodeElem(bm.F(k, n))
	var w *birch.Element
	how := rapid.IntRange(0, 3).Draw(t, "how")
	switch how {
	case 0:
		w = birch.EC.Value(k, e.Value())
	case 1:
		w = birch.EC.Null(k)
		w.SetValue(e.Value())
	case 2:
		w = birch.EC.String(k, "old")
		w.Value().Set(e.Value())
	default:
		w = birch.EC.SubDocument(k, birch.DC.Elements(birch.EC.Null("old")))
		w.SetValue(e.Value())
	}
	c.Note("%q %s, %d", k, n, how)
	b, err := w.MarshalBSON()
	if err != nil || !bytes.Equal(b, want) {
		c.Failf("the value under another key differs (%v): %s", err, bm.Diff(b, want))
	}
	a, o := e, w
	if k2 := "other"; rapid.Bool().Draw(t, "swap") {
		a, o, want = w, e, bm.EncodeElem(bm.F(k2, n))
	}
	for i := rapid.IntRange(1, 4).Draw(t, "n"); i > 0; i-- {
		v := a.Value()
		add := birch.EC.Int64("added", 7)
		op := rapid.IntRange(0, 4).Draw(t, "op")
		c.Note("change %d", op)
		if byte(v.Type()) == bm.Array {
			switch l := v.MutableArray(); {
			case op == 0 && l.Len() > 0:
				l.Delete(uint(rapid.IntRange(0, l.Len()-1).Draw(t, "at")))
			case op == 1 && l.Len() > 0:
				l.Set(uint(rapid.IntRange(0, l.Len()-1).Draw(t, "at")), add.Value())
			case op == 2:
				l.Reset()
			default:
				l.Append(add.Value())
			}
		} else {
			var d *birch.Document
			if byte(v.Type()) == bm.Doc {
				d = v.MutableDocument()
			} else {
				_, d = v.MutableJavaScriptWithScope()
			}
			at := ""
			if d.Len() > 0 {
				at = d.ElementAt(uint(rapid.IntRange(0, d.Len()-1).Draw(t, "at"))).Key()
			}
			switch {
			case op == 0:
				d.Delete(at)
			case op == 1:
				d.Set(birch.EC.Int64(at, 7))
			case op == 2:
				d.Reset()
			default:
				d.Append(add)
			}
		}
		got, err := o.MarshalBSON()
		if err != nil || !bytes.Equal(got, want) {
			c.Failf("changing the value under one key changed that under the other (%v): %s", err, bm.Diff(got, want))
		}
	}
	if len(n.Kids) > 0 {
		c.NonTrivial(want)
	}
}

// inputs: constructors copy what they are given, and give away what they return.
func inputs(c *prop.C) {
	k := bm.Key().Draw(c.T, "key")
	switch rapid.IntRange(0, 5).Draw(c.T, "kind") {
	case 0:
		b := rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(c.T, "b")
		sub := bm.BinSubtypes().Draw(c.T, "sub")
		n := &bm.Node{T: bm.Binary, Sub: sub, B: append([]byte{}, b...)}
		e := birch.EC.BinaryWithSubtype(k, b, sub)
		v := birch.VC.BinaryWithSubtype(b, sub)
		for i := range b {
			b[i] ^= 0xFF
		}
		for _, x := range []*birch.Element{e, birch.EC.Value(k, v)} {
			got, err := x.MarshalBSON()
			if w := bm.EncodeElem(bm.F(k, n)); err != nil || !bytes.Equal(got, w) {
				c.Failf("changing the bytes given to the binary constructor changed the element (%v): %s", err, bm.Diff(got, w))
			}
			_, out := x.Value().Binary()
			for i := range out {
				out[i] ^= 0x55
			}
			if got, _ = x.MarshalBSON(); !bytes.Equal(got, bm.EncodeElem(bm.F(k, n))) {
				c.Failf("changing the bytes returned by Binary changed the element")
			}
		}
		c.NonTrivial(n.Encode())
	case 1:
		fs := bm.GenDoc(c.T, opts)
		raw := bm.EncodeFields(fs)
		e := birch.EC.SubDocumentFromReader(k, raw)
		for i := range raw {
			raw[i] = 0xFF
		}
		got, err := e.MarshalBSON()
		if w := bm.EncodeElem(bm.F(k, bm.NDoc(fs...))); err != nil || !bytes.Equal(got, w) {
			c.Failf("changing the reader given to SubDocumentFromReader changed the element (%v): %s", err, bm.Diff(got, w))
		}
		c.NonTrivial(bm.EncodeFields(fs))
	case 2:
		n := bm.GenOfType(c.T, opts, bm.Array, 0)
		vs := []*birch.Value{}
		for _, f := range n.Kids {
			vs = append(vs, bm.RepValue(c.T, f.V))
		}
		a := birch.NewArray(vs...)
		e := birch.EC.ArrayFromElements(k, vs...)
		for i := range vs {
			vs[i] = nil
		}
		got, err := a.MarshalBSON()
		if err != nil || !bytes.Equal(got, n.Encode()) {
			c.Failf("changing the slice given to NewArray changed the array (%v): %s", err, bm.Diff(got, n.Encode()))
		}
		got, err = e.MarshalBSON()
		if err != nil || !bytes.Equal(got, bm.EncodeElem(bm.F(k, n))) {
			c.Failf("changing the slice given to ArrayFromElements changed the element (%v)", err)
		}
		if len(vs) > 0 {
			c.NonTrivial(n.Encode())
		}
	case 3:
		fs := bm.GenDoc(c.T, opts)
		es := []*birch.Element{}
		for _, f := range fs {
			es = append(es, bm.Rep(c.T, f.K, f.V))
		}
		d := birch.DC.Elements(es...)
		d2 := birch.DC.New().Append(es...)
		spare := append(es, nil)[:len(es)]
		d3 := birch.DC.Elements(spare...)
		d3.Append(birch.EC.Null("extra"))
		d.Append(birch.EC.Null("extra"))
		for i := range es {
			es[i] = nil
		}
		want := append(append([]bm.Field{}, fs...), bm.F("extra", bm.NNull()))
		for i, x := range []*birch.Document{d, d2, d3} {
			w := bm.EncodeFields(want)
			if i == 1 {
				w = bm.EncodeFields(fs)
			}
			got, err := x.MarshalBSON()
			if err != nil || !bytes.Equal(got, w) {
				c.Failf("changing the slice of elements changed document %d built from it (%v): %s", i, err, bm.Diff(got, w))
			}
		}
		if len(fs) > 0 {
			c.NonTrivial(bm.EncodeFields(fs))
		}
	case 4:
		m := map[string]any{"a": int64(1), "b": []any{"x", int64(2)}, "c": map[string]any{"d": "e"}}
		d := birch.DC.MapInterface(m)
		before, _ := d.MarshalBSON()
		m["a"] = "changed"
		m["b"].([]any)[0] = "changed"
		m["c"].(map[string]any)["d"] = "changed"
		delete(m, "b")
		after, _ := d.MarshalBSON()
		if !bytes.Equal(before, after) {
			c.Failf("changing a map changed the document built from it")
		}
		c.NonTrivial("map" + k)
	case 5:
		// a value used under several keys keeps its own key and content
		n := bm.GenNode(c.T, opts, 0)
		v := bm.RepValue(c.T, n)
		e1 := birch.EC.Value(k, v)
		e2 := birch.EC.Value(k+"2", v)
		d := birch.DC.Elements(e1, e2, birch.EC.Array("arr", birch.NewArray(v, v)))
		want := bm.EncodeFields([]bm.Field{bm.F(k, n), bm.F(k+"2", n), bm.F("arr", bm.NArray(n, n))})
		got, err := d.MarshalBSON()
		if err != nil || !bytes.Equal(got, want) {
			c.Failf("using one value several times (%v): %s", err, bm.Diff(got, want))
		}
		c.NonTrivial(want)
	}
	_ = types.ObjectID{}
}

// parsedChange: documents parsed from the same bytes share them, but a change
// to one, and encoding it afterwards, reaches neither the bytes nor the other.
func parsedChange(c *prop.C) {
	fs := bm.GenDoc(c.T, opts)
	if rapid.IntRange(0, 2).Draw(c.T, "scope") == 0 {
		fs = append(fs, bm.F("sc", bm.GenOfType(c.T, opts, bm.CodeScope, 0)))
	}
	c.Note("doc %s", bm.Show(fs))
	want := bm.EncodeFields(fs)
	raw := append([]byte{}, want...)
	parse := func() (d *birch.Document) {
		var err error
		switch rapid.IntRange(0, 2).Draw(c.T, "parser") {
		case 0:
			d, err = birch.ReadDocument(raw)
		case 1:
			d = birch.DC.Reader(birch.Reader(raw))
		case 2:
			d = birch.DC.New()
			err = d.UnmarshalBSON(raw)
		}
		if err != nil {
			c.Failf("valid document rejected: %v", err)
		}
		return d
	}
	d, twin := parse(), parse()
	for n := rapid.IntRange(1, 5).Draw(c.T, "changes"); n > 0; n-- {
		c.Note("%s", mutateDoc(c.T, d))
		model, err := bm.FromDocErr(d)
		if err != nil {
			c.Failf("reading the changed document: %v", err)
		}
		w := bm.EncodeFields(model)
		for e := range d.Iterator() {
			if rapid.Bool().Draw(c.T, "each") {
				if _, err := e.MarshalBSON(); err != nil {
					c.Failf("encoding a changed element: %v", err)
				}
			}
		}
		got, err := d.MarshalBSON()
		if err != nil || !bytes.Equal(got, w) {
			c.Failf("the changed document encodes differently from its content (%v): %s", err, bm.Diff(got, w))
		}
		var buf bytes.Buffer
		if _, err := d.WriteTo(&buf); err != nil || !bytes.Equal(buf.Bytes(), w) {
			c.Failf("the changed document writes differently from its content (%v): %s", err, bm.Diff(buf.Bytes(), w))
		}
		if !bytes.Equal(raw, want) {
			c.Failf("changing and encoding a document wrote into the bytes it was parsed from: %s", bm.Diff(raw, want))
		}
	}
	got, err := twin.MarshalBSON()
	if err != nil || !bytes.Equal(got, want) {
		c.Failf("changing a document changed another one parsed from the same bytes (%v): %s", err, bm.Diff(got, want))
	}
	back, err := bm.FromDocErr(twin)
	if err != nil || !bm.FieldsEqual(back, fs) {
		c.Failf("changing a document changed what another one parsed from the same bytes holds (%v)", err)
	}
	c.NonTrivial(fmt.Sprintf("%x %x", want, got))
}

func main() {
	prop.Main(prop.Spec{
		ID:   "B09",
		Rule: "readonly, document copies: a document with elements; value copies: a container with content; inputs: non-empty input",
		Assumptions: []string{
			"a document parsed from bytes may share them with the caller; what is checked is that the library never writes to them",
			"Document.Copy is documented as shallow: nested documents stay shared",
		},
		Subs: []prop.Sub{
			{Name: "readonly", Quick: 240000, Thorough: 2400000, Shards: 4, Fn: readonly},
			{Name: "document-copy", Quick: 180000, Thorough: 1800000, Shards: 1, Fn: docCopy},
			{Name: "value-copy", Quick: 360000, Thorough: 3600000, Shards: 2, Fn: valueCopy},
			{Name: "inputs", Quick: 240000, Thorough: 2400000, Shards: 1, Fn: inputs},
			{Name: "wrapped", Quick: 60000, Thorough: 1000000, Shards: 2, Fn: wrapped},
			{Name: "parsed-change", Quick: 100000, Thorough: 1000000, Shards: 1, Fn: parsedChange},
		},
	})
}
