package main

import (
	"bytes"
	"fmt"
	"math/bits"
	"testing/iotest"

	"github.com/tychoish/birch"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/prop"
)

func classify(c *prop.C, fs []bm.Field) {
	seen := map[string]bool{}
	dup := false
	for _, f := range fs {
		if seen[f.K] {
			dup = true
		}
		seen[f.K] = true
		c.Class("type-" + bm.TypeName(f.V.T))
	}
	if dup {
		c.Class("duplicate-keys")
	}
	d := bm.NDoc(fs...).Depth()
	c.Class(fmt.Sprintf("depth-%d", d))
	if bm.Size(fs) >= 2 {
		c.NonTrivial(bm.EncodeFields(fs))
	}
}

func check(c *prop.C, what string, got []byte, err error, want []byte) {
	if err != nil {
		c.Failf("%s: unexpected error %v", what, err)
	}
	if !bytes.Equal(got, want) {
		c.Failf("%s: %s", what, bm.Diff(got, want))
	}
}

func constructEncode(c *prop.C) {
	fs := bm.GenDoc(c.T, bm.Opts{})
	c.Note("doc %s", bm.Show(fs))
	classify(c, fs)
	want := bm.EncodeFields(fs)
	d := bm.ToDoc(fs)
	got, err := d.MarshalBSON()
	check(c, "MarshalBSON of constructed document", got, err, want)
	got, err = d.MarshalBSON()
	check(c, "second MarshalBSON", got, err, want)
	var buf bytes.Buffer
	_, err = d.WriteTo(&buf)
	check(c, "WriteTo", buf.Bytes(), err, want)
	got, err = birch.MarshalDocumentBSON(d)
	check(c, "MarshalDocumentBSON", got, err, want)
	back, err := bm.FromDocErr(d)
	if err != nil || !bm.FieldsEqual(back, fs) {
		c.Failf("reading the constructed document: %v\n got %s\nwant %s", err, bm.Show(back), bm.Show(fs))
	}
	got, err = d.MarshalBSON()
	check(c, "MarshalBSON after reading", got, err, want)
}

func mixedEncode(c *prop.C) {
	fs := bm.GenDoc(c.T, bm.Opts{MaxDepth: 3})
	c.Note("doc %s", bm.Show(fs))
	classify(c, fs)
	want := bm.EncodeFields(fs)
	d := bm.RepDoc(c.T, fs)
	got, err := d.MarshalBSON()
	check(c, "MarshalBSON of document with mixed representations", got, err, want)
	for i, f := range fs {
		e := d.ElementAt(uint(i))
		if e.Key() != f.K || byte(e.Value().Type()) != f.V.T {
			c.Failf("element %d: key %q type %v, want %q %s", i, e.Key(), e.Value().Type(), f.K, f.V)
		}
		got, err := e.MarshalBSON()
		check(c, fmt.Sprintf("element %d MarshalBSON", i), got, err, bm.EncodeElem(f))
		var buf bytes.Buffer
		_, err = e.WriteTo(&buf)
		check(c, fmt.Sprintf("element %d WriteTo", i), buf.Bytes(), err, bm.EncodeElem(f))
		switch f.V.T {
		case bm.Array:
			got, err := e.Value().MutableArray().MarshalBSON()
			check(c, "array MarshalBSON", got, err, f.V.Encode())
			check(c, "ReaderArray", e.Value().ReaderArray(), nil, f.V.Encode())
		case bm.Doc:
			check(c, "ReaderDocument", e.Value().ReaderDocument(), nil, f.V.Encode())
		case bm.CodeScope:
			s, r := e.Value().ReaderJavaScriptWithScope()
			if s != f.V.S {
				c.Failf("code %q want %q", s, f.V.S)
			}
			check(c, "scope reader", r, nil, bm.EncodeFields(f.V.Kids))
		}
	}
	back, err := bm.FromDocErr(d)
	if err != nil || !bm.FieldsEqual(back, fs) {
		c.Failf("reading: %v\n got %s\nwant %s", err, bm.Show(back), bm.Show(fs))
	}
	got, err = d.MarshalBSON()
	check(c, "MarshalBSON after full expansion", got, err, want)
}

func decode(c *prop.C) {
	fs := bm.GenDoc(c.T, bm.Opts{})
	c.Note("doc %s", bm.Show(fs))
	classify(c, fs)
	raw := bm.EncodeFields(fs)
	want := append([]byte(nil), raw...)
	c.Note("bytes %x", raw)
	var d *birch.Document
	var err error
	switch rapid.IntRange(0, 6).Draw(c.T, "parser") {
	case 0:
		d, err = birch.ReadDocument(raw)
	case 1:
		d = birch.DC.New()
		err = d.UnmarshalBSON(raw)
	case 2:
		d = birch.DC.New()
		_, err = d.ReadFrom(bytes.NewReader(raw))
	case 3:
		d, err = birch.DCE.ReadFrom(bytes.NewReader(raw))
	case 4:
		d, err = birch.DCE.Reader(birch.Reader(raw))
	case 5:
		d, err = birch.DCE.Marshaler(birch.Reader(raw))
	case 6:
		var r birch.Reader
		r, err = birch.NewFromIOReader(bytes.NewReader(raw))
		if err == nil {
			d, err = birch.ReadDocument(r)
		}
	}
	if err != nil {
		c.Failf("valid BSON rejected: %v", err)
	}
	if d.Len() != len(fs) {
		c.Failf("length %d want %d", d.Len(), len(fs))
	}
	if rapid.Bool().Draw(c.T, "marshal-first") {
		got, err := d.MarshalBSON()
		check(c, "re-encoding untouched", got, err, want)
	}
	for e := range d.Iterator() {
		bm.Expand(c.T, e.Value())
	}
	got, err := d.MarshalBSON()
	check(c, "re-encoding after partial expansion", got, err, want)
	back, err := bm.FromDocErr(d)
	if err != nil || !bm.FieldsEqual(back, fs) {
		c.Failf("reading: %v\n got %s\nwant %s", err, bm.Show(back), bm.Show(fs))
	}
	got, err = d.MarshalBSON()
	check(c, "re-encoding after full expansion", got, err, want)
	if !bytes.Equal(raw, want) {
		c.Failf("the input bytes were modified")
	}
	// the raw reader sees the same elements
	i := 0
	for e, err := range birch.Reader(raw).Iterator() {
		if err != nil {
			c.Failf("reader iterator: %v", err)
		}
		if i >= len(fs) || e.Key() != fs[i].K {
			c.Failf("reader iterator element %d key %q", i, e.Key())
		}
		n, err := bm.FromValue(e.Value())
		if err != nil || !n.Equal(fs[i].V) {
			c.Failf("reader iterator element %d: %v %v want %v", i, err, n, fs[i].V)
		}
		i++
	}
	if i != len(fs) {
		c.Failf("reader iterated %d elements, want %d", i, len(fs))
	}
	dm := birch.DocumentMap{}
	if err := dm.UnmarshalBSON(raw); err != nil {
		c.Failf("map parse: %v", err)
	}
	last := map[string]*bm.Node{}
	first := map[string]*bm.Node{}
	for _, f := range fs {
		if _, ok := first[f.K]; !ok {
			first[f.K] = f.V
		}
		last[f.K] = f.V
	}
	if len(dm) != len(last) {
		c.Failf("map has %d keys want %d", len(dm), len(last))
	}
	for k, e := range dm {
		n, err := bm.FromValue(e.Value())
		if err != nil || e.Key() != k || (!n.Equal(last[k]) && !n.Equal(first[k])) {
			c.Failf("map entry %q: %v %v", k, err, n)
		}
	}
}

// wide covers documents whose field count, key or string lengths cross the
// library's internal buffer capacities, and deep ones.
func wide(c *prop.C) {
	top, desc := bm.GenBig(c.T)
	big(c, top, desc)
}

func huge(c *prop.C) {
	top, desc := bm.GenHuge(c.T)
	big(c, top, desc)
}

func big(c *prop.C, top []bm.Field, desc string) {
	c.Note("%s", desc)
	want := bm.EncodeFields(top)
	c.NonTrivial(want)
	c.Class(fmt.Sprintf("bytes 2^%d", bits.Len(uint(len(want)))))
	d := bm.ToDoc(top)
	got, err := d.MarshalBSON()
	check(c, "marshal", got, err, want)
	var buf bytes.Buffer
	n, err := d.WriteTo(&buf)
	check(c, "WriteTo", buf.Bytes(), err, want)
	if size, err := d.Validate(); err != nil || int(size) != len(want) || int(n) != len(want) {
		c.Failf("Validate %d %v, WriteTo %d, encoding has %d bytes", size, err, n, len(want))
	}
	d, err = birch.ReadDocument(want)
	if err != nil {
		c.Failf("rejected: %v", err)
	}
	for e := range d.Iterator() {
		if e.Value().Type() == 4 {
			b, err := e.Value().MutableArray().MarshalBSON()
			check(c, "nested array", b, err, d.Lookup(e.Key()).ReaderArray())
		}
	}
	back, err := bm.FromDocErr(d)
	if err != nil || !bm.FieldsEqual(back, top) {
		c.Failf("read back differs: %v", err)
	}
	got, err = d.MarshalBSON()
	check(c, "re-marshal", got, err, want)
	d, err = birch.DCE.ReadFrom(iotest.HalfReader(bytes.NewReader(want)))
	if err != nil {
		c.Failf("rejected by ReadFrom: %v", err)
	}
	got, err = d.MarshalBSON()
	check(c, "marshal after ReadFrom", got, err, want)
}

// unencodable covers content that BSON cannot represent: keys and the parts of
// regular expressions end at their first NUL byte, so one inside of them must
// be reported (an error, or a panic of the constructor), never dropped.
func unencodable(c *prop.C) {
	fs := bm.CloneFields(bm.GenDoc(c.T, bm.Opts{MaxDepth: 3}))
	var keys, texts []*string
	var walk func(fs []bm.Field, array bool)
	walk = func(fs []bm.Field, array bool) {
		for i := range fs {
			n := fs[i].V
			if !array {
				keys = append(keys, &fs[i].K)
			}
			if n.T == bm.Regex {
				texts = append(texts, &n.S, &n.S2)
			}
			walk(n.Kids, n.T == bm.Array)
		}
	}
	walk(fs, false)
	if len(keys) == 0 {
		fs = []bm.Field{bm.F("k", bm.NInt32(1))}
		keys = []*string{&fs[0].K}
	}
	target := rapid.SampledFrom(keys).Draw(c.T, "key")
	if len(texts) > 0 && rapid.Bool().Draw(c.T, "regex") {
		target = rapid.SampledFrom(texts).Draw(c.T, "text")
		c.Class("regex")
	} else {
		c.Class("key")
	}
	at := rapid.IntRange(0, len(*target)).Draw(c.T, "at")
	*target = (*target)[:at] + "\x00" + (*target)[at:]
	c.Note("%s", bm.Show(fs))
	must := func(what string, f func() ([]byte, error)) {
		var b []byte
		var err error
		if pv, _ := prop.Catch(func() { b, err = f() }); pv == nil && err == nil {
			c.Failf("%s accepted content that cannot be encoded: %x", what, b)
		}
	}
	build := func() *birch.Document { return bm.ToDoc(fs) }
	must("MarshalBSON", func() ([]byte, error) { return build().MarshalBSON() })
	must("MarshalDocumentBSON", func() ([]byte, error) { return birch.MarshalDocumentBSON(build()) })
	must("Validate", func() ([]byte, error) { _, err := build().Validate(); return nil, err })
	must("WriteTo", func() ([]byte, error) {
		var buf bytes.Buffer
		_, err := build().WriteTo(&buf)
		return buf.Bytes(), err
	})
	must("the elements' MarshalBSON", func() (out []byte, err error) {
		for e := range build().Iterator() {
			b, err := e.MarshalBSON()
			if err != nil {
				return b, err
			}
			out = append(out, b...)
		}
		return out, nil
	})
	must("a document holding it in an array", func() ([]byte, error) {
		return birch.DC.Elements(birch.EC.ArrayFromElements("a", birch.VC.DocumentFromElements(bm.ToDoc(fs).Elements()...))).MarshalBSON()
	})
	must("a document holding it as code scope", func() ([]byte, error) {
		return birch.DC.Elements(birch.EC.CodeWithScope("a", "x", build())).MarshalBSON()
	})
	must("a document map", func() ([]byte, error) {
		dm := birch.DocumentMap{}
		seen := map[string]bool{}
		for e := range build().Iterator() {
			// elements of one key replace each other: keep the first occurrence
			if !seen[e.Key()] || dm[e.Key()].Value().Type() == 0x0B {
				dm[e.Key()] = e
			}
			seen[e.Key()] = true
		}
		if len(seen) < len(fs) {
			return nil, fmt.Errorf("not applicable")
		}
		return dm.MarshalBSON()
	})
	c.NonTrivial(bm.Show(fs))
}

// mapKeys: a document map whose keys differ from those of its elements denotes
// no document.
func mapKeys(c *prop.C) {
	fs := bm.GenDoc(c.T, bm.Opts{MaxDepth: 1})
	dm := birch.DocumentMap{}
	for _, f := range fs {
		dm[f.K] = bm.ToElem(f.K, f.V)
	}
	if len(dm) == 0 {
		dm["a"] = birch.EC.Null("a")
	}
	wrong := false
	if rapid.Bool().Draw(c.T, "mismatch") {
		k, ek := bm.Key().Draw(c.T, "k"), bm.Key().Draw(c.T, "ek")
		dm[k] = birch.EC.Int32(ek, 1)
		wrong = k != ek
	}
	c.Note("%v (mismatch %v)", dm, wrong)
	err := dm.Validate()
	if wrong != (err != nil) {
		c.Failf("DocumentMap.Validate = %v", err)
	}
	c.NonTrivial(fmt.Sprint(dm))
}

func main() {
	prop.Main(prop.Spec{
		ID:          "B01",
		Rule:        "a document with at least two nodes (counting nested ones); distinct by its encoding",
		Assumptions: []string{"keys, regular-expression patterns and options with a NUL byte are not representable in BSON: an error or a panic of the constructor is required", "binary subtypes 0-5 and 0x80-0xff (the library's documented domain)"},
		Subs: []prop.Sub{
			{Name: "construct-encode", Quick: 60000, Thorough: 2000000, Shards: 2, Fn: constructEncode},
			{Name: "mixed-encode", Quick: 60000, Thorough: 2000000, Shards: 3, Fn: mixedEncode},
			{Name: "decode", Quick: 60000, Thorough: 2000000, Shards: 2, Fn: decode},
			{Name: "unencodable", Quick: 20000, Thorough: 400000, Fn: unencodable},
			{Name: "map-keys", Quick: 20000, Thorough: 400000, Fn: mapKeys},
			{Name: "wide", Quick: 1000, Thorough: 40000, Fn: wide},
			{Name: "huge", Quick: 60, Thorough: 2000, Fn: huge},
		},
	})
}
