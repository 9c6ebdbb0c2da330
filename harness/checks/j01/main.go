// J01: JSON output is valid and reads back as the same document.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"unicode/utf8"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/jsonx"
	"github.com/tychoish/birch/types"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/jm"
	"verif/harness/prop"
)

var strs = rapid.OneOf(bm.Str(), jm.GenStr())

var keys = rapid.OneOf(bm.Key(), rapid.Map(jm.GenStr(), func(s string) string { return string(bytes.ReplaceAll([]byte(s), []byte{0}, []byte{'z'})) }))

func dec(s string, n *bm.Node) bool {
	d, err := types.ParseDecimal128(s)
	if err != nil {
		return false
	}
	h, l := d.GetBytes()
	wh, wl := bm.CanonDecimal(n.H, n.U)
	return h == wh && l == wl
}

func clip(b []byte) string {
	if len(b) > 600 {
		return string(b[:500]) + fmt.Sprintf("...(%d)", len(b))
	}
	return string(b)
}

type traits struct {
	finite, utf8 bool
	depth        int
}

func scan(fs []bm.Field, arr bool, tr *traits) {
	for _, f := range fs {
		if !arr && !utf8.ValidString(f.K) {
			tr.utf8 = false
		}
		n := f.V
		if n.T == bm.Double && (math.IsNaN(n.Float()) || math.IsInf(n.Float(), 0)) {
			tr.finite = false
		}
		if !utf8.ValidString(n.S) || !utf8.ValidString(n.S2) {
			tr.utf8 = false
		}
		scan(n.Kids, n.T == bm.Array, tr)
	}
}

func genFields(t *rapid.T) []bm.Field {
	return bm.GenFields(t, bm.Opts{MaxDepth: rapid.IntRange(0, 4).Draw(t, "depth"), MaxLen: 6, Keys: keys, Strings: strs, NoNaN: rapid.IntRange(0, 9).Draw(t, "nan") > 0}, 0)
}

// reader is one way of turning the text back into a document.
func readDoc(c *prop.C, text []byte) map[string]*birch.Document {
	out := map[string]*birch.Document{}
	d := birch.DC.New()
	if err := d.UnmarshalJSON(text); err != nil {
		c.Failf("UnmarshalJSON(%s): %v", clip(text), err)
	}
	out["UnmarshalJSON"] = d
	jd, err := jsonx.DCE.Bytes(text)
	if err != nil {
		c.Failf("jsonx.DCE.Bytes(%s): %v", clip(text), err)
	}
	d, err = birch.DCE.JSONX(jd)
	if err != nil {
		c.Failf("DCE.JSONX(%s): %v", clip(text), err)
	}
	out["JSONX"] = d
	out["DC.JSONX"] = birch.DC.JSONX(jd)
	d = birch.DC.New()
	if err := json.Unmarshal(text, d); err != nil {
		c.Failf("json.Unmarshal(%s): %v", clip(text), err)
	}
	out["json.Unmarshal"] = d
	return out
}

func doc(c *prop.C) {
	fs := genFields(c.T)
	for bm.HasReserved(fs) {
		fs = []bm.Field{bm.F("a", bm.NInt32(1))}
	}
	c.Note("%s", bm.Show(fs))
	tr := traits{finite: true, utf8: true}
	scan(fs, false, &tr)
	d := bm.RepDoc(c.T, fs)
	before := bm.FromDoc(d)

	var out []byte
	var err error
	c.NoPanic("MarshalJSON", func() { out, err = d.MarshalJSON() })
	if !tr.finite {
		c.Class("non-finite double")
		// JSON has no such number: an error, or some valid text
		if err == nil && !json.Valid(out) {
			c.Failf("MarshalJSON gives invalid JSON: %s", clip(out))
		}
		return
	}
	if err != nil {
		c.Failf("MarshalJSON: %v", err)
	}
	j := valid(c, out)
	if len(fs) > 0 {
		c.NonTrivial(out)
	}
	again, err := d.MarshalJSON()
	if err != nil || !bytes.Equal(again, out) {
		c.Failf("a second MarshalJSON differs: %s, then %s %v", clip(out), clip(again), err)
	}
	if !bm.FieldsEqual(bm.FromDoc(d), before) {
		c.Failf("MarshalJSON changed the document to %s", bm.Show(bm.FromDoc(d)))
	}
	if !tr.utf8 {
		c.Class("not UTF-8")
		return
	}
	if m := bm.JSONFieldsDiff(j, fs, dec); m != "" {
		c.Failf("%s\n%s", m, clip(out))
	}
	want := bm.Canon(bm.NDoc(fs...))
	for how, back := range readDoc(c, out) {
		got, err := bm.FromDocErr(back)
		if err != nil {
			c.Failf("%s: %v", how, err)
		}
		if !bm.EqualWeak(want, bm.Canon(bm.NDoc(got...))) {
			c.Failf("%s: written as %s\nreads back as %s", how, clip(out), bm.Show(got))
		}
		if out2, err := back.MarshalJSON(); err != nil || !bytes.Equal(out2, out) {
			// numbers that weaken may be written differently
			if j2, _, perr := jm.Parse(out2); perr != nil || bm.JSONFieldsDiff(j2, got, dec) != "" {
				c.Failf("%s: %s is written again as %s (%v)", how, clip(out), clip(out2), err)
			}
		}
	}
	// reading appends to a document that has fields already
	pre := bm.ToDoc([]bm.Field{bm.F("pre", bm.NInt32(7))})
	if err := pre.UnmarshalJSON(out); err != nil {
		c.Failf("UnmarshalJSON: %v", err)
	}
	if got := bm.FromDoc(pre); len(got) != len(fs)+1 || got[0].K != "pre" || !bm.EqualWeak(want, bm.Canon(bm.NDoc(got[1:]...))) {
		c.Failf("UnmarshalJSON(%s) into {pre: 7} gives %s", clip(out), bm.Show(got))
	}
	// and through encoding/json in a larger value
	enc, err := json.Marshal(map[string]any{"x": d})
	if err != nil {
		c.Failf("json.Marshal: %v", err)
	}
	var hold struct {
		X *birch.Document `json:"x"`
	}
	if err := json.Unmarshal(enc, &hold); err != nil {
		c.Failf("json.Unmarshal(%s): %v", clip(enc), err)
	}
	if got := bm.FromDoc(hold.X); !bm.EqualWeak(want, bm.Canon(bm.NDoc(got...))) {
		c.Failf("through encoding/json: %s reads back as %s", clip(enc), bm.Show(got))
	}
}

func valid(c *prop.C, out []byte) *jm.J {
	j, _, err := jm.Parse(out)
	if err != nil || !json.Valid(out) {
		c.Failf("output is not JSON: %s", clip(out))
	}
	return j
}

// value: arrays and single values
func value(c *prop.C) {
	n := bm.GenNode(c.T, bm.Opts{MaxDepth: 3, MaxLen: 5, Keys: keys, Strings: strs, NoNaN: true}, 0)
	if rapid.Bool().Draw(c.T, "array") {
		n = bm.GenOfType(c.T, bm.Opts{MaxDepth: 3, MaxLen: 5, Keys: keys, Strings: strs, NoNaN: true}, bm.Array, 0)
	}
	tr := traits{finite: true, utf8: true}
	scan([]bm.Field{bm.F("", n)}, false, &tr)
	if bm.HasReserved([]bm.Field{bm.F("", n)}) || !tr.utf8 {
		return
	}
	c.Note("%s", n)
	v := bm.RepValue(c.T, n)
	c.Class(bm.TypeName(n.T))
	var out []byte
	var err error
	c.NoPanic("MarshalJSON", func() { out, err = v.MarshalJSON() })
	if err != nil {
		c.Failf("MarshalJSON of %s: %v", n, err)
	}
	c.NonTrivial(out)
	j := valid(c, out)
	if m := bm.JSONDiff(j, n, dec); m != "" {
		c.Failf("%s\n%s", m, clip(out))
	}
	want := bm.Canon(n)
	for k := 0; k < 2; k++ {
		back := birch.VC.Int32(9)
		if k == 1 {
			back = birch.VC.String("something else")
		}
		if err := back.UnmarshalJSON(out); err != nil {
			c.Failf("Value.UnmarshalJSON(%s): %v", clip(out), err)
		}
		got, err := bm.FromValue(back)
		if err != nil || !bm.EqualWeak(want, bm.Canon(got)) {
			c.Failf("%s is written as %s and reads back as %s %v", n, clip(out), got, err)
		}
	}
	if n.T != bm.Array {
		return
	}
	a := v.MutableArray()
	out2, err := a.MarshalJSON()
	if err != nil || !bytes.Equal(out2, out) {
		c.Failf("Array.MarshalJSON gives %s %v, the value %s", clip(out2), err, clip(out))
	}
	back := birch.MakeArray(0)
	pre := rapid.Bool().Draw(c.T, "pre")
	if pre {
		back.Append(birch.VC.Boolean(true))
		want.Kids = append([]bm.Field{bm.F("0", bm.NBool(true))}, want.Kids...)
	}
	if err := back.UnmarshalJSON(out); err != nil {
		c.Failf("Array.UnmarshalJSON(%s): %v", clip(out), err)
	}
	got := &bm.Node{T: bm.Array, Kids: bm.FromArray(back)}
	if !bm.EqualWeak(want, bm.Canon(got)) {
		c.Failf("array %s is written as %s and reads back as %s", n, clip(out), got)
	}
}

func main() {
	prop.Main(prop.Spec{
		ID:   "J01",
		Rule: "documents with at least one field, and every value; counted distinct by their JSON text",
		Assumptions: []string{
			"a document whose first key is a reserved extended-JSON key is outside the property (J03 covers reading them)",
			"strings and keys that are not UTF-8 are only required to give text that parses",
			"non-finite doubles have no JSON form; an error is right",
		},
		Subs: []prop.Sub{
			{Name: "doc", Quick: 600000, Thorough: 8000000, Shards: 6, Fn: doc},
			{Name: "value", Quick: 600000, Thorough: 8000000, Shards: 2, Fn: value},
		},
	})
}
