// J03: extended JSON decodes by its mapping and malformed forms are errors.
package main

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/jsonx"
	"github.com/tychoish/birch/types"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/jm"
	"verif/harness/prop"
)

// val is a JSON value together with what it must decode to.
type val struct {
	j *jm.J
	n *bm.Node // expected value (nil with bad or open)
	// bad: a malformed wrapper; it must be an error, or a document that keeps
	// the fields of the text. open: any result but a panic.
	bad, open bool
}

var plainKeys = rapid.OneOf(rapid.SampledFrom([]string{"a", "b", "c", "", "$a", "$ref", "$id", "t", "pattern", "$scope", "$numberLong", "base64"}), bm.SimpleKey())

func plainNum(s string) *bm.Node {
	v := jm.NumVal(s)
	f, _ := v.Float64()
	if !strings.ContainsAny(s, ".eE") && v.Num().IsInt64() {
		return bm.NInt64(v.Num().Int64())
	}
	return bm.NDouble(f)
}

var rkeys = []string{"$oid", "$date", "$binary", "$regularExpression", "$symbol", "$timestamp", "$code", "$numberDecimal", "$dbPointer", "$minKey", "$maxKey", "$undefined"}

func genStr(t *rapid.T) string { return rapid.OneOf(jm.GenStr(), bm.SimpleKey()).Draw(t, "str") }
func genC(t *rapid.T) string   { return strings.ReplaceAll(genStr(t), "\x00", "0") }

// good draws a well-formed wrapper.
func good(t *rapid.T, depth int) val {
	k := rapid.SampledFrom(rkeys).Draw(t, "wrapper")
	w := func(p *jm.J, n *bm.Node) val { return val{j: jm.Obj(k, p), n: n} }
	pair := func(a string, av *jm.J, b string, bv *jm.J) *jm.J {
		if rapid.Bool().Draw(t, "swap") {
			return jm.Obj(b, bv, a, av)
		}
		return jm.Obj(a, av, b, bv)
	}
	oid := bm.Oid(t)
	hx := hex.EncodeToString(oid[:])
	if rapid.Bool().Draw(t, "upper") {
		hx = strings.ToUpper(hx)
	}
	switch k {
	case "$oid":
		return w(jm.Str(hx), &bm.Node{T: bm.ObjectID, OID: oid})
	case "$date":
		ms := rapid.OneOf(rapid.Int64Range(-62135596800000, 253402300799999), rapid.Int64Range(-2000, 2000), rapid.Int64Range(1500000000, 1700000000)).Draw(t, "ms")
		if rapid.IntRange(0, 3).Draw(t, "long") == 0 {
			ms = rapid.Int64().Draw(t, "ms")
			return w(jm.Obj("$numberLong", jm.Str(strconv.FormatInt(ms, 10))), bm.NDate(ms))
		}
		tm := time.UnixMilli(ms).In(time.FixedZone("", 60*rapid.IntRange(-14*60, 14*60).Draw(t, "zone")))
		if tm.Year() < 0 || tm.Year() > 9999 {
			tm = tm.UTC()
		}
		f := "2006-01-02T15:04:05.000Z07:00"
		if ms%1000 == 0 && rapid.Bool().Draw(t, "secs") {
			f = time.RFC3339
		}
		return w(jm.Str(tm.Format(f)), bm.NDate(ms))
	case "$binary":
		b := rapid.SliceOfN(rapid.Byte(), 0, 9).Draw(t, "bin")
		st := bm.BinSubtypes().Draw(t, "sub")
		h := fmt.Sprintf(rapid.SampledFrom([]string{"%02x", "%02X"}).Draw(t, "fmt"), st)
		return w(pair("base64", jm.Str(base64.StdEncoding.EncodeToString(b)), "subType", jm.Str(h)), &bm.Node{T: bm.Binary, B: b, Sub: st})
	case "$regularExpression":
		p, o := genC(t), rapid.StringMatching(`[imsx]{0,4}`).Draw(t, "opts")
		return w(pair("pattern", jm.Str(p), "options", jm.Str(o)), &bm.Node{T: bm.Regex, S: p, S2: o})
	case "$symbol":
		s := genStr(t)
		return w(jm.Str(s), &bm.Node{T: bm.Symbol, S: s})
	case "$timestamp":
		a := rapid.OneOf(rapid.Uint32(), rapid.SampledFrom([]uint32{0, 1, math.MaxInt32, 1 << 31, math.MaxUint32})).Draw(t, "t")
		b := rapid.OneOf(rapid.Uint32(), rapid.SampledFrom([]uint32{0, 1, math.MaxInt32, 1 << 31, math.MaxUint32})).Draw(t, "i")
		return w(pair("t", jm.Int(int64(a)), "i", jm.Int(int64(b))), bm.NTime(a, b))
	case "$code":
		s := genStr(t)
		if rapid.Bool().Draw(t, "scoped") {
			sc := genObj(t, min(depth-1, 1), false)
			v := val{j: jm.Obj("$code", jm.Str(s), "$scope", sc.j), bad: sc.bad, open: sc.open}
			if sc.n != nil {
				v.n = &bm.Node{T: bm.CodeScope, S: s, Kids: sc.n.Kids}
			}
			return v
		}
		return w(jm.Str(s), &bm.Node{T: bm.JS, S: s})
	case "$numberDecimal":
		s := rapid.OneOf(rapid.StringMatching(`-?[1-9][0-9]{0,20}(\.[0-9]{1,10})?(E[+-]?[0-9]{1,3})?`), rapid.SampledFrom([]string{"NaN", "Infinity", "-Infinity", "0", "-0", "0.00", "1E+6000", "1E-6176"})).Draw(t, "dec")
		d, err := types.ParseDecimal128(s) // T01 decides this parser
		if err != nil {
			t.Fatalf("decimal %q: %v", s, err)
		}
		h, l := d.GetBytes()
		return w(jm.Str(s), &bm.Node{T: bm.Decimal, H: h, U: l})
	case "$dbPointer":
		ns := genStr(t)
		return w(pair("$ref", jm.Str(ns), "$id", jm.Str(hx)), &bm.Node{T: bm.DBPointer, S: ns, OID: oid})
	case "$minKey":
		return w(jm.Int(1), &bm.Node{T: bm.MinKey})
	case "$maxKey":
		return w(jm.Int(1), &bm.Node{T: bm.MaxKey})
	default:
		return w(jm.Bool(true), &bm.Node{T: bm.Undefined})
	}
}

// bad draws a wrapper whose payload cannot denote a value.
func malformed(t *rapid.T) val {
	k := rapid.SampledFrom(rkeys[:9]).Draw(t, "wrapper")
	nonStr := func() *jm.J {
		return rapid.SampledFrom([]*jm.J{jm.Null(), jm.Bool(true), jm.Bool(false), jm.Int(0), jm.Int(7), jm.Num("1.5"), jm.Arr(), jm.Arr(jm.Str("a")), jm.Obj(), jm.Obj("x", jm.Int(1)), jm.Obj("$oid", jm.Str("000000000000000000000000")), jm.Obj("$symbol", jm.Int(1)), jm.Obj("$code", jm.Str("x"))}).Draw(t, "notstring")
	}
	// regular expressions cannot hold NUL bytes
	textOr := func(f func() *jm.J) func() *jm.J {
		return func() *jm.J {
			if rapid.Bool().Draw(t, "nul") {
				return jm.Str(rapid.SampledFrom([]string{"\x00", "a\x00", "\x00b", "a\x00b"}).Draw(t, "text"))
			}
			return f()
		}
	}
	hx := "0123456789abcdef01234567"
	badHex := func() *jm.J {
		if rapid.Bool().Draw(t, "type") {
			return nonStr()
		}
		return jm.Str(rapid.SampledFrom([]string{"", "0", hx[1:], hx + "0", hx + "00", "g" + hx[1:], " " + hx[1:], strings.Repeat("é", 12), hx[:22] + "\x00\x00"}).Draw(t, "badhex"))
	}
	// pairs: one half wrong, missing, renamed, or the whole not an object
	pairs := func(a string, av *jm.J, b string, bv *jm.J, badA, badB func() *jm.J) *jm.J {
		switch rapid.IntRange(0, 6).Draw(t, "flaw") {
		case 0:
			return jm.Obj(a, badA(), b, bv)
		case 1:
			return jm.Obj(a, av, b, badB())
		case 2:
			return jm.Obj(a, av)
		case 3:
			return jm.Obj(b, bv)
		case 4:
			return jm.Obj()
		case 5:
			return jm.Obj("x", av, b, bv)
		default:
			if k == "$binary" {
				// a string payload is an older form; only the others are wrong
				return rapid.SampledFrom([]*jm.J{jm.Null(), jm.Int(0), jm.Num("1.5"), jm.Arr(), jm.Arr(av, bv), jm.Bool(true)}).Draw(t, "notobj")
			}
			return rapid.SampledFrom([]*jm.J{jm.Null(), jm.Int(0), jm.Num("1.5"), jm.Arr(), jm.Arr(av, bv), jm.Bool(true), jm.Str("x"), jm.Str("")}).Draw(t, "notobj")
		}
	}
	var p *jm.J
	switch k {
	case "$oid":
		p = badHex()
	case "$date":
		p = rapid.SampledFrom([]*jm.J{jm.Null(), jm.Bool(true), jm.Num("1.5"), jm.Arr(), jm.Obj(), jm.Obj("x", jm.Int(1)), jm.Obj("$numberLong", jm.Str("x")), jm.Obj("$numberLong", jm.Str("9223372036854775808")), jm.Obj("$numberLong", jm.Str("")), jm.Obj("$numberLong", jm.Str("0x10")), jm.Obj("$numberLong", jm.Str("1_0")), jm.Obj("$numberLong", jm.Str(" 1")), jm.Obj("$numberLong", jm.Str("1.0")), jm.Obj("$numberLong", jm.Str("1e3")), jm.Obj("$numberLong", jm.Null()), jm.Obj("$numberLong", jm.Str("1"), "x", jm.Int(1)),
			jm.Str(""), jm.Str("now"), jm.Str("2020-13-01T00:00:00Z"), jm.Str("2020-02-30T00:00:00Z"), jm.Str("2020-01-01"), jm.Str("2020-01-01T25:00:00Z"), jm.Str("10000-01-01T00:00:00Z"), jm.Str("2020-01-01T00:00:00"), jm.Str("x2020-01-01T00:00:00Z"), jm.Str("2020-01-01T00:00:00Zx")}).Draw(t, "baddate")
	case "$binary":
		p = pairs("base64", jm.Str("AAEC"), "subType", jm.Str("00"), func() *jm.J {
			return rapid.SampledFrom([]*jm.J{jm.Int(1), jm.Null(), jm.Str("!"), jm.Str("A"), jm.Str("AAE"), jm.Str("AAEC="), jm.Arr()}).Draw(t, "badb64")
		}, func() *jm.J {
			return rapid.SampledFrom([]*jm.J{jm.Null(), jm.Str("xx"), jm.Str(""), jm.Str("100"), jm.Str("-1"), jm.Arr(), jm.Bool(false)}).Draw(t, "badsub")
		})
	case "$regularExpression":
		p = pairs("pattern", jm.Str("a"), "options", jm.Str("i"), textOr(nonStr), textOr(nonStr))
	case "$symbol", "$code":
		p = nonStr()
		if k == "$code" && rapid.Bool().Draw(t, "second") {
			switch rapid.IntRange(0, 3).Draw(t, "codeflaw") {
			case 0:
				sc := rapid.SampledFrom([]*jm.J{jm.Null(), jm.Int(1), jm.Str("x"), jm.Arr(), jm.Arr(jm.Int(1)), jm.Bool(true), jm.Obj("$oid", jm.Str(hx))}).Draw(t, "scope")
				return val{j: jm.Obj("$code", jm.Str("c"), "$scope", sc), bad: true}
			case 1:
				return val{j: jm.Obj("$code", jm.Str("c"), rapid.SampledFrom([]string{"scope", "", "x", "$code"}).Draw(t, "k2"), jm.Obj()), bad: true}
			case 2:
				return val{j: jm.Obj("$code", p, "$scope", jm.Obj()), bad: true}
			default:
				return val{j: jm.Obj("$code", jm.Str("c"), "$scope", jm.Obj(), "x", jm.Int(1)), bad: true}
			}
		}
	case "$timestamp":
		badInt := func() *jm.J {
			return rapid.SampledFrom([]*jm.J{jm.Null(), jm.Str("1"), jm.Num("1.5"), jm.Int(-1), jm.Int(1 << 32), jm.Int(math.MinInt64), jm.Int(math.MaxInt64), jm.Num("1e30"), jm.Arr(), jm.Bool(true), jm.Obj()}).Draw(t, "badint")
		}
		p = pairs("t", jm.Int(1), "i", jm.Int(2), badInt, badInt)
	case "$numberDecimal":
		if rapid.Bool().Draw(t, "type") {
			p = nonStr()
		} else {
			p = jm.Str(rapid.SampledFrom([]string{"", "x", "1x", "1e", "--1", "1.2.3", "1E9999", "12345678901234567890123456789012345", "0x1", " 1", "1 ", "Infinit", "1e+"}).Draw(t, "baddec"))
		}
	case "$dbPointer":
		p = pairs("$ref", jm.Str("ns"), "$id", jm.Str(hx), nonStr, badHex)
	}
	return val{j: jm.Obj(k, p), bad: true}
}

// extra: a wrapper followed by another field; no data may be lost silently.
func extra(t *rapid.T) val {
	g := good(t, 1)
	if g.j.Keys[0] == "$code" {
		return val{j: jm.Obj("$code", jm.Str("c"), "other", jm.Int(1)), bad: true}
	}
	j := jm.Obj(g.j.Keys[0], g.j.Kids[0], plainKeys.Draw(t, "xk"), jm.Int(5))
	return val{j: j, bad: true}
}

func gen(t *rapid.T, depth int, flaws bool) val {
	hi := 11
	if depth <= 0 {
		hi = 7
	}
	switch k := rapid.IntRange(0, hi).Draw(t, "what"); {
	case k == 0:
		s := genStr(t)
		return val{j: jm.Str(s), n: bm.NString(s)}
	case k == 1:
		s := rapid.StringMatching(`-?(0|[1-9][0-9]{0,17})|-?[1-9][0-9]{0,4}\.[0-9]{1,6}`).Draw(t, "num")
		return val{j: jm.Num(s), n: plainNum(s)}
	case k == 2:
		b := rapid.Bool().Draw(t, "b")
		if rapid.IntRange(0, 2).Draw(t, "null") == 0 {
			return val{j: jm.Null(), n: bm.NNull()}
		}
		return val{j: jm.Bool(b), n: bm.NBool(b)}
	case k <= 6:
		if flaws {
			switch rapid.IntRange(0, 5).Draw(t, "flawed") {
			case 0, 1:
				return malformed(t)
			case 2:
				return extra(t)
			case 3:
				// any payload at all
				return val{j: jm.Obj(rapid.SampledFrom(rkeys).Draw(t, "wrapper"), jm.Gen(t, 2, rapid.OneOf(rapid.SampledFrom(rkeys), plainKeys))), open: true}
			}
		}
		return good(t, depth)
	case k <= 8:
		var out val
		out.j, out.n = jm.Arr(), bm.NArray()
		for n := rapid.IntRange(0, 3).Draw(t, "n"); n > 0; n-- {
			out.add(len(out.j.Kids), "", gen(t, depth-1, flaws))
		}
		return out
	default:
		return genObj(t, depth, flaws)
	}
}

func (v *val) add(i int, k string, x val) {
	if v.j.K == 'o' {
		v.j.Keys = append(v.j.Keys, k)
	} else {
		k = strconv.Itoa(i)
	}
	v.j.Kids = append(v.j.Kids, x.j)
	v.bad, v.open = v.bad || x.bad, v.open || x.open
	if x.n == nil || v.n == nil {
		v.n = nil
	} else {
		v.n.Kids = append(v.n.Kids, bm.F(k, x.n))
	}
}

func genObj(t *rapid.T, depth int, flaws bool) val {
	var out val
	out.j, out.n = jm.Obj(), bm.NDoc()
	for n := rapid.IntRange(0, 4).Draw(t, "n"); n > 0; n-- {
		k := plainKeys.Draw(t, "k")
		if len(out.j.Keys) > 0 && rapid.IntRange(0, 9).Draw(t, "late") == 0 {
			k = rapid.SampledFrom(rkeys).Draw(t, "rk") // reserved keys are ordinary after the first field
		}
		out.add(0, k, gen(t, depth-1, flaws))
	}
	return out
}

func clip(b []byte) string {
	if len(b) > 600 {
		return string(b[:500]) + fmt.Sprintf("...(%d)", len(b))
	}
	return string(b)
}

// read decodes the text through one entry point; top fields of the result.
func read(c *prop.C, how int, text []byte) (fs []bm.Field, err error) {
	what := []string{"UnmarshalJSON", "JSONX", "json.Unmarshal"}[how]
	c.NoPanic(what+"("+clip(text)+")", func() {
		d := birch.DC.New()
		switch how {
		case 0:
			err = d.UnmarshalJSON(text)
		case 1:
			var jd *jsonx.Document
			if jd, err = jsonx.DCE.Bytes(text); err == nil {
				d, err = birch.DCE.JSONX(jd)
			}
		case 2:
			err = json.Unmarshal(text, d)
		}
		if err == nil {
			fs = bm.FromDoc(d)
		} else if d != nil && d.Len() != 0 && how != 1 {
			c.Failf("%s(%s) fails with %v but leaves %d fields", what, clip(text), err, d.Len())
		}
	})
	return fs, err
}

func wellformed(c *prop.C) {
	v := genObj(c.T, rapid.IntRange(1, 4).Draw(c.T, "depth"), false)
	text := v.j.Text(c.T)
	c.Note("%s", text)
	if strings.Contains(string(text), "$") {
		c.NonTrivial(text)
	}
	count(c, v.j)
	for how := 0; how < 3; how++ {
		fs, err := read(c, how, text)
		if err != nil {
			c.Failf("%s is rejected: %v", clip(text), err)
		}
		if !bm.EqualWeak(bm.Canon(v.n), bm.Canon(bm.NDoc(fs...))) {
			c.Failf("%s\nreads as %s\nnot %s", clip(text), bm.Show(fs), bm.Show(v.n.Kids))
		}
	}
	// the same value alone and in an array
	single(c, v)
	if len(v.j.Kids) > 0 {
		single(c, val{j: v.j.Kids[0], n: v.n.Kids[0].V})
	}
}

func single(c *prop.C, v val) {
	text := v.j.Text(c.T)
	bv := birch.VC.Null()
	var err error
	c.NoPanic("Value.UnmarshalJSON("+clip(text)+")", func() { err = bv.UnmarshalJSON(text) })
	if err != nil {
		c.Failf("value %s is rejected: %v", clip(text), err)
	}
	got, err := bm.FromValue(bv)
	if err != nil || !bm.EqualWeak(bm.Canon(v.n), bm.Canon(got)) {
		c.Failf("value %s\nreads as %s %v\nnot %s", clip(text), got, err, v.n)
	}
	arr := jm.Arr(v.j, jm.Int(3), v.j).Text(c.T)
	ba := birch.MakeArray(0)
	c.NoPanic("Array.UnmarshalJSON("+clip(arr)+")", func() { err = ba.UnmarshalJSON(arr) })
	if err != nil {
		c.Failf("array %s is rejected: %v", clip(arr), err)
	}
	want := bm.Canon(bm.NArray(v.n, bm.NInt32(3), v.n))
	if g := (&bm.Node{T: bm.Array, Kids: bm.FromArray(ba)}); !bm.EqualWeak(want, bm.Canon(g)) {
		c.Failf("array %s\nreads as %s\nnot %s", clip(arr), g, want)
	}
}

func count(c *prop.C, j *jm.J) {
	if j.K == 'o' && len(j.Keys) > 0 && bm.Reserved[j.Keys[0]] {
		c.Class(j.Keys[0])
	}
	for _, k := range j.Kids {
		count(c, k)
	}
}

// keepsFields: the result still has every field of the text. A malformed
// wrapper may only become the ordinary document it is spelled as.
func keepsFields(j *jm.J, n *bm.Node) string {
	if j.K == 'o' && n.T == bm.Doc {
		if len(j.Keys) != len(n.Kids) {
			return fmt.Sprintf("%s becomes %s", j, n)
		}
		for i, k := range j.Keys {
			if n.Kids[i].K != k {
				return fmt.Sprintf("%s becomes %s", j, n)
			}
			if m := keepsFields(j.Kids[i], n.Kids[i].V); m != "" {
				return m
			}
		}
	}
	return ""
}

func flawed(c *prop.C) {
	var v val
	switch rapid.IntRange(0, 2).Draw(c.T, "shape") {
	case 0: // one flaw alone
		v.j, v.n = jm.Obj(), bm.NDoc()
		defer func() { agree(c, v.j.Kids[0].Text(c.T)) }()
		if rapid.Bool().Draw(c.T, "extra") {
			v.add(0, "k", extra(c.T))
		} else {
			v.add(0, "k", malformed(c.T))
		}
		text := v.j.Text(c.T)
		c.Note("%s", text)
		c.NonTrivial(text)
		count(c, v.j)
		w := v.j.Kids[0]
		for how := 0; how < 3; how++ {
			fs, err := read(c, how, text)
			if err != nil {
				c.Class("error")
				continue
			}
			c.Class("document")
			// an ordinary document with the same keys, nothing dropped
			if len(fs) != 1 || fs[0].K != "k" || fs[0].V.T != bm.Doc {
				c.Failf("malformed %s reads as %s", clip(text), bm.Show(fs))
			}
			if m := keepsFields(w, fs[0].V); m != "" {
				c.Failf("malformed %s: %s", clip(text), m)
			}
		}
		return
	default:
		v = genObj(c.T, rapid.IntRange(1, 4).Draw(c.T, "depth"), true)
	}
	text := v.j.Text(c.T)
	c.Note("%s", text)
	count(c, v.j)
	if v.bad || v.open {
		c.NonTrivial(text)
	}
	var errs [3]error
	for how := 0; how < 3; how++ {
		fs, err := read(c, how, text)
		errs[how] = err
		if err != nil && !v.bad && !v.open {
			c.Failf("%s is rejected: %v", clip(text), err)
		}
		if err == nil && v.n != nil && !bm.EqualWeak(bm.Canon(v.n), bm.Canon(bm.NDoc(fs...))) {
			c.Failf("%s\nreads as %s\nnot %s", clip(text), bm.Show(fs), bm.Show(v.n.Kids))
		}
		if err == nil && len(fs) != len(v.j.Keys) && !bm.Reserved[append(v.j.Keys, "")[0]] {
			c.Failf("%s has %d fields, read as %s", clip(text), len(v.j.Keys), bm.Show(fs))
		}
	}
	if (errs[0] == nil) != (errs[1] == nil) || (errs[0] == nil) != (errs[2] == nil) {
		c.Failf("entry points disagree on %s: %v", clip(text), errs)
	}
	if len(v.j.Kids) > 0 {
		agree(c, v.j.Kids[rapid.IntRange(0, len(v.j.Kids)-1).Draw(c.T, "alone")].Text(c.T))
	}
}

// agree: a value reads the same, or is an error, alone, in an array and in a
// document; what it was to replace stays when it is an error.
func agree(c *prop.C, text []byte) {
	fs, err := read(c, 0, []byte(`{"k":`+string(text)+`}`))
	if err == nil && len(fs) != 1 {
		c.Failf("{k: %s} reads as %s", clip(text), bm.Show(fs))
	}
	v, a := birch.VC.String("as it was"), birch.MakeArray(0)
	a.Append(birch.VC.String("as it was"))
	var verr, aerr error
	c.NoPanic("UnmarshalJSON("+clip(text)+")", func() {
		verr = v.UnmarshalJSON(text)
		aerr = a.UnmarshalJSON([]byte("[7," + string(text) + "]"))
	})
	if (err == nil) != (verr == nil) || (err == nil) != (aerr == nil) {
		c.Failf("%s reads in a document with %v, alone with %v, in an array with %v", clip(text), err, verr, aerr)
	}
	was := bm.NString("as it was")
	wv, wa := was, bm.NArray(was)
	if err == nil {
		wv, wa = fs[0].V, bm.NArray(was, bm.NInt32(7), fs[0].V)
	}
	gv, e := bm.FromValue(v)
	if e != nil || !bm.EqualWeak(bm.Canon(wv), bm.Canon(gv)) {
		c.Failf("%s alone (%v) leaves %s %v, not %s", clip(text), verr, gv, e, wv)
	}
	if ga := (&bm.Node{T: bm.Array, Kids: bm.FromArray(a)}); !bm.EqualWeak(bm.Canon(wa), bm.Canon(ga)) {
		c.Failf("%s in an array (%v) leaves %s, not %s", clip(text), aerr, ga, wa)
	}
}

// anything: arbitrary JSON over reserved keys; the only demand is no panic, and
// that what is read can be written again.
func anything(c *prop.C) {
	ks := rapid.OneOf(rapid.SampledFrom(rkeys), rapid.SampledFrom(rkeys), plainKeys)
	j := jm.Gen(c.T, 4, ks)
	text := j.Text(c.T)
	if rapid.IntRange(0, 4).Draw(c.T, "cut") == 0 && len(text) > 0 {
		text = text[:rapid.IntRange(0, len(text)-1).Draw(c.T, "at")]
	}
	c.Note("%q", text)
	if strings.Contains(string(text), "$") {
		c.NonTrivial(text)
	}
	for how := 0; how < 3; how++ {
		_, _ = read(c, how, text)
	}
	valid := json.Valid(text)
	c.NoPanic("Value.UnmarshalJSON("+clip(text)+")", func() {
		if err := birch.VC.Null().UnmarshalJSON(text); err == nil && !valid {
			c.Failf("Value.UnmarshalJSON(%s) succeeds", clip(text))
		}
	})
	if valid {
		agree(c, text)
	}
	a := birch.MakeArray(0)
	c.NoPanic("Array.UnmarshalJSON("+clip(text)+")", func() {
		if err := a.UnmarshalJSON(text); err != nil && a.Len() != 0 {
			c.Failf("Array.UnmarshalJSON(%s) fails but leaves %d values", clip(text), a.Len())
		}
	})
}

// built: trees made with the JSON constructors convert in every number width
func built(c *prop.C) {
	i32, i64, f32 := rapid.Int32().Draw(c.T, "i32"), rapid.Int64().Draw(c.T, "i64"), rapid.Float32().Draw(c.T, "f32")
	f64, i, s := rapid.Float64().Draw(c.T, "f64"), rapid.Int().Draw(c.T, "i"), genStr(c.T)
	u1, u2 := rapid.Uint32().Draw(c.T, "u1"), rapid.Uint32().Draw(c.T, "u2")
	EC := jsonx.EC
	inner := []*jsonx.Element{EC.Int32("i32", i32), EC.Int64("i64", i64), EC.Int("i", i), EC.Float64("f64", f64), EC.Float32("f32", f32), EC.String("s", s), EC.Nil("z"), EC.Boolean("b", true),
		EC.ObjectFromElements("ts", EC.ObjectFromElements("$timestamp", EC.Int64("t", int64(u1)), EC.Int64("i", int64(u2))))}
	want := []bm.Field{bm.F("i32", bm.NInt32(i32)), bm.F("i64", bm.NInt64(i64)), bm.F("i", bm.NInt64(int64(i))), bm.F("f64", bm.NDouble(f64)), bm.F("f32", bm.NDouble(float64(f32))), bm.F("s", bm.NString(s)), bm.F("z", bm.NNull()), bm.F("b", bm.NBool(true)), bm.F("ts", bm.NTime(u1, u2))}
	jd := jsonx.DC.Elements(EC.ObjectFromElements("o", inner...), EC.ArrayFromElements("a", jsonx.VC.Int32(i32), jsonx.VC.Float32(f32)))
	full := bm.NDoc(bm.F("o", bm.NDoc(want...)), bm.F("a", bm.NArray(bm.NInt32(i32), bm.NDouble(float64(f32)))))
	c.Note("%s", full)
	c.NonTrivial(full.String())
	var d *birch.Document
	var err error
	c.NoPanic("JSONX", func() { d, err = birch.DCE.JSONX(jd) })
	if err != nil {
		c.Failf("JSONX of a built tree for %s: %v", full, err)
	}
	if got := bm.NDoc(bm.FromDoc(d)...); !bm.EqualWeak(full, got) {
		c.Failf("a built tree for %s converts to %s", full, got)
	}
}

func main() {
	prop.Main(prop.Spec{
		ID:   "J03",
		Rule: "texts that contain an extended-JSON key; counted distinct by text",
		Assumptions: []string{
			"expected decimal values come from the library's decimal parser, which T01 decides",
			"the payloads of $minKey, $maxKey and $undefined carry nothing and are not judged; a string payload of $binary (an older form) is not judged",
		},
		Subs: []prop.Sub{
			{Name: "wellformed", Quick: 360000, Thorough: 6000000, Shards: 3, Fn: wellformed},
			{Name: "flawed", Quick: 450000, Thorough: 6000000, Shards: 3, Fn: flawed},
			{Name: "anything", Quick: 240000, Thorough: 4000000, Shards: 2, Fn: anything},
			{Name: "built", Quick: 90000, Thorough: 900000, Fn: built},
		},
	})
}
