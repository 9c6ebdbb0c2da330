package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"

	"github.com/tychoish/birch"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/prop"
)

func exact(b []byte) []byte {
	out := make([]byte, len(b))
	copy(out, b)
	return out[:len(out):len(out)]
}

// subtypesOK: the library documents binary subtypes 0-5 and 0x80-0xff only.
func subtypesOK(fs []bm.Field) bool {
	for _, f := range fs {
		if f.V.T == bm.Binary && f.V.Sub > 5 && f.V.Sub < 0x80 {
			return false
		}
		if !subtypesOK(f.V.Kids) {
			return false
		}
	}
	return true
}

// judge runs every reader over b and compares acceptance with the model.
func judge(c *prop.C, b []byte) {
	b = exact(b)
	orig := exact(b)
	var prefix []byte
	valid := false
	var want []bm.Field
	if len(b) >= 5 {
		l := int32(binary.LittleEndian.Uint32(b))
		if l >= 5 && int64(l) <= int64(len(b)) {
			prefix = b[:l]
			if fs, err := bm.DecodeDoc(prefix); err == nil {
				valid = subtypesOK(fs)
				want = fs
				if !valid {
					c.Class("odd-subtype")
				}
			}
		}
	}
	if valid {
		c.Class("valid-after-all")
	} else {
		c.Class("invalid")
	}
	must := func(what string, err error) bool {
		if err == nil && !valid {
			c.Failf("%s accepted malformed BSON %x", what, b)
		}
		if err != nil && valid {
			c.Failf("%s rejected valid BSON: %v: %x", what, err, b)
		}
		return err == nil
	}
	useDoc := func(what string, d *birch.Document) {
		fs, err := bm.FromDocErr(d)
		if err != nil {
			c.Failf("%s: accepted but not readable: %v", what, err)
		}
		// array keys are free in the input; compare contents only
		if !sameContent(fs, want) {
			c.Failf("%s: content differs\n got %s\nwant %s", what, bm.Show(fs), bm.Show(want))
		}
	}
	c.NoPanic("Reader.Validate", func() {
		n, err := birch.Reader(b).Validate()
		if must("Reader.Validate", err) && int(n) != len(prefix) {
			c.Failf("Reader.Validate reports size %d, document has %d", n, len(prefix))
		}
	})
	c.NoPanic("ReadDocument", func() {
		d, err := birch.ReadDocument(b)
		if must("ReadDocument", err) {
			out, err := d.MarshalBSON()
			if err != nil || !bytes.Equal(out, prefix) {
				c.Failf("re-encoding accepted bytes: %v %s", err, bm.Diff(out, prefix))
			}
			useDoc("ReadDocument", d)
			if n, err := d.Validate(); err != nil || (int(n) != len(prefix) && indexKeys(want)) {
				c.Failf("Validate after reading: %d %v", n, err)
			}
		} else if d != nil {
			c.Failf("ReadDocument returned a document with an error")
		}
	})
	c.NoPanic("Document.UnmarshalBSON", func() {
		d := birch.DC.Elements(birch.EC.Int32("old", 1))
		if must("UnmarshalBSON", d.UnmarshalBSON(b)) {
			useDoc("UnmarshalBSON", d)
		}
	})
	c.NoPanic("Document.ReadFrom", func() {
		r := bytes.NewReader(b)
		d := birch.DC.New()
		n, err := d.ReadFrom(r)
		if must("ReadFrom", err) {
			if int(n) != len(prefix) || len(b)-r.Len() != len(prefix) {
				c.Failf("ReadFrom consumed %d (reported %d) want %d", len(b)-r.Len(), n, len(prefix))
			}
			useDoc("ReadFrom", d)
		}
		if int(n) > len(b) {
			c.Failf("ReadFrom reports %d bytes from %d", n, len(b))
		}
	})
	c.NoPanic("NewFromIOReader", func() {
		r, err := birch.NewFromIOReader(bytes.NewReader(b))
		if valid && (err != nil || !bytes.Equal(r, prefix)) {
			c.Failf("NewFromIOReader: %v", err)
		}
		if err == nil {
			// only framing is promised; validation must then agree
			_, verr := r.Validate()
			must("Validate after NewFromIOReader", verr)
		}
	})
	c.NoPanic("DCE.ReadFrom", func() {
		d, err := birch.DCE.ReadFrom(bytes.NewReader(b))
		if must("DCE.ReadFrom", err) {
			useDoc("DCE.ReadFrom", d)
		}
	})
	c.NoPanic("DCE.Reader", func() {
		_, err := birch.DCE.Reader(b)
		must("DCE.Reader", err)
	})
	c.NoPanic("Reader.Iterator", func() {
		i := 0
		var ierr error
		for e, err := range birch.Reader(b).Iterator() {
			if err != nil {
				ierr = err
				continue
			}
			if ierr != nil {
				c.Failf("iterator yielded an element after an error")
			}
			n, err := bm.FromValue(e.Value())
			if err != nil {
				c.Failf("iterator yielded unreadable element %d: %v", i, err)
			}
			if valid && (i >= len(want) || e.Key() != want[i].K || !sameNode(n, want[i].V)) {
				c.Failf("iterator element %d differs", i)
			}
			i++
		}
		must("Reader.Iterator", ierr)
		if valid && i != len(want) {
			c.Failf("iterator yielded %d of %d", i, len(want))
		}
	})
	c.NoPanic("Reader.Iterator with break", func() {
		stop := rapid.IntRange(0, 3).Draw(c.T, "stop")
		for range birch.Reader(b).Iterator() {
			if stop == 0 {
				break
			}
			stop--
		}
	})
	c.NoPanic("Reader.ElementAt", func() {
		i := rapid.IntRange(0, 4).Draw(c.T, "index")
		e, err := birch.Reader(b).ElementAt(uint(i))
		if err == nil {
			if _, err := bm.FromValue(e.Value()); err != nil {
				c.Failf("ElementAt returned an unreadable element: %v", err)
			}
			if valid && (i >= len(want) || e.Key() != want[i].K) {
				c.Failf("ElementAt(%d) = %q", i, e.Key())
			}
		} else if valid && i < len(want) {
			c.Failf("ElementAt(%d): %v", i, err)
		}
	})
	c.NoPanic("Reader.RecursiveLookup", func() {
		path := rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b", "c", "0", "1", ""}), 1, 3).Draw(c.T, "path")
		e, err := birch.Reader(b).RecursiveLookup(path...)
		if err == nil {
			if _, err := bm.FromValue(e.Value()); err != nil {
				c.Failf("RecursiveLookup returned an unreadable element: %v", err)
			}
		}
	})
	c.NoPanic("Reader.String", func() { _ = birch.Reader(b).String() })
	c.NoPanic("Reader.MarshalBSON", func() {
		_, err := birch.Reader(b).MarshalBSON()
		must("Reader.MarshalBSON", err)
	})
	c.NoPanic("DocumentMap.UnmarshalBSON", func() {
		dm := birch.DocumentMap{}
		must("DocumentMap.UnmarshalBSON", dm.UnmarshalBSON(b))
	})
	c.NoPanic("EC.Interface(Reader)", func() {
		e := birch.EC.Interface("k", birch.Reader(b))
		if !valid && byte(e.Value().Type()) != bm.Null {
			c.Failf("EC.Interface stored a malformed document")
		}
	})
	if !bytes.Equal(b, orig) {
		c.Failf("the input was modified")
	}
}

func sameNode(a, b *bm.Node) bool { return a.Equal(b) }

func sameContent(a, b []bm.Field) bool { return bm.FieldsEqual(a, b) }

// indexKeys reports whether every array carries its canonical keys.
func indexKeys(fs []bm.Field) bool {
	for _, f := range fs {
		if f.V.T == bm.Array {
			for i, k := range f.V.Kids {
				if k.K != fmt.Sprint(i) {
					return false
				}
			}
		}
		if !indexKeys(f.V.Kids) {
			return false
		}
	}
	return true
}

func mutated(c *prop.C) {
	fs := bm.GenDoc(c.T, bm.Opts{MaxDepth: 3, Keys: bm.SimpleKey(), MaxLen: 4})
	b := bm.EncodeFields(fs)
	m, how := bm.Mutate(c.T, fs, b)
	c.Note("from %s\nmutations %s\nbytes %x", bm.Show(fs), how, m)
	if !bytes.Equal(m, b) {
		c.NonTrivial(m)
	}
	judge(c, m)
}

// bad produces a document with one hostile element of a chosen type at a
// chosen depth: every length field takes hostile values in turn.
func hostile(c *prop.C) {
	ty := rapid.SampledFrom([]byte{bm.String, bm.JS, bm.Symbol, bm.Binary, bm.DBPointer, bm.CodeScope, bm.Doc, bm.Array, bm.Regex, bm.Bool, bm.Decimal, bm.Int64, bm.ObjectID}).Draw(c.T, "ty")
	n := bm.GenOfType(c.T, bm.Opts{MaxDepth: 1, MaxLen: 3, Keys: bm.SimpleKey()}, ty, 0)
	fs := []bm.Field{bm.F("a", n)}
	depth := rapid.IntRange(0, 3).Draw(c.T, "depth")
	for i := 0; i < depth; i++ {
		switch rapid.IntRange(0, 2).Draw(c.T, "wrap") {
		case 0:
			fs = []bm.Field{bm.F("a", bm.NDoc(fs...))}
		case 1:
			fs = []bm.Field{bm.F("a", bm.NArray(fs[0].V))}
		case 2:
			fs = []bm.Field{bm.F("a", &bm.Node{T: bm.CodeScope, S: "code", Kids: fs})}
		}
	}
	if rapid.Bool().Draw(c.T, "sibling") {
		fs = append(fs, bm.F("z", bm.NInt64(7)))
	}
	b := bm.EncodeFields(fs)
	sites := bm.Sites(fs)
	s := sites[rapid.IntRange(0, len(sites)-1).Draw(c.T, "site")]
	switch s.Kind {
	case "doclen", "strlen", "binlen", "oldbinlen", "cwslen":
		old := int32(binary.LittleEndian.Uint32(b[s.Off:]))
		bm.LE32(b, s.Off, bm.HostileLen(c.T, old, len(b)-s.Off))
	default:
		b[s.Off] = rapid.Byte().Draw(c.T, "v")
	}
	c.Class("site-" + s.Kind)
	c.Note("doc %s\nsite %s@%d\nbytes %x", bm.Show(fs), s.Kind, s.Off, b)
	c.NonTrivial(b)
	judge(c, b)
}

func random(c *prop.C) {
	b := rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(c.T, "b")
	if len(b) >= 5 && rapid.IntRange(0, 9).Draw(c.T, "fix") < 9 {
		bm.LE32(b, 0, int32(len(b)))
		b[len(b)-1] = 0
		if len(b) > 6 {
			b[4] = rapid.SampledFrom(bm.AllTypes).Draw(c.T, "t")
		}
	}
	c.Note("bytes %x", b)
	if len(b) > 5 {
		c.NonTrivial(b)
	}
	judge(c, b)
}

// truncation checks every prefix of a valid document, and every prefix with
// its outer length patched to match.
func truncation(c *prop.C) {
	fs := bm.GenDoc(c.T, bm.Opts{MaxDepth: 2, Keys: bm.SimpleKey(), MaxLen: 3, Strings: rapid.StringMatching("[a-z]{0,5}")})
	b := bm.EncodeFields(fs)
	if len(b) > 120 {
		b = b[:120]
	}
	c.Note("doc %s", bm.Show(fs))
	c.NonTrivial(b)
	for i := 0; i < len(b); i++ {
		p := exact(b[:i])
		for patched := 0; patched < 2; patched++ {
			if patched == 1 {
				if i < 5 {
					break
				}
				bm.LE32(p, 0, int32(i))
			}
			_, merr := bm.DecodeDoc(p)
			c.NoPanic(fmt.Sprintf("reading prefix of %d bytes", i), func() {
				d, err := birch.ReadDocument(p)
				if (err == nil) != (merr == nil) {
					c.Failf("prefix %x: library %v, model %v", p, err, merr)
				}
				if err == nil {
					if _, err := bm.FromDocErr(d); err != nil {
						c.Failf("prefix %x: %v", p, err)
					}
				}
				_, verr := birch.Reader(p).Validate()
				if (verr == nil) != (merr == nil) {
					c.Failf("prefix %x: Validate %v, model %v", p, verr, merr)
				}
				if _, err := birch.DC.New().ReadFrom(bytes.NewReader(p)); (err == nil) != (merr == nil) {
					c.Failf("prefix %x: ReadFrom %v, model %v", p, err, merr)
				}
				_, _ = birch.NewFromIOReader(io.LimitReader(bytes.NewReader(b), int64(i)))
			})
		}
	}
}

// deep nests far beyond ordinary documents; reading must still terminate.
func deep(c *prop.C) {
	n := rapid.IntRange(100, 2000).Draw(c.T, "depth")
	node := bm.NInt32(1)
	for i := 0; i < n; i++ {
		node = bm.NDoc(bm.F("", node))
	}
	b := bm.EncodeFields([]bm.Field{bm.F("", node)})
	if rapid.Bool().Draw(c.T, "damage") {
		at := rapid.IntRange(0, len(b)-1).Draw(c.T, "at")
		b[at] = rapid.Byte().Draw(c.T, "to")
	}
	c.Note("%d levels", n)
	c.NonTrivial(b)
	_, merr := bm.DecodeDoc(b)
	c.Journal()
	c.NoPanic("deep", func() {
		_, err := birch.Reader(b).Validate()
		if (err == nil) != (merr == nil) {
			c.Failf("Validate %v, model %v", err, merr)
		}
		_, err = birch.ReadDocument(b)
		if (err == nil) != (merr == nil) {
			c.Failf("ReadDocument %v, model %v", err, merr)
		}
	})
}

// nest builds a document of n nested documents, arrays or scopes without
// recursion; the innermost one is empty, or cut short.
func nest(n int, kind []byte, key string) []byte {
	var head, tail int // bytes around each level
	total := 5
	kinds := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		kinds[i] = kind[i%len(kind)]
		head = 4 + 1 + len(key) + 1
		tail = 1
		if kinds[i] == 0x0f {
			head += 4 + 4 + 1
		}
		total += head + tail
	}
	b := make([]byte, total)
	at, left := 0, total
	for i := 0; i < n; i++ {
		binary.LittleEndian.PutUint32(b[at:], uint32(left))
		b[at+4] = kinds[i]
		copy(b[at+5:], key)
		at += 4 + 1 + len(key) + 1
		left -= 4 + 1 + len(key) + 1 + 1
		if kinds[i] == 0x0f {
			binary.LittleEndian.PutUint32(b[at:], uint32(left))
			binary.LittleEndian.PutUint32(b[at+4:], 1)
			at += 9
			left -= 9
		}
	}
	binary.LittleEndian.PutUint32(b[at:], uint32(left))
	return b
}

// bottomless nesting must not take the process down: whatever the depth, every
// reader gives the document back or reports an error.
func bottomless(c *prop.C) {
	exp := rapid.IntRange(8, 22).Draw(c.T, "log2 depth")
	n := rapid.IntRange(1<<exp, 2<<exp-1).Draw(c.T, "depth")
	kind := rapid.SliceOfN(rapid.SampledFrom([]byte{3, 3, 3, 4, 0x0f}), 1, 4).Draw(c.T, "kinds")
	key := rapid.SampledFrom([]string{"", "a", "0"}).Draw(c.T, "key")
	b := nest(n, kind, key)
	if rapid.Bool().Draw(c.T, "damage") {
		b[len(b)-rapid.IntRange(1, n+4).Draw(c.T, "from the end")] ^= 0x15
	}
	c.Note("%d levels of %x, key %q", n, kind, key)
	c.NonTrivial([]byte(fmt.Sprint(n, kind, key, b[len(b)-20:])))
	c.Journal()
	c.NoPanic("bottomless nesting", func() {
		_, err := birch.Reader(b).Validate()
		if err == nil {
			c.Class("accepted")
		} else {
			c.Class("rejected")
		}
		same := func(what string, got error) bool {
			if (got == nil) != (err == nil) {
				c.Failf("%d levels: Validate %v, %s %v", n, err, what, got)
			}
			return got == nil
		}
		d, e := birch.ReadDocument(b)
		if same("ReadDocument", e) {
			if out, e := d.MarshalBSON(); e != nil || !bytes.Equal(out, b) {
				c.Failf("re-encoding %d levels: %v", n, e)
			}
		}
		same("UnmarshalBSON", birch.DC.New().UnmarshalBSON(b))
		_, e = birch.DC.New().ReadFrom(bytes.NewReader(b))
		same("ReadFrom", e)
		r, e := birch.NewFromIOReader(bytes.NewReader(b))
		if e == nil {
			_, e = r.Validate()
		}
		same("NewFromIOReader", e)
		same("DocumentMap", birch.DocumentMap{}.UnmarshalBSON(b))
		_, e = birch.Reader(b).MarshalBSON()
		same("Reader.MarshalBSON", e)
		// a lookup stops at what it looks for, before any damage behind it.
		if _, e = birch.Reader(b).RecursiveLookup(key); e != nil && err == nil {
			c.Failf("%d levels: Validate %v, RecursiveLookup %v", n, err, e)
		}
	})
}

// accessors on elements with hostile hand-made content never escape through
// comparison either.
func equality(c *prop.C) {
	fs := bm.GenDoc(c.T, bm.Opts{MaxDepth: 2, Keys: bm.SimpleKey(), MaxLen: 3})
	m, how := bm.Mutate(c.T, fs, bm.EncodeFields(fs))
	c.Note("%s %x", how, m)
	c.NonTrivial(m)
	c.NoPanic("comparing and printing accepted documents", func() {
		d, err := birch.ReadDocument(m)
		if err != nil {
			return
		}
		c.Class("accepted")
		_ = d.String()
		_ = d.ExportMap()
		for e := range d.Iterator() {
			for f := range d.Iterator() {
				_ = e.Equal(f)
			}
			_ = e.Value().IsEmpty()
			_ = e.Value().Interface()
		}
		_ = d.Sorted()
		_, _ = d.MarshalJSON()
	})
}

// assembled puts bytes that were never looked at into documents and arrays
// through the constructors that take them as they are: validating what was
// assembled finds any damage at whatever depth, and what is accepted encodes.
func assembled(c *prop.C) {
	t := c.T
	fs := bm.GenDoc(t, bm.Opts{MaxDepth: 2, Keys: bm.SimpleKey(), MaxLen: 3})
	b, how := bm.EncodeFields(fs), "valid"
	if rapid.IntRange(0, 3).Draw(t, "damaged") != 0 {
		b, how = bm.Mutate(t, fs, b)
	}
	if rapid.IntRange(0, 9).Draw(t, "cut") == 0 {
		b = b[:rapid.IntRange(0, len(b)).Draw(t, "at")]
	}
	b = exact(b)
	var want []bm.Field
	valid := false
	if len(b) >= 5 {
		if l := int32(binary.LittleEndian.Uint32(b)); l >= 5 && int64(l) <= int64(len(b)) {
			if got, err := bm.DecodeDoc(b[:l]); err == nil {
				want, valid = got, subtypesOK(got)
			}
		}
	}
	c.Note("%s %x", how, b)
	if !valid {
		c.NonTrivial(b)
	}
	n := bm.NDoc(want...)
	var v *birch.Value
	if rapid.Bool().Draw(t, "element") {
		v = birch.EC.SubDocumentFromReader("k", b).Value()
	} else {
		v = birch.VC.DocumentFromReader(b)
	}
	for depth := rapid.IntRange(0, 3).Draw(t, "depth"); depth > 0; depth-- {
		switch rapid.IntRange(0, 3).Draw(t, "into") {
		case 0:
			v, n = birch.VC.DocumentFromElements(birch.EC.Int32("x", 1), birch.EC.Value("in", v)), bm.NDoc(bm.F("x", bm.NInt32(1)), bm.F("in", n))
		case 1:
			v, n = birch.VC.ArrayFromValues(v, birch.VC.Null()), bm.NArray(n, bm.NNull())
		case 2:
			v, n = birch.VC.CodeWithScope("f", birch.DC.Elements(birch.EC.Value("in", v))), &bm.Node{T: bm.CodeScope, S: "f", Kids: []bm.Field{bm.F("in", n)}}
		case 3:
			v = birch.EC.Value("renamed", v).Value()
		}
	}
	d := birch.DC.Elements(birch.EC.String("before", "s"), birch.EC.Value("it", v), birch.EC.Int64("after", 1))
	a := birch.NewArray(birch.VC.Boolean(true), v)
	must := func(what string, err error) {
		if (err == nil) != valid {
			c.Failf("%s: %v, although the embedded document %x is valid: %v", what, err, b, valid)
		}
	}
	wd := bm.EncodeFields([]bm.Field{bm.F("before", bm.NString("s")), bm.F("it", n), bm.F("after", bm.NInt64(1))})
	size := func(what string, got uint32, whole []byte) {
		// indices that are not 0, 1, ... in the embedded bytes are their owner's
		if valid && indexKeys(want) && int(got) != len(whole) {
			c.Failf("%s reports %d bytes of %d", what, got, len(whole))
		}
	}
	c.NoPanic("validating", func() {
		must("Value.Validate", v.Validate())
		sz, err := d.Validate()
		must("Document.Validate", err)
		size("Document.Validate", sz, wd)
		sz, err = a.Validate()
		must("Array.Validate", err)
		size("Array.Validate", sz, bm.EncodeArray(bm.NArray(bm.NBool(true), n).Kids))
		sz, err = d.ElementAt(1).Validate()
		must("Element.Validate", err)
		size("Element.Validate", sz, bm.EncodeElem(bm.F("it", n)))
		// what was assembled still encodes as it is or is an error
		for what, enc := range map[string]func() ([]byte, error){
			"Document.MarshalBSON": d.MarshalBSON,
			"Document.WriteTo":     func() ([]byte, error) { var w bytes.Buffer; _, err := d.WriteTo(&w); return w.Bytes(), err },
			"Element.WriteTo": func() ([]byte, error) {
				var w bytes.Buffer
				_, err := d.ElementAt(1).WriteTo(&w)
				return w.Bytes(), err
			},
		} {
			out, err := enc()
			whole := wd
			if what == "Element.WriteTo" {
				whole = bm.EncodeElem(bm.F("it", n))
			}
			if valid && (err != nil || indexKeys(want) && !bytes.Equal(out, whole)) {
				c.Failf("%s: %v %s", what, err, bm.Diff(out, whole))
			}
			if err == nil && len(out) == 0 {
				c.Failf("%s writes nothing and reports no error", what)
			}
		}
		_, _ = a.MarshalBSON()
	})
}

func main() {
	prop.Main(prop.Spec{
		ID:   "B02",
		Rule: "the bytes differ from a valid encoding (mutated, truncated, hostile) or are random and longer than the minimal document; distinct by content",
		Assumptions: []string{
			"well-formedness is judged by an independent strict decoder; UTF-8 validity, duplicate keys and array key names are not required",
			"bytes after the declared length of the outermost document are ignored, as documented for the raw reader",
		},
		Subs: []prop.Sub{
			{Name: "mutated", Quick: 240000, Thorough: 2400000, Shards: 2, HangIsViolation: true, Fn: mutated},
			{Name: "hostile", Quick: 240000, Thorough: 2400000, Shards: 2, HangIsViolation: true, Fn: hostile},
			{Name: "random", Quick: 240000, Thorough: 2400000, HangIsViolation: true, Fn: random},
			{Name: "truncation", Quick: 24000, Thorough: 240000, HangIsViolation: true, Fn: truncation},
			{Name: "equality", Quick: 120000, Thorough: 1200000, HangIsViolation: true, Fn: equality},
			{Name: "assembled", Quick: 240000, Thorough: 2400000, Shards: 2, HangIsViolation: true, Fn: assembled},
			{Name: "deep", Quick: 240, Thorough: 2400, HangIsViolation: true, Fn: deep},
			{Name: "bottomless", Quick: 360, Thorough: 3600, HangIsViolation: true, Fn: bottomless},
		},
	})
}
