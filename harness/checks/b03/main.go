// B03: documents behave as ordered maps under every operation history.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/tychoish/birch"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/prop"
)

// cell is one element of the model; shared cells are reachable from several
// documents and are never changed in place.
type cell struct {
	k      string
	v      *bm.Node
	shared bool
}

type pair struct {
	d *birch.Document
	m []*cell
}

func fields(m []*cell) []bm.Field {
	fs := make([]bm.Field, len(m))
	for i, c := range m {
		fs[i] = bm.F(c.k, c.v)
	}
	return fs
}

var keys = rapid.OneOf(
	rapid.SampledFrom([]string{"a", "b", "c", "d", "ab"}),
	rapid.SampledFrom([]string{"", "0", "1", "a.b", "$a", "é", "_id"}),
	bm.Key(),
)

var opts = bm.Opts{MaxDepth: 2, MaxLen: 3}

type machine struct {
	c     *prop.C
	docs  []*pair
	kinds map[string]bool
	nops  int
	sawD  bool
}

func (s *machine) op(name string) { s.kinds[name] = true; s.nops++ }

func (s *machine) pick() *pair {
	return s.docs[rapid.IntRange(0, len(s.docs)-1).Draw(s.c.T, "doc")]
}

func (s *machine) node() *bm.Node { return bm.GenNode(s.c.T, opts, 1) }

func (s *machine) key(p *pair) string {
	if len(p.m) > 0 && rapid.IntRange(0, 2).Draw(s.c.T, "existing") > 0 {
		return p.m[rapid.IntRange(0, len(p.m)-1).Draw(s.c.T, "ki")].k
	}
	return keys.Draw(s.c.T, "key")
}

func (s *machine) newCell(p *pair) (*cell, *birch.Element) {
	k, n := s.key(p), s.node()
	return &cell{k: k, v: n}, bm.Rep(s.c.T, k, n)
}

func share(m []*cell) []*cell {
	for _, c := range m {
		c.shared = true
	}
	return m
}

func find(m []*cell, k string) int {
	for i, c := range m {
		if c.k == k {
			return i
		}
	}
	return -1
}

// empty reports whether a value is empty; ok is false where the
// documentation does not settle it.
func empty(n *bm.Node) (e, ok bool) {
	switch n.T {
	case bm.Double:
		return n.Float() == 0, true
	case bm.String, bm.JS, bm.Symbol:
		return n.S == "", true
	case bm.Doc, bm.Array:
		return len(n.Kids) == 0, true
	case bm.Binary:
		return len(n.B) == 0, true
	case bm.ObjectID:
		return n.OID == [12]byte{}, true
	case bm.Bool, bm.DateTime, bm.Int32, bm.Int64, bm.Timestamp:
		return n.U == 0, true
	case bm.Decimal:
		return n.U == 0 && n.H == 0, true
	case bm.Null, bm.MinKey, bm.MaxKey:
		return false, true
	case bm.Regex:
		return n.S == "", n.S != "" || n.S2 == ""
	case bm.DBPointer:
		return n.S == "", n.S != "" || n.OID == [12]byte{}
	case bm.CodeScope:
		return n.S == "", n.S != "" || len(n.Kids) == 0
	}
	return false, false
}

func less(a, b *bm.Node) (lt, comparable bool) {
	if a.T != b.T {
		return a.T < b.T, true
	}
	switch a.T {
	case bm.Double:
		return a.Float() < b.Float(), !math.IsNaN(a.Float()) && !math.IsNaN(b.Float())
	case bm.String:
		return a.S < b.S, true
	case bm.ObjectID:
		return bytes.Compare(a.OID[:], b.OID[:]) < 0, true
	case bm.DateTime:
		// sorted as times: only dates a time.Time holds are compared
		lim := int64(1) << 52
		x, y := int64(a.U), int64(b.U)
		return x < y, x < lim && x > -lim && y < lim && y > -lim
	case bm.Int32:
		return int32(a.U) < int32(b.U), true
	case bm.Int64:
		return int64(a.U) < int64(b.U), true
	}
	return false, false
}

func (s *machine) sorted(p *pair) {
	c := s.c
	var res *birch.Document
	c.NoPanic("Sorted", func() { res = p.d.Sorted() })
	if res.Len() != len(p.m) {
		c.Failf("Sorted has %d elements, want %d", res.Len(), len(p.m))
	}
	// permutation: match by encoding, first unused
	used := make([]bool, len(p.m))
	out := []*cell{}
	for e := range res.Iterator() {
		b, err := e.MarshalBSON()
		if err != nil {
			c.Failf("element of sorted document: %v", err)
		}
		found := false
		for i, m := range p.m {
			if !used[i] && bytes.Equal(b, bm.EncodeElem(bm.F(m.k, m.v))) {
				used[i], found = true, true
				out = append(out, m)
				break
			}
		}
		if !found {
			c.Failf("Sorted holds an element the document does not: %s", e)
		}
	}
	nan := false
	for _, m := range p.m {
		nan = nan || m.v.T == bm.Double && math.IsNaN(m.v.Float())
	}
	for i := 1; i < len(out); i++ {
		a, b := out[i-1], out[i]
		if a.k > b.k {
			c.Failf("Sorted: key %q before %q", a.k, b.k)
		}
		if a.k == b.k {
			if lt, ok := less(b.v, a.v); lt && ok && !nan {
				c.Failf("Sorted: %s before %s for key %q", a.v, b.v, a.k)
			}
		}
	}
	share(out)
	s.check(&pair{res, out}, "sorted result")
	p.d, p.m = res, out
}

// check compares every observer with the model.
func (s *machine) check(p *pair, when string) {
	c := s.c
	fs := fields(p.m)
	d := p.d
	if d.Len() != len(fs) {
		c.Failf("%s: Len %d, model has %d: %s", when, d.Len(), len(fs), bm.Show(fs))
	}
	want := bm.EncodeFields(fs)
	got, err := d.MarshalBSON()
	if err != nil {
		c.Failf("%s: MarshalBSON: %v", when, err)
	}
	if !bytes.Equal(got, want) {
		c.Failf("%s: encoding differs from the model: %s\nmodel %s", when, bm.Diff(got, want), bm.Show(fs))
	}
	if n, err := d.Validate(); err != nil || int(n) != len(want) {
		c.Failf("%s: Validate = %d, %v; want %d", when, n, err, len(want))
	}
	i := 0
	first := map[string]int{}
	count := map[string]int{}
	var iterated []*birch.Element
	for e := range d.Iterator() {
		if i >= len(fs) {
			c.Failf("%s: iterator yields more than %d elements", when, len(fs))
		}
		eb, err := e.MarshalBSON()
		if e.Key() != fs[i].K || err != nil || !bytes.Equal(eb, bm.EncodeElem(fs[i])) {
			c.Failf("%s: iterated element %d is %q %v (%v), want %q %s", when, i, e.Key(), e.Value().Interface(), err, fs[i].K, fs[i].V)
		}
		if _, ok := first[fs[i].K]; !ok {
			first[fs[i].K] = i
		}
		count[fs[i].K]++
		iterated = append(iterated, e)
		i++
	}
	if i != len(fs) {
		c.Failf("%s: iterator yields %d of %d elements", when, i, len(fs))
	}
	for i, e := range d.Elements() {
		if e != iterated[i] {
			c.Failf("%s: Elements()[%d] is not the iterated element", when, i)
		}
	}
	for i := range fs {
		if e, ok := d.ElementAtOK(uint(i)); !ok || e != iterated[i] || d.ElementAt(uint(i)) != e {
			c.Failf("%s: ElementAt(%d) is not the iterated element", when, i)
		}
	}
	for _, i := range []uint{uint(len(fs)), uint(len(fs)) + 1, math.MaxUint32, math.MaxUint} {
		if e, ok := d.ElementAtOK(i); ok || e != nil {
			c.Failf("%s: ElementAtOK(%d) of %d elements = %v, %v", when, i, len(fs), e, ok)
		}
	}
	m := d.Map()
	if len(m) != len(first) {
		c.Failf("%s: Map has %d keys, want %d", when, len(m), len(first))
	}
	ex := d.ExportMap()
	if len(ex) != len(first) {
		c.Failf("%s: ExportMap has %d keys, want %d", when, len(ex), len(first))
	}
	into := map[string]any{}
	if err := d.Unmarshal(into); err != nil || len(into) != len(first) {
		c.Failf("%s: Unmarshal into map has %d keys, want %d: %v", when, len(into), len(first), err)
	}
	for k, i := range first {
		e := iterated[i]
		if m[k] != e {
			c.Failf("%s: Map()[%q] = %v, want the first element with that key, %v", when, k, m[k], e)
		}
		if d.LookupElement(k) != e || d.Lookup(k) != e.Value() {
			c.Failf("%s: lookup of %q is not the first element with that key", when, k)
		}
		if x, err := d.LookupElementErr(k); x != e || err != nil {
			c.Failf("%s: LookupElementErr(%q) = %v, %v", when, k, x, err)
		}
		if x, err := d.LookupErr(k); x != e.Value() || err != nil {
			c.Failf("%s: LookupErr(%q) = %v, %v", when, k, x, err)
		}
		if x, err := d.Search(k); x != e || err != nil {
			c.Failf("%s: Search(%q) = %v, %v", when, k, x, err)
		}
		if count[k] == 1 {
			want := fmt.Sprintf("%T %v", e.Value().Interface(), e.Value().Interface())
			if g := fmt.Sprintf("%T %v", ex[k], ex[k]); g != want {
				c.Failf("%s: ExportMap()[%q] = %s, want %s", when, k, g, want)
			}
			if g := fmt.Sprintf("%T %v", into[k], into[k]); g != want {
				c.Failf("%s: Unmarshal()[%q] = %s, want %s", when, k, g, want)
			}
		}
	}
	for _, k := range []string{"missing", "a", "b", "", "0"} {
		if _, ok := first[k]; ok {
			continue
		}
		e, err := d.LookupElementErr(k)
		v, err2 := d.LookupErr(k)
		x, err3 := d.Search(k)
		if d.LookupElement(k) != nil || d.Lookup(k) != nil || e != nil || err == nil || v != nil || err2 == nil || x != nil || err3 == nil {
			c.Failf("%s: absent key %q found", when, k)
		}
		if _, ok := m[k]; ok {
			c.Failf("%s: Map holds absent key %q", when, k)
		}
	}
}

func history(c *prop.C) { run(c, false) }

// large: documents past the capacities used inside the library.
func large(c *prop.C) { run(c, true) }

func run(c *prop.C, big bool) {
	s := &machine{c: c, kinds: map[string]bool{}}
	n := rapid.IntRange(1, 3).Draw(c.T, "docs")
	for i := 0; i < n; i++ {
		fs := bm.GenFields(c.T, opts, 1)
		if big && i == 0 {
			size := rapid.OneOf(rapid.IntRange(60, 300), rapid.SampledFrom([]int{63, 64, 65, 99, 100, 101, 126, 127, 128, 129, 130, 254, 255, 256, 257, 511, 513})).Draw(c.T, "size")
			distinct := rapid.SampledFrom([]int{3, 50, 100000}).Draw(c.T, "distinct")
			for i := len(fs); i < size; i++ {
				fs = append(fs, bm.F(fmt.Sprint("k", i%distinct), bm.NInt32(int32(i%7))))
			}
			c.Class(fmt.Sprintf("size over %d", size/100*100))
		}
		d := bm.RepDoc(c.T, fs)
		if rapid.IntRange(0, 3).Draw(c.T, "cap") == 0 {
			d = birch.DC.Make(rapid.IntRange(0, 8).Draw(c.T, "n")).Extend(d)
		}
		p := &pair{d: d}
		for _, f := range fs {
			p.m = append(p.m, &cell{k: f.K, v: f.V})
		}
		c.Note("doc %d: %s", i, bm.Show(fs))
		s.docs = append(s.docs, p)
		s.check(p, "initially")
	}
	c.T.Repeat(map[string]func(*rapid.T){
		"append": func(t *rapid.T) {
			p := s.pick()
			var es []*birch.Element
			for k := rapid.IntRange(0, 3).Draw(t, "n"); k > 0; k-- {
				m, e := s.newCell(p)
				es = append(es, e)
				p.m = append(p.m, m)
			}
			c.Note("append %d", len(es))
			if p.d.Append(es...) != p.d {
				c.Failf("Append returned another document")
			}
			for i := range es { // the caller's slice is the caller's
				es[i] = nil
			}
			s.op("append")
		},
		"appendOmitEmpty": func(t *rapid.T) {
			p := s.pick()
			var es []*birch.Element
			var added []*cell
			for k := rapid.IntRange(1, 3).Draw(t, "n"); k > 0; k-- {
				if rapid.IntRange(0, 4).Draw(t, "nil") == 0 {
					es = append(es, nil)
					continue
				}
				m, e := s.newCell(p)
				if rapid.Bool().Draw(t, "zero") {
					m.v = rapid.SampledFrom([]*bm.Node{bm.NInt32(0), bm.NString(""), bm.NBool(false), bm.NDoc(), bm.NArray(), bm.NDouble(0), bm.NInt64(0), bm.NDate(0), {T: bm.ObjectID}, {T: bm.Decimal}, {T: bm.Timestamp}}).Draw(t, "z").Clone()
					e = bm.Rep(t, m.k, m.v)
				}
				is, ok := empty(m.v)
				if !ok {
					continue
				}
				es = append(es, e)
				if !is {
					added = append(added, m)
					p.m = append(p.m, m)
				}
			}
			c.Note("appendOmitEmpty %d", len(es))
			p.d.AppendOmitEmpty(es...)
			if got, want := birch.DC.ElementsOmitEmpty(es...), added; got.Len() != len(want) {
				c.Failf("a document of %d non-empty elements has %d", len(want), got.Len())
			} else {
				i := 0
				for e := range got.Iterator() {
					if e.Key() != want[i].k || byte(e.Value().Type()) != byte(want[i].v.T) {
						c.Failf("element %d of the non-empty ones is %q of type %s", i, e.Key(), e.Value().Type())
					}
					i++
				}
			}
			s.op("omitempty")
		},
		"set": func(t *rapid.T) {
			p := s.pick()
			m, e := s.newCell(p)
			c.Note("set %q", m.k)
			if i := find(p.m, m.k); i >= 0 {
				p.m[i] = m
				s.op("set-replace")
			} else {
				p.m = append(p.m, m)
				s.op("set-append")
			}
			if p.d.Set(e) != p.d {
				c.Failf("Set returned another document")
			}
			if p.d.LookupElement(m.k) != e {
				c.Failf("the element set for %q is not the one found", m.k)
			}
		},
		"delete": func(t *rapid.T) {
			p := s.pick()
			k := s.key(p)
			c.Note("delete %q", k)
			i := find(p.m, k)
			e := p.d.Delete(k)
			if i < 0 {
				if e != nil {
					c.Failf("Delete of absent %q returned %v", k, e)
				}
				s.op("delete-absent")
				return
			}
			if e == nil {
				c.Failf("Delete of %q returned nil", k)
			}
			b, err := e.MarshalBSON()
			if w := bm.EncodeElem(bm.F(k, p.m[i].v)); err != nil || !bytes.Equal(b, w) {
				c.Failf("Delete returned another element: %v %s", err, bm.Diff(b, w))
			}
			p.m = append(append([]*cell{}, p.m[:i]...), p.m[i+1:]...)
			s.op("delete")
		},
		"extend": func(t *rapid.T) {
			p, q := s.pick(), s.pick()
			if len(p.m)+len(q.m) > 40 {
				return
			}
			c.Note("extend")
			p.m = append(append([]*cell{}, p.m...), share(q.m)...)
			if rapid.Bool().Draw(t, "unmarshalDocument") && p != q {
				if err := p.d.UnmarshalDocument(q.d); err != nil {
					c.Failf("UnmarshalDocument: %v", err)
				}
			} else if p.d.Extend(q.d) != p.d {
				c.Failf("Extend returned another document")
			}
			s.op("extend")
		},
		"reset": func(t *rapid.T) {
			if rapid.IntRange(0, 3).Draw(t, "r") != 0 {
				return
			}
			p := s.pick()
			c.Note("reset")
			p.d.Reset()
			p.m = nil
			s.op("reset")
		},
		"sort": func(t *rapid.T) {
			p := s.pick()
			c.Note("sort")
			s.sorted(p)
			s.op("sort")
		},
		"copy": func(t *rapid.T) {
			p := s.pick()
			c.Note("copy")
			q := &pair{p.d.Copy(), append([]*cell{}, share(p.m)...)}
			if len(s.docs) < 4 {
				s.docs = append(s.docs, q)
			} else {
				*s.docs[0] = *q
			}
			s.op("copy")
		},
		"reload": func(t *rapid.T) {
			p := s.pick()
			fs := bm.GenFields(t, opts, 1)
			b := bm.EncodeFields(fs)
			c.Note("reload %s", bm.Show(fs))
			var err error
			if rapid.Bool().Draw(t, "readFrom") {
				_, err = p.d.ReadFrom(bytes.NewReader(b))
			} else {
				err = p.d.UnmarshalBSON(b)
			}
			if err != nil {
				c.Failf("reload: %v", err)
			}
			p.m = nil
			for _, f := range fs {
				p.m = append(p.m, &cell{k: f.K, v: f.V})
			}
			s.op("reload")
		},
		"reloadBroken": func(t *rapid.T) {
			p := s.pick()
			fs := bm.GenFields(t, opts, 1)
			b := bm.EncodeFields(fs)
			b = b[:rapid.IntRange(0, len(b)-1).Draw(t, "cut")]
			if len(b) >= 4 && rapid.Bool().Draw(t, "late") {
				// the length is right: what precedes the end can be read
				b = append(b, rapid.SampledFrom([][]byte{{}, {0xff}, {0, 0}, {0x02, 'k', 0, 9}, {0x20, 'k', 0, 0}}).Draw(t, "end")...)
				binary.LittleEndian.PutUint32(b, uint32(len(b)))
				if _, err := bm.DecodeDoc(b); err == nil {
					b = b[:len(b)-1]
				}
			}
			c.Note("reload %x (broken)", b)
			var err error
			if rapid.Bool().Draw(t, "readFrom") {
				_, err = p.d.ReadFrom(bytes.NewReader(b))
			} else {
				err = p.d.UnmarshalBSON(b)
			}
			if err == nil {
				c.Failf("broken document accepted")
			}
			s.op("reload-broken")
		},
		"setValue": func(t *rapid.T) {
			p := s.pick()
			if len(p.m) == 0 {
				return
			}
			i := rapid.IntRange(0, len(p.m)-1).Draw(t, "i")
			if p.m[i].shared {
				return
			}
			n := s.node()
			e := p.d.ElementAt(uint(i))
			switch how := rapid.IntRange(0, 3).Draw(t, "how"); how {
			case 0, 1:
				c.Note("setValue %d %s", i, n)
				e.SetValue(bm.RepValue(t, n))
			case 2:
				c.Note("set value of %d to %s", i, n)
				e.Value().Set(bm.RepValue(t, n))
			case 3:
				j := rapid.IntRange(0, len(jsonValues)-1).Draw(t, "json")
				n = jsonValues[j].n
				c.Note("read value of %d from %s", i, jsonValues[j].text)
				if err := e.Value().UnmarshalJSON([]byte(jsonValues[j].text)); err != nil {
					c.Failf("reading a value from JSON: %v", err)
				}
			}
			p.m[i].v = n
			s.op("setvalue")
		},
		"nested": func(t *rapid.T) {
			p := s.pick()
			for i, m := range p.m {
				if m.shared {
					continue
				}
				e := p.d.ElementAt(uint(i))
				k, n := keys.Draw(t, "k"), s.node()
				nv := m.v.Clone()
				switch m.v.T {
				case bm.Doc:
					c.Note("append %q %s inside element %d", k, n, i)
					e.Value().MutableDocument().Append(bm.Rep(t, k, n))
					nv.Kids = append(nv.Kids, bm.F(k, n))
				case bm.Array:
					c.Note("append %s inside element %d", n, i)
					e.Value().MutableArray().Append(bm.RepValue(t, n))
					nv.Kids = append(nv.Kids, bm.F("", n))
				case bm.CodeScope:
					c.Note("append %q %s to scope of element %d", k, n, i)
					_, sc := e.Value().MutableJavaScriptWithScope()
					sc.Append(bm.Rep(t, k, n))
					nv.Kids = append(nv.Kids, bm.F(k, n))
				default:
					continue
				}
				m.v = nv
				s.op("nested")
				return
			}
		},
		"map": func(t *rapid.T) {
			p := s.pick()
			m := p.d.Map()
			for k := range m { // the caller owns the returned map
				delete(m, k)
			}
			m["stray"] = birch.EC.Int32("stray", 1)
			s.op("map")
		},
		"nil": func(t *rapid.T) {
			p := s.pick()
			m, e := s.newCell(p)
			c.Note("append/set nil")
			if r, _ := prop.Catch(func() { p.d.Append(e, nil) }); r == nil {
				c.Failf("appending nil did not panic")
			}
			p.m = append(p.m, m) // "does not remove the previously added elements"
			if r, _ := prop.Catch(func() { p.d.Set(nil) }); r == nil {
				c.Failf("setting nil did not panic")
			}
			s.op("nil")
		},
		"": func(t *rapid.T) {
			for i, p := range s.docs {
				s.check(p, fmt.Sprintf("doc %d", i))
			}
		},
	})
	ks := []string{}
	for k := range s.kinds {
		ks = append(ks, k)
		c.Class("op-" + k)
	}
	sort.Strings(ks)
	if s.nops >= 3 && len(ks) >= 2 {
		var b []byte
		for _, p := range s.docs {
			b = append(b, bm.EncodeFields(fields(p.m))...)
		}
		c.NonTrivial(strings.Join(ks, ",") + string(b))
	}
}

// mapViews checks the map type against the list: building documents from
// maps, loading maps from documents and from bytes, and validation.
func mapViews(c *prop.C) {
	fs := bm.GenFields(c.T, opts, 1)
	c.Note("doc %s", bm.Show(fs))
	d := bm.RepDoc(c.T, fs)
	m := d.Map()
	if err := m.Validate(); err != nil {
		c.Failf("Validate of a document's map: %v", err)
	}
	last := map[string]*bm.Node{}
	firstN := map[string]*bm.Node{}
	for _, f := range fs {
		last[f.K] = f.V
		if _, ok := firstN[f.K]; !ok {
			firstN[f.K] = f.V
		}
	}
	back, err := m.MarshalDocument()
	if err != nil {
		c.Failf("MarshalDocument of map: %v", err)
	}
	if back.Len() != len(firstN) {
		c.Failf("map document has %d elements, want %d", back.Len(), len(firstN))
	}
	for e := range back.Iterator() {
		w := firstN[e.Key()]
		b, err := e.MarshalBSON()
		if w == nil || err != nil || !bytes.Equal(b, bm.EncodeElem(bm.F(e.Key(), w))) {
			c.Failf("map document element %q differs (%v)", e.Key(), err)
		}
	}
	raw, err := m.MarshalBSON()
	if err != nil {
		c.Failf("MarshalBSON of map: %v", err)
	}
	got, err := bm.DecodeDoc(raw)
	if err != nil || len(got) != len(firstN) {
		c.Failf("map encoding: %v, %d elements", err, len(got))
	}
	for _, f := range got {
		if w := firstN[f.K]; w == nil || !w.Equal(f.V) {
			c.Failf("map encoding element %q differs", f.K)
		}
	}
	cp := m.Copy()
	for k := range cp {
		delete(cp, k)
	}
	if len(m) != len(firstN) {
		c.Failf("deleting from a copy changed the map")
	}
	for name, load := range map[string]func(birch.DocumentMap) error{
		"UnmarshalDocument": func(dm birch.DocumentMap) error { return dm.UnmarshalDocument(d) },
		"UnmarshalBSON":     func(dm birch.DocumentMap) error { return dm.UnmarshalBSON(bm.EncodeFields(fs)) },
	} {
		dm := birch.DocumentMap{}
		if err := load(dm); err != nil || len(dm) != len(last) {
			c.Failf("%s: %v, %d keys want %d", name, err, len(dm), len(last))
		}
		for k, e := range dm {
			b, err := e.MarshalBSON()
			if e.Key() != k || err != nil {
				c.Failf("%s: map key %q holds element %q (%v)", name, k, e.Key(), err)
			}
			ok := false
			for _, f := range fs {
				ok = ok || f.K == k && bytes.Equal(b, bm.EncodeElem(f))
			}
			if !ok {
				c.Failf("%s: element %q is not one of the document's", name, k)
			}
		}
	}
	// a key that does not match its element is an error
	if len(fs) > 0 {
		bad := d.Map()
		k := keys.Draw(c.T, "badkey")
		if _, ok := bad[k]; !ok {
			bad[k] = bad[fs[0].K]
			if err := bad.Validate(); err == nil {
				c.Failf("map key %q holding element %q is valid", k, fs[0].K)
			}
			if _, err := bad.MarshalDocument(); err == nil {
				c.Failf("document built from mismatched map")
			}
		}
	}
	if len(fs) >= 2 {
		c.NonTrivial(bm.EncodeFields(fs))
	}
}

var jsonValues = []struct {
	text string
	n    *bm.Node
}{
	{"7", bm.NInt32(7)},
	{`"text"`, bm.NString("text")},
	{`{"x":[1,"a"],"x":null}`, bm.NDoc(bm.F("x", bm.NArray(bm.NInt32(1), bm.NString("a"))), bm.F("x", bm.NNull()))},
	{`[{"$symbol":"s"},true]`, bm.NArray(&bm.Node{T: bm.Symbol, S: "s"}, bm.NBool(true))},
	{`{}`, bm.NDoc()},
}

func main() {
	prop.Main(prop.Spec{
		ID:   "B03",
		Rule: "a history with at least 3 effective operations of at least 2 kinds (map views: at least 2 elements)",
		Assumptions: []string{
			"ExportMap and Unmarshal into a map are unspecified for duplicate keys and compared only for keys that occur once",
			"the emptiness of undefined values, and of values with an empty main part but non-empty options, scope or id, is unspecified",
		},
		Subs: []prop.Sub{
			{Name: "history", Quick: 32000, Thorough: 400000, Shards: 6, Steps: 25, Fn: history},
			{Name: "large", Quick: 600, Thorough: 20000, Shards: 2, Steps: 10, Fn: large},
			{Name: "map-views", Quick: 40000, Thorough: 400000, Fn: mapViews},
		},
	})
}
