// B04: arrays behave as lists and always encode contiguous indices.
package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/tychoish/birch"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/prop"
)

type pair struct {
	a *birch.Array
	m []*bm.Node
}

var opts = bm.Opts{MaxDepth: 2, MaxLen: 3}

func check(c *prop.C, p *pair, when string) {
	want := bm.NArray(p.m...).Encode()
	if p.a.Len() != len(p.m) {
		c.Failf("%s: Len %d, model has %d", when, p.a.Len(), len(p.m))
	}
	got, err := p.a.MarshalBSON()
	if err != nil || !bytes.Equal(got, want) {
		c.Failf("%s: MarshalBSON (%v): %s\nmodel %s", when, err, bm.Diff(got, want), bm.NArray(p.m...))
	}
	if n, err := p.a.Validate(); err != nil || int(n) != len(want) {
		c.Failf("%s: Validate = %d, %v; want %d", when, n, err, len(want))
	}
	same := func(what string, v *birch.Value, n *bm.Node) {
		if v == nil {
			c.Failf("%s: %s is nil", when, what)
		}
		b, err := birch.EC.Value("k", v).MarshalBSON()
		if w := bm.EncodeElem(bm.F("k", n)); err != nil || !bytes.Equal(b, w) {
			c.Failf("%s: %s is %v (%v), want %s", when, what, v.Interface(), err, n)
		}
	}
	i := 0
	for v := range p.a.Iterator() {
		if i >= len(p.m) {
			c.Failf("%s: iterator yields more than %d values", when, len(p.m))
		}
		if len(p.m) < 30 || i%17 == 0 {
			same(fmt.Sprintf("iterated value %d", i), v, p.m[i])
		}
		if l, err := p.a.Lookup(uint(i)); err != nil || l != v {
			c.Failf("%s: Lookup(%d) = %v, %v is not the iterated value", when, i, l, err)
		}
		if e, err := p.a.LookupElemdent(uint(i)); err != nil || e.Value() != v {
			c.Failf("%s: element lookup of %d = %v, %v", when, i, e, err)
		}
		i++
	}
	if i != len(p.m) {
		c.Failf("%s: iterator yields %d of %d values", when, i, len(p.m))
	}
	if len(p.a.Interface()) != len(p.m) {
		c.Failf("%s: Interface has %d values, want %d", when, len(p.a.Interface()), len(p.m))
	}
	for _, i := range []uint{uint(len(p.m)), uint(len(p.m)) + 1, math.MaxInt32, math.MaxUint32, math.MaxUint} {
		if v, err := p.a.Lookup(i); err == nil || v != nil {
			c.Failf("%s: Lookup(%d) of %d values = %v, %v", when, i, len(p.m), v, err)
		}
		if e, err := p.a.LookupElemdent(i); err == nil || e != nil {
			c.Failf("%s: element lookup of %d of %d values = %v, %v", when, i, len(p.m), e, err)
		}
	}
}

// nestings encodes the array inside other values.
func nestings(c *prop.C, p *pair, when string) {
	arr := bm.NArray(p.m...)
	cases := []struct {
		name string
		d    *birch.Document
		w    []bm.Field
	}{
		{"document", birch.DC.Elements(birch.EC.Int32("x", 1), birch.EC.Array("key", p.a), birch.EC.Null("y")), []bm.Field{bm.F("x", bm.NInt32(1)), bm.F("key", arr), bm.F("y", bm.NNull())}},
		{"array in array", birch.DC.Elements(birch.EC.Array("o", birch.NewArray(birch.VC.Int32(1), birch.VC.Array(p.a)))), []bm.Field{bm.F("o", bm.NArray(bm.NInt32(1), arr))}},
		{"re-keyed value", birch.DC.Elements(birch.EC.Value("other", birch.VC.Array(p.a))), []bm.Field{bm.F("other", arr)}},
		{"sub-document", birch.DC.Elements(birch.EC.SubDocument("s", birch.DC.Elements(birch.EC.Array("", p.a)))), []bm.Field{bm.F("s", bm.NDoc(bm.F("", arr)))}},
		{"scope", birch.DC.Elements(birch.EC.CodeWithScope("s", "code", birch.DC.Elements(birch.EC.Array("arr", p.a)))), []bm.Field{bm.F("s", &bm.Node{T: bm.CodeScope, S: "code", Kids: []bm.Field{bm.F("arr", arr)}})}},
	}
	k := cases[rapid.IntRange(0, len(cases)-1).Draw(c.T, "nesting")]
	got, err := k.d.MarshalBSON()
	if w := bm.EncodeFields(k.w); err != nil || !bytes.Equal(got, w) {
		c.Failf("%s: encoding inside %s (%v): %s", when, k.name, err, bm.Diff(got, w))
	}
}

func newPair(c *prop.C) *pair {
	n := bm.GenOfType(c.T, opts, bm.Array, 0)
	p := &pair{}
	vs := []*birch.Value{}
	for _, f := range n.Kids {
		p.m = append(p.m, f.V)
		vs = append(vs, bm.RepValue(c.T, f.V))
	}
	switch rapid.IntRange(0, 3).Draw(c.T, "make") {
	case 0:
		p.a = birch.NewArray(vs...)
	case 1:
		p.a = birch.MakeArray(rapid.IntRange(0, 9).Draw(c.T, "cap")).Append(vs...)
	default:
		p.a = bm.Rep(c.T, "k", n).Value().MutableArray()
	}
	return p
}

func history(c *prop.C) {
	as := []*pair{newPair(c), newPair(c)}
	ops := 0
	kinds := map[string]bool{}
	op := func(k string) { ops++; kinds[k] = true }
	pick := func() *pair { return as[rapid.IntRange(0, 1).Draw(c.T, "which")] }
	for i, p := range as {
		c.Note("array %d: %s", i, bm.NArray(p.m...))
	}
	c.T.Repeat(map[string]func(*rapid.T){
		"append": func(t *rapid.T) {
			p := pick()
			var vs []*birch.Value
			for k := rapid.IntRange(0, 3).Draw(t, "n"); k > 0; k-- {
				n := bm.GenNode(t, opts, 1)
				p.m = append(p.m, n)
				vs = append(vs, bm.RepValue(t, n))
			}
			c.Note("append %d", len(vs))
			if p.a.Append(vs...) != p.a {
				c.Failf("Append returned another array")
			}
			for i := range vs {
				vs[i] = nil
			}
			op("append")
		},
		"bulk": func(t *rapid.T) {
			p := pick()
			if len(p.m) > 150 || rapid.IntRange(0, 7).Draw(t, "b") != 0 {
				return
			}
			n := rapid.OneOf(rapid.IntRange(8, 120), rapid.IntRange(120, 1400)).Draw(t, "n")
			c.Note("append %d integers", n)
			for i := 0; i < n; i++ {
				p.m = append(p.m, bm.NInt32(int32(i)))
				p.a.Append(birch.VC.Int32(int32(i)))
			}
			op("bulk")
		},
		"set": func(t *rapid.T) {
			p := pick()
			i := rapid.IntRange(0, len(p.m)+1).Draw(t, "i")
			n := bm.GenNode(t, opts, 1)
			c.Note("set %d %s", i, n)
			r, _ := prop.Catch(func() { p.a.Set(uint(i), bm.RepValue(t, n)) })
			if i >= len(p.m) {
				if r == nil {
					c.Failf("Set(%d) of %d values did not panic", i, len(p.m))
				}
				op("set-oob")
				return
			}
			if r != nil {
				c.Failf("Set(%d) of %d values panicked: %v", i, len(p.m), r)
			}
			m := append([]*bm.Node{}, p.m...)
			m[i] = n
			p.m = m
			op("set")
		},
		"set value": func(t *rapid.T) {
			p := pick()
			if len(p.m) == 0 {
				return
			}
			i := rapid.IntRange(0, len(p.m)-1).Draw(t, "i")
			n := bm.GenNode(t, opts, 1)
			c.Note("set value of %d %s", i, n)
			v, err := p.a.Lookup(uint(i))
			if err != nil {
				c.Failf("Lookup(%d) of %d values: %v", i, len(p.m), err)
			}
			for _, q := range as { // which may hold the same value
				m := append([]*bm.Node{}, q.m...)
				j := 0
				for o := range q.a.Iterator() {
					if o == v {
						m[j] = n
					}
					j++
				}
				q.m = m
			}
			v.Set(bm.RepValue(t, n))
			op("set value")
		},
		"delete": func(t *rapid.T) {
			p := pick()
			i := rapid.IntRange(0, len(p.m)+1).Draw(t, "i")
			c.Note("delete %d", i)
			v := p.a.Delete(uint(i))
			if i >= len(p.m) {
				if v != nil {
					c.Failf("Delete(%d) of %d values returned %v", i, len(p.m), v)
				}
				op("delete-oob")
				return
			}
			if v == nil {
				c.Failf("Delete(%d) of %d values returned nil", i, len(p.m))
			}
			b, err := birch.EC.Value("k", v).MarshalBSON()
			if w := bm.EncodeElem(bm.F("k", p.m[i])); err != nil || !bytes.Equal(b, w) {
				c.Failf("Delete(%d) returned %v, want %s", i, v.Interface(), p.m[i])
			}
			p.m = append(append([]*bm.Node{}, p.m[:i]...), p.m[i+1:]...)
			op("delete")
		},
		"extend": func(t *rapid.T) {
			p, q := pick(), pick()
			if len(p.m)+len(q.m) > 250 {
				return
			}
			c.Note("extend")
			p.m = append(append([]*bm.Node{}, p.m...), q.m...)
			if p.a.Extend(q.a) != p.a {
				c.Failf("Extend returned another array")
			}
			op("extend")
		},
		"extendFromDocument": func(t *rapid.T) {
			p := pick()
			fs := bm.GenFields(t, opts, 1)
			c.Note("extend from %s", bm.Show(fs))
			d := bm.RepDoc(t, fs)
			p.a.ExtendFromDocument(d)
			m := append([]*bm.Node{}, p.m...)
			for _, f := range fs {
				m = append(m, f.V)
			}
			p.m = m
			got, err := d.MarshalBSON()
			if w := bm.EncodeFields(fs); err != nil || !bytes.Equal(got, w) {
				c.Failf("source document changed (%v): %s", err, bm.Diff(got, w))
			}
			op("extenddoc")
		},
		"reset": func(t *rapid.T) {
			if rapid.IntRange(0, 3).Draw(t, "r") != 0 {
				return
			}
			p := pick()
			c.Note("reset")
			p.a.Reset()
			p.m = nil
			op("reset")
		},
		"nil": func(t *rapid.T) {
			p := pick()
			if r, _ := prop.Catch(func() { p.a.Append(nil) }); r == nil {
				c.Failf("appending nil did not panic")
			}
			op("nil")
		},
		"reparse": func(t *rapid.T) {
			p := pick()
			c.Note("reparse")
			d, err := birch.ReadDocument(bm.EncodeFields([]bm.Field{bm.F("a", bm.NArray(p.m...))}))
			if err != nil {
				c.Failf("reparse: %v", err)
			}
			p.a = d.Lookup("a").MutableArray()
			op("reparse")
		},
		"": func(t *rapid.T) {
			for i, p := range as {
				check(c, p, fmt.Sprintf("array %d", i))
				nestings(c, p, fmt.Sprintf("array %d", i))
			}
		},
	})
	big := 0
	for k := range kinds {
		c.Class("op-" + k)
	}
	for _, p := range as {
		big = max(big, len(p.m))
	}
	if big > 10 {
		c.Class("more than 10 values")
	}
	if big > 100 {
		c.Class("more than 100 values")
	}
	if ops >= 3 && len(kinds) >= 2 {
		c.NonTrivial(append(bm.NArray(as[0].m...).Encode(), bm.NArray(as[1].m...).Encode()...))
	}
}

// wide builds arrays around the sizes where the index gains a digit.
func wide(c *prop.C) {
	n := rapid.SampledFrom([]int{0, 1, 9, 10, 11, 99, 100, 101, 999, 1000, 1001, 9999, 10000, 10001}).Draw(c.T, "n")
	c.Note("%d values", n)
	p := &pair{a: birch.NewArray()}
	for i := 0; i < n; i++ {
		p.m = append(p.m, bm.NInt32(int32(i*7)))
		p.a.Append(birch.VC.Int32(int32(i * 7)))
	}
	check(c, p, "built")
	nestings(c, p, "built")
	if n > 0 {
		i := rapid.IntRange(0, n-1).Draw(c.T, "del")
		p.a.Delete(uint(i))
		p.m = append(append([]*bm.Node{}, p.m[:i]...), p.m[i+1:]...)
		check(c, p, "after delete")
		c.NonTrivial(fmt.Sprint(n, i))
	}
}

func main() {
	prop.Main(prop.Spec{
		ID:   "B04",
		Rule: "a history with at least 3 effective operations of at least 2 kinds, or a wide array with a deletion",
		Subs: []prop.Sub{
			{Name: "history", Quick: 12000, Thorough: 300000, Shards: 6, Steps: 25, Fn: history},
			{Name: "wide", Quick: 120, Thorough: 2000, Fn: wide},
		},
	})
}
