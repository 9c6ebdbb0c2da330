// L01: linked documents behave as ordered sequences of elements.
package main

import (
	"bytes"
	"fmt"
	"slices"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/blist"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/prop"
)

// compare checks everything the document says about itself.
func compare(c *prop.C, d *blist.Document, want []*birch.Element, bad map[*birch.Element]bool) {
	if d.Len() != len(want) {
		c.Failf("Len %d, want %d", d.Len(), len(want))
	}
	var got []*birch.Element
	for e := range d.IteratorFront() {
		if got = append(got, e); len(got) > len(want)+10 {
			c.Failf("iteration does not end: %v", got)
		}
	}
	if !slices.Equal(got, want) {
		c.Failf("elements %v, want %v", got, want)
	}
	got = nil
	for e := range d.IteratorBack() {
		if got = append(got, e); len(got) > len(want)+10 {
			c.Failf("backward iteration does not end: %v", got)
		}
	}
	slices.Reverse(got)
	if !slices.Equal(got, want) {
		c.Failf("elements from the back %v, want %v", got, want)
	}
	if len(want) > 0 && (d.Front().Value() != want[0] || d.Back().Value() != want[len(want)-1]) {
		c.Failf("ends %v %v, want %v", d.Front().Value(), d.Back().Value(), want)
	}
	size, err := d.Validate()
	invalid := false
	for _, e := range want {
		invalid = invalid || bad[e]
	}
	if invalid {
		c.Class("invalid content")
		if err == nil {
			c.Failf("validated invalid content %v", want)
		}
		return
	}
	b, e2 := birch.DC.Elements(want...).MarshalBSON()
	if err != nil || e2 != nil || int(size) != len(b) {
		c.Failf("Validate: %d %v; encoding has %d bytes, %v", size, err, len(b), e2)
	}
}

func panics(f func()) bool {
	r, _ := prop.Catch(f)
	return r != nil
}

func history(c *prop.C) {
	d := &blist.Document{}
	var want []*birch.Element
	var removed []*birch.Element
	bad := map[*birch.Element]bool{}
	contents := map[*birch.Element][]byte{}
	steps := 0
	opts := bm.Opts{MaxDepth: 2, MaxLen: 3, Keys: bm.SimpleKey()}
	elem := func(t *rapid.T) *birch.Element {
		k := rapid.SampledFrom([]string{"a", "b", "c", "d", ""}).Draw(t, "key")
		if rapid.IntRange(0, 120).Draw(t, "invalid") == 0 {
			e := birch.EC.Int32(k+"\x00z", 1)
			bad[e] = true
			return e
		}
		n := bm.GenNode(t, opts, 0)
		e := bm.Rep(t, k, n)
		contents[e] = bm.EncodeElem(bm.F(k, n))
		return e
	}
	elems := func(t *rapid.T) (out []*birch.Element) {
		for i := rapid.IntRange(0, 4).Draw(t, "n"); i > 0; i-- {
			out = append(out, elem(t))
		}
		return out
	}
	same := func(what string, got *blist.Document) {
		if got != d {
			c.Failf("%s returns another document", what)
		}
	}
	keys := []string{"a", "b", "c", "d", "", "e"}
	find := func(k string) int {
		return slices.IndexFunc(want, func(e *birch.Element) bool { return e.Key() == k })
	}
	c.Repeat(map[string]func(*rapid.T){
		"append": func(t *rapid.T) {
			es := elems(t)
			c.Note("append %v", es)
			same("Append", d.Append(es...))
			want = append(want, es...)
			steps++
		},
		"append non-empty": func(t *rapid.T) {
			es := elems(t)
			if rapid.Bool().Draw(t, "nil") {
				es = append(es, nil)
			}
			c.Note("append non-empty %v", es)
			same("AppendOmitEmpty", d.AppendOmitEmpty(es...))
			for _, e := range es {
				if e != nil && !e.Value().IsEmpty() {
					want = append(want, e)
				}
			}
			steps++
		},
		"prepend": func(t *rapid.T) {
			es := elems(t)
			c.Note("prepend %v", es)
			same("Prepend", d.Prepend(es...))
			want = append(slices.Clone(es), want...)
			steps++
		},
		"set": func(t *rapid.T) {
			e := elem(t)
			c.Note("set %v", e)
			same("Set", d.Set(e))
			if i := find(e.Key()); i >= 0 {
				c.Class("replaced")
				want[i] = e
			} else {
				want = append(want, e)
			}
			steps++
		},
		"delete": func(t *rapid.T) {
			k := rapid.SampledFrom(keys).Draw(t, "key")
			c.Note("delete %q", k)
			got := d.Delete(k)
			i := find(k)
			if i < 0 {
				if got != nil {
					c.Failf("deleting missing %q gives %v", k, got)
				}
				return
			}
			c.Class("deleted")
			if got != want[i] {
				c.Failf("deleting %q gives %v, want %v", k, got, want[i])
			}
			removed = append(removed, got)
			want = slices.Delete(want, i, i+1)
			steps++
		},
		"return": func(t *rapid.T) {
			if len(removed) == 0 {
				return
			}
			e := rapid.SampledFrom(removed).Draw(t, "removed")
			c.Note("append removed %v", e)
			d.Append(e)
			want = append(want, e)
		},
		"nil": func(t *rapid.T) {
			c.Note("nil elements")
			if !panics(func() { d.Append(nil) }) || !panics(func() { d.Prepend(nil) }) || !panics(func() { d.Set(nil) }) {
				c.Failf("nil elements are accepted")
			}
		},
		"pop": func(t *rapid.T) {
			front := rapid.Bool().Draw(t, "front")
			c.Note("pop front %v", front)
			e := d.PopBack
			i := len(want) - 1
			if front {
				e, i = d.PopFront, 0
			}
			x := e()
			if len(want) == 0 {
				if x.Ok() {
					c.Failf("popped %v of nothing", x.Value())
				}
				return
			}
			if !x.Ok() || x.Value() != want[i] {
				c.Failf("popped %v, want %v", x.Value(), want[i])
			}
			want = slices.Delete(want, i, i+1)
		},
		"copy": func(t *rapid.T) {
			c.Note("copy and change the copy")
			cp := &blist.Document{List: *d.List.Copy()}
			n := cp.Len()
			if n != len(want) {
				c.Failf("copy has %d elements", n)
			}
			cp.Prepend(birch.EC.Int32("copied", 1))
			cp.Delete("a")
		},
		"reset": func(t *rapid.T) {
			if rapid.IntRange(0, 5).Draw(t, "really") > 0 {
				return
			}
			c.Note("reset")
			d.Reset()
			want = nil
		},
		"": func(t *rapid.T) {
			compare(c, d, want, bad)
			for _, e := range want {
				if bad[e] {
					continue
				}
				b, err := birch.DC.Elements(e).MarshalBSON()
				if err != nil || !bytes.Equal(b[4:len(b)-1], contents[e]) {
					c.Failf("element changed: %v %v", e, err)
				}
			}
		},
	})
	if steps > 2 {
		c.NonTrivial(fmt.Sprint(want, steps))
	}
}

func main() {
	prop.Main(prop.Spec{
		ID:   "L01",
		Rule: "more than two operations that change the document; distinct by final content",
		Assumptions: []string{
			"the linked document has no encoder: its elements are encoded through an ordinary document",
		},
		Subs: []prop.Sub{
			{Name: "history", Quick: 24000, Thorough: 300000, Shards: 2, Steps: 30, HangIsViolation: true, Fn: history},
		},
	})
}
