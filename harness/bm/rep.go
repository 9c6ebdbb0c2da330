package bm

import (
	"bytes"
	"fmt"

	"github.com/tychoish/birch"
	"pgregory.net/rapid"
)

// Rep builds an element for (k, n) through a randomly chosen representation:
// element constructors, value constructors plus re-keying, parsed bytes
// (possibly surrounded by other elements), parsed and expanded, and mixtures
// of these at every level of nesting.
func Rep(t *rapid.T, k string, n *Node) *birch.Element {
	switch rapid.IntRange(0, 7).Draw(t, "rep") {
	case 0:
		return ToElem(k, n)
	case 1:
		return birch.EC.Value(k, ToValue(n))
	case 2:
		return parsed(t, k, n, true)
	case 3:
		e := parsed(t, k, n, true)
		Expand(t, e.Value())
		return e
	case 4:
		return birch.EC.Value(k, parsed(t, "other", n, true).Value())
	case 5:
		// containers built from differently represented children
		return mixed(t, k, n)
	case 6:
		switch n.T {
		case Doc:
			return birch.EC.SubDocumentFromReader(k, EncodeFields(n.Kids))
		case Array:
			vs := []*birch.Value{}
			for _, f := range n.Kids {
				vs = append(vs, RepValue(t, f.V))
			}
			return birch.EC.ArrayFromElements(k, vs...)
		}
		return ToElem(k, n)
	default:
		e := birch.EC.Value(k, RepValue(t, n))
		return e
	}
}

func mixed(t *rapid.T, k string, n *Node) *birch.Element {
	switch n.T {
	case Doc:
		es := []*birch.Element{}
		for _, f := range n.Kids {
			es = append(es, Rep(t, f.K, f.V))
		}
		if rapid.Bool().Draw(t, "fromelems") {
			return birch.EC.SubDocumentFromElements(k, es...)
		}
		return birch.EC.SubDocument(k, birch.DC.Elements(es...))
	case Array:
		a := birch.NewArray()
		for _, f := range n.Kids {
			a.Append(RepValue(t, f.V))
		}
		return birch.EC.Array(k, a)
	case CodeScope:
		d := birch.DC.New()
		for _, f := range n.Kids {
			d.Append(Rep(t, f.K, f.V))
		}
		return birch.EC.CodeWithScope(k, n.S, d)
	}
	return ToElem(k, n)
}

// RepValue is Rep for values.
func RepValue(t *rapid.T, n *Node) *birch.Value {
	if rapid.Bool().Draw(t, "repv") {
		return ToValue(n)
	}
	return Rep(t, rapid.SampledFrom([]string{"", "k", "longer key"}).Draw(t, "repk"), n).Value()
}

func parsed(t *rapid.T, k string, n *Node, surround bool) *birch.Element {
	fs := []Field{{k, n}}
	idx := uint(0)
	if surround {
		if rapid.Bool().Draw(t, "before") {
			fs = append([]Field{{"p", NString("prefix")}}, fs...)
			idx = 1
		}
		if rapid.Bool().Draw(t, "after") {
			fs = append(fs, Field{"z", NInt64(-1)})
		}
	}
	d, err := birch.ReadDocument(EncodeFields(fs))
	if err != nil {
		panic(fmt.Sprintf("valid document rejected: %v: %s", err, Show(fs)))
	}
	return d.ElementAt(idx)
}

// Expand randomly expands nested lazy values.
func Expand(t *rapid.T, v *birch.Value) {
	switch byte(v.Type()) {
	case Doc:
		if rapid.Bool().Draw(t, "exp") {
			for e := range v.MutableDocument().Iterator() {
				Expand(t, e.Value())
			}
		}
	case Array:
		if rapid.Bool().Draw(t, "exp") {
			for e := range v.MutableArray().Iterator() {
				Expand(t, e)
			}
		}
	case CodeScope:
		if rapid.Bool().Draw(t, "exp") {
			_, d := v.MutableJavaScriptWithScope()
			for e := range d.Iterator() {
				Expand(t, e.Value())
			}
		}
	}
}

// RepDoc builds a whole document with mixed representations.
func RepDoc(t *rapid.T, fs []Field) *birch.Document {
	if rapid.Bool().Draw(t, "parsed") {
		d, err := birch.ReadDocument(EncodeFields(fs))
		if err != nil {
			panic(fmt.Sprintf("valid document rejected: %v: %s", err, Show(fs)))
		}
		for e := range d.Iterator() {
			Expand(t, e.Value())
		}
		return d
	}
	d := birch.DC.New()
	for _, f := range fs {
		d.Append(Rep(t, f.K, f.V))
	}
	return d
}

// Diff describes the first difference of two byte strings.
func Diff(got, want []byte) string {
	if bytes.Equal(got, want) {
		return "equal"
	}
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("differ at byte %d\n got %d bytes %x\nwant %d bytes %x", i, len(got), got, len(want), want)
}
