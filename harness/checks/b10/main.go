// B10: path lookup finds exactly the addressed element.
package main

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/tychoish/birch"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/prop"
)

var keys = rapid.OneOf(rapid.SampledFrom([]string{"a", "b", "c", "0", "1", "2"}), rapid.SampledFrom([]string{"a", "b", "", "10", "-1", "a.b", "é"}), bm.Key())

var types = []byte{bm.Doc, bm.Doc, bm.Doc, bm.Array, bm.Array, bm.Array, bm.Int32, bm.String, bm.CodeScope, bm.Null, bm.Double}

// genTree draws documents with deep container nesting.
func genTree(t *rapid.T, depth int) []bm.Field {
	n := rapid.IntRange(0, 4).Draw(t, "n")
	if depth == 0 {
		n++
	}
	fs := []bm.Field{}
	for i := 0; i < n; i++ {
		fs = append(fs, bm.F(keys.Draw(t, "k"), genVal(t, depth+1)))
	}
	return fs
}

func genVal(t *rapid.T, depth int) *bm.Node {
	ty := rapid.SampledFrom(types).Draw(t, "ty")
	if depth > 5 && (ty == bm.Doc || ty == bm.Array) {
		ty = bm.Int32
	}
	switch ty {
	case bm.Doc:
		return bm.NDoc(genTree(t, depth)...)
	case bm.Array:
		vs := []*bm.Node{}
		top := 4
		if rapid.IntRange(0, 15).Draw(t, "long") == 0 {
			top = 13
		}
		for k := rapid.IntRange(0, top).Draw(t, "n"); k > 0; k-- {
			vs = append(vs, genVal(t, depth+1))
		}
		return bm.NArray(vs...)
	case bm.CodeScope:
		return &bm.Node{T: bm.CodeScope, S: "code", Kids: genTree(t, 6)}
	}
	return bm.GenOfType(t, bm.Opts{}, ty, 3)
}

// resolve follows the path in the model. settled is false for array indices
// in a non-canonical spelling ("+1", "01"), whose meaning is not documented.
func resolve(n *bm.Node, path []string) (f *bm.Node, settled bool) {
	if len(path) == 0 {
		return n, true
	}
	switch n.T {
	case bm.Doc:
		for _, k := range n.Kids {
			if k.K == path[0] {
				return resolve(k.V, path[1:])
			}
		}
		return nil, true
	case bm.Array:
		i, err := strconv.Atoi(path[0])
		if err != nil {
			return nil, true
		}
		if strconv.Itoa(i) != path[0] {
			return nil, false
		}
		if i < 0 || i >= len(n.Kids) {
			return nil, true
		}
		return resolve(n.Kids[i].V, path[1:])
	}
	return nil, true
}

func genPath(t *rapid.T, n *bm.Node) []string {
	var p []string
	full := rapid.IntRange(0, 3).Draw(t, "full") == 0 // to the end
	for {
		stop := rapid.IntRange(0, 4).Draw(t, "step")
		if len(n.Kids) == 0 || n.T == bm.CodeScope || (len(p) > 0 && stop == 0 && !full) {
			break
		}
		i := rapid.IntRange(0, len(n.Kids)-1).Draw(t, "i")
		if len(n.Kids) > 8 && stop > 1 {
			for j, f := range n.Kids {
				if len(f.V.Kids) > 0 {
					i = j
				}
			}
		}
		k := n.Kids[i].K
		if n.T == bm.Array {
			k = strconv.Itoa(i)
		}
		p = append(p, k)
		n = n.Kids[i].V
	}
	switch rapid.IntRange(0, 4).Draw(t, "twist") {
	case 0: // one step further
		p = append(p, rapid.SampledFrom([]string{"a", "0", "1", "-1", "", "x", "99", "00", "+0", "18446744073709551616", "9223372036854775807", "4294967296"}).Draw(t, "further"))
	case 1: // change one step
		if len(p) > 0 {
			q := append([]string{}, p...)
			i := rapid.IntRange(0, len(q)-1).Draw(t, "ci")
			q[i] = rapid.OneOf(rapid.SampledFrom([]string{"missing", "0", "1", "-1", "-0", "5", "x", "", " 0", "0x0", "4294967295", "4294967296", "-9223372036854775808"}), keys).Draw(t, "changed")
			p = q
		}
	}
	return p
}

func lookup(c *prop.C) { run(c, genTree(c.T, 0)) }

// wide: elements at positions past small bounds, in documents and arrays, and
// paths through many levels.
func wide(c *prop.C) {
	size := func() int {
		return rapid.OneOf(rapid.IntRange(50, 400), rapid.SampledFrom([]int{9, 10, 11, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000, 1001})).Draw(c.T, "size")
	}
	fs := genTree(c.T, 1)
	for levels := rapid.OneOf(rapid.IntRange(1, 3), rapid.IntRange(1, 40)).Draw(c.T, "levels"); levels > 0; levels-- {
		n := size()
		if levels > 3 {
			n = rapid.IntRange(0, 3).Draw(c.T, "n")
		}
		at := rapid.OneOf(rapid.IntRange(0, n), rapid.IntRange(max(0, n-2), n)).Draw(c.T, "at")
		array := rapid.Bool().Draw(c.T, "array")
		inner := bm.NDoc(fs...)
		fs = nil
		vs := []*bm.Node{}
		for i := 0; i <= n; i++ {
			v := bm.NInt32(int32(i))
			if i == at {
				v = inner
			}
			vs = append(vs, v)
			fs = append(fs, bm.F(strconv.Itoa(i*3), v))
		}
		if array {
			fs = []bm.Field{bm.F(keys.Draw(c.T, "k"), bm.NArray(vs...))}
		}
	}
	c.Class("wide")
	run(c, fs)
}

func run(c *prop.C, fs []bm.Field) {
	root := bm.NDoc(fs...)
	c.Note("doc %s", bm.Show(fs))
	raw := bm.EncodeFields(fs)
	d := bm.RepDoc(c.T, fs)
	deep := 0
	for k := 0; k < 4; k++ {
		p := genPath(c.T, root)
		if len(p) == 0 {
			continue
		}
		c.Note("path %q", p)
		want, settled := resolve(root, p)
		if !settled {
			continue
		}
		deep = max(deep, len(p))
		check := func(api string, e *birch.Element, err error) {
			if want == nil {
				if err == nil || e != nil {
					c.Failf("%s(%q) found %v (%v), but the path does not resolve", api, p, e, err)
				}
				return
			}
			if err != nil || e == nil {
				c.Failf("%s(%q): %v, but the path leads to %s", api, p, err, want)
			}
			b, err := e.MarshalBSON()
			if w := bm.EncodeElem(bm.F(p[len(p)-1], want)); err != nil || !bytes.Equal(b, w) {
				c.Failf("%s(%q) = %v (%v), want %s", api, p, e, err, want)
			}
		}
		c.NoPanic(fmt.Sprintf("Search(%q)", p), func() {
			e, err := d.Search(p...)
			check("Document.Search", e, err)
		})
		c.NoPanic(fmt.Sprintf("RecursiveLookup(%q)", p), func() {
			e, err := birch.Reader(raw).RecursiveLookup(p...)
			check("Reader.RecursiveLookup", e, err)
		})
		c.NoPanic("again", func() { // the first lookup may have expanded nested values
			e, err := d.Search(p...)
			check("second Document.Search", e, err)
		})
		if want != nil {
			c.Class(fmt.Sprintf("found at depth %d", len(p)))
		} else {
			c.Class("not found")
		}
	}
	if e, err := d.Search(); err == nil || e != nil {
		c.Failf("Search of an empty path found %v", e)
	}
	if e, err := birch.Reader(raw).RecursiveLookup(); err == nil || e != nil {
		c.Failf("RecursiveLookup of an empty path found %v", e)
	}
	if e, err := (*birch.Document)(nil).Search("a"); err == nil || e != nil {
		c.Failf("Search of a nil document found %v", e)
	}
	// positional access agrees with iteration
	i := uint(0)
	for e, err := range birch.Reader(raw).Iterator() {
		if err != nil {
			c.Failf("iterating: %v", err)
		}
		x, err := birch.Reader(raw).ElementAt(i)
		if err != nil || !x.Equal(e) || x.Key() != fs[i].K {
			c.Failf("Reader.ElementAt(%d) = %v, %v; iteration gives %v", i, x, err, e)
		}
		if y := d.ElementAt(i); !y.Equal(e) {
			c.Failf("Document.ElementAt(%d) = %v; the reader has %v", i, y, e)
		}
		i++
	}
	if int(i) != len(fs) {
		c.Failf("iterated %d of %d elements", i, len(fs))
	}
	for _, i := range []uint{uint(len(fs)), uint(len(fs) + 1), math.MaxUint32, math.MaxUint} {
		if e, err := birch.Reader(raw).ElementAt(i); err == nil || e != nil {
			c.Failf("Reader.ElementAt(%d) of %d elements = %v, %v", i, len(fs), e, err)
		}
	}
	if deep >= 2 {
		c.NonTrivial(string(raw) + strings.Repeat("x", deep))
	}
}

func main() {
	prop.Main(prop.Spec{
		ID:   "B10",
		Rule: "a path of at least two steps",
		Assumptions: []string{
			"array indices in a non-canonical spelling (+1, 01, -0) are not judged",
		},
		Subs: []prop.Sub{
			{Name: "lookup", Quick: 150000, Thorough: 3000000, Shards: 6, Fn: lookup},
			{Name: "wide", Quick: 3000, Thorough: 60000, Shards: 2, Fn: wide},
		},
	})
}
