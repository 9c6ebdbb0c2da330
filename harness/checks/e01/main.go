// E01: low-level encoders write exactly their bytes or report an error.
package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/tychoish/birch/elements"
	"github.com/tychoish/birch/types"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/prop"
)

type encoder struct {
	name string
	f    func(start uint, w []byte) (int, error)
	want []byte
}

// encoders lists the calls that encode the element k: n, or its value.
func encoders(k string, n *bm.Node, element bool) encoder {
	e := encoder{want: n.Encode()}
	if element {
		e.want = bm.EncodeElem(bm.F(k, n))
	}
	set := func(name string, enc, elem func(uint, []byte) (int, error)) {
		e.name, e.f = name+".Encode", enc
		if element {
			e.name, e.f = name+".Element", elem
		}
	}
	scope := bm.EncodeFields(n.Kids)
	switch n.T {
	case bm.Double:
		v := math.Float64frombits(n.U)
		set("Double", func(s uint, w []byte) (int, error) { return elements.Double.Encode(s, w, v) }, func(s uint, w []byte) (int, error) { return elements.Double.Element(s, w, k, v) })
	case bm.String:
		set("String", func(s uint, w []byte) (int, error) { return elements.String.Encode(s, w, n.S) }, func(s uint, w []byte) (int, error) { return elements.String.Element(s, w, k, n.S) })
	case bm.Doc:
		set("Document", func(s uint, w []byte) (int, error) { return elements.Document.Encode(s, w, scope) }, func(s uint, w []byte) (int, error) { return elements.Document.Element(s, w, k, scope) })
	case bm.Array:
		set("Array", func(s uint, w []byte) (int, error) { return elements.Array.Encode(s, w, scope) }, func(s uint, w []byte) (int, error) { return elements.Array.Element(s, w, k, scope) })
	case bm.Binary:
		set("Binary", func(s uint, w []byte) (int, error) { return elements.Binary.Encode(s, w, n.B, n.Sub) }, func(s uint, w []byte) (int, error) { return elements.Binary.Element(s, w, k, n.B, n.Sub) })
	case bm.ObjectID:
		set("ObjectID", func(s uint, w []byte) (int, error) { return elements.ObjectID.Encode(s, w, n.OID) }, func(s uint, w []byte) (int, error) { return elements.ObjectID.Element(s, w, k, n.OID) })
	case bm.Bool:
		set("Boolean", func(s uint, w []byte) (int, error) { return elements.Boolean.Encode(s, w, n.U == 1) }, func(s uint, w []byte) (int, error) { return elements.Boolean.Element(s, w, k, n.U == 1) })
	case bm.DateTime:
		set("DateTime", func(s uint, w []byte) (int, error) { return elements.DateTime.Encode(s, w, int64(n.U)) }, func(s uint, w []byte) (int, error) { return elements.DateTime.Element(s, w, k, int64(n.U)) })
	case bm.Regex:
		set("Regex", func(s uint, w []byte) (int, error) { return elements.Regex.Encode(s, w, n.S, n.S2) }, func(s uint, w []byte) (int, error) { return elements.Regex.Element(s, w, k, n.S, n.S2) })
	case bm.DBPointer:
		set("DBPointer", func(s uint, w []byte) (int, error) { return elements.DBPointer.Encode(s, w, n.S, n.OID) }, func(s uint, w []byte) (int, error) { return elements.DBPointer.Element(s, w, k, n.S, n.OID) })
	case bm.JS:
		set("JavaScript", func(s uint, w []byte) (int, error) { return elements.JavaScript.Encode(s, w, n.S) }, func(s uint, w []byte) (int, error) { return elements.JavaScript.Element(s, w, k, n.S) })
	case bm.Symbol:
		set("Symbol", func(s uint, w []byte) (int, error) { return elements.Symbol.Encode(s, w, n.S) }, func(s uint, w []byte) (int, error) { return elements.Symbol.Element(s, w, k, n.S) })
	case bm.CodeScope:
		set("CodeWithScope", func(s uint, w []byte) (int, error) { return elements.CodeWithScope.Encode(s, w, n.S, scope) }, func(s uint, w []byte) (int, error) { return elements.CodeWithScope.Element(s, w, k, n.S, scope) })
	case bm.Int32:
		set("Int32", func(s uint, w []byte) (int, error) { return elements.Int32.Encode(s, w, int32(n.U)) }, func(s uint, w []byte) (int, error) { return elements.Int32.Element(s, w, k, int32(n.U)) })
	case bm.Timestamp:
		t, i := uint32(n.U>>32), uint32(n.U)
		set("Timestamp", func(s uint, w []byte) (int, error) { return elements.Timestamp.Encode(s, w, t, i) }, func(s uint, w []byte) (int, error) { return elements.Timestamp.Element(s, w, k, t, i) })
	case bm.Int64:
		set("Int64", func(s uint, w []byte) (int, error) { return elements.Int64.Encode(s, w, int64(n.U)) }, func(s uint, w []byte) (int, error) { return elements.Int64.Element(s, w, k, int64(n.U)) })
	case bm.Decimal:
		d := types.NewDecimal128(n.H, n.U)
		set("Decimal128", func(s uint, w []byte) (int, error) { return elements.Decimal128.Encode(s, w, d) }, func(s uint, w []byte) (int, error) { return elements.Decimal128.Element(s, w, k, d) })
	default: // types without content: their parts
		if element {
			e.name, e.want = "CString.Encode", append([]byte(k), 0)
			e.f = func(s uint, w []byte) (int, error) { return elements.CString.Encode(s, w, k) }
		} else {
			e.name, e.want = "Byte.Encode", []byte{n.T}
			e.f = func(s uint, w []byte) (int, error) { return elements.Byte.Encode(s, w, n.T) }
		}
	}
	return e
}

func encode(c *prop.C) {
	n := bm.GenNode(c.T, bm.Opts{MaxDepth: 2, MaxLen: 3}, 0)
	if rapid.IntRange(0, 9).Draw(c.T, "long") == 0 {
		l := rapid.IntRange(100, 70000).Draw(c.T, "longlen")
		switch n.T {
		case bm.String, bm.JS, bm.Symbol, bm.CodeScope, bm.DBPointer, bm.Regex:
			n.S = string(bytes.Repeat([]byte{'q'}, l))
		case bm.Binary:
			n.B = bytes.Repeat([]byte{0, 'q'}, l/2)
		}
	}
	k := bm.Key().Draw(c.T, "key")
	e := encoders(k, n, rapid.Bool().Draw(c.T, "element"))
	need := len(e.want)
	start := rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 40), rapid.IntRange(0, 3000)).Draw(c.T, "start")
	size := start + need
	switch rapid.IntRange(0, 3).Draw(c.T, "room") {
	case 0:
	case 1:
		size += rapid.IntRange(1, 40).Draw(c.T, "extra")
	case 2:
		size = rapid.IntRange(max(0, size-12), size-1).Draw(c.T, "short")
	case 3:
		size = rapid.IntRange(0, size-1).Draw(c.T, "size")
	}
	hidden := rapid.IntRange(0, 30).Draw(c.T, "capacity") // room past the end of the slice
	fill := rapid.Byte().Draw(c.T, "fill")
	buf := bytes.Repeat([]byte{fill}, size+hidden)
	s := uint(start)
	if rapid.IntRange(0, 19).Draw(c.T, "far") == 0 {
		s = uint(rapid.SampledFrom([]int{math.MaxInt32, math.MaxUint32, 1 << 40, 1 << 62}).Draw(c.T, "farstart"))
	}
	shown := n.String()
	if len(shown) > 300 {
		shown = shown[:300] + "..."
	}
	c.Note("%s key %q of %s at %d in a buffer of %d (needs %d), %d spare capacity", e.name, k, shown, s, size, need, hidden)
	c.Class(e.name)
	fits := int(s)+need <= size
	if fits {
		c.Class("fits")
	} else {
		c.Class("too small")
	}
	c.NonTrivial(fmt.Sprint(e.name, k, e.want, s, size))
	var got int
	var err error
	c.NoPanic(e.name, func() { got, err = e.f(s, buf[:size]) })
	if fits {
		if err != nil || got != need {
			c.Failf("returned %d, %v; want %d", got, err, need)
		}
	} else if err == nil {
		c.Failf("no error, returned %d", got)
	} else if got < 0 || got > need || (got > 0 && int(s)+got > size) {
		c.Failf("failed with %v and claims to have written %d bytes", err, got)
	}
	want := bytes.Repeat([]byte{fill}, size+hidden)
	if got > 0 {
		copy(want[s:], e.want[:got])
	}
	if !bytes.Equal(buf, want) {
		c.Failf("buffer after the call (returned %d, %v): %s", got, err, bm.Diff(buf, want))
	}
}

func main() {
	prop.Main(prop.Spec{
		ID:          "E01",
		Rule:        "every case (one encoder call); distinct by encoder, content, position and buffer size",
		Assumptions: []string{"keys, patterns and options contain no NUL byte", "start positions up to 2^62", "payloads below 2 GiB"},
		Subs:        []prop.Sub{{Name: "encode", Quick: 1200000, Thorough: 12000000, Shards: 4, Fn: encode}},
	})
}
