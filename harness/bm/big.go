package bm

import (
	"fmt"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// GenBig draws a document that crosses the sizes at which buffers, index keys
// and length prefixes change width: arrays and documents of thousands of
// values, payloads past 64 KiB, long keys and deep nesting. It returns a short
// description as the content is too long to print.
func GenBig(t *rapid.T) ([]Field, string) {
	return genBig(t, rapid.OneOf(rapid.IntRange(0, 300), rapid.SampledFrom([]int{9, 10, 11, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 2500})), rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, 60)))
}

// GenHuge is GenBig for numbers of values near the powers of ten and two at
// which index keys and offsets grow beyond those of GenBig.
func GenHuge(t *rapid.T) ([]Field, string) {
	near := rapid.Custom(func(t *rapid.T) int {
		return rapid.SampledFrom([]int{10000, 10000, 16384, 32768, 65536, 100000, 100000, 131072}).Draw(t, "around") + rapid.IntRange(-2, 2).Draw(t, "off")
	})
	return genBig(t, near, rapid.IntRange(0, 3))
}

func genBig(t *rapid.T, sizes, depths *rapid.Generator[int]) ([]Field, string) {
	lengths := rapid.OneOf(rapid.IntRange(0, 5000), rapid.SampledFrom([]int{127, 128, 255, 256, 257, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 70001, 131072}))
	n := sizes.Draw(t, "n")
	klen := rapid.SampledFrom([]int{0, 0, 0, 1, 20, 127, 128, 255, 256, 300}).Draw(t, "klen")
	if n > 300 && klen > 100 {
		klen = 20
	}
	salt := rapid.Uint64().Draw(t, "salt")
	long := lengths.Draw(t, "long")
	leaf := func(i int) *Node {
		x := salt*uint64(i+1) + uint64(i)*0x9e3779b97f4a7c15
		switch x >> 60 {
		case 0, 1, 2:
			return NInt64(int64(x))
		case 3, 4:
			return &Node{T: Double, U: 0x3ff0000000000000 | x>>12}
		case 5, 6:
			return NString(strings.Repeat("é", int(x>>8&15)))
		case 7:
			return NBool(x&1 == 1)
		case 8:
			return &Node{T: Binary, Sub: byte(x & 3), B: []byte(strconv.Itoa(i))}
		case 9:
			return NDoc(F("i", NInt32(int32(i))))
		case 10:
			return NArray(NInt32(int32(i)), NNull())
		case 11:
			return &Node{T: Decimal, U: x & 0xffffffff, H: 0x3040000000000000}
		default:
			return NInt32(int32(i))
		}
	}
	fs := make([]Field, n)
	for i := range fs {
		fs[i] = F(fmt.Sprintf("%0*d", klen, i), leaf(i))
	}
	kind := rapid.IntRange(0, 2).Draw(t, "kind")
	var node *Node
	if kind == 0 {
		node = NDoc(fs...)
	} else {
		vs := make([]*Node, n)
		for i := range vs {
			vs[i] = fs[i].V
		}
		node = NArray(vs...)
	}
	depth := depths.Draw(t, "depth")
	wraps := rapid.SliceOfN(rapid.IntRange(0, 2), depth, depth).Draw(t, "wraps")
	for _, w := range wraps {
		switch w {
		case 0:
			node = NDoc(F("k", node))
		case 1:
			node = NArray(NInt32(1), node)
		default:
			node = &Node{T: CodeScope, S: "code", Kids: []Field{F("s", node)}}
		}
	}
	ty := rapid.SampledFrom([]byte{String, JS, Symbol, Binary, CodeScope, Regex, DBPointer, Array}).Draw(t, "longtype")
	text := strings.Repeat("0123456789abcdef", long/16+1)[:long]
	l := &Node{T: ty}
	switch ty {
	case Binary:
		l.B, l.Sub = []byte(text), byte(rapid.IntRange(0, 5).Draw(t, "sub"))
	case CodeScope:
		l.S, l.Kids = text, []Field{F("a", NInt32(1))}
	case Regex:
		l.S, l.S2 = text, "i"
	case Array:
		l = NArray(NString(text), NInt32(2))
	default:
		l.S = text
	}
	top := []Field{F("deep", node), F("long", l), F("end", NInt32(7))}
	if rapid.Bool().Draw(t, "longfirst") {
		top[0], top[1] = top[1], top[0]
	}
	if rapid.IntRange(0, 3).Draw(t, "longkey") == 0 {
		top[1].K = strings.Repeat("k", lengths.Draw(t, "keylen"))
	}
	return top, fmt.Sprintf("%s of %d values, key width %d, wrapped by %v; %s of length %d", TypeName([]byte{Doc, Array, Array}[kind]), n, klen, wraps, TypeName(ty), long)
}
