package bm

import (
	"math"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// Opts tunes the generators.
type Opts struct {
	Types    []byte // allowed types (default all)
	MaxDepth int
	MaxLen   int
	Keys     *rapid.Generator[string]
	Strings  *rapid.Generator[string]
	NoNaN    bool
}

// InterestingInt64 draws integers with boundaries over-represented.
func InterestingInt64() *rapid.Generator[int64] {
	base := []int64{0, 1, -1, 2, -2, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536,
		math.MaxInt32 - 1, math.MaxInt32, math.MaxInt32 + 1, math.MaxInt32 + 2, math.MinInt32, math.MinInt32 - 1, math.MinInt32 + 1, math.MaxUint32, math.MaxUint32 + 1,
		math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1, 1 << 53, 1<<53 + 1, -(1 << 53) - 1, 1 << 62, 999, 1000, 1001, -999, -1000, -1001}
	return rapid.OneOf(rapid.SampledFrom(base), rapid.Int64(), rapid.Int64Range(-1000, 1000), rapid.Map(rapid.Int32(), func(i int32) int64 { return int64(i) }))
}

// interestingDate draws milliseconds, also around the first and last years
// that have four digits.
var interestingDate = rapid.OneOf(InterestingInt64(), InterestingInt64(), InterestingInt64(), rapid.Custom(func(t *rapid.T) int64 {
	year := rapid.SampledFrom([]int{-10000, -9999, -1000, -999, -1, 0, 1, 1000, 1900, 1970, 2000, 9999, 10000, 10001, 100000}).Draw(t, "year")
	return time.Date(year, 1, 1, 0, 0, 0, 0, time.UTC).UnixMilli() + rapid.OneOf(rapid.Int64Range(-3, 3), rapid.Int64Range(-86400000, 86400000), rapid.Int64Range(0, 365*86400000)).Draw(t, "after")
}))

// InterestingInt32 draws int32 values.
func InterestingInt32() *rapid.Generator[int32] {
	return rapid.OneOf(rapid.SampledFrom([]int32{0, 1, -1, math.MaxInt32, math.MinInt32, math.MaxInt32 - 1, math.MinInt32 + 1, 255, 256, 65536}), rapid.Int32(), rapid.Int32Range(-100, 100))
}

// InterestingFloat draws doubles, including special values.
func InterestingFloat(nan bool) *rapid.Generator[float64] {
	base := []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1.5, -2.25, 1e21, 1e-7, math.MaxFloat64, math.SmallestNonzeroFloat64, -math.MaxFloat64, 1 << 53, 1<<53 + 2, 1e15, 123456789.123456789, 1e300, 100, 1e6}
	if nan {
		base = append(base, math.NaN(), math.Inf(1), math.Inf(-1))
	}
	return rapid.OneOf(rapid.SampledFrom(base), rapid.Float64(), rapid.Map(rapid.Int32(), func(i int32) float64 { return float64(i) / 8 }),
		rapid.Map(rapid.Uint64(), func(u uint64) float64 {
			f := math.Float64frombits(u)
			if !nan && (math.IsNaN(f) || math.IsInf(f, 0)) {
				return float64(u)
			}
			return f
		}))
}

// Key draws keys without NUL bytes: short ones often (so that duplicates
// occur), sometimes empty, numeric, dotted, '$'-prefixed, unicode, long or raw bytes.
func Key() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.SampledFrom([]string{"a", "b", "c", "d", "e", "ab", "_id", "x", "y"}),
		rapid.SampledFrom([]string{"", "0", "1", "10", "00", "-1", "a.b", "$a", "$oid", "é", "日本", "a b", "\"", "\\", "'", "\t", "\n", "\x01", "<>&", "\u2028", "😀"}),
		rapid.StringMatching(`[a-z]{1,8}`),
		rapid.Map(rapid.SliceOfN(rapid.ByteRange(1, 255), 0, 6), func(b []byte) string { return string(b) }),
		rapid.Map(rapid.IntRange(20, 300), func(n int) string { return strings.Repeat("k", n) }),
	)
}

// SimpleKey draws readable non-empty keys.
func SimpleKey() *rapid.Generator[string] {
	return rapid.OneOf(rapid.SampledFrom([]string{"a", "b", "c", "d", "e", "f"}), rapid.StringMatching(`[a-z]{1,5}`))
}

// Str draws strings, NUL bytes included.
func Str() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.SampledFrom([]string{"", "a", "hello", "\x00", "a\x00b", "é", "日本語", "\"quoted\"", "\\", "\xff\xfe", "😀", "\u2028"}),
		rapid.StringMatching(`[ -~]{0,12}`),
		rapid.String(),
		rapid.Map(rapid.SliceOfN(rapid.Byte(), 0, 10), func(b []byte) string { return string(b) }),
		rapid.Map(rapid.IntRange(100, 700), func(n int) string { return strings.Repeat("s", n) }),
	)
}

// CStr draws strings without NUL bytes.
func CStr() *rapid.Generator[string] {
	return rapid.Map(Str(), func(s string) string { return strings.ReplaceAll(s, "\x00", "0") })
}

// BinSubtypes are the binary subtypes the library accepts.
func BinSubtypes() *rapid.Generator[byte] {
	return rapid.SampledFrom([]byte{0, 0, 1, 2, 2, 3, 4, 5, 0x80, 0x81, 0xff})
}

// Oid draws object ids.
func Oid(t *rapid.T) (o [12]byte) {
	copy(o[:], rapid.SliceOfN(rapid.Byte(), 12, 12).Draw(t, "oid"))
	return o
}

// GenNode draws one value.
func GenNode(t *rapid.T, o Opts, depth int) *Node {
	types := o.Types
	if types == nil {
		types = AllTypes
	}
	ty := rapid.SampledFrom(types).Draw(t, "type")
	if depth >= o.MaxDepth && (ty == Doc || ty == Array || ty == CodeScope) {
		// empty containers at the bottom
		n := &Node{T: ty, Kids: []Field{}}
		if ty == CodeScope {
			n.S = genS(t, o)
		}
		return n
	}
	return GenOfType(t, o, ty, depth)
}

func genS(t *rapid.T, o Opts) string {
	g := o.Strings
	if g == nil {
		g = Str()
	}
	return g.Draw(t, "s")
}

// GenOfType draws a value of one type.
func GenOfType(t *rapid.T, o Opts, ty byte, depth int) *Node {
	n := &Node{T: ty}
	switch ty {
	case Double:
		n.U = math.Float64bits(InterestingFloat(!o.NoNaN).Draw(t, "f"))
	case String, JS, Symbol:
		n.S = genS(t, o)
	case Doc:
		n.Kids = GenFields(t, o, depth+1)
	case Array:
		n.Kids = GenFields(t, o, depth+1)
		for i := range n.Kids {
			n.Kids[i].K = strconv.Itoa(i)
		}
	case CodeScope:
		n.S = genS(t, o)
		n.Kids = GenFields(t, o, depth+1)
	case Binary:
		n.Sub = BinSubtypes().Draw(t, "sub")
		n.B = rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "bin")
	case ObjectID:
		n.OID = Oid(t)
	case Bool:
		if rapid.Bool().Draw(t, "b") {
			n.U = 1
		}
	case DateTime:
		n.U = uint64(interestingDate.Draw(t, "i64"))
	case Int64:
		n.U = uint64(InterestingInt64().Draw(t, "i64"))
	case Int32:
		n.U = uint64(uint32(InterestingInt32().Draw(t, "i32")))
	case Timestamp:
		n.U = rapid.OneOf(rapid.Uint64(), rapid.Map(InterestingInt64(), func(i int64) uint64 { return uint64(i) })).Draw(t, "ts")
	case Decimal:
		n.U = rapid.Uint64().Draw(t, "dl")
		n.H = rapid.Uint64().Draw(t, "dh")
	case Regex:
		n.S = CStr().Draw(t, "pattern")
		n.S2 = rapid.OneOf(rapid.StringMatching(`[imsx]{0,4}`), CStr()).Draw(t, "options")
	case DBPointer:
		n.S = genS(t, o)
		n.OID = Oid(t)
	}
	return n
}

// GenFields draws a document.
func GenFields(t *rapid.T, o Opts, depth int) []Field {
	max := o.MaxLen
	if max == 0 {
		max = 6
	}
	if depth > 1 && max > 4 {
		max = 4
	}
	keys := o.Keys
	if keys == nil {
		keys = Key()
	}
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Field {
		return Field{keys.Draw(t, "key"), GenNode(t, o, depth)}
	}), 0, max).Draw(t, "fields")
}

// GenDoc draws a top-level document with default options.
func GenDoc(t *rapid.T, o Opts) []Field {
	if o.MaxDepth == 0 {
		o.MaxDepth = 4
	}
	return GenFields(t, o, 0)
}

// Perturb returns a copy of the value with one random logical change.
func Perturb(t *rapid.T, n *Node) *Node {
	c := n.Clone()
	if len(c.Kids) > 0 && rapid.Bool().Draw(t, "deep") {
		i := rapid.IntRange(0, len(c.Kids)-1).Draw(t, "kid")
		switch rapid.IntRange(0, 3).Draw(t, "how") {
		case 0:
			if c.T != Array {
				c.Kids[i].K += "x"
				return c
			}
		case 1:
			c.Kids = append(c.Kids[:i:i], c.Kids[i+1:]...)
			return c
		case 2:
			if len(c.Kids) > 1 {
				j := (i + 1) % len(c.Kids)
				c.Kids[i], c.Kids[j] = c.Kids[j], c.Kids[i]
				return c
			}
		}
		c.Kids[i].V = Perturb(t, c.Kids[i].V)
		return c
	}
	switch c.T {
	case Double, DateTime, Int64, Timestamp:
		c.U ^= 1 << rapid.IntRange(0, 63).Draw(t, "bit")
	case Int32:
		c.U ^= 1 << rapid.IntRange(0, 31).Draw(t, "bit")
	case Decimal:
		if rapid.Bool().Draw(t, "hi") {
			c.H ^= 1 << rapid.IntRange(0, 63).Draw(t, "bit")
		} else {
			c.U ^= 1 << rapid.IntRange(0, 63).Draw(t, "bit")
		}
	case Bool:
		c.U ^= 1
	case String, JS, Symbol:
		c.S = perturbStr(t, c.S)
	case CodeScope:
		c.S = perturbStr(t, c.S)
	case Regex:
		if rapid.Bool().Draw(t, "opts") {
			c.S2 += "q"
		} else {
			c.S += "q"
		}
	case DBPointer:
		if rapid.Bool().Draw(t, "oid") {
			c.OID[rapid.IntRange(0, 11).Draw(t, "ob")] ^= 1
		} else {
			c.S = perturbStr(t, c.S)
		}
	case ObjectID:
		c.OID[rapid.IntRange(0, 11).Draw(t, "ob")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
	case Binary:
		if rapid.Bool().Draw(t, "sub") {
			if c.Sub == 0 {
				c.Sub = 5
			} else {
				c.Sub = 0
			}
		} else if len(c.B) > 0 {
			c.B[rapid.IntRange(0, len(c.B)-1).Draw(t, "bb")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		} else {
			c.B = append(c.B, 0)
		}
	case Doc, Array:
		c.Kids = append(c.Kids, Field{strconv.Itoa(len(c.Kids)), NNull()})
	case Null:
		c.T = Undefined
	case Undefined:
		c.T = Null
	case MinKey:
		c.T = MaxKey
	case MaxKey:
		c.T = MinKey
	}
	return c
}

func perturbStr(t *rapid.T, s string) string {
	if len(s) == 0 {
		return "\x00"
	}
	b := []byte(s)
	i := rapid.IntRange(0, len(b)-1).Draw(t, "sb")
	if rapid.Bool().Draw(t, "drop") {
		return string(append(b[:i:i], b[i+1:]...))
	}
	b[i] ^= 1
	return string(b)
}
