package bm

import (
	"encoding/binary"
	"math"

	"pgregory.net/rapid"
)

// Site is a structurally interesting offset of an encoded document.
type Site struct {
	Kind string // doclen strlen binlen oldbinlen cwslen type key term strterm bool subtype
	Off  int
}

// Sites walks a valid encoding and lists every length field, type byte,
// terminator and restricted byte, at every depth.
func Sites(fs []Field) []Site {
	var out []Site
	siteDoc(fs, 0, false, &out)
	return out
}

func siteDoc(fs []Field, base int, array bool, out *[]Site) int {
	*out = append(*out, Site{"doclen", base})
	pos := base + 4
	enc := EncodeFields
	if array {
		enc = EncodeArray
	}
	// re-encode field by field to follow offsets
	for i := range fs {
		*out = append(*out, Site{"type", pos})
		one := enc(fs[i : i+1])
		klen := 0
		if array {
			full := EncodeArray(fs[:i+1])
			prev := EncodeArray(fs[:i])
			klen = len(full) - len(prev) - 2 - len(fs[i].V.Encode())
		} else {
			klen = len(one) - 7 - len(fs[i].V.Encode())
		}
		*out = append(*out, Site{"key", pos + 1 + klen})
		vpos := pos + 1 + klen + 1
		siteValue(fs[i].V, vpos, out)
		pos = vpos + len(fs[i].V.Encode())
	}
	*out = append(*out, Site{"term", pos})
	return pos + 1
}

func siteValue(n *Node, p int, out *[]Site) {
	switch n.T {
	case String, JS, Symbol, DBPointer:
		*out = append(*out, Site{"strlen", p}, Site{"strterm", p + 4 + len(n.S)})
	case Binary:
		*out = append(*out, Site{"binlen", p}, Site{"subtype", p + 4})
		if n.Sub == 2 {
			*out = append(*out, Site{"oldbinlen", p + 5})
		}
	case Bool:
		*out = append(*out, Site{"bool", p})
	case Doc:
		siteDoc(n.Kids, p, false, out)
	case Array:
		siteDoc(n.Kids, p, true, out)
	case CodeScope:
		*out = append(*out, Site{"cwslen", p}, Site{"strlen", p + 4}, Site{"strterm", p + 8 + len(n.S)})
		siteDoc(n.Kids, p+8+len(n.S)+1, false, out)
	case Regex:
		*out = append(*out, Site{"strterm", p + len(n.S)}, Site{"strterm", p + len(n.S) + 1 + len(n.S2)})
	}
}

// HostileLen draws a replacement for a length field.
func HostileLen(t *rapid.T, old int32, total int) int32 {
	return rapid.OneOf(
		rapid.SampledFrom([]int32{0, 1, 2, 3, 4, 5, 6, 7, 8, -1, -2, -4, -5, math.MaxInt32, math.MaxInt32 - 4, math.MaxInt32 - 8, math.MinInt32, math.MinInt32 + 4, 12, 13, 14, 16, 255, 256}),
		rapid.Map(rapid.Int32Range(-16, 16), func(d int32) int32 { return old + d }),
		rapid.Map(rapid.Int32Range(-16, 16), func(d int32) int32 { return int32(total) + d }),
		rapid.Int32(),
		rapid.Map(rapid.Int32Range(1, 64), func(d int32) int32 { return -d }),
	).Draw(t, "newlen")
}

// Mutate damages an encoded document: at structural sites (lengths, types,
// terminators) or anywhere, possibly several times, or truncates or extends it.
func Mutate(t *rapid.T, fs []Field, b []byte) ([]byte, string) {
	out := append([]byte(nil), b...)
	sites := Sites(fs)
	how := ""
	n := rapid.SampledFrom([]int{1, 1, 1, 1, 2, 3}).Draw(t, "nmut")
	for i := 0; i < n; i++ {
		switch k := rapid.IntRange(0, 9).Draw(t, "mut"); {
		case k <= 5:
			s := sites[rapid.IntRange(0, len(sites)-1).Draw(t, "site")]
			if s.Off >= len(out) {
				continue
			}
			how += s.Kind + " "
			switch s.Kind {
			case "doclen", "strlen", "binlen", "oldbinlen", "cwslen":
				if s.Off+4 <= len(out) {
					old := int32(binary.LittleEndian.Uint32(out[s.Off:]))
					LE32(out, s.Off, HostileLen(t, old, len(out)-s.Off))
				}
			case "type":
				out[s.Off] = rapid.OneOf(rapid.SampledFrom(append([]byte{0, 0x14, 0x80, 0xfe}, AllTypes...)), rapid.Byte()).Draw(t, "newtype")
			default:
				out[s.Off] = rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte{0, 1, 2, 5, 6, 0x7f, 0x80})).Draw(t, "newbyte")
			}
		case k == 6 && len(out) > 0:
			how += "truncate "
			out = out[:rapid.IntRange(0, len(out)-1).Draw(t, "cut")]
		case k == 7:
			how += "extend "
			out = append(out, rapid.SliceOfN(rapid.Byte(), 1, 8).Draw(t, "tail")...)
		case k == 8 && len(out) > 0:
			how += "byte "
			out[rapid.IntRange(0, len(out)-1).Draw(t, "at")] = rapid.Byte().Draw(t, "to")
		case k == 9 && len(out) > 0:
			i := rapid.IntRange(0, len(out)-1).Draw(t, "at")
			if rapid.Bool().Draw(t, "del") {
				how += "delete "
				out = append(out[:i], out[i+1:]...)
			} else {
				how += "insert "
				out = append(out[:i], append([]byte{rapid.Byte().Draw(t, "ins")}, out[i:]...)...)
			}
			if rapid.Bool().Draw(t, "fixlen") && len(out) >= 4 {
				LE32(out, 0, int32(len(out)))
				how += "fixlen "
			}
		}
	}
	return append(make([]byte, 0, len(out)), out...), how
}
