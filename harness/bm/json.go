package bm

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math"
	"strconv"
	"time"

	"verif/harness/jm"
)

// Reserved are the first keys that mark extended JSON.
var Reserved = map[string]bool{"$minKey": true, "$maxKey": true, "$numberDecimal": true, "$timestamp": true, "$symbol": true, "$code": true,
	"$dbPointer": true, "$regularExpression": true, "$date": true, "$oid": true, "$undefined": true, "$binary": true}

// HasReserved reports a document whose first key is a reserved one.
func HasReserved(fs []Field) bool {
	if len(fs) > 0 && Reserved[fs[0].K] {
		return true
	}
	for _, f := range fs {
		switch f.V.T {
		case Doc, CodeScope:
			if HasReserved(f.V.Kids) {
				return true
			}
		case Array:
			for _, k := range f.V.Kids {
				if HasReserved([]Field{F("", k.V)}) {
					return true
				}
			}
		}
	}
	return false
}

// JSONDiff compares a JSON value with what the BSON value is written as.
// Decimals are compared by the caller (dec), dates by their instant.
func JSONDiff(j *jm.J, n *Node, dec func(text string, n *Node) bool) string {
	bad := func() string { return fmt.Sprintf("%s is written as %s", n, j) }
	str := func(j *jm.J, s string) bool { return j.K == 's' && j.S == s }
	wrap := func(key string) *jm.J {
		if j.K == 'o' && len(j.Keys) == 1 && j.Keys[0] == key {
			return j.Kids[0]
		}
		return nil
	}
	two := func(w *jm.J, a, b string) (*jm.J, *jm.J) {
		if w == nil || w.K != 'o' || len(w.Keys) != 2 {
			return nil, nil
		}
		if w.Keys[0] == a && w.Keys[1] == b {
			return w.Kids[0], w.Kids[1]
		}
		if w.Keys[0] == b && w.Keys[1] == a {
			return w.Kids[1], w.Kids[0]
		}
		return nil, nil
	}
	ok := false
	switch n.T {
	case Double:
		if j.K == 'n' {
			if v := jm.NumVal(j.S); v != nil {
				f, _ := v.Float64()
				ok = f == n.Float()
			}
		}
	case Int32:
		ok = j.K == 'n' && j.S == strconv.Itoa(int(int32(n.U)))
	case Int64:
		ok = j.K == 'n' && j.S == strconv.FormatInt(int64(n.U), 10)
	case String:
		ok = str(j, n.S)
	case Doc:
		if j.K != 'o' {
			return bad()
		}
		return JSONFieldsDiff(j, n.Kids, dec)
	case Array:
		if j.K != 'a' || len(j.Kids) != len(n.Kids) {
			return bad()
		}
		for i, k := range n.Kids {
			if m := JSONDiff(j.Kids[i], k.V, dec); m != "" {
				return fmt.Sprintf("[%d]: %s", i, m)
			}
		}
		return ""
	case Binary:
		if a, b := two(wrap("$binary"), "base64", "subType"); a != nil {
			data, err := base64.StdEncoding.DecodeString(a.S)
			st, err2 := strconv.ParseUint(b.S, 16, 8)
			ok = a.K == 's' && b.K == 's' && err == nil && err2 == nil && string(data) == string(n.B) && byte(st) == n.Sub
		}
	case Undefined:
		w := wrap("$undefined")
		ok = w != nil && w.K == 't'
	case ObjectID:
		w := wrap("$oid")
		ok = w != nil && str(w, hex.EncodeToString(n.OID[:]))
	case Bool:
		ok = j.K == "ft"[n.U]
	case DateTime:
		if w := wrap("$date"); w != nil && w.K == 's' {
			t, err := time.Parse(time.RFC3339Nano, w.S)
			ok = err == nil && t.Equal(time.UnixMilli(int64(n.U)))
		} else if w != nil && w.K == 'o' && len(w.Keys) == 1 && w.Keys[0] == "$numberLong" {
			ok = str(w.Kids[0], strconv.FormatInt(int64(n.U), 10))
		}
	case Null:
		ok = j.K == '0'
	case Regex:
		a, b := two(wrap("$regularExpression"), "pattern", "options")
		ok = a != nil && str(a, n.S) && str(b, n.S2)
	case DBPointer:
		a, b := two(wrap("$dbPointer"), "$ref", "$id")
		ok = a != nil && str(a, n.S) && str(b, hex.EncodeToString(n.OID[:]))
	case JS:
		w := wrap("$code")
		ok = w != nil && str(w, n.S)
	case Symbol:
		w := wrap("$symbol")
		ok = w != nil && str(w, n.S)
	case CodeScope:
		if j.K == 'o' && len(j.Keys) == 2 && j.Keys[0] == "$code" && j.Keys[1] == "$scope" && str(j.Kids[0], n.S) && j.Kids[1].K == 'o' {
			return JSONFieldsDiff(j.Kids[1], n.Kids, dec)
		}
	case Timestamp:
		a, b := two(wrap("$timestamp"), "t", "i")
		ok = a != nil && a.K == 'n' && b.K == 'n' && a.S == strconv.FormatUint(n.U>>32, 10) && b.S == strconv.FormatUint(n.U&math.MaxUint32, 10)
	case Decimal:
		w := wrap("$numberDecimal")
		ok = w != nil && w.K == 's' && dec(w.S, n)
	case MinKey:
		w := wrap("$minKey")
		ok = w != nil && w.K == 'n' && w.S == "1"
	case MaxKey:
		w := wrap("$maxKey")
		ok = w != nil && w.K == 'n' && w.S == "1"
	}
	if !ok {
		return bad()
	}
	return ""
}

// JSONFieldsDiff compares an object with a document.
func JSONFieldsDiff(j *jm.J, fs []Field, dec func(string, *Node) bool) string {
	if j.K != 'o' || len(j.Keys) != len(fs) {
		return fmt.Sprintf("%s is written as %s", Show(fs), j)
	}
	for i, f := range fs {
		if j.Keys[i] != f.K {
			return fmt.Sprintf("key %q is written as %q", f.K, j.Keys[i])
		}
		if m := JSONDiff(j.Kids[i], f.V, dec); m != "" {
			return fmt.Sprintf("%q: %s", f.K, m)
		}
	}
	return ""
}

// WeakNumber reports two numbers with the same value, whatever their types.
func WeakNumber(a, b *Node) bool {
	val := func(n *Node) (i int64, f float64, isInt, ok bool) {
		switch n.T {
		case Int32:
			return int64(int32(n.U)), 0, true, true
		case Int64:
			return int64(n.U), 0, true, true
		case Double:
			f := n.Float()
			if f == math.Trunc(f) && math.Abs(f) < 1<<63 {
				return int64(f), f, true, true
			}
			return 0, f, false, true
		}
		return 0, 0, false, false
	}
	ai, af, aint, aok := val(a)
	bi, bf, bint, bok := val(b)
	if !aok || !bok || aint != bint {
		return false
	}
	if aint {
		return ai == bi
	}
	return af == bf
}

// EqualWeak is Equal up to the types of numbers (and NaN decimals).
func EqualWeak(a, b *Node) bool {
	if WeakNumber(a, b) {
		return a.T == b.T || a.T == Double || b.T != Double
	}
	if a.T != b.T || len(a.Kids) != len(b.Kids) {
		return false
	}
	for i := range a.Kids {
		if a.T != Array && a.Kids[i].K != b.Kids[i].K || !EqualWeak(a.Kids[i].V, b.Kids[i].V) {
			return false
		}
	}
	x, y := *a, *b
	x.Kids, y.Kids = nil, nil
	return x.Equal(&y)
}

// CanonDecimal gives the canonical bits of the value of a decimal128.
func CanonDecimal(h, l uint64) (uint64, uint64) {
	sign := h & (1 << 63)
	switch h >> 58 & 31 {
	case 31:
		return 31 << 58, 0
	case 30:
		return sign | 30<<58, 0
	}
	if h>>61&3 == 3 {
		return sign | (h>>47&0x3fff)<<49, 0
	}
	const maxh, maxl = 0x1ed09bead87c0, 0x378d8e63ffffffff
	if c := h & (1<<49 - 1); c > maxh || c == maxh && l > maxl {
		return h &^ (1<<49 - 1), 0
	}
	return h, l
}

// Canon replaces every decimal by its canonical bits.
func Canon(n *Node) *Node {
	c := *n
	if n.T == Decimal {
		c.H, c.U = CanonDecimal(n.H, n.U)
	}
	c.Kids = CanonFields(n.Kids)
	return &c
}

// CanonFields is Canon of every field.
func CanonFields(fs []Field) []Field {
	if fs == nil {
		return nil
	}
	out := make([]Field, len(fs))
	for i, f := range fs {
		out[i] = F(f.K, Canon(f.V))
	}
	return out
}
