// Package bm is an independent reference model of BSON: a value tree, an
// encoder and a strict decoder written from bsonspec.org, sharing no code with
// the library under test.
package bm

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"
)

// BSON type bytes.
const (
	Double    = 0x01
	String    = 0x02
	Doc       = 0x03
	Array     = 0x04
	Binary    = 0x05
	Undefined = 0x06
	ObjectID  = 0x07
	Bool      = 0x08
	DateTime  = 0x09
	Null      = 0x0A
	Regex     = 0x0B
	DBPointer = 0x0C
	JS        = 0x0D
	Symbol    = 0x0E
	CodeScope = 0x0F
	Int32     = 0x10
	Timestamp = 0x11
	Int64     = 0x12
	Decimal   = 0x13
	MinKey    = 0xFF
	MaxKey    = 0x7F
)

// AllTypes lists every element type.
var AllTypes = []byte{Double, String, Doc, Array, Binary, Undefined, ObjectID, Bool, DateTime, Null, Regex, DBPointer, JS, Symbol, CodeScope, Int32, Timestamp, Int64, Decimal, MinKey, MaxKey}

// Node is one BSON value.
type Node struct {
	T    byte
	U    uint64 // double bits, int32, int64, datetime, bool; decimal low; timestamp (t<<32|i)
	H    uint64 // decimal high
	S    string // string-like content, regex pattern, dbpointer namespace, code
	S2   string // regex options
	B    []byte // binary content
	Sub  byte   // binary subtype
	OID  [12]byte
	Kids []Field // document, array (keys ignored) and scope
}

// Field is one key/value pair.
type Field struct {
	K string
	V *Node
}

func le32(b []byte, v int32) []byte  { return binary.LittleEndian.AppendUint32(b, uint32(v)) }
func le64(b []byte, v uint64) []byte { return binary.LittleEndian.AppendUint64(b, v) }
func cstr(b []byte, s string) []byte { return append(append(b, s...), 0) }
func lstr(b []byte, s string) []byte { return cstr(le32(b, int32(len(s)+1)), s) }

// EncodeFields encodes a document.
func EncodeFields(fs []Field) []byte {
	out := []byte{0, 0, 0, 0}
	for _, f := range fs {
		out = append(out, f.V.T)
		out = cstr(out, f.K)
		out = append(out, f.V.Encode()...)
	}
	out = append(out, 0)
	binary.LittleEndian.PutUint32(out, uint32(len(out)))
	return out
}

// EncodeArray encodes an array: the keys are the indices.
func EncodeArray(fs []Field) []byte {
	ks := make([]Field, len(fs))
	for i, f := range fs {
		ks[i] = Field{K: strconv.Itoa(i), V: f.V}
	}
	return EncodeFields(ks)
}

// EncodeElem encodes type byte, key and value.
func EncodeElem(f Field) []byte {
	return append(cstr([]byte{f.V.T}, f.K), f.V.Encode()...)
}

// Encode returns the value bytes (without type and key).
func (n *Node) Encode() []byte {
	switch n.T {
	case Double, DateTime, Int64:
		return le64(nil, n.U)
	case Timestamp:
		return le64(nil, n.U)
	case Decimal:
		return le64(le64(nil, n.U), n.H)
	case Int32:
		return le32(nil, int32(n.U))
	case Bool:
		return []byte{byte(n.U)}
	case String, JS, Symbol:
		return lstr(nil, n.S)
	case Doc:
		return EncodeFields(n.Kids)
	case Array:
		return EncodeArray(n.Kids)
	case Binary:
		if n.Sub == 2 {
			b := le32(nil, int32(len(n.B)+4))
			b = append(b, 2)
			b = le32(b, int32(len(n.B)))
			return append(b, n.B...)
		}
		b := append(le32(nil, int32(len(n.B))), n.Sub)
		return append(b, n.B...)
	case ObjectID:
		return append([]byte(nil), n.OID[:]...)
	case Regex:
		return cstr(cstr(nil, n.S), n.S2)
	case DBPointer:
		return append(lstr(nil, n.S), n.OID[:]...)
	case CodeScope:
		inner := append(lstr(nil, n.S), EncodeFields(n.Kids)...)
		return append(le32(nil, int32(len(inner)+4)), inner...)
	case Null, Undefined, MinKey, MaxKey:
		return nil
	}
	panic(fmt.Sprintf("bad node type %x", n.T))
}

var errBad = errors.New("malformed BSON")

// DecodeDoc strictly decodes exactly one document occupying all of b.
func DecodeDoc(b []byte) ([]Field, error) { return decodeDoc(b, 0) }

func decodeDoc(b []byte, depth int) ([]Field, error) {
	if len(b) < 5 {
		return nil, fmt.Errorf("%w: document shorter than 5 bytes", errBad)
	}
	l := int32(binary.LittleEndian.Uint32(b))
	if int64(l) != int64(len(b)) {
		return nil, fmt.Errorf("%w: length %d, have %d", errBad, l, len(b))
	}
	if b[len(b)-1] != 0 {
		return nil, fmt.Errorf("%w: no terminator", errBad)
	}
	pos, end := 4, len(b)-1
	fs := []Field{}
	for pos < end {
		t := b[pos]
		if t == 0 {
			return nil, fmt.Errorf("%w: terminator before end", errBad)
		}
		pos++
		i := bytes.IndexByte(b[pos:end], 0)
		if i < 0 {
			return nil, fmt.Errorf("%w: key not terminated", errBad)
		}
		k := string(b[pos : pos+i])
		pos += i + 1
		v, n, err := decodeValue(t, b[pos:end], depth)
		if err != nil {
			return nil, fmt.Errorf("%q: %w", k, err)
		}
		pos += n
		fs = append(fs, Field{k, v})
	}
	return fs, nil
}

func decodeString(b []byte) (string, int, error) {
	if len(b) < 5 {
		return "", 0, fmt.Errorf("%w: short string", errBad)
	}
	l := int32(binary.LittleEndian.Uint32(b))
	if l < 1 || int64(l) > int64(len(b)-4) {
		return "", 0, fmt.Errorf("%w: string length %d", errBad, l)
	}
	if b[4+l-1] != 0 {
		return "", 0, fmt.Errorf("%w: string terminator", errBad)
	}
	return string(b[4 : 4+l-1]), int(4 + l), nil
}

func decodeValue(t byte, b []byte, depth int) (*Node, int, error) {
	n := &Node{T: t}
	need := func(k int) error {
		if len(b) < k {
			return fmt.Errorf("%w: need %d bytes have %d", errBad, k, len(b))
		}
		return nil
	}
	switch t {
	case Null, Undefined, MinKey, MaxKey:
		return n, 0, nil
	case Double, DateTime, Int64, Timestamp:
		if err := need(8); err != nil {
			return nil, 0, err
		}
		n.U = binary.LittleEndian.Uint64(b)
		return n, 8, nil
	case Decimal:
		if err := need(16); err != nil {
			return nil, 0, err
		}
		n.U = binary.LittleEndian.Uint64(b)
		n.H = binary.LittleEndian.Uint64(b[8:])
		return n, 16, nil
	case Int32:
		if err := need(4); err != nil {
			return nil, 0, err
		}
		n.U = uint64(uint32(binary.LittleEndian.Uint32(b)))
		return n, 4, nil
	case Bool:
		if err := need(1); err != nil {
			return nil, 0, err
		}
		if b[0] > 1 {
			return nil, 0, fmt.Errorf("%w: boolean %d", errBad, b[0])
		}
		n.U = uint64(b[0])
		return n, 1, nil
	case String, JS, Symbol:
		s, k, err := decodeString(b)
		n.S = s
		return n, k, err
	case ObjectID:
		if err := need(12); err != nil {
			return nil, 0, err
		}
		copy(n.OID[:], b)
		return n, 12, nil
	case Regex:
		i := bytes.IndexByte(b, 0)
		if i < 0 {
			return nil, 0, fmt.Errorf("%w: regex", errBad)
		}
		j := bytes.IndexByte(b[i+1:], 0)
		if j < 0 {
			return nil, 0, fmt.Errorf("%w: regex", errBad)
		}
		n.S, n.S2 = string(b[:i]), string(b[i+1:i+1+j])
		return n, i + j + 2, nil
	case DBPointer:
		s, k, err := decodeString(b)
		if err != nil {
			return nil, 0, err
		}
		if err := need(k + 12); err != nil {
			return nil, 0, err
		}
		n.S = s
		copy(n.OID[:], b[k:])
		return n, k + 12, nil
	case Binary:
		if err := need(5); err != nil {
			return nil, 0, err
		}
		l := int32(binary.LittleEndian.Uint32(b))
		if l < 0 || int64(l) > int64(len(b)-5) {
			return nil, 0, fmt.Errorf("%w: binary length", errBad)
		}
		n.Sub = b[4]
		body := b[5 : 5+l]
		if n.Sub == 2 {
			if len(body) < 4 || int64(int32(binary.LittleEndian.Uint32(body))) != int64(len(body)-4) {
				return nil, 0, fmt.Errorf("%w: old binary inner length", errBad)
			}
			body = body[4:]
		}
		n.B = append([]byte{}, body...)
		return n, int(5 + l), nil
	case Doc, Array:
		if err := need(5); err != nil {
			return nil, 0, err
		}
		l := int32(binary.LittleEndian.Uint32(b))
		if l < 5 || int64(l) > int64(len(b)) {
			return nil, 0, fmt.Errorf("%w: subdocument length", errBad)
		}
		fs, err := decodeDoc(b[:l], depth+1)
		n.Kids = fs
		return n, int(l), err
	case CodeScope:
		if err := need(14); err != nil {
			return nil, 0, err
		}
		l := int32(binary.LittleEndian.Uint32(b))
		if l < 14 || int64(l) > int64(len(b)) {
			return nil, 0, fmt.Errorf("%w: code with scope length", errBad)
		}
		s, k, err := decodeString(b[4:l])
		if err != nil {
			return nil, 0, err
		}
		fs, err := decodeDoc(b[4+k:l], depth+1)
		n.S, n.Kids = s, fs
		return n, int(l), err
	}
	return nil, 0, fmt.Errorf("%w: unknown type 0x%02x", errBad, t)
}

// Equal compares logical content (doubles by bits, array keys ignored).
func (n *Node) Equal(m *Node) bool {
	if n == nil || m == nil {
		return n == m
	}
	return n.T == m.T && bytes.Equal(n.Encode(), m.Encode())
}

// FieldsEqual compares documents.
func FieldsEqual(a, b []Field) bool { return bytes.Equal(EncodeFields(a), EncodeFields(b)) }

// Clone deep-copies.
func (n *Node) Clone() *Node {
	c := *n
	c.B = append([]byte(nil), n.B...)
	c.Kids = CloneFields(n.Kids)
	return &c
}

// CloneFields deep-copies.
func CloneFields(fs []Field) []Field {
	if fs == nil {
		return nil
	}
	out := make([]Field, len(fs))
	for i, f := range fs {
		out[i] = Field{f.K, f.V.Clone()}
	}
	return out
}

// Depth returns nesting depth (0 for scalars).
func (n *Node) Depth() int {
	d := 0
	for _, k := range n.Kids {
		if x := k.V.Depth() + 1; x > d {
			d = x
		}
	}
	if len(n.Kids) == 0 && (n.T == Doc || n.T == Array || n.T == CodeScope) {
		return 1
	}
	return d
}

// TypeName names a type byte.
func TypeName(t byte) string {
	switch t {
	case Double:
		return "double"
	case String:
		return "string"
	case Doc:
		return "doc"
	case Array:
		return "array"
	case Binary:
		return "binary"
	case Undefined:
		return "undefined"
	case ObjectID:
		return "oid"
	case Bool:
		return "bool"
	case DateTime:
		return "datetime"
	case Null:
		return "null"
	case Regex:
		return "regex"
	case DBPointer:
		return "dbptr"
	case JS:
		return "js"
	case Symbol:
		return "symbol"
	case CodeScope:
		return "codescope"
	case Int32:
		return "int32"
	case Timestamp:
		return "timestamp"
	case Int64:
		return "int64"
	case Decimal:
		return "decimal"
	case MinKey:
		return "minkey"
	case MaxKey:
		return "maxkey"
	}
	return fmt.Sprintf("0x%02x", t)
}

// String renders the value for humans.
func (n *Node) String() string {
	if n == nil {
		return "<nil>"
	}
	var b strings.Builder
	b.WriteString(TypeName(n.T))
	switch n.T {
	case Double:
		fmt.Fprintf(&b, "(%v)", math.Float64frombits(n.U))
	case Int32:
		fmt.Fprintf(&b, "(%d)", int32(n.U))
	case Int64, DateTime:
		fmt.Fprintf(&b, "(%d)", int64(n.U))
	case Bool:
		fmt.Fprintf(&b, "(%v)", n.U == 1)
	case Timestamp:
		fmt.Fprintf(&b, "(%d,%d)", n.U>>32, uint32(n.U))
	case Decimal:
		fmt.Fprintf(&b, "(%x,%x)", n.H, n.U)
	case String, JS, Symbol:
		fmt.Fprintf(&b, "(%q)", n.S)
	case Regex:
		fmt.Fprintf(&b, "(%q,%q)", n.S, n.S2)
	case DBPointer:
		fmt.Fprintf(&b, "(%q,%x)", n.S, n.OID)
	case ObjectID:
		fmt.Fprintf(&b, "(%x)", n.OID)
	case Binary:
		fmt.Fprintf(&b, "(%d,%s)", n.Sub, hex.EncodeToString(n.B))
	case Doc:
		b.WriteString(Show(n.Kids))
	case Array:
		b.WriteString(Show(n.Kids))
	case CodeScope:
		fmt.Fprintf(&b, "(%q)%s", n.S, Show(n.Kids))
	}
	return b.String()
}

// Show renders a document for humans.
func Show(fs []Field) string {
	var b strings.Builder
	b.WriteByte('{')
	for i, f := range fs {
		if i > 0 {
			b.WriteString(", ")
		}
		fmt.Fprintf(&b, "%q:%s", f.K, f.V)
	}
	b.WriteByte('}')
	return b.String()
}

// Constructors.
func NDouble(f float64) *Node { return &Node{T: Double, U: math.Float64bits(f)} }
func NInt32(i int32) *Node    { return &Node{T: Int32, U: uint64(uint32(i))} }
func NInt64(i int64) *Node    { return &Node{T: Int64, U: uint64(i)} }
func NDate(i int64) *Node     { return &Node{T: DateTime, U: uint64(i)} }
func NString(s string) *Node  { return &Node{T: String, S: s} }
func NBool(b bool) *Node {
	n := &Node{T: Bool}
	if b {
		n.U = 1
	}
	return n
}
func NTime(t, i uint32) *Node { return &Node{T: Timestamp, U: uint64(t)<<32 | uint64(i)} }
func NDoc(fs ...Field) *Node  { return &Node{T: Doc, Kids: fs} }
func NNull() *Node            { return &Node{T: Null} }
func NArray(vs ...*Node) *Node {
	n := &Node{T: Array, Kids: []Field{}}
	for i, v := range vs {
		n.Kids = append(n.Kids, Field{strconv.Itoa(i), v})
	}
	return n
}

// F builds a field.
func F(k string, v *Node) Field { return Field{k, v} }

// Doubles returns the float.
func (n *Node) Float() float64 { return math.Float64frombits(n.U) }

// Size counts nodes.
func Size(fs []Field) int {
	s := 0
	for _, f := range fs {
		s += 1 + Size(f.V.Kids)
	}
	return s
}
