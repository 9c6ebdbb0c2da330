package bm

import (
	"encoding/binary"
	"fmt"
	"math"
	"strconv"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/types"
)

// ToValue builds a library value through the value constructors.
func ToValue(n *Node) *birch.Value {
	VC := birch.VC
	switch n.T {
	case Double:
		return VC.Double(n.Float())
	case String:
		return VC.String(n.S)
	case Doc:
		return VC.Document(ToDoc(n.Kids))
	case Array:
		return VC.Array(ToArray(n))
	case Binary:
		if n.Sub == 0 && len(n.B)%2 == 0 {
			return VC.Binary(n.B)
		}
		return VC.BinaryWithSubtype(n.B, n.Sub)
	case Undefined:
		return VC.Undefined()
	case ObjectID:
		return VC.ObjectID(types.ObjectID(n.OID))
	case Bool:
		return VC.Boolean(n.U == 1)
	case DateTime:
		return VC.DateTime(int64(n.U))
	case Null:
		return VC.Null()
	case Regex:
		return VC.Regex(n.S, n.S2)
	case DBPointer:
		return VC.DBPointer(n.S, types.ObjectID(n.OID))
	case JS:
		return VC.JavaScript(n.S)
	case Symbol:
		return VC.Symbol(n.S)
	case CodeScope:
		return VC.CodeWithScope(n.S, ToDoc(n.Kids))
	case Int32:
		return VC.Int32(int32(n.U))
	case Timestamp:
		return VC.Timestamp(uint32(n.U>>32), uint32(n.U))
	case Int64:
		return VC.Int64(int64(n.U))
	case Decimal:
		return VC.Decimal128(types.NewDecimal128(n.H, n.U))
	case MinKey:
		return VC.MinKey()
	case MaxKey:
		return VC.MaxKey()
	}
	panic("bad node")
}

// ToElem builds a library element through the element constructors.
func ToElem(k string, n *Node) *birch.Element {
	EC := birch.EC
	switch n.T {
	case Double:
		return EC.Double(k, n.Float())
	case String:
		return EC.String(k, n.S)
	case Doc:
		return EC.SubDocument(k, ToDoc(n.Kids))
	case Array:
		return EC.Array(k, ToArray(n))
	case Binary:
		if n.Sub == 0 && len(n.B)%2 == 0 {
			return EC.Binary(k, n.B)
		}
		return EC.BinaryWithSubtype(k, n.B, n.Sub)
	case Undefined:
		return EC.Undefined(k)
	case ObjectID:
		return EC.ObjectID(k, types.ObjectID(n.OID))
	case Bool:
		return EC.Boolean(k, n.U == 1)
	case DateTime:
		return EC.DateTime(k, int64(n.U))
	case Null:
		return EC.Null(k)
	case Regex:
		return EC.Regex(k, n.S, n.S2)
	case DBPointer:
		return EC.DBPointer(k, n.S, types.ObjectID(n.OID))
	case JS:
		return EC.JavaScript(k, n.S)
	case Symbol:
		return EC.Symbol(k, n.S)
	case CodeScope:
		return EC.CodeWithScope(k, n.S, ToDoc(n.Kids))
	case Int32:
		return EC.Int32(k, int32(n.U))
	case Timestamp:
		return EC.Timestamp(k, uint32(n.U>>32), uint32(n.U))
	case Int64:
		return EC.Int64(k, int64(n.U))
	case Decimal:
		return EC.Decimal128(k, types.NewDecimal128(n.H, n.U))
	case MinKey:
		return EC.MinKey(k)
	case MaxKey:
		return EC.MaxKey(k)
	}
	panic("bad node")
}

// ToDoc builds a library document.
func ToDoc(fs []Field) *birch.Document {
	d := birch.DC.New()
	for _, f := range fs {
		d.Append(ToElem(f.K, f.V))
	}
	return d
}

// ToArray builds a library array.
func ToArray(n *Node) *birch.Array {
	a := birch.MakeArray(len(n.Kids))
	for _, f := range n.Kids {
		a.Append(ToValue(f.V))
	}
	return a
}

// FromValue reads a library value through the typed accessors (expanding
// nested documents through the mutable accessors).
func FromValue(v *birch.Value) (n *Node, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic reading value: %v", p)
		}
	}()
	return fromValue(v), nil
}

func fromValue(v *birch.Value) *Node {
	n := &Node{T: byte(v.Type())}
	switch n.T {
	case Double:
		n.U = math.Float64bits(v.Double())
	case String:
		n.S = v.StringValue()
	case Doc:
		n.Kids = FromDoc(v.MutableDocument())
	case Array:
		n.Kids = FromArray(v.MutableArray())
	case Binary:
		n.Sub, n.B = v.Binary()
	case ObjectID:
		n.OID = v.ObjectID()
	case Bool:
		if v.Boolean() {
			n.U = 1
		}
	case DateTime:
		n.U = uint64(v.DateTime())
	case Regex:
		n.S, n.S2 = v.Regex()
	case DBPointer:
		s, o := v.DBPointer()
		n.S, n.OID = s, o
	case JS:
		n.S = v.JavaScript()
	case Symbol:
		n.S = v.Symbol()
	case CodeScope:
		s, d := v.MutableJavaScriptWithScope()
		n.S, n.Kids = s, FromDoc(d)
	case Int32:
		n.U = uint64(uint32(v.Int32()))
	case Timestamp:
		t, i := v.Timestamp()
		n.U = uint64(t)<<32 | uint64(i)
	case Int64:
		n.U = uint64(v.Int64())
	case Decimal:
		n.H, n.U = v.Decimal128().GetBytes()
	case Null, Undefined, MinKey, MaxKey:
	default:
		panic(fmt.Sprintf("unknown type %x", n.T))
	}
	return n
}

// FromDoc reads a library document.
func FromDoc(d *birch.Document) []Field {
	out := []Field{}
	for e := range d.Iterator() {
		out = append(out, Field{e.Key(), fromValue(e.Value())})
	}
	return out
}

// FromArray reads a library array.
func FromArray(a *birch.Array) []Field {
	out := []Field{}
	i := 0
	for v := range a.Iterator() {
		out = append(out, Field{strconv.Itoa(i), fromValue(v)})
		i++
	}
	return out
}

// FromDocErr is FromDoc with panics turned into errors.
func FromDocErr(d *birch.Document) (fs []Field, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic reading document: %v", p)
		}
	}()
	return FromDoc(d), nil
}

// LE32 writes v at b[off:].
func LE32(b []byte, off int, v int32) { binary.LittleEndian.PutUint32(b[off:], uint32(v)) }
