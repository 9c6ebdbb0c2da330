// J04: JSON trees hold what was put into them, and copies are their own.
package main

import (
	"fmt"
	"math"
	"strconv"

	"github.com/tychoish/birch/jsonx"
	"pgregory.net/rapid"
	"verif/harness/jm"
	"verif/harness/prop"
)

// node is the model of a value. Containers are shared by reference, as they
// are in the library: appending to a document shows wherever it was put.
type node struct {
	typ  jsonx.Type
	v    any // scalars
	keys []string
	kids []*node
}

func (n *node) obj() bool  { return n.typ == jsonx.ObjectValue }
func (n *node) list() bool { return n.typ == jsonx.ArrayValue }

func (n *node) clone() *node {
	m := &node{typ: n.typ, v: n.v, keys: append([]string{}, n.keys...)}
	for _, k := range n.kids {
		m.kids = append(m.kids, k.clone())
	}
	return m
}

func (n *node) reaches(m *node) bool {
	if n == m {
		return true
	}
	for _, k := range n.kids {
		if k.reaches(m) {
			return true
		}
	}
	return false
}

func (n *node) size() int {
	s := 1
	for _, k := range n.kids {
		s += k.size()
	}
	return s
}

func (n *node) String() string {
	if !n.obj() && !n.list() {
		return fmt.Sprintf("%T(%v)", n.v, n.v)
	}
	s := ""
	for i, k := range n.kids {
		if n.obj() {
			s += fmt.Sprintf("%q: ", n.keys[i])
		}
		s += k.String() + ", "
	}
	if n.obj() {
		return "{" + s + "}"
	}
	return "[" + s + "]"
}

// holder is a live document or array with its model.
type holder struct {
	d *jsonx.Document
	a *jsonx.Array
	m *node
}

var keys = rapid.SampledFrom([]string{"a", "b", "", "$date", "é", "a.b", "\x00", "\"", "0"})

type run struct {
	c    *prop.C
	hs   []*holder
	next int
	// seen are the containers this round has been through: they are shared,
	// so that walking every path to them would take exponentially long.
	seen map[*node]any
	// panics is how many more values to call the panicking accessors of.
	panics int
}

// room is whether what is held may still grow by n values.
func (r *run) room(n int) bool {
	for _, h := range r.hs {
		n += h.m.size()
	}
	return n <= 160
}

// value checks one value against its model, through every accessor.
func (r *run) value(v *jsonx.Value, m *node) {
	c := r.c
	if v == nil {
		c.Failf("no value for %s", m)
	}
	if v.Type() != m.typ {
		c.Failf("%s has the type %s", m, v.Type())
	}
	s, sok := v.StringValueOK()
	b, bok := v.BooleanOK()
	i, iok := v.IntOK()
	f, fok := v.Float64OK()
	d, dok := v.DocumentOK()
	a, aok := v.ArrayOK()
	ws, wsok := m.v.(string)
	wb, wbok := m.v.(bool)
	wi, wiok := m.v.(int)
	wf, wfok := m.v.(float64)
	if sok != wsok || s != ws || bok != wbok || b != wb || iok != wiok || i != wi || fok != wfok || math.Float64bits(f) != math.Float64bits(wf) || dok != m.obj() || aok != m.list() {
		c.Failf("%s reads as string %q %v, boolean %v %v, integer %v %v, double %v %v, document %v, array %v", m, s, sok, b, bok, i, iok, f, fok, dok, aok)
	}
	if r.panics > 0 {
		r.panics--
		r.panicking(v, m, sok, bok, iok, fok, dok, aok)
	}
	switch {
	case dok:
		if v.Interface() != any(d) {
			c.Failf("Interface of a document is %T", v.Interface())
		}
		r.document(d, m)
	case aok:
		if v.Interface() != any(a) {
			c.Failf("Interface of an array is %T", v.Interface())
		}
		r.array(a, m)
	default:
		if !same(v.Interface(), m.v) {
			c.Failf("Interface of %s is %T %v", m, v.Interface(), v.Interface())
		}
	}
}

func caught(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

func same(a, b any) bool {
	switch f := b.(type) {
	case float32:
		g, ok := a.(float32)
		return ok && math.Float32bits(g) == math.Float32bits(f)
	case float64:
		g, ok := a.(float64)
		return ok && math.Float64bits(g) == math.Float64bits(f)
	}
	return a == b
}

// panicking checks the accessors that panic for a value of another kind.
func (r *run) panicking(v *jsonx.Value, m *node, sok, bok, iok, fok, dok, aok bool) {
	c := r.c
	ws, _ := m.v.(string)
	wb, _ := m.v.(bool)
	wi, _ := m.v.(int)
	wf, _ := m.v.(float64)
	d, _ := v.DocumentOK()
	a, _ := v.ArrayOK()
	for _, x := range []struct {
		name string
		ok   bool
		same func() bool
	}{
		{"StringValue", sok, func() bool { return v.StringValue() == ws }},
		{"Boolean", bok, func() bool { return v.Boolean() == wb }},
		{"Int", iok, func() bool { return v.Int() == wi }},
		{"Float64", fok, func() bool { return math.Float64bits(v.Float64()) == math.Float64bits(wf) }},
		{"Document", dok, func() bool { return v.Document() == d }},
		{"Array", aok, func() bool { return v.Array() == a }},
	} {
		same := false
		p := caught(func() { same = x.same() })
		if (p == nil) != x.ok || x.ok && !same {
			c.Failf("%s of %s: panics %v, the checked one succeeds: %v", x.name, m, p, x.ok)
		}
	}
}

func (r *run) document(d *jsonx.Document, m *node) {
	c := r.c
	if r.seen[m] == any(d) {
		return
	}
	r.seen[m] = d
	if d.Len() != len(m.kids) {
		c.Failf("document of %d elements, want %s", d.Len(), m)
	}
	i := 0
	for e := range d.Iterator() {
		if i >= len(m.kids) || e.Key() != m.keys[i] {
			c.Failf("element %d has the key %q, want %s", i, e.Key(), m)
		}
		v, ok := e.ValueOK()
		if !ok || v != e.Value() {
			c.Failf("ValueOK of element %d: %v", i, ok)
		}
		r.value(v, m.kids[i])
		if d.ElementAtIndex(i) != e || d.KeyAtIndex(i) != m.keys[i] {
			c.Failf("position %d holds %q, iteration %q", i, d.KeyAtIndex(i), m.keys[i])
		}
		i++
	}
	if i != len(m.kids) {
		c.Failf("%d elements iterated, want %s", i, m)
	}
	for _, at := range []int{-1, math.MinInt, len(m.kids), len(m.kids) + 1, math.MaxInt} {
		if d.ElementAtIndex(at) != nil || d.KeyAtIndex(at) != "" {
			c.Failf("position %d of %d holds an element", at, len(m.kids))
		}
	}
}

func (r *run) array(a *jsonx.Array, m *node) {
	c := r.c
	if r.seen[m] == any(a) {
		return
	}
	r.seen[m] = a
	if a.Len() != len(m.kids) {
		c.Failf("array of %d values, want %s", a.Len(), m)
	}
	i := 0
	for v := range a.Iterator() {
		if i >= len(m.kids) {
			c.Failf("more values than %s", m)
		}
		r.value(v, m.kids[i])
		i++
	}
	if i != len(m.kids) {
		c.Failf("%d values iterated, want %s", i, m)
	}
}

// gen draws a value to be put into into.
func (r *run) gen(t *rapid.T, into *node) (*jsonx.Value, *node) {
	VC := jsonx.VC
	switch rapid.IntRange(0, 11).Draw(t, "value") {
	case 0:
		return VC.Nil(), &node{typ: jsonx.Null}
	case 1:
		b := rapid.Bool().Draw(t, "b")
		return VC.Boolean(b), &node{typ: jsonx.Bool, v: b}
	case 2:
		s := keys.Draw(t, "s")
		return VC.String(s), &node{typ: jsonx.String, v: s}
	case 3:
		n := rapid.Int().Draw(t, "int")
		return VC.Int(n), &node{typ: jsonx.NumberInteger, v: n}
	case 4:
		n := rapid.Int32().Draw(t, "i32")
		return VC.Int32(n), &node{typ: jsonx.NumberInteger, v: n}
	case 5:
		n := rapid.Int64().Draw(t, "i64")
		return VC.Int64(n), &node{typ: jsonx.NumberInteger, v: n}
	case 6:
		f := rapid.Float64().Draw(t, "f64")
		return VC.Float64(f), &node{typ: jsonx.NumberDouble, v: f}
	case 7:
		f := rapid.Float32().Draw(t, "f32")
		return VC.Float32(f), &node{typ: jsonx.NumberDouble, v: f}
	}
	h := r.hs[rapid.IntRange(0, len(r.hs)-1).Draw(t, "holder")]
	if into != nil && h.m.reaches(into) || h.m.size() > 12 || !r.room(40) {
		return VC.Nil(), &node{typ: jsonx.Null}
	}
	if h.d != nil {
		return VC.Object(h.d), h.m
	}
	return VC.Array(h.a), h.m
}

// tame gives numbers whose reading is beyond doubt.
func tame(t *rapid.T, j *jm.J) *jm.J {
	if j.K == 'n' {
		if rapid.Bool().Draw(t, "double") {
			return jm.Num(strconv.FormatInt(rapid.Int64Range(-1<<40, 1<<40).Draw(t, "n"), 10) + ".5")
		}
		return jm.Int(rapid.Int64().Draw(t, "n"))
	}
	for i := range j.Kids {
		j.Kids[i] = tame(t, j.Kids[i])
	}
	return j
}

func modelOf(j *jm.J) *node {
	switch j.K {
	case 'o', 'a':
		n := &node{typ: jsonx.ObjectValue, keys: append([]string{}, j.Keys...)}
		if j.K == 'a' {
			n.typ = jsonx.ArrayValue
		}
		for _, k := range j.Kids {
			n.kids = append(n.kids, modelOf(k))
		}
		return n
	case 's':
		return &node{typ: jsonx.String, v: j.S}
	case 't', 'f':
		return &node{typ: jsonx.Bool, v: j.K == 't'}
	case 'n':
		if i, err := strconv.ParseInt(j.S, 10, 64); err == nil {
			return &node{typ: jsonx.NumberInteger, v: int(i)}
		}
		f, _ := strconv.ParseFloat(j.S, 64)
		return &node{typ: jsonx.NumberDouble, v: f}
	}
	return &node{typ: jsonx.Null}
}

// elem is the element constructor for a value of its kind.
func elem(t *rapid.T, k string, v *jsonx.Value) *jsonx.Element {
	EC := jsonx.EC
	if rapid.Bool().Draw(t, "EC.Value") {
		return EC.Value(k, v)
	}
	switch x := v.Interface().(type) {
	case nil:
		return EC.Nil(k)
	case bool:
		return EC.Boolean(k, x)
	case string:
		return EC.String(k, x)
	case int:
		return EC.Int(k, x)
	case int32:
		return EC.Int32(k, x)
	case int64:
		return EC.Int64(k, x)
	case float64:
		return EC.Float64(k, x)
	case float32:
		return EC.Float32(k, x)
	case *jsonx.Document:
		return EC.Object(k, x)
	case *jsonx.Array:
		return EC.Array(k, x)
	}
	return EC.Value(k, v)
}

func (r *run) add(h *holder) {
	if len(r.hs) < 6 {
		r.hs = append(r.hs, h)
	} else {
		r.next = (r.next + 1) % len(r.hs)
		r.hs[r.next] = h
	}
}

// hold makes the document or array inside a value one that changes.
func (r *run) hold(v *jsonx.Value, m *node) {
	if d, ok := v.DocumentOK(); ok {
		r.add(&holder{d: d, m: m})
	} else if a, ok := v.ArrayOK(); ok {
		r.add(&holder{a: a, m: m})
	}
}

func history(c *prop.C) {
	t := c.T
	r := &run{c: c}
	r.hs = []*holder{{d: jsonx.DC.New(), m: &node{typ: jsonx.ObjectValue}}, {a: jsonx.AC.New(), m: &node{typ: jsonx.ArrayValue}}}
	copies, steps := 0, 0
	pick := func(t *rapid.T) *holder { return r.hs[rapid.IntRange(0, len(r.hs)-1).Draw(t, "h")] }
	grow := func(t *rapid.T) {
		h := pick(t)
		if !r.room(10) {
			return
		}
		steps++
		var es []*jsonx.Element
		var vs []*jsonx.Value
		n := rapid.IntRange(1, 3).Draw(t, "n")
		for i := 0; i < n; i++ {
			v, m := r.gen(t, h.m)
			k := ""
			if h.d != nil {
				k = keys.Draw(t, "k")
				e := elem(t, k, v)
				es = append(es, e)
				h.m.keys = append(h.m.keys, k)
			}
			vs = append(vs, v)
			h.m.kids = append(h.m.kids, m)
			c.Note("append %q %s", k, m)
		}
		if h.d != nil {
			if h.d.Append(es...) != h.d {
				c.Failf("Append gives another document")
			}
			for i := range es { // what the caller does with the slice afterwards
				es[i] = nil
			}
		} else {
			if h.a.Append(vs...) != h.a {
				c.Failf("Append gives another array")
			}
			for i := range vs {
				vs[i] = nil
			}
		}
	}
	t.Repeat(map[string]func(*rapid.T){
		"append":  grow,
		"append2": grow,
		"build": func(t *rapid.T) {
			n := rapid.IntRange(0, 3).Draw(t, "n")
			m := &node{typ: jsonx.ObjectValue}
			arr := rapid.Bool().Draw(t, "array")
			if arr {
				m.typ = jsonx.ArrayValue
			}
			var es []*jsonx.Element
			var vs []*jsonx.Value
			for i := 0; i < n; i++ {
				v, x := r.gen(t, nil)
				vs = append(vs, v)
				m.kids = append(m.kids, x)
				if !arr {
					k := keys.Draw(t, "k")
					m.keys = append(m.keys, k)
					es = append(es, elem(t, k, v))
				}
			}
			c.Note("build %s", m)
			var v *jsonx.Value
			how := rapid.IntRange(0, 2).Draw(t, "how")
			switch {
			case arr && how == 0:
				v = jsonx.VC.ArrayFromElements(vs...)
			case arr && how == 1:
				v = jsonx.EC.ArrayFromElements("k", vs...).Value()
			case arr:
				v = jsonx.VC.Array(jsonx.AC.Elements(vs...))
			case how == 0:
				v = jsonx.VC.ObjectFromElements(es...)
			case how == 1:
				v = jsonx.EC.ObjectFromElements("k", es...).Value()
			default:
				v = jsonx.VC.Object(jsonx.DC.Elements(es...))
			}
			for i := range es {
				es[i] = nil
			}
			for i := range vs {
				vs[i] = nil
			}
			r.hold(v, m)
		},
		"copy": func(t *rapid.T) {
			h := pick(t)
			if !r.room(h.m.size()) {
				return
			}
			m := h.m.clone()
			c.Note("copy %s", m)
			copies++
			switch {
			case h.d != nil && rapid.Bool().Draw(t, "plain"):
				r.add(&holder{d: h.d.Copy(), m: m})
			case h.d != nil:
				e := jsonx.EC.Object("the key", h.d).Copy()
				if e.Key() != "the key" {
					c.Failf("a copied element has the key %q", e.Key())
				}
				r.hold(e.Value(), m)
			case rapid.Bool().Draw(t, "plain"):
				r.add(&holder{a: h.a.Copy(), m: m})
			default:
				r.hold(jsonx.VC.Array(h.a).Copy(), m)
			}
		},
		"inside": func(t *rapid.T) { // something inside a holder is a holder itself
			h := pick(t)
			if len(h.m.kids) == 0 {
				return
			}
			i := rapid.IntRange(0, len(h.m.kids)-1).Draw(t, "i")
			if h.d != nil {
				r.hold(h.d.ElementAtIndex(i).Value(), h.m.kids[i])
				return
			}
			j := 0
			for v := range h.a.Iterator() {
				if j == i {
					r.hold(v, h.m.kids[i])
					break
				}
				j++
			}
		},
		"read": func(t *rapid.T) { // reading a text appends to what there is
			h := pick(t)
			if !r.room(30) {
				return
			}
			j := tame(t, jm.Gen(t, 3, keys))
			if h.d != nil && j.K != 'o' {
				j = jm.Obj("k", j)
			} else if h.a != nil && j.K != 'a' {
				j = jm.Arr(j)
			}
			text := j.Text(t)
			c.Note("read %s", text)
			var err error
			if h.d != nil {
				err = h.d.UnmarshalJSON(text)
			} else {
				err = h.a.UnmarshalJSON(text)
			}
			if err != nil {
				c.Failf("reading %s: %v", text, err)
			}
			m := modelOf(j)
			h.m.keys = append(h.m.keys, m.keys...)
			h.m.kids = append(h.m.kids, m.kids...)
		},
		"set": func(t *rapid.T) { // reading a text into a value replaces it
			h := pick(t)
			if len(h.m.kids) == 0 || !r.room(30) {
				return
			}
			i := rapid.IntRange(0, len(h.m.kids)-1).Draw(t, "i")
			j := tame(t, jm.Gen(t, 2, keys))
			text := j.Text(t)
			c.Note("set %d of %s to %s", i, h.m, text)
			var v *jsonx.Value
			if h.d != nil {
				v = h.d.ElementAtIndex(i).Value()
			} else {
				at := 0
				for x := range h.a.Iterator() {
					if at == i {
						v = x
						break
					}
					at++
				}
			}
			if err := v.UnmarshalJSON(text); err != nil {
				c.Failf("reading %s: %v", text, err)
			}
			h.m.kids[i] = modelOf(j)
		},
		"": func(t *rapid.T) {
			r.seen = map[*node]any{}
			r.panics = 3
			for _, h := range r.hs {
				if h.d != nil {
					r.document(h.d, h.m)
				} else {
					r.array(h.a, h.m)
				}
			}
		},
	})
	c.Class(fmt.Sprint("copies ", min(copies, 3)))
	if copies > 0 && steps > 1 {
		s := ""
		for _, h := range r.hs {
			s += h.m.String()
		}
		c.NonTrivial(s)
	}
}

func typeNames(c *prop.C) {
	names := map[jsonx.Type]string{jsonx.Null: "null", jsonx.Bool: "bool", jsonx.Number: "number", jsonx.String: "string",
		jsonx.ObjectValue: "object", jsonx.ArrayValue: "array", jsonx.NumberInteger: "integer", jsonx.NumberDouble: "double"}
	k := jsonx.Type(rapid.IntRange(-3, 20).Draw(c.T, "type"))
	if got := k.String(); got != names[k] {
		c.Failf("type %d is called %q, want %q", int(k), got, names[k])
	}
	c.NonTrivial(int(k))
}

func main() {
	prop.Main(prop.Spec{
		ID:   "J04",
		Rule: "histories with a copy and at least two appends; counted distinct by the final contents",
		Assumptions: []string{
			"a document or array put into another is the same one, so that appending to it shows in both, as the constructors take it by reference",
			"the checked integer accessor is for int, the width that reading gives; the other widths read through Interface",
		},
		Subs: []prop.Sub{
			{Name: "type-names", Quick: 300, Thorough: 300, Fn: typeNames},
			{Name: "history", Quick: 120000, Thorough: 3000000, Shards: 4, Steps: 20, HangIsViolation: true, Fn: history},
		},
	})
}
