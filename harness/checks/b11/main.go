// B11: documents may be read and encoded by many goroutines at once.
package main

import (
	"bytes"
	"fmt"
	"strconv"
	"sync"
	"testing/iotest"

	"github.com/tychoish/birch"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/prop"
)

var opts = bm.Opts{MaxDepth: 3, MaxLen: 4}

// op is one operation: its outcome as text must be the same whoever else is
// running.
type op struct {
	name string
	f    func() string
}

func outcome(b []byte, err error) string { return fmt.Sprintf("%x %v", b, err) }

// closedOps read a document whatever the state of its nested containers.
func closedOps(d *birch.Document, fs []bm.Field, path []string) []op {
	ops := []op{
		{"MarshalBSON", func() string { return outcome(d.MarshalBSON()) }},
		{"MarshalDocumentBSON", func() string { return outcome(birch.MarshalDocumentBSON(d)) }},
		{"WriteTo", func() string {
			var buf bytes.Buffer
			_, err := d.WriteTo(&buf)
			return outcome(buf.Bytes(), err)
		}},
		{"Validate", func() string { n, err := d.Validate(); return fmt.Sprint(n, err) }},
		{"iteration", func() (s string) {
			for e := range d.Iterator() {
				s += fmt.Sprintf("%q %v;", e.Key(), e.Value().Type())
			}
			return
		}},
		{"Elements", func() (s string) {
			for _, e := range d.Elements().Copy() {
				s += outcome(e.MarshalBSON())
			}
			return
		}},
		{"Sorted", func() string { return outcome(d.Sorted().MarshalBSON()) }},
		{"Copy", func() string {
			cp := d.Copy()
			cp.Append(birch.EC.Int32("more", 1))
			return outcome(cp.MarshalBSON())
		}},
		{"LookupErr", func() string {
			v, err := d.LookupErr(path[0])
			if err != nil {
				return err.Error()
			}
			return fmt.Sprint(v.Type())
		}},
		{"values", func() (s string) {
			for i, f := range fs {
				v := d.ElementAt(uint(i)).Value()
				switch f.V.T {
				case bm.Doc:
					s += fmt.Sprintf("%x;", []byte(v.ReaderDocument()))
				case bm.Array:
					s += fmt.Sprintf("%x;", []byte(v.ReaderArray()))
				case bm.CodeScope:
					code, r := v.ReaderJavaScriptWithScope()
					s += fmt.Sprintf("%s %x;", code, []byte(r))
				default:
					n, err := bm.FromValue(v)
					s += fmt.Sprintf("%v %v %v;", n, err, v.IsEmpty())
				}
			}
			return
		}},
	}
	return ops
}

// openOps also convert nested containers, which opens those that are not yet.
func openOps(d *birch.Document, path []string) []op {
	return []op{
		{"String", d.String},
		{"MarshalJSON", func() string { return outcome(d.MarshalJSON()) }},
		{"ExportMap", func() string { return fmt.Sprint(d.ExportMap()) }},
		{"content", func() string { fs, err := bm.FromDocErr(d); return fmt.Sprint(bm.Show(fs), err) }},
		{"Search", func() string {
			e, err := d.Search(path...)
			if err != nil {
				return err.Error()
			}
			return outcome(e.MarshalBSON())
		}},
		{"arrays", func() (s string) {
			for e := range d.Iterator() {
				if a, ok := e.Value().MutableArrayOK(); ok {
					s += outcome(a.MarshalBSON())
				}
			}
			return
		}},
	}
}

func readerOps(raw []byte, path []string) []op {
	r := birch.Reader(raw)
	return []op{
		{"Reader.Validate", func() string { n, err := r.Validate(); return fmt.Sprint(n, err) }},
		{"Reader.RecursiveLookup", func() string {
			e, err := r.RecursiveLookup(path...)
			if err != nil {
				return err.Error()
			}
			return outcome(e.MarshalBSON())
		}},
		{"Reader iteration", func() (s string) {
			for e, err := range r.Iterator() {
				n, err2 := bm.FromValue(e.Value())
				s += fmt.Sprintf("%q %v %v %v;", e.Key(), n, err, err2)
			}
			return
		}},
		{"Reader.String", r.String},
		{"ReadDocument", func() string {
			d, err := birch.ReadDocument(raw)
			if err != nil {
				return err.Error()
			}
			fs, err := bm.FromDocErr(d)
			return fmt.Sprint(bm.Show(fs), err)
		}},
		{"parse, change, encode", func() string {
			d := birch.DC.Reader(r)
			for e := range d.Iterator() {
				if sub, ok := e.Value().MutableDocumentOK(); ok {
					sub.Append(birch.EC.Boolean("more", true))
				}
			}
			return outcome(d.Append(birch.EC.String("more", "x")).MarshalBSON())
		}},
	}
}

// ownOps work on documents of their own: only hidden state is shared.
func ownOps(t *rapid.T, i int) []op {
	fs := bm.GenDoc(t, opts)
	fs = append(fs, bm.F("own"+strconv.Itoa(i), bm.GenOfType(t, opts, bm.Array, 0)))
	raw := bm.EncodeFields(fs)
	return []op{
		{"build and encode", func() string { return outcome(bm.ToDoc(fs).MarshalBSON()) }},
		{"ReadFrom", func() string {
			d := birch.DC.New()
			n, err := d.ReadFrom(iotest.HalfReader(bytes.NewReader(raw)))
			if err != nil {
				return err.Error()
			}
			b, err := d.MarshalBSON()
			return fmt.Sprint(n, outcome(b, err))
		}},
		{"NewFromIOReader", func() string {
			r, err := birch.NewFromIOReader(iotest.OneByteReader(bytes.NewReader(raw)))
			return outcome(r, err)
		}},
		{"array", func() string { return outcome(bm.ToArray(fs[len(fs)-1].V).MarshalBSON()) }},
		{"through JSON", func() string {
			b, err := bm.ToDoc(fs).MarshalJSON()
			if err != nil {
				return err.Error()
			}
			d := birch.DC.New()
			if err := d.UnmarshalJSON(b); err != nil {
				return string(b) + err.Error()
			}
			return string(b) + outcome(d.MarshalBSON())
		}},
		{"through a map", func() string {
			dm := birch.DocumentMap{}
			if err := dm.UnmarshalBSON(raw); err != nil {
				return err.Error()
			}
			return fmt.Sprint(len(dm), dm.Validate())
		}},
		{"converters", func() string {
			d := birch.DC.MapInterface(map[string]any{"a": []int{1, i}, "b": map[string]any{"c": 1.5}})
			return outcome(d.Sorted().MarshalBSON())
		}},
	}
}

func shared(c *prop.C) {
	fs := bm.GenDoc(c.T, opts)
	want := bm.EncodeFields(fs)
	raw := append([]byte{}, want...)
	path := []string{"none"}
	if len(fs) > 0 {
		kids := fs
		path = nil
		for len(kids) > 0 {
			k := rapid.IntRange(0, len(kids)-1).Draw(c.T, "step")
			path = append(path, kids[k].K)
			if n := kids[k].V; n.T == bm.Doc || n.T == bm.Array {
				kids = n.Kids
				if n.T == bm.Array {
					continue
				}
			} else {
				break
			}
		}
	}
	kind := rapid.IntRange(0, 3).Draw(c.T, "kind")
	var ops []op
	switch kind {
	case 0: // any mixture of parsed and built containers
		ops = closedOps(bm.RepDoc(c.T, fs), fs, path)
	case 1: // built
		d := bm.ToDoc(fs)
		ops = append(closedOps(d, fs, path), openOps(d, path)...)
	case 2: // parsed and opened
		d, err := birch.ReadDocument(raw)
		if err != nil {
			c.Failf("rejected: %v", err)
		}
		if _, err := bm.FromDocErr(d); err != nil {
			c.Failf("reading: %v", err)
		}
		ops = append(closedOps(d, fs, path), openOps(d, path)...)
		ops = append(ops, readerOps(raw, path)...)
	case 3: // raw bytes, and documents parsed from them
		d, err := birch.ReadDocument(raw)
		if err != nil {
			c.Failf("rejected: %v", err)
		}
		ops = append(readerOps(raw, path), closedOps(d, fs, path)...)
	}
	c.Note("doc %s, kind %d, path %q", bm.Show(fs), kind, path)
	c.Class([]string{"mixed", "built", "opened", "raw"}[kind])
	workers := rapid.IntRange(2, 5).Draw(c.T, "workers")
	plan := make([][]op, workers)
	names := make([][]string, workers)
	for i := range plan {
		own := ownOps(c.T, i)
		for n := rapid.IntRange(1, 5).Draw(c.T, "n"); n > 0; n-- {
			from := ops
			if rapid.IntRange(0, 2).Draw(c.T, "own") == 0 {
				from = own
			}
			o := from[rapid.IntRange(0, len(from)-1).Draw(c.T, "op")]
			plan[i] = append(plan[i], o)
			names[i] = append(names[i], o.name)
		}
		c.Note("goroutine %d: %q", i, names[i])
	}
	got := make([][]string, workers)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range plan {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, o := range plan[i] {
				var s string
				if pv, st := prop.Catch(func() { s = o.f() }); pv != nil {
					s = fmt.Sprintf("panic %v\n%s", pv, st)
				}
				got[i] = append(got[i], s)
			}
		}()
	}
	close(start)
	wg.Wait()
	for i := range plan {
		for k, o := range plan[i] {
			if alone := o.f(); alone != got[i][k] {
				c.Failf("%s in goroutine %d gave\n  %s\nwhile others were running and\n  %s\nalone", o.name, i, got[i][k], alone)
			}
		}
	}
	for _, o := range ops {
		if o.name == "MarshalBSON" && o.f() != outcome(want, nil) {
			c.Failf("the shared document changed: %s, want %x", o.f(), want)
		}
	}
	if !bytes.Equal(raw, want) {
		c.Failf("the shared bytes changed")
	}
	if len(fs) > 0 {
		c.NonTrivial(fmt.Sprintf("%x %v", want, names))
	}
}

func main() {
	prop.Main(prop.Spec{
		ID:   "B11",
		Rule: "a shared document with elements, read by at least two goroutines",
		Assumptions: []string{
			"converting a document parsed from bytes (printing, exporting, JSON, searching) opens its nested containers in place, so it counts as a write until they have been opened once",
			"Document.Map keeps its result in the document, so it counts as a write",
			"run under the race detector: an unsynchronised access in the library fails the run",
		},
		Subs: []prop.Sub{{Name: "shared", Quick: 24000, Thorough: 400000, Shards: 4, Fn: shared}},
	})
}
