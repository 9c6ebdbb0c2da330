// B05: sizes and streams are exact under any chunking and truncation.
package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"runtime"

	"github.com/tychoish/birch"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/prop"
)

var errInjected = errors.New("injected failure")

// limitWriter accepts at most n bytes and then fails.
type limitWriter struct {
	n   int
	got []byte
}

func (w *limitWriter) Write(p []byte) (int, error) {
	room := w.n - len(w.got)
	if len(p) <= room {
		w.got = append(w.got, p...)
		return len(p), nil
	}
	w.got = append(w.got, p[:room]...)
	return room, errInjected
}

// chunkReader hands out data in the given chunk sizes (cyclically; 0 is an
// empty read), then fails with end.
type chunkReader struct {
	data    []byte
	sizes   []int
	i, used int
	end     error
	endWith bool // return the final error together with the last bytes
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if r.used == len(r.data) {
		return 0, r.end
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if len(r.sizes) > 0 {
		n = min(n, r.sizes[r.i%len(r.sizes)])
		r.i++
	}
	n = copy(p[:n], r.data[r.used:])
	r.used += n
	if r.used == len(r.data) && r.endWith {
		return n, r.end
	}
	return n, nil
}

func sizes(c *prop.C) {
	fs := bm.GenDoc(c.T, bm.Opts{MaxDepth: 3})
	c.Note("doc %s", bm.Show(fs))
	d := bm.RepDoc(c.T, fs)
	want := bm.EncodeFields(fs)
	if rapid.Bool().Draw(c.T, "validate-first") {
		if n, err := d.Validate(); err != nil || int(n) != len(want) {
			c.Failf("Document.Validate = %d, %v; encoding has %d bytes", n, err, len(want))
		}
	}
	limit := len(want)
	if rapid.Bool().Draw(c.T, "fail") {
		limit = rapid.IntRange(0, len(want)-1).Draw(c.T, "limit")
		c.Class("writer failure")
	}
	w := &limitWriter{n: limit}
	n, err := d.WriteTo(w)
	if int(n) != len(w.got) {
		c.Failf("WriteTo returned %d, the writer took %d bytes", n, len(w.got))
	}
	if limit < len(want) {
		if !errors.Is(err, errInjected) {
			c.Failf("writer failed after %d of %d bytes but WriteTo returned %v", limit, len(want), err)
		}
	} else if err != nil || !bytes.Equal(w.got, want) {
		c.Failf("WriteTo: %v: %s", err, bm.Diff(w.got, want))
	}
	if n, err := birch.Reader(want).Validate(); err != nil || int(n) != len(want) {
		c.Failf("Reader.Validate = %d, %v; want %d", n, err, len(want))
	}
	for i, f := range fs {
		e := d.ElementAt(uint(i))
		eb := bm.EncodeElem(f)
		if n, err := e.Validate(); err != nil || int(n) != len(eb) {
			c.Failf("element %d: Validate = %d, %v; encoding has %d bytes", i, n, err, len(eb))
		}
		lim := len(eb)
		if rapid.Bool().Draw(c.T, "efail") {
			lim = rapid.IntRange(0, len(eb)-1).Draw(c.T, "elimit")
		}
		w := &limitWriter{n: lim}
		n, err := e.WriteTo(w)
		if int(n) != len(w.got) || (lim < len(eb)) != (err != nil) || (err != nil && !errors.Is(err, errInjected)) || !bytes.Equal(w.got, eb[:lim]) {
			c.Failf("element %d: WriteTo = %d, %v with %d of %d bytes accepted", i, n, err, lim, len(eb))
		}
		switch f.V.T {
		case bm.Array:
			if n, err := e.Value().MutableArray().Validate(); err != nil || int(n) != len(f.V.Encode()) {
				c.Failf("element %d: Array.Validate = %d, %v; want %d", i, n, err, len(f.V.Encode()))
			}
		case bm.Doc:
			if n, err := e.Value().MutableDocument().Validate(); err != nil || int(n) != len(f.V.Encode()) {
				c.Failf("element %d: nested Validate = %d, %v; want %d", i, n, err, len(f.V.Encode()))
			}
		}
	}
	if n, err := d.Validate(); err != nil || int(n) != len(want) {
		c.Failf("Document.Validate afterwards = %d, %v; want %d", n, err, len(want))
	}
	if len(fs) > 0 {
		c.NonTrivial(want)
	}
}

func stream(c *prop.C) {
	var docs [][]bm.Field
	var data []byte
	var ends []int
	for k := rapid.IntRange(1, 5).Draw(c.T, "docs"); k > 0; k-- {
		fs := bm.GenDoc(c.T, bm.Opts{MaxDepth: 2})
		if rapid.IntRange(0, 40).Draw(c.T, "big") == 0 {
			fs = append(fs, bm.F("big", &bm.Node{T: bm.Binary, B: bytes.Repeat([]byte{7}, rapid.IntRange(60000, 200000).Draw(c.T, "bn"))}))
			c.Class("document over 60 kB")
		}
		docs = append(docs, fs)
		data = append(data, bm.EncodeFields(fs)...)
		ends = append(ends, len(data))
	}
	full := len(data)
	cut := full
	mode := rapid.IntRange(0, 3).Draw(c.T, "mode")
	r := &chunkReader{end: io.EOF, endWith: rapid.Bool().Draw(c.T, "endwith")}
	switch mode {
	case 1: // truncated
		cut = rapid.IntRange(0, full-1).Draw(c.T, "cut")
	case 2: // failing
		cut = rapid.IntRange(0, full-1).Draw(c.T, "cut")
		r.end = errInjected
	case 3: // cut close to a document boundary
		b := append([]int{0}, ends...)
		cut = min(full-1, max(0, b[rapid.IntRange(0, len(b)-1).Draw(c.T, "bi")]+rapid.IntRange(-2, 5).Draw(c.T, "bd")))
	}
	r.data = data[:cut]
	r.sizes = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(0, 5), rapid.IntRange(1, 300)), 0, 6).Draw(c.T, "chunks")
	zero := true
	for _, s := range r.sizes {
		zero = zero && s == 0
	}
	if zero {
		r.sizes = nil
	}
	c.Note("documents end at %v, stream of %d bytes, chunks %v, final error %v (with data: %v)", ends, cut, r.sizes, r.end, r.endWith)
	for i := range docs {
		c.Note("  %s", bm.Show(docs[i]))
	}
	reused := birch.DC.Elements(birch.EC.String("old", "content"))
	for i, fs := range docs {
		want := bm.EncodeFields(fs)
		start := 0
		if i > 0 {
			start = ends[i-1]
		}
		var got []byte
		var err error
		n := int64(-1)
		api := rapid.IntRange(0, 4).Draw(c.T, "api")
		pv, st := prop.Catch(func() {
			var d *birch.Document
			switch api {
			case 0:
				d = birch.DC.New()
				n, err = d.ReadFrom(r)
			case 1:
				d = reused
				n, err = d.ReadFrom(r)
			case 2:
				d, err = birch.DCE.ReadFrom(r)
			case 3:
				var rd birch.Reader
				rd, err = birch.NewFromIOReader(r)
				got = rd
				return
			case 4:
				// panics on errors, and is nil at a clean end
				if pv, _ := prop.Catch(func() { d = birch.DC.ReadFrom(r) }); pv != nil {
					var ok bool
					if err, ok = pv.(error); !ok {
						err = fmt.Errorf("%v", pv)
					}
				} else if d == nil {
					if start != cut && start+4 != cut || ends[i] <= cut || r.end != io.EOF {
						c.Failf("document %d: DC.ReadFrom is nil at %d of %d bytes, which then end with %v", i, start, cut, r.end)
					}
					err = io.EOF
				}
			}
			if err == nil {
				got, err = d.MarshalBSON()
			}
		})
		if pv != nil {
			c.Failf("document %d: panic %v\n%s", i, pv, st)
		}
		if ends[i] > cut { // incomplete
			if err == nil {
				c.Failf("document %d (bytes %d..%d) read from a stream of %d bytes without an error", i, start, ends[i], cut)
			}
			if r.end == errInjected && !errors.Is(err, errInjected) {
				c.Failf("document %d: the reader's error was replaced by %v", i, err)
			}
			if r.end == io.EOF && start == cut && !errors.Is(err, io.EOF) {
				c.Failf("document %d: clean end of stream reported as %v", i, err)
			}
			if n >= 0 && int(n) != r.used-start {
				c.Failf("document %d: ReadFrom returned %d, consumed %d", i, n, r.used-start)
			}
			break
		}
		if err != nil {
			c.Failf("document %d: %v", i, err)
		}
		if !bytes.Equal(got, want) {
			c.Failf("document %d differs: %s", i, bm.Diff(got, want))
		}
		if r.used != ends[i] {
			c.Failf("document %d ends at %d but %d bytes were consumed", i, ends[i], r.used)
		}
		if n >= 0 && int(n) != len(want) {
			c.Failf("document %d: ReadFrom returned %d for %d bytes", i, n, len(want))
		}
	}
	if cut == full {
		if _, err := birch.DCE.ReadFrom(r); !errors.Is(err, io.EOF) {
			c.Failf("after the last document: %v, want EOF", err)
		}
		if d := birch.DC.ReadFrom(r); d != nil {
			c.Failf("after the last document DC.ReadFrom returned %v", d)
		}
	}
	c.Class(fmt.Sprintf("mode-%d", mode))
	if len(docs) > 1 || len(r.sizes) > 0 {
		c.NonTrivial(fmt.Sprintf("%x %v %d", data, r.sizes, cut))
	}
}

// claims: a header may claim any length; memory follows the data that arrives.
func claims(c *prop.C) {
	have := rapid.OneOf(rapid.IntRange(0, 64), rapid.IntRange(0, 100000)).Draw(c.T, "have")
	claim := rapid.OneOf(rapid.IntRange(1<<26, 1<<28), rapid.SampledFrom([]int{1<<31 - 1, 1 << 30, 1<<24 + 1})).Draw(c.T, "claim")
	raw := append(binary.LittleEndian.AppendUint32(nil, uint32(claim)), bytes.Repeat([]byte{1}, have)...)
	api := rapid.IntRange(0, 3).Draw(c.T, "api")
	c.Note("header claims %d bytes, %d follow, api %d", claim, have, api)
	r := &chunkReader{data: raw, end: io.EOF, sizes: rapid.SliceOfN(rapid.IntRange(1, 5000), 0, 3).Draw(c.T, "chunks")}
	var before, after runtime.MemStats
	var err error
	runtime.ReadMemStats(&before)
	switch api {
	case 0:
		_, err = birch.DC.New().ReadFrom(r)
	case 1:
		_, err = birch.DCE.ReadFrom(r)
	case 2:
		_, err = birch.NewFromIOReader(r)
	case 3:
		_, err = birch.ReadDocument(raw)
	}
	runtime.ReadMemStats(&after)
	if err == nil {
		c.Failf("a document of %d bytes was read from %d", claim, len(raw))
	}
	if grown := after.TotalAlloc - before.TotalAlloc; grown > 8<<20 {
		c.Failf("%d bytes were allocated for %d bytes of data whose header claims %d", grown, len(raw), claim)
	}
	c.NonTrivial(fmt.Sprint(have, claim, api))
}

func main() {
	prop.Main(prop.Spec{
		ID:   "B05",
		Rule: "sizes: a document with at least one element; streams: several documents or a chunked reader",
		Assumptions: []string{
			"a stream that ends right after the four length bytes is reported with io.EOF, as the repository's own tests require; any error counts there",
			"readers and writers keep the io.Reader and io.Writer contracts",
		},
		Subs: []prop.Sub{
			{Name: "sizes", Quick: 60000, Thorough: 600000, Shards: 3, Fn: sizes},
			{Name: "stream", Quick: 80000, Thorough: 800000, Shards: 4, Fn: stream},
			{Name: "claims", Quick: 2000, Thorough: 40000, Fn: claims},
		},
	})
}
