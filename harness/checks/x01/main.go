// X01: every JSON line in a stream becomes one metric sample.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"testing/iotest"
	"time"

	"github.com/tychoish/birch/x/ftdc"
	"github.com/tychoish/birch/x/ftdc/metrics"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/fm"
	"verif/harness/jm"
	"verif/harness/prop"
)

const patience = 20 * time.Second

var errRead = errors.New("injected failure")

// scratch is a directory of one case.
func scratch(c *prop.C) (string, func()) {
	dir, err := os.MkdirTemp("", "verif-x01-")
	if err != nil {
		panic(err)
	}
	return dir, func() { _ = os.RemoveAll(dir) }
}

// text renders a document as JSON.
func text(t *rapid.T, fs []bm.Field) *jm.J {
	o := &jm.J{K: 'o'}
	for _, f := range fs {
		o.Keys = append(o.Keys, f.K)
		o.Kids = append(o.Kids, value(t, f.V))
	}
	return o
}

func value(t *rapid.T, n *bm.Node) *jm.J {
	switch n.T {
	case bm.Doc:
		return text(t, n.Kids)
	case bm.Array:
		a := &jm.J{K: 'a'}
		for _, f := range n.Kids {
			a.Kids = append(a.Kids, value(t, f.V))
		}
		return a
	case bm.Int32:
		return jm.Int(int64(int32(n.U)))
	case bm.Int64:
		return jm.Int(int64(n.U))
	case bm.Double:
		s := strconv.FormatFloat(n.Float(), 'g', -1, 64)
		if !strings.ContainsAny(s, ".e") {
			s += ".0"
		}
		return jm.Num(s)
	case bm.Bool:
		return jm.Bool(n.U != 0)
	case bm.Null:
		return jm.Null()
	case bm.String:
		return jm.Str(n.S)
	}
	panic(bm.TypeName(n.T))
}

// clean keeps keys and strings that JSON documents of these tests can have.
func clean(fs []bm.Field) []bm.Field {
	for i := range fs {
		fs[i].K = strings.ToValidUTF8(strings.ReplaceAll(fs[i].K, "\x00", "0"), "?")
		if strings.HasPrefix(fs[i].K, "$") {
			fs[i].K = "d" + fs[i].K
		}
		fs[i].V.S = strings.ToValidUTF8(fs[i].V.S, "?")
		if n := fs[i].V; n.T == bm.Double {
			if s := fmt.Sprint(n.Float()); s == "NaN" || strings.HasSuffix(s, "Inf") {
				n.U = bm.NDouble(0.5).U
			}
		}
		clean(fs[i].V.Kids)
	}
	return fs
}

type line struct {
	doc  []bm.Field
	text []byte
}

// lines draws documents and their texts.
func lines(c *prop.C, most int) (ls []line) {
	t := c.T
	var stream *fm.Stream
	n := rapid.IntRange(0, most).Draw(t, "lines")
	for i := 0; i < n; i++ {
		if stream == nil || rapid.IntRange(0, 5).Draw(t, "another shape") == 0 {
			types := []byte{bm.Int32, bm.Int64, bm.Double, bm.Bool, bm.String, bm.Null, bm.Doc, bm.Array, bm.Int64}
			shape := bm.GenDoc(t, bm.Opts{Types: types, MaxDepth: 3, MaxLen: 4, Keys: bm.SimpleKey()})
			if len(fm.Flatten(shape)) == 0 {
				shape = append(shape, bm.F("m", bm.NInt64(7)))
			}
			if rapid.IntRange(0, 9).Draw(t, "long") == 0 {
				shape = append(shape, bm.F("long", bm.NString(strings.Repeat("x", rapid.SampledFrom([]int{4000, 5000, 65000, 70000, 200000}).Draw(t, "length")))))
			}
			stream = fm.NewStream(t, clean(shape), true)
		}
		d := clean(bm.CloneFields(stream.Next()))
		j := text(t, d)
		b := []byte(j.String())
		if rapid.IntRange(0, 3).Draw(t, "formatted") == 0 && len(b) < 1000 {
			// whitespace, but no line ends
			b = bytes.ReplaceAll(bytes.ReplaceAll(j.Text(t), []byte("\n"), []byte(" ")), []byte("\r"), []byte("\t"))
		}
		ls = append(ls, line{d, b})
	}
	return ls
}

// join builds the stream.
func join(t *rapid.T, ls []line) []byte {
	eol := rapid.SampledFrom([]string{"\n", "\n", "\r\n"}).Draw(t, "eol")
	var b []byte
	for i, l := range ls {
		b = append(b, l.text...)
		if i < len(ls)-1 || rapid.IntRange(0, 2).Draw(t, "last end") > 0 {
			b = append(b, eol...)
		}
	}
	return b
}

// load reads the samples of the output files.
func load(prefix string) (docs [][]bm.Field, sizes []int, err error) {
	for i := 0; ; i++ {
		b, err := os.ReadFile(fmt.Sprintf("%s.%d", prefix, i))
		if errors.Is(err, os.ErrNotExist) {
			rest, _ := filepath.Glob(prefix + ".*")
			if len(rest) != i {
				return nil, nil, fmt.Errorf("%d files, but file %d is missing", len(rest), i)
			}
			return docs, sizes, nil
		}
		if err != nil {
			return nil, nil, err
		}
		it := ftdc.ReadChunks(bytes.NewReader(b))
		for ch := range it.Iterator() {
			sizes = append(sizes, ch.Size())
			n := 0
			for d := range ch.StructuredIterator().Iterator() {
				fs, err := bm.FromDocErr(d)
				if err != nil {
					return nil, nil, err
				}
				docs = append(docs, fs)
				n++
			}
			if n != ch.Size() {
				return nil, nil, fmt.Errorf("%d documents in a chunk of %d", n, ch.Size())
			}
		}
		if err := it.Close(); err != nil {
			return nil, nil, err
		}
	}
}

// numeric brings numbers into one form.
func numeric(n *bm.Node) *bm.Node {
	n = n.Clone()
	switch n.T {
	case bm.Int32:
		return bm.NInt64(int64(int32(n.U)))
	case bm.Double:
		if f := n.Float(); f == math.Trunc(f) && math.Abs(f) < 1<<63 {
			return bm.NInt64(int64(f))
		}
	}
	for i := range n.Kids {
		n.Kids[i].V = numeric(n.Kids[i].V)
	}
	return n
}

// compare checks the samples against the first lines.
func compare(c *prop.C, prefix string, limit int, want []line, all bool) int {
	docs, sizes, err := load(prefix)
	if err != nil {
		c.Failf("reading the output: %v", err)
	}
	for _, s := range sizes {
		if s > limit {
			c.Failf("a chunk of %d samples, the limit is %d", s, limit)
		}
	}
	if len(docs) > len(want) || all && len(docs) < len(want) {
		c.Failf("%d samples of %d lines", len(docs), len(want))
	}
	for i, d := range docs {
		got := numeric(bm.NDoc(fm.Prune(d)...))
		if w := numeric(bm.NDoc(fm.Prune(want[i].doc)...)); !got.Equal(w) {
			c.Failf("sample %d:\n got  %s\n want %s", i, got, w)
		}
	}
	return len(docs)
}

// collect runs the collection in time.
func collect(c *prop.C, ctx context.Context, opts metrics.CollectJSONOptions) error {
	goroutines := runtime.NumGoroutine()
	res := make(chan error, 1)
	go func() {
		var err error
		if p, stack := prop.Catch(func() { err = metrics.CollectJSONStream(ctx, opts) }); p != nil {
			err = fmt.Errorf("panic: %v\n%s", p, stack)
		}
		res <- err
	}()
	select {
	case err := <-res:
		if err != nil && strings.HasPrefix(err.Error(), "panic: ") {
			c.Failf("%v", err)
		}
		if p, ok := opts.InputSource.(*io.PipeReader); ok {
			p.Close() // what waits for more input cannot know that nobody else does
		}
		c.Settled(goroutines, "a collection that has ended")
		c.Closed(opts.OutputFilePrefix, "a collection that has ended")
		if opts.FileName != "" && !opts.Follow {
			c.Closed(opts.FileName, "a collection that has ended")
		}
		return err
	case <-time.After(patience):
		c.Failf("the collection did not end")
		return nil
	}
}

func options(t *rapid.T, dir string) metrics.CollectJSONOptions {
	return metrics.CollectJSONOptions{
		OutputFilePrefix: filepath.Join(dir, "out"),
		SampleCount:      rapid.SampledFrom([]int{1, 2, 3, 10, 1000}).Draw(t, "samples"),
		FlushInterval:    rapid.SampledFrom([]time.Duration{time.Hour, time.Hour, time.Millisecond, 50 * time.Microsecond}).Draw(t, "flush"),
	}
}

// source passes a stream as a reader or as a file.
func source(t *rapid.T, dir string, b []byte, opts *metrics.CollectJSONOptions) string {
	if rapid.IntRange(0, 2).Draw(t, "file") == 0 {
		opts.FileName = filepath.Join(dir, "in")
		if err := os.WriteFile(opts.FileName, b, 0o600); err != nil {
			panic(err)
		}
		return "file"
	}
	var r io.Reader = bytes.NewReader(b)
	switch rapid.IntRange(0, 4).Draw(t, "reader") {
	case 0:
		r = iotest.HalfReader(r)
	case 1:
		r = iotest.DataErrReader(r)
	case 2:
		if len(b) < 5000 {
			r = iotest.OneByteReader(r)
		}
	}
	opts.InputSource = r
	return "reader"
}

// wellformed collects documents.
func wellformed(c *prop.C) {
	t := c.T
	dir, done := scratch(c)
	defer done()
	ls := lines(c, 25)
	b := join(t, ls)
	opts := options(t, dir)
	how := source(t, dir, b, &opts)
	c.Class(how)
	c.Note("%d lines from a %s in chunks of %d, flushing every %v", len(ls), how, opts.SampleCount, opts.FlushInterval)
	if len(b) < 3000 {
		c.Note("%q", b)
	}
	full := ""
	if rapid.IntRange(0, 7).Draw(t, "full device") == 0 {
		// one of the files cannot be written
		full = fmt.Sprintf("%s.%d", opts.OutputFilePrefix, rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "full"))
		if err := os.Symlink("/dev/full", full); err != nil {
			panic(err)
		}
		c.Class("full device")
		c.Note("%s is on a device without space", filepath.Base(full))
	}
	err := collect(c, context.Background(), opts)
	if full != "" {
		c.Closed("/dev/full", "a collection that has ended")
		_ = os.Remove(full)
	}
	if err != nil && full == "" {
		c.Failf("collecting: %v", err)
	}
	if n := compare(c, opts.OutputFilePrefix, opts.SampleCount, ls, err == nil); err != nil && n == len(ls) {
		c.Failf("all samples were written, and %v", err)
	}
	if len(ls) > 2 {
		c.NonTrivial(b)
	}
}

// malformed collects documents up to a problem.
func malformed(c *prop.C) {
	t := c.T
	dir, done := scratch(c)
	defer done()
	ls := lines(c, 12)
	opts := options(t, dir)
	n := rapid.IntRange(0, len(ls)).Draw(t, "before")
	after := ls[n:]
	ls = ls[:n]
	var b []byte
	for _, l := range ls {
		b = append(append(b, l.text...), '\n')
	}
	kind := rapid.SampledFrom([]string{"garbage", "truncated", "read error", "missing"}).Draw(t, "kind")
	var failing error
	switch kind {
	case "garbage":
		b = append(b, rapid.SampledFrom([]string{"x", "[1,2]", "17", "null", `"a"`, `{"a":1}}`, `{"a"}`, `{"a":}`, "{'a':1}", `{"a":1} {"b":2}`, `{"a":01}`, `{"a":tru}`, `{a:1}`, "\xff\xfe"}).Draw(t, "garbage")...)
		b = append(b, '\n')
		for _, l := range after {
			b = append(append(b, l.text...), '\n')
		}
	case "truncated":
		if len(after) == 0 {
			after = []line{{nil, []byte(`{"a":{"b":[1,2.5,true]}}`)}}
		}
		cut := rapid.IntRange(1, len(after[0].text)-1).Draw(t, "cut")
		tail := bytes.TrimLeft(after[0].text[:cut], " \t")
		if len(tail) == 0 {
			tail = []byte("{")
		}
		b = append(b, tail...)
		if _, _, err := jm.Parse(b[len(b)-len(tail):]); err == nil { // only white space was cut off
			b = append(b[:len(b)-len(tail)], '{')
		}
	case "read error":
		failing = errRead
		if len(after) > 0 && rapid.Bool().Draw(t, "within a line") {
			b = append(b, after[0].text[:len(after[0].text)/2]...)
		}
	}
	how := source(t, dir, b, &opts)
	switch {
	case kind == "missing":
		opts.InputSource, opts.FileName = nil, filepath.Join(dir, "missing")
		ls = nil
	case failing != nil:
		opts.FileName = ""
		opts.InputSource = io.MultiReader(bytes.NewReader(b), iotest.ErrReader(failing))
	}
	c.Class(kind)
	c.Note("%d lines, then %s, from a %s in chunks of %d, flushing every %v", len(ls), kind, how, opts.SampleCount, opts.FlushInterval)
	if len(b) < 3000 {
		c.Note("%q", b)
	}
	err := collect(c, context.Background(), opts)
	if err == nil || failing != nil && !errors.Is(err, failing) {
		c.Failf("error: %v, injected: %v", err, failing)
	}
	compare(c, opts.OutputFilePrefix, opts.SampleCount, ls, true)
	if len(ls) > 0 || kind != "missing" {
		c.NonTrivial(fmt.Sprint(kind, b))
	}
}

// canceled ends collections from outside.
func canceled(c *prop.C) {
	t := c.T
	dir, done := scratch(c)
	defer done()
	ls := lines(c, 12)
	opts := options(t, dir)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	pr, pw := io.Pipe()
	defer pr.Close()
	opts.InputSource = pr
	c.Note("%d lines in chunks of %d, flushing every %v", len(ls), opts.SampleCount, opts.FlushInterval)
	early := rapid.IntRange(0, 4).Draw(t, "early") == 0
	delay := time.Duration(rapid.IntRange(0, 300).Draw(t, "delay")) * time.Microsecond
	go func() {
		defer cancel()
		if early {
			return
		}
		for _, l := range ls {
			if _, err := pw.Write(append(l.text[:len(l.text):len(l.text)], '\n')); err != nil {
				return
			}
		}
		time.Sleep(delay)
	}()
	err := collect(c, ctx, opts)
	if err == nil || !strings.Contains(err.Error(), "operation aborted") {
		c.Failf("canceled: %v", err)
	}
	n := compare(c, opts.OutputFilePrefix, opts.SampleCount, ls, false)
	if len(ls) > 1 {
		c.NonTrivial(fmt.Sprint(n, ls[0].text, len(ls)))
	}
}

// follow collects from a file that grows.
func follow(c *prop.C) {
	t := c.T
	dir, done := scratch(c)
	defer done()
	ls := lines(c, 12)
	var b []byte
	eol := rapid.SampledFrom([]string{"\n", "\n", "\r\n"}).Draw(t, "eol")
	for _, l := range ls {
		b = append(append(b, l.text...), eol...)
	}
	opts := options(t, dir)
	opts.FlushInterval = rapid.SampledFrom([]time.Duration{time.Millisecond, 3 * time.Millisecond}).Draw(t, "flush")
	opts.Follow = true
	opts.FileName = filepath.Join(dir, "in")
	f, err := os.Create(opts.FileName)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	var cuts []int
	for i := rapid.IntRange(0, 6).Draw(t, "parts"); i > 0; i-- {
		cuts = append(cuts, rapid.IntRange(0, len(b)).Draw(t, "cut"))
	}
	pauses := rapid.SliceOfN(rapid.SampledFrom([]time.Duration{0, 200 * time.Microsecond, 2 * time.Millisecond}), len(cuts)+2, len(cuts)+2).Draw(t, "pauses")
	bad := rapid.IntRange(0, 3).Draw(t, "bad") == 0
	c.Note("%d lines in chunks of %d, flushing every %v, written in %d parts, malformed at the end: %v", len(ls), opts.SampleCount, opts.FlushInterval, len(cuts)+1, bad)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	written := make(chan struct{})
	go func() {
		defer close(written)
		defer cancel()
		rest := b
		for i := 0; i <= len(cuts); i++ {
			time.Sleep(pauses[i])
			if ctx.Err() != nil {
				return // the collection has ended too early
			}
			n := len(rest)
			if i < len(cuts) {
				n = min(cuts[i], n)
			}
			if _, err := f.Write(rest[:n]); err != nil {
				panic(err)
			}
			rest = rest[n:]
		}
		if bad {
			time.Sleep(pauses[len(cuts)+1])
			if _, err := f.WriteString("{\"x\"\n"); err != nil {
				panic(err)
			}
			// the collection ends without being canceled
			select {
			case <-ctx.Done():
			case <-time.After(patience):
			}
			return
		}
		for end := time.Now().Add(patience / 2); ctx.Err() == nil && time.Now().Before(end); time.Sleep(500 * time.Microsecond) {
			if docs, _, err := load(opts.OutputFilePrefix); err == nil && len(docs) >= len(ls) {
				return
			}
		}
	}()
	err = func() error {
		defer func() { cancel(); <-written }()
		return collect(c, ctx, opts)
	}()
	aborted := err != nil && strings.Contains(err.Error(), "operation aborted")
	if err == nil || aborted == bad {
		c.Failf("the collection ended with %v", err)
	}
	compare(c, opts.OutputFilePrefix, opts.SampleCount, ls, true)
	if len(ls) > 1 {
		c.NonTrivial(fmt.Sprint(b, cuts))
	}
}

func main() {
	prop.Main(prop.Spec{
		ID:   "X01",
		Rule: "wellformed: three or more lines; malformed: all but missing files; canceled, follow: two or more lines; distinct by the stream",
		Assumptions: []string{
			"numbers are compared by value, whatever their BSON types",
			"every document has at least one number or boolean",
			"after cancelation the samples are those of some first lines",
			"a followed file is expected to be read within 10 seconds",
		},
		Subs: []prop.Sub{
			{Name: "wellformed", Quick: 3750, Thorough: 80000, Shards: 3, HangIsViolation: true, Fn: wellformed},
			{Name: "malformed", Quick: 3000, Thorough: 60000, Shards: 2, HangIsViolation: true, Fn: malformed},
			{Name: "canceled", Quick: 1200, Thorough: 20000, HangIsViolation: true, Fn: canceled},
			{Name: "follow", Quick: 600, Thorough: 10000, Shards: 2, HangIsViolation: true, Fn: follow},
		},
	})
}
