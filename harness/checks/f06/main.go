// F06: CSV export and import preserve the values of metrics.
package main

import (
	"bytes"
	"encoding/csv"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"testing/iotest"
	"time"

	"github.com/tychoish/birch/x/ftdc"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/fm"
	"verif/harness/prop"
)

// key draws names; CSV readers turn "\r\n" into "\n".
func key() *rapid.Generator[string] {
	return rapid.OneOf(bm.SimpleKey(), rapid.StringOfN(rapid.SampledFrom([]rune("ab,\"' \n;.#é\t")), 1, 5, -1))
}

func dates(fs []bm.Field, t *rapid.T) {
	for _, f := range fs {
		if f.V.T == bm.DateTime {
			// years that RFC 3339 can express, in any time zone
			f.V.U = uint64(rapid.Int64Range(-62135510400000, 253402200000000).Draw(t, "date"))
		}
		dates(f.V.Kids, t)
	}
}

// group is a run of documents in one chunk.
type group struct{ docs [][]bm.Field }

func (g group) fields() int { return len(fm.Flatten(g.docs[0])) }

// draw produces chunks of metrics, whose shapes change in number of metrics
// if they change.
func draw(c *prop.C, change bool) (gs []group, b []byte) {
	t := c.T
	var last []bm.Field
	for i := rapid.IntRange(1, 5).Draw(t, "chunks"); i > 0; i-- {
		shape := last
		if shape == nil || change && rapid.Bool().Draw(t, "other shape") {
			shape = fm.Shape(t, fm.ShapeOpts{Others: rapid.Bool().Draw(t, "others"), Min: 1, MaxLen: 4, MaxDepth: 2, Keys: key()})
			if last != nil && len(fm.Flatten(shape)) == len(fm.Flatten(last)) {
				shape = append(bm.CloneFields(shape), bm.F("more", bm.NInt64(1)))
			}
		}
		last = shape
		docs := fm.Docs(t, shape, rapid.IntRange(1, 5).Draw(t, "samples"))
		for j := range docs {
			docs[j] = bm.CloneFields(docs[j])
			dates(docs[j], t)
			c.Note("%s", bm.Show(docs[j]))
		}
		gs = append(gs, group{docs})
		b = append(b, bm.EncodeFields(fm.ChunkDoc(fm.Compress(fm.Payload(docs, func(z int) int { return z }), 6), 1))...)
		if len(docs) == 0 {
			panic("no documents")
		}
	}
	return gs, b
}

func cell(m fm.Metric, s string) bool {
	if m.T == bm.DateTime {
		d, err := time.Parse(time.RFC3339Nano, s)
		return err == nil && d.UnixMilli() == m.Values[0]
	}
	return s == strconv.FormatInt(m.Values[0], 10)
}

// compare reads a CSV file and compares it with the chunks.
func compare(c *prop.C, b []byte, gs []group) {
	rows, err := csv.NewReader(bytes.NewReader(b)).ReadAll()
	if err != nil {
		c.Failf("the output is not CSV: %v\n%s", err, b)
	}
	if len(rows) == 0 {
		c.Failf("no header")
	}
	for j, m := range fm.Flatten(gs[0].docs[0]) {
		if j >= len(rows[0]) || rows[0][j] != m.Key {
			c.Failf("header %q, metric %d is %q", rows[0], j, m.Key)
		}
	}
	if len(rows[0]) != gs[0].fields() {
		c.Failf("header %q has %d columns, want %d", rows[0], len(rows[0]), gs[0].fields())
	}
	rows = rows[1:]
	for _, g := range gs {
		for _, d := range g.docs {
			if len(rows) == 0 {
				c.Failf("rows are missing")
			}
			for j, m := range fm.Flatten(d) {
				if !cell(m, rows[0][j]) {
					c.Failf("%q is %q, want %d (type %#x)", m.Key, rows[0][j], m.Values[0], m.T)
				}
			}
			rows = rows[1:]
		}
	}
	if len(rows) > 0 {
		c.Failf("more rows: %q", rows)
	}
}

func write(c *prop.C) {
	gs, b := draw(c, rapid.IntRange(0, 3).Draw(c.T, "change") == 0)
	n := 1
	for n < len(gs) && gs[n].fields() == gs[0].fields() {
		n++
	}
	samples := 0
	for _, g := range gs {
		samples += len(g.docs)
	}
	if samples > 1 && gs[0].fields() > 1 {
		c.NonTrivial(b)
	}
	var out bytes.Buffer
	err := ftdc.WriteCSV(ftdc.ReadChunks(bytes.NewReader(b)).Iterator(), &out)
	if (err != nil) != (n < len(gs)) {
		c.Failf("%d of %d chunks have the first shape: %v", n, len(gs), err)
	}
	if n < len(gs) {
		c.Class("schema change")
	}
	compare(c, out.Bytes(), gs[:n])
	if n == len(gs) && rapid.IntRange(0, 3).Draw(c.T, "failing writer") == 0 {
		c.Class("failing writer")
		err := ftdc.WriteCSV(ftdc.ReadChunks(bytes.NewReader(b)).Iterator(), &fm.Sink{Fail: 1})
		if !errors.Is(err, fm.ErrSink) {
			c.Failf("writing to a failing writer: %v", err)
		}
	}
}

func dump(c *prop.C) {
	gs, b := draw(c, true)
	dir, err := os.MkdirTemp("", "verif-csv-")
	if err != nil {
		c.Failf("%v", err)
	}
	defer os.RemoveAll(dir)
	prefix := filepath.Join(dir, "out")
	if err := ftdc.DumpCSV(ftdc.ReadChunks(bytes.NewReader(b)).Iterator(), prefix); err != nil {
		c.Failf("dump: %v", err)
	}
	c.Closed(dir, "DumpCSV")
	if rapid.IntRange(0, 9).Draw(c.T, "no directory") == 0 {
		c.NoPanic("dump", func() {
			err = ftdc.DumpCSV(ftdc.ReadChunks(bytes.NewReader(b)).Iterator(), filepath.Join(dir, "none", "out"))
		})
		if err == nil {
			c.Failf("dumped into a directory that does not exist")
		}
	}
	var files [][]group
	for i, g := range gs {
		if i == 0 || g.fields() != gs[i-1].fields() {
			files = append(files, nil)
		}
		files[len(files)-1] = append(files[len(files)-1], g)
	}
	if len(files) > 1 {
		c.NonTrivial(b)
	}
	for i, f := range files {
		content, err := os.ReadFile(fmt.Sprintf("%s.%d.csv", prefix, i))
		if err != nil {
			c.Failf("file %d: %v", i, err)
		}
		compare(c, content, f)
	}
	if found, _ := os.ReadDir(dir); len(found) != len(files) {
		c.Failf("%d files, want %d", len(found), len(files))
	}
	if rapid.IntRange(0, 4).Draw(c.T, "full device") == 0 {
		// one of the files is on a device without space.
		c.Class("full device")
		at := rapid.IntRange(0, len(files)-1).Draw(c.T, "full")
		prefix = filepath.Join(dir, "full")
		if err := os.Symlink("/dev/full", fmt.Sprintf("%s.%d.csv", prefix, at)); err != nil {
			c.Failf("%v", err)
		}
		if err := ftdc.DumpCSV(ftdc.ReadChunks(bytes.NewReader(b)).Iterator(), prefix); err == nil {
			c.Failf("file %d of %d could not be written, and no error", at, len(files))
		}
		c.Closed(dir, "a failed DumpCSV")
		c.Closed("/dev/full", "a failed DumpCSV")
	}
}

// load imports CSV of integers.
func load(c *prop.C) {
	t := c.T
	var in bytes.Buffer
	w := csv.NewWriter(&in)
	w.UseCRLF = rapid.Bool().Draw(t, "crlf")
	var docs [][]bm.Field
	cols := 0
	sections := rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "sections")
	verdict := ""
	ragged := false
	odd := rapid.IntRange(0, 3).Draw(t, "odd numbers") == 0
	for i := 0; i < sections && verdict == ""; i++ {
		n := rapid.IntRange(1, 6).Draw(t, "columns")
		if n == cols {
			n++
		}
		cols = n
		var header []string
		for len(header) < n {
			header = append(header, rapid.SampledFrom([]string{"", "c", "x.y"}).Draw(t, "prefix")+key().Draw(t, "name"))
		}
		_ = w.Write(header)
		rows := rapid.IntRange(1, 6).Draw(t, "rows")
		if i == 0 && sections == 1 && rapid.IntRange(0, 10).Draw(t, "header only") == 0 {
			rows = 0
		}
		for j := 0; j < rows; j++ {
			var d []bm.Field
			var rec []string
			for _, h := range header {
				v := bm.InterestingInt64().Draw(t, "value")
				if rapid.IntRange(0, 2).Draw(t, "small") > 0 {
					v = int64(rapid.IntRange(-3, 50).Draw(t, "small value"))
				}
				cell := strconv.FormatInt(v, 10)
				if odd && rapid.IntRange(0, 3).Draw(t, "odd") == 0 {
					// other ways to write the same decimal number
					sign, digits := "", cell
					if v < 0 {
						sign, digits = "-", cell[1:]
					} else if rapid.Bool().Draw(t, "plus") {
						sign = "+"
					}
					cell = sign + strings.Repeat("0", rapid.IntRange(0, 3).Draw(t, "zeros")) + digits
				}
				rec = append(rec, cell)
				d = append(d, bm.F(h, bm.NInt64(v)))
			}
			_ = w.Write(rec)
			docs = append(docs, d)
			c.Note("%q", rec)
		}
		// a record with another number of fields among others of this
		// section is an error, except that it's taken for a header.
		if i == sections-1 && rows > 0 && rapid.IntRange(0, 4).Draw(t, "ragged") == 0 {
			ragged = true
			verdict = "ragged record"
			k := rapid.IntRange(1, 8).Draw(t, "fields")
			if k == cols {
				k++
			}
			rec := slices.Repeat([]string{"7"}, k)
			_ = w.Write(rec)
			if rapid.Bool().Draw(t, "go on") {
				_ = w.Write(slices.Repeat([]string{"8"}, cols))
			}
		}
	}
	w.Flush()
	b := in.Bytes()
	if !ragged && len(docs) > 0 && rapid.IntRange(0, 4).Draw(t, "malformed") == 0 {
		verdict = "malformed record"
		b = append(bytes.Clone(b), []byte(rapid.SampledFrom([]string{"1\"2", "\"unterminated", "\"a\"b\n"}).Draw(t, "malformed record"))...)
	}
	size := rapid.SampledFrom([]int{1, 2, 3, 100}).Draw(t, "size")
	c.Note("%q", b)
	c.Class("import " + verdict)
	if len(docs) > 1 {
		c.NonTrivial(b)
	}
	sink := &fm.Sink{}
	err := ftdc.ConvertFromCSV(size, bytes.NewReader(b), sink)
	if (err != nil) != (verdict != "") {
		c.Failf("import of %q: %v", verdict, err)
	}
	if verdict == "" {
		if err := fm.Check(bytes.NewReader(sink.Data), docs, size, nil); err != nil {
			c.Failf("imported: %v", err)
		}
		// what was imported can be exported again
		if sections == 1 && len(docs) > 0 && !odd {
			var out bytes.Buffer
			if err := ftdc.WriteCSV(ftdc.ReadChunks(bytes.NewReader(sink.Data)).Iterator(), &out); err != nil {
				c.Failf("export: %v", err)
			}
			again, _ := csv.NewReader(&out).ReadAll()
			orig, _ := csv.NewReader(bytes.NewReader(b)).ReadAll()
			if fmt.Sprintf("%q", again) != fmt.Sprintf("%q", orig) {
				c.Failf("export of the import:\n got  %q\n want %q", again, orig)
			}
		}
		if len(docs) > 0 {
			if err := ftdc.ConvertFromCSV(size, bytes.NewReader(b), &fm.Sink{Fail: rapid.IntRange(1, 2).Draw(t, "how")}); err == nil {
				c.Failf("import to a failing writer succeeded")
			}
			if sink.Writes > 0 {
				// a writer that fails once
				at := rapid.IntRange(1, sink.Writes).Draw(t, "fails at")
				if err := ftdc.ConvertFromCSV(size, bytes.NewReader(b), &fm.Sink{FailAt: at}); !errors.Is(err, fm.ErrSink) {
					c.Failf("import to a writer that fails at write %d of %d: %v", at, sink.Writes, err)
				}
			}
			r := &failAfter{strings.NewReader(string(b))}
			if err := ftdc.ConvertFromCSV(size, r, &fm.Sink{}); !errors.Is(err, errReader) {
				c.Failf("import from a failing reader: %v", err)
			}
		}
		return
	}
	// what was imported before is still a prefix of the rows
	n := 0
	it := ftdc.ReadChunks(bytes.NewReader(sink.Data))
	for ch := range it.Iterator() {
		n += ch.Size()
	}
	if it.Close() != nil || n > len(docs) {
		c.Failf("%d rows from %d: %v", n, len(docs), it.Close())
	}
	if err := fm.Check(bytes.NewReader(sink.Data), docs[:n], size, nil); err != nil {
		c.Failf("imported before the error: %v", err)
	}
}

var errReader = errors.New("reader failed")

type failAfter struct{ r *strings.Reader }

func (f *failAfter) Read(p []byte) (int, error) {
	if f.r.Len() == 0 {
		return iotest.ErrReader(errReader).Read(p)
	}
	return f.r.Read(p)
}

func main() {
	prop.Main(prop.Spec{
		ID:   "F06",
		Rule: "more than one row and, for exports, more than one column, or more than one file; distinct by the bytes",
		Assumptions: []string{
			"doubles are exported as the integers of their bits, as the existing tests require; timestamps as two columns",
			"shape changes of exports are changes of the number of metrics, as documented",
			"names have no carriage returns, which CSV readers normalise; dates are within the range of RFC 3339",
		},
		Subs: []prop.Sub{
			{Name: "write", Quick: 8000, Thorough: 150000, Shards: 2, HangIsViolation: true, Fn: write},
			{Name: "dump", Quick: 3000, Thorough: 40000, Shards: 2, HangIsViolation: true, Fn: dump},
			{Name: "load", Quick: 10000, Thorough: 200000, Shards: 2, HangIsViolation: true, Fn: load},
		},
	})
}
