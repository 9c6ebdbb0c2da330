package fm

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"slices"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
	"verif/harness/bm"
)

// Sink is a writer that can be made to fail.
type Sink struct {
	Data   []byte
	Fail   int // how: 1 error, nothing written; 2, 3 short write without an error
	FailAt int // fail this write, counting from 1, and succeed otherwise
	Writes int
	Closed int
}

// ErrSink is the error of a sink.
var ErrSink = errors.New("sink failed")

func (s *Sink) Write(p []byte) (int, error) {
	s.Writes++
	if s.FailAt == s.Writes {
		return 0, ErrSink
	}
	switch s.Fail {
	case 1:
		return 0, ErrSink
	case 2:
		return 0, nil
	case 3:
		return max(0, len(p)-1), nil
	}
	s.Data = append(s.Data, p...)
	return len(p), nil
}

// Close counts.
func (s *Sink) Close() error {
	s.Closed++
	if s.Fail != 0 {
		return ErrSink
	}
	return nil
}

// Check reads data and compares it with the documents, and the sizes of its
// chunks with the limit. Metadata, when not nil, is called with what each
// chunk reports, and the range of samples in it.
func Check(r io.Reader, docs [][]bm.Field, limit int, metadata func(from, to int, md *birch.Document) error) error {
	it := ftdc.ReadChunks(r)
	at := 0
	for ch := range it.Iterator() {
		if ch.Size() > limit {
			return fmt.Errorf("a chunk of %d samples, the limit is %d", ch.Size(), limit)
		}
		if at+ch.Size() > len(docs) {
			return fmt.Errorf("more than %d samples", len(docs))
		}
		group := docs[at : at+ch.Size()]
		flat := slices.Collect(ch.Iterator().Iterator())
		structured := slices.Collect(ch.StructuredIterator().Iterator())
		if len(flat) != ch.Size() || len(structured) != ch.Size() {
			return fmt.Errorf("%d and %d documents in a chunk of %d", len(flat), len(structured), ch.Size())
		}
		for i, d := range group {
			got, err := bm.FromDocErr(flat[i])
			if err != nil {
				return err
			}
			if want := FlatDoc(d); !bm.FieldsEqual(got, want) {
				return fmt.Errorf("sample %d:\n got  %s\n want %s", at+i, bm.Show(got), bm.Show(want))
			}
			got, err = bm.FromDocErr(structured[i])
			if err != nil {
				return err
			}
			got = Prune(got)
			if want := Prune(d); !bm.FieldsEqual(got, want) {
				return fmt.Errorf("structured sample %d:\n got  %s\n want %s", at+i, bm.Show(got), bm.Show(want))
			}
		}
		if metadata != nil {
			if err := metadata(at, at+ch.Size(), ch.Metadata()); err != nil {
				return err
			}
		}
		at += ch.Size()
	}
	if err := it.Close(); err != nil {
		return fmt.Errorf("reading, after %d of %d samples: %w", at, len(docs), err)
	}
	if at != len(docs) {
		return fmt.Errorf("%d samples, want %d", at, len(docs))
	}
	return nil
}

// Held are results that belong to the caller, so that no later operation
// may change them.
type Held struct{ got, want [][]byte }

// Hold remembers a result.
func (h *Held) Hold(b []byte) {
	h.got, h.want = append(h.got, b), append(h.want, bytes.Clone(b))
	if len(h.got) > 4 {
		h.got, h.want = h.got[1:], h.want[1:]
	}
}

// Check reports a result that has changed.
func (h *Held) Check() error {
	for i := range h.got {
		if !bytes.Equal(h.got[i], h.want[i]) {
			return fmt.Errorf("bytes returned before were changed:\n got  %x\n want %x", h.got[i], h.want[i])
		}
	}
	return nil
}
