package em

import (
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
	"github.com/tychoish/birch/x/ftdc/events"
	"verif/harness/bm"
)

// ErrRec is the error of a failing Rec.
var ErrRec = errors.New("injected failure")

// Sample is what was given to a collector.
type Sample struct {
	Fields []bm.Field             // the document
	HDR    *events.PerformanceHDR // or the histograms (not a copy)
	Point  HDRPoint
	At     time.Time
	Failed bool
}

// HDRPoint sums up a histogram point.
type HDRPoint struct {
	Timestamp                        time.Time
	ID                               int64
	Gauges                           events.PerformanceGauges
	Number, Operations, Size, Errors Hist
	Duration, Total                  Hist
}

// Hist sums up a histogram.
type Hist struct {
	Count int64
	Mean  float64
	Max   int64
}

// Rec is a collector that keeps what it is given.
type Rec struct {
	mu       sync.Mutex
	samples  []Sample
	fail     int
	delay    time.Duration
	Metadata []any
	Resolves int
	Resets   int
	busy     int
	Overlaps int // concurrent calls
}

func (r *Rec) enter() func() {
	r.mu.Lock()
	if r.busy > 0 {
		r.Overlaps++
	}
	r.busy++
	d := r.delay
	r.mu.Unlock()
	if d > 0 {
		time.Sleep(d)
	}
	return func() { r.mu.Lock(); r.busy--; r.mu.Unlock() }
}

// SetFail makes the next n additions fail.
func (r *Rec) SetFail(n int) { r.mu.Lock(); r.fail = n; r.mu.Unlock() }

// SetDelay makes additions slow.
func (r *Rec) SetDelay(d time.Duration) { r.mu.Lock(); r.delay = d; r.mu.Unlock() }

// Samples returns what was given so far.
func (r *Rec) Samples() []Sample {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.samples[:len(r.samples):len(r.samples)]
}

// Add keeps the document.
func (r *Rec) Add(in any) error {
	defer r.enter()()
	s := Sample{At: time.Now()}
	switch v := in.(type) {
	case *events.PerformanceHDR:
		h := func(x interface {
			TotalCount() int64
			Mean() float64
			Max() int64
		}) Hist {
			return Hist{x.TotalCount(), x.Mean(), x.Max()}
		}
		s.HDR = v
		s.Point = HDRPoint{v.Timestamp, v.ID, v.Gauges, h(v.Counters.Number), h(v.Counters.Operations), h(v.Counters.Size),
			h(v.Counters.Errors), h(v.Timers.Duration), h(v.Timers.Total)}
	case birch.DocumentMarshaler:
		d, err := v.MarshalDocument()
		if err != nil {
			return err
		}
		b, err := d.MarshalBSON()
		if err != nil {
			return err
		}
		if s.Fields, err = bm.DecodeDoc(b); err != nil {
			return err
		}
	case *birch.Document:
		b, err := v.MarshalBSON()
		if err != nil {
			return err
		}
		if s.Fields, err = bm.DecodeDoc(b); err != nil {
			return err
		}
	default:
		return fmt.Errorf("cannot collect a %T", in)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.fail > 0 {
		r.fail--
		s.Failed = true
	}
	r.samples = append(r.samples, s)
	if s.Failed {
		return ErrRec
	}
	return nil
}

// SetMetadata keeps it.
func (r *Rec) SetMetadata(in any) error {
	defer r.enter()()
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Metadata = append(r.Metadata, in)
	return nil
}

// Resolve counts.
func (r *Rec) Resolve() ([]byte, error) {
	defer r.enter()()
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Resolves++
	return []byte("resolved"), nil
}

// Reset counts.
func (r *Rec) Reset() {
	defer r.enter()()
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Resets++
}

// Info counts the samples.
func (r *Rec) Info() ftdc.CollectorInfo {
	r.mu.Lock()
	defer r.mu.Unlock()
	return ftdc.CollectorInfo{MetricsCount: 11, SampleCount: len(r.samples)}
}

var _ ftdc.Collector = (*Rec)(nil)
