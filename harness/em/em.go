// Package em models event points.
package em

import (
	"fmt"
	"time"

	"github.com/tychoish/birch/x/ftdc/events"
	"pgregory.net/rapid"
	"verif/harness/bm"
)

// I64 draws a number.
func I64(t *rapid.T, name string) int64 {
	return rapid.OneOf(rapid.Int64Range(-3, 100), bm.InterestingInt64(), rapid.Int64()).Draw(t, name)
}

// When draws a time.
func When(t *rapid.T) time.Time {
	return rapid.OneOf(
		rapid.Custom(func(t *rapid.T) time.Time {
			return time.Unix(rapid.Int64Range(-1<<33, 1<<34).Draw(t, "s"), rapid.Int64Range(0, 999999999).Draw(t, "ns"))
		}),
		rapid.Custom(func(t *rapid.T) time.Time {
			return time.UnixMilli(rapid.Int64Range(-5000, 5000).Draw(t, "ms")).In(time.FixedZone("x", 3600))
		}),
		rapid.Just(time.Time{}),
		rapid.Just(time.Unix(0, 0)),
	).Draw(t, "ts")
}

// GenPerf draws a point.
func GenPerf(t *rapid.T) *events.Performance {
	return &events.Performance{
		Timestamp: When(t),
		ID:        I64(t, "id"),
		Counters: events.PerformanceCounters{
			Number: I64(t, "n"), Operations: I64(t, "ops"), Size: I64(t, "size"), Errors: I64(t, "errors"),
		},
		Timers: events.PerformanceTimers{Duration: time.Duration(I64(t, "dur")), Total: time.Duration(I64(t, "total"))},
		Gauges: events.PerformanceGauges{State: I64(t, "state"), Workers: I64(t, "workers"), Failed: rapid.Bool().Draw(t, "failed")},
	}
}

// Gauges is the published form of gauges.
func Gauges(g events.PerformanceGauges) *bm.Node {
	return bm.NDoc(bm.F("state", bm.NInt64(g.State)), bm.F("workers", bm.NInt64(g.Workers)), bm.F("failed", bm.NBool(g.Failed)))
}

// PerfFields is the published form of a point.
func PerfFields(p *events.Performance) []bm.Field {
	return []bm.Field{
		bm.F("ts", bm.NDate(p.Timestamp.UnixMilli())),
		bm.F("id", bm.NInt64(p.ID)),
		bm.F("counters", bm.NDoc(bm.F("n", bm.NInt64(p.Counters.Number)), bm.F("ops", bm.NInt64(p.Counters.Operations)),
			bm.F("size", bm.NInt64(p.Counters.Size)), bm.F("errors", bm.NInt64(p.Counters.Errors)))),
		bm.F("timers", bm.NDoc(bm.F("dur", bm.NInt64(int64(p.Timers.Duration))), bm.F("total", bm.NInt64(int64(p.Timers.Total))))),
		bm.F("gauges", Gauges(p.Gauges)),
	}
}

// SamePerf compares points, their times to the millisecond.
func SamePerf(got, want *events.Performance) string {
	g, w := *got, *want
	if g.Timestamp.UnixMilli() != w.Timestamp.UnixMilli() {
		return fmt.Sprintf("timestamp %v, want %v", g.Timestamp, w.Timestamp)
	}
	g.Timestamp, w.Timestamp = time.Time{}, time.Time{}
	if g != w {
		return fmt.Sprintf("%+v, want %+v", g, w)
	}
	return ""
}

// Sum adds a point as documented: counters and timers are summed, the rest is
// that of the later point, with the next ID when it has none.
func Sum(sum *events.Performance, p events.Performance) {
	sum.Timestamp = p.Timestamp
	if p.ID != 0 {
		sum.ID = p.ID
	} else {
		sum.ID++
	}
	sum.Counters.Number += p.Counters.Number
	sum.Counters.Operations += p.Counters.Operations
	sum.Counters.Size += p.Counters.Size
	sum.Counters.Errors += p.Counters.Errors
	sum.Timers.Duration += p.Timers.Duration
	sum.Timers.Total += p.Timers.Total
	sum.Gauges = p.Gauges
}
