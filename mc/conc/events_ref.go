package conc

import (
	"errors"
	"fmt"
	"math/bits"
	"reflect"
	"time"
	"unsafe"

	"github.com/tychoish/birch/x/ftdc"
	"github.com/tychoish/birch/x/ftdc/events"
	"github.com/tychoish/fun/dt/hdrhist"
)

// evPoint is a recorded point, as values: sums for Performance, the multiset
// of recorded values for PerformanceHDR.
type evPoint struct {
	ts             time.Time
	id             int64
	n, ops, size   []int64
	errs           []int64
	dur, total     []int64
	state, workers int64
	failed         bool
	hist           bool
	sums           [6]int64
	counts         [6]int64
	atValue        [6]map[int64]int64
	wrong          string
}

var evNames = [6]string{"n", "ops", "size", "errors", "dur", "total"}

func (p *evPoint) metrics() [6]*[]int64 {
	return [6]*[]int64{&p.n, &p.ops, &p.size, &p.errs, &p.dur, &p.total}
}

// histLayout locates a value's counter inside a histogram.
type histLayout struct{ fields map[string]uintptr }

var hl = func() histLayout {
	t := reflect.TypeFor[hdrhist.Histogram]()
	m := map[string]uintptr{}
	for i := range t.NumField() {
		m[t.Field(i).Name] = t.Field(i).Offset
	}
	return histLayout{m}
}()

// histKnown says whether the cells of a histogram can be read, which depends
// on its layout.
func histKnown() bool {
	t := reflect.TypeFor[hdrhist.Histogram]()
	for n, k := range map[string]reflect.Kind{"counts": reflect.Slice, "unitMagnitude": reflect.Int64, "subBucketHalfCount": reflect.Int32,
		"subBucketHalfCountMagnitude": reflect.Int32, "subBucketMask": reflect.Int64} {
		if f, ok := t.FieldByName(n); !ok || f.Type.Kind() != k || k == reflect.Slice && f.Type.Elem().Kind() != reflect.Int64 {
			return false
		}
	}
	return true
}

func histCounts(h *hdrhist.Histogram) []int64 {
	return *(*[]int64)(unsafe.Add(unsafe.Pointer(h), hl.fields["counts"]))
}

// evCandidates are the values histories record.
var evCandidates []int64

// histIndex is the cell of the histogram that counts v, or -1 when v is out
// of range (the published HDR layout).
func histIndex(h *hdrhist.Histogram, v int64) int {
	get32 := func(n string) int64 { return int64(*(*int32)(unsafe.Add(unsafe.Pointer(h), hl.fields[n]))) }
	get64 := func(n string) int64 { return *(*int64)(unsafe.Add(unsafe.Pointer(h), hl.fields[n])) }
	unit, half, mag := get64("unitMagnitude"), get32("subBucketHalfCount"), get32("subBucketHalfCountMagnitude")
	bucket := int64(bits.Len64(uint64(v|get64("subBucketMask")))) - unit - mag - 1
	i := (bucket+1)<<mag + v>>uint(bucket+unit) - half
	if v < 0 || i < 0 || i >= int64(len(histCounts(h))) {
		return -1
	}
	return int(i)
}

func takePoint(in any) evPoint {
	switch p := in.(type) {
	case *events.Performance:
		return evPoint{ts: p.Timestamp, id: p.ID, state: p.Gauges.State, workers: p.Gauges.Workers, failed: p.Gauges.Failed,
			sums: [6]int64{p.Counters.Number, p.Counters.Operations, p.Counters.Size, p.Counters.Errors, int64(p.Timers.Duration), int64(p.Timers.Total)}}
	case events.Performance:
		return takePoint(&p)
	case *events.PerformanceHDR:
		out := evPoint{ts: p.Timestamp, id: p.ID, state: p.Gauges.State, workers: p.Gauges.Workers, failed: p.Gauges.Failed, hist: true}
		for i, h := range []*hdrhist.Histogram{p.Counters.Number, p.Counters.Operations, p.Counters.Size, p.Counters.Errors, p.Timers.Duration, p.Timers.Total} {
			out.counts[i] = h.TotalCount()
			out.atValue[i] = map[int64]int64{}
			if out.counts[i] == 0 || !histKnown() {
				continue
			}
			for _, v := range evCandidates {
				if j := histIndex(h, v); j >= 0 && histCounts(h)[j] > 0 {
					out.atValue[i][int64(j)] = histCounts(h)[j]
				}
			}
		}
		return out
	default:
		return evPoint{wrong: fmt.Sprintf("%T", in)}
	}
}

// diff compares a persisted point with the expected one.
func (want *evPoint) diff(got evPoint, hist bool, tsAlso time.Time) string {
	if got.wrong != "" {
		return "persisted a value of type " + got.wrong
	}
	if got.hist != hist {
		return "persisted the wrong type of point"
	}
	if !got.ts.Equal(want.ts) && !(!tsAlso.IsZero() && got.ts.Equal(tsAlso)) {
		return fmt.Sprintf("timestamp is %v, expected %v", got.ts, want.ts)
	}
	if got.id != want.id {
		return fmt.Sprintf("id is %d, expected %d", got.id, want.id)
	}
	if got.state != want.state || got.workers != want.workers || got.failed != want.failed {
		return fmt.Sprintf("gauges are %d %d %v, expected %d %d %v", got.state, got.workers, got.failed, want.state, want.workers, want.failed)
	}
	for i, m := range want.metrics() {
		if !hist {
			var s int64
			for _, v := range *m {
				s += v
			}
			if s != got.sums[i] {
				return fmt.Sprintf("%s is %d, expected %d", evNames[i], got.sums[i], s)
			}
			continue
		}
		if int64(len(*m)) != got.counts[i] {
			return fmt.Sprintf("%s has %d recorded values, expected %d (%v)", evNames[i], got.counts[i], len(*m), *m)
		}
		w := map[int64]int64{}
		if !histKnown() {
			continue
		}
		for _, v := range *m {
			j := histIndex(evHist(i), v)
			w[int64(j)]++
		}
		for j, c := range w {
			if got.atValue[i][j] != c {
				return fmt.Sprintf("%s: expected the values %v, has %d at cell %d instead of %d", evNames[i], *m, got.atValue[i][j], j, c)
			}
		}
	}
	return ""
}

var evHists [2]*hdrhist.Histogram

// evHist is an empty histogram of the configuration of metric i.
func evHist(i int) *hdrhist.Histogram {
	if evHists[0] == nil {
		p := events.NewHistogramMillisecond(events.PerformanceGauges{})
		evHists = [2]*hdrhist.Histogram{p.Counters.Number, p.Timers.Total}
	}
	return evHists[i/4]
}

func (p evPoint) String() string {
	if p.hist {
		return fmt.Sprintf("{%v id=%d counts=%v gauges=%d,%d,%v}", p.ts, p.id, p.counts, p.state, p.workers, p.failed)
	}
	return fmt.Sprintf("{%v id=%d n=%d ops=%d size=%d errors=%d dur=%d total=%d gauges=%d,%d,%v}", p.ts, p.id,
		p.sums[0], p.sums[1], p.sums[2], p.sums[3], p.sums[4], p.sums[5], p.state, p.workers, p.failed)
}

// evSink stands for the FTDC collector below a recorder: it copies each point
// at the moment it is added.
type evSink struct {
	points   []evPoint
	at       []time.Time
	failNext bool
	failed   []error
	resets   int
	probe    int // written without synchronization: calls must not overlap
	inside   bool
	overlap  bool
	onAdd    func()
}

var _ ftdc.Collector = (*evSink)(nil)

func (s *evSink) SetMetadata(any) error { return nil }
func (s *evSink) Add(in any) error {
	s.probe++
	if s.inside {
		s.overlap = true
	}
	s.inside = true
	if s.onAdd != nil {
		s.onAdd()
	}
	s.points = append(s.points, takePoint(in))
	s.at = append(s.at, time.Now())
	s.inside = false
	if s.failNext {
		s.failNext = false
		err := fmt.Errorf("injected failure %d", len(s.failed))
		s.failed = append(s.failed, err)
		return err
	}
	return nil
}
func (s *evSink) Resolve() ([]byte, error) { return nil, errors.New("nothing here") }
func (s *evSink) Reset()                   { s.resets++ }
func (s *evSink) Info() ftdc.CollectorInfo { return ftdc.CollectorInfo{SampleCount: len(s.points)} }
