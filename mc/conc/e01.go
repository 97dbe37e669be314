package conc

import (
	"context"
	"errors"
	"fmt"
	"time"

	"birchmc/engine"
	"birchmc/mcrt"
	mctx "birchmc/mcrt/mctx"

	"github.com/tychoish/birch/x/ftdc/events"
)

const (
	evInterval = time.Second
	evHalf     = evInterval / 2
	evDur      = 3 * time.Millisecond
)

// evKind is a kind of recorder together with what it is documented to do.
type evKind struct {
	name     string
	hist     bool
	flusher  bool // persists in the background, every interval
	each     bool // persists every iteration
	grouped  bool // persists iterations once per interval
	single   bool // persists only at the end of the test, always
	set      bool // SetDuration and SetTotalDuration replace
	lastTick bool // EndTest closes the running iteration's total
	keepTS   bool // the timestamp stays for later points of the test
	wrap     string
	make     func(ctx context.Context, s *evSink) events.Recorder
}

var evKinds = []evKind{
	{name: "raw", each: true, set: true, keepTS: true, make: func(_ context.Context, s *evSink) events.Recorder { return events.NewRawRecorder(s) }},
	{name: "single", single: true, keepTS: true, make: func(_ context.Context, s *evSink) events.Recorder { return events.NewSingleRecorder(s) }},
	{name: "grouped", grouped: true, make: func(_ context.Context, s *evSink) events.Recorder {
		return events.NewGroupedRecorder(s, evInterval)
	}},
	{name: "interval", flusher: true, make: func(ctx context.Context, s *evSink) events.Recorder {
		return events.NewIntervalRecorder(ctx, s, evInterval)
	}},
	{name: "sync-raw", each: true, set: true, keepTS: true, make: func(_ context.Context, s *evSink) events.Recorder {
		return events.NewSynchronizedRecorder(events.NewRawRecorder(s))
	}},
	{name: "shim-single", single: true, keepTS: true, wrap: "shim", make: func(_ context.Context, s *evSink) events.Recorder { return events.NewSingleRecorder(s) }},
	{name: "hist", hist: true, each: true, keepTS: true, make: func(_ context.Context, s *evSink) events.Recorder { return events.NewHistogramRecorder(s) }},
	{name: "hist-single", hist: true, single: true, keepTS: true, make: func(_ context.Context, s *evSink) events.Recorder { return events.NewSingleHistogramRecorder(s) }},
	{name: "hist-grouped", hist: true, grouped: true, keepTS: true, make: func(_ context.Context, s *evSink) events.Recorder {
		return events.NewHistogramGroupedRecorder(s, evInterval)
	}},
	{name: "hist-interval", hist: true, flusher: true, lastTick: true, make: func(ctx context.Context, s *evSink) events.Recorder {
		return events.NewIntervalHistogramRecorder(ctx, s, evInterval)
	}},
}

// evModel is the reference recorder.
type evModel struct {
	k         *evKind
	p         evPoint
	started   time.Time
	last      time.Time // when a group was persisted
	persisted evPoint   // the last persisted point of a grouped recorder
	ticking   time.Time // when the flusher started
	cancelled bool
	fail      bool
	errs      int // errors to be reported by EndTest: injected
	bad       int // and values out of range
	want      []evPoint
	alsoTS    []time.Time
}

func (m *evModel) setTS(now time.Time) {
	if m.p.ts.IsZero() {
		m.p.ts = now
		if !m.started.IsZero() {
			m.p.ts = m.started
		}
	}
}

// clone copies the values, so that later recordings do not show.
func (p evPoint) clone() evPoint {
	q := p
	for i, m := range q.metrics() {
		*m = append([]int64(nil), (*p.metrics()[i])...)
	}
	return q
}

func (m *evModel) persist(also time.Time) {
	m.want = append(m.want, m.p.clone())
	m.alsoTS = append(m.alsoTS, also)
	if m.fail {
		m.fail = false
		m.errs++
	}
}

func (m *evModel) rec(list *[]int64, v int64) {
	if m.k.hist && histIndex(evHist(m.metric(list)), v) < 0 {
		m.bad++
		return
	}
	*list = append(*list, v)
}

func (m *evModel) metric(list *[]int64) int {
	for i, l := range m.p.metrics() {
		if l == list {
			return i
		}
	}
	panic("no such metric")
}

func (m *evModel) reset() {
	m.p = evPoint{state: m.p.state, workers: m.p.workers, failed: m.p.failed}
	m.started = time.Time{}
	m.last = time.Time{}
	m.persisted = evPoint{}
	m.ticking = time.Time{}
	m.errs, m.bad = 0, 0
}

func (m *evModel) begin(now time.Time) {
	if m.k.flusher && m.ticking.IsZero() {
		m.ticking = now
	}
	m.started = now
	if !m.k.single {
		m.setTS(now)
	}
}

func (m *evModel) end(now time.Time, d time.Duration) {
	began := m.started
	m.setTS(now)
	m.rec(&m.p.n, 1)
	m.rec(&m.p.dur, int64(d))
	if !m.started.IsZero() {
		m.rec(&m.p.total, int64(now.Sub(m.started)))
	}
	m.started = time.Time{}
	switch {
	case m.k.each:
		m.persist(began)
	case m.k.grouped && now.Sub(m.last) >= evInterval:
		m.persist(began)
		m.last = now
		m.persisted = m.p.clone()
		if !m.k.keepTS {
			m.p.ts = time.Time{}
		}
	}
}

// leftovers says whether there are values that no persisted point has.
func (m *evModel) leftovers() bool {
	for i, l := range m.p.metrics() {
		old := *m.persisted.metrics()[i]
		if !m.k.hist {
			var a, b int64
			for _, v := range *l {
				a += v
			}
			for _, v := range old {
				b += v
			}
			if a != b {
				return true
			}
		} else if len(*l) > 0 {
			return true
		}
	}
	return false
}

func (m *evModel) endTest(now time.Time) {
	began := m.started
	if m.k.lastTick && !m.started.IsZero() {
		m.rec(&m.p.total, int64(now.Sub(m.started)))
		m.started = time.Time{}
	}
	if m.k.single || m.leftovers() {
		m.setTS(now)
	}
	if !m.p.ts.IsZero() {
		m.persist(began)
	}
}

// advance lets time pass: the flusher persists at every tick.
func (m *evModel) advance(now time.Time, d time.Duration) {
	if !m.k.flusher || m.ticking.IsZero() || m.cancelled {
		return
	}
	for t := m.ticking.Add(evInterval); !t.After(now.Add(d)); t = t.Add(evInterval) {
		if t.After(now) {
			m.setTS(t)
			m.persist(m.started)
			m.p = evPoint{state: m.p.state, workers: m.p.workers, failed: m.p.failed}
		}
	}
}

// evOp is one step of a history.
type evOp struct {
	name string
	do   func(h *evRun)
}

type evTimer struct{ log []string }

func (t *evTimer) ResetTimer() { t.log = append(t.log, "reset") }
func (t *evTimer) StartTimer() { t.log = append(t.log, "start") }
func (t *evTimer) StopTimer()  { t.log = append(t.log, "stop") }

type evRun struct {
	c      *engine.Chooser
	r      events.Recorder
	m      *evModel
	s      *evSink
	tm     *evTimer
	wantTM []string
	cancel context.CancelFunc
	t0     time.Time
}

const (
	tooMany = int64(1) << 41 // beyond every documented histogram range
	tooLong = 100 * time.Hour
)

var evOps = []evOp{
	{"Begin", func(h *evRun) { h.r.BeginIteration(); h.m.begin(time.Now()); h.timer("start") }},
	{"End", func(h *evRun) { h.r.EndIteration(evDur); h.m.end(time.Now(), evDur); h.timer("stop") }},
	{"EndTest", func(h *evRun) { h.endTest() }},
	{"Reset", func(h *evRun) { h.r.Reset(); h.m.reset(); h.timer("reset") }},
	{"half", func(h *evRun) { h.advance(evHalf) }},
	{"interval", func(h *evRun) { h.advance(evInterval) }},
	{"IncOperations", func(h *evRun) { h.r.IncOperations(5); h.m.rec(&h.m.p.ops, 5) }},
	{"SetTime", func(h *evRun) { h.r.SetTime(h.t0.Add(-time.Hour)); h.m.p.ts = h.t0.Add(-time.Hour) }},
	{"fail", func(h *evRun) { h.s.failNext = true; h.m.fail = true }},
	{"cancel", func(h *evRun) {
		if !h.m.k.flusher || h.m.cancelled {
			h.c.Skip()
		}
		h.cancel()
		h.m.cancelled = true
		mcrt.Settle()
	}},
	{"long", func(h *evRun) { h.advance(5 * evHalf) }},
	{"SetState", func(h *evRun) { h.r.SetState(4); h.m.p.state = 4 }},
	{"IncIterations", func(h *evRun) { h.r.IncIterations(2); h.m.rec(&h.m.p.n, 2) }},
	{"IncSize", func(h *evRun) { h.r.IncSize(7); h.m.rec(&h.m.p.size, 7) }},
	{"IncError", func(h *evRun) { h.r.IncError(3); h.m.rec(&h.m.p.errs, 3) }},
	{"SetWorkers", func(h *evRun) { h.r.SetWorkers(6); h.m.p.workers = 6 }},
	{"SetFailed", func(h *evRun) { h.r.SetFailed(!h.m.p.failed); h.m.p.failed = !h.m.p.failed }},
	{"SetID", func(h *evRun) { h.r.SetID(9); h.m.p.id = 9 }},
	{"SetDuration", func(h *evRun) {
		h.r.SetDuration(2 * time.Millisecond)
		h.set(&h.m.p.dur, 2*time.Millisecond)
	}},
	{"SetTotalDuration", func(h *evRun) {
		h.r.SetTotalDuration(8 * time.Millisecond)
		h.set(&h.m.p.total, 8*time.Millisecond)
	}},
	bad("IncOperations", func(h *evRun) { h.r.IncOperations(tooMany); h.m.rec(&h.m.p.ops, tooMany) }),
	bad("SetDuration", func(h *evRun) { h.r.SetDuration(tooLong); h.m.rec(&h.m.p.dur, int64(tooLong)) }),
	bad("IncIterations", func(h *evRun) { h.r.IncIterations(tooMany); h.m.rec(&h.m.p.n, tooMany) }),
	bad("IncSize", func(h *evRun) { h.r.IncSize(tooMany); h.m.rec(&h.m.p.size, tooMany) }),
	bad("IncError", func(h *evRun) { h.r.IncError(tooMany); h.m.rec(&h.m.p.errs, tooMany) }),
	bad("SetTotalDuration", func(h *evRun) { h.r.SetTotalDuration(tooLong); h.m.rec(&h.m.p.total, int64(tooLong)) }),
	bad("End", func(h *evRun) { h.r.EndIteration(tooLong); h.m.end(time.Now(), tooLong); h.timer("stop") }),
}

// evSetters take the boundary values.
var evSetters = []struct {
	name string
	do   func(h *evRun, v int64)
}{
	{"End", func(h *evRun, v int64) {
		h.r.EndIteration(time.Duration(v))
		h.m.end(time.Now(), time.Duration(v))
		h.timer("stop")
	}},
	{"IncOperations", func(h *evRun, v int64) { h.r.IncOperations(v); h.m.rec(&h.m.p.ops, v) }},
	{"IncIterations", func(h *evRun, v int64) { h.r.IncIterations(v); h.m.rec(&h.m.p.n, v) }},
	{"IncSize", func(h *evRun, v int64) { h.r.IncSize(v); h.m.rec(&h.m.p.size, v) }},
	{"IncError", func(h *evRun, v int64) { h.r.IncError(v); h.m.rec(&h.m.p.errs, v) }},
	{"SetDuration", func(h *evRun, v int64) { h.r.SetDuration(time.Duration(v)); h.set(&h.m.p.dur, time.Duration(v)) }},
	{"SetTotalDuration", func(h *evRun, v int64) {
		h.r.SetTotalDuration(time.Duration(v))
		h.set(&h.m.p.total, time.Duration(v))
	}},
	{"SetID", func(h *evRun, v int64) { h.r.SetID(v); h.m.p.id = v }},
	{"SetState", func(h *evRun, v int64) { h.r.SetState(v); h.m.p.state = v }},
	{"SetWorkers", func(h *evRun, v int64) { h.r.SetWorkers(v); h.m.p.workers = v }},
}

var evValues = []int64{0, 1, -1, 9999, 10000, 10001, 1 << 33, -(1 << 40)}

func init() {
	for _, o := range evSetters {
		for _, v := range evValues {
			evOps = append(evOps, evOp{fmt.Sprintf("%s(%d)", o.name, v), func(h *evRun) { o.do(h, v) }})
		}
	}
}

// bad is an operation with a value outside of every histogram.
func bad(name string, do func(h *evRun)) evOp {
	return evOp{name + "(huge)", func(h *evRun) {
		if !h.m.k.hist {
			h.c.Skip()
		}
		do(h)
	}}
}

func (h *evRun) set(l *[]int64, d time.Duration) {
	if h.m.k.set {
		*l = []int64{int64(d)}
		return
	}
	h.m.rec(l, int64(d))
}

func (h *evRun) timer(s string) {
	if h.tm != nil {
		h.wantTM = append(h.wantTM, s)
	}
}

func (h *evRun) advance(d time.Duration) {
	for ; d > 0; d -= evHalf {
		h.m.advance(time.Now(), evHalf)
		mcrt.Advance(evHalf)
	}
}

func (h *evRun) endTest() {
	h.m.endTest(time.Now())
	err := h.r.EndTest()
	h.settle("EndTest")
	switch {
	case h.m.errs+h.m.bad == 0 && err != nil:
		h.c.Fail("EndTest reported %v, nothing had failed since the last one", err)
	case h.m.errs+h.m.bad > 0 && err == nil:
		h.c.Fail("EndTest reported no error, %d adds and %d values had failed since the last one", h.m.errs, h.m.bad)
	}
	old := len(h.s.failed) - h.m.errs
	for i, e := range h.s.failed {
		if got := err != nil && errors.Is(err, e); got != (i >= old) {
			h.c.Fail("EndTest reported %v; whether it contains failure %d of %d should be %v", err, i, len(h.s.failed), i >= old)
		}
	}
	h.m.reset()
}

// settle compares what was persisted with what the model persisted.
func (h *evRun) settle(op string) {
	if len(h.s.points) != len(h.m.want) {
		h.c.Fail("%s: %s: %d points persisted so far, expected %d\n%v", h.m.k.name, op, len(h.s.points), len(h.m.want), h.s.points)
	}
	for i := range h.m.want {
		var also time.Time
		if h.m.k.keepTS {
			also = h.m.alsoTS[i]
		}
		if d := h.m.want[i].diff(h.s.points[i], h.m.k.hist, also); d != "" {
			h.c.Fail("%s: %s: point %d: %s\n%v", h.m.k.name, op, i, d, h.s.points)
		}
	}
	h.m.want, h.m.alsoTS, h.s.points = nil, nil, nil
}

// history runs a history of the given length over the first n operations.
func evHistory(c *engine.Chooser, k *evKind, n, depth int) {
	if k.hist && !histKnown() {
		c.Skip()
	}
	if k.hist {
		evHist(0) // outside of the execution: it stays
	}
	explore(c, 0, func(x *mcrt.Exec) {
		x.MaxSteps = 100000
		ctx, cancel := mctx.WithCancel(mctx.Background())
		x.Go("test", func() {
			s := &evSink{}
			h := &evRun{c: c, s: s, cancel: cancel, t0: time.Now(), m: &evModel{k: k}}
			h.r = k.make(ctx, s)
			if k.grouped && !k.hist {
				h.m.last = time.Now() // its first interval starts at creation
			}
			if k.wrap == "shim" {
				h.tm = &evTimer{}
				h.r = events.NewShimRecorder(h.r, h.tm)
			}
			defer func() {
				if p := recover(); p != nil {
					cancel()
					mcrt.Settle()
					panic(p)
				}
			}()
			for range depth {
				o := evOps[c.Choose(n)]
				c.Note("op %s", o.name)
				o.do(h)
				c.Step()
				h.settle(o.name)
			}
			// the end of the test, and a second one that shows what is left
			h.endTest()
			for _, i := range []int{0, 1} {
				evOps[i].do(h)
				h.settle(evOps[i].name)
			}
			h.endTest()
			if h.tm != nil && fmt.Sprint(h.tm.log) != fmt.Sprint(h.wantTM) {
				c.Fail("timer calls %v, expected %v", h.tm.log, h.wantTM)
			}
			cancel()
		})
		finish(c, x)
		c.NonTrivial()
	})
}

var e01 = &engine.Property{
	ID: "E01", Level: "exhaustive",
	Families: func(tier string) []engine.Family {
		var out []engine.Family
		for i := range evKinds {
			k := &evKinds[i]
			type cfg struct{ n, depth int }
			cs := []cfg{{10, 6}, {20, 4}}
			if k.hist {
				cs = []cfg{{10, 5}, {27, 3}}
			}
			if tier == "thorough" {
				cs = []cfg{{10, 7}, {20, 5}}
				if k.hist {
					cs = []cfg{{10, 6}, {27, 4}}
				}
			}
			cs = append(cs, cfg{len(evOps), 2})
			for _, g := range cs {
				out = append(out, engine.Family{
					Name:   fmt.Sprintf("%s-%dx%d", k.name, g.n, g.depth),
					Bounds: fmt.Sprintf("%s recorder: every history of %d calls out of %d kinds (time steps of half and a whole interval, failing collector), followed by EndTest and a second test of one iteration", k.name, g.depth, g.n),
					Rule:   "every history",
					Split:  min(2, g.depth-1), CutPrefix: true,
					Run: func(c *engine.Chooser) { evHistory(c, k, g.n, g.depth) },
				})
			}
		}
		return out
	},
}

func init() {
	evCandidates = append([]int64{1, 2, 3, 4, 5, 7, 100, 1000, int64(evDur), int64(2 * time.Millisecond), int64(8 * time.Millisecond), 0}, evValues...)
	for i := time.Duration(1); i <= 16; i++ {
		evCandidates = append(evCandidates, int64(i*evHalf))
	}
}
