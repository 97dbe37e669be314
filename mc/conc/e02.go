package conc

import (
	"errors"
	"fmt"
	"time"

	"birchmc/engine"
	"birchmc/mcrt"
	mctx "birchmc/mcrt/mctx"

	"github.com/tychoish/birch/x/ftdc/events"
)

// probeRecorder is a recorder below the synchronized one. It is not safe for
// concurrent use: overlapping calls are data races on its fields, and are
// noticed as such.
type probeRecorder struct {
	inside, overlap bool
	log             []string
	err             error
}

func (p *probeRecorder) call(name string, v any) {
	if p.inside {
		p.overlap = true
	}
	p.inside = true
	mcrt.Yield()
	p.log = append(p.log, fmt.Sprintf("%s(%v)", name, v))
	p.inside = false
}

func (p *probeRecorder) IncIterations(v int64)            { p.call("IncIterations", v) }
func (p *probeRecorder) IncOperations(v int64)            { p.call("IncOperations", v) }
func (p *probeRecorder) IncError(v int64)                 { p.call("IncError", v) }
func (p *probeRecorder) IncSize(v int64)                  { p.call("IncSize", v) }
func (p *probeRecorder) SetWorkers(v int64)               { p.call("SetWorkers", v) }
func (p *probeRecorder) SetState(v int64)                 { p.call("SetState", v) }
func (p *probeRecorder) SetFailed(v bool)                 { p.call("SetFailed", v) }
func (p *probeRecorder) BeginIteration()                  { p.call("BeginIteration", "") }
func (p *probeRecorder) EndIteration(d time.Duration)     { p.call("EndIteration", d) }
func (p *probeRecorder) EndTest() error                   { p.call("EndTest", ""); return p.err }
func (p *probeRecorder) Reset()                           { p.call("Reset", "") }
func (p *probeRecorder) SetID(v int64)                    { p.call("SetID", v) }
func (p *probeRecorder) SetTime(t time.Time)              { p.call("SetTime", t.UnixNano()) }
func (p *probeRecorder) SetTotalDuration(d time.Duration) { p.call("SetTotalDuration", d) }
func (p *probeRecorder) SetDuration(d time.Duration)      { p.call("SetDuration", d) }

type recCall struct {
	name string
	do   func(r events.Recorder, i int64) string
}

// recCalls are the calls of a recorder with an argument made from i; they
// return how the call shows in the probe's log.
var recCalls = []recCall{
	{"IncIterations", func(r events.Recorder, i int64) string {
		r.IncIterations(i)
		return fmt.Sprintf("IncIterations(%d)", i)
	}},
	{"IncOperations", func(r events.Recorder, i int64) string {
		r.IncOperations(i)
		return fmt.Sprintf("IncOperations(%d)", i)
	}},
	{"IncError", func(r events.Recorder, i int64) string { r.IncError(i); return fmt.Sprintf("IncError(%d)", i) }},
	{"IncSize", func(r events.Recorder, i int64) string { r.IncSize(i); return fmt.Sprintf("IncSize(%d)", i) }},
	{"SetWorkers", func(r events.Recorder, i int64) string { r.SetWorkers(i); return fmt.Sprintf("SetWorkers(%d)", i) }},
	{"SetState", func(r events.Recorder, i int64) string { r.SetState(i); return fmt.Sprintf("SetState(%d)", i) }},
	{"SetFailed", func(r events.Recorder, i int64) string {
		r.SetFailed(i > 0)
		return fmt.Sprintf("SetFailed(%v)", i > 0)
	}},
	{"BeginIteration", func(r events.Recorder, _ int64) string { r.BeginIteration(); return "BeginIteration()" }},
	{"EndIteration", func(r events.Recorder, i int64) string {
		r.EndIteration(time.Duration(i))
		return fmt.Sprintf("EndIteration(%v)", time.Duration(i))
	}},
	{"EndTest", func(r events.Recorder, _ int64) string {
		if err := r.EndTest(); !errors.Is(err, errInjectedEv) {
			return "EndTest lost the error"
		}
		return "EndTest()"
	}},
	{"Reset", func(r events.Recorder, _ int64) string { r.Reset(); return "Reset()" }},
	{"SetID", func(r events.Recorder, i int64) string { r.SetID(i); return fmt.Sprintf("SetID(%d)", i) }},
	{"SetTime", func(r events.Recorder, i int64) string {
		r.SetTime(time.Unix(0, i))
		return fmt.Sprintf("SetTime(%d)", i)
	}},
	{"SetTotalDuration", func(r events.Recorder, i int64) string {
		r.SetTotalDuration(time.Duration(i))
		return fmt.Sprintf("SetTotalDuration(%v)", time.Duration(i))
	}},
	{"SetDuration", func(r events.Recorder, i int64) string {
		r.SetDuration(time.Duration(i))
		return fmt.Sprintf("SetDuration(%v)", time.Duration(i))
	}},
}

var errInjectedEv = errors.New("injected")

// syncPairs: every pair of calls from two threads goes through one at a time.
func syncPairs(c *engine.Chooser, preempt int) {
	a, b := recCalls[c.Choose(len(recCalls))], recCalls[c.Choose(len(recCalls))]
	c.Note("%s || %s", a.name, b.name)
	explore(c, preempt, func(x *mcrt.Exec) {
		p := &probeRecorder{err: errInjectedEv}
		r := events.NewSynchronizedRecorder(p)
		var want [2]string
		x.Go("a", func() { want[0] = a.do(r, 11) })
		x.Go("b", func() { want[1] = b.do(r, 22) })
		finish(c, x)
		if p.overlap {
			c.Fail("%s and %s overlapped in the wrapped recorder", a.name, b.name)
		}
		if len(p.log) != 2 || !(p.log[0] == want[0] && p.log[1] == want[1] || p.log[0] == want[1] && p.log[1] == want[0]) {
			c.Fail("the wrapped recorder was called with %v, expected %v in some order", p.log, want)
		}
		c.NonTrivial()
	})
}

// evTotals adds up the counters of points.
func evTotals(ps []evPoint) (t [6]int64) {
	for _, p := range ps {
		for i := range t {
			if p.hist {
				for j, n := range p.atValue[i] {
					t[i] += j * n // counters have a cell per value
				}
			} else {
				t[i] += p.sums[i]
			}
		}
	}
	return t
}

// evScript is what one thread does to the recorder.
type evScript struct {
	name string
	do   func(r events.Recorder) error
	add  [6]int64 // what it adds; times as durations
}

var evScripts = map[string]evScript{
	"iteration": {"iteration", func(r events.Recorder) error {
		r.BeginIteration()
		r.IncOperations(1)
		r.EndIteration(0)
		return nil
	}, [6]int64{1, 1, 0, 0, 0, 0}},
	"counts": {"counts", func(r events.Recorder) error {
		r.IncOperations(2)
		r.IncSize(3)
		return nil
	}, [6]int64{0, 2, 3, 0, 0, 0}},
	"errors": {"errors", func(r events.Recorder) error {
		r.IncError(1)
		r.IncIterations(4)
		return nil
	}, [6]int64{4, 0, 0, 1, 0, 0}},
	"gauges": {"gauges", func(r events.Recorder) error {
		r.SetState(5)
		r.SetWorkers(6)
		r.SetFailed(true)
		return nil
	}, [6]int64{}},
	"identity": {"identity", func(r events.Recorder) error {
		r.SetID(5)
		r.SetTime(time.Unix(1, 0))
		r.SetDuration(0)
		r.SetTotalDuration(0)
		return nil
	}, [6]int64{}},
	"endtest": {"endtest", func(r events.Recorder) error { return r.EndTest() }, [6]int64{}},
	"reset":   {"reset", func(r events.Recorder) error { r.Reset(); return nil }, [6]int64{}},
}

// flushing runs scripts concurrently on an interval recorder while time
// passes, then ends the test.
func flushing(hist bool, ticks int, cancel bool, bound func(*engine.Chooser, func(*mcrt.Exec)), names ...string) func(c *engine.Chooser) {
	return func(c *engine.Chooser) {
		bound(c, func(x *mcrt.Exec) {
			x.Tick, x.Ticks = evInterval, ticks
			x.MaxSteps = 100000
			s := &evSink{onAdd: mcrt.Yield}
			ctx, stop := mctx.WithCancel(mctx.Background())
			var r events.Recorder
			if hist {
				r = events.NewIntervalHistogramRecorder(ctx, s, evInterval)
			} else {
				r = events.NewIntervalRecorder(ctx, s, evInterval)
			}
			var want [6]int64
			errs := make([]error, len(names)+1)
			lossy := false
			for i, n := range names {
				sc := evScripts[n]
				for j := range want {
					want[j] += sc.add[j]
				}
				lossy = lossy || n == "reset"
				x.Go(fmt.Sprintf("%s%d", n, i), func() { errs[i] = sc.do(r) })
			}
			if cancel {
				x.Go("cancel", func() { stop() })
			}
			var usable []evPoint
			x.Go("main", func() {
				mcrt.Settle()
				errs[len(names)] = r.EndTest()
				// a second test on the same recorder
				mcrt.Settle()
				x.Ticks, x.Preempt = 0, 0
				first := len(s.points)
				r.BeginIteration()
				r.IncOperations(100)
				mcrt.Advance(evInterval)
				r.IncSize(1000)
				r.EndIteration(0)
				if err := r.EndTest(); err != nil {
					errs[len(names)] = err
				}
				usable = s.points[first:]
				stop()
			})
			finish(c, x)
			for i, err := range errs {
				if err != nil {
					c.Fail("EndTest of %d reported %v, nothing failed", i, err)
				}
			}
			if s.overlap {
				c.Fail("two points were added at once")
			}
			got := evTotals(s.points[:len(s.points)-len(usable)])
			for j := range 4 {
				if got[j] != want[j] && !(lossy && got[j] < want[j] && got[j] >= 0) {
					c.Fail("%s: %d persisted, %d recorded\n%v", evNames[j], got[j], want[j], s.points)
				}
			}
			if !cancel && len(usable) != 2 || len(usable) < 1 {
				c.Fail("the second test persisted %d points, expected one from the flusher and one at the end\n%v", len(usable), usable)
			}
			u := evTotals(usable)
			if u[0] != 1 || u[1] != 100 || u[2] != 1000 || u[3] != 0 {
				c.Fail("the second test recorded 1 100 1000 0 and persisted %v\n%v", u[:4], usable)
			}
			if !cancel {
				f := evTotals(usable[:1])
				if f[1] != 100 || f[2] != 0 {
					c.Fail("the flusher persisted %v at the tick of the second test, expected 100 operations", f[:4])
				}
			}
		})
	}
}

// syncTotals runs scripts concurrently on a synchronized recorder.
func syncTotals(preempt int, names ...string) func(c *engine.Chooser) {
	return func(c *engine.Chooser) {
		explore(c, preempt, func(x *mcrt.Exec) {
			s := &evSink{}
			r := events.NewSynchronizedRecorder(events.NewSingleRecorder(s))
			var want [6]int64
			for i, n := range names {
				sc := evScripts[n]
				for j := range want {
					want[j] += sc.add[j]
				}
				x.Go(fmt.Sprintf("%s%d", n, i), func() { _ = sc.do(r) })
			}
			x.Go("main", func() {
				mcrt.Settle()
				_ = r.EndTest()
			})
			finish(c, x)
			got := evTotals(s.points)
			for j := range 4 {
				if got[j] != want[j] {
					c.Fail("%s: %d persisted, %d recorded", evNames[j], got[j], want[j])
				}
			}
		})
	}
}

var e02 = &engine.Property{
	ID: "E02", Level: "exhaustive",
	Families: func(tier string) []engine.Family {
		th := tier == "thorough"
		pre := 2
		if th {
			pre = 3
		}
		bounded := func(n int) func(*engine.Chooser, func(*mcrt.Exec)) {
			return func(c *engine.Chooser, f func(*mcrt.Exec)) { explore(c, n, f) }
		}
		delay := func(n int) func(*engine.Chooser, func(*mcrt.Exec)) {
			return func(c *engine.Chooser, f func(*mcrt.Exec)) { delayed(c, n, f) }
		}
		out := []engine.Family{
			{Name: "sync-pairs", Bounds: "synchronized recorder: every pair of its calls from two threads, up to 4 preemptions", Rule: "every case",
				Run: func(c *engine.Chooser) { syncPairs(c, 4) }},
			{Name: "sync-totals", Bounds: fmt.Sprintf("synchronized recorder: three threads, up to %d preemptions", pre+1), Rule: "at least one preemption",
				Run: syncTotals(pre+1, "iteration", "counts", "errors")},
		}
		type cfg struct {
			cancel bool
			names  []string
		}
		for _, k := range []cfg{
			{false, []string{"iteration"}},
			{false, []string{"iteration", "counts"}},
			{false, []string{"iteration", "errors"}},
			{false, []string{"iteration", "iteration"}},
			{false, []string{"iteration", "gauges"}},
			{false, []string{"iteration", "identity"}},
			{false, []string{"iteration", "endtest"}},
			{false, []string{"iteration", "reset"}},
			{true, []string{"iteration"}},
			{true, []string{"iteration", "endtest"}},
		} {
			name := fmt.Sprint(k.names)
			name = name[1 : len(name)-1]
			if k.cancel {
				name += " cancel"
			}
			pre := pre
			ticks := 2
			if len(k.names) > 1 || k.cancel {
				pre--
			}
			if len(k.names) > 1 && k.cancel {
				ticks--
			}
			out = append(out, engine.Family{
				Name:   "interval " + name,
				Bounds: fmt.Sprintf("interval recorder: threads %s with the flusher, %d ticks at any moment, up to %d preemptions; then EndTest and a second test", name, ticks, pre),
				Rule:   "at least one preemption",
				Run:    flushing(false, ticks, k.cancel, bounded(pre), k.names...),
			})
			d := 2
			if th {
				d = 3
			}
			out = append(out, engine.Family{
				Name:   "hist-interval " + name,
				Bounds: fmt.Sprintf("interval histogram recorder: threads %s with the flusher, a tick at any moment, up to %d delays", name, d),
				Rule:   "at least one preemption",
				Run:    flushing(true, 1, k.cancel, delay(d), k.names...),
			})
		}
		return out
	},
}
