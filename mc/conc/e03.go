package conc

import (
	"errors"
	"fmt"
	"time"

	"birchmc/engine"
	"birchmc/mcrt"

	"github.com/tychoish/birch/x/ftdc"
	"github.com/tychoish/birch/x/ftdc/events"
)

// ecKind is an event collector with its documented rule for what to persist.
type ecKind struct {
	name string
	make func(ftdc.Collector) events.Collector
	// due says whether event number i (from 0) is persisted; nil: undetermined
	due  func(i int, since time.Duration) bool
	each bool // events as given, not running totals
}

func ecKinds() []ecKind {
	always := func(int, time.Duration) bool { return true }
	never := func(int, time.Duration) bool { return false }
	out := []ecKind{
		{name: "basic", make: events.NewBasicCollector, due: always},
		{name: "passthrough", make: events.NewPassthroughCollector, due: always, each: true},
		{name: "random0", make: func(f ftdc.Collector) events.Collector { return events.NewRandomSamplingCollector(f, true, 0) }, due: never},
		{name: "random101", make: func(f ftdc.Collector) events.Collector { return events.NewRandomSamplingCollector(f, true, 101) }, due: always},
		{name: "random50", make: func(f ftdc.Collector) events.Collector { return events.NewRandomSamplingCollector(f, false, 50) }},
		{name: "interval", make: func(f ftdc.Collector) events.Collector { return events.NewIntervalCollector(f, evInterval) },
			due: func(i int, since time.Duration) bool { return i == 0 || since >= evInterval }},
	}
	for _, n := range []int{1, 2, 3} {
		out = append(out, ecKind{name: fmt.Sprintf("sampling%d", n), make: func(f ftdc.Collector) events.Collector { return events.NewSamplingCollector(f, n) },
			due: func(i int, _ time.Duration) bool { return i%n == 0 }})
	}
	return out
}

func ecEvent(i int) events.Performance {
	return []events.Performance{
		{Timestamp: time.Unix(100, 5e6), ID: 0,
			Counters: events.PerformanceCounters{Number: 1, Operations: 20, Size: 300, Errors: 4000},
			Timers:   events.PerformanceTimers{Duration: 7, Total: 11},
			Gauges:   events.PerformanceGauges{State: 1, Workers: 2, Failed: true}},
		{Timestamp: time.Unix(90, 0), ID: 40,
			Counters: events.PerformanceCounters{Number: 50000, Operations: -3},
			Gauges:   events.PerformanceGauges{Workers: 9}},
		{ID: -1, Timers: events.PerformanceTimers{Total: 1 << 40}, Counters: events.PerformanceCounters{Size: 1 << 50, Errors: 1}},
		{},
	}[i]
}

// ecSum is the reference accumulation.
func ecSum(cur *events.Performance, in events.Performance) events.Performance {
	if cur == nil {
		return in
	}
	out := in
	if in.ID == 0 {
		out.ID = cur.ID + 1
	}
	out.Counters.Number += cur.Counters.Number
	out.Counters.Operations += cur.Counters.Operations
	out.Counters.Size += cur.Counters.Size
	out.Counters.Errors += cur.Counters.Errors
	out.Timers.Duration += cur.Timers.Duration
	out.Timers.Total += cur.Timers.Total
	return out
}

func samePoint(a, b evPoint) bool {
	return a.wrong == "" && b.wrong == "" && a.hist == b.hist && a.ts.Equal(b.ts) && a.id == b.id && a.sums == b.sums &&
		a.state == b.state && a.workers == b.workers && a.failed == b.failed
}

// ecHistory: every sequence of events, time steps and failures.
func ecHistory(c *engine.Chooser, k ecKind, sync bool, depth int) {
	p := mcrt.Bubble(c, func(*mcrt.Exec) {
		s := &evSink{}
		col := k.make(s)
		if sync {
			col = events.NewSynchronizedCollector(col)
		}
		shared := ecEvent(0) // an event that the caller uses several times
		var cur *events.Performance
		var last time.Time
		n := 0
		add := func(in *events.Performance) {
			given := *in
			sum := ecSum(cur, given)
			if k.each {
				sum = given
			}
			cur = &sum
			want := takePoint(&sum)
			since := time.Since(last)
			fail := s.failNext
			err := col.AddEvent(in)
			if *in != given {
				c.Fail("AddEvent changed the caller's event from %+v to %+v", given, *in)
			}
			due := len(s.points) == 1
			if k.due != nil {
				due = k.due(n, since)
			}
			n++
			switch {
			case !due && len(s.points) != 0:
				c.Fail("event %d was persisted, it is not due: %v", n, s.points)
			case due && len(s.points) != 1:
				c.Fail("event %d is due, %d points were persisted: %v", n, len(s.points), s.points)
			case due && !samePoint(s.points[0], want):
				c.Fail("event %d persisted %v, expected %v", n, s.points[0], want)
			case due && fail != (err != nil) || due && fail && !errors.Is(err, s.failed[len(s.failed)-1]):
				c.Fail("event %d: the collector failed: %v, AddEvent returned %v", n, fail, err)
			case !due && err != nil:
				c.Fail("event %d: AddEvent returned %v", n, err)
			}
			if due {
				last = time.Now()
			}
			s.points = nil
		}
		for range depth {
			i := c.Choose(11)
			c.Note("op %d", i)
			c.Step()
			switch i {
			case 0, 1, 2, 3:
				e := ecEvent(i)
				add(&e)
			case 4:
				add(&shared)
			case 5:
				if err := col.AddEvent(nil); err == nil {
					c.Fail("a nil event was accepted")
				}
			case 6:
				s.failNext = true
			case 7:
				e := ecEvent(1)
				if err := col.Add(&e); err != nil {
					c.Fail("Add returned %v", err)
				}
			case 8:
				time.Sleep(evHalf)
			case 9:
				time.Sleep(5 * evHalf)
			case 10:
				if got := col.Info().SampleCount; got != len(s.points) {
					c.Fail("Info is not the collector's")
				}
				if _, err := col.Resolve(); err == nil || err.Error() != "nothing here" {
					c.Fail("Resolve is not the collector's: %v", err)
				}
				if err := col.SetMetadata(nil); err != nil {
					c.Fail("SetMetadata: %v", err)
				}
			}
			if cur != nil {
				h := uint64(cur.ID)
				for _, v := range takePoint(cur).sums {
					h = (h ^ uint64(v)) * 1099511628211
				}
				c.StateHash(h ^ uint64(n)<<56 ^ uint64(time.Since(last)))
			}
			if len(s.points) != 0 {
				c.Fail("op %d persisted %v", i, s.points)
			}
		}
		c.NonTrivial()
	})
	if p != nil {
		panic(p)
	}
}

// ecSync: concurrent AddEvent calls act one after the other.
func ecSync(preempt int, k ecKind, threads, each int) func(c *engine.Chooser) {
	return func(c *engine.Chooser) {
		explore(c, preempt, func(x *mcrt.Exec) {
			s := &evSink{onAdd: mcrt.Yield}
			col := events.NewSynchronizedCollector(k.make(s))
			bad := make([]string, threads+1)
			for i := range threads {
				x.Go(fmt.Sprintf("adder%d", i), func() {
					for j := range each {
						e := events.Performance{ID: int64(i + 1), Counters: events.PerformanceCounters{Operations: 1 << (8 * i), Size: int64(j + 1)}}
						e.Timers.Total = time.Duration(1 << (2 * (i*each + j)))
						if err := col.AddEvent(&e); err != nil {
							bad[i] = err.Error()
						}
					}
				})
			}
			x.Go("reader", func() {
				a := col.Info().SampleCount
				if _, err := col.Resolve(); err == nil {
					bad[threads] = "Resolve"
				}
				if b := col.Info().SampleCount; b < a {
					bad[threads] = "samples disappeared"
				}
				_ = col.SetMetadata(nil)
			})
			finish(c, x)
			for i, b := range bad {
				if b != "" {
					c.Fail("thread %d: %s", i, b)
				}
			}
			if s.overlap {
				c.Fail("two events were in the wrapped collector at once")
			}
			if len(s.points) != threads*each {
				c.Fail("%d points persisted, %d events added", len(s.points), threads*each)
			}
			// each point differs from the one before by exactly one event
			next := make([]int, threads)
			var prev [6]int64
			for n, p := range s.points {
				d := p.sums[5]
				if !k.each {
					d -= prev[5]
				}
				found := false
				for i := range threads {
					if next[i] < each && d == 1<<(2*(i*each+next[i])) && p.id == int64(i+1) {
						next[i]++
						found = true
						break
					}
				}
				if !found {
					c.Fail("point %d is not the one before plus one event: %v", n, s.points)
				}
				prev = p.sums
			}
		})
	}
}

var e03 = &engine.Property{
	ID: "E03", Level: "exhaustive",
	Families: func(tier string) []engine.Family {
		depth, pre, each := 5, 3, 2
		if tier == "thorough" {
			depth, pre, each = 6, 4, 3
		}
		var out []engine.Family
		for _, k := range ecKinds() {
			for _, sync := range []bool{false, true} {
				d, name := depth, k.name
				if k.name == "basic" || k.name == "sampling3" {
					d++
				}
				if sync {
					d, name = depth-1, "sync-"+name
				}
				out = append(out, engine.Family{
					Name:   name,
					Bounds: fmt.Sprintf("%s: every history of %d steps out of 11 (four events, one reused, nil, failing collector, half or two and a half intervals passing)", name, d),
					Rule:   "every history", CutPrefix: true, Split: 2,
					Run: func(c *engine.Chooser) { ecHistory(c, k, sync, d) },
				})
			}
		}
		for _, k := range ecKinds()[:2] {
			out = append(out, engine.Family{
				Name:   "concurrent-" + k.name,
				Bounds: fmt.Sprintf("synchronized %s collector: 2 threads adding %d events each and a reader, up to %d preemptions", k.name, each, pre),
				Rule:   "at least one preemption",
				Run:    ecSync(pre, k, 2, each),
			})
		}
		return out
	},
}
