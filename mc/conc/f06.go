package conc

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"birchmc/engine"
	"birchmc/mcrt"
	mctx "birchmc/mcrt/mctx"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
)

// probe is a collector that is not safe for concurrent use. Its fields are
// accessed without synchronization, so that two operations at once are seen
// by the race detector, and its operations are scheduling points, so that two
// operations at once are seen by the flag.
type probe struct {
	busy    string
	readers int
	items   []int  // recorded since the last reset
	log     []int  // recorded ever
	meta    []int  // metadata set
	resets  int    // number of resets
	fail    int    // the item whose Add fails
	overlap string // two operations at once
	calls   map[string]int
}

func newProbe() *probe { return &probe{calls: map[string]int{}} }

var errProbe = errors.New("injected collector error")

func (p *probe) enter(op string) {
	if p.busy != "" || p.readers > 0 {
		p.overlap = fmt.Sprintf("%s during %s", op, p.busy)
	}
	p.busy = op
	p.calls[op]++
	mcrt.Yield()
}

func (p *probe) leave() { p.busy = "" }

func (p *probe) Add(in any) error {
	p.enter("Add")
	defer p.leave()
	v := in.(int)
	if p.fail != 0 && v == p.fail {
		return errProbe
	}
	p.items = append(p.items, v)
	p.log = append(p.log, v)
	return nil
}

func (p *probe) SetMetadata(in any) error {
	p.enter("SetMetadata")
	defer p.leave()
	p.meta = append(p.meta, in.(int))
	return nil
}

func (p *probe) Resolve() ([]byte, error) {
	p.enter("Resolve")
	defer p.leave()
	return []byte(fmt.Sprint(p.items)), nil
}

func (p *probe) Reset() {
	p.enter("Reset")
	defer p.leave()
	p.items = nil
	p.resets++
}

// Info only reads: two at once are fine.
func (p *probe) Info() ftdc.CollectorInfo {
	if p.busy != "" {
		p.overlap = "Info during " + p.busy
	}
	n := len(p.items)
	mcrt.Yield()
	if p.busy != "" {
		p.overlap = p.busy + " during Info"
	}
	return ftdc.CollectorInfo{SampleCount: n}
}

// call is an operation of a history.
type call struct {
	thread   int
	op       string
	arg      int
	inv, res int
	err      error
	out      string
}

func (k call) String() string {
	return fmt.Sprintf("t%d:%s(%d)=%s,%v [%d,%d]", k.thread, k.op, k.arg, k.out, k.err, k.inv, k.res)
}

// do performs an operation and records it.
func do(t int, coll ftdc.Collector, op string, arg int) call {
	k := call{thread: t, op: op, arg: arg, inv: mcrt.Stamp()}
	switch op {
	case "Add":
		k.err = coll.Add(arg)
	case "SetMetadata":
		k.err = coll.SetMetadata(arg)
	case "Resolve":
		var b []byte
		b, k.err = coll.Resolve()
		k.out = string(b)
	case "Reset":
		coll.Reset()
	case "Info":
		k.out = fmt.Sprint(coll.Info().SampleCount)
	}
	k.res = mcrt.Stamp()
	return k
}

// linearizable looks for an order of the calls, consistent with the times at
// which they were made, that explains all the results.
func linearizable(cs []call, used []bool, items []int) bool {
	left := false
	minRes := int(^uint(0) >> 1)
	for i := range cs {
		if !used[i] {
			left = true
			minRes = min(minRes, cs[i].res)
		}
	}
	if !left {
		return true
	}
	for i, k := range cs {
		if used[i] || k.inv > minRes {
			continue
		}
		next := items
		switch k.op {
		case "Add":
			next = append(append([]int(nil), items...), k.arg)
		case "Resolve":
			if k.out != fmt.Sprint(items) {
				continue
			}
		case "Reset":
			next = nil
		case "Info":
			if k.out != fmt.Sprint(len(items)) {
				continue
			}
		}
		used[i] = true
		if linearizable(cs, used, next) {
			return true
		}
		used[i] = false
	}
	return false
}

var f06 = &engine.Property{
	ID: "F06", Level: "exhaustive",
	Assume: []string{"documents are not modified by the caller while the buffered collector holds them"},
	Families: func(tier string) []engine.Family {
		syncPre, bufPre, realPre, bufDelay := 3, 2, 2, 3
		if tier == "thorough" {
			syncPre, bufPre, realPre, bufDelay = 6, 4, 4, 6
		}
		second := []string{"Add", "Resolve", "Reset", "Info", "SetMetadata"}
		return []engine.Family{
			{Name: "sync-pairs", Bounds: fmt.Sprintf("synchronized collector over a probe: 2 threads of 2 operations each, of all 5 kinds, <=%d preemptions, linearizability", syncPre), Rule: "a preemption or a switch", Split: 6,
				Run: func(c *engine.Chooser) {
					ops := [4]string{engine.Pick(c, second), engine.Pick(c, second), engine.Pick(c, second), engine.Pick(c, second)}
					explore(c, syncPre, func(x *mcrt.Exec) {
						p := newProbe()
						coll := ftdc.NewSynchronizedCollector(p)
						var h [2][]call
						for t := range 2 {
							x.Go(fmt.Sprintf("t%d", t), func() {
								h[t] = append(h[t], do(t, coll, ops[2*t], 10*t+1))
								h[t] = append(h[t], do(t, coll, ops[2*t+1], 10*t+2))
							})
						}
						finish(c, x)
						judge(c, p, append(append([]call(nil), h[0]...), h[1]...))
					})
				}},
			{Name: "sync-three", Bounds: fmt.Sprintf("synchronized collector over a probe: 3 threads, Add twice by one, any 2 operations by the others, <=%d deviations", bufDelay), Rule: "a preemption or a switch", Split: 6,
				Run: func(c *engine.Chooser) {
					o1, o2 := engine.Pick(c, second), engine.Pick(c, second)
					delayed(c, bufDelay, func(x *mcrt.Exec) {
						p := newProbe()
						coll := ftdc.NewSynchronizedCollector(p)
						var h [3][]call
						x.Go("t0", func() { h[0] = append(h[0], do(0, coll, "Add", 1), do(0, coll, "Add", 2)) })
						x.Go("t1", func() { h[1] = append(h[1], do(1, coll, o1, 11), do(1, coll, "Resolve", 0)) })
						x.Go("t2", func() { h[2] = append(h[2], do(2, coll, o2, 21), do(2, coll, "Info", 0)) })
						finish(c, x)
						judge(c, p, append(append(append([]call(nil), h[0]...), h[1]...), h[2]...))
					})
				}},
			{Name: "sync-real", Bounds: fmt.Sprintf("synchronized base, batch, dynamic and streaming collectors: 2 threads adding real documents, a third resolving, <=%d preemptions", realPre), Rule: "a preemption or a switch", Split: 6,
				Run: func(c *engine.Chooser) {
					kind := c.Choose(4)
					obs := engine.Pick(c, []string{"Resolve", "Info", "SetMetadata"})
					explore(c, realPre, func(x *mcrt.Exec) {
						var out strings.Builder
						var inner ftdc.Collector
						switch kind {
						case 0:
							inner = ftdc.NewBaseCollector(100)
						case 1:
							inner = ftdc.NewBatchCollector(2)
						case 2:
							inner = ftdc.NewDynamicCollector(2)
						case 3:
							inner = ftdc.NewStreamingCollector(2, &out)
						}
						coll := ftdc.NewSynchronizedCollector(inner)
						mk := func(v int) any { return birch.DC.Elements(birch.EC.Int64("v", int64(v))) }
						errs := make([]error, 5)
						x.Go("t0", func() { errs[0] = coll.Add(mk(1)); errs[1] = coll.Add(mk(2)) })
						x.Go("t1", func() { errs[2] = coll.Add(mk(11)); errs[3] = coll.Add(mk(12)) })
						x.Go("t2", func() {
							switch obs {
							case "Resolve":
								if kind < 3 {
									_, _ = coll.Resolve()
								} else {
									_ = coll.Info()
								}
							case "Info":
								_ = coll.Info()
							case "SetMetadata":
								errs[4] = coll.SetMetadata(mk(7))
							}
						})
						finish(c, x)
						for i, e := range errs {
							if e != nil {
								c.Fail("operation %d: %v", i, e)
							}
						}
						if n := coll.Info().SampleCount; kind == 0 && n != 4 {
							c.Fail("%d samples, want 4", n)
						}
						var data []byte
						if kind == 3 {
							if err := ftdc.FlushCollector(coll, &out); err != nil && coll.Info().SampleCount > 0 {
								c.Fail("flush: %v", err)
							}
							data = []byte(out.String())
						} else {
							var err error
							if data, err = coll.Resolve(); err != nil {
								c.Fail("resolve: %v", err)
							}
						}
						vals, err := readValues(data)
						if err != nil {
							c.Fail("reading what was collected: %v", err)
						}
						checkOnce(c, vals, []int{1, 2, 11, 12}, [][]int{{1, 2}, {11, 12}})
					})
				}},
			{Name: "buffered", Bounds: fmt.Sprintf("buffered collector (buffer 0..2) over a probe: 2 threads adding 2 each, optional observer or canceller, optional failing Add, <=%d preemptions", bufPre), Rule: "a preemption or a switch", Split: 7,
				Run: func(c *engine.Chooser) {
					size := c.Choose(3)
					third := engine.Pick(c, []string{"", "cancel", "Resolve", "Info", "Reset", "SetMetadata", "fail"})
					pre := bufPre
					if third != "" && third != "fail" {
						pre--
					}
					explore(c, pre, func(x *mcrt.Exec) { bufferedRun(c, x, size, third) })
				}},
			{Name: "buffered-delay", Bounds: fmt.Sprintf("the same, all schedules with <=%d deviations from round robin", bufDelay), Rule: "a preemption or a switch", Split: 7,
				Run: func(c *engine.Chooser) {
					size := c.Choose(3)
					third := engine.Pick(c, []string{"", "cancel", "Resolve", "Info", "Reset", "SetMetadata", "fail"})
					delayed(c, bufDelay, func(x *mcrt.Exec) { bufferedRun(c, x, size, third) })
				}},
		}
	},
}

func bufferedRun(c *engine.Chooser, x *mcrt.Exec, size int, third string) {
	p := newProbe()
	ctx, cancel := mctx.WithCancel(context.Background())
	var coll ftdc.Collector
	var h [3][]call
	if third == "fail" {
		p.fail = 11
	}
	x.Go("main", func() {
		coll = ftdc.NewBufferedCollector(ctx, size, p)
		mcrt.Go(func() { h[0] = append(h[0], do(0, coll, "Add", 1), do(0, coll, "Add", 2)) })
		mcrt.Go(func() { h[1] = append(h[1], do(1, coll, "Add", 11), do(1, coll, "Add", 12)) })
		if third != "" && third != "fail" {
			mcrt.Go(func() {
				if third == "cancel" {
					cancel()
					return
				}
				h[2] = append(h[2], do(2, coll, third, 21))
			})
		}
	})
	r := x.Run()
	check(c, r)
	if p.overlap != "" {
		c.Fail("two operations on the wrapped collector at once: %s", p.overlap)
	}
	for t, n := range []int{2, 2} {
		if len(h[t]) != n {
			c.Fail("thread %d is stuck: %s", t, describe(r.Blocked))
		}
	}
	if third != "" && third != "fail" && third != "cancel" && len(h[2]) != 1 {
		c.Fail("the observer is stuck: %s", describe(r.Blocked))
	}
	if third != "cancel" && len(r.Blocked) > 1 {
		c.Fail("stuck: %s", describe(r.Blocked))
	}
	if third == "cancel" && len(r.Blocked) > 0 {
		c.Fail("stuck after cancellation: %s", describe(r.Blocked))
	}
	// everything accepted was recorded, once, in the order of each thread
	var want []int
	var per [][]int
	for t := range 2 {
		var mine []int
		for _, k := range h[t] {
			if k.err == nil {
				if k.arg != p.fail {
					want = append(want, k.arg)
					mine = append(mine, k.arg)
				}
			} else if third != "cancel" {
				c.Fail("Add failed without cancellation: %v", k.err)
			}
		}
		per = append(per, mine)
	}
	checkOnce(c, p.log, want, per)
	for _, k := range h[2] {
		if k.err != nil {
			c.Fail("%s: %v", k.op, k.err)
		}
	}
	if third == "Reset" && p.resets != 1 {
		c.Fail("%d resets reached the collector, want 1", p.resets)
	}
	if third == "SetMetadata" && fmt.Sprint(p.meta) != "[21]" {
		c.Fail("metadata %v reached the collector, want 21", p.meta)
	}
	// the end: resolve what is there, then stop
	var fin call
	x.Go("end", func() {
		fin = do(0, coll, "Resolve", 0)
		cancel()
	})
	finish(c, x)
	if third == "fail" {
		if !errors.Is(fin.err, errProbe) {
			c.Fail("the error of a failed Add was not reported by Resolve: %v", fin.err)
		}
	} else if fin.err != nil || fin.out != fmt.Sprint(p.items) {
		c.Fail("final Resolve gave %s, %v; recorded %v", fin.out, fin.err, p.items)
	}
	var late error
	x.Go("late", func() { late = coll.Add(99) })
	finish(c, x)
	if late == nil {
		c.Fail("Add after cancellation was accepted")
	}
	if len(p.log) > 0 && p.log[len(p.log)-1] == 99 {
		c.Fail("a rejected sample was recorded")
	}
}

func judge(c *engine.Chooser, p *probe, h []call) {
	if p.overlap != "" {
		c.Fail("two operations on the wrapped collector at once: %s", p.overlap)
	}
	n := map[string]int{}
	for _, k := range h {
		if k.err != nil {
			c.Fail("%v failed", k)
		}
		n[k.op]++
	}
	for _, op := range []string{"Add", "SetMetadata", "Resolve", "Reset"} {
		if n[op] != p.calls[op] {
			c.Fail("%d calls of %s, %d reached the wrapped collector", n[op], op, p.calls[op])
		}
	}
	// a final Resolve observes the end state
	stamp := mcrt.Stamp()
	h = append(h, call{thread: 9, op: "Resolve", out: fmt.Sprint(p.items), inv: stamp, res: stamp})
	if !linearizable(h, make([]bool, len(h)), nil) {
		var b strings.Builder
		for _, k := range h {
			fmt.Fprintln(&b, k)
		}
		c.Fail("no order of the operations explains the results:\n%s", b.String())
	}
}

// checkOnce says whether got has every wanted value once and nothing else, in
// the order of each thread.
func checkOnce(c *engine.Chooser, got, want []int, per [][]int) {
	n := map[int]int{}
	pos := map[int]int{}
	for i, v := range got {
		n[v]++
		pos[v] = i
	}
	for _, v := range want {
		if n[v] != 1 {
			c.Fail("accepted sample %d was recorded %d times: %v", v, n[v], got)
		}
		delete(n, v)
	}
	for v := range n {
		c.Fail("sample %d was recorded but not accepted: %v", v, got)
	}
	for _, t := range per {
		for i := 1; i < len(t); i++ {
			if pos[t[i]] < pos[t[i-1]] {
				c.Fail("samples of one thread were recorded out of order: %v", got)
			}
		}
	}
}

// readValues reads the values of the field v.
func readValues(data []byte) ([]int, error) {
	it := ftdc.ReadMetrics(strings.NewReader(string(data)))
	var out []int
	for d := range it.Iterator() {
		v, ok := d.Lookup("v").Int64OK()
		if !ok {
			return nil, fmt.Errorf("no value in %s", d)
		}
		out = append(out, int(v))
	}
	return out, it.Close()
}
