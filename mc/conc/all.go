// Package conc holds the properties decided by exploring schedules of the
// instrumented code.
package conc

import (
	"fmt"
	"strings"

	"birchmc/engine"
	"birchmc/mcrt"
)

// All lists the properties.
var All = []*engine.Property{c12, f05, f06, e01, e02, e03, m04, m05, f08, f09}

// explore runs body as the controller of one execution.
func explore(c *engine.Chooser, preempt int, body func(x *mcrt.Exec)) {
	p := mcrt.Bubble(c, func(x *mcrt.Exec) {
		x.Preempt = preempt
		body(x)
		if x.Preempted > 0 || x.Switches > x.Threads() {
			c.NonTrivial()
		}
	})
	if p != nil {
		panic(p)
	}
}

// delayed is explore with a bound on delays (deviations from round robin)
// instead of preemptions.
func delayed(c *engine.Chooser, delays int, body func(x *mcrt.Exec)) {
	explore(c, 0, func(x *mcrt.Exec) {
		x.DelayBound, x.Delays = true, delays
		body(x)
	})
}

// finish runs until the end, which every goroutine must reach.
func finish(c *engine.Chooser, x *mcrt.Exec) {
	r := x.Run()
	check(c, r)
	if len(r.Blocked) > 0 {
		c.Fail("deadlock or leak: %s", describe(r.Blocked))
	}
}

func check(c *engine.Chooser, r mcrt.Result) {
	for _, g := range r.Panics {
		if engine.Control(g.Panic) {
			panic(g.Panic)
		}
		c.Fail("panic in %s: %v\n%s", g.Name, g.Panic, g.Stack)
	}
	if r.Cut {
		c.Fail("the execution does not end")
	}
}

func describe(gs []*mcrt.G) string {
	var out []string
	for _, g := range gs {
		out = append(out, fmt.Sprintf("%s is stuck after %q", g.Name, g.Op()))
	}
	return strings.Join(out, "; ")
}
