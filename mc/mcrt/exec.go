package mcrt

import (
	"fmt"
	"time"
	"unsafe"
)

const maxG = 256

// Chooser resolves scheduling decisions.
type Chooser interface {
	Choose(n int) int
	Step()
	Note(format string, a ...any)
	StateHash(h uint64)
}

// Exec is one controlled execution.
type Exec struct {
	C      Chooser
	gs     [maxG]*G
	n      int
	killed bool
	cur    *G
	ask    int
	answer int

	// Preempt is how many more preemptions the schedule may have.
	Preempt int
	// Delays, when DelayBound is set, bounds the schedule instead: choosing the
	// k-th goroutine in the default order costs k.
	Delays     int
	DelayBound bool
	// Ticks is how many more times time may pass while goroutines can run.
	Ticks int
	// Tick is the amount of time that passes at once.
	Tick time.Duration
	// IdleTicks is how many times time may pass while nothing can run.
	IdleTicks int
	// MaxSteps bounds the length of an execution.
	MaxSteps int

	sleep time.Duration

	any *G // see Anytime

	watches []*fileWatch

	// Reports is what Report was called with.
	Reports []string

	Steps     int
	Preempted int
	Switches  int
}

func (x *Exec) newG(name string) *G {
	if x.n == maxG {
		panic("mcrt: too many goroutines")
	}
	g := &G{id: x.n, Name: name, x: x, wake: make(chan struct{})}
	x.gs[x.n] = g
	x.n++
	return g
}

func nanotimeNow() int64 { return time.Now().UnixNano() - offset }

// offset is the difference of wall clock and timer clock in a bubble.
var offset int64

// Go starts a thread of the program.
func (x *Exec) Go(name string, f func()) *G {
	g := x.newG(name)
	go g.run(f)
	return g
}

// GoEnv starts a thread of the environment; it is allowed to stay blocked.
func (x *Exec) GoEnv(name string, f func()) *G {
	g := x.newG(name)
	g.env = true
	go g.run(f)
	return g
}

// Deferred reserves a goroutine that something outside of control may start.
func Deferred(name string) (start func(f func())) {
	p := Self()
	g := p.x.newG(p.Name + "/" + name)
	g.env = p.env
	g.done = true
	return func(f func()) {
		g.done = false
		g.run(f)
	}
}

// Done says whether the goroutine ended.
func (g *G) Done() bool { return g.done }

// Op is the operation at which the goroutine waits.
func (g *G) Op() string { return g.op }

func (x *Exec) enabled(out []*G) []*G {
	out = out[:0]
	for _, g := range x.gs[:x.n] {
		if !g.done && g.parked && (g.want == nil || g.want.ready(g)) {
			out = append(out, g)
		}
	}
	return out
}

// Result says how a schedule ended.
type Result struct {
	Blocked []*G // goroutines that cannot continue
	Panics  []*G
	Cut     bool // MaxSteps was reached
}

// Run schedules until nothing can run anymore.
func (x *Exec) Run() Result {
	var r Result
	var buf [maxG]*G
	idle := x.IdleTicks
	if x.MaxSteps == 0 {
		x.MaxSteps = 5000
	}
	for {
		synctestWait()
		for _, g := range x.gs[:x.n] {
			if g.Panic != nil {
				r.Panics = append(r.Panics, g)
			}
		}
		if len(r.Panics) > 0 {
			return r
		}
		en := x.enabled(buf[:])
		if len(en) == 0 {
			if x.any != nil && !x.any.fired {
				x.any.fired = true
				continue
			}
			live := 0
			for _, g := range x.gs[:x.n] {
				if !g.done {
					live++
				}
			}
			if live == 0 {
				return r
			}
			if idle > 0 {
				idle--
				x.C.Note("time passes (%v)", x.Tick)
				time.Sleep(x.Tick)
				continue
			}
			for _, g := range x.gs[:x.n] {
				if !g.done {
					r.Blocked = append(r.Blocked, g)
				}
			}
			return r
		}
		idle = x.IdleTicks
		h := uint64(14695981039346656037)
		for _, g := range x.gs[:x.n] {
			h = (h ^ uint64(g.steps)) * 1099511628211
			if g.done {
				h = (h ^ 0xff) * 1099511628211
			}
		}
		x.C.StateHash(h)
		x.Steps++
		x.C.Step()
		if x.Steps > x.MaxSteps {
			r.Cut = true
			return r
		}
		if g := x.any; g != nil {
			if _, ok := g.want.(armed); ok && g.parked && !g.fired {
				g.fired = x.C.Choose(2) == 1
			}
			if g.done {
				x.any = nil
			} else if g.parked && (g.want == nil || g.want.ready(g)) {
				x.step(g)
				continue
			}
		}
		// the current goroutine first: continuing it is not a preemption
		curOK := false
		if x.DelayBound && x.cur != nil {
			// round robin from the current one
			i := 0
			for i < len(en) && en[i].id < x.cur.id {
				i++
			}
			var rot [maxG]*G
			m := copy(rot[:], en[i:])
			copy(rot[m:], en[:i])
			copy(en, rot[:len(en)])
		}
		for i, g := range en {
			if g == x.cur {
				copy(en[1:i+1], en[:i])
				en[0] = g
				curOK = true
				break
			}
		}
		n := len(en)
		if x.DelayBound {
			n = min(n, x.Delays+1)
		} else if curOK && x.Preempt == 0 {
			n = 1
		}
		opts := n
		tick := x.Ticks > 0
		if tick {
			opts++
		}
		k := 0
		if opts > 1 {
			k = x.C.Choose(opts)
		}
		if tick && k == n {
			x.Ticks--
			x.C.Note("time passes (%v)", x.Tick)
			time.Sleep(x.Tick)
			continue
		}
		g := en[k]
		if x.DelayBound {
			x.Delays -= k
		}
		if curOK && k > 0 {
			x.Preempt--
			x.Preempted++
		}
		if g != x.cur {
			x.Switches++
		}
		x.cur = g
		x.step(g)
		if x.ask > 0 {
			synctestWait()
			n := x.ask
			x.ask = 0
			x.answer = x.C.Choose(n)
			x.C.Note("  ready case %d of %d", x.answer, n)
			x.step(g)
		}
		if x.sleep > 0 {
			d := x.sleep
			x.sleep = 0
			time.Sleep(d)
		}
	}
}

// armed waits for the explorer to pick the step.
type armed struct{}

func (armed) ready(g *G) bool { return g.fired }

// Anytime starts a thread of the environment that runs, before anything else,
// after any one step of the schedule (or when nothing else can run).
func (x *Exec) Anytime(name string, f func()) *G {
	g := x.newG(name)
	g.env = true
	x.any = g
	go g.run(func() {
		g.park("wait", armed{})
		f()
	})
	return g
}

// settled waits until nothing else can run.
type settled struct{}

func (settled) ready(g *G) bool {
	for _, o := range g.x.gs[:g.x.n] {
		if o == g || o.done || !o.parked {
			continue
		}
		if _, ok := o.want.(settled); ok {
			continue
		}
		if o.want == nil || o.want.ready(o) {
			return false
		}
	}
	return true
}

// Settle waits until every other goroutine ended or is blocked.
func Settle() {
	if g := Self(); g != nil {
		g.park("settle", settled{})
	}
}

// Advance lets d pass and then waits until every other goroutine is blocked.
func Advance(d time.Duration) {
	g := Self()
	g.park("advance", settled{})
	g.x.sleep = d
	g.park("advanced", settled{})
}

func (x *Exec) step(g *G) {
	x.C.Note("%s: %s", g.Name, g.op)
	g.parked = false
	g.steps++
	raceDisable()
	g.wake <- struct{}{}
	raceEnable()
	synctestWait()
}

// Bubble runs f as the controller of a new execution and returns what it
// panicked with.
func Bubble(c Chooser, f func(x *Exec)) (p any) {
	res := make(chan any)
	forever := make(chan struct{})
	go func() {
		synctestRun(func() {
			x := &Exec{C: c}
			var out any
			arenaOn = true
			func() {
				defer func() {
					if r := recover(); r != nil {
						out = r
					}
				}()
				f(x)
			}()
			live := false
			for _, g := range x.gs[:x.n] {
				if !g.done {
					live = true
				}
			}
			recycle(live)
			res <- out
			if live {
				// cannot leave: give up the bubble
				<-forever
			}
		})
	}()
	return <-res
}

// SelfTest checks the assumptions about the run-time's data structures.
func SelfTest() (err error) {
	p := Bubble(nil, func(x *Exec) {
		offset = 0
		t := time.NewTimer(time.Hour)
		h := chanOf(t.C)
		if h.timer == nil {
			panic("timer")
		}
		now := time.Now().UnixNano()
		offset = now + int64(time.Hour) - h.timer.when
		if d := h.timer.when - nanotimeNow(); d != int64(time.Hour) {
			panic(fmt.Sprint("timer.when ", d))
		}
		if offset != 0 && offset%1 != 0 {
			panic("offset")
		}
		if h.recvReady() {
			panic("timer ready early")
		}
		time.Sleep(time.Hour)
		if !h.recvReady() {
			panic("timer not ready")
		}
		<-t.C
		if h.recvReady() {
			panic("timer ready twice")
		}
		tk := time.NewTicker(time.Second)
		th := chanOf(tk.C)
		if th.recvReady() {
			panic("ticker ready early")
		}
		time.Sleep(3 * time.Second)
		if !th.recvReady() {
			panic("ticker not ready")
		}
		<-tk.C
		if th.recvReady() {
			panic("ticker ready again")
		}
		tk.Stop()
		c := make(chan int, 1)
		if chanOf(c).recvReady() || !chanOf(c).sendReady() {
			panic("empty channel")
		}
		c <- 1
		if !chanOf(c).recvReady() || chanOf(c).sendReady() {
			panic("full channel")
		}
		<-c
		close(c)
		if !chanOf(c).recvReady() {
			panic("closed channel")
		}
		u := make(chan int)
		if chanOf(u).recvReady() || chanOf(u).sendReady() {
			panic("unbuffered")
		}
		go func() { u <- 1 }()
		synctestWait()
		if !chanOf(u).recvReady() || chanOf(u).sendReady() {
			panic("waiting sender")
		}
		<-u
		go func() { <-u }()
		synctestWait()
		if chanOf(u).recvReady() || !chanOf(u).sendReady() {
			panic("waiting receiver")
		}
		u <- 1
		var nilc chan int
		if chanOf(nilc).recvReady() || chanOf(nilc).sendReady() {
			panic("nil channel")
		}
		setLabel(unsafe.Pointer(&G{id: 7}))
		if Self() == nil || Self().id != 7 {
			panic("label")
		}
		setLabel(nil)
	})
	if p != nil {
		return fmt.Errorf("mcrt self test: %v", p)
	}
	return nil
}

// Threads is the number of goroutines so far.
func (x *Exec) Threads() int { return x.n }
