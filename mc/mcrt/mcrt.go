// Package mcrt is the run-time of the schedule explorer. Instrumented copies
// of the packages under test call it before every synchronization operation.
// One goroutine of the program runs at a time; a controller (the root
// goroutine of a synctest bubble) decides which one continues. The package is
// compiled without race instrumentation and hands control over with the race
// detector's synchronization tracking off, so that the detector sees only the
// synchronization of the program itself.
package mcrt

import (
	"fmt"
	"runtime/debug"
	"unsafe"
)

//go:linkname setLabel runtime/pprof.runtime_setProfLabel
func setLabel(unsafe.Pointer)

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

//go:linkname synctestRun internal/synctest.Run
func synctestRun(f func())

//go:linkname synctestWait internal/synctest.Wait
func synctestWait()

// G is a goroutine under control.
type G struct {
	id     int
	Name   string
	wake   chan struct{}
	parked bool
	steps  int
	done   bool
	op     string
	want   waiter // nil: always enabled
	x      *Exec
	Panic  any
	Stack  string
	fired  bool
	env    bool // an environment goroutine: not part of the program
}

// waiter says whether the operation a goroutine waits for can proceed.
type waiter interface{ ready(g *G) bool }

// Self is the calling goroutine, or nil when it is not under control.
func Self() *G { return (*G)(getLabel()) }

// park gives control to the scheduler until it continues this goroutine.
func (g *G) park(op string, w waiter) {
	if g.x.killed {
		return
	}
	g.op, g.want = op, w
	g.parked = true
	raceDisable()
	<-g.wake
	raceEnable()
}

// Pre is a scheduling point before an operation.
func Pre(op string) {
	if g := Self(); g != nil {
		g.park(op, nil)
	}
}

// Yield is a scheduling point for harness code.
func Yield() { Pre("yield") }

// V is a scheduling point in an expression.
func V[T any](v T) T { Pre("call"); return v }

// P is a scheduling point in an expression.
func P[T any](p *T) *T { Pre("call"); return p }

// Go starts a goroutine.
func Go(f func()) {
	g := Self()
	if g == nil {
		go f()
		return
	}
	c := g.x.newG(fmt.Sprintf("%s/%d", g.Name, g.x.n))
	c.env = g.env
	go c.run(f)
	g.park("go", nil)
}

func (g *G) run(f func()) {
	setLabel(unsafe.Pointer(g))
	defer g.finish()
	g.park("start", nil)
	f()
	g.done = true
}

func (g *G) finish() {
	if !g.done {
		if p := recover(); p != nil {
			g.Panic = p
			g.Stack = string(debug.Stack())
		}
		g.done = true // or Goexit
	}
	setLabel(nil)
}

// ---- channels

type hchan struct {
	qcount   uint
	dataqsiz uint
	buf      unsafe.Pointer
	elemsize uint16
	closed   uint32
	timer    *rtimer
	elemtype unsafe.Pointer
	sendx    uint
	recvx    uint
	recvq    [2]unsafe.Pointer
	sendq    [2]unsafe.Pointer
}

type rtimer struct {
	mu      uintptr
	astate  uint8
	state   uint8
	isChan  bool
	isFake  bool
	blocked uint32
	rand    uint32
	when    int64
}

func chanOf[C any](c C) *hchan { return *(**hchan)(unsafe.Pointer(&c)) }

func (h *hchan) recvReady() bool {
	if h == nil {
		return false
	}
	if h.timer != nil {
		return h.qcount > 0 || (h.timer.when > 0 && h.timer.when <= nanotimeNow())
	}
	return h.qcount > 0 || h.closed != 0 || h.sendq[0] != nil
}

func (h *hchan) sendReady() bool {
	if h == nil {
		return false
	}
	return h.closed != 0 || h.recvq[0] != nil || h.qcount < h.dataqsiz
}

// Recv receives.
func Recv[T any](c <-chan T) T {
	g := Self()
	if g == nil {
		return <-c
	}
	g.park("recv", nil)
	if chanOf(c).recvReady() {
		return <-c
	}
	v := <-c
	g.park("recvd", nil)
	return v
}

// Recv2 receives with the ok result.
func Recv2[T any](c <-chan T) (T, bool) {
	g := Self()
	if g == nil {
		v, ok := <-c
		return v, ok
	}
	g.park("recv", nil)
	if chanOf(c).recvReady() {
		v, ok := <-c
		return v, ok
	}
	v, ok := <-c
	g.park("recvd", nil)
	return v, ok
}

// Send sends.
func Send[T any](c chan<- T, v T) {
	g := Self()
	if g == nil {
		c <- v
		return
	}
	g.park("send", nil)
	if chanOf(c).sendReady() {
		c <- v
		return
	}
	c <- v
	g.park("sent", nil)
}

// Close closes.
func Close[T any](c chan<- T) {
	Pre("close")
	close(c)
}

// Range ranges over a channel.
func Range[T any](c <-chan T) func(func(T) bool) {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(c)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Case describes a case of a select statement.
type Case struct {
	h    *hchan
	send bool
}

// R is a receive case.
func R[T any](c <-chan T) Case { return Case{h: chanOf(c)} }

// S is a send case.
func S[T any](c chan<- T) Case { return Case{h: chanOf(c), send: true} }

// Elem converts a value to the element type of a channel.
func Elem[T any](_ chan<- T, v T) T { return v }

// Sel is the scheduling point of a select statement. It returns the case to
// take (all others must be disabled), or -1 to leave it as it is, and whether
// the statement is going to block.
func Sel(hasDefault bool, cs ...Case) (int, bool) {
	g := Self()
	if g == nil {
		return -1, false
	}
	g.park("select", nil)
	var rdy [16]int
	n := 0
	for i, c := range cs {
		ok := false
		if c.send {
			ok = c.h.sendReady()
		} else {
			ok = c.h.recvReady()
		}
		if ok && n < len(rdy) {
			rdy[n] = i
			n++
		}
	}
	if n == 0 {
		return -1, !hasDefault
	}
	if n == 1 {
		return rdy[0], false
	}
	// ask the controller
	g.x.ask = n
	g.park("select-case", nil)
	return rdy[g.x.answer], false
}

// Post is the scheduling point after a select statement that blocked.
func Post(blocked bool) {
	if blocked {
		Pre("selected")
	}
}

var stamp int

// Stamp is a logical time.
func Stamp() int {
	stamp++
	return stamp
}

// Report appends to the reports of the execution, in the order of the schedule
// and unseen by the race detector.
func Report(s string) {
	if g := Self(); g != nil {
		g.x.Reports = append(g.x.Reports, s)
	}
}

type fileWatch struct {
	name string
	f    func(op uint32, err error)
}

// WatchFile registers a stand-in for a file watch; the result ends it.
func WatchFile(name string, f func(op uint32, err error)) (stop func()) {
	Pre("watch")
	g := Self()
	if g == nil {
		return func() {}
	}
	w := &fileWatch{name, f}
	g.x.watches = append(g.x.watches, w)
	return func() {
		for i, o := range g.x.watches {
			if o == w {
				g.x.watches = append(g.x.watches[:i:i], g.x.watches[i+1:]...)
				return
			}
		}
	}
}

// Watchers is the number of file watches that were not ended.
func (x *Exec) Watchers() int { return len(x.watches) }

// FileEvent tells everything that watches the file; it is called after the
// file was changed.
func FileEvent(name string, op uint32, err error) {
	Pre("file event")
	g := Self()
	for _, w := range g.x.watches {
		if w.name == name {
			w.f(op, err)
		}
	}
}
