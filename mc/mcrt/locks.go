package mcrt

import (
	"sync"
	"unsafe"
)

// Mutex replaces sync.Mutex.
type Mutex struct {
	real sync.Mutex
	held bool
}

func (m *Mutex) ready(*G) bool { return !m.held }

// Lock locks.
func (m *Mutex) Lock() {
	g := Self()
	if g == nil || g.x.killed {
		m.real.Lock()
		return
	}
	g.park("lock", m)
	m.held = true
	raceAcquire(unsafe.Pointer(m))
}

// TryLock tries to lock.
func (m *Mutex) TryLock() bool {
	g := Self()
	if g == nil || g.x.killed {
		return m.real.TryLock()
	}
	g.park("trylock", nil)
	if m.held {
		return false
	}
	m.held = true
	raceAcquire(unsafe.Pointer(m))
	return true
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	g := Self()
	if g == nil || g.x.killed {
		m.real.Unlock()
		return
	}
	if !m.held {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	raceRelease(unsafe.Pointer(m))
	m.held = false
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	real    sync.RWMutex
	w       bool
	readers int
	pending int
	rw, ww  byte // addresses for the race detector
}

type rwRead struct{ m *RWMutex }
type rwWrite struct{ m *RWMutex }

func (r rwRead) ready(*G) bool  { return !r.m.w && r.m.pending == 0 }
func (r rwWrite) ready(*G) bool { return !r.m.w && r.m.readers == 0 }

// Lock locks for writing.
func (m *RWMutex) Lock() {
	g := Self()
	if g == nil || g.x.killed {
		m.real.Lock()
		return
	}
	g.park("wlock", nil)
	if !(rwWrite{m}).ready(g) {
		// readers that come later wait for this writer
		m.pending++
		g.park("wlock-wait", rwWrite{m})
		m.pending--
	}
	m.w = true
	raceAcquire(unsafe.Pointer(&m.rw))
	raceAcquire(unsafe.Pointer(&m.ww))
}

// Unlock unlocks for writing.
func (m *RWMutex) Unlock() {
	g := Self()
	if g == nil || g.x.killed {
		m.real.Unlock()
		return
	}
	if !m.w {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&m.ww))
	m.w = false
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	g := Self()
	if g == nil || g.x.killed {
		m.real.RLock()
		return
	}
	g.park("rlock", rwRead{m})
	m.readers++
	raceAcquire(unsafe.Pointer(&m.ww))
}

// RUnlock unlocks for reading.
func (m *RWMutex) RUnlock() {
	g := Self()
	if g == nil || g.x.killed {
		m.real.RUnlock()
		return
	}
	if m.readers <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&m.rw))
	m.readers--
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	g := Self()
	if g == nil || g.x.killed {
		return m.real.TryLock()
	}
	g.park("trylock", nil)
	if !(rwWrite{m}).ready(g) {
		return false
	}
	m.w = true
	raceAcquire(unsafe.Pointer(&m.rw))
	raceAcquire(unsafe.Pointer(&m.ww))
	return true
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	g := Self()
	if g == nil || g.x.killed {
		return m.real.TryRLock()
	}
	g.park("tryrlock", nil)
	if !(rwRead{m}).ready(g) {
		return false
	}
	m.readers++
	raceAcquire(unsafe.Pointer(&m.ww))
	return true
}

// RLocker is a Locker for the read side.
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	real sync.WaitGroup
	n    int
}

func (w *WaitGroup) ready(*G) bool { return w.n == 0 }

// Add adds to the counter.
func (w *WaitGroup) Add(d int) {
	g := Self()
	if g == nil || g.x.killed {
		w.real.Add(d)
		return
	}
	g.park("wg-add", nil)
	if d < 0 {
		raceRelease(unsafe.Pointer(w))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done decrements.
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits for zero.
func (w *WaitGroup) Wait() {
	g := Self()
	if g == nil || g.x.killed {
		w.real.Wait()
		return
	}
	g.park("wg-wait", w)
	raceAcquire(unsafe.Pointer(w))
}

// Go starts a goroutine of the group.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do runs f once.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc replaces sync.OnceFunc.
func OnceFunc(f func()) func() {
	o := &Once{}
	return func() { o.Do(f) }
}

// OnceValue replaces sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	o := &Once{}
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues replaces sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	o := &Once{}
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}
