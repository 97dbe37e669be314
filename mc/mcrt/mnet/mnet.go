// Package mnet is an in-memory network for instrumented code: connections are
// buffered in both directions, like those of a kernel.
package mnet

import (
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"time"

	"birchmc/mcrt"
)

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// half is one direction of a connection.
type half struct {
	mu     sync.Mutex
	buf    []byte
	eof    bool // the writer closed
	gone   bool // the reader closed
	notify chan struct{}
}

func newHalf() *half { return &half{notify: make(chan struct{})} }

func (h *half) bump() {
	close(h.notify)
	h.notify = make(chan struct{})
}

// Conn is one end of a connection.
type Conn struct {
	rd, wr *half
	la, ra addr
	mu     sync.Mutex
	closed bool
	// Split, when set, limits how much one Read returns.
	Split func(avail int) int
}

// Pipe makes a connection.
func Pipe(a, b string) (*Conn, *Conn) {
	x, y := newHalf(), newHalf()
	return &Conn{rd: x, wr: y, la: addr(a), ra: addr(b)}, &Conn{rd: y, wr: x, la: addr(b), ra: addr(a)}
}

func (c *Conn) isClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

func (c *Conn) Read(b []byte) (int, error) {
	mcrt.Pre("conn.Read")
	for {
		if c.isClosed() {
			return 0, net.ErrClosed
		}
		c.rd.mu.Lock()
		if len(c.rd.buf) > 0 {
			n := len(c.rd.buf)
			if c.Split != nil {
				n = c.Split(n)
			}
			n = copy(b, c.rd.buf[:n])
			c.rd.buf = c.rd.buf[n:]
			c.rd.mu.Unlock()
			return n, nil
		}
		if c.rd.eof {
			c.rd.mu.Unlock()
			return 0, io.EOF
		}
		w := c.rd.notify
		c.rd.mu.Unlock()
		<-w
		mcrt.Pre("conn.Read")
	}
}

func (c *Conn) Write(b []byte) (int, error) {
	mcrt.Pre("conn.Write")
	if c.isClosed() {
		return 0, net.ErrClosed
	}
	c.wr.mu.Lock()
	defer c.wr.mu.Unlock()
	if c.wr.gone {
		return 0, errors.New("write: broken pipe")
	}
	c.wr.buf = append(c.wr.buf, b...)
	c.wr.bump()
	return len(b), nil
}

// Drain returns what was received and not read.
func (c *Conn) Drain() []byte {
	c.rd.mu.Lock()
	defer c.rd.mu.Unlock()
	b := c.rd.buf
	c.rd.buf = nil
	return b
}

// PeerClosed says whether the other end was closed.
func (c *Conn) PeerClosed() bool {
	c.rd.mu.Lock()
	defer c.rd.mu.Unlock()
	return c.rd.eof
}

// Close closes both directions.
func (c *Conn) Close() error {
	mcrt.Pre("conn.Close")
	c.mu.Lock()
	was := c.closed
	c.closed = true
	c.mu.Unlock()
	if was {
		return net.ErrClosed
	}
	c.wr.mu.Lock()
	c.wr.eof = true
	c.wr.bump()
	c.wr.mu.Unlock()
	c.rd.mu.Lock()
	c.rd.gone = true
	c.rd.bump()
	c.rd.mu.Unlock()
	return nil
}

func (c *Conn) LocalAddr() net.Addr              { return c.la }
func (c *Conn) RemoteAddr() net.Addr             { return c.ra }
func (c *Conn) SetDeadline(time.Time) error      { return os.ErrNoDeadline }
func (c *Conn) SetReadDeadline(time.Time) error  { return os.ErrNoDeadline }
func (c *Conn) SetWriteDeadline(time.Time) error { return os.ErrNoDeadline }

// Listener accepts connections.
type Listener struct {
	mu     sync.Mutex
	queue  []net.Conn
	errs   []error
	closed bool
	notify chan struct{}
	a      addr
	Closes int
}

func (l *Listener) Accept() (net.Conn, error) {
	mcrt.Pre("accept")
	for {
		l.mu.Lock()
		if l.closed {
			l.mu.Unlock()
			return nil, net.ErrClosed
		}
		if len(l.errs) > 0 {
			e := l.errs[0]
			l.errs = l.errs[1:]
			l.mu.Unlock()
			return nil, e
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue = l.queue[1:]
			l.mu.Unlock()
			return c, nil
		}
		w := l.notify
		l.mu.Unlock()
		<-w
		mcrt.Pre("accept")
	}
}

// Close stops the listener.
func (l *Listener) Close() error {
	mcrt.Pre("listener.Close")
	l.mu.Lock()
	defer l.mu.Unlock()
	l.Closes++
	if l.closed {
		return net.ErrClosed
	}
	l.closed = true
	close(l.notify)
	l.notify = make(chan struct{})
	for _, c := range l.queue {
		if mc, ok := c.(*Conn); ok {
			mc.wr.mu.Lock()
			mc.wr.eof = true
			mc.wr.bump()
			mc.wr.mu.Unlock()
		}
	}
	return nil
}

// Closed says whether the listener was closed.
func (l *Listener) Closed() bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.closed
}

func (l *Listener) Addr() net.Addr { return l.a }

// Dial connects a client, whose end is returned.
func (l *Listener) Dial(name string) (*Conn, *Conn, error) {
	mcrt.Pre("dial")
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return nil, nil, errors.New("connection refused")
	}
	cl, sv := Pipe(name, string(l.a))
	l.queue = append(l.queue, sv)
	close(l.notify)
	l.notify = make(chan struct{})
	return cl, sv, nil
}

// Refuse makes the next Accept fail.
func (l *Listener) Refuse(err error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.errs = append(l.errs, err)
	close(l.notify)
	l.notify = make(chan struct{})
}

var (
	gmu sync.Mutex
	cur *Listener
)

// Reset forgets the current listener.
func Reset() {
	gmu.Lock()
	cur = nil
	gmu.Unlock()
}

// Current is the most recent listener, or nil.
func Current() *Listener {
	gmu.Lock()
	defer gmu.Unlock()
	return cur
}

// Listen stands in for net.Listen.
func Listen(network, address string) (net.Listener, error) {
	if mcrt.Self() == nil {
		return net.Listen(network, address)
	}
	mcrt.Pre("listen")
	l := &Listener{a: addr(address), notify: make(chan struct{})}
	gmu.Lock()
	cur = l
	gmu.Unlock()
	return l, nil
}
