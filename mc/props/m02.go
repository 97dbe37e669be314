package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"time"

	"birchmc/engine"
	"birchmc/ref"

	"github.com/tychoish/birch/x/mrpc/mongowire"
)

// framePool holds small messages of every kind.
func framePool() []*wmsg {
	d := wireDocs()
	return []*wmsg{
		{Op: mongowire.OP_KILL_CURSORS, Req: 1},
		{Op: mongowire.OP_GET_MORE, Req: 2, Resp: 3, NS: "a.b", A: 4, Cursor: 5},
		{Op: mongowire.OP_MSG, Req: 6, Flags: 1, Checksum: 7, Secs: []wsec{{Body: d[2]}}},
		{Op: mongowire.OP_REPLY, Req: 8, Resp: 9, B: 2, Docs: []ref.Doc{d[1], d[0]}},
		{Op: mongowire.OP_QUERY, Req: 10, NS: "db.c", D1: d[1]},
		{Op: mongowire.OP_UPDATE, Req: 11, NS: "db.c", Flags: 1, D1: d[1], D2: d[3]},
		{Op: mongowire.OP_INSERT, Req: 12, NS: "db.c", Docs: []ref.Doc{d[1]}},
		{Op: mongowire.OP_DELETE, Req: 13, NS: "db.c", Flags: 1, D1: d[1]},
		{Op: mongowire.OP_COMMAND, Req: 14, NS: "db", Cmd: "ping", D1: d[1], D2: d[0]},
		{Op: mongowire.OP_COMMAND_REPLY, Req: 15, D1: d[1], D2: d[0]},
		{Op: mongowire.OP_MSG, Req: 16, Secs: []wsec{{Body: d[1]}, {Seq: true, ID: "s", Docs: []ref.Doc{d[1], d[0]}}}},
	}
}

func m02Stream(c *engine.Chooser, msgs []*wmsg, cutOf func(total int) map[int]bool) {
	var data []byte
	var ends []int
	for _, m := range msgs {
		data = append(data, m.frame()...)
		ends = append(ends, len(data))
	}
	s := &stream{data: data, end: io.EOF, zero: c.Choose(2), eofWithData: c.Bool(), cuts: cutOf(len(data))}
	s.zleft = s.zero
	c.Note("%d messages (% x), cuts %v, zero reads %d, EOF with data %v", len(msgs), data, s.cuts, s.zero, s.eofWithData)
	c.State(fmt.Sprintf("%x|%v|%d|%v", data, s.cuts, s.zero, s.eofWithData))
	if len(s.cuts) > 0 {
		c.NonTrivial()
	}
	var got []mongowire.Message
	for i, m := range msgs {
		x, err := mongowire.ReadMessage(context.Background(), s)
		c.Step()
		if err != nil {
			c.Fail("message %d of %d: %v", i, len(msgs), err)
		}
		if s.pos != ends[i] {
			c.Fail("reading message %d consumed up to byte %d, it ends at %d", i, s.pos, ends[i])
		}
		if err := m.same(x); err != nil {
			c.Fail("message %d: %v", i, err)
		}
		got = append(got, x)
	}
	if x, err := mongowire.ReadMessage(context.Background(), s); err != io.EOF || x != nil {
		c.Fail("at the end of the stream: %v, %v; want a clean end", x, err)
	}
	for i, m := range msgs {
		if err := m.same(got[i]); err != nil {
			c.Fail("message %d after all were read: %v", i, err)
		}
		if b := got[i].Serialize(); !bytes.Equal(b, m.frame()) {
			c.Fail("message %d serializes as % x, was % x", i, b, m.frame())
		}
	}
}

func m02Fault(c *engine.Chooser, pre, m *wmsg, cutOf func(total int) map[int]bool) {
	fr := m.frame()
	at := c.Choose(len(fr))
	var data []byte
	if pre != nil {
		data = append(data, pre.frame()...)
	}
	start := len(data)
	data = append(data, fr[:at]...)
	s := &stream{data: data, end: io.EOF, zero: c.Choose(2), eofWithData: c.Bool(), cuts: cutOf(len(data))}
	if c.Bool() {
		s.end = errInjected
	}
	s.zleft = s.zero
	c.Note("message %s cut after %d of %d bytes by %v, cuts %v, zero %d, with data %v", m, at, len(fr), s.end, s.cuts, s.zero, s.eofWithData)
	c.State(fmt.Sprintf("%x|%d|%v|%v|%d|%v", data, at, s.end, s.cuts, s.zero, s.eofWithData))
	if at > 0 {
		c.NonTrivial()
	}
	if pre != nil {
		x, err := mongowire.ReadMessage(context.Background(), s)
		c.Step()
		if err != nil {
			c.Fail("the complete message before: %v", err)
		}
		if err := pre.same(x); err != nil {
			c.Fail("the complete message before: %v", err)
		}
		if s.pos != start {
			c.Fail("the complete message before consumed %d bytes of %d", s.pos, start)
		}
	}
	x, err := mongowire.ReadMessage(context.Background(), s)
	c.Step()
	if err == nil {
		c.Fail("a message cut after %d of %d bytes by %v is delivered: %v (%v)", at, len(fr), s.end, x, err)
	}
	if at > 0 && err == io.EOF {
		c.Fail("a stream that ends inside a message (%d of %d bytes) reports a clean end", at, len(fr))
	}
	if at == 0 && s.end == io.EOF && err != io.EOF {
		c.Fail("a stream that ends between messages reports %v", err)
	}
	if s.end == errInjected && !errors.Is(err, errInjected) {
		// a fault must not be taken for the end of the stream
		if errors.Is(err, io.EOF) {
			c.Fail("a failing stream reports %v", err)
		}
	}
}

// blockingStream delivers data and then blocks until released.
type blockingStream struct {
	data    []byte
	pos     int
	step    int
	blocked chan struct{}
	release chan struct{}
}

func (b *blockingStream) Read(p []byte) (int, error) {
	if b.pos >= len(b.data) {
		b.blocked <- struct{}{}
		<-b.release
		return 0, io.ErrClosedPipe
	}
	n := copy(p, b.data[b.pos:])
	if n > b.step {
		n = b.step
	}
	b.pos += n
	return n, nil
}

// partWriter accepts at most per bytes per call and fails (or blocks) at a
// given offset.
type partWriter struct {
	got     []byte
	per     int
	failAt  int // -1: never
	short   bool
	block   bool
	blocked chan struct{}
	release chan struct{}
	calls   int
}

func (w *partWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.calls > 10000 {
		panic("writer called without end")
	}
	n := len(p)
	if n > w.per {
		n = w.per
	}
	if w.failAt >= 0 && len(w.got)+n > w.failAt {
		n = w.failAt - len(w.got)
		w.got = append(w.got, p[:n]...)
		if w.block {
			w.blocked <- struct{}{}
			<-w.release
			return n, io.ErrClosedPipe
		}
		return n, errInjected
	}
	w.got = append(w.got, p[:n]...)
	return n, nil
}

const m02Patience = 20 * time.Second

// M02: framing.
var M02 = &engine.Property{
	ID: "M02", Level: "model_checking",
	Assume: []string{"the reference frame encoder in mc/props/wire_ref.go follows the published wire protocol",
		"a reader makes progress after finitely many empty reads"},
	Families: func(tier string) []engine.Family {
		pool := framePool()
		maxCuts := 3
		if tier == "thorough" {
			maxCuts = 4
		}
		upTo := func(c *engine.Chooser, k int) func(total int) map[int]bool {
			return func(total int) map[int]bool {
				cuts := map[int]bool{}
				p := 0
				for i := 0; i < k; i++ {
					d := c.Choose(total - p)
					if d == 0 {
						break
					}
					p += d
					cuts[p] = true
				}
				return cuts
			}
		}
		every := func(n int) func(total int) map[int]bool {
			return func(total int) map[int]bool {
				cuts := map[int]bool{}
				for i := n; i < total; i += n {
					cuts[i] = true
				}
				return cuts
			}
		}
		return []engine.Family{
			{Name: "segments", Bounds: fmt.Sprintf("two consecutive messages (killCursors 24 B, getMore): every set of <= %d cut points, with and without empty reads, end of stream with or after the last data", maxCuts), Rule: "at least one cut", Split: 4,
				Run: func(c *engine.Chooser) {
					m02Stream(c, []*wmsg{pool[0], pool[1]}, upTo(c, maxCuts))
				}},
			{Name: "kinds", Bounds: "every message kind: every one and two cut points, every regular segmentation of 1..8 bytes", Rule: "at least one cut", Split: 3,
				Run: func(c *engine.Chooser) {
					m := engine.Pick(c, pool)
					if k := c.Choose(9); k == 0 {
						m02Stream(c, []*wmsg{m}, upTo(c, 2))
					} else {
						m02Stream(c, []*wmsg{m}, every(k))
					}
				}},
			{Name: "sequences", Bounds: "all sequences of 0..3 messages out of 11, coalesced and in regular segments of 1, 3, 16, 17 and 100 bytes", Rule: "at least one cut", Split: 3,
				Run: func(c *engine.Chooser) {
					var ms []*wmsg
					for n := c.Choose(4); n > 0; n-- {
						ms = append(ms, engine.Pick(c, pool))
					}
					m02Stream(c, ms, every(engine.Pick(c, []int{1 << 30, 1, 3, 16, 17, 100})))
				}},
			{Name: "faults", Bounds: "every message kind cut at every byte by the end of the stream or by an error, alone or after a complete message, with every single cut point or byte by byte", Rule: "cut inside the message", Split: 3,
				Run: func(c *engine.Chooser) {
					m := engine.Pick(c, pool)
					var pre *wmsg
					if c.Bool() {
						pre = pool[1]
					}
					if c.Bool() {
						m02Fault(c, pre, m, every(1))
					} else {
						m02Fault(c, pre, m, func(total int) map[int]bool {
							if total == 0 {
								return nil
							}
							return map[int]bool{c.Choose(total): true}
						})
					}
				}},
			{Name: "cancel-read", Bounds: "every message kind, the transport stalling after every byte offset (delivering whole or byte by byte), then cancelled; and a context cancelled before the read", Rule: "every case", Split: 2,
				Run: func(c *engine.Chooser) {
					m := engine.Pick(c, pool)
					fr := m.frame()
					at := c.Choose(len(fr) + 1)
					step := engine.Pick(c, []int{1, 1 << 30})
					c.NonTrivial()
					c.State(fmt.Sprintf("%x|%d|%d", fr, at, step))
					ctx, cancel := context.WithCancel(context.Background())
					defer cancel()
					b := &blockingStream{data: fr, step: step, blocked: make(chan struct{}, 1), release: make(chan struct{})}
					defer close(b.release)
					if at == len(fr) {
						c.Note("cancelled before reading %s", m)
						cancel()
						x, err := mongowire.ReadMessage(ctx, b)
						c.Step()
						if x != nil || !errors.Is(err, context.Canceled) {
							c.Fail("reading with a cancelled context gives %v, %v", x, err)
						}
						return
					}
					b.data = fr[:at]
					c.Note("%s stalls after %d of %d bytes, then cancelled", m, at, len(fr))
					type res struct {
						x   mongowire.Message
						err error
					}
					done := make(chan res, 1)
					go func() {
						x, err := mongowire.ReadMessage(ctx, b)
						done <- res{x, err}
					}()
					select {
					case <-b.blocked:
					case r := <-done:
						c.Fail("the read ended with %v, %v after %d of %d bytes", r.x, r.err, b.pos, len(fr))
					}
					cancel()
					select {
					case r := <-done:
						c.Step()
						if r.x != nil || !errors.Is(r.err, context.Canceled) {
							c.Fail("a cancelled read gives %v, %v", r.x, r.err)
						}
					case <-time.After(m02Patience):
						c.Fail("cancelling does not stop a read that stalls after %d of %d bytes", at, len(fr))
					}
				}},
			{Name: "send", Bounds: "every message kind to a writer that takes at most 1, 2, 3, 7, 16 or any number of bytes per call; failing or stalling (then cancelled) at every byte offset, or never", Rule: "fails or is partial", Split: 3,
				Run: func(c *engine.Chooser) {
					m := engine.Pick(c, pool)
					b := *m
					b.Req, b.Resp = 19, 0
					if b.Op == mongowire.OP_MSG {
						b.Flags &^= 1
					}
					fr := b.frame()
					per := engine.Pick(c, []int{1, 2, 3, 7, 16, 1 << 30})
					w := &partWriter{per: per, failAt: c.Choose(len(fr)+1) - 1, blocked: make(chan struct{}, 1), release: make(chan struct{})}
					defer close(w.release)
					if w.failAt >= 0 {
						w.block = c.Bool()
					}
					c.Note("send %s to a writer taking %d bytes a call, fails at %d (stalls: %v)", &b, per, w.failAt, w.block)
					c.State(fmt.Sprintf("%x|%d|%d|%v", fr, per, w.failAt, w.block))
					if per < len(fr) || w.failAt >= 0 {
						c.NonTrivial()
					}
					ctx, cancel := context.WithCancel(context.Background())
					defer cancel()
					done := make(chan error, 1)
					go func() { done <- mongowire.SendMessage(ctx, b.build(), w) }()
					var err error
					c.Step()
					if w.block {
						select {
						case <-w.blocked:
						case err := <-done:
							c.Fail("send returned %v before the stalled writer did", err)
						}
						cancel()
					}
					select {
					case err = <-done:
					case <-time.After(m02Patience):
						c.Fail("send does not return (stalled and cancelled: %v)", w.block)
					}
					switch {
					case w.failAt < 0:
						if err != nil || !bytes.Equal(w.got, fr) {
							c.Fail("sent % x (%v), frame is % x", w.got, err, fr)
						}
					case w.block:
						if !errors.Is(err, context.Canceled) {
							c.Fail("a cancelled send gives %v", err)
						}
						if !bytes.Equal(w.got, fr[:w.failAt]) {
							c.Fail("sent % x before stalling at %d of % x", w.got, w.failAt, fr)
						}
					default:
						if err == nil {
							c.Fail("a send that fails after %d of %d bytes reports success", w.failAt, len(fr))
						}
						if !bytes.Equal(w.got, fr[:w.failAt]) {
							c.Fail("sent % x before failing at %d of % x", w.got, w.failAt, fr)
						}
					}
					cctx, ccancel := context.WithCancel(context.Background())
					ccancel()
					w2 := &partWriter{per: 1 << 30, failAt: -1}
					if err := mongowire.SendMessage(cctx, b.build(), w2); !errors.Is(err, context.Canceled) {
						c.Fail("sending with a cancelled context gives %v", err)
					}
				}},
		}
	},
}
