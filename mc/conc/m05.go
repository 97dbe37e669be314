package conc

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	"birchmc/engine"
	"birchmc/mcrt"
	mctx "birchmc/mcrt/mctx"
	"birchmc/mcrt/mnet"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/mrpc"
	"github.com/tychoish/birch/x/mrpc/model"
	"github.com/tychoish/birch/x/mrpc/mongowire"
	"github.com/tychoish/birch/x/mrpc/shell"
)

// What a client sends.
type m05Kind int

const (
	okMsg m05Kind = iota
	okCmd
	okQuery
	okInsert // has no reply
	panicMsg
	unknownMsg
	unknownQuery
	replyMsg
	badOp
	badSize
	hugeSize
	badDoc
	m05Kinds
)

var m05Names = [...]string{"msg", "command", "query", "insert", "panicking", "unknown-msg", "unknown-query", "reply", "bad-opcode", "bad-size", "huge-size", "bad-document"}

func (k m05Kind) String() string   { return m05Names[k] }
func (k m05Kind) wellFormed() bool { return k <= panicMsg }
func (k m05Kind) fatal() bool      { return k > panicMsg }
func (k m05Kind) replies() bool    { return k <= okQuery }

func m05Doc(k string, id int) *birch.Document {
	return birch.DC.Elements(birch.EC.Int32(k, 1), birch.EC.Int32("id", int32(id)), birch.EC.String("$db", "db"))
}

func (k m05Kind) frame(id int) []byte {
	op := func(k string) []byte {
		return mongowire.NewOpMessage(false, []birch.Document{*m05Doc(k, id)}).Serialize()
	}
	switch k {
	case okMsg:
		return op("echo")
	case okCmd:
		return mongowire.NewCommand("db", "echo", m05Doc("echo", id), birch.DC.Make(0), nil).Serialize()
	case okQuery:
		return mongowire.NewQuery("db.c", 0, 0, 1, m05Doc("q", id), nil).Serialize()
	case okInsert:
		return mongowire.NewInsert("db.c", m05Doc("i", id)).Serialize()
	case panicMsg:
		return op("panic")
	case unknownMsg:
		return op("nope")
	case unknownQuery:
		return mongowire.NewQuery("db.other", 0, 0, 1, m05Doc("q", id), nil).Serialize()
	case replyMsg:
		return mongowire.NewReply(0, 0, 0, 1, []birch.Document{*m05Doc("r", id)}).Serialize()
	case badOp:
		b := op("echo")
		binary.LittleEndian.PutUint32(b[12:], 4242)
		return b
	case badSize:
		b := op("echo")
		binary.LittleEndian.PutUint32(b, 15)
		return b
	case hugeSize:
		b := op("echo")
		binary.LittleEndian.PutUint32(b, 1<<31-1)
		return b
	case badDoc:
		b := op("echo")
		b[21]++ // the length of the document
		return b
	}
	panic("kind")
}

// m05World is a service and what it did.
type m05World struct {
	svc   mrpc.Service
	calls []int // by request id
	kinds []m05Kind
}

func newM05() *m05World {
	w := &m05World{svc: mrpc.NewBasicService("host", 1)}
	reg := func(s mongowire.OpScope, f mrpc.HandlerFunc) {
		if err := w.svc.RegisterOperation(&s, f); err != nil {
			panic(err)
		}
	}
	id := func(d *birch.Document) int {
		n := int(d.Lookup("id").Int32())
		w.calls[n]++
		return n
	}
	send := func(ctx context.Context, out io.Writer, m mongowire.Message) { _ = mongowire.SendMessage(ctx, m, out) }
	reply := func(n int) []birch.Document {
		return []birch.Document{*birch.DC.Elements(birch.EC.Int32("reply", int32(n)))}
	}
	reg(mongowire.OpScope{Type: mongowire.OP_MSG, Command: "echo"}, func(ctx context.Context, out io.Writer, m mongowire.Message) {
		n := id(&m.(*mongowire.OpMessage).Items[0].Documents()[0])
		send(ctx, out, mongowire.NewOpMessage(false, reply(n)))
	})
	reg(mongowire.OpScope{Type: mongowire.OP_MSG, Command: "panic"}, func(ctx context.Context, out io.Writer, m mongowire.Message) {
		id(&m.(*mongowire.OpMessage).Items[0].Documents()[0])
		panic("requested")
	})
	reg(mongowire.OpScope{Type: mongowire.OP_COMMAND, Context: "db", Command: "echo"}, func(ctx context.Context, out io.Writer, m mongowire.Message) {
		n := id(m.(*mongowire.CommandMessage).CommandArgs)
		send(ctx, out, mongowire.NewReply(0, 0, 0, 1, reply(n)))
	})
	reg(mongowire.OpScope{Type: mongowire.OP_QUERY, Context: "db.c"}, func(ctx context.Context, out io.Writer, m mongowire.Message) {
		q, _ := mongowire.GetModel(m)
		n := id(q.(*model.Query).Query)
		send(ctx, out, mongowire.NewReply(0, 0, 0, 1, reply(n)))
	})
	reg(mongowire.OpScope{Type: mongowire.OP_INSERT, Context: "db.c"}, func(ctx context.Context, out io.Writer, m mongowire.Message) {
		q, _ := mongowire.GetModel(m)
		id(&q.(*model.Insert).Documents[0])
	})
	w.svc.RegisterErrorHandler(func(err error) { mcrt.Report("error: " + err.Error()) })
	return w
}

// request makes the next request.
func (w *m05World) request(k m05Kind) (id int, frame []byte) {
	id = len(w.kinds)
	w.kinds = append(w.kinds, k)
	w.calls = append(w.calls, 0)
	return id, k.frame(id)
}

// m05Client is a client and its conversation.
type m05Client struct {
	name     string
	segments [][]byte
	split    int  // bytes per read at the service (0: no limit)
	settle   bool // every segment arrives on its own
	ids      []int
	whole    bool // it sent all of every request
	fatal    int  // index of the first request that is not served (or len)
	panics   bool

	conn   *mnet.Conn
	got    []byte
	closed bool // the service closed the connection first
	err    error
}

func (w *m05World) client(name string, kinds ...m05Kind) *m05Client {
	cl := &m05Client{name: name, whole: true, fatal: len(kinds)}
	for i, k := range kinds {
		id, b := w.request(k)
		cl.ids = append(cl.ids, id)
		cl.segments = append(cl.segments, b)
		if k.fatal() && i < cl.fatal {
			cl.fatal = i
		}
		cl.panics = cl.panics || k == panicMsg
	}
	return cl
}

// join sends everything at once.
func (cl *m05Client) join() { cl.segments = [][]byte{bytes.Join(cl.segments, nil)} }

// cutAt changes the segments to those between the cuts.
func (cl *m05Client) cutAt(cuts ...int) {
	all := bytes.Join(cl.segments, nil)
	sort.Ints(cuts)
	cl.segments = nil
	last := 0
	for _, k := range append(cuts, len(all)) {
		if k > last {
			cl.segments = append(cl.segments, all[last:k])
			last = k
		}
	}
}

// truncate drops everything after n bytes.
func (cl *m05Client) truncate(w *m05World, n int) {
	all := bytes.Join(cl.segments, nil)
	cl.segments = [][]byte{all[:n]}
	end := 0
	for i, id := range cl.ids {
		end += len(w.kinds[id].frame(id))
		if end > n {
			cl.fatal, cl.whole = min(cl.fatal, i), false
			return
		}
	}
}

// run is the client's thread.
func (cl *m05Client) run(l *mnet.Listener) {
	conn, sv, err := l.Dial(cl.name)
	if err != nil {
		cl.err = err
		return
	}
	cl.conn = conn
	if cl.split > 0 {
		sv.Split = func(avail int) int { return min(avail, cl.split) }
	}
	for _, s := range cl.segments {
		if _, err := conn.Write(s); err != nil {
			cl.err = err
			break
		}
		if cl.settle {
			mcrt.Settle()
		}
	}
	if cl.whole {
		mcrt.Settle()
	}
	cl.closed = conn.PeerClosed()
	_ = conn.Close()
	mcrt.Settle()
	cl.got = conn.Drain()
}

// replies parses what the client received: kinds of replies by request id.
func (cl *m05Client) replies(c *engine.Chooser, w *m05World) map[int]int {
	out := map[int]int{}
	b := cl.got
	for len(b) > 0 {
		if len(b) < 16 || int(binary.LittleEndian.Uint32(b)) > len(b) {
			c.Fail("%s received a torn reply: %x", cl.name, cl.got)
		}
		m, err := mongowire.ReadMessage(context.Background(), bytes.NewReader(b))
		if err != nil {
			c.Fail("%s received a malformed reply: %v", cl.name, err)
		}
		b = b[binary.LittleEndian.Uint32(b):]
		var doc *birch.Document
		var op mongowire.OpType
		switch m := m.(type) {
		case *mongowire.OpMessage:
			doc, op = &m.Items[0].Documents()[0], mongowire.OP_MSG
		case *mongowire.ReplyMessage:
			doc, op = &m.Docs[0], mongowire.OP_REPLY
		default:
			c.Fail("%s received %T", cl.name, m)
		}
		id := int(doc.Lookup("reply").Int32())
		mine := false
		for _, x := range cl.ids {
			mine = mine || x == id
		}
		if !mine {
			c.Fail("%s received the reply to request %d, which it did not send", cl.name, id)
		}
		if want := w.kinds[id] == okMsg; want != (op == mongowire.OP_MSG) {
			c.Fail("the reply to request %d (%s) is a %s", id, w.kinds[id], op)
		}
		out[id]++
		if out[id] > 1 {
			c.Fail("%s received the reply to request %d twice", cl.name, id)
		}
	}
	return out
}

// judge checks a client's conversation; canceled: the service was canceled
// meanwhile.
func (cl *m05Client) judge(c *engine.Chooser, w *m05World, canceled bool) {
	got := cl.replies(c, w)
	served := cl.fatal == len(cl.ids) && !cl.panics && cl.whole && !canceled
	for i, id := range cl.ids {
		k := w.kinds[id]
		if w.calls[id] > 1 {
			c.Fail("request %d (%s) of %s was handled %d times", id, k, cl.name, w.calls[id])
		}
		if !k.wellFormed() && w.calls[id] > 0 {
			c.Fail("request %d (%s) of %s was handled", id, k, cl.name)
		}
		if i < cl.fatal && cl.whole && !canceled && !(cl.panics && cl.closed) && w.calls[id] != 1 {
			c.Fail("request %d (%s) of %s was not handled", id, k, cl.name)
		}
		if !cl.whole && i >= cl.fatal && w.calls[id] > 0 {
			c.Fail("request %d of %s was handled although it was not received", id, cl.name)
		}
		if served && k.replies() && got[id] != 1 {
			c.Fail("request %d (%s) of %s has no reply", id, k, cl.name)
		}
	}
	if served && cl.closed {
		c.Fail("the service closed the connection of %s", cl.name)
	}
	if cl.err != nil && served {
		c.Fail("%s: %v", cl.name, cl.err)
	}
}

// run lets the clients talk to the service and then cancels it (or, with
// racing set, while they talk).
func (w *m05World) run(c *engine.Chooser, x *mcrt.Exec, racing bool, refuse int, clients ...*m05Client) {
	mnet.Reset()
	ctx, cancel := mctx.WithCancel(context.Background())
	runErr := errors.New("did not return")
	x.Go("service", func() { runErr = w.svc.Run(ctx) })
	check(c, x.Run())
	l := mnet.Current()
	if l == nil {
		c.Fail("the service does not listen")
	}
	for range refuse {
		l.Refuse(errors.New("injected accept error"))
	}
	if racing {
		x.Anytime("cancel", cancel)
	}
	for _, cl := range clients {
		x.Go(cl.name, func() { cl.run(l) })
	}
	check(c, x.Run())
	if !racing {
		x.Go("cancel", cancel)
	}
	finish(c, x)
	if runErr != nil {
		c.Fail("Run ended with: %v", runErr)
	}
	if !l.Closed() {
		c.Fail("the service still listens after it ended")
	}
	must, may := refuse > 0, refuse > 0
	for _, cl := range clients {
		cl.judge(c, w, racing)
		if cl.conn != nil && !cl.conn.PeerClosed() {
			c.Fail("the service never closed the connection of %s", cl.name)
		}
		if cl.fatal < len(cl.ids) || cl.panics {
			may = true
			must = must || cl.whole && !racing
		}
	}
	errs := 0
	for _, s := range x.Reports {
		if strings.HasPrefix(s, "error: ") {
			errs++
		}
	}
	if must && errs == 0 {
		c.Fail("no error was reported")
	}
	if !may && !racing && errs > 0 {
		c.Fail("errors were reported without cause: %v", x.Reports)
	}
	c.State(fmt.Sprint(w.kinds, w.calls))
}

func m05Pick(c *engine.Chooser, kinds []m05Kind, n int) []m05Kind {
	var out []m05Kind
	for range n {
		out = append(out, engine.Pick(c, kinds))
	}
	return out
}

func everyKind() (out []m05Kind) {
	for k := range m05Kinds {
		out = append(out, k)
	}
	return
}

// m05Conversations: one schedule of every conversation.
func m05Conversations(depth int) func(c *engine.Chooser) {
	return func(c *engine.Chooser) {
		w := newM05()
		a := w.client("a", m05Pick(c, everyKind(), c.Choose(depth+1))...)
		b := w.client("b", m05Pick(c, []m05Kind{okMsg, okCmd, okQuery}, 1)...)
		switch c.Choose(3) {
		case 1:
			a.join()
		case 2:
			a.split = 1
		}
		cs := []*m05Client{a, b}
		if c.Bool() {
			cs = []*m05Client{b, a}
		}
		delayed(c, 0, func(x *mcrt.Exec) { w.run(c, x, false, 0, cs...) })
	}
}

// m05Segments: every segmentation up to the number of cuts.
func m05Segments(cuts int) func(c *engine.Chooser) {
	return func(c *engine.Chooser) {
		w := newM05()
		a := w.client("a", m05Pick(c, []m05Kind{okMsg, okCmd, okQuery, okInsert}, 2)...)
		total := 0
		for _, s := range a.segments {
			total += len(s)
		}
		var at []int
		from := 0
		for range cuts {
			from += c.Choose(total - from)
			at = append(at, from)
		}
		a.cutAt(at...)
		a.settle = true
		delayed(c, 0, func(x *mcrt.Exec) { w.run(c, x, false, 0, a) })
	}
}

// m05Disconnect: every point at which a client can go away.
func m05Disconnect(c *engine.Chooser) {
	w := newM05()
	a := w.client("a", m05Pick(c, everyKind(), 2)...)
	b := w.client("b", okMsg)
	n := 0
	for _, s := range a.segments {
		n += len(s)
	}
	a.truncate(w, c.Choose(n+1))
	if c.Bool() {
		a.split = 1
	}
	delayed(c, 0, func(x *mcrt.Exec) { w.run(c, x, false, 0, a, b) })
}

// m05Refuse: failing to accept a connection does not affect others.
func m05Refuse(c *engine.Chooser) {
	w := newM05()
	a := w.client("a", m05Pick(c, []m05Kind{okMsg, okCmd, okQuery, okInsert, panicMsg, unknownMsg}, 1)...)
	b := w.client("b", okMsg)
	n := c.Choose(3)
	delayed(c, 2, func(x *mcrt.Exec) { w.run(c, x, false, n, a, b) })
}

// m05Schedules: the schedules of conversations, with or without cancellation.
func m05Schedules(kinds []m05Kind, n, delays int, racing bool) func(c *engine.Chooser) {
	return func(c *engine.Chooser) {
		w := newM05()
		cs := []*m05Client{w.client("a", m05Pick(c, kinds, n)...)}
		if n == 1 || c.Bool() {
			cs = append(cs, w.client("b", okMsg))
		}
		if racing && c.Bool() {
			cs[0].truncate(w, 20)
		}
		delayed(c, delays, func(x *mcrt.Exec) { w.run(c, x, racing, 0, cs...) })
	}
}

// m05Shell: the built-in commands in both protocols, alone or after a message
// that ends another connection.
func m05Shell(c *engine.Chooser) {
	type want map[string]any
	cmds := []struct {
		name string
		want want
	}{
		{"isMaster", want{"ok": 1, "minWireVersion": 0, "maxWireVersion": 6}},
		{"whatsmyuri", want{"ok": 1, "you": "host:7"}},
		{"buildInfo", want{"ok": 1, "version": "0.0.0"}},
		{"buildinfo", want{"ok": 1, "version": "0.0.0"}},
		{"endSessions", want{"ok": 0}},
		{"getCmdLineOpts", want{"ok": 0}},
		{"getFreeMonitoringStatus", want{"ok": 0}},
		{"getLog", want{"ok": 1, "log": nil}},
		{"listCollections", want{"ok": 0}},
		{"replSetGetStatus", want{"ok": 0}},
	}
	var svc mrpc.Service
	var err error
	if c.Bool() {
		svc, err = shell.NewShellService("host", 7)
	} else {
		svc, err = shell.MakeShellService(mrpc.NewBasicService("host", 7))
	}
	if err != nil {
		c.Fail("making the service: %v", err)
	}
	if svc.Address() != "host:7" {
		c.Fail("the address is %q", svc.Address())
	}
	svc.RegisterErrorHandler(func(err error) { mcrt.Report("error: " + err.Error()) })
	type rq struct {
		t    mongowire.OpType
		cmd  int
		args int
	}
	n := 1 + c.Choose(2)
	var reqs []rq
	var frames []byte
	for range n {
		r := rq{t: engine.Pick(c, []mongowire.OpType{mongowire.OP_COMMAND, mongowire.OP_MSG, mongowire.OP_QUERY}), cmd: c.Choose(len(cmds)), args: 0}
		if n == 1 {
			r.args = c.Choose(3)
		}
		doc := birch.DC.Elements(birch.EC.Int32(cmds[r.cmd].name, 1))
		if r.args > 0 {
			doc.Append(birch.EC.String("x", "y"))
		}
		if r.args > 1 {
			doc.Append(birch.EC.String("$db", "admin"))
		}
		var m mongowire.Message
		switch r.t {
		case mongowire.OP_COMMAND:
			m = mongowire.NewCommand("admin", cmds[r.cmd].name, doc, birch.DC.Make(0), nil)
		default:
			// queries on the command namespace and op messages
			if m, err = shell.RequestToMessage(r.t, doc); err != nil {
				c.Fail("RequestToMessage: %v", err)
			}
		}
		b := m.Serialize()
		parsed, err := mongowire.ReadMessage(context.Background(), bytes.NewReader(b))
		if err != nil {
			c.Fail("the request made for %v cannot be read: %v", r, err)
		}
		back, err := shell.RequestMessageToDocument(parsed)
		if err != nil || back.String() != doc.String() {
			c.Fail("the document of the request is %v (%v), expected %v", back, err, doc)
		}
		frames = append(frames, b...)
		reqs = append(reqs, r)
	}
	delayed(c, 0, func(x *mcrt.Exec) {
		mnet.Reset()
		ctx, cancel := mctx.WithCancel(context.Background())
		runErr := errors.New("did not return")
		x.Go("service", func() { runErr = svc.Run(ctx) })
		var got []byte
		x.Go("client", func() {
			mcrt.Settle()
			cl, _, err := mnet.Current().Dial("client")
			if err != nil {
				panic(err)
			}
			if _, err := cl.Write(frames); err != nil {
				panic(err)
			}
			mcrt.Settle()
			got = cl.Drain()
			cancel()
		})
		finish(c, x)
		if runErr != nil {
			c.Fail("Run: %v", runErr)
		}
		if len(x.Reports) > 0 {
			c.Fail("errors: %v", x.Reports)
		}
		// replies carry no request id: match them in any order
		var replies []string
		for len(got) > 0 {
			m, err := mongowire.ReadMessage(context.Background(), bytes.NewReader(got))
			if err != nil {
				c.Fail("malformed reply: %v", err)
			}
			got = got[binary.LittleEndian.Uint32(got):]
			doc, err := shell.ResponseMessageToDocument(m)
			if err != nil {
				c.Fail("ResponseMessageToDocument: %v", err)
			}
			replies = append(replies, m05Describe(m.Header().OpCode, doc))
			var er shell.ErrorResponse
			if err := er.UnmarshalDocument(doc); err != nil {
				c.Fail("reading the status: %v", err)
			}
			if (er.SuccessOrError() == nil) != (er.OK == 1) {
				c.Fail("status %d is reported as %v", er.OK, er.SuccessOrError())
			}
		}
		var expect []string
		for _, r := range reqs {
			op := mongowire.OP_REPLY
			if r.t == mongowire.OP_MSG {
				op = mongowire.OP_MSG
			}
			d := birch.DC.Make(0)
			for _, k := range []string{"ok", "minWireVersion", "maxWireVersion", "you", "version", "log"} {
				v, ok := cmds[r.cmd].want[k]
				if !ok {
					continue
				}
				switch v := v.(type) {
				case int:
					d.Append(birch.EC.Int32(k, int32(v)))
				case string:
					d.Append(birch.EC.String(k, v))
				default:
					d.Append(birch.EC.Array(k, birch.NewArray()))
				}
			}
			expect = append(expect, m05Describe(op, d))
		}
		sort.Strings(replies)
		sort.Strings(expect)
		if strings.Join(replies, "\n") != strings.Join(expect, "\n") {
			c.Fail("replies to %v are %v, expected %v", reqs, replies, expect)
		}
		c.State(fmt.Sprint(reqs))
	})
}

// m05Describe is a reply without its (empty) error message; numbers of any
// width are the same.
func m05Describe(op mongowire.OpType, d *birch.Document) string {
	var out []string
	for e := range d.Iterator() {
		if e.Key() == "errmsg" {
			if s, ok := e.Value().StringValueOK(); ok && s == "" {
				continue
			}
		}
		if n, ok := e.Value().IntOK(); ok {
			out = append(out, fmt.Sprintf("%s=%d", e.Key(), n))
			continue
		}
		out = append(out, fmt.Sprintf("%s=%v", e.Key(), e.Value().Interface()))
	}
	sort.Strings(out)
	return op.String() + "{" + strings.Join(out, ",") + "}"
}

var m05 = &engine.Property{
	ID: "M05", Level: "model_checking",
	Assume: []string{"the network is replaced by in-memory connections, which buffer without bound and deliver in order"},
	Families: func(tier string) []engine.Family {
		depth, cuts, d1, d2, dc := 2, 1, 2, 2, 1
		if tier == "thorough" {
			depth, cuts, d1, d2, dc = 3, 2, 3, 3, 2
		}
		some := []m05Kind{okMsg, okQuery, panicMsg, unknownMsg, badDoc}
		return []engine.Family{
			{Name: "shell", Rule: "every case", Bounds: "one or two requests out of 10 commands x 3 kinds of request (alone: x 3 argument lists) x 2 constructors", Split: 3, Run: m05Shell},
			{Name: "conversations", Rule: "every case", Bounds: fmt.Sprintf("conversations of up to %d requests out of %d kinds x 3 segmentations, beside a second client (3 kinds, before or after)", depth, int(m05Kinds)), Split: 2, Run: m05Conversations(depth)},
			{Name: "segments", Rule: "every case", Bounds: fmt.Sprintf("two requests out of 4 kinds, all segmentations with %d cuts", cuts), Split: 2, Run: m05Segments(cuts)},
			{Name: "disconnect", Rule: "every case", Bounds: fmt.Sprintf("two requests out of %d kinds, the client gone after any number of bytes, reads of any size or one byte", int(m05Kinds)), Split: 2, Run: m05Disconnect},
			{Name: "refuse", Rule: "every schedule", Bounds: "up to 2 failures to accept, 2 clients, 2 delays", Run: m05Refuse},
			{Name: "schedules-1", Rule: "every schedule", Bounds: fmt.Sprintf("2 clients with 1 request each, %d delays", d1), Run: m05Schedules(everyKind(), 1, d1, false)},
			{Name: "schedules-2", Rule: "every schedule", Bounds: fmt.Sprintf("a client with 2 requests, with or without a second one, %d delays", d2), Run: m05Schedules(some, 2, d2, false)},
			{Name: "cancel-1", Rule: "every schedule", Bounds: fmt.Sprintf("canceled after any step while 2 clients talk, %d delays", dc), Split: 14, Run: m05Schedules(some, 1, dc, true)},
			{Name: "cancel-2", Rule: "every schedule", Bounds: fmt.Sprintf("canceled after any step while a client makes two requests, %d delays", dc), Split: 30, Run: m05Schedules([]m05Kind{okMsg, okQuery, panicMsg}, 2, dc, true)},
		}
	},
}
