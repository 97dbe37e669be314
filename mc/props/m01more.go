package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/mrpc/mongowire"
	"github.com/tychoish/birch/x/mrpc/shell"

	"birchmc/bb"
	"birchmc/engine"
	"birchmc/ref"
)

func keptFrames() []*wmsg {
	out := framePool()
	for _, n := range []int{200, 5000, 40000} {
		d := ref.Doc{{K: "b", V: ref.Val{T: ref.TBinary, Bin: bytes.Repeat([]byte{byte(n / 100)}, n)}}, {K: "n", V: i32(int64(n))}}
		out = append(out,
			&wmsg{Op: mongowire.OP_REPLY, Req: int32(n), B: 1, Docs: []ref.Doc{d}},
			&wmsg{Op: mongowire.OP_MSG, Req: int32(n), Secs: []wsec{{Body: d}, {Seq: true, ID: "s", Docs: []ref.Doc{d}}}},
			&wmsg{Op: mongowire.OP_QUERY, Req: int32(n), NS: "db.c", D1: d, D2: d, HasD2: true})
	}
	return out
}

// m01Kept: neither a message nor the bytes made from one change when other
// messages are read, made, serialized or sent.
func m01Kept(c *engine.Chooser) {
	pool := keptFrames()
	a, b := engine.Pick(c, pool), engine.Pick(c, pool)
	c.Note("%s, then %s", a.Op, b.Op)
	fa, fb := a.frame(), b.frame()
	c.StateB(append(append([]byte{}, fa...), fb...))
	c.NonTrivial()
	read := func(f []byte) mongowire.Message {
		x, err := mongowire.ReadMessage(context.Background(), bytes.NewReader(f))
		if err != nil {
			c.Fail("reading % x: %v", f[:16], err)
		}
		c.Step()
		return x
	}
	keep := []mongowire.Message{read(fa)}
	in := append([]byte{}, fa[16:]...)
	h := mongowire.MessageHeader{Size: int32(len(fa)), RequestID: a.Req, ResponseTo: a.Resp, OpCode: a.Op}
	parsed, err := h.Parse(in)
	if err != nil {
		c.Fail("parsing: %v", err)
	}
	keep = append(keep, parsed)
	ser := read(fa).Serialize()
	was := append([]byte{}, ser...)
	var w bytes.Buffer
	for n := 0; n < 3; n++ {
		y := read(fb)
		yb := y.Serialize()
		if err := mongowire.SendMessage(context.Background(), read(fb), &w); err != nil {
			c.Fail("sending: %v", err)
		}
		bb := *b
		bb.Req, bb.Resp = 19, 0
		if b.Op != mongowire.OP_INSERT && b.Flags&^2 == 0 {
			c.Step()
			if z := bb.build().Serialize(); !bytes.Equal(z, bb.frame()) {
				c.Fail("a %s message made after reading others serializes as % x", b.Op, z)
			}
		}
		if !bytes.Equal(yb, fb) {
			c.Fail("a %s message serializes differently after one of %s", b.Op, a.Op)
		}
		if !bytes.Equal(ser, was) {
			c.Fail("the bytes made from a %s message change when one of %s is read and serialized", a.Op, b.Op)
		}
	}
	for i, x := range keep {
		if err := a.same(x); err != nil {
			c.Fail("the %s message (way %d) changed when one of %s was read: %v", a.Op, i, b.Op, err)
		}
		if got := x.Serialize(); !a.upconverted() && !bytes.Equal(got, fa) {
			c.Fail("the %s message (way %d) serializes differently after one of %s", a.Op, i, b.Op)
		}
	}
}

// m01Shell: what the helpers for shells make of documents, and back.
func m01Shell(c *engine.Chooser) {
	docs := wireDocs()
	t := engine.Pick(c, append([]mongowire.OpType{0, mongowire.RESERVED}, wireOps...))
	ctx := context.Background()
	trip := func(m mongowire.Message, err error) mongowire.Message {
		if err != nil {
			c.Fail("making the message: %v", err)
		}
		c.Step()
		x, err := mongowire.ReadMessage(ctx, bytes.NewReader(m.Serialize()))
		if err != nil {
			c.Fail("reading the message made: %v", err)
		}
		return x
	}
	same := func(what string, d *birch.Document, err error, want ref.Doc) {
		if err != nil {
			c.Fail("%s: %v", what, err)
		}
		got, err := bb.FromDoc(d)
		if err != nil || !got.Equal(want) {
			c.Fail("%s: document is %s (%v), want %s", what, got, err, want)
		}
	}
	c.NonTrivial()
	switch what := c.Choose(4); what {
	case 0: // requests
		i := 1 + c.Choose(len(docs)-1) // a request names its command
		c.Note("request of type %s with %s", t, docs[i])
		c.State(fmt.Sprint("rq", t, i))
		want := docs[i]
		if t != mongowire.OP_MSG && c.Bool() {
			want = append(append(ref.Doc{}, want...), ref.Elem{K: "x", V: str("y")})
		}
		m, err := shell.RequestToMessage(t, bb.Doc(want))
		x := trip(m, err)
		d, err := shell.RequestMessageToDocument(x)
		same("request", d, err, want)
		if t == mongowire.OP_MSG {
			d, err = shell.RequestMessageToDocument(m)
			same("request not sent", d, err, want)
			if x.Header().OpCode != mongowire.OP_MSG {
				c.Fail("a request of type %s is sent as %s", t, x.Header().OpCode)
			}
		} else {
			cm, ok := x.(*mongowire.CommandMessage)
			if !ok || cm.CmdName != want[0].K || cm.DB != "mrpc" {
				c.Fail("a request of type %s arrives as %T %+v", t, x, x)
			}
			// on the wire: no flags, nothing skipped, one document wanted
			q := &wmsg{Op: mongowire.OP_QUERY, Req: m.Header().RequestID, NS: "mrpc.$cmd", B: 1, D1: want, D2: ref.Doc{}, HasD2: true}
			if got := m.Serialize(); !bytes.Equal(got, q.frame()) {
				c.Fail("the request serializes as % x, want % x", got, q.frame())
			}
		}
	case 1: // responses
		i := c.Choose(len(docs))
		c.Note("response of type %s with %s", t, docs[i])
		c.State(fmt.Sprint("rs", t, i))
		m, err := shell.ResponseToMessage(t, bb.Doc(docs[i]))
		for k, x := range []mongowire.Message{trip(m, err), m} {
			d, err := shell.ResponseMessageToDocument(x)
			same(fmt.Sprint("response ", k), d, err, docs[i])
			want := mongowire.OP_REPLY
			if t == mongowire.OP_MSG {
				want = t
			}
			if x.Header().OpCode != want {
				c.Fail("a response to %s is sent as %s", t, x.Header().OpCode)
			}
		}
		if t != mongowire.OP_MSG {
			r := &wmsg{Op: mongowire.OP_REPLY, Req: m.Header().RequestID, B: 1, Docs: docs[i : i+1]}
			if got := m.Serialize(); !bytes.Equal(got, r.frame()) {
				c.Fail("the response serializes as % x, want % x", got, r.frame())
			}
		}
		cr := trip(mongowire.NewCommandReply(bb.Doc(docs[i]), bb.Doc(docs[1]), bdocs(docs[2:4])), nil)
		d, err := shell.ResponseMessageToDocument(cr)
		same("command reply", d, err, docs[i])
	case 2: // the ready-made responses
		msgs := []string{"", "a", "went wrong: \"x\"", string(bytes.Repeat([]byte("long "), 400)), "h\u00e9"}
		i := c.Choose(len(msgs) + 2)
		c.State(fmt.Sprint("w", t, i))
		var w bytes.Buffer
		var err error
		var want shell.ErrorResponse
		switch {
		case i < len(msgs):
			err = shell.WriteErrorResponse(ctx, &w, t, errors.New(msgs[i]), "op")
			want.ErrorMessage = msgs[i]
		case i == len(msgs):
			err = shell.WriteOKResponse(ctx, &w, t, "op")
			want.OK = 1
		default:
			err = shell.WriteNotOKResponse(ctx, &w, t, "op")
		}
		c.Step()
		if err != nil {
			c.Fail("writing: %v", err)
		}
		x, err := mongowire.ReadMessage(ctx, &w)
		if err != nil || w.Len() != 0 {
			c.Fail("reading what was written: %v, %d bytes left", err, w.Len())
		}
		d, err := shell.ResponseMessageToDocument(x)
		if err != nil {
			c.Fail("ResponseMessageToDocument: %v", err)
		}
		var got shell.ErrorResponse
		if err := d.Unmarshal(&got); err != nil || got != want {
			c.Fail("the response reads as %+v (%v), want %+v", got, err, want)
		}
		werr := got.SuccessOrError()
		switch {
		case want.ErrorMessage != "":
			if werr == nil || werr.Error() != want.ErrorMessage {
				c.Fail("SuccessOrError of %+v is %v", got, werr)
			}
		case (werr == nil) != (want.OK == 1):
			c.Fail("SuccessOrError of %+v is %v", got, werr)
		}
	case 3: // writers that fail, and messages without what is asked for
		at := c.Choose(6) * 9
		w := &partWriter{per: 1 << 20, failAt: at}
		c.State(fmt.Sprint("f", t, at))
		c.Step()
		m, err := shell.ResponseToMessage(t, bb.Doc(docs[2]))
		if err != nil {
			c.Fail("ResponseToMessage: %v", err)
		}
		if err := shell.WriteResponse(ctx, w, m, "op"); err == nil {
			c.Fail("writing to a writer that fails at byte %d reports success", at)
		}
		for _, f := range framePool() {
			x, err := mongowire.ReadMessage(ctx, bytes.NewReader(f.frame()))
			if err != nil {
				c.Fail("reading: %v", err)
			}
			c.Step()
			d, err := shell.RequestMessageToDocument(x)
			switch f.Op {
			case mongowire.OP_COMMAND:
				same("command", d, err, f.D1)
			case mongowire.OP_MSG:
				same("message", d, err, f.Secs[0].Body)
			default:
				if err == nil {
					c.Fail("a %s is taken for a request: %v", f.Op, d)
				}
			}
			d, err = shell.ResponseMessageToDocument(x)
			switch f.Op {
			case mongowire.OP_REPLY:
				same("reply", d, err, f.Docs[0])
			case mongowire.OP_COMMAND_REPLY:
				same("command reply", d, err, f.D1)
			case mongowire.OP_MSG:
				same("message", d, err, f.Secs[0].Body)
			default:
				if err == nil {
					c.Fail("a %s is taken for a response: %v", f.Op, d)
				}
			}
		}
		for _, f := range []*wmsg{{Op: mongowire.OP_REPLY}, {Op: mongowire.OP_MSG, Secs: []wsec{{Seq: true, ID: "s", Docs: docs[1:2]}}}} {
			x, err := mongowire.ReadMessage(ctx, bytes.NewReader(f.frame()))
			if err != nil {
				c.Fail("reading: %v", err)
			}
			if d, err := shell.ResponseMessageToDocument(x); err == nil {
				c.Fail("a %s without a document gives %v", f.Op, d)
			}
		}
	}
}
