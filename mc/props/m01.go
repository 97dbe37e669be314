package props

import (
	"bytes"
	"context"
	"math"
	"strings"

	"birchmc/engine"
	"birchmc/ref"

	"github.com/tychoish/birch/x/mrpc/mongowire"
)

var wireOps = []mongowire.OpType{mongowire.OP_REPLY, mongowire.OP_UPDATE, mongowire.OP_INSERT, mongowire.OP_QUERY, mongowire.OP_GET_MORE, mongowire.OP_DELETE, mongowire.OP_KILL_CURSORS, mongowire.OP_COMMAND, mongowire.OP_COMMAND_REPLY, mongowire.OP_MSG}

var i32Pool = []int32{0, 1, -1, math.MaxInt32, math.MinInt32, 0x01020304, 255, 256}
var i64Pool = []int64{0, 1, -1, math.MaxInt64, math.MinInt64, 0x0102030405060708, 1 << 31, 1 << 32}
var flagPool = []int32{0, 1, 2, 3, 4, 6, 7, 1 << 16, -1}
var nsPool = []string{"", "a", "db.coll", "db.a.b", "db.", ".c", "db.c$", "h\u00e9.\u4e16", strings.Repeat("n", 300)}

func wireDocs() []ref.Doc {
	return []ref.Doc{
		{},
		{{K: "a", V: i32(1)}},
		{{K: "ping", V: i32(1)}, {K: "$db", V: str("test")}},
		{{K: "", V: str("x")}, {K: "n", V: ref.Val{T: ref.TDoc, D: ref.Doc{{K: "z", V: ref.Val{T: ref.TArray, D: ref.Doc{{K: "0", V: i32(-1)}}}}}}}},
		{{K: "cs", V: ref.Val{T: ref.TCodeScope, S: "f", D: ref.Doc{{K: "q", V: ref.Val{T: ref.TNull}}}}}},
		{{K: "b", V: ref.Val{T: ref.TBinary, Bin: bytes.Repeat([]byte{7}, 300)}}},
	}
}

// checkWire checks both directions for one message.
func checkWire(c *engine.Chooser, m *wmsg, constructible bool) {
	fr := m.frame()
	c.StateB(fr)
	c.Note("message %s", m)
	c.NonTrivial()
	if constructible {
		b := *m
		b.Req, b.Resp = 19, 0
		x := b.build()
		c.Step()
		if err := b.sameUnread(x); err != nil {
			c.Fail("constructed message: %v", err)
		}
		got := x.Serialize()
		bfr := b.frame()
		if !bytes.Equal(got, bfr) {
			c.Fail("constructed message serializes as\n% x, layout is\n% x", got, bfr)
		}
		if int(x.Header().Size) != len(bfr) {
			c.Fail("declared size %d after serializing, frame has %d bytes", x.Header().Size, len(bfr))
		}
		if again := x.Serialize(); !bytes.Equal(again, bfr) {
			c.Fail("serializing twice gives % x then % x", got, again)
		}
		var buf bytes.Buffer
		if err := mongowire.SendMessage(context.Background(), b.build(), &buf); err != nil || !bytes.Equal(buf.Bytes(), bfr) {
			c.Fail("SendMessage wrote % x (err %v)", buf.Bytes(), err)
		}
	}
	for how := 0; how < 2; how++ {
		var x mongowire.Message
		var err error
		if how == 0 {
			x, err = mongowire.ReadMessage(context.Background(), bytes.NewReader(fr))
		} else {
			h := mongowire.MessageHeader{Size: int32(len(fr)), RequestID: m.Req, ResponseTo: m.Resp, OpCode: m.Op}
			x, err = h.Parse(append([]byte{}, fr[16:]...))
		}
		c.Step()
		if m.upconverted() && len(m.D1) == 0 {
			if err == nil {
				c.Fail("a command query without a command is accepted")
			}
			continue
		}
		if err != nil {
			c.Fail("reading the frame % x: %v", fr, err)
		}
		if err := m.same(x); err != nil {
			c.Fail("read back (way %d): %v", how, err)
		}
		if m.upconverted() {
			_ = x.Serialize()
			continue
		}
		if int(x.Header().Size) != len(fr) {
			c.Fail("read back: declared size %d, frame has %d bytes", x.Header().Size, len(fr))
		}
		if got := x.Serialize(); !bytes.Equal(got, fr) {
			c.Fail("read back and serialized gives\n% x, frame was\n% x", got, fr)
		}
		if err := m.same(x); err != nil {
			c.Fail("after serializing: %v", err)
		}
	}
}

// sameUnread compares a constructed (never read) message; a query on a
// command namespace is still a query then.
func (m *wmsg) sameUnread(x mongowire.Message) error {
	if m.upconverted() {
		return nil
	}
	return m.same(x)
}

// M01: serialization.
var M01 = &engine.Property{
	ID: "M01", Level: "model_checking",
	Assume: []string{"the reference frame encoder in mc/props/wire_ref.go follows the published wire protocol",
		"namespaces contain no null byte; a query on a command namespace (db.$...) is read as the command it carries, so only its content is compared"},
	Families: func(tier string) []engine.Family {
		docs := wireDocs()
		pickDocs := func(c *engine.Chooser, max int, pool []ref.Doc) []ref.Doc {
			var out []ref.Doc
			for n := c.Choose(max + 1); n > 0; n-- {
				out = append(out, pool[c.Choose(len(pool))])
			}
			return out
		}
		return []engine.Family{
			{Name: "fields", Bounds: "every message kind; one field at a time over its whole boundary pool (ids, flags, counts, cursors, namespaces, command names) with the others fixed, and all pairs of header ids", Rule: "every case",
				Run: func(c *engine.Chooser) {
					m := &wmsg{Op: engine.Pick(c, wireOps), Req: 7, Resp: 8, Flags: 2, NS: "db.c", Cmd: "cmd", A: 3, B: 4, Cursor: 5, Cursors: []int64{6}, D1: docs[1], D2: docs[2], HasD2: true, Docs: []ref.Doc{docs[1]}, Secs: []wsec{{Body: docs[2]}}, Checksum: 9}
					constructible := true
					switch c.Choose(7) {
					case 0:
						m.Req, m.Resp = engine.Pick(c, i32Pool), engine.Pick(c, i32Pool)
					case 1:
						m.Flags = engine.Pick(c, flagPool)
						m.Checksum = engine.Pick(c, i32Pool)
					case 2:
						m.NS = engine.Pick(c, nsPool)
					case 3:
						m.Cmd = engine.Pick(c, nsPool)
					case 4:
						m.A, m.B = engine.Pick(c, i32Pool), engine.Pick(c, i32Pool)
					case 5:
						m.Cursor = engine.Pick(c, i64Pool)
						m.Cursors = nil
						for n := c.Choose(4); n > 0; n-- {
							m.Cursors = append(m.Cursors, engine.Pick(c, i64Pool))
						}
					case 6:
						m.HasD2 = false
						if m.Op != mongowire.OP_QUERY {
							c.Skip()
						}
					}
					if m.Op == mongowire.OP_INSERT && m.Flags != 0 {
						constructible = false
					}
					if m.Op == mongowire.OP_MSG && m.Flags&^2 != 0 {
						constructible = false
					}
					checkWire(c, m, constructible)
				}},
			{Name: "documents", Bounds: "every message kind with documents: all choices of its documents from a pool of 6 shapes, 0..3 documents where a list is allowed (pool of 4 for the third)", Rule: "every case", Split: 3,
				Run: func(c *engine.Chooser) {
					m := &wmsg{Op: engine.Pick(c, wireOps), Req: 1, NS: "db.c", Cmd: "x"}
					switch m.Op {
					case mongowire.OP_REPLY, mongowire.OP_INSERT:
						m.Docs = pickDocs(c, 3, docs)
						m.B = int32(len(m.Docs))
					case mongowire.OP_UPDATE, mongowire.OP_QUERY:
						m.D1, m.D2, m.HasD2 = engine.Pick(c, docs), engine.Pick(c, docs), true
						if m.Op == mongowire.OP_QUERY {
							m.HasD2 = c.Bool()
						}
					case mongowire.OP_DELETE:
						m.D1 = engine.Pick(c, docs)
					case mongowire.OP_COMMAND, mongowire.OP_COMMAND_REPLY:
						m.D1, m.D2 = engine.Pick(c, docs), engine.Pick(c, docs)
						m.Docs = pickDocs(c, 2, docs)
					default:
						c.Skip()
					}
					checkWire(c, m, true)
				}},
			{Name: "sections", Bounds: "OP_MSG: all sequences of 0..3 sections out of 5 bodies and 8 document sequences (0..2 documents, identifiers '', 'a', long), all flag combinations of {checksum, moreToCome, exhaustAllowed}, checksums {0,1,-1}", Rule: "every case", Split: 3,
				Run: func(c *engine.Chooser) {
					pool := []wsec{}
					for _, d := range docs[:5] {
						pool = append(pool, wsec{Body: d})
					}
					for _, id := range []string{"", "a", strings.Repeat("i", 130)} {
						pool = append(pool, wsec{Seq: true, ID: id})
						pool = append(pool, wsec{Seq: true, ID: id, Docs: []ref.Doc{docs[1]}})
					}
					pool = append(pool, wsec{Seq: true, ID: "documents", Docs: []ref.Doc{docs[0], docs[3]}}, wsec{Seq: true, ID: "d", Docs: []ref.Doc{docs[4], docs[5]}})
					m := &wmsg{Op: mongowire.OP_MSG, Req: -5, Resp: 6}
					m.Flags = int32(c.Choose(4))
					if c.Bool() {
						m.Flags |= 1 << 16
					}
					if m.Flags&1 != 0 {
						m.Checksum = engine.Pick(c, []int32{0, 1, -1})
					}
					seq, ordered := false, true
					for n := c.Choose(4); n > 0; n-- {
						s := engine.Pick(c, pool)
						if !s.Seq && seq {
							ordered = false
						}
						seq = seq || s.Seq
						m.Secs = append(m.Secs, s)
					}
					checkWire(c, m, ordered && m.Flags&^2 == 0)
				}},
			{Name: "commands", Bounds: "OP_QUERY on command namespaces (db.$cmd, .$x, db.$): read as the command it carries, every query document of the pool, with and without projection, all header ids", Rule: "every case",
				Run: func(c *engine.Chooser) {
					m := &wmsg{Op: mongowire.OP_QUERY, Req: engine.Pick(c, i32Pool), Resp: engine.Pick(c, i32Pool), Flags: engine.Pick(c, flagPool), NS: engine.Pick(c, []string{"db.$cmd", ".$x", "db.$", "a.$cmd.sys"}), B: 1, D1: engine.Pick(c, docs)}
					m.HasD2 = c.Bool()
					if m.HasD2 {
						m.D2 = docs[0]
					}
					checkWire(c, m, true)
				}},
			{Name: "sizes", Bounds: "frames of every kind whose variable part (namespace or binary) takes every length 0..300, and 65535..65537", Rule: "every case",
				Run: func(c *engine.Chooser) {
					m := &wmsg{Op: engine.Pick(c, wireOps), Req: 1, NS: "db.c", Cmd: "x", HasD2: true}
					n := c.Choose(304)
					if n > 300 {
						n = 65534 + n - 300
					}
					d := ref.Doc{{K: "b", V: ref.Val{T: ref.TBinary, Bin: bytes.Repeat([]byte{1}, n)}}}
					m.D1, m.D2, m.Docs = d, docs[0], []ref.Doc{d}
					m.Secs = []wsec{{Body: d}, {Seq: true, ID: "s", Docs: []ref.Doc{d}}}
					m.NS = strings.Repeat("x", n)
					if m.Op == mongowire.OP_KILL_CURSORS {
						m.Cursors = make([]int64, n%301)
					}
					checkWire(c, m, true)
				}},
			{Name: "kept", Bounds: "20 messages of every kind and of up to 80 kB, kept unserialized and as bytes, while each of the 20 is read, made, serialized and sent three times", Rule: "always", Split: 2, Run: m01Kept},
			{Name: "shell", Bounds: "the helpers for shells: 12 operation types x requests and responses of 6 documents, ready-made responses of 7 kinds, writers that fail at 6 offsets, and every kind of message asked for its document", Rule: "always", Run: m01Shell},
			{Name: "names", Bounds: "namespace helpers on all strings of length <= 5 over {a . $}", Rule: "contains a dot",
				Run: func(c *engine.Chooser) {
					s := ""
					for n := c.Choose(6); n > 0; n-- {
						s += string("a.$"[c.Choose(3)])
					}
					c.State(s)
					c.Step()
					c.Note("%q", s)
					i := strings.IndexByte(s, '.')
					db, coll := s, ""
					if i >= 0 {
						c.NonTrivial()
						db, coll = s[:i], s[i+1:]
					}
					if g := mongowire.NamespaceToDB(s); g != db {
						c.Fail("NamespaceToDB(%q)=%q", s, g)
					}
					if g := mongowire.NamespaceToCollection(s); g != coll {
						c.Fail("NamespaceToCollection(%q)=%q", s, g)
					}
					if g := mongowire.NamespaceIsCommand(s); g != strings.HasPrefix(coll, "$") {
						c.Fail("NamespaceIsCommand(%q)=%v", s, g)
					}
				}},
		}
	},
}
