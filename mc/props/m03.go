package props

import (
	"bytes"
	"context"
	"encoding/binary"
	"math"
	"runtime"
	"sync"

	"birchmc/bb"
	"birchmc/engine"
	"birchmc/ref"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/mrpc/model"
	"github.com/tychoish/birch/x/mrpc/mongowire"
	"github.com/tychoish/birch/x/mrpc/shell"
)

// inspectMessage uses a message in every way its interface offers.
func inspectMessage(c *engine.Chooser, x mongowire.Message) {
	walk := func(d *birch.Document) {
		if d == nil {
			return
		}
		if _, err := bb.FromDoc(d); err != nil {
			c.Fail("a document of the message cannot be read: %v", err)
		}
		if _, err := d.MarshalBSON(); err != nil {
			c.Fail("a document of the message cannot be encoded: %v", err)
		}
		_ = d.String()
	}
	walks := func(ds []birch.Document) {
		for i := range ds {
			walk(&ds[i])
		}
	}
	_ = x.Header()
	_ = x.HasResponse()
	if s := x.Scope(); s != nil {
		_ = s.Validate()
	}
	mod, _ := mongowire.GetModel(x)
	switch g := mod.(type) {
	case *model.Command:
		walk(g.Arguments)
		walk(g.Metadata)
		walks(g.Inputs)
	case *model.Message:
		for _, it := range g.Items {
			walks(it.Documents)
		}
	case *model.Delete:
		walk(g.Filter)
	case *model.Insert:
		walks(g.Documents)
	case *model.Query:
		walk(g.Query)
		walk(g.Project)
	case *model.Update:
		walk(g.Filter)
		walk(g.Update)
	case *model.Reply:
		walks(g.Contents)
	}
	if cr, ok := x.(*mongowire.CommandReplyMessage); ok {
		walk(cr.CommandReply)
		walk(cr.Metadata)
		walks(cr.OutputDocs)
	}
	if d, err := shell.RequestMessageToDocument(x); err == nil {
		walk(d)
	}
	if d, err := shell.ResponseMessageToDocument(x); err == nil {
		walk(d)
	}
	b := x.Serialize()
	if int(x.Header().Size) != len(b) {
		c.Fail("declared size %d after serializing, frame has %d bytes", x.Header().Size, len(b))
	}
	_ = x.Serialize()
}

func checkHostileFrame(c *engine.Chooser, fr []byte) {
	c.StateB(fr)
	c.Note("frame % x", fr)
	c.NonTrivial()
	if len(fr) >= 16 {
		h := mongowire.MessageHeader{Size: int32(binary.LittleEndian.Uint32(fr)), RequestID: int32(binary.LittleEndian.Uint32(fr[4:])), ResponseTo: int32(binary.LittleEndian.Uint32(fr[8:])), OpCode: mongowire.OpType(binary.LittleEndian.Uint32(fr[12:]))}
		body := poisoned(fr[16:], 0x41)
		x, err := h.Parse(body)
		c.Step()
		if x == nil && err == nil {
			c.Fail("Parse returns neither a message nor an error")
		}
		if err == nil {
			inspectMessage(c, x)
		}
	}
	// more bytes may follow on the stream
	s := bytes.NewReader(append(append([]byte{}, fr...), 0x10, 0, 0, 0, 1, 2, 3))
	x, err := mongowire.ReadMessage(context.Background(), s)
	c.Step()
	if x == nil && err == nil {
		c.Fail("ReadMessage returns neither a message nor an error")
	}
	if err == nil {
		inspectMessage(c, x)
	}
}

// partEnds are the lengths at which the frame could end: those of the
// message with fewer of its documents or sections.
func partEnds(m *wmsg) map[int]bool {
	out := map[int]bool{}
	put := func(x wmsg) { out[len(x.frame())] = true }
	put(*m)
	x := *m
	x.HasD2 = false
	put(x)
	for i := range m.Docs {
		x := *m
		x.Docs = m.Docs[:i]
		put(x)
	}
	for i := range m.Secs {
		x := *m
		x.Secs = m.Secs[:i]
		put(x)
	}
	return out
}

// allocMu keeps measured cases apart.
var allocMu sync.Mutex

// M03: hostile frames.
var M03 = &engine.Property{
	ID: "M03", Level: "model_checking",
	Assume: []string{"the frame limit is 200 MiB, as coded in ReadMessage"},
	Families: func(tier string) []engine.Family {
		pool := framePool()
		d := wireDocs()
		pool = append(pool,
			&wmsg{Op: mongowire.OP_KILL_CURSORS, Req: 1, Cursors: []int64{1, -1}},
			&wmsg{Op: mongowire.OP_QUERY, Req: 1, NS: "db.$cmd", D1: d[2], D2: d[0], HasD2: true},
			&wmsg{Op: mongowire.OP_QUERY, Req: 1, NS: "db.c", D1: d[3], D2: d[1], HasD2: true},
			&wmsg{Op: mongowire.OP_COMMAND, Req: 14, NS: "db", Cmd: "ping", D1: d[3], D2: d[1], Docs: []ref.Doc{d[1], d[4]}},
			&wmsg{Op: mongowire.OP_COMMAND_REPLY, Req: 15, D1: d[3], D2: d[1], Docs: []ref.Doc{d[0], d[4]}},
			&wmsg{Op: mongowire.OP_MSG, Flags: 3, Checksum: 1, Secs: []wsec{{Seq: true, ID: "", Docs: []ref.Doc{d[4]}}, {Body: d[3]}, {Seq: true, ID: "q"}}},
		)
		frames := make([][]byte, len(pool))
		fields := make([][]int, len(pool))
		for i, m := range pool {
			frames[i], fields[i] = m.encode()
		}
		fix := func(c *engine.Chooser, b []byte) []byte {
			if c.Bool() && len(b) >= 4 {
				binary.LittleEndian.PutUint32(b, uint32(len(b)))
			}
			return b
		}
		alpha := []byte{0x00, 0x01, 0x05, 0x10, 0xff}
		max := 7
		if tier == "thorough" {
			max = 8
		}
		ops := append(append([]mongowire.OpType{}, wireOps...), 0, 1000, 2003, 2008, 2009, 2014, -1, math.MaxInt32, math.MinInt32)
		return []engine.Family{
			{Name: "truncations", Bounds: "17 frames of every kind cut at every byte, declared size kept or adjusted (then an error unless a part ends there)", Rule: "every case",
				Run: func(c *engine.Chooser) {
					i := c.Choose(len(frames))
					f := frames[i]
					n := c.Choose(len(f) + 1)
					b := fix(c, append([]byte{}, f[:n]...))
					checkHostileFrame(c, b)
					if n < 16 || int(binary.LittleEndian.Uint32(b)) != n || partEnds(pool[i])[n] {
						return
					}
					if x, err := mongowire.ReadMessage(context.Background(), bytes.NewReader(b)); err == nil {
						c.Fail("a %s of %d bytes that ends inside a part after %d is read as %T", pool[i].Op, len(f), n, x)
					}
				}},
			{Name: "bytes", Bounds: "every byte of 17 frames replaced by every value (of the size field: those that declare less than 1 MiB or more than the limit)", Rule: "every case", Split: 3,
				Run: func(c *engine.Chooser) {
					f := append([]byte{}, engine.Pick(c, frames)...)
					p := c.Choose(len(f))
					v := byte(c.Choose(256))
					if p == 3 && v > 0 && v < 13 || p == 2 && v > 3 && v < 255 { // a huge but permitted size: see allocation
						c.Skip()
					}
					f[p] = v
					checkHostileFrame(c, f)
				}},
			{Name: "edits", Bounds: "17 frames with one byte removed, or one of {00 01 05 10 41 ff} inserted, at every position, declared size kept or adjusted", Rule: "every case", Split: 3,
				Run: func(c *engine.Chooser) {
					f := engine.Pick(c, frames)
					k, p := c.Choose(7), c.Choose(len(f))
					b := append([]byte{}, f[:p]...)
					if k == 0 {
						b = append(b, f[p+1:]...)
					} else {
						b = append(append(b, []byte{0, 1, 5, 0x10, 0x41, 0xff}[k-1]), f[p:]...)
					}
					if p < 4 {
						binary.LittleEndian.PutUint32(b, uint32(len(b)))
					}
					checkHostileFrame(c, fix(c, b))
				}},
			{Name: "lengths", Bounds: "one or two length or count fields (documents, strings, sections, cursor counts) of every frame replaced by each of 38 boundary values", Rule: "every case", Split: 3,
				Run: func(c *engine.Chooser) {
					i := c.Choose(len(pool))
					b := append([]byte{}, frames[i]...)
					lf := fields[i][1:]
					if len(lf) == 0 {
						c.Skip()
					}
					put := func(k int) {
						cur := int32(binary.LittleEndian.Uint32(b[lf[k]:]))
						binary.LittleEndian.PutUint32(b[lf[k]:], uint32(engine.Pick(c, lenValues(cur, len(b)))))
					}
					k := c.Choose(len(lf))
					put(k)
					if k+1 < len(lf) && c.Bool() {
						put(k + 1 + c.Choose(len(lf)-k-1))
					}
					checkHostileFrame(c, b)
				}},
			{Name: "bodies", Bounds: "every op code (10 known, 9 unknown) with every body of length <= " + string(rune('0'+max)) + " over {00 01 05 10 ff}, alone, after the fixed fields of its kind, and after a namespace", Rule: "every case", Split: 4,
				Run: func(c *engine.Chooser) {
					op := engine.Pick(c, ops)
					known := false
					for _, k := range wireOps {
						known = known || k == op
					}
					pre := c.Choose(3)
					lim := max
					if !known {
						lim = 3
					}
					body := [][]byte{nil, {0, 0, 0, 0}, {0, 0, 0, 0, 'd', '.', '$', 0, 0, 0, 0, 0, 0, 0, 0, 0}}[pre]
					if pre == 2 && op == mongowire.OP_COMMAND {
						body = []byte{'d', 0, 'c', 0, 5, 0, 0, 0, 0}
					}
					if pre == 1 && op == mongowire.OP_REPLY {
						body = make([]byte, 20)
					}
					b := make([]byte, 16)
					binary.LittleEndian.PutUint32(b[12:], uint32(op))
					b = append(b, body...)
					for n := c.Choose(lim + 1); n > 0; n-- {
						b = append(b, alpha[c.Choose(len(alpha))])
					}
					binary.LittleEndian.PutUint32(b, uint32(len(b)))
					checkHostileFrame(c, b)
				}},
			{Name: "headers", Bounds: "every stream of <= 5 bytes over {00 01 0f 10 ff}, and every declared size of -20..20 and every limit and sign boundary, followed by 0..16 bytes", Rule: "every case",
				Run: func(c *engine.Chooser) {
					if c.Bool() {
						var b []byte
						for n := c.Choose(6); n > 0; n-- {
							b = append(b, []byte{0, 1, 0x0f, 0x10, 0xff}[c.Choose(5)])
						}
						if len(b) >= 4 && b[3] == 0x0f || len(b) >= 4 && b[3] == 1 {
							c.Skip() // more than the sandbox should allocate in parallel; see allocation
						}
						checkHostileFrame(c, b)
						return
					}
					sizes := []int32{math.MinInt32, math.MinInt32 + 1, math.MinInt32 + 4, math.MaxInt32, math.MaxInt32 - 4, 542393671, 200*1024*1024 + 1, -200 * 1024 * 1024}
					i := c.Choose(41 + len(sizes))
					sz := int32(i - 20)
					if i >= 41 {
						sz = sizes[i-41]
					}
					b := make([]byte, 4)
					binary.LittleEndian.PutUint32(b, uint32(sz))
					for n := c.Choose(17); n > 0; n-- {
						b = append(b, 0)
					}
					checkHostileFrame(c, b)
				}},
			{Name: "allocation", Serial: true, Bounds: "declared sizes and counts at each boundary around and beyond the frame limit: bytes allocated measured", Rule: "every case",
				Run: func(c *engine.Chooser) {
					limit := int32(200 * 1024 * 1024)
					var fr []byte
					budget := uint64(4 << 20)
					switch k := c.Choose(8); k {
					case 0, 1, 2, 3, 4:
						fr = make([]byte, 20)
						sz := []int32{limit, limit + 1, limit - 1, math.MaxInt32, 542393671}[k]
						binary.LittleEndian.PutUint32(fr, uint32(sz))
						if sz <= limit {
							budget += uint64(sz) + uint64(sz)/8
						}
					case 5:
						m := &wmsg{Op: mongowire.OP_KILL_CURSORS, Cursors: []int64{1}}
						fr = m.frame()
						binary.LittleEndian.PutUint32(fr[20:], uint32(engine.Pick(c, []int32{math.MaxInt32, 1 << 28, math.MinInt32, -1, 1 << 29})))
					case 6:
						m := pool[2+c.Choose(len(pool)-2)]
						var lf []int
						fr, lf = m.encode()
						if len(lf) < 2 {
							c.Skip()
						}
						f := lf[1+c.Choose(len(lf)-1)]
						binary.LittleEndian.PutUint32(fr[f:], uint32(engine.Pick(c, []int32{math.MaxInt32, 1 << 28, math.MinInt32, 1 << 24})))
					case 7:
						m := &wmsg{Op: mongowire.OP_REPLY, B: engine.Pick(c, []int32{math.MaxInt32, 1 << 28, math.MinInt32, -1}), Docs: []ref.Doc{d[1]}}
						fr = m.frame()
					}
					c.StateB(fr)
					c.NonTrivial()
					c.Note("frame % x", fr)
					allocMu.Lock()
					defer allocMu.Unlock()
					var m0, m1 runtime.MemStats
					runtime.ReadMemStats(&m0)
					x, err := mongowire.ReadMessage(context.Background(), bytes.NewReader(fr))
					if err == nil {
						_ = x.Serialize()
					}
					runtime.ReadMemStats(&m1)
					c.Step()
					if a := m1.TotalAlloc - m0.TotalAlloc; a > budget {
						c.Fail("reading the frame % x allocated %d bytes", fr, a)
					}
				}},
		}
	},
}
