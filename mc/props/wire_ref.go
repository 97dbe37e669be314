package props

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"birchmc/bb"
	"birchmc/ref"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/mrpc/model"
	"github.com/tychoish/birch/x/mrpc/mongowire"
)

// wsec is one section of an OP_MSG.
type wsec struct {
	Body ref.Doc // body section when !Seq
	Seq  bool
	ID   string
	Docs []ref.Doc
}

// wmsg is the reference model of a wire message.
type wmsg struct {
	Op        mongowire.OpType
	Req, Resp int32
	Flags     int32
	NS        string // or database
	Cmd       string
	A, B      int32 // skip/limit, number to return, starting from ...
	Cursor    int64
	Cursors   []int64
	D1, D2    ref.Doc
	HasD2     bool
	Docs      []ref.Doc
	Secs      []wsec
	Checksum  int32
}

func (m *wmsg) String() string {
	return fmt.Sprintf("%s req=%d resp=%d flags=%#x ns=%q cmd=%q a=%d b=%d cursor=%d cursors=%v d1=%v d2=%v(%v) docs=%v secs=%v sum=%d", m.Op, m.Req, m.Resp, uint32(m.Flags), m.NS, m.Cmd, m.A, m.B, m.Cursor, m.Cursors, m.D1, m.D2, m.HasD2, m.Docs, m.Secs, m.Checksum)
}

// frame encodes the message as the wire protocol prescribes and records where
// its length and count fields are.
func (m *wmsg) frame() []byte {
	b, _ := m.encode()
	return b
}

func (m *wmsg) encode() (frame []byte, lenFields []int) {
	var b bytes.Buffer
	lenFields = []int{0}
	i32w := func(v int32) { _ = binary.Write(&b, binary.LittleEndian, v) }
	i64w := func(v int64) { _ = binary.Write(&b, binary.LittleEndian, v) }
	cstr := func(s string) { b.WriteString(s); b.WriteByte(0) }
	doc := func(d ref.Doc) {
		e := d.Encode()
		for _, f := range ref.LengthFields(e) {
			lenFields = append(lenFields, b.Len()+f)
		}
		b.Write(e)
	}
	i32w(0)
	i32w(m.Req)
	i32w(m.Resp)
	i32w(int32(m.Op))
	switch m.Op {
	case mongowire.OP_REPLY:
		i32w(m.Flags)
		i64w(m.Cursor)
		i32w(m.A)
		i32w(m.B)
		for _, d := range m.Docs {
			doc(d)
		}
	case mongowire.OP_UPDATE:
		i32w(0)
		cstr(m.NS)
		i32w(m.Flags)
		doc(m.D1)
		doc(m.D2)
	case mongowire.OP_INSERT:
		i32w(m.Flags)
		cstr(m.NS)
		for _, d := range m.Docs {
			doc(d)
		}
	case mongowire.OP_QUERY:
		i32w(m.Flags)
		cstr(m.NS)
		i32w(m.A)
		i32w(m.B)
		doc(m.D1)
		if m.HasD2 {
			doc(m.D2)
		}
	case mongowire.OP_GET_MORE:
		i32w(0)
		cstr(m.NS)
		i32w(m.A)
		i64w(m.Cursor)
	case mongowire.OP_DELETE:
		i32w(0)
		cstr(m.NS)
		i32w(m.Flags)
		doc(m.D1)
	case mongowire.OP_KILL_CURSORS:
		i32w(0)
		lenFields = append(lenFields, b.Len())
		i32w(int32(len(m.Cursors)))
		for _, x := range m.Cursors {
			i64w(x)
		}
	case mongowire.OP_COMMAND:
		cstr(m.NS)
		cstr(m.Cmd)
		doc(m.D1)
		doc(m.D2)
		for _, d := range m.Docs {
			doc(d)
		}
	case mongowire.OP_COMMAND_REPLY:
		doc(m.D1)
		doc(m.D2)
		for _, d := range m.Docs {
			doc(d)
		}
	case mongowire.OP_MSG:
		i32w(m.Flags)
		for _, s := range m.Secs {
			if !s.Seq {
				b.WriteByte(0)
				doc(s.Body)
				continue
			}
			b.WriteByte(1)
			start := b.Len()
			lenFields = append(lenFields, start)
			i32w(0)
			cstr(s.ID)
			for _, d := range s.Docs {
				doc(d)
			}
			binary.LittleEndian.PutUint32(b.Bytes()[start:], uint32(b.Len()-start))
		}
		if m.Flags&1 != 0 {
			i32w(m.Checksum)
		}
	}
	out := b.Bytes()
	binary.LittleEndian.PutUint32(out, uint32(len(out)))
	return out, lenFields
}

func bdoc(d ref.Doc) birch.Document { return *bb.Doc(d) }

func bdocs(ds []ref.Doc) []birch.Document {
	var out []birch.Document
	for _, d := range ds {
		out = append(out, bdoc(d))
	}
	return out
}

// build makes the message through the public constructors (header ids are
// the constructors' own).
func (m *wmsg) build() mongowire.Message {
	switch m.Op {
	case mongowire.OP_REPLY:
		return mongowire.NewReply(m.Cursor, m.Flags, m.A, m.B, bdocs(m.Docs))
	case mongowire.OP_UPDATE:
		return mongowire.NewUpdate(m.NS, m.Flags, bb.Doc(m.D1), bb.Doc(m.D2))
	case mongowire.OP_INSERT:
		var ds []*birch.Document
		for _, d := range m.Docs {
			ds = append(ds, bb.Doc(d))
		}
		return mongowire.NewInsert(m.NS, ds...)
	case mongowire.OP_QUERY:
		var p *birch.Document
		if m.HasD2 {
			p = bb.Doc(m.D2)
		}
		return mongowire.NewQuery(m.NS, m.Flags, m.A, m.B, bb.Doc(m.D1), p)
	case mongowire.OP_GET_MORE:
		return mongowire.NewGetMore(m.NS, m.A, m.Cursor)
	case mongowire.OP_DELETE:
		return mongowire.NewDelete(m.NS, m.Flags, bb.Doc(m.D1))
	case mongowire.OP_KILL_CURSORS:
		return mongowire.NewKillCursors(m.Cursors...)
	case mongowire.OP_COMMAND:
		return mongowire.NewCommand(m.NS, m.Cmd, bb.Doc(m.D1), bb.Doc(m.D2), bdocs(m.Docs))
	case mongowire.OP_COMMAND_REPLY:
		return mongowire.NewCommandReply(bb.Doc(m.D1), bb.Doc(m.D2), bdocs(m.Docs))
	case mongowire.OP_MSG:
		var bodies []birch.Document
		var items []model.SequenceItem
		for _, s := range m.Secs {
			if s.Seq {
				items = append(items, model.SequenceItem{Identifier: s.ID, Documents: bdocs(s.Docs)})
			} else {
				bodies = append(bodies, bdoc(s.Body))
			}
		}
		return mongowire.NewOpMessage(m.Flags&2 != 0, bodies, items...)
	}
	panic("op")
}

func eqDoc(name string, d *birch.Document, w ref.Doc) error {
	if d == nil {
		return fmt.Errorf("%s is nil, want %s", name, w)
	}
	got, err := bb.FromDoc(d)
	if err != nil {
		return fmt.Errorf("%s: %v", name, err)
	}
	if !got.Equal(w) {
		return fmt.Errorf("%s is %s, want %s", name, got, w)
	}
	return nil
}

func eqDocs(name string, ds []birch.Document, w []ref.Doc) error {
	if len(ds) != len(w) {
		return fmt.Errorf("%s has %d documents, want %d", name, len(ds), len(w))
	}
	for i := range ds {
		if err := eqDoc(fmt.Sprintf("%s[%d]", name, i), &ds[i], w[i]); err != nil {
			return err
		}
	}
	return nil
}

func isCmdNS(ns string) bool {
	for i := 0; i < len(ns); i++ {
		if ns[i] == '.' {
			return i+1 < len(ns) && ns[i+1] == '$'
		}
	}
	return false
}

// upconverted reports whether reading the message gives the command it
// carries.
func (m *wmsg) upconverted() bool { return m.Op == mongowire.OP_QUERY && isCmdNS(m.NS) }

// same compares a message with the model through everything observable.
func (m *wmsg) same(x mongowire.Message) error {
	if x == nil {
		return fmt.Errorf("no message")
	}
	op := m.Op
	if m.upconverted() {
		op = mongowire.OP_COMMAND
	}
	h := x.Header()
	if h.OpCode != op {
		return fmt.Errorf("op code %v, want %v", h.OpCode, op)
	}
	if h.RequestID != m.Req || h.ResponseTo != m.Resp {
		return fmt.Errorf("request id %d response to %d, want %d %d", h.RequestID, h.ResponseTo, m.Req, m.Resp)
	}
	sc := x.Scope()
	if op == mongowire.OP_REPLY || op == mongowire.OP_COMMAND_REPLY {
		if sc != nil {
			return fmt.Errorf("a reply has scope %+v", sc)
		}
	} else {
		w := mongowire.OpScope{Type: op}
		switch op {
		case mongowire.OP_MSG:
			for _, s := range m.Secs {
				if !s.Seq {
					if len(s.Body) > 0 {
						w.Command = s.Body[0].K
					}
					if i := lookupRef(s.Body, "$db"); i >= 0 && s.Body[i].V.T == ref.TString {
						w.Context = s.Body[i].V.S
					}
					break
				}
			}
		case mongowire.OP_COMMAND:
			w.Context, w.Command = m.NS, m.Cmd
			if m.upconverted() {
				w.Context, w.Command = m.NS[:bytes.IndexByte([]byte(m.NS), '.')], m.D1[0].K
			}
		case mongowire.OP_KILL_CURSORS:
		default:
			w.Context = m.NS
		}
		if sc == nil || *sc != w {
			return fmt.Errorf("scope %+v, want %+v", sc, w)
		}
	}
	mod, mop := mongowire.GetModel(x)
	if op != mongowire.OP_GET_MORE && op != mongowire.OP_KILL_CURSORS && op != mongowire.OP_COMMAND_REPLY && mop != op {
		return fmt.Errorf("GetModel reports %v", mop)
	}
	switch op {
	case mongowire.OP_REPLY:
		r, ok := x.(*mongowire.ReplyMessage)
		if !ok {
			return fmt.Errorf("read as %T", x)
		}
		if r.Flags != m.Flags || r.CursorId != m.Cursor || r.StartingFrom != m.A || r.NumberReturned != m.B {
			return fmt.Errorf("reply fields %d %d %d %d", r.Flags, r.CursorId, r.StartingFrom, r.NumberReturned)
		}
		g := mod.(*model.Reply)
		if g.CursorID != m.Cursor || g.StartingFrom != m.A || g.CursorNotFound != (m.Flags&1 != 0) || g.QueryFailure != (m.Flags&2 != 0) {
			return fmt.Errorf("reply model %+v", g)
		}
		if err := eqDocs("model contents", g.Contents, m.Docs); err != nil {
			return err
		}
		return eqDocs("docs", r.Docs, m.Docs)
	case mongowire.OP_UPDATE:
		g := mod.(*model.Update)
		if g.Namespace != m.NS || g.Upsert != (m.Flags&1 != 0) || g.Multi != (m.Flags&2 != 0) {
			return fmt.Errorf("update model %+v", g)
		}
		if err := eqDoc("filter", g.Filter, m.D1); err != nil {
			return err
		}
		return eqDoc("update", g.Update, m.D2)
	case mongowire.OP_INSERT:
		g := mod.(*model.Insert)
		if g.Namespace != m.NS {
			return fmt.Errorf("insert model %+v", g)
		}
		return eqDocs("documents", g.Documents, m.Docs)
	case mongowire.OP_QUERY:
		g := mod.(*model.Query)
		if g.Namespace != m.NS || g.Skip != m.A || g.NReturn != m.B {
			return fmt.Errorf("query model %+v", g)
		}
		if m.HasD2 != (g.Project != nil) {
			return fmt.Errorf("projection %v", g.Project)
		}
		if m.HasD2 {
			if err := eqDoc("project", g.Project, m.D2); err != nil {
				return err
			}
		}
		return eqDoc("query", g.Query, m.D1)
	case mongowire.OP_DELETE:
		g := mod.(*model.Delete)
		if g.Namespace != m.NS {
			return fmt.Errorf("delete model %+v", g)
		}
		return eqDoc("filter", g.Filter, m.D1)
	case mongowire.OP_COMMAND:
		g := mod.(*model.Command)
		cm, ok := x.(*mongowire.CommandMessage)
		if !ok {
			return fmt.Errorf("read as %T", x)
		}
		if m.upconverted() {
			if !g.ConvertedFromQuery || g.DB != cm.DB || g.Command != cm.CmdName {
				return fmt.Errorf("command model %+v", g)
			}
			return eqDoc("arguments", g.Arguments, m.D1)
		}
		if g.ConvertedFromQuery || g.DB != m.NS || g.Command != m.Cmd || cm.DB != m.NS || cm.CmdName != m.Cmd {
			return fmt.Errorf("command model %+v", g)
		}
		if err := eqDoc("arguments", g.Arguments, m.D1); err != nil {
			return err
		}
		if err := eqDoc("metadata", g.Metadata, m.D2); err != nil {
			return err
		}
		if err := eqDocs("input docs", cm.InputDocs, m.Docs); err != nil {
			return err
		}
		return eqDocs("inputs", g.Inputs, m.Docs)
	case mongowire.OP_COMMAND_REPLY:
		cm, ok := x.(*mongowire.CommandReplyMessage)
		if !ok {
			return fmt.Errorf("read as %T", x)
		}
		if err := eqDoc("reply", cm.CommandReply, m.D1); err != nil {
			return err
		}
		if err := eqDoc("metadata", cm.Metadata, m.D2); err != nil {
			return err
		}
		return eqDocs("output docs", cm.OutputDocs, m.Docs)
	case mongowire.OP_MSG:
		om, ok := x.(*mongowire.OpMessage)
		if !ok {
			return fmt.Errorf("read as %T", x)
		}
		if om.Flags != uint32(m.Flags) {
			return fmt.Errorf("flags %#x, want %#x", om.Flags, m.Flags)
		}
		if m.Flags&1 != 0 && om.Checksum != m.Checksum {
			return fmt.Errorf("checksum %d, want %d", om.Checksum, m.Checksum)
		}
		g := mod.(*model.Message)
		if g.Checksum != (m.Flags&1 != 0) || g.MoreToCome != (m.Flags&2 != 0) {
			return fmt.Errorf("message model %+v for flags %#x", g, m.Flags)
		}
		if len(om.Items) != len(m.Secs) || len(g.Items) != len(m.Secs) {
			return fmt.Errorf("%d sections, want %d", len(om.Items), len(m.Secs))
		}
		for i, s := range m.Secs {
			it := om.Items[i]
			wt, wn, wd, wdb := uint8(mongowire.OpMessageSectionBody), "", []ref.Doc{s.Body}, ""
			if s.Seq {
				wt, wn, wd = mongowire.OpMessageSectionDocumentSequence, s.ID, s.Docs
			} else {
				if len(s.Body) > 0 {
					wn = s.Body[0].K
				}
				if j := lookupRef(s.Body, "$db"); j >= 0 && s.Body[j].V.T == ref.TString {
					wdb = s.Body[j].V.S
				}
			}
			if it.Type() != wt || it.Name() != wn || it.DB() != wdb || g.Items[i].Identifier != wn {
				return fmt.Errorf("section %d: type %d name %q db %q, want %d %q %q", i, it.Type(), it.Name(), it.DB(), wt, wn, wdb)
			}
			if err := eqDocs(fmt.Sprintf("section %d", i), it.Documents(), wd); err != nil {
				return err
			}
			if err := eqDocs(fmt.Sprintf("model section %d", i), g.Items[i].Documents, wd); err != nil {
				return err
			}
		}
	}
	return nil
}
