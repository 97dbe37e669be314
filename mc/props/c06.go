package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"birchmc/bb"
	"birchmc/engine"
	"birchmc/ref"

	"github.com/tychoish/birch"
)

var errInjected = errors.New("injected fault")

// stream is a reader whose every behaviour the explorer decides.
type stream struct {
	data  []byte
	pos   int
	cuts  map[int]bool // a read never crosses a cut
	zero  int          // this many zero-byte reads before each chunk
	zleft int
	// eofWithData: the read that reaches the end also returns the error
	eofWithData bool
	end         error // error after the data (io.EOF or a fault)
	reads       int
}

func (s *stream) Read(p []byte) (int, error) {
	s.reads++
	if s.reads > 10000 {
		panic("reader called without end")
	}
	if len(p) == 0 {
		return 0, nil
	}
	if s.pos >= len(s.data) {
		return 0, s.end
	}
	if s.zleft > 0 {
		s.zleft--
		return 0, nil
	}
	s.zleft = s.zero
	n := 0
	for n < len(p) && s.pos < len(s.data) {
		p[n] = s.data[s.pos]
		n++
		s.pos++
		if s.cuts[s.pos] {
			break
		}
	}
	if s.eofWithData && s.pos >= len(s.data) {
		return n, s.end
	}
	return n, nil
}

var streamAPIs = []string{"Document.ReadFrom", "DCE.ReadFrom", "NewFromIOReader"}

// readDocFrom reads one document; it returns the decoded content, the raw
// bytes (when the API gives them) and the count it reports (-1 if none).
func readDocFrom(api int, r io.Reader) (*birch.Document, int64, error) {
	switch api {
	case 0:
		d := birch.DC.New()
		n, err := d.ReadFrom(r)
		return d, n, err
	case 1:
		d, err := birch.DCE.ReadFrom(r)
		return d, -1, err
	default:
		rd, err := birch.NewFromIOReader(r)
		if err != nil {
			return nil, -1, err
		}
		d, err := birch.ReadDocument(rd)
		return d, int64(len(rd)), err
	}
}

func c06Stream(c *engine.Chooser, docs []ref.Doc, cutOf func(total int) map[int]bool) {
	var data []byte
	var ends []int
	for _, d := range docs {
		data = append(data, d.Encode()...)
		ends = append(ends, len(data))
	}
	api := c.Choose(len(streamAPIs))
	s := &stream{data: data, end: io.EOF, zero: c.Choose(2), eofWithData: c.Bool(), cuts: cutOf(len(data))}
	s.zleft = s.zero
	c.Note("%s over %d documents (% x), cuts %v, zero reads %d, EOF with data %v", streamAPIs[api], len(docs), data, s.cuts, s.zero, s.eofWithData)
	c.State(fmt.Sprintf("%d|%x|%v|%d|%v", api, data, s.cuts, s.zero, s.eofWithData))
	if len(s.cuts) > 0 {
		c.NonTrivial()
	}
	var got []*birch.Document
	for i := range docs {
		d, n, err := readDocFrom(api, s)
		c.Step()
		if err != nil {
			c.Fail("%s: document %d of %d: %v", streamAPIs[api], i, len(docs), err)
		}
		if s.pos != ends[i] {
			c.Fail("%s consumed up to byte %d reading document %d, which ends at %d", streamAPIs[api], s.pos, i, ends[i])
		}
		sz := int64(len(docs[i].Encode()))
		if n >= 0 && n != sz {
			c.Fail("%s reported %d bytes for a %d-byte document", streamAPIs[api], n, sz)
		}
		got = append(got, d)
	}
	d, n, err := readDocFrom(api, s)
	if err != io.EOF || n > 0 || (api == 1 && d != nil) {
		c.Fail("%s at the end of the stream: n=%d err=%v, want a clean io.EOF", streamAPIs[api], n, err)
	}
	// after all reads, every document still holds its own content
	for i := range docs {
		w, err := bb.FromDoc(got[i])
		if err != nil || !w.Equal(docs[i]) {
			c.Fail("%s: document %d read as %v (%v), want %v", streamAPIs[api], i, w, err, docs[i])
		}
	}
}

func c06Fault(c *engine.Chooser, d ref.Doc, cutOf func(total int) map[int]bool) {
	data := d.Encode()
	at := c.Choose(len(data)) // bytes delivered before the end/fault
	fault := c.Bool()
	api := c.Choose(len(streamAPIs))
	pre := c.Bool() // a whole document first
	s := &stream{data: append([]byte{}, data[:at]...), end: io.EOF, zero: c.Choose(2), eofWithData: c.Bool(), cuts: cutOf(at)}
	if fault {
		s.end = errInjected
	}
	start := 0
	if pre {
		s.data = append(append([]byte{}, data...), s.data...)
		start = len(data)
	}
	s.zleft = s.zero
	c.Note("%s over %d of %d bytes then %v, cuts %v, zero %d, error with data %v, preceded by a document %v", streamAPIs[api], at, len(data), s.end, s.cuts, s.zero, s.eofWithData, pre)
	c.State(fmt.Sprintf("%d|%x|%d|%v|%v|%d|%v|%v", api, data, at, fault, s.cuts, s.zero, s.eofWithData, pre))
	if at > 0 {
		c.NonTrivial()
	}
	if pre {
		if _, _, err := readDocFrom(api, s); err != nil {
			c.Fail("%s: first document: %v", streamAPIs[api], err)
		}
	}
	_, n, err := readDocFrom(api, s)
	c.Step()
	if err == nil {
		c.Fail("%s delivered a document from %d of its %d bytes followed by %v", streamAPIs[api], at, len(data), s.end)
	}
	if n >= 0 && api == 0 && n != int64(s.pos-start) {
		c.Fail("%s reported %d bytes, consumed %d", streamAPIs[api], n, s.pos-start)
	}
	if fault {
		// a fault delivered together with the last needed bytes of the
		// prefix may legitimately surface as the next read's error
		if !errors.Is(err, errInjected) {
			c.Fail("%s lost the stream's error: got %v", streamAPIs[api], err)
		}
		return
	}
	if at == 0 {
		if err != io.EOF {
			c.Fail("%s at the end of the stream: %v, want io.EOF", streamAPIs[api], err)
		}
		return
	}
	if err == io.EOF {
		if at == 4 && api == 0 {
			c.FailKey("readfrom-eof-after-prefix", "Document.ReadFrom reports a clean io.EOF for a stream that ends after the length prefix")
		}
		c.Fail("%s reports a clean end of stream %d bytes into a document", streamAPIs[api], at)
	}
}

type sink struct {
	buf   bytes.Buffer
	limit int
	err   error
}

func (s *sink) Write(p []byte) (int, error) {
	n := len(p)
	if s.buf.Len()+n > s.limit {
		n = s.limit - s.buf.Len()
		s.buf.Write(p[:n])
		return n, s.err
	}
	s.buf.Write(p)
	return n, nil
}

// C06: stream input and output.
var C06 = &engine.Property{
	ID: "C06", Level: "model_checking",
	Assume: []string{"readers and writers keep the io.Reader/io.Writer contract"},
	Families: func(tier string) []engine.Family {
		tiny := []ref.Doc{{}, {{K: "", V: ref.Val{T: ref.TNull}}}, {{K: "a", V: ref.Val{T: ref.TBool, B: true}}}}
		big := c05Seeds()
		allCuts := func(c *engine.Chooser) func(int) map[int]bool {
			return func(n int) map[int]bool {
				m := map[int]bool{}
				for i := 1; i < n; i++ {
					if c.Bool() {
						m[i] = true
					}
				}
				return m
			}
		}
		twoCuts := func(c *engine.Chooser) func(int) map[int]bool {
			return func(n int) map[int]bool {
				m := map[int]bool{}
				if n < 2 {
					return m
				}
				a := c.Choose(n)
				if a > 0 {
					m[a] = true
					if b := c.Choose(n - a); b > 0 {
						m[a+b] = true
					}
				}
				return m
			}
		}
		unit := func(n int) map[int]bool {
			m := map[int]bool{}
			for i := 1; i < n; i++ {
				m[i] = true
			}
			return m
		}
		maxTiny := 2
		if tier == "thorough" {
			maxTiny = 3
		}
		return []engine.Family{
			{Name: "all-splits", Bounds: fmt.Sprintf("all streams of <=%d documents from {empty, null, boolean} (5..9 bytes each): every one of the 2^(n-1) splits of the stream into reads, with/without zero-byte reads, EOF with the last data or after it, each API", maxTiny), Rule: "at least one split", Split: 6,
				Run: func(c *engine.Chooser) {
					n := 1 + c.Choose(maxTiny)
					var docs []ref.Doc
					sz := 0
					for i := 0; i < n; i++ {
						d := tiny[c.Choose(len(tiny))]
						if n == 3 {
							d = tiny[c.Choose(2)]
						}
						docs = append(docs, d)
						sz += len(d.Encode())
					}
					if sz > 17 {
						c.Skip()
					}
					c06Stream(c, docs, allCuts(c))
				}},
			{Name: "two-cuts", Bounds: fmt.Sprintf("%d seed documents covering every type, followed by a 5-byte document: every choice of up to two split points, and byte-at-a-time", len(big)), Rule: "at least one split", Split: 3,
				Run: func(c *engine.Chooser) {
					docs := []ref.Doc{big[c.Choose(len(big))], {}}
					if c.Bool() {
						c06Stream(c, docs, unit)
						return
					}
					c06Stream(c, docs, twoCuts(c))
				}},
			{Name: "sequences", Bounds: "all ordered triples of 12 seed documents read back to back from one stream, whole or byte-at-a-time", Rule: "three documents", Split: 2,
				Run: func(c *engine.Chooser) {
					pool := []ref.Doc{big[1], big[3], big[5], big[9], big[14], big[15], big[20], big[22], big[25], big[30], big[40], {}}
					var docs []ref.Doc
					for i := 0; i < 3; i++ {
						docs = append(docs, pool[c.Choose(len(pool))])
					}
					if c.Bool() {
						c06Stream(c, docs, unit)
					} else {
						c06Stream(c, docs, func(int) map[int]bool { return nil })
					}
				}},
			{Name: "faults", Bounds: "every truncation point and fault point of the tiny documents under every split, and of every seed document whole / byte-at-a-time, clean end or injected error, error with the last data or after it, alone or after a whole document", Rule: "at least one byte delivered", Split: 3,
				Run: func(c *engine.Chooser) {
					if c.Bool() {
						c06Fault(c, tiny[c.Choose(len(tiny))], allCuts(c))
						return
					}
					d := big[c.Choose(len(big))]
					if c.Bool() {
						c06Fault(c, d, unit)
					} else {
						c06Fault(c, d, func(int) map[int]bool { return nil })
					}
				}},
			{Name: "writes", Bounds: "every seed document and its first element written to a sink that accepts every number of bytes 0..n and then fails", Rule: "the sink fails",
				Run: func(c *engine.Chooser) {
					d := big[c.Choose(len(big))]
					want := d.Encode()
					doc := bb.Doc(d)
					if c.Bool() {
						var err error
						doc, err = birch.ReadDocument(want)
						if err != nil {
							c.Fail("decode: %v", err)
						}
					}
					var w io.WriterTo = doc
					if c.Bool() {
						want = d[0].EncodeElem()
						w = doc.Elements()[0]
					}
					k := c.Choose(len(want) + 1)
					s := &sink{limit: k, err: errInjected}
					n, err := w.WriteTo(s)
					c.Step()
					c.State(fmt.Sprintf("%x|%d|%T", want, k, w))
					c.Note("%T.WriteTo of % x into a sink of %d bytes", w, want, k)
					if k < len(want) {
						c.NonTrivial()
						if !errors.Is(err, errInjected) {
							c.Fail("WriteTo lost the writer's error: %v", err)
						}
					} else if err != nil {
						c.Fail("WriteTo: %v", err)
					}
					if n != int64(k) || n != int64(s.buf.Len()) {
						c.Fail("WriteTo reported %d bytes, the writer took %d", n, s.buf.Len())
					}
					if !bytes.Equal(s.buf.Bytes(), want[:k]) {
						c.Fail("WriteTo wrote % x, want a prefix of % x", s.buf.Bytes(), want)
					}
				}},
		}
	},
}
