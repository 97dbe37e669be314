package props

import (
	"bufio"
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"

	"birchmc/engine"
	"birchmc/ref"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
)

func deflate(b []byte, level int) []byte {
	var out bytes.Buffer
	w, _ := zlib.NewWriterLevel(&out, level)
	_, _ = w.Write(b)
	_ = w.Close()
	return out.Bytes()
}

func dataField(payload []byte, level int) []byte {
	return append(binary.LittleEndian.AppendUint32(nil, uint32(len(payload))), deflate(payload, level)...)
}

// chunkRecord is a metric record as the format describes it.
func chunkRecord(data []byte) []byte {
	return ref.Doc{{K: "_id", V: ref.Val{T: ref.TDate, I: 1500000000000}}, {K: "type", V: i32(1)}, {K: "data", V: ref.Val{T: ref.TBinary, Bin: data}}}.Encode()
}

func metaRecord() []byte {
	return ref.Doc{{K: "_id", V: ref.Val{T: ref.TDate, I: 1500000000000}}, {K: "type", V: i32(0)}, {K: "doc", V: ref.Val{T: ref.TDoc, D: ref.Doc{{K: "host", V: str("h")}}}}}.Encode()
}

type ftdcFile struct {
	data   []byte
	ends   []int       // end of each record
	groups [][]ref.Doc // samples of each record (nil: metadata)
}

func (f *ftdcFile) add(rec []byte, samples []ref.Doc) {
	f.data = append(f.data, rec...)
	f.ends = append(f.ends, len(f.data))
	f.groups = append(f.groups, samples)
}

// upTo lists the samples of the records that end at or before pos.
func (f *ftdcFile) upTo(pos int) (samples []ref.Doc, boundary bool) {
	boundary = pos == 0
	for i, e := range f.ends {
		if e <= pos {
			samples = append(samples, f.groups[i]...)
		}
		if e == pos {
			boundary = true
		}
	}
	return
}

func f04Samples(schema, from, n int) []ref.Doc {
	var out []ref.Doc
	for i := 0; i < n; i++ {
		out = append(out, f02Sample(schema, from+i))
	}
	return out
}

func f04Files() []*ftdcFile {
	mk := func(level int) *ftdcFile {
		f := &ftdcFile{}
		f.add(metaRecord(), nil)
		a, b, c := f04Samples(0, 0, 3), f04Samples(1, 3, 2), f04Samples(4, 6, 1)
		f.add(chunkRecord(dataField(rawPayload(a), level)), a)
		f.add(chunkRecord(dataField(rawPayload(b), level)), b)
		f.add(chunkRecord(dataField(rawPayload(c), level)), c)
		return f
	}
	return []*ftdcFile{mk(zlib.DefaultCompression), mk(zlib.NoCompression)}
}

const f04Views = 5

// readView reads data through one of the views, as samples in flattened form.
// Views that present whole chunks are expanded.
func readView(view int, r io.Reader) (got []ref.Doc, err error) {
	switch view {
	case 0:
		_, flat, _, err := readChunkViews(r)
		return flat, err
	case 1:
		return readDocs(ftdc.ReadMetrics(r))
	case 2:
		docs, err := readDocs(ftdc.ReadStructuredMetrics(r))
		return mapDocs(docs, flatDoc), err
	case 3, 4:
		var it *ftdc.Iterator[*birch.Document]
		if view == 3 {
			it = ftdc.ReadMatrix(r)
		} else {
			it = ftdc.ReadSeries(r)
		}
		docs, err := readDocs(it)
		for _, d := range docs {
			if len(d) == 0 {
				got = append(got, ref.Doc{})
				continue
			}
			for i := range d[0].V.D {
				s := ref.Doc{}
				for _, m := range d {
					s = append(s, ref.Elem{K: m.K, V: m.V.D[i].V})
				}
				got = append(got, flatDoc(s))
			}
		}
		return got, err
	}
	return nil, nil
}

// chunkSubsequence reports whether got is a run of whole groups in order that
// includes all of the first need groups.
func chunkSubsequence(got []ref.Doc, groups [][]ref.Doc, need int) bool {
	if len(groups) == 0 {
		return len(got) == 0
	}
	g := groups[0]
	if len(got) >= len(g) && sameDocs("", got[:len(g)], mapDocs(g, flatDoc)) == nil && chunkSubsequence(got[len(g):], groups[1:], need-1) {
		return true
	}
	return need <= 0 && chunkSubsequence(got, groups[1:], need)
}

var errBadPayload = errors.New("bad payload")

// refPayload decodes the content of a chunk independently.
func refPayload(p []byte) ([]ref.Doc, error) {
	d, n, err := ref.Decode(p)
	if err != nil {
		return nil, errBadPayload
	}
	r := bufio.NewReader(bytes.NewReader(p[n:]))
	var cnt [8]byte
	if _, err := io.ReadFull(r, cnt[:]); err != nil {
		return nil, errBadPayload
	}
	cells := metricCells(d)
	if int(binary.LittleEndian.Uint32(cnt[:4])) != len(cells) {
		return nil, errBadPayload
	}
	nd := int(binary.LittleEndian.Uint32(cnt[4:]))
	if len(cells) == 0 && nd > 1000 {
		return nil, nil // harness limit, see the caller
	}
	var zeros uint64
	vals := make([][]int64, len(cells))
	for m, c := range cells {
		vals[m] = []int64{c.v}
		for j := 0; j < nd; j++ {
			var x uint64
			if zeros > 0 {
				zeros--
			} else {
				if x, err = binary.ReadUvarint(r); err != nil {
					return nil, errBadPayload
				}
				if x == 0 {
					if zeros, err = binary.ReadUvarint(r); err != nil {
						return nil, errBadPayload
					}
					if zeros > 1<<20 && nd > 1<<20 {
						return nil, nil
					}
				}
			}
			if c.t == ref.TDouble {
				vals[m] = append(vals[m], int64(x))
			} else {
				vals[m] = append(vals[m], vals[m][j]+int64(x))
			}
		}
	}
	out := make([]ref.Doc, nd+1)
	for i := range out {
		s := ref.Doc{}
		for m, c := range cells {
			switch c.t {
			case ref.TBool:
				s = append(s, ref.Elem{K: c.name, V: ref.Val{T: ref.TBool, B: vals[m][i] != 0}})
			case ref.TInt32:
				s = append(s, ref.Elem{K: c.name, V: ref.Val{T: ref.TInt32, I: int64(int32(vals[m][i]))}})
			case ref.TTimestamp, ref.TInt64:
				s = append(s, ref.Elem{K: c.name, V: ref.Val{T: ref.TInt64, I: vals[m][i]}})
			case ref.TDouble:
				s = append(s, ref.Elem{K: c.name, V: ref.Val{T: ref.TDouble, F: f64(vals[m][i])}})
			default:
				s = append(s, ref.Elem{K: c.name, V: ref.Val{T: c.t, I: vals[m][i]}})
			}
		}
		out[i] = s
	}
	return out, nil
}

// f04Payload reads a file whose middle chunk has the given content.
func f04Payload(c *engine.Chooser, payload []byte, view int) {
	a, z := f04Samples(0, 0, 2), f04Samples(1, 3, 2)
	var data []byte
	data = append(data, chunkRecord(dataField(rawPayload(a), zlib.NoCompression))...)
	data = append(data, chunkRecord(dataField(payload, zlib.NoCompression))...)
	data = append(data, chunkRecord(dataField(rawPayload(z), zlib.NoCompression))...)
	want, werr := refPayload(payload)
	if want == nil && werr == nil {
		c.Skip() // an all-zero run of millions of samples
	}
	got, err := readView(view, bytes.NewReader(data))
	c.Step()
	exp := mapDocs(a, flatDoc)
	if werr == nil {
		exp = append(append(exp, want...), mapDocs(z, flatDoc)...)
	}
	if werr != nil {
		c.NonTrivial()
		if err == nil {
			c.Fail("a chunk that cannot be decoded is not reported; %d samples read", len(got))
		}
	} else if err != nil {
		c.Fail("a chunk that can be decoded: %v", err)
	}
	if view == 0 || view == 1 {
		if derr := sameDocs("samples", got, exp); derr != nil {
			c.Fail("%v", derr)
		}
	} else if len(got) < len(a) || sameDocs("", got[:len(a)], mapDocs(a, flatDoc)) != nil {
		c.Fail("the samples before the damage are %v, want %v", got, mapDocs(a, flatDoc))
	}
}

func f04PayloadSeeds() []([]ref.Doc) {
	return [][]ref.Doc{
		f04Samples(0, 0, 3), f04Samples(1, 0, 3),
		{{{K: "a", V: ref.Val{T: ref.TArray, D: ref.Doc{{V: ref.Val{T: ref.TDouble, F: 1.5}}, {V: ref.Val{T: ref.TBool, B: true}}}}}, {K: "t", V: ref.Val{T: ref.TTimestamp, U: 1, V: 2}}, {K: "d", V: ref.Val{T: ref.TDate, I: 77}}},
			{{K: "a", V: ref.Val{T: ref.TArray, D: ref.Doc{{V: ref.Val{T: ref.TDouble, F: 2.5}}, {V: ref.Val{T: ref.TBool}}}}}, {K: "t", V: ref.Val{T: ref.TTimestamp, U: 1, V: 3}}, {K: "d", V: ref.Val{T: ref.TDate, I: 78}}}},
	}
}

var F04 = &engine.Property{
	ID: "F04", Level: "exhaustive within bounds on the real code against an independent decoder",
	Assume: []string{
		"a damaged record type or field name makes a record of an unknown type, which readers skip by design; only the sample data is protected by a checksum",
		"chunks that declare millions of unchanged samples are not generated",
	},
	Families: func(tier string) []engine.Family {
		registerMarshaler()
		deep := tier == "thorough"
		files := f04Files()
		var edits []byte
		for i := 1; i < 256; i++ {
			edits = append(edits, byte(i))
		}
		some := []byte{0x01, 0x80, 0xff}
		fams := []engine.Family{
			{Name: "truncations", Bounds: "two files of metadata and three chunks (compressed and stored), cut at every byte, ending there or failing there, read in one piece or byte by byte, through all five views", Rule: "cut inside a record", Split: 2,
				Run: func(c *engine.Chooser) {
					f := engine.Pick(c, files)
					at := c.Choose(len(f.data) + 1)
					view := c.Choose(f04Views)
					fault := c.Bool()
					cuts := map[int]bool{}
					if c.Bool() {
						for i := 0; i < at; i++ {
							cuts[i] = true
						}
					}
					want, boundary := f.upTo(at)
					if !boundary {
						c.NonTrivial()
					}
					end := error(io.EOF)
					if fault {
						end = errInjected
					}
					c.Note("cut at %d of %d, fault %v, view %d", at, len(f.data), fault, view)
					c.State(fmt.Sprint(len(f.data), at, view, fault, len(cuts) > 0))
					got, err := readView(view, &stream{data: f.data[:at], cuts: cuts, end: end})
					c.Step()
					if boundary && !fault {
						if err != nil {
							c.Fail("a file that ends after a record: %v", err)
						}
					} else if err == nil {
						c.Fail("a file that ends inside a record is not reported")
					}
					if derr := sameDocs("samples", got, mapDocs(want, flatDoc)); derr != nil && view < 4 {
						c.Fail("%v", derr)
					} else if len(got) != len(want) {
						c.Fail("%d samples, want %d", len(got), len(want))
					}
				}},
			{Name: "corruption", Bounds: fmt.Sprintf("two files of metadata and three chunks: every byte changed in %d ways, read through the chunk and document views", len(edits)), Rule: "always", Split: 2,
				Run: func(c *engine.Chooser) {
					f := engine.Pick(c, files)
					at := c.Choose(len(f.data))
					x := engine.Pick(c, edits)
					view := c.Choose(2)
					b := append([]byte(nil), f.data...)
					b[at] ^= x
					c.NonTrivial()
					c.Note("byte %d of %d changed by %#x, view %d", at, len(b), x, view)
					c.State(fmt.Sprint(len(f.data), at, x, view))
					got, err := readView(view, bytes.NewReader(b))
					c.Step()
					rec, start := 0, 0
					for rec = range f.ends {
						if at < f.ends[rec] {
							break
						}
						start = f.ends[rec]
					}
					need := rec
					if !chunkSubsequence(got, f.groups, need) {
						c.Fail("read %v (%v), which are not samples of intact records", got, err)
					}
					// the stored sample data: everything after the record's header
					// (4 length, 1+4+8 _id, 1+5+4 type, 1+5+4+1 data) and its size field
					hdr := start + 4 + 13 + 10 + 11 + 4
					if f.groups[rec] != nil && at >= hdr && at < f.ends[rec]-1 {
						var all []ref.Doc
						for _, g := range f.groups {
							all = append(all, g...)
						}
						if err == nil && sameDocs("", got, mapDocs(all, flatDoc)) != nil {
							c.Fail("damaged sample data is read as %v without an error", got)
						}
					}
				}},
			{Name: "payload-edits", Bounds: fmt.Sprintf("a chunk whose content has a valid checksum and every byte changed in %d ways, between two intact chunks, through all views, against an independent decoder", len(edits)), Rule: "the content cannot be decoded", Split: 2,
				Run: func(c *engine.Chooser) {
					p := rawPayload(engine.Pick(c, f04PayloadSeeds()))
					at := c.Choose(len(p))
					p[at] ^= engine.Pick(c, edits)
					view := c.Choose(f04Views)
					c.Note("content % x view %d", p, view)
					c.State(fmt.Sprintf("%x%d", p, view))
					f04Payload(c, p, view)
				}},
			{Name: "payload-cuts", Bounds: "a chunk whose content has a valid checksum and is cut at every byte, between two intact chunks, through all views", Rule: "the content cannot be decoded", Split: 2,
				Run: func(c *engine.Chooser) {
					p := rawPayload(engine.Pick(c, f04PayloadSeeds()))
					p = p[:c.Choose(len(p)+1)]
					view := c.Choose(f04Views)
					c.Note("content % x view %d", p, view)
					c.State(fmt.Sprintf("%x%d", p, view))
					f04Payload(c, p, view)
				}},
			{Name: "counts", Bounds: "a chunk with a valid checksum and every pair of boundary values for its two counts, between two intact chunks, through all views", Rule: "the content cannot be decoded", Split: 2,
				Run: func(c *engine.Chooser) {
					s := engine.Pick(c, f04PayloadSeeds())
					p := rawPayload(s)
					off := len(s[0].Encode())
					vals := []uint32{0, 1, 2, 3, 4, 5, 6, 0x7fffffff, 0x80000000, 0xffffffff}
					binary.LittleEndian.PutUint32(p[off:], engine.Pick(c, vals))
					binary.LittleEndian.PutUint32(p[off+4:], engine.Pick(c, vals))
					view := c.Choose(f04Views)
					c.Note("content % x view %d", p, view)
					c.State(fmt.Sprintf("%x%d", p, view))
					f04Payload(c, p, view)
				}},
			{Name: "records", Bounds: "a record with a missing or mistyped id, type or data field, data of 0 to 8 bytes, and data that is not compressed, between intact chunks, through all views", Rule: "the record cannot be decoded", Split: 2,
				Run: func(c *engine.Chooser) {
					ids := []ref.Val{{T: ref.TDate, I: 5}, {T: ref.TNull}, {T: ref.TInt32, I: 1}, {}}
					types := []ref.Val{i32(1), {T: ref.TInt64, I: 1}, {T: ref.TDouble, F: 1}, str("1"), i32(2), {T: ref.TDoc}, {}}
					good := dataField(rawPayload(f04Samples(4, 0, 2)), -1)
					datas := []ref.Val{{T: ref.TBinary, Bin: good}, {T: ref.TBinary, Sub: 0x80, Bin: good}, {}, {T: ref.TString, S: "x"}, {T: ref.TNull}, {T: ref.TDoc}, {T: ref.TBinary, Bin: []byte("0123456789abcdef")}}
					for i := 0; i <= 8; i++ {
						datas = append(datas, ref.Val{T: ref.TBinary, Bin: good[:i]})
					}
					di := c.Choose(len(datas))
					ti := c.Choose(len(types))
					d := ref.Doc{}
					for _, e := range []ref.Elem{{K: "_id", V: engine.Pick(c, ids)}, {K: "type", V: types[ti]}, {K: "data", V: datas[di]}} {
						if e.V.T != 0 {
							d = append(d, e)
						}
					}
					view := c.Choose(f04Views)
					c.Note("record %s, view %d", d, view)
					c.State(fmt.Sprint(d, view))
					a := f04Samples(0, 0, 2)
					data := append(chunkRecord(dataField(rawPayload(a), -1)), d.Encode()...)
					got, err := readView(view, bytes.NewReader(data))
					c.Step()
					exp := a
					switch {
					case ti >= 3: // not a metric record
						if err != nil {
							c.Fail("a record of an unknown type: %v", err)
						}
					case di < 2:
						if err != nil {
							c.Fail("a valid record: %v", err)
						}
						exp = append(exp, f04Samples(4, 0, 2)...)
					default:
						c.NonTrivial()
						if err == nil {
							c.Fail("a record without usable data is not reported")
						}
					}
					if derr := sameDocs("samples", got, mapDocs(exp, flatDoc)); derr != nil {
						c.Fail("%v", derr)
					}
				}},
		}
		if deep {
			fams = append(fams, engine.Family{Name: "payload-pairs", Bounds: "a chunk whose content has a valid checksum and every pair of bytes changed in 3 x 3 ways, between two intact chunks, through the chunk view", Rule: "the content cannot be decoded", Split: 3,
				Run: func(c *engine.Chooser) {
					p := rawPayload(engine.Pick(c, f04PayloadSeeds()))
					at := c.Choose(len(p) - 1)
					to := at + 1 + c.Choose(len(p)-at-1)
					p[at] ^= engine.Pick(c, some)
					p[to] ^= engine.Pick(c, some)
					c.Note("content % x", p)
					c.State(fmt.Sprintf("%x", p))
					f04Payload(c, p, 0)
				}}, engine.Family{Name: "corruption-pairs", Bounds: "two files of metadata and three chunks: every pair of bytes of one record changed in 3 x 1 ways, read through the chunk view", Rule: "always", Split: 3,
				Run: func(c *engine.Chooser) {
					f := engine.Pick(c, files)
					rec := c.Choose(len(f.ends))
					start := 0
					if rec > 0 {
						start = f.ends[rec-1]
					}
					n := f.ends[rec] - start
					at := c.Choose(n - 1)
					to := at + 1 + c.Choose(n-at-1)
					b := append([]byte(nil), f.data...)
					b[start+at] ^= engine.Pick(c, some)
					b[start+to] ^= 0xff
					c.NonTrivial()
					c.Note("bytes %d and %d of record %d changed", at, to, rec)
					c.State(fmt.Sprint(len(f.data), rec, at, to, b[start+at]))
					got, err := readView(0, bytes.NewReader(b))
					c.Step()
					if !chunkSubsequence(got, f.groups, rec) {
						c.Fail("read %v (%v), which are not samples of intact records", got, err)
					}
				}})
		}
		return fams
	},
}

func f64(v int64) float64 { return math.Float64frombits(uint64(v)) }
