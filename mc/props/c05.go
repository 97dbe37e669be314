package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"runtime"

	"birchmc/bb"
	"birchmc/engine"
	"birchmc/ref"
	"github.com/tychoish/birch"
)

// poisoned returns b in a slice with spare capacity holding hostile bytes, so
// that a read beyond len(b) within the capacity changes the outcome.
func poisoned(b []byte, fill byte) []byte {
	m := bytes.Repeat([]byte{fill}, len(b)+64)
	copy(m, b)
	return m[:len(b):len(m)]
}

// scalarsReadable calls the accessor of every non-container element that
// shallow decoding accepted.
func readScalars(d *birch.Document) {
	for e := range d.Iterator() {
		switch byte(e.Value().Type()) {
		case ref.TDoc, ref.TArray, ref.TCodeScope:
		default:
			_, _ = bb.FromValue(e.Value())
			_ = e.Value().Interface()
			_ = e.String()
		}
	}
}

// checkHostile runs every decoding and validating entry point on b and
// compares its verdict with the reference decoder.
func checkHostile(c *engine.Chooser, b []byte) {
	want, n, rerr := ref.Decode(b)
	if c != nil {
		c.StateB(b)
		c.NonTrivial()
	}
	c.Note("bytes % x", b)
	for _, fill := range []byte{0x00, 0x41} {
		in := poisoned(b, fill)
		r := birch.Reader(in)
		size, err := r.Validate()
		c.Step()
		if (err == nil) != (rerr == nil) {
			c.Fail("Reader.Validate(% x) = %d, %v; the specification says well-formed=%v", b, size, err, rerr == nil)
		}
		if err == nil && int(size) != n {
			c.Fail("Reader.Validate(% x) reports %d bytes, the document has %d", b, size, n)
		}
		if err == nil {
			got, err := bb.FromReader(r)
			if err != nil || !got.Equal(want) {
				c.Fail("validated bytes % x read as %v (%v), want %v", b, got, err, want)
			}
		}
		mb, err := r.MarshalBSON()
		if (err == nil) != (rerr == nil) {
			c.Fail("Reader.MarshalBSON(% x): %v; well-formed=%v", b, err, rerr == nil)
		}
		if err == nil && !bytes.HasPrefix(mb, b[:n]) {
			c.Fail("Reader.MarshalBSON(% x) = % x", b, mb)
		}
		_ = r.String()
		// shallow decoding
		d, derr := birch.ReadDocument(in)
		if rerr == nil && derr != nil {
			c.Fail("ReadDocument(% x) rejects a well-formed document: %v", b, derr)
		}
		if derr == nil {
			readScalars(d)
			vs, verr := d.Validate()
			out, merr := d.MarshalBSON()
			if (verr == nil) != (merr == nil) {
				c.Fail("decoded % x: Validate says %v but MarshalBSON says %v", b, verr, merr)
			}
			if (verr == nil) != (rerr == nil) {
				c.Fail("Document.Validate after decoding % x: %d, %v; well-formed=%v", b, vs, verr, rerr == nil)
			}
			if verr != nil {
				// no way of writing it out takes it for a document
				var w bytes.Buffer
				if _, err := d.WriteTo(&w); err == nil || w.Len() > 0 {
					c.Fail("decoded % x: Validate says %v and WriteTo writes % x (%v)", b, verr, w.Bytes(), err)
				}
				if out, err := birch.MarshalDocumentBSON(d); err == nil {
					c.Fail("decoded % x: Validate says %v but MarshalDocumentBSON gives % x", b, verr, out)
				}
				if _, err := birch.DC.Elements(birch.EC.SubDocument("d", d)).MarshalBSON(); err == nil {
					c.Fail("decoded % x: Validate says %v but a document that holds it is encoded", b, verr)
				}
				if _, err := birch.DC.Elements(birch.EC.CodeWithScope("d", "", d)).MarshalBSON(); err == nil {
					c.Fail("decoded % x: Validate says %v but a scope that holds it is encoded", b, verr)
				}
				if a := birch.MakeArray(1).ExtendFromDocument(d); true {
					if out, err := a.MarshalBSON(); err == nil {
						if _, _, rerr := ref.Decode(out); rerr != nil {
							c.Fail("decoded % x: Validate says %v but an array of its values is encoded as % x", b, verr, out)
						}
					}
				}
			}
			for e := range d.Iterator() {
				_, err := e.Validate()
				if err != nil && rerr == nil {
					c.Fail("element %q of % x does not validate: %v", e.Key(), b, err)
				}
				if err != nil {
					if out, err := e.MarshalBSON(); err == nil {
						c.Fail("element %q of % x does not validate and is encoded as % x", e.Key(), b, out)
					}
				}
			}
			if rerr == nil {
				if int(vs) != n || !bytes.Equal(out, b[:n]) {
					c.Fail("re-encoding % x gives % x (size %d)", b, out, vs)
				}
				got, err := bb.FromDoc(d)
				if err != nil || !got.Equal(want) {
					c.Fail("decoded % x as %v (%v), want %v", b, got, err, want)
				}
				_ = d.String()
			}
		}
		dm := birch.DocumentMap{}
		if err := dm.UnmarshalBSON(in); rerr == nil && err != nil {
			c.Fail("DocumentMap.UnmarshalBSON(% x): %v", b, err)
		}
		if _, err := birch.DCE.Reader(r); (err == nil) != (derr == nil) {
			c.Fail("DCE.Reader(% x): %v but ReadDocument: %v", b, err, derr)
		}
		// positional and keyed access agree with the specification
		for i := 0; i < 3; i++ {
			e, err := r.ElementAt(uint(i))
			if err == nil && rerr == nil && i >= len(want) {
				c.Fail("ElementAt(%d) of % x succeeded", i, b)
			}
			if rerr == nil && i < len(want) {
				if err != nil || e.Key() != want[i].K {
					c.Fail("ElementAt(%d) of % x: %v", i, b, err)
				}
			}
		}
		for _, path := range [][]string{{"a"}, {"k", "a"}, {"a", "a"}, {"a", "k"}, {"k", "0", "a"}, {"zz"}, {""}} {
			e, err := r.RecursiveLookup(path...)
			if rerr == nil {
				w, ok := refReaderLookup(want, path)
				if ok != (err == nil && e != nil) {
					c.Fail("RecursiveLookup(%q) in % x: %v, want found=%v", path, b, err, ok)
				}
				if ok && eqElem(e, w) != nil {
					c.Fail("RecursiveLookup(%q) in % x: %v", path, b, eqElem(e, w))
				}
			}
		}
	}
	// streams
	if len(b) >= 4 {
		l := int64(int32(binary.LittleEndian.Uint32(b)))
		if l > 1<<20 {
			return // declared sizes beyond the input are the allocation family's
		}
	}
	rd, err := birch.NewFromIOReader(bytes.NewReader(b))
	if rerr == nil && (err != nil || !bytes.Equal(rd, b[:n])) {
		c.Fail("NewFromIOReader(% x) = % x, %v", b, []byte(rd), err)
	}
	sd := birch.DC.New()
	k, err := sd.ReadFrom(bytes.NewReader(b))
	if rerr == nil && (err != nil || int(k) != n) {
		c.Fail("ReadFrom(% x) = %d, %v", b, k, err)
	}
	if err == nil {
		if rerr == nil {
			got, err := bb.FromDoc(sd)
			if err != nil || !got.Equal(want) {
				c.Fail("ReadFrom(% x) decoded %v (%v), want %v", b, got, err, want)
			}
		}
		readScalars(sd)
		if _, err := sd.Validate(); (err == nil) != (rerr == nil) {
			c.Fail("Document.Validate after ReadFrom(% x): %v; well-formed=%v", b, err, rerr == nil)
		}
	}
	if _, err := birch.DCE.ReadFrom(bytes.NewReader(b)); rerr == nil && err != nil {
		c.Fail("DCE.ReadFrom(% x): %v", b, err)
	}
}

// refReaderLookup: the first element with the key at each level, containers
// being documents and arrays, array elements looked up by their stored key.
func refReaderLookup(d ref.Doc, path []string) (ref.Elem, bool) {
	for i, e := range d {
		k := e.K
		_ = i
		if k != path[0] {
			continue
		}
		if len(path) == 1 {
			return e, true
		}
		if e.V.T != ref.TDoc && e.V.T != ref.TArray {
			return ref.Elem{}, false
		}
		return refReaderLookup(e.V.D, path[1:])
	}
	return ref.Elem{}, false
}

func c05Seeds() []ref.Doc {
	var out []ref.Doc
	all := append(append([]ref.Val{}, bb.Reps()...), containerReps()...)
	all = append(all, ref.Val{T: ref.TBinary, Sub: 0, Bin: []byte{1, 2}}, ref.Val{T: ref.TBinary, Sub: 2, Bin: []byte{9}})
	for _, v := range all {
		out = append(out, ref.Doc{{K: "a", V: v}})
	}
	// every type inside a subdocument, an array and a scope
	for _, v := range all {
		in := ref.Doc{{K: "a", V: v}}
		out = append(out,
			ref.Doc{{K: "k", V: ref.Val{T: ref.TDoc, D: in}}, {K: "t", V: ref.Val{T: ref.TBool, B: true}}},
			ref.Doc{{K: "k", V: ref.Val{T: ref.TArray, D: ref.Doc{{K: "0", V: v}}}}},
			ref.Doc{{K: "k", V: ref.Val{T: ref.TCodeScope, S: "c", D: in}}, {K: "t", V: ref.Val{T: ref.TInt32, I: 1}}},
		)
	}
	return out
}

func c05Nested() []ref.Doc {
	leaf := ref.Doc{{K: "a", V: str("xy")}}
	wrap := func(t byte, d ref.Doc) ref.Doc { return ref.Doc{{K: "k", V: ref.Val{T: t, S: "c", D: d}}} }
	var out []ref.Doc
	for _, a := range []byte{ref.TDoc, ref.TArray, ref.TCodeScope} {
		for _, b := range []byte{ref.TDoc, ref.TArray, ref.TCodeScope} {
			out = append(out, wrap(a, append(wrap(b, leaf), ref.Elem{K: "t", V: ref.Val{T: ref.TNull}})))
		}
	}
	return out
}

func lenValues(cur int32, total int) []int32 {
	vs := []int32{cur - 5, cur - 4, cur - 2, cur - 1, cur + 1, cur + 2, cur + 4, cur + 5, cur + 64, 0, 1, 2, 3, 4, 5, 6, 12, 13, 14, -1, -2, -4, -5, -12, -13,
		0x7fffffff, 0x7ffffff0, 0x7fffffff - 4, 0x7fffffff - 12, -0x80000000, -0x7fffffff, int32(total), int32(total) - 1, int32(total) - 4, int32(-total), 0x100, 0x10000, 0x1000000}
	return vs
}

// C05: hostile bytes.
var C05 = &engine.Property{
	ID: "C05", Level: "model_checking",
	Assume: []string{"the reference decoder in mc/ref follows bsonspec.org; reserved binary subtypes 0x06-0x7f are refused by the library by design",
		"documents decoded without validation are only required to give safe access to their non-container values; containers are required to be safe once validated"},
	Families: func(tier string) []engine.Family {
		seeds := c05Seeds()
		nested := append(append([]ref.Doc{}, c05Nested()...), seeds...)
		enc := make([][]byte, len(seeds))
		for i, s := range seeds {
			enc[i] = s.Encode()
		}
		encN := make([][]byte, len(nested))
		for i, s := range nested {
			encN[i] = s.Encode()
		}
		tags := []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 0xa, 0xb, 0xc, 0xd, 0xe, 0xf, 0x10, 0x11, 0x12, 0x13, 0x14, 0x7f, 0xff, 0x80}
		payload := []byte{0x00, 0x01, 0x02, 0x05, 0xff}
		max := 6
		if tier == "thorough" {
			max = 8
		}
		fams := []engine.Family{
			{Name: "short", Bounds: fmt.Sprintf("every body tag(23 values) x key('' or 'a') x payload over {00,01,02,05,ff} of every length <=%d, terminator present or not, length prefix exact/-1/+1", max), Rule: "every case is a distinct byte string", Split: 4,
				Run: func(c *engine.Chooser) {
					body := []byte{tags[c.Choose(len(tags))]}
					if c.Bool() {
						body = append(body, 'a')
					}
					body = append(body, 0)
					n := c.Choose(max + 1)
					for i := 0; i < n; i++ {
						body = append(body, payload[c.Choose(len(payload))])
					}
					if c.Bool() {
						body = append(body, 0)
					}
					b := make([]byte, 4, 4+len(body))
					b = append(b, body...)
					binary.LittleEndian.PutUint32(b, uint32(len(b)+c.Choose(3)-1))
					checkHostile(c, b)
				}},
			{Name: "headers", Bounds: "all byte strings of length<=4 over {00,01,04,05,7f,80,ff} and all 4-byte prefixes over it followed by {00}, {00,00}, {08,00,01,00}", Rule: "every case",
				Run: func(c *engine.Chooser) {
					al := []byte{0, 1, 4, 5, 0x7f, 0x80, 0xff}
					n := c.Choose(5)
					var b []byte
					for i := 0; i < n; i++ {
						b = append(b, al[c.Choose(len(al))])
					}
					if n == 4 {
						b = append(b, [][]byte{nil, {0}, {0, 0}, {8, 0, 1, 0}}[c.Choose(4)]...)
					}
					checkHostile(c, b)
				}},
			{Name: "truncations", Bounds: fmt.Sprintf("%d seed documents covering every type at top level, in a subdocument, in an array and in a scope; every truncation, with the original prefix and with the prefix adjusted, alone or followed by a second document", len(nested)), Rule: "every case",
				Run: func(c *engine.Chooser) {
					b := append([]byte{}, encN[c.Choose(len(encN))]...)
					b = b[:c.Choose(len(b)+1)]
					if c.Bool() && len(b) >= 4 {
						binary.LittleEndian.PutUint32(b, uint32(len(b)))
					}
					if c.Bool() {
						b = append(b, 5, 0, 0, 0, 0)
					}
					checkHostile(c, b)
				}},
			{Name: "bytes", Bounds: "every seed document with every byte replaced by each of the 256 values", Rule: "every case",
				Run: func(c *engine.Chooser) {
					b := append([]byte{}, enc[c.Choose(len(enc))]...)
					b[c.Choose(len(b))] = byte(c.Choose(256))
					checkHostile(c, b)
				}},
			{Name: "lengths", Bounds: "every structural length field of every seed document set to 38 boundary values, alone and combined with every value of every other length field of that document", Rule: "every case",
				Run: func(c *engine.Chooser) {
					b := append([]byte{}, encN[c.Choose(len(encN))]...)
					lf := ref.LengthFields(b)
					i := c.Choose(len(lf))
					cur := int32(binary.LittleEndian.Uint32(b[lf[i]:]))
					binary.LittleEndian.PutUint32(b[lf[i]:], uint32(engine.Pick(c, lenValues(cur, len(b)))))
					if c.Bool() && i+1 < len(lf) {
						j := i + 1 + c.Choose(len(lf)-i-1)
						cur := int32(binary.LittleEndian.Uint32(b[lf[j]:]))
						binary.LittleEndian.PutUint32(b[lf[j]:], uint32(engine.Pick(c, lenValues(cur, len(b)))))
					}
					checkHostile(c, b)
				}},
			{Name: "edits", Bounds: "every seed document with one byte removed at every position, or one byte of {00,01,02,03,05,10,41,ff} inserted at every position, prefix kept or adjusted", Rule: "every case",
				Run: func(c *engine.Chooser) {
					s := encN[c.Choose(len(encN))]
					var b []byte
					k := c.Choose(9)
					p := c.Choose(len(s))
					b = append(b, s[:p]...)
					if k == 0 {
						b = append(b, s[p+1:]...)
					} else {
						b = append(b, []byte{0, 1, 2, 3, 5, 0x10, 0x41, 0xff}[k-1])
						b = append(b, s[p:]...)
					}
					if c.Bool() && len(b) >= 4 {
						binary.LittleEndian.PutUint32(b, uint32(len(b)))
					}
					checkHostile(c, b)
				}},
			{Name: "splices", Bounds: "all ordered pairs of seed bodies concatenated, and every seed body used as the payload of every container tag with exact and off-by-one inner length", Rule: "every case",
				Run: func(c *engine.Chooser) {
					a := enc[c.Choose(len(enc))]
					var b []byte
					if c.Bool() {
						o := enc[c.Choose(len(enc))]
						b = append(b, a[:len(a)-1]...)
						b = append(b, o[4:]...)
					} else {
						t := []byte{3, 4, 2, 5, 0xf, 0xd, 0xe}[c.Choose(7)]
						in := append([]byte{}, a...)
						if t == 3 || t == 4 {
							binary.LittleEndian.PutUint32(in, uint32(len(in)+c.Choose(3)-1))
						}
						b = append([]byte{0, 0, 0, 0, t, 'k', 0}, in...)
						b = append(b, 0)
					}
					binary.LittleEndian.PutUint32(b, uint32(len(b)))
					checkHostile(c, b)
				}},
			{Name: "allocation", Bounds: "streams of 4..16 bytes declaring 2^20..2^31-1 bytes, and in-memory documents whose inner length fields declare as much, through every entry point; bytes allocated per call <= 1 MiB", Rule: "every case", Serial: true,
				Run: func(c *engine.Chooser) {
					decl := []uint32{1 << 20, 1 << 24, 1 << 28, 1 << 30, 0x7fffffff, 0x7ffffffb}[c.Choose(6)]
					b := make([]byte, 4, 64)
					binary.LittleEndian.PutUint32(b, decl)
					tail := [][]byte{nil, {2}, {2, 'a', 0, 0xff, 0xff, 0xff, 0x7f}, {5, 'a', 0, 0xff, 0xff, 0xff, 0x7f, 0, 1}, {3, 'a', 0, 0xff, 0xff, 0xff, 0x7f, 0, 0}}[c.Choose(5)]
					b = append(b, tail...)
					mem := append([]byte{}, b...)
					binary.LittleEndian.PutUint32(mem, uint32(len(mem)))
					which := c.Choose(8)
					names := []string{"NewFromIOReader", "Document.ReadFrom", "DCE.ReadFrom", "ReadDocument", "Reader.Validate", "Reader iteration", "Document.UnmarshalBSON", "DocumentMap.UnmarshalBSON"}
					c.Note("%s(% x)", names[which], b)
					run := func() error {
						switch which {
						case 0:
							_, err := birch.NewFromIOReader(bytes.NewReader(b))
							return err
						case 1:
							_, err := birch.DC.New().ReadFrom(struct{ io.Reader }{bytes.NewReader(b)})
							return err
						case 2:
							_, err := birch.DCE.ReadFrom(bytes.NewReader(b))
							return err
						case 3:
							_, err := birch.ReadDocument(mem)
							return err
						case 4:
							_, err := birch.Reader(mem).Validate()
							return err
						case 5:
							var last error
							for _, err := range birch.Reader(mem).Iterator() {
								last = err
							}
							return last
						case 6:
							return birch.DC.New().UnmarshalBSON(b)
						default:
							return birch.DocumentMap{}.UnmarshalBSON(mem)
						}
					}
					var m0, m1 runtime.MemStats
					runtime.ReadMemStats(&m0)
					err := run()
					runtime.ReadMemStats(&m1)
					c.Step()
					c.StateB(append([]byte{byte(which)}, b...))
					c.NonTrivial()
					if err == nil {
						c.Fail("%s accepts % x", names[which], b)
					}
					if got := m1.TotalAlloc - m0.TotalAlloc; got > 1<<20 {
						c.Fail("%s allocated %d bytes for a %d-byte input", names[which], got, len(b))
					}
				}},
		}
		return fams
	},
}
