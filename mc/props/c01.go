package props

import (
	"bytes"
	"fmt"
	"strconv"

	"birchmc/bb"
	"birchmc/engine"
	"birchmc/ref"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/elements"
	"github.com/tychoish/birch/types"
)

var keyPool = []string{"", "a", "ab", "é", "0", "a.b", "k23456789"}

// genVal chooses a value; containers are allowed while depth > 0.
func genVal(c *engine.Chooser, leaves []ref.Val, depth, width int, keys []string) ref.Val {
	n := len(leaves)
	if depth == 0 {
		return leaves[c.Choose(n)]
	}
	i := c.Choose(n + 3)
	if i < n {
		return leaves[i]
	}
	switch i - n {
	case 0:
		return ref.Val{T: ref.TDoc, D: genDoc(c, leaves, depth-1, width, keys)}
	case 1:
		return ref.Val{T: ref.TArray, D: genDoc(c, leaves, depth-1, width, []string{""})}
	default:
		code := []string{"", "f()"}[c.Choose(2)]
		return ref.Val{T: ref.TCodeScope, S: code, D: genDoc(c, leaves, depth-1, width, keys)}
	}
}

func genDoc(c *engine.Chooser, leaves []ref.Val, depth, width int, keys []string) ref.Doc {
	n := c.Choose(width + 1)
	d := ref.Doc{}
	for i := 0; i < n; i++ {
		d = append(d, ref.Elem{K: keys[c.Choose(len(keys))], V: genVal(c, leaves, depth, width, keys)})
	}
	return d
}

// checkCodec is the oracle of C01 for one document.
func checkCodec(c *engine.Chooser, d ref.Doc) {
	want := d.Encode()
	c.Note("doc %s", d)
	c.StateB(want)
	bd := bb.Doc(d)
	sz, err := bd.Validate()
	if err != nil {
		c.Fail("Validate of a constructed document: %v", err)
	}
	if int(sz) != len(want) {
		c.Fail("Validate size %d, specification %d", sz, len(want))
	}
	got, err := bd.MarshalBSON()
	if err != nil {
		c.Fail("MarshalBSON: %v", err)
	}
	if !bytes.Equal(got, want) {
		c.Fail("encoding differs from the specification:\n got %x\nwant %x", got, want)
	}
	var buf bytes.Buffer
	n, err := bd.WriteTo(&buf)
	if err != nil || int(n) != len(want) || !bytes.Equal(buf.Bytes(), want) {
		c.Fail("WriteTo: n=%d err=%v bytes %x want %x", n, err, buf.Bytes(), want)
	}
	if b, err := birch.MarshalDocumentBSON(bd); err != nil || !bytes.Equal(b, want) {
		c.Fail("MarshalDocumentBSON: %v %x want %x", err, b, want)
	}
	i := 0
	for e := range bd.Iterator() {
		w := d[i].EncodeElem()
		b, err := e.MarshalBSON()
		if err != nil || !bytes.Equal(b, w) {
			c.Fail("Element.MarshalBSON: %v %x want %x", err, b, w)
		}
		buf.Reset()
		n, err := e.WriteTo(&buf)
		if err != nil || int(n) != len(w) || !bytes.Equal(buf.Bytes(), w) {
			c.Fail("Element.WriteTo: %v n=%d %x want %x", err, n, buf.Bytes(), w)
		}
		esz, err := e.Validate()
		if err != nil || int(esz) != len(w) {
			c.Fail("Element.Validate: %v %d want %d", err, esz, len(w))
		}
		i++
	}
	if i != len(d) {
		c.Fail("iterator yields %d elements, want %d", i, len(d))
	}
	c.Steps(6)
	// constructed document reads back
	back, err := bb.FromDoc(bd)
	if err != nil || !back.Equal(d) {
		c.Fail("constructed document reads back as %s (err %v)", back, err)
	}
	// decoding
	src := append([]byte{}, want...)
	dd, err := birch.ReadDocument(src)
	if err != nil {
		c.Fail("ReadDocument rejects a well-formed document: %v", err)
	}
	checkDecoded(c, dd, d, want, "ReadDocument")
	r := birch.Reader(append([]byte{}, want...))
	if n, err := r.Validate(); err != nil || int(n) != len(want) {
		c.Fail("Reader.Validate: %d %v", n, err)
	}
	if b, err := r.MarshalBSON(); err != nil || !bytes.Equal(b, want) {
		c.Fail("Reader.MarshalBSON: %v", err)
	}
	rd, err := bb.FromReader(r)
	if err != nil || !rd.Equal(d) {
		c.Fail("Reader iteration gives %s (err %v)", rd, err)
	}
	d2 := birch.DC.New()
	if n, err := d2.ReadFrom(bytes.NewReader(want)); err != nil || int(n) != len(want) {
		c.Fail("ReadFrom: %d %v", n, err)
	}
	checkDecoded(c, d2, d, want, "ReadFrom")
	d3 := birch.DC.New().Append(birch.EC.Null("stale"))
	if err := d3.UnmarshalBSON(append([]byte{}, want...)); err != nil {
		c.Fail("UnmarshalBSON: %v", err)
	}
	checkDecoded(c, d3, d, want, "UnmarshalBSON")
	c.Steps(5)
	if len(d) > 0 {
		c.NonTrivial()
	}
}

func checkDecoded(c *engine.Chooser, dd *birch.Document, d ref.Doc, want []byte, how string) {
	// encode before anything was materialised
	b, err := dd.MarshalBSON()
	if err != nil || !bytes.Equal(b, want) {
		c.Fail("%s: re-encoding gives %x (err %v), want %x", how, b, err, want)
	}
	got, err := bb.FromDoc(dd)
	if err != nil || !got.Equal(d) {
		c.Fail("%s: decoded as %s (err %v), want %s", how, got, err, d)
	}
	// and after every nested value was materialised
	b, err = dd.MarshalBSON()
	if err != nil || !bytes.Equal(b, want) {
		c.Fail("%s: re-encoding after reading gives %x (err %v), want %x", how, b, err, want)
	}
	if sz, err := dd.Validate(); err != nil || int(sz) != len(want) {
		c.Fail("%s: Validate %d %v, want %d", how, sz, err, len(want))
	}
}

// encodeVia runs the low-level encoder for the value at start.
func encodeVia(v ref.Val, k string, start uint, w []byte, withKey bool) (int, error) {
	o := types.ObjectID(v.OID)
	switch v.T {
	case ref.TDouble:
		if withKey {
			return elements.Double.Element(start, w, k, v.F)
		}
		return elements.Double.Encode(start, w, v.F)
	case ref.TString:
		if withKey {
			return elements.String.Element(start, w, k, v.S)
		}
		return elements.String.Encode(start, w, v.S)
	case ref.TDoc:
		if withKey {
			return elements.Document.Element(start, w, k, v.D.Encode())
		}
		return elements.Document.Encode(start, w, v.D.Encode())
	case ref.TArray:
		if withKey {
			return elements.Array.Element(start, w, k, v.D.EncodeArray())
		}
		return elements.Array.Encode(start, w, v.D.EncodeArray())
	case ref.TBinary:
		if withKey {
			return elements.Binary.Element(start, w, k, v.Bin, v.Sub)
		}
		return elements.Binary.Encode(start, w, v.Bin, v.Sub)
	case ref.TOID:
		if withKey {
			return elements.ObjectID.Element(start, w, k, o)
		}
		return elements.ObjectID.Encode(start, w, o)
	case ref.TBool:
		if withKey {
			return elements.Boolean.Element(start, w, k, v.B)
		}
		return elements.Boolean.Encode(start, w, v.B)
	case ref.TDate:
		if withKey {
			return elements.DateTime.Element(start, w, k, v.I)
		}
		return elements.DateTime.Encode(start, w, v.I)
	case ref.TRegex:
		if withKey {
			return elements.Regex.Element(start, w, k, v.S, v.S2)
		}
		return elements.Regex.Encode(start, w, v.S, v.S2)
	case ref.TDBPtr:
		if withKey {
			return elements.DBPointer.Element(start, w, k, v.S, o)
		}
		return elements.DBPointer.Encode(start, w, v.S, o)
	case ref.TJS:
		if withKey {
			return elements.JavaScript.Element(start, w, k, v.S)
		}
		return elements.JavaScript.Encode(start, w, v.S)
	case ref.TSymbol:
		if withKey {
			return elements.Symbol.Element(start, w, k, v.S)
		}
		return elements.Symbol.Encode(start, w, v.S)
	case ref.TCodeScope:
		if withKey {
			return elements.CodeWithScope.Element(start, w, k, v.S, v.D.Encode())
		}
		return elements.CodeWithScope.Encode(start, w, v.S, v.D.Encode())
	case ref.TInt32:
		if withKey {
			return elements.Int32.Element(start, w, k, int32(v.I))
		}
		return elements.Int32.Encode(start, w, int32(v.I))
	case ref.TTimestamp:
		if withKey {
			return elements.Timestamp.Element(start, w, k, v.U, v.V)
		}
		return elements.Timestamp.Encode(start, w, v.U, v.V)
	case ref.TInt64:
		if withKey {
			return elements.Int64.Element(start, w, k, v.I)
		}
		return elements.Int64.Encode(start, w, v.I)
	case ref.TDec128:
		if withKey {
			return elements.Decimal128.Element(start, w, k, types.NewDecimal128(v.Hi, v.Lo))
		}
		return elements.Decimal128.Encode(start, w, types.NewDecimal128(v.Hi, v.Lo))
	}
	return -1, nil
}

func containerReps() []ref.Val {
	s := ref.Doc{{K: "x", V: ref.Val{T: ref.TInt32, I: 7}}}
	return []ref.Val{
		{T: ref.TDoc}, {T: ref.TDoc, D: s}, {T: ref.TArray}, {T: ref.TArray, D: s},
		{T: ref.TCodeScope, S: "c"}, {T: ref.TCodeScope, D: s},
	}
}

// C01: codec.
var C01 = &engine.Property{
	ID: "C01", Level: "model_checking",
	Assume: []string{"the reference encoder in mc/ref follows bsonspec.org", "bounded document shapes; larger documents compose the same element codec"},
	Families: func(tier string) []engine.Family {
		sc := bb.Scalars()
		reps := bb.Reps()
		small := []ref.Val{{T: ref.TInt32, I: 1}, {T: ref.TString, S: "s"}, {T: ref.TNull}}
		wide := append(append([]ref.Val{}, reps...), containerReps()...)
		if tier == "thorough" {
			small = append(small, ref.Val{T: ref.TBinary, Sub: 2, Bin: []byte{1}}, ref.Val{T: ref.TRegex, S: "p"})
		}
		fams := []engine.Family{
			{Name: "flat", Bounds: "documents of 1 element: every scalar boundary value x key pool; 2 elements: all ordered pairs of scalar boundary values", Rule: "at least one element",
				Run: func(c *engine.Chooser) {
					if c.Bool() {
						checkCodec(c, ref.Doc{{K: keyPool[c.Choose(len(keyPool))], V: sc[c.Choose(len(sc))]}})
					} else {
						checkCodec(c, ref.Doc{{K: "k", V: sc[c.Choose(len(sc))]}, {K: "k2", V: sc[c.Choose(len(sc))]}})
					}
				}},
			{Name: "nested", Bounds: "all trees of documents, arrays and code-with-scope, width<=2, depth<=2 (top level and one below), leaves {int32,string,null} (thorough: +binary,regex), keys {a,''}", Rule: "at least one element", Split: 3,
				Run: func(c *engine.Chooser) { checkCodec(c, genDoc(c, small, 1, 2, []string{"a", ""})) }},
			{Name: "deep", Bounds: "all chains of containers of length<=6 ending in a leaf representative of every type", Rule: "at least one element",
				Run: func(c *engine.Chooser) {
					n := c.Choose(7)
					v := reps[c.Choose(len(reps))]
					for i := 0; i < n; i++ {
						in := ref.Doc{{K: "k", V: v}}
						switch c.Choose(3) {
						case 0:
							v = ref.Val{T: ref.TDoc, D: in}
						case 1:
							v = ref.Val{T: ref.TArray, D: append(in, ref.Elem{V: ref.Val{T: ref.TNull}})}
						case 2:
							v = ref.Val{T: ref.TCodeScope, S: "x", D: in}
						}
					}
					checkCodec(c, ref.Doc{{K: "r", V: v}, {K: "t", V: ref.Val{T: ref.TBool}}})
				}},
			{Name: "triples", Bounds: "all ordered triples of representatives of every type incl. containers, in a document, an array or a scope", Rule: "three elements", Split: 2,
				Run: func(c *engine.Chooser) {
					k := c.Choose(3)
					d := ref.Doc{{K: "a", V: wide[c.Choose(len(wide))]}, {K: "b", V: wide[c.Choose(len(wide))]}, {K: "c", V: wide[c.Choose(len(wide))]}}
					switch k {
					case 1:
						d = ref.Doc{{K: "w", V: ref.Val{T: ref.TArray, D: d}}}
					case 2:
						d = ref.Doc{{K: "w", V: ref.Val{T: ref.TCodeScope, S: "q", D: d}}}
					}
					checkCodec(c, d)
				}},
			{Name: "sizes", Bounds: "documents of every length 0..300 and strings/keys/binaries of every length 0..300 (length fields crossing one byte)", Rule: "length above 0",
				Run: func(c *engine.Chooser) {
					k := c.Choose(6)
					n := c.Choose(301)
					s := string(bytes.Repeat([]byte{'q'}, n))
					var d ref.Doc
					switch k {
					case 0:
						for i := 0; i < n; i++ {
							d = append(d, ref.Elem{K: strconv.Itoa(i), V: ref.Val{T: ref.TInt32, I: int64(i)}})
						}
					case 1:
						d = ref.Doc{{K: "s", V: ref.Val{T: ref.TString, S: s}}}
					case 2:
						d = ref.Doc{{K: s, V: ref.Val{T: ref.TBool, B: true}}}
					case 3:
						d = ref.Doc{{K: "b", V: ref.Val{T: ref.TBinary, Sub: 2, Bin: []byte(s)}}}
					case 4:
						d = ref.Doc{{K: "c", V: ref.Val{T: ref.TCodeScope, S: s, D: ref.Doc{{K: "z", V: ref.Val{T: ref.TNull}}}}}}
					case 5:
						var a ref.Doc
						for i := 0; i < n; i++ {
							a = append(a, ref.Elem{V: ref.Val{T: ref.TBool, B: i%2 == 0}})
						}
						d = ref.Doc{{K: "a", V: ref.Val{T: ref.TArray, D: a}}}
					}
					checkCodec(c, d)
				}},
			{Name: "encoders", Bounds: "every low-level encoder x scalar boundary value x with/without key x start 0..3 x buffer from 0 to exact+3 bytes", Rule: "buffer large enough",
				Run: func(c *engine.Chooser) {
					all := append(append([]ref.Val{}, sc...), containerReps()...)
					v := all[c.Choose(len(all))]
					withKey := c.Bool()
					start := c.Choose(4)
					w := v.EncodeValue()
					if withKey {
						w = ref.Elem{K: "ke", V: v}.EncodeElem()
					}
					sz := c.Choose(start + len(w) + 4)
					buf := bytes.Repeat([]byte{0xEE}, sz)
					c.State(fmt.Sprint(v, withKey, start, sz))
					c.Note("value %s key=%v start=%d buf=%d need=%d", v, withKey, start, sz, len(w))
					n, err := encodeVia(v, "ke", uint(start), buf, withKey)
					if n == -1 {
						return
					}
					c.Step()
					if sz >= start+len(w) {
						c.NonTrivial()
						if err != nil || n != len(w) || !bytes.Equal(buf[start:start+len(w)], w) {
							c.Fail("encoder: n=%d err=%v buf %x want %x", n, err, buf, w)
						}
						for i, x := range buf {
							if (i < start || i >= start+len(w)) && x != 0xEE {
								c.Fail("encoder wrote outside its range at %d: %x", i, buf)
							}
						}
					} else if err == nil {
						c.Fail("encoder reports success into a buffer of %d bytes, needs %d", sz, start+len(w))
					}
				}},
		}
		if tier == "thorough" {
			fams = append(fams, engine.Family{Name: "nested3", Bounds: "all one-element documents holding a tree of width<=2 and two further container levels, leaves {int32,string,null}", Rule: "at least one element", Split: 4,
				Run: func(c *engine.Chooser) {
					checkCodec(c, ref.Doc{{K: "a", V: genVal(c, small[:3], 2, 2, []string{"a", ""})}})
				}})
		}
		return fams
	},
}
