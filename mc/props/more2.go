package props

import (
	"bytes"
	"fmt"
	"strconv"

	"birchmc/bb"
	"birchmc/engine"
	"birchmc/ref"

	"github.com/tychoish/birch"
)

// keptOps produce something from a document that the caller keeps.  Each
// returns a function that renders what was kept, to be compared later.
var keptOps = []struct {
	name string
	run  func(m ref.Doc, d *birch.Document) func() []byte
}{
	{"Document.MarshalBSON", func(m ref.Doc, d *birch.Document) func() []byte {
		b, _ := d.MarshalBSON()
		return func() []byte { return b }
	}},
	{"Array.MarshalBSON", func(m ref.Doc, d *birch.Document) func() []byte {
		b, _ := birch.MakeArray(d.Len()).ExtendFromDocument(d).MarshalBSON()
		return func() []byte { return b }
	}},
	{"Element.MarshalBSON", func(m ref.Doc, d *birch.Document) func() []byte {
		var bs [][]byte
		for e := range d.Iterator() {
			b, _ := e.MarshalBSON()
			bs = append(bs, b)
		}
		return func() []byte { return bytes.Join(bs, nil) }
	}},
	{"Document.MarshalJSON", func(m ref.Doc, d *birch.Document) func() []byte {
		b, _ := d.MarshalJSON()
		return func() []byte { return b }
	}},
	{"Array.MarshalJSON", func(m ref.Doc, d *birch.Document) func() []byte {
		b, _ := birch.MakeArray(d.Len()).ExtendFromDocument(d).MarshalJSON()
		return func() []byte { return b }
	}},
	{"Value.MarshalJSON", func(m ref.Doc, d *birch.Document) func() []byte {
		var bs [][]byte
		for e := range d.Iterator() {
			b, _ := e.Value().MarshalJSON()
			bs = append(bs, b)
		}
		return func() []byte { return bytes.Join(bs, nil) }
	}},
	{"Document.String", func(m ref.Doc, d *birch.Document) func() []byte {
		s := d.String()
		return func() []byte { return []byte(s) }
	}},
	{"Array.String", func(m ref.Doc, d *birch.Document) func() []byte {
		s := birch.MakeArray(d.Len()).ExtendFromDocument(d).String()
		return func() []byte { return []byte(s) }
	}},
	{"Document.ReadFrom", func(m ref.Doc, d *birch.Document) func() []byte {
		x := birch.DC.New()
		_, _ = x.ReadFrom(bytes.NewReader(m.Encode()))
		return func() []byte {
			got, err := bb.FromDoc(x)
			return []byte(fmt.Sprint(got, err))
		}
	}},
	{"DC.ReadFrom", func(m ref.Doc, d *birch.Document) func() []byte {
		x := birch.DC.ReadFrom(bytes.NewReader(m.Encode()))
		return func() []byte {
			got, err := bb.FromDoc(x)
			return []byte(fmt.Sprint(got, err))
		}
	}},
	{"NewFromIOReader", func(m ref.Doc, d *birch.Document) func() []byte {
		r, _ := birch.NewFromIOReader(bytes.NewReader(m.Encode()))
		return func() []byte { return r }
	}},
	{"WriteTo", func(m ref.Doc, d *birch.Document) func() []byte {
		w := &keepWriter{}
		_, _ = d.WriteTo(w)
		return func() []byte { return bytes.Join(w.bs, nil) }
	}},
	{"MarshalDocumentBSON", func(m ref.Doc, d *birch.Document) func() []byte {
		b, _ := birch.MarshalDocumentBSON(d)
		return func() []byte { return b }
	}},
	{"DocumentMap.MarshalBSON", func(m ref.Doc, d *birch.Document) func() []byte {
		var bs [][]byte
		for e := range d.Iterator() {
			dm := birch.DocumentMap{}
			_ = dm.UnmarshalDocument(birch.DC.Elements(e))
			b, _ := dm.MarshalBSON()
			bs = append(bs, b)
		}
		return func() []byte { return bytes.Join(bs, nil) }
	}},
	{"Value.Binary", func(m ref.Doc, d *birch.Document) func() []byte {
		raw, _ := d.MarshalBSON()
		x, err := birch.ReadDocument(raw)
		if err != nil {
			return func() []byte { return nil }
		}
		var bs [][]byte
		for e := range x.Iterator() {
			if _, b, ok := e.Value().BinaryOK(); ok {
				bs = append(bs, b)
			}
		}
		return func() []byte { return bytes.Join(bs, nil) }
	}},
	{"Interface", func(m ref.Doc, d *birch.Document) func() []byte {
		var vs []any
		for e := range d.Iterator() {
			vs = append(vs, e.Value().Interface())
		}
		return func() []byte { return []byte(fmt.Sprint(vs)) }
	}},
}

// keepWriter keeps a copy of everything written to it.
type keepWriter struct{ bs [][]byte }

func (w *keepWriter) Write(b []byte) (int, error) {
	w.bs = append(w.bs, append([]byte(nil), b...))
	return len(b), nil
}

func keptDocs() []ref.Doc {
	mk := func(n int, tag byte) ref.Doc {
		return ref.Doc{
			{K: "b", V: ref.Val{T: ref.TBinary, Bin: bytes.Repeat([]byte{tag}, n)}},
			{K: "s", V: str(string(bytes.Repeat([]byte{'a' + tag}, n)))},
			{K: "d", V: ref.Val{T: ref.TDoc, D: ref.Doc{{K: "x", V: i32(int64(tag))}}}},
			{K: "a", V: ref.Val{T: ref.TArray, D: ref.Doc{{K: "0", V: i32(int64(tag) + 1)}}}},
			{K: "c", V: ref.Val{T: ref.TCodeScope, S: "f", D: ref.Doc{{K: "y", V: i32(int64(tag) + 2)}}}},
		}
	}
	return []ref.Doc{mk(0, 1), mk(3, 2), mk(40, 3), mk(3000, 4), mk(40000, 5)}
}

// c10Kept makes one thing, then another one or two, and compares the first
// with what it was.
func c10Kept(c *engine.Chooser) {
	docs := keptDocs()
	i := c.Choose(len(keptOps))
	mi := docs[c.Choose(len(docs))]
	j := c.Choose(len(keptOps))
	mj := docs[c.Choose(len(docs))]
	decoded := c.Bool()
	c.Note("%s of %d bytes, then %s of %d bytes", keptOps[i].name, len(mi.Encode()), keptOps[j].name, len(mj.Encode()))
	c.State(fmt.Sprint(i, len(mi.Encode()), j, len(mj.Encode()), decoded))
	c.NonTrivial()
	mk := func(m ref.Doc) *birch.Document {
		if !decoded {
			return bb.Doc(m)
		}
		d, err := birch.ReadDocument(m.Encode())
		if err != nil {
			c.Fail("ReadDocument: %v", err)
		}
		return d
	}
	di, dj := mk(mi), mk(mj)
	kept := keptOps[i].run(mi, di)
	before := append([]byte(nil), kept()...)
	for n := 0; n < 3; n++ {
		c.Step()
		other := keptOps[j].run(mj, dj)
		if !bytes.Equal(kept(), before) {
			c.Fail("what %s returned changes when %s of another document is called", keptOps[i].name, keptOps[j].name)
		}
		ob := append([]byte(nil), other()...)
		again := keptOps[i].run(mi, di)
		if !bytes.Equal(again(), before) {
			c.Fail("%s gives something else after %s of another document", keptOps[i].name, keptOps[j].name)
		}
		if !bytes.Equal(other(), ob) || !bytes.Equal(kept(), before) {
			c.Fail("what %s or %s returned changes when %s is called again", keptOps[j].name, keptOps[i].name, keptOps[i].name)
		}
	}
	for k, m := range []ref.Doc{mi, mj} {
		if got, err := bb.FromDoc([]*birch.Document{di, dj}[k]); err != nil || !got.Equal(m) {
			c.Fail("document %d changed to %s (%v)", k, got, err)
		}
	}
}

// c03SortMany sorts documents long enough for any sorting method to show.
func c03SortMany(c *engine.Chooser) {
	n := engine.Pick(c, []int{2, 5, 11, 12, 13, 14, 16, 17, 24, 25, 32, 33, 40, 50, 64, 65, 100, 128, 129, 257, 1000})
	nk := engine.Pick(c, []int{1, 2, 3, 7, 1 << 30})
	vals := c.Choose(6)
	order := c.Choose(4)
	var d ref.Doc
	for i := 0; i < n; i++ {
		k := 0
		switch order {
		case 0:
			k = i
		case 1:
			k = n - i
		case 2:
			k = i * 7919 % 1009
		case 3:
			k = i / 3
		}
		var v ref.Val
		switch vals {
		case 0: // values of one type that have no order
			v = ref.Val{T: ref.TBinary, Bin: []byte{byte(i), byte(i >> 8)}}
		case 1:
			v = i32(int64(k % 5))
		case 2: // of the same type, and equal by turns
			v = ref.Val{T: ref.TDoc, D: ref.Doc{{K: "n", V: i32(int64(i))}}}
		case 3:
			v = []ref.Val{str("b"), i32(int64(i % 3)), {T: ref.TInt64, I: int64(i % 2)}, {T: ref.TSymbol, S: strconv.Itoa(i)}, {T: ref.TDouble, F: float64(i % 4)}}[i%5]
		case 4:
			v = ref.Val{T: ref.TSymbol, S: strconv.Itoa(i)}
		case 5:
			v = ref.Val{T: ref.TDate, I: int64(n - i)}
		}
		d = append(d, ref.Elem{K: "k" + strconv.Itoa(k%nk), V: v})
	}
	c.Note("n=%d keys=%d values=%d order=%d", n, nk, vals, order)
	c.StateB(d.Encode())
	c.Step()
	c.NonTrivial()
	w := refSorted(d)
	bd := bb.Doc(d)
	got, err := bb.FromDoc(bd.Sorted())
	if err != nil || !got.Equal(w) {
		c.Fail("Sorted of a document of %d elements is not the stable order: %s (%v)", n, got, err)
	}
	if got, err := bb.FromDoc(bd); err != nil || !got.Equal(d) {
		c.Fail("Sorted changed its receiver")
	}
}

// bigVals are values with one variable part of n bytes.
func bigVal(kind, n int) ref.Val {
	switch kind {
	case 0:
		return ref.Val{T: ref.TBinary, Bin: bigBytes(n)}
	case 1:
		return ref.Val{T: ref.TBinary, Sub: 2, Bin: bigBytes(n)}
	case 2:
		return str(bigString(n))
	case 3:
		return ref.Val{T: ref.TSymbol, S: bigString(n)}
	case 4:
		return ref.Val{T: ref.TJS, S: bigString(n)}
	case 5:
		return ref.Val{T: ref.TCodeScope, S: bigString(n), D: ref.Doc{{K: "x", V: i32(4)}}}
	case 6:
		return ref.Val{T: ref.TCodeScope, S: "f", D: bigDoc(5, n)}
	case 7:
		return ref.Val{T: ref.TRegex, S: bigString(n), S2: "i"}
	case 8:
		return ref.Val{T: ref.TDBPtr, S: bigString(n), OID: [12]byte{1, 2, 3}}
	case 9:
		return ref.Val{T: ref.TDoc, D: bigDoc(5, n)}
	}
	return bigDoc(4, n)[0].V
}

const bigValKinds = 11

func c02Large(lens []int) func(c *engine.Chooser) {
	return func(c *engine.Chooser) {
		v := bigVal(c.Choose(bigValKinds), engine.Pick(c, lens))
		f := c.Choose(len(formNames))
		x := form(f, v)
		c.Note("%s", formNames[f])
		c.StateHash(uint64(len(v.EncodeValue()))<<16 | uint64(v.T)<<8 | uint64(f))
		c.Steps(2)
		c.NonTrivial()
		if err := x.Validate(); err != nil {
			c.Fail("a value of %d bytes (%s) does not validate: %v", len(v.EncodeValue()), formNames[f], err)
		}
		got, err := bb.FromValue(x)
		if err != nil || got.T != v.T || !bytes.Equal(got.EncodeValue(), v.EncodeValue()) {
			c.Fail("a value of type %x and %d bytes (%s) is read back changed (%v)", v.T, len(v.EncodeValue()), formNames[f], err)
		}
		if i := x.Interface(); !sameNative(i, nativeWant(v)) {
			c.Fail("Interface of a value of type %x and %d bytes (%s) is not the value", v.T, len(v.EncodeValue()), formNames[f])
		}
	}
}

// mutateAt changes one byte of the variable part.
func mutateAt(v ref.Val, at float64) ref.Val {
	edit := func(s string) string {
		b := []byte(s)
		b[int(at*float64(len(b)-1))] ^= 1
		return string(b)
	}
	switch v.T {
	case ref.TBinary:
		v.Bin = []byte(edit(string(v.Bin)))
	case ref.TDoc, ref.TArray:
		v.D = append(ref.Doc{}, v.D...)
		i := int(at * float64(len(v.D)-1))
		v.D[i].V.I ^= 1
	case ref.TCodeScope:
		if len(v.S) > 1 {
			v.S = edit(v.S)
			break
		}
		v.D = append(ref.Doc{}, v.D...)
		i := int(at * float64(len(v.D)-1))
		v.D[i].V.I ^= 1
	default:
		v.S = edit(v.S)
	}
	return v
}

func c11Large(lens []int) func(c *engine.Chooser) {
	return func(c *engine.Chooser) {
		n := engine.Pick(c, lens)
		k := c.Choose(bigValKinds)
		a := bigVal(k, n)
		b := a
		what := c.Choose(6)
		switch what {
		case 1, 2, 3:
			b = mutateAt(a, float64(what-1)/2)
		case 4:
			b = bigVal(k, n+13)
		case 5:
			b = bigVal(k, n+256)
		}
		fa, fb := c.Choose(7), c.Choose(7)
		want := bytes.Equal(a.EncodeValue(), b.EncodeValue())
		c.Note("kind %d size %d change %d forms %d %d", k, n, what, fa, fb)
		c.StateHash(uint64(n)<<20 | uint64(k)<<12 | uint64(what)<<8 | uint64(fa*7+fb))
		c.Steps(3)
		if want {
			c.NonTrivial()
		}
		ea, eb := eqForm(fa, "k", a), eqForm(fb, "k", b)
		if g1, g2, g3 := ea.Value().Equal(eb.Value()), eb.Value().Equal(ea.Value()), ea.Equal(eb); g1 != want || g2 != want || g3 != want {
			c.Fail("values of kind %d of size %d, change %d (forms %d, %d): equal %v %v, elements %v, want %v", k, n, what, fa, fb, g1, g2, g3, want)
		}
	}
}

func more2Families(id, tier string) []engine.Family {
	lens := []int{127, 128, 255, 256, 1023, 4096, 32767, 65535, 65537}
	if tier == "thorough" {
		lens = bigLens
	}
	switch id {
	case "C02":
		return []engine.Family{{Name: "large", Bounds: fmt.Sprintf("values of 11 kinds with a variable part of each size of %v, obtained in each of 10 ways", lens), Rule: "always", Split: 2, Run: c02Large(lens)}}
	case "C03":
		return []engine.Family{{Name: "sorting-many", Bounds: "documents of 2 to 1000 elements (21 sizes) x 1, 2, 3, 7 or all distinct keys x 6 choices of values (ordered, unordered, mixed types) x 4 arrangements", Rule: "always", Split: 2, Run: c03SortMany}}
	case "C10":
		return []engine.Family{{Name: "kept-results", Bounds: fmt.Sprintf("%d operations that return bytes, text or documents, on documents of 5 sizes (constructed or decoded), each followed by every other one on every size, three times over: what was returned first stays as it was", len(keptOps)), Rule: "always", Split: 3, Run: c10Kept}}
	case "C11":
		return []engine.Family{{Name: "large", Bounds: fmt.Sprintf("values of 11 kinds and each size of %v against itself, a change at its start, middle or end, and two longer ones, in 7 x 7 representations", lens), Rule: "equal", Split: 3, Run: c11Large(lens)}}
	}
	return nil
}
