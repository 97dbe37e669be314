package props

import (
	"bytes"
	"fmt"
	"io"
	"runtime/debug"
	"syscall"

	"birchmc/bb"
	"birchmc/engine"
	"birchmc/ref"

	"github.com/tychoish/birch"
)

// roBytes places b in memory the process cannot write to: any write by the
// code under test faults.  The region ends at a page boundary, so reads past
// the end fault too.
func roBytes(b []byte) ([]byte, func()) {
	const page = 4096
	n := (len(b) + page - 1) / page * page
	if n == 0 {
		n = page
	}
	m, err := syscall.Mmap(-1, 0, n+page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	off := n - len(b)
	copy(m[off:], b)
	if err := syscall.Mprotect(m[:n], syscall.PROT_READ); err != nil {
		panic(err)
	}
	if err := syscall.Mprotect(m[n:], syscall.PROT_NONE); err != nil {
		panic(err)
	}
	return m[off:n:n], func() { _ = syscall.Munmap(m) }
}

type observer struct {
	name string
	run  func(d *birch.Document)
}

func eachValue(d *birch.Document, f func(v *birch.Value)) {
	for e := range d.Iterator() {
		f(e.Value())
	}
}

var observers = []observer{
	{"MarshalBSON", func(d *birch.Document) { _, _ = d.MarshalBSON() }},
	{"WriteTo", func(d *birch.Document) { _, _ = d.WriteTo(io.Discard) }},
	{"Validate", func(d *birch.Document) { _, _ = d.Validate() }},
	{"String", func(d *birch.Document) { _ = d.String() }},
	{"Map", func(d *birch.Document) { _ = d.Map() }},
	{"ExportMap", func(d *birch.Document) { _ = d.ExportMap() }},
	{"MarshalJSON", func(d *birch.Document) { _, _ = d.MarshalJSON() }},
	{"Lookup and Search", func(d *birch.Document) {
		_ = d.Lookup("k")
		_, _ = d.Search("k", "x")
		_, _ = d.Search("k", "0")
		_, _ = d.Search("r", "k")
	}},
	{"Sorted", func(d *birch.Document) { _ = d.Sorted() }},
	{"Copy then change", func(d *birch.Document) {
		c := d.Copy()
		c.Append(birch.EC.Int32("zz", 1))
		c.Delete("k")
		c.Set(birch.EC.String("r", "other"))
		c.Reset()
	}},
	{"typed access", func(d *birch.Document) {
		eachValue(d, func(v *birch.Value) { _, _ = bb.FromValue(v) })
	}},
	{"Interface and IsEmpty", func(d *birch.Document) {
		eachValue(d, func(v *birch.Value) { _ = v.Interface(); _ = v.IsEmpty(); _ = v.Validate() })
	}},
	{"Equal", func(d *birch.Document) {
		for e := range d.Iterator() {
			for f := range d.Iterator() {
				_ = e.Equal(f)
			}
		}
	}},
	{"element MarshalBSON", func(d *birch.Document) {
		for e := range d.Iterator() {
			b, _ := e.MarshalBSON()
			for i := range b {
				b[i] ^= 0xff
			}
			_ = e.String()
			_, _ = e.Validate()
		}
	}},
	{"scribble on encoded bytes", func(d *birch.Document) {
		b, _ := d.MarshalBSON()
		for i := range b {
			b[i] ^= 0xff
		}
		eachValue(d, func(v *birch.Value) {
			if _, data, ok := v.BinaryOK(); ok {
				for i := range data {
					data[i] ^= 0xff
				}
			}
		})
	}},
	{"element copy then change", func(d *birch.Document) {
		for e := range d.Iterator() {
			c := e.Copy()
			c.SetValue(birch.VC.Int32(9))
			c2 := e.Copy()
			c2.Value().Set(birch.VC.String("changed"))
			v := e.Value().Copy()
			v.Set(birch.VC.Boolean(true))
		}
	}},
	{"re-key", func(d *birch.Document) {
		for e := range d.Iterator() {
			_ = birch.EC.Value("new", e.Value())
		}
	}},
	{"Unmarshal into maps", func(d *birch.Document) {
		_ = d.Unmarshal(map[string]any{})
		_ = d.Unmarshal(map[string]string{})
		dm := birch.DocumentMap{}
		_ = dm.UnmarshalDocument(d)
		_, _ = dm.MarshalBSON()
		_, _ = dm.MarshalDocument()
	}},
	{"append to another", func(d *birch.Document) {
		o := birch.DC.New()
		o.Extend(d)
		_ = o.UnmarshalDocument(d)
		o.Delete("k")
		_, _ = o.MarshalBSON()
		a := birch.MakeArray(1).ExtendFromDocument(d)
		_, _ = a.MarshalBSON()
		a.Delete(0)
		o.Reset()
	}},
	{"readers", func(d *birch.Document) {
		eachValue(d, func(v *birch.Value) {
			if r, ok := v.ReaderDocumentOK(); ok {
				_, _ = r.Validate()
				_ = r.String()
				_, _ = birch.ReadDocument(r)
			}
			if r, ok := v.ReaderArrayOK(); ok {
				_, _ = r.Validate()
			}
			if _, r, ok := v.ReaderJavaScriptWithScopeOK(); ok {
				_, _ = r.Validate()
			}
		})
	}},
}

// C10: reading never changes data.
var C10 = &engine.Property{
	ID: "C10", Level: "model_checking",
	Assume: []string{"writes to a decoded document's source are detected by memory protection, so even a write of identical bytes is seen"},
	Families: func(tier string) []engine.Family {
		vals := append(append([]ref.Val{}, bb.Reps()...), containerReps()...)
		vals = append(vals,
			ref.Val{T: ref.TDoc, D: ref.Doc{{K: "x", V: ref.Val{T: ref.TCodeScope, S: "in", D: ref.Doc{{K: "y", V: i32(1)}}}}, {K: "z", V: ref.Val{T: ref.TArray, D: ref.Doc{{V: ref.Val{T: ref.TDoc, D: ref.Doc{{K: "q", V: str("d")}}}}}}}}},
			ref.Val{T: ref.TArray, D: ref.Doc{{V: ref.Val{T: ref.TCodeScope, S: "s", D: ref.Doc{}}}, {V: ref.Val{T: ref.TArray, D: ref.Doc{{V: i32(1)}}}}}},
		)
		depth := 2
		if tier == "thorough" {
			depth = 3
		}
		// names of the ways to get a document
		mk := func(how int, d ref.Doc, src []byte) (*birch.Document, error) {
			switch how {
			case 0:
				return bb.Doc(d), nil
			case 1:
				return birch.ReadDocument(src)
			case 2:
				x := birch.DC.New()
				return x, x.UnmarshalBSON(src)
			case 3:
				return birch.DCE.Reader(birch.Reader(src))
			case 4: // the document holds the bytes as a nested reader value
				return birch.DC.Elements(birch.EC.SubDocumentFromReader("r", birch.Reader(src))), nil
			}
			panic("mk")
		}
		return []engine.Family{
			{Name: "observers", Bounds: fmt.Sprintf("documents of one and two values of every type x 5 origins x all sequences of %d of %d observers; source bytes in write-protected memory", depth, len(observers)), Rule: "decoded document", Split: 2,
				Run: func(c *engine.Chooser) {
					vi := c.Choose(len(vals))
					how := c.Choose(5)
					d := ref.Doc{{K: "k", V: vals[vi]}, {K: "r", V: vals[(vi+7)%len(vals)]}}
					src, free := roBytes(d.Encode())
					defer free()
					debug.SetPanicOnFault(true)
					defer debug.SetPanicOnFault(false)
					bd, err := mk(how, d, src)
					if err != nil {
						c.Fail("decode: %v", err)
					}
					want := d
					if how == 4 {
						want = ref.Doc{{K: "r", V: ref.Val{T: ref.TDoc, D: d}}}
					}
					c.Note("doc %s origin %d", d, how)
					if how > 0 {
						c.NonTrivial()
					}
					seq := ""
					for i := 0; i < depth; i++ {
						o := c.Choose(len(observers))
						c.Note("observe %s", observers[o].name)
						seq += observers[o].name + ";"
						c.Step()
						observers[o].run(bd)
					}
					c.State(fmt.Sprint(vi, how, seq))
					b, err := bd.MarshalBSON()
					if err != nil || !bytes.Equal(b, want.Encode()) {
						c.Fail("after %s the document encodes as %x (%v), want %x", seq, b, err, want.Encode())
					}
					if got, err := bb.FromDoc(bd); err != nil || !got.Equal(want) {
						c.Fail("after %s the document reads as %s (%v)", seq, got, err)
					}
					if !bytes.Equal(src, d.Encode()) {
						c.Fail("the source bytes changed")
					}
				}},
			{Name: "reader-observers", Bounds: "documents of every type pair: every read-only view operation on write-protected bytes", Rule: "all",
				Run: func(c *engine.Chooser) {
					d := ref.Doc{{K: "k", V: vals[c.Choose(len(vals))]}, {K: "r", V: vals[c.Choose(len(vals))]}}
					src, free := roBytes(d.Encode())
					defer free()
					debug.SetPanicOnFault(true)
					defer debug.SetPanicOnFault(false)
					r := birch.Reader(src)
					c.StateB(src)
					c.Note("doc %s", d)
					c.Steps(6)
					c.NonTrivial()
					_, _ = r.Validate()
					_ = r.String()
					_, _ = r.MarshalBSON()
					_, _ = r.RecursiveLookup("k")
					_, _ = r.RecursiveLookup("k", "x")
					_, _ = r.RecursiveLookup("r", "0")
					var kept []*birch.Element
					for e, err := range r.Iterator() {
						if err != nil {
							c.Fail("iterate: %v", err)
						}
						kept = append(kept, e)
						_, _ = bb.FromValue(e.Value())
						_, _ = e.MarshalBSON()
						_ = birch.EC.Value("n", e.Value())
						_, _ = birch.DC.Elements(e).MarshalBSON()
						_, _ = birch.NewArray(e.Value()).MarshalBSON()
					}
					for i, e := range kept {
						if err := eqElem(e, d[i]); err != nil {
							c.Fail("what the iterator gave at %d, once it ended: %v", i, err)
						}
					}
					if len(kept) != len(d) {
						c.Fail("the iterator gave %d elements of %s", len(kept), d)
					}
					if !bytes.Equal(src, d.Encode()) {
						c.Fail("the source bytes changed")
					}
				}},
			{Name: "changes", Bounds: "documents of every type pair x 5 origins x 8 changes: only the changed element changes, and the source bytes stay intact", Rule: "decoded document",
				Run: func(c *engine.Chooser) {
					vi := c.Choose(len(vals))
					how := c.Choose(4)
					op := c.Choose(10)
					d := ref.Doc{{K: "k", V: vals[vi]}, {K: "r", V: vals[(vi+3)%len(vals)]}, {K: "t", V: str("tail")}}
					src, free := roBytes(d.Encode())
					defer free()
					debug.SetPanicOnFault(true)
					defer debug.SetPanicOnFault(false)
					bd, err := mk(how, d, src)
					if err != nil {
						c.Fail("decode: %v", err)
					}
					other, err := mk(how, d, src)
					if err != nil {
						c.Fail("decode: %v", err)
					}
					if how > 0 {
						c.NonTrivial()
					}
					m := append(ref.Doc{}, d...)
					c.State(fmt.Sprint(vi, how, op))
					c.Note("doc %s origin %d change %d", d, how, op)
					c.Step()
					v0 := bd.ElementAt(0).Value()
					switch op {
					case 0:
						bd.ElementAt(0).SetValue(birch.VC.String("a much longer string than before"))
						m[0].V = str("a much longer string than before")
					case 1:
						bd.ElementAt(1).SetValue(birch.VC.Null())
						m[1].V = ref.Val{T: ref.TNull}
					case 2:
						bd.Set(birch.EC.Int32("k", 5))
						m[0].V = i32(5)
					case 3:
						bd.Delete("r")
						m = append(m[:1], m[2])
					case 4, 5, 6:
						add := ref.Elem{K: "added", V: str("some more text")}
						switch vals[vi].T {
						case ref.TDoc:
							v0.MutableDocument().Append(bb.Elem(add.K, add.V))
						case ref.TArray:
							v0.MutableArray().Append(bb.Value(add.V))
						case ref.TCodeScope:
							_, sc := v0.MutableJavaScriptWithScope()
							sc.Append(bb.Elem(add.K, add.V))
						default:
							c.Skip()
						}
						m[0].V.D = append(append(ref.Doc{}, m[0].V.D...), add)
						if op == 5 {
							bd = bd.Copy()
						}
						if op == 6 {
							b, err := bd.ElementAt(0).MarshalBSON()
							if err != nil || !bytes.Equal(b, m[0].EncodeElem()) {
								c.Fail("changed element encodes as %x (%v), want %x", b, err, m[0].EncodeElem())
							}
						}
					case 7:
						bd.Append(birch.EC.Int64("new", 1))
						m = append(m, ref.Elem{K: "new", V: ref.Val{T: ref.TInt64, I: 1}})
					case 8:
						bd.Reset()
						m = ref.Doc{}
					case 9:
						bd.ElementAt(2).SetValue(v0)
						m[2].V = m[0].V
					}
					b, err := bd.MarshalBSON()
					if err != nil || !bytes.Equal(b, m.Encode()) {
						c.Fail("encodes as %x (%v), want %x", b, err, m.Encode())
					}
					if got, err := bb.FromDoc(bd); err != nil || !got.Equal(m) {
						c.Fail("reads as %s (%v), want %s", got, err, m)
					}
					b, err = other.MarshalBSON()
					if err != nil || !bytes.Equal(b, d.Encode()) {
						c.Fail("a second document decoded from the same bytes encodes as %x (%v), want %x", b, err, d.Encode())
					}
					if !bytes.Equal(src, d.Encode()) {
						c.Fail("the source bytes changed")
					}
				}},
			{Name: "copies", Bounds: "a document of 0, 1 or 3 elements x 3 origins (constructed, with spare capacity, decoded) and a document made from it in 5 ways (copy, copy of a copy, sorted, extended, decoded from its encoding): all sequences of 3 changes to either out of 9 (append, set first, set last, set new, delete first, delete last, reset, extend by the other, decode); both keep to the list model", Rule: "several elements", Split: 3,
				Run: func(c *engine.Chooser) {
					n := engine.Pick(c, []int{3, 1, 0})
					origin, way := c.Choose(3), c.Choose(5)
					model := ref.Doc{}
					for i := 0; i < n; i++ {
						model = append(model, ref.Elem{K: fmt.Sprint("k", i), V: i32(int64(i))})
					}
					var a, b *birch.Document
					switch origin {
					case 0:
						a = bb.Doc(model)
					case 1:
						a = birch.DC.Make(16)
						for _, e := range model {
							a.Append(bb.Elem(e.K, e.V))
						}
					default:
						var err error
						if a, err = birch.ReadDocument(model.Encode()); err != nil {
							c.Fail("decode: %v", err)
						}
					}
					switch way {
					case 0:
						b = a.Copy()
					case 1:
						b = a.Copy().Copy()
					case 2:
						b = a.Sorted()
					case 3:
						b = birch.DC.New().Extend(a)
					default:
						enc, err := a.MarshalBSON()
						if err != nil {
							c.Fail("encode: %v", err)
						}
						if b, err = birch.ReadDocument(enc); err != nil {
							c.Fail("decode: %v", err)
						}
					}
					if n > 1 {
						c.NonTrivial()
					}
					docs := []*birch.Document{a, b}
					models := []ref.Doc{model, append(ref.Doc{}, model...)}
					set := func(m ref.Doc, e ref.Elem) ref.Doc {
						for i := range m {
							if m[i].K == e.K {
								m[i] = e
								return m
							}
						}
						return append(m, e)
					}
					del := func(m ref.Doc, k string) ref.Doc {
						for i := range m {
							if m[i].K == k {
								return append(append(ref.Doc{}, m[:i]...), m[i+1:]...)
							}
						}
						return m
					}
					c.Note("%d elements, origin %d, made in way %d", n, origin, way)
					trace := fmt.Sprint(n, origin, way)
					for i := 0; i < 3; i++ {
						w, op := c.Choose(2), c.Choose(9)
						d, m := docs[w], models[w]
						e := ref.Elem{K: fmt.Sprint("n", i), V: str(fmt.Sprint("v", i))}
						trace += fmt.Sprintf("|%d.%d", w, op)
						c.Note("change %d of document %d (0 append, 1 set first, 2 set last, 3 set new, 4 delete first, 5 delete last, 6 reset, 7 extend by the other, 8 decode)", op, w)
						c.Step()
						switch op {
						case 0:
							d.Append(bb.Elem(e.K, e.V))
							m = append(m, e)
						case 1, 2:
							if len(m) == 0 {
								c.Skip()
							}
							e.K = m[0].K
							if op == 2 {
								e.K = m[len(m)-1].K
							}
							d.Set(bb.Elem(e.K, e.V))
							m = set(m, e)
						case 3:
							d.Set(bb.Elem(e.K, e.V))
							m = set(m, e)
						case 4, 5:
							if len(m) == 0 {
								c.Skip()
							}
							k := m[0].K
							if op == 5 {
								k = m[len(m)-1].K
							}
							d.Delete(k)
							m = del(m, k)
						case 6:
							d.Reset()
							m = ref.Doc{}
						case 7:
							d.Extend(docs[1-w])
							m = append(append(ref.Doc{}, m...), models[1-w]...)
						case 8:
							if err := d.UnmarshalBSON(ref.Doc{e}.Encode()); err != nil {
								c.Fail("decode: %v", err)
							}
							m = ref.Doc{e}
						}
						models[w] = m
					}
					c.State(trace)
					for w := range docs {
						got, err := docs[w].MarshalBSON()
						if err != nil || !bytes.Equal(got, models[w].Encode()) {
							c.Fail("document %d (0 the original, 1 the one made from it) encodes as % x (%v), want %s", w, got, err, models[w])
						}
					}
				}},
			{Name: "constructor-inputs", Bounds: "constructors given byte slices and slices of elements: changing the input afterwards does not change the document", Rule: "all",
				Run: func(c *engine.Chooser) {
					k := c.Choose(6)
					n := c.Choose(4)
					c.State(fmt.Sprint(k, n))
					c.Step()
					c.NonTrivial()
					in := bytes.Repeat([]byte{7}, n)
					var d *birch.Document
					var m ref.Doc
					switch k {
					case 0:
						d = birch.DC.Elements(birch.EC.Binary("b", in))
						m = ref.Doc{{K: "b", V: ref.Val{T: ref.TBinary, Bin: bytes.Repeat([]byte{7}, n)}}}
					case 1:
						d = birch.DC.Elements(birch.EC.BinaryWithSubtype("b", in, 2))
						m = ref.Doc{{K: "b", V: ref.Val{T: ref.TBinary, Sub: 2, Bin: bytes.Repeat([]byte{7}, n)}}}
					case 2:
						es := []*birch.Element{birch.EC.Int32("a", 1), birch.EC.Int32("b", int32(n))}
						d = birch.DC.Elements(es...)
						es[0] = birch.EC.Null("x")
						m = ref.Doc{{K: "a", V: i32(1)}, {K: "b", V: i32(int64(n))}}
					case 3:
						rd := birch.Reader(ref.Doc{{K: "a", V: i32(int64(n))}}.Encode())
						d = birch.DC.Elements(birch.EC.SubDocumentFromReader("s", rd))
						for i := range rd {
							rd[i] = 0xEE
						}
						m = ref.Doc{{K: "s", V: ref.Val{T: ref.TDoc, D: ref.Doc{{K: "a", V: i32(int64(n))}}}}}
					case 4:
						buf := ref.Doc{{K: "a", V: i32(int64(n))}}.Encode()
						rd := bytes.NewBuffer(buf)
						d = birch.DC.New()
						if _, err := d.ReadFrom(rd); err != nil {
							c.Fail("ReadFrom: %v", err)
						}
						for i := range buf {
							buf[i] = 0xEE
						}
						m = ref.Doc{{K: "a", V: i32(int64(n))}}
					case 5:
						vs := []*birch.Value{birch.VC.Int32(1), birch.VC.Int32(int32(n))}
						a := birch.NewArray(vs...)
						vs[0] = birch.VC.Null()
						d = birch.DC.Elements(birch.EC.Array("a", a))
						m = ref.Doc{{K: "a", V: ref.Val{T: ref.TArray, D: ref.Doc{{V: i32(1)}, {V: i32(int64(n))}}}}}
					}
					for i := range in {
						in[i] = 9
					}
					b, err := d.MarshalBSON()
					if err != nil || !bytes.Equal(b, m.Encode()) {
						c.Fail("after changing the input: %x (%v), want %x", b, err, m.Encode())
					}
				}},
		}
	},
}
