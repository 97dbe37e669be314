package props

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"birchmc/bb"
	"birchmc/engine"
	"birchmc/ref"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/bsonerr"
)

func observeArr(c *engine.Chooser, a *birch.Array, m ref.Doc, when string) {
	c.Step()
	want := m.EncodeArray()
	c.StateB(want)
	if a.Len() != len(m) {
		c.Fail("%s: Len %d, want %d", when, a.Len(), len(m))
	}
	for i := range m {
		v, err := a.Lookup(uint(i))
		if err != nil {
			c.Fail("%s: Lookup(%d): %v", when, i, err)
		}
		e, err := a.LookupElemdent(uint(i))
		if err != nil || e == nil || e.Value() != v {
			c.Fail("%s: element lookup at %d disagrees (%v)", when, i, err)
		}
		got, err := bb.FromValue(v)
		if err != nil || !got.Equal(m[i].V) {
			c.Fail("%s: index %d holds %s (%v), want %s", when, i, got, err, m[i].V)
		}
	}
	for _, i := range []uint{uint(len(m)), uint(len(m)) + 1, math.MaxInt32, math.MaxUint64} {
		if v, err := a.Lookup(i); err != bsonerr.OutOfBounds || v != nil {
			c.Fail("%s: Lookup(%d) = %v, %v", when, i, v, err)
		}
		if v, err := a.LookupElemdent(i); err != bsonerr.OutOfBounds || v != nil {
			c.Fail("%s: LookupElemdent(%d) = %v, %v", when, i, v, err)
		}
		if v := a.Delete(i); v != nil {
			c.Fail("%s: Delete(%d) = %v", when, i, v)
		}
		if panics(func() { a.Set(i, birch.VC.Null()) }) == nil {
			c.Fail("%s: Set(%d) out of range accepted", when, i)
		}
	}
	n := 0
	var kept []*birch.Value
	for v := range a.Iterator() {
		if n >= len(m) {
			c.Fail("%s: iterator yields too many", when)
		}
		kept = append(kept, v)
		got, err := bb.FromValue(v)
		if err != nil || !got.Equal(m[n].V) {
			c.Fail("%s: iterator position %d: %s %v", when, n, got, err)
		}
		n++
	}
	if n != len(m) {
		c.Fail("%s: iterator yields %d, want %d", when, n, len(m))
	}
	for i, v := range kept {
		if got, err := bb.FromValue(v); err != nil || !got.Equal(m[i].V) {
			c.Fail("%s: what the iterator gave at %d is %s once it ended: %v", when, i, got, err)
		}
	}
	nat := a.Interface()
	if len(nat) != len(m) {
		c.Fail("%s: Interface has %d, want %d", when, len(nat), len(m))
	}
	for i := range m {
		if !sameNative(nativeWant(m[i].V), nat[i]) {
			c.Fail("%s: Interface()[%d] = %#v", when, i, nat[i])
		}
	}
	b, err := a.MarshalBSON()
	if err != nil || !bytes.Equal(b, want) {
		c.Fail("%s: encodes as %x (%v), want %x", when, b, err, want)
	}
	if sz, err := a.Validate(); err != nil || int(sz) != len(want) {
		c.Fail("%s: Validate %d %v, want %d", when, sz, err, len(want))
	}
	db, err := birch.DC.Elements(birch.EC.Array("w", a)).MarshalBSON()
	wd := ref.Doc{{K: "w", V: ref.Val{T: ref.TArray, D: m}}}.Encode()
	if err != nil || !bytes.Equal(db, wd) {
		c.Fail("%s: as an element encodes as %x (%v), want %x", when, db, err, wd)
	}
	nb, err := birch.NewArray(birch.VC.Array(a)).MarshalBSON()
	wn := ref.Doc{{V: ref.Val{T: ref.TArray, D: m}}}.EncodeArray()
	if err != nil || !bytes.Equal(nb, wn) {
		c.Fail("%s: inside an array encodes as %x (%v), want %x", when, nb, err, wn)
	}
	r := birch.EC.Array("w", a).Value().ReaderArray()
	if !bytes.Equal(r, want) {
		c.Fail("%s: ReaderArray gives %x, want %x", when, []byte(r), want)
	}
	if s := a.String(); !strings.HasPrefix(s, "bson.Array[") {
		c.Fail("%s: String %q", when, s)
	}
	if !bytes.Equal(b, want) || !bytes.Equal(db, wd) {
		c.Fail("%s: bytes returned earlier changed", when)
	}
}

// C04: arrays.
var C04 = &engine.Property{
	ID: "C04", Level: "model_checking",
	Assume: []string{"elements beyond the pool behave like those in it"},
	Families: func(tier string) []engine.Family {
		depth := 4
		if tier == "thorough" {
			depth = 5
		}
		pool := []ref.Val{i32(1), str("x"), {T: ref.TDoc, D: ref.Doc{{K: "k", V: i32(2)}}}, {T: ref.TArray, D: ref.Doc{{V: i32(3)}, {V: str("y")}}}, {T: ref.TCodeScope, S: "c", D: ref.Doc{{K: "k", V: i32(2)}}}}
		ext := ref.Doc{{V: i32(5)}, {V: ref.Val{T: ref.TNull}}}
		extDoc := ref.Doc{{K: "long key name", V: str("from doc")}, {K: "", V: ref.Val{T: ref.TArray, D: ref.Doc{{V: i32(8)}}}}}
		const nops = 19
		return []engine.Family{
			{Name: "sequences", Bounds: fmt.Sprintf("all sequences of %d operations out of %d (append, set, delete, extend, extend from document, reset, re-decode, odd wire keys), all views after each", depth, nops), Rule: "not empty at the end", Split: 2,
				Run: func(c *engine.Chooser) {
					var a *birch.Array
					if c.Bool() {
						a = birch.NewArray()
					} else {
						a = birch.MakeArray(3)
					}
					m := ref.Doc{}
					clone := func() { m = append(ref.Doc{}, m...) }
					for s := 0; s < depth; s++ {
						op := c.Choose(nops)
						c.Note("op %d (len %d)", op, len(m))
						switch {
						case op < 5:
							if a.Append(bb.Value(pool[op])) != a {
								c.Fail("Append does not return its receiver")
							}
							m = append(m, ref.Elem{V: pool[op]})
						case op == 5:
							// a value that carries a key of its own
							a.Append(bb.Elem("carried", pool[0]).Value(), bb.Elem("other", pool[4]).Value())
							m = append(m, ref.Elem{V: pool[0]}, ref.Elem{V: pool[4]})
						case op < 9: // set first / middle / last
							if len(m) == 0 {
								c.Skip()
							}
							i := []int{0, len(m) / 2, len(m) - 1}[op-6]
							v := ref.Val{T: ref.TInt64, I: int64(s)}
							a.Set(uint(i), bb.Elem("kk", v).Value())
							clone()
							m[i].V = v
						case op < 12: // delete first / middle / last
							if len(m) == 0 {
								c.Skip()
							}
							i := []int{0, len(m) / 2, len(m) - 1}[op-9]
							got := a.Delete(uint(i))
							gv, err := bb.FromValue(got)
							if err != nil || !gv.Equal(m[i].V) {
								c.Fail("Delete(%d) returns %s (%v), want %s", i, gv, err, m[i].V)
							}
							m = append(append(ref.Doc{}, m[:i]...), m[i+1:]...)
						case op == 12:
							a.Extend(bb.Arr(ext))
							m = append(m, ext...)
						case op == 13:
							if len(m) > 8 {
								c.Skip()
							}
							a.Extend(a)
							m = append(m, append(ref.Doc{}, m...)...)
						case op == 14:
							a.ExtendFromDocument(bb.Doc(extDoc))
							m = append(m, extDoc...)
						case op == 15:
							a.Reset()
							m = ref.Doc{}
						case op == 16: // through the wire
							b, err := birch.DC.Elements(birch.EC.Array("w", a)).MarshalBSON()
							if err != nil {
								c.Fail("encode: %v", err)
							}
							d, err := birch.ReadDocument(b)
							if err != nil {
								c.Fail("decode: %v", err)
							}
							a = d.ElementAt(0).Value().MutableArray()
						case op == 17: // wire array whose keys are not indexes
							d, err := birch.ReadDocument(ref.Doc{{K: "w", V: ref.Val{T: ref.TDoc, D: extDoc}}}.Encode())
							if err != nil {
								c.Fail("decode: %v", err)
							}
							a.ExtendFromDocument(d.ElementAt(0).Value().MutableDocument())
							m = append(m, extDoc...)
						case op == 18:
							// values decoded from a larger buffer
							d, err := birch.ReadDocument(append(ref.Doc{{K: "first", V: pool[4]}, {K: "second", V: pool[3]}, {K: "third", V: str("tail")}}.Encode(), 9, 9))
							if err != nil {
								c.Fail("decode: %v", err)
							}
							for e := range d.Iterator() {
								a.Append(e.Value())
							}
							m = append(m, ref.Elem{V: pool[4]}, ref.Elem{V: pool[3]}, ref.Elem{V: str("tail")})
						}
						observeArr(c, a, m, fmt.Sprintf("after step %d", s+1))
					}
					if len(m) > 0 {
						c.NonTrivial()
					}
				}},
			{Name: "many", Bounds: "arrays of 17 to 1025 (thorough: 20000) values around powers of two and ten, built or decoded, x 6 changes at 5 places", Rule: "every case", Split: 2, Run: c04Many(tier == "thorough")},
			{Name: "sizes", Bounds: "arrays of every length 0..260 and around 1000, 10000; each followed by deletion at {0,9,10,99,100,last}", Rule: "length above 9 (two-digit keys)",
				Run: func(c *engine.Chooser) {
					ns := []int{}
					for i := 0; i <= 260; i++ {
						ns = append(ns, i)
					}
					ns = append(ns, 999, 1000, 1001, 1100)
					if tier == "thorough" {
						ns = append(ns, 9999, 10000, 10001, 10002)
					}
					n := ns[c.Choose(len(ns))]
					kind := c.Choose(2)
					m := ref.Doc{}
					for i := 0; i < n; i++ {
						v := i32(int64(i))
						if kind == 1 && i%3 == 0 {
							v = str(strings.Repeat("z", i%7))
						}
						m = append(m, ref.Elem{V: v})
					}
					a := bb.Arr(m)
					c.Note("n=%d kind=%d", n, kind)
					observeArr(c, a, m, "fresh")
					if n > 9 {
						c.NonTrivial()
					}
					dels := []int{0, 9, 10, 99, 100, n - 1}
					i := dels[c.Choose(len(dels))]
					if i >= 0 && i < n {
						a.Delete(uint(i))
						m = append(append(ref.Doc{}, m[:i]...), m[i+1:]...)
						observeArr(c, a, m, "after delete")
						a.Append(birch.VC.Null())
						m = append(m, ref.Elem{V: ref.Val{T: ref.TNull}})
						observeArr(c, a, m, "after append")
					}
				}},
			{Name: "wirekeys", Bounds: "decoded arrays whose wire keys are each of a pool of non-index keys, 1..3 elements: reading keeps the values, changing renumbers from zero", Rule: "a wire key differs from its index",
				Run: func(c *engine.Chooser) {
					pool := []string{"0", "1", "2", "", "x", "long key"}
					n := 1 + c.Choose(3)
					d := ref.Doc{}
					odd := false
					for i := 0; i < n; i++ {
						k := pool[c.Choose(len(pool))]
						odd = odd || k != fmt.Sprint(i)
						d = append(d, ref.Elem{K: k, V: i32(int64(10 + i))})
					}
					// hand-build the wire form: an array element with these keys
					inner := d.Encode()
					raw := append([]byte{0, 0, 0, 0, ref.TArray, 'w', 0}, inner...)
					raw = append(raw, 0)
					raw[0] = byte(len(raw))
					doc, err := birch.ReadDocument(raw)
					if err != nil {
						c.Fail("ReadDocument: %v", err)
					}
					c.Note("keys %s", d)
					if odd {
						c.NonTrivial()
					}
					a := doc.ElementAt(0).Value().MutableArray()
					observeArr(c, a, d, "decoded")
					a.Append(birch.VC.Int32(1))
					d = append(d, ref.Elem{V: i32(1)})
					observeArr(c, a, d, "after append")
					b, err := doc.MarshalBSON()
					if w := (ref.Doc{{K: "w", V: ref.Val{T: ref.TArray, D: d}}}).Encode(); err != nil || !bytes.Equal(b, w) {
						c.Fail("document with the changed array encodes as %x (%v), want %x", b, err, w)
					}
				}},
		}
	},
}
