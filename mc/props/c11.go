package props

import (
	"bytes"
	"fmt"

	"birchmc/bb"
	"birchmc/engine"
	"birchmc/ref"

	"github.com/tychoish/birch"
)

func eqForm(i int, k string, v ref.Val) *birch.Element {
	switch i {
	case 0:
		return bb.Elem(k, v)
	case 1, 2: // decoded, at the end or before other data
		d := ref.Doc{{K: "pre", V: i32(1)}, {K: k, V: v}}
		if i == 2 {
			d = append(d, ref.Elem{K: "post", V: str("tail")})
		}
		x, err := birch.ReadDocument(append(d.Encode(), 0xAA, 0xBB))
		if err != nil {
			panic(err)
		}
		return x.ElementAt(1)
	case 3: // decoded and materialised
		e := eqForm(2, k, v)
		_ = e.Value().Interface()
		return e
	case 4:
		return birch.EC.Value(k, eqForm(2, "zz", v).Value())
	case 5:
		return eqForm(2, k, v).Copy()
	case 6:
		r := birch.Reader(ref.Doc{{K: k, V: v}, {K: "z", V: i32(0)}}.Encode())
		e, err := r.ElementAt(0)
		if err != nil {
			panic(err)
		}
		return e
	}
	panic("form")
}

// C11: equality.
var C11 = &engine.Property{
	ID: "C11", Level: "model_checking",
	Assume: []string{"content equality is byte equality of the reference encoding; an equivalence because it is equality of canonical forms"},
	Families: func(tier string) []engine.Family {
		vals := append(bb.Scalars(), containerReps()...)
		for _, v := range []ref.Val{
			{T: ref.TDoc, D: ref.Doc{{K: "x", V: ref.Val{T: ref.TInt64, I: 7}}}},
			{T: ref.TDoc, D: ref.Doc{{K: "y", V: i32(7)}}},
			{T: ref.TDoc, D: ref.Doc{{K: "x", V: i32(7)}, {K: "y", V: i32(8)}}},
			{T: ref.TDoc, D: ref.Doc{{K: "y", V: i32(8)}, {K: "x", V: i32(7)}}},
			{T: ref.TArray, D: ref.Doc{{V: i32(7)}, {V: i32(8)}}},
			{T: ref.TArray, D: ref.Doc{{V: i32(8)}, {V: i32(7)}}},
			{T: ref.TDoc, D: ref.Doc{{K: "0", V: i32(7)}}},
			{T: ref.TDoc, D: ref.Doc{{K: "a", V: ref.Val{T: ref.TArray, D: ref.Doc{{V: str("p")}}}}}},
			{T: ref.TDoc, D: ref.Doc{{K: "a", V: ref.Val{T: ref.TArray, D: ref.Doc{{V: str("q")}}}}}},
			{T: ref.TCodeScope, S: "c", D: ref.Doc{{K: "x", V: i32(7)}}},
			{T: ref.TCodeScope, S: "c", D: ref.Doc{{K: "x", V: i32(8)}}},
			{T: ref.TCodeScope, S: "d", D: ref.Doc{{K: "x", V: i32(7)}}},
			{T: ref.TJS, S: "a"}, {T: ref.TSymbol, S: "a"}, {T: ref.TRegex, S: "ab"}, {T: ref.TRegex, S: "a", S2: "b"},
			{T: ref.TDBPtr, S: "db.c", OID: [12]byte{1}},
			{T: ref.TString, S: "0123456789abcdef1"},
		} {
			vals = append(vals, v)
		}
		nf := 7
		return []engine.Family{
			{Name: "pairs", Bounds: fmt.Sprintf("all ordered pairs of %d values x 7 x 7 representations, Value.Equal both ways", len(vals)), Rule: "equal content in different representations", Split: 2,
				Run: func(c *engine.Chooser) {
					a := vals[c.Choose(len(vals))]
					b := vals[c.Choose(len(vals))]
					want := a.T == b.T && bytes.Equal(a.EncodeValue(), b.EncodeValue())
					c.State(a.String() + "|" + b.String())
					for fa := 0; fa < nf; fa++ {
						for fb := 0; fb < nf; fb++ {
							if tier != "thorough" && !want && fa != fb && fa+fb != 3 {
								continue
							}
							c.Steps(2)
							ea, eb := eqForm(fa, "k", a), eqForm(fb, "k", b)
							g1, g2 := ea.Value().Equal(eb.Value()), eb.Value().Equal(ea.Value())
							if g1 != want || g2 != want {
								c.Note("a=%s (form %d) b=%s (form %d)", a, fa, b, fb)
								c.Fail("Equal(%s form %d, %s form %d) = %v / %v, want %v", a, fa, b, fb, g1, g2, want)
							}
							if ea.Equal(eb) != want {
								c.Fail("Element.Equal(%s form %d, %s form %d) = %v, want %v", a, fa, b, fb, !want, want)
							}
							if want && fa != fb {
								c.NonTrivial()
							}
						}
					}
				}},
			{Name: "shared", Bounds: "all ordered pairs of 10 kinds of containers made from one of 4 documents (the same one, or a copy), before and after it changes", Rule: "all", Run: c11Shared},
			{Name: "keys", Bounds: "all pairs of keys of the key pool x each value x 7 x 7 representations, Element.Equal", Rule: "same value under different keys",
				Run: func(c *engine.Chooser) {
					v := vals[c.Choose(len(vals))]
					ka := keyPool[c.Choose(len(keyPool))]
					kb := keyPool[c.Choose(len(keyPool))]
					fa, fb := c.Choose(nf), c.Choose(nf)
					c.State(fmt.Sprint(v, ka, kb))
					c.Step()
					if ka != kb {
						c.NonTrivial()
					}
					got := eqForm(fa, ka, v).Equal(eqForm(fb, kb, v))
					if got != (ka == kb) {
						c.Fail("Element.Equal of %q and %q with %s = %v", ka, kb, v, got)
					}
				}},
			{Name: "reflexive", Bounds: "every value x 7 representations compared with itself, before and after encoding, and with nil", Rule: "all",
				Run: func(c *engine.Chooser) {
					v := vals[c.Choose(len(vals))]
					f := c.Choose(nf)
					c.State(fmt.Sprint(v, f))
					c.Steps(4)
					c.NonTrivial()
					e := eqForm(f, "k", v)
					if !e.Equal(e) || !e.Value().Equal(e.Value()) {
						c.Fail("%s is not equal to itself", v)
					}
					_, _ = e.MarshalBSON()
					if !e.Equal(eqForm(0, "k", v)) {
						c.Fail("%s differs after encoding", v)
					}
					if e.Equal(nil) || e.Value().Equal(nil) || (*birch.Element)(nil).Equal(e) || (*birch.Value)(nil).Equal(e.Value()) {
						c.Fail("%s equals nil", v)
					}
					if !(*birch.Element)(nil).Equal(nil) || !(*birch.Value)(nil).Equal(nil) {
						c.Fail("nil is not equal to nil")
					}
				}},
			{Name: "mutated", Bounds: "every container value: decoded, materialised and changed vs constructed with the change and vs the original", Rule: "all",
				Run: func(c *engine.Chooser) {
					cs := []ref.Val{}
					for _, v := range vals {
						if v.T == ref.TDoc || v.T == ref.TArray || v.T == ref.TCodeScope {
							cs = append(cs, v)
						}
					}
					v := cs[c.Choose(len(cs))]
					f := c.Choose(nf)
					if f == 5 || f == 6 {
						c.Skip()
					}
					c.State(fmt.Sprint(v, f))
					c.Step()
					c.NonTrivial()
					e := eqForm(f, "k", v)
					w := v
					w.D = append(append(ref.Doc{}, v.D...), ref.Elem{K: "added", V: i32(42)})
					switch v.T {
					case ref.TDoc:
						e.Value().MutableDocument().Append(birch.EC.Int32("added", 42))
					case ref.TArray:
						e.Value().MutableArray().Append(birch.VC.Int32(42))
					case ref.TCodeScope:
						_, d := e.Value().MutableJavaScriptWithScope()
						d.Append(birch.EC.Int32("added", 42))
					}
					for g := 0; g < nf; g++ {
						if !e.Equal(eqForm(g, "k", w)) || !eqForm(g, "k", w).Equal(e) {
							c.Fail("changed value of %s does not equal its content in form %d", v, g)
						}
						if e.Equal(eqForm(g, "k", v)) || eqForm(g, "k", v).Equal(e) {
							c.Fail("changed value of %s still equals the original in form %d", v, g)
						}
					}
				}},
		}
	},
}
