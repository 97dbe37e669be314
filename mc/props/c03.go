package props

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"birchmc/bb"
	"birchmc/engine"
	"birchmc/ref"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/bsonerr"
	"github.com/tychoish/birch/x/blist"
)

func i32(i int64) ref.Val  { return ref.Val{T: ref.TInt32, I: i} }
func str(s string) ref.Val { return ref.Val{T: ref.TString, S: s} }

func eqElem(e *birch.Element, w ref.Elem) error {
	if e == nil {
		return fmt.Errorf("nil element, want %q", w.K)
	}
	if e.Key() != w.K {
		return fmt.Errorf("key %q, want %q", e.Key(), w.K)
	}
	got, err := bb.FromValue(e.Value())
	if err != nil {
		return err
	}
	if !got.Equal(w.V) {
		return fmt.Errorf("%q holds %s, want %s", w.K, got, w.V)
	}
	return nil
}

func lookupRef(d ref.Doc, k string) int {
	for i := range d {
		if d[i].K == k {
			return i
		}
	}
	return -1
}

// refSearch is the documented nested search.
func refSearch(d ref.Doc, keys []string) (ref.Elem, bool) {
	i := lookupRef(d, keys[0])
	if i < 0 {
		return ref.Elem{}, false
	}
	return refDescend(d[i], keys[1:])
}

func refDescend(e ref.Elem, keys []string) (ref.Elem, bool) {
	if len(keys) == 0 {
		return e, true
	}
	switch e.V.T {
	case ref.TDoc:
		return refSearch(e.V.D, keys)
	case ref.TArray:
		i, err := strconv.Atoi(keys[0])
		if err != nil || i < 0 || i >= len(e.V.D) {
			return ref.Elem{}, false
		}
		return refDescend(ref.Elem{K: keys[0], V: e.V.D[i].V}, keys[1:])
	}
	return ref.Elem{}, false
}

func valLess(a, b ref.Val) bool {
	switch a.T {
	case ref.TDouble:
		return a.F < b.F
	case ref.TString:
		return a.S < b.S
	case ref.TOID:
		return bytes.Compare(a.OID[:], b.OID[:]) < 0
	case ref.TDate, ref.TInt32, ref.TInt64:
		return a.I < b.I
	}
	return false
}

// sortVals are the boundary values of the types that have an order.
func sortVals() (out []ref.Val) {
	for _, n := range []int64{math.MinInt64, math.MinInt64 + 1, -1 << 53, -1, 0, 1, 1<<53 + 1, 1 << 62, math.MaxInt64 - 1, math.MaxInt64} {
		out = append(out, ref.Val{T: ref.TInt64, I: n}, ref.Val{T: ref.TDate, I: n})
	}
	for _, n := range []int64{math.MinInt32, math.MinInt32 + 1, -1, 0, 1, math.MaxInt32} {
		out = append(out, i32(n))
	}
	for _, f := range []float64{math.Inf(-1), -math.MaxFloat64, -1, math.Copysign(0, -1), 0, math.SmallestNonzeroFloat64, 0.1, 0.25, 1, math.Inf(1)} {
		out = append(out, ref.Val{T: ref.TDouble, F: f})
	}
	for _, k := range oddKeys {
		out = append(out, str(k))
	}
	for i := 0; i < 12; i += 11 {
		for _, b := range []byte{1, 0x7f, 0x80, 0xff} {
			v := ref.Val{T: ref.TOID, OID: [12]byte{5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5}}
			v.OID[i] = b
			out = append(out, v)
		}
	}
	return out
}

var oddKeys = []string{"a", "a.b", "b", "A", "", "0", "00", " a", "a ", "$a", "ab", "a.b.c", "\u00e9", "e\u0301"}

func refSorted(d ref.Doc) ref.Doc {
	out := append(ref.Doc{}, d...)
	sort.SliceStable(out, func(i, j int) bool {
		if out[i].K != out[j].K {
			return out[i].K < out[j].K
		}
		if out[i].V.T != out[j].V.T {
			return out[i].V.T < out[j].V.T
		}
		return valLess(out[i].V, out[j].V)
	})
	return out
}

// observeDoc compares every view of d with the model.
func observeDoc(c *engine.Chooser, d *birch.Document, m ref.Doc, keys []string, when string) {
	c.StateB(m.Encode())
	c.Step()
	if d.Len() != len(m) {
		c.Fail("%s: Len %d, model %s", when, d.Len(), m)
	}
	i := 0
	var kept []*birch.Element
	for e := range d.Iterator() {
		if i >= len(m) {
			c.Fail("%s: iterator yields too many elements", when)
		}
		kept = append(kept, e)
		if err := eqElem(e, m[i]); err != nil {
			c.Fail("%s: iterator position %d: %v", when, i, err)
		}
		i++
	}
	if i != len(m) {
		c.Fail("%s: iterator yields %d elements, want %d", when, i, len(m))
	}
	for i, e := range kept {
		if err := eqElem(e, m[i]); err != nil {
			c.Fail("%s: what the iterator gave at %d, once it ended: %v", when, i, err)
		}
	}
	for range d.Iterator() {
		break
	}
	els := d.Elements()
	if len(els) != len(m) {
		c.Fail("%s: Elements() has %d, want %d", when, len(els), len(m))
	}
	for i := range m {
		e := d.ElementAt(uint(i))
		e2, ok := d.ElementAtOK(uint(i))
		if !ok || e != e2 || els[i] != e {
			c.Fail("%s: positional accessors disagree at %d", when, i)
		}
		if err := eqElem(e, m[i]); err != nil {
			c.Fail("%s: ElementAt(%d): %v", when, i, err)
		}
	}
	for _, i := range []uint{uint(len(m)), uint(len(m)) + 1, math.MaxUint32, math.MaxUint64} {
		if e, ok := d.ElementAtOK(i); ok || e != nil {
			c.Fail("%s: ElementAtOK(%d) served", when, i)
		}
	}
	mp := d.Map()
	uniq := 0
	for _, k := range keys {
		j := lookupRef(m, k)
		e := d.LookupElement(k)
		v := d.Lookup(k)
		ee, err1 := d.LookupElementErr(k)
		vv, err2 := d.LookupErr(k)
		s, err3 := d.Search(k)
		me, inMap := mp[k]
		if j < 0 {
			if e != nil || v != nil || ee != nil || vv != nil || s != nil || inMap {
				c.Fail("%s: absent key %q found (LookupElement %v Lookup %v Err %v %v Search %v Map %v)", when, k, e, v, ee, vv, s, inMap)
			}
			for _, err := range []error{err1, err2, err3} {
				if err != bsonerr.ElementNotFound {
					c.Fail("%s: absent key %q gives error %v", when, k, err)
				}
			}
			continue
		}
		uniq++
		if err1 != nil || err2 != nil || err3 != nil {
			c.Fail("%s: present key %q gives errors %v %v %v", when, k, err1, err2, err3)
		}
		if v == nil || vv == nil {
			c.Fail("%s: Lookup of present key %q is nil", when, k)
		}
		for name, x := range map[string]*birch.Element{"LookupElement": e, "LookupElementErr": ee, "Search": s, "Map": me} {
			if x == nil {
				c.Fail("%s: %s misses key %q", when, name, k)
			}
			if err := eqElem(x, m[j]); err != nil {
				c.Fail("%s: %s of duplicate-or-single key: %v", when, name, err)
			}
		}
		if g, err := bb.FromValue(v); err != nil || !g.Equal(m[j].V) {
			c.Fail("%s: Lookup(%q) %s %v", when, k, g, err)
		}
		if g, err := bb.FromValue(vv); err != nil || !g.Equal(m[j].V) {
			c.Fail("%s: LookupErr(%q) %s %v", when, k, g, err)
		}
	}
	if len(mp) != uniq {
		c.Fail("%s: Map has %d keys, model %d (%s)", when, len(mp), uniq, m)
	}
	for k := range mp { // the returned map belongs to the caller
		delete(mp, k)
	}
	mp["zz"] = nil
	if len(d.Map()) != uniq {
		c.Fail("%s: changing the returned map changed the document's view", when)
	}
	ex := d.ExportMap()
	if len(ex) != uniq {
		c.Fail("%s: ExportMap has %d keys, want %d", when, len(ex), uniq)
	}
	b, err := d.MarshalBSON()
	if err != nil || !bytes.Equal(b, m.Encode()) {
		c.Fail("%s: encodes as %x (err %v), model %x", when, b, err, m.Encode())
	}
	if n, err := d.Validate(); err != nil || int(n) != len(b) {
		c.Fail("%s: Validate %d %v", when, n, err)
	}
	st, err := bb.FromDoc(d.Sorted())
	if err != nil || !st.Equal(refSorted(m)) {
		c.Fail("%s: Sorted gives %s (err %v), want %s", when, st, err, refSorted(m))
	}
	if s := d.String(); !strings.HasPrefix(s, "bson.Document{") {
		c.Fail("%s: String %q", when, s)
	}
	dm := birch.DocumentMap{}
	if err := dm.UnmarshalDocument(d); err != nil || len(dm) != uniq {
		c.Fail("%s: DocumentMap.UnmarshalDocument: %v, %d keys", when, err, len(dm))
	}
	db := birch.DocumentMap{}
	if err := db.UnmarshalBSON(b); err != nil || len(db) != uniq {
		c.Fail("%s: DocumentMap.UnmarshalBSON: %v, %d keys", when, err, len(db))
	}
	md, err := dm.MarshalDocument()
	if err != nil || md.Len() != uniq {
		c.Fail("%s: DocumentMap.MarshalDocument: %v", when, err)
	}
	for e := range md.Iterator() {
		j := -1
		for i := range m { // last wins in a map built by assignment
			if m[i].K == e.Key() {
				j = i
			}
		}
		if j < 0 {
			c.Fail("%s: DocumentMap invents key %q", when, e.Key())
		}
		if err := eqElem(e, m[j]); err != nil {
			c.Fail("%s: DocumentMap: %v", when, err)
		}
	}
}

// C03: ordered map.
var C03 = &engine.Property{
	ID: "C03", Level: "model_checking",
	Assume: []string{"keys and values beyond the pools behave like those in them (the code compares keys and moves pointers only)"},
	Families: func(tier string) []engine.Family {
		depth := 4
		if tier == "thorough" {
			depth = 5
		}
		keys := []string{"a", "b", "", "zz"}
		elems := []ref.Elem{{K: "a", V: i32(1)}, {K: "a", V: str("x")}, {K: "b", V: i32(0)}, {K: "", V: ref.Val{T: ref.TNull}}}
		ext := ref.Doc{{K: "b", V: i32(7)}, {K: "a", V: ref.Val{T: ref.TDoc, D: ref.Doc{{K: "n", V: i32(3)}}}}}
		opNames := []string{}
		for _, e := range elems {
			opNames = append(opNames, "Append "+ref.Doc{e}.String())
		}
		for _, e := range elems {
			opNames = append(opNames, "Set "+ref.Doc{e}.String())
		}
		opNames = append(opNames, "Delete a", "Delete b", "Delete ''", "AppendOmitEmpty a,b(0),empty", "Extend(ext)", "Extend(self)", "Reset", "UnmarshalBSON(ext)", "ReadFrom(ext)", "UnmarshalDocument(ext)", "SetValue first", "SetValue last", "replace by Copy", "replace by Sorted", "replace by decode(encode)")
		build := func(c *engine.Chooser, observeEach bool, depth int) {
			d := birch.DC.New()
			var m ref.Doc
			type snap struct {
				d *birch.Document
				m ref.Doc
			}
			var olds []snap
			n := depth
			for s := 0; s < n; s++ {
				op := c.Choose(len(opNames))
				c.Note("op %s", opNames[op])
				switch {
				case op < 4:
					e := elems[op]
					if d.Append(bb.Elem(e.K, e.V)) != d {
						c.Fail("Append does not return its receiver")
					}
					m = append(m, e)
				case op < 8:
					e := elems[op-4]
					d.Set(bb.Elem(e.K, e.V))
					if j := lookupRef(m, e.K); j >= 0 {
						m = append(ref.Doc{}, m...)
						m[j] = e
					} else {
						m = append(m, e)
					}
				case op < 11:
					k := []string{"a", "b", ""}[op-8]
					got := d.Delete(k)
					j := lookupRef(m, k)
					if j < 0 {
						if got != nil {
							c.Fail("Delete of an absent key returns %v", got)
						}
						break
					}
					if err := eqElem(got, m[j]); err != nil {
						c.Fail("Delete returns the wrong element: %v", err)
					}
					m = append(append(ref.Doc{}, m[:j]...), m[j+1:]...)
				case op == 11:
					d.AppendOmitEmpty(bb.Elem("a", i32(2)), nil, bb.Elem("b", i32(0)), bb.Elem("b", str("")))
					m = append(m, ref.Elem{K: "a", V: i32(2)})
				case op == 12:
					d.Extend(bb.Doc(ext))
					m = append(m, ext...)
				case op == 13:
					if len(m) > 8 {
						c.Skip()
					}
					d.Extend(d)
					m = append(m, append(ref.Doc{}, m...)...)
				case op == 14:
					d.Reset()
					m = nil
				case op == 15:
					if err := d.UnmarshalBSON(ext.Encode()); err != nil {
						c.Fail("UnmarshalBSON: %v", err)
					}
					m = append(ref.Doc{}, ext...)
				case op == 16:
					if n, err := d.ReadFrom(bytes.NewReader(append(ext.Encode(), 1, 2, 3))); err != nil || int(n) != len(ext.Encode()) {
						c.Fail("ReadFrom: %v", err)
					}
					m = append(ref.Doc{}, ext...)
				case op == 17:
					if err := d.UnmarshalDocument(bb.Doc(ext)); err != nil {
						c.Fail("UnmarshalDocument: %v", err)
					}
					m = append(m, ext...)
				case op == 18 || op == 19:
					if len(m) == 0 {
						c.Skip()
					}
					j := 0
					if op == 19 {
						j = len(m) - 1
					}
					// elements may be shared between positions and snapshots;
					// then change a private copy
					e := d.ElementAt(uint(j))
					uses := 0
					for _, x := range d.Elements() {
						if x == e {
							uses++
						}
					}
					for _, o := range olds {
						for _, x := range o.d.Elements() {
							if x == e {
								uses++
							}
						}
					}
					nv := ref.Val{T: ref.TInt64, I: int64(100 + s)}
					if uses > 1 {
						e = e.Copy()
					}
					e.SetValue(bb.Value(nv))
					if e.Key() != m[j].K {
						c.Fail("SetValue changed the key from %q to %q", m[j].K, e.Key())
					}
					if uses > 1 {
						d.Elements()[j] = e
						d = birch.DC.Elements(d.Elements()...)
					}
					m = append(ref.Doc{}, m...)
					m[j].V = nv
				case op == 20:
					olds = append(olds, snap{d, append(ref.Doc{}, m...)})
					d = d.Copy()
				case op == 21:
					olds = append(olds, snap{d, append(ref.Doc{}, m...)})
					d = d.Sorted()
					m = refSorted(m)
				case op == 22:
					b, err := d.MarshalBSON()
					if err != nil {
						c.Fail("MarshalBSON: %v", err)
					}
					d, err = birch.ReadDocument(b)
					if err != nil {
						c.Fail("ReadDocument: %v", err)
					}
				}
				if observeEach {
					observeDoc(c, d, m, keys, fmt.Sprintf("after step %d", s+1))
				}
			}
			if !observeEach {
				observeDoc(c, d, m, keys, "at the end")
			}
			// documents that were copied from have not changed
			for i, o := range olds {
				observeDoc(c, o.d, o.m, keys, fmt.Sprintf("original of copy %d", i))
			}
			if len(m) > 0 {
				c.NonTrivial()
			}
		}
		nestLeaves := []ref.Val{i32(1), str("s")}
		return []engine.Family{
			{Name: "sequences", Bounds: fmt.Sprintf("all sequences of %d operations out of %d (append, set, delete, extend, reset, decode, read, set value, copy, sort, re-decode), every view checked after every operation", depth, len(opNames)), Rule: "final document not empty", Split: 2,
				Run: func(c *engine.Chooser) { build(c, true, depth) }},
			{Name: "sequences-unobserved", Bounds: "all sequences of 3 operations, views checked only at the end", Rule: "final document not empty", Split: 2,
				Run: func(c *engine.Chooser) { build(c, false, 3) }},
			{Name: "many", Bounds: "documents of 17 to 1025 (thorough: 20000) elements around powers of two and ten, appended, decoded or joined, x 11 changes at 5 places, every view compared before and after", Rule: "every case", Split: 2, Run: c03Many(tier == "thorough")},
			{Name: "linked-many", Bounds: "the same sizes, the linked document x 5 changes at 5 places", Rule: "every case", Split: 2, Run: c03LinkedMany},
			{Name: "capacity", Bounds: "documents grown to every size 0..140 by append or decode (crossing the preallocated capacity), then each single deletion position in steps and set of each", Rule: "size above 0",
				Run: func(c *engine.Chooser) {
					n := c.Choose(141)
					how := c.Choose(3)
					del := 0
					if n > 0 {
						del = []int{0, n / 2, n - 1}[c.Choose(3)]
					}
					var m ref.Doc
					for i := 0; i < n; i++ {
						m = append(m, ref.Elem{K: "k" + strconv.Itoa(i), V: i32(int64(i))})
					}
					var d *birch.Document
					var err error
					switch how {
					case 0:
						d = bb.Doc(m)
					case 1:
						d, err = birch.ReadDocument(m.Encode())
					case 2:
						d = birch.DC.Make(n / 2)
						_, err = d.ReadFrom(bytes.NewReader(m.Encode()))
					}
					if err != nil {
						c.Fail("decode: %v", err)
					}
					c.Note("n=%d how=%d del=%d", n, how, del)
					keys := []string{"k0", "k" + strconv.Itoa(del), "k" + strconv.Itoa(n-1), "absent"}
					_ = keys
					cp := d.Copy()
					if n > 0 {
						c.NonTrivial()
						e := d.Delete(m[del].K)
						if err := eqElem(e, m[del]); err != nil {
							c.Fail("Delete: %v", err)
						}
						m2 := append(append(ref.Doc{}, m[:del]...), m[del+1:]...)
						d.Append(birch.EC.Int32("new", 1))
						m2 = append(m2, ref.Elem{K: "new", V: i32(1)})
						if got, err := bb.FromDoc(d); err != nil || !got.Equal(m2) {
							c.Fail("after delete and append: %s", got)
						}
						c.StateB(m2.Encode())
					}
					if got, err := bb.FromDoc(cp); err != nil || !got.Equal(m) {
						c.Fail("the copy changed: %s", got)
					}
					c.Step()
				}},
			{Name: "map-keys", Bounds: "document maps of up to 3 entries over keys {a,b,''}, each holding an element of one of those keys (valid, nested or malformed) constructed or decoded; then a document of up to 2 elements read into the map", Rule: "map accepted and not empty",
				Run: func(c *engine.Chooser) {
					ks := []string{"a", "b", ""}
					dm := birch.DocumentMap{}
					want := map[string]ref.Elem{}
					bad := false
					for i, k := range ks {
						h := c.Choose(6)
						if h == 0 {
							continue
						}
						e := ref.Elem{K: ks[(h-1)%3], V: ref.Val{T: ref.TDoc, D: ref.Doc{{K: "n", V: i32(int64(i))}}}}
						if h >= 4 {
							e = ref.Elem{K: ks[[]int{i, (i + 1) % 3}[h-4]], V: i32(int64(i))}
						}
						bad = bad || e.K != k
						dm[k] = bb.Elem(e.K, e.V)
						if h%2 == 1 {
							d, err := birch.ReadDocument(ref.Doc{e}.Encode())
							if err != nil {
								c.Fail("ReadDocument: %v", err)
							}
							dm[k] = d.ElementAt(0)
						}
						want[k] = e
						c.Note("%q: %s", k, ref.Doc{e})
					}
					c.Step()
					c.State(fmt.Sprint(want))
					verr := dm.Validate()
					_, berr := dm.MarshalBSON()
					d, err := dm.MarshalDocument()
					if (verr != nil) != bad || (err != nil) != bad || (berr != nil) != bad {
						c.Fail("a map with mismatched keys (%v): Validate %v, MarshalDocument %v, MarshalBSON %v", bad, verr, err, berr)
					}
					if bad {
						return
					}
					same := func(d *birch.Document) {
						if d.Len() != len(want) {
							c.Fail("the map's document is %s, want %v", d, want)
						}
						for e := range d.Iterator() {
							if err := eqElem(e, want[e.Key()]); err != nil {
								c.Fail("the map's document: %v", err)
							}
						}
					}
					same(d)
					in := ref.Doc{}
					for i := c.Choose(3); i > 0; i-- {
						in = append(in, ref.Elem{K: ks[c.Choose(3)], V: i32(int64(10 + i))})
					}
					if c.Bool() {
						err = dm.UnmarshalDocument(bb.Doc(in))
					} else {
						err = dm.UnmarshalBSON(in.Encode())
					}
					if err != nil {
						c.Fail("reading %s into a map: %v", in, err)
					}
					for _, e := range in {
						want[e.K] = e
					}
					b, err := dm.MarshalBSON()
					if err != nil {
						c.Fail("MarshalBSON: %v", err)
					}
					if d, err = birch.ReadDocument(b); err != nil {
						c.Fail("MarshalBSON gives % x: %v", b, err)
					}
					same(d)
					if len(want) > 0 {
						c.NonTrivial()
					}
				}},
			{Name: "search", Bounds: "all documents of width<=2 and one nested level (documents, arrays, code with scope), keys {a,0}; all paths of 1..3 steps over {a,0,1,x}; on constructed and decoded documents and on the read-only view", Rule: "path found", Split: 3,
				Run: func(c *engine.Chooser) {
					top := genVal(c, nestLeaves, 1, 2, []string{"a", "0"})
					second := genVal(c, nestLeaves[:1], 1, 1, []string{"a", "0"})
					d := ref.Doc{{K: []string{"a", "0"}[c.Choose(2)], V: top}, {K: "a", V: second}}
					bd := bb.Doc(d)
					dd, err := birch.ReadDocument(d.Encode())
					if err != nil {
						c.Fail("ReadDocument: %v", err)
					}
					r := birch.Reader(d.Encode())
					c.StateB(d.Encode())
					c.Note("doc %s", d)
					steps := []string{"a", "0", "1", "x"}
					var walk func(p []string)
					walk = func(p []string) {
						if len(p) > 0 {
							c.Step()
							want, found := refSearch(d, p)
							for i, x := range []*birch.Document{bd, dd} {
								e, err := x.Search(p...)
								if found {
									c.NonTrivial()
									if err != nil || e == nil {
										c.Fail("Search%v (doc %d): %v", p, i, err)
									}
									if err := eqElem(e, want); err != nil {
										c.Fail("Search%v (doc %d): %v", p, i, err)
									}
								} else if err == nil || e != nil {
									c.Fail("Search%v (doc %d) finds %v, model has nothing", p, i, e)
								}
							}
							e, err := r.RecursiveLookup(p...)
							if found {
								if err != nil || e == nil {
									c.Fail("RecursiveLookup%v: %v", p, err)
								}
								if err := eqElem(e, want); err != nil {
									c.Fail("RecursiveLookup%v: %v", p, err)
								}
							} else if err == nil {
								c.Fail("RecursiveLookup%v finds %v", p, e)
							}
						}
						if len(p) < 3 {
							for _, s := range steps {
								walk(append(append([]string{}, p...), s))
							}
						}
					}
					walk(nil)
					for i := 0; i < len(d)+2; i++ {
						e, err := r.ElementAt(uint(i))
						if i < len(d) {
							if err != nil {
								c.Fail("Reader.ElementAt(%d): %v", i, err)
							}
							if err := eqElem(e, d[i]); err != nil {
								c.Fail("Reader.ElementAt(%d): %v", i, err)
							}
						} else if err == nil || e != nil {
							c.Fail("Reader.ElementAt(%d) out of range is served", i)
						}
					}
				}},
			{Name: "deep-search", Bounds: "every chain of 1..4 nested containers (document, array, code scope) with the target at the first or second position of each, duplicate sibling or not; the true path, all its prefixes, every single step replaced by each of {a,b,0,1,2,x,\"\",-1}, and extensions by one step; constructed and decoded documents and the read-only view", Rule: "true path found", Split: 3,
				Run: func(c *engine.Chooser) {
					depth := 1 + c.Choose(4)
					kinds := make([]int, depth)
					pos := make([]int, depth)
					for i := range kinds {
						kinds[i] = c.Choose(3)
						pos[i] = c.Choose(2)
					}
					sib := c.Choose(3) // what stands beside the target: a scalar, an empty document, an array
					cur := i32(77)
					var path []string
					scoped := false
					for i := depth - 1; i >= 0; i-- {
						var other ref.Val
						switch sib {
						case 0:
							other = str("z")
						case 1:
							other = ref.Val{T: ref.TDoc}
						default:
							other = ref.Val{T: ref.TArray, D: ref.Doc{{K: "0", V: i32(5)}}}
						}
						keys := []string{"b", "a"}
						if kinds[i] == 1 {
							keys = []string{"0", "1"}
						}
						body := ref.Doc{{K: keys[0], V: other}, {K: keys[1], V: other}}
						body[pos[i]].V = cur
						path = append([]string{keys[pos[i]]}, path...)
						switch kinds[i] {
						case 0:
							cur = ref.Val{T: ref.TDoc, D: body}
						case 1:
							cur = ref.Val{T: ref.TArray, D: body}
						default:
							cur = ref.Val{T: ref.TCodeScope, S: "f", D: body}
							scoped = true
						}
					}
					d := ref.Doc{{K: "x", V: i32(1)}, {K: "t", V: cur}}
					path = append([]string{"t"}, path...)
					c.StateB(d.Encode())
					c.Note("doc %s path %v", d, path)
					bd := bb.Doc(d)
					dd, err := birch.ReadDocument(d.Encode())
					if err != nil {
						c.Fail("ReadDocument: %v", err)
					}
					r := birch.Reader(d.Encode())
					try := func(p []string) bool {
						c.Step()
						want, found := refSearch(d, p)
						for i, x := range []*birch.Document{bd, dd} {
							e, err := x.Search(p...)
							if found {
								if err != nil || e == nil {
									c.Fail("Search%q (doc %d): %v", p, i, err)
								}
								if err := eqElem(e, want); err != nil {
									c.Fail("Search%q (doc %d): %v", p, i, err)
								}
							} else if err == nil || e != nil {
								c.Fail("Search%q (doc %d) finds %v, model has nothing", p, i, e)
							}
						}
						e, err := r.RecursiveLookup(p...)
						if found {
							if err != nil || e == nil {
								c.Fail("RecursiveLookup%q: %v", p, err)
							}
							if err := eqElem(e, want); err != nil {
								c.Fail("RecursiveLookup%q: %v", p, err)
							}
						} else if err == nil {
							c.Fail("RecursiveLookup%q finds %v", p, e)
						}
						return found
					}
					steps := []string{"a", "b", "0", "1", "2", "x", "", "-1"}
					for n := 1; n <= len(path); n++ {
						if try(path[:n]) && n == len(path) {
							c.NonTrivial()
						} else if n == len(path) && !scoped {
							c.Fail("model does not find %q", path)
						}
					}
					for i := range path {
						for _, s := range steps {
							p := append([]string{}, path...)
							p[i] = s
							try(p)
							try(p[:i+1])
						}
					}
					for _, s := range steps {
						try(append(append([]string{}, path...), s))
					}
					if e, err := r.RecursiveLookup(); err == nil || e != nil {
						c.Fail("RecursiveLookup of no key gives %v", e)
					}
					for i, x := range []*birch.Document{bd, dd} {
						if e, err := x.Search(); err == nil || e != nil {
							c.Fail("Search of no key (doc %d) gives %v", i, e)
						}
					}
				}},
			{Name: "sorting", Bounds: "all documents of 3 elements over 2 keys x 10 values of comparable and incomparable types", Rule: "not already sorted",
				Run: func(c *engine.Chooser) {
					pool := []ref.Val{i32(1), i32(-1), {T: ref.TInt64, I: 5}, {T: ref.TInt64, I: -5}, {T: ref.TDouble, F: 2}, {T: ref.TDouble, F: -2}, str("b"), str("a"), {T: ref.TDate, I: 9}, {T: ref.TDate, I: -9}, {T: ref.TOID, OID: [12]byte{1}}, {T: ref.TOID, OID: [12]byte{0xf0}}, {T: ref.TBool, B: true}, {T: ref.TBool}}
					d := ref.Doc{}
					for i := 0; i < 3; i++ {
						d = append(d, ref.Elem{K: []string{"a", "b"}[c.Choose(2)], V: pool[c.Choose(len(pool))]})
					}
					c.Note("doc %s", d)
					c.StateB(d.Encode())
					c.Step()
					w := refSorted(d)
					bd := bb.Doc(d)
					got, err := bb.FromDoc(bd.Sorted())
					if err != nil || !got.Equal(w) {
						c.Fail("Sorted of %s gives %s, want %s (%v)", d, got, w, err)
					}
					if !w.Equal(d) {
						c.NonTrivial()
					}
					if got, err := bb.FromDoc(bd); err != nil || !got.Equal(d) {
						c.Fail("Sorted changed its receiver to %s", got)
					}
				}},
			{Name: "sorting-extremes", Bounds: fmt.Sprintf("all documents of 3 elements of one key out of %d boundary values, and all documents of 3 out of %d keys", len(sortVals()), len(oddKeys)), Rule: "not already sorted", Split: 2,
				Run: func(c *engine.Chooser) {
					d := ref.Doc{}
					if c.Bool() {
						for i := 0; i < 3; i++ {
							d = append(d, ref.Elem{K: engine.Pick(c, oddKeys), V: i32(int64(3 - i))})
						}
					} else {
						pool := sortVals()
						for i := 0; i < 3; i++ {
							d = append(d, ref.Elem{K: "a", V: engine.Pick(c, pool)})
						}
					}
					c.Note("doc %s", d)
					c.StateB(d.Encode())
					c.Step()
					w := refSorted(d)
					got, err := bb.FromDoc(bb.Doc(d).Sorted())
					if err != nil || !got.Equal(w) {
						c.Fail("Sorted of %s gives %s, want %s (%v)", d, got, w, err)
					}
					if !w.Equal(d) {
						c.NonTrivial()
					}
				}},
			{Name: "odd-keys", Bounds: fmt.Sprintf("documents of two elements, one nested, over %d keys that differ little; every path of 1..2 of those keys and 3 more; set and deletion of each", len(oddKeys)), Rule: "found", Split: 2,
				Run: func(c *engine.Chooser) {
					d := ref.Doc{
						{K: engine.Pick(c, oddKeys), V: ref.Val{T: ref.TDoc, D: ref.Doc{{K: engine.Pick(c, oddKeys), V: i32(1)}, {K: "b", V: i32(2)}}}},
						{K: engine.Pick(c, oddKeys), V: i32(3)}}
					dd, err := birch.ReadDocument(d.Encode())
					if err != nil {
						c.Fail("ReadDocument: %v", err)
					}
					r := birch.Reader(d.Encode())
					c.Note("doc %s", d)
					c.StateB(d.Encode())
					keys := append([]string{"a.a", "a.b.b", "a.\u00e9"}, oddKeys...)
					try := func(p ...string) {
						c.Step()
						want, found := refSearch(d, p)
						for i, x := range []*birch.Document{bb.Doc(d), dd} {
							e, err := x.Search(p...)
							if !found && (err == nil || e != nil) {
								c.Fail("Search%q (doc %d) finds %v, model has nothing", p, i, e)
							}
							if found {
								c.NonTrivial()
								if err != nil || e == nil {
									c.Fail("Search%q (doc %d): %v", p, i, err)
								}
								if err := eqElem(e, want); err != nil {
									c.Fail("Search%q (doc %d): %v", p, i, err)
								}
							}
						}
						e, err := r.RecursiveLookup(p...)
						if found != (err == nil && e != nil) {
							c.Fail("RecursiveLookup%q: %v %v", p, e, err)
						}
						if found {
							if err := eqElem(e, want); err != nil {
								c.Fail("RecursiveLookup%q: %v", p, err)
							}
						}
					}
					for _, k := range keys {
						try(k)
						for _, l := range keys {
							try(k, l)
						}
						m := append(ref.Doc{}, d...)
						x := bb.Doc(d)
						want := -1
						for i := range m {
							if m[i].K == k {
								want = i
								break
							}
						}
						if got := x.Lookup(k); (got != nil) != (want >= 0) {
							c.Fail("Lookup(%q) gives %v", k, got)
						}
						del := x.Delete(k)
						if (del != nil) != (want >= 0) {
							c.Fail("Delete(%q) gives %v", k, del)
						}
						y := bb.Doc(d)
						y.Set(birch.EC.Int32(k, 9))
						my := append(ref.Doc{}, d...)
						if want >= 0 {
							m = append(m[:want:want], m[want+1:]...)
							my[want] = ref.Elem{K: k, V: i32(9)}
						} else {
							my = append(my, ref.Elem{K: k, V: i32(9)})
						}
						if got, err := bb.FromDoc(x); err != nil || !got.Equal(m) {
							c.Fail("after Delete(%q): %s, want %s (%v)", k, got, m, err)
						}
						if got, err := bb.FromDoc(y); err != nil || !got.Equal(my) {
							c.Fail("after Set(%q): %s, want %s (%v)", k, got, my, err)
						}
					}
				}},
			{Name: "linked", Bounds: "blist.Document: all sequences of 5 operations out of 9 against the list model", Rule: "not empty at the end",
				Run: func(c *engine.Chooser) {
					d := &blist.Document{}
					var m ref.Doc
					for s := 0; s < 5; s++ {
						op := c.Choose(9)
						c.Note("op %d", op)
						c.Step()
						switch op {
						case 0, 1:
							e := elems[op*2]
							d.Append(bb.Elem(e.K, e.V))
							m = append(m, e)
						case 2:
							d.Prepend(bb.Elem("a", i32(9)))
							m = append(ref.Doc{{K: "a", V: i32(9)}}, m...)
						case 3, 4:
							e := elems[(op-3)*2+1]
							d.Set(bb.Elem(e.K, e.V))
							if j := lookupRef(m, e.K); j >= 0 {
								m = append(ref.Doc{}, m...)
								m[j] = e
							} else {
								m = append(m, e)
							}
						case 5, 6:
							k := []string{"a", "b"}[op-5]
							got := d.Delete(k)
							j := lookupRef(m, k)
							if (j < 0) != (got == nil) {
								c.Fail("Delete(%q) returns %v", k, got)
							}
							if j >= 0 {
								if err := eqElem(got, m[j]); err != nil {
									c.Fail("Delete: %v", err)
								}
								m = append(append(ref.Doc{}, m[:j]...), m[j+1:]...)
							}
						case 7:
							d.AppendOmitEmpty(bb.Elem("b", i32(0)), bb.Elem("b", i32(4)), nil)
							m = append(m, ref.Elem{K: "b", V: i32(4)})
						case 8:
							d.Append(bb.Elem("b", str("1")), bb.Elem("a", str("2")))
							m = append(m, ref.Elem{K: "b", V: str("1")}, ref.Elem{K: "a", V: str("2")})
						}
						c.StateB(m.Encode())
						if d.Len() != len(m) {
							c.Fail("Len %d, model %s", d.Len(), m)
						}
						if n, err := d.Validate(); err != nil || int(n) != len(m.Encode()) {
							c.Fail("Validate %d %v, model %d", n, err, len(m.Encode()))
						}
						i := 0
						for e := d.Front(); e.Ok(); e = e.Next() {
							if i >= len(m) {
								c.Fail("too many elements")
							}
							if err := eqElem(e.Value(), m[i]); err != nil {
								c.Fail("position %d: %v", i, err)
							}
							i++
						}
						if i != len(m) {
							c.Fail("%d elements, want %d", i, len(m))
						}
					}
					if len(m) > 0 {
						c.NonTrivial()
					}
				}},
			{Name: "pairs", Bounds: "two documents (each built by constructors or decoded): all sequences of 5 operations out of 14 (append, set, delete, reset on either; extend, copy and unmarshal from one into the other; element slices and maps handed out, then changed), both checked after every operation", Rule: "both documents not empty at the end", Split: 3,
				Run: func(c *engine.Chooser) {
					ds := [2]*birch.Document{birch.DC.New(), birch.DC.New()}
					var ms [2]ref.Doc
					for i := range ds {
						switch c.Choose(2) {
						case 1:
							ms[i] = ref.Doc{{K: "a", V: i32(int64(10 + i))}, {K: "b", V: i32(int64(20 + i))}}
							d, err := birch.ReadDocument(ms[i].Encode())
							if err != nil {
								c.Fail("ReadDocument: %v", err)
							}
							ds[i] = d
						}
					}
					for s := 0; s < 5; s++ {
						op := c.Choose(14)
						w, k := op/7, op%7
						d, o := ds[w], ds[1-w]
						c.Note("doc %d op %d", w, k)
						switch k {
						case 0:
							e := ref.Elem{K: "a", V: i32(int64(s))}
							d.Append(bb.Elem(e.K, e.V))
							ms[w] = append(append(ref.Doc{}, ms[w]...), e)
						case 1:
							e := ref.Elem{K: "b", V: str(strconv.Itoa(s))}
							d.Set(bb.Elem(e.K, e.V))
							m := append(ref.Doc{}, ms[w]...)
							if j := lookupRef(m, e.K); j >= 0 {
								m[j] = e
							} else {
								m = append(m, e)
							}
							ms[w] = m
						case 2:
							d.Delete("a")
							if j := lookupRef(ms[w], "a"); j >= 0 {
								ms[w] = append(append(ref.Doc{}, ms[w][:j]...), ms[w][j+1:]...)
							}
						case 3:
							d.Reset()
							ms[w] = nil
						case 4:
							d.Extend(o)
							ms[w] = append(append(ref.Doc{}, ms[w]...), ms[1-w]...)
						case 5:
							ds[w] = o.Copy()
							ms[w] = append(ref.Doc{}, ms[1-w]...)
						case 6:
							if err := d.UnmarshalDocument(o); err != nil {
								c.Fail("UnmarshalDocument: %v", err)
							}
							ms[w] = append(append(ref.Doc{}, ms[w]...), ms[1-w]...)
						}
						if len(ms[0])+len(ms[1]) > 24 {
							c.Skip()
						}
						c.Step()
						for i := range ds {
							c.StateB(append(ms[i].Encode(), byte(i)))
							got, err := bb.FromDoc(ds[i])
							if err != nil || !got.Equal(ms[i]) {
								c.Fail("document %d is %s (err %v), model %s", i, got, err, ms[i])
							}
							if len(ds[i].Map()) > ds[i].Len() {
								c.Fail("map view larger than the document")
							}
							for _, kk := range []string{"a", "b"} {
								j := lookupRef(ms[i], kk)
								if e := ds[i].Map()[kk]; (j < 0) != (e == nil) {
									c.Fail("map view of document %d disagrees on %q", i, kk)
								} else if j >= 0 {
									if err := eqElem(e, ms[i][j]); err != nil {
										c.Fail("map view of document %d: %v", i, err)
									}
								}
							}
						}
					}
					if len(ms[0]) > 0 && len(ms[1]) > 0 {
						c.NonTrivial()
					}
				}},
			{Name: "refusals", Bounds: "nil element for Append, Set; nil document for Validate and Search; empty search path; out-of-range ElementAt", Rule: "all", Serial: true,
				Run: func(c *engine.Chooser) {
					c.Step()
					c.NonTrivial()
					k := c.Choose(6)
					c.State(fmt.Sprint(k))
					d := birch.DC.Elements(birch.EC.Int32("a", 1))
					switch k {
					case 0:
						if panics(func() { d.Append(nil) }) == nil {
							c.Fail("Append(nil) accepted")
						}
					case 1:
						if panics(func() { d.Set(nil) }) == nil {
							c.Fail("Set(nil) accepted")
						}
					case 2:
						if _, err := (*birch.Document)(nil).Validate(); err == nil {
							c.Fail("nil document validates")
						}
					case 3:
						if _, err := d.Search(); err == nil {
							c.Fail("empty path found")
						}
					case 4:
						if panics(func() { d.ElementAt(1) }) == nil {
							c.Fail("ElementAt out of range served")
						}
					case 5:
						if _, err := (*birch.Document)(nil).Search("a"); err == nil {
							c.Fail("search in nil document succeeds")
						}
					}
					if got, err := bb.FromDoc(d); err != nil || !got.Equal(ref.Doc{{K: "a", V: i32(1)}}) {
						c.Fail("a refused operation changed the document: %s", got)
					}
				}},
		}
	},
}
