package props

import (
	"bytes"
	"fmt"

	"birchmc/bb"
	"birchmc/engine"
	"birchmc/ref"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/blist"
)

// manySizes are around the sizes at which implementations change their ways.
func manySizes(thorough bool) []int {
	out := []int{17, 33, 63, 64, 65, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1001, 1024, 1025}
	if thorough {
		out = append(out, 2047, 2048, 2049, 4096, 4097, 9999, 10001, 20000)
	}
	return out
}

var manyOps = []string{"Set", "Set of the key that is also at the end", "Delete", "Delete of the key that is also at the end", "SetValue", "Extend with itself", "Reset", "Copy and change", "AppendOmitEmpty", "Set of a new key", "decode others"}

// manyDoc is a document of n elements; the key at p is also the last one.
func manyDoc(n, p int) ref.Doc {
	var m ref.Doc
	for i := range n {
		e := ref.Elem{K: fmt.Sprintf("k%d", i), V: i32(int64(i))}
		switch i % 7 {
		case 3:
			e.V = str(fmt.Sprint("text ", i))
		case 5:
			e.V = ref.Val{T: ref.TDoc, D: ref.Doc{{K: "n", V: i32(int64(i))}}}
		}
		m = append(m, e)
	}
	if n > 1 && p < n-1 {
		m[n-1].K = m[p].K
	}
	return m
}

// manyCheck compares the views of a big document with the model; lookups are
// of the keys at some places.
func manyCheck(c *engine.Chooser, d *birch.Document, m ref.Doc, at []int, when string) {
	c.Step()
	c.StateB(m.Encode())
	if d.Len() != len(m) {
		c.Fail("%s: Len %d, model %d", when, d.Len(), len(m))
	}
	b, err := d.MarshalBSON()
	if err != nil || !bytes.Equal(b, m.Encode()) {
		if got, e := bb.FromDoc(d); e == nil && got != nil {
			for i := range got {
				if i >= len(m) || got[i].K != m[i].K || !got[i].V.Equal(m[i].V) {
					c.Fail("%s: position %d of %d holds %q, %s", when, i, len(m), got[i].K, got[i].V)
				}
			}
		}
		c.Fail("%s: the encoding differs from the model's (%v)", when, err)
	}
	if i := 0; true {
		els := d.Elements()
		for e := range d.Iterator() {
			if i >= len(m) || e != els[i] || e != d.ElementAt(uint(i)) || e.Key() != m[i].K {
				c.Fail("%s: the iterator differs from the list at %d", when, i)
			}
			i++
		}
	}
	mp, ex := d.Map(), d.ExportMap()
	uniq := map[string]int{}
	for i, e := range m {
		if _, ok := uniq[e.K]; !ok {
			uniq[e.K] = i
		}
	}
	if len(mp) != len(uniq) || len(ex) != len(uniq) {
		c.Fail("%s: Map has %d keys, ExportMap %d, model %d", when, len(mp), len(ex), len(uniq))
	}
	for k, i := range uniq {
		if e := mp[k]; e != d.ElementAt(uint(i)) {
			c.Fail("%s: Map does not hold the first element with the key %q", when, k)
		}
	}
	keys := []string{"absent", "k", ""}
	for _, i := range at {
		if i >= 0 && i < len(m) {
			keys = append(keys, m[i].K)
		}
	}
	for _, k := range keys {
		var want *birch.Element
		if i, ok := uniq[k]; ok {
			want = d.ElementAt(uint(i))
		}
		s, _ := d.Search(k)
		l, _ := d.LookupElementErr(k)
		v, _ := d.LookupErr(k)
		if d.LookupElement(k) != want || s != want || l != want {
			c.Fail("%s: lookups of %q in %d elements do not find the first element with the key", when, k, len(m))
		}
		if (want == nil) != (v == nil) || (want == nil) != (d.Lookup(k) == nil) || want != nil && (v != want.Value() || d.Lookup(k) != want.Value()) {
			c.Fail("%s: lookups of %q in %d elements do not find the first value with the key", when, k, len(m))
		}
	}
	if e, ok := d.ElementAtOK(uint(len(m))); ok || e != nil {
		c.Fail("%s: there is an element after the last", when)
	}
}

func c03Many(thorough bool) func(c *engine.Chooser) {
	sizes := manySizes(thorough)
	return func(c *engine.Chooser) {
		n := engine.Pick(c, sizes)
		p := []int{0, 1, n / 2, n - 2, n - 1}[c.Choose(5)]
		how := c.Choose(4)
		op := c.Choose(len(manyOps))
		c.Note("%d elements made in way %d, %s at %d", n, how, manyOps[op], p)
		c.NonTrivial()
		m := manyDoc(n, p)
		var d *birch.Document
		var err error
		switch how {
		case 0:
			d = birch.DC.New()
			for _, e := range m {
				d.Append(bb.Elem(e.K, e.V))
			}
		case 1:
			d, err = birch.ReadDocument(m.Encode())
		case 2:
			d = bb.Doc(m[:n/3]).Extend(bb.Doc(m[n/3:]))
		case 3:
			d = birch.DC.Make(3)
			_, err = d.ReadFrom(bytes.NewReader(m.Encode()))
		}
		if err != nil {
			c.Fail("decode: %v", err)
		}
		at := []int{0, 1, p - 1, p, p + 1, n - 3, n - 2, n - 1, n, 99, 100, 127, 128, 255, 256}
		manyCheck(c, d, m, at, "at first")
		orig := d.Copy()
		m0 := m
		m = append(ref.Doc{}, m...)
		switch op {
		case 0, 1:
			k := m[p].K
			if op == 1 {
				k = m[n-1].K
			}
			d.Set(birch.EC.String(k, "changed"))
			m[lookupRef(m, k)].V = str("changed")
		case 2, 3:
			k := m[p].K
			if op == 3 {
				k = m[n-1].K
			}
			j := lookupRef(m, k)
			e := d.Delete(k)
			if err := eqElem(e, m[j]); err != nil {
				c.Fail("Delete: %v", err)
			}
			m = append(m[:j], m[j+1:]...)
		case 4:
			d.ElementAt(uint(p)).SetValue(birch.VC.String("changed"))
			m[p].V = str("changed")
		case 5:
			d.Extend(d)
			m = append(m, m...)
		case 6:
			d.Reset()
			m = nil
		case 7:
			cp := d.Copy()
			cp.Append(birch.EC.Int32("extra", 1))
			cp.Delete(m[p].K)
		case 8:
			d.AppendOmitEmpty(birch.EC.Int32("empty", 0), birch.EC.Int32("last", 7), nil)
			m = append(m, ref.Elem{K: "last", V: i32(7)})
		case 9:
			d.Set(birch.EC.Int32("new", 1))
			m = append(m, ref.Elem{K: "new", V: i32(1)})
		case 10:
			if err := d.UnmarshalBSON(m[:p].Encode()); err != nil {
				c.Fail("decode: %v", err)
			}
			m = m[:p]
		}
		manyCheck(c, d, m, at, manyOps[op])
		d.Append(birch.EC.Int32("after", 1))
		m = append(append(ref.Doc{}, m...), ref.Elem{K: "after", V: i32(1)})
		manyCheck(c, d, m, at, manyOps[op]+", then Append")
		if op != 4 {
			manyCheck(c, orig, m0, at, "the copy made before "+manyOps[op])
		}
	}
}

// c03LinkedMany: the same for the linked document.
func c03LinkedMany(c *engine.Chooser) {
	n := engine.Pick(c, manySizes(false))
	p := []int{0, 1, n / 2, n - 2, n - 1}[c.Choose(5)]
	op := c.Choose(5)
	c.Note("%d elements, op %d at %d", n, op, p)
	c.NonTrivial()
	m := manyDoc(n, p)
	d := &blist.Document{}
	for _, e := range m {
		d.Append(bb.Elem(e.K, e.V))
	}
	k := m[p].K
	j := lookupRef(m, k)
	switch op {
	case 0:
		d.Set(birch.EC.String(k, "changed"))
		m[j].V = str("changed")
	case 1:
		if err := eqElem(d.Delete(k), m[j]); err != nil {
			c.Fail("Delete: %v", err)
		}
		m = append(m[:j], m[j+1:]...)
	case 2:
		d.Prepend(birch.EC.Int32("first", 1))
		m = append(ref.Doc{{K: "first", V: i32(1)}}, m...)
	case 3:
		d.Set(birch.EC.Int32("new", 1))
		m = append(m, ref.Elem{K: "new", V: i32(1)})
	case 4:
		if e := d.Delete("absent"); e != nil {
			c.Fail("Delete of an absent key returns %q", e.Key())
		}
	}
	c.Step()
	c.StateB(m.Encode())
	if d.Len() != len(m) {
		c.Fail("Len %d, model %d", d.Len(), len(m))
	}
	if n, err := d.Validate(); err != nil || int(n) != len(m.Encode()) {
		c.Fail("Validate %d %v, model %d", n, err, len(m.Encode()))
	}
	i := 0
	for e := d.Front(); e.Ok(); e = e.Next() {
		if i >= len(m) {
			c.Fail("too many elements")
		}
		if err := eqElem(e.Value(), m[i]); err != nil {
			c.Fail("position %d: %v", i, err)
		}
		i++
	}
	if i != len(m) {
		c.Fail("%d elements, want %d", i, len(m))
	}
}

// c04Many: big arrays.
func c04Many(thorough bool) func(c *engine.Chooser) {
	sizes := manySizes(thorough)
	return func(c *engine.Chooser) {
		n := engine.Pick(c, sizes)
		p := []int{0, 1, n / 2, n - 2, n - 1}[c.Choose(5)]
		op := c.Choose(6)
		decoded := c.Bool()
		c.Note("%d values, op %d at %d, decoded %v", n, op, p, decoded)
		c.NonTrivial()
		m := manyDoc(n, n)
		a := bb.Arr(m)
		if decoded {
			d, err := birch.ReadDocument(ref.Doc{{K: "a", V: ref.Val{T: ref.TArray, D: m}}}.Encode())
			if err != nil {
				c.Fail("decode: %v", err)
			}
			a = d.ElementAt(0).Value().MutableArray()
		}
		m = append(ref.Doc{}, m...)
		switch op {
		case 0:
			a.Set(uint(p), birch.VC.String("changed"))
			m[p].V = str("changed")
		case 1:
			v := a.Delete(uint(p))
			if g, err := bb.FromValue(v); err != nil || !g.Equal(m[p].V) {
				c.Fail("Delete(%d) returns %s (%v)", p, g, err)
			}
			m = append(m[:p], m[p+1:]...)
		case 2:
			a.Extend(a)
			m = append(m, m...)
		case 3:
			a.ExtendFromDocument(bb.Doc(m[:p]))
			m = append(m, m[:p]...)
		case 4:
			a.Append(bb.Value(str("last")), bb.Value(i32(1)))
			m = append(m, ref.Elem{V: str("last")}, ref.Elem{V: i32(1)})
		case 5:
			a.Reset()
			m = nil
		}
		observeArr(c, a, m, "after the change")
		a.Append(birch.VC.Null())
		m = append(m, ref.Elem{V: ref.Val{T: ref.TNull}})
		observeArr(c, a, m, "after append")
	}
}
