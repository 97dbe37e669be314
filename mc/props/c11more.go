package props

import (
	"bytes"
	"fmt"

	"birchmc/bb"
	"birchmc/engine"
	"birchmc/ref"

	"github.com/tychoish/birch"
)

// c11Shared compares values that were made from the same document or array.
func c11Shared(c *engine.Chooser) {
	docs := []ref.Doc{{}, {{K: "x", V: i32(7)}}, {{K: "0", V: i32(7)}, {K: "1", V: str("s")}}, {{K: "0", V: ref.Val{T: ref.TDoc, D: ref.Doc{{K: "y", V: i32(1)}}}}}}
	m := docs[c.Choose(len(docs))]
	shared := bb.Doc(m)
	arr := birch.NewArray()
	am := ref.Doc{}
	for i, e := range m {
		arr.Append(bb.Elem("", e.V).Value())
		am = append(am, ref.Elem{K: fmt.Sprint(i), V: e.V})
	}
	mk := func(i int) (*birch.Element, func() ref.Val) {
		switch i {
		case 0:
			return birch.EC.SubDocument("k", shared), func() ref.Val { return ref.Val{T: ref.TDoc, D: m} }
		case 1, 2, 3:
			code := []string{"", "c", "d"}[i-1]
			return birch.EC.CodeWithScope("k", code, shared), func() ref.Val { return ref.Val{T: ref.TCodeScope, S: code, D: m} }
		case 4:
			return birch.EC.Array("k", arr), func() ref.Val { return ref.Val{T: ref.TArray, D: am} }
		case 5:
			return birch.EC.SubDocument("k", shared.Copy()), func() ref.Val { return ref.Val{T: ref.TDoc, D: docs[0]} }
		case 6:
			return birch.EC.CodeWithScope("k", "c", bb.Doc(m)), nil
		case 7:
			return birch.EC.SubDocument("k", birch.DC.Elements(birch.EC.SubDocument("in", shared))),
				func() ref.Val {
					return ref.Val{T: ref.TDoc, D: ref.Doc{{K: "in", V: ref.Val{T: ref.TDoc, D: m}}}}
				}
		case 8:
			return birch.EC.SubDocument("k", birch.DC.Elements(birch.EC.CodeWithScope("in", "c", shared))),
				func() ref.Val {
					return ref.Val{T: ref.TDoc, D: ref.Doc{{K: "in", V: ref.Val{T: ref.TCodeScope, S: "c", D: m}}}}
				}
		default:
			return birch.EC.Array("k", birch.NewArray(birch.VC.CodeWithScope("d", shared))),
				func() ref.Val {
					return ref.Val{T: ref.TArray, D: ref.Doc{{K: "0", V: ref.Val{T: ref.TCodeScope, S: "d", D: m}}}}
				}
		}
	}
	orig := m
	ia, ib := c.Choose(10), c.Choose(10)
	a, va := mk(ia)
	b, vb := mk(ib)
	c.NonTrivial()
	c.State(fmt.Sprint(m, ia, ib))
	change := c.Bool()
	if change {
		shared.Append(birch.EC.Int32("added", 1))
		arr.Append(birch.VC.Int32(1))
		am = append(am[:len(am):len(am)], ref.Elem{K: fmt.Sprint(len(am)), V: i32(1)})
		m = append(m[:len(m):len(m)], ref.Elem{K: "added", V: i32(1)})
	}
	cont := func(i int, f func() ref.Val) ref.Val {
		switch i {
		case 5:
			return ref.Val{T: ref.TDoc, D: orig}
		case 6:
			return ref.Val{T: ref.TCodeScope, S: "c", D: orig}
		}
		return f()
	}
	wa, wb := cont(ia, va), cont(ib, vb)
	want := wa.T == wb.T && bytes.Equal(wa.EncodeValue(), wb.EncodeValue())
	c.Note("%s and %s made from one document, changed %v", wa, wb, change)
	for i, got := range []bool{a.Value().Equal(b.Value()), b.Value().Equal(a.Value()), a.Equal(b), b.Equal(a)} {
		c.Step()
		if got != want {
			c.Fail("comparison %d of %s and %s made from one document = %v", i, wa, wb, got)
		}
	}
}
