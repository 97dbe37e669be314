package props

import (
	"bytes"
	"fmt"
	"iter"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"

	"birchmc/bb"
	"birchmc/engine"
	"birchmc/ref"
)

var f03Views = []struct {
	name string
	open func(b []byte) *ftdc.Iterator[*birch.Document]
}{
	{"flattened", func(b []byte) *ftdc.Iterator[*birch.Document] { return ftdc.ReadMetrics(bytes.NewReader(b)) }},
	{"structured", func(b []byte) *ftdc.Iterator[*birch.Document] {
		return ftdc.ReadStructuredMetrics(bytes.NewReader(b))
	}},
	{"matrix", func(b []byte) *ftdc.Iterator[*birch.Document] { return ftdc.ReadMatrix(bytes.NewReader(b)) }},
	{"series", func(b []byte) *ftdc.Iterator[*birch.Document] { return ftdc.ReadSeries(bytes.NewReader(b)) }},
}

// f03Rich is the n-th sample of one of three schemas, with every metric type.
func f03Rich(s, n int) ref.Doc {
	x := int64(n*n*31 + 5)
	in := ref.Doc{
		{K: "i", V: ref.Val{T: ref.TInt64, I: x}},
		{K: "t", V: ref.Val{T: ref.TTimestamp, U: uint32(x), V: uint32(n)}},
		{K: "b", V: ref.Val{T: ref.TBool, B: n%2 == 0}},
	}
	d := ref.Doc{
		{K: "a", V: ref.Val{T: ref.TDouble, F: float64(x) / 4}},
		{K: "d", V: ref.Val{T: ref.TDoc, D: in}},
		{K: "l", V: ref.Val{T: ref.TArray, D: ref.Doc{{K: "0", V: i32(x)}, {K: "1", V: ref.Val{T: ref.TDate, I: x * 1000}}}}},
		{K: "s", V: str("kept")},
	}
	switch s {
	case 1:
		return d[:1]
	case 2:
		return append(ref.Doc{{K: "first", V: i32(int64(n))}}, d[1:]...)
	}
	return d
}

// disturb changes a document its reader was given.
func disturb(d *birch.Document, how int) {
	for e := range d.Iterator() {
		switch e.Value().Type() {
		case 0x03:
			disturb(e.Value().MutableDocument(), how)
		case 0x04:
			a := e.Value().MutableArray()
			if a.Len() > 0 {
				a.Set(0, birch.VC.String("disturbed"))
			}
			a.Append(birch.VC.Null())
		default:
			if how == 2 {
				e.SetValue(birch.VC.String("disturbed"))
			}
		}
	}
	d.Append(birch.EC.String("disturbed", "x"))
	if how == 1 {
		d.Set(birch.EC.String("a", "disturbed"))
		d.Delete("d")
	}
	if how == 3 {
		d.Reset()
	}
}

// f03Kept reads two files, one document at a time from each in turn, and
// changes, or not, what it is given before it asks for the next.
func f03Kept(c *engine.Chooser) {
	size := 1 + c.Choose(3)
	schemas := c.Choose(3)
	n := 2 + c.Choose(4)
	mk := func(off int) []byte {
		out := &fsink{}
		coll := ftdc.NewStreamingDynamicCollector(size, out)
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				if err := coll.SetMetadata(bb.Doc(ref.Doc{{K: "m", V: i32(int64(off + i))}})); err != nil {
					c.Fail("set metadata: %v", err)
				}
			}
			s := 0
			switch schemas {
			case 1:
				s = i % 2
			case 2:
				s = i / 2 % 3
			}
			if err := coll.Add(bb.Doc(f03Rich(s, off+i))); err != nil {
				c.Fail("add: %v", err)
			}
		}
		if err := ftdc.FlushCollector(coll, out); err != nil {
			c.Fail("flush: %v", err)
		}
		return out.buf.Bytes()
	}
	data := [][]byte{mk(0), mk(100)}
	va, vb := c.Choose(len(f03Views)), c.Choose(len(f03Views))
	how := c.Choose(4)
	c.Note("collectors of %d, schemas %d, %d samples; %s and %s views in turn, disturbance %d", size, schemas, n, f03Views[va].name, f03Views[vb].name, how)
	c.State(fmt.Sprint(size, schemas, n, va, vb, how))
	if how > 0 {
		c.NonTrivial()
	}
	var want [2][]ref.Doc
	var its [2]*ftdc.Iterator[*birch.Document]
	var next [2]func() (*birch.Document, bool)
	for i, v := range []int{va, vb} {
		w, err := readDocs(f03Views[v].open(data[i]))
		if err != nil {
			c.Fail("%s view: %v", f03Views[v].name, err)
		}
		want[i] = w
		its[i] = f03Views[v].open(data[i])
		nx, stop := iter.Pull(its[i].Iterator())
		defer stop()
		next[i] = nx
	}
	norm := func(v int, d ref.Doc) ref.Doc { // the series view has no order
		if v == 3 {
			return unordered(d)
		}
		return d
	}
	var got [2]int
	for done := 0; done != 3; {
		for i, v := range []int{va, vb} {
			if done&(1<<i) != 0 {
				continue
			}
			c.Step()
			d, ok := next[i]()
			if !ok {
				done |= 1 << i
				continue
			}
			x, err := bb.FromDoc(d)
			if err != nil {
				c.Fail("%s view, document %d: %v", f03Views[v].name, got[i], err)
			}
			if got[i] >= len(want[i]) || !norm(v, x).Equal(norm(v, want[i][got[i]])) {
				c.Fail("%s view of file %d: document %d is %s, read alone and undisturbed %v", f03Views[v].name, i, got[i], x, want[i])
			}
			got[i]++
			if how > 0 {
				disturb(d, how)
			}
		}
	}
	for i, v := range []int{va, vb} {
		if got[i] != len(want[i]) {
			c.Fail("%s view of file %d: %d documents, read alone %d", f03Views[v].name, i, got[i], len(want[i]))
		}
		if err := its[i].Close(); err != nil {
			c.Fail("%s view of file %d: %v", f03Views[v].name, i, err)
		}
	}
}

// f03KeptChunks keeps the chunks and looks at them at the end; how the values
// of one are used changes none of the others.
func f03KeptChunks(c *engine.Chooser) {
	size := 1 + c.Choose(4)
	n := 1 + c.Choose(8)
	schemas := c.Choose(2)
	how := c.Choose(3)
	var samples []ref.Doc
	for i := 0; i < n; i++ {
		samples = append(samples, f03Rich([]int{0, i / 3 % 3}[schemas], i))
	}
	data := encodeDynamic(c, size, samples)
	c.State(fmt.Sprint(size, n, schemas, how))
	if how > 0 {
		c.NonTrivial()
	}
	it := ftdc.ReadChunks(bytes.NewReader(data))
	type kept struct {
		ch   *ftdc.Chunk
		vals [][]int64
	}
	var ks []kept
	for ch := range it.Iterator() {
		c.Step()
		k := kept{ch: ch}
		for _, m := range ch.Metrics {
			k.vals = append(k.vals, append([]int64(nil), m.Values...))
			if how == 1 {
				m.Values = append(m.Values, 99)
			}
		}
		ks = append(ks, k)
	}
	if err := it.Close(); err != nil {
		c.Fail("reading: %v", err)
	}
	for i, k := range ks {
		for j, m := range k.ch.Metrics {
			if how == 2 { // the others are looked at afterwards
				for q := range m.Values {
					if m.Values[q] != k.vals[j][q] {
						c.Fail("chunk %d, metric %s: value %d is %d, was %d when delivered", i, m.Key(), q, m.Values[q], k.vals[j][q])
					}
					m.Values[q] = -77
				}
				_ = append(m.Values, -77)
				continue
			}
			for q, v := range k.vals[j] {
				if m.Values[q] != v {
					c.Fail("chunk %d, metric %s: value %d is %d, was %d when delivered", i, m.Key(), q, m.Values[q], v)
				}
			}
		}
	}
}
