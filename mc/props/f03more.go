package props

import (
	"bytes"
	"errors"
	"fmt"
	"sort"

	"github.com/tychoish/birch/x/ftdc"
	"github.com/tychoish/birch/x/ftdc/util"

	"birchmc/bb"
	"birchmc/engine"
	"birchmc/ref"
)

// f03Marshaler: the series view is rendered by a function of the program's;
// what that function cannot render is reported, and nothing else is lost.
func f03Marshaler(c *engine.Chooser) {
	n := 1 + c.Choose(4)
	out := &fsink{}
	coll := ftdc.NewStreamingDynamicCollector(2, out)
	var want []ref.Doc
	fate := make([]int, n)
	failed := false
	for i := 0; i < n; i++ {
		fate[i] = c.Choose(3)
		failed = failed || fate[i] != 0
		var g []ref.Doc
		for j := 0; j < 2; j++ {
			d := f02Sample(i%2, 2*i+j)
			if err := coll.Add(bb.Doc(d)); err != nil {
				c.Fail("add: %v", err)
			}
			g = append(g, d)
		}
		if fate[i] == 0 {
			want = append(want, seriesDoc(g))
		}
	}
	if err := ftdc.FlushCollector(coll, out); err != nil {
		c.Fail("flush: %v", err)
	}
	none := c.Bool()
	c.Note("none registered %v, chunks %v", none, fate)
	c.State(fmt.Sprint(none, fate))
	if failed || none {
		c.NonTrivial()
	}
	at := 0
	refused := errors.New("cannot render")
	defer util.RegisterGlobalMarshaler(seriesMarshaler)
	if none {
		util.RegisterGlobalMarshaler(nil)
		want = nil
	} else {
		util.RegisterGlobalMarshaler(func(in any) ([]byte, error) {
			f := fate[at]
			at++
			switch f {
			case 1:
				return nil, refused
			case 2:
				return []byte{9, 0, 0, 0, 16, 'a', 0, 1, 0}, nil
			}
			return seriesMarshaler(in)
		})
	}
	it := ftdc.ReadSeries(bytes.NewReader(out.buf.Bytes()))
	got, err := readDocs(it)
	c.Step()
	if (err != nil) != (none || failed) {
		c.Fail("reading the series reports %v", err)
	}
	for _, f := range fate {
		if f == 1 && !none && !errors.Is(err, refused) {
			c.Fail("the marshaler's error is not reported: %v", err)
		}
	}
	got = mapDocs(got, func(d ref.Doc) ref.Doc {
		sort.SliceStable(d, func(i, j int) bool { return d[i].K < d[j].K })
		return d
	})
	if err := sameDocs("series view", got, want); err != nil {
		c.Fail("%v", err)
	}
}
