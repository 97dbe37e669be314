package conc

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"birchmc/engine"
	"birchmc/mcrt"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
)

// yieldReader is a scheduling point at every read.
type yieldReader struct {
	data []byte
	step int   // bytes per read (0: everything)
	end  error // returned at the end of the data instead of EOF
}

func (r *yieldReader) Read(b []byte) (int, error) {
	mcrt.Yield()
	if len(r.data) == 0 {
		if r.end != nil {
			return 0, r.end
		}
		return 0, io.EOF
	}
	n := len(r.data)
	if r.step > 0 && r.step < n {
		n = r.step
	}
	n = copy(b, r.data[:n])
	r.data = r.data[n:]
	return n, nil
}

var errRead = errors.New("injected read error")

// ftdcStream makes data of the given number of chunks, with metadata changes
// before the chunks named in meta.
func ftdcStream(chunks, samples int, meta ...int) []byte {
	var buf bytes.Buffer
	v := int64(0)
	for i := range chunks {
		coll := ftdc.NewBaseCollector(samples)
		for _, m := range meta {
			if m == i {
				if err := coll.SetMetadata(birch.DC.Elements(birch.EC.Int64("m", int64(100+i)))); err != nil {
					panic(err)
				}
			}
		}
		for range samples {
			v++
			if err := coll.Add(birch.DC.Elements(birch.EC.Int64("v", v), birch.EC.Int64("k", int64(i)))); err != nil {
				panic(err)
			}
		}
		b, err := coll.Resolve()
		if err != nil {
			panic(err)
		}
		buf.Write(b)
	}
	return buf.Bytes()
}

type f05Source struct {
	name string
	data []byte
	end  error
}

func f05Sources() []f05Source {
	two := ftdcStream(2, 2, 0, 1)
	bad := append([]byte(nil), ftdcStream(2, 2, 0)...)
	// corrupt the payload of the second chunk
	one := len(ftdcStream(1, 2, 0))
	bad[len(bad)-6] ^= 0x55
	bad[one+60] ^= 0x55
	return []f05Source{
		{"two-chunks", two, nil},
		{"one-chunk", ftdcStream(1, 2), nil},
		{"empty", nil, nil},
		{"cut", two[:len(two)-3], nil},
		{"corrupt-second", bad, nil},
		{"read-error", ftdcStream(2, 1, 0), errRead},
		{"read-error-first", nil, errRead},
		{"metadata-only", two[:len(two)-len(ftdcStream(2, 2, 0))+0], nil},
	}
}

// f05View reads through one of the views and describes each item.
var f05Views = []struct {
	name string
	open func(r io.Reader) (next func(func(string) bool), meta func() string, errs func() error)
}{
	{"chunks", func(r io.Reader) (func(func(string) bool), func() string, func() error) {
		it := ftdc.ReadChunks(r)
		return func(yield func(string) bool) {
			for ch := range it.Iterator() {
				var b strings.Builder
				fmt.Fprintf(&b, "size=%d meta=%v", ch.Size(), docText(ch.Metadata()))
				for _, m := range ch.Metrics {
					fmt.Fprintf(&b, " %s=%v", m.Key(), m.Values)
				}
				if !yield(b.String()) {
					return
				}
			}
		}, func() string { return docText(it.Metadata()) }, it.Close
	}},
	{"flat", docView(ftdc.ReadMetrics)},
	{"structured", docView(ftdc.ReadStructuredMetrics)},
	{"matrix", docView(ftdc.ReadMatrix)},
}

func docView(open func(io.Reader) *ftdc.Iterator[*birch.Document]) func(r io.Reader) (func(func(string) bool), func() string, func() error) {
	return func(r io.Reader) (func(func(string) bool), func() string, func() error) {
		it := open(r)
		return func(yield func(string) bool) {
			for d := range it.Iterator() {
				if !yield(docText(d)) {
					return
				}
			}
		}, func() string { return docText(it.Metadata()) }, it.Close
	}
}

func docText(d *birch.Document) string {
	if d == nil {
		return "none"
	}
	return d.String()
}

type f05Obs struct {
	items []string
	meta  string
	err   string
}

func (o f05Obs) String() string {
	return fmt.Sprintf("%d items, metadata %s, error %q\n%s", len(o.items), o.meta, o.err, strings.Join(o.items, "\n"))
}

// consume reads up to stop items (-1: all). abandon: how to leave.
func consume(r io.Reader, view, stop int, yieldBetween bool) f05Obs {
	next, meta, errs := f05Views[view].open(r)
	var o f05Obs
	for s := range next {
		o.items = append(o.items, s)
		if yieldBetween {
			mcrt.Yield()
		}
		if len(o.items) == stop {
			break
		}
	}
	o.meta = meta()
	if err := errs(); err != nil {
		o.err = err.Error()
	}
	return o
}

// scratch is a chooser for a reference execution.
type scratch struct{}

func (scratch) Choose(int) int      { return 0 }
func (scratch) Step()               {}
func (scratch) Note(string, ...any) {}
func (scratch) StateHash(uint64)    {}

// f05Expect is what the default schedule (run to completion) gives.
func f05Expect(src f05Source, view int) f05Obs {
	var o f05Obs
	p := mcrt.Bubble(scratch{}, func(x *mcrt.Exec) {
		x.Go("consumer", func() { o = consume(&yieldReader{data: src.data, end: src.end}, view, -1, false) })
		x.Run()
	})
	if p != nil {
		panic(p)
	}
	return o
}

var f05 = &engine.Property{
	ID: "F05", Level: "exhaustive",
	Assume: []string{"FTDC sources are readers that return; a reader that blocks forever is outside the property"},
	Families: func(tier string) []engine.Family {
		srcs := f05Sources()
		pre, pre2, pair := 2, 2, 1
		if tier == "thorough" {
			pre, pre2, pair = 4, 4, 4
		}
		expect := map[string]f05Obs{}
		for _, s := range srcs {
			for v := range f05Views {
				expect[fmt.Sprint(s.name, v)] = f05Expect(s, v)
			}
		}
		// the reference executions themselves are checked against the data
		sanity := func(c *engine.Chooser) {
			want := map[string]int{"two-chunks": 2, "one-chunk": 1, "empty": 0, "cut": 1, "corrupt-second": 1, "read-error": 2, "read-error-first": 0}
			fails := map[string]bool{"cut": true, "corrupt-second": true, "read-error": true, "read-error-first": true}
			for _, s := range srcs {
				o := expect[fmt.Sprint(s.name, 0)]
				if n, ok := want[s.name]; ok && len(o.items) != n {
					c.Fail("%s: %d chunks, want %d: %s", s.name, len(o.items), n, o)
				}
				if fails[s.name] != (o.err != "") {
					c.Fail("%s: error %q", s.name, o.err)
				}
			}
			c.NonTrivial()
		}
		compare := func(c *engine.Chooser, src f05Source, view, stop int, o f05Obs) {
			w := expect[fmt.Sprint(src.name, view)]
			n := len(w.items)
			if stop >= 0 && stop < n {
				n = stop
			}
			if len(o.items) != n {
				c.Fail("%s/%s: the consumer got %s\nwant %s", src.name, f05Views[view].name, o, w)
			}
			for i := range o.items {
				if o.items[i] != w.items[i] {
					c.Fail("%s/%s: item %d is %s, want %s", src.name, f05Views[view].name, i, o.items[i], w.items[i])
				}
			}
			if len(o.items) == len(w.items) && (stop < 0 || stop > n) {
				if o.err != w.err || o.meta != w.meta {
					c.Fail("%s/%s: after the end: %s\nwant %s", src.name, f05Views[view].name, o, w)
				}
			}
		}
		fams := []engine.Family{
			{Name: "reference", Bounds: "default schedule of every source", Rule: "all", Run: sanity},
			{Name: "read-all", Bounds: fmt.Sprintf("8 sources (valid, cut, corrupt, failing) x 4 views x whole/100-byte reads, read to the end, all schedules with <=%d preemptions", pre), Rule: "a preemption or a switch",
				Split: 8,
				Run: func(c *engine.Chooser) {
					src := engine.Pick(c, srcs)
					view := c.Choose(len(f05Views))
					step := engine.Pick(c, []int{0, 100})
					explore(c, pre, func(x *mcrt.Exec) {
						var o f05Obs
						x.Go("consumer", func() {
							o = consume(&yieldReader{data: src.data, end: src.end, step: step}, view, -1, false)
						})
						finish(c, x)
						compare(c, src, view, -1, o)
					})
				}},
			{Name: "abandon", Bounds: fmt.Sprintf("8 sources x 4 views, abandoned after 1..2 items, all schedules with <=%d preemptions", pre2), Rule: "a preemption or a switch",
				Split: 8,
				Run: func(c *engine.Chooser) {
					src := engine.Pick(c, srcs)
					view := c.Choose(len(f05Views))
					stop := 1 + c.Choose(2)
					explore(c, pre2, func(x *mcrt.Exec) {
						var o f05Obs
						x.Go("consumer", func() {
							o = consume(&yieldReader{data: src.data, end: src.end}, view, stop, true)
						})
						finish(c, x)
						compare(c, src, view, stop, o)
					})
				}},
			{Name: "two-readers", Bounds: fmt.Sprintf("two independent readers at once, all schedules with <=%d deviations from round robin", pair), Rule: "a preemption or a switch",
				Split: 8,
				Run: func(c *engine.Chooser) {
					a := c.Choose(3) * 2 // valid, empty, corrupt
					b := c.Choose(2)
					va := c.Choose(len(f05Views))
					delayed(c, pair, func(x *mcrt.Exec) {
						var oa, ob f05Obs
						x.Go("A", func() { oa = consume(&yieldReader{data: srcs[a].data, end: srcs[a].end}, va, -1, false) })
						x.Go("B", func() { ob = consume(&yieldReader{data: srcs[b].data, end: srcs[b].end}, 1, -1, false) })
						finish(c, x)
						compare(c, srcs[a], va, -1, oa)
						compare(c, srcs[b], 1, -1, ob)
					})
				}},
		}
		return fams
	},
}
