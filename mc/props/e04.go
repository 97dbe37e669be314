package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"time"

	"birchmc/bb"
	"birchmc/engine"
	"birchmc/ref"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc/events"
	bhist "github.com/tychoish/birch/x/ftdc/hdrhist"
	"github.com/tychoish/birch/x/ftdc/util"
	"github.com/tychoish/fun/dt/hdrhist"
)

var e04Ints = []int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt32 + 1, 1000000}

var e04Times = []time.Time{
	time.UnixMilli(0), time.UnixMilli(1), time.UnixMilli(-1), time.UnixMilli(1600000000123), time.UnixMilli(-62135596800000),
	time.UnixMilli(253402300799999), time.UnixMilli(999), time.UnixMilli(-1001),
}

func i64(v int64) ref.Val { return ref.Val{T: ref.TInt64, I: v} }

func sub(kv ...any) ref.Val {
	d := ref.Doc{}
	for i := 0; i < len(kv); i += 2 {
		d = append(d, ref.Elem{K: kv[i].(string), V: kv[i+1].(ref.Val)})
	}
	return ref.Val{T: ref.TDoc, D: d}
}

func perfDoc(p events.Performance) ref.Doc {
	return ref.Doc{
		{K: "ts", V: ref.Val{T: ref.TDate, I: p.Timestamp.UnixMilli()}},
		{K: "id", V: i64(p.ID)},
		{K: "counters", V: sub("n", i64(p.Counters.Number), "ops", i64(p.Counters.Operations), "size", i64(p.Counters.Size), "errors", i64(p.Counters.Errors))},
		{K: "timers", V: sub("dur", i64(int64(p.Timers.Duration)), "total", i64(int64(p.Timers.Total)))},
		{K: "gauges", V: sub("state", i64(p.Gauges.State), "workers", i64(p.Gauges.Workers), "failed", ref.Val{T: ref.TBool, B: p.Gauges.Failed})},
	}
}

// unordered brings a document's fields into one order.
func unordered(d ref.Doc) ref.Doc {
	out := append(ref.Doc{}, d...)
	for i := range out {
		if out[i].V.T == ref.TDoc {
			out[i].V.D = unordered(out[i].V.D)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].K < out[j].K })
	return out
}

func e04Performance(c *engine.Chooser) {
	p := events.Performance{Timestamp: time.UnixMilli(1600000000123), ID: 11,
		Counters: events.PerformanceCounters{Number: 12, Operations: 13, Size: 14, Errors: 15},
		Timers:   events.PerformanceTimers{Duration: 16, Total: 17},
		Gauges:   events.PerformanceGauges{State: 18, Workers: 19}}
	fields := []*int64{&p.ID, &p.Counters.Number, &p.Counters.Operations, &p.Counters.Size, &p.Counters.Errors,
		(*int64)(&p.Timers.Duration), (*int64)(&p.Timers.Total), &p.Gauges.State, &p.Gauges.Workers}
	p.Timestamp = engine.Pick(c, e04Times)
	p.Gauges.Failed = c.Bool()
	i := c.Choose(len(fields))
	*fields[i] = engine.Pick(c, e04Ints)
	j := i + c.Choose(len(fields)-i)
	if j > i {
		*fields[j] = engine.Pick(c, e04Ints)
	}
	given := p
	c.NonTrivial()
	doc, err := p.MarshalDocument()
	if err != nil {
		c.Fail("MarshalDocument: %v", err)
	}
	got, err := bb.FromDoc(doc)
	if err != nil {
		c.Fail("invalid document: %v", err)
	}
	want := perfDoc(given)
	if !unordered(got).Equal(unordered(want)) {
		c.Fail("document of %+v is %v, expected %v", given, got, want)
	}
	if p != given {
		c.Fail("MarshalDocument changed the point")
	}
	b, err := p.MarshalBSON()
	if err != nil {
		c.Fail("MarshalBSON: %v", err)
	}
	raw, _, err := ref.Decode(b)
	if err != nil || !raw.Equal(got) {
		c.Fail("MarshalBSON is not the encoding of MarshalDocument: %v %v", raw, err)
	}
	c.Steps(2)
	same := func(q events.Performance) bool {
		return q.Timestamp.Equal(given.Timestamp) && q.ID == given.ID && q.Counters == given.Counters && q.Timers == given.Timers && q.Gauges == given.Gauges
	}
	var q events.Performance
	if err := q.UnmarshalDocument(doc); err != nil || !same(q) {
		c.Fail("read back %+v, wrote %+v (%v)", q, given, err)
	}
	// from bytes, with the fields in any rotation, into a point that has values
	for r := range want {
		rot := append(append(ref.Doc{}, want[r:]...), want[:r]...)
		d, err := birch.ReadDocument(rot.Encode())
		if err != nil {
			c.Fail("cannot read: %v", err)
		}
		q := events.Performance{Timestamp: time.UnixMilli(5), ID: 7, Counters: events.PerformanceCounters{Number: 3}, Gauges: events.PerformanceGauges{Failed: true}}
		if err := q.UnmarshalDocument(d); err != nil || !same(q) {
			c.Fail("read back %+v from %v (%v)", q, rot, err)
		}
		c.Step()
	}
	c.StateB(b)
}

// histogram configurations: lowest, highest, figures
var e04Hists = [][3]int64{{1, 10, 1}, {0, 100, 1}, {1, 1000, 2}, {1000, 1000000, 1}, {1, 3, 3}}

func e04Record(c *engine.Chooser, h *hdrhist.Histogram, n int) {
	vals := []int64{h.LowestTrackableValue(), h.LowestTrackableValue() + 1, h.HighestTrackableValue() / 2, h.HighestTrackableValue()}
	for range n {
		k := c.Choose(len(vals) + 1)
		if k == len(vals) {
			break
		}
		if err := h.RecordValue(vals[k]); err != nil {
			c.Fail("RecordValue(%d): %v", vals[k], err)
		}
	}
}

func histRef(h *hdrhist.Histogram) ref.Doc {
	s := h.Export()
	arr := ref.Doc{}
	for i, n := range s.Counts {
		arr = append(arr, ref.Elem{K: fmt.Sprint(i), V: i64(n)})
	}
	return ref.Doc{{K: "lowest", V: i64(s.LowestTrackableValue)}, {K: "highest", V: i64(s.HighestTrackableValue)},
		{K: "figures", V: i64(s.SignificantFigures)}, {K: "counts", V: ref.Val{T: ref.TArray, D: arr}}}
}

func e04Histogram(c *engine.Chooser) {
	k := engine.Pick(c, e04Hists)
	h := hdrhist.New(k[0], k[1], int(k[2]))
	e04Record(c, h, 4)
	c.NonTrivial()
	want := histRef(h)
	w := &bhist.Histogram{Histogram: h}
	doc, err := w.MarshalDocument()
	if err != nil {
		c.Fail("MarshalDocument: %v", err)
	}
	got, err := bb.FromDoc(doc)
	if err != nil || !unordered(got).Equal(unordered(want)) {
		c.Fail("document is %v, expected %v (%v)", got, want, err)
	}
	b, err := w.MarshalBSON()
	if err != nil {
		c.Fail("MarshalBSON: %v", err)
	}
	if raw, _, err := ref.Decode(b); err != nil || !raw.Equal(got) {
		c.Fail("MarshalBSON is not the encoding of MarshalDocument (%v)", err)
	}
	back := &bhist.Histogram{}
	if err := back.UnmarshalBSON(b); err != nil {
		c.Fail("UnmarshalBSON: %v", err)
	}
	sameHist(c, "BSON", back.Histogram, h)
	j, err := json.Marshal(w)
	if err != nil {
		c.Fail("MarshalJSON: %v", err)
	}
	jback := &bhist.Histogram{}
	if err := json.Unmarshal(j, jback); err != nil {
		c.Fail("UnmarshalJSON: %v", err)
	}
	sameHist(c, "JSON", jback.Histogram, h)
	c.Steps(4)
	c.StateB(b)
}

// e04Target drives one histogram through reading others into it, recording, and
// reads that fail: a read replaces what the histogram held, and one that fails
// leaves it as it was.
func e04Target(depth int) func(*engine.Chooser) {
	return func(c *engine.Chooser) { e04TargetOps(c, depth) }
}

func e04TargetOps(c *engine.Chooser, depth int) {
	mk := func(k int) *hdrhist.Histogram {
		h := hdrhist.New(e04Hists[k][0], e04Hists[k][1], int(e04Hists[k][2]))
		for i := 0; i < k; i++ {
			_ = h.RecordValue(1 + int64(i)%3)
		}
		return h
	}
	var target *bhist.Histogram
	var want *hdrhist.Histogram
	if k := c.Choose(len(e04Hists) + 1); k == len(e04Hists) {
		target = &bhist.Histogram{}
	} else {
		target, want = &bhist.Histogram{Histogram: mk(k)}, mk(k)
		_ = target.RecordValue(3)
		_ = want.RecordValue(3)
	}
	held := func(what string) {
		switch {
		case (want == nil) != (target.Histogram == nil):
			c.Fail("after %s, the histogram is %v", what, target.Histogram)
		case want != nil:
			sameHist(c, what, target.Histogram, want)
		}
	}
	var kept []*bhist.Histogram // copies of what it held before
	var keptWant []*hdrhist.Histogram
	for i := 0; i < depth; i++ {
		switch op := c.Choose(6); op {
		case 0: // read another
			k := c.Choose(len(e04Hists))
			b, err := (&bhist.Histogram{Histogram: mk(k)}).MarshalBSON()
			if err != nil {
				c.Fail("MarshalBSON: %v", err)
			}
			if target.Histogram != nil {
				kept, keptWant = append(kept, &bhist.Histogram{Histogram: target.Histogram}), append(keptWant, want)
			}
			c.Note("read histogram %d as BSON", k)
			if err := target.UnmarshalBSON(b); err != nil {
				c.Fail("UnmarshalBSON: %v", err)
			}
			clear(b)
			want = mk(k)
			c.NonTrivial()
		case 1:
			k := c.Choose(len(e04Hists))
			b, err := json.Marshal(&bhist.Histogram{Histogram: mk(k)})
			if err != nil {
				c.Fail("MarshalJSON: %v", err)
			}
			if target.Histogram != nil {
				kept, keptWant = append(kept, &bhist.Histogram{Histogram: target.Histogram}), append(keptWant, want)
			}
			c.Note("read histogram %d as JSON", k)
			if err := json.Unmarshal(b, target); err != nil {
				c.Fail("UnmarshalJSON: %v", err)
			}
			clear(b)
			want = mk(k)
			c.NonTrivial()
		case 2, 3: // what cannot be read
			k := 2 * c.Choose(2)
			b, _ := (&bhist.Histogram{Histogram: mk(k)}).MarshalBSON()
			read := target.UnmarshalBSON
			if op == 3 {
				b, _ = json.Marshal(&bhist.Histogram{Histogram: mk(k)})
				read = target.UnmarshalJSON
			}
			c.Note("read part of histogram %d", k)
			for n := 0; n < len(b); n += 1 + n/40 {
				if err := read(b[:n:n]); err == nil {
					c.Fail("the first %d bytes of % x were read as a histogram", n, b)
				}
				if n%16 == 0 {
					held("a failed read")
				}
			}
		case 4: // fields of other types
			k := 4
			for i, e := range histRef(mk(k)) {
				for _, v := range []ref.Val{str("x"), {T: ref.TNull}, {T: ref.TDoc}} {
					d := append(ref.Doc{}, histRef(mk(k))...)
					d[i].V = v
					if err := target.UnmarshalBSON(d.Encode()); err == nil {
						c.Fail("a histogram with %v as its %s was read", v, e.K)
					}
				}
				held("a failed read")
			}
			for i := 0; i < 3; i++ {
				d := histRef(mk(k))
				a := append(ref.Doc{}, d[3].V.D...)
				if i < len(a) {
					a[i].V = str("x")
					d[3].V.D = a
					if err := target.UnmarshalBSON(d.Encode()); err == nil {
						c.Fail("a histogram with a string among its counts was read")
					}
					held("a failed read")
				}
			}
		case 5:
			if want == nil {
				c.Skip()
			}
			c.Note("record")
			_ = target.RecordValue(2)
			_ = want.RecordValue(2)
		}
		held("the operations")
		for i, k := range kept {
			sameHist(c, "what it was before", k.Histogram, keptWant[i])
		}
		c.Step()
	}
}

// e04Registered drives the registration of global (un)marshalers, which reading
// a histogram and collecting other types rely on.
func e04Registered(c *engine.Chooser) {
	h := hdrhist.New(1, 100, 1)
	for _, v := range []int64{1, 7, 7, 90} {
		_ = h.RecordValue(v)
	}
	data, err := (&bhist.Histogram{Histogram: h}).MarshalBSON()
	if err != nil {
		c.Fail("MarshalBSON: %v", err)
	}
	bad := errors.New("refused")
	un := func(n int64) func([]byte, any) error {
		return func(in []byte, out any) error {
			if n == 2 {
				return bad
			}
			s, ok := out.(*hdrhist.Snapshot)
			if !ok || !bytes.Equal(in, data) {
				return fmt.Errorf("asked to read % x into %T", in, out)
			}
			*s = *h.Export()
			s.Counts = append([]int64{}, s.Counts...)
			s.Counts[0] += n
			return nil
		}
	}
	// nothing here may block for good
	within := func(what string, fn func()) {
		done := make(chan struct{})
		go func() { defer close(done); fn() }()
		select {
		case <-done:
		case <-time.After(30 * time.Second):
			c.Fail("%s did not return", what)
		}
	}
	defer within("unregistering", func() { util.RegisterGlobalUnmarshaler(nil); util.RegisterGlobalMarshaler(nil) })
	cur, curM := int64(-1), int64(-1)
	for i := 0; i < 4; i++ {
		switch op := c.Choose(8); op {
		case 0, 1, 2:
			c.Note("register unmarshaler %d", op)
			within("RegisterGlobalUnmarshaler", func() { util.RegisterGlobalUnmarshaler(un(int64(op))) })
			cur = int64(op)
		case 3:
			c.Note("register no unmarshaler")
			within("RegisterGlobalUnmarshaler", func() { util.RegisterGlobalUnmarshaler(nil) })
			cur = -1
		case 4, 5:
			c.Note("register marshaler %d", op)
			within("RegisterGlobalMarshaler", func() {
				util.RegisterGlobalMarshaler(func(in any) ([]byte, error) { return []byte{byte(op)}, nil })
			})
			curM = int64(op)
		case 6:
			c.Note("register no marshaler")
			within("RegisterGlobalMarshaler", func() { util.RegisterGlobalMarshaler(nil) })
			curM = -1
		case 7:
			c.NonTrivial()
			c.Note("read")
			back := &bhist.Histogram{}
			var err error
			within("UnmarshalBSON", func() { err = back.UnmarshalBSON(data) })
			switch {
			case cur == 2:
				if !errors.Is(err, bad) {
					c.Fail("a failing unmarshaler is registered, and reading a histogram gives %v", err)
				}
			case err != nil:
				c.Fail("reading a histogram: %v", err)
			case cur == 1:
				w := h.Export()
				w.Counts = append([]int64{}, w.Counts...)
				w.Counts[0]++
				sameHist(c, "registered", back.Histogram, hdrhist.Import(w))
			default:
				sameHist(c, "registered", back.Histogram, h)
			}
		}
		within("GlobalMarshaler", func() {
			m := util.GlobalMarshaler()
			if (m != nil) != (curM >= 0) {
				c.Note("marshaler %v, want %d", m != nil, curM)
				curM = -100
				return
			}
			if m != nil {
				if b, err := m(nil); err != nil || len(b) != 1 || int64(b[0]) != curM {
					curM = -100
				}
			}
			if u := util.GlobalUnmarshaler(); (u != nil) != (cur >= 0) {
				curM = -100
			}
		})
		if curM == -100 {
			c.Fail("the registered (un)marshalers are not the ones returned")
		}
		c.Step()
		c.State(fmt.Sprint(cur, curM))
	}
}

func sameHist(c *engine.Chooser, how string, a, b *hdrhist.Histogram) {
	if !reflect.DeepEqual(a.Export(), b.Export()) || a.TotalCount() != b.TotalCount() || a.Max() != b.Max() || a.Min() != b.Min() {
		c.Fail("histogram read back from %s differs: %+v, expected %+v", how, a.Export(), b.Export())
	}
}

// e04HDR: a point of histograms carries each of them in its place.
func e04HDR(c *engine.Chooser) {
	p := events.PerformanceHDR{Timestamp: engine.Pick(c, e04Times), ID: engine.Pick(c, e04Ints)}
	p.Gauges.Failed = c.Bool()
	p.Gauges.State, p.Gauges.Workers = 3, 4
	hs := make([]*hdrhist.Histogram, 6)
	for i := range hs {
		hs[i] = hdrhist.New(1, 10, 1)
	}
	p.Counters = events.PerformanceCountersHDR{Number: hs[0], Operations: hs[1], Size: hs[2], Errors: hs[3]}
	p.Timers = events.PerformanceTimersHDR{Duration: hs[4], Total: hs[5]}
	i := c.Choose(6)
	_ = hs[i].RecordValue(int64(1 + c.Choose(3)))
	j := c.Choose(6)
	_ = hs[j].RecordValue(7)
	c.NonTrivial()
	doc, err := p.MarshalDocument()
	if err != nil {
		c.Fail("MarshalDocument: %v", err)
	}
	got, err := bb.FromDoc(doc)
	if err != nil {
		c.Fail("invalid document: %v", err)
	}
	hd := func(i int) ref.Val { return ref.Val{T: ref.TDoc, D: histRef(hs[i])} }
	want := ref.Doc{
		{K: "ts", V: ref.Val{T: ref.TDate, I: p.Timestamp.UnixMilli()}},
		{K: "id", V: i64(p.ID)},
		{K: "counters", V: sub("n", hd(0), "ops", hd(1), "size", hd(2), "errors", hd(3))},
		{K: "timers", V: sub("dur", hd(4), "total", hd(5))},
		{K: "gauges", V: sub("state", i64(3), "workers", i64(4), "failed", ref.Val{T: ref.TBool, B: p.Gauges.Failed})},
	}
	if !unordered(got).Equal(unordered(want)) {
		c.Fail("document is %v, expected %v", got, want)
	}
	c.StateB(got.Encode())
	c.Step()
}

type customCase struct {
	in    any
	norm  string
	fails bool // has no BSON form: marshalling reports it
}

func normCustom(v any) string {
	rv := reflect.ValueOf(v)
	if t, ok := v.(time.Time); ok {
		return fmt.Sprintf("t%d", t.UnixMilli())
	}
	switch rv.Kind() {
	case reflect.Int, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("i%d", rv.Int())
	case reflect.Uint32, reflect.Uint64:
		return fmt.Sprintf("i%d", rv.Uint())
	case reflect.Float32, reflect.Float64:
		return fmt.Sprintf("f%x", math.Float64bits(rv.Float()))
	case reflect.Bool:
		return fmt.Sprintf("b%v", rv.Bool())
	case reflect.Slice:
		s := "["
		for i := range rv.Len() {
			s += normCustom(rv.Index(i).Interface()) + " "
		}
		return s + "]"
	}
	return fmt.Sprintf("?%T %v", v, v)
}

var customGood = []any{
	int64(0), int64(math.MaxInt64), int64(math.MinInt64), int64(math.MaxInt32), int64(math.MaxInt32) + 1,
	int32(0), int32(math.MaxInt32), int32(math.MinInt32),
	0, -1, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1, math.MaxInt64,
	true, false, time.UnixMilli(1600000000123), time.UnixMilli(-1),
	0.0, math.Copysign(0, -1), 1.5, math.Inf(1), math.MaxFloat64, float32(1.5), float32(math.MaxFloat32),
	uint32(0), uint32(math.MaxInt32), uint32(math.MaxInt32) + 1, uint32(math.MaxUint32),
	uint64(0), uint64(math.MaxInt32), uint64(math.MaxInt32) + 1, uint64(math.MaxInt64), uint64(math.MaxInt64) + 1,
	[]int64{}, []int64{1, math.MinInt64}, []int32{-5, math.MaxInt32}, []int{1, math.MaxInt64, -2}, []bool{}, []bool{true, false, true},
	[]time.Time{time.UnixMilli(5), time.UnixMilli(-5)}, []float64{1.5, -2.5}, []float32{0.5}, []uint32{1, math.MaxUint32}, []uint64{7, math.MaxInt64},
	[]uint64{1, math.MaxUint64},
}

var customBad = []any{
	nil, "text", int8(1), int16(1), uint8(1), uint16(1), uint(1), time.Second, complex(1, 2), struct{}{}, map[string]int{}, []string{"a"},
	[]any{1}, []int8{1}, []byte{1}, []uint{1}, []time.Duration{1}, new(int), events.Custom{}, [2]int{1, 2}, [][]int{{1}}, func() {},
}

func customFails(v any) bool {
	switch t := v.(type) {
	case uint64:
		return t > math.MaxInt64
	case []uint64:
		for _, u := range t {
			if u > math.MaxInt64 {
				return true
			}
		}
	}
	return false
}

func e04CustomValues(c *engine.Chooser) {
	n := 1 + c.Choose(2)
	ps := events.MakeCustom(0)
	type kv struct {
		k string
		v any
	}
	var want []kv
	fails := false
	for i := range n {
		k := c.Choose(len(customGood) + len(customBad))
		key := string(rune('a' + i))
		if k >= len(customGood) {
			v := customBad[k-len(customGood)]
			if err := ps.Add(key, v); err == nil {
				c.Fail("Add accepted %T", v)
			}
		} else {
			v := customGood[k]
			if err := ps.Add(key, v); err != nil {
				c.Fail("Add refused %T: %v", v, err)
			}
			want = append(want, kv{key, v})
			fails = fails || customFails(v)
		}
		if ps.Len() != len(want) || len(ps) != len(want) {
			c.Fail("the set has %d points, expected %d", ps.Len(), len(want))
		}
	}
	c.NonTrivial()
	b, err := ps.MarshalBSON()
	if fails {
		if err == nil {
			c.Fail("a value without BSON form was marshalled: %v", want)
		}
		return
	}
	if err != nil {
		c.Fail("MarshalBSON: %v (%v)", err, want)
	}
	raw, _, err := ref.Decode(b)
	if err != nil {
		c.Fail("invalid BSON: %v", err)
	}
	if len(raw) != len(want) {
		c.Fail("%d fields for %d points", len(raw), len(want))
	}
	var back events.Custom
	if err := back.UnmarshalBSON(b); err != nil {
		c.Fail("UnmarshalBSON: %v", err)
	}
	for i, w := range want {
		if back[i].Name != w.k || raw[i].K != w.k || normCustom(back[i].Value) != normCustom(w.v) {
			c.Fail("point %d is %q=%v (%T), expected %q=%v", i, back[i].Name, back[i].Value, back[i].Value, w.k, w.v)
		}
	}
	c.Steps(3)
	c.StateB(b)
}

func e04CustomOrder(depth int, names []string, least int) func(c *engine.Chooser) {
	return func(c *engine.Chooser) {
		ps := events.MakeCustom(2)
		type kv struct {
			k string
			i int
		}
		var want []kv
		n := least + c.Choose(depth+1-least)
		for i := range n {
			k := engine.Pick(c, names)
			if err := ps.Add(k, int64(i)); err != nil {
				c.Fail("Add: %v", err)
			}
			want = append(want, kv{k, i})
		}
		// a stable insertion sort
		for i := range want {
			for j := i; j > 0 && want[j].k < want[j-1].k; j-- {
				want[j], want[j-1] = want[j-1], want[j]
			}
		}
		c.NonTrivial()
		var cmp events.Custom
		if c.Bool() {
			ps.Sort()
			cmp = ps
		} else {
			b, err := ps.MarshalBSON()
			if err != nil {
				c.Fail("MarshalBSON: %v", err)
			}
			if err := cmp.UnmarshalBSON(b); err != nil {
				c.Fail("UnmarshalBSON: %v", err)
			}
			c.StateB(b)
		}
		if len(cmp) != len(want) {
			c.Fail("%d points, expected %d", len(cmp), len(want))
		}
		for i, w := range want {
			if cmp[i].Name != w.k || cmp[i].Value != int64(w.i) {
				c.Fail("sorted order is %v, expected %v", cmp, want)
			}
		}
		c.Step()
	}
}

// e04Add: adding an event is the documented accumulation.
func e04Add(c *engine.Chooser) {
	mk := func(seed int64) events.Performance {
		return events.Performance{Timestamp: time.UnixMilli(seed), ID: seed,
			Counters: events.PerformanceCounters{Number: seed + 1, Operations: seed + 2, Size: seed + 3, Errors: seed + 4},
			Timers:   events.PerformanceTimers{Duration: time.Duration(seed + 5), Total: time.Duration(seed + 6)},
			Gauges:   events.PerformanceGauges{State: seed + 7, Workers: seed + 8, Failed: seed%2 == 1}}
	}
	vals := []int64{0, 1, -1, 1000, math.MaxInt32, 1 << 50}
	a, b := mk(engine.Pick(c, vals)), mk(engine.Pick(c, vals))
	if c.Bool() {
		b.ID = 0
	}
	p, q := a, b
	p.Add(&q)
	c.NonTrivial()
	c.Step()
	if q != b {
		c.Fail("Add changed its argument from %+v to %+v", b, q)
	}
	id := b.ID
	if id == 0 {
		id = a.ID + 1
	}
	want := events.Performance{Timestamp: b.Timestamp, ID: id, Gauges: b.Gauges,
		Counters: events.PerformanceCounters{Number: a.Counters.Number + b.Counters.Number, Operations: a.Counters.Operations + b.Counters.Operations,
			Size: a.Counters.Size + b.Counters.Size, Errors: a.Counters.Errors + b.Counters.Errors},
		Timers: events.PerformanceTimers{Duration: a.Timers.Duration + b.Timers.Duration, Total: a.Timers.Total + b.Timers.Total}}
	if p != want {
		c.Fail("adding %+v to %+v gives %+v, expected %+v", b, a, p, want)
	}
	c.State(fmt.Sprint(p))
}

var E04 = &engine.Property{
	ID: "E04", Level: "exhaustive",
	Families: func(tier string) []engine.Family {
		depth := 6
		if tier == "thorough" {
			depth = 8
		}
		return []engine.Family{
			{Name: "performance", Rule: "every case", Bounds: "8 times x both flags x every pair of the nine integer fields at 7 boundary values; read back from the document and from bytes in every rotation of the fields", Run: e04Performance},
			{Name: "add", Rule: "every case", Bounds: "6 x 6 points, with and without an id", Run: e04Add},
			{Name: "histogram", Rule: "every case", Bounds: "5 configurations x up to 4 recorded values at the boundaries, BSON and JSON", Run: e04Histogram},
			{Name: "histogram-target", Rule: "a histogram was read", Bounds: fmt.Sprintf("all sequences of %d operations on a new or used histogram: read another as BSON or JSON, read strict prefixes of one (every length up to 40, then sparser), read one with fields of other types, or record", depth/2), Run: e04Target(depth / 2)},
			{Name: "registered", Rule: "a histogram was read", Serial: true, Bounds: "all sequences of 4 operations out of 8: register one of two (un)marshalers, one that fails, or none, and reading a histogram", Run: e04Registered},
			{Name: "hdr", Rule: "every case", Bounds: "8 times x 7 ids x both flags x values in every pair of the six histograms", Run: e04HDR},
			{Name: "custom-values", Rule: "every case", Bounds: "up to two points out of 46 values of all supported types and 22 of unsupported types", Run: e04CustomValues},
			{Name: "custom-order", Rule: "every case", Bounds: fmt.Sprintf("up to %d points over 5 names", depth), Run: e04CustomOrder(depth, []string{"b", "a", "", "ab", "B"}, 0)},
			{Name: "custom-order-long", Rule: "every case", Bounds: fmt.Sprintf("13 to %d points over 2 names", depth+8), Run: e04CustomOrder(depth+8, []string{"b", "a"}, 13)},
		}
	},
}
