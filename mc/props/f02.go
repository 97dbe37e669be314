package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"birchmc/bb"
	"birchmc/engine"
	"birchmc/ref"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
)

// fsink is the destination of a streaming collector; writes numbered in fail
// are refused.
type fsink struct {
	buf    bytes.Buffer
	n      int
	fail   map[int]bool
	all    bool
	closed bool
}

func (s *fsink) Write(p []byte) (int, error) {
	s.n++
	if s.all || s.fail[s.n] {
		return 0, errInjected
	}
	return s.buf.Write(p)
}
func (s *fsink) Close() error { s.closed = true; return nil }

type collKind struct {
	name    string
	mk      func(size int, out *fsink) ftdc.Collector
	dynamic bool // accepts any schema
	stream  bool // flushes by itself
	fixed   bool // refuses samples beyond its size
	format  string
}

func collKinds() []collKind {
	return []collKind{
		{name: "base", mk: func(n int, _ *fsink) ftdc.Collector { return ftdc.NewBaseCollector(n) }, fixed: true},
		{name: "batch", mk: func(n int, _ *fsink) ftdc.Collector { return ftdc.NewBatchCollector(n) }},
		{name: "dynamic", mk: func(n int, _ *fsink) ftdc.Collector { return ftdc.NewDynamicCollector(n) }, dynamic: true},
		{name: "streaming", mk: func(n int, o *fsink) ftdc.Collector { return ftdc.NewStreamingCollector(n, o) }, stream: true},
		{name: "streaming-dynamic", mk: func(n int, o *fsink) ftdc.Collector { return ftdc.NewStreamingDynamicCollector(n, o) }, stream: true, dynamic: true},
		{name: "bson", mk: func(n int, _ *fsink) ftdc.Collector { return ftdc.NewUncompressedCollectorBSON(n) }, fixed: true, format: "bson"},
		{name: "json", mk: func(n int, _ *fsink) ftdc.Collector { return ftdc.NewUncompressedCollectorJSON(n) }, fixed: true, format: "json"},
		{name: "streaming-bson", mk: func(n int, o *fsink) ftdc.Collector { return ftdc.NewStreamingUncompressedCollectorBSON(n, o) }, stream: true, format: "bson"},
		{name: "streaming-json", mk: func(n int, o *fsink) ftdc.Collector { return ftdc.NewStreamingUncompressedCollectorJSON(n, o) }, stream: true, format: "json"},
		{name: "streaming-dynamic-bson", mk: func(n int, o *fsink) ftdc.Collector {
			return ftdc.NewStreamingDynamicUncompressedCollectorBSON(n, o)
		}, stream: true, dynamic: true, format: "bson"},
		{name: "streaming-dynamic-json", mk: func(n int, o *fsink) ftdc.Collector {
			return ftdc.NewStreamingDynamicUncompressedCollectorJSON(n, o)
		}, stream: true, dynamic: true, format: "json"},
		{name: "sampling(0,dynamic)", mk: func(n int, _ *fsink) ftdc.Collector { return ftdc.NewSamplingCollector(0, ftdc.NewDynamicCollector(n)) }, dynamic: true},
		{name: "synchronized(streaming-dynamic)", mk: func(n int, o *fsink) ftdc.Collector {
			return ftdc.NewSynchronizedCollector(ftdc.NewStreamingDynamicCollector(n, o))
		}, stream: true, dynamic: true},
	}
}

// f02Sample is the n-th sample, in schema s.
func f02Sample(s, n int) ref.Doc {
	x := int64(n*n*1000 + 7)
	switch s {
	case 1: // one more metric, nested
		return ref.Doc{{K: "a", V: ref.Val{T: ref.TInt64, I: x}}, {K: "b", V: ref.Val{T: ref.TDoc, D: ref.Doc{{K: "c", V: i32(int64(n))}}}}}
	case 2: // the first schema under another name
		return ref.Doc{{K: "z", V: ref.Val{T: ref.TInt64, I: x}}, {K: "s", V: str("v")}}
	case 3: // no metrics
		return ref.Doc{{K: "s", V: str("w")}, {K: "s2", V: str("v")}}
	case 4: // the first schema with another type
		return ref.Doc{{K: "a", V: i32(x)}, {K: "s", V: str("v")}}
	case 5: // the second schema's metrics the other way around
		return ref.Doc{{K: "b", V: ref.Val{T: ref.TDoc, D: ref.Doc{{K: "c", V: i32(int64(n))}}}}, {K: "a", V: ref.Val{T: ref.TInt64, I: x}}}
	}
	return ref.Doc{{K: "a", V: ref.Val{T: ref.TInt64, I: x}}, {K: "s", V: str("v")}}
}

// scribble destroys an input after it was handed over.
func scribble(in any) {
	switch x := in.(type) {
	case *birch.Document:
		for e := range x.Iterator() {
			if e.Value().Type() == 0x03 {
				e.Value().MutableDocument().Set(birch.EC.String("c", "scribbled"))
			}
			e.SetValue(birch.VC.Int64(-666))
		}
		x.Append(birch.EC.Int64("scribbled", 1))
	case []byte:
		for i := range x {
			x[i] = 0xAA
		}
	}
}

const metaMark = "meta-mark"

// decodeOut reads the samples back from a collector's output.
func decodeOut(format string, data []byte, samples []ref.Doc) error {
	switch format {
	case "":
		if len(data) == 0 {
			if len(samples) > 0 {
				return fmt.Errorf("no output for %d samples", len(samples))
			}
			return nil
		}
		_, err := checkFTDC(data, samples)
		return err
	case "bson":
		var got []ref.Doc
		for len(data) > 0 {
			d, n, err := ref.Decode(data)
			if err != nil {
				return fmt.Errorf("reading back: %w", err)
			}
			data = data[n:]
			if len(d) == 0 || d[0].K != metaMark {
				got = append(got, d)
			}
		}
		return sameDocs("samples", got, samples)
	default:
		i := 0
		for _, line := range strings.SplitAfter(string(data), "\n") {
			if line == "" {
				continue
			}
			n, ok := parseJSON([]byte(line))
			if !ok || !strings.HasSuffix(line, "\n") {
				return fmt.Errorf("output line %q is not a JSON document", line)
			}
			if strings.Contains(line, metaMark) {
				continue
			}
			if i >= len(samples) {
				return fmt.Errorf("more than %d documents", len(samples))
			}
			if err := plainTree(ref.Val{T: ref.TDoc, D: samples[i]}, n); err != nil {
				return fmt.Errorf("document %d is %s, want %s: %w", i, line, samples[i], err)
			}
			i++
		}
		if i != len(samples) {
			return fmt.Errorf("%d documents, want %d", i, len(samples))
		}
		return nil
	}
}

// f02Run drives one collector and its model.
type f02Run struct {
	c     *engine.Chooser
	k     collKind
	size  int
	out   *fsink
	coll  ftdc.Collector
	all   []ref.Doc // accepted and not reset away, in order
	held  []ref.Doc // of those, the ones not yet written out
	n     int
	form  int
	trace strings.Builder
	kept  [][2][]byte // what resolve returned, and what it was then
}

func newF02(c *engine.Chooser, k collKind, size, form int) *f02Run {
	r := &f02Run{c: c, k: k, size: size, out: &fsink{fail: map[int]bool{}}, form: form}
	r.coll = k.mk(size, r.out)
	c.Note("%s collector of %d", k.name, size)
	fmt.Fprintf(&r.trace, "%s/%d/%d", k.name, size, form)
	return r
}

// settle accounts for what an operation wrote out: the model follows the
// reported count, the output check verifies it.
func (r *f02Run) settle(what string) {
	n := r.coll.Info().SampleCount
	if n > len(r.held) || n < 0 {
		r.c.Fail("after %s the collector reports %d samples, it can hold %d", what, n, len(r.held))
	}
	if n < len(r.held) {
		if !r.k.stream {
			r.c.Fail("after %s the collector reports %d samples, it holds %d", what, n, len(r.held))
		}
		r.held = r.held[len(r.held)-n:]
	}
}

func (r *f02Run) add(schema int) {
	r.n++
	d := f02Sample(schema, r.n)
	in := addForm(r.form, d)
	r.c.Note("add %s", d)
	fmt.Fprintf(&r.trace, "|a%d", schema)
	must := r.k.dynamic
	if !must && (len(r.held) == 0 || schemaOf(r.held[len(r.held)-1]) == schemaOf(d)) {
		must = !r.k.fixed || len(r.held) < r.size
	}
	wrote := r.out.n
	failed := r.out.n
	err := r.coll.Add(in)
	r.c.Step()
	for i := wrote + 1; i <= r.out.n; i++ {
		if r.out.all || r.out.fail[i] {
			failed = i
		}
	}
	scribble(in)
	if err != nil {
		if failed == wrote && must {
			r.c.Fail("adding sample %s: %v", d, err)
		}
		r.settle("a refused add")
		return
	}
	if failed != wrote {
		r.c.Fail("adding %s reports success although writing failed", d)
	}
	r.all = append(r.all, d)
	r.held = append(r.held, d)
	r.settle(fmt.Sprintf("adding %s", d))
}

func (r *f02Run) bad(i int) {
	var in any
	switch i {
	case 0:
		in = nil
	case 1: // an embedded document whose length is wrong
		b := ref.Doc{{K: "a", V: ref.Val{T: ref.TInt64}}, {K: "b", V: ref.Val{T: ref.TDoc, D: ref.Doc{{K: "c", V: i32(1)}}}}}.Encode()
		b[4+3+8+3] = 100
		in = b
	case 2:
		in = map[string]string{"a": "b"}
	case 3:
		in = bsonMarsh{err: errInjected}
	}
	r.c.Note("add invalid input %d", i)
	fmt.Fprintf(&r.trace, "|x%d", i)
	err := r.coll.Add(in)
	r.c.Step()
	if err == nil {
		r.c.Fail("invalid input %d was accepted", i)
	}
	r.settle("a refused add")
}

func (r *f02Run) meta(i int) {
	var in any
	if i > 0 {
		in = bb.Doc(ref.Doc{{K: metaMark, V: i32(int64(i))}})
	}
	r.c.Note("set metadata %d", i)
	fmt.Fprintf(&r.trace, "|m%d", i)
	if err := r.coll.SetMetadata(in); err != nil {
		r.c.Fail("setting metadata: %v", err)
	}
	if i > 0 {
		scribble(in)
	}
	r.c.Step()
	r.settle("setting metadata")
}

func (r *f02Run) resolve() {
	r.c.Note("resolve")
	fmt.Fprintf(&r.trace, "|r")
	data, err := r.coll.Resolve()
	r.c.Step()
	if len(r.held) == 0 {
		// empty collectors may refuse; what they return holds no samples
		if err == nil {
			if derr := decodeOut(r.k.format, data, nil); derr != nil {
				r.c.Fail("resolving an empty collector: %v", derr)
			}
		}
		r.settle("resolve")
		return
	}
	if err != nil {
		r.c.Fail("resolve with %d samples: %v", len(r.held), err)
	}
	if derr := decodeOut(r.k.format, data, r.held); derr != nil {
		r.c.Fail("resolved: %v", derr)
	}
	r.kept = append(r.kept, [2][]byte{data, append([]byte(nil), data...)})
	r.settle("resolve")
}

func (r *f02Run) flush() {
	r.c.Note("flush")
	fmt.Fprintf(&r.trace, "|f")
	bad := r.out.all || r.out.fail[r.out.n+1]
	empty := len(r.held) == 0
	err := ftdc.FlushCollector(r.coll, r.out)
	r.c.Step()
	if bad && !empty {
		if err == nil {
			r.c.Fail("flushing reports success although writing failed")
		}
		r.settle("a failed flush")
		return
	}
	if err != nil {
		r.c.Fail("flush of %d samples: %v", len(r.held), err)
	}
	if n := r.coll.Info().SampleCount; n != 0 {
		r.c.Fail("%d samples left after a flush", n)
	}
	r.held = nil
}

func (r *f02Run) reset() {
	r.c.Note("reset")
	fmt.Fprintf(&r.trace, "|R")
	r.all = r.all[:len(r.all)-len(r.held)]
	r.held = nil
	r.coll.Reset()
	r.c.Step()
	if n := r.coll.Info().SampleCount; n != 0 {
		r.c.Fail("%d samples left after a reset", n)
	}
}

func (r *f02Run) finish() {
	r.c.State(r.trace.String())
	r.out.all, r.out.fail = false, nil
	written := r.all[:len(r.all)-len(r.held)]
	if err := decodeOut(r.k.format, r.out.buf.Bytes(), written); err != nil {
		r.c.Fail("written out: %v", err)
	}
	r.resolve()
	r.flush()
	if err := decodeOut(r.k.format, r.out.buf.Bytes(), r.all); err != nil {
		r.c.Fail("written out at the end: %v", err)
	}
	for i, k := range r.kept {
		if !bytes.Equal(k[0], k[1]) {
			r.c.Fail("the bytes of resolve %d changed afterwards", i)
		}
	}
}

var _ io.Writer = &fsink{}
var _ = errors.New

var F02 = &engine.Property{
	ID: "F02", Level: "exhaustive within bounds on the real code against a reference sample list",
	Assume: []string{
		"collectors that are not documented to handle schema changes are not given samples with the same number and types of metrics under other names",
		"short writes by the destination are not modelled, refused writes are",
	},
	Families: func(tier string) []engine.Family {
		deep := tier == "thorough"
		depth, adds := 5, 7
		if deep {
			depth, adds = 6, 9
		}
		kinds := collKinds()
		return biggestLast("histories", []engine.Family{
			{Name: "histories", Bounds: fmt.Sprintf("%d collector kinds x sizes 1 and 2: all histories of %d operations out of add (2 schemas), set metadata, unset metadata, add invalid, resolve, flush, reset", len(kinds), depth), Rule: "a sample is recorded", Split: 3,
				Run: func(c *engine.Chooser) {
					k := engine.Pick(c, kinds)
					r := newF02(c, k, 1+c.Choose(2), 0)
					for i := 0; i < depth; i++ {
						switch c.Choose(8) {
						case 0:
							r.add(0)
						case 1:
							r.add(1)
						case 2:
							r.meta(1)
						case 3:
							r.bad(0)
						case 4:
							r.resolve()
						case 5:
							r.flush()
						case 6:
							r.reset()
						case 7:
							r.meta(0)
						}
						if len(r.held) > 0 {
							c.NonTrivial()
						}
					}
					r.finish()
				}},
			{Name: "adds", Bounds: fmt.Sprintf("%d collector kinds x sizes 1 to 4: all sequences of up to %d samples of two schemas", len(kinds), adds), Rule: "a schema change", Split: 3,
				Run: func(c *engine.Chooser) {
					k := engine.Pick(c, kinds)
					r := newF02(c, k, 1+c.Choose(4), 0)
					other := 1
					if c.Bool() {
						other = 4
					}
					last := -1
					for i := 0; i < adds; i++ {
						s := c.Choose(3)
						if s == 2 {
							break
						}
						if s == 1 {
							s = other
						}
						if last >= 0 && last != s {
							c.NonTrivial()
						}
						last = s
						r.add(s)
					}
					r.finish()
				}},
			{Name: "schemas", Bounds: "schema-aware collector kinds x sizes 1 to 3: all sequences of 5 samples out of 6 schemas (renamed, retyped, reordered, nested, without metrics), each input form", Rule: "a schema change", Split: 3,
				Run: func(c *engine.Chooser) {
					var ks []collKind
					for _, k := range kinds {
						if k.dynamic {
							ks = append(ks, k)
						}
					}
					k := engine.Pick(c, ks)
					form := 0
					size := 1 + c.Choose(3)
					n := 4
					if deep {
						form, n = c.Choose(4), 5
					} else if size == 2 {
						form = c.Choose(4)
					}
					r := newF02(c, k, size, form)
					last := -1
					for i := 0; i < n; i++ {
						s := c.Choose(6)
						if last >= 0 && last != s {
							c.NonTrivial()
						}
						last = s
						r.add(s)
					}
					r.finish()
				}},
			{Name: "invalid", Bounds: "every collector kind: every kind of unusable input at every position of 3 samples", Rule: "always",
				Run: func(c *engine.Chooser) {
					k := engine.Pick(c, kinds)
					r := newF02(c, k, 2+c.Choose(2), c.Choose(4))
					at, what := c.Choose(4), c.Choose(4)
					c.NonTrivial()
					for i := 0; i < 4; i++ {
						if i == at {
							r.bad(what)
						}
						if i < 3 && (!k.fixed || i < r.size) {
							r.add(0)
						}
					}
					r.finish()
				}},
			{Name: "write-faults", Bounds: "streaming collector kinds x sizes 1 and 2: all sequences of 5 operations (add of 3 schemas, flush) x every subset of the first 3 writes refused", Rule: "a write is refused", Split: 3,
				Run: func(c *engine.Chooser) {
					var ks []collKind
					for _, k := range kinds {
						if k.stream {
							ks = append(ks, k)
						}
					}
					k := engine.Pick(c, ks)
					r := newF02(c, k, 1+c.Choose(2), 0)
					for i := 1; i <= 3; i++ {
						if c.Bool() {
							r.out.fail[i] = true
							c.NonTrivial()
						}
					}
					fmt.Fprintf(&r.trace, "%v", r.out.fail)
					c.Note("writes refused: %v", r.out.fail)
					n := 5
					if deep {
						n = 6
					}
					for i := 0; i < n; i++ {
						switch o := c.Choose(4); o {
						case 3:
							r.flush()
						case 2:
							if !k.dynamic {
								r.add(4)
							} else {
								r.add(2)
							}
						default:
							r.add(o)
						}
					}
					r.finish()
				}},
			{Name: "forms", Serial: true, Bounds: "every collector kind: every pair of the 12 Go forms of a sample (documents, bytes, marshalers, maps of 5 kinds, types of a registered marshaler), and every form with each of 17 unusable inputs at every position", Rule: "always", Run: f02FormsRun},
			{Name: "arrays", Bounds: fmt.Sprintf("schema-aware collector kinds x sizes 1 and 2: all sequences of %d samples out of 8 schemas that differ inside arrays", depth-1), Rule: "a schema change", Split: 3, Run: f02Arrays(depth - 1)},
			{Name: "nowhere", Bounds: "every collector kind holding up to 2 samples: flush without a writer and to one that takes half", Rule: "a sample is held", Run: f02Nowhere},
			{Name: "writer", Bounds: "the writer collector x sizes 1 to 3: all sequences of 5 samples out of 5 schemas, write of malformed bytes, refused writes", Rule: "a schema change", Split: 3,
				Run: func(c *engine.Chooser) {
					out := &fsink{}
					size := 1 + c.Choose(3)
					w := ftdc.NewWriterCollector(size, out)
					var want []ref.Doc
					last := -1
					st := fmt.Sprint(size)
					for i := 0; i < 5; i++ {
						s := c.Choose(7)
						st += fmt.Sprint("|", s)
						if s == 6 {
							c.Note("write malformed bytes")
							if n, err := w.Write([]byte{9, 0, 0, 0, 1, 2, 3}); err == nil {
								c.Fail("malformed bytes were accepted (%d)", n)
							}
							continue
						}
						if last >= 0 && s != last {
							c.NonTrivial()
						}
						last = s
						d := f02Sample(s, i)
						c.Note("write %s", d)
						b := d.Encode()
						n, err := w.Write(b)
						c.Step()
						if err != nil || n != len(b) {
							c.Fail("writing %s: %d of %d, %v", d, n, len(b), err)
						}
						scribble(b)
						want = append(want, d)
					}
					c.State(st)
					if err := w.Close(); err != nil {
						c.Fail("close: %v", err)
					}
					if !out.closed {
						c.Fail("the underlying writer was not closed")
					}
					if err := decodeOut("", out.buf.Bytes(), want); err != nil {
						c.Fail("%v", err)
					}
				}},
		})
	},
}
