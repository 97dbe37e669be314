package props

import (
	"fmt"
	"math"
	"strings"

	"birchmc/bb"
	"birchmc/engine"
	"birchmc/ref"

	"github.com/tychoish/birch/x/ftdc"
)

func f01Alphabet(t byte, full bool) []ref.Val {
	var out []ref.Val
	ints := func(xs ...int64) {
		for _, x := range xs {
			out = append(out, ref.Val{T: t, I: x})
		}
	}
	switch t {
	case ref.TInt64:
		ints(0, 1, -1, 127, 128, -128, 16383, math.MaxInt32, math.MaxInt64, math.MinInt64)
		if full {
			ints(1<<53+1, math.MinInt32, math.MaxInt64-1, -16384)
		}
	case ref.TInt32:
		ints(0, 1, -1, 127, 128, 255, math.MaxInt32, math.MinInt32)
		if full {
			ints(65535, -129, math.MaxInt32-1)
		}
	case ref.TDate:
		ints(0, 1, -1, 999, 1000, 1500000000123, -1500000000123, math.MaxInt64, math.MinInt64)
		if full {
			ints(-999, 253402300800000, -62135596800001)
		}
	case ref.TBool:
		out = append(out, ref.Val{T: t}, ref.Val{T: t, B: true})
	case ref.TDouble:
		fs := []float64{0, math.Copysign(0, -1), 1, -1.5, 0.1, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN()}
		if full {
			fs = append(fs, 1<<53, -math.MaxFloat64, 1e-300)
		}
		for _, f := range fs {
			out = append(out, ref.Val{T: t, F: f})
		}
	case ref.TTimestamp:
		for _, p := range [][2]uint32{{0, 0}, {1, 0}, {0, 1}, {1, 1}, {math.MaxUint32, 0}, {0, math.MaxUint32}, {math.MaxInt32, 7}, {1500000000, math.MaxUint32}} {
			out = append(out, ref.Val{T: t, U: p[0], V: p[1]})
		}
	}
	return out
}

var f01Types = []byte{ref.TInt64, ref.TInt32, ref.TDate, ref.TBool, ref.TDouble, ref.TTimestamp}

// f01Check encodes samples with a base collector and reads them back.
func f01Check(c *engine.Chooser, samples []ref.Doc, spare, form int) {
	coll := ftdc.NewBaseCollector(len(samples) - 1 + spare)
	var key strings.Builder
	for i, s := range samples {
		if len(samples) <= 400 {
			c.Note("sample %s", s)
		}
		key.WriteString(s.String())
		if err := coll.Add(addForm(form, s)); err != nil {
			c.Fail("adding sample %d %s: %v", i, s, err)
		}
		c.Step()
		if n := coll.Info().SampleCount; n != i+1 {
			c.Fail("after %d samples the collector reports %d", i+1, n)
		}
	}
	c.State(fmt.Sprintf("%s|%d", key.String(), spare))
	if n := coll.Info().MetricsCount; n != len(metricCells(samples[0])) {
		c.Fail("the collector reports %d metrics, the samples have %d", n, len(metricCells(samples[0])))
	}
	data, err := coll.Resolve()
	if err != nil {
		c.Fail("resolve: %v", err)
	}
	c.Step()
	chunks, err := checkFTDC(data, samples)
	if err != nil {
		c.Fail("%v", err)
	}
	if len(chunks) != 1 {
		c.Fail("%d chunks from one collector", len(chunks))
	}
}

// vary returns the value a leaf takes in the i-th sample.
func vary(v ref.Val, i int) ref.Val {
	a := f01Alphabet(v.T, true)
	if len(a) == 0 {
		if v.T == ref.TString {
			v.S = fmt.Sprint("s", i)
		}
		return v
	}
	n := 0
	for k, x := range a {
		if x.Equal(v) {
			n = k
		}
	}
	return a[(n+i*5)%len(a)]
}

func varyDoc(d ref.Doc, i int) ref.Doc {
	out := ref.Doc{}
	for _, e := range d {
		if e.V.T == ref.TDoc || e.V.T == ref.TArray || e.V.T == ref.TCodeScope {
			e.V.D = varyDoc(e.V.D, i)
		} else {
			e.V = vary(e.V, i)
		}
		out = append(out, e)
	}
	return out
}

func f01Leaves() []ref.Val {
	return []ref.Val{{T: ref.TInt64, I: -1}, {T: ref.TInt32, I: 128}, {T: ref.TDate, I: 1000}, {T: ref.TBool, B: true}, {T: ref.TDouble, F: 0.1}, {T: ref.TTimestamp, U: 1, V: 1},
		{T: ref.TString, S: "s"}, {T: ref.TNull}}
}

func f01NonMetrics() []ref.Val {
	var out []ref.Val
	for _, v := range append(containerReps(), bb.Reps()...) {
		switch v.T {
		case ref.TBool, ref.TDouble, ref.TInt32, ref.TInt64, ref.TDate, ref.TTimestamp, ref.TDoc, ref.TArray:
			continue
		}
		out = append(out, v)
	}
	return out
}

var F01 = &engine.Property{
	ID: "F01", Level: "exhaustive within bounds on the real code against a reference metric model",
	Assume: []string{"all samples of a sequence hold the same metrics in the same order, as the collector's contract requires"},
	Families: func(tier string) []engine.Family {
		deep := tier == "thorough"
		n := 3
		if deep {
			n = 4
		}
		return []engine.Family{
			{Name: "values", Bounds: fmt.Sprintf("one metric of each type: all sequences of up to %d boundary values, collector exactly full or with room", n), Rule: "at least two samples",
				Run: func(c *engine.Chooser) {
					t := engine.Pick(c, f01Types)
					a := f01Alphabet(t, deep)
					k := 1 + c.Choose(n)
					var s []ref.Doc
					for i := 0; i < k; i++ {
						s = append(s, ref.Doc{{K: "m", V: engine.Pick(c, a)}})
					}
					if k > 1 {
						c.NonTrivial()
					}
					f01Check(c, s, c.Choose(2), 0)
				}},
			{Name: "runs", Bounds: fmt.Sprintf("1 to 3 integer metrics x up to %d samples: every pattern of changed and unchanged values", n+3), Rule: "a run of unchanged values",
				Run: func(c *engine.Chooser) {
					m := 1 + c.Choose(3)
					k := 2 + c.Choose(n+2)
					if !deep && m*(k-1) > 12 || m*(k-1) > 15 {
						c.Skip()
					}
					cur := make([]int64, m)
					bits := make([][]bool, m)
					for j := range bits {
						for i := 1; i < k; i++ {
							bits[j] = append(bits[j], c.Bool())
						}
					}
					var s []ref.Doc
					for i := 0; i < k; i++ {
						d := ref.Doc{}
						for j := range cur {
							if i > 0 {
								if bits[j][i-1] {
									cur[j] += int64(j)*1000 - 7
								} else {
									c.NonTrivial()
								}
							}
							d = append(d, ref.Elem{K: fmt.Sprintf("k%d", j), V: ref.Val{T: ref.TInt64, I: cur[j]}})
						}
						s = append(s, d)
					}
					f01Check(c, s, 0, 0)
				}},
			{Name: "long-runs", Bounds: "2 metrics of 130 and 300 samples with no, one or two changes at boundary positions (runs crossing the one- and two-byte varint lengths and the metric boundary)", Rule: "always",
				Run: func(c *engine.Chooser) {
					k := engine.Pick(c, []int{130, 300})
					pos := []int{-1, 1, 2, 64, 127, 128, 129, k - 2, k - 1}
					p, q := engine.Pick(c, pos), engine.Pick(c, pos)
					t := engine.Pick(c, []byte{ref.TInt64, ref.TDouble})
					c.NonTrivial()
					mk := func(x int64) ref.Val {
						if t == ref.TDouble {
							return ref.Val{T: t, F: float64(x)}
						}
						return ref.Val{T: t, I: x}
					}
					var s []ref.Doc
					var a, b int64
					for i := 0; i < k; i++ {
						if i == p {
							a = 5
						}
						if i == q {
							b = -5
						}
						s = append(s, ref.Doc{{K: "a", V: mk(a)}, {K: "b", V: mk(b)}})
					}
					f01Check(c, s, 0, 0)
				}},
			{Name: "very-long-runs", Bounds: "one metric of 520 to 20000 samples (70000 in the thorough tier) that never changes, or changes once: at the second, a power of two and its neighbours, the middle or the last sample", Rule: "always",
				Run: func(c *engine.Chooser) {
					sizes := []int{520, 1030, 2050, 4100, 4200, 8200, 10002, 20000}
					if deep {
						sizes = append(sizes, 16390, 32780, 65540, 70000)
					}
					k := engine.Pick(c, sizes)
					pos := []int{-1, 1, k / 2, k - 2, k - 1}
					for p := 256; p < k; p *= 2 {
						if deep || p >= k/4 {
							pos = append(pos, p-1, p, p+1)
						}
					}
					p := engine.Pick(c, pos)
					c.NonTrivial()
					c.Note("%d samples, changing at %d", k, p)
					s := make([]ref.Doc, k)
					for i := range s {
						x := int64(7)
						if p >= 0 && i >= p {
							x = 1 << 40
						}
						s[i] = ref.Doc{{K: "m", V: ref.Val{T: ref.TInt64, I: x}}}
					}
					f01Check(c, s, 0, 0)
				}},
			{Name: "wide", Bounds: "documents of 63 to 1025 metrics (flat, or in embedded documents of 10), in 3 samples of which none, every or every other value changes", Rule: "always",
				Run: func(c *engine.Chooser) {
					m := engine.Pick(c, []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025})
					nest := c.Bool()
					mode := c.Choose(3)
					c.NonTrivial()
					var s []ref.Doc
					for i := 0; i < 3; i++ {
						d := ref.Doc{}
						var sub ref.Doc
						for j := 0; j < m; j++ {
							x := int64(j * j)
							if mode == 1 || mode == 2 && j%2 == 0 {
								x += int64(i * (j + 1))
							}
							e := ref.Elem{K: fmt.Sprint("k", j), V: ref.Val{T: ref.TInt64, I: x}}
							if !nest {
								d = append(d, e)
								continue
							}
							sub = append(sub, e)
							if len(sub) == 10 || j == m-1 {
								d = append(d, ref.Elem{K: fmt.Sprint("d", j), V: ref.Val{T: ref.TDoc, D: sub}})
								sub = nil
							}
						}
						s = append(s, d)
					}
					f01Check(c, s, 0, 0)
				}},
			{Name: "shapes", Bounds: "all documents of up to 2 elements over every metric type, two non-metric ones, and documents and arrays of up to 2 of them, in 3 samples with changing values", Rule: "a nested metric",
				Split: 3,
				Run: func(c *engine.Chooser) {
					d := genMetricDoc(c, 1, f01Leaves(), f01Leaves())
					if len(d) == 0 {
						c.Skip()
					}
					for _, e := range d {
						if e.V.T == ref.TDoc || e.V.T == ref.TArray {
							c.NonTrivial()
						}
					}
					f01Check(c, []ref.Doc{d, varyDoc(d, 1), varyDoc(d, 2)}, 0, 0)
				}},
			{Name: "shapes-nested", Bounds: "a document or array of up to 2 elements per level and 2 more levels over representative types, followed by a metric, in 3 samples with changing values", Rule: "a nested metric",
				Split: 3,
				Run: func(c *engine.Chooser) {
					l := f01Leaves()
					sub := []ref.Val{l[0], l[5], l[6]}
					if deep {
						sub = []ref.Val{l[0], l[2], l[4], l[5], l[6]}
					}
					t := byte(ref.TDoc)
					if c.Bool() {
						t = ref.TArray
					}
					d := ref.Doc{{K: "t", V: ref.Val{T: t, D: genMetricDoc(c, 1, sub, sub)}}, {K: "u", V: l[1]}}
					c.NonTrivial()
					f01Check(c, []ref.Doc{d, varyDoc(d, 1), varyDoc(d, 2)}, 0, 0)
				}},
			{Name: "mixed", Bounds: "a metric between non-metric values of every other BSON type, in a document, an embedded document and an array, passed in each of the 4 input forms", Rule: "always",
				Run: func(c *engine.Chooser) {
					x := engine.Pick(c, f01NonMetrics())
					y := engine.Pick(c, f01NonMetrics())
					c.NonTrivial()
					in := ref.Doc{{K: "x", V: x}, {K: "m", V: engine.Pick(c, f01Leaves()[:6])}, {K: "y", V: y}}
					var d ref.Doc
					switch c.Choose(3) {
					case 0:
						d = in
					case 1:
						d = ref.Doc{{K: "n", V: ref.Val{T: ref.TDoc, D: in}}, {K: "z", V: ref.Val{T: ref.TInt32, I: 9}}}
					default:
						d = ref.Doc{{K: "n", V: ref.Val{T: ref.TArray, D: in}}, {K: "z", V: ref.Val{T: ref.TInt32, I: 9}}}
					}
					f01Check(c, []ref.Doc{d, varyDoc(d, 1)}, 0, c.Choose(4))
				}},
			{Name: "deep", Bounds: "a chain of up to 6 nested documents and arrays, every combination, with metrics before, inside and after at each level", Rule: "two or more levels",
				Run: func(c *engine.Chooser) {
					n := 1 + c.Choose(6)
					d := ref.Doc{{K: "leaf", V: ref.Val{T: ref.TInt64, I: 3}}, {K: "d", V: ref.Val{T: ref.TDouble, F: 0.1}}}
					for i := 0; i < n; i++ {
						t := byte(ref.TDoc)
						if c.Bool() {
							t = ref.TArray
						}
						d = ref.Doc{{K: "p", V: ref.Val{T: ref.TInt32, I: int64(i)}}, {K: fmt.Sprintf("n%d", i), V: ref.Val{T: t, D: d}}, {K: "q", V: ref.Val{T: ref.TBool, B: true}}}
					}
					if n > 1 {
						c.NonTrivial()
					}
					f01Check(c, []ref.Doc{d, varyDoc(d, 1), varyDoc(d, 2)}, 0, 0)
				}},
		}
	},
}

// genMetricDoc enumerates documents of up to two elements; leaves are those of
// this level, sub those of the levels below.
func genMetricDoc(c *engine.Chooser, depth int, leaves, sub []ref.Val) ref.Doc {
	n := c.Choose(3)
	d := ref.Doc{}
	for i := 0; i < n; i++ {
		extra := 0
		if depth > 0 {
			extra = 2
		}
		j := c.Choose(len(leaves) + extra)
		var v ref.Val
		switch {
		case j < len(leaves):
			v = leaves[j]
		case j == len(leaves):
			v = ref.Val{T: ref.TDoc, D: genMetricDoc(c, depth-1, sub, sub)}
		default:
			v = ref.Val{T: ref.TArray, D: genMetricDoc(c, depth-1, sub, sub)}
		}
		d = append(d, ref.Elem{K: []string{"a", "b.c"}[i], V: v})
	}
	return d
}
