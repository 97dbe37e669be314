package props

import (
	"bytes"
	"fmt"
	"sort"

	"birchmc/bb"
	"birchmc/engine"
	"birchmc/ref"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
)

// innerMeta is the document stored by SetMetadata, given the record that holds it.
func innerMeta(rec ref.Doc) ref.Doc {
	if i := lookupRef(rec, "doc"); i >= 0 && rec[i].V.T == ref.TDoc {
		return rec[i].V.D
	}
	return nil
}

func sameMeta(got, want ref.Doc) bool {
	if want == nil || got == nil {
		return want == nil && got == nil
	}
	in := innerMeta(got)
	return in != nil && in.Equal(want)
}

// checkViews reads data through every view. metas, if not nil, gives the
// metadata expected for each sample.
func checkViews(c *engine.Chooser, data []byte, samples []ref.Doc, metas []ref.Doc) {
	chunks, err := checkFTDC(data, samples)
	if err != nil {
		c.Fail("chunks: %v", err)
	}
	c.Step()
	pos := 0
	var groups [][]ref.Doc
	for i, ch := range chunks {
		groups = append(groups, samples[pos:pos+ch.size])
		if metas != nil {
			for j := pos; j < pos+ch.size; j++ {
				if !sameMeta(ch.meta, metas[j]) {
					c.Fail("chunk %d carries metadata %s, its sample %d was stored with %s", i, ch.meta, j, metas[j])
				}
			}
		}
		pos += ch.size
	}
	var lastMeta ref.Doc
	if metas != nil && len(metas) > 0 {
		lastMeta = metas[len(metas)-1]
	}
	view := func(name string, open func() *ftdc.Iterator[*birch.Document], want []ref.Doc, norm func(ref.Doc) ref.Doc) {
		it := open()
		got, err := readDocs(it)
		c.Step()
		if err != nil {
			c.Fail("%s view: %v", name, err)
		}
		if norm != nil {
			got = mapDocs(got, norm)
		}
		if err := sameDocs(name+" view", got, want); err != nil {
			c.Fail("%v", err)
		}
		if metas != nil {
			m, err := metaOf(it.Metadata())
			if err != nil || !sameMeta(m, lastMeta) {
				c.Fail("%s view reports metadata %s (%v), want %s", name, m, err, lastMeta)
			}
		}
	}
	var matrix, series []ref.Doc
	for _, g := range groups {
		matrix = append(matrix, matrixDoc(g))
		series = append(series, seriesDoc(g))
	}
	view("flattened", func() *ftdc.Iterator[*birch.Document] { return ftdc.ReadMetrics(bytes.NewReader(data)) }, mapDocs(samples, flatDoc), nil)
	view("structured", func() *ftdc.Iterator[*birch.Document] { return ftdc.ReadStructuredMetrics(bytes.NewReader(data)) }, mapDocs(samples, metricOnly), nil)
	view("matrix", func() *ftdc.Iterator[*birch.Document] { return ftdc.ReadMatrix(bytes.NewReader(data)) }, matrix, nil)
	view("series", func() *ftdc.Iterator[*birch.Document] { return ftdc.ReadSeries(bytes.NewReader(data)) }, series, func(d ref.Doc) ref.Doc {
		sort.SliceStable(d, func(i, j int) bool { return d[i].K < d[j].K })
		return d
	})
}

func uniqueNames(d ref.Doc) bool {
	seen := map[string]bool{}
	for _, c := range metricCells(d) {
		if seen[c.name] {
			return false
		}
		seen[c.name] = true
	}
	return true
}

var F03 = &engine.Property{
	ID: "F03", Level: "exhaustive within bounds on the real code against a reference metric model",
	Assume: []string{
		"the series view is read with a registered marshaler, as it requires; metric names are unique in it, since it is built from a map",
		"a collector that was reset is given its metadata again",
	},
	Families: func(tier string) []engine.Family {
		registerMarshaler()
		deep := tier == "thorough"
		return []engine.Family{
			{Name: "values", Bounds: "one metric of each type: all pairs of boundary values, and triples in the thorough tier, read through all five views", Rule: "always",
				Run: func(c *engine.Chooser) {
					t := engine.Pick(c, f01Types)
					n := 2
					if deep {
						n = 3
					}
					a := f01Alphabet(t, true)
					var s []ref.Doc
					coll := ftdc.NewBaseCollector(n)
					for i := 0; i < n; i++ {
						d := ref.Doc{{K: "m", V: engine.Pick(c, a)}, {K: "k", V: ref.Val{T: ref.TInt64, I: int64(i)}}}
						c.Note("sample %s", d)
						s = append(s, d)
						if err := coll.Add(bb.Doc(d)); err != nil {
							c.Fail("add: %v", err)
						}
					}
					c.NonTrivial()
					c.State(fmt.Sprint(s))
					data, err := coll.Resolve()
					if err != nil {
						c.Fail("resolve: %v", err)
					}
					checkViews(c, data, s, []ref.Doc{nil, nil, nil}[:n])
				}},
			{Name: "shapes", Bounds: "all documents of up to 2 elements over every metric type, two non-metric ones, and documents and arrays of up to 2 of them, in 2 samples, read through all five views", Rule: "a nested metric", Split: 3,
				Run: func(c *engine.Chooser) {
					d := genMetricDoc(c, 1, f01Leaves(), f01Leaves())
					if len(d) == 0 || !uniqueNames(d) {
						c.Skip()
					}
					for _, e := range d {
						if e.V.T == ref.TDoc || e.V.T == ref.TArray {
							c.NonTrivial()
						}
					}
					s := []ref.Doc{d, varyDoc(d, 1)}
					coll := ftdc.NewBaseCollector(2)
					for _, x := range s {
						c.Note("sample %s", x)
						if err := coll.Add(bb.Doc(x)); err != nil {
							c.Fail("add: %v", err)
						}
					}
					c.State(d.String())
					data, err := coll.Resolve()
					if err != nil {
						c.Fail("resolve: %v", err)
					}
					checkViews(c, data, s, []ref.Doc{nil, nil})
				}},
			{Name: "kept", Bounds: "two files of 2 to 5 samples (1 to 3 schemas of every metric type, chunks of 1 to 3) read in turn, one document at a time, through every pair of the document views; each document left alone or changed in 3 ways before the next is asked for", Rule: "documents are changed", Split: 3, Run: f03Kept},
			{Name: "kept-chunks", Bounds: "files of 1 to 8 samples in chunks of 1 to 4: the chunks looked at when all are delivered, their values changed in between or not", Rule: "values are changed", Split: 3, Run: f03KeptChunks},
			{Name: "series-marshaler", Serial: true, Bounds: "files of up to 4 chunks read through the series view, no marshaler registered or one that works, fails or writes malformed bytes for each chunk", Rule: "a chunk cannot be rendered", Run: f03Marshaler},
			{Name: "chunks", Bounds: "schema-aware collectors x sizes 1 to 3: all sequences of up to 5 samples out of 4 schemas, read through all five views", Rule: "several chunks", Split: 3,
				Run: func(c *engine.Chooser) {
					out := &fsink{}
					var coll ftdc.Collector
					kind := c.Choose(2)
					size := 1 + c.Choose(3)
					if kind == 0 {
						coll = ftdc.NewDynamicCollector(size)
					} else {
						coll = ftdc.NewStreamingDynamicCollector(size, out)
					}
					n := 1 + c.Choose(5)
					if !deep && n == 5 {
						c.Skip()
					}
					var s, m []ref.Doc
					for i := 0; i < n; i++ {
						d := f02Sample(engine.Pick(c, []int{0, 1, 2, 4}), i)
						if i > 0 && schemaOf(d) != schemaOf(s[i-1]) {
							c.NonTrivial()
						}
						c.Note("sample %s", d)
						if err := coll.Add(bb.Doc(d)); err != nil {
							c.Fail("add: %v", err)
						}
						s, m = append(s, d), append(m, nil)
					}
					c.State(fmt.Sprint(kind, size, s))
					if err := ftdc.FlushCollector(coll, out); err != nil {
						c.Fail("flush: %v", err)
					}
					checkViews(c, out.buf.Bytes(), s, m)
				}},
			{Name: "metadata", Bounds: "base, batch, dynamic, streaming and streaming-dynamic collectors x sizes 1 and 2: all sequences of up to 4 rounds of (set metadata to one of two documents or nothing, 1 or 2 samples of 2 schemas, flush), read through all five views", Rule: "metadata changes", Split: 3,
				Run: func(c *engine.Chooser) {
					kind := c.Choose(5)
					size := 1 + c.Choose(2)
					rounds := 2
					if deep {
						rounds = 3
					}
					out := &fsink{}
					var coll ftdc.Collector
					switch kind {
					case 0:
						coll = ftdc.NewBaseCollector(size)
					case 1:
						coll = ftdc.NewBatchCollector(size)
					case 2:
						coll = ftdc.NewDynamicCollector(size)
					case 3:
						coll = ftdc.NewStreamingCollector(size, out)
					default:
						coll = ftdc.NewStreamingDynamicCollector(size, out)
					}
					c.Note("collector kind %d of %d", kind, size)
					var s, m []ref.Doc
					var cur, prev ref.Doc
					st := fmt.Sprint(kind, size)
					for r := 0; r < rounds; r++ {
						x := c.Choose(3)
						st += fmt.Sprint("|m", x)
						switch {
						case x > 0:
							cur = ref.Doc{{K: "host", V: str(fmt.Sprint("h", x))}, {K: "n", V: i32(int64(x))}}
							if err := coll.SetMetadata(bb.Doc(cur)); err != nil {
								c.Fail("set metadata: %v", err)
							}
							c.Note("set metadata %s", cur)
						default:
							// unset: readers carry the last one forward
							if err := coll.SetMetadata(nil); err != nil {
								c.Fail("unset metadata: %v", err)
							}
							c.Note("unset metadata")
							cur = prev
						}
						if prev != nil && !cur.Equal(prev) {
							c.NonTrivial()
						}
						n := 1 + c.Choose(2)
						for i := 0; i < n; i++ {
							schema := 0
							if kind == 2 || kind == 4 {
								schema = c.Choose(2)
							}
							d := f02Sample(schema, len(s))
							c.Note("sample %s", d)
							st += fmt.Sprint("|", schema)
							if err := coll.Add(bb.Doc(d)); err != nil {
								c.Fail("add: %v", err)
							}
							s, m = append(s, d), append(m, cur)
						}
						if err := ftdc.FlushCollector(coll, out); err != nil {
							c.Fail("flush: %v", err)
						}
						prev = cur
					}
					c.State(st)
					checkViews(c, out.buf.Bytes(), s, m)
				}},
		}
	},
}
