package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"sort"
	"strings"
	"sync"
	"time"

	"birchmc/bb"
	"birchmc/engine"
	"birchmc/ref"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
	"github.com/tychoish/birch/x/ftdc/util"
)

// cell is one metric of one sample in the reference model.
type cell struct {
	name string
	t    byte
	v    int64
}

// metricCells lists the metrics of a sample: numbers, booleans, dates and
// timestamps in document order, named by their dotted path.
func metricCells(d ref.Doc) []cell { return cellsOf(d, false, "") }

func cellsOf(d ref.Doc, arr bool, prefix string) []cell {
	var out []cell
	for i, e := range d {
		k := e.K
		if arr {
			k = fmt.Sprint(i)
		}
		name := prefix + k
		switch e.V.T {
		case ref.TDoc:
			out = append(out, cellsOf(e.V.D, false, name+".")...)
		case ref.TArray:
			out = append(out, cellsOf(e.V.D, true, name+".")...)
		case ref.TBool:
			c := cell{name, ref.TBool, 0}
			if e.V.B {
				c.v = 1
			}
			out = append(out, c)
		case ref.TDouble:
			out = append(out, cell{name, ref.TDouble, int64(math.Float64bits(e.V.F))})
		case ref.TInt32, ref.TInt64, ref.TDate:
			out = append(out, cell{name, e.V.T, e.V.I})
		case ref.TTimestamp:
			out = append(out, cell{name, ref.TTimestamp, int64(e.V.U)}, cell{name + ".inc", ref.TTimestamp, int64(e.V.V)})
		}
	}
	return out
}

// metricOnly is the sample without the fields that are not metrics.
func metricOnly(d ref.Doc) ref.Doc {
	out := ref.Doc{}
	for _, e := range d {
		switch e.V.T {
		case ref.TDoc, ref.TArray:
			v := e.V
			v.D = metricOnly(e.V.D)
			out = append(out, ref.Elem{K: e.K, V: v})
		case ref.TBool, ref.TDouble, ref.TInt32, ref.TInt64, ref.TDate, ref.TTimestamp:
			out = append(out, e)
		}
	}
	return out
}

// flatDoc is the flattened form of a sample.
func flatDoc(d ref.Doc) ref.Doc {
	out := ref.Doc{}
	for _, c := range metricCells(d) {
		v := ref.Val{T: c.t, I: c.v}
		switch c.t {
		case ref.TBool:
			v = ref.Val{T: ref.TBool, B: c.v != 0}
		case ref.TDouble:
			v = ref.Val{T: ref.TDouble, F: math.Float64frombits(uint64(c.v))}
		case ref.TTimestamp:
			v = ref.Val{T: ref.TInt64, I: c.v}
		}
		out = append(out, ref.Elem{K: c.name, V: v})
	}
	return out
}

// schemaOf identifies the metrics a sample holds.
func schemaOf(d ref.Doc) string {
	var b strings.Builder
	for _, c := range metricCells(d) {
		fmt.Fprintf(&b, "%q:%d,", c.name, c.t)
	}
	return b.String()
}

// cellVal converts the i-th cell back to the value it holds, collapsing timestamps.
func matrixDoc(samples []ref.Doc) ref.Doc {
	out := ref.Doc{}
	cells := make([][]cell, len(samples))
	for i, s := range samples {
		cells[i] = metricCells(s)
	}
	for m := 0; m < len(cells[0]); m++ {
		arr := ref.Val{T: ref.TArray}
		ts := cells[0][m].t == ref.TTimestamp
		for i := range samples {
			c := cells[i][m]
			v := ref.Val{T: c.t, I: c.v}
			switch c.t {
			case ref.TBool:
				v = ref.Val{T: ref.TBool, B: c.v != 0}
			case ref.TDouble:
				v = ref.Val{T: ref.TDouble, F: math.Float64frombits(uint64(c.v))}
			case ref.TTimestamp:
				v = ref.Val{T: ref.TTimestamp, U: uint32(c.v), V: uint32(cells[i][m+1].v)}
			}
			arr.D = append(arr.D, ref.Elem{K: fmt.Sprint(i), V: v})
		}
		out = append(out, ref.Elem{K: cells[0][m].name, V: arr})
		if ts {
			m++
		}
	}
	return out
}

// seriesDoc is the series form: raw columns under their names, sorted, since
// the library builds it from a map.
func seriesDoc(samples []ref.Doc) ref.Doc {
	out := ref.Doc{}
	cells := make([][]cell, len(samples))
	for i, s := range samples {
		cells[i] = metricCells(s)
	}
	for m := 0; m < len(cells[0]); m++ {
		arr := ref.Val{T: ref.TArray}
		for i := range samples {
			c := cells[i][m]
			v := ref.Val{T: c.t, I: c.v}
			switch c.t {
			case ref.TBool:
				v = ref.Val{T: ref.TBool, B: c.v != 0}
			case ref.TDouble:
				v = ref.Val{T: ref.TDouble, F: math.Float64frombits(uint64(c.v))}
			case ref.TTimestamp:
				v = ref.Val{T: ref.TInt64, I: c.v}
			}
			arr.D = append(arr.D, ref.Elem{K: fmt.Sprint(i), V: v})
		}
		out = append(out, ref.Elem{K: cells[0][m].name, V: arr})
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].K < out[j].K })
	return out
}

var registerOnce sync.Once

// registerMarshaler installs the BSON marshaler that ReadSeries needs.
var seriesMarshaler func(any) ([]byte, error)

func registerMarshaler() {
	registerOnce.Do(func() {
		seriesMarshaler = (func(in any) ([]byte, error) {
			m, ok := in.(map[string]any)
			if !ok {
				return nil, fmt.Errorf("cannot marshal %T", in)
			}
			var keys []string
			for k := range m {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			d := ref.Doc{}
			for _, k := range keys {
				arr := ref.Val{T: ref.TArray}
				add := func(v ref.Val) { arr.D = append(arr.D, ref.Elem{K: fmt.Sprint(len(arr.D)), V: v}) }
				switch s := m[k].(type) {
				case []int64:
					for _, x := range s {
						add(ref.Val{T: ref.TInt64, I: x})
					}
				case []int32:
					for _, x := range s {
						add(ref.Val{T: ref.TInt32, I: int64(x)})
					}
				case []bool:
					for _, x := range s {
						add(ref.Val{T: ref.TBool, B: x})
					}
				case []float64:
					for _, x := range s {
						add(ref.Val{T: ref.TDouble, F: x})
					}
				case []time.Time:
					for _, x := range s {
						add(ref.Val{T: ref.TDate, I: x.UnixMilli()})
					}
				default:
					return nil, fmt.Errorf("cannot marshal a series of %T", s)
				}
				d = append(d, ref.Elem{K: k, V: arr})
			}
			return d.Encode(), nil
		})
		util.RegisterGlobalMarshaler(seriesMarshaler)
	})
}

// chunkView is what ReadChunks reports about one chunk.
type chunkView struct {
	names []string
	vals  [][]int64
	size  int
	meta  ref.Doc // nil: none
}

func metaOf(d *birch.Document) (ref.Doc, error) {
	if d == nil {
		return nil, nil
	}
	return bb.FromDoc(d)
}

func readChunkViews(r io.Reader) (out []chunkView, flat, structured []ref.Doc, err error) {
	it := ftdc.ReadChunks(r)
	for ch := range it.Iterator() {
		v := chunkView{size: ch.Size()}
		for i := range ch.Metrics {
			v.names = append(v.names, ch.Metrics[i].Key())
			v.vals = append(v.vals, append([]int64(nil), ch.Metrics[i].Values...))
		}
		if ch.Len() != len(v.names) {
			return nil, nil, nil, fmt.Errorf("harness: chunk length %d, %d metrics", ch.Len(), len(v.names))
		}
		m, merr := metaOf(ch.Metadata())
		if merr != nil {
			return nil, nil, nil, merr
		}
		v.meta = m
		out = append(out, v)
		for d := range ch.Iterator().Iterator() {
			x, derr := bb.FromDoc(d)
			if derr != nil {
				return nil, nil, nil, derr
			}
			flat = append(flat, x)
		}
		for d := range ch.StructuredIterator().Iterator() {
			x, derr := bb.FromDoc(d)
			if derr != nil {
				return nil, nil, nil, derr
			}
			structured = append(structured, x)
		}
	}
	return out, flat, structured, it.Close()
}

// readDocs drains a document view.
// readDocs keeps the documents of a view and looks at them when the view has
// ended.
func readDocs(it *ftdc.Iterator[*birch.Document]) (out []ref.Doc, err error) {
	var docs []*birch.Document
	for d := range it.Iterator() {
		docs = append(docs, d)
	}
	for _, d := range docs {
		x, derr := bb.FromDoc(d)
		if derr != nil {
			return out, derr
		}
		out = append(out, x)
	}
	return out, it.Close()
}

func sameDocs(what string, got, want []ref.Doc) error {
	for i := range got {
		if i >= len(want) {
			return fmt.Errorf("%s: %d documents, want %d; extra: %s", what, len(got), len(want), got[i])
		}
		if !got[i].Equal(want[i]) {
			return fmt.Errorf("%s: document %d is %s, want %s", what, i, got[i], want[i])
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("%s: %d documents, want %d", what, len(got), len(want))
	}
	return nil
}

func mapDocs(in []ref.Doc, f func(ref.Doc) ref.Doc) []ref.Doc {
	out := make([]ref.Doc, len(in))
	for i, d := range in {
		out[i] = f(d)
	}
	return out
}

// checkChunks compares the chunks with the samples they should hold, taken in
// order; chunk boundaries are the library's choice.
func checkChunks(chunks []chunkView, samples []ref.Doc) error {
	pos := 0
	for ci, ch := range chunks {
		if pos+ch.size > len(samples) {
			return fmt.Errorf("chunk %d holds samples %d to %d of only %d", ci, pos, pos+ch.size, len(samples))
		}
		for j := 0; j < ch.size; j++ {
			want := metricCells(samples[pos])
			if len(want) != len(ch.names) {
				return fmt.Errorf("chunk %d has %d metrics (%v), sample %d has %d", ci, len(ch.names), ch.names, pos, len(want))
			}
			for m, w := range want {
				if ch.names[m] != w.name {
					return fmt.Errorf("chunk %d metric %d is named %q, want %q", ci, m, ch.names[m], w.name)
				}
				if len(ch.vals[m]) != ch.size {
					return fmt.Errorf("chunk %d metric %q has %d values for %d samples", ci, w.name, len(ch.vals[m]), ch.size)
				}
				if ch.vals[m][j] != w.v {
					return fmt.Errorf("sample %d metric %q is %d, want %d", pos, w.name, ch.vals[m][j], w.v)
				}
			}
			pos++
		}
	}
	if pos != len(samples) {
		return fmt.Errorf("the chunks hold %d samples, want %d", pos, len(samples))
	}
	return nil
}

// checkFTDC reads data back and compares it with the samples.
func checkFTDC(data []byte, samples []ref.Doc) ([]chunkView, error) {
	chunks, flat, structured, err := readChunkViews(bytes.NewReader(data))
	if err != nil {
		return nil, fmt.Errorf("reading back: %w", err)
	}
	if err := checkChunks(chunks, samples); err != nil {
		return nil, err
	}
	if err := sameDocs("flattened", flat, mapDocs(samples, flatDoc)); err != nil {
		return nil, err
	}
	if err := sameDocs("structured", structured, mapDocs(samples, metricOnly)); err != nil {
		return nil, err
	}
	return chunks, nil
}

// ---- an independent encoder of FTDC chunks

func uvarint(b []byte, v uint64) []byte { return binary.AppendUvarint(b, v) }

// rawPayload is the uncompressed content of a chunk.
func rawPayload(samples []ref.Doc) []byte {
	b := samples[0].Encode()
	cells := make([][]cell, len(samples))
	for i, s := range samples {
		cells[i] = metricCells(s)
	}
	b = binary.LittleEndian.AppendUint32(b, uint32(len(cells[0])))
	b = binary.LittleEndian.AppendUint32(b, uint32(len(samples)-1))
	zeros := uint64(0)
	flush := func() {
		if zeros > 0 {
			b = uvarint(uvarint(b, 0), zeros-1)
			zeros = 0
		}
	}
	for m := range cells[0] {
		for i := 1; i < len(samples); i++ {
			var d uint64
			if cells[i][m].t == ref.TDouble {
				d = uint64(cells[i][m].v)
			} else {
				d = uint64(cells[i][m].v - cells[i-1][m].v)
			}
			if d == 0 {
				zeros++
				continue
			}
			flush()
			b = uvarint(b, d)
		}
	}
	flush()
	return b
}

// addForm passes a sample in one of the accepted input forms.
func addForm(f int, d ref.Doc) any {
	switch f {
	case 1:
		return d.Encode()
	case 2:
		return docMarsh{d: bb.Doc(d)}
	case 3:
		return bsonMarsh{b: d.Encode()}
	default:
		return bb.Doc(d)
	}
}

var _ = engine.Pick[int]
