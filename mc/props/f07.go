package props

import (
	"bytes"
	"encoding/csv"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"birchmc/bb"
	"birchmc/engine"
	"birchmc/ref"

	"github.com/tychoish/birch/x/ftdc"
)

// csvCell compares one exported field with the metric it stands for.
func csvCell(got string, w cell) error {
	switch w.t {
	case ref.TDouble:
		f, err := strconv.ParseFloat(got, 64)
		x := math.Float64frombits(uint64(w.v))
		if err != nil || math.Float64bits(f) != math.Float64bits(x) && !(f != f && x != x) {
			return fmt.Errorf("field %q for metric %s, want the double %v", got, w.name, x)
		}
	case ref.TDate:
		t, err := time.Parse(time.RFC3339, got)
		if err != nil || t.Unix() != w.v/1000 {
			return fmt.Errorf("field %q for metric %s, want the second %d", got, w.name, w.v/1000)
		}
	default:
		if got != strconv.FormatInt(w.v, 10) {
			return fmt.Errorf("field %q for metric %s, want %d", got, w.name, w.v)
		}
	}
	return nil
}

// csvTable compares one exported table with the samples it should hold.
func csvTable(text []byte, samples []ref.Doc) error {
	rows, err := csv.NewReader(bytes.NewReader(text)).ReadAll()
	if err != nil {
		return fmt.Errorf("the output is not CSV: %w", err)
	}
	if len(samples) == 0 {
		if len(rows) != 0 {
			return fmt.Errorf("%d rows for no samples", len(rows))
		}
		return nil
	}
	if len(rows) != len(samples)+1 {
		return fmt.Errorf("%d rows for %d samples and a header", len(rows), len(samples))
	}
	for i, c := range metricCells(samples[0]) {
		if i >= len(rows[0]) || rows[0][i] != c.name {
			return fmt.Errorf("the header is %q, metric %d is %q", rows[0], i, c.name)
		}
	}
	for i, s := range samples {
		cells := metricCells(s)
		if len(cells) != len(rows[i+1]) {
			return fmt.Errorf("row %d has %d fields for %d metrics", i, len(rows[i+1]), len(cells))
		}
		for j, c := range cells {
			if err := csvCell(rows[i+1][j], c); err != nil {
				return fmt.Errorf("row %d: %w", i, err)
			}
		}
	}
	return nil
}

func encodeDynamic(c *engine.Chooser, size int, samples []ref.Doc) []byte {
	coll := ftdc.NewDynamicCollector(size)
	for _, s := range samples {
		c.Note("sample %s", s)
		if err := coll.Add(bb.Doc(s)); err != nil {
			c.Fail("add: %v", err)
		}
	}
	data, err := coll.Resolve()
	if err != nil {
		c.Fail("resolve: %v", err)
	}
	return data
}

// f07Schema gives samples of 1, 2 and 3 metrics under names that need quoting.
func f07Sample(s, n int) ref.Doc {
	v := func(i int) ref.Val { return ref.Val{T: ref.TInt64, I: int64(n*n*37 - i*1000)} }
	switch s {
	case 0:
		return ref.Doc{{K: "one, \"two\"", V: v(0)}}
	case 1:
		return ref.Doc{{K: "a", V: v(0)}, {K: "b\nc", V: v(1)}}
	}
	return ref.Doc{{K: "a", V: v(0)}, {K: "n", V: ref.Val{T: ref.TDoc, D: ref.Doc{{K: "x", V: v(1)}, {K: " y", V: v(2)}}}}}
}

// limitWriter refuses everything after n bytes.
type limitWriter struct {
	n    int
	got  []byte
	hit  bool
	full bool // also when nothing is left over
}

func (w *limitWriter) Write(p []byte) (int, error) {
	if len(w.got)+len(p) > w.n {
		k := w.n - len(w.got)
		w.got = append(w.got, p[:k]...)
		w.hit = true
		return k, errInjected
	}
	w.got = append(w.got, p...)
	return len(p), nil
}

var f07Cells = []string{"0", "1", "-1", "127", "9223372036854775807", "-9223372036854775808", "1e+00", "2.5", "-1.5e-300"}

func cellVal(s string) (ref.Val, bool) {
	if i, err := strconv.ParseInt(s, 10, 64); err == nil {
		return ref.Val{T: ref.TInt64, I: i}, true
	}
	if f, err := strconv.ParseFloat(s, 64); err == nil {
		return ref.Val{T: ref.TDouble, F: f}, true
	}
	return ref.Val{}, false
}

func rowDoc(header, row []string) ref.Doc {
	d := ref.Doc{}
	for i, h := range header {
		if v, ok := cellVal(row[i]); ok {
			d = append(d, ref.Elem{K: h, V: v})
		}
	}
	return d
}

func csvText(rows [][]string) []byte {
	var b bytes.Buffer
	w := csv.NewWriter(&b)
	for _, r := range rows {
		_ = w.Write(r)
	}
	w.Flush()
	return b.Bytes()
}

var F07 = &engine.Property{
	ID: "F07", Level: "exhaustive within bounds on the real code against a reference table",
	Assume: []string{
		"a schema change is a change in the number of metrics, as the export functions document",
		"dates are exported to the second and are not negative; metric names hold no carriage return",
	},
	Families: func(tier string) []engine.Family {
		deep := tier == "thorough"
		n := 4
		if deep {
			n = 6
		}
		return []engine.Family{
			{Name: "export-values", Bounds: "one metric of each type at every pair of boundary values", Rule: "always",
				Run: func(c *engine.Chooser) {
					a := f01Alphabet(engine.Pick(c, f01Types), true)
					var s []ref.Doc
					for i := 0; i < 2; i++ {
						v := engine.Pick(c, a)
						if v.T == ref.TDate && (v.I < 0 || v.I > 253402300799999) {
							c.Skip()
						}
						s = append(s, ref.Doc{{K: "m", V: v}})
					}
					c.NonTrivial()
					data := encodeDynamic(c, 10, s)
					c.State(fmt.Sprint(s))
					var out bytes.Buffer
					if err := ftdc.WriteCSV(ftdc.ReadChunks(bytes.NewReader(data)).Iterator(), &out); err != nil {
						c.Fail("export: %v", err)
					}
					c.Step()
					if err := csvTable(out.Bytes(), s); err != nil {
						c.Fail("%v", err)
					}
				}},
			{Name: "export-schemas", Bounds: fmt.Sprintf("all sequences of up to %d samples of 3 schemas in chunks of up to 1 to 3, to one stream and to files", n), Rule: "a schema change", Split: 3,
				Run: func(c *engine.Chooser) {
					size := 1 + c.Choose(3)
					k := c.Choose(n + 1)
					var s []ref.Doc
					var tables [][]ref.Doc
					for i := 0; i < k; i++ {
						d := f07Sample(c.Choose(3), i)
						if i == 0 || schemaOf(d) != schemaOf(s[i-1]) {
							tables = append(tables, nil)
						}
						tables[len(tables)-1] = append(tables[len(tables)-1], d)
						s = append(s, d)
					}
					if len(tables) > 1 {
						c.NonTrivial()
					}
					var data []byte
					if k > 0 {
						data = encodeDynamic(c, size, s)
					}
					c.State(fmt.Sprint(size, s))
					var out bytes.Buffer
					err := ftdc.WriteCSV(ftdc.ReadChunks(bytes.NewReader(data)).Iterator(), &out)
					c.Step()
					if len(tables) > 1 {
						if err == nil {
							c.Fail("a schema change is not reported")
						}
						tables0 := tables[0]
						if terr := csvTable(out.Bytes(), tables0); terr != nil {
							c.Fail("before the schema change: %v", terr)
						}
					} else {
						if err != nil {
							c.Fail("export: %v", err)
						}
						if terr := csvTable(out.Bytes(), s); terr != nil {
							c.Fail("%v", terr)
						}
					}
					dir, err := os.MkdirTemp("", "f07")
					if err != nil {
						c.Skip()
					}
					defer os.RemoveAll(dir)
					prefix := filepath.Join(dir, "p")
					if err := ftdc.DumpCSV(ftdc.ReadChunks(bytes.NewReader(data)).Iterator(), prefix); err != nil {
						c.Fail("export to files: %v", err)
					}
					c.Step()
					files, _ := os.ReadDir(dir)
					if len(files) != len(tables) {
						c.Fail("%d files for %d schemas", len(files), len(tables))
					}
					for i, t := range tables {
						b, err := os.ReadFile(fmt.Sprintf("%s.%d.csv", prefix, i))
						if err != nil {
							c.Fail("file %d: %v", i, err)
						}
						if terr := csvTable(b, t); terr != nil {
							c.Fail("file %d: %v", i, terr)
						}
					}
				}},
			{Name: "export-faults", Bounds: "a table of 4 samples in 2 chunks: the destination refuses at every byte; files in a directory that does not exist", Rule: "a write is refused", Split: 1,
				Run: func(c *engine.Chooser) {
					var s []ref.Doc
					for i := 0; i < 4; i++ {
						s = append(s, f07Sample(2, i))
					}
					data := encodeDynamic(c, 2, s)
					var out bytes.Buffer
					if err := ftdc.WriteCSV(ftdc.ReadChunks(bytes.NewReader(data)).Iterator(), &out); err != nil {
						c.Fail("export: %v", err)
					}
					at := c.Choose(out.Len() + 1)
					w := &limitWriter{n: at}
					c.State(fmt.Sprint(at))
					err := ftdc.WriteCSV(ftdc.ReadChunks(bytes.NewReader(data)).Iterator(), w)
					c.Step()
					if at < out.Len() {
						c.NonTrivial()
						if err == nil {
							c.Fail("a write refused after %d of %d bytes is not reported", at, out.Len())
						}
						if !bytes.Equal(w.got, out.Bytes()[:at]) {
							c.Fail("wrote %q before failing", w.got)
						}
					} else if err != nil || !bytes.Equal(w.got, out.Bytes()) {
						c.Fail("wrote %q, %v", w.got, err)
					}
					if at == 0 {
						dir, err := os.MkdirTemp("", "f07")
						if err != nil {
							c.Skip()
						}
						defer os.RemoveAll(dir)
						if err := ftdc.DumpCSV(ftdc.ReadChunks(bytes.NewReader(data)).Iterator(), filepath.Join(dir, "missing", "p")); err == nil {
							c.Fail("files that cannot be created are not reported")
						}
					}
				}},
			{Name: "export-files", Bounds: "3 tables of 1 or 2 rows, of 1 to 3 short metrics, of long names or of 300 metrics: each of the three files cannot be made or takes nothing; streams that refuse at every 509th byte", Rule: "a file is unusable", Split: 1, Run: f07Files},
			{Name: "import", Bounds: "all tables of 1 or 2 columns and up to 3 rows (2 columns: 2 rows) over boundary integers and doubles, bucket sizes 1 to 3", Rule: "several rows", Split: 3,
				Run: func(c *engine.Chooser) {
					cols := 1 + c.Choose(2)
					rows := c.Choose(4)
					if cols == 2 && rows == 3 {
						c.Skip()
					}
					size := 1 + c.Choose(3)
					header := []string{"a", "b,\"x\" y"}[:cols]
					tbl := [][]string{header}
					var want []ref.Doc
					for i := 0; i < rows; i++ {
						var r []string
						for j := 0; j < cols; j++ {
							r = append(r, engine.Pick(c, f07Cells))
						}
						tbl = append(tbl, r)
						want = append(want, rowDoc(header, r))
					}
					if rows > 1 {
						c.NonTrivial()
					}
					text := csvText(tbl)
					c.Note("table %q", text)
					c.State(fmt.Sprint(size, string(text)))
					var out bytes.Buffer
					if err := ftdc.ConvertFromCSV(size, bytes.NewReader(text), &out); err != nil {
						c.Fail("import: %v", err)
					}
					c.Step()
					if err := decodeOut("", out.Bytes(), want); err != nil {
						c.Fail("%v", err)
					}
				}},
			{Name: "import-schemas", Bounds: "all sequences of up to 6 rows of 1 to 3 fields after a header of 2: a row with another number of fields is the header of the rows after it, a row with the first number again is refused", Rule: "a change of the number of fields", Split: 3,
				Run: func(c *engine.Chooser) {
					size := 1 + c.Choose(2)
					k := c.Choose(7)
					if !deep && k > 5 {
						c.Skip()
					}
					header := []string{"h0", "h1"}
					tbl := [][]string{header}
					var want []ref.Doc
					bad := false
					for i := 0; i < k; i++ {
						w := 1 + c.Choose(3)
						var r []string
						for j := 0; j < w; j++ {
							r = append(r, fmt.Sprint(i*10+j))
						}
						tbl = append(tbl, r)
						if bad {
							continue
						}
						if w != len(header) {
							c.NonTrivial()
							if w == 2 {
								bad = true
								continue
							}
							header = r
							continue
						}
						want = append(want, rowDoc(header, r))
					}
					text := csvText(tbl)
					c.Note("table %q", text)
					c.State(fmt.Sprint(size, string(text)))
					var out bytes.Buffer
					err := ftdc.ConvertFromCSV(size, bytes.NewReader(text), &out)
					c.Step()
					if bad {
						if err == nil {
							c.Fail("a return to the first number of fields is not reported")
						}
						return
					}
					if err != nil {
						c.Fail("import: %v", err)
					}
					if err := decodeOut("", out.Bytes(), want); err != nil {
						c.Fail("%v", err)
					}
				}},
			{Name: "import-text", Bounds: "rows with a non-numeric column at every position and sequence of 4 rows, which is left out of the sample", Rule: "a non-numeric field", Split: 3,
				Run: func(c *engine.Chooser) {
					header := []string{"a", "b", "c"}
					tbl := [][]string{header}
					var want []ref.Doc
					for i := 0; i < 3; i++ {
						var r []string
						for j := range header {
							switch c.Choose(3) {
							case 0:
								r = append(r, fmt.Sprint(i*7-j))
							case 1:
								r = append(r, "text")
								c.NonTrivial()
							default:
								r = append(r, "99999999999999999999x")
								c.NonTrivial()
							}
						}
						tbl = append(tbl, r)
						want = append(want, rowDoc(header, r))
					}
					text := csvText(tbl)
					c.Note("table %q", text)
					c.StateB(text)
					var out bytes.Buffer
					if err := ftdc.ConvertFromCSV(2, bytes.NewReader(text), &out); err != nil {
						c.Fail("import: %v", err)
					}
					c.Step()
					if err := decodeOut("", out.Bytes(), want); err != nil {
						c.Fail("%v", err)
					}
				}},
			{Name: "import-faults", Bounds: "a table of 5 rows: the source fails at every byte, the destination refuses at every byte, a malformed quote in every row, an empty source", Rule: "always", Split: 2,
				Run: func(c *engine.Chooser) {
					tbl := [][]string{{"a", "b"}}
					for i := 0; i < 5; i++ {
						tbl = append(tbl, []string{fmt.Sprint(i), fmt.Sprint(i * i)})
					}
					text := csvText(tbl)
					size := 1 + c.Choose(3)
					var good bytes.Buffer
					if err := ftdc.ConvertFromCSV(size, bytes.NewReader(text), &good); err != nil {
						c.Fail("import: %v", err)
					}
					c.NonTrivial()
					var err error
					switch c.Choose(4) {
					case 0:
						at := c.Choose(len(text) + 1)
						c.Note("the source fails at %d of %d", at, len(text))
						c.State(fmt.Sprint("src", size, at))
						err = ftdc.ConvertFromCSV(size, &stream{data: text[:at], end: errInjected}, io.Discard)
						if err == nil || !errors.Is(err, errInjected) {
							c.Fail("a source that fails after %d bytes gives %v", at, err)
						}
					case 1:
						at := c.Choose(good.Len())
						c.Note("the destination refuses at %d of %d", at, good.Len())
						c.State(fmt.Sprint("dst", size, at))
						// compressed sizes depend on the time recorded, not by more than this
						if at > good.Len()-8 {
							c.Skip()
						}
						if err = ftdc.ConvertFromCSV(size, bytes.NewReader(text), &limitWriter{n: at}); err == nil {
							c.Fail("a destination that fails after %d bytes is not reported", at)
						}
					case 2:
						at := c.Choose(6)
						lines := strings.SplitAfter(string(text), "\n")
						lines[at] = "1,2\"3\n"
						c.Note("malformed row %d", at)
						c.State(fmt.Sprint("quote", size, at))
						if err = ftdc.ConvertFromCSV(size, strings.NewReader(strings.Join(lines, "")), io.Discard); err == nil {
							c.Fail("malformed row %d is not reported", at)
						}
					default:
						c.State("empty")
						if err = ftdc.ConvertFromCSV(size, strings.NewReader(""), io.Discard); err == nil {
							c.Fail("a source without a header is not reported")
						}
					}
					c.Step()
				}},
			{Name: "round-trip", Bounds: "all sequences of up to 3 samples of integers and doubles exported and imported again", Rule: "several samples", Split: 3,
				Run: func(c *engine.Chooser) {
					k := 1 + c.Choose(3)
					var s []ref.Doc
					ia, da := f01Alphabet(ref.TInt64, false)[:6], f01Alphabet(ref.TDouble, false)[:9]
					for i := 0; i < k; i++ {
						s = append(s, ref.Doc{{K: "i", V: engine.Pick(c, ia)}, {K: "d", V: engine.Pick(c, da)}})
					}
					if k > 1 {
						c.NonTrivial()
					}
					if !deep && k > 2 {
						c.Skip()
					}
					c.State(fmt.Sprint(s))
					data := encodeDynamic(c, 2, s)
					var text, out bytes.Buffer
					if err := ftdc.WriteCSV(ftdc.ReadChunks(bytes.NewReader(data)).Iterator(), &text); err != nil {
						c.Fail("export: %v", err)
					}
					if err := ftdc.ConvertFromCSV(2, &text, &out); err != nil {
						c.Fail("import: %v", err)
					}
					c.Step()
					if err := decodeOut("", out.Bytes(), s); err != nil {
						c.Fail("%v", err)
					}
				}},
		}
	},
}
