package props

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"birchmc/bb"
	"birchmc/engine"
	"birchmc/ref"

	"github.com/tychoish/birch/x/ftdc"
	"github.com/tychoish/birch/x/mrpc/mongowire"
)

// Families at the sizes where buffers, prefixes and limits change: few
// executions each, every combination of the listed sizes and shapes.

var bigLens = []int{1023, 1024, 1025, 4091, 4095, 4096, 4097, 8192, 32767, 32768, 32769, 65535, 65536, 65537, 131073, 1 << 20}

func bigBytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8)
	}
	return b
}

func bigString(n int) string {
	var b strings.Builder
	for i := 0; b.Len() < n; i++ {
		b.WriteByte("abcdefghijklmnopqrstuvwxyz "[(i+i/27)%27])
	}
	return b.String()
}

// bigDoc is a document of the given kind with one variable part of n.
func bigDoc(kind, n int) ref.Doc {
	switch kind {
	case 0:
		return ref.Doc{{K: "b", V: ref.Val{T: ref.TBinary, Sub: 0, Bin: bigBytes(n)}}, {K: "z", V: i32(1)}}
	case 1:
		return ref.Doc{{K: "s", V: str(bigString(n))}, {K: "z", V: i32(1)}}
	case 2:
		return ref.Doc{{K: bigString(n), V: i32(7)}, {K: "z", V: i32(1)}}
	case 3:
		return ref.Doc{{K: "d", V: ref.Val{T: ref.TDoc, D: ref.Doc{{K: "s", V: str(bigString(n))}}}}, {K: "z", V: i32(1)}}
	case 4:
		var a ref.Doc
		for i := 0; i < n/12+1; i++ {
			a = append(a, ref.Elem{V: i32(int64(i))})
		}
		return ref.Doc{{K: "a", V: ref.Val{T: ref.TArray, D: a}}, {K: "z", V: i32(1)}}
	}
	var d ref.Doc
	for i := 0; i < n/12+1; i++ {
		d = append(d, ref.Elem{K: "k" + strconv.Itoa(i), V: i32(int64(i))})
	}
	return d
}

const bigKinds = 6

// chain nests a leaf n containers deep; mix alternates documents and arrays.
func chain(n, kind int, leaf ref.Val) ref.Doc {
	v := leaf
	for i := 0; i < n; i++ {
		t, k := byte(ref.TDoc), "k"
		if kind == 1 || kind == 2 && i%2 == 0 {
			t, k = ref.TArray, ""
		}
		in := ref.Doc{{K: k, V: v}, {K: k, V: i32(int64(i))}}
		if t == ref.TDoc {
			in[1].K = "after"
		}
		v = ref.Val{T: t, D: in}
	}
	return ref.Doc{{K: "top", V: v}, {K: "z", V: i32(2)}}
}

func cutsEvery(n int) func(total int) map[int]bool {
	return func(total int) map[int]bool {
		cuts := map[int]bool{}
		for i := n; n > 0 && i < total; i += n {
			cuts[i] = true
		}
		return cuts
	}
}

func docFamilies(run func(c *engine.Chooser, d ref.Doc), lens, depths []int) []engine.Family {
	vals := append(bb.Reps(), containerReps()...)
	var keyLens []int
	for i := range 300 {
		if i <= 72 || i%64 <= 2 || i%64 == 63 {
			keyLens = append(keyLens, i)
		}
	}
	return []engine.Family{
		{Name: "key-lengths", Bounds: fmt.Sprintf("a value of each type under keys of 0 to 72 bytes and of lengths around the multiples of 64 up to 258, of ASCII or not, in a document, a document in it, or a scope (%d values)", len(vals)), Rule: "always",
			Run: func(c *engine.Chooser) {
				c.NonTrivial()
				n, v := engine.Pick(c, keyLens), engine.Pick(c, vals)
				k := bigString(n)
				if c.Bool() {
					k = strings.Repeat("\u00e9", n/2) + k[:n%2]
				}
				d := ref.Doc{{K: k, V: v}, {K: k + "z", V: i32(1)}}
				switch c.Choose(3) {
				case 1:
					d = ref.Doc{{K: "d", V: ref.Val{T: ref.TDoc, D: d}}, {K: k, V: ref.Val{T: ref.TArray, D: ref.Doc{{V: v}}}}}
				case 2:
					d = ref.Doc{{K: k, V: ref.Val{T: ref.TCodeScope, S: k, D: d}}}
				}
				run(c, d)
			}},
		{Name: "large", Bounds: fmt.Sprintf("documents with one binary, string, key, embedded string, array or list of elements of each size of %v", lens), Rule: "always",
			Run: func(c *engine.Chooser) {
				c.NonTrivial()
				run(c, bigDoc(c.Choose(bigKinds), engine.Pick(c, lens)))
			}},
		{Name: "deeply-nested", Bounds: fmt.Sprintf("chains of documents, arrays and both in turn of each depth of %v", depths), Rule: "always",
			Run: func(c *engine.Chooser) {
				c.NonTrivial()
				run(c, chain(engine.Pick(c, depths), c.Choose(3), str("leaf")))
			}},
	}
}

// plainJSON tells whether jsonText can write all of d.
func plainJSON(d ref.Doc) bool {
	for _, e := range d {
		switch e.V.T {
		case ref.TString, ref.TInt32, ref.TInt64:
		case ref.TDoc, ref.TArray:
			if !plainJSON(e.V.D) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func jsonText(v ref.Val) string {
	switch v.T {
	case ref.TDoc:
		var p []string
		for _, e := range v.D {
			p = append(p, strconv.Quote(e.K)+":"+jsonText(e.V))
		}
		return "{" + strings.Join(p, ",") + "}"
	case ref.TArray:
		var p []string
		for _, e := range v.D {
			p = append(p, jsonText(e.V))
		}
		return "[" + strings.Join(p, ",") + "]"
	case ref.TString:
		return strconv.Quote(v.S)
	}
	return strconv.FormatInt(v.I, 10)
}

func largeFamilies(id, tier string) []engine.Family {
	deep := tier == "thorough"
	depths := []int{20, 33, 64, 65, 100, 101, 128, 200}
	mid := []int{1023, 1025, 4095, 4096, 4097, 32767, 32769, 65535, 65537, 131073}
	if deep {
		depths = append(depths, 255, 256, 257, 500)
		mid = bigLens
	}
	switch id {
	case "C01":
		return docFamilies(checkCodec, mid, depths)
	case "C05":
		return docFamilies(func(c *engine.Chooser, d ref.Doc) { checkHostile(c, d.Encode()) }, mid[:8], depths)
	case "C07":
		return docFamilies(checkJSONRender, mid[:8], depths)
	case "C08":
		return docFamilies(func(c *engine.Chooser, d ref.Doc) {
			if !plainJSON(d) {
				c.Skip()
			}
			checkJSONText(c, jsonText(ref.Val{T: ref.TDoc, D: d}))
		}, mid[:8], depths)
	case "C06":
		return []engine.Family{{Name: "large", Bounds: fmt.Sprintf("two documents with a binary of each size of %v, read whole or in pieces of 1000, 4096, 32768 and 65536 bytes", bigLens), Rule: "several pieces", Run: func(c *engine.Chooser) {
			n := engine.Pick(c, bigLens)
			cut := engine.Pick(c, []int{0, 1000, 4096, 32768, 65536})
			docs := []ref.Doc{bigDoc(0, n), bigDoc(1, n), {}}
			c06Stream(c, docs, cutsEvery(cut))
		}}}
	case "M02":
		return []engine.Family{{Name: "large", Bounds: fmt.Sprintf("an OP_MSG and an OP_REPLY with a document of each size of %v, read whole or in segments of 1000, 4096, 32768 and 65536 bytes", bigLens), Rule: "several segments", Run: func(c *engine.Chooser) {
			n := engine.Pick(c, bigLens)
			cut := engine.Pick(c, []int{0, 1000, 4096, 32768, 65536})
			d := bigDoc(0, n)
			m02Stream(c, []*wmsg{
				{Op: mongowire.OP_MSG, Req: 6, Secs: []wsec{{Body: d}}},
				{Op: mongowire.OP_REPLY, Req: 8, Resp: 9, B: 2, Docs: []ref.Doc{d, {}}},
			}, cutsEvery(cut))
		}}}
	case "M01":
		return []engine.Family{{Name: "many", Bounds: "replies, inserts and document sequences of 10 to 5000 documents, messages of 10 to 300 sections, killCursors of 10 to 5000 cursors", Rule: "always", Run: func(c *engine.Chooser) {
			c.NonTrivial()
			n := engine.Pick(c, []int{10, 63, 64, 100, 127, 128, 255, 256, 257, 1000, 1001, 5000})
			var docs []ref.Doc
			for i := 0; i < n; i++ {
				docs = append(docs, ref.Doc{{K: "i", V: i32(int64(i))}})
			}
			switch c.Choose(5) {
			case 0:
				checkWire(c, &wmsg{Op: mongowire.OP_REPLY, Req: 8, Resp: 9, B: int32(n), Docs: docs}, true)
			case 1:
				checkWire(c, &wmsg{Op: mongowire.OP_INSERT, Req: 12, NS: "db.c", Docs: docs}, true)
			case 2:
				checkWire(c, &wmsg{Op: mongowire.OP_MSG, Req: 12, Secs: []wsec{{Body: docs[0]}, {Seq: true, ID: "s", Docs: docs}}}, true)
			case 3:
				if n > 300 {
					c.Skip()
				}
				secs := []wsec{{Body: docs[0]}}
				for _, d := range docs {
					secs = append(secs, wsec{Seq: true, ID: "s", Docs: []ref.Doc{d, {}}})
				}
				checkWire(c, &wmsg{Op: mongowire.OP_MSG, Req: 12, Secs: secs}, true)
			default:
				m := &wmsg{Op: mongowire.OP_KILL_CURSORS, Req: 1}
				for i := 0; i < n; i++ {
					m.Cursors = append(m.Cursors, int64(i)<<32|int64(n))
				}
				checkWire(c, m, true)
			}
		}}}
	case "F02":
		kinds := collKinds()
		sizes := []int{10, 100, 300}
		counts := []int{101, 250, 601}
		if deep {
			sizes = []int{10, 64, 100, 128, 255, 256, 300, 1000}
			counts = []int{101, 250, 601, 1001, 2500}
		}
		return []engine.Family{{Name: "many", Bounds: fmt.Sprintf("%d collector kinds of size %v x %v samples, the schema never changing or changing once at the second, the middle, around the size or at the last sample", len(kinds), sizes, counts), Rule: "always", Run: func(c *engine.Chooser) {
			k := engine.Pick(c, kinds)
			size := engine.Pick(c, sizes)
			n := engine.Pick(c, counts)
			at := engine.Pick(c, []int{-1, 1, n / 2, size - 1, size, size + 1, n - 1})
			if at >= n {
				c.Skip()
			}
			c.NonTrivial()
			r := newF02(c, k, size, 0)
			for i := 0; i < n; i++ {
				s := 0
				if at >= 0 && i >= at {
					s = 1
				}
				r.add(s)
			}
			r.finish()
		}}}
	case "F03":
		return []engine.Family{{Name: "many", Bounds: "1, 2, 100 and 400 metrics x 2, 130, 500 and 1001 samples in chunks of 7, 100 and 1000, through all five views", Rule: "always", Run: func(c *engine.Chooser) {
			m := engine.Pick(c, []int{1, 2, 100, 400})
			n := engine.Pick(c, []int{2, 130, 500, 1001})
			size := engine.Pick(c, []int{7, 100, 1000})
			if m*n > 50100 && !deep {
				c.Skip()
			}
			c.NonTrivial()
			samples, data := bigSamples(c, m, n, size)
			c.State(fmt.Sprint(m, n, size))
			checkViews(c, data, samples, nil)
		}}}
	case "F07":
		return []engine.Family{{Name: "many", Bounds: "tables of 1, 2 and 300 columns x 100, 1000 and 3000 rows in chunks of 7, 100 and 1000: exported, imported again", Rule: "always", Run: func(c *engine.Chooser) {
			m := engine.Pick(c, []int{1, 2, 300})
			n := engine.Pick(c, []int{100, 1000, 3000})
			size := engine.Pick(c, []int{7, 100, 1000})
			if m*n > 100000 && !deep {
				c.Skip()
			}
			c.NonTrivial()
			samples, data := bigSamples(c, m, n, size)
			c.State(fmt.Sprint(m, n, size))
			var out bytes.Buffer
			if err := ftdc.WriteCSV(ftdc.ReadChunks(bytes.NewReader(data)).Iterator(), &out); err != nil {
				c.Fail("export: %v", err)
			}
			c.Step()
			if err := csvTable(out.Bytes(), samples); err != nil {
				c.Fail("%v", err)
			}
			var back bytes.Buffer
			if err := ftdc.ConvertFromCSV(size, bytes.NewReader(out.Bytes()), &back); err != nil {
				c.Fail("import: %v", err)
			}
			c.Step()
			if err := decodeOut("", back.Bytes(), samples); err != nil {
				c.Fail("imported again: %v", err)
			}
		}}}
	}
	return nil
}

// bigSamples records n samples of m integer metrics in chunks of size.
func bigSamples(c *engine.Chooser, m, n, size int) ([]ref.Doc, []byte) {
	var samples []ref.Doc
	for i := 0; i < n; i++ {
		d := ref.Doc{}
		for j := 0; j < m; j++ {
			x := int64(i*(j+1)) * 1001
			if j%3 == 1 {
				x = int64(i / 50)
			}
			d = append(d, ref.Elem{K: fmt.Sprintf("k%04d", j), V: ref.Val{T: ref.TInt64, I: x}})
		}
		samples = append(samples, d)
	}
	return samples, encodeDynamic(c, size, samples)
}

func init() {
	for _, p := range All {
		p, base := p, p.Families
		p.Families = func(tier string) []engine.Family {
			return append(append(base(tier), largeFamilies(p.ID, tier)...), more2Families(p.ID, tier)...)
		}
	}
}
