package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/tychoish/birch/x/ftdc"

	"birchmc/engine"
	"birchmc/ref"
)

// f07Wide gives samples of two schemas whose header or rows do not fit the
// writer's buffer.
func f07Wide(kind, s, n int) ref.Doc {
	d := ref.Doc{}
	name := "m"
	if kind == 1 {
		name = strings.Repeat("long", 1200)
	}
	cols := 1 + s
	if kind == 2 {
		cols = 300 + s
	}
	for i := 0; i < cols; i++ {
		d = append(d, ref.Elem{K: fmt.Sprint(name, i), V: ref.Val{T: ref.TInt64, I: int64(n-i) << 55}})
	}
	return d
}

// f07Files exports several tables to files of which one cannot be made or
// not be written.
func f07Files(c *engine.Chooser) {
	kind := c.Choose(3)
	var s []ref.Doc
	var tables [][]ref.Doc
	for t := 0; t < 3; t++ {
		var tab []ref.Doc
		for n := 1 + c.Choose(2); n > 0; n-- {
			tab = append(tab, f07Wide(kind, t, len(s)))
			s = append(s, tab[len(tab)-1])
		}
		tables = append(tables, tab)
	}
	data := encodeDynamic(c, 1, s)
	at, how := c.Choose(4), c.Choose(2)
	c.Note("tables of %d, %d and %d rows of kind %d; file %d, fault %d", len(tables[0]), len(tables[1]), len(tables[2]), kind, at, how)
	c.State(fmt.Sprint(kind, len(tables[0]), len(tables[1]), len(tables[2]), at, how))
	dir, err := os.MkdirTemp("", "f07")
	if err != nil {
		c.Skip()
	}
	defer os.RemoveAll(dir)
	prefix := filepath.Join(dir, "p")
	file := func(i int) string { return fmt.Sprintf("%s.%d.csv", prefix, i) }
	if at < 3 {
		c.NonTrivial()
		if how == 0 { // cannot be made
			if err := os.Mkdir(file(at), 0o700); err != nil {
				c.Skip()
			}
		} else { // takes nothing
			if err := os.Symlink("/dev/full", file(at)); err != nil {
				c.Skip()
			}
		}
	}
	err = ftdc.DumpCSV(ftdc.ReadChunks(bytes.NewReader(data)).Iterator(), prefix)
	c.Step()
	if (err != nil) != (at < 3) {
		c.Fail("exporting to files of which %d is unusable reports %v", at, err)
	}
	for i := 0; i < 3 && i < at; i++ {
		b, err := os.ReadFile(file(i))
		if err != nil {
			c.Fail("file %d: %v", i, err)
		}
		if terr := csvTable(b, tables[i]); terr != nil {
			c.Fail("file %d: %v", i, terr)
		}
	}
	for i := at + 1; i < 3; i++ {
		if _, err := os.Lstat(file(i)); err == nil {
			c.Fail("file %d exists although file %d failed", i, at)
		}
	}
	// the same tables to a stream that refuses
	if at == 3 {
		var one bytes.Buffer
		data := encodeDynamic(c, 1, tables[0])
		if err := ftdc.WriteCSV(ftdc.ReadChunks(bytes.NewReader(data)).Iterator(), &one); err != nil {
			c.Fail("export: %v", err)
		}
		for n := 0; n < one.Len(); n += 509 {
			w := &limitWriter{n: n}
			if err := ftdc.WriteCSV(ftdc.ReadChunks(bytes.NewReader(data)).Iterator(), w); err == nil {
				c.Fail("a write refused after %d of %d bytes is not reported", n, one.Len())
			}
			if !bytes.Equal(w.got, one.Bytes()[:n]) {
				c.Fail("wrote %d bytes that are not the table's before failing at %d", len(w.got), n)
			}
			c.Step()
		}
	}
}
