package conc

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"time"

	"birchmc/engine"
	"birchmc/mcrt"
	mctx "birchmc/mcrt/mctx"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
	"github.com/tychoish/birch/x/ftdc/metrics"
)

var scratchN int

// scratch makes a directory for one execution, below the working directory
// (which the check creates and removes).
func scratchDir() (dir string, done func()) {
	scratchN++
	wd, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	dir = filepath.Join(wd, fmt.Sprintf("x%d.%d", os.Getpid(), scratchN))
	if err := os.Mkdir(dir, 0o700); err != nil {
		panic(err)
	}
	return dir, func() { _ = os.RemoveAll(dir) }
}

// openIn lists the open files below dir.
func openIn(dir string) []string {
	var out []string
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, fd := range fds {
		if l, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(l, dir) {
			out = append(out, strings.TrimPrefix(l, dir))
		}
	}
	return out
}

// readFiles returns the samples of the numbered files, and how many there are
// in each.
func readFiles(c *engine.Chooser, dir, prefix string) (samples []string, files []int) {
	samples, files, err := filesIn(dir, prefix)
	if err != nil {
		c.Fail("%v", err)
	}
	return samples, files
}

func filesIn(dir, prefix string) (samples []string, per []int, err error) {
	files := 0
	for {
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("%s.%d", prefix, files)))
		if err != nil {
			break
		}
		files++
		before := len(samples)
		it := ftdc.ReadMetrics(bytes.NewReader(b))
		for d := range it.Iterator() {
			var kv []string
			for e := range d.Iterator() {
				kv = append(kv, fmt.Sprintf("%s=%v", e.Key(), e.Value().Interface()))
			}
			samples = append(samples, strings.Join(kv, ","))
		}
		if err := it.Close(); err != nil {
			return nil, nil, fmt.Errorf("reading file %d: %w", files-1, err)
		}
		per = append(per, len(samples)-before)
	}
	all, _ := filepath.Glob(filepath.Join(dir, prefix+".*"))
	if len(all) != files {
		return nil, nil, fmt.Errorf("the files are not numbered consecutively: %d of %d", files, len(all))
	}
	return samples, per, nil
}

// f08Left checks that nothing is left open.
func f08Left(c *engine.Chooser, x *mcrt.Exec, dir string) {
	if left := openIn(dir); len(left) > 0 {
		c.Fail("open files are left behind: %v", left)
	}
	if n := x.Watchers(); n > 0 {
		c.Fail("%d files are still watched", n)
	}
}

// f08Source is what is collected, and how.
type f08Source struct {
	lines  []string // without line ends
	want   []string // the samples of the good lines before the first fault
	kind   int      // 0 reader, 1 file, 2 followed file
	broken bool     // a fault keeps the collection from completing
}

func (s *f08Source) add(schema, i int) {
	if schema == 0 {
		s.lines = append(s.lines, fmt.Sprintf(`{"a":%d,"n":{"b":%d}}`, i, 100-i))
		s.want = append(s.want, fmt.Sprintf("a=%d,n.b=%d", i, 100-i))
	} else {
		s.lines = append(s.lines, fmt.Sprintf(`{"c":%d}`, i))
		s.want = append(s.want, fmt.Sprintf("c=%d", i))
	}
}

func (s *f08Source) text() string {
	if len(s.lines) == 0 {
		return ""
	}
	return strings.Join(s.lines, "\n") + "\n"
}

type panicReader struct{ r io.Reader }

func (p panicReader) Read(b []byte) (int, error) {
	n, err := p.r.Read(b)
	if err == io.EOF {
		panic("injected panic")
	}
	return n, err
}

type f08Run struct {
	opts   metrics.CollectJSONOptions
	dir    string
	cancel bool // canceled at any time
	ticks  int
	delays int
}

// json runs CollectJSONStream over the source.
func (s *f08Source) json(c *engine.Chooser, r f08Run, reader io.Reader) {
	dir, done := scratchDir()
	defer done()
	o := r.opts
	o.OutputFilePrefix = filepath.Join(dir, r.dir+"out")
	if s.kind == 0 {
		o.InputSource = reader
	} else {
		o.FileName = filepath.Join(dir, "in")
		o.Follow = s.kind == 2
		if err := os.WriteFile(o.FileName, []byte(s.text()), 0o600); err != nil {
			panic(err)
		}
	}
	delayed(c, r.delays, func(x *mcrt.Exec) {
		x.Ticks, x.Tick = r.ticks, o.FlushInterval
		ctx, cancel := mctx.WithCancel(context.Background())
		defer cancel()
		err := errors.New("did not return")
		x.Go("collect", func() { err = metrics.CollectJSONStream(ctx, o) })
		if r.cancel {
			x.Anytime("cancel", cancel)
		}
		finish(c, x)
		got, files := readFiles(c, dir, "out")
		for i, g := range got {
			if i >= len(s.want) || g != s.want[i] {
				c.Fail("samples are %v, expected %v", got, s.want)
			}
		}
		switch {
		case err == nil && s.broken:
			c.Fail("no error was reported")
		case err == nil && len(got) != len(s.want):
			c.Fail("completed without error, but wrote %d of %d samples: %v", len(got), len(s.want), got)
		case err != nil && !s.broken && !r.cancel:
			c.Fail("error: %v", err)
		}
		f08Left(c, x, dir)
		c.State(fmt.Sprint(got, len(files), err == nil))
	})
}

func f08Opts(c *engine.Chooser) metrics.CollectJSONOptions {
	return metrics.CollectJSONOptions{FlushInterval: time.Second, SampleCount: engine.Pick(c, []int{1, 2, 10})}
}

// reader makes the input for kind 0: bytes come in pieces.
func (s *f08Source) reader(c *engine.Chooser) io.Reader {
	return &yieldReader{data: []byte(s.text()), step: engine.Pick(c, []int{0, 7})}
}

// f08JSON: all sources of up to n lines with flushes at any time.
func f08JSON(n, ticks, delays int, cancel bool) func(c *engine.Chooser) {
	return func(c *engine.Chooser) {
		s := &f08Source{kind: c.Choose(2)}
		k := c.Choose(n + 1)
		for i := range k {
			s.add(c.Choose(2), i)
		}
		o := f08Opts(c)
		var rd io.Reader
		if s.kind == 0 {
			rd = s.reader(c)
		}
		s.json(c, f08Run{opts: o, ticks: ticks, delays: delays, cancel: cancel}, rd)
	}
}

// f08Faults: a fault in the source or when writing.
func f08Faults(n, ticks, delays int) func(c *engine.Chooser) {
	return func(c *engine.Chooser) {
		s := &f08Source{kind: c.Choose(2), broken: true}
		k := c.Choose(n + 1)
		for i := range k {
			s.add(0, i)
		}
		r := f08Run{opts: metrics.CollectJSONOptions{FlushInterval: time.Second, SampleCount: 10}, ticks: ticks, delays: delays}
		fault := c.Choose(6)
		var rd io.Reader
		switch fault {
		case 0: // a line that is not a document
			s.lines = append(s.lines, `{"a":`)
			s.lines = append(s.lines, `{"a":9,"n":{"b":9}}`)
		case 1: // a line longer than the reader allows
			s.lines = append(s.lines, `{"a":"`+strings.Repeat("x", 70000)+`"}`)
			s.lines = append(s.lines, `{"a":9,"n":{"b":9}}`)
		case 2: // reading fails
			if s.kind != 0 {
				c.Skip()
			}
			rd = &yieldReader{data: []byte(s.text()), end: errRead}
		case 3: // the reader panics
			if s.kind != 0 {
				c.Skip()
			}
			rd = panicReader{&yieldReader{data: []byte(s.text())}}
		case 4: // there is nowhere to write
			r.dir = "missing/"
			s.broken = k > 0
			s.want = nil
			if k == 0 {
				s.want = []string{}
			}
		case 5: // a line that is JSON, but not an object
			s.lines = append(s.lines, `[1]`, `7`)
		}
		if s.kind == 0 && rd == nil {
			rd = &yieldReader{data: []byte(s.text())}
		}
		s.json(c, r, rd)
	}
}

// f08Follow: what is appended to a followed file, in any pieces, before or
// after the collection starts.
func f08Follow(n, cuts, delays int) func(c *engine.Chooser) {
	return func(c *engine.Chooser) {
		s := &f08Source{}
		for i := range n {
			s.add(0, i)
		}
		text := s.text()
		// pieces; the first one is there from the start
		var pieces []string
		last := 0
		for range cuts {
			k := last + c.Choose(len(text)+1-last)
			pieces = append(pieces, text[last:k])
			last = k
		}
		pieces = append(pieces, text[last:])
		// one event for each write, or for two at once
		coalesce := c.Bool()
		dir, done := scratchDir()
		defer done()
		fn := filepath.Join(dir, "in")
		if err := os.WriteFile(fn, []byte(pieces[0]), 0o600); err != nil {
			panic(err)
		}
		delayed(c, delays, func(x *mcrt.Exec) {
			ctx, cancel := mctx.WithCancel(context.Background())
			defer cancel()
			var err error
			returned := false
			x.Go("collect", func() {
				err = metrics.CollectJSONStream(ctx, metrics.CollectJSONOptions{
					OutputFilePrefix: filepath.Join(dir, "out"), SampleCount: 10, FlushInterval: time.Second, FileName: fn, Follow: true})
				returned = true
			})
			x.Go("append", func() {
				f, err := os.OpenFile(fn, os.O_APPEND|os.O_WRONLY, 0)
				if err != nil {
					panic(err)
				}
				for i, p := range pieces[1:] {
					mcrt.Yield()
					if _, err := f.WriteString(p); err != nil {
						panic(err)
					}
					if p != "" && !(coalesce && i%2 == 0 && i+2 < len(pieces)) {
						mcrt.FileEvent(fn, 2, nil)
					}
				}
				_ = f.Close()
				mcrt.FileEvent(fn, 2, nil)
				mcrt.Advance(time.Second)
				cancel()
			})
			finish(c, x)
			if !returned || err == nil {
				c.Fail("a canceled collection returned %v", err)
			}
			got, _ := readFiles(c, dir, "out")
			if strings.Join(got, "\n") != strings.Join(s.want, "\n") {
				c.Fail("samples are %v, expected %v (pieces %q)", got, s.want, pieces)
			}
			f08Left(c, x, dir)
			c.State(fmt.Sprint(got))
		})
	}
}

// f08Flush: whatever was there before a flush is due is in a file after it.
func f08Flush(stages, delays int) func(c *engine.Chooser) {
	return func(c *engine.Chooser) {
		s := &f08Source{}
		k, schema := 0, 0
		var texts []string
		var counts []int
		for range stages {
			n := c.Choose(3)
			if n > 0 && k > 0 && c.Bool() {
				schema = 1 - schema
			}
			was := len(s.text())
			for range n {
				s.add(schema, k)
				k++
			}
			texts = append(texts, s.text()[was:])
			counts = append(counts, k)
		}
		count := engine.Pick(c, []int{1, 10})
		dir, done := scratchDir()
		defer done()
		fn := filepath.Join(dir, "in")
		if err := os.WriteFile(fn, nil, 0o600); err != nil {
			panic(err)
		}
		delayed(c, delays, func(x *mcrt.Exec) {
			ctx, cancel := mctx.WithCancel(context.Background())
			defer cancel()
			x.Go("collect", func() {
				_ = metrics.CollectJSONStream(ctx, metrics.CollectJSONOptions{
					OutputFilePrefix: filepath.Join(dir, "out"), SampleCount: count, FlushInterval: time.Second, FileName: fn, Follow: true})
			})
			bad := ""
			x.Go("append", func() {
				mcrt.Settle()
				for i, p := range texts {
					f, err := os.OpenFile(fn, os.O_APPEND|os.O_WRONLY, 0)
					if err != nil {
						panic(err)
					}
					if _, err := f.WriteString(p); err != nil {
						panic(err)
					}
					_ = f.Close()
					mcrt.FileEvent(fn, 2, nil)
					mcrt.Settle()
					mcrt.Advance(time.Second)
					mcrt.Settle()
					got, _, err := filesIn(dir, "out")
					if err != nil {
						bad = err.Error()
						break
					}
					if strings.Join(got, "\n") != strings.Join(s.want[:counts[i]], "\n") {
						bad = fmt.Sprintf("after flush %d the files have %v, expected %v", i+1, got, s.want[:counts[i]])
						break
					}
				}
				cancel()
			})
			finish(c, x)
			if bad != "" {
				c.Fail("%s", bad)
			}
			f08Left(c, x, dir)
			c.State(fmt.Sprint(counts))
		})
	}
}

// f08Runtime: periodic collection until canceled at any time.
func f08Runtime(steps, delays int, colls []int, flush []int, fault bool) func(c *engine.Chooser) {
	return func(c *engine.Chooser) {
		dir, done := scratchDir()
		defer done()
		o := metrics.NewCollectOptions(filepath.Join(dir, "out"))
		o.SkipProcess, o.SkipSystem = true, true
		o.SampleCount = 10
		o.CollectionInterval = time.Second
		o.FlushInterval = time.Duration(engine.Pick(c, flush)) * time.Second
		n := engine.Pick(c, colls)
		bad := -1
		if fault {
			bad = c.Choose(steps)
		}
		calls := make([]int, n)
		for i := range n {
			// registered in reverse: they are sorted by name
			o.Collectors = append(o.Collectors, metrics.CustomCollector{Name: fmt.Sprintf("c%d", n-i), Operation: func(context.Context) *birch.Document {
				mcrt.Yield()
				calls[i]++
				if i == 0 && calls[i] == bad+1 {
					panic("injected panic")
				}
				return birch.DC.Elements(birch.EC.Int64("n", int64(calls[i])))
			}})
		}
		if n > 0 {
			o.RunParallelCollectors = fault || c.Bool()
		}
		delayed(c, delays, func(x *mcrt.Exec) {
			x.MaxSteps = 20000
			ctx, cancel := mctx.WithCancel(context.Background())
			defer cancel()
			err := errors.New("did not return")
			x.Go("collect", func() { err = metrics.CollectRuntime(ctx, o) })
			x.Go("clock", func() {
				for range steps {
					mcrt.Advance(time.Second)
				}
				if fault {
					cancel()
				}
			})
			if !fault {
				x.Anytime("cancel", cancel)
			}
			finish(c, x)
			if fault {
				if err == nil {
					c.Fail("a collector panicked and no error was reported")
				}
			} else if err != nil {
				c.Fail("error: %v", err)
			}
			got, files := readFiles(c, dir, "out")
			if !fault {
				for i, k := range calls {
					if k != len(got) {
						c.Fail("collector %d was called %d times, but %d samples were written", i, k, len(got))
					}
				}
			}
			// a collection and a rotation can be due at the same time
			for i, k := range files {
				if k > int(o.FlushInterval/time.Second)+1 {
					c.Fail("file %d has %d samples, although files are rotated every %v: %v", i, k, o.FlushInterval, files)
				}
			}
			for i, g := range got {
				id, want := "id=", ""
				if n > 0 {
					id = "runtime.id="
					for k := range n {
						want += fmt.Sprintf("c%d.n=%d,", k+1, i+1)
					}
				}
				if o.RunParallelCollectors || n == 0 {
					if !strings.HasPrefix(g, want+id+fmt.Sprint(i)+",") {
						c.Fail("sample %d is %s, expected it to begin with %s%s%d", i, g, want, id, i)
					}
				} else if !strings.HasPrefix(g, id+fmt.Sprint(i)+",") || !strings.HasSuffix(g+",", ","+want) {
					c.Fail("sample %d is %s, expected %s%d and %s", i, g, id, i, want)
				}
			}
			f08Left(c, x, dir)
			c.State(fmt.Sprint(len(got), len(files)))
		})
	}
}

var f08 = &engine.Property{
	ID: "F08", Level: "model_checking",
	Assume: []string{"file notifications are replaced by the explorer's, files are real; system and process statistics are left out"},
	Families: func(tier string) []engine.Family {
		n, ticks, delays := 2, 1, 1
		steps, rot, colls := 12, 4, []int{2}
		if tier == "thorough" {
			n, ticks, delays, steps, rot, colls = 4, 2, 2, 23, 6, []int{1, 2, 3}
		}
		return []engine.Family{
			{Name: "json", Rule: "every schedule", Bounds: fmt.Sprintf("up to %d lines of 2 schemas from a reader or a file, 3 chunk sizes, %d flushes at any time, %d delays", n, ticks, delays), Run: f08JSON(n, ticks, delays, false)},
			{Name: "json-cancel", Rule: "every schedule", Bounds: fmt.Sprintf("up to %d lines, canceled after any step, %d delays", n-1, delays-1), Split: 10, Run: f08JSON(n-1, ticks, delays-1, true)},
			{Name: "json-faults", Rule: "every schedule", Bounds: fmt.Sprintf("up to %d good lines before one of 6 faults, %d flushes, %d delays", n-1, ticks, delays), Run: f08Faults(n-1, ticks, delays)},
			{Name: "follow", Rule: "every schedule", Bounds: "3 lines appended in up to 3 pieces cut anywhere, the first one before the start, events for each or coalesced", Split: 2, Run: f08Follow(3, 2, 0)},
			{Name: "follow-schedules", Rule: "every schedule", Bounds: fmt.Sprintf("1 line in 2 pieces, %d delays", delays+1), Split: 2, Run: f08Follow(1, 1, delays+1)},
			{Name: "flush", Rule: "every schedule", Bounds: fmt.Sprintf("%d flushes with up to 2 lines of 2 schemas before each, 2 chunk sizes, %d delays", steps/4, delays-1), Run: f08Flush(steps/4, delays-1)},
			{Name: "runtime", Rule: "every schedule", Bounds: fmt.Sprintf("%d collections, files rotated every 5 or 30, canceled after any step, without custom collectors", steps), Split: 10, Run: f08Runtime(steps, 0, []int{0}, []int{5, 30}, false)},
			{Name: "runtime-chunks", Rule: "every schedule", Bounds: fmt.Sprintf("%d collections, files rotated at 11, canceled after any step, without custom collectors", 23), Split: 10, Run: f08Runtime(23, 0, []int{0}, []int{11}, false)},
			{Name: "runtime-rotate", Rule: "every schedule", Bounds: fmt.Sprintf("%d collections, files rotated after each or every second, canceled after any step, up to 1 custom collector", rot), Split: 10, Run: f08Runtime(rot, 0, []int{0, 1}, []int{1, 2}, false)},
			{Name: "runtime-custom", Rule: "every schedule", Bounds: fmt.Sprintf("%d collections by %v custom collectors, in sequence or in parallel, canceled after any step, %d delays", delays, colls, delays), Split: 8, Run: f08Runtime(delays, delays, colls, []int{2}, false)},
			{Name: "runtime-panic", Rule: "every schedule", Bounds: fmt.Sprintf("1 to 3 parallel custom collectors of which one panics, %d delays", delays+1), Split: 4, Run: f08Runtime(2, delays+1, []int{1, 2, 3}, []int{2}, true)},
		}
	},
}
