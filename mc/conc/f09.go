package conc

import (
	"fmt"
	"math"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"birchmc/engine"
	"birchmc/mcrt"

	"github.com/shirou/gopsutil/disk"
	"github.com/shirou/gopsutil/net"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc/metrics"
)

// f09Names are the names the documents have always had where the tags of the
// structures say something else.
var f09Names = map[string]string{
	"process.numThreads": "process.threads", "system.num_cpus": "system.num_cpu",
	"system.vmstat.committedas": "system.vmstat.commitedas", "system.vmstat.hugepagesize": "system.vmstat.hugepagessize",
}

// f09Leaf is a field of the structure, and where it is in the document.
type f09Leaf struct {
	path string
	v    reflect.Value
}

// f09Leaves lists the measurements; names come from the tags.
func f09Leaves(prefix string, v reflect.Value, out *[]f09Leaf) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			f09Leaves(prefix, v.Elem(), out)
		}
	case reflect.Struct:
		if _, ok := v.Interface().(time.Time); ok {
			*out = append(*out, f09Leaf{prefix, v})
			return
		}
		for i := range v.NumField() {
			f := v.Type().Field(i)
			if !f.IsExported() || f.Name == "Errors" {
				continue
			}
			tag := f.Tag.Get("bson")
			if tag == "" {
				tag = f.Tag.Get("json")
			}
			name, _, _ := strings.Cut(tag, ",")
			if prefix != "" {
				name = prefix + "." + name
			}
			if n, ok := f09Names[name]; ok {
				name = n
			}
			f09Leaves(name, v.Field(i), out)
		}
	case reflect.Slice:
		for i := range v.Len() {
			f09Leaves(fmt.Sprintf("%s.%d", prefix, i), v.Index(i), out)
		}
	default:
		*out = append(*out, f09Leaf{prefix, v})
	}
}

var f09Ints = []int64{0, 1, -1, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, math.MinInt32 - 1, math.MaxInt64, math.MinInt64}

func (l f09Leaf) values() int {
	switch l.v.Kind() {
	case reflect.String, reflect.Float64, reflect.Struct:
		return 4
	case reflect.Int32:
		return 5
	}
	return len(f09Ints)
}

// set gives the field its i-th value; the result is how it reads in a
// document.
func (l f09Leaf) set(i int) string {
	switch l.v.Kind() {
	case reflect.String:
		s := []string{"", "x", "a longer text", "\u00e9\x01"}[i]
		l.v.SetString(s)
		return fmt.Sprintf("%q", s)
	case reflect.Float64:
		f := []float64{0, 1, -3, 1e6}[i]
		l.v.SetFloat(f)
		return fmt.Sprint(int64(f))
	case reflect.Struct:
		t := []time.Time{time.UnixMilli(0), time.UnixMilli(1), time.UnixMilli(-1), time.UnixMilli(1 << 41)}[i]
		l.v.Set(reflect.ValueOf(t))
		return fmt.Sprint("t", t.UnixMilli())
	case reflect.Uint64:
		l.v.SetUint(uint64(f09Ints[i]))
	default:
		l.v.SetInt(f09Ints[i])
	}
	return fmt.Sprint(f09Ints[i])
}

// f09Flat lists the document's values.
func f09Flat(prefix string, v *birch.Value, out map[string]string, order *[]string) {
	put := func(s string) {
		if _, ok := out[prefix]; ok {
			s = "there twice"
		}
		out[prefix] = s
		*order = append(*order, prefix)
	}
	if a, ok := v.MutableArrayOK(); ok {
		i := 0
		for e := range a.Iterator() {
			f09Flat(fmt.Sprintf("%s.%d", prefix, i), e, out, order)
			i++
		}
		return
	}
	if d, ok := v.MutableDocumentOK(); ok {
		for e := range d.Iterator() {
			f09Flat(prefix+"."+e.Key(), e.Value(), out, order)
		}
		return
	}
	switch t := v.Interface().(type) {
	case string:
		put(fmt.Sprintf("%q", t))
	case int32:
		put(fmt.Sprint(t))
	case int64:
		put(fmt.Sprint(t))
	case float64:
		put(fmt.Sprint(int64(t)))
	case time.Time:
		put(fmt.Sprint("t", t.UnixMilli()))
	default:
		put(fmt.Sprintf("%T", t))
	}
}

// f09Documents: every field (pair of fields) at every boundary value.
func f09Documents(pairs bool) func(c *engine.Chooser) {
	return func(c *engine.Chooser) {
		r := &metrics.Runtime{}
		k := 1
		if !pairs {
			k = c.Choose(3)
		}
		parts := []func(){
			func() { r.Golang = &metrics.GoRuntimeInfo{} },
			func() {
				r.Process = &metrics.ProcessInfo{NetStat: make([]net.IOCountersStat, k)}
			},
			func() {
				r.System = &metrics.SystemInfo{Partitions: make([]disk.PartitionStat, k), Usage: make([]disk.UsageStat, k), IOStat: make([]disk.IOCountersStat, k)}
			},
		}
		// one of the parts, or all
		which := len(parts)
		if !pairs {
			which = c.Choose(len(parts) + 1)
		}
		for i, f := range parts {
			if which == i || which == len(parts) {
				f()
			}
		}
		var leaves []f09Leaf
		f09Leaves("", reflect.ValueOf(r), &leaves)
		want := map[string]string{}
		for _, l := range leaves {
			want[l.path] = l.set(0)
		}
		if len(want) != len(leaves) {
			panic("names are not unique")
		}
		i := c.Choose(len(leaves))
		val := 2
		if !pairs {
			val = c.Choose(leaves[i].values())
		}
		want[leaves[i].path] = leaves[i].set(val)
		if pairs && i > 0 {
			j := c.Choose(i)
			want[leaves[j].path] = leaves[j].set(1)
		}
		c.NonTrivial()
		c.Step()
		d, err := r.MarshalDocument()
		if err != nil {
			c.Fail("error: %v", err)
		}
		got := map[string]string{}
		var order []string
		for e := range d.Iterator() {
			f09Flat(e.Key(), e.Value(), got, &order)
		}
		for _, l := range leaves {
			if g, ok := got[l.path]; !ok {
				c.Fail("%s is not in the document", l.path)
			} else if g != want[l.path] {
				c.Fail("%s is %s in the document, expected %s", l.path, g, want[l.path])
			}
		}
		if len(got) != len(want) {
			c.Fail("the document has %d values, expected %d", len(got), len(want))
		}
		c.State(fmt.Sprint(which, i, want[leaves[i].path]))
	}
}

// f09Now are the counters of the runtime.
type f09Now struct {
	c [4]int64 // mallocs, frees, gcs, cgo calls
	m runtime.MemStats
}

func f09Read() (n f09Now) {
	runtime.ReadMemStats(&n.m)
	n.c = [4]int64{int64(n.m.Mallocs), int64(n.m.Frees), int64(n.m.NumGC), runtime.NumCgoCall()}
	return n
}

var f09Counter = []string{"mallocs", "frees", "gcs", "cgo calls"}

func f09Counts(g *metrics.GoRuntimeInfo) [4]int64 {
	return [4]int64{g.Mallocs, g.Frees, g.GC, g.CgoCalls}
}

var f09Sink [][]byte

// f09Ballast keeps the parts of the heap apart.
const f09Ballast = 64 << 20

var f09Keep []byte

// f09Counters: every history of collections, with work in between; what is
// collected is bracketed by readings of our own.
func f09Counters(depth int) func(c *engine.Chooser) {
	return func(c *engine.Chooser) {
		type op struct{ kind, work, wait int }
		var ops []op
		for range depth {
			ops = append(ops, op{c.Choose(4), c.Choose(3), c.Choose(2)})
		}
		c.NonTrivial()
		delayed(c, 0, func(x *mcrt.Exec) {
			bad := ""
			x.Go("collect", func() {
				// the start: a collection of a known moment
				before := f09Read()
				metrics.CollectGoStatsTotals()
				after := f09Read()
				for i, o := range ops {
					switch o.work {
					case 1:
						for range 1000 {
							f09Sink = append(f09Sink, make([]byte, 64))
						}
						f09Sink = nil
					case 2:
						runtime.GC()
					}
					if o.wait == 1 {
						mcrt.Advance(time.Millisecond)
					}
					b := f09Read()
					var g *metrics.GoRuntimeInfo
					lo, hi := [4]int64{}, [4]int64{}
					switch o.kind {
					case 0:
						g = metrics.CollectGoStatsTotals()
						a := f09Read()
						lo, hi = b.c, a.c
						before, after = b, a
					case 1:
						g = metrics.CollectGoStatsDeltas()
						a := f09Read()
						for k := range lo {
							lo[k], hi[k] = b.c[k]-after.c[k], a.c[k]-before.c[k]
						}
						before, after = b, a
					case 2:
						g = metrics.CollectGoStatsCurrent("")
						a := f09Read()
						lo, hi = b.c, a.c
						before, after = b, a
					case 3: // rates are counts too little to be seen, but they are a collection
						_ = metrics.CollectBasicGoStats()
						before, after = b, f09Read()
						continue
					}
					for k, v := range f09Counts(g) {
						if v < lo[k] || v > hi[k] {
							bad = fmt.Sprintf("collection %d of %v counted %d %s, expected %d to %d", i+1, ops, v, f09Counter[k], lo[k], hi[k])
							return
						}
					}
					near := func(v, w uint64) bool { return v < w+f09Ballast/4 && w < v+f09Ballast/4 }
					quiet := before.c[2] == after.c[2] && before.c[1] == after.c[1]
					switch {
					case quiet && (g.Alloc < before.m.Alloc || g.Alloc > after.m.Alloc):
						bad = fmt.Sprintf("collection %d of %v: allocated is %d, was %d and %d", i+1, ops, g.Alloc, before.m.Alloc, after.m.Alloc)
					case quiet && (g.HeapObjects < before.m.HeapObjects || g.HeapObjects > after.m.HeapObjects):
						bad = fmt.Sprintf("collection %d of %v: objects are %d, were %d and %d", i+1, ops, g.HeapObjects, before.m.HeapObjects, after.m.HeapObjects)
					case g.HeapIdle+g.HeapInUse != g.HeapSystem || !near(g.HeapIdle, after.m.HeapIdle) || !near(g.HeapInUse, after.m.HeapInuse):
						bad = fmt.Sprintf("collection %d of %v: heap is %d+%d=%d, was about %d+%d=%d", i+1, ops, g.HeapIdle, g.HeapInUse, g.HeapSystem, after.m.HeapIdle, after.m.HeapInuse, after.m.HeapSys)
					}
					if bad != "" {
						return
					}
				}
			})
			finish(c, x)
			if bad != "" {
				c.Fail("%s", bad)
			}
			c.State(fmt.Sprint(ops))
		})
	}
}

// f09Concurrent: the deltas of concurrent collections add up.
func f09Concurrent(threads, each, pre int) func(c *engine.Chooser) {
	return func(c *engine.Chooser) {
		explore(c, pre, func(x *mcrt.Exec) {
			before := f09Read()
			metrics.CollectGoStatsTotals()
			after := f09Read()
			got := make([][]*metrics.GoRuntimeInfo, threads)
			for i := range threads {
				x.Go(fmt.Sprintf("collect%d", i), func() {
					for range each {
						mcrt.Yield()
						if i == 0 {
							runtime.GC()
						}
						got[i] = append(got[i], metrics.CollectGoStatsDeltas())
					}
				})
			}
			finish(c, x)
			b := f09Read()
			got = append(got, []*metrics.GoRuntimeInfo{metrics.CollectGoStatsDeltas()})
			a := f09Read()
			var sum [4]int64
			for _, gs := range got {
				for _, g := range gs {
					for k, v := range f09Counts(g) {
						sum[k] += v
						if v < 0 {
							c.Fail("%d %s since the last collection", v, f09Counter[k])
						}
					}
				}
			}
			for k, v := range sum {
				if lo, hi := b.c[k]-after.c[k], a.c[k]-before.c[k]; v < lo || v > hi {
					c.Fail("all deltas of %s together are %d, expected %d to %d", f09Counter[k], v, lo, hi)
				}
			}
		})
	}
}

var f09 = &engine.Property{
	ID: "F09", Level: "model_checking",
	Assume: []string{"rates are not checked (their unit is not documented)", "the library that reads the files of the system is not checked: numbers it leaves out are not asked for"},
	Families: func(tier string) []engine.Family {
		debug.SetGCPercent(400)
		f09Keep = make([]byte, f09Ballast)
		depth, pre := 3, 2
		if tier == "thorough" {
			depth, pre = 4, 3
		}
		nodes := 3
		if tier == "thorough" {
			nodes = 4
		}
		var forests []string
		for n := range nodes + 1 {
			forests = append(forests, f09Forests(n)...)
		}
		var procs []engine.Family
		if f09Usable() {
			procs = []engine.Family{{Name: "processes", Serial: true, Rule: "every tree", Bounds: fmt.Sprintf("the %d trees of a process with up to %d descendants; asked for every process of them, alone, with its children, and all processes", len(forests), nodes), Run: f09Processes(forests)}}
		}
		return append(procs, []engine.Family{
			{Name: "system", Serial: true, Rule: "a file is there", Bounds: "the five files the information about the system comes from: every subset of them, and each of their 67 numbers at 7 values; collected three times", Run: f09System},
			{Name: "process", Serial: true, Rule: "a file is there", Bounds: "the six files the information about a process comes from: every subset of them, and each of their 24 numbers at 5 values; collected twice", Run: f09Process},
			{Name: "fields", Rule: "every field", Bounds: "every field of the three kinds of metrics, alone or together, at up to 9 boundary values; up to 2 interfaces, partitions and disks", Run: f09Documents(false)},
			{Name: "pairs", Rule: "every pair", Bounds: "every two fields, with different values", Run: f09Documents(true)},
			{Name: "counters", Rule: "every history", Bounds: fmt.Sprintf("%d collections of 4 kinds with 3 kinds of work before each and the clock standing or not", depth), Split: 3, Run: f09Counters(depth)},
			{Name: "concurrent", Rule: "every schedule", Bounds: fmt.Sprintf("2 threads collecting deltas twice, %d preemptions", pre), Run: f09Concurrent(2, 2, pre)},
		}...)
	},
}
