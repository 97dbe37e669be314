package conc

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"birchmc/engine"

	"github.com/tychoish/birch/x/ftdc/metrics"
)

// f09Source is a file of the system with the numbers it holds.
type f09Source struct {
	file   string
	fields int
	render func(v []uint64, dir string) string
	told   func(s *metrics.SystemInfo) []uint64
	scale  uint64
	slack  uint64
}

var f09Mem = []string{"MemTotal", "MemFree", "MemAvailable", "Buffers", "Cached", "SwapCached", "Active", "Inactive", "SwapTotal", "SwapFree", "Dirty", "Writeback", "WritebackTmp", "Mapped", "Shmem", "Slab", "SReclaimable", "SUnreclaim", "PageTables", "CommitLimit", "Committed_AS", "VmallocTotal", "VmallocUsed", "VmallocChunk"}

// f09Sources are where the information about the system comes from.
var f09Sources = []f09Source{
	{file: "stat", fields: 10, scale: 1, slack: 1,
		render: func(v []uint64, _ string) string { return "cpu  " + f09Join(v) + "\ncpu0 " + f09Join(v) + "\n" },
		told: func(s *metrics.SystemInfo) []uint64 {
			return f09U(s.CPU.User, s.CPU.Nice, s.CPU.System, s.CPU.Idle, s.CPU.Iowait, s.CPU.Irq, s.CPU.Softirq, s.CPU.Steal, s.CPU.Guest, s.CPU.GuestNice)
		}},
	{file: "meminfo", fields: 24, scale: 1024,
		render: func(v []uint64, _ string) string {
			var b strings.Builder
			for i, n := range f09Mem {
				fmt.Fprintf(&b, "%s: %d kB\n", n, v[i])
			}
			return b.String()
		},
		told: func(s *metrics.SystemInfo) []uint64 {
			m := &s.VMStat
			return []uint64{m.Total, m.Free, m.Available, m.Buffers, m.Cached - m.SReclaimable, m.SwapCached, m.Active, m.Inactive, m.SwapTotal, m.SwapFree, m.Dirty, m.Writeback, m.WritebackTmp, m.Mapped, m.Shared, m.Slab, m.SReclaimable, m.SUnreclaim, m.PageTables, m.CommitLimit, m.CommittedAS, m.VMallocTotal, m.VMallocUsed, m.VMallocChunk}
		}},
	{file: "net/dev", fields: 8, scale: 1,
		render: func(v []uint64, _ string) string {
			return "Inter-| Receive | Transmit\n face | bytes\n    lo: 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0\n  eth0: " + f09Join(v[:4]) + " 0 0 0 0 " + f09Join(v[4:]) + " 0 0 0 0\n"
		},
		told: func(s *metrics.SystemInfo) []uint64 {
			n := &s.NetStat
			return []uint64{n.BytesRecv, n.PacketsRecv, n.Errin, n.Dropin, n.BytesSent, n.PacketsSent, n.Errout, n.Dropout}
		}},
	{file: "diskstats", fields: 22, scale: 1,
		render: func(v []uint64, _ string) string {
			return "8 0 sda " + f09Join(v[:11]) + "\n8 16 sdb " + f09Join(v[11:]) + "\n"
		},
		told: func(s *metrics.SystemInfo) []uint64 {
			var out []uint64
			sort.Slice(s.IOStat, func(i, j int) bool { return s.IOStat[i].Name < s.IOStat[j].Name })
			for _, d := range s.IOStat {
				out = append(out, d.ReadCount, d.MergedReadCount, d.ReadBytes/512, d.ReadTime, d.WriteCount, d.MergedWriteCount, d.WriteBytes/512, d.WriteTime, d.IopsInProgress, d.IoTime, d.WeightedIO)
			}
			return out
		}},
	{file: "1/mountinfo", fields: 3, scale: 1,
		render: func(v []uint64, dir string) string {
			var b strings.Builder
			for i, n := range v {
				point := dir
				if n%2 == 1 {
					point = filepath.Join(dir, "missing")
				}
				fmt.Fprintf(&b, "%d 1 8:%d / %s rw,n=%d - ext4 /dev/d%d rw\n", i+20, i, point, n, i)
			}
			return b.String()
		},
		told: func(s *metrics.SystemInfo) []uint64 {
			var out []uint64
			for i, p := range s.Partitions {
				var n uint64
				if _, err := fmt.Sscanf(p.Opts, "rw,n=%d", &n); err != nil || p.Device != fmt.Sprintf("/dev/d%d", i) {
					return nil
				}
				out = append(out, n)
			}
			return out
		}},
}

func f09U(v ...int64) []uint64 {
	out := make([]uint64, len(v))
	for i := range v {
		out[i] = uint64(v[i])
	}
	return out
}

func f09Join(v []uint64) string {
	return strings.Trim(fmt.Sprint(v), "[]")
}

// f09System: what cannot be measured is left out and reported, and the rest
// is what the system says.
func f09System(c *engine.Chooser) {
	dir, done := f09Proc(c)
	defer done()
	values := make([][]uint64, len(f09Sources))
	mode := c.Choose(2)
	there := make([]bool, len(f09Sources))
	n := uint64(1000)
	for i, s := range f09Sources {
		there[i] = true
		for range s.fields {
			n += 7
			values[i] = append(values[i], n)
		}
	}
	if mode == 0 {
		for i := range there {
			there[i] = c.Bool()
		}
		c.Note("the files there are: %v", there)
	} else {
		i := c.Choose(len(f09Sources))
		f := c.Choose(f09Sources[i].fields)
		values[i][f] = engine.Pick(c, []uint64{0, 1, 2, 99, 1<<31 - 1, 1 << 32, 1<<40 + 1})
		c.Note("%s, number %d: %d", f09Sources[i].file, f, values[i][f])
	}
	for i, s := range f09Sources {
		p := filepath.Join(dir, s.file)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			c.Skip()
		}
		if there[i] {
			if err := os.WriteFile(p, []byte(s.render(values[i], dir)), 0o644); err != nil {
				c.Skip()
			}
		}
	}
	c.State(fmt.Sprint(values, there))
	for round := range 3 {
		s := metrics.CollectSystemInfo()
		c.Step()
		if s.NumCPU <= 0 {
			c.Fail("there are %d processors", s.NumCPU)
		}
		for i, src := range f09Sources {
			got := src.told(s)
			if !there[i] {
				for _, g := range got {
					if g != 0 {
						c.Fail("collection %d: %s is not there, the information from it is %v", round, src.file, got)
					}
				}
				continue
			}
			c.NonTrivial()
			if len(got) != len(values[i]) {
				c.Fail("collection %d: %d numbers instead of %d come from %s", round, len(got), len(values[i]), src.file)
			}
			for k, w := range values[i] {
				w *= src.scale
				if got[k] != w && (src.slack == 0 || got[k]+src.slack != w) {
					c.Fail("collection %d: number %d of %s is %d, should be %d (%v)", round, k, src.file, got[k], w, got)
				}
			}
			if src.file == "1/mountinfo" {
				usable := 0
				for _, v := range values[i] {
					if v%2 == 0 {
						usable++
					}
				}
				if len(s.Usage) != usable {
					c.Fail("collection %d: %d of %d partitions can be used, %d usages", round, usable, len(values[i]), len(s.Usage))
				}
				for _, u := range s.Usage {
					if u.Path != dir {
						c.Fail("collection %d: the usage is of %q", round, u.Path)
					}
				}
				if round > 0 && (usable < len(values[i])) != (len(s.Errors) > 0) && there[0] && there[2] && there[3] {
					c.Fail("collection %d: %d of %d partitions can be used, the errors are %q", round, usable, len(values[i]), s.Errors)
				}
			}
		}
		for i, src := range f09Sources {
			if !there[i] && i >= 2 && len(s.Errors) == 0 {
				c.Fail("collection %d: %s is not there and there is no error", round, src.file)
			}
		}
	}
}

// f09Proc makes a directory the information is read from instead of /proc.
func f09Proc(c *engine.Chooser) (string, func()) {
	dir, err := os.MkdirTemp("", "proc")
	if err != nil {
		c.Skip()
	}
	old, had := os.LookupEnv("HOST_PROC")
	os.Setenv("HOST_PROC", dir)
	return dir, func() {
		if had {
			os.Setenv("HOST_PROC", old)
		} else {
			os.Unsetenv("HOST_PROC")
		}
		os.RemoveAll(dir)
	}
}

// f09PSource is a file of a process with the numbers it holds.
type f09PSource struct {
	file   string
	fields int
	render func(v []uint64) string
	told   func(p *metrics.ProcessInfo) []uint64
	scale  uint64
	slack  uint64
}

var f09PSources = []f09PSource{
	{file: "stat", fields: 4, scale: 1, slack: 1,
		render: func(v []uint64) string {
			return fmt.Sprintf("1 (a name) S %d 1 1 1 1 1 11 12 13 14 %d %d 17 18 20 0 1 0 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 %d 43 44\n", v[0], v[1], v[2], v[3])
		},
		told: func(p *metrics.ProcessInfo) []uint64 {
			return f09U(int64(p.Parent), p.CPU.User, p.CPU.System, p.CPU.Iowait)
		}},
	{file: "statm", fields: 6, scale: uint64(os.Getpagesize()),
		render: func(v []uint64) string { return f09Join(v) + " 0\n" },
		told: func(p *metrics.ProcessInfo) []uint64 {
			m := &p.MemoryPlatform
			if m.VMS != p.Memory.VMS || m.RSS != p.Memory.RSS {
				return nil
			}
			return []uint64{m.VMS, m.RSS, m.Shared, m.Text, m.Lib, m.Dirty}
		}},
	{file: "status", fields: 1, scale: 1,
		render: func(v []uint64) string { return fmt.Sprintf("Name:\tname\nThreads:\t%d\n", v[0]) },
		told:   func(p *metrics.ProcessInfo) []uint64 { return f09U(int64(p.Threads)) }},
	{file: "io", fields: 4, scale: 1,
		render: func(v []uint64) string {
			return fmt.Sprintf("rchar: 1\nwchar: 2\nsyscr: %d\nsyscw: %d\nread_bytes: %d\nwrite_bytes: %d\n", v[0], v[1], v[2], v[3])
		},
		told: func(p *metrics.ProcessInfo) []uint64 {
			return []uint64{p.IoStat.ReadCount, p.IoStat.WriteCount, p.IoStat.ReadBytes, p.IoStat.WriteBytes}
		}},
	{file: "net/dev", fields: 8, scale: 1,
		render: func(v []uint64) string { return f09Sources[2].render(v, "") },
		told: func(p *metrics.ProcessInfo) []uint64 {
			if len(p.NetStat) != 1 {
				return make([]uint64, len(p.NetStat))
			}
			n := &p.NetStat[0]
			return []uint64{n.BytesRecv, n.PacketsRecv, n.Errin, n.Dropin, n.BytesSent, n.PacketsSent, n.Errout, n.Dropout}
		}},
	{file: "cmdline", fields: 1, scale: 1,
		render: func(v []uint64) string { return fmt.Sprintf("command\x00with\x00%d\x00", v[0]) },
		told: func(p *metrics.ProcessInfo) []uint64 {
			var n uint64
			if _, err := fmt.Sscanf(p.Command, "command with %d", &n); err != nil {
				n = 0
			}
			return []uint64{n}
		}},
}

// f09Process: the same for a process.
func f09Process(c *engine.Chooser) {
	dir, done := f09Proc(c)
	defer done()
	pid := os.Getpid()
	values := make([][]uint64, len(f09PSources))
	there := make([]bool, len(f09PSources))
	n := uint64(1000)
	for i, s := range f09PSources {
		there[i] = true
		for range s.fields {
			n += 7
			values[i] = append(values[i], n)
		}
	}
	if c.Choose(2) == 0 {
		for i := range there {
			there[i] = c.Bool()
		}
		c.Note("the files there are: %v", there)
	} else {
		i := c.Choose(len(f09PSources))
		f := c.Choose(f09PSources[i].fields)
		values[i][f] = engine.Pick(c, []uint64{0, 1, 2, 99, 1<<31 - 1})
		c.Note("%s, number %d: %d", f09PSources[i].file, f, values[i][f])
	}
	missing := 0
	for i, s := range f09PSources {
		p := filepath.Join(dir, fmt.Sprint(pid), s.file)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			c.Skip()
		}
		if !there[i] {
			missing++
			continue
		}
		if err := os.WriteFile(p, []byte(s.render(values[i])), 0o644); err != nil {
			c.Skip()
		}
	}
	c.State(fmt.Sprint(values, there))
	for round := range 2 {
		p := metrics.CollectProcessInfoSelf()
		c.Step()
		if p.Pid != int32(pid) {
			c.Fail("the process %d is said to be %d", pid, p.Pid)
		}
		if (len(p.Errors) > 0) != (missing > 0) {
			c.Fail("collection %d: %d of the files are missing, the errors are %q", round, missing, p.Errors)
		}
		for i, src := range f09PSources {
			got := src.told(p)
			if !there[i] {
				for _, g := range got {
					if g != 0 {
						c.Fail("collection %d: %s is not there, the information from it is %v", round, src.file, got)
					}
				}
				continue
			}
			c.NonTrivial()
			if len(got) != len(values[i]) {
				c.Fail("collection %d: %d numbers instead of %d come from %s", round, len(got), len(values[i]), src.file)
			}
			for k, w := range values[i] {
				w *= src.scale
				if got[k] != w && (src.slack == 0 || got[k]+src.slack != w) {
					c.Fail("collection %d: number %d of %s is %d, should be %d (%v)", round, k, src.file, got[k], w, got)
				}
			}
		}
	}
}
