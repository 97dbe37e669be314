package conc

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"syscall"
	"time"

	"birchmc/engine"

	"github.com/tychoish/birch/x/ftdc/metrics"
)

// f09Forests are the ordered trees with n nodes below the root, as brackets.
func f09Forests(n int) []string {
	if n == 0 {
		return []string{""}
	}
	var out []string
	for k := range n {
		for _, a := range f09Forests(k) {
			for _, b := range f09Forests(n - 1 - k) {
				out = append(out, "("+a+")"+b)
			}
		}
	}
	return out
}

// f09Script is the shell program that becomes the tree below the root: every
// node says which it is and then sleeps.
func f09Script(forest string, path string, nodes *[]string) string {
	var b strings.Builder
	for i := 0; len(forest) > 0; i++ {
		depth, end := 0, 0
		for end = range forest {
			if forest[end] == '(' {
				depth++
			} else {
				depth--
			}
			if depth == 0 {
				break
			}
		}
		p := fmt.Sprintf("%s.%d", path, i)
		*nodes = append(*nodes, p)
		fmt.Fprintf(&b, "( %s exec sleep 300 ) & echo %s $! ; ", f09Script(forest[1:end], p, nodes), p)
		forest = forest[end+1:]
	}
	return b.String()
}

// f09Facts is what the system says about a process that does nothing.
func f09Facts(pid int32) string {
	file := func(name string) string {
		b, err := os.ReadFile(fmt.Sprintf("/proc/%d/%s", pid, name))
		if err != nil {
			return ""
		}
		return string(b)
	}
	io := map[string]string{}
	for _, l := range strings.Split(file("io"), "\n") {
		if k, v, ok := strings.Cut(l, ": "); ok {
			io[k] = v
		}
	}
	var vms, rss uint64
	if n, _ := fmt.Sscan(file("statm"), &vms, &rss); n != 2 || len(io) == 0 {
		return ""
	}
	page := uint64(os.Getpagesize())
	return fmt.Sprint(strings.TrimRight(strings.ReplaceAll(file("cmdline"), "\x00", " "), " "), " io ", io["syscr"], " ", io["syscw"], " ", io["read_bytes"], " ", io["write_bytes"], " mem ", vms*page, " ", rss*page)
}

func f09Told(i *metrics.ProcessInfo) string {
	return fmt.Sprint(i.Command, " io ", i.IoStat.ReadCount, " ", i.IoStat.WriteCount, " ", i.IoStat.ReadBytes, " ", i.IoStat.WriteBytes, " mem ", i.Memory.VMS, " ", i.Memory.RSS)
}

// f09Pids are the processes there are.
func f09Pids() map[int32]bool {
	out := map[int32]bool{}
	es, _ := os.ReadDir("/proc")
	for _, e := range es {
		if n, err := strconv.ParseInt(e.Name(), 10, 32); err == nil {
			out[int32(n)] = true
		}
	}
	return out
}

func f09Usable() bool {
	for _, t := range []string{"sh", "sleep", "pgrep"} {
		if _, err := exec.LookPath(t); err != nil {
			return false
		}
	}
	return true
}

// f09Processes: the information about processes is about those that were
// asked for, each once.
func f09Processes(forests []string) func(c *engine.Chooser) {
	return func(c *engine.Chooser) {
		forest := engine.Pick(c, forests)
		c.Note("a process with the children %q", forest)
		c.State(forest)
		var nodes []string
		script := f09Script(forest, "0", &nodes)
		cmd := exec.Command("sh", "-c", script+"echo 0 $$ ; exec sleep 300")
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		out, err := cmd.StdoutPipe()
		if err != nil {
			c.Skip()
		}
		if err := cmd.Start(); err != nil {
			c.Skip()
		}
		defer func() {
			_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			_, _ = io.Copy(io.Discard, out)
			_ = cmd.Wait()
		}()
		pids := map[string]int32{}
		names := map[int32]string{}
		sc := bufio.NewScanner(out)
		for len(pids) < len(nodes)+1 && sc.Scan() {
			var name string
			var pid int32
			if _, err := fmt.Sscan(sc.Text(), &name, &pid); err != nil {
				c.Skip()
			}
			pids[name], names[pid] = pid, name
		}
		if len(pids) != len(nodes)+1 || pids["0"] != int32(cmd.Process.Pid) {
			c.Skip()
		}
		facts := map[int32]string{}
		for pid := range names {
			for range 400 {
				if f := f09Facts(pid); strings.HasPrefix(f, "sleep 300 ") {
					facts[pid] = f
					break
				}
				time.Sleep(5 * time.Millisecond)
			}
		}
		parent := func(name string) int32 {
			if i := strings.LastIndexByte(name, '.'); i >= 0 {
				return pids[name[:i]]
			}
			return int32(os.Getpid())
		}
		one := func(what string, info *metrics.ProcessInfo) {
			name, ok := names[info.Pid]
			if !ok {
				c.Fail("%s of the tree %q: process %d is not one of it", what, forest, info.Pid)
			}
			if info.Parent != parent(name) {
				c.Fail("%s of the tree %q: the parent of %s is not its parent", what, forest, name)
			}
			if len(info.Errors) == 0 {
				if info.Threads != 1 {
					c.Fail("%s of the tree %q: %d threads", what, forest, info.Threads)
				}
				if facts[info.Pid] != "" && f09Facts(info.Pid) == facts[info.Pid] {
					if got := f09Told(info); got != facts[info.Pid] {
						c.Fail("%s of the tree %q: %s is said to be %q, is %q", what, forest, name, got, facts[info.Pid])
					}
				}
			}
			c.Step()
		}
		for name, pid := range pids {
			one("CollectProcessInfo", metrics.CollectProcessInfo(pid))
			if m := metrics.MakeProcessInfo(pid, "message"); m.Pid != pid {
				c.Fail("MakeProcessInfo(%d) is about %d", pid, m.Pid)
			}
			got := metrics.CollectProcessInfoWithChildren(pid)
			seen := map[int32]bool{}
			for i, info := range got {
				one("CollectProcessInfoWithChildren", info)
				n := names[info.Pid]
				if i == 0 && info.Pid != pid {
					c.Fail("the tree %q: the first process for %s is %s", forest, name, n)
				}
				if n != name && !strings.HasPrefix(n, name+".") {
					c.Fail("the tree %q: %s is listed below %s", forest, n, name)
				}
				if seen[info.Pid] {
					c.Fail("the tree %q: %s is listed twice below %s", forest, n, name)
				}
				seen[info.Pid] = true
			}
			for n, p := range pids {
				if strings.HasPrefix(n, name+".") && !seen[p] {
					c.Fail("the tree %q: %s is not listed below %s", forest, n, name)
				}
			}
			if !seen[pid] {
				c.Fail("the tree %q: %s is not listed for itself", forest, name)
			}
		}
		c.NonTrivial()
		count := map[int32]int{}
		before := f09Pids()
		for _, info := range metrics.CollectAllProcesses() {
			count[info.Pid]++
		}
		after := f09Pids()
		for pid := range before {
			if after[pid] && count[pid] != 1 {
				c.Fail("the process %d is listed %d times among all processes", pid, count[pid])
			}
		}
		for name, pid := range pids {
			if count[pid] != 1 {
				c.Fail("the tree %q: %s is listed %d times among all processes", forest, name, count[pid])
			}
		}
		self := metrics.CollectProcessInfoSelfWithChildren()
		if len(self) == 0 || self[0].Pid != int32(os.Getpid()) {
			c.Fail("the first of the own processes is not the own process")
		}
		count = map[int32]int{}
		for _, info := range self {
			count[info.Pid]++
		}
		for name, pid := range pids {
			if count[pid] != 1 {
				c.Fail("the tree %q: %s is listed %d times below the own process", forest, name, count[pid])
			}
		}
		if s := metrics.CollectProcessInfoSelf(); s.Pid != int32(os.Getpid()) || s.Parent != int32(os.Getppid()) {
			c.Fail("the own process is not the own process")
		}
	}
}
