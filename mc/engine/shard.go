package engine

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

// Sharded exploration: every family is explored by several processes, each of
// which runs one execution at a time. Used where executions of one process
// would disturb each other (schedule exploration, the race detector).

// Check, when set, is called after every execution; it returns what went wrong
// outside of the execution's own checks (a data race, say).
var Check func() string

type shardResult struct {
	Execs, Steps, Nontriv, Skipped int64
	Exhausted                      bool
	Viol                           []shardViol
	Known                          []string
	Samples                        []sample
}

type shardViol struct {
	Path  []int
	Key   string
	Msg   string
	Trace []string
	Hang  bool
}

// MainSharded is Main for sharded properties.
func MainSharded(props []*Property, args []string) {
	var prop *Property
	for _, p := range props {
		if len(args) > 1 && p.ID == args[0] {
			prop = p
		}
	}
	if prop == nil {
		fmt.Println("usage: mcconc <property> quick|thorough|replay FILE")
		os.Exit(2)
	}
	dir := os.Getenv("VERIF_DIR")
	if dir == "" {
		dir = "/verif"
	}
	rs := &runState{prop: prop, tier: args[1], verifDir: dir, knownKeys: map[string]string{}, maxStates: 1_000_000}
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &rs.seed)
	rs.loadKnown()
	switch args[1] {
	case "child":
		rs.child(args[2:])
		os.Exit(0)
	case "one":
		rs.one(args[2:])
		os.Exit(0)
	case "replay":
		os.Exit(rs.replaySharded(args[2]))
	}
	os.Exit(rs.runSharded())
}

func (rs *runState) family(tier, name string) *famState {
	rs.tier = tier
	for _, f := range rs.prop.Families(tier) {
		if f.Name == name {
			return &famState{run: rs, fam: f}
		}
	}
	fmt.Println("family not found", name)
	os.Exit(2)
	return nil
}

// runChecked is runOne with Check.
func (fs *famState) runChecked(prefix []int, replay bool, w *worker) (*Chooser, outcome, string, string) {
	c, out, key, msg := fs.runOne(prefix, -1, replay, w)
	if Check != nil {
		if m := Check(); m != "" && out != violO {
			return c, violO, "", m
		}
	}
	return c, out, key, msg
}

func (rs *runState) child(args []string) {
	var i, n int
	var dl int64
	fmt.Sscan(args[2], &i)
	fmt.Sscan(args[3], &n)
	fmt.Sscan(args[4], &dl)
	out := args[5]
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(3 << 30)
	fs := rs.family(args[0], args[1])
	deadline := time.UnixMilli(dl)
	res := shardResult{Exhausted: true}
	w := &worker{}
	var cur [4096]byte
	curf, _ := os.Create(out + ".cur")
	write := func() {
		res.Execs, res.Steps, res.Nontriv, res.Skipped = fs.execs, fs.steps, fs.nontriv, fs.skipped
		res.Samples = fs.samples
		rs.knownHit.Range(func(k, _ any) bool { res.Known = append(res.Known, k.(string)); return true })
		var sb []byte
		fs.states.Range(func(k, _ any) bool {
			sb = binary.LittleEndian.AppendUint64(sb, k.(uint64))
			return true
		})
		_ = os.WriteFile(out+".states", sb, 0o644)
		b, _ := json.Marshal(res)
		_ = os.WriteFile(out, b, 0o644)
	}
	go func() {
		for {
			time.Sleep(time.Second)
			s := w.start.Load()
			if s != 0 && time.Duration(time.Now().UnixNano()-s) > hangLimit {
				c := w.cur.Load()
				buf := make([]byte, 1<<16)
				k := runtime.Stack(buf, true)
				res.Viol = append(res.Viol, shardViol{Path: append([]int(nil), c.path...), Hang: true, Msg: fmt.Sprintf("execution did not terminate within %v\n%s", hangLimit, buf[:k])})
				write()
				os.Exit(0)
			}
		}
	}()
	split := fs.fam.Split
	if split == 0 {
		split = 6
	}
	stop := false
	exec1 := func(p []int) *Chooser {
		b := cur[:0]
		b = fmt.Append(b, p)
		b = append(b, '\n')
		_, _ = curf.WriteAt(b, 0)
		c, o, key, msg := fs.runChecked(p, false, w)
		fs.account(c, o)
		if o == violO {
			if _, ok := rs.knownKeys[key]; key != "" && ok {
				rs.knownHit.Store(key, true)
				return c
			}
			res.Viol = append(res.Viol, shardViol{Path: append([]int(nil), c.path...), Key: key, Msg: msg})
			stop = true
		}
		if o == okO && c.nontriv {
			fs.maybeSample(c)
		}
		if time.Now().After(deadline) {
			res.Exhausted = false
			stop = true
		}
		return c
	}
	// every process enumerates the prefixes (running each once to the end)
	idx := 0
	p := []int{}
	for p != nil && !stop {
		mine := idx%n == i
		if mine {
			c := exec1(p)
			d := min(len(c.path), split)
			base := append([]int(nil), c.path[:d]...)
			bw := append([]int(nil), c.widths[:d]...)
			q := next(c.path, c.widths, d)
			for q != nil && !stop {
				c = exec1(q)
				q = next(c.path, c.widths, d)
			}
			p = next(base, bw, 0)
		} else {
			limit := -1
			if fs.fam.CutPrefix {
				limit = split
			}
			c, _, _, _ := fs.runOne(p, limit, false, w)
			if Check != nil {
				_ = Check()
			}
			d := min(len(c.path), split)
			p = next(c.path[:d], c.widths[:d], 0)
			if time.Now().After(deadline) {
				res.Exhausted = false
				stop = true
			}
		}
		idx++
	}
	if len(res.Viol) > 0 {
		res.Exhausted = false
	}
	write()
}

// one replays a single execution and prints the outcome.
func (rs *runState) one(args []string) {
	fs := rs.family(args[0], args[1])
	var path []int
	_ = json.Unmarshal([]byte(args[2]), &path)
	c, out, key, msg := fs.runChecked(path, true, nil)
	v := map[string]any{"violation": out == violO, "key": key, "msg": msg, "trace": c.notes}
	b, _ := json.Marshal(v)
	fmt.Println("OUTCOME " + string(b))
}

type oneOut struct {
	Violation bool
	Key, Msg  string
	Trace     []string
}

func (rs *runState) runAlone(tier, fam string, path []int, limit time.Duration) oneOut {
	j, _ := json.Marshal(path)
	cmd := exec.Command(os.Args[0], rs.prop.ID, "one", tier, fam, string(j))
	var sb, eb strings.Builder
	cmd.Stdout, cmd.Stderr = &sb, &eb
	if err := cmd.Start(); err != nil {
		return oneOut{}
	}
	t := time.AfterFunc(limit, func() { _ = cmd.Process.Kill() })
	err := cmd.Wait()
	if !t.Stop() {
		return oneOut{Violation: true, Msg: fmt.Sprintf("execution did not terminate within %v", limit)}
	}
	for _, l := range strings.Split(sb.String(), "\n") {
		if s, ok := strings.CutPrefix(l, "OUTCOME "); ok {
			var o oneOut
			_ = json.Unmarshal([]byte(s), &o)
			if o.Violation && strings.Contains(eb.String(), "DATA RACE") {
				e := eb.String()
				if len(e) > 3000 {
					e = e[:3000]
				}
				o.Msg += "\n" + e
			}
			return o
		}
	}
	e := eb.String()
	if len(e) > 4000 {
		e = e[:4000]
	}
	return oneOut{Violation: err != nil, Msg: fmt.Sprintf("the process died: %v\n%s", err, e)}
}

func (rs *runState) runSharded() int {
	budget := 200 * time.Second
	if rs.tier == "thorough" {
		budget = 760 * time.Second
	}
	if s := os.Getenv("MC_BUDGET"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			budget = d
		}
	}
	t0 := time.Now()
	rs.deadline = t0.Add(budget)
	tmp, err := os.MkdirTemp(".", "shards")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(tmp)
	only := os.Getenv("MC_FAMILY")
	var fams []*famState
	for _, f := range rs.prop.Families(rs.tier) {
		if only == "" || f.Name == only {
			fams = append(fams, &famState{run: rs, fam: f})
		}
	}
	var cands []found
	n := runtime.NumCPU()
	left := len(fams)
	for fi, fs := range fams {
		if len(cands) > 0 {
			break
		}
		f0 := time.Now()
		// a family may use twice its share of the time that is left
		share := time.Until(rs.deadline) * 2 / time.Duration(left+1)
		left--
		dl := f0.Add(share)
		if dl.After(rs.deadline) {
			dl = rs.deadline
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		fs.exhausted = true
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				out := filepath.Join(tmp, fmt.Sprintf("%d-%d.json", fi, i))
				cmd := exec.Command(os.Args[0], rs.prop.ID, "child", rs.tier, fs.fam.Name, fmt.Sprint(i), fmt.Sprint(n), fmt.Sprint(dl.UnixMilli()), out)
				cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=2GiB")
				var eb strings.Builder
				cmd.Stderr = &eb
				err := cmd.Run()
				mu.Lock()
				defer mu.Unlock()
				b, rerr := os.ReadFile(out)
				if rerr != nil {
					fs.exhausted = false
					cur, _ := os.ReadFile(out + ".cur")
					line, _, _ := strings.Cut(string(cur), "\n")
					var path []int
					_ = json.Unmarshal([]byte(strings.ReplaceAll(line, " ", ",")), &path)
					e := eb.String()
					if len(e) > 4000 {
						e = e[:4000]
					}
					cands = append(cands, found{fam: fs, path: path, msg: fmt.Sprintf("the process died: %v\n%s", err, e)})
					return
				}
				var r shardResult
				_ = json.Unmarshal(b, &r)
				fs.execs += r.Execs
				fs.steps += r.Steps
				fs.nontriv += r.Nontriv
				fs.skipped += r.Skipped
				fs.exhausted = fs.exhausted && r.Exhausted
				fs.samples = append(fs.samples, r.Samples...)
				for _, k := range r.Known {
					rs.knownHit.Store(k, true)
				}
				for _, v := range r.Viol {
					cands = append(cands, found{fam: fs, path: v.Path, key: v.Key, msg: v.Msg, hang: v.Hang})
				}
				sb, _ := os.ReadFile(out + ".states")
				for ; len(sb) >= 8; sb = sb[8:] {
					if _, old := fs.states.LoadOrStore(binary.LittleEndian.Uint64(sb), struct{}{}); !old {
						fs.nstates++
					}
				}
			}()
		}
		wg.Wait()
		fs.wall = time.Since(f0).Seconds()
		if len(fs.samples) > 3 {
			fs.samples = fs.samples[:3]
		}
		if os.Getenv("MC_VERBOSE") != "" {
			fmt.Printf("family %-28s execs=%d steps=%d states=%d nontrivial=%d skipped=%d exhaustive=%v %.1fs\n", fs.fam.Name, fs.execs, fs.steps, fs.nstates, fs.nontriv, fs.skipped, fs.exhausted, fs.wall)
		}
	}
	// a candidate counts when a fresh process reproduces it
	var confirmed []found
	for i, v := range cands {
		if i >= 6 || len(confirmed) >= 3 {
			break
		}
		hit := false
		for k := 0; k < 4 && !hit; k++ {
			o := rs.runAlone(rs.tier, v.fam.fam.Name, v.path, hangLimit)
			if o.Violation {
				hit = true
				v.msg, v.trace = o.Msg, o.Trace
			}
		}
		if hit {
			confirmed = append(confirmed, v)
		} else {
			m := v.msg
			if len(m) > 1500 {
				m = m[:1500]
			}
			fmt.Printf("note: unconfirmed failure in %s %v (not reproduced by a fresh process): %s\n", v.fam.fam.Name, v.path, m)
		}
	}
	for _, fs := range fams {
		for i := range fs.samples {
			o := rs.runAlone(rs.tier, fs.fam.Name, fs.samples[i].Choices, hangLimit)
			tr := o.Trace
			if len(tr) > 60 {
				tr = tr[:60]
			}
			fs.samples[i].Trace = tr
		}
	}
	rs.evidence(fams, len(confirmed), time.Since(t0))
	rs.knownHit.Range(func(k, _ any) bool {
		fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", rs.prop.ID, k, rs.knownKeys[k.(string)])
		return true
	})
	if len(confirmed) > 0 {
		rs.report(confirmed, nil)
		return 1
	}
	fmt.Printf("OK property=%s tier=%s\n", rs.prop.ID, rs.tier)
	return 0
}

func (rs *runState) replaySharded(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var d replayDoc
	if err := json.Unmarshal(b, &d); err != nil {
		fmt.Println(err)
		return 2
	}
	for k := 0; k < 4; k++ {
		o := rs.runAlone(d.Tier, d.Family, d.Choices, hangLimit)
		if o.Violation {
			for _, n := range o.Trace {
				fmt.Println("   ", n)
			}
			fmt.Println(o.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", rs.prop.ID, path)
			return 1
		}
	}
	fmt.Println("replay passed")
	return 0
}
