// Package engine is a small explicit-state / stateless model checker: a
// property is a set of families, a family is a deterministic program over a
// Chooser, and the engine runs the program once for every sequence of choices
// (depth-first, in parallel over disjoint prefixes).
package engine

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Chooser resolves the nondeterminism of one execution.
type Chooser struct {
	prefix  []int // forced choices
	path    []int // choices taken
	widths  []int
	notes   []string
	limit   int // abort when more than limit choices are requested (-1: off)
	steps   int64
	states  []uint64
	replay  bool
	nontriv bool
	fam     *famState
	known   []string
}

type abortT struct{}
type violationT struct {
	key string
	msg string
}
type skipT struct{}

// Choose returns a value in [0,n).
func (c *Chooser) Choose(n int) int {
	if n <= 0 {
		panic("engine: Choose of empty domain")
	}
	i := len(c.path)
	if c.limit >= 0 && i >= c.limit && i >= len(c.prefix) {
		panic(abortT{})
	}
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n {
			panic(fmt.Sprintf("engine: replay divergence at choice %d: %d >= %d", i, v, n))
		}
	}
	c.path = append(c.path, v)
	c.widths = append(c.widths, n)
	return v
}

// Bool is a two-way choice.
func (c *Chooser) Bool() bool { return c.Choose(2) == 1 }

// Pick chooses an element.
func Pick[T any](c *Chooser, xs []T) T { return xs[c.Choose(len(xs))] }

// Step counts one transition (an operation on the code under test, checked).
func (c *Chooser) Step() { c.steps++ }

// Steps counts n transitions.
func (c *Chooser) Steps(n int) { c.steps += int64(n) }

// State records a (hashed) state that was reached and checked.
func (c *Chooser) State(s string) { c.states = append(c.states, hash64(s)) }

// StateHash is State for a hash.
func (c *Chooser) StateHash(h uint64) { c.states = append(c.states, h) }

// StateB is State for bytes.
func (c *Chooser) StateB(b []byte) { c.states = append(c.states, hash64b(b)) }

// Note adds a human readable line to the trace (kept only when replaying).
func (c *Chooser) Note(format string, a ...any) {
	if c.replay {
		c.notes = append(c.notes, fmt.Sprintf(format, a...))
	}
}

// NonTrivial marks the execution as a non-trivial one (see the family rule).
func (c *Chooser) NonTrivial() { c.nontriv = true }

// Fail reports a violation and ends the execution.
func (c *Chooser) Fail(format string, a ...any) {
	panic(violationT{msg: fmt.Sprintf(format, a...)})
}

// FailKey is Fail with an identity that known-findings can name.
func (c *Chooser) FailKey(key, format string, a ...any) {
	panic(violationT{key: key, msg: fmt.Sprintf(format, a...)})
}

// Control says whether a recovered panic is one of the engine's own (a skip,
// a violation), which must be passed on.
func Control(r any) bool {
	switch r.(type) {
	case abortT, skipT, violationT:
		return true
	}
	return false
}

// Skip ends the execution (the case is outside the domain).
func (c *Chooser) Skip() { panic(skipT{}) }

// Known reports whether the finding is listed; when it is, it is recorded and
// the execution may carry on past it.
func (c *Chooser) Known(key string) bool {
	if _, ok := c.fam.run.knownKeys[key]; ok {
		c.known = append(c.known, key)
		return true
	}
	return false
}

func hash64(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h ^ (h >> 29)
}

func hash64b(s []byte) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h ^ (h >> 29)
}

// Family is one bounded exploration.
type Family struct {
	Name   string
	Bounds string // human statement of the bounds
	Rule   string // what makes a case non-trivial
	Run    func(c *Chooser)
	Serial bool // run on one worker
	Split  int  // prefix depth used for parallelism (default 2)
	// CutPrefix lets sharded runs stop executions at the prefix depth where
	// they only enumerate (executions must clean up when Choose panics).
	CutPrefix bool
}

// Property groups families.
type Property struct {
	ID       string
	Level    string // evidence level
	Families func(tier string) []Family
	Assume   []string
}

type famState struct {
	run       *runState
	fam       Family
	execs     int64
	steps     int64
	nontriv   int64
	skipped   int64
	states    sync.Map
	nstates   int64
	samples   []sample
	smu       sync.Mutex
	exhausted bool
	wall      float64
}

type sample struct {
	Family  string   `json:"family"`
	Choices []int    `json:"choices"`
	Trace   []string `json:"trace,omitempty"`
}

type runState struct {
	prop      *Property
	tier      string
	deadline  time.Time
	stop      atomic.Bool
	knownKeys map[string]string
	knownHit  sync.Map
	mu        sync.Mutex
	viol      []found
	verifDir  string
	seed      int
	maxStates int64
}

type found struct {
	fam   *famState
	path  []int
	key   string
	msg   string
	hang  bool
	trace []string
}

type outcome int

const (
	okO outcome = iota
	violO
	abortO
	skipO
)

// runOne executes the family once with the forced prefix.
func (fs *famState) runOne(prefix []int, limit int, replay bool, w *worker) (c *Chooser, out outcome, key, msg string) {
	c = &Chooser{prefix: prefix, limit: limit, replay: replay, fam: fs}
	if w != nil {
		w.cur.Store(c)
		w.start.Store(time.Now().UnixNano())
		defer w.start.Store(0)
	}
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case abortT:
				out = abortO
			case skipT:
				out = skipO
			case violationT:
				out, key, msg = violO, x.key, x.msg
			default:
				out = violO
				msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))
			}
		}
	}()
	if traceFile != nil && limit < 0 {
		slot := int64(0)
		if w != nil {
			slot = w.slot
		}
		b := []byte(fmt.Sprintf("%s|%v", fs.fam.Name, prefix))
		buf := make([]byte, traceSlot)
		copy(buf, b)
		_, _ = traceFile.WriteAt(buf, slot*traceSlot)
	}
	fs.fam.Run(c)
	return c, okO, "", ""
}

// traceFile, when set (MC_TRACE), records each worker's current case before it
// runs, so that a crash of the whole process can be attributed.
var traceFile *os.File

const traceSlot = 1024

func init() {
	if p := os.Getenv("MC_TRACE"); p != "" {
		traceFile, _ = os.Create(p)
	}
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 44 {
		lines = lines[:44]
	}
	return strings.Join(lines, "\n")
}

type worker struct {
	slot  int64
	cur   atomic.Pointer[Chooser]
	start atomic.Int64
}

func (fs *famState) account(c *Chooser, out outcome) {
	atomic.AddInt64(&fs.execs, 1)
	atomic.AddInt64(&fs.steps, c.steps)
	if out == skipO {
		atomic.AddInt64(&fs.skipped, 1)
		return
	}
	if c.nontriv {
		atomic.AddInt64(&fs.nontriv, 1)
	}
	for _, k := range c.known {
		fs.run.knownHit.Store(k, true)
	}
	for _, s := range c.states {
		if atomic.LoadInt64(&fs.nstates) > fs.run.maxStates {
			break
		}
		if _, loaded := fs.states.LoadOrStore(s, struct{}{}); !loaded {
			atomic.AddInt64(&fs.nstates, 1)
		}
	}
}

// next computes the next path in DFS order below base; nil when done.
func next(path, widths []int, base int) []int {
	for i := len(path) - 1; i >= base; i-- {
		if path[i]+1 < widths[i] {
			p := make([]int, i+1)
			copy(p, path[:i+1])
			p[i]++
			return p
		}
	}
	return nil
}

func (fs *famState) explore() {
	rs := fs.run
	t0 := time.Now()
	defer func() { fs.wall = time.Since(t0).Seconds() }()
	split := fs.fam.Split
	if split == 0 {
		split = 2
	}
	nw := runtime.GOMAXPROCS(0)
	if fs.fam.Serial {
		nw = 1
	}
	prefixes := make(chan []int, 1024)
	ws := make([]*worker, nw+1)
	for i := range ws {
		ws[i] = &worker{slot: int64(i)}
	}
	done := make(chan struct{})
	go fs.watch(ws, done)
	defer close(done)

	// enumerate prefixes
	go func() {
		defer close(prefixes)
		p := []int{}
		if fs.fam.Serial {
			prefixes <- p
			return
		}
		for p != nil && !rs.stop.Load() {
			c, out, _, _ := fs.runOne(p, split, false, ws[nw])
			if out == abortO {
				pp := append([]int(nil), c.path...)
				prefixes <- pp
			} else {
				// complete within the split depth: the worker runs it again
				pp := append([]int(nil), c.path...)
				prefixes <- pp
			}
			p = next(c.path, c.widths, 0)
		}
	}()
	var wg sync.WaitGroup
	var cut atomic.Bool
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(w *worker) {
			defer wg.Done()
			for base := range prefixes {
				p := base
				n := 0
				for p != nil {
					if rs.stop.Load() {
						cut.Store(true)
						break
					}
					n++
					if n%64 == 0 && time.Now().After(rs.deadline) {
						cut.Store(true)
						break
					}
					c, out, key, msg := fs.runOne(p, -1, false, w)
					fs.account(c, out)
					if out == violO {
						path := append([]int(nil), c.path...)
						if key != "" {
							if _, ok := rs.knownKeys[key]; ok {
								rs.knownHit.Store(key, true)
								p = next(c.path, c.widths, len(base))
								continue
							}
						}
						rs.mu.Lock()
						rs.viol = append(rs.viol, found{fam: fs, path: path, key: key, msg: msg})
						if len(rs.viol) >= 3 {
							rs.stop.Store(true)
						}
						rs.mu.Unlock()
						cut.Store(true)
						break
					}
					if out == okO && c.nontriv {
						fs.maybeSample(c)
					}
					p = next(c.path, c.widths, len(base))
				}
			}
		}(ws[i])
	}
	wg.Wait()
	fs.exhausted = !cut.Load()
}

func (fs *famState) maybeSample(c *Chooser) {
	n := atomic.LoadInt64(&fs.execs)
	if n != 1 && n != 100 && n != 5000 {
		return
	}
	fs.smu.Lock()
	if len(fs.samples) < 3 {
		fs.samples = append(fs.samples, sample{Family: fs.fam.Name, Choices: append([]int(nil), c.path...)})
	}
	fs.smu.Unlock()
}

const hangLimit = 40 * time.Second

func (fs *famState) watch(ws []*worker, done chan struct{}) {
	t := time.NewTicker(time.Second)
	defer t.Stop()
	for {
		select {
		case <-done:
			return
		case <-t.C:
			now := time.Now().UnixNano()
			for _, w := range ws {
				if w == nil {
					continue
				}
				s := w.start.Load()
				if s != 0 && time.Duration(now-s) > hangLimit {
					c := w.cur.Load()
					path := append([]int(nil), c.path...)
					buf := make([]byte, 1<<16)
					n := runtime.Stack(buf, true)
					f := found{fam: fs, path: path, msg: fmt.Sprintf("execution did not terminate within %v\n%s", hangLimit, buf[:n]), hang: true}
					fs.run.report([]found{f}, []*famState{fs})
					os.Exit(1)
				}
			}
		}
	}
}

// Main runs a property check. args: <tier> | replay <file>
func Main(props []*Property, args []string) {
	if len(args) < 2 {
		fmt.Println("usage: mcseq <property> quick|thorough|replay FILE")
		os.Exit(2)
	}
	var prop *Property
	for _, p := range props {
		if p.ID == args[0] {
			prop = p
		}
	}
	if prop == nil {
		fmt.Println("unknown property", args[0])
		os.Exit(2)
	}
	os.Exit(Run(prop, args[1:]))
}

// Run is Main for one property; it returns the exit code.
func Run(prop *Property, args []string) int {
	dir := os.Getenv("VERIF_DIR")
	if dir == "" {
		dir = "/verif"
	}
	rs := &runState{prop: prop, tier: args[0], verifDir: dir, knownKeys: map[string]string{}, maxStates: 1_000_000}
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &rs.seed)
	rs.loadKnown()
	if rs.tier == "replay" {
		return rs.replayFile(args[1])
	}
	budget := 200 * time.Second
	if rs.tier == "thorough" {
		budget = 780 * time.Second
	}
	if s := os.Getenv("MC_BUDGET"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			budget = d
		}
	}
	debug.SetGCPercent(400)
	t0 := time.Now()
	rs.deadline = t0.Add(budget)
	var fams []*famState
	only := os.Getenv("MC_FAMILY")
	for _, f := range prop.Families(rs.tier) {
		if only != "" && f.Name != only {
			continue
		}
		fams = append(fams, &famState{run: rs, fam: f})
	}
	for _, fs := range fams {
		if rs.stop.Load() {
			break
		}
		fs.explore()
		if os.Getenv("MC_VERBOSE") != "" {
			fmt.Printf("family %-28s execs=%d steps=%d states=%d nontrivial=%d skipped=%d exhaustive=%v %.1fs\n", fs.fam.Name, fs.execs, fs.steps, fs.nstates, fs.nontriv, fs.skipped, fs.exhausted, fs.wall)
		}
	}
	// confirm
	var confirmed []found
	for _, v := range rs.viol {
		hits := 0
		var last found
		for i := 0; i < 5; i++ {
			c, out, _, msg := v.fam.runOne(v.path, -1, true, nil)
			if out == violO {
				hits++
				last = v
				last.msg = msg
				last.trace = c.notes
			}
		}
		if hits > 0 {
			confirmed = append(confirmed, last)
		} else {
			fmt.Printf("note: unconfirmed failure in %s %v (not reproduced in 5 replays): %s\n", v.fam.fam.Name, v.path, v.msg)
		}
	}
	// sample traces
	for _, fs := range fams {
		for i := range fs.samples {
			c, _, _, _ := fs.runOne(fs.samples[i].Choices, -1, true, nil)
			tr := c.notes
			if len(tr) > 40 {
				tr = tr[:40]
			}
			fs.samples[i].Trace = tr
		}
	}
	rs.evidence(fams, len(confirmed), time.Since(t0))
	rs.knownHit.Range(func(k, _ any) bool {
		fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", prop.ID, k, rs.knownKeys[k.(string)])
		return true
	})
	if len(confirmed) > 0 {
		rs.report(confirmed, nil)
		return 1
	}
	fmt.Printf("OK property=%s tier=%s\n", prop.ID, rs.tier)
	return 0
}

func (rs *runState) loadKnown() {
	f, err := os.Open(filepath.Join(rs.verifDir, "known-findings.txt"))
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		// known: property=<id> key=<key> <description>
		rest, ok := strings.CutPrefix(l, "known: property="+rs.prop.ID+" key=")
		if !ok {
			continue
		}
		key, desc, _ := strings.Cut(rest, " ")
		rs.knownKeys[key] = desc
	}
}

type replayDoc struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Family   string   `json:"family"`
	Choices  []int    `json:"choices"`
	Key      string   `json:"key,omitempty"`
	Message  string   `json:"message"`
	Trace    []string `json:"trace"`
	Command  string   `json:"command"`
}

func (rs *runState) report(vs []found, _ []*famState) {
	dir := filepath.Join(rs.verifDir, "evidence", "replays")
	_ = os.MkdirAll(dir, 0o755)
	for i, v := range vs {
		p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", rs.prop.ID, i))
		b, _ := json.MarshalIndent(replayDoc{
			Property: rs.prop.ID, Tier: rs.tier, Family: v.fam.fam.Name, Choices: v.path, Key: v.key, Message: v.msg, Trace: v.trace,
			Command: fmt.Sprintf("/verif/check.sh %s replay %s", rs.prop.ID, p),
		}, "", " ")
		_ = os.WriteFile(p, b, 0o644)
		m := v.msg
		if len(m) > 600 {
			m = m[:600]
		}
		fmt.Printf("family %s choices %v: %s\n", v.fam.fam.Name, v.path, m)
		for _, n := range v.trace {
			fmt.Println("   ", n)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", rs.prop.ID, p)
	}
}

func (rs *runState) replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var d replayDoc
	if err := json.Unmarshal(b, &d); err != nil {
		fmt.Println(err)
		return 2
	}
	rs.tier = d.Tier
	for _, f := range rs.prop.Families(d.Tier) {
		if f.Name != d.Family {
			continue
		}
		fs := &famState{run: rs, fam: f}
		c, out, _, msg := fs.runOne(d.Choices, -1, true, nil)
		for _, n := range c.notes {
			fmt.Println("   ", n)
		}
		if out == violO {
			fmt.Println(msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", rs.prop.ID, path)
			return 1
		}
		fmt.Println("replay passed")
		return 0
	}
	fmt.Println("family not found", d.Family)
	return 2
}

func (rs *runState) evidence(fams []*famState, nviol int, wall time.Duration) {
	type fev struct {
		Name       string  `json:"name"`
		Bounds     string  `json:"bounds"`
		Rule       string  `json:"rule,omitempty"`
		Executions int64   `json:"executions"`
		Steps      int64   `json:"transitions"`
		States     int64   `json:"states"`
		NonTrivial int64   `json:"nontrivial"`
		Skipped    int64   `json:"outside_domain"`
		Exhaustive bool    `json:"exhaustive"`
		Wall       float64 `json:"wall_s"`
	}
	var fe []fev
	var execs, steps, states, nontriv, skipped int64
	ex := true
	var samples []sample
	var rules []string
	for _, f := range fams {
		fe = append(fe, fev{f.fam.Name, f.fam.Bounds, f.fam.Rule, f.execs, f.steps, f.nstates, f.nontriv, f.skipped, f.exhausted, f.wall})
		execs += f.execs
		skipped += f.skipped
		steps += f.steps
		states += f.nstates
		nontriv += f.nontriv
		ex = ex && f.exhausted
		samples = append(samples, f.samples...)
		rules = append(rules, f.fam.Name+": "+f.fam.Bounds+"; non-trivial: "+f.fam.Rule)
	}
	if samples == nil {
		samples = []sample{}
	}
	tier := rs.tier
	if tier != "thorough" {
		tier = "quick"
	}
	var known []string
	rs.knownHit.Range(func(k, _ any) bool { known = append(known, k.(string)); return true })
	sort.Strings(known)
	cov := map[string]any{
		"states": states, "transitions": steps, "traces_validated_against_impl": execs - skipped,
		"distinct_nontrivial": nontriv, "rule": strings.Join(rules, " | "),
		"samples": samples, "exhaustive": ex, "families": fe,
	}
	if len(known) > 0 {
		cov["known_findings_seen"] = known
	}
	doc := map[string]any{
		"property": rs.prop.ID, "tier": tier, "seed": rs.seed, "level": rs.prop.Level,
		"coverage": cov, "wall_s": wall.Seconds(), "violations": nviol,
		"assumptions": rs.prop.Assume,
	}
	if rs.prop.Assume == nil {
		delete(doc, "assumptions")
	}
	b, _ := json.MarshalIndent(doc, "", " ")
	dir := filepath.Join(rs.verifDir, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	_ = os.WriteFile(filepath.Join(dir, rs.prop.ID+".json"), append(b, '\n'), 0o644)
}
