package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// A Check decides one property by enumerating finite spaces of cases.  Every
// worker process enumerates the same cases in the same order and executes the
// ones of its shard; a case is identified by (space, index), which is also what
// a replay re-executes.
type Check struct {
	ID    string
	Title string
	Run   func(c *Ctx)
	// Assumptions go into the evidence file.
	Assumptions []string
	// Workers overrides the number of worker processes (0: default).
	Workers int
	// Kinds names the builds of the checker whose workers explore this
	// property, one after the other (none: the plain build).
	Kinds []string
	// Post runs once in the parent after all workers succeeded (optional).
	Post func(p *Parent)
}

// kindExe is the executable of a kind of build.
func kindExe(kind string) string {
	exe, _ := os.Executable()
	if kind == "" {
		return exe
	}
	return filepath.Join(filepath.Dir(exe), "mc-"+kind)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

type Violation struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Kind     string `json:"kind,omitempty"`
	Space    string `json:"space"`
	Index    int64  `json:"index"`
	Input    string `json:"input"`
	Message  string `json:"message"`
	// A violation that needs the history of its worker is replayed with it.
	Shard int64 `json:"shard,omitempty"`
	Of    int64 `json:"of,omitempty"`
	shard int64
}

type spaceStat struct {
	Name       string  `json:"name"`
	Cases      int64   `json:"cases"`
	Executed   int64   `json:"executed"`
	Exhaustive bool    `json:"exhaustive"`
	Secs       float64 `json:"seconds"` // of the slowest worker
	start      time.Time
}

type result struct {
	Spaces     []*spaceStat `json:"spaces"`
	States     int64        `json:"states"`
	Trans      int64        `json:"transitions"`
	Traces     int64        `json:"traces"`
	Outcomes   int64        `json:"outcomes"`
	Samples    []string     `json:"samples"`
	Violations []*Violation `json:"violations"`
	Known      []string     `json:"known"`
	Truncated  bool         `json:"truncated"`
	Done       bool         `json:"done"`
}

type Ctx struct {
	ck       *Check
	Tier     string
	shard, n int64
	only     string // "space#index" or ""
	onlySp   string
	onlyIx   int64
	dir      string // scratch directory of this worker
	deadline time.Time

	res      result
	sp       *spaceStat
	spNo     int
	cur      string // input of the running case
	states   map[uint64]struct{}
	outcomes map[uint64]struct{}
	prog     []byte // shared progress
	stop     bool
	known    map[string]bool
}

func (c *Ctx) Quick() bool { return c.Tier != "thorough" }

// Pick returns q for the quick tier and t for the thorough one.
func (c *Ctx) Pick(q, t int) int {
	if c.Quick() {
		return q
	}
	return t
}

// Space starts a new named space of cases.
func (c *Ctx) Space(name string) {
	c.endSpace()
	c.sp = &spaceStat{Name: name, Exhaustive: true, start: time.Now()}
	c.res.Spaces = append(c.res.Spaces, c.sp)
	c.spNo++
}

func (c *Ctx) endSpace() {
	if c.sp != nil {
		c.sp.Secs = time.Since(c.sp.start).Seconds()
	}
}

func (c *Ctx) Stopped() bool { return c.stop }

func (c *Ctx) State(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	c.states[h.Sum64()] = struct{}{}
}

func (c *Ctx) Outcome(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	c.outcomes[h.Sum64()] = struct{}{}
}

// Alive tells the watchdog that a long case makes progress.
func (c *Ctx) Alive() {
	if c.prog != nil {
		atomic.AddInt64(int64At(c.prog, 16), 1)
	}
}

func (c *Ctx) Trans(n int) { c.res.Trans += int64(n) }
func (c *Ctx) Trace()      { c.res.Traces++ }

// Input records the input of the running case for reports.
func (c *Ctx) Input(s string) { c.cur = s }

// Known tells whether KNOWN_FINDINGS.txt lists the finding for this property and
// if so reports it.
func (c *Ctx) Known(what string) bool {
	listed, ok := c.known[what]
	if !ok {
		b, _ := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
		for _, l := range strings.Split(string(b), "\n") {
			if l == "finding: property="+c.ck.ID+" "+what {
				listed = true
			}
		}
		c.known[what] = listed
		if listed {
			c.res.Known = append(c.res.Known, what)
		}
	}
	return listed
}

// Mine tells whether the next case would be executed, without consuming it.
func (c *Ctx) Mine() bool {
	if c.only != "" {
		return c.sp.Name == c.onlySp && c.sp.Cases == c.onlyIx
	}
	return c.sp.Cases%c.n == c.shard
}

// Case enumerates one case.  f returns "" when the property holds on it.
func (c *Ctx) Case(f func() string) {
	ix := c.sp.Cases
	if c.only != "" {
		c.sp.Cases++
		if c.sp.Name != c.onlySp || ix != c.onlyIx {
			return
		}
	} else {
		c.sp.Cases++
		if c.stop {
			c.sp.Exhaustive = false
			return
		}
		if ix%c.n != c.shard {
			return
		}
		if ix&63 == c.shard&63 && time.Now().After(c.deadline) {
			c.stop = true
			c.res.Truncated = true
			c.sp.Exhaustive = false
			return
		}
	}
	c.setProgress(ix)
	c.cur = ""
	msg := c.guard(f)
	c.sp.Executed++
	if len(c.res.Samples) < 40 && (c.sp.Executed == 1 || c.sp.Executed == 7 || c.sp.Executed == 1009) && c.cur != "" {
		c.res.Samples = append(c.res.Samples, c.sp.Name+": "+trunc(c.cur, 400))
	}
	if msg != "" {
		c.violate(ix, msg)
	}
}

func (c *Ctx) violate(ix int64, msg string) {
	c.res.Violations = append(c.res.Violations, &Violation{
		Property: c.ck.ID, Tier: c.Tier, Space: c.sp.Name, Index: ix, Input: trunc(c.cur, 20000), Message: trunc(msg, 20000),
	})
	if os.Getenv("MC_ALL") == "" || len(c.res.Violations) > 20 {
		c.stop = true
	}
}

func (c *Ctx) guard(f func() string) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v\n%s", r, trunc(string(debug.Stack()), 3000))
		}
	}()
	return f()
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

func (c *Ctx) setProgress(ix int64) {
	if c.prog != nil {
		atomic.StoreInt64(int64At(c.prog, 8), int64(c.spNo))
		atomic.StoreInt64(int64At(c.prog, 0), ix+1)
	}
}

const (
	hangCPU = 30 * time.Second
	maxRSS  = 3 << 30
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * 4096
}

// watchdog turns a case that never ends, or that eats all memory, into exit
// code 7 or 8; the parent attributes it with the progress file.
func (c *Ctx) watchdog() {
	var lastIx, lastSp, lastBeat int64 = -1, -1, 0
	var base time.Duration
	ticks := 0
	for {
		time.Sleep(200 * time.Millisecond)
		ix, sp := atomic.LoadInt64(int64At(c.prog, 0)), atomic.LoadInt64(int64At(c.prog, 8))
		beat := atomic.LoadInt64(int64At(c.prog, 16))
		now := cpuTime()
		if ix != lastIx || sp != lastSp || beat != lastBeat {
			lastIx, lastSp, lastBeat, base, ticks = ix, sp, beat, now, 0
		} else if ticks++; ix > 0 && (now-base > hangCPU || ticks > 600) {
			os.Exit(7)
		}
		if ix > 0 && rss() > maxRSS {
			os.Exit(8)
		}
	}
}

func runWorker(id, tier string, shard, n int64, dir, only string, deadline time.Time) {
	ck := checks[id]
	c := &Ctx{ck: ck, Tier: tier, shard: shard, n: n, dir: dir, only: only, deadline: deadline,
		states: map[uint64]struct{}{}, outcomes: map[uint64]struct{}{}, known: map[string]bool{}}
	if only != "" {
		i := strings.LastIndex(only, "#")
		c.onlySp = only[:i]
		c.onlyIx, _ = strconv.ParseInt(only[i+1:], 10, 64)
	}
	debug.SetMaxStack(512 << 20)
	debug.SetGCPercent(200)
	if runtime.GOMAXPROCS(0) > 2 {
		runtime.GOMAXPROCS(2)
	}
	c.prog = mapProgress(filepath.Join(dir, "progress"))
	go c.watchdog()
	ck.Run(c)
	c.endSpace()
	c.setProgress(-1)
	c.res.States = int64(len(c.states))
	c.res.Outcomes = int64(len(c.outcomes))
	c.res.Done = true
	b, _ := json.Marshal(&c.res)
	if err := os.WriteFile(filepath.Join(dir, "result.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(9)
	}
}

// ---- parent ----

type Parent struct {
	ck    *Check
	tier  string
	kind  string
	root  string // scratch
	start time.Time
	extra map[string]interface{}
	viol  []*Violation
	lines []string
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type workerRun struct {
	dir string
	cmd *exec.Cmd
	err error
	out []byte
}

func (p *Parent) spawn(i, n int64, only string, deadline time.Time) *workerRun {
	dir := filepath.Join(p.root, fmt.Sprintf("w%d_%d", i, time.Now().UnixNano()))
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, "progress"), make([]byte, 4096), 0o644)
	cmd := exec.Command(kindExe(p.kind), "worker", p.ck.ID, p.tier, fmt.Sprint(i), fmt.Sprint(n), dir, only, fmt.Sprint(deadline.UnixNano()))
	lf, _ := os.Create(filepath.Join(dir, "stderr"))
	cmd.Stderr = lf
	cmd.Stdout = lf
	cmd.Dir = dir
	if p.kind == "race" {
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=7 atexit_sleep_ms=0")
	}
	w := &workerRun{dir: dir, cmd: cmd}
	w.err = cmd.Start()
	lf.Close()
	return w
}

// collect turns the end of a worker into a result.
func (p *Parent) collect(w *workerRun, spaces []string) (*result, string) {
	b, err := os.ReadFile(filepath.Join(w.dir, "result.json"))
	if err == nil {
		var r result
		if json.Unmarshal(b, &r) == nil && r.Done {
			return &r, ""
		}
	}
	// crashed: attribute to the running case
	pb, _ := os.ReadFile(filepath.Join(w.dir, "progress"))
	if len(pb) >= 16 {
		ix, sp := readI64(pb, 0), readI64(pb, 8)
		if ix > 0 {
			se, _ := os.ReadFile(filepath.Join(w.dir, "stderr"))
			why := "the process died"
			if ws, ok := w.cmd.ProcessState.Sys().(syscall.WaitStatus); ok {
				if ws.Signaled() {
					return nil, "signal " + ws.Signal().String()
				}
				switch ws.ExitStatus() {
				case 7:
					why = "no answer after 30 s of CPU time (endless loop or explosion)"
				case 8:
					why = "memory explosion (over 3 GB)"
				case 66:
					why = "data race between two parses"
				default:
					why = fmt.Sprintf("the process died with exit status %d", ws.ExitStatus())
				}
			}
			return &result{Violations: []*Violation{{Property: p.ck.ID, Tier: p.tier, Kind: p.kind, Space: fmt.Sprintf("@%d", sp), Index: ix - 1,
				Message: why + "\n" + trunc(string(se), 4000)}}}, ""
		}
	}
	se, _ := os.ReadFile(filepath.Join(w.dir, "stderr"))
	return nil, fmt.Sprintf("worker failed outside a case: %v\n%s", w.err, trunc(string(se), 4000))
}

func runParent(id, tier string) int {
	ck := checks[id]
	if ck == nil {
		fmt.Println("unknown check", id)
		return 2
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	start := time.Now()
	root, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(root)
	p := &Parent{ck: ck, tier: tier, root: root, start: start, extra: map[string]interface{}{}}
	n := int64(8)
	if ck.Workers > 0 {
		n = int64(ck.Workers)
	}
	budget := 360 * time.Second
	if tier == "thorough" {
		budget = 780 * time.Second
	}
	if s := os.Getenv("MC_BUDGET"); s != "" {
		if v, err := strconv.Atoi(s); err == nil {
			budget = time.Duration(v) * time.Second
		}
	}
	total := &result{}
	spaceIx := map[string]*spaceStat{}
	var infra []string
	kinds := ck.Kinds
	if len(kinds) == 0 {
		kinds = []string{""}
	}
	for _, kind := range kinds {
		p.kind = kind
		if rc := p.explore(n, budget/time.Duration(len(kinds)), total, spaceIx, &infra); rc != 0 {
			return rc
		}
		if len(total.Violations) > 0 || len(infra) > 0 {
			break
		}
	}
	if os.Getenv("MC_ALL") != "" { // for development: list everything found
		for _, v := range total.Violations {
			fmt.Printf("- [%s #%d] %s\n    %s\n", v.Space, v.Index, trunc(v.Input, 600), trunc(v.Message, 600))
		}
	}
	// Resolve "@n" spaces (crashes) and confirm every violation in a fresh process.
	var confirmed, unconfirmed []*Violation
	sort.SliceStable(total.Violations, func(a, b int) bool { return len(total.Violations[a].Input) < len(total.Violations[b].Input) })
	for vi, v := range total.Violations {
		if vi >= 4 && len(confirmed) > 0 {
			break
		}
		p.kind = v.Kind
		if strings.HasPrefix(v.Space, "@") {
			k, _ := strconv.Atoi(v.Space[1:])
			if nm := p.spaceName(k); nm != "" {
				v.Space = nm
			}
		}
		ok := false
		try := func(i, of int64, only string) {
			w := p.spawn(i, of, only, time.Now().Add(5*time.Minute))
			if w.err != nil {
				return
			}
			w.err = w.cmd.Wait()
			r, _ := p.collect(w, nil)
			if r != nil && len(r.Violations) > 0 {
				if only == "" && (r.Violations[0].Index != v.Index) {
					return
				}
				ok = true
				if v.Input == "" {
					v.Input = r.Violations[0].Input
				}
			}
			os.RemoveAll(w.dir)
		}
		for k := 0; k < 3 && !ok; k++ {
			try(0, 1, fmt.Sprintf("%s#%d", v.Space, v.Index))
		}
		if !ok && vi == 0 { // perhaps it needs the history of its worker
			if try(v.shard, n, ""); ok {
				v.Shard, v.Of = v.shard, n
			}
		}
		if ok {
			confirmed = append(confirmed, v)
		} else {
			unconfirmed = append(unconfirmed, v)
		}
	}
	if len(confirmed) == 0 && len(unconfirmed) == 0 && len(infra) == 0 && ck.Post != nil {
		ck.Post(p)
		confirmed = append(confirmed, p.viol...)
	}
	exh := !total.Truncated
	var spaces []map[string]interface{}
	for _, s := range total.Spaces {
		if !s.Exhaustive {
			exh = false
		}
		spaces = append(spaces, map[string]interface{}{"space": s.Name, "cases": s.Cases, "executed": s.Executed})
	}
	if len(total.Samples) > 24 {
		total.Samples = total.Samples[:24]
	}
	cov := map[string]interface{}{
		"states": total.States, "transitions": total.Trans, "traces_validated_against_impl": total.Traces,
		"distinct_outcomes": total.Outcomes, "samples": total.Samples, "exhaustive": exh && len(confirmed) == 0, "spaces": spaces,
	}
	for k, v := range p.extra {
		cov[k] = v
	}
	if len(unconfirmed) > 0 {
		cov["unconfirmed"] = unconfirmed
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": ck.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(confirmed),
	}
	evdir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(evdir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	seen := map[string]bool{}
	for _, k := range total.Known {
		if !seen[k] {
			seen[k] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
		}
	}
	for _, s := range total.Spaces {
		fmt.Printf("%s %-40s cases=%d executed=%d %.1fs\n", id, s.Name, s.Cases, s.Executed, s.Secs)
	}
	fmt.Printf("%s tier=%s states=%d transitions=%d traces=%d outcomes=%d exhaustive=%v wall=%.1fs\n", id, tier, total.States, total.Trans, total.Traces, total.Outcomes, exh, time.Since(start).Seconds())
	for _, l := range p.lines {
		fmt.Println(l)
	}
	if len(confirmed) > 0 {
		v := confirmed[0]
		rdir := filepath.Join(evdir, "replays")
		os.MkdirAll(rdir, 0o755)
		rp := filepath.Join(rdir, id+".json")
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(rp, append(b, '\n'), 0o644)
		fmt.Printf("input: %s\n%s\n", trunc(v.Input, 3000), trunc(v.Message, 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	if len(unconfirmed) > 0 {
		fmt.Printf("note: %d violation(s) did not reproduce in a fresh process: %s %s\n", len(unconfirmed), trunc(unconfirmed[0].Input, 500), trunc(unconfirmed[0].Message, 1000))
	}
	if len(infra) > 0 {
		fmt.Println("worker problem:", infra[0])
		return 2
	}
	return 0
}

// explore runs n workers of the current kind and merges their results.
func (p *Parent) explore(n int64, budget time.Duration, total *result, spaceIx map[string]*spaceStat, infra *[]string) int {
	deadline := time.Now().Add(budget)
	ws := make([]*workerRun, n)
	type end struct{ i int64 }
	ends := make(chan end, n)
	for i := int64(0); i < n; i++ {
		ws[i] = p.spawn(i, n, "", deadline)
		if ws[i].err != nil {
			fmt.Println(ws[i].err)
			return 2
		}
		go func(i int64) { ws[i].err = ws[i].cmd.Wait(); ends <- end{i} }(i)
	}
	left := n
	kill := time.NewTimer(budget + 90*time.Second)
	var grace <-chan time.Time
	killed := false
	for left > 0 {
		select {
		case e := <-ends:
			left--
			r, bad := p.collect(ws[e.i], nil)
			if bad != "" {
				if !killed {
					*infra = append(*infra, bad)
				}
				continue
			}
			for _, s := range r.Spaces {
				t := spaceIx[s.Name]
				if t == nil {
					t = &spaceStat{Name: s.Name, Cases: s.Cases, Exhaustive: true}
					spaceIx[s.Name] = t
					total.Spaces = append(total.Spaces, t)
				}
				t.Executed += s.Executed
				if s.Secs > t.Secs {
					t.Secs = s.Secs
				}
				if s.Cases > t.Cases {
					t.Cases = s.Cases
				}
				t.Exhaustive = t.Exhaustive && s.Exhaustive
			}
			total.States += r.States
			total.Trans += r.Trans
			total.Traces += r.Traces
			if r.Outcomes > total.Outcomes {
				total.Outcomes = r.Outcomes
			}
			if e.i == 0 || len(total.Samples) == 0 {
				total.Samples = append(total.Samples, r.Samples...)
			}
			total.Known = append(total.Known, r.Known...)
			total.Truncated = total.Truncated || r.Truncated
			for _, v := range r.Violations {
				v.Kind, v.shard = p.kind, e.i
			}
			total.Violations = append(total.Violations, r.Violations...)
			if len(r.Violations) > 0 && grace == nil {
				grace = time.After(3 * time.Second)
			}
		case <-grace:
			killed = true
			for _, w := range ws {
				w.cmd.Process.Kill()
			}
			grace = nil
		case <-kill.C:
			killed = true
			total.Truncated = true
			for _, w := range ws {
				w.cmd.Process.Kill()
			}
		}
	}
	return 0
}

// spaceName finds the name of the k-th space by enumerating without executing.
func (p *Parent) spaceName(k int) string {
	w := p.spawn(0, 1, "no such space#0", time.Now().Add(10*time.Minute))
	if w.err != nil {
		return ""
	}
	w.cmd.Wait()
	b, err := os.ReadFile(filepath.Join(w.dir, "result.json"))
	if err != nil {
		return ""
	}
	var r result
	if json.Unmarshal(b, &r) != nil || k < 1 || k > len(r.Spaces) {
		return ""
	}
	return r.Spaces[k-1].Name
}
