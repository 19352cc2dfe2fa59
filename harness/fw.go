// Framework: properties are decided by running the code under test on generated cases while an
// oracle watches; this file drives the cases, keeps the books and reports.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- cases

// Part is a family of cases of a property. Case i of a part is a function of (seed, i) only.
type Part struct {
	Name            string
	Quick, Thorough int
	Exhaustive      bool // the cases enumerate a finite space (per tier)
	Run             func(c *Case)
	Small           int // the first cases, small enough for many to run at once under the race detector (0: all are)
}

// Prop is a property with its workload.
type Prop struct {
	ID      string
	Rule    string   // how cases are made and what makes one count as non-trivial
	MustSee []string // events without which a run has observed nothing
	Assume  []string
	Workers int  // 0: one per core
	Race    bool // the check builds the harness with the race detector
	Parts   []*Part
	// Setup runs once in the driver (e.g. builds a command of the repository); its result is
	// handed to the workers through the environment variable VERIF_SETUP.
	Setup func(dir string) (string, error)
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if props[p.ID] != nil {
		panic("twice: " + p.ID)
	}
	props[p.ID] = p
}

func (p *Prop) count(part *Part, tier string) int {
	if tier == "thorough" {
		return part.Thorough
	}
	return part.Quick
}

// Case is one execution under observation.
type Case struct {
	Prop  *Prop
	Part  *Part
	Idx   int
	Tier  string
	R     *Rand
	w     *worker
	input string
}

type caseFailure struct{ msg string }

// Input describes the input of the case (for reports and samples). The latest call counts.
func (c *Case) Input(format string, a ...interface{}) {
	if len(a) == 0 {
		c.input = format
	} else {
		c.input = fmt.Sprintf(format, a...)
	}
}

// Failf reports that the property does not hold in this case.
func (c *Case) Failf(format string, a ...interface{}) {
	panic(caseFailure{fmt.Sprintf(format, a...)})
}

// Seen counts a distinct non-trivial case (or observation) by key.
func (c *Case) Seen(key string) {
	h := fnv.New64a()
	h.Write([]byte(c.Part.Name))
	h.Write([]byte{0})
	h.Write([]byte(key))
	c.w.distinct[h.Sum64()] = struct{}{}
}

// Ev counts events the monitor observed.
func (c *Case) Ev(name string, n int) {
	if n != 0 {
		c.w.res.Events[name] += int64(n)
	}
}

// Thorough tells the tier.
func (c *Case) Thorough() bool { return c.Tier == "thorough" }

// ---------------------------------------------------------------- random numbers

// Rand is splitmix64.
type Rand struct{ s uint64 }

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a number in [0,n).
func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a number in [a,b].
func (r *Rand) Range(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability pct/100.
func (r *Rand) P(pct int) bool { return r.N(100) < pct }

// Pick returns one of the strings.
func (r *Rand) Pick(a ...string) string { return a[r.N(len(a))] }

// W returns an index chosen with the given weights.
func (r *Rand) W(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	n := r.N(t)
	for i, x := range w {
		if n -= x; n < 0 {
			return i
		}
	}
	return 0
}

// Shuffle permutes n elements.
func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.N(i+1))
	}
}

func caseRand(seed int64, prop, part string, idx int) *Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", seed, prop, part, idx)
	r := &Rand{h.Sum64()}
	r.U64()
	return r
}

// ---------------------------------------------------------------- worker

type violation struct {
	Property string `json:"property"`
	Part     string `json:"part"`
	Idx      int    `json:"idx"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	Input    string `json:"input"`
	Message  string `json:"message"`
	Setup    string `json:"setup,omitempty"`
}

type result struct {
	Done       bool
	Evals      map[string]int64
	Events     map[string]int64
	Samples    []string
	Violations []violation
	Known      []violation
	Slow       float64 // CPU seconds of the slowest case
	SlowCase   string
}

type worker struct {
	prop     *Prop
	tier     string
	seed     int64
	res      result
	distinct map[uint64]struct{}
	curPart  string
	curIdx   int
	seq      int64 // atomic: number of the case in progress
	progress *os.File
}

const (
	exitRunaway = 77 // a case used too much CPU or memory
	exitStuck   = 78 // a case made no progress (inconclusive)
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func (w *worker) watchdog() {
	limit := 40 * time.Second // CPU time; cases take milliseconds
	if w.prop.Race {
		limit = 4 * time.Minute // several goroutines under the race detector
	}
	var last int64 = -1
	var cpu0 time.Duration
	var wall0 time.Time
	for {
		time.Sleep(100 * time.Millisecond)
		s := atomic.LoadInt64(&w.seq)
		if s != last {
			last, cpu0, wall0 = s, cpuTime(), time.Now()
			continue
		}
		if cpuTime()-cpu0 > limit {
			fmt.Fprintf(os.Stderr, "RUNAWAY: case uses more than %v of CPU time\n", limit)
			os.Exit(exitRunaway)
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > 1500<<20 {
			fmt.Fprintf(os.Stderr, "RUNAWAY: case uses more than 1.5 GB of memory\n")
			os.Exit(exitRunaway)
		}
		if time.Since(wall0) > 8*time.Minute {
			fmt.Fprintf(os.Stderr, "STUCK: case makes no progress\n")
			os.Exit(exitStuck)
		}
	}
}

func (w *worker) runCase(part *Part, idx int) (v *violation) {
	c := &Case{Prop: w.prop, Part: part, Idx: idx, Tier: w.tier,
		R: caseRand(w.seed, w.prop.ID, part.Name, idx), w: w}
	defer func() {
		if e := recover(); e != nil {
			msg := ""
			if f, ok := e.(caseFailure); ok {
				msg = f.msg
				if len(msg) > 20000 {
					msg = msg[:10000] + "\n...\n" + msg[len(msg)-9000:]
				}
			} else {
				msg = fmt.Sprintf("unexpected panic: %v\n%s", e, debug.Stack())
			}
			if len(c.input) > 20000 {
				c.input = c.input[:20000] + "..."
			}
			v = &violation{w.prop.ID, part.Name, idx, w.seed, w.tier, strings.ToValidUTF8(c.input, "?"), msg, ""}
		} else if len(w.res.Samples) < 3 && c.input != "" && len(c.input) < 2000 && idx%7 == 3 {
			w.res.Samples = append(w.res.Samples, part.Name+": "+c.input)
		}
	}()
	part.Run(c)
	return
}

func workerMain(args []string) {
	// worker ID tier seed W w dir
	w := &worker{prop: props[args[0]], tier: args[1], distinct: map[uint64]struct{}{}}
	w.seed, _ = strconv.ParseInt(args[2], 10, 64)
	n, _ := strconv.Atoi(args[3])
	k, _ := strconv.Atoi(args[4])
	dir := args[5]
	debug.SetMaxStack(256 << 20)
	if !w.prop.Race {
		lim := syscall.Rlimit{Cur: 4 << 30, Max: 4 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	w.res.Evals, w.res.Events = map[string]int64{}, map[string]int64{}
	w.progress, _ = os.Create(filepath.Join(dir, fmt.Sprintf("progress.%d", k)))
	go w.watchdog()
	buf := make([]byte, 64)
	known := loadKnown()
loop:
	for _, part := range w.prop.Parts {
		cnt := w.prop.count(part, w.tier)
		for i := k; i < cnt; i += n {
			for j := range buf {
				buf[j] = ' '
			}
			copy(buf, fmt.Sprintf("%s %d", part.Name, i))
			w.progress.WriteAt(buf, 0)
			atomic.AddInt64(&w.seq, 1)
			cpu := cpuTime()
			v := w.runCase(part, i)
			if d := (cpuTime() - cpu).Seconds(); d > w.res.Slow {
				w.res.Slow, w.res.SlowCase = d, fmt.Sprintf("%s/%d", part.Name, i)
			}
			w.res.Evals[part.Name]++
			if v != nil {
				if known.match(*v) != "" {
					w.res.Known = append(w.res.Known, *v)
					continue
				}
				w.res.Violations = append(w.res.Violations, *v)
				break loop
			}
		}
	}
	w.res.Done = true
	f, err := os.Create(filepath.Join(dir, fmt.Sprintf("distinct.%d", k)))
	if err == nil {
		bw := bufio.NewWriter(f)
		for h := range w.distinct {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], h)
			bw.Write(b[:])
		}
		bw.Flush()
		f.Close()
	}
	b, _ := json.Marshal(&w.res)
	if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("result.%d", k)), b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Exit(0)
}

// ---------------------------------------------------------------- driver

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func fail2(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "ERROR: "+format+"\n", a...)
	cleanup()
	os.Exit(2)
}

var scratch string

func cleanup() {
	if scratch != "" {
		filepath.Walk(scratch, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.IsDir() {
				os.Chmod(p, 0700)
			}
			return nil
		})
		os.RemoveAll(scratch)
	}
	if d := os.Getenv("VERIF_BIN_DIR"); strings.HasPrefix(d, "/tmp/verif.") {
		os.RemoveAll(d)
	}
}

type proc struct {
	err    error
	stderr string
	res    *result
}

func runWorker(id, tier string, seed int64, n, k int, dir, setup string) (p proc) {
	cmd := exec.Command("/proc/self/exe", "worker", id, tier, fmt.Sprint(seed), fmt.Sprint(n), fmt.Sprint(k), dir)
	cmd.Env = append(os.Environ(), "VERIF_SETUP="+setup, "VERIF_SCRATCH="+dir,
		"GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single")
	ef, err := os.Create(filepath.Join(dir, fmt.Sprintf("stderr.%d", k)))
	if err != nil {
		return proc{err: err}
	}
	cmd.Stderr = ef
	of, _ := os.Create(filepath.Join(dir, fmt.Sprintf("stdout.%d", k)))
	cmd.Stdout = of
	p.err = cmd.Run()
	ef.Close()
	of.Close()
	b, _ := os.ReadFile(ef.Name())
	if len(b) > 8000 {
		b = append(append(b[:4000:4000], "\n...\n"...), b[len(b)-3000:]...)
	}
	p.stderr = string(b)
	if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("result.%d", k))); err == nil {
		var r result
		if json.Unmarshal(b, &r) == nil && r.Done {
			p.res = &r
		}
	}
	return
}

func runMain(id string) {
	p := props[id]
	if p == nil {
		fail2("no such property: %s", id)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	start := time.Now()
	scratch, err = os.MkdirTemp("/tmp", "verif.run.")
	if err != nil {
		fail2("%v", err)
	}
	setup := ""
	if p.Setup != nil {
		if setup, err = p.Setup(scratch); err != nil {
			fail2("setup: %v", err)
		}
	}
	n := p.Workers
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	procs := make([]proc, n)
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			procs[k] = runWorker(id, tier, seed, n, k, scratch, setup)
			if procs[k].res == nil && killed(procs[k].err) { // ended from outside: once more
				procs[k] = runWorker(id, tier, seed, n, k, scratch, setup)
			}
		}(k)
	}
	wg.Wait()

	evals, events := map[string]int64{}, map[string]int64{}
	var samples []string
	var viols []violation
	distinct := map[uint64]struct{}{}
	total := int64(0)
	var slow float64
	var slowCase string
	for k, pr := range procs {
		if pr.res == nil {
			b, _ := os.ReadFile(filepath.Join(scratch, fmt.Sprintf("progress.%d", k)))
			f := strings.Fields(string(b))
			if len(f) < 2 || killed(pr.err) {
				fail2("worker %d: %v\n%s", k, pr.err, pr.stderr)
			}
			if ee, ok := pr.err.(*exec.ExitError); ok && (ee.ExitCode() == exitStuck || ee.ExitCode() == 3) {
				fail2("worker %d: %v\n%s", k, pr.err, pr.stderr)
			}
			idx, _ := strconv.Atoi(f[1])
			viols = append(viols, violation{id, f[0], idx, seed, tier, "",
				fmt.Sprintf("the process running the case ended abnormally (%v):\n%s", pr.err, pr.stderr), setup})
			continue
		}
		if pr.res.Slow > slow {
			slow, slowCase = pr.res.Slow, pr.res.SlowCase
		}
		for x, c := range pr.res.Evals {
			evals[x] += c
			total += c
		}
		for x, c := range pr.res.Events {
			events[x] += c
		}
		for _, s := range pr.res.Samples {
			if len(samples) < 6 {
				samples = append(samples, s)
			}
		}
		viols = append(append(viols, pr.res.Violations...), pr.res.Known...)
		b, _ := os.ReadFile(filepath.Join(scratch, fmt.Sprintf("distinct.%d", k)))
		for ; len(b) >= 8; b = b[8:] {
			distinct[binary.LittleEndian.Uint64(b)] = struct{}{}
		}
	}
	known := loadKnown()
	var news []violation
	for _, v := range viols {
		if k := known.match(v); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
		} else {
			news = append(news, v)
		}
	}
	sort.Slice(news, func(i, j int) bool { return len(news[i].Input) < len(news[j].Input) })

	parts := map[string]interface{}{}
	for _, part := range p.Parts {
		parts[part.Name] = map[string]interface{}{"cases": evals[part.Name], "enumerates_finite_space": part.Exhaustive}
	}
	if len(samples) == 0 {
		samples = []string{"(inputs are described in the part names only)"}
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": total, "distinct_nontrivial": len(distinct), "rule": p.Rule,
			"samples": samples, "events_observed": events, "parts": parts,
		},
		"assumptions": p.Assume, "wall_s": float64(int(time.Since(start).Seconds()*100)) / 100,
		"violations": len(news),
	}
	if p.Assume == nil {
		delete(ev, "assumptions")
	}
	edir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(edir, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(edir, id+".json"), append(b, '\n'), 0644); err != nil {
		fail2("%v", err)
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct, %.1fs\n", id, tier, seed, total, len(distinct), time.Since(start).Seconds())
	var names []string
	for x := range events {
		names = append(names, x)
	}
	sort.Strings(names)
	for _, x := range names {
		fmt.Printf("  observed %s: %d\n", x, events[x])
	}
	if slow >= 1 {
		fmt.Printf("  slowest case: %s, %.1f s of CPU\n", slowCase, slow)
	}
	if len(news) > 0 {
		v := news[0]
		v.Setup = ""
		rdir := filepath.Join(edir, "replays")
		os.MkdirAll(rdir, 0755)
		path := filepath.Join(rdir, id+".json")
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, append(b, '\n'), 0644)
		msg := v.Message
		if len(msg) > 3000 {
			msg = msg[:3000] + "..."
		}
		fmt.Printf("case %s/%d\ninput: %s\n%s\n", v.Part, v.Idx, v.Input, msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		cleanup()
		os.Exit(1)
	}
	if total == 0 || len(distinct) == 0 {
		fail2("nothing was observed")
	}
	for _, x := range p.MustSee {
		if events[x] == 0 {
			fail2("no event of kind %q was observed", x)
		}
	}
	cleanup()
	os.Exit(0)
}

func killed(err error) bool {
	if ee, ok := err.(*exec.ExitError); ok {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			s := ws.Signal()
			return s == syscall.SIGKILL || s == syscall.SIGTERM || s == syscall.SIGINT || s == syscall.SIGHUP
		}
	}
	return false
}

// ---------------------------------------------------------------- known findings

type finding struct {
	Status   string `json:"status"` // "known" or "fixed"
	Property string `json:"property"`
	Part     string `json:"part,omitempty"`
	Input    string `json:"input,omitempty"`
	What     string `json:"what"`
}

type findings []finding

func loadKnown() (fs findings) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.jsonl"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		var f finding
		if json.Unmarshal([]byte(l), &f) == nil && f.Status == "known" {
			fs = append(fs, f)
		}
	}
	return
}

func (fs findings) match(v violation) string {
	for _, f := range fs {
		if f.Property == v.Property && f.Part == v.Part && f.Input == v.Input {
			return f.What
		}
	}
	return ""
}

// ---------------------------------------------------------------- main

func replayMain(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fail2("%v", err)
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fail2("%v", err)
	}
	p := props[v.Property]
	os.Setenv("VERIF_SEED", fmt.Sprint(v.Seed))
	os.Setenv("VERIF_TIER", v.Tier)
	scratch, _ = os.MkdirTemp("/tmp", "verif.run.")
	if p.Setup != nil {
		s, err := p.Setup(scratch)
		if err != nil {
			fail2("%v", err)
		}
		os.Setenv("VERIF_SETUP", s)
	}
	os.Setenv("VERIF_SCRATCH", scratch)
	w := &worker{prop: p, tier: v.Tier, seed: v.Seed, distinct: map[uint64]struct{}{}}
	w.res.Evals, w.res.Events = map[string]int64{}, map[string]int64{}
	debug.SetMaxStack(256 << 20)
	go w.watchdog()
	for _, part := range p.Parts {
		if part.Name == v.Part {
			if x := w.runCase(part, v.Idx); x != nil {
				fmt.Printf("input: %s\n%s\n", x.Input, x.Message)
				cleanup()
				os.Exit(1)
			}
			fmt.Println("the case passes")
		}
	}
	cleanup()
	os.Exit(0)
}

func main() {
	a := os.Args[1:]
	switch {
	case len(a) >= 2 && a[0] == "run":
		runMain(a[1])
	case len(a) >= 1 && a[0] == "list":
		for id := range props {
			fmt.Println(id)
		}
	case len(a) >= 7 && a[0] == "worker":
		workerMain(a[1:])
	case len(a) >= 2 && a[0] == "replay":
		replayMain(a[1])
	case len(a) >= 2 && a[0] == "child":
		childMain(a[1:])
	default:
		fmt.Fprintln(os.Stderr, "usage: harness run ID | replay FILE")
		os.Exit(2)
	}
}

// children are small programs a check runs in a process of its own.
var children = map[string]func(args []string){}

func childMain(a []string) {
	f := children[a[0]]
	if f == nil {
		os.Exit(2)
	}
	f(a[1:])
	os.Exit(0)
}
