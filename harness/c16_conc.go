package main

// C16: independent instances used by different goroutines. The harness is built with the race
// detector; the cases of the other properties (with their oracles) are run by several goroutines at
// once, each with instances of its own, and once more alone; outcome, events and observations of
// both runs are compared.

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"go/token"
	"hash/fnv"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/qiniu/text/tpl"
	ccalc "github.com/qiniu/text/tpl/cmplx"
	"github.com/qiniu/text/tpl/extractor"
	ip "github.com/qiniu/text/tpl/interpreter"
	ncalc "github.com/qiniu/text/tpl/number"
	"github.com/qiniu/text/tpl/qlang"
	rcalc "github.com/qiniu/text/tpl/rat"
)

// ---------------------------------------------------------------- state of a goroutine

// locals is what a goroutine that runs cases keeps between them.
type locals struct {
	gid        uint64
	ticks      int
	qtrace     []string // what the running program did: one line per call of a host function
	hTrace     []string // the calls of methods
	hw         *hworld
	hostedEngs map[string]*hostedEng
	grid       *gridState

	calcN            *ncalc.Calculator
	calcC            *ccalc.Calculator
	calcR            *rcalc.Calculator
	engN, engC, engR *ip.Engine
	lang20           qlang.Qlang
}

func newLocals() *locals { return &locals{hostedEngs: map[string]*hostedEng{}} }

var alone = newLocals()

// slots are the locals of the goroutines that run at once. The table is written before they start
// and after they have ended only: looking something up orders no goroutine behind another one.
var slots []*locals

func here() *locals {
	if slots == nil {
		return alone
	}
	id := goid()
	for _, l := range slots {
		if l.gid == id {
			if l.ticks++; l.ticks%5 == 0 {
				runtime.Gosched()
			}
			return l
		}
	}
	panic("a goroutine that isn't known")
}

func goid() uint64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	id, err := strconv.ParseUint(string(f[1]), 10, 64)
	if err != nil {
		panic(err)
	}
	return id
}

// together runs f in n goroutines that start at the same time.
func together(n int, f func(i int)) {
	var ready, done sync.WaitGroup
	start := make(chan struct{})
	tab := make([]*locals, n)
	for i := range tab {
		ready.Add(1)
		done.Add(1)
		go func(i int) {
			defer done.Done()
			l := newLocals()
			l.gid = goid()
			tab[i] = l
			ready.Done()
			<-start
			f(i)
		}(i)
	}
	ready.Wait()
	slots = tab
	close(start)
	done.Wait()
	slots = nil
}

// apart runs the same one after the other.
func apart(n int, f func(i int)) {
	for i := 0; i < n; i++ {
		alone = newLocals()
		f(i)
	}
}

// ---------------------------------------------------------------- cases of other properties

type conJob struct {
	p    *Prop
	part *Part
	idx  int
}

func (j conJob) String() string { return fmt.Sprintf("%s/%s/%d", j.p.ID, j.part.Name, j.idx) }

// conParts are the parts that run in this process and on instances of the case (or of locals).
func conParts() (js []conJob) {
	var ids []string
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		p := props[id]
		switch id {
		case "C16", "C24", "C27", "C28", "C38", "C40", "C42", "C43", "C46":
			continue
		}
		for _, part := range p.Parts {
			if part.Exhaustive || part.Name == "hostile" || part.Name == "traces" || part.Name == "printing" {
				continue
			}
			js = append(js, conJob{p: p, part: part})
		}
	}
	return append(js, conJob{p: props["C24"], part: props["C24"].Parts[0]})
}

// outcome is what a goroutine observed.
type outcome struct {
	fail   string
	events map[string]int64
	seen   map[uint64]struct{}
}

func (o *outcome) String() string {
	if o.fail != "" {
		return o.fail
	}
	var ev []string
	for k, n := range o.events {
		ev = append(ev, fmt.Sprintf("%s=%d", k, n))
	}
	sort.Strings(ev)
	return fmt.Sprintf("%s; %d observations", strings.Join(ev, ", "), len(o.seen))
}

func runJobs(js []conJob, seed int64, tier string) (o outcome) {
	w := &worker{tier: tier, seed: seed, distinct: map[uint64]struct{}{}}
	w.res.Events = map[string]int64{}
	for _, j := range js {
		w.prop = j.p
		if v := w.runCase(j.part, j.idx); v != nil {
			o.fail = fmt.Sprintf("%s fails: %s\ninput: %s", j, v.Message, v.Input)
			break
		}
	}
	o.events, o.seen = w.res.Events, w.distinct
	return
}

// conRound is the work of a round: the jobs of each goroutine.
type conRound struct {
	jobs  [][]conJob
	procs int
	first bool // concurrently first, then alone
}

var conAll []conJob

// genRound makes a round; same: all goroutines do the same.
func genRound(r *Rand, same bool) *conRound {
	if conAll == nil {
		conAll = conParts()
	}
	cr := &conRound{procs: []int{1, 2, 4, 8, 8, 8}[r.N(6)], first: r.P(60)}
	pick := func() conJob {
		j := conAll[r.N(len(conAll))]
		n := j.part.Quick
		if j.part.Small > 0 {
			n = j.part.Small
		}
		if n > 0 {
			j.idx = r.N(n)
		}
		return j
	}
	k := 2 + r.N(7)
	// half of the rounds stay with one property, so that goroutines meet in the same code
	only := ""
	if r.P(50) {
		only = pick().p.ID
	}
	for i := 0; i < k; i++ {
		if same && i > 0 {
			cr.jobs = append(cr.jobs, cr.jobs[0])
			continue
		}
		var js []conJob
		for n := 1 + r.N(3); n > 0; n-- {
			j := pick()
			for only != "" && j.p.ID != only {
				j = pick()
			}
			js = append(js, j)
		}
		cr.jobs = append(cr.jobs, js)
	}
	return cr
}

func (cr *conRound) String() string { return fmt.Sprintf("%d processors, jobs %v", cr.procs, cr.jobs) }

// run runs the round both ways; together tells which.
func (cr *conRound) run(seed int64, tier string, conc bool) []outcome {
	res := make([]outcome, len(cr.jobs))
	f := func(i int) { res[i] = runJobs(cr.jobs[i], seed, tier) }
	if !conc {
		apart(len(res), f)
		return res
	}
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(cr.procs))
	together(len(res), f)
	return res
}

var aloneRuns int

// fresh runs jobs alone in a fresh process and tells the outcome if they pass there.
func (cr *conRound) fresh(seed int64, tier string, i int) string {
	exe, err := os.Executable()
	if err != nil {
		fail2("%v", err)
	}
	args := []string{"child", "jobs", fmt.Sprint(seed), tier}
	for _, j := range cr.jobs[i] {
		args = append(args, j.String())
	}
	cmd := exec.Command(exe, args...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	out, err := cmd.Output()
	if err != nil {
		return ""
	}
	return string(out)
}

func (cr *conRound) check(seed int64, tier string, ev func(string, int)) error {
	var conc, one []outcome
	if cr.first {
		conc = cr.run(seed, tier, true)
		one = cr.run(seed, tier, false)
	} else {
		one = cr.run(seed, tier, false)
		conc = cr.run(seed, tier, true)
	}
	for i := range conc {
		a, b := conc[i].String(), one[i].String()
		if a == b {
			for _, n := range conc[i].events {
				ev("events observed by goroutines, the same as alone", int(n))
			}
			ev("goroutines compared", 1)
			if conc[i].fail == "" {
				continue
			}
		}
		if one[i].fail != "" { // of another property, or what the goroutines did lasts
			ev("cases that fail alone, too", 1)
			if aloneRuns++; aloneRuns > 5 {
				continue
			}
			if c := cr.fresh(seed, tier, i); c != "" && conc[i].fail != "" {
				return fmt.Errorf("goroutine %d of %d (%v): concurrently: %s\nand then alone: %s\nalone in a fresh process: %s", i, len(conc), cr.jobs[i], a, b, c)
			}
			continue
		}
		for k := 0; k < 3; k++ { // is it the same every time?
			alone = newLocals()
			if c := runJobs(cr.jobs[i], seed, tier); c.String() != b {
				ev("cases without a fixed outcome", 1)
				b = ""
				break
			}
		}
		if b != "" {
			return fmt.Errorf("goroutine %d of %d (%v): concurrently: %s\nalone: %s", i, len(conc), cr.jobs[i], a, b)
		}
	}
	return nil
}

func checkMixed(same bool) func(c *Case) {
	return func(c *Case) {
		cr := genRound(c.R, same)
		c.Input("%v", cr)
		ev := func(s string, n int) { c.Ev(s, n) }
		if err := cr.check(c.w.seed, "quick", ev); err != nil {
			c.Failf("%v", err)
		}
		c.Ev("rounds", 1)
		c.Ev("goroutines", len(cr.jobs))
		for _, js := range cr.jobs {
			for _, j := range js {
				c.Ev("cases of "+j.p.ID, 1)
			}
		}
		c.Seen(cr.String())
	}
}

// checkCold: the first uses of a fresh process are concurrent ones.
func checkCold(c *Case) {
	exe, err := os.Executable()
	if err != nil {
		fail2("%v", err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, exe, "child", "cold", fmt.Sprint(c.w.seed), fmt.Sprint(c.Idx))
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	err = cmd.Run()
	c.Input("fresh process %d", c.Idx)
	if ctx.Err() != nil {
		fmt.Fprintln(os.Stderr, "STUCK: fresh process")
		os.Exit(exitStuck)
	}
	if killed(err) {
		fail2("fresh process: %v", err)
	}
	if err != nil {
		c.Failf("%v\n%.6000s", err, out.String())
	}
	c.Ev("fresh processes", 1)
	c.Seen(fmt.Sprint(c.Idx))
}

func init() {
	children["jobs"] = func(args []string) {
		seed, _ := strconv.ParseInt(args[0], 10, 64)
		var js []conJob
		for _, a := range args[2:] {
			f := strings.Split(a, "/")
			for _, j := range conParts() {
				if j.p.ID == f[0] && j.part.Name == f[1] {
					j.idx, _ = strconv.Atoi(f[2])
					js = append(js, j)
				}
			}
		}
		o := runJobs(js, seed, args[1])
		if o.fail != "" {
			os.Exit(1)
		}
		fmt.Println(o.String())
	}
	children["cold"] = func(args []string) {
		debug.SetMaxStack(256 << 20)
		seed, _ := strconv.ParseInt(args[0], 10, 64)
		idx, _ := strconv.Atoi(args[1])
		cr := genRound(caseRand(seed, "C16", "cold", idx), idx%3 > 0)
		cr.first, cr.procs = true, 8
		if err := cr.check(seed, "quick", func(string, int) {}); err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
	}
}

// ---------------------------------------------------------------- shared inputs

// sharedWork makes work on inputs that all goroutines share; each uses instances of its own.
// The work gives a description of what was observed.
func sharedWork(c *Case) (kind string, inputs [][]byte, work func() string) {
	r := c.R
	switch r.W(3, 2, 2, 2, 2) {
	case 0:
		kind = "qlang"
		for {
			g := newQgen(r, gweights{tr: 15, err: 12, ctrl: 20, fns: 25, colls: 15, classes: 10, defers: 8, panics: 5, stmts: 8})
			s := &qsession{semis: r.P(70)}
			s.add(r, g.program(), r.Pick("", "", "a.ql"), false)
			if runs, ok, _ := s.reference(); !ok || runs[0].exited {
				continue
			}
			src := []byte(s.texts[0])
			return kind, [][]byte{src}, func() string {
				l := qengine(s.semis)
				h := here()
				h.qtrace = nil
				err := l.SafeExec(src, s.files[0])
				v, ok := l.Ret()
				return fmt.Sprint(h.qtrace, err, realVars(l), ok, realSnap(v, 0))
			}
		}
	case 1:
		kind = "matchers"
		d := genDom(r, gconf{syms: someSyms(r), rules: 1 + r.N(5), depth: 2 + r.N(3), cut: 12, act: 25})
		setMarks(r, d)
		gram := []byte(grammarText(r, ruleToks(r, d)))
		var src []byte
		for {
			s := d.sentence(r, d.rules[0].body, someSyms(r))
			if _, ok := refMatch(d, d.rules[0].body, d.seenAs(s)); ok { // in reasonable time
				src = renderSyms(r, s, r.P(30)).src
				break
			}
		}
		return kind, [][]byte{gram, src}, func() string {
			var log []string
			comp := &tpl.Compiler{Grammar: gram, Marker: func(g tpl.Grammar, mark string) tpl.Grammar {
				return tpl.Action(g, func(tokens []tpl.Token, g tpl.Grammar) {
					log = append(log, fmt.Sprint(mark, len(tokens), g.Len()))
					if len(log)%7 == 0 {
						runtime.Gosched()
					}
				})
			}}
			cr, err := comp.Cl()
			if err != nil {
				return err.Error()
			}
			err = cr.MatchExactly(src, "x")
			return fmt.Sprint(log, err)
		}
	case 2:
		kind = "calculators"
		d := calcDefs[r.Pick("number", "cmplx", "rat")]
		var lines [][]byte
		for i := 1 + r.N(4); i > 0; i-- {
			t, _ := d.sessionLine(r)
			lines = append(lines, []byte(t))
		}
		fresh := r.P(50)
		return kind, lines, func() string {
			h := here()
			if fresh {
				h.engN = nil
			}
			calcEngines(c) // doesn't touch c
			e := map[string]*ip.Engine{"number": h.engN, "cmplx": h.engC, "rat": h.engR}[d.name]
			var log []string
			for _, l := range lines {
				err := func() (err error) {
					defer func() {
						if x := recover(); x != nil {
							err = fmt.Errorf("%v", x)
						}
					}()
					return e.MatchExactly(l, "")
				}()
				var v interface{}
				switch d.name {
				case "number":
					v, _ = h.calcN.Ret()
				case "cmplx":
					v, _ = h.calcC.Ret()
				default:
					v, _ = h.calcR.Ret()
				}
				log = append(log, fmt.Sprint(v, err))
			}
			return strings.Join(log, "\n")
		}
	case 3:
		kind = "extractors"
		x := genExtract(r, gconf{syms: someSyms(r), rules: 1 + r.N(4), depth: 2 + r.N(3), cut: 4, act: 30, trans: 25}, false)
		gram := []byte(x.text)
		var srcs [][]byte
		for i := 1 + r.N(4); i > 0; i-- {
			t := renderSyms(r, x.d.sentence(r, x.d.rules[0].body, someSyms(r)), false)
			if _, ok := x.expect(t, stdValue); ok {
				srcs = append(srcs, t.src)
			}
		}
		return kind, append(srcs, gram), func() string {
			e, err := extractor.New(gram, nil)
			if err != nil {
				return err.Error()
			}
			var log []string
			for _, s := range srcs {
				doc, err := e.SafeParse(s, "")
				log = append(log, fmt.Sprint(showDoc(doc), err))
			}
			return strings.Join(log, "\n")
		}
	}
	kind = "scanners"
	src := randText(c, r.P(50))
	mode := scanModes[r.N(4)]
	kws := []string{"if", "for", "变量"}
	return kind, [][]byte{src}, func() string {
		s := new(tpl.AutoKwScanner)
		for _, k := range kws {
			s.Ltot(k)
		}
		file := token.NewFileSet().AddFile("f", -1, len(src))
		var log []string
		s.Init(file, src, func(pos token.Position, msg string) { log = append(log, pos.String()+msg) }, mode)
		for n := scanLimit(src); n > 0; n-- {
			t := s.Scan()
			log = append(log, fmt.Sprint(t.Kind, t.Literal, file.Line(t.Pos), s.Ttol(t.Kind)))
			if t.Kind == tpl.EOF {
				break
			}
		}
		return strings.Join(log, "\n")
	}
}

func checkShared(c *Case) {
	r := c.R
	kind, inputs, work := sharedWork(c)
	k, times := 2+r.N(7), 1+r.N(4)
	var b strings.Builder
	h := fnv.New64a()
	for _, in := range inputs {
		fmt.Fprintf(&b, "%s\n---\n", in)
		h.Write(in)
	}
	c.Input("%s, %d goroutines, %d times:\n%s", kind, k, times, b.String())
	was := h.Sum64()
	safe := func() (s string) {
		defer func() {
			if e := recover(); e != nil {
				var re runtime.Error
				if err, ok := e.(error); ok && errors.As(err, &re) {
					s = fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
					return
				}
				s = fmt.Sprint("panic: ", e)
			}
		}()
		return work()
	}
	conc := make([][]string, k)
	var one []string
	doAlone := func() {
		alone = newLocals()
		one = []string{safe()}
		for i := 1; i < times; i++ {
			one = append(one, safe())
		}
	}
	first := r.P(60)
	if !first {
		doAlone()
	}
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS([]int{1, 2, 4, 8, 8, 8}[r.N(6)]))
	together(k, func(i int) {
		for n := 0; n < times; n++ {
			conc[i] = append(conc[i], safe())
		}
	})
	if first {
		doAlone()
	}
	h.Reset()
	for _, in := range inputs {
		h.Write(in)
	}
	if h.Sum64() != was {
		c.Failf("the input was changed")
	}
	old := one
	doAlone()
	if !reflect.DeepEqual(old, one) {
		c.Ev("works without a fixed outcome", 1)
		return
	}
	for i := range conc {
		for n := range one {
			if conc[i][n] != one[n] {
				c.Failf("goroutine %d, time %d: concurrently:\n%.3000s\nalone:\n%.3000s", i, n, conc[i][n], one[n])
			}
		}
		c.Ev("goroutines compared", 1)
		c.Ev("results on shared inputs: "+kind, times)
	}
	c.Ev("rounds", 1)
	c.Seen(kind + b.String())
}

func init() {
	register(&Prop{ID: "C16",
		Rule:    "the harness is built with the race detector. mixed, same: 2-8 goroutines run cases of the other properties (with their reference models) on instances of their own at once, with 1-8 processors and yields inside host functions; outcome, events and observations are compared with those of the same cases run alone. cold: the same as the first thing a fresh process does. shared: goroutines with instances of their own work on the same bytes (programs, grammars, texts). A case is distinct by its jobs or inputs",
		MustSee: []string{"rounds", "goroutines compared", "fresh processes", "results on shared inputs: qlang", "results on shared inputs: matchers", "results on shared inputs: calculators", "results on shared inputs: extractors", "results on shared inputs: scanners"},
		Assume:  []string{"the Go race detector reports pairs of unordered accesses in the executions that were seen", "tables of functions are filled (Import) before engines run"},
		Workers: 4,
		Race:    true,
		Parts: []*Part{
			{Name: "cold", Quick: 60, Thorough: 3000, Run: checkCold},
			{Name: "mixed", Quick: 600, Thorough: 40000, Run: checkMixed(false)},
			{Name: "same", Quick: 600, Thorough: 40000, Run: checkMixed(true)},
			{Name: "shared", Quick: 2000, Thorough: 120000, Run: checkShared},
		}})
}
