package main

// C42: tplgen -i. Random grammars are turned into packages with a static interpreter, which is
// compared with the one made at run time; so is the one of the number calculator.

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
)

type sfn struct {
	Mark     string
	Recv     string
	In, Out  []string
	Variadic bool
	FailAt   int
	FailHow  string
	Sub      string
	SubText  string
	Swallow  bool
}

type sreq struct {
	Pkg     string
	Fns     []sfn
	Caller  bool
	Options string
	Texts   [][]byte
	Calc    bool
}

type soutcome struct {
	New, Err, Type string
	Log, Stack     []string
}

type sresp struct {
	Static, Dynamic []soutcome
	Vals            []string
}

func sgramCount() int { return randomGrams42() + len(interpBig) }

func randomGrams42() int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 600
	}
	return 100
}

var smarks = []string{"_mute", "_unmute", "push", "Len", "_all", "_All", "été", "_", "x1", "Élan", "_été", "Z", "a", "_2"}

type sigram struct {
	d     *gdom
	text  string
	conf  gconf
	marks []string
	big   *bigCase
	sent  []string // big grammars: a sentence
}

// interpBig are the big grammars made into packages.
var interpBig = func() (l []bigCase) {
	for _, b := range bigCases(bigGramDims(1025)) {
		if b.n == 65 || b.n == 257 || b.n > 1000 && (b.dim+b.n)%2 == 0 {
			l = append(l, b)
		}
	}
	return
}()

func sinterp(seed int64, i int) *sigram {
	r := caseRand(seed, "C42", "grammar", i)
	g := &sigram{}
	g.conf = interpConf
	g.conf.syms = someSyms(r)
	g.conf.rules = 1 + r.N(4)
	g.conf.depth = 2 + r.N(3)
	k := 2 + r.N(len(smarks)-2)
	if r.P(40) {
		g.conf.syms = append(g.conf.syms, "FLOAT", "INT")
	}
	for {
		seen := map[string]bool{}
		if k := i - randomGrams42(); k >= 0 {
			b := interpBig[k]
			g.big, g.d = &b, &gdom{byN: map[string]*grule{}, big: true}
			g.sent = bigGrams[b.dim].f(r, g.d, b.n)
			for _, ru := range g.d.rules {
				g.d.byN[ru.name] = ru
			}
		} else {
			g.d = genDom(r, g.conf)
		}
		var walk func(n *gn)
		walk = func(n *gn) {
			if n.op == 'a' {
				n.sym = smarks[r.N(k)]
				if r.P(70) {
					n.sym = smarks[2+r.N(len(smarks)-2)]
				}
				seen[n.sym] = true
			}
			for _, x := range n.k {
				walk(x)
			}
		}
		for _, ru := range g.d.rules {
			walk(ru.body)
		}
		g.marks = sortedBools(seen)
		g.text = grammarText(r, ruleToks(r, g.d))
		if g.big != nil || !strings.Contains(g.text, "`") && (len(g.marks) > 0 || r.P(20)) {
			return g
		}
	}
}

func sortedBools(m map[string]bool) []string {
	n := map[string]int{}
	for k := range m {
		n[k] = 1
	}
	return sortedKeys(n)
}

const static42Mod = "module static42\n\ngo 1.22\n\nrequire github.com/qiniu/text v0.0.0\n\nreplace github.com/qiniu/text => /repo\n"

var reDirective = regexp.MustCompile(`(?m)^//go:generate tplgen (.*)$`)

// static42Setup makes the packages and the server.
func static42Setup(dir string) (string, error) {
	if _, err := buildCmds(dir, map[string]string{"tplgen": "./tpl/cmd/tplgen"}); err != nil {
		return "", err
	}
	mod := filepath.Join(dir, "mod")
	tplgen := filepath.Join(dir, "bin", "tplgen")
	src := filepath.Join(os.Getenv("VERIF_DIR"), "harness", "static42")
	put := func(name string, text string) error {
		os.MkdirAll(filepath.Dir(filepath.Join(mod, name)), 0755)
		return os.WriteFile(filepath.Join(mod, name), []byte(text), 0644)
	}
	file := func(name string) string {
		b, err := os.ReadFile(filepath.Join(src, name))
		if err != nil {
			fail2("%v", err)
		}
		return string(b)
	}
	if err := put("go.mod", static42Mod); err != nil {
		return "", err
	}
	put("world/world.go", file("world.go.txt"))
	put("calc.go", file("calc.go.txt"))
	n := sgramCount()
	bad := make([]string, n+1)
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			g := sinterp(envSeed(), i)
			r := caseRand(envSeed(), "C42", "file", i)
			pkg := genPkg(i)
			def := &sgram{text: g.text}
			text, args := def.goFile(r, pkg)
			put(pkg+"/def.go", text)
			if strings.Contains(text, "func asm(") {
				put(pkg+"/asm.s", "")
			}
			if r.P(50) {
				args = append(args, "-f", "static_interpreter.go")
			}
			args = append([]string{"-i"}, args...)
			cmd := exec.Command(tplgen, args...)
			cmd.Dir = filepath.Join(mod, pkg)
			if b, err := cmd.CombinedOutput(); err != nil {
				bad[i] = fmt.Sprintf("tplgen %v: %v\n%s", args, err, b)
			}
		}(i)
	}
	wg.Wait()
	// the calculator, by its own directive
	b, err := os.ReadFile("/repo/tpl/number/number.go")
	if err != nil {
		return "", err
	}
	put("num42/number.go", string(b))
	if m := reDirective.FindStringSubmatch(string(b)); m == nil {
		bad[n] = "no directive"
	} else {
		cmd := exec.Command(tplgen, strings.Fields(m[1])...)
		cmd.Dir = filepath.Join(mod, "num42")
		if b, err := cmd.CombinedOutput(); err != nil {
			bad[n] = fmt.Sprintf("tplgen %s: %v\n%s", m[1], err, b)
		}
	}
	for round := 0; ; round++ {
		var imports, makers, grams strings.Builder
		left := 0
		for i := range bad[:n] {
			if bad[i] != "" {
				continue
			}
			left++
			p := genPkg(i)
			fmt.Fprintf(&imports, "\t\"static42/%s\"\n", p)
			fmt.Fprintf(&makers, `	%q: func(ipt interpreter.Interface, options string) (world.Engine, *tpl.CompileRet, error) {
		var o *%s.Options
		switch options {
		case "zero":
			o = &%s.Options{}
		case "semis":
			o = %s.InsertSemis
		case "scanner":
			o = &%s.Options{Scanner: new(tpl.AutoKwScanner)}
		}
		e, err := %s.NewStaticInterpreter(ipt, o)
		if err != nil {
			return nil, nil, err
		}
		if o != nil && o.Scanner != nil && e.CompileRet.Tokener() != o.Scanner {
			panic("the static engine doesn't use the scanner of its options")
		}
		return e, e.CompileRet, nil
	},
`, p, p, p, p, p, p)
			fmt.Fprintf(&grams, "\t%q: %q,\n", p, sinterp(envSeed(), i).text)
		}
		if left == 0 || round > 20 {
			break
		}
		if bad[n] != "" {
			put("calc.go", "package main\n\nimport \"static42/world\"\n\nfunc calc(world.Req) []string { return nil }\n")
		}
		put("main.go", strings.NewReplacer("IMPORTS", imports.String(), "MAKERS", makers.String(), "GRAMS", grams.String()).Replace(file("server.go.txt")))
		cmd := exec.Command("go", "build", "-gcflags=-N -l -e", "-o", filepath.Join(dir, "bin", "server"), ".")
		cmd.Dir = mod
		b, err := cmd.CombinedOutput()
		if err == nil {
			break
		}
		found := false
		note := func(i int) {
			found = true
			if bad[i] == "" {
				bad[i] = fmt.Sprintf("the code does not build: %.2000s", b)
			}
		}
		for _, re := range []string{`(?m)^# static42/(g\d+)`, `(?m)^(?:\./)?main\.go.*static42/(g\d+)`, `(?m)^(?:\./)?main\.go.*: (g\d+)\.`, `(?m)^(g\d+)/`} {
			for _, m := range regexp.MustCompile(re).FindAllStringSubmatch(string(b), -1) {
				i, _ := strconv.Atoi(m[1][1:])
				note(i)
			}
		}
		if regexp.MustCompile(`(?m)^(# static42/)?num42|^calc\.go|^\./calc\.go`).Match(b) {
			note(n)
		}
		if !found {
			return "", fmt.Errorf("go build: %v\n%.3000s", err, b)
		}
	}
	b, _ = json.Marshal(bad)
	if err := os.WriteFile(filepath.Join(dir, "bad.json"), b, 0644); err != nil {
		return "", err
	}
	return dir, nil
}

type static42Server struct {
	bad []string
	in  io.Writer
	out *bufio.Reader
	cmd *exec.Cmd
}

var the42 *static42Server

func get42(c *Case) *static42Server {
	if the42 != nil {
		return the42
	}
	dir := os.Getenv("VERIF_SETUP")
	s := &static42Server{}
	b, err := os.ReadFile(filepath.Join(dir, "bad.json"))
	if err == nil {
		err = json.Unmarshal(b, &s.bad)
	}
	if err != nil {
		fail2("%v", err)
	}
	if _, err := os.Stat(filepath.Join(dir, "bin", "server")); err != nil {
		c.Failf("no package builds: %s", s.bad[0])
	}
	s.cmd = exec.Command(filepath.Join(dir, "bin", "server"))
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		fail2("%v", err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		fail2("%v", err)
	}
	s.out = bufio.NewReaderSize(out, 1<<20)
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		fail2("%v", err)
	}
	the42 = s
	return s
}

func (s *static42Server) ask(c *Case, rq sreq) (rs sresp) {
	b, _ := json.Marshal(rq)
	s.in.Write(append(b, '\n'))
	line, err := s.out.ReadBytes('\n')
	if err == nil {
		err = json.Unmarshal(line, &rs)
	}
	if err != nil {
		the42 = nil
		c.Failf("the program with the static interpreters ends: %v, %v", err, s.cmd.Wait())
	}
	return
}

// genSFn makes a function for a mark.
func genSFn(r *Rand, mark string, rules []string) sfn {
	f := sfn{Mark: mark}
	first := []rune(strings.TrimPrefix(mark, "_"))
	isLen := len(first) > 0 && first[0] >= 'A' && first[0] <= 'Z'
	switch r.W(43, 38, 16, 3) {
	case 0:
		f.Recv = "stk"
	case 1:
		f.Recv = "ipt"
	case 2: // of values
		for i := 1 + r.N(3); i > 0; i-- {
			f.In = append(f.In, r.Pick("intf", "intf", "float", "float", "float", "float", "string", "int"))
		}
		for i := r.W(20, 60, 20); i > 0; i-- {
			f.Out = append(f.Out, r.Pick("float", "int", "string", "float32"))
		}
		if r.P(2) {
			f.Out = []string{"bool"}
		}
	case 3: // bad
		switch r.N(8) {
		case 0:
			f.Recv = "none"
		case 1:
			f.Recv = "nofunc"
		case 2:
		case 3:
			f.In, f.Variadic = []string{"intf", "intf"}, true
		case 4:
			f.Recv, f.In = r.Pick("stk", "ipt"), []string{"string", "ctx", "int", "int"}
		case 5:
			f.Recv, f.In, f.Out = r.Pick("stk", "ipt"), []string{"string"}, []string{"error", "error"}
		case 6:
			f.Recv, f.In, f.Out = r.Pick("stk", "ipt"), []string{"string"}, []string{"int"}
		case 7:
			f.Recv, f.In = r.Pick("stk", "ipt"), []string{r.Pick("bool", "list", "byte", "float32", "error")}
		}
		return f
	}
	if f.Recv != "" {
		switch {
		case r.P(15):
		case isLen:
			f.In = []string{"int"}
			if r.P(4) {
				f.In = []string{"string"}
			}
		default:
			f.In = []string{r.Pick("string", "string", "float", "int", "int64", "intf", "intf", "intf", "eng", "eng", "ctx", "ctx")}
		}
		if len(f.In) > 0 && r.P(25) {
			f.In = append(f.In, "ctx")
		}
		if r.P(40) {
			f.Out = []string{"error"}
		}
	}
	if r.P(12) {
		f.FailAt = 1 + r.N(3)
		f.FailHow = r.Pick("panic", "string", "error", "error", "runtime", "other")
	}
	if r.P(70) {
		f.Sub = rules[r.N(len(rules))]
		if r.P(3) {
			f.Sub = "nosuch"
		}
		f.Swallow = r.P(50)
		if r.P(20) {
			f.SubText = r.Pick("1", "v 2", "(", "\"a", "x\n+ y")
		}
	}
	return f
}

func checkStaticInterp(c *Case) {
	r := c.R
	i := c.Idx % sgramCount()
	g := sinterp(c.w.seed, i)
	c.Input("grammar %s", g.text)
	sv := get42(c)
	if sv.bad[i] != "" {
		c.Failf("%s", sv.bad[i])
	}
	var rules []string
	for _, ru := range g.d.rules {
		rules = append(rules, ru.name)
	}
	rq := sreq{Pkg: genPkg(i), Caller: r.P(30), Options: r.Pick("nil", "nil", "zero", "semis", "scanner")}
	for _, m := range g.marks {
		switch {
		case (m == "_mute" || m == "_unmute") && r.P(90):
			continue
		}
		rq.Fns = append(rq.Fns, genSFn(r, m, rules))
	}
	for k := 1 + r.N(4); k > 0; k-- {
		var s []string
		if g.big == nil {
			s = g.d.sentence(r, g.d.rules[0].body, append(g.conf.syms, "IDENT"))
		} else {
			s = append(s, g.sent...)
			at := max(0, len(s)-1-r.N(min(len(s), 4)+1))
			switch r.N(5) {
			case 0:
				s = s[:at]
			case 1:
				s[at] = s[r.N(len(s))]
			case 2:
				s = append(s, s[at])
			}
		}
		if _, ok := refMatch(g.d, g.d.rules[0].body, g.d.seenAs(s)); !ok {
			continue // takes too long
		}
		text := renderSyms(r, s, r.P(60)).src
		if r.P(20) { // other numbers
			text = []byte(regexp.MustCompile(`\b70\d\d\b`).ReplaceAllStringFunc(string(text), func(string) string {
				return r.Pick("0x1F", "017", "089", "0", "1e3", "99999999999999999999", "0xFFFFFFFFFFFFFFFFF", "7.", "08.5")
			}))
		}
		if r.P(5) {
			text = append(text, r.Pick("\x00", "\"", "'", "`", "/*", "@")...)
		}
		rq.Texts = append(rq.Texts, text)
	}
	if len(rq.Texts) == 0 {
		return
	}
	fns, _ := json.Marshal(rq.Fns)
	if g.big != nil {
		c.Ev("evaluations of big grammars", len(rq.Texts))
	}
	in := fmt.Sprintf("grammar %s\noptions %s, calls functions itself: %v\nfunctions %s\ntexts %q", g.text, rq.Options, rq.Caller, fns, rq.Texts)
	c.Input("%s", clip(in, 20000))
	rs := sv.ask(c, rq)
	if len(rs.Dynamic) == 0 || len(rs.Static) == 0 {
		fail2("no outcomes")
	}
	for k := range rs.Dynamic {
		d, s := rs.Dynamic[k], soutcome{}
		what := "the creation"
		if k > 0 {
			what = fmt.Sprintf("text %d", k-1)
		}
		if k >= len(rs.Static) {
			c.Failf("%d outcomes, at run time %d: %s", len(rs.Static), len(rs.Dynamic), rs.Static[len(rs.Static)-1].New)
		}
		s = rs.Static[k]
		if (s.New != "") != (d.New != "") {
			c.Failf("%s: %q, at run time %q", what, s.New, d.New)
		}
		for j := 0; j < max(len(s.Log), len(d.Log)); j++ {
			a, b := "nothing", "nothing"
			if j < len(s.Log) {
				a = s.Log[j]
			}
			if j < len(d.Log) {
				b = d.Log[j]
			}
			if a != b {
				c.Failf("%s: step %d is\n  %s\nat run time\n  %s\n(error %q, at run time %q)", what, j, clip(a, 2000), clip(b, 2000), clip(s.Err, 300), clip(d.Err, 300))
			}
		}
		if a, b := strings.Join(s.Stack, ", "), strings.Join(d.Stack, ", "); a != b {
			c.Failf("%s: the stack holds\n  %s\nat run time\n  %s", what, clip(a, 2000), clip(b, 2000))
		}
		if s.Type != d.Type || s.Err != d.Err {
			c.Failf("%s: error\n  %s %q\nat run time\n  %s %q", what, s.Type, s.Err, d.Type, d.Err)
		}
		switch {
		case k == 0 && d.New != "":
			c.Ev("interpreters refused", 1)
		case k == 0:
			c.Ev("interpreters created", 1)
		case d.Err == "":
			c.Ev("evaluations ok", 1)
		case strings.HasPrefix(d.Type, "panic RuntimeError"), strings.HasPrefix(d.Type, "RuntimeError"):
			c.Ev("runtime errors", 1)
		case strings.HasPrefix(d.Type, "panic "):
			c.Ev("evaluations that panic", 1)
		default:
			c.Ev("evaluations that fail", 1)
		}
		for _, l := range d.Log {
			switch {
			case l[0] == '<':
				c.Ev("saved code evaluated", 1)
			case strings.HasPrefix(l, "swallowed"):
				c.Ev("failures swallowed", 1)
			case strings.HasPrefix(l, "popargs"):
				c.Ev("values popped", 1)
			case strings.Contains(l, "ctx "):
				c.Ev("contexts passed", 1)
			case strings.Contains(l, "(") && !strings.HasPrefix(l, ">"):
				c.Ev("calls", 1)
			}
		}
		if len(d.Log) > 0 {
			c.Seen(in)
		}
	}
}

func checkStaticCalc(c *Case) {
	r := c.R
	sv := get42(c)
	c.Input("the package number")
	if b := sv.bad[len(sv.bad)-1]; b != "" {
		c.Failf("%s", b)
	}
	d := *calcDefs["number"]
	d.name = "the static calculator"
	d.eval = func(c *Case, text string) (interface{}, error) {
		v := sv.ask(c, sreq{Calc: true, Texts: [][]byte{[]byte(text)}}).Vals
		if len(v) != 1 {
			fail2("%v", v)
		}
		if s := strings.TrimPrefix(v[0], "value "); s != v[0] {
			b, err := strconv.ParseUint(s, 16, 64)
			if err != nil {
				fail2("%v", err)
			}
			c.Ev("values of the static calculator", 1)
			return math.Float64frombits(b), nil
		}
		return nil, errors.New(v[0])
	}
	in := ""
	for i := 1 + r.N(4); i > 0; i-- {
		text, ast := d.line(r, 1+r.N(5))
		in += fmt.Sprintf("%q ", text)
		c.Input("%s", in)
		d.checkLine(c, text, ast)
	}
	c.Seen(in)
}

func init() {
	register(&Prop{ID: "C42",
		Rule:    "interp: packages of random grammars with marks are made by tplgen -i and built; for random functions of all signatures (stack, interpreter, values, contexts, errors, useless ones) the static interpreter and the one made at run time evaluate the same sentences, damaged ones included, with all options; every function records its arguments, fails at planned calls and evaluates saved code. calc: the static interpreter of the package number, made by its own directive, against the reference of the calculator. A case counts when functions were called",
		MustSee: []string{"calls", "contexts passed", "values popped", "saved code evaluated", "failures swallowed", "interpreters created", "interpreters refused", "evaluations ok", "evaluations that fail", "evaluations that panic", "runtime errors", "evaluations of big grammars", "values of the static calculator"},
		Assume:  []string{"rule names as in C28", "functions with a parameter *interpreter.FileLine (which only the static interpreter knows) are left out", "the texts of refusals at creation may differ"},
		Setup:   static42Setup,
		Parts: []*Part{
			{Name: "interp", Quick: 6000, Thorough: 150000, Run: checkStaticInterp},
			{Name: "calc", Quick: 3000, Thorough: 60000, Run: checkStaticCalc},
		}})
}
