package main

// C28: tplgen. Random grammars are turned into Go packages by the command, the packages are built
// into one server program, and the matchers of the server are compared with the ones the compiler
// makes at run time from the same grammars, and with the reference.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/generator"
)

// sgram is a grammar made into a package.
type sgram struct {
	d     *gdom
	text  string
	conf  gconf
	semis bool
	big   *bigCase
	sent  []string // big grammars: a sentence
}

// staticBig are the big grammars made into packages.
var staticBig = func() (l []bigCase) {
	for i, b := range bigCases(bigGramDims(1025)) {
		if s := b.n + 3*b.dim; s%5 == 0 || b.n > 1000 && i%3 == 0 || b.n == 257 {
			l = append(l, b)
		}
	}
	return
}()

func staticGram(seed int64, i int) *sgram {
	r := caseRand(seed, "C28", "grammar", i)
	g := &sgram{semis: r.P(30)}
	if k := i - randomGrams(); k >= 0 {
		b := staticBig[k]
		g.semis, g.big = false, &b
		g.d = &gdom{byN: map[string]*grule{}, big: true}
		g.sent = bigGrams[b.dim].f(r, g.d, b.n)
		for _, ru := range g.d.rules {
			g.d.byN[ru.name] = ru
		}
		setMarks(r, g.d)
		g.text = grammarText(r, ruleToks(r, g.d))
		return g
	}
	g.conf = gconf{syms: someSyms(r), rules: 1 + r.N(5), depth: 2 + r.N(3), cut: 12, act: 25}
	if g.semis {
		g.conf.syms = append(g.conf.syms, "';'", "';'")
	}
	for {
		g.d = genDom(r, g.conf)
		setMarks(r, g.d)
		g.text = grammarText(r, ruleToks(r, g.d))
		if !strings.Contains(g.text, "`") {
			return g
		}
	}
}

// goFile writes the Go file the grammar is found in.
func (g *sgram) goFile(r *Rand, pkg string) (src string, args []string) {
	lit := "`" + g.text + "`"
	if r.P(30) || strings.ContainsAny(g.text, "\r") {
		lit = strconv.Quote(g.text)
	}
	name := "grammar"
	if r.P(30) {
		name = r.Pick("gram", "G", "myGrammar", "été")
		args = append(args, "-g", name)
	}
	decoy := "`doc = decoy`"
	switch r.N(6) {
	case 0:
		src = fmt.Sprintf("const %s = %s\n", name, lit)
	case 1:
		src = fmt.Sprintf("var %s = %s\n", name, lit)
	case 2:
		src = fmt.Sprintf("const (\n\tother = %s\n\t// comment\n\t%s = %s\n)\n", decoy, name, lit)
	case 3:
		src = fmt.Sprintf("var other, %s = %s, %s\n", name, decoy, lit)
		if r.P(60) {
			src = fmt.Sprintf("var a, %s, other = 1, %s, %s\n", name, lit, decoy)
		}
	case 4:
		src = fmt.Sprintf("func f() string {\n\tother, %s := %s, %s\n\treturn other + %s\n}\n", name, decoy, lit, name)
		if r.P(60) {
			src = fmt.Sprintf("func f() string {\n\t%s, other := %s, %s\n\treturn other + %s\n}\n", name, lit, decoy, name)
		}
	case 5:
		src = fmt.Sprintf("func f() string {\n\tx := 1\n\t_ = x\n\tvar %s = %s\n\treturn %s\n}\n", name, lit, name)
	}
	// other declarations around it, some of the same name
	noise := []string{
		"var zero string\n", "func pair() (int, string) { return 1, \"\" }\n", "func asm(n int) int\n",
		"func late() (s string) {\n\tvar NAME string\n\tNAME = fmtInt(1)\n\treturn NAME\n}\n\nfunc fmtInt(n int) string { return string(rune(n)) }\n",
		"func both() string {\n\t_, NAME := pair2()\n\treturn NAME\n}\n\nfunc pair2() (int, string) { return 1, \"doc = decoy\" }\n",
		"func locals() string {\n\tvar a, b int\n\tconst c = `doc = decoy`\n\ttype NAME struct{}\n\td := `doc = decoy`\n\tfor a < b {\n\t\ta++\n\t}\n\treturn c + d\n}\n",
		"type other3 struct{ NAME string }\n", "func (o other2) NAME() string { return \"doc = decoy\" }\n\ntype other2 int\n",
		"const (\n\tk0 = iota\n\tk1\n)\n",
	}
	r.Shuffle(len(noise), func(i, j int) { noise[i], noise[j] = noise[j], noise[i] })
	before, after := "", ""
	for _, s := range noise[:r.N(4)] {
		s = strings.Replace(s, "NAME", name, -1)
		if r.P(60) {
			before += s + "\n"
		} else {
			after += "\n" + s
		}
	}
	src = strings.Replace(src, "func f() string {\n", "func f() string {\n"+r.Pick("", "", "\tvar y, z int\n\t_, _ = y, z\n", "\tconst w = `doc = decoy`\n\tvar y int\n\t_ = y\n", "\tq := 1\n\tq++\n\tvar y = pairs\n\t_ = y\n"), 1)
	if strings.Contains(src, "pairs") {
		after += "\nvar pairs = 7\n"
	}
	src = before + src + after
	src = "package " + pkg + "\n\ntype t struct{ n int }\n\nfunc (p *t) get() int { return p.n }\n\n" + src
	return
}

// ---------------------------------------------------------------- the server

// traceSrc is compiled into the server and, by hand, below.
const serverSrc = `package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"

	"github.com/qiniu/text/tpl"
%s)

type Req struct {
	Pkg     string
	Text    []byte
	Semis   bool
	Scanner bool
	Again   bool
}

type Resp struct {
	Kind  string
	Left  int
	Err   string
	Marks []string
	Calls int
}

type cl interface{ Match([]byte, string) ([]tpl.Token, error) }

func trace(rq Req, compile func(marker func(g tpl.Grammar, mark string) tpl.Grammar, init func(), s tpl.Tokener, m tpl.ScanMode) tpl.CompileRet) (rs Resp) {
	defer func() {
		if e := recover(); e != nil {
			if me, ok := e.(*tpl.MatchError); ok {
				rs.Kind, rs.Err = "cut", me.Error()
				return
			}
			rs.Kind, rs.Err = "panic", fmt.Sprint(e)
		}
	}()
	var cr tpl.CompileRet
	marker := func(g tpl.Grammar, mark string) tpl.Grammar {
		rs.Calls++
		return tpl.Action(g, func(tokens []tpl.Token, g tpl.Grammar) {
			at := -1
			if len(tokens) > 0 {
				at = int(tokens[0].Pos) - cr.Scanner.Source().File.Base()
			}
			rs.Marks = append(rs.Marks, fmt.Sprintf("%%s@%%d+%%d len %%d", mark, at, len(tokens), g.Len()))
		})
	}
	var s tpl.Tokener
	if rq.Scanner {
		s = new(tpl.AutoKwScanner)
	}
	mode := tpl.ScanMode(0)
	if rq.Semis {
		mode = tpl.InsertSemis
	}
	cr = compile(marker, func() { rs.Marks = append(rs.Marks, "init") }, s, mode)
	if rq.Again {
		func() {
			defer func() { recover() }()
			cr.Match(rq.Text, "")
		}()
		rs.Marks = nil
	}
	next, err := cr.Match(rq.Text, "")
	if err != nil {
		rs.Kind, rs.Err = "fail", err.Error()
		return
	}
	rs.Kind, rs.Left = "ok", len(next)
	return
}

var compilers = map[string]func(marker func(g tpl.Grammar, mark string) tpl.Grammar, init func(), s tpl.Tokener, m tpl.ScanMode) tpl.CompileRet{
%s}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var rq Req
		if json.Unmarshal(line, &rq) != nil {
			os.Exit(3)
		}
		b, _ := json.Marshal(trace(rq, compilers[rq.Pkg]))
		out.Write(append(b, '\n'))
		out.Flush()
	}
}
`

type genReq struct {
	Pkg     string
	Text    []byte
	Semis   bool
	Scanner bool
	Again   bool
}

type genResp struct {
	Kind  string
	Left  int
	Err   string
	Marks []string
	Calls int
}

// dynamic does what trace in the server does with a grammar compiled at run time.
func dynamic(rq genReq, gram string) (rs genResp) {
	defer func() {
		if e := recover(); e != nil {
			if me, ok := e.(*tpl.MatchError); ok {
				rs.Kind, rs.Err = "cut", me.Error()
				return
			}
			rs.Kind, rs.Err = "panic", fmt.Sprint(e)
		}
	}()
	var cr tpl.CompileRet
	comp := &tpl.Compiler{Grammar: []byte(gram)}
	comp.Marker = func(g tpl.Grammar, mark string) tpl.Grammar {
		rs.Calls++
		return tpl.Action(g, func(tokens []tpl.Token, g tpl.Grammar) {
			at := -1
			if len(tokens) > 0 {
				at = int(tokens[0].Pos) - cr.Scanner.Source().File.Base()
			}
			rs.Marks = append(rs.Marks, fmt.Sprintf("%s@%d+%d len %d", mark, at, len(tokens), g.Len()))
		})
	}
	comp.Init = func() { rs.Marks = append(rs.Marks, "init") }
	if rq.Scanner {
		comp.Scanner = new(tpl.AutoKwScanner)
	}
	if rq.Semis {
		comp.ScanMode = tpl.InsertSemis
	}
	var err error
	if cr, err = comp.Cl(); err != nil {
		rs.Kind, rs.Err = "compile", err.Error()
		return
	}
	if rq.Again {
		func() {
			defer func() { recover() }()
			cr.Match(rq.Text, "")
		}()
		rs.Marks = nil
	}
	next, err := cr.Match(rq.Text, "")
	if err != nil {
		rs.Kind, rs.Err = "fail", err.Error()
		return
	}
	rs.Kind, rs.Left = "ok", len(next)
	return
}

const genModule = "module gendemo\n\ngo 1.22\n\nrequire github.com/qiniu/text v0.0.0\n\nreplace github.com/qiniu/text => /repo\n"

func envSeed() int64 {
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	return seed
}

func genCount() int { return randomGrams() + len(staticBig) }

func randomGrams() int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 1500
	}
	return 150
}

func genPkg(i int) string { return fmt.Sprintf("g%04d", i) }

var rePkg = regexp.MustCompile(`(?m)^# gendemo/(g\d+)`)

// genSetup makes the packages and builds the server; what fails is noted for the workers.
func genSetup(dir string) (string, error) {
	if _, err := buildCmds(dir, map[string]string{"tplgen": "./tpl/cmd/tplgen"}); err != nil {
		return "", err
	}
	mod := filepath.Join(dir, "mod")
	os.MkdirAll(mod, 0755)
	if err := os.WriteFile(filepath.Join(mod, "go.mod"), []byte(genModule), 0644); err != nil {
		return "", err
	}
	n := genCount()
	bad := make([]string, n)
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			g := staticGram(envSeed(), i)
			r := caseRand(envSeed(), "C28", "file", i)
			pd := filepath.Join(mod, genPkg(i))
			os.MkdirAll(pd, 0755)
			src, args := g.goFile(r, genPkg(i))
			os.WriteFile(filepath.Join(pd, "def.go"), []byte(src), 0644)
			if strings.Contains(src, "func asm(") { // declared without a body
				os.WriteFile(filepath.Join(pd, "asm.s"), nil, 0644)
			}
			out := "static_compiler.go"
			if r.P(30) {
				out = "zz_static.go"
				args = append(args, "-f", out)
			}
			if r.P(50) { // an older output is replaced
				old := strings.Repeat("// old\n", r.N(3000)) + "package old\n"
				os.WriteFile(filepath.Join(pd, out), []byte(old), 0644)
			}
			cmd := exec.Command(filepath.Join(dir, "bin", "tplgen"), args...)
			cmd.Dir = pd
			if b, err := cmd.CombinedOutput(); err != nil {
				bad[i] = fmt.Sprintf("tplgen %v: %v\n%s\nsource\n%s", args, err, b, src)
			} else if _, err := os.Stat(filepath.Join(pd, out)); err != nil {
				bad[i] = fmt.Sprintf("tplgen %v writes nothing: %s", args, b)
			}
		}(i)
	}
	wg.Wait()
	for round := 0; ; round++ {
		var imports, table strings.Builder
		left := 0
		for i := range bad {
			if bad[i] == "" {
				left++
				fmt.Fprintf(&imports, "\t\"gendemo/%s\"\n", genPkg(i))
				fmt.Fprintf(&table, "\t%q: func(marker func(g tpl.Grammar, mark string) tpl.Grammar, init func(), s tpl.Tokener, m tpl.ScanMode) tpl.CompileRet {\n"+
					"\t\tc := %s.StaticCompiler{Marker: marker, Init: init, Scanner: s, ScanMode: m}\n\t\treturn c.Cl()\n\t},\n", genPkg(i), genPkg(i))
			}
		}
		if left == 0 || round > 20 {
			break
		}
		os.WriteFile(filepath.Join(mod, "main.go"), []byte(fmt.Sprintf(serverSrc, imports.String(), table.String())), 0644)
		cmd := exec.Command("go", "build", "-gcflags=-N -l", "-o", filepath.Join(dir, "bin", "server"), ".")
		cmd.Dir = mod
		b, err := cmd.CombinedOutput()
		if err == nil {
			break
		}
		l := rePkg.FindAllStringSubmatch(string(b), -1)
		l = append(l, regexp.MustCompile(`(?m)^main\.go.*gendemo/(g\d+)`).FindAllStringSubmatch(string(b), -1)...)
		l = append(l, regexp.MustCompile(`(?m)^(g\d+)/`).FindAllStringSubmatch(string(b), -1)...)
		if len(l) == 0 {
			return "", fmt.Errorf("go build: %v\n%.3000s", err, b)
		}
		for _, m := range l {
			i, _ := strconv.Atoi(m[1][1:])
			if bad[i] == "" {
				bad[i] = fmt.Sprintf("the code does not build: %.2000s", b)
			}
		}
	}
	b, _ := json.Marshal(bad)
	if err := os.WriteFile(filepath.Join(dir, "bad.json"), b, 0644); err != nil {
		return "", err
	}
	return dir, nil
}

type genServer struct {
	bad []string
	in  io.Writer
	out *bufio.Reader
	cmd *exec.Cmd
}

var theGenServer *genServer

func getGenServer() *genServer {
	if theGenServer != nil {
		return theGenServer
	}
	dir := os.Getenv("VERIF_SETUP")
	s := &genServer{}
	b, err := os.ReadFile(filepath.Join(dir, "bad.json"))
	if err == nil {
		err = json.Unmarshal(b, &s.bad)
	}
	if err != nil {
		fail2("%v", err)
	}
	s.cmd = exec.Command(filepath.Join(dir, "bin", "server"))
	s.in, err = s.cmd.StdinPipe()
	if err != nil {
		fail2("%v", err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		fail2("%v", err)
	}
	s.out = bufio.NewReaderSize(out, 1<<20)
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		fail2("%v", err)
	}
	theGenServer = s
	return s
}

func (s *genServer) ask(c *Case, rq genReq) (rs genResp) {
	b, _ := json.Marshal(rq)
	s.in.Write(append(b, '\n'))
	line, err := s.out.ReadBytes('\n')
	if err == nil {
		err = json.Unmarshal(line, &rs)
	}
	if err != nil {
		theGenServer = nil
		c.Failf("the program with the generated matchers ends: %v, %v", err, s.cmd.Wait())
	}
	return
}

// checkStatic: case i looks at package i modulo their number.
func checkStatic(c *Case) {
	r := c.R
	i := c.Idx % genCount()
	g := staticGram(c.w.seed, i)
	c.Input("grammar %s", clip(g.text, 3000))
	bad := ""
	if b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_SETUP"), "bad.json")); err == nil {
		var l []string
		json.Unmarshal(b, &l)
		bad = l[i]
	} else {
		fail2("%v", err)
	}
	if bad != "" {
		c.Failf("%s", bad)
	}
	sv := getGenServer()
	c.Ev("generated matchers looked at", 1)
	for k := 0; k < 8; k++ {
		var s []string
		if g.big == nil {
			s = g.d.sentence(r, g.d.rules[0].body, append(g.conf.syms, "IDENT"))
		} else {
			s = append(s, g.sent...)
			at := max(0, len(s)-1-r.N(min(len(s), 4)+1))
			switch k {
			case 0:
			case 1:
				s = s[:at]
			case 2:
				s[at] = s[r.N(len(s))]
			case 3:
				s = append(s, s[at])
			default:
				continue
			}
			c.Ev("big grammars", 1)
		}
		rq := genReq{Pkg: genPkg(i), Semis: g.semis && r.P(70), Scanner: r.P(30), Again: r.P(20)}
		var ref gres
		var ok bool
		if hasSemi(s) || rq.Semis {
			var b strings.Builder
			for _, x := range s {
				switch {
				case x == "';'" && r.P(60):
					b.WriteString("\n")
				default:
					b.WriteString(symText(r, x) + " ")
				}
			}
			rq.Text = []byte(b.String())
			if _, ok = refMatch(g.d, g.d.rules[0].body, g.d.seenAs(s)); !ok {
				continue
			}
			ok = false
		} else {
			t := renderSyms(r, s, r.P(20))
			rq.Text = t.src
			if ref, ok = refMatch(g.d, g.d.rules[0].body, g.d.seenAs(s)); !ok {
				continue
			}
		}
		c.Input("grammar %s\nsemis %v, text %s", clip(g.text, 3000), rq.Semis, clip(q(string(rq.Text)), 2000))
		dyn := dynamic(rq, g.text)
		sta := sv.ask(c, rq)
		if dyn.Kind == "compile" || dyn.Kind == "panic" {
			c.Failf("the run-time compiler: %s", dyn.Err)
		}
		if sta.Kind != dyn.Kind || sta.Left != dyn.Left {
			c.Failf("the generated matcher: %s (%d tokens left, %s), the compiled one: %s (%d tokens left, %s)", sta.Kind, sta.Left, sta.Err, dyn.Kind, dyn.Left, dyn.Err)
		}
		if a, b := strings.Join(sta.Marks, "; "), strings.Join(dyn.Marks, "; "); a != b {
			c.Failf("the generated matcher marks\n  %s\nthe compiled one\n  %s", clip(a, 2000), clip(b, 2000))
		}
		if sta.Calls != dyn.Calls {
			c.Failf("the marker is called %d times, at run time %d times", sta.Calls, dyn.Calls)
		}
		if ok && (sta.Kind != ref.kind || sta.Kind == "ok" && len(s)-sta.Left != ref.n) {
			c.Failf("the generated matcher: %s (%d tokens left, %s), want %v", sta.Kind, sta.Left, sta.Err, ref)
		}
		if ok {
			c.Ev("texts the reference knows", 1)
		} else {
			c.Ev("texts with semicolons", 1)
		}
		c.Ev("texts "+sta.Kind, 1)
		c.Ev("marks", len(sta.Marks)-1)
		c.Seen(g.text + string(rq.Text))
	}
}

// bigRefuse: big grammars through both compilers.
func bigRefuse(c *Case, b bigCase) {
	r := c.R
	d := &gdom{byN: map[string]*grule{}, big: true}
	bigGrams[b.dim].f(r, d, b.n)
	setMarks(r, d)
	rules := ruleToks(r, d)
	for k := 0; k < 3; k++ {
		l := append([][]string{}, rules...)
		if k > 0 {
			i := r.N(len(rules))
			toks := append([]string{}, rules[i]...)
			at := max(0, len(toks)-1-r.N(6))
			toks[at] = r.Pick("(", ")", "|", "%", "/", "2", "UNKNOWN", "nowhere", "!", "=", "'c'", "IDENT")
			l[i] = toks
		}
		text := grammarText(r, l)
		c.Input("%s at size %d: grammar %s", b.name, b.n, clip(text, 3000))
		if ok, vague, _ := wellFormed(text); ok && vague {
			continue
		}
		bothCompile(c, text)
	}
}

func hasSemi(s []string) bool {
	for _, x := range s {
		if x == "';'" {
			return true
		}
	}
	return false
}

// symText writes one token.
func symText(r *Rand, s string) string {
	switch s {
	case "IDENT":
		return "v" + strconv.Itoa(r.N(100)) + "q"
	case "INT":
		return strconv.Itoa(7000 + r.N(100))
	case "FLOAT":
		return strconv.Itoa(7000+r.N(100)) + ".25"
	case "CHAR":
		return "'x'"
	case "STRING":
		return `"s"`
	}
	return s[1 : len(s)-1]
}

// checkRefuse: what the compiler refuses, the generator refuses; what it compiles is Go code.
func checkRefuse(c *Case) {
	r := c.R
	conf := gconf{syms: someSyms(r), rules: 1 + r.N(4), depth: 1 + r.N(3), cut: 12, act: 15}
	d := genDom(r, conf)
	setMarks(r, d)
	rules := ruleToks(r, d)
	pool := []string{"(", ")", "|", "*", "+", "?", "@", "~", "%", "%=", "/", "!", "=", ";", "doc", "expr", "x", "zz", "1", "2", "0", "01", "1.0", "IDENT", "INT", "Foo", "ADD", "EOF", "ILLEGAL", "COMMENT", "IMAG", "'+'", "'a'", `"<<"`, `"+"`, `"kw"`, ",", "{", "]", "mark", "'<<'", "';'", `"..."`, "'&'", "1i", "true"}
	for n := r.W(25, 55, 20); n > 0; n-- {
		k := r.N(len(rules))
		ts := append([]string{}, rules[k]...)
		i := r.N(len(ts))
		switch r.N(6) {
		case 0:
			ts = append(ts[:i], ts[i+1:]...)
		case 1:
			ts[i] = pool[r.N(len(pool))]
		case 2:
			ts = append(ts[:i], append([]string{pool[r.N(len(pool))]}, ts[i:]...)...)
		case 3:
			rules = append(rules[:k:k], rules[k+1:]...)
			ts = nil
		case 4:
			rules = append(rules, ts)
			ts = nil
		case 5:
			j := r.N(len(ts))
			ts[i], ts[j] = ts[j], ts[i]
		}
		if ts != nil {
			rules[k] = ts
		}
		var rest [][]string
		for _, ts := range rules {
			if len(ts) > 0 {
				rest = append(rest, ts)
			}
		}
		if rules = rest; len(rules) == 0 {
			break
		}
	}
	text := grammarText(r, rules)
	c.Input("grammar %q", text)
	if ok, vague, _ := wellFormed(text); ok && vague {
		c.Ev("grammars the notation doesn't decide", 1)
		return
	}
	refused := bothCompile(c, text)
	c.Seen(text)
	if c.Idx%50 != 0 || !refused || strings.Contains(text, "`") {
		return
	}
	// the command
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "gen.")
	if err != nil {
		fail2("%v", err)
	}
	defer os.RemoveAll(dir)
	os.WriteFile(filepath.Join(dir, "def.go"), []byte("package def\n\nconst grammar = "+strconv.Quote(text)+"\n"), 0644)
	os.WriteFile(filepath.Join(dir, "static_compiler.go"), []byte("package def\n"), 0644)
	cmd := exec.Command(filepath.Join(os.Getenv("VERIF_SETUP"), "bin", "tplgen"))
	cmd.Dir = dir
	out, cerr := cmd.CombinedOutput()
	if cerr == nil {
		c.Failf("tplgen ends with status 0 and output %q", out)
	}
	if len(out) == 0 {
		c.Failf("tplgen prints no error")
	}
	if b, err := os.ReadFile(filepath.Join(dir, "static_compiler.go")); err == nil && strings.Contains(string(b), "StaticCompiler") {
		c.Failf("tplgen fails but writes a compiler")
	}
	c.Ev("grammars refused by the command", 1)
}

// bothCompile tells whether both compilers refuse a grammar.
func bothCompile(c *Case, text string) bool {
	_, err, pan := tryCompile(text)
	var code string
	var gerr error
	var gpan interface{}
	func() {
		defer func() { gpan = recover() }()
		code, gerr = generator.GenStaticCode(text)
	}()
	refused := err != nil || pan != nil
	grefused := gerr != nil || gpan != nil
	if refused && !grefused {
		c.Failf("the compiler refuses the grammar (%v %v), the generator does not", err, pan)
	}
	if !refused && grefused {
		c.Failf("the generator refuses the grammar (%v %v), the compiler does not", gerr, gpan)
	}
	if refused {
		c.Ev("grammars both refuse", 1)
	} else {
		if _, err := parser.ParseFile(token.NewFileSet(), "x.go", "package x\n"+code, 0); err != nil {
			c.Failf("the code is no Go code: %v\n%s", err, code)
		}
		c.Ev("grammars both take", 1)
	}
	return refused
}

func tryCompile(text string) (cr tpl.CompileRet, err error, pan interface{}) {
	defer func() { pan = recover() }()
	cr, err = (&tpl.Compiler{Grammar: []byte(text)}).Cl()
	return
}

func init() {
	register(&Prop{
		ID:   "C28",
		Rule: "random grammars in Go files of several forms go through tplgen, the packages are built and matched with sentences, damaged and random texts, beside the run-time compiler and the reference; damaged grammars go through both compilers; non-trivial: a text was matched or a grammar was judged",
		MustSee: []string{"generated matchers looked at", "texts ok", "texts fail", "texts cut", "texts with semicolons", "texts the reference knows", "marks", "big grammars",
			"grammars both refuse", "grammars both take", "grammars refused by the command"},
		Assume: []string{"rule names are Go identifiers other than tpl, cmplr, ret and predeclared ones the code uses (new, nil, true)",
			"for static interpreters (tplgen -i) see C42"},
		Setup: genSetup,
		Parts: []*Part{
			{Name: "static", Quick: 4000, Thorough: 150000, Run: checkStatic},
			{Name: "refuse", Quick: 20000, Thorough: 400000, Run: checkRefuse},
			bigPart("big", bigGramDims(2049), 1, 8, bigRefuse),
		},
	})
}
