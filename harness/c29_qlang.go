// C29-C38: programs of qlang.
package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"syscall"

	"github.com/qiniu/text/tpl/qlang"
)

// qprog makes a case that runs a random program with the given weights.
func qprog(w gweights) func(c *Case) {
	return func(c *Case) {
		r := c.R
		for try := 0; try < 5; try++ {
			w := w
			if c.Thorough() {
				w.stmts += r.N(8)
				w.nest += r.N(3)
			}
			g := newQgen(r, w)
			s := &qsession{semis: r.P(70)}
			file := ""
			if r.P(30) {
				file = r.Pick("a.ql", "/x/b.ql", "c", "dir/日本.ql", "c:1")
			}
			s.add(r, g.program(), file, r.P(10))
			if s.run(c, qengine(s.semis)) {
				c.Seen(s.texts[0])
				return
			}
		}
	}
}

// ---------------------------------------------------------------- C29: operators

// gridExprs are values of every kind.
func gridExprs() []qx {
	v := func(n string) qx { return &xVar{n} }
	f := func(s string) qx { return &xLit{s, mustFloat(s)} }
	minInt := &xBin{"-", &xUn{"-", &xLit{"9223372036854775807", 9223372036854775807}}, xi(1)}
	l := []qx{xi(0), xi(1), &xUn{"-", xi(1)}, xi(2), &xUn{"-", xi(7)}, xi(97), xi(255), xi(256), &xLit{"9223372036854775807", 9223372036854775807}, minInt, &xLit{"9007199254740993", 9007199254740993},
		f("0.0"), &xUn{"-", f("0.0")}, f("1.0"), f("1.5"), &xUn{"-", f("2.5")}, f("97.0"), f("1e300"), f("9007199254740992.0"),
		&xBin{"/", f("0.0"), f("0.0")}, &xBin{"/", f("1.0"), f("0.0")}, &xUn{"-", &xBin{"/", f("1.0"), f("0.0")}},
		&xLit{"'a'", byte('a')}, &xLit{`'\x00'`, byte(0)}, callOf("byte", xi(255)), callOf("byte", xi(1)),
		xs(""), xs("a"), xs("b"), xs("ab"), xs("97"), xs("é"),
		v("true"), v("false"), v("nil"), v("undefined"),
		&xList{[]qx{xi(1), xi(2)}}, &xList{[]qx{f("1.5")}}, &xList{[]qx{xs("a")}}, &xList{}, &xList{[]qx{xi(1), xs("a")}}, callOf("slice", xs("byte"), xi(2)),
		&xMap{[]qx{xs("a"), xi(1)}}, &xMap{}, &xFn{body: &qblock{}}, v("len"), &xClass{}, &xNew{cls: "C0"},
	}
	return l
}

var gridOps = []string{"*", "/", "%", "+", "-", "<", ">", "<=", ">=", "==", "!=", "&&", "||",
	"+=", "-=", "*=", "/=", "%=", "max", "min", "max3", "min3", "++", "--", "!", "neg", "pos", "int", "float", "byte", "string"}

type gridState struct {
	l  qlang.Qlang
	in *rint
	n  int
}

func gridSetup() *gridState {
	if here().grid != nil {
		return here().grid
	}
	s := &qsession{}
	b := &qblock{st: []*qstmt{{kind: "=", name: "C0", e: &xClass{}}}}
	ex := gridExprs()
	for i, e := range ex {
		b.st = append(b.st, &qstmt{kind: "=", name: fmt.Sprintf("g%d", i), e: e})
	}
	s.add(&Rand{1}, b, "", true)
	g := &gridState{qengine(false), newRint(), len(ex)}
	refHost(g.in)
	g.in.max = 1 << 40
	if r := g.in.text(b); r.err != "" || r.discard != "" {
		panic("the reference fails: " + r.err + r.discard)
	}
	if err := g.l.SafeExec([]byte(s.texts[0]), ""); err != nil {
		panic("the set-up fails: " + err.Error())
	}
	g.l.Ret()
	here().grid = g
	return g
}

// checkGrid: one operator, one left operand, all right ones.
func checkGrid(c *Case) {
	g := gridSetup()
	op := gridOps[c.Idx/g.n]
	ai := c.Idx % g.n
	a := &xVar{fmt.Sprintf("g%d", ai)}
	unary := false
	for bi := 0; bi < g.n; bi++ {
		b := &xVar{fmt.Sprintf("g%d", bi)}
		var st []*qstmt
		set := &qstmt{kind: "=", name: "w", e: a}
		out := &qstmt{e: callOf("tr", xi(0), &xVar{"w"})}
		var e qx
		switch op {
		case "max", "min":
			e = callOf(op, a, b)
		case "max3", "min3":
			e = callOf(op[:3], a, b, &xVar{fmt.Sprintf("g%d", c.R.N(26))})
		case "++", "--":
			unary = true
			st = []*qstmt{set, {kind: op, name: "w"}, out}
		case "+=", "-=", "*=", "/=", "%=":
			st = []*qstmt{set, {kind: op, name: "w", e: b}, out}
		case "!":
			unary, e = true, &xUn{"!", a}
		case "neg":
			unary, e = true, &xUn{"-", a}
		case "pos":
			unary, e = true, &xUn{"+", a}
		case "int", "float", "byte", "string":
			unary, e = true, callOf(op, a)
		default:
			e = &xBin{op, a, b}
		}
		if e != nil {
			st = []*qstmt{{e: callOf("tr", xi(0), e)}}
		}
		prog := &qblock{st: st}
		s := &qsession{}
		s.add(c.R, prog, "", true)
		ex := gridExprs()
		c.Input("%s   with g%d = %s, g%d = %s", s.texts[0], ai, exprText(ex[ai]), bi, exprText(ex[bi]))
		want := g.in.text(prog)
		if want.discard != "" {
			c.Ev("unspecified: "+want.discard, 1)
			continue
		}
		want.vars = ""
		here().qtrace = here().qtrace[:0]
		err := g.l.SafeExec([]byte(s.texts[0]), "")
		checkTrace(c, want.trace, here().qtrace)
		if want.err == "" {
			c.Ev("operations with a value", 1)
			if err != nil {
				c.Failf("error %q, expected %s", err.Error(), want.ret)
			}
		} else {
			c.Ev("operations that must fail", 1)
			if err == nil {
				c.Failf("no error")
			}
			if d := errMatches(want.err[1:len(want.err)-1], err.Error()); d != "" {
				c.Failf("%s", d)
			}
		}
		v, _ := g.l.Ret()
		if want.err == "" {
			if d := snapDiff(want.ret, realSnap(v, 0)); d != "" {
				c.Failf("result %s", d)
			}
		}
		c.Seen(fmt.Sprint(op, ai, bi))
		if unary {
			return
		}
	}
}

func exprText(e qx) string {
	p := &qpr{r: &Rand{1}, plain: true}
	p.expr(e, 0)
	return p.String()
}

// ---------------------------------------------------------------- C36, C37: sessions

// checkQsession runs several texts on one engine; many fail.
func checkQsession(w gweights, garbage, many int) func(c *Case) {
	return func(c *Case) {
		r := c.R
		g := newQgen(r, w)
		s := &qsession{semis: r.P(70)}
		live := newRint() // tells which variables exist
		refHost(live)
		n := r.Range(1, many)
		if c.Thorough() {
			n = r.Range(1, 2*many)
		}
		for i := 0; i < n; i++ {
			g.budget = 120
			prog := g.program()
			if r.P(garbage) {
				k := r.N(len(prog.st) + 1)
				st := append([]*qstmt{}, prog.st[:k]...)
				st = append(st, &qstmt{e: g.garbage()})
				prog.st = append(st, prog.st[k:]...)
			}
			file := ""
			if r.P(40) {
				file = r.Pick("a.ql", "/x/b.ql", "c", "x y", "日本.ql")
			}
			s.add(r, prog, file, r.P(10))
			live.snip = i
			res := live.text(prog)
			if res.discard != "" || res.exited {
				break
			}
			var vars []gvar
			for _, v := range g.sc.vars {
				if x, ok := live.top.own[v.name]; ok && hasKind(x, v.t) {
					vars = append(vars, v)
				}
			}
			g.sc.vars = vars
			var cls []*gcls
			for _, k := range g.classes {
				if _, ok := live.top.own[k.name].(*rclass); ok {
					cls = append(cls, k)
				}
			}
			g.classes = cls
		}
		if s.run(c, qengine(s.semis)) {
			c.Ev("texts in sessions", len(s.texts))
			c.Seen(s.input())
		}
	}
}

func hasKind(v interface{}, t gk) bool {
	switch x := v.(type) {
	case int:
		return t.k == kI
	case float64:
		return t.k == kF
	case string:
		return t.k == kS
	case bool:
		return t.k == kB
	case byte:
		return t.k == kY
	case []int:
		return t.k == kLI
	case []float64:
		return t.k == kLF
	case []string:
		return t.k == kLS
	case []interface{}:
		return t.k == kLV
	case map[string]int:
		return t.k == kMI
	case map[string]interface{}:
		return t.k == kMV
	case *rfn, *rbound:
		return t.k == kFn
	case *robj:
		return t.k == kObj && x.cls != nil
	case *rclass:
		return t.k == kNil
	}
	return false
}

// garbage makes text that can't stand where a statement is expected, or can't be continued.
func (g *qgen) garbage() qx {
	r := g.r
	pick := []string{") z", "* 3", "= 5", ", x", "]", "}", "else { tr(99) }", "elif", "case 1: tr(99)", "&& tr(99)", "...", "tr", // the last is cut off below
		"fn( {", "if true { tr(99); ) }", "for { tr(99) ]", "switch 1 { case: }", "new", "new 5", "class { x }", "{ \"a\": }", "defer", "fn(a, ) { }",
		"if true {\n tr(99)\n ) }", "fn() {\n\n  5 5\n}", "switch 1 {\n case 1\n }", "class {\n fn a() {}\n fn b( {}\n}", "recover(1)", "recover", "break;", "if { }", "if true tr(99)", "default: 5", "x = ;", "x += ;"}
	k := r.N(len(pick))
	t := pick[k]
	switch t {
	case "tr":
		t = "tr 99"
	case "break;":
		t = "+;"
	}
	return &xRaw{t}
}

// checkGarbage: a syntax error anywhere at top level.
func checkStale(c *Case) {
	// a function of an earlier text that fails, and an error shown in a later text
	type stale struct{ texts []string }
	cases := [][]string{
		{"a = 1\n\nf = fn() {\n\n\n  return 1 / 0\n}\n", "f()"},
		{"f = fn() { return 1 / 0 }", "a = 1\n\nb = 2\n\nf()"},
		{"f = fn() {\n defer fn() {\n  e = recover()\n  keep(e)\n }()\n\n\n panic(\"cause\")\n}\nf()", "a = 1"},
	}
	lines := []int{6, 1, 8}
	texts := cases[c.Idx]
	c.Input("%s", strings.Join(texts, "\n--- next text\n"))
	var kept error
	l := qengine(true)
	l.SetVar("keep", func(e interface{}) { kept, _ = e.(error) })
	var err error
	for _, t := range texts {
		err = l.SafeExec([]byte(t), "")
	}
	if kept != nil {
		err = kept
	}
	if err == nil {
		c.Failf("no error")
	}
	c.Ev("errors of earlier texts", 1)
	c.Seen(fmt.Sprint(c.Idx))
	if p := fmt.Sprintf("line %d: ", lines[c.Idx]); !strings.HasPrefix(err.Error(), p) {
		c.Failf("the error %q doesn't begin with %q", err.Error(), p)
	}
}

// checkHostile: no text makes SafeExec panic, and every error can be rendered.
func checkHostile(c *Case) {
	r := c.R
	frag := []string{"if", "elif", "else", "switch", "case", "default", "fn", "class", "new", "recover", "recover()", "defer", "{", "}", "(", ")", "[", "]", ":", ",", ";", "\n", ".", "...", "=", "==", "+", "-", "*", "/", "%", "++", "--", "+=", "&&", "||", "!", "<", ">=",
		"a", "b", "this", "_x", "len", "append", "set", "get", "max", "string", "panic", "tr", "nil", "undefined", "true", "type", "mkmap", "slice", "sub", "cap", "delete", "int", "mapFrom", "sliceOf", "mapOf", "unset",
		"1", "0", "2.5", "'x'", "\"s\"", "`r`", "\"int\"", "\"string:int\"", "fn() { }", "fn(a) { a }", "class { }", "class { fn _init(x) { set(this, \"x\", x) } }", "{\"a\": 1}", "[1, 2]", "()", "(1)", "a = 1", "b = [1]", "08", "0x", "1e999", "99999999999999999999", "'é'", "'ab'", "\"\\q\"", "\"", "$", "\x00", "\xff", "// c\n", "/* c */", "# x\n", "/*", "é", "ℵ"}
	var b strings.Builder
	if r.P(30) { // damage a good program
		g := newQgen(r, gweights{tr: 5, err: 20, ctrl: 20, fns: 20, colls: 15, defers: 10, panics: 8, classes: 10, rets: 4, stmts: 4})
		s := &qsession{semis: true}
		s.add(r, g.program(), "", false)
		t := s.texts[0]
		for n := r.Range(1, 3); n > 0 && len(t) > 0; n-- {
			i := r.N(len(t))
			j := min(len(t), i+r.N(6))
			switch r.N(4) {
			case 0:
				t = t[:i] + t[j:]
			case 1:
				t = t[:i] + t[i:j] + t[i:]
			case 2:
				f := frag[r.N(len(frag))]
				t = t[:i] + " " + f + " " + t[j:]
			case 3:
				t = t[:i]
			}
		}
		b.WriteString(t)
	} else {
		for n := r.N(25); n > 0; n-- {
			b.WriteString(frag[r.N(len(frag))] + r.Pick(" ", " ", " ", "", "\n"))
		}
	}
	text := b.String()
	// statements that end the process or never end are left out
	for _, w := range []string{"return", "main", "for", "print"} {
		if strings.Contains(text, w) {
			text = strings.ReplaceAll(text, w, "a")
		}
	}
	c.Input("%s", text)
	file := r.Pick("", "", "h.ql")
	l := qengine(r.P(70))
	for i := 0; i < 2; i++ {
		if i == 1 && r.P(70) {
			text = "after = 1 + 1"
			file = ""
		}
		here().qtrace = here().qtrace[:0]
		c.Ev("hostile texts", 1)
		err := func() (err error) {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(error); !ok {
						if _, ok := e.(string); !ok { // panic(5): allowed to escape
							c.Ev("panics with other values", 1)
							err = fmt.Errorf("panic %v", e)
							l = qengine(true)
							return
						}
					}
					c.Failf("SafeExec panics: %v", e)
				}
			}()
			return l.SafeExec([]byte(text), file)
		}()
		if err == nil {
			c.Ev("hostile texts that ran", 1)
			if v, _ := l.Var("after"); text == "after = 1 + 1" && v != 2 {
				c.Failf("after it, %q gives %v", text, v)
			}
		} else {
			msg := err.Error()
			if msg == "" {
				c.Failf("empty error (%T)", err)
			}
			if !strings.HasPrefix(msg, "panic ") && !lineRe.MatchString(msg) {
				c.Failf("the error names no line: %q (%T)", msg, err)
			}
			if text == "after = 1 + 1" {
				c.Failf("after it, %q fails: %v", text, err)
			}
			if k := stackLen(l); k != 0 {
				c.Failf("%d values left on the stack", k)
			}
		}
		l.Ret()
	}
	c.Seen(text)
}

// ---------------------------------------------------------------- C38: exit status

func init() {
	children["qexit"] = func(args []string) {
		src, err := os.ReadFile(args[0])
		if err != nil {
			fail2("%v", err)
		}
		out := func(s string) { os.Stdout.WriteString(s + "\n") }
		l := qengine(args[1] == "semis")
		l.SetVar("tr", func(a ...interface{}) interface{} {
			var b strings.Builder
			for _, x := range a {
				b.WriteString(realSnap(x, 0) + " ")
			}
			out(fmt.Sprintf("%q", b.String()))
			if len(a) > 1 {
				return a[1]
			}
			return nil
		})
		if args[2] == "safe" {
			err = l.SafeExec(src, args[3])
		} else {
			func() {
				defer func() {
					if e := recover(); e != nil {
						err = fmt.Errorf("%v", e)
					}
				}()
				err = l.Exec(src, args[3])
			}()
		}
		if err != nil {
			out("FAILED " + fmt.Sprintf("%q", err.Error()))
		} else {
			out("END")
		}
		os.Exit(77)
	}
}

func checkExit(c *Case) {
	r := c.R
	w := gweights{tr: 10, err: 2, ctrl: 30, fns: 15, colls: 4, stmts: 8, defers: 22, panics: 3, ends: true}
	any := r.P(30)
	for try := 0; ; try++ {
		g := newQgen(r, w)
		s := &qsession{semis: r.P(70)}
		file := ""
		if r.P(30) {
			file = "a.ql"
		}
		s.add(r, g.program(), file, false)
		// tr is a variable here: functions see it as an outer one
		runs, ok, why := s.reference()
		if !ok {
			c.Ev("discarded: "+why, 1)
			if try > 5 {
				return
			}
			continue
		}
		want := runs[0]
		if !any && !want.exited && try < 8 {
			continue
		}
		c.Input("%s", s.input())
		f := filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("exit-%d-%d.ql", os.Getpid(), c.Idx))
		if err := os.WriteFile(f, []byte(s.texts[0]), 0o600); err != nil {
			fail2("%v", err)
		}
		defer os.Remove(f)
		mode := map[bool]string{true: "semis", false: "plain"}[s.semis]
		safe := "safe"
		if want.exited && !want.late && r.P(30) { // Exec doesn't run the deferred expressions of a text that ends
			safe = "exec"
		}
		exe, err := os.Executable()
		if err != nil {
			fail2("%v", err)
		}
		cmd := exec.Command(exe, "child", "qexit", f, mode, safe, file)
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		err = cmd.Run()
		if _, ok := err.(*exec.ExitError); err != nil && !ok {
			fail2("%v", err)
		}
		code := cmd.ProcessState.ExitCode()
		lines := strings.Split(strings.TrimSuffix(out.String(), "\n"), "\n")
		if out.Len() == 0 {
			lines = nil
		}
		end := ""
		var got []string
		for i, t := range lines {
			var x string
			if _, err := fmt.Sscanf(t, "%q", &x); err != nil {
				if i != len(lines)-1 {
					c.Failf("output %q behind the end", lines[i+1])
				}
				end = t
				break
			}
			got = append(got, x)
		}
		if errb.Len() > 0 {
			c.Failf("the process died: %.500s", errb.String())
		}
		for k, n := range want.events {
			c.Ev(k, n)
		}
		checkTrace(c, want.trace, got)
		switch {
		case want.exited:
			if end != "" || code != want.code&255 {
				c.Failf("exit status %d, last output %q, expected status %d and no further code", code, end, want.code&255)
			}
			c.Ev("exit statuses compared", 1)
			if want.code != 0 {
				c.Ev("exit statuses other than 0", 1)
			}
		case want.err != "":
			if !strings.HasPrefix(end, "FAILED") || code != 77 {
				c.Failf("ended with %q, status %d, expected an error", end, code)
			}
			c.Ev("programs that fail instead", 1)
		default:
			if end != "END" || code != 77 {
				c.Failf("ended with %q, status %d, expected the end of the text", end, code)
			}
			c.Ev("programs that don't exit", 1)
		}
		c.Seen(s.texts[0])
		return
	}
}

func init() {
	_ = reflect.TypeOf
	rule := "random well-typed programs with occasional errors, printed in many layouts with and without automatic semicolons, are run by the engine and by an independent tree-walking interpreter; the sequence of calls of a traced host function with its arguments, the final variables, the result, the error (cause, file, line) and the height of the stack are compared. Programs whose outcome depends on how append grows are discarded."
	prop := func(id, extra string, must []string, parts ...*Part) {
		register(&Prop{ID: id, Rule: extra + rule, MustSee: must, Parts: parts})
	}
	prop("C29", "grid: every operator, assignment operator and conversion applied to every pair of some 50 values of all kinds. exprs: ",
		[]string{"operations with a value", "operations that must fail", "results compared"},
		&Part{Name: "grid", Quick: len(gridOps) * len(gridExprs()), Thorough: len(gridOps) * len(gridExprs()), Exhaustive: true, Run: checkGrid},
		&Part{Name: "exprs", Quick: 3000, Thorough: 150000, Run: qprog(gweights{tr: 12, err: 4, ctrl: 4, colls: 2, stmts: 8, depth: 5})},
		bigQpart(big29, 1, 6))
	prop("C30", "", []string{"short circuits", "calls of the host function compared", "short circuits"},
		&Part{Name: "order", Quick: 6000, Thorough: 150000, Run: qprog(gweights{tr: 50, err: 3, ctrl: 16, fns: 16, colls: 16, classes: 5, defers: 5, stmts: 7, depth: 4})},
		bigQpart(big30, 1, 6))
	prop("C31", "", []string{"if branches", "else branches", "switch cases", "switch defaults", "loop rounds", "errors"},
		&Part{Name: "control", Quick: 6000, Thorough: 150000, Run: qprog(gweights{tr: 15, err: 4, ctrl: 60, fns: 6, colls: 3, stmts: 7, nest: 2})},
		bigQpart(big31, 1, 6))
	prop("C32", "arity: up to 4 parameters against up to 6 arguments, with and without a variadic parameter and a spread list, called in five ways, for empty and other bodies. kept: functions that keep their arguments. functions: ", []string{"argument counts accepted", "argument counts refused", "calls whose arguments are kept", "calls", "variadic calls", "spread calls", "outer variables", "conflicts with outer variables", "returns"},
		&Part{Name: "functions", Quick: 6000, Thorough: 150000, Run: qprog(gweights{tr: 15, err: 4, ctrl: 8, fns: 50, colls: 5, stmts: 8, nest: 2})},
		&Part{Name: "kept", Quick: 3000, Thorough: 80000, Run: checkKept(false)},
		&Part{Name: "arity", Quick: arityCases, Thorough: arityCases, Exhaustive: true, Run: checkArity},
		bigQpart(big32, 1, 6))
	prop("C33", "", []string{"returns", "deferred run", "panics", "recovered", "recover calls", "errors"},
		&Part{Name: "unwinding", Quick: 8000, Thorough: 200000, Run: qprog(gweights{tr: 12, err: 4, ctrl: 14, fns: 30, colls: 2, stmts: 8, defers: 40, panics: 14, rets: 12, nest: 1})},
		bigQpart(big33, 1, 6))
	prop("C34", "kept: methods, called through objects and stored method values, that keep their arguments. classes: ", []string{"calls whose arguments are kept", "objects", "method calls", "sets", "errors"},
		&Part{Name: "classes", Quick: 6000, Thorough: 150000, Run: qprog(gweights{tr: 10, err: 6, ctrl: 8, fns: 12, colls: 4, stmts: 9, classes: 45})},
		&Part{Name: "kept", Quick: 3000, Thorough: 80000, Run: checkKept(true)},
		bigQpart(big34, 1, 6))
	prop("C35", "grid: every collection function and expression applied to every pair of some 60 values of all kinds (further arguments at random). collections: ", []string{"appends", "sets", "map reads", "slice expressions", "errors", "operations with a value", "operations that must fail"},
		&Part{Name: "grid", Quick: len(collOps) * len(collExprs()), Thorough: 20 * len(collOps) * len(collExprs()), Run: checkCollGrid},
		&Part{Name: "collections", Quick: 6000, Thorough: 150000, Run: qprog(gweights{tr: 12, err: 6, ctrl: 10, fns: 8, colls: 60, stmts: 10})},
		bigQpart(big35, 1, 6))
	prop("C36", "sessions of several texts on one engine, each of which may fail at any depth: ",
		[]string{"texts that failed as expected", "texts that succeeded", "results compared", "syntax errors"},
		&Part{Name: "sessions", Quick: 3000, Thorough: 80000, Run: checkQsession(gweights{tr: 10, err: 25, ctrl: 20, fns: 22, colls: 12, stmts: 4, defers: 8, panics: 6, classes: 8, rets: 5}, 12, 7)},
		bigPart("big", big36dims, 1, 6, bigSessions))
	prop("C37", "sessions in which most texts fail, with runtime and syntax errors; hostile texts, which only must not escape as panics; ",
		[]string{"texts that failed as expected", "syntax errors", "hostile texts", "hostile texts that ran", "panics", "errors of earlier texts"},
		&Part{Name: "errors", Quick: 3000, Thorough: 80000, Run: checkQsession(gweights{tr: 10, err: 40, ctrl: 22, fns: 22, colls: 12, stmts: 8, defers: 10, panics: 10, classes: 8, rets: 5}, 35, 2)},
		&Part{Name: "hostile", Quick: 6000, Thorough: 200000, Run: checkHostile},
		&Part{Name: "stale", Quick: 3, Thorough: 3, Exhaustive: true, Run: checkStale},
		bigQpart(big37, 1, 6))
	prop("C38", "programs with return at top level and main blocks run in a process of their own, whose output and exit status are compared; ",
		[]string{"exit statuses compared", "exit statuses other than 0", "programs that don't exit", "deferred run"},
		&Part{Name: "exit", Quick: 2000, Thorough: 20000, Run: checkExit},
		bigPart("big", big38dims, 1, 6, bigExit))
}
