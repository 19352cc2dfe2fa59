package main

// Sizes for C17..C24: interpreters, calls, literals, calculators.

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/qiniu/text/tpl"
	ip "github.com/qiniu/text/tpl/interpreter"
	iu "github.com/qiniu/text/tpl/interpreter.util"
)

// ---------------------------------------------------------------- C17

// bipt is an interpreter that logs calls.
type bipt struct {
	name    string
	grammar string
	table   map[string]interface{}
	stk     *rstk
	log     *[]string
}

func (p *bipt) Grammar() string                 { return p.grammar }
func (p *bipt) Fntable() map[string]interface{} { return p.table }
func (p *bipt) Stack() iu.Stack                 { return p.stk }

func newBipt(grammar string) *bipt {
	return &bipt{name: "one", grammar: grammar, table: map[string]interface{}{}, stk: &rstk{}, log: new([]string)}
}

func (p *bipt) add(format string, a ...interface{}) {
	*p.log = append(*p.log, fmt.Sprintf(format, a...))
}

func (p *bipt) engine(c *Case) *ip.Engine {
	e, err := ip.New(p, nil)
	if err != nil {
		c.Failf("New: %v", err)
	}
	return e
}

// eval evaluates a text and turns panics with runtime errors into errors.
func bigEval(c *Case, e *ip.Engine, text string, file string) (err error) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case *ip.RuntimeError:
			err = x
		case *tpl.MatchError:
			err = x
		default:
			panic(x)
		}
	}()
	return e.MatchExactly([]byte(text), file)
}

func sameLog(c *Case, what string, got, want []string) {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			c.Failf("%s: %d of %d recorded, %q is missing", what, len(got), len(want), want[i])
		case i >= len(want):
			c.Failf("%s: %d recorded, want %d; one too many is %q", what, len(got), len(want), got[i])
		case got[i] != want[i]:
			c.Failf("%s: number %d of %d is %q, want %q", what, i, len(want), got[i], want[i])
		}
	}
	c.Ev("calls", len(got))
}

func noErr(c *Case, err error) {
	if err != nil {
		c.Failf("the evaluation fails: %.300s", err.Error())
	}
}

var bigInterpDims = []bigDim{
	{"calls", 70001}, {"marks", 2049}, {"rules", 1025}, {"items of a counted repetition", 70001}, {"counts", 20001},
	{"tokens of a run", 70001}, {"line of a runtime error", 70001}, {"nested matches", 1025}, {"values on the stack", 70001},
	{"parameters", 50}, {"results", 40}, {"evaluations", 4097}, {"length of a mark", 5001}, {"length of a literal", 70001},
	{"calls before a failing one", 20001}, {"contexts kept", 5001}, {"alternatives with marks", 513},
}

func bigInterp(c *Case, b bigCase) {
	r := c.R
	n := b.n
	var want []string
	w := func(format string, a ...interface{}) { want = append(want, fmt.Sprintf(format, a...)) }
	switch b.name {
	case "calls":
		p := newBipt(`doc = *(IDENT/id | INT/num | '+'/plus)`)
		p.table["$id"] = func(p *bipt, s string) { p.add("id %s", s) }
		p.table["$num"] = func(p *bipt, v int64) { p.add("num %d", v) }
		p.table["$plus"] = func(p *bipt) { p.add("plus") }
		e := p.engine(c)
		text := times(n, func(i int) string {
			switch r.N(3) {
			case 0:
				w("id a%d", i)
				return fmt.Sprintf("a%d ", i)
			case 1:
				w("num %d", i)
				return fmt.Sprintf("%d ", i)
			}
			w("plus")
			return "+ "
		})
		noErr(c, bigEval(c, e, text, ""))
		sameLog(c, "calls", *p.log, want)
	case "marks", "alternatives with marks":
		g := "doc = *("
		p := newBipt("")
		for i := 0; i < n; i++ {
			i := i
			if i > 0 {
				g += " | "
			}
			g += fmt.Sprintf(`"k%d"/m%d`, i, i)
			p.table[fmt.Sprintf("$m%d", i)] = func(p *bipt, s string) { p.add("m%d %s", i, s) }
		}
		p.grammar = g + ")"
		e := p.engine(c)
		text := times(60, func(j int) string {
			i := r.N(n)
			if j == 0 {
				i = n - 1
			}
			w("m%d k%d", i, i)
			return fmt.Sprintf("k%d ", i)
		})
		noErr(c, bigEval(c, e, text, ""))
		sameLog(c, "calls", *p.log, want)
	case "rules":
		p := newBipt("")
		g := "doc = r0\n"
		for i := 0; i < n; i++ {
			i := i
			g += fmt.Sprintf("r%d = INT/m%d ?r%d\n", i, i, i+1)
			p.table[fmt.Sprintf("$m%d", i)] = func(p *bipt, v int) { p.add("m%d %d", i, v) }
		}
		p.grammar = g + fmt.Sprintf("r%d = IDENT/last\n", n)
		p.table["$last"] = func(p *bipt) { p.add("last") }
		e := p.engine(c)
		text := times(n, func(i int) string { w("m%d %d", i, i); return fmt.Sprintf("%d ", i) }) + "x"
		w("last")
		noErr(c, bigEval(c, e, text, ""))
		sameLog(c, "calls", *p.log, want)
	case "items of a counted repetition":
		k := r.N(3)
		p := newBipt([]string{`doc = (*IDENT)/Count`, `doc = (+(IDENT ?','))/Count`, `doc = (IDENT % ',')/Count`}[k])
		p.table["$Count"] = func(s *rstk, n int, x *iu.Context) {
			s.vals = append(s.vals, n, len(x.Src.([]tpl.Token)))
		}
		e := p.engine(c)
		text := strings.TrimSuffix(strings.Repeat("x,", n), ",")
		toks := 2*n - 1
		if k == 0 {
			text, toks = strings.Repeat("x ", n), n
		}
		noErr(c, bigEval(c, e, text, ""))
		if g, w := fmt.Sprint(p.stk.vals), fmt.Sprint([]int{n, toks}); g != w {
			c.Failf("%s: count and tokens are %s, want %s", p.grammar, g, w)
		}
		c.Ev("calls", 1)
	case "counts":
		p := newBipt(`doc = *('(' *IDENT/Count ')')`)
		p.table["$Count"] = func(p *bipt, n int) { p.add("%d", n) }
		e := p.engine(c)
		text := times(n, func(int) string {
			k := r.N(4)
			w("%d", k)
			return "(" + strings.Repeat("x ", k) + ")"
		})
		noErr(c, bigEval(c, e, text, ""))
		sameLog(c, "counts", *p.log, want)
	case "tokens of a run":
		p := newBipt(`doc = INT (*IDENT)/run ?INT`)
		var run []tpl.Token
		var ctx *iu.Context
		p.table["$run"] = func(p *bipt, src interface{}, x *iu.Context) { run, ctx = src.([]tpl.Token), x }
		e := p.engine(c)
		sep := r.Pick(" ", "\n", "  ")
		mid := times(n, func(i int) string { return fmt.Sprintf("x%d%s", i, sep) })
		pre := strings.Repeat("\n", r.N(3)) + "7 "
		noErr(c, bigEval(c, e, pre+mid+"8", "f.q"))
		if len(run) != n || len(ctx.Src.([]tpl.Token)) != n {
			c.Failf("the run has %d tokens, the context %d, want %d", len(run), len(ctx.Src.([]tpl.Token)), n)
		}
		for i, t := range run {
			if s := fmt.Sprintf("x%d", i); t.Literal != s {
				c.Failf("token %d is %q, want %q", i, t.Literal, s)
			}
		}
		base := e.Scanner.Source().File.Base()
		if a, z := int(ctx.Pos)-base, int(ctx.End)-base; a != len(pre) || z != len(pre)+len(strings.TrimRight(mid, " \n")) {
			c.Failf("the context delimits %d..%d, want %d..%d", a, z, len(pre), len(pre)+len(strings.TrimRight(mid, " \n")))
		}
		if s := string(e.Source(run)); !strings.HasPrefix(s, strings.TrimRight(mid, " \n")) || len(s) > len(mid) {
			c.Failf("Source gives %d bytes, %.40q..., want %d, %.40q...", len(s), s, len(mid), mid)
		}
		l := strings.Count(pre, "\n") + 1
		if f := e.FileLine(run); f.File != "f.q" || f.Line != l {
			c.Failf("FileLine gives %v, want line %d", f, l)
		}
		at := r.N(n)
		if sep == "\n" {
			l += at
		}
		if f := e.FileLine(run[at:]); f.Line != l {
			c.Failf("FileLine of token %d gives %v, want line %d", at, f, l)
		}
		c.Ev("calls", 1)
	case "line of a runtime error":
		how := r.N(2)
		p := newBipt(`doc = *(IDENT | INT/fail)`)
		p.table["$fail"] = func(p *bipt) error {
			if how == 0 {
				panic("boom")
			}
			return errors.New("boom")
		}
		e := p.engine(c)
		nl := r.Pick("\n", "x\n", "\r\n", "// c\n", "/* c */ x\n")
		file := r.Pick("", "dir/f.q")
		err := bigEval(c, e, strings.Repeat(nl, n-1)+"x 1 x\n", file)
		w := fmt.Sprintf("line %d: runtime error: boom", n)
		if file != "" {
			w = fmt.Sprintf("%s:%d: runtime error: boom", file, n)
		}
		if err == nil || err.Error() != w {
			c.Failf("got %v, want %s", err, w)
		}
		c.Ev("runtime errors far down", 1)
	case "nested matches":
		p := newBipt("doc = x; x = INT/num | par/up; par = '(' x ')'")
		p.table["$num"] = func(p *bipt, v int) { p.add("num %d", v) }
		p.table["$up"] = func(p *bipt, src interface{}) { p.add("up %d", len(src.([]tpl.Token))) }
		e := p.engine(c)
		w("num 5")
		for i := 1; i <= n; i++ {
			w("up %d", 2*i+1)
		}
		noErr(c, bigEval(c, e, strings.Repeat("(", n)+"5"+strings.Repeat(")", n), ""))
		sameLog(c, "calls", *p.log, want)
	case "values on the stack":
		p := newBipt("doc = nums pluses; nums = *(INT/push); pluses = *('+'/add)")
		p.table["$push"] = func(s *rstk, v int) { s.vals = append(s.vals, v) }
		p.table["$add"] = func(a, b int) int { return 2*a - b }
		e := p.engine(c)
		k := min(n-1, r.N(min(3000, 30000000/n)))
		if r.P(30) && n < 5000 {
			k = n - 1
		}
		text := times(n, func(i int) string { return fmt.Sprintf("%d ", i%1000) })
		noErr(c, bigEval(c, e, text+strings.Repeat("+ ", k), ""))
		acc := (n - 1) % 1000
		for i := 0; i < k; i++ {
			acc = 2*((n-2-i)%1000) - acc
		}
		if len(p.stk.vals) != n-k || p.stk.vals[n-k-1] != acc {
			c.Failf("after %d values and %d calls the stack has %d values, the last is %v; want %d, %d", n, k, len(p.stk.vals), p.stk.vals[len(p.stk.vals)-1], n-k, acc)
		}
		for i, v := range p.stk.vals[:n-k-1] {
			if v != i%1000 {
				c.Failf("value %d of the stack is %v", i, v)
			}
		}
		c.Ev("calls", n+k)
	case "parameters", "results":
		var in, out []reflect.Type
		for i := 0; i < n; i++ {
			in = append(in, []reflect.Type{tFloat, tIntf, tInt}[r.N(3)])
		}
		if b.name == "results" {
			in = in[:r.N(3)]
			for i := 0; i < n; i++ {
				out = append(out, tInt)
			}
		}
		var got []string
		fn := reflect.MakeFunc(reflect.FuncOf(in, out, false), func(args []reflect.Value) (ret []reflect.Value) {
			for _, a := range args {
				got = append(got, fmt.Sprint(a.Interface()))
			}
			for i := range out {
				ret = append(ret, reflect.ValueOf(7*i))
			}
			return
		})
		if len(in) == 0 {
			in = append(in, tInt)
			fn = reflect.MakeFunc(reflect.FuncOf(in, out, false), func(args []reflect.Value) (ret []reflect.Value) {
				got = append(got, fmt.Sprint(args[0].Interface()))
				for i := range out {
					ret = append(ret, reflect.ValueOf(7*i))
				}
				return
			})
		}
		p := newBipt("doc = nums '+'/f; nums = *(INT/push)")
		p.table["$push"] = func(s *rstk, v int) { s.vals = append(s.vals, v) }
		p.table["$f"] = fn.Interface()
		e := p.engine(c)
		noErr(c, bigEval(c, e, times(len(in)+2, func(i int) string { return fmt.Sprintf("%d ", i) })+"+", ""))
		for i := range in {
			w("%d", i+2)
		}
		sameLog(c, "arguments", got, want)
		ws := []interface{}{0, 1}
		for i := range out {
			ws = append(ws, 7*i)
		}
		if fmt.Sprint(p.stk.vals) != fmt.Sprint(ws) {
			c.Failf("the stack is %v, want %v", p.stk.vals, ws)
		}
	case "evaluations":
		p := newBipt("doc = *(INT/num | IDENT/id | '!'/fail)")
		p.table["$num"] = func(s *rstk, v int) { s.vals = append(s.vals, v) }
		p.table["$id"] = func(p *bipt, x *iu.Context) {
			f := x.Engine.FileLine(x.Src)
			p.add("%s %s:%d", x.Src.([]tpl.Token)[0].Literal, f.File, f.Line)
		}
		p.table["$fail"] = func(p *bipt) error { return errors.New("boom") }
		e := p.engine(c)
		vals := 0
		for i := 0; i < n; i++ {
			switch r.N(5) {
			case 0:
				err := bigEval(c, e, fmt.Sprintf("a%d\n!", i), "f")
				w("a%d f:1", i)
				if err == nil || err.Error() != "f:2: runtime error: boom" {
					c.Failf("evaluation %d gives %v", i, err)
				}
			case 1:
				if err := bigEval(c, e, fmt.Sprintf("a%d +", i), ""); err == nil {
					c.Failf("evaluation %d gives no error", i)
				}
				w("a%d :1", i)
			default:
				noErr(c, bigEval(c, e, fmt.Sprintf("\n%d a%d", i, i), "g"))
				w("a%d g:2", i)
				if vals++; len(p.stk.vals) != vals || p.stk.vals[vals-1] != i {
					c.Failf("after evaluation %d the stack has %d values", i, len(p.stk.vals))
				}
			}
		}
		sameLog(c, "calls", *p.log, want)
	case "length of a mark":
		m := cycle(r.Pick("ab_c", "é", "m1"), n)
		m2 := m + "2"
		p := newBipt("doc = *(INT/" + m + " | IDENT/" + m2 + ")")
		p.table["$"+m] = func(p *bipt, v int) { p.add("one %d", v) }
		p.table["$"+m2] = func(p *bipt, v string) { p.add("two %s", v) }
		e := p.engine(c)
		noErr(c, bigEval(c, e, "1 x 2", ""))
		sameLog(c, "calls", *p.log, []string{"one 1", "two x", "one 2"})
	case "length of a literal":
		p := newBipt("doc = *(STRING/s | IDENT/s | CHAR/s)")
		p.table["$s"] = func(p *bipt, s string) { p.add("%s", s) }
		e := p.engine(c)
		l := []string{`"` + cycle("ab é", n) + `"`, cycle("xy", n), "`" + cycle("a\nb", n) + "`", "'a'"}
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		noErr(c, bigEval(c, e, strings.Join(l, " "), ""))
		sameLog(c, "texts", *p.log, l)
	case "calls before a failing one":
		p := newBipt("doc = *(INT/num | IDENT/fail)")
		p.table["$num"] = func(s *rstk, v int) { s.vals = append(s.vals, v) }
		p.table["$fail"] = func(p *bipt) error { return errors.New("boom") }
		e := p.engine(c)
		err := bigEval(c, e, strings.Repeat("1 ", n)+"x 2 3", "")
		if err == nil || !strings.HasSuffix(err.Error(), "boom") {
			c.Failf("got %v", err)
		}
		if len(p.stk.vals) != n {
			c.Failf("%d values on the stack, want %d", len(p.stk.vals), n)
		}
		c.Ev("calls", n)
	case "contexts kept":
		p := newBipt("doc = *(IDENT/keep)")
		var kept []*iu.Context
		p.table["$keep"] = func(p *bipt, x *iu.Context) { kept = append(kept, x) }
		e := p.engine(c)
		noErr(c, bigEval(c, e, times(n, func(i int) string { return fmt.Sprintf("a%d\n", i) }), ""))
		if len(kept) != n {
			c.Failf("%d contexts, want %d", len(kept), n)
		}
		for i, x := range kept {
			if s := string(e.Source(x.Src)); strings.TrimSpace(s) != fmt.Sprintf("a%d", i) {
				c.Failf("context %d has the source %q", i, s)
			}
			if f := e.FileLine(x.Src); f.Line != i+1 {
				c.Failf("context %d has the line %d", i, f.Line)
			}
			if int(x.End-x.Pos) != len(fmt.Sprint("a", i)) {
				c.Failf("context %d delimits %d bytes", i, x.End-x.Pos)
			}
		}
		c.Ev("calls", n)
	}
}

// ---------------------------------------------------------------- C18

var bigMuteDims = []bigDim{{"depth of mutes", 70001}, {"mutes in a row", 70001}, {"random mutes", 70001}, {"nested evaluations", 257}, {"evaluations of saved code", 10001}, {"aborted evaluations", 4097}, {"muted marks", 70001}, {"depth left open", 70001}}

func bigMute(c *Case, b bigCase) {
	r := c.R
	n := b.n
	var want []string
	w := func(format string, a ...interface{}) { want = append(want, fmt.Sprintf(format, a...)) }
	// '(' mutes, ')' unmutes; words and numbers are marks without and with underscore; '!' fails;
	// '[' ... ']' evaluates what is between with another interpreter
	p := newBipt("doc = *item; item = '('/_mute | ')'/_unmute | IDENT/id | INT/_num | '!'/_fail | sub; sub = '[' inner ']'; inner = run/_eval; run = *quiet; quiet = IDENT | INT | '(' | ')' | '!' | '[' run ']'")
	one := p
	two := &bipt{name: "two", grammar: "", stk: p.stk, log: p.log}
	p.table["$id"] = func(p *bipt, s string) { p.add("%s id %s", p.name, s) }
	p.table["$_num"] = func(p *bipt, v int) { p.add("%s num %d", p.name, v) }
	p.table["$_fail"] = func(p *bipt) error { p.add("fail"); return errors.New("boom") }
	swallow := r.P(50)
	p.table["$_eval"] = func(p *bipt, x *iu.Context) (err error) {
		if len(x.Src.([]tpl.Token)) == 0 {
			return nil
		}
		p.add("%s <", p.name)
		defer func() {
			e := recover()
			if cf, ok := e.(caseFailure); ok {
				panic(cf)
			}
			p.add(">")
			if e != nil && !swallow {
				panic(e)
			}
			if swallow {
				err = nil
			}
		}()
		to := two
		if p == two {
			to = one
		}
		return x.Engine.EvalCode(to, "doc", x.Src)
	}
	e := p.engine(c)
	// the model
	var run func(toks []string, who string) bool
	run = func(toks []string, who string) bool {
		other := map[string]string{"one": "two", "two": "one"}[who]
		depth := 0
		for i := 0; i < len(toks); i++ {
			t := toks[i]
			switch {
			case t == "(":
				depth++
			case t == ")":
				depth--
			case t == "!":
				if depth < 2 {
					w("fail")
					return false
				}
			case t == "[":
				j, lvl := i+1, 1
				for ; lvl > 0; j++ {
					if toks[j] == "[" {
						lvl++
					} else if toks[j] == "]" {
						lvl--
					}
				}
				in := toks[i+1 : j-1]
				if depth < 2 && len(in) > 0 {
					w("%s <", who)
					ok := run(in, other)
					w(">")
					if !ok && !swallow {
						return false
					}
				}
				i = j - 1
			case t[0] >= '0' && t[0] <= '9':
				if depth < 2 {
					w("%s num %s", who, t)
				}
			default:
				if depth < 1 {
					w("%s id %s", who, t)
				}
			}
		}
		return true
	}
	check := func(toks []string) {
		want, *p.log = nil, nil
		ok := run(toks, "one")
		err := bigEval(c, e, strings.Join(toks, " "), "")
		if (err == nil) != ok {
			c.Failf("the evaluation gives %v, want success: %v", err, ok)
		}
		sameLog(c, "calls", *p.log, want)
		if e.Interpreter != iu.Interface(p) {
			c.Failf("the interpreter was exchanged")
		}
	}
	rep := func(k int, l ...string) (s []string) {
		for i := 0; i < k; i++ {
			s = append(s, l...)
		}
		return
	}
	cat := func(l ...[]string) (s []string) {
		for _, x := range l {
			s = append(s, x...)
		}
		return
	}
	probe := []string{"x", "7"}
	switch b.name {
	case "depth of mutes":
		t := cat(probe, rep(n, "("), probe)
		k := min(n, 3)
		t = cat(t, rep(n-k, ")"), probe)
		for i := 0; i < k; i++ {
			t = cat(t, []string{")"}, probe)
		}
		check(t)
	case "mutes in a row":
		check(rep(n, "(", "x", "7", ")", "y", "8"))
	case "random mutes":
		var t []string
		d := 0
		bias := r.Range(45, 55)
		for i := 0; i < n; i++ {
			switch r.N(4) {
			case 0, 1:
				if r.P(bias) {
					t, d = append(t, "("), d+1
				} else if d > 0 {
					t, d = append(t, ")"), d-1
				}
			case 2:
				t = append(t, fmt.Sprint("x", i))
			default:
				t = append(t, fmt.Sprint(i))
			}
		}
		check(t)
	case "nested evaluations":
		var t []string
		for i := 0; i < n; i++ {
			t = append(t, probe...)
			if r.P(50) {
				t = append(t, "(")
			}
			t = append(t, "[")
		}
		if r.P(50) {
			t = append(t, "!")
		}
		for i := 0; i < n; i++ {
			t = append(t, "]")
			t = append(t, probe...)
		}
		check(t)
	case "evaluations of saved code":
		check(cat(rep(n, "[", "(", "7", "x", "]", "7", "x"), probe))
	case "aborted evaluations":
		for i := 0; i < n; i++ {
			switch r.N(4) {
			case 0:
				check(cat(rep(1+r.N(3), "("), probe))
			case 1:
				check([]string{"x", "(", "7", "!"})
			case 2:
				check([]string{"(", "[", "x", "(", "(", "]", "7", "[", "(", "!", "]"})
			default:
				check(probe)
			}
		}
	case "muted marks":
		check(cat([]string{"("}, rep(n, "x", "7"), []string{")"}, probe))
	case "depth left open":
		check(rep(n, "("))
		check(probe)
		check(rep(1, "[", "(", "x", "]", "x"))
	}
}

// ---------------------------------------------------------------- C19

var bigCallDims = []bigDim{{"variadic arguments", 70001}, {"parameters", 50}, {"results", 50}, {"values below", 70001}, {"calls", 20001}, {"arguments of an object", 20001}, {"wrong counts", 70001}, {"unfit argument far behind", 20001}, {"arguments too few", 70001}}

func bigCall(c *Case, b bigCase) {
	r := c.R
	n := b.n
	stk := &rstk{}
	vals := func(k int) (l []interface{}) {
		for i := 0; i < k; i++ {
			switch r.N(4) {
			case 0:
				l = append(l, i)
			case 1:
				l = append(l, uint32(i))
			case 2:
				l = append(l, float32(i))
			default:
				l = append(l, float64(i))
			}
		}
		return
	}
	below := []interface{}{"below", 1}
	if b.name == "values below" {
		below = vals(n)
	}
	still := func() {
		for i, v := range below {
			if len(stk.vals) <= i || stk.vals[i] != v {
				c.Failf("value %d below the arguments changed", i)
			}
		}
	}
	var got []float64
	sum := func(pre float64, l ...float64) (float64, int) {
		got = append([]float64{pre}, l...)
		return float64(len(l)), 3
	}
	call := func(args []interface{}, mode int, fn interface{}) error {
		stk.vals = append([]interface{}{}, below...)
		if mode > 0 {
			stk.vals = append(stk.vals, fn)
		}
		stk.vals = append(stk.vals, args...)
		got = nil
		if mode > 0 {
			return iu.VCall(stk, len(args))
		}
		return iu.Call(stk, fn, len(args))
	}
	switch b.name {
	case "variadic arguments", "values below":
		k := n
		if b.name == "values below" {
			k = 1 + r.N(20)
		}
		for mode := 0; mode < 2; mode++ {
			if err := call(vals(k), mode, sum); err != nil {
				c.Failf("%d arguments: %v", k, err)
			}
			if len(got) != k {
				c.Failf("the function got %d of %d arguments", len(got), k)
			}
			for i, v := range got {
				if v != float64(i) {
					c.Failf("argument %d of %d is %v", i, k, v)
				}
			}
			still()
			if g, w := c19List(stk.vals[len(below):]), c19List([]interface{}{float64(k - 1), 3}); g != w {
				c.Failf("pushed %s, want %s", g, w)
			}
		}
	case "parameters", "results":
		var in, out []reflect.Type
		var rets []reflect.Value
		for i := 0; i < n; i++ {
			if b.name == "parameters" {
				in = append(in, []reflect.Type{tFloat, tIntf}[r.N(2)])
			} else {
				out = append(out, tInt)
				rets = append(rets, reflect.ValueOf(i*3))
			}
		}
		var args []string
		fn := reflect.MakeFunc(reflect.FuncOf(in, out, false), func(a []reflect.Value) []reflect.Value {
			for _, x := range a {
				args = append(args, fmt.Sprint(x.Interface()))
			}
			return rets
		}).Interface()
		for mode := 0; mode < 2; mode++ {
			args = nil
			if err := call(vals(len(in)), mode, fn); err != nil {
				c.Failf("%v", err)
			}
			for i, a := range args {
				if a != fmt.Sprint(i) {
					c.Failf("argument %d of %d is %s", i, len(in), a)
				}
			}
			still()
			if len(stk.vals) != len(below)+len(out) {
				c.Failf("%d values pushed, want %d", len(stk.vals)-len(below), len(out))
			}
			for i, v := range stk.vals[len(below):] {
				if v != i*3 {
					c.Failf("result %d of %d is %v", i, n, v)
				}
			}
		}
	case "calls":
		below, stk.vals = nil, []interface{}{1.0}
		f := func(a float64, l ...int) float64 { return a + float64(len(l)) }
		w := 1.0
		for i := 0; i < n; i++ {
			k := r.N(3)
			for j := 0; j < k; j++ {
				stk.vals = append(stk.vals, j)
			}
			if r.P(5) { // a refused call
				if err := iu.Call(stk, func() {}, k+1); err == nil {
					c.Failf("call %d is not refused", i)
				}
			}
			if err := iu.Call(stk, f, k+1); err != nil {
				c.Failf("call %d: %v", i, err)
			}
			w += float64(k)
			if len(stk.vals) != 1 || stk.vals[0] != w {
				c.Failf("after call %d the stack is %s, want %v", i, c19List(stk.vals), w)
			}
		}
	case "arguments of an object":
		obj := &callObj{c: c}
		args := vals(n)
		if err := call(args, 1, obj); err != nil {
			c.Failf("%v", err)
		}
		if len(obj.got) != 1 || len(obj.got[0]) != n {
			c.Failf("the object got %d calls", len(obj.got))
		}
		for i, v := range obj.got[0] {
			if v != args[i] {
				c.Failf("argument %d of %d is %v, want %v", i, n, v, args[i])
			}
		}
		still()
		if g, w := c19List(stk.vals[len(below):]), c19List([]interface{}{fmt.Sprint("called ", n)}); g != w {
			c.Failf("pushed %s, want %s", g, w)
		}
	case "wrong counts":
		called := false
		fns := []interface{}{func() { called = true }, func(a float64) { called = true }, func(a, b, x float64) { called = true }}
		if err := call(vals(n), r.N(2), fns[r.N(3)]); err == nil || called {
			c.Failf("a call with %d arguments gives %v, called: %v", n, err, called)
		}
	case "unfit argument far behind":
		args := vals(n)
		args[r.Range(n-3, n-1)] = "s"
		if err := call(args, r.N(2), sum); err == nil || got != nil {
			c.Failf("%v, called with %d", err, len(got))
		}
	case "arguments too few":
		stk.vals = vals(n - 1)
		if err := iu.Call(stk, sum, n); err == nil || got != nil {
			c.Failf("%v", err)
		}
		stk.vals = append(vals(n-1), sum)
		if err := iu.VCall(stk, n); err == nil || got != nil {
			c.Failf("%v", err)
		}
	}
	c.Ev("calls", 1)
}

// ---------------------------------------------------------------- C20

// bigLit makes a literal of about n digits and its value as a fraction, kept small enough to compare.
var bigLitDims = []bigDim{{"leading zeros of an octal", 70001}, {"leading zeros of a hexadecimal", 70001}, {"leading zeros of a float", 70001},
	{"trailing zeros of a fraction", 70001}, {"zeros behind the point", 330}, {"digits of an integer", 2049}, {"digits of a fraction", 5001},
	{"digits before the point", 309}, {"leading zeros of an exponent", 70001}, {"digits of a hexadecimal", 300}, {"digits of an octal", 400}, {"a far digit that decides", 5001}, {"zeros against the exponent", 20001}}

func bigLit(r *Rand, b bigCase) string {
	n := b.n
	z := strings.Repeat("0", n)
	switch b.name {
	case "leading zeros of an octal":
		return "0" + z + r.digits(r.N(22), "01234567")
	case "leading zeros of a hexadecimal":
		return "0x" + z + r.digits(r.N(17), "0123456789abcdef")
	case "leading zeros of a float":
		return "0" + z + r.digits(r.N(8), "0123456789") + r.Pick(".", ".5", "e3", ".25e-2")
	case "trailing zeros of a fraction":
		return r.digits(1+r.N(8), "123456789") + "." + r.digits(r.N(8), "0123456789") + z + r.Pick("", "e2", "1")
	case "zeros behind the point":
		return "0." + z + r.digits(1+r.N(20), "123456789") + r.Pick("", "e3")
	case "digits of an integer":
		return r.digits(1, "123456789") + r.digits(n-1, "0123456789")
	case "digits of a fraction":
		return r.digits(r.N(3), "123456789") + "." + r.digits(n, "0123456789")
	case "digits before the point":
		return r.digits(n, "123456789") + r.Pick(".", ".5", "e1", "e-300")
	case "leading zeros of an exponent":
		return r.Pick("1e", "2.5E+", ".5e-") + z + r.digits(1+r.N(2), "0123456789")
	case "digits of a hexadecimal":
		return "0x" + r.digits(n, "0123456789abcdef")
	case "digits of an octal":
		return "0" + r.digits(n, "1234567")
	case "a far digit that decides": // halfway, and a digit far behind
		return "9007199254740993." + z + r.Pick("1", "0", "")
	}
	// zeros against the exponent
	if r.P(50) {
		return "0." + z + r.digits(1+r.N(8), "123456789") + fmt.Sprintf("e%d", n+r.N(5))
	}
	return r.digits(1+r.N(8), "123456789") + z + fmt.Sprintf("e-%d", n+r.N(5))
}

// ---------------------------------------------------------------- C21..C23

var bigCalcDims = []bigDim{{"operands", 20001}, {"mixed operands", 5001}, {"parentheses", 2049}, {"signs", 2049}, {"arguments", 20001}, {"nested calls", 1025}, {"calls in a line", 5001}, {"blanks", 70001}, {"right-nested", 1025}, {"wrong count of arguments", 5001}, {"lines", 2049}, {"digits", 2049}, {"error far behind", 20001}, {"length of a name", 20001}, {"comments", 5001}}

func bigCalc(name string) func(c *Case, b bigCase) {
	d := calcDefs[name]
	return func(c *Case, b bigCase) {
		calcEngines(c)
		r := c.R
		n := b.n
		lit := func(i int) string { return fmt.Sprint(1 + i%9) }
		if r.P(30) {
			lit = func(i int) string { return d.genLit(r) }
			if name == "rat" { // keep the numbers small
				lit = func(i int) string { return fmt.Sprint(r.N(100)) }
			}
		}
		ext := "max"
		if name == "cmplx" {
			ext = "" // no variadic function
		}
		one := r.Pick("abs", "abs", "sqrt", "exp")
		if name == "rat" {
			one = r.Pick("abs", "num", "denom")
		}
		var text string
		switch b.name {
		case "operands":
			op := r.Pick("+", "-", "*")
			if name == "rat" && op == "*" {
				lit = func(i int) string { return fmt.Sprint(1 + i%2) }
			}
			text = lit(0) + times(n-1, func(i int) string { return op + lit(i+1) })
		case "mixed operands":
			ops := []string{"+", "-", "*", "/"}
			if name == "number" {
				ops = append(ops, "%")
			}
			if name == "rat" {
				lit = func(i int) string { return fmt.Sprint(1 + r.N(3)) }
				ops = ops[:3]
				if r.P(30) && n < 1000 {
					ops = append(ops, "/")
				}
			}
			text = lit(0) + times(n-1, func(i int) string { return r.Pick(ops...) + lit(i+1) })
		case "parentheses":
			text = strings.Repeat("(", n) + lit(3) + "-" + lit(5) + strings.Repeat(")", n) + "*2"
			if r.P(10) {
				text += ")"
			}
		case "signs":
			text = lit(2) + r.Pick("-", "*", "+") + times(n, func(int) string { return r.Pick("- ", "- ", "+ ") }) + lit(3)
		case "arguments":
			if ext == "" {
				return
			}
			big := r.N(n)
			text = r.Pick("max", "min") + "(" + times(n, func(i int) string {
				s := fmt.Sprint(i * 7919 % 1000)
				if i == big {
					s = r.Pick("-5", "2000", "(1-7)*3")
				}
				if i > 0 {
					s = ", " + s
				}
				return s
			}) + ")-1"
		case "nested calls":
			text = strings.Repeat(one+"(", n) + lit(1) + strings.Repeat(")", n)
			if ext != "" && r.P(50) {
				text = times(n, func(i int) string { return fmt.Sprintf("max(%d,", i%50) }) + lit(7) + strings.Repeat(")", n)
			}
		case "calls in a line":
			text = one + "(4)" + times(n-1, func(i int) string { return r.Pick("+", "-") + one + "(" + lit(i) + ")" })
		case "blanks":
			text = "1" + strings.Repeat(r.Pick(" ", "\t", " \n", "\r\n"), n) + "+" + strings.Repeat(" ", r.N(5)) + "2"
		case "right-nested":
			text = times(n, func(i int) string { return lit(i) + r.Pick("-(", "+(", "-(") }) + lit(n) + strings.Repeat(")", n)
		case "wrong count of arguments":
			text = r.Pick("abs", "inv", "pow", "sqrt", "complex") + "(" + strings.TrimSuffix(strings.Repeat("1,", n), ",") + ")"
		case "lines":
			for i := 0; i < n; i++ {
				t, ast := d.line(r, 1+r.N(2))
				c.Input("%s at size %d, line %d: %s", b.name, n, i, t)
				d.checkLine(c, t, ast)
			}
			return
		case "digits":
			text = "1" + r.digits(n, "0123456789")
			if name != "rat" {
				text = "0." + r.digits(n, "0123456789") + r.Pick("", "*3", "-1")
			} else {
				text += r.Pick("", "+1", "/3", "*"+text, "-"+text, "/"+text)
			}
		case "error far behind":
			text = lit(0) + times(n, func(i int) string { return "+" + lit(i+1) }) + r.Pick("+", ")", " 2", "+(1", "+nosuch(1)", "+abs()", "+abs(1,2)", ",", "+nosuch", "$", "+08", "+0x")
		case "length of a name":
			text = "1+" + cycle(r.Pick("abs", "e", "max", "pi"), n) + r.Pick("", "(1)", "()")
		case "comments":
			text = "3" + strings.Repeat("/* c */", n) + "-1" + strings.Repeat(" // d\n", r.N(3))
		}
		if len(text) > 300 {
			c.Input("%s: %s at size %d: %s ... %s (%d bytes)", name, b.name, n, text[:100], text[len(text)-60:], len(text))
		} else {
			c.Input("%s: %s at size %d: %s", name, b.name, n, text)
		}
		d.checkLine(c, text, nil)
		// the engine goes on
		d.checkLine(c, "2+3", nil)
	}
}

// bigSession evaluates many lines on one engine.
func bigSession(c *Case, b bigCase) {
	calcEngines(c)
	r := c.R
	d := calcDefs[r.Pick("number", "cmplx", "rat")]
	for i := 0; i < b.n; i++ {
		text, ast := d.line(r, 1+r.N(3))
		if r.P(3) && b.n < 3000 || r.P(1) && r.P(30) {
			text, ast = hostileLine(r), nil
		}
		c.Input("%s at size %d: line %d of the session, %.200s", b.name, b.n, i, text)
		d.checkLine(c, text, ast)
		c.Ev("lines", 1)
	}
}
