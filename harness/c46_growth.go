package main

// C46: what has been evaluated leaves nothing behind. One workload runs on one instance (or on
// new ones that are dropped) while the memory in use after garbage collection, the number of
// goroutines and the depth of the evaluation stack are watched: they must not grow with the
// number of evaluations.

import (
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/extractor"
	ip "github.com/qiniu/text/tpl/interpreter"
	iu "github.com/qiniu/text/tpl/interpreter.util"
	"github.com/qiniu/text/tpl/qlang"
	qi "github.com/qiniu/text/tpl/qlang/cl/interpreter"
)

func heapInUse() int {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc)
}

func fdCount() int {
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	return len(l)
}

// noGrowth runs one n times and measures, then until 4n, 10n and 24n times as long as the memory
// in use grew by more than 8 bytes an evaluation of the first step (and 10 kB). What is kept for
// every evaluation grows in each step, even in slices and maps that double.
func noGrowth(c *Case, n int, one func(i int)) {
	i := 0
	until := func(k int) {
		for ; i < k; i++ {
			one(i)
		}
	}
	until(n)
	limit := 3 * n * 8
	if limit < 10<<10 {
		limit = 10 << 10
	}
	gs, fds := runtime.NumGoroutine(), fdCount()
	from := heapInUse()
	var grown []int
	for _, k := range []int{4, 10, 24} {
		until(k * n)
		now := heapInUse()
		by := now - from
		from = now
		if by <= limit {
			break
		}
		grown = append(grown, by)
		c.Ev("steps that grew", 1)
	}
	if len(grown) == 3 {
		c.Failf("the memory in use after %d, %d and %d evaluations grew by %d, %d and %d bytes", 4*n, 10*n, 24*n, grown[0], grown[1], grown[2])
	}
	if g := runtime.NumGoroutine(); g > gs {
		c.Failf("%d goroutines more after %d evaluations", g-gs, i)
	}
	if f := fdCount(); f > fds {
		c.Failf("%d more open files after %d evaluations", f-fds, i)
	}
	c.Ev("evaluations", i)
}

// calm evaluates and takes failures for what they are.
func calm(f func() error) (failed bool) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case runtime.Error:
			panic(x)
		case caseFailure:
			panic(x)
		default:
			failed = true
		}
	}()
	return f() != nil
}

// growMatch: one compiled grammar matches texts.
func growMatch(c *Case) {
	r := c.R
	conf := gconf{syms: someSyms(r), rules: 1 + r.N(4), depth: 2 + r.N(2), cut: 12, act: 25}
	d := genDom(r, conf)
	setMarks(r, d)
	text := grammarText(r, ruleToks(r, d))
	c.Input("grammar %s", text)
	comp := &tpl.Compiler{Grammar: []byte(text), Marker: func(g tpl.Grammar, mark string) tpl.Grammar {
		if len(mark)%2 == 0 {
			return tpl.Transaction(g, func() interface{} { return new([40]byte) }, func(interface{}, error) {})
		}
		return tpl.Action(g, func(tokens []tpl.Token, g tpl.Grammar) {})
	}}
	m, err := comp.Cl()
	noErr(c, err)
	var texts []string
	for k := 0; k < 60 && len(texts) < 12; k++ {
		s := d.sentence(r, d.rules[0].body, append(conf.syms, "IDENT"))
		if len(s) > 60 {
			continue
		}
		if _, ok := refMatch(d, d.rules[0].body, d.seenAs(s)); ok {
			texts = append(texts, string(renderSyms(r, s, r.P(20)).src))
		}
	}
	if len(texts) == 0 {
		c.Ev("discarded", 1)
		return
	}
	texts = append(texts, "\"bad", "'", "")
	names := []string{}
	for name := range m.Grammars {
		names = append(names, name)
	}
	kept, fails := 0, 0
	noGrowth(c, 600, func(i int) {
		t := texts[i%len(texts)] + " // " + strconv.Itoa(i)
		bad := calm(func() error {
			switch i % 4 {
			case 0:
				_, err := m.Match([]byte(t), "f"+strconv.Itoa(i))
				return err
			case 1:
				return m.EvalSub("doc", []byte(t))
			case 2:
				toks, err := m.Tokenize([]byte(t), "")
				if err != nil {
					return err
				}
				return m.EvalSub("doc", toks)
			}
			err := m.Eval(t)
			if me, ok := err.(*tpl.MatchError); ok {
				kept += len(me.Error())
			}
			return err
		})
		if bad {
			fails++
		}
	})
	_ = names
	c.Ev("matches that failed", fails)
	c.Seen(text)
}

// growCompile: compilers and what they make are dropped.
func growCompile(c *Case) {
	r := c.R
	conf := gconf{syms: someSyms(r), rules: 1 + r.N(4), depth: 2 + r.N(3), cut: 12, act: 25}
	d := genDom(r, conf)
	setMarks(r, d)
	text := grammarText(r, ruleToks(r, d))
	c.Input("grammar %s, compiled again and again", text)
	bad := 0
	noGrowth(c, 150, func(i int) {
		t := text
		if i%5 == 4 {
			t += " = "
		}
		if !strings.HasSuffix(t, ";") {
			t += "\n"
		}
		t += "z" + strconv.Itoa(i) + " = \"k" + strconv.Itoa(i) + "\";"
		if calm(func() error {
			comp := &tpl.Compiler{Grammar: []byte(t), Marker: func(g tpl.Grammar, mark string) tpl.Grammar {
				return tpl.Action(g, func(tokens []tpl.Token, g tpl.Grammar) {})
			}}
			m, err := comp.Cl()
			if err != nil {
				return err
			}
			_ = m.Code()
			return nil
		}) {
			bad++
		}
	})
	c.Ev("grammars refused", bad)
	c.Seen(text)
}

// growScripts are programs that leave the variables as they are; %d is the number of the evaluation.
var growScripts = []string{
	"r = %d", "x = %d; r = x + 1", "f = fn(a) { return a + %d }; r = f(1)", "f = fn(n) { l%d = n; return fn() { return l%[1]d } }; r = f(2)()",
	"C = class { fn m%d() { return 1 } fn _init(a) { set(this, \"a\", a) } }; o = new C(%[1]d); r = o.m%[1]d()", "r = [1, %d, \"s\"]", "m = {\"k%d\": 1}; r = m.k%[1]d",
	"f = fn() { defer tr(1); return %d }; r = f()", "f = fn() { defer fn() { recover() }(); panic(\"e%d\") }; r = f()", "panic(\"e%d\")", "f = fn() { defer tr(2); panic(\"e%d\") }; f()",
	"nosuch%d()", "r = 1 + \"a%d\"", "r = [%d", "\"%d", "r = %d +", "u%d = 1; unset(\"u%[1]d\"); r = 1", "for i = 0; i < 10; i++ { r = i * %d }", "switch %d { case 1: r = 1; default: r = 2 }",
	"f = fn(a...) { return len(a) }; r = f([%d, 2, 3]...)", "a, b = [%d, 2]; r = a", "h = host; r = h(\"%d\")", "r = hv.A + %d", "r = hv.sum(%d)", "r = hv.sum(%d) + hv.A", "r = m0.a + %d", "set(m0, \"a\", %d); r = 1",
	"set(l0, 1, %d); r = l0[1]", "f = fn() { for i = 0; i < 3; i++ { if i == 1 { return %d } } }; r = f()", "r = string(byte(65)) + \"%d\"", "r = if0%d", "f = fn(n) { if n == 0 { return 0 }; return 1 + f(n-1) }; r = f(9) + %d",
	"f = fn(n) { g = fn() { return n }; return g() }; r = f(%d)", "C = class { fn m(n) { if n == 0 { panic(\"x\") }; return this.m(n-1) } }; o = new C; o.m(%d - %[1]d + 5)", "r = append([1], %d)", "q = append(sliceFrom(1.5), %d); r = q",
	"defer tr(%d); r = 1", "defer panic(\"d%d\"); r = 1", "return \"%d\"",
	"o = new K(%d)", "k0.put(%d); r = 1", "r = k0.get() + %d", "f = mk(%d); r = f()", "mk(%d)()", "r = K.get; r = %d", "set(k0, \"a\", %d)", "o = new K(%d); o.boom()", "r = fv(1, \"%d\", 3)", "r = df(%d)", "rec(\"%d\")",
	"r = k0.get; r()", "switch %d { case 1: r = df(2); default: r = mk(3) }", "r = fib(5) + %d", "r = {\"a\": mk(%d), \"b\": new K(%[1]d)}", "set(l0, 0, mk(%d)); r = 1", "set(m0, \"f\", new K(%d)); r = 1", "x = \"%d\"; unset(\"x\"); r = 1",
	"for i = 0; i < 3; i++ { o = new K(i + %d) }", "for i = 0; i < 3; i++ { mk(i + %d)() }", "for i = 0; i < 3; i++ { rec(\"%d\") }", "k0.rec(\"%d\")", "k0.gen()(%d)", "r = append(l0, %d)", "o = new KF(%d)", "o = new KF(-1)", "set(k0, \"get\", %d)", "r = k0.nosuch(%d)", "r = l0[%d]", "r = mk(1, %d)", "fv(l0[%d]...)", "a, b = [%d]", "r = host(%d)", "r = hv.nosuch%d", "r = hv.fail(%d)", "for i = 0; i < 3; i++ { r = l0[%d+i] }",
	"switch %d { case l0[%[1]d]: r = 1 }", "f = fn(n) { defer l0[n]; return n }; r = f(%d)", "f = fn(n) { defer fn() { panic(\"n\") }(); return n }; r = f(%d)", "r = k0.get(l0[%d])", "r = [1, l0[%d]]", "r = {\"a\": l0[%d]}", "r = mk(l0[%d])()", "r = 1/0 + %d", "nosuch = %d; nosuch.x", "r = ca(fn() { panic(\"%d\") })", "r = ca(fn() { return %d })", "r = sub(%d)",
	"K2 = class { fn get() { return l0[%d] } }; r = K2.get(1)", "if l0[%d] { r = 1 }", "r = true && l0[%d]", "r = l0[1:%d]", "r = hl[1:%d]", "x = l0; x += %d", "r++; r = \"%d\"", "r = 1 + hv.list(%d)[2]", "set(hv, \"a\", %d)", "r = new K", "r = new mk(%d)",
	"r = l0[0:2]; set(r, 0, %d)",
}

type growVal struct{ A int }

func (p *growVal) List(n int) []int { return []int{n, 2, 3} }
func (p *growVal) Fail(n int)       { panic("fail" + strconv.Itoa(n)) }
func (p *growVal) Sum(n int) int    { return p.A + n }

func growEngine(c *Case) qlang.Qlang {
	l := qengine(true)
	l.SetVar("host", func(s string) int { return len(s) })
	l.SetVar("hv", &growVal{})
	l.SetVar("hl", []int{1, 2, 3})
	noErr(c, l.SafeEval(`m0 = mkmap("string:var"); set(m0, "a", 1); l0 = slice("var", 3)
K = class {
	fn _init(a) { set(this, "a", a) }
	fn put(a) { set(this, "a", a) }
	fn get() { return 1 }
	fn boom() { panic("boom") }
	fn rec(s) { defer fn() { recover() }(); panic(s) }
	fn gen() { return fn(n) { return n } }
}
k0 = new K(0)
mk = fn(n) { return fn() { return n } }
KF = class { fn _init(n) { set(this, "n", n); if n != 0 { panic("no") } } }
ca = fn(f) { return f() }
sub = fn(n) { return n - l0[n] }
fv = fn(a, b...) { return len(b) }
df = fn(n) { defer tr(n); defer fn() { recover() }(); return n }
rec = fn(s) { defer fn() { recover() }(); panic(s) }
fib = fn(n) { if n < 2 { return n }; return fib(n-1) + fib(n-2) }
`))
	l.Ret()
	return l
}

// growProgram: one engine evaluates scripts.
func growProgram(c *Case) {
	r := c.R
	var texts []string
	for n := r.Range(1, 5); n > 0; n-- {
		texts = append(texts, growScripts[r.N(len(growScripts))])
	}
	fresh := r.P(20)
	c.Input("texts %q, new engines %v", texts, fresh)
	l := growEngine(c)
	bad, n := 0, 400
	if fresh {
		n = 60
	}
	noGrowth(c, n, func(i int) {
		if fresh {
			l = growEngine(c)
		}
		here().qtrace = here().qtrace[:0]
		text := fmt.Sprintf(texts[i%len(texts)], i+1000)
		if !strings.Contains(texts[i%len(texts)], "%") {
			text = texts[i%len(texts)]
		}
		if text[:1] == "r" && strings.HasPrefix(text, "return") {
			text = "f = fn() { " + text + " }; r = f()"
		}
		err := l.SafeExec([]byte(text), "f"+strconv.Itoa(i))
		if err != nil {
			bad++
			_ = err.Error()
		} else {
			l.Ret()
		}
	})
	if k := stackLen(l); k > 1 {
		c.Failf("%d values on the stack", k)
	}
	c.Ev("scripts that failed", bad)
	if fresh {
		c.Ev("engines dropped", 1)
	}
	c.Seen(strings.Join(texts, "|"))
}

// growEngines: extractors, interpreters, interpreters written in qlang, calculators.
func growEngines(c *Case) {
	r := c.R
	bad := 0
	kind := r.N(4)
	switch kind {
	case 0:
		gram := r.Pick("doc = (IDENT/v_Texts | INT/n_Ints) % ','", "item = IDENT/name_Text ?('=' INT/n_Int); doc = item/item_Nodes % ','", "a = IDENT/x_Text INT/y_Int; b = IDENT/x_Text; doc = (a/a_Nodes | b/b_Nodes) % ','")
		gram = strings.Replace(gram, "_Texts", "_Strs", -1)
		gram = strings.Replace(gram, "_Text", "_Str", -1)
		c.Input("extractor %q", gram)
		e, err := extractor.New(gram, &extractor.Options{GetValue: func(typ, lit string) interface{} {
			if lit == "999" {
				panic("no value")
			}
			return lit
		}})
		noErr(c, err)
		noGrowth(c, 300, func(i int) {
			t := fmt.Sprintf("a%d, b, c%d", i, i)
			switch i % 5 {
			case 1:
				t += " 7,"
			case 2:
				t += ", d 999"
			case 3:
				t += " \""
			}
			if _, err := e.SafeParse([]byte(t), "f"+strconv.Itoa(i)); err != nil {
				bad++
			}
			if i%5 == 4 {
				e.Result()
			}
		})
		c.Seen(gram)
	case 1:
		p := newBipt("item = IDENT/one ?(INT/Two/_mute IDENT/three/_unmute); doc = (item/four) % ','")
		mark := ""
		p.table["$one"] = func(p *bipt, s string) { mark = s }
		p.table["$Two"] = func(p *bipt, n int) {}
		p.table["$three"] = func(p *bipt, x *iu.Context) {}
		p.table["$four"] = func(p *bipt, x interface{}) {
			if mark == "boom" {
				panic("boom")
			}
		}
		c.Input("interpreter")
		e, err := ip.New(p, nil)
		noErr(c, err)
		noGrowth(c, 300, func(i int) {
			t := fmt.Sprintf("a%d, b, c%d 3 d", i, i)
			switch i % 4 {
			case 1:
				t += ","
			case 2:
				t += " , boom"
			}
			if calm(func() error { return e.Eval(t) }) {
				bad++
			}
		})
		c.Seen("interpreter")
	case 2:
		l := growEngine(c)
		l.SetVar("opt", &qi.Options{})
		noErr(c, l.SafeEval(`
S = class {
	fn _init() { this.clear() }
	fn clear() { set(this, "v", slice("var")) }
	fn push(x) { set(this, "v", append(this.v, x)) }
	fn popArgs(n) {
		l = len(this.v)
		if l < n { panic("too few values") }
		a = this.v[l-n:l]
		set(this, "v", this.v[:l-n])
		return a
	}
}
I = class {
	fn grammar() { return "item = IDENT/one ?(INT/Two IDENT/_three); doc = (item/plus) % ','" }
	fn stack() { return st }
	fn fntable() { return {
		"$one": I.one, "$Two": I.two, "$_three": I.three, "$plus": plus,
	} }
	fn one(lit) { st.push(lit); st.push(lit); if lit == "boom" { panic("boom") } }
	fn two(n) { set(this, "n", n) }
	fn three(t) { set(this, "t", t) }
}
plus = fn(a, b) { return "x" }
st = new S
it = new I
eng, err = ip39.interpreter(it, opt)
`))
		l.Ret()
		v, _ := l.Var("eng")
		e, ok := v.(*qi.Engine)
		if !ok {
			x, _ := l.Var("err")
			c.Failf("interpreter: %v", x)
		}
		c.Input("interpreter written in qlang")
		noGrowth(c, 200, func(i int) {
			t := fmt.Sprintf("a%d, b, c%d 3 d", i, i)
			switch i % 4 {
			case 1:
				t += ","
			case 2:
				t += " , boom"
			}
			if e.Eval(t) != nil {
				bad++
			} else {
				c.Ev("values of interpreters in qlang", 1)
			}
			if i%8 == 7 {
				noErr(c, l.SafeEval("st.clear()"))
			}
			here().qtrace = here().qtrace[:0]
		})
		c.Seen("hosted")
	case 3:
		calcEngines(c)
		d := calcDefs[r.Pick("number", "cmplx", "rat")]
		var lines []string
		for len(lines) < 8 {
			t, ast := d.sessionLine(r)
			if len(t) > 80 {
				continue
			}
			if ast != nil {
				if _, why := d.want(t, ast); why == "skip" {
					continue
				}
			}
			lines = append(lines, t)
		}
		lines = append(lines, "1+2", "1", "(3")
		c.Input("%s, lines %q", d.name, lines)
		noGrowth(c, 200, func(i int) {
			t := lines[i%len(lines)]
			if i%2 == 0 {
				t += "+" + strconv.Itoa(i)
			}
			if _, err := d.eval(c, t); err != nil {
				bad++
			}
		})
		c.Seen(d.name + strings.Join(lines, "|"))
	}
	c.Ev([]string{"extractors", "interpreters", "interpreters in qlang", "calculators"}[kind], 1)
	c.Ev("evaluations that failed", bad)
}

// growScan: one matcher scans texts.
func growScan(c *Case) {
	r := c.R
	m := &tpl.Matcher{ScanMode: scanModes[r.N(len(scanModes))]}
	if r.P(50) {
		m.Scanner = new(tpl.AutoKwScanner)
	}
	var texts []string
	for len(texts) < 10 {
		texts = append(texts, lexText(r, r.N(20), r.P(20)))
	}
	c.Input("mode %s, texts %q", modeName(m.ScanMode), texts)
	noGrowth(c, 800, func(i int) {
		m.Tokenize([]byte(texts[i%len(texts)]+" w"+strconv.Itoa(i)+" \""+strconv.Itoa(i)+"\""), "n"+strconv.Itoa(i))
	})
	c.Seen(strings.Join(texts, "|"))
}

func init() {
	register(&Prop{ID: "C46",
		Rule:    "one instance evaluates texts that all differ (well-formed, ill-formed, failing and panicking ones), 600 to 8000 in all, or instances are made, used and dropped: scanning, matching, compiling, qlang scripts of every kind, extractors, interpreters, interpreters written in qlang and calculators; after each three windows of evaluations the memory in use after garbage collection is measured, and three measurements in a row must not grow by 24 bytes an evaluation (and 48 kB); goroutines, open files and the evaluation stack are counted; a case is distinct by its texts",
		MustSee: []string{"evaluations", "matches that failed", "grammars refused", "scripts that failed", "engines dropped", "extractors", "interpreters", "interpreters in qlang", "values of interpreters in qlang", "calculators", "evaluations that failed"},
		Parts: []*Part{
			{Name: "scan", Quick: 40, Thorough: 2000, Run: growScan},
			{Name: "match", Quick: 80, Thorough: 4000, Run: growMatch},
			{Name: "compile", Quick: 40, Thorough: 1500, Run: growCompile},
			{Name: "scripts", Quick: 320, Thorough: 8000, Run: growProgram},
			{Name: "engines", Quick: 80, Thorough: 2000, Run: growEngines},
		}})
}
