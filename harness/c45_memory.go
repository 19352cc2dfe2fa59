package main

// C45: what the host hands over is only read. Texts, grammars, tokens, arguments and lists are
// put into memory the process cannot write to (the end of the data, with some room behind it, is
// the end of the mapping); a write stops the process, which the framework reports with the case.
// After a call the memory is filled with other data: nothing the call has left may depend on it.

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"unsafe"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/extractor"
	ip "github.com/qiniu/text/tpl/interpreter"
	"github.com/qiniu/text/tpl/qlang"
	cl "github.com/qiniu/text/tpl/qlang/cl"
	qi "github.com/qiniu/text/tpl/qlang/cl/interpreter"
)

// guarded is a copy of some data that can be sealed against writing.
type guarded struct {
	mem  []byte
	b    []byte // the data; its capacity ends with the mapping
	keep []interface{}
}

// guard makes a sealed copy of data with spare bytes behind it.
func guard(data, spare []byte) *guarded {
	n := len(data) + len(spare)
	size := (n + 4095) / 4096 * 4096
	if size == 0 {
		size = 4096
	}
	mem, err := syscall.Mmap(-1, 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic("mmap: " + err.Error())
	}
	g := &guarded{mem: mem}
	g.b = mem[size-n : size-n+len(data) : size]
	copy(g.b, data)
	copy(mem[size-len(spare):], spare)
	g.seal()
	return g
}

func (g *guarded) seal() {
	if err := syscall.Mprotect(g.mem, syscall.PROT_READ); err != nil {
		panic("mprotect: " + err.Error())
	}
}

// reuse fills the memory with other data.
func (g *guarded) reuse(r *Rand) {
	if err := syscall.Mprotect(g.mem, syscall.PROT_READ|syscall.PROT_WRITE); err != nil {
		panic("mprotect: " + err.Error())
	}
	fill := r.Pick("\x00", "z", "\n", "; ", "\"", "9", "\xff", "if x ", "`", "*/")
	b := g.b[:cap(g.b)]
	for i := range b {
		b[i] = fill[i%len(fill)]
	}
	g.seal()
}

func (g *guarded) free() {
	runtime.KeepAlive(g.keep)
	if err := syscall.Munmap(g.mem); err != nil {
		panic("munmap: " + err.Error())
	}
}

// guardText makes a sealed text with hostile bytes behind its end.
func guardText(r *Rand, text string) *guarded {
	return guard([]byte(text), []byte(strings.Repeat(r.Pick("\"", "a", "\n", "*/", "0", "\x00", "=", "'"), r.Pick2(0, 1, 2, 5, 40))))
}

// Pick2 picks a number.
func (r *Rand) Pick2(a ...int) int { return a[r.N(len(a))] }

// guardSlice makes a sealed copy of a slice, with copies of its first items behind its end. What the items refer
// to is kept alive by the original, which the guarded memory holds.
func guardSlice(s interface{}, spare int) (interface{}, *guarded) {
	v := reflect.ValueOf(s)
	t := v.Type().Elem()
	full := reflect.MakeSlice(v.Type(), v.Len()+spare, v.Len()+spare)
	reflect.Copy(full, v)
	for i := 0; i < spare && v.Len() > 0; i++ {
		full.Index(v.Len() + i).Set(v.Index(i % v.Len()))
	}
	n := int(t.Size()) * full.Len()
	var raw []byte
	if n > 0 {
		raw = unsafe.Slice((*byte)(full.UnsafePointer()), n)
	}
	g := guard(raw, nil)
	g.keep = []interface{}{s, full.Interface()}
	if n == 0 {
		return s, g
	}
	p := reflect.NewAt(reflect.ArrayOf(full.Len(), t), unsafe.Pointer(&g.b[0]))
	return p.Elem().Slice3(0, v.Len(), full.Len()).Interface(), g
}

func tokList(toks []tpl.Token) string {
	var b strings.Builder
	for _, t := range toks {
		fmt.Fprintf(&b, "%d:%d:%q ", t.Pos, t.Kind, t.Literal)
	}
	return b.String()
}

// memScan scans a text.
func memScan(c *Case) {
	r := c.R
	for k := 0; k < 8; k++ {
		mode := scanModes[r.N(len(scanModes))]
		text := lexText(r, r.N(24), r.P(15))
		file := r.Pick("", "f", "/x/f")
		c.Input("mode %s, file %q, text %q", modeName(mode), file, text)
		m1, m2 := &tpl.Matcher{ScanMode: mode}, &tpl.Matcher{ScanMode: mode}
		want, err1 := m1.Tokenize([]byte(text), file)
		g := guardText(r, text)
		got, err2 := m2.Tokenize(g.b, file)
		if a, b := fmt.Sprint(err1), fmt.Sprint(err2); a != b {
			c.Failf("from sealed memory: %s\nfrom a copy: %s", b, a)
		}
		if a, b := tokList(want), tokList(got); a != b {
			c.Failf("tokens from sealed memory: %s\nfrom a copy: %s", b, a)
		}
		if n := len(want); n > 0 && err1 == nil {
			i := r.N(n)
			j := i + 1 + r.N(n-i)
			if a, b := tpl.Source(want[i:j], m1.Scanner), tpl.Source(got[i:j], m2.Scanner); string(a) != string(b) {
				c.Failf("source of tokens %d to %d in sealed memory: %q\nin a copy: %q", i, j, b, a)
			}
			g.reuse(r)
			if a, b := tokList(want), tokList(got); a != b {
				c.Failf("tokens when the text was overwritten: %s\nbefore: %s", b, a)
			}
			f1, l1 := tpl.FileLine(want[i:j], m1.Scanner)
			f2, l2 := tpl.FileLine(got[i:j], m2.Scanner)
			if f1 != f2 || l1 != l2 {
				c.Failf("tokens %d to %d when the text was overwritten: %s:%d, before %s:%d", i, j, f2, l2, f1, l1)
			}
			c.Ev("texts overwritten", 1)
		}
		g.free()
		c.Ev("texts scanned", 1)
		c.Seen(text + modeName(mode))
	}
}

// memGrammar compiles and matches.
func memGrammar(c *Case) {
	r := c.R
	conf := gconf{syms: someSyms(r), rules: 1 + r.N(4), depth: 2 + r.N(3), cut: 12, act: 25}
	d := genDom(r, conf)
	setMarks(r, d)
	text := grammarText(r, ruleToks(r, d))
	c.Input("grammar %s", text)
	gg := guardText(r, text)
	defer gg.free()
	cp, err := compileTraced(c, gg.b)
	if err != nil {
		c.Failf("a well-formed grammar does not compile: %v", err)
	}
	if r.P(80) {
		gg.reuse(r)
		c.Ev("grammars overwritten", 1)
	}
	type kept struct {
		toks []tpl.Token
		text string
	}
	var runs []kept
	cp.keep = func(toks []tpl.Token) { runs = append(runs, kept{toks, tokList(toks)}) }
	for k := 0; k < 4; k++ {
		s := d.sentence(r, d.rules[0].body, conf.syms)
		t := renderSyms(r, s, r.P(30))
		c.Input("grammar %s\ntext %q", text, t.src)
		ref, ok := refMatch(d, d.rules[0].body, d.seenAs(s))
		if !ok {
			continue
		}
		g := guardText(r, string(t.src))
		defer g.free()
		runs = nil
		how := "text"
		if r.P(40) {
			how = "tokens"
		}
		cp.locate(c, t)
		*cp.ev = nil
		got := runMatch(func() (int, error) {
			if how == "text" {
				next, err := cp.cr.Match(g.b, "")
				if err == nil {
					runs = append(runs, kept{next, tokList(next)})
				}
				return len(t.syms) - len(next), err
			}
			toks, err := cp.cr.Tokenize(g.b, "")
			if err != nil {
				return 0, err
			}
			sealed, g2 := guardSlice(toks[:len(toks)+1], r.N(3)) // with the end of the text
			defer g2.free()
			defer func() { runs = nil }()
			st := sealed.([]tpl.Token)[:len(toks)]
			n, err := cp.cr.Grammar.Match(st, cp.cr.Matcher)
			if err == nil && r.P(50) {
				runMatch(func() (int, error) { return n, cp.cr.EvalSub("doc", st[:n]) }) // only for what it writes
				c.Ev("runs of tokens evaluated", 1)
			}
			return n, err
		})
		if got.kind != ref.kind || got.kind == "ok" && got.n != ref.n {
			c.Failf("matching %s in sealed memory: got %v (%v), want %v", how, got.gres, got.err, ref)
		}
		g.reuse(r)
		for _, k := range runs {
			if now := tokList(k.toks); now != k.text {
				c.Failf("when the text was overwritten, tokens handed out are %s, before %s", now, k.text)
			}
		}
		c.Ev("matches of "+how, 1)
	}
	c.Seen(text)
}

// memProgram runs a qlang program of some texts.
func memProgram(c *Case) {
	r := c.R
	for try := 0; try < 5; try++ {
		g := newQgen(r, gweights{tr: 15, err: 8, ctrl: 20, fns: 25, colls: 20, classes: 12, defers: 8, panics: 5, stmts: 6})
		s := &qsession{semis: r.P(70)}
		for n := r.Range(1, 3); n > 0; n-- {
			s.add(r, g.program(), r.Pick("", "", "a.ql"), false)
		}
		c.Input("%s", s.input())
		runs, ok, why := s.reference()
		if !ok {
			c.Ev("discarded: "+why, 1)
			continue
		}
		l := qengine(s.semis)
		for i, want := range runs {
			here().qtrace = here().qtrace[:0]
			g := guardText(r, s.texts[i])
			defer g.free()
			err := l.SafeExec(g.b, s.files[i])
			s.compare(c, l, i, want, err, here().qtrace)
			g.reuse(r)
			c.Ev("programs run", 1)
		}
		c.Seen(s.texts[0])
		return
	}
}

// memEngines: extractors, interpreters and interpreters written in qlang.
func memEngines(c *Case) {
	r := c.R
	word := func() string {
		return r.Pick("ab", "x", "été", "12", "0x1F", "3.5", "'c'", "\"s t\"", "`r\r\nw`", "if")
	}
	sent := func() string {
		var b strings.Builder
		for n := r.Range(1, 8); n > 0; n-- {
			b.WriteString(word() + r.Pick(" ", "\n", "\t", "\r\n", " /* c\r\n */ ", " // d\n"))
			if n > 1 {
				b.WriteString(", ")
			}
		}
		return b.String()
	}
	switch r.N(3) {
	case 0:
		gram := r.Pick(
			"doc = (IDENT/v_texts | INT/v_texts | FLOAT/v_texts | CHAR/v_texts | STRING/v_texts | \"if\"/kws_texts) % ','",
			"item = IDENT/name_text | INT/n_int | FLOAT/f_float | CHAR/c_char | STRING/s_string | \"if\"/name_text; doc = item/item_nodes % ','",
			"// a grammar\r\nitem = IDENT/name_text | INT/n_int | FLOAT/f_float | CHAR/c_char | STRING/s_string | /* c\r\n */ \"if\"/name_text; doc = item/item_Nodes % ','")
		gram = strings.NewReplacer("_texts", "_strings", "_text", "_string", "_nodes", "_Nodes").Replace(gram)
		gv := func(typ, lit string) interface{} { return typ + " " + lit }
		gg := guardText(r, gram)
		defer gg.free()
		c.Input("extractor %q", gram)
		e1, err := extractor.New(gram, &extractor.Options{GetValue: gv})
		noErr(c, err)
		opt := &extractor.Options{GetValue: gv, ScanMode: 0}
		e2, err := extractor.New(gg.b, opt)
		noErr(c, err)
		gg.reuse(r)
		defer func() {
			if opt.Scanner != nil || opt.ScanMode != 0 || opt.GetValue == nil {
				c.Failf("the options are now %+v", *opt)
			}
			if o := extractor.InsertSemis; o.Scanner != nil || o.ScanMode != tpl.InsertSemis || o.GetValue != nil {
				c.Failf("extractor.InsertSemis is now %+v", *o)
			}
		}()
		var old interface{}
		snap := ""
		for k := r.Range(1, 4); k > 0; k-- {
			text := sent()
			c.Input("extractor %q\ntext %q", gram, text)
			want, err1 := e1.SafeParse([]byte(text), "")
			g := guardText(r, text)
			defer g.free()
			got, err2 := e2.SafeParse(g.b, "")
			if a, b := fmt.Sprint(err1), fmt.Sprint(err2); a != b {
				c.Failf("from sealed memory: %s\nfrom a copy: %s", b, a)
			}
			g.reuse(r)
			if d := diffDoc("doc", got, want); d != "" {
				c.Failf("from memory that was sealed and overwritten then: %s", d)
			}
			if old != nil && docText(old) != snap {
				c.Failf("the document of an earlier text is now %s\nit was %s", docText(old), snap)
			}
			old, snap = got, docText(got)
			c.Ev("documents extracted", 1)
		}
		c.Seen(gram + snap)
	case 1:
		p := newBipt("doc = (IDENT | INT | FLOAT | CHAR | STRING | \"if\")/one % ','/sep")
		var toks [][]tpl.Token
		var was []string
		src := ""
		p.table["$one"] = func(p *bipt, t interface{}) {
			l := t.([]tpl.Token)
			toks, was = append(toks, l), append(was, tokList(l))
			src += "|" + l[0].Literal
		}
		p.table["$sep"] = func(p *bipt) { src += "," }
		table := copyTable(p.table)
		opt := &ip.Options{ScanMode: 0}
		o := *opt
		e, err := ip.New(p, opt)
		noErr(c, err)
		for k := r.Range(1, 4); k > 0; k-- {
			text := sent()
			c.Input("interpreter, text %q", text)
			g := guardText(r, text)
			defer g.free()
			src = ""
			noErr(c, e.MatchExactly(g.b, ""))
			a := src
			src = ""
			noErr(c, e.Eval(text))
			if a != src {
				c.Failf("from sealed memory: %s\nfrom a copy: %s", a, src)
			}
			g.reuse(r)
			c.Ev("texts interpreted", 1)
		}
		for i, l := range toks {
			if now := tokList(l); now != was[i] {
				c.Failf("tokens a function has kept are now %s, were %s", now, was[i])
			}
		}
		if d := diffTable(table, p.table); d != "" {
			c.Failf("the function table: %s", d)
		}
		if !reflect.DeepEqual(o, *opt) {
			c.Failf("the options are now %v, were %v", *opt, o)
		}
		if o := ip.InsertSemis; o.Scanner != nil || o.ScanMode != tpl.InsertSemis {
			c.Failf("interpreter.InsertSemis is now %+v", *o)
		}
		c.Ev("tables compared", 1)
		c.Seen("i" + a2s(was))
	case 2:
		l := qengine(true)
		l.SetVar("gtext", "doc = (IDENT | INT | FLOAT | CHAR | STRING | \"if\")/one % ','/sep")
		log := ""
		l.SetVar("add", func(lit string) { log += "|" + lit })
		opt := &qi.Options{}
		l.SetVar("opt", opt)
		noErr(c, l.SafeEval(`
S = class {
fn push(v) { }
fn popArgs(n) { return slice("var") }
}
I = class {
fn grammar() { return gtext }
fn stack() { return new S }
fn fntable() { return tab }
fn one(lit) { add(lit) }
fn sep() { add(",") }
}
tab = {"$one": I.one, "$sep": I.sep, "other": 1}
`))
		v, _ := l.Var("tab")
		tab := v.(map[string]interface{})
		table := copyTable(tab)
		noErr(c, l.SafeEval("eng, err = ip39.interpreter(new I, opt)"))
		v, _ = l.Var("eng")
		e, ok := v.(*qi.Engine)
		if !ok {
			x, _ := l.Var("err")
			c.Failf("interpreter: %v", x)
		}
		for k := r.Range(1, 3); k > 0; k-- {
			text := sent()
			c.Input("interpreter written in qlang, text %q", text)
			g := guardText(r, text)
			defer g.free()
			log = ""
			noErr(c, e.Exec(g.b, ""))
			a := log
			log = ""
			noErr(c, e.Eval(text))
			if a != log {
				c.Failf("from sealed memory: %s\nfrom a copy: %s", a, log)
			}
			g.reuse(r)
			c.Seen("h" + text)
			c.Ev("texts of an interpreter in qlang", 1)
		}
		if d := diffTable(table, tab); d != "" {
			c.Failf("the function table: %s", d)
		}
		if !reflect.DeepEqual(*opt, qi.Options{}) {
			c.Failf("the options are now %v", *opt)
		}
		c.Ev("tables compared", 1)
	}
}

func a2s(l []string) string { return strings.Join(l, "") }

func docText(v interface{}) string { return fmt.Sprintf("%#v", v) }

func copyTable(t map[string]interface{}) map[string]interface{} {
	m := make(map[string]interface{}, len(t))
	for k, v := range t {
		m[k] = v
	}
	return m
}

// diffTable tells how two tables differ; functions are compared by identity.
func diffTable(want, got map[string]interface{}) string {
	var ks []string
	for k := range want {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		g, ok := got[k]
		if !ok {
			return k + " is gone"
		}
		a, b := reflect.ValueOf(want[k]), reflect.ValueOf(g)
		if a.Kind() != b.Kind() {
			return fmt.Sprintf("%s is %v, was %v", k, g, want[k])
		}
		if a.Kind() == reflect.Func {
			if a.Pointer() != b.Pointer() {
				return k + " is another function"
			}
		} else if g != want[k] {
			return fmt.Sprintf("%s is %v, was %v", k, g, want[k])
		}
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%d entries, had %d", len(got), len(want))
	}
	return ""
}

// hostLists are lists of every type a program meets.
func hostList(r *Rand, n int) interface{} {
	switch r.N(7) {
	case 0:
		l := make([]int, n)
		for i := range l {
			l[i] = r.Range(-9, 9)
		}
		return l
	case 1:
		l := make([]float64, n)
		for i := range l {
			l[i] = float64(r.Range(-99, 99)) / 4
		}
		return l
	case 2:
		l := make([]string, n)
		for i := range l {
			l[i] = r.Pick("", "a", "b", "cd", "é") + strconv.Itoa(r.N(5))
		}
		return l
	case 3:
		l := make([]byte, n)
		for i := range l {
			l[i] = byte(r.N(256))
		}
		return l
	case 4:
		l := make([]interface{}, n) // numbers only
		for i := range l {
			if l[i] = r.Range(-9, 9); r.P(40) {
				l[i] = float64(r.Range(-99, 99)) / 4
			}
		}
		return l
	case 5:
		l := make([][]int, n)
		for i := range l {
			l[i] = []int{i, r.N(9)}
		}
		return l
	default:
		l := make([]interface{}, n)
		for i := range l {
			l[i] = []interface{}{nil, r.N(9), 1.5, "s" + strconv.Itoa(i), []int{i}, true, map[string]int{"a": i}}[r.N(7)]
		}
		return l
	}
}

// readers are programs that only read x (a list of n items), y (one as long) and i (an index);
// what they yield is r.
var readers = []string{
	"r = [len(x), cap(x)]", "r = x[i]", "r = get(x, i)", "r = x[i:]", "r = x[:i]", "r = sub(x, i, len(x))",
	"r = max(x...)", "r = min(x...)", "r = sliceFrom(x...)", "r = sliceFrom(y[i], x...)", "r = mapFrom(x...)", "r = mapFrom(\"k\", x...)",
	"f = fn(a...) { return [len(a), a[i]] }; r = f(x...)", "f = fn(b, a...) { return [b, len(a), a] }; r = f(y, x...)",
	"r = \"\"; for j = 0; j < len(x); j++ { tr(x[j], y[j]) }", "tr(x...)", "tr(1, x...)",
	"C = class { fn m(a...) { return a[i] } fn _init(l) { this.l = l } fn g() { return this.l[i] } }; o = new C(x); r = [o.m(y...), o.g()]",
	"f = fn() { return x[i] }; g = fn() { tr(f()); return f() }; r = g()", "f = fn(l) { defer tr(l[i]); return l[i:] }; r = f(x)",
	"q = append(x[:], x...)", // see memLists: only without room
	"r = append(sliceFrom(), x...)", "r = append(slice(\"var\"), x...)", "q = sliceFrom(x, y); r = q[1][i]",
	"r = x[i] + y[i]", "r = x[i] == y[i]", "z = x; z, w = [y, x]; r = [z[i], w[i]]", "r = host(x...)", "r = host(y[i], x...)", "r = hostl(x)",
	"r = string(x[i])", "r = type(x)", "switch x[i] { case y[i]: r = 1; default: r = x[i] }", "if x[i] != y[i] { r = x } else { r = y }",
	"m = {\"a\": x, \"b\": y}; r = m.a[i]", "m = {\"a\": x}; set(m, \"c\", y); r = m.c[i]", "s = \"\"; s = x[i]; r = s", "r = printl(x...)",
	"q = sliceFrom(x...); set(q, i, q[0]); r = x", "q = append(sliceFrom(), x...); set(q, i, q[0]); q = append(q, q[i]); r = x[i]", "q = append(slice(\"var\"), x...); set(q, i, nil); r = x[i]",
	"f = fn(a...) { return a }; q = f(i, x...); set(q, i, nil); r = x[i]", "f = fn(b, a...) { return fn() { return len(a) } }; g = f(i, x...); r = [g(), len(x)]",
	"C = class { fn _init(l...) { this.l = l } fn g() { return len(this.l) } }; o = new C(x, y, i); r = o.g()",
	"a = x[i]; a += y[i]; r = a", "a = x[i]; a++; r = [a, x[i]]", "a = x[i]; a *= 2; r = [a, x[i]]",
}

// memLists: a program reads lists of the host.
func memLists(c *Case) {
	r := c.R
	for k := 0; k < 6; k++ {
		n := r.Pick2(1, 1, 2, 2, 3, 4, 5, 6, 8, 9, 16, 17, 33)
		x := hostList(r, n)
		y := hostList(r, n)
		if r.P(50) {
			y = reflect.AppendSlice(reflect.MakeSlice(reflect.TypeOf(x), 0, n), reflect.ValueOf(x)).Interface()
		}
		if r.P(15) {
			y = x
		}
		i := r.N(n)
		spare := r.Pick2(0, 0, 1, 3)
		text := readers[r.N(len(readers))]
		if strings.Contains(text, "append(x") {
			spare = 0
		}
		if k := strings.Count(text, "z, w"); k > 0 && r.P(50) && n <= 9 {
			text = strings.Join(strings.Split("abcdefghj"[:n], ""), ", ") + " = x; r = a"
		}
		c.Input("x = %#v\ny = %#v\ni = %d\n%s", x, y, i, text)
		run := func(x, y interface{}) string {
			l := qengine(true)
			l.SetVar("x", x)
			l.SetVar("y", y)
			l.SetVar("i", i)
			l.SetVar("host", func(a ...interface{}) string { return fmt.Sprintf("%T%v", a, a) })
			l.SetVar("hostl", func(a interface{}) string { return fmt.Sprintf("%T%v", a, a) })
			l.SetVar("printl", fmt.Sprint)
			here().qtrace = here().qtrace[:0]
			err := l.SafeEval(text)
			v, _ := l.Var("r")
			q, _ := l.Var("q")
			return fmt.Sprintf("error %v, r = %T%v, q = %T%v, x = %v, y = %v, calls %q", err, v, v, q, q, x, y, here().qtrace)
		}
		sx, g1 := guardSlice(x, spare)
		sy, g2 := sx, g1
		if reflect.ValueOf(x).Pointer() != reflect.ValueOf(y).Pointer() {
			sy, g2 = guardSlice(y, spare)
		}
		// capacities are those of the sealed lists
		room := func(l interface{}) interface{} {
			v := reflect.ValueOf(l)
			m := reflect.MakeSlice(v.Type(), v.Len(), v.Cap())
			reflect.Copy(m, v)
			return m.Interface()
		}
		got := run(sx, sy)
		want := run(room(sx), room(sy))
		if got != want {
			c.Failf("with sealed lists: %s\nwith others: %s", got, want)
		}
		if strings.HasPrefix(got, "error <nil>") {
			c.Ev("lists read", 1)
		} else {
			c.Ev("lists read: errors", 1)
		}
		g1.free()
		if g2 != g1 {
			g2.free()
		}
		c.Seen(fmt.Sprint(text, x, y, i))
	}
}

var argReaders = []string{
	"fn(a) { return a }", "fn(a, b) { return [a, b] }", "fn(a, b, c) { return b }", "fn(a, b, c, d) { a = d; return a }",
	"fn(a...) { return a }", "fn(a, b...) { return [a, len(b)] }", "fn(a, b, c...) { b = a; return [a, b, c] }", "fn(a...) { a = 1; return a }",
	"fn(a...) { return fn() { return a } }", "fn(a, b...) { defer tr(b); tr(a); return len(b) }", "fn(a) { a = [a]; return a }", "fn(a, b) { a, b = [b, a]; return [a, b] }",
	"fn(a...) { f = fn(x...) { return len(x) }; return f(a...) }", "fn() { }", "fn(a...) { }", "fn(a, b...) { panic(\"no\") }", "fn(a, b...) { unset(\"b\"); b = 2; return b }",
	"fn(a...) { for i = 0; i < len(a); i++ { tr(a[i]) } }", "fn(a, b...) { class { fn m() { return 1 } }; return a }",
	"(new C).m", "(new C).v",
}

// memCalls: the host calls functions of a script.
func memCalls(c *Case) {
	r := c.R
	l := qengine(true)
	noErr(c, l.SafeEval("C = class { fn m(a, b) { return [a, b] } fn v(a...) { return a } }\n"))
	for k := 0; k < 8; k++ {
		text := argReaders[r.N(len(argReaders))]
		n := r.Pick2(0, 1, 1, 2, 2, 3, 4, 5, 9)
		args := make([]interface{}, n)
		for i := range args {
			args[i] = []interface{}{nil, r.N(9), 1.5, "s" + strconv.Itoa(i), []int{i}, true, map[string]int{"a": i}}[r.N(7)]
		}
		c.Input("%s\narguments %#v", text, args)
		noErr(c, l.SafeEval("f = "+text))
		l.Ret()
		f, _ := l.Var("f")
		call := func(a []interface{}) (s string) {
			here().qtrace = here().qtrace[:0]
			defer func() {
				if e := recover(); e != nil {
					s = fmt.Sprint("panic ", e)
				}
				s += fmt.Sprintf(" calls %q", here().qtrace)
			}()
			var v interface{}
			switch x := f.(type) {
			case *cl.Function:
				v = x.Call(a...)
			case interface {
				Call(a ...interface{}) interface{}
			}:
				v = x.Call(a...)
			default:
				c.Failf("f is %T", f)
			}
			if g, ok := v.(*cl.Function); ok {
				v = g.Call()
			}
			return fmt.Sprintf("%T%v", v, v)
		}
		sealed, g := guardSlice(args, r.N(3))
		got := call(sealed.([]interface{}))
		want := call(args)
		if got != want {
			c.Failf("with sealed arguments: %s\nwith others: %s", got, want)
		}
		if strings.HasPrefix(got, "panic") {
			c.Ev("calls: panics", 1)
		} else {
			c.Ev("calls", 1)
		}
		g.free()
		c.Seen(fmt.Sprint(text, args))
	}
}

func init() {
	register(&Prop{ID: "C45",
		Rule:    "texts, grammars, token runs, arguments and lists of the host lie in memory that cannot be written to, with room behind their end: lexical fragments in every scan mode, random grammars compiled and matched, random qlang programs of 1-3 texts, extractors, interpreters and interpreters written in qlang, scripts that read lists of the host, calls of functions of a script. Outcomes are compared with those of ordinary memory or of a reference; then texts and grammars are overwritten and what was handed out is compared again; a case is distinct by its text and data",
		MustSee: []string{"texts scanned", "texts overwritten", "grammars overwritten", "matches of text", "matches of tokens", "runs of tokens evaluated", "programs run", "documents extracted", "texts interpreted", "texts of an interpreter in qlang", "tables compared", "lists read", "lists read: errors", "calls", "calls: panics"},
		Parts: []*Part{
			{Name: "scan", Quick: 6000, Thorough: 300000, Run: memScan},
			{Name: "match", Quick: 6000, Thorough: 300000, Run: memGrammar},
			{Name: "programs", Quick: 2000, Thorough: 100000, Run: memProgram},
			{Name: "engines", Quick: 4000, Thorough: 100000, Run: memEngines},
			{Name: "lists", Quick: 3000, Thorough: 100000, Run: memLists},
			{Name: "calls", Quick: 2000, Thorough: 100000, Run: memCalls},
		}})
	_ = qlang.New
}
