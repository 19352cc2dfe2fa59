package main

// C39: interpreters written in qlang, run by the interpreter module.

import (
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/qiniu/text/tpl"
	ncalc "github.com/qiniu/text/tpl/number"
	"github.com/qiniu/text/tpl/qlang"
	cl "github.com/qiniu/text/tpl/qlang/cl"
	qi "github.com/qiniu/text/tpl/qlang/cl/interpreter"
)

// hworld is the recording side of the case that runs.
type hworld struct {
	specs map[string]*mspec
	st    interface{}
	it    map[interface{}]int
	eng   *qi.Engine
	t     *gtext
	base  func([]tpl.Token) int
	stk   []interface{}
	typed bool // arguments of one type are handed over as a list of that type
	log   []string
	calls map[int]int
	depth int
	last  []tpl.Token
	fail  string
}

func (w *hworld) failf(format string, a ...interface{}) {
	if w.fail == "" {
		w.fail = fmt.Sprintf(format, a...)
	}
}

func (w *hworld) put(s string) {
	w.log = append(w.log, s)
	if len(w.log) > 3000 {
		panic("too many calls")
	}
}

// rec records the call of a method; the result is its number.
func (w *hworld) rec(name string, this interface{}, args ...interface{}) int {
	sp := w.specs[name]
	w.calls[sp.id]++
	d := "stk"
	if sp.kind == 2 {
		d = fmt.Sprintf("ipt%d", w.it[this])
	} else if this != w.st {
		w.failf("%s gets another stack", name)
	}
	for _, a := range args {
		d += "," + w.desc(sp, a)
	}
	if len(args) != len(sp.in)-1 {
		w.failf("%s gets %d arguments", name, len(args))
	}
	n := w.calls[sp.id]
	w.put(name + "(" + d + ")")
	return n
}

func (w *hworld) desc(sp *mspec, a interface{}) string {
	switch sp.in[1] {
	case tIntf:
		if a == nil {
			return "nil"
		}
		toks, ok := a.([]tpl.Token)
		if !ok || len(toks) == 0 {
			w.failf("%s gets %T:%v for the matched tokens", sp.name, a, a)
			return ""
		}
		p := w.base(toks)
		w.last = toks
		return fmt.Sprintf("src%d+%d", p, len(toks))
	case tEng:
		if a != interface{}(w.eng) {
			w.failf("%s gets %T instead of the engine", sp.name, a)
		}
		return "eng"
	}
	return valStr(a)
}

// fin pushes what the method has to push, or fails; an error it returns has to be thrown.
func (w *hworld) fin(name string, n int, errs ...interface{}) interface{} {
	sp := w.specs[name]
	if sp.kind == 1 {
		w.stk = append(w.stk, sp.pushed(n)...)
	}
	if n != sp.failAt || len(errs) > 0 && errs[0] != nil {
		return nil
	}
	return w.boom(sp, n)
}

func (w *hworld) boom(sp *mspec, n int) interface{} {
	switch sp.failHow {
	case 0:
		panic(errors.New(sp.failMsg(n)))
	case 1:
		panic(sp.failMsg(n))
	case 2:
		return errors.New(sp.failMsg(n))
	}
	return sp.failMsg(n)
}

// vals records the call of a function of values and gives its results.
func (w *hworld) vals(name string, args ...interface{}) (interface{}, interface{}) {
	sp := w.specs[name]
	w.calls[sp.id]++
	n := w.calls[sp.id]
	var d []string
	for _, a := range args {
		d = append(d, valStr(a))
	}
	w.put(name + "(" + strings.Join(d, ",") + ")")
	if n == sp.failAt {
		if e := w.boom(sp, n); e != nil {
			return nil, e
		}
	}
	if res := sp.results(n, d); len(res) > 0 {
		return res[0], nil
	}
	return nil, nil
}

func (w *hworld) pop(n int) interface{} {
	if n > len(w.stk) {
		panic("too few values")
	}
	args := w.stk[len(w.stk)-n:]
	w.stk = w.stk[: len(w.stk)-n : len(w.stk)-n]
	if !w.typed || args[0] == nil {
		return args
	}
	l := reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(args[0])), n, n)
	for i, a := range args {
		if a == nil || reflect.TypeOf(a) != reflect.TypeOf(args[0]) {
			return args
		}
		l.Index(i).Set(reflect.ValueOf(a))
	}
	return l.Interface()
}

func init() {
	qlang.Import("h39", map[string]interface{}{
		"rec": func(name string, this interface{}, args ...interface{}) int {
			return here().hw.rec(name, this, args...)
		},
		"fin": func(name string, n int, errs ...interface{}) interface{} { return here().hw.fin(name, n, errs...) },
		"vals": func(name string, args ...interface{}) (interface{}, interface{}) {
			return here().hw.vals(name, args...)
		},
		"push": func(v interface{}) { here().hw.stk = append(here().hw.stk, v) },
		"pop":  func(n int) interface{} { return here().hw.pop(n) },
		"src":  func() interface{} { return here().hw.last },
		"can":  func() bool { return here().hw.depth < 2 && len(here().hw.last) > 0 },
		"enter": func(rule string) int {
			here().hw.put("<" + rule)
			here().hw.depth++
			return here().hw.depth - 1
		},
		"leave": func(d int) { here().hw.depth = d },
		"swallowed": func(d int) {
			here().hw.depth = d
			here().hw.put(">")
		},
	})
	qlang.Import("ip39", qi.Exports)
	qlang.Import("num39", ncalc.Fntable)
}

// script writes the function of a spec.
func hostedFn(r *Rand, sp *mspec) string {
	if sp.kind == 0 {
		var a []string
		for i := range sp.in {
			a = append(a, fmt.Sprintf("a%d", i))
		}
		l := strings.Join(a, ", ")
		s := fmt.Sprintf("fn(%s) {\n\t_r, _e = h39.vals(%q%s)\n\tif _e != nil { panic(_e) }\n", l, sp.name, strings.TrimRight(", "+l, ", "))
		if len(sp.out) > 0 {
			s += "\treturn _r\n"
		}
		return s + "}"
	}
	s := "fn m" + strconv.Itoa(sp.id) + "("
	arg := ""
	if len(sp.in) > 1 {
		s += "a"
		arg = ", a"
	}
	s += fmt.Sprintf(") {\n\t_n = h39.rec(%q, this%s)\n", sp.name, arg)
	err := ""
	if sp.sub != "" {
		call := fmt.Sprintf("a.evalCode(it2, %q, h39.src())", sp.sub)
		s += fmt.Sprintf("\t_e = nil\n\tif h39.can() {\n\t\t_d = h39.enter(%q)\n", sp.sub)
		if sp.swallow {
			s += "\t\tfn() {\n\t\t\tdefer fn() { recover() }()\n\t\t\t" + call + "\n\t\t}()\n\t\th39.swallowed(_d)\n\t}\n"
		} else {
			s += "\t\t_e = " + call + "\n\t\th39.leave(_d)\n\t}\n"
		}
		err = ", _e"
	}
	s += fmt.Sprintf("\t_x = h39.fin(%q, _n%s)\n", sp.name, err)
	if err != "" {
		s += "\tif _e != nil { panic(_e) }\n"
	}
	return s + "\tif _x != nil { panic(_x) }\n}"
}

func genHosted(r *Rand, id int, d *gdom, mutes bool) *mspec {
	sp := &mspec{id: id}
	if mutes {
		switch id {
		case 1, 2:
			return &mspec{id: id, name: "_mute", builtin: true}
		case 3:
			return &mspec{id: id, name: "_unmute", builtin: true}
		}
	}
	sp.kind = []int{1, 1, 2, 2, 0}[r.N(5)]
	pre := r.Pick("", "", "", "_")
	if r.P(20) {
		sp.failAt = 1 + r.N(3)
		sp.failHow = r.N(4)
	}
	if sp.kind == 0 {
		sp.name = pre + r.Pick("f", "F", "été", "fSrc") + strconv.Itoa(id)
		for i := 1 + r.N(3); i > 0; i-- {
			sp.in = append(sp.in, tIntf)
		}
		if r.P(80) {
			sp.out = []reflect.Type{[]reflect.Type{tFloat, tString, tInt}[r.N(3)]}
		}
		if r.P(40) { // a host function
			sp.push = 1
			for i := range sp.in {
				sp.in[i] = []reflect.Type{tFloat, tFloat, tString, tInt, tIntf}[r.N(5)]
			}
			sp.failHow = r.N(2)
		}
		return sp
	}
	sp.in = []reflect.Type{tIntf}
	sp.push = r.N(3)
	b := "m" + strconv.Itoa(id)
	if r.P(30) {
		b = "Mark" + strconv.Itoa(id)
	}
	sp.name = pre + b
	if r.P(20) {
		return sp
	}
	if b[0] == 'M' {
		sp.in = append(sp.in, tInt)
		sp.name += r.Pick("", "", "Src", "Float")
		return sp
	}
	end := r.Pick("Src", "Src", "Src", "Src", "Engine", "Engine", "Engine", "Engine", "Float", "Int", "", "SrcX", "Int3", "Engines", "IntSrc", "SrcInt", "EngineFloat", "src")
	sp.name += end
	t := tString
	switch {
	case strings.HasSuffix(end, "Src"):
		t = tIntf
	case end == "Engine":
		t = tEng
		if r.P(map[bool]int{true: 90, false: 60}[mutes]) {
			sp.sub = d.rules[r.N(len(d.rules))].name
			sp.swallow = r.P(60)
		}
	case strings.HasSuffix(end, "Float"):
		t = tFloat
	case strings.HasSuffix(end, "Int"):
		t = tInt
	}
	sp.in = append(sp.in, t)
	return sp
}

func checkHosted(c *Case, mutes bool) {
	r := c.R
	conf := interpConf
	conf.syms = someSyms(r)
	conf.rules = 1 + r.N(3)
	conf.depth = 2 + r.N(2)
	if mutes {
		conf.act = 60
	}
	d := genDom(r, conf)
	k := 2 + r.N(6)
	if mutes {
		k = 5 + r.N(4)
	}
	specs := map[int]*mspec{}
	w := &hworld{specs: map[string]*mspec{}, it: map[interface{}]int{}, calls: map[int]int{}, typed: r.P(40)}
	here().hw = w
	var table, ms, mi string
	item := func(name, s string) { table += fmt.Sprintf("\t\t%q: %s,\n", "$"+name, s) }
	host := map[string]interface{}{}
	for id := 1; id <= k; id++ {
		sp := genHosted(r, id, d, mutes)
		specs[id] = sp
		if sp.builtin {
			continue
		}
		w.specs[sp.name] = sp
		body := ""
		if sp.kind != 0 || sp.push == 0 {
			body = hostedFn(r, sp)
		}
		switch {
		case sp.kind == 1:
			ms += body + "\n"
			item(sp.name, "S.m"+strconv.Itoa(id))
		case sp.kind == 2:
			mi += body + "\n"
			item(sp.name, "I.m"+strconv.Itoa(id))
		case sp.push == 0:
			item(sp.name, body)
		default:
			host[sp.name] = reflect.MakeFunc(reflect.FuncOf(sp.in, sp.out, false), func(args []reflect.Value) (ret []reflect.Value) {
				var a []interface{}
				for _, v := range args {
					a = append(a, v.Interface())
				}
				if res, _ := w.vals(sp.name, a...); len(sp.out) > 0 {
					ret = append(ret, reflect.ValueOf(res).Convert(sp.out[0]))
				}
				return
			}).Interface()
			item(sp.name, fmt.Sprintf("hostfn[%q]", sp.name))
		}
	}
	var walk func(n *gn)
	walk = func(n *gn) {
		if n.op == 'a' {
			n.id = 1 + r.N(k)
			n.sym = specs[n.id].name
		}
		for _, x := range n.k {
			walk(x)
		}
	}
	for _, ru := range d.rules {
		walk(ru.body)
	}
	text := grammarText(r, ruleToks(r, d))
	opt := r.Pick("nil", "nil", "auto")
	script := "S = class {\nfn push(v) { h39.push(v) }\nfn popArgs(n) { return h39.pop(n) }\n" + ms + "}\n" +
		"I = class {\nfn grammar() { return gtext }\nfn stack() { return st }\nfn fntable() {\n\treturn {\n" + table + "\t}\n}\n" + mi + "}\n" +
		"st = new S\nit = new I\nit2 = new I\neng, err = ip39.interpreter(it, opt)\n"
	in := fmt.Sprintf("grammar %s\nscanner %s typed %v\n%s", text, opt, w.typed, script)
	c.Input("%s", in)
	lang, err := qlang.New(qlang.InsertSemis)
	if err != nil {
		c.Failf("qlang.New: %v", err)
	}
	lang.SetVar("gtext", text)
	lang.SetVar("hostfn", host)
	lang.SetVar("opt", nil)
	var scan *ownScanner
	if opt == "auto" {
		scan = newOwnScanner()
		lang.SetVar("opt", &qi.Options{Scanner: scan})
	}
	if table == "" {
		script = strings.Replace(script, "return {\n\t}", "return mkmap(\"string:var\")", 1)
	}
	if err := lang.SafeEval(script); err != nil {
		c.Failf("script: %v", err)
	}
	if v, _ := lang.Var("err"); v != nil {
		c.Failf("interpreter(): %v", v)
	}
	v, _ := lang.Var("eng")
	w.eng = v.(*qi.Engine)
	w.st, _ = lang.Var("st")
	if scan != nil && w.eng.Tokener() != tpl.Tokener(scan) {
		c.Failf("the engine doesn't use the scanner given to interpreter()")
	}
	for i, n := range []string{"it", "it2"} {
		v, _ := lang.Var(n)
		w.it[v] = i + 1
	}
	it, _ := lang.Var("it")
	for i := r.N(12); i > 0; i-- {
		w.stk = append(w.stk, []interface{}{1.5, "s", i, uint8(3)}[r.W(60, 20, 15, 5)])
	}
	rw := &rworld{stk: append([]interface{}{}, w.stk...), d: d, specs: specs, calls: map[int]int{}, ipt: 1, seen: map[string]int{}, hosted: true}
	for i := 0; i < 4; i++ {
		s := d.sentence(r, d.rules[0].body, append(conf.syms, "IDENT"))
		t := renderSyms(r, s, r.P(50))
		how := r.N(3)
		in += fmt.Sprintf("text %q (%d)\n", t.src, how)
		c.Input("%s", in)
		rw.in, rw.t, rw.log, rw.mute, rw.last = d.seenAs(s), t, nil, 0, gev{}
		w.t, w.log, w.depth, w.last = t, nil, 0, nil
		ref, ok := refMatch(d, d.rules[0].body, rw.in)
		if !ok {
			return
		}
		if ref.kind == "ok" && ref.n < len(s) {
			ref.kind = "fail"
		}
		var ab *iabort
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, is := e.(refBudget); !is {
						panic(e)
					}
					ok = false
				}
			}()
			ab = rw.run(ref.ev)
		}()
		if !ok || rw.vague {
			return
		}
		w.base = toksAt(t, w.eng.Scanner, func(s string) {
			w.failf("%s", s)
			panic(s)
		})
		var got error
		if how == 0 {
			got = w.eng.Exec(t.src, r.Pick("", "x.h"))
		} else {
			lang.SetVar("txt", string(t.src))
			eval := "eng.eval(txt)"
			if how == 2 {
				lang.SetVar("txt", t.src)
				eval = `eng.exec(txt, "f")`
			}
			if err := lang.SafeEval(`ok = 0; res = [1.5, "a", ` + eval + `, fn() { return 7 }()]; ok = 1 + res[3]`); err != nil {
				c.Failf("the script that evaluates: %v", err)
			}
			v, _ := lang.Var("res")
			l := v.([]interface{})
			if k, _ := lang.Var("ok"); len(l) != 4 || l[0] != 1.5 || l[1] != "a" || l[3] != 7 || k != 8 {
				c.Failf("the script that evaluates gets %v, %v", l, k)
			}
			if l[2] != nil {
				if got, ok = l[2].(error); !ok {
					c.Failf("eval returns %T:%v", l[2], l[2])
				}
			}
		}
		if w.fail != "" {
			c.Failf("%s", w.fail)
		}
		for i := range w.log {
			if i < len(rw.log) && strings.Contains(rw.log[i], "int:?") {
				w.log[i] = anyCount.ReplaceAllString(w.log[i], ",int:?$1")
			}
		}
		if got1, want := strings.Join(w.log, " "), strings.Join(rw.log, " "); got1 != want {
			c.Failf("calls differ (%v)\n got  %s\n want %s", got, got1, want)
		}
		c.Ev("calls", len(w.log))
		var gs, ws []string
		for _, v := range w.stk {
			gs = append(gs, valStr(v))
		}
		for _, v := range rw.stk {
			ws = append(ws, valStr(v))
		}
		if fmt.Sprint(gs) != fmt.Sprint(ws) {
			c.Failf("the stack holds %v, want %v", gs, ws)
		}
		if interface{}(w.eng.Interpreter) != it {
			c.Failf("the interpreter was exchanged")
		}
		switch {
		case ab == nil:
			if (got == nil) != (ref.kind == "ok") {
				c.Failf("evaluation: got %v, want %s", got, ref.kind)
			}
			c.Ev("evaluations "+ref.kind, 1)
		case got == nil:
			c.Failf("a failed evaluation is no error (%s)", ab.msg)
		default:
			if msg := got.Error(); ab.msg != "panic" && !strings.Contains(msg, ab.msg) {
				c.Failf("the error %q lacks the cause %q", msg, ab.msg)
			}
			if ab.match {
				c.Ev("evaluations aborted by an error of saved code", 1)
			}
			c.Ev("evaluations aborted", 1)
		}
		if len(w.log) > 0 {
			c.Seen(strings.Join(w.log, " "))
		}
	}
	for _, x := range sortedKeys(rw.seen) {
		c.Ev(x, rw.seen[x])
	}
}

// ---------------------------------------------------------------- a calculator in qlang

const hostedCalc = `
Stk = class {
	fn _init() { set(this, "v", slice("var")) }
	fn clear() { set(this, "v", slice("var")) }
	fn push(x) { set(this, "v", append(this.v, x)) }
	fn pushIdent(name) {
		switch name {
		case "e": this.push(2.71828182845904523536028747135266249775724709369995957496696763)
		case "pi": this.push(3.14159265358979323846264338327950288419716939937510582097494459)
		case "phi": this.push(1.61803398874989484820458683436563811772030917980576286213544862)
		case "Inf": this.push(num39.inf(1))
		case "NaN": this.push(num39.NaN())
		default: panic("undefined symbol: " + name)
		}
	}
	fn arity(n) { this.push(n) }
	fn popArgs(n) {
		l = len(this.v)
		if l < n { panic("too few values") }
		a = this.v[l-n:l]
		set(this, "v", this.v[:l-n])
		return a
	}
}

Calc = class {
	fn _init() { set(this, "stk", new Stk) }
	fn grammar() { return GRAMMAR }
	fn stack() { return this.stk }
	fn fntable() { return {
		"$mul": MUL, "$quo": fn(a, b) { return a / b }, "$mod": num39.mod,
		"$add": fn(a, b) { return a + b }, "$sub": SUB, "$neg": NEG,
		"$pushFloat": Stk.push, "$ident": Stk.pushIdent, "$ARITY": Stk.arity, "$call": Calc.call,
	} }
	fn call(name) {
		n = this.stk.popArgs(1)[0]
		args = this.stk.popArgs(n)
		f = num39[name]
		if f == undefined { panic("function not found: " + name) }
		this.stk.push(f(args...))
	}
	fn ret() {
		l = len(this.stk.v)
		r = undefined
		if l == 1 { r = this.stk.v[0] }
		this.stk.clear()
		return r
	}
}

calc = new Calc
eng, err = ip39.interpreter(calc, OPTS)
`

const hostedGrammar = `
term = factor *('*' factor/mul | '/' factor/quo | '%' factor/mod)

doc = term *('+' term/add | '-' term/sub)

factor =
	FLOAT/pushFloat |
	'-' factor/neg |
	'(' doc ')' |
	(IDENT '(' doc %= ','/ARITY ')')/call |
	IDENT/ident |
	'+' factor
`

type hostedEng struct {
	lang qlang.Qlang
	eng  *qi.Engine
	calc *cl.Object
}

func hostedCalculator(c *Case, variant string) *hostedEng {
	if e := here().hostedEngs[variant]; e != nil {
		return e
	}
	lang, err := qlang.New(qlang.InsertSemis)
	if err != nil {
		c.Failf("qlang.New: %v", err)
	}
	s := strings.Replace(hostedCalc, "GRAMMAR", strconv.Quote(hostedGrammar), 1)
	p := []string{"MUL", "fn(a, b) { return a * b }", "SUB", `num39["$sub"]`, "NEG", "fn(a) { return -a }", "OPTS", "nil"}
	if variant == "host" {
		p = []string{"MUL", `num39["$mul"]`, "SUB", "fn(a, b) { return a - b }", "NEG", `num39["$neg"]`, "OPTS", "nil"}
	}
	if err := lang.SafeEval(strings.NewReplacer(p...).Replace(s)); err != nil {
		c.Failf("the calculator: %v", err)
	}
	if e, _ := lang.Var("err"); e != nil {
		c.Failf("interpreter(): %v", e)
	}
	e := &hostedEng{lang: lang}
	v, _ := lang.Var("eng")
	e.eng = v.(*qi.Engine)
	v, _ = lang.Var("calc")
	e.calc = v.(*cl.Object)
	here().hostedEngs[variant] = e
	return e
}

func checkHostedCalc(c *Case) {
	r := c.R
	variant := r.Pick("script", "host")
	e := hostedCalculator(c, variant)
	d := *calcDefs["number"]
	d.name = "the qlang calculator (" + variant + ")"
	how := r.N(2)
	d.eval = func(c *Case, text string) (interface{}, error) {
		var res interface{}
		if how == 0 {
			err := e.eng.Eval(text)
			res = e.calc.Cls.Fns["ret"].Call(e.calc)
			if err != nil {
				return nil, err
			}
		} else {
			e.lang.SetVar("txt", text)
			if err := e.lang.SafeEval("err = eng.eval(txt); outcome = calc.ret()"); err != nil {
				c.Failf("the script that evaluates: %v", err)
			}
			ev, _ := e.lang.Var("err")
			if ev != nil {
				return nil, ev.(error)
			}
			res, _ = e.lang.Var("outcome")
		}
		switch x := res.(type) {
		case float64:
			return x, nil
		}
		c.Failf("the result is %T:%v", res, res)
		return nil, nil
	}
	var in string
	for i := 1 + r.N(4); i > 0; i-- {
		text, ast := d.line(r, 1+r.N(4))
		in += fmt.Sprintf("%q ", text)
		c.Input("%s %d: %s", variant, how, in)
		d.checkLine(c, text, ast)
	}
	c.Seen(in)
}

// ---------------------------------------------------------------- creation

func checkHostedNew(c *Case) {
	type item struct {
		what, s string
		bad     bool
	}
	stk := "S = class {\nfn push(v) { h39.push(v) }\nfn popArgs(n) { return h39.pop(n) }\nfn none() { }\nfn one(a) { }\nfn two(a, b) { }\nfn more(a...) { }\n}\nK = class {\nfn z() { }\nfn two(a, b) { }\nfn more(a...) { }\n}\n"
	mk := func(grammar, stack, table string) string {
		return stk + "I = class {\nfn grammar() { " + grammar + " }\nfn stack() { " + stack + " }\nfn fntable() { " + table + " }\nfn none() { }\nfn one(a) { }\nfn two(a, b) { }\n}\nobj = new I\n"
	}
	g, s := "return \"doc = IDENT/m\"", "return new S"
	fnt := func(v string) string { return mk(g, s, "return {\"$m\": "+v+", \"$x\": nil, \"$y\": 1}") }
	items := []item{
		{"stack method without argument", fnt("S.none"), false},
		{"stack method", fnt("S.one"), false},
		{"interpreter method without argument", fnt("I.none"), false},
		{"interpreter method", fnt("I.one"), false},
		{"function", fnt("fn(a, b, c, d) { }"), false},
		{"host function", fnt("num39.abs"), false},
		{"method of another class", fnt("K.two"), false},
		{"no object: nil", "obj = nil", true},
		{"no object: map", "obj = {\"grammar\": 1}", true},
		{"no object: class", fnt("S.one") + "obj = I", true},
		{"no object: string", "obj = \"doc = IDENT\"", true},
		{"no methods", stk + "obj = new K", true},
		{"no grammar", stk + "I = class {\nfn stack() { return new S }\nfn fntable() { return {\"$m\": S.one} }\n}\nobj = new I", true},
		{"no stack", stk + "I = class {\nfn grammar() { return \"doc = IDENT\" }\nfn fntable() { return {\"$m\": S.one} }\n}\nobj = new I", true},
		{"no fntable", stk + "I = class {\nfn grammar() { return \"doc = IDENT\" }\nfn stack() { return new S }\n}\nobj = new I", true},
		{"grammar no string", mk("return 5", s, "return {\"$m\": S.one}"), true},
		{"grammar nil", mk("", s, "return {\"$m\": S.one}"), true},
		{"grammar in error", mk("return \"doc = (IDENT/m\"", s, "return {\"$m\": S.one}"), true},
		{"grammar incomplete", mk("return \"doc = IDENT/m x\"", s, "return {\"$m\": S.one}"), true},
		{"grammar throws", mk("panic(\"no grammar\")", s, "return {\"$m\": S.one}"), true},
		{"stack no object", mk(g, "return [1]", "return {\"$m\": S.one}"), true},
		{"stack nil", mk(g, "", "return {\"$m\": S.one}"), true},
		{"stack throws", mk(g, "panic(\"no stack\")", "return {\"$m\": S.one}"), true},
		{"fntable nil", mk(g, s, ""), true},
		{"fntable a list", mk(g, s, "return [S.one]"), true},
		{"fntable throws", mk(g, s, "return {\"$m\": nosuch}"), true},
		{"unknown mark", mk(g, s, "return {\"$n\": S.one}"), true},
		{"mark without $", mk(g, s, "return {\"m\": S.one}"), true},
		{"item nil", fnt("nil"), true},
		{"item int", fnt("5"), true},
		{"item string", fnt("\"f\""), true},
		{"item object", fnt("new S"), true},
		{"item bound method", fnt("(new S).one"), true},
		{"item class", fnt("S"), true},
		{"stack method with two arguments", fnt("S.two"), true},
		{"interpreter method with two arguments", fnt("I.two"), true},
		{"variadic stack method", fnt("S.more"), true},
		{"variadic method of another class", fnt("K.more"), true},
		{"variadic function", fnt("fn(a, b...) { }"), true},
		{"function without parameter", fnt("fn() { }"), true},
		{"variadic host function", fnt("num39.max"), true},
		{"host function without parameter", fnt("num39.NaN"), true},
	}
	it := items[c.Idx%len(items)]
	mark := []string{"m", "M", "_m", "_M", "_", "é"}[c.Idx/len(items)%6]
	script := strings.NewReplacer("IDENT/m", "IDENT/"+mark, "$m", "$"+mark).Replace(it.s)
	c.Input("%s as %q\n%s", it.what, mark, script)
	c.Seen(fmt.Sprint(c.Idx))
	here().hw = &hworld{}
	lang, err := qlang.New(qlang.InsertSemis)
	if err != nil {
		c.Failf("qlang.New: %v", err)
	}
	if err := lang.SafeEval(script + "\neng = 1; err = 2\nres = [ip39.interpreter(obj, nil), ip39.interpreter(obj, ip39.insertSemis)]\n"); err != nil {
		c.Failf("the script: %v", err)
	}
	v, _ := lang.Var("res")
	for _, x := range v.([]interface{}) {
		l := x.([]interface{})
		e, isErr := l[1].(error)
		eng, isEng := l[0].(*qi.Engine)
		if len(l) != 2 || l[1] != nil && (!isErr || e.Error() == "") || !isEng || (eng != nil) != (l[1] == nil) {
			c.Failf("interpreter() gives %v", l)
		}
		if isErr != it.bad {
			c.Failf("refused: %v (%v), want %v", isErr, e, it.bad)
		}
	}
	if it.bad {
		c.Ev("interpreters refused", 1)
	} else {
		c.Ev("interpreters created", 1)
	}
}

// ---------------------------------------------------------------- odd stacks

type oddPop struct {
	name string
	val  func(n int) interface{}
	ok   bool // a list of n values
	ints bool // of ints
}

func oddList(n int) []interface{} {
	l := make([]interface{}, n)
	for i := range l {
		l[i] = float64(i) + 1.5
	}
	return l
}

var oddPops = []oddPop{
	{"list", func(n int) interface{} { return oddList(n) }, true, false},
	{"list of floats", func(n int) interface{} {
		l := make([]float64, n)
		for i := range l {
			l[i] = float64(i) + 1.5
		}
		return l
	}, true, false},
	{"list of ints", func(n int) interface{} {
		l := make([]int, n)
		for i := range l {
			l[i] = i + 1
		}
		return l
	}, true, true},
	{"one too many", func(n int) interface{} { return oddList(n + 1) }, false, false},
	{"one too few", func(n int) interface{} { return oddList(n - 1) }, false, false},
	{"twice as many", func(n int) interface{} { return oddList(2 * n) }, false, false},
	{"floats, one too many", func(n int) interface{} { return make([]float64, n+1) }, false, false},
	{"floats, one too few", func(n int) interface{} { return make([]float64, n-1) }, false, false},
	{"none", func(n int) interface{} { return []interface{}{} }, false, false},
	{"nil", func(n int) interface{} { return nil }, false, false},
	{"nil list", func(n int) interface{} { return []interface{}(nil) }, false, false},
	{"int", func(n int) interface{} { return n }, false, false},
	{"string", func(n int) interface{} { return "abcdefgh"[:n] }, false, false},
	{"map", func(n int) interface{} { return map[string]interface{}{"a": 1} }, false, false},
	{"array", func(n int) interface{} { return [2]float64{1.5, 2.5} }, false, false},
	{"lists, one too many", func(n int) interface{} { return make([][]interface{}, n+1) }, false, false},
	{"throws", func(n int) interface{} { panic("no arguments today") }, false, false},
	{"fails", func(n int) interface{} { panic(errors.New("no arguments today")) }, false, false},
	{"no method", nil, false, false},
}

// checkOddStack runs marks of values over a stack object that misbehaves.
func checkOddStack(c *Case) {
	r := c.R
	pops, push := oddPops[c.Idx%len(oddPops)], r.W(80, 10, 10) // fine, no method, throws
	host := r.P(50)
	n := 1 + r.N(3)
	ret := r.P(80)
	class := "S = class {\n"
	if pops.val != nil {
		class += "fn popArgs(n) { return odd(n) }\n"
	}
	switch push {
	case 0:
		class += "fn push(v) { pushed(v) }\n"
	case 2:
		class += "fn push(v) { panic(\"no push today\") }\n"
	}
	fnText := "hostf"
	if !host {
		var a []string
		for i := 0; i < n; i++ {
			a = append(a, fmt.Sprint("a", i))
		}
		l := strings.Join(a, ", ")
		fnText = "fn(" + l + ") { called(" + l + ")"
		if ret {
			fnText += "; return a0"
		}
		fnText += " }"
	}
	script := class + "fn ok() { oks() }\n}\nI = class {\nfn grammar() { return \"doc = +(INT/ok | IDENT/f)\" }\nfn stack() { return st }\nfn fntable() { return {\"$ok\": S.ok, \"$f\": " + fnText + "} }\n}\nst = new S\neng, err = ip39.interpreter(new I, nil)\n"
	c.Input("%s, push %d, host function %v, %d arguments, result %v\n%s", pops.name, push, host, n, ret, script)
	lang, err := qlang.New(qlang.InsertSemis)
	if err != nil {
		c.Failf("qlang.New: %v", err)
	}
	good := false
	var log, want []string
	lang.SetVar("odd", func(k int) interface{} {
		log = append(log, fmt.Sprint("pop", k))
		if good {
			return oddList(k)
		}
		return pops.val(k)
	})
	show := func(v interface{}) string { return fmt.Sprintf("%T:%v", v, v) }
	lang.SetVar("pushed", func(v interface{}) { log = append(log, "push "+show(v)) })
	lang.SetVar("oks", func() { log = append(log, "ok") })
	called := func(args ...interface{}) {
		t := "call"
		for _, a := range args {
			t += " " + show(a)
		}
		log = append(log, t)
	}
	lang.SetVar("called", called)
	in, out := make([]reflect.Type, n), []reflect.Type{}
	for i := range in {
		in[i] = tFloat
	}
	if ret {
		out = append(out, tFloat)
	}
	lang.SetVar("hostf", reflect.MakeFunc(reflect.FuncOf(in, out, false), func(args []reflect.Value) (res []reflect.Value) {
		var a []interface{}
		for _, v := range args {
			a = append(a, v.Interface())
		}
		called(a...)
		if ret {
			res = append(res, args[0])
		}
		return
	}).Interface())
	if err := lang.SafeEval(script); err != nil {
		c.Failf("script: %v", err)
	}
	if v, _ := lang.Var("err"); v != nil {
		c.Failf("interpreter(): %v", v)
	}
	v, _ := lang.Var("eng")
	eng := v.(*qi.Engine)
	for round := 0; round < 4; round++ {
		good = round%2 == 1
		log, want = nil, nil
		before, after := r.N(3), r.N(3)
		text := strings.Repeat("1 ", before) + "x" + strings.Repeat(" 2", after)
		fails := false
		var cause []string
		for i := 0; i < before; i++ {
			want = append(want, "ok")
		}
		p := pops
		if good && p.val != nil {
			p = oddPops[0]
		}
		if p.val == nil {
			fails, cause = true, []string{"popArgs"}
		} else {
			want = append(want, fmt.Sprint("pop", n))
			switch {
			case !p.ok:
				fails = true
				if p.name == "throws" || p.name == "fails" {
					cause = []string{"no arguments today"}
				}
			default:
				vals := oddList(n)
				if p.ints {
					for i := range vals {
						vals[i] = i + 1
						if host {
							vals[i] = float64(i + 1)
						}
					}
				}
				t := "call"
				for _, a := range vals {
					t += " " + show(a)
				}
				want = append(want, t)
				switch {
				case push == 1:
					fails, cause = true, []string{"push"}
				case push == 2:
					fails, cause = true, []string{"no push today"}
				case ret:
					want = append(want, "push "+show(vals[0]))
				default:
					want = append(want, "push "+show(nil))
				}
			}
		}
		if !fails {
			for i := 0; i < after; i++ {
				want = append(want, "ok")
			}
		}
		// a failed push of the result of the script function: the value is gone
		var err error
		if r.P(50) {
			err = eng.Eval(text)
		} else {
			lang.SetVar("txt", text)
			if e := lang.SafeEval("err = eng.eval(txt)"); e != nil {
				c.Failf("the script that evaluates: %v", e)
			}
			if v, _ := lang.Var("err"); v != nil {
				err = v.(error)
			}
		}
		if fmt.Sprint(log) != fmt.Sprint(want) {
			c.Failf("round %d %q: calls differ (%v)\n got  %q\n want %q", round, text, err, log, want)
		}
		if (err != nil) != fails {
			c.Failf("round %d %q: error %v, want one: %v", round, text, err, fails)
		}
		for _, s := range cause {
			if !strings.Contains(err.Error(), s) {
				c.Failf("round %d %q: the error %q lacks the cause %q", round, text, err.Error(), s)
			}
		}
		if fails {
			c.Ev("evaluations over an odd stack refused", 1)
		} else {
			c.Ev("evaluations over an odd stack", 1)
		}
	}
	c.Seen(fmt.Sprint(pops.name, push, host, n, ret))
}

// checkHostedExports: the other functions of the interpreter module.
func checkHostedExports(c *Case) {
	r := c.R
	lang, err := qlang.New(qlang.InsertSemis)
	if err != nil {
		c.Failf("qlang.New: %v", err)
	}
	vals := []string{"1", "nil", "\"s\"", "2.5", "[1, 2]", "{\"a\": 1}", "A", "B", "fn() { }", "undefined", "A.f", "oa.f", "unset", "ip39"}
	msg := r.Pick("", "x", "an error", "été\n", "%d %s", strings.Repeat("long ", r.N(400)))
	v := vals[r.N(len(vals))]
	text := "A = class { fn f() { return 1 } }; B = class { fn f() { return 2 } }; C = A; oa = new A; ob = new B; oc = new C\n" +
		"k = [ip39.classof(oa), ip39.classof(ob), ip39.classof(oc), ip39.classof(" + v + ")]; m = ip39.newRuntimeError(msg); clsb = ip39.classof(ob); nb = new clsb; n = nb.f()\n"
	c.Input("%q %s", msg, text)
	lang.SetVar("msg", msg)
	if err := lang.SafeEval(text); err != nil {
		c.Failf("script: %v", err)
	}
	a, _ := lang.Var("A")
	b, _ := lang.Var("B")
	l, _ := lang.Var("k")
	k := l.([]interface{})
	if k[0] != a || k[1] != b || k[2] != a || k[3] != nil {
		c.Failf("classof gives %v", k)
	}
	if n, _ := lang.Var("n"); n != 2 {
		c.Failf("a new object of the class of an object: f() is %v", n)
	}
	m, _ := lang.Var("m")
	e, ok := m.(error)
	if !ok || !strings.HasSuffix(e.Error(), msg) {
		c.Failf("newRuntimeError gives %T %v", m, m)
	}
	err = lang.SafeEval("panic(m)")
	if err == nil || !strings.Contains(err.Error(), msg) {
		c.Failf("panic(newRuntimeError(%q)) gives %v", msg, err)
	}
	c.Ev("classes of objects", 4)
	c.Seen(msg + v)
}

func init() {
	register(&Prop{ID: "C39",
		Rule:    "marks, mute: a random grammar is made the grammar of an interpreter written in qlang, whose stack and interpreter classes, plain functions and host functions record their arguments, fail at planned calls and evaluate saved code; the reference matcher and the model of the calls that serve the native interpreter say what must be recorded, what the stack must hold and whether the evaluation is an error; evaluations are started by a script (that must go on undisturbed) and by the host. calc: a calculator written in qlang against the reference of the native calculator. create: useless interpreters; odd stacks: stack objects that hand over lists of another type or length, no list at all, lack a method or throw - the function must not be called then, the error must name the cause, and the next evaluation with a sound stack must work; exports: classof and newRuntimeError; big: both at the sizes of the ladder; a case counts when functions were called",
		MustSee: []string{"calls", "evaluations aborted", "evaluations ok", "token runs passed", "nil passed for an empty match", "repetition counts passed", "numbers passed", "texts passed", "failed conversions", "calls with values of the stack", "functions that fail", "marks muted", "saved code evaluated", "failures of saved code swallowed", "values", "errors: syntax", "interpreters refused", "interpreters created", "evaluations over an odd stack", "evaluations over an odd stack refused", "classes of objects", "comments matched", "inserted semicolons matched"},
		Assume:  []string{"a function of values with several results is unspecified here (native: all are pushed, hosted: the first)", "a script that panics with something else than an error or a string is let through, as everywhere"},
		Parts: []*Part{
			{Name: "marks", Quick: 8000, Thorough: 250000, Run: func(c *Case) { checkHosted(c, false) }},
			{Name: "mute", Quick: 6000, Thorough: 200000, Run: func(c *Case) { checkHosted(c, true) }},
			{Name: "calc", Quick: 12000, Thorough: 400000, Run: checkHostedCalc},
			{Name: "create", Quick: 252, Thorough: 252, Exhaustive: true, Run: checkHostedNew},
			{Name: "odd stacks", Quick: 5700, Thorough: 100000, Run: checkOddStack},
			{Name: "modes", Quick: 500, Thorough: 10000, Run: checkModes("hosted")},
			{Name: "exports", Quick: 1000, Thorough: 20000, Run: checkHostedExports},
			bigPart("big calc", big39calc, 1, 4, bigHostedCalc),
			bigPart("big marks", big39marks, 1, 4, bigHostedMarks),
		}})
}
