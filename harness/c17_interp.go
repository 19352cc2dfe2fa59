package main

// C17, C18, C19: interpreters built from a grammar and a function table, calls through a stack.

import (
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/qiniu/text/tpl"
	ip "github.com/qiniu/text/tpl/interpreter"
	iu "github.com/qiniu/text/tpl/interpreter.util"
)

// ---------------------------------------------------------------- the interpreter under test

// rstk is a value stack.
type rstk struct{ vals []interface{} }

func (s *rstk) PopArgs(arity int) (args []reflect.Value, ok bool) {
	n := len(s.vals) - arity
	if n < 0 {
		return nil, false
	}
	for _, v := range s.vals[n:] {
		args = append(args, reflect.ValueOf(v))
	}
	s.vals = s.vals[:n:n]
	return args, true
}

func (s *rstk) PushRet(ret []reflect.Value) error {
	for _, v := range ret {
		s.vals = append(s.vals, v.Interface())
	}
	return nil
}

type ript struct {
	id      int
	grammar string
	table   map[string]interface{}
	stk     *rstk
}

var anyCount = regexp.MustCompile(`,int:-?\d+([,)])`)

func (p *ript) Grammar() string                 { return p.grammar }
func (p *ript) Fntable() map[string]interface{} { return p.table }
func (p *ript) Stack() iu.Stack                 { return p.stk }

// cript has its own way to call functions.
type cript struct {
	ript
	called int
}

func (p *cript) CallFn(fn interface{}) {
	p.called++
	n := reflect.TypeOf(fn).NumIn()
	if err := iu.DoCall(p.stk, fn, n, n, false); err != nil {
		panic("CallFn: " + err.Error())
	}
}

var (
	tStk    = reflect.TypeOf((*rstk)(nil))
	tRipt   = reflect.TypeOf((*ript)(nil))
	tCript  = reflect.TypeOf((*cript)(nil))
	tCtx    = reflect.TypeOf((*iu.Context)(nil))
	tIntf   = reflect.TypeOf((*interface{})(nil)).Elem()
	tEng    = reflect.TypeOf((*iu.Engine)(nil)).Elem()
	tErr    = reflect.TypeOf((*error)(nil)).Elem()
	tInt    = reflect.TypeOf(0)
	tInt64  = reflect.TypeOf(int64(0))
	tFloat  = reflect.TypeOf(1.5)
	tString = reflect.TypeOf("")
	tBool   = reflect.TypeOf(true)
)

// mspec describes the function of a mark.
type mspec struct {
	id      int
	name    string
	builtin bool // _mute, _unmute
	kind    int  // 0: values of the stack, 1: stack, 2: interpreter
	in, out []reflect.Type
	push    int // kind 1: values to push
	failAt  int // number of the call that fails
	failHow int // 0 returned error or panic(error), 1 panic(string)
	sub     string
	swallow bool
}

func (sp *mspec) String() string {
	s := sp.name + "("
	for i, t := range sp.in {
		if i > 0 {
			s += ","
		}
		s += t.String()
	}
	s += ")"
	if len(sp.out) > 0 {
		s += fmt.Sprint(sp.out)
	}
	if sp.failAt > 0 {
		s += fmt.Sprintf(" fails at %d", sp.failAt)
	}
	if sp.sub != "" {
		s += fmt.Sprintf(" evals %s swallow=%v", sp.sub, sp.swallow)
	}
	return s
}

func (sp *mspec) pushed(n int) (vals []interface{}) {
	for i := 0; i < sp.push; i++ {
		switch (sp.id + n + i) % 8 {
		case 0, 1:
			vals = append(vals, 100*sp.id+n)
		case 2:
			vals = append(vals, float64(n)+.25)
		case 3:
			vals = append(vals, float64(n-1)/2)
		case 4:
			vals = append(vals, fmt.Sprintf("s%d.%d", sp.id, n))
		case 5:
			vals = append(vals, uint8(n))
		case 6:
			vals = append(vals, float32(n)+.5)
		case 7:
			vals = append(vals, nil)
		}
	}
	return
}

// results of a function of kind 0.
func (sp *mspec) results(n int, d []string) (vals []interface{}) {
	for _, t := range sp.out {
		switch t {
		case tString:
			s := strings.Join(d, ",")
			if len(s) > 60 {
				h := fnv.New64a()
				h.Write([]byte(s))
				s = fmt.Sprintf("#%x", h.Sum64())
			}
			vals = append(vals, fmt.Sprintf("r%d(%s)", sp.id, s))
		case tFloat:
			vals = append(vals, float64(n-1)*.5)
		default:
			vals = append(vals, n-1)
		}
	}
	return
}

func (sp *mspec) failMsg(n int) string { return fmt.Sprintf("boom%d.%d", sp.id, n) }

func valStr(v interface{}) string { return fmt.Sprintf("%T:%v", v, v) }

// iworld is the recording side.
type iworld struct {
	c     *Case
	specs map[int]*mspec
	stk   *rstk
	ipt   iu.Interface
	ipt2  iu.Interface
	eng   *ip.Engine
	t     *gtext
	base  func([]tpl.Token) int
	fname string
	log   []string
	calls map[int]int
	depth int
}

func (w *iworld) srcDesc(src interface{}) string {
	toks := src.([]tpl.Token)
	if len(toks) == 0 {
		return "_+0"
	}
	p := w.base(toks)
	// Source and FileLine of the engine describe the same run
	text := string(w.eng.Source(src))
	from, to := w.t.toks[p].off, w.t.toks[p+len(toks)-1].end
	if !strings.HasPrefix(text, string(w.t.src[from:to])) || len(text) > w.t.toks[p+len(toks)].off-from {
		w.c.Failf("Engine.Source gives %q for %q", text, w.t.src[from:to])
	}
	if f := w.eng.FileLine(src); f.File != w.fname || f.Line != w.t.line(p) {
		w.c.Failf("Engine.FileLine gives %v for line %d of %q", f, w.t.line(p), w.fname)
	}
	return fmt.Sprintf("%d+%d", p, len(toks))
}

func (w *iworld) iptID(v interface{}) int {
	switch x := v.(type) {
	case *ript:
		return x.id
	case *cript:
		return x.id
	}
	return -1
}

func (w *iworld) desc(a reflect.Value, t reflect.Type, sp *mspec, i int) string {
	switch {
	case t == tStk && i == 0 && sp.kind == 1:
		if a.Interface().(*rstk) != w.stk {
			w.c.Failf("%s gets another stack", sp.name)
		}
		return "stk"
	case i == 0 && sp.kind == 2:
		return fmt.Sprintf("ipt%d", w.iptID(a.Interface()))
	case t == tCtx:
		x := a.Interface().(*iu.Context)
		if x.Engine != iu.Engine(w.eng) {
			w.c.Failf("%s gets a context with another engine", sp.name)
		}
		s := w.srcDesc(x.Src)
		if toks := x.Src.([]tpl.Token); len(toks) == 0 {
			if x.Pos != 0 || x.End != 0 {
				w.c.Failf("%s: the context of an empty match has positions %d, %d", sp.name, x.Pos, x.End)
			}
		} else {
			p := w.base(toks)
			b := w.eng.Scanner.Source().File.Base()
			if int(x.Pos)-b != w.t.toks[p].off || int(x.End)-b != w.t.toks[p+len(toks)-1].end {
				w.c.Failf("%s: the context delimits %d..%d, the match is %d..%d", sp.name, int(x.Pos)-b, int(x.End)-b, w.t.toks[p].off, w.t.toks[p+len(toks)-1].end)
			}
		}
		return "ctx" + s
	case t == tEng:
		if a.Interface().(iu.Engine) != iu.Engine(w.eng) {
			w.c.Failf("%s gets another engine", sp.name)
		}
		return "eng"
	case t == tIntf && sp.kind > 0:
		if a.IsNil() {
			return "nil"
		}
		return "src" + w.srcDesc(a.Interface())
	}
	return valStr(a.Interface())
}

func (w *iworld) handler(sp *mspec) func(args []reflect.Value) []reflect.Value {
	return func(args []reflect.Value) (ret []reflect.Value) {
		w.calls[sp.id]++
		n := w.calls[sp.id]
		var d []string
		for i, a := range args {
			d = append(d, w.desc(a, sp.in[i], sp, i))
		}
		w.log = append(w.log, sp.name+"("+strings.Join(d, ",")+")")
		if len(w.log) > 3000 {
			w.c.Failf("too many calls")
		}
		var err error
		if sp.sub != "" {
			if x := args[1].Interface().(*iu.Context); w.depth < 2 && len(x.Src.([]tpl.Token)) > 0 {
				err = w.evalSub(sp, x)
			}
		}
		if sp.kind == 1 {
			w.stk.vals = append(w.stk.vals, sp.pushed(n)...)
		}
		if err == nil && n == sp.failAt {
			if sp.failHow == 1 {
				panic(sp.failMsg(n))
			}
			err = errors.New(sp.failMsg(n))
		}
		if sp.kind == 0 {
			for i, v := range sp.results(n, d) {
				ret = append(ret, reflect.ValueOf(v).Convert(sp.out[i]))
			}
			if err != nil {
				panic(err)
			}
			return
		}
		if len(sp.out) > 0 {
			e := reflect.New(tErr).Elem()
			if err != nil {
				e.Set(reflect.ValueOf(err))
			}
			return []reflect.Value{e}
		}
		if err != nil {
			panic(err)
		}
		return
	}
}

func (w *iworld) evalSub(sp *mspec, x *iu.Context) (err error) {
	w.depth++
	w.log = append(w.log, "<"+sp.sub)
	defer func() {
		w.depth--
		if sp.swallow {
			if e := recover(); e != nil {
				if _, ok := e.(caseFailure); ok {
					panic(e)
				}
			}
			err = nil
			w.log = append(w.log, ">")
		}
	}()
	return x.Engine.EvalCode(w.ipt2, sp.sub, x.Src)
}

// ---------------------------------------------------------------- reference

type iabort struct {
	pos, n int
	msg    string
	match  bool // an error of matching, not of an action
}

type rworld struct {
	d     *gdom
	specs map[int]*mspec
	in    []string
	t     *gtext
	stk   []interface{}
	log   []string
	calls map[int]int
	mute  int
	ipt   int
	depth int
	seen  map[string]int
	vague bool
	cript bool
	used  int // calls of CallFn
	trace []string

	hosted bool // an interpreter written in qlang
	last   gev  // hosted: the latest match passed as tokens
}

func (rw *rworld) argType(sp *mspec, t reflect.Type, ev gev, capital bool) (s string, bad bool) {
	run := fmt.Sprintf("%d+%d", ev.pos, ev.n)
	if ev.n == 0 {
		run = "_+0"
	}
	if capital {
		if t != tInt {
			return "", true
		}
		if ev.ln == noLen {
			return "int:?", false
		}
		rw.seen["repetition counts passed"]++
		return valStr(ev.ln), false
	}
	switch t {
	case tCtx:
		rw.seen["contexts passed"]++
		return "ctx" + run, false
	case tEng:
		return "eng", false
	case tIntf:
		if ev.n == 0 {
			rw.seen["nil passed for an empty match"]++
			return "nil", false
		}
		rw.seen["token runs passed"]++
		rw.last = ev
		return "src" + run, false
	}
	if ev.n == 0 {
		return "", true
	}
	lit := rw.t.toks[ev.pos].lit
	switch t {
	case tString:
		rw.seen["texts passed"]++
		return valStr(lit), false
	case tFloat:
		f, err := strconv.ParseFloat(lit, 64)
		if err != nil {
			return "", true
		}
		rw.seen["numbers passed"]++
		return valStr(f), false
	case tInt, tInt64:
		n, err := strconv.ParseInt(lit, 10, 64)
		if err != nil {
			return "", true
		}
		rw.seen["numbers passed"]++
		if t == tInt {
			return valStr(int(n)), false
		}
		return valStr(n), false
	}
	return "", true
}

// coerce is the conversion of a stack value to a parameter.
func coerce(v interface{}, t reflect.Type) (interface{}, bool) {
	if v == nil {
		return nil, t.Kind() == reflect.Interface || t.Kind() == reflect.Ptr
	}
	tv := reflect.TypeOf(v)
	if t.Kind() == reflect.Interface {
		return v, tv.Implements(t)
	}
	if tv == t {
		return v, true
	}
	if t == tFloat {
		x := reflect.ValueOf(v)
		switch tv.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return float64(x.Int()), true
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			return float64(x.Uint()), true
		case reflect.Float32:
			return x.Float(), true
		}
	}
	return nil, false
}

// run simulates the calls that belong to the actions of a match.
func (rw *rworld) run(events []gev) *iabort {
	for _, ev := range events {
		if ev.typ != 'A' {
			continue
		}
		sp := rw.specs[ev.id]
		if sp.builtin {
			switch sp.name {
			case "_tr":
				s := ""
				if ev.n > 0 {
					end := len(rw.t.src)
					if ev.pos+ev.n < len(rw.t.toks) {
						end = rw.t.toks[ev.pos+ev.n].off
					}
					s = string(rw.t.src[rw.t.toks[ev.pos].off:end])
				}
				rw.trace = append(rw.trace, s)
				continue
			case "_mute":
				rw.mute++
			default:
				rw.mute--
			}
			rw.seen[fmt.Sprintf("depth %d", min(max(rw.mute, 0), 3))]++
			if rw.mute < 0 {
				rw.vague = true
			}
			continue
		}
		if rw.mute > 0 && (rw.mute > 1 || sp.name[0] != '_') {
			rw.seen["marks muted"]++
			continue
		}
		if rw.mute == 1 {
			rw.seen["underscore marks at depth 1"]++
		}
		if a := rw.call(sp, ev); a != nil {
			if a.n == 0 && a.pos < 0 {
				a.pos, a.n = ev.pos, ev.n
			}
			return a
		}
	}
	return nil
}

func (rw *rworld) call(sp *mspec, ev gev) *iabort {
	fail := func(msg string) *iabort { return &iabort{pos: -1, msg: msg} }
	var d []string
	if sp.kind == 0 {
		if rw.cript {
			rw.used++
		}
		n := len(rw.stk) - len(sp.in)
		if n < 0 {
			rw.seen["too few values"]++
			return fail("")
		}
		args := rw.stk[n:]
		rw.stk = rw.stk[:n:n]
		for i, t := range sp.in {
			v, ok := coerce(args[i], t)
			if !ok {
				rw.seen["unfit values"]++
				return fail("")
			}
			d = append(d, valStr(v))
		}
		rw.seen["calls with values of the stack"]++
	} else {
		d = append(d, "stk")
		if sp.kind == 2 {
			d[0] = fmt.Sprintf("ipt%d", rw.ipt)
		}
		capital := func(c byte) bool { return c >= 'A' && c <= 'Z' }
		if len(sp.in) > 1 {
			s, bad := rw.argType(sp, sp.in[1], ev, capital(strings.TrimPrefix(sp.name, "_")[0]))
			if bad {
				rw.seen["failed conversions"]++
				return fail("")
			}
			d = append(d, s)
		}
		if len(sp.in) > 2 {
			s, _ := rw.argType(sp, tCtx, ev, false)
			d = append(d, s)
		}
	}
	if len(rw.log) > 2000 {
		panic(refBudget{})
	}
	rw.calls[sp.id]++
	n := rw.calls[sp.id]
	rw.log = append(rw.log, sp.name+"("+strings.Join(d, ",")+")")
	var a *iabort
	src := ev
	if rw.hosted {
		src = rw.last
	}
	if sp.sub != "" && rw.depth < 2 && src.n > 0 {
		a = rw.eval(sp, src)
	}
	if a != nil && a.msg == "panic" {
		return a // nothing of the handler runs
	}
	if sp.kind == 1 {
		rw.stk = append(rw.stk, sp.pushed(n)...)
	}
	if a != nil {
		return a
	}
	if n == sp.failAt {
		rw.seen["functions that fail"]++
		return fail(sp.failMsg(n))
	}
	if sp.kind == 0 {
		rw.stk = append(rw.stk, sp.results(n, d)...)
		if rw.hosted && len(sp.out) == 0 {
			rw.stk = append(rw.stk, nil)
		}
	}
	return nil
}

func (rw *rworld) eval(sp *mspec, ev gev) *iabort {
	rw.log = append(rw.log, "<"+sp.sub)
	mute, id := rw.mute, rw.ipt
	rw.mute, rw.ipt = 0, 2
	rw.depth++
	rw.seen["saved code evaluated"]++
	if mute > 0 {
		rw.seen["saved code evaluated while muted"]++
	}
	in := rw.in
	rw.in = in[ev.pos : ev.pos+ev.n]
	res, ok := refMatch(rw.d, rw.d.rule(sp.sub).body, rw.in)
	rw.in = in
	if !ok {
		panic(refBudget{})
	}
	for i := range res.ev {
		res.ev[i].pos += ev.pos
	}
	// while the sub-evaluation runs, positions are those of the whole text
	sub := *rw
	a := sub.run(res.ev)
	rw.stk, rw.log, rw.vague, rw.used, rw.last, rw.trace = sub.stk, sub.log, sub.vague, sub.used, sub.last, sub.trace
	panicked := a != nil
	if a == nil {
		if res.kind == "cut" {
			a, panicked = &iabort{match: true}, true
		} else if res.kind == "fail" || res.n < ev.n {
			a = &iabort{match: true}
		}
	}
	rw.mute, rw.ipt = mute, id
	rw.depth--
	if sp.swallow {
		if a != nil {
			rw.seen["failures of saved code swallowed"]++
		}
		rw.log = append(rw.log, ">")
		return nil
	}
	if panicked {
		return &iabort{pos: a.pos, n: a.n, msg: "panic", match: a.match}
	}
	return a
}

// ---------------------------------------------------------------- C17, C18

var interpConf = gconf{rules: 3, depth: 3, cut: 10, act: 45}

func genSpec(r *Rand, id int, d *gdom, mutes bool, tipt reflect.Type) *mspec {
	sp := &mspec{id: id}
	if mutes {
		switch id {
		case 1, 2:
			return &mspec{id: id, name: "_mute", builtin: true}
		case 3:
			return &mspec{id: id, name: "_unmute", builtin: true}
		}
	}
	names := []string{"m", "m", "m", "Mark", "Mark", "_m", "_Mark", "été", "mutex", "_mute"}
	sp.name = names[r.N(len(names))] + strconv.Itoa(id)
	capital := strings.Contains(sp.name, "Mark")
	sp.kind = []int{1, 1, 2, 2, 0}[r.N(5)]
	if r.P(30) {
		sp.failAt = 1 + r.N(3)
		sp.failHow = r.N(2)
	}
	if sp.kind == 0 {
		for i := 1 + r.N(3); i > 0; i-- {
			sp.in = append(sp.in, []reflect.Type{tFloat, tFloat, tString, tInt, tIntf}[r.N(5)])
		}
		for i := r.N(3); i > 0; i-- {
			sp.out = append(sp.out, []reflect.Type{tFloat, tString, tInt}[r.N(3)])
		}
		return sp
	}
	sp.in = []reflect.Type{tStk}
	if sp.kind == 2 {
		sp.in[0] = tipt
	}
	sp.push = r.N(3)
	n := 1 + r.W(20, 60, 20)
	if n > 1 {
		switch {
		case capital && r.P(90):
			sp.in = append(sp.in, tInt)
		default:
			sp.in = append(sp.in, []reflect.Type{tCtx, tCtx, tCtx, tIntf, tIntf, tEng, tString, tString, tFloat, tInt64, tInt, tBool}[r.N(12)])
		}
	}
	if n > 2 {
		sp.in = append(sp.in, tCtx)
	}
	if r.P(50) {
		sp.out = []reflect.Type{tErr}
	}
	if n == 2 && !capital && r.P(map[bool]int{true: 45, false: 10}[mutes]) {
		sp.in[1] = tCtx
		sp.sub = d.rules[r.N(len(d.rules))].name
		sp.swallow = r.P(60)
	}
	return sp
}

func checkInterp(c *Case, mutes, traces bool) {
	r := c.R
	conf := interpConf
	conf.syms = someSyms(r)
	conf.rules = 1 + r.N(3)
	conf.depth = 2 + r.N(2)
	if mutes {
		conf.act = 60
	}
	d := genDom(r, conf)
	own := r.P(30)
	tipt := tRipt
	if own {
		tipt = tCript
	}
	specs := map[int]*mspec{}
	k := 2 + r.N(6)
	if mutes {
		k = 4 + r.N(4)
	}
	for id := 1; id <= k; id++ {
		specs[id] = genSpec(r, id, d, mutes, tipt)
	}
	if traces {
		k += 2
		specs[k-1], specs[k] = &mspec{id: k - 1, name: "_tr", builtin: true}, &mspec{id: k, name: "_tr", builtin: true}
	}
	used := map[int]bool{}
	var walk func(n *gn)
	walk = func(n *gn) {
		if n.op == 'a' {
			n.id = 1 + r.N(k)
			n.sym = specs[n.id].name
			used[n.id] = true
		}
		for _, x := range n.k {
			walk(x)
		}
	}
	for _, ru := range d.rules {
		walk(ru.body)
	}
	text := grammarText(r, ruleToks(r, d))
	in := "grammar " + text + "\n"
	w := &iworld{c: c, specs: specs, stk: &rstk{}, calls: map[int]int{}}
	table := map[string]interface{}{"spare": 1}
	for id := 1; id <= k; id++ {
		sp := specs[id]
		if used[id] {
			in += sp.String() + "\n"
		}
		if !sp.builtin {
			table["$"+sp.name] = reflect.MakeFunc(reflect.FuncOf(sp.in, sp.out, false), w.handler(sp)).Interface()
		}
	}
	a, b := ript{1, text, table, w.stk}, ript{2, "", nil, w.stk}
	ca := &cript{ript: a}
	w.ipt, w.ipt2 = &a, &b
	if own {
		w.ipt, w.ipt2 = ca, &cript{ript: b}
	}
	c.Input("%s", in)
	var opts *ip.Options
	if r.P(50) {
		opts = &ip.Options{}
		if r.P(50) {
			opts.Scanner = newOwnScanner()
		}
	}
	eng, err := ip.New(w.ipt, opts)
	if err != nil {
		c.Failf("New: %v", err)
	}
	w.eng = eng
	if opts != nil && opts.Scanner != nil && eng.Tokener() != opts.Scanner {
		c.Failf("the engine doesn't use the scanner given to New")
	}
	for i := r.N(12); i > 0; i-- {
		w.stk.vals = append(w.stk.vals, []interface{}{1.5, "s", i, uint8(3)}[r.W(60, 20, 15, 5)])
	}
	rw := &rworld{stk: append([]interface{}{}, w.stk.vals...), d: d, specs: specs, calls: map[int]int{}, ipt: 1, seen: map[string]int{}, cript: own}
	for i := 0; i < 5; i++ {
		s := d.sentence(r, d.rules[0].body, append(conf.syms, "IDENT"))
		t := renderSyms(r, s, r.P(50))
		in += fmt.Sprintf("text %q\n", t.src)
		c.Input("%s", in)
		rw.in, rw.t, rw.log, rw.mute, rw.trace = d.seenAs(s), t, nil, 0, nil
		w.t, w.log, w.depth = t, nil, 0
		w.fname = []string{"", "", "x.ql", "dir/été.q"}[r.N(4)]
		ref, ok := refMatch(d, d.rules[0].body, rw.in)
		if !ok {
			return
		}
		if ref.kind == "ok" && ref.n < len(s) {
			ref.kind = "fail"
		}
		var ab *iabort
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, is := e.(refBudget); !is {
						panic(e)
					}
					ok = false
				}
			}()
			ab = rw.run(ref.ev)
		}()
		if !ok || rw.vague {
			return
		}
		w.base = toksAt(t, eng.Scanner, func(s string) { c.Failf("%s", s) })
		var o observed
		var re *ip.RuntimeError
		match := func() { o = runMatchR(func() (int, error) { return 0, eng.MatchExactly(t.src, w.fname) }) }
		if traces {
			want := strings.Join(append(rw.trace, ""), "\n")
			if got := outputOf(2, match); got != want {
				c.Failf("the marks _tr write %q, want %q", got, want)
			}
			c.Ev("matches traced", len(rw.trace))
		} else {
			match()
		}
		errors.As(o.err, &re)
		for i := range w.log { // the count of an unrepeated rule isn't specified
			if i < len(rw.log) && strings.Contains(rw.log[i], "int:?") {
				w.log[i] = anyCount.ReplaceAllString(w.log[i], ",int:?$1")
			}
		}
		got, want := strings.Join(w.log, " "), strings.Join(rw.log, " ")
		if got != want {
			c.Failf("calls differ (%v)\n got  %s\n want %s", o.err, got, want)
		}
		c.Ev("calls", len(w.log))
		if ca.called != rw.used {
			c.Failf("CallFn called %d times, want %d", ca.called, rw.used)
		}
		var gs, ws []string
		for _, v := range w.stk.vals {
			gs = append(gs, valStr(v))
		}
		for _, v := range rw.stk {
			ws = append(ws, valStr(v))
		}
		if fmt.Sprint(gs) != fmt.Sprint(ws) {
			c.Failf("the stack holds %v, want %v", gs, ws)
		}
		if eng.Interpreter != w.ipt {
			c.Failf("the interpreter was exchanged")
		}
		if b, f := eng.Source(nil), eng.FileLine(nil); len(b) != 0 || f != (iu.FileLine{}) {
			c.Failf("the source of nil is %q at %v", b, f)
		}
		switch {
		case ab == nil:
			if o.kind != ref.kind {
				c.Failf("evaluation: got %s (%v), want %s", o.kind, o.err, ref.kind)
			}
			c.Ev("evaluations "+ref.kind, 1)
		case ab.match:
			if o.err == nil {
				c.Failf("a failed evaluation of saved code is no error")
			}
			_ = o.err.Error()
			c.Ev("evaluations aborted by an error of saved code", 1)
		default:
			if re == nil {
				c.Failf("got %v (%T), want a runtime error", o.err, o.err)
			}
			msg := re.Error()
			if ab.n > 0 {
				fname := w.fname
				w := fmt.Sprintf("line %d: runtime error: ", t.line(ab.pos))
				if fname != "" {
					w = fmt.Sprintf("%s:%d: runtime error: ", fname, t.line(ab.pos))
				}
				if !strings.HasPrefix(msg, w) {
					c.Failf("the error is %q, want %q...", msg, w)
				}
				c.Ev("runtime errors on line "+fmt.Sprint(min(t.line(ab.pos), 3)), 1)
			}
			if ab.msg != "panic" && !strings.Contains(msg, ab.msg) {
				c.Failf("the error %q lacks the cause %q", msg, ab.msg)
			}
			c.Ev("evaluations aborted", 1)
		}
		if len(w.log) > 0 {
			c.Seen(got)
		}
	}
	for _, x := range sortedKeys(rw.seen) {
		c.Ev(x, rw.seen[x])
	}
}

// outputFile takes what is written while outputOf runs.
var outputFile *os.File

// outputOf gives what f writes to the file descriptor fd.
func outputOf(fd int, f func()) string {
	if outputFile == nil {
		t, err := os.CreateTemp("", "verif-output")
		if err != nil {
			panic(err)
		}
		os.Remove(t.Name())
		outputFile = t
	}
	saved, err := syscall.Dup(fd)
	if err != nil {
		panic(err)
	}
	if err := syscall.Dup2(int(outputFile.Fd()), fd); err != nil {
		panic(err)
	}
	func() {
		defer func() {
			syscall.Dup2(saved, fd)
			syscall.Close(saved)
		}()
		f()
	}()
	outputFile.Seek(0, 0)
	b, err := io.ReadAll(outputFile)
	if err != nil {
		panic(err)
	}
	outputFile.Truncate(0)
	outputFile.Seek(0, 0)
	return string(b)
}

func sortedKeys(m map[string]int) (l []string) {
	for x := range m {
		l = append(l, x)
	}
	sort.Strings(l)
	return
}

// runMatchR is runMatch that takes runtime errors as well.
func runMatchR(f func() (int, error)) (o observed) {
	defer func() {
		if e := recover(); e != nil {
			re, ok := e.(*ip.RuntimeError)
			if !ok {
				panic(e)
			}
			o.kind, o.err = "abort", re
		}
	}()
	return runMatch(f)
}

// checkRefused: function tables with a useless item.
func checkRefused(c *Case) {
	r := c.R
	ok := func(*rstk) {}
	type item struct {
		what string
		fn   interface{}
		bad  bool
	}
	items := []item{
		{"unknown mark", nil, true},
		{"no function: int", 5, true},
		{"no function: string", "f", true},
		{"variadic", func(a ...interface{}) {}, true},
		{"variadic with stack", func(s *rstk, a ...int) {}, true},
		{"no parameter", func() {}, true},
		{"stack and 3 more", func(s *rstk, a *iu.Context, b *iu.Context, x int) {}, true},
		{"interpreter and 3 more", func(s *ript, a *iu.Context, b *iu.Context, x int) error { return nil }, true},
		{"stack, two results", func(s *rstk) (int, error) { return 0, nil }, true},
		{"stack, no error", func(s *rstk) int { return 0 }, true},
		{"interpreter, string result", func(s *ript, a string) string { return "" }, true},
		{"stack", func(s *rstk) error { return nil }, false},
		{"interpreter", func(s *ript, a string, x *iu.Context) error { return nil }, false},
		{"values", func(a, b, c, d, e float64) (float64, string, int) { return 0, "", 0 }, false},
		{"values, error result", func(a float64) (float64, error) { return 0, nil }, false},
	}
	it := items[c.Idx%len(items)]
	mark := []string{"bad", "Bad", "_bad", "_Bad", "_", "é"}[c.Idx/len(items)%6]
	table := map[string]interface{}{"$ok": ok, "$m1": ok}
	if it.fn != nil {
		table["$"+mark] = it.fn
	}
	r.U64()
	g := strings.Replace([]string{"doc = IDENT/ok +INT/M", "doc = x/ok % ','; x = IDENT/M", "doc = x/m1; x = *(IDENT/m1)/M ?y; y = ','"}[c.Idx/90%3], "M", mark, 1)
	c.Input("%s as %q in %s", it.what, mark, g)
	c.Seen(c.input)
	var e interface{}
	var err error
	func() {
		defer func() { e = recover() }()
		_, err = ip.New(&ript{1, g, table, &rstk{}}, nil)
	}()
	if refused := e != nil || err != nil; refused != it.bad {
		c.Failf("refused: %v (%v %v), want %v", refused, e, err, it.bad)
	}
	if it.bad {
		c.Ev("functions refused", 1)
	}
}

func init() {
	register(&Prop{ID: "C17",
		Rule:    "a random grammar is made the grammar of an interpreter whose marks have functions of random signatures (made by reflection) that record their arguments and the stack, fail at planned calls and evaluate saved code; the reference matcher gives the matches, a model of the documented calls what must be recorded; the evaluations of a session share engine and stack; traces: with marks _tr among them, file descriptor 2 being a file during the evaluations; a case counts when functions were called",
		MustSee: []string{"calls", "evaluations aborted", "evaluations ok", "contexts passed", "token runs passed", "nil passed for an empty match", "repetition counts passed", "numbers passed", "texts passed", "failed conversions", "calls with values of the stack", "functions that fail", "runtime errors on line 2", "functions refused", "matches traced", "comments matched", "inserted semicolons matched"},
		Assume:  []string{"saved code is given as tokens (a source given as text replaces the source lines are looked up in)", "an empty match names no line"},
		Parts: []*Part{
			{Name: "traces", Quick: 6000, Thorough: 100000, Run: func(c *Case) { checkInterp(c, c.R.P(30), true) }},
			{Name: "marks", Quick: 40000, Thorough: 900000, Run: func(c *Case) { checkInterp(c, false, false) }},
			bigPart("big", bigInterpDims, 1, 10, bigInterp),
			{Name: "modes", Quick: 4000, Thorough: 60000, Run: checkModes("interpreter")},
			{Name: "refused", Quick: 270, Thorough: 270, Exhaustive: true, Run: checkRefused},
		}})
	register(&Prop{ID: "C18",
		Rule:    "as C17 with the marks _mute and _unmute in most rules and functions that evaluate the matched tokens with another rule and interpreter, at any depth, letting its errors and panics pass or swallowing them; the model tracks depth and interpreter; texts that would make the depth negative are left out",
		MustSee: []string{"marks muted", "underscore marks at depth 1", "depth 1", "depth 2", "depth 3", "depth 0", "saved code evaluated", "saved code evaluated while muted", "failures of saved code swallowed", "evaluations aborted", "evaluations ok"},
		Parts: []*Part{{Name: "mute", Quick: 60000, Thorough: 900000, Run: func(c *Case) { checkInterp(c, true, false) }},
			bigPart("big", bigMuteDims, 1, 15, bigMute)}})
}

// ownScanner is a scanner of the host that counts the tokens it gives.
type ownScanner struct {
	tpl.AutoKwScanner
	scans int
}

func newOwnScanner() *ownScanner { return new(ownScanner) }

func (s *ownScanner) Scan() tpl.Token {
	s.scans++
	return s.AutoKwScanner.Scan()
}
