package main

// C44: the variables of an engine as the host and the scripts see them. Histories of edits by the
// host (between and during evaluations) and by scripts run beside a table of names.

import (
	"errors"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"

	"github.com/qiniu/text/tpl/qlang"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
	spec "github.com/qiniu/text/tpl/qlang/spec"
)

type vNamed int8
type vStruct struct{ A, B int }

// vfn is what the model knows of a function of a script.
type vfn struct {
	eng  int
	kind string
	x    string
	k    int
	val  interface{} // the value in the engine
}

type vengine struct {
	l    qlang.Qlang
	vars map[string]interface{} // *vfn for functions
	host map[string]bool        // functions of the host
}

type vworld struct {
	c    *Case
	r    *Rand
	e    []*vengine
	pool []interface{}
	seen []interface{} // what was probed
	want []interface{}
	in   strings.Builder
	pend []func() // deferred
}

var vNames = []string{"a", "b", "x", "y", "été", "_p", "len", "max", "a1", "nil", "unused", "A"}

func newVworld(c *Case, n int) *vworld {
	w := &vworld{c: c, r: c.R}
	p := &vStruct{1, 2}
	w.pool = []interface{}{0, 1, -7, 2.5, "s", "", nil, true, []int{1, 2}, map[string]int{"a": 1}, p, vStruct{3, 4}, vNamed(5), int8(3), uint64(1 << 63),
		float32(0.5), 'c', byte(9), errors.New("an error"), (*vStruct)(nil), []interface{}(nil), func() int { return 1 }, make(chan int), 1 + 2i, os.Stdout, reflect.TypeOf(1),
		[3]int{1, 2, 3}, [][]string{{"x"}}, spec.Undefined, 0.0, 1.0, "1", int64(1), vNamed(1), uint8(0), 2, 2.0, "0", "true", int32(-7), -7.0, [3]int{1, 2, 3}, []int(nil), map[string]int(nil), strings.Repeat("long ", 1000)}
	for i := 0; i < n; i++ {
		l, err := qlang.New(qlang.InsertSemis)
		if err != nil {
			c.Failf("New: %v", err)
		}
		e := &vengine{l: l, vars: map[string]interface{}{}, host: map[string]bool{"probe": true, "hset": true, "hunset": true, "hget": true, "nothing": true}}
		w.e = append(w.e, e)
		l.SetVar("probe", func(v interface{}) { w.seen = append(w.seen, v) })
		l.SetVar("hset", func(name string, k int) { l.SetVar(name, w.pool[k]) })
		l.SetVar("hunset", func(name string) { l.Unset(name) })
		l.SetVar("hget", func(name string) bool {
			v, ok := l.Var(name)
			if ok {
				w.seen = append(w.seen, v)
			}
			return ok
		})
		l.SetVar("nothing", func() {})
	}
	return w
}

func sameHost(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Type() != vb.Type() {
		return false
	}
	switch va.Kind() {
	case reflect.Func, reflect.Ptr, reflect.Chan, reflect.Map:
		return va.Pointer() == vb.Pointer()
	case reflect.Slice:
		return va.Len() == vb.Len() && va.Pointer() == vb.Pointer()
	}
	return a == b
}

func vText(v interface{}) string { return clip(fmt.Sprintf("%T %v", v, v), 200) }

// value is what a name means: in the model, of an engine.
func (w *vworld) value(e int, name string) (interface{}, bool) {
	if v, ok := w.e[e].vars[name]; ok {
		return v, true
	}
	v, ok := spec.Fntable[name]
	return v, ok
}

type vErr string

func (w *vworld) need(e int, name string) interface{} {
	v, ok := w.value(e, name)
	if !ok {
		panic(vErr("symbol not found: " + name))
	}
	return v
}

func (w *vworld) probed(v interface{}) { w.want = append(w.want, v) }

// call is what calling a function of a script does.
func (w *vworld) call(f *vfn, arg interface{}) {
	m := w.e[f.eng].vars
	switch f.kind {
	case "read":
		w.probed(w.need(f.eng, f.x))
	case "write":
		w.need(f.eng, f.x)
		if _, ok := m[f.x]; ok { // a builtin gets a local namesake
			m[f.x] = arg
		}
	case "host":
		m[f.x] = w.pool[f.k]
		w.probed(w.need(f.eng, f.x))
	case "twice":
		w.probed(w.need(f.eng, f.x))
		m[f.x] = w.pool[f.k]
		w.probed(w.need(f.eng, f.x))
	case "local":
		w.probed(7)
	case "unset":
		delete(m, f.x)
	case "unset local":
		w.probed(w.need(f.eng, f.x))
	case "unset read":
		w.probed(w.need(f.eng, f.x))
		w.probed(w.need(f.eng, f.x))
	case "inner":
		w.probed(w.need(f.eng, f.x))
	case "inner write":
		w.probed(w.need(f.eng, f.x))
		if _, ok := m[f.x]; ok {
			m[f.x] = arg
		}
		w.probed(w.need(f.eng, f.x))
	case "deep", "deep write":
		w.probed(w.need(f.eng, f.x))
		w.probed(w.need(f.eng, f.x))
		w.probed(w.need(f.eng, f.x))
		if _, ok := m[f.x]; ok && f.kind == "deep write" {
			m[f.x] = arg
		}
		w.probed(w.need(f.eng, f.x))
	case "inner host":
		w.probed(w.need(f.eng, f.x))
		m[f.x] = w.pool[f.k]
		w.probed(w.need(f.eng, f.x))
	case "block":
		w.need(f.eng, f.x)
		if _, ok := m[f.x]; ok {
			m[f.x] = 3
			w.probed(3)
		} else {
			w.probed(3) // the local one
		}
	}
}

var vBodies = map[string]string{
	"read":        "probe(X)",
	"write":       "X; X = v",
	"host":        "hset(\"X\", K); probe(X)",
	"twice":       "probe(X); hset(\"X\", K); probe(X)",
	"local":       "_p = 7; local = 1; probe(_p)",
	"unset":       "hunset(\"X\")",
	"unset read":  "probe(X); unset(\"X\"); probe(X)",
	"inner":       "fn() { fn() { probe(X) }() }()",
	"inner write": "fn(w) { probe(X); X = w }(v); probe(X)",
	"deep":        "probe(X); fn() { probe(X); probe(X); fn() { probe(X) }() }()",
	"deep write":  "probe(X); fn(w) { probe(X); fn(z) { probe(X); X = z }(w) }(v); probe(X)",
	"inner host":  "_l = fn() { probe(X) }; _l(); hset(\"X\", K); _l()",
	"block":       "X; if true { for _i = 0; _i < 1; _i++ { X = 3 } }; probe(X)",
	"unset local": "_l = 1; unset(\"_l\"); unset(\"X\"); probe(X)",
}

// name picks a name, most of the time one in use.
func (w *vworld) name(e int) string {
	for k := 0; k < 8; k++ {
		x := w.r.Pick(vNames...)
		if _, ok := w.e[e].vars[x]; ok || w.r.P(4) {
			return x
		}
	}
	return w.r.Pick("len", "nil", "max", "x")
}

// near picks a value for a name, now and then one that looks like the present one.
func (w *vworld) near(e int, x string) int {
	if v, ok := w.e[e].vars[x]; ok && w.r.P(35) {
		t := fmt.Sprint(v)
		var l []int
		for i, p := range w.pool {
			if fmt.Sprint(p) == t {
				l = append(l, i)
			}
		}
		if len(l) > 0 {
			return l[w.r.N(len(l))]
		}
	}
	return w.r.N(len(w.pool))
}

// stmt makes a statement; do is what it does.
func (w *vworld) stmt(e int) (text string, do func()) {
	r := w.r
	m := w.e[e].vars
	x, y := w.name(e), w.name(e)
	k := w.near(e, x)
	switch r.W(14, 14, 14, 8, 8, 8, 8, 14, 24, 5, 5, 4) {
	case 0:
		n := r.N(1000)
		if r.P(40) {
			n = r.N(3)
		}
		lit, v := fmt.Sprint(n), interface{}(n)
		switch r.N(5) {
		case 2:
			lit, v = fmt.Sprintf("%d.0", n), float64(n)
		case 0:
			lit, v = fmt.Sprintf("%d.5", n), float64(n)+.5
		case 1:
			lit, v = fmt.Sprintf("\"s%d\"", n), fmt.Sprint("s", n)
		}
		if r.P(20) {
			return fmt.Sprintf("if true { %s = %s }", x, lit), func() { m[x] = v }
		}
		return fmt.Sprintf("%s = %s", x, lit), func() { m[x] = v }
	case 2:
		return fmt.Sprintf("probe(%s)", x), func() { w.probed(w.need(e, x)) }
	case 3:
		if r.P(70) {
			return fmt.Sprintf("unset(\"%s\")", x), func() { delete(m, x) }
		}
		return fmt.Sprintf("hunset(\"%s\")", x), func() { delete(m, x) }
	case 4:
		return fmt.Sprintf("hset(\"%s\", %d)", x, k), func() { m[x] = w.pool[k] }
	case 5:
		return fmt.Sprintf("probe(hget(\"%s\"))", x), func() {
			v, ok := m[x]
			if ok {
				w.probed(v)
			}
			w.probed(ok)
		}
	case 6:
		op := r.Pick("+= 2", "-= 2", "*= 2", "++", "--")
		switch v := m[x].(type) {
		case int:
			return x + " " + op, func() {
				m[x] = map[string]int{"+= 2": v + 2, "-= 2": v - 2, "*= 2": v * 2, "++": v + 1, "--": v - 1}[op]
			}
		case float64:
			op = op[:1] + "= 2"
			return x + " " + op, func() {
				m[x] = map[string]float64{"+= 2": v + 2, "-= 2": v - 2, "*= 2": v * 2}[op]
			}
		}
	case 7: // a function
		f := &vfn{eng: e, x: x, k: k, kind: r.Pick("read", "write", "host", "twice", "local", "unset", "unset local", "unset read", "inner", "inner write", "inner host", "block", "deep", "deep write")}
		if x[0] == '_' {
			f.kind = "local"
		}
		params := ""
		if strings.HasSuffix(f.kind, "write") {
			params = "v"
		}
		body := strings.NewReplacer("X", x, "K", fmt.Sprint(k)).Replace(vBodies[f.kind])
		g := r.Pick("f", "g", "h")
		return fmt.Sprintf("%s = fn(%s) { %s }", g, params, body), func() { m[g] = f }
	case 8, 9:
		g := r.Pick("f", "g", "h", "x", "y")
		if f, ok := m[g].(*vfn); ok {
			if !strings.HasSuffix(f.kind, "write") {
				return g + "()", func() { w.call(f, nil) }
			}
			n := r.N(1000)
			return fmt.Sprintf("%s(%d)", g, n), func() { w.call(f, n) }
		}
	case 10:
		return fmt.Sprintf("defer hset(\"%s\", %d)", x, k), func() { w.pend = append(w.pend, func() { m[x] = w.pool[k] }) }
	case 11:
		if x[0] != '_' {
			return fmt.Sprintf("C = class { fn m() { probe(%s) } }; o = new C; o.m()", x), func() {
				m["C"], m["o"] = &vfn{}, &vfn{}
				w.probed(w.need(e, x))
			}
		}
	}
	return fmt.Sprintf("%s = %s", x, y), func() { m[x] = w.need(e, y) }
}

func (w *vworld) put(format string, a ...interface{}) {
	fmt.Fprintf(&w.in, format+"\n", a...)
	s := w.in.String()
	if len(s) > 6000 {
		s = "... " + s[len(s)-6000:]
	}
	w.c.Input("%s", s)
}

// same compares a value of an engine with that of the model.
func (w *vworld) same(got, want interface{}) bool {
	if f, ok := want.(*vfn); ok {
		if f.val == nil {
			f.val = got
			return got != nil
		}
		want = f.val
	}
	return sameHost(got, want)
}

func (w *vworld) compare() {
	for i, e := range w.e {
		vars := e.l.Vars()
		for name, want := range e.vars {
			got, ok := e.l.Var(name)
			if !ok {
				w.c.Failf("engine %d: no variable %s, want %s", i, name, vText(want))
			}
			if !w.same(got, want) {
				w.c.Failf("engine %d: %s is %s, want %s", i, name, vText(got), vText(want))
			}
			if v, ok := vars[name]; !ok || !w.same(v, want) {
				w.c.Failf("engine %d: %s is %s in Vars, want %s", i, name, vText(v), vText(want))
			}
		}
		if len(vars) != len(e.vars)+len(e.host) {
			var l []string
			for name := range vars {
				if _, ok := e.vars[name]; !ok && !e.host[name] {
					l = append(l, name)
				}
			}
			sort.Strings(l)
			w.c.Failf("engine %d: has variables %v too many", i, l)
		}
	}
	w.c.Ev("comparisons of all variables", 1)
}

// script evaluates a program.
func (w *vworld) script(e, n int) {
	w.seen, w.want, w.pend = nil, nil, nil
	var l []string
	fails, lost := "", false
	for i := 0; i < n; i++ {
		text, do := w.stmt(e)
		l = append(l, text)
		if lost {
			continue
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					v, ok := x.(vErr)
					if !ok {
						panic(x)
					}
					fails, lost = string(v), true
				}
			}()
			do()
		}()
	}
	for len(w.pend) > 0 {
		f := w.pend[len(w.pend)-1]
		w.pend = w.pend[:len(w.pend)-1]
		f()
	}
	text := strings.Join(l, w.r.Pick("\n", "; ")) + "\n"
	w.put("engine %d: %s", e, text)
	err := w.e[e].l.SafeEval(text)
	for i := 0; i < max(len(w.seen), len(w.want)); i++ {
		if i >= len(w.seen) {
			w.c.Failf("engine %d: %d values seen, want %s next (%v)", e, i, vText(w.want[i]), err)
		}
		if i >= len(w.want) {
			w.c.Failf("engine %d: %s seen after the %d that were to be seen", e, vText(w.seen[i]), i)
		}
		if !w.same(w.seen[i], w.want[i]) {
			w.c.Failf("engine %d: value %d seen is %s, want %s", e, i, vText(w.seen[i]), vText(w.want[i]))
		}
	}
	w.c.Ev("values seen by the host", len(w.want))
	switch {
	case (err != nil) != lost:
		w.c.Failf("engine %d: error %v, want %q", e, err, fails)
	case lost && !strings.Contains(err.Error(), fails):
		w.c.Failf("engine %d: error %v, want %q", e, err, fails)
	case lost:
		w.c.Ev("scripts that fail", 1)
	default:
		w.c.Ev("scripts", 1)
	}
}

func (w *vworld) step() {
	r := w.r
	e := r.N(len(w.e))
	x := r.Pick(vNames...)
	k := w.near(e, x)
	en := w.e[e]
	switch r.W(25, 14, 8, 5, 4, 8) {
	case 0:
		w.script(e, 1+r.N(6))
		w.compare()
		return
	case 1:
		w.put("engine %d: SetVar %s %d", e, x, k)
		en.l.SetVar(x, w.pool[k])
		en.vars[x] = w.pool[k]
	case 2:
		w.put("engine %d: Unset %s", e, x)
		en.l.Unset(x)
		delete(en.vars, x)
	case 3:
		w.put("engine %d: Vars %s = %d", e, x, k)
		en.l.Vars()[x] = w.pool[k]
		en.vars[x] = w.pool[k]
	case 4:
		w.put("engine %d: delete Vars %s", e, x)
		delete(en.l.Vars(), x)
		delete(en.vars, x)
	case 5: // a function of another engine
		g := r.Pick("f", "g", "h")
		t := r.N(len(w.e))
		if f, ok := en.vars[g].(*vfn); ok {
			w.put("engine %d: %s of engine %d", t, g, e)
			v, _ := en.l.Var(g)
			w.e[t].l.SetVar(g, v)
			w.e[t].vars[g] = f
			if t != e {
				w.c.Ev("functions of another engine", 1)
			}
		}
	}
	if v, ok := en.l.Var(x); ok != (func() bool { _, ok := en.vars[x]; return ok })() || ok && !w.same(v, en.vars[x]) {
		w.c.Failf("engine %d: Var(%s) is %s, %v", e, x, vText(v), ok)
	}
	w.c.Ev("edits by the host", 1)
}

func checkVars(c *Case) {
	w := newVworld(c, 1+c.R.N(3))
	for i := 3 + c.R.N(25); i > 0; i-- {
		w.step()
	}
	w.compare()
	c.Seen(w.in.String())
}

var varDims = []bigDim{{"variables", 20001}, {"length of a name", 20001}, {"edits in a script", 5001}, {"engines", 513}, {"deferred edits", 5001}, {"calls of a function", 5001},
	{"functions over one variable", 2049}, {"depth of functions", 257}, {"set and unset", 5001}}

func bigVars(c *Case, b bigCase) {
	r := c.R
	n := b.n
	engines := 1
	if b.name == "engines" {
		engines = n
	}
	w := newVworld(c, engines)
	m := w.e[0].vars
	l := w.e[0].l
	eval := func(text string) {
		w.seen = nil
		c.Input("%s at size %d: %s", b.name, n, clip(text, 2000))
		if err := l.SafeEval(text); err != nil {
			c.Failf("error %.500s", err.Error())
		}
	}
	seen := func(want ...interface{}) {
		if len(w.seen) != len(want) {
			c.Failf("%d values seen, want %d", len(w.seen), len(want))
		}
		for i, v := range want {
			if !w.same(w.seen[i], v) {
				c.Failf("value %d seen is %s, want %s", i, vText(w.seen[i]), vText(v))
			}
		}
		c.Ev("values seen by the host", len(want))
	}
	name := func(i int) string { return fmt.Sprintf("v%d", i) }
	switch b.name {
	case "variables":
		text := ""
		var want []interface{}
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				l.SetVar(name(i), w.pool[i%len(w.pool)])
				m[name(i)] = w.pool[i%len(w.pool)]
			} else {
				text += fmt.Sprintf("%s = %d\n", name(i), i)
				m[name(i)] = i
			}
		}
		for i := 0; i < 20; i++ {
			k := r.N(n)
			text += fmt.Sprintf("probe(%s)\n", name(k))
			want = append(want, m[name(k)])
		}
		eval(text)
		seen(want...)
		for i := 0; i < n; i += 1 + r.N(3) {
			switch r.N(4) {
			case 0:
				delete(l.Vars(), name(i))
			case 1:
				l.Vars()[name(i)] = w.pool[i%len(w.pool)]
				m[name(i)] = w.pool[i%len(w.pool)]
				continue
			default:
				l.Unset(name(i))
			}
			delete(m, name(i))
		}
	case "length of a name":
		x := cycle("nameé", n)
		l.SetVar(x, 1)
		l.SetVar(x+"a", 2)
		eval(fmt.Sprintf("probe(%s); probe(%sa); %sb = 3; %s++; fn() { %sa; %sa = 7 }()", x, x, x, x, x, x))
		seen(1, 2)
		m[x], m[x+"a"], m[x+"b"] = 2, 7, 3
	case "edits in a script":
		text := ""
		var want []interface{}
		for i := 0; i < n; i++ {
			k := r.N(len(w.pool))
			text += fmt.Sprintf("hset(\"x\", %d); probe(x)\n", k)
			want = append(want, w.pool[k])
			m["x"] = w.pool[k]
		}
		eval(text)
		seen(want...)
	case "engines":
		for i, e := range w.e {
			e.l.SetVar("x", i)
			e.vars["x"] = i
			w.c.Input("engine %d of %d", i, n)
			if err := e.l.SafeEval("y = x + 1; f = fn() { probe(x); x = y }"); err != nil {
				c.Failf("%v", err)
			}
			e.vars["y"], e.vars["f"] = i+1, &vfn{}
		}
		f, _ := w.e[n-1].l.Var("f")
		l.SetVar("g", f)
		m["g"] = f
		eval("g()")
		seen(n - 1)
		w.e[n-1].vars["x"] = n
	case "deferred edits":
		text := ""
		for i := 0; i < n; i++ {
			k := i % len(w.pool)
			text += fmt.Sprintf("defer hset(\"%s\", %d)\n", name(i%100), k)
		}
		for i := n - 1; i >= 0; i-- {
			m[name(i%100)] = w.pool[i%len(w.pool)]
		}
		eval(text)
	case "calls of a function":
		l.SetVar("x", 0)
		eval(fmt.Sprintf("f = fn() { x; x = x + 1 }; for i = 0; i < %d; i++ { f() }", n))
		m["x"], m["i"], m["f"] = n, n, &vfn{}
	case "functions over one variable":
		text := ""
		var want []interface{}
		for i := 0; i < n; i++ {
			text += fmt.Sprintf("%s = fn() { probe(x); x = %d }\n", name(i), i)
			m[name(i)] = &vfn{}
		}
		m["x"] = "first"
		l.SetVar("x", "first")
		for i := 0; i < 50; i++ {
			k := r.N(n)
			text += fmt.Sprintf("%s()\n", name(k))
			want = append(want, m["x"])
			m["x"] = k
		}
		eval(text)
		seen(want...)
	case "depth of functions":
		text := "probe(x); x = 5"
		for i := 0; i < n; i++ {
			text = "fn() { " + text + " }()"
		}
		l.SetVar("x", 2.5)
		eval(text)
		seen(2.5)
		m["x"] = 5
	case "set and unset":
		for i := 0; i < n; i++ {
			l.SetVar(name(i%7), i)
			m[name(i%7)] = i
			if i%3 == 0 {
				l.Unset(name(i % 5))
				delete(m, name(i%5))
			}
		}
		eval("unset(\"v0\"); unset(\"nosuch\")")
		delete(m, "v0")
	}
	w.compare()
}

func init() {
	register(&Prop{ID: "C44",
		Rule:    "histories of SetVar, Unset, Vars edits and scripts on one to three engines; the scripts assign, copy, change, unset and probe variables at top level, in blocks, functions and methods, have the host edit them in the middle, defer such edits, use functions of the other engines, and fail now and then; everything the host sees is compared with a table of names. A case counts when it ran",
		MustSee: []string{"values seen by the host", "scripts", "scripts that fail", "edits by the host", "functions of another engine", "comparisons of all variables", "big cases"},
		Assume:  []string{"a host function does not evaluate code on the engine that calls it", "a variable of an outer function is not unset while a function that uses it runs"},
		Parts: []*Part{
			{Name: "histories", Quick: 20000, Thorough: 600000, Run: checkVars},
			bigPart("big", varDims, 1, 10, bigVars),
		}})
}
