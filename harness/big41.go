package main

// Sizes for C39 and C41: the host and qlang.

import (
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	qi "github.com/qiniu/text/tpl/qlang/cl/interpreter"
)

type bigHost struct {
	bigDim
	f func(c *Case, w *hostWorld, n int)
}

func bigHostPart(l []bigHost, quick, thorough int) *Part {
	var dims []bigDim
	for _, d := range l {
		dims = append(dims, d.bigDim)
	}
	return bigPart("big", dims, quick, thorough, func(c *Case, b bigCase) {
		w := &hostWorld{c: c, l: qengine(true)}
		l[b.dim].f(c, w, b.n)
		if k := stackLen(w.l); k > 1 {
			c.Failf("%d values on the stack", k)
		}
	})
}

// run runs a text that must not fail and yields x.
func (w *hostWorld) run(text string) interface{} {
	w.c.Input("%s\n%s", strings.Join(w.text, "\n"), brief(text))
	w.l.SetVar("x", "unset")
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(caseFailure); ok {
				panic(e)
			}
			w.c.Failf("SafeEval panics: %v", e)
		}
	}()
	if err := w.l.SafeEval(text); err != nil {
		w.c.Failf("error %s", brief(err.Error()))
	}
	w.l.Ret()
	v, _ := w.l.Var("x")
	return v
}

func (w *hostWorld) same(want, got interface{}) {
	if !sameMember(want, got) {
		w.c.Failf("%s, expected %s", brief(describe(got)), brief(describe(want)))
	}
}

// lists compares element by element, to name the one that differs.
func (w *hostWorld) lists(what string, want, got []interface{}) {
	if len(want) != len(got) {
		w.c.Failf("%s: %d values, expected %d", what, len(got), len(want))
	}
	for i := range want {
		if !sameValue(want[i], got[i]) {
			w.c.Failf("%s: value %d is %s, expected %s", what, i, brief(describe(got[i])), brief(describe(want[i])))
		}
	}
}

// bigArgs makes values for n parameters of type t: of all kinds, or all but one of one kind.
func bigArgs(r *Rand, t reflect.Type, n int) func(i int) (interface{}, string) {
	if r.P(50) || t != tFloat && t != tIntf {
		return func(i int) (interface{}, string) { return bigArg(r, t, i) }
	}
	odd := n - 1
	if r.P(50) {
		odd = r.N(n)
	}
	return func(i int) (interface{}, string) {
		if i == odd {
			if t == tIntf {
				return bigArg(r, t, i)
			}
			return float64(i), strconv.Itoa(i)
		}
		return float64(i) + .5, strconv.Itoa(i) + ".5"
	}
}

// bigArg is a value, its text and what a parameter of type t gets.
func bigArg(r *Rand, t reflect.Type, i int) (v interface{}, text string) {
	switch t.Kind() {
	case reflect.String:
		s := "s" + strconv.Itoa(i)
		return s, strconv.Quote(s)
	case reflect.Float64:
		if r.P(50) {
			return float64(i), strconv.Itoa(i)
		}
		return float64(i) + .5, strconv.Itoa(i) + ".5"
	case reflect.Int:
		return i, strconv.Itoa(i)
	case reflect.Uint8:
		return byte(i), fmt.Sprintf("byte(%d)", i%256)
	}
	switch r.N(5) {
	case 0:
		return nil, "nil"
	case 1:
		return "é" + strconv.Itoa(i), strconv.Quote("é" + strconv.Itoa(i))
	case 2:
		return float64(i) + .25, strconv.Itoa(i) + ".25"
	case 3:
		return i%2 == 0, strconv.FormatBool(i%2 == 0)
	}
	return i, strconv.Itoa(i)
}

var bigArgTypes = []reflect.Type{tIntf, tIntf, tFloat, tString, tInt, reflect.TypeOf(byte(0))}

// recorder is a function of the signature that records what it gets.
func recorder(in, out []reflect.Type, variadic bool, rets []interface{}, got *[]interface{}, calls *int) interface{} {
	return reflect.MakeFunc(reflect.FuncOf(in, out, variadic), func(args []reflect.Value) (ret []reflect.Value) {
		*calls++
		*got = nil
		for i, x := range args {
			if variadic && i == len(args)-1 {
				for j := 0; j < x.Len(); j++ {
					*got = append(*got, x.Index(j).Interface())
				}
				break
			}
			*got = append(*got, x.Interface())
		}
		for i, v := range rets {
			x := reflect.New(out[i]).Elem()
			if v != nil {
				x.Set(reflect.ValueOf(v))
			}
			ret = append(ret, x)
		}
		return
	}).Interface()
}

var big41 = []bigHost{
	{bigDim{"arguments of a variadic function", 20001}, func(c *Case, w *hostWorld, n int) {
		r := c.R
		t := bigArgTypes[r.N(len(bigArgTypes))]
		var got []interface{}
		calls := 0
		in := []reflect.Type{}
		var want []interface{}
		var texts []string
		for k := r.N(4); k > 0 && n > 4; k-- { // fixed parameters
			p := bigArgTypes[r.N(len(bigArgTypes))]
			in = append(in, p)
			v, s := bigArg(r, p, 1000+k)
			want, texts = append(want, v), append(texts, s)
		}
		in = append(in, reflect.SliceOf(t))
		arg := bigArgs(r, t, n)
		for len(want) < n {
			v, s := arg(len(want))
			want, texts = append(want, v), append(texts, s)
		}
		f := w.callee(recorder(in, []reflect.Type{tInt}, true, []interface{}{n}, &got, &calls))
		w.same(n, w.run("x = "+f+"("+strings.Join(texts, ", ")+")"))
		w.lists("arguments", want, got)
		w.same(1, calls)
	}},
	{bigDim{"elements of a spread list", 131073}, func(c *Case, w *hostWorld, n int) {
		r := c.R
		t := bigArgTypes[r.N(len(bigArgTypes))]
		var got, want []interface{}
		calls := 0
		et := t // type of the elements of the list
		if t == tFloat && r.P(50) {
			et = tInt
		}
		if r.P(30) {
			et = tIntf
		}
		l := reflect.MakeSlice(reflect.SliceOf(et), 0, n)
		mixed := t == tFloat && et == tIntf && r.P(50) // an int or so here and there
		at := r.N(n)
		for i := 0; i < n; i++ {
			v, _ := bigArg(r, t, i)
			if mixed && i == at {
				want = append(want, float64(i))
				l = reflect.Append(l, reflect.ValueOf(i).Convert([]reflect.Type{tInt, reflect.TypeOf(uint32(0))}[r.N(2)]))
				continue
			}
			if et == tInt {
				v = i
			}
			x := reflect.New(et).Elem()
			if v != nil {
				x.Set(reflect.ValueOf(v))
			}
			l = reflect.Append(l, x)
			if t == tFloat && et == tInt {
				v = float64(i)
			}
			want = append(want, v)
		}
		in := []reflect.Type{reflect.SliceOf(t)}
		pre := ""
		if r.P(50) {
			in = append([]reflect.Type{tInt}, in...)
			want = append([]interface{}{7}, want...)
			pre = "7, "
		}
		f := w.callee(recorder(in, nil, true, nil, &got, &calls))
		w.same(nil, w.run("x = "+f+"("+pre+w.set(l.Interface())+"...)"))
		w.lists("arguments", want, got)
		w.same(1, calls)
	}},
	{bigDim{"parameters", 120}, func(c *Case, w *hostWorld, n int) {
		r := c.R
		var in []reflect.Type
		var got, want []interface{}
		var texts []string
		calls := 0
		for i := 0; i < n; i++ {
			t := bigArgTypes[r.N(len(bigArgTypes))]
			in = append(in, t)
			v, s := bigArg(r, t, i)
			want, texts = append(want, v), append(texts, s)
		}
		f := w.callee(recorder(in, []reflect.Type{tString}, false, []interface{}{"end"}, &got, &calls))
		w.same("end", w.run("x = "+f+"("+strings.Join(texts, ", ")+")"))
		w.lists("arguments", want, got)
		w.same(1, calls)
		// one too many, one too few, one of another type
		bad := append([]string{}, texts...)
		switch r.N(3) {
		case 0:
			bad = append(bad, "1")
		case 1:
			bad = bad[1:]
		case 2:
			i := r.N(n)
			if in[i] == tIntf {
				bad = bad[1:]
			} else {
				bad[i] = "[1]"
			}
		}
		if err := w.eval("x = " + f + "(" + strings.Join(bad, ", ") + ")"); err == nil || calls != 1 {
			c.Failf("%d calls, error %v", calls, err)
		}
	}},
	{bigDim{"results", 120}, func(c *Case, w *hostWorld, n int) {
		r := c.R
		var got, want []interface{}
		var out []reflect.Type
		calls := 0
		for i := 0; i < n; i++ {
			t := bigArgTypes[r.N(len(bigArgTypes))]
			v, _ := bigArg(r, t, i)
			out, want = append(out, t), append(want, v)
		}
		f := w.callee(recorder(nil, out, false, want, &got, &calls))
		i := r.N(n)
		x, ok := w.run("l = " + f + "(); x = [l, l[" + strconv.Itoa(i) + "], len(l)]").([]interface{})
		if !ok || len(x) != 3 || x[2] != n {
			c.Failf("the results are %s", brief(fmt.Sprint(x)))
		}
		l, ok := x[0].([]interface{})
		if !ok || len(l) != n {
			c.Failf("the results are %T", x[0])
		}
		for i := range l {
			if !hostRet(out[i], want[i], l[i]) {
				c.Failf("result %d is %s, expected %s", i, describe(l[i]), describe(want[i]))
			}
		}
		if !hostRet(out[i], want[i], x[1]) {
			c.Failf("result %d is %s, expected %s", i, describe(x[1]), describe(want[i]))
		}
		w.same(1, calls)
	}},
	{bigDim{"size of a value handed over", 131073}, func(c *Case, w *hostWorld, n int) {
		r := c.R
		var v interface{}
		switch r.N(7) {
		case 0:
			v = cycle(r.Pick("ab", "é变x", "\x00a"), n)
		case 1:
			l := make([]interface{}, n)
			for i := range l {
				l[i] = i
			}
			v = l
		case 2:
			v = numbers(n)
		case 3:
			v = make([]byte, n)
		case 4:
			m := map[string]int{}
			for i := 0; i < n; i++ {
				m[strconv.Itoa(i)] = i
			}
			v = m
		case 5:
			m := map[interface{}]interface{}{}
			for i := 0; i < n; i++ {
				m[i] = i
			}
			v = m
		case 6:
			v = reflect.New(reflect.ArrayOf(n, tInt)).Interface()
		}
		var got []interface{}
		calls := 0
		p := tIntf
		if r.P(50) {
			p = reflect.TypeOf(v)
		}
		f := w.callee(recorder([]reflect.Type{p}, []reflect.Type{p}, false, []interface{}{v}, &got, &calls))
		w.same(v, w.run("id = fn(a) { return a }\nm = {\"k\": "+w.set(v)+"}\ny = id("+f+"(id(m.k)))\nx = [1, y][1]"))
		w.lists("arguments", []interface{}{v}, got)
		w.same(1, calls)
		fv, _ := w.l.Var("id")
		w.same(v, fv.(scriptFn).Call(v))
	}},
	{bigDim{"fields of a struct", 1025}, func(c *Case, w *hostWorld, n int) {
		r := c.R
		var f []reflect.StructField
		var want []interface{}
		for i := 0; i < n; i++ {
			t := bigArgTypes[r.N(len(bigArgTypes))]
			v, _ := bigArg(r, t, i)
			f, want = append(f, reflect.StructField{Name: "F" + strconv.Itoa(i), Type: t}), append(want, v)
		}
		s := reflect.New(reflect.StructOf(f)).Elem()
		for i, v := range want {
			if v != nil {
				s.Field(i).Set(reflect.ValueOf(v))
			}
		}
		if r.P(50) {
			s = s.Addr()
		}
		name := w.set(s.Interface())
		for k := 0; k < 4; k++ {
			i := []int{n - 1, 0, r.N(n), r.N(n)}[k]
			x := w.run(fmt.Sprintf("x = %s.f%d", name, i))
			if !hostRet(f[i].Type, want[i], x) && !sameValue(want[i], x) {
				c.Failf("field %d is %s, expected %s", i, describe(x), describe(want[i]))
			}
		}
		if err := w.eval(fmt.Sprintf("x = %s.f%d", name, n)); err == nil {
			c.Failf("no error")
		}
	}},
	{bigDim{"entries of a map", 70001}, func(c *Case, w *hostWorld, n int) {
		r := c.R
		m := map[string]interface{}{}
		for i := 0; i < n; i++ {
			m["k"+strconv.Itoa(i)] = i
		}
		var v interface{} = m
		if r.P(40) {
			t := map[string]int{}
			for k, x := range m {
				t[k] = x.(int)
			}
			v = t
		}
		name := w.set(v)
		for k := 0; k < 4; k++ {
			i := []int{n - 1, 0, r.N(n), r.N(n)}[k]
			w.same(i, w.run(fmt.Sprintf("x = %s.k%d", name, i)))
		}
		if err := w.eval(fmt.Sprintf("x = %s.k%d", name, n)); err == nil {
			c.Failf("no error")
		}
	}},
	{bigDim{"characters of a member", 70001}, func(c *Case, w *hostWorld, n int) {
		r := c.R
		key := cycle(r.Pick("abc_X9", "é变x", "a"), n)
		m := map[string]interface{}{key: 1, key + "x": 2, key[:len(key)-1]: 3, strings.Title(key): 4}
		if key == strings.Title(key) {
			return
		}
		name := w.set(m)
		w.same(1, w.run("x = "+name+"."+key))
		w.same(2, w.run("x = "+name+"."+key+"x"))
		if err := w.eval("x = " + name + "." + key + "yz"); err == nil {
			c.Failf("no error")
		}
		if key[0] == 'a' && n < 5000 { // a field
			s := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A" + key[1:] + "x", Type: tInt}, {Name: "A" + key[1:], Type: tInt}})).Elem()
			s.Field(1).SetInt(5)
			w.same(5, w.run("x = "+w.set(s.Interface())+"."+key))
		}
	}},
	{bigDim{"length of a path", 5001}, func(c *Case, w *hostWorld, n int) {
		r := c.R
		a, b := newHObj(r, 0), newHObj(r, 0)
		a.Next, b.Next = b, a
		a.Any = map[string]interface{}{"o": a}
		b.Any = map[string]interface{}{"o": b}
		cur := a
		expr := w.set(a)
		here().hTrace = nil
		var want []string
		mix := r.N(4)
		for i := 0; i < n; i++ {
			k := mix
			if mix == 3 {
				k = r.N(3)
			}
			switch k {
			case 0:
				expr += ".next"
				cur = cur.Next
			case 1:
				expr += ".self()"
				want = append(want, fmt.Sprintf("self %p", cur))
			case 2:
				expr += ".any.o"
			}
		}
		w.same(cur, w.run("x = "+expr))
		got := here().hTrace
		if len(got) != len(want) {
			c.Failf("%d calls of methods, expected %d", len(got), len(want))
		}
		for i := range want {
			if got[i] != want[i] {
				c.Failf("call %d is %s, expected %s", i, got[i], want[i])
			}
		}
		cur.Next = nil
		if err := w.eval("x = " + w.set(cur) + ".next.name"); err == nil {
			c.Failf("no error")
		}
	}},
	{bigDim{"calls of a host function", 131073}, func(c *Case, w *hostWorld, n int) {
		r := c.R
		next, sum := 0, 0.0
		bad := ""
		f := []interface{}{
			func(i int) int { note(&bad, &next, i); return i },
			func(i float64) float64 { note(&bad, &next, int(i)); return i },
			func(i interface{}) int8 { note(&bad, &next, i.(int)); return int8(i.(int) % 100) },
			func(i ...int) (int, string) { note(&bad, &next, i[0]); return i[0], "s" },
			func(i ...interface{}) { note(&bad, &next, i[0].(int)) },
		}
		k := r.N(len(f))
		expr := []string{"%s(i)", "%s(i)", "%s(i)", "%s(i, 2)[0]", "[%s(i, \"a\"), 1][1]"}[k]
		want := interface{}(0)
		for i := 0; i < n; i++ {
			switch k {
			case 2:
				sum += float64(i % 100)
			case 4:
				sum++
			default:
				sum += float64(i)
			}
		}
		if want = int(sum); k == 1 {
			want = sum
		}
		got := w.run("s = 0\nfor i = 0; i < " + strconv.Itoa(n) + "; i++ {\n\ts += " + fmt.Sprintf(expr, w.callee(f[k])) + "\n}\nx = s\n")
		w.same("", bad)
		w.same(n, next)
		w.same(want, got)
	}},
	{bigDim{"calls of methods", 50001}, func(c *Case, w *hostWorld, n int) {
		o := &hAuto{N: 3, Obj: newHObj(c.R, 0)}
		o.Obj.Count = 5
		here().hTrace = nil
		w.same(n*(3+3+4+5), w.run("a = "+w.set(o)+"\np = a.plus\ns = 0\nfor i = 0; i < "+strconv.Itoa(n)+"; i++ {\n\ts += a.len\n\ts += a.pair[0]\n\ts += p(1)\n\ts += a.get.count\n}\nx = s\n"))
		w.same(4*n, len(here().hTrace))
		here().hTrace = nil
	}},
	{bigDim{"calls of a script function", 32769}, func(c *Case, w *hostWorld, n int) {
		r := c.R
		k := r.N(5)
		w.run([]string{
			"s = 0\nf = fn(a, b) { s; s += a; return [a, b] }\nx = 1",
			"s = 0\nf = fn(a, b...) { s; s += a; return [a, b[0]] }\nx = 1",
			"s = 0\nK = class { fn f(a, b) { s; s += a; return [a, b] } }\no = new K\nf = o.f\nx = 1",
			"s = 0\nf = fn(a, b) { s; defer fn() { s; s += a }(); return [a, b] }\nx = 1",
			"s = 0\nf = fn(a, b) { s; s += a; if b == \"panic\" { panic(\"stop\") }; return [a, b] }\nx = 1",
		}[k])
		v, _ := w.l.Var("f")
		f := v.(scriptFn)
		sum := 0
		for i := 0; i < n; i++ {
			b := interface{}("v")
			if i%2 == 1 {
				b = "w"
			}
			if k == 4 && i%3 == 1 {
				b = "panic"
			}
			if c.R.P(1) { // a wrong count
				if l := hostTryReal([]interface{}{f}); l[0] != false {
					c.Failf("call without arguments: %v", l)
				}
			}
			l := hostTryReal([]interface{}{f, i, b})
			if b == "panic" {
				if l[0] != false {
					c.Failf("call %d: %v", i, l)
				}
			} else if x, ok := l[1].([]interface{}); l[0] != true || !ok || len(x) != 2 || x[0] != i || x[1] != b {
				c.Failf("call %d: %v", i, l)
			}
			sum += i
		}
		x, _ := w.l.Var("s")
		w.same(sum, x)
		if k := stackLen(w.l); k != 0 {
			c.Failf("%d values on the stack", k)
		}
		w.same(3, w.run("x = len([f(1, 2), 3]) + 1"))
	}},
	{bigDim{"depth of host and script", 1001}, func(c *Case, w *hostWorld, n int) {
		r := c.R
		var order []int
		w.l.SetVar("rec", func(i int) { order = append(order, i) })
		var down func(f interface{}, i int) interface{}
		down = func(f interface{}, i int) interface{} { return f.(scriptFn).Call(i) }
		w.l.SetVar("down", down)
		end := r.Pick("return 1", "panic(\"bottom\")")
		call := "hcall(f, i-1)"
		if r.P(50) {
			call = "down(f, i-1)"
		}
		w.run("f = fn(i) {\n\trec(i)\n\tif i == 0 { " + end + " }\n\tdefer rec(-i)\n\treturn 1 + " + call + "\n}\nx = 1")
		text := "x = f(" + strconv.Itoa(n) + ")"
		if end == "return 1" {
			w.same(n+1, w.run(text))
		} else if err := w.eval(text); err == nil || !strings.Contains(err.Error(), "bottom") {
			c.Failf("error %v", err)
		}
		var want []int
		for i := n; i >= 0; i-- {
			want = append(want, i)
		}
		for i := 1; i <= n; i++ {
			want = append(want, -i)
		}
		if !reflect.DeepEqual(order, want) {
			c.Failf("the order is %s", brief(fmt.Sprint(order)))
		}
	}},
	{bigDim{"host functions", 20001}, func(c *Case, w *hostWorld, n int) {
		r := c.R
		k := r.N(3)
		got := -1
		l := make([]interface{}, n)
		m := map[string]interface{}{}
		for i := range l {
			i := i
			l[i] = func(a int) int { got = i; return a + i }
			switch k {
			case 0:
				w.l.SetVar("h"+strconv.Itoa(i), l[i])
			case 1:
				m["h"+strconv.Itoa(i)] = l[i]
			}
		}
		w.l.SetVar("m", m)
		w.l.SetVar("l", l)
		for j := 0; j < 5; j++ {
			i := []int{n - 1, 0, r.N(n), r.N(n), r.N(n)}[j]
			e := fmt.Sprintf([]string{"h%d", "m.h%d", "l[%d]"}[k], i)
			w.same(1000+i, w.run("x = "+e+"(1000)"))
			w.same(i, got)
		}
	}},
	{bigDim{"calls that fail", 20001}, func(c *Case, w *hostWorld, n int) {
		r := c.R
		calls := 0
		w.l.SetVar("f", func(a string, b float64) int { calls++; return 5 })
		w.l.SetVar("boom", func() { panic(errors.New("boom")) })
		w.l.SetVar("o", newHObj(r, 0))
		w.l.SetVar("five", 5)
		bad := []string{"f(1, 2)", "f(\"a\")", "f(\"a\", \"b\")", "f(\"a\", 1, 2)", "boom()", "o.nosuch", "f.x", "five(1)", "o.boom()", "f([1, 2]...)"}
		k := r.N(len(bad) + 1)
		script := n > 2000 || r.P(50)
		if script { // caught by the script
			var cases []string
			for i, s := range bad {
				cases = append(cases, fmt.Sprintf("case %d: 1 + %s", i, s))
			}
			pick := strconv.Itoa(k)
			if k == len(bad) {
				pick = "i % " + pick
			}
			w.same(n, w.run("c = 0\ng = fn(i) {\n\tdefer fn() { c; if recover() != nil { c++ } }()\n\tswitch "+pick+" {\n\t"+strings.Join(cases, "\n\t")+"\n\t}\n}\nfor i = 0; i < "+strconv.Itoa(n)+"; i++ { g(i) }\nx = c\n"))
		} else {
			for i := 0; i < n; i++ {
				s := bad[(k+i*(k/len(bad)))%len(bad)]
				if err := w.l.SafeEval("x = 1 + " + s); err == nil {
					c.Failf("no error of %s", s)
				}
			}
		}
		w.same(0, calls)
		w.same(6, w.run("x = 1 + f(\"a\", 2)"))
		w.same(1, calls)
		here().hTrace = nil
	}},
	{bigDim{"host values in variables", 50001}, func(c *Case, w *hostWorld, n int) {
		r := c.R
		objs := make([]*hInner, n)
		for i := range objs {
			objs[i] = &hInner{X: i, Y: 1}
			w.l.SetVar("o"+strconv.Itoa(i), objs[i])
		}
		here().hTrace = nil
		for j := 0; j < 5; j++ {
			i := []int{n - 1, 0, r.N(n), r.N(n), r.N(n)}[j]
			w.same(i, w.run(fmt.Sprintf("x = o%d.x", i)))
			w.same(i+1, w.run(fmt.Sprintf("x = o%d.sum()", i)))
			w.same(objs[i], w.run(fmt.Sprintf("x = o%d", i)))
			w.run(fmt.Sprintf("o%d = [o%d]; x = 1", i, i))
			v, _ := w.l.Var("o" + strconv.Itoa(i))
			w.same([]interface{}{objs[i]}[0], reflect.ValueOf(v).Index(0).Interface())
			w.l.SetVar("o"+strconv.Itoa(i), objs[i])
		}
		for i := range objs {
			if v, ok := w.l.Var("o" + strconv.Itoa(i)); !ok || v != objs[i] {
				c.Failf("variable %d is %v", i, v)
			}
		}
		here().hTrace = nil
	}},
}

func note(bad *string, next *int, i int) {
	if i != *next && *bad == "" {
		*bad = fmt.Sprintf("call %d gets %d", *next, i)
	}
	*next++
}

// ---------------------------------------------------------------- C39

type bigHosted struct {
	bigDim
	f func(r *Rand, n int) (text string, want float64)
}

var bigCalc39 = []bigHosted{
	{bigDim{"terms of a sum", 5001}, func(r *Rand, n int) (string, float64) {
		v := 0.0
		return times(n, func(i int) string {
			k := r.N(1000)
			op := " + "
			if i > 0 && r.P(50) {
				op = " - "
				v -= float64(k)
			} else {
				v += float64(k)
			}
			if i == 0 {
				op = ""
			}
			return op + strconv.Itoa(k)
		}), v
	}},
	{bigDim{"factors", 5001}, func(r *Rand, n int) (string, float64) {
		v := 1.0
		return times(n, func(i int) string {
			if i == 0 {
				return "1"
			}
			if v > 1 {
				v /= 2
				return "/2"
			}
			v *= 2
			return "*2"
		}), v
	}},
	{bigDim{"parentheses", 1001}, func(r *Rand, n int) (string, float64) {
		return strings.Repeat("(", n) + "3" + strings.Repeat(")", n) + " + 1", 4
	}},
	{bigDim{"signs", 1001}, func(r *Rand, n int) (string, float64) {
		v := 3.0
		s := times(n, func(int) string {
			if r.P(50) {
				return "+ "
			}
			v = -v
			return "- "
		})
		return s + "3", v
	}},
	{bigDim{"nested calls", 1001}, func(r *Rand, n int) (string, float64) {
		return strings.Repeat("abs(-", n) + "3" + strings.Repeat(")", n), 3
	}},
	{bigDim{"arguments", 5001}, func(r *Rand, n int) (string, float64) {
		at := r.N(n)
		f, v := "max", 5000000.0
		if r.P(50) {
			f, v = "min", -5000000.0
		}
		return f + "(" + times(n, func(i int) string {
			s := ""
			if i > 0 {
				s = ","
			}
			if i == at {
				return s + strconv.FormatFloat(v, 'f', -1, 64)
			}
			return s + strconv.Itoa(i)
		}) + ")", v
	}},
	{bigDim{"digits", 300}, func(r *Rand, n int) (string, float64) {
		s := cycle(r.Pick("123456789", "9", "10"), n)
		v, _ := strconv.ParseFloat(s, 64)
		return s + r.Pick("", ".", ".0"), v
	}},
	{bigDim{"blanks", 20001}, func(r *Rand, n int) (string, float64) {
		return "1" + cycle(" \t", n) + "+" + cycle("\n ", n) + "2", 3
	}},
}

func bigHostedCalc(c *Case, b bigCase) {
	r := c.R
	variant := r.Pick("script", "host")
	if b.dim == len(bigCalc39) { // evaluations
		e := hostedCalculator(c, variant)
		script := r.P(50)
		if script {
			e.lang.SetVar("count", b.n)
			if err := e.lang.SafeEval("s = 0\nbad = 0\nfor i = 0; i < count; i++ {\n\tif i % 5 == 3 {\n\t\terr = eng.eval(\"(1 + nosuch)\")\n\t\tif err == nil { bad++ }\n\t\tcalc.ret()\n\t} else {\n\t\terr = eng.eval(\"3*(1+max(1, 2))\")\n\t\tif err != nil { panic(err) }\n\t\ts += calc.ret()\n\t}\n}\n"); err != nil {
				c.Failf("%v", err)
			}
			bad, _ := e.lang.Var("bad")
			s, _ := e.lang.Var("s")
			want := 0.0
			for i := 0; i < b.n; i++ {
				if i%5 != 3 {
					want += 9
				}
			}
			if bad != 0 || s != want {
				c.Failf("%v wrong outcomes, sum %v, expected %v", bad, s, want)
			}
			return
		}
		for i := 0; i < b.n; i++ {
			bad := i%5 == 3
			text := fmt.Sprintf("(1 + %d)", i)
			if bad {
				text = "(1 + nosuch)"
			}
			err := e.eng.Eval(text)
			v := e.calc.Cls.Fns["ret"].Call(e.calc)
			if (err != nil) != bad || !bad && v != float64(i+1) {
				c.Failf("evaluation %d: %v, %v", i, v, err)
			}
		}
		return
	}
	text, want := bigCalc39[b.dim].f(r, b.n)
	c.Input("%s at size %d (%s): %s", b.name, b.n, variant, brief(text))
	e := hostedCalculator(c, variant)
	var v interface{}
	var err error
	if r.P(50) {
		err = e.eng.Eval(text)
		v = e.calc.Cls.Fns["ret"].Call(e.calc)
	} else {
		e.lang.SetVar("txt", text)
		if err := e.lang.SafeEval("err = eng.eval(txt); outcome = calc.ret()"); err != nil {
			c.Failf("the script that evaluates: %v", err)
		}
		if ev, _ := e.lang.Var("err"); ev != nil {
			err = ev.(error)
		}
		v, _ = e.lang.Var("outcome")
	}
	if err != nil {
		c.Failf("error %s", brief(err.Error()))
	}
	if v != want {
		c.Failf("%v, expected %v", v, want)
	}
	// and it is refused when it goes on
	err = e.eng.Eval(text + " )")
	e.calc.Cls.Fns["ret"].Call(e.calc)
	if err == nil {
		c.Failf("no error when ) follows")
	}
}

// bigHostedMarks: interpreters with many marks, rules and calls.
func bigHostedMarks(c *Case, b bigCase) {
	r := c.R
	n := b.n
	lang := qengine(true)
	var log []string
	rec := func(id int, a interface{}) { log = append(log, fmt.Sprintf("%d:%v", id, a)) }
	lang.SetVar("rec", rec)
	var grammar, table, methods, text string
	var want []string
	mark := func(i int) string { return fmt.Sprintf("m%d", i) }
	one := func(i, v int) { want = append(want, fmt.Sprintf("%d:%v", i, v)) } // mark i gets v
	switch b.dim {
	case 0: // marks
		grammar = "doc = " + times(n, func(i int) string { return fmt.Sprintf(" INT/%sInt", mark(i)) })
		for i := 0; i < n; i++ {
			methods += fmt.Sprintf("fn %s(a) { rec(%d, a) }\n", mark(i), i)
			table += fmt.Sprintf("\t\"$%sInt\": I.%s,\n", mark(i), mark(i))
			text += fmt.Sprint(" ", i*3)
			one(i, i*3)
		}
	case 1: // rules
		grammar = "doc = " + times(n, func(i int) string { return fmt.Sprintf(" r%d", i) }) + "\n" +
			times(n, func(i int) string { return fmt.Sprintf("r%d = INT/%sInt\n", i, mark(i)) })
		for i := 0; i < n; i++ {
			methods += fmt.Sprintf("fn %s(a) { rec(%d, a) }\n", mark(i), i)
			table += fmt.Sprintf("\t\"$%sInt\": I.%s,\n", mark(i), mark(i))
			text += fmt.Sprint(" ", i*3)
			one(i, i*3)
		}
	case 2: // alternatives
		grammar = "doc = " + times(n, func(i int) string {
			s := ""
			if i > 0 {
				s = " | "
			}
			return s + fmt.Sprintf("\"k%d\" INT/%sInt", i, mark(i))
		})
		for i := 0; i < n; i++ {
			methods += fmt.Sprintf("fn %s(a) { rec(%d, a) }\n", mark(i), i)
			table += fmt.Sprintf("\t\"$%sInt\": I.%s,\n", mark(i), mark(i))
		}
		at := r.N(n)
		text = fmt.Sprintf("k%d 77", at)
		one(at, 77)
	case 3: // calls
		grammar = "doc = *(INT/m0Int) IDENT/m1"
		table = "\t\"$m0Int\": I.m0,\n\t\"$m1\": I.m1,\n"
		methods = "fn m0(a) { rec(0, a) }\nfn m1(a) { rec(1, a) }\n"
		for i := 0; i < n; i++ {
			text += fmt.Sprint(i, " ")
			one(0, i)
		}
		text += "end"
		want = append(want, "1:end")
	case 4: // repetition count
		grammar = "doc = (*INT)/M0 IDENT/m1"
		table = "\t\"$M0\": I.m0,\n\t\"$m1\": I.m1,\n"
		methods = "fn m0(a) { rec(0, a) }\nfn m1(a) { rec(1, a) }\n"
		text = times(n, func(i int) string { return fmt.Sprint(i, " ") }) + "end"
		one(0, n)
		want = append(want, "1:end")
	case 5: // characters of a token
		grammar = "doc = IDENT/m0 STRING/m1"
		table = "\t\"$m0\": I.m0,\n\t\"$m1\": I.m1,\n"
		methods = "fn m0(a) { rec(0, a) }\nfn m1(a) { rec(1, a) }\n"
		id := cycle(r.Pick("abc_X9", "é变x", "a"), n)
		str := cycle(r.Pick("ab c", "é变x"), n)
		text = id + " \"" + str + "\""
		want = append(want, "0:"+id, "1:\""+str+"\"")
	case 6: // nesting
		grammar = "doc = x\nx = '(' x ')' IDENT/m0 | INT/m1Int"
		table = "\t\"$m0\": I.m0,\n\t\"$m1Int\": I.m1,\n"
		methods = "fn m0(a) { rec(0, a) }\nfn m1(a) { rec(1, a) }\n"
		text = strings.Repeat("(", n) + "5" + times(n, func(i int) string { return fmt.Sprintf(") i%d ", i) })
		want = append(want, "1:5")
		for i := 0; i < n; i++ {
			want = append(want, fmt.Sprintf("0:i%d", i))
		}
	case 7: // saved code evaluated
		grammar = "doc = (*INT)/m2Src IDENT/m1\nnum = *(INT/m0Int)"
		table = "\t\"$m0Int\": I.m0,\n\t\"$m1\": I.m1,\n\t\"$m2Src\": I.m2,\n"
		methods = "fn m0(a) { rec(0, a) }\nfn m1(a) { rec(1, a) }\nfn m2(a) { _e = eng.evalCode(this, \"num\", a); if _e != nil { panic(_e) } }\n"
		for i := 0; i < n; i++ {
			text += fmt.Sprint(i, " ")
			one(0, i)
		}
		text += "end"
		want = append(want, "1:end")
	}
	lang.SetVar("gtext", grammar)
	script := "S = class {\nfn push(v) { }\nfn popArgs(n) { return slice(\"var\") }\n}\nI = class {\nfn grammar() { return gtext }\nfn stack() { return st }\nfn fntable() { return {\n" + table + "} }\n" + methods + "}\nst = new S\nit = new I\neng, err = ip39.interpreter(it, nil)\n"
	c.Input("%s at size %d\n%s\ntext %s\n%s", b.name, n, brief(grammar), brief(text), brief(script))
	if err := lang.SafeEval(script); err != nil {
		c.Failf("the script: %s", brief(err.Error()))
	}
	if err, _ := lang.Var("err"); err != nil {
		c.Failf("interpreter(): %s", brief(fmt.Sprint(err)))
	}
	v, _ := lang.Var("eng")
	for round := 0; round < 2; round++ {
		log = nil
		var err error
		if round == 0 {
			err = v.(*qi.Engine).Eval(text)
		} else {
			lang.SetVar("txt", text)
			if err := lang.SafeEval("res = eng.eval(txt)"); err != nil {
				c.Failf("the script that evaluates: %v", err)
			}
			if x, _ := lang.Var("res"); x != nil {
				err = x.(error)
			}
		}
		if err != nil {
			c.Failf("evaluation: %s", brief(err.Error()))
		}
		if len(log) != len(want) {
			c.Failf("%d calls, expected %d", len(log), len(want))
		}
		for i := range want {
			if log[i] != want[i] {
				c.Failf("call %d is %s, expected %s", i, brief(log[i]), brief(want[i]))
			}
		}
	}
}

var big39calc, big39marks = func() (a, b []bigDim) {
	for _, d := range bigCalc39 {
		a = append(a, d.bigDim)
	}
	return append(a, bigDim{"evaluations", 2049}), []bigDim{{"marks", 1025}, {"rules", 1025}, {"alternatives", 1025}, {"calls", 20001}, {"repetition count", 70001}, {"characters of a token", 131073}, {"nesting", 1001}, {"saved code evaluated", 5001}}
}()
