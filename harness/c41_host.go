package main

// C41: host values, host functions and script functions across the boundary of qlang.

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"

	"github.com/qiniu/text/tpl/qlang"
	"github.com/qiniu/text/tpl/qlang/lib/builtin/types"
	"github.com/qiniu/text/tpl/qlang/spec"
)

// ---------------------------------------------------------------- calls of host functions

var c41Types = append([]reflect.Type{
	tFloat, tFloat, tIntf, tIntf, tInt, tString,
	reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(uintptr(0)),
	reflect.TypeOf([]interface{}(nil)), reflect.TypeOf([]string(nil)), reflect.TypeOf(map[string]interface{}(nil)), reflect.TypeOf(hInner{}), reflect.TypeOf((*hObj)(nil)), reflect.TypeOf(hInt(0)), reflect.TypeOf(hFloat(0)), reflect.TypeOf([2]int{}),
}, c19Types...)

type hInt int
type hFloat float32

// c41Value makes a value, mostly one that fits t.
func c41Value(r *Rand, t reflect.Type) interface{} {
	k := r.N(1000)
	if t != nil && r.P(88) {
		switch t {
		case reflect.TypeOf([]interface{}(nil)):
			return []interface{}{k, "x"}
		case reflect.TypeOf([]string(nil)):
			return []string{strconv.Itoa(k)}
		case reflect.TypeOf(map[string]interface{}(nil)):
			return map[string]interface{}{"k": k}
		case reflect.TypeOf(hInner{}):
			return hInner{X: k}
		case reflect.TypeOf([2]int{}):
			return [2]int{k, k + 1}
		case reflect.TypeOf((*hObj)(nil)):
			if r.P(25) {
				return nil
			}
			return &hObj{Count: k}
		case tFloat:
			if r.P(60) {
				break
			}
			return float64(k) / 4
		}
		if t.Kind() >= reflect.Int && t.Kind() <= reflect.Uintptr {
			// also values of the upper half
			switch r.N(4) {
			case 0:
				k = -1 - k
			case 1:
				k = math.MaxInt64 - k
			}
			return reflect.ValueOf(k).Convert(t).Interface()
		}
	}
	if t != nil && (t.Kind() == reflect.Struct || t.Kind() == reflect.Array) {
		t = nil
	}
	return c19Value(r, t)
}

// sameValue tells whether got is the very value want.
func sameValue(want, got interface{}) bool {
	if want == nil || got == nil {
		return want == got
	}
	a, b := reflect.ValueOf(want), reflect.ValueOf(got)
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Func, reflect.Ptr, reflect.Chan, reflect.UnsafePointer:
		return a.Pointer() == b.Pointer()
	case reflect.Map:
		return a.Pointer() == b.Pointer()
	case reflect.Slice:
		return a.Len() == b.Len() && a.IsNil() == b.IsNil() && (a.Len() == 0 || a.Pointer() == b.Pointer())
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	}
	return reflect.DeepEqual(want, got) || a.Kind() == reflect.Struct && fmt.Sprintf("%+v", want) == fmt.Sprintf("%+v", got)
}

// hostRet tells whether got is what a result of static type t becomes in a script.
func hostRet(t reflect.Type, want, got interface{}) bool {
	if want == nil || t.Kind() == reflect.Interface {
		return sameValue(want, got)
	}
	v := reflect.ValueOf(want)
	switch k := t.Kind(); {
	case k == reflect.Int || k == reflect.Float64:
		// a type over int or float64 may keep its name
		if sameValue(want, got) {
			return true
		}
		if k == reflect.Int {
			return got == int(v.Int())
		}
		return sameValue(v.Float(), got)
	case k >= reflect.Int && k <= reflect.Int64:
		return got == int(v.Int())
	case k == reflect.Uint8:
		return got == int(v.Uint()) || got == byte(v.Uint())
	case k >= reflect.Uint && k <= reflect.Uintptr:
		return v.Uint() > math.MaxInt64 || got == int(v.Uint())
	case k == reflect.Float32:
		return sameValue(v.Float(), got)
	}
	return sameValue(want, got)
}

func describe(v interface{}) string {
	if v != nil {
		switch rv := reflect.ValueOf(v); rv.Kind() {
		case reflect.Ptr, reflect.Func, reflect.Chan:
			return fmt.Sprintf("%T@%x", v, rv.Pointer())
		}
	}
	return fmt.Sprintf("%T:%v", v, v)
}

func describeAll(l []interface{}) string {
	var s []string
	for _, v := range l {
		s = append(s, describe(v))
	}
	return "[" + strings.Join(s, " ") + "]"
}

// hostWorld makes values available to scripts.
type hostWorld struct {
	c      *Case
	l      qlang.Qlang
	n      int
	text   []string
	copied bool // there is a list literal
}

// put makes v available, as a literal if possible.
func (w *hostWorld) put(v interface{}) string {
	r := w.c.R
	if r.P(40) {
		switch x := v.(type) {
		case nil:
			return "nil"
		case int:
			if x >= 0 {
				return strconv.Itoa(x)
			}
			return "(" + strconv.Itoa(x+1) + " - 1)"
		case float64:
			if x >= 0 && x == math.Trunc(x*64)/64 && x < 1e6 {
				return strconv.FormatFloat(x, 'f', 6, 64)
			}
		case string:
			return strconv.Quote(x)
		case bool:
			return strconv.FormatBool(x)
		case uint8:
			return fmt.Sprintf("byte(%d)", x)
		case []int:
			if len(x) == 1 && x[0] >= 0 {
				w.copied = true
				return fmt.Sprintf("[%d]", x[0])
			}
		}
	}
	return w.set(v)
}

func (w *hostWorld) set(v interface{}) string {
	w.n++
	n := fmt.Sprintf("%s%d", w.c.R.Pick("h", "v", "été", "_x"), w.n)
	w.l.SetVar(n, v)
	w.text = append(w.text, n+" is "+brief(describe(v)))
	return n
}

// callee is an expression that yields the function v.
func (w *hostWorld) callee(v interface{}) string {
	r := w.c.R
	t := reflect.TypeOf(v)
	switch r.N(9) {
	case 0:
		return w.set(map[string]interface{}{"f": v}) + ".f"
	case 1:
		m := reflect.MakeMap(reflect.MapOf(tString, t))
		m.SetMapIndex(reflect.ValueOf("new"), reflect.ValueOf(v))
		return w.set(m.Interface()) + ".new"
	case 2, 3:
		s := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "Other", Type: tInt}, {Name: "FnX", Type: t}})).Elem()
		s.Field(1).Set(reflect.ValueOf(v))
		if r.P(50) {
			s = s.Addr()
		}
		return w.set(s.Interface()) + ".fnX"
	case 4:
		return w.set([]interface{}{1, v}) + "[1]"
	case 5:
		return "fn(x) { return x[\"a\"] }(" + w.set(map[string]interface{}{"a": v}) + ")"
	case 6:
		return "(" + w.set(v) + ")"
	}
	return w.set(v)
}

func (w *hostWorld) eval(text string) (err error) {
	w.c.Input("%s\n%s", strings.Join(w.text, "\n"), text)
	defer func() {
		if e := recover(); e != nil {
			w.c.Failf("SafeEval panics: %v", e)
		}
	}()
	return w.l.SafeEval(text)
}

func checkHostCall(c *Case) {
	r := c.R
	w := &hostWorld{c: c, l: qengine(r.P(50))}
	// a function that records what it gets, to look at results inside of expressions
	var rec []interface{}
	w.l.SetVar("rec", func(a ...interface{}) { rec = append(rec, a...) })
	for step := r.Range(1, 4); step > 0; step-- {
		var in, out []reflect.Type
		for i := r.N(5); i > 0; i-- {
			in = append(in, c41Types[r.N(len(c41Types))])
		}
		variadic := len(in) > 0 && r.P(35)
		for i := r.W(25, 45, 15, 10, 5); i > 0; i-- {
			out = append(out, c41Types[r.N(len(c41Types))])
		}
		var rets []interface{}
		for _, t := range out {
			v := c41Value(r, t)
			for {
				if tv := reflect.TypeOf(v); tv != nil && tv.AssignableTo(t) || tv == nil && t.Kind() == reflect.Interface {
					break
				}
				v = c41Value(r, t)
				if r.P(10) {
					v = reflect.Zero(t).Interface()
				}
			}
			rets = append(rets, v)
		}
		ftypes := append([]reflect.Type{}, in...)
		if variadic {
			ftypes[len(in)-1] = reflect.SliceOf(in[len(in)-1])
		}
		var boom interface{}
		boomText := ""
		if r.P(6) {
			boomText = fmt.Sprintf("boom %d", r.N(1000))
			if boom = boomText; r.P(50) {
				boom = errors.New(boomText)
			}
		}
		var calls [][]interface{}
		fn := reflect.MakeFunc(reflect.FuncOf(ftypes, out, variadic), func(args []reflect.Value) (ret []reflect.Value) {
			var a []interface{}
			for i, x := range args {
				if variadic && i == len(args)-1 {
					for j := 0; j < x.Len(); j++ {
						a = append(a, x.Index(j).Interface())
					}
				} else {
					a = append(a, x.Interface())
				}
			}
			calls = append(calls, a)
			if boom != nil {
				panic(boom)
			}
			for i, v := range rets {
				x := reflect.New(out[i]).Elem()
				if v != nil {
					x.Set(reflect.ValueOf(v))
				}
				ret = append(ret, x)
			}
			return
		}).Interface()
		param := func(i int) reflect.Type {
			if variadic && i >= len(in)-1 {
				return in[len(in)-1]
			}
			if i < len(in) {
				return in[i]
			}
			return nil
		}
		arity := len(in)
		if variadic {
			arity = len(in) - 1 + r.N(4)
		}
		if r.P(8) {
			arity = r.N(6)
		}
		var callee string
		notFn := false
		switch {
		case r.P(4): // an object with a method Call
			obj := &callObj{c: c}
			in, variadic, boom, boomText = []reflect.Type{tIntf}, true, nil, ""
			arity = r.N(4)
			rets = []interface{}{fmt.Sprint("called ", arity)}
			out = []reflect.Type{tIntf}
			callee = w.set(obj)
			defer func() { obj.got = nil }()
			calls = nil
			fn = obj
		case r.P(3):
			notFn = true
			callee = w.set([]interface{}{5, "f", 1.5, []int{1}, struct{}{}, &ptrT{1}, nil}[r.N(7)])
		default:
			callee = w.callee(fn)
		}
		var args []interface{}
		var texts []string
		for i := 0; i < arity; i++ {
			args = append(args, c41Value(r, param(i)))
		}
		w.copied = false
		spread := -1
		if r.P(18) {
			spread = r.N(arity + 1)
		}
		for i, v := range args {
			if i == spread {
				break
			}
			texts = append(texts, w.put(v))
		}
		tail := ""
		if spread >= 0 {
			l := make([]interface{}, 0)
			l = append(l, args[spread:]...)
			var list interface{} = l
			if len(l) > 0 && l[0] != nil { // a typed list where possible
				t := reflect.TypeOf(l[0])
				same := true
				for _, v := range l {
					same = same && v != nil && reflect.TypeOf(v) == t
				}
				if same && r.P(70) {
					s := reflect.MakeSlice(reflect.SliceOf(t), 0, len(l))
					for _, v := range l {
						s = reflect.Append(s, reflect.ValueOf(v))
					}
					list = s.Interface()
				}
			}
			texts = append(texts, w.set(list))
			tail = "..."
			c.Ev("spread lists", 1)
		}
		call := callee + "(" + strings.Join(texts, ", ") + tail + ")"
		before := fmt.Sprintf("before%d", step)
		w.l.SetVar("r", before)
		rec = nil
		var err error
		how := r.N(3)
		switch how {
		case 0:
			err = w.eval("r = " + call)
		case 1:
			err = w.eval("rec(1, " + call + ", 2)")
		case 2:
			err = w.eval("r = [nil, " + call + "][1]")
		}
		if obj, ok := fn.(*callObj); ok {
			calls = obj.got
		}
		// what must have happened
		why := ""
		if notFn {
			why = "no function"
		} else if variadic && arity < len(in)-1 || !variadic && arity != len(in) {
			why = "count"
		}
		var want []interface{}
		for i := 0; why == "" && i < arity; i++ {
			x, ok := coerce(args[i], param(i))
			if !ok {
				why = "type"
				if t := param(i); args[i] == nil || reflect.TypeOf(args[i]).AssignableTo(t) {
					why = "unspecified" // nil for a list or the like, a value of an underlying type
				}
			}
			if ok && args[i] != nil && reflect.TypeOf(x) != reflect.TypeOf(args[i]) {
				c.Ev("values widened", 1)
			}
			if x == nil && ok {
				x = reflect.Zero(param(i)).Interface()
				c.Ev("nil accepted", 1)
			}
			want = append(want, x)
		}
		if why == "unspecified" {
			c.Ev("unspecified", 1)
			w.l.Ret()
			continue
		}
		c.Ev("statements", 1)
		r0, _ := w.l.Var("r")
		if why != "" || boom != nil {
			if err == nil {
				c.Failf("no error (%s%s)", why, boomText)
			}
			if r0 != before || rec != nil {
				c.Failf("r is %v, rec %v after %v", r0, rec, err)
			}
		}
		if why != "" {
			if len(calls) > 0 {
				c.Failf("the function was called in spite of %v", err)
			}
			c.Ev("calls refused: "+why, 1)
			continue
		}
		if len(calls) != 1 {
			c.Failf("the function was called %d times (%v)", len(calls), err)
		}
		ok := len(calls[0]) == len(want)
		for i := range want {
			ok = ok && (sameValue(want[i], calls[0][i]) || w.copied && reflect.DeepEqual(want[i], calls[0][i]))
		}
		if !ok {
			c.Failf("the function got %s, want %s", describeAll(calls[0]), describeAll(want))
		}
		if boom != nil {
			if !strings.Contains(err.Error(), boomText) {
				c.Failf("the error is %q, the function panicked with %q", err.Error(), boomText)
			}
			c.Ev("panics of host functions", 1)
			continue
		}
		if err != nil {
			c.Failf("error %v", err)
		}
		got := r0
		if how == 1 {
			if len(rec) != 3 || rec[0] != 1 || rec[2] != 2 {
				c.Failf("rec got %s", describeAll(rec))
			}
			got = rec[1]
		}
		switch len(out) {
		case 0:
			ok = got == nil
			c.Ev("no result", 1)
		case 1:
			ok = hostRet(out[0], rets[0], got)
			c.Ev("one result", 1)
		default:
			l, isList := got.([]interface{})
			ok = isList && len(l) == len(out)
			for i := 0; ok && i < len(l); i++ {
				ok = hostRet(out[i], rets[i], l[i])
			}
			c.Ev("several results", 1)
		}
		if !ok {
			c.Failf("the script got %s for the results %s", describe(got), describeAll(rets))
		}
		if stackLen(w.l) != 1 {
			c.Failf("%d values on the stack", stackLen(w.l))
		}
		w.l.Ret()
		c.Ev("calls", 1)
		c.Seen(fmt.Sprint(how, reflect.TypeOf(fn), arity, spread, describeAll(args)))
	}
}

// ---------------------------------------------------------------- members

type hBase struct {
	ID     int
	Note   string
	hidden int
}

// Base is a promoted method.
func (b hBase) Base() string { traced("base %d", b.ID); return "base" + b.Note }

// IsNote is a promoted method of the pointer.
func (b *hBase) IsNote(s string) bool { traced("isNote %d", b.ID); return b.Note == s }

type hInner struct {
	X, Y int
	Dup  int
	Deep map[string]*hObj
}

// Sum adds.
func (p hInner) Sum() int { traced("sum %d %d", p.X, p.Y); return p.X + p.Y }

type hOther struct{ Dup int }

type hObj struct {
	hBase
	*hInner
	hOther
	Name               string
	Count              int
	Rate               float64
	Small              int8
	U                  uint16
	F32                float32
	B                  byte
	Tags               []string
	Objs               []*hObj
	Vals               []hInner
	Attr               map[string]int
	Any                interface{}
	Fun                func(float64) string
	Next               *hObj
	PP                 **hObj
	Auto               *hAuto
	AutoV              hAutoV
	Émile              int
	New                int
	Class              string
	Recover            float64
	Main               []int
	hid                string
	MixedCase, X_y, A1 int
}

// traced records a call of a method.
func traced(f string, a ...interface{}) { here().hTrace = append(here().hTrace, fmt.Sprintf(f, a...)) }

func (p hObj) Two() (int, string)           { traced("two %d", p.ID); return p.Count, p.Name }
func (p hObj) None()                        { traced("none %d", p.ID) }
func (p hObj) Half() float32                { traced("half %d", p.ID); return float32(p.Rate / 2) }
func (p *hObj) Self() *hObj                 { traced("self %p", p); return p }
func (p *hObj) Copy() hObj                  { traced("copy %p", p); return *p }
func (p hObj) Add(a int, b float64) float64 { traced("add %d", p.ID); return float64(p.Count+a) + b }
func (p hObj) Rest(a ...interface{}) int8   { traced("rest %d %v", p.ID, a); return int8(len(a)) }
func (p *hObj) Boom() int                   { traced("boom"); panic("boom") }
func (p hObj) Err(e error) error            { traced("err %v", e); return e }
func (p *hObj) Kids() (map[string]interface{}, []*hObj) {
	traced("kids %p", p)
	return map[string]interface{}{"next": p.Next, "name": p.Name}, p.Objs
}

// hAuto is an auto-call type by its pointer, hAutoV by its value.
type hAuto struct {
	N   int
	Fun func() int
	Obj *hObj
}

func (p *hAuto) Len() int8                 { traced("len %p", p); return int8(p.N) }
func (p *hAuto) Pair() (int16, string)     { traced("pair %p", p); return int16(p.N), "p" }
func (p *hAuto) Nothing()                  { traced("nothing %p", p) }
func (p *hAuto) Plus(k int) int            { traced("plus %p", p); return p.N + k }
func (p *hAuto) More(k ...interface{}) int { traced("more %p", p); return p.N + len(k) }
func (p *hAuto) Get() *hObj                { traced("get %p", p); return p.Obj }
func (p *hAuto) Fail() int                 { traced("fail %p", p); panic(errors.New("boom")) }
func (p *hAuto) Getter() func() string {
	traced("getter %p", p)
	return func() string { traced("got %p", p); return fmt.Sprint("got ", p.N) }
}

type hAutoV struct{ N int }

func (p hAutoV) Len() uint32 { traced("len %d", p.N); return uint32(p.N) }
func (p *hAutoV) Ptr() int   { traced("ptr %p", p); return p.N }
func (p hAutoV) Me() hAutoV  { traced("me %d", p.N); return p }

var autoTypes = map[reflect.Type]bool{reflect.TypeOf((*hAuto)(nil)): true, reflect.TypeOf(hAutoV{}): true}

func init() {
	for t := range autoTypes {
		qlang.SetAutoCall(t)
	}
}

type hKey string

type tw1 struct{ Low, High int }

func (p tw1) Alpha() int        { traced("tw1.alpha"); return p.Low }
func (p tw1) Beta(n int) string { traced("tw1.beta %d", n); return fmt.Sprint("b", n) }
func (p tw1) Zeta() (int, int)  { traced("tw1.zeta"); return p.Low, p.High }

type tw2 struct{ High string }

func (p *tw2) Beta(n int) int   { traced("tw2.beta %d", n); return -n }
func (p *tw2) Count() string    { traced("tw2.count"); return p.High }
func (p tw2) Zeta(s string) int { traced("tw2.zeta %q", s); return len(s) }

// twins are values of different types whose names are the same.
func twins() []interface{} {
	type twin struct {
		tw1
		Name  string
		Count int
	}
	a := twin{tw1{1, 2}, "a", 3}
	l := []interface{}{a, &a}
	func() {
		type twin struct {
			Count float64
			tw2
			Name, Other int
		}
		b := twin{1.5, tw2{"h"}, 4, 5}
		l = append(l, b, &b)
	}()
	func() {
		type twin struct {
			Other string
			Name  []int
			Beta  func(n int) int
			Low   string
		}
		b := twin{"o", []int{7}, func(n int) int { return n + 1 }, "l"}
		l = append(l, b, &b)
	}()
	func() {
		type twin map[string]int
		b := twin{"name": 1, "count": 2, "beta": 3}
		l = append(l, b, map[string]twin{"other": b}["other"])
	}()
	return l
}

func newHObj(r *Rand, d int) *hObj {
	o := &hObj{Name: r.Pick("", "a", "é"), Count: r.N(50), Rate: float64(r.N(50)) / 4, Small: int8(-r.N(100)), U: uint16(r.N(1000)), F32: float32(r.N(9)) / 3, B: byte(r.N(255)),
		Émile: r.N(9), New: r.N(9), Class: "c", Recover: 1.5, Main: []int{r.N(9)}, hid: "h", MixedCase: r.N(9), X_y: r.N(9), A1: r.N(9)}
	o.hBase = hBase{r.N(100), r.Pick("n", "m"), 5}
	o.Dup2()
	if r.P(70) {
		o.hInner = &hInner{X: r.N(9), Y: r.N(9), Dup: 1}
		if d > 0 && r.P(50) {
			o.hInner.Deep = map[string]*hObj{"k": newHObj(r, d-1), "empty": nil}
		}
	}
	for i := r.N(3); i > 0; i-- {
		o.Tags = append(o.Tags, strconv.Itoa(i))
		o.Vals = append(o.Vals, hInner{X: r.N(9), Y: 2})
		if d > 0 {
			o.Objs = append(o.Objs, newHObj(r, d-1))
		}
	}
	if r.P(70) {
		o.Attr = map[string]int{"k": r.N(9), "new": 3, "été": 7}
	}
	if r.P(60) {
		o.Fun = func(x float64) string { return fmt.Sprint("fn", x) }
	}
	o.AutoV = hAutoV{r.N(9)}
	if d > 0 {
		if r.P(70) {
			o.Next = newHObj(r, d-1)
			o.PP = &o.Next
		}
		if r.P(70) {
			o.Auto = &hAuto{N: r.N(9), Obj: newHObj(r, d-1)}
			if r.P(50) {
				o.Auto.Fun = func() int { return 8 }
			}
		}
		switch r.N(12) {
		case 0:
			o.Any = newHObj(r, d-1)
		case 1:
			o.Any = *newHObj(r, d-1)
		case 2:
			o.Any = map[string]interface{}{"name": 1, "o": newHObj(r, d-1), "nothing": nil, "été": "x", "Name": 2, "class": 3, "main": 4, "recover": 5, "_u": 6}
		case 3:
			o.Any = map[interface{}]interface{}{"a": 1, 2: 3, "o": newHObj(r, d-1)}
		case 4:
			o.Any = hAutoV{3}
		case 5:
			o.Any = &hAutoV{4}
		case 6:
			o.Any = hAuto{N: 4}
		case 7:
			o.Any = []interface{}{newHObj(r, d-1), hAutoV{2}, nil, 5}
		case 8:
			o.Any = map[string]float32{"a": 1.5}
		case 9:
			o.Any = 5
		case 10:
			o.Any = "text"
		case 11:
			// a struct of random fields
			var f []reflect.StructField
			names := []string{"Alpha", "B", "CamelCase", "Ünder", "D_1", "New"}
			for _, n := range names {
				if r.P(60) {
					f = append(f, reflect.StructField{Name: n, Type: c41Types[r.N(len(c41Types))]})
				}
			}
			s := reflect.New(reflect.StructOf(f))
			for i := range f {
				if v := c41Value(r, f[i].Type); v != nil && reflect.TypeOf(v).AssignableTo(f[i].Type) {
					s.Elem().Field(i).Set(reflect.ValueOf(v))
				}
			}
			if o.Any = s.Interface(); r.P(50) {
				o.Any = s.Elem().Interface()
			}
		}
	}
	return o
}

// Dup2 sets the field that is hidden by another one of the same depth.
func (p *hObj) Dup2() { p.hOther.Dup = 2 }

type hMember struct {
	kind string // "", "value", "method", "called", "error"
	v    interface{}
	m    reflect.Value
}

// hostMember is what a member of v is.
func hostMember(v interface{}, name string) hMember {
	if v == nil {
		return hMember{kind: "error"}
	}
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Map {
		for _, k := range rv.MapKeys() {
			if k.Interface() == name {
				return hMember{kind: "value", v: rv.MapIndex(k).Interface()}
			}
		}
		return hMember{kind: "error"}
	}
	l := []rune(name)
	l[0] = unicode.ToUpper(l[0])
	name = string(l)
	for i := 0; i < rv.NumMethod(); i++ {
		if rv.Type().Method(i).Name == name {
			m := rv.Method(i)
			if autoTypes[rv.Type()] && m.Type().NumIn() == 0 {
				return hMember{kind: "called", m: m}
			}
			return hMember{kind: "method", m: m}
		}
	}
	if rv.Kind() == reflect.Ptr {
		rv = rv.Elem()
	}
	if rv.Kind() != reflect.Struct || !unicode.IsUpper(l[0]) {
		return hMember{kind: "error"}
	}
	f, ok := rv.Type().FieldByName(name)
	if !ok {
		return hMember{kind: "error"}
	}
	for i, k := range f.Index {
		if i > 0 && rv.Kind() == reflect.Ptr {
			if rv.IsNil() {
				return hMember{kind: "error"}
			}
			rv = rv.Elem()
		}
		rv = rv.Field(k)
	}
	return hMember{kind: "value", v: rv.Interface()}
}

// hostCalled is what the results of a host function are in a script; panicked tells that it
// panicked.
func hostCalled(m reflect.Value, args []interface{}) (v interface{}, panicked bool) {
	defer func() {
		if recover() != nil {
			panicked = true
		}
	}()
	t := m.Type()
	var in []reflect.Value
	for i, a := range args {
		var p reflect.Type
		if t.IsVariadic() && i >= t.NumIn()-1 {
			p = t.In(t.NumIn() - 1).Elem()
		} else {
			p = t.In(i)
		}
		x, ok := coerce(a, p)
		if !ok {
			panic("unfit")
		}
		if x == nil {
			in = append(in, reflect.Zero(p))
		} else {
			in = append(in, reflect.ValueOf(x))
		}
	}
	out := m.Call(in)
	conv := func(x reflect.Value) interface{} {
		switch k := x.Kind(); {
		case k >= reflect.Int && k <= reflect.Int64:
			return int(x.Int())
		case k >= reflect.Uint && k <= reflect.Uintptr:
			return int(x.Uint())
		case k == reflect.Float32 || k == reflect.Float64:
			return x.Float()
		}
		return x.Interface()
	}
	switch len(out) {
	case 0:
		return nil, false
	case 1:
		return conv(out[0]), false
	}
	var l []interface{}
	for _, x := range out {
		l = append(l, conv(x))
	}
	return l, false
}

func lower(n string) string {
	l := []rune(n)
	l[0] = unicode.ToLower(l[0])
	return string(l)
}

// memberNames are the names a random access may use.
func memberNames(r *Rand, v interface{}) []string {
	names := []string{"nosuch", "_x", "hidden", "hid", "dup", "name", "len", "ptr", "hBase", "émile"}
	if v == nil {
		return names
	}
	rv := reflect.ValueOf(v)
	var own []string
	if rv.Kind() == reflect.Map {
		for _, k := range rv.MapKeys() {
			if s, ok := k.Interface().(string); ok {
				own = append(own, s)
			}
		}
	} else {
		for i := 0; i < rv.NumMethod(); i++ {
			own = append(own, lower(rv.Type().Method(i).Name))
		}
		t := rv.Type()
		if t.Kind() == reflect.Ptr {
			t = t.Elem()
		}
		if t.Kind() == reflect.Struct {
			for _, f := range reflect.VisibleFields(t) {
				if f.IsExported() {
					own = append(own, lower(f.Name))
				}
			}
		}
	}
	sort.Strings(own)
	if len(own) > 0 && r.P(93) {
		return own
	}
	return names
}

// methodArgs makes arguments that fit.
func methodArgs(r *Rand, t reflect.Type) (l []interface{}) {
	n := t.NumIn()
	if t.IsVariadic() {
		n += r.N(3) - 1
	}
	for i := 0; i < n; i++ {
		p := tIntf
		if !t.IsVariadic() {
			p = t.In(i)
		}
		for {
			v := c19Value(r, p)
			if _, ok := coerce(v, p); ok {
				l = append(l, v)
				break
			}
		}
	}
	return
}

// sameMember compares a value of the model with the script's.
func sameMember(want, got interface{}) bool {
	if sameValue(want, got) {
		return true
	}
	if l, ok := want.([]interface{}); ok {
		g, ok := got.([]interface{})
		if !ok || len(l) != len(g) {
			return false
		}
		for i := range l {
			if !sameMember(l[i], g[i]) {
				return false
			}
		}
		return true
	}
	if m, ok := want.(map[string]interface{}); ok {
		return reflect.DeepEqual(m, got)
	}
	if f := reflect.ValueOf(want); f.Kind() == reflect.Func { // bound methods and closures are made anew
		return got != nil && reflect.TypeOf(got) == f.Type()
	}
	return false
}

func checkMembers(c *Case) {
	r := c.R
	w := &hostWorld{c: c, l: qengine(r.P(50))}
	root := newHObj(r, 2)
	for step := r.Range(1, 6); step > 0; step-- {
		var cur interface{} = root
		if r.P(30) {
			cur = *root
		}
		if r.P(10) {
			cur = []interface{}{nil, 5, "s", 1.5, []int{1}, func() {}, map[hKey]int{"a": 1}, &root, root.AutoV, &hAuto{N: 3}, &hAutoV{5}, hAuto{N: 2}, struct{}{}, (*hObj)(nil), (*hAuto)(nil), map[string]int(nil)}[r.N(16)]
		}
		if r.P(12) {
			cur = twins()[r.N(8)]
			c.Ev("types of the same name", 1)
		}
		expr := w.set(cur)
		switch r.N(8) {
		case 0:
			expr = "(" + expr + ")"
		case 1:
			expr = "fn(x) { return x }(" + expr + ")"
		case 2:
			expr = "[nil, " + expr + "][1]"
		}
		wantErr, unspec := false, false
		var path []string
		var wantTrace []string
		here().hTrace = nil
		call := func(m reflect.Value, args []interface{}) {
			n := len(here().hTrace)
			cur, wantErr = hostCalled(m, args)
			wantTrace = append(wantTrace, here().hTrace[n:]...)
		}
		var gotTrace []string
		for n := r.Range(1, 5); n > 0 && !wantErr && !unspec; n-- {
			rv := reflect.ValueOf(cur)
			if cur != nil && rv.Kind() == reflect.Slice && rv.Len() > 0 {
				k := r.N(rv.Len())
				expr += fmt.Sprintf("[%d]", k)
				cur = rv.Index(k).Interface()
				path = append(path, "[]")
				continue
			}
			if cur != nil && rv.Kind() == reflect.Func && !rv.IsNil() && rv.Type().NumIn() < 2 && !rv.Type().IsVariadic() && r.P(60) {
				args := methodArgs(r, rv.Type())
				var texts []string
				for _, a := range args {
					texts = append(texts, w.put(a))
				}
				expr += "(" + strings.Join(texts, ", ") + ")"
				call(rv, args)
				path = append(path, "()")
				c.Ev("functions in fields", 1)
				continue
			}
			if cur != nil && (rv.Kind() == reflect.Slice || rv.Kind() == reflect.Int || rv.Kind() == reflect.Float64 || rv.Kind() == reflect.String || rv.Kind() == reflect.Func) && r.P(80) {
				break
			}
			if cur != nil && rv.Kind() == reflect.Map && rv.Type().Key() != tString && rv.Type().Key().Kind() == reflect.String {
				unspec = true // keys of another type
				break
			}
			names := memberNames(r, cur)
			name := names[r.N(len(names))]
			m := hostMember(cur, name)
			expr += "." + name
			path = append(path, name)
			switch m.kind {
			case "error":
				wantErr = true
				c.Ev("missing members", 1)
			case "value":
				cur = m.v
				c.Ev("fields and entries", 1)
			case "called":
				call(m.m, nil)
				c.Ev("methods called by their name", 1)
			case "method":
				args := methodArgs(r, m.m.Type())
				var texts []string
				for _, a := range args {
					texts = append(texts, w.put(a))
				}
				if r.P(25) { // stored first
					here().hTrace = nil
					if err := w.eval("meth = " + expr); err != nil {
						c.Failf("%v", err)
					}
					w.l.Ret()
					gotTrace = append(gotTrace, here().hTrace...)
					w.text = append(w.text, "meth = "+expr)
					expr = "meth"
					c.Ev("bound methods", 1)
				}
				expr += "(" + strings.Join(texts, ", ") + ")"
				call(m.m, args)
				c.Ev("methods", 1)
			}
		}
		if unspec {
			c.Ev("unspecified", 1)
			continue
		}
		w.l.SetVar("r", "before")
		here().hTrace = nil
		err := w.eval("r = " + expr)
		gotTrace = append(gotTrace, here().hTrace...)
		got, _ := w.l.Var("r")
		c.Ev("statements", 1)
		c.Seen(strings.Join(path, ".") + fmt.Sprint(wantErr, reflect.TypeOf(cur)))
		if g, w := strings.Join(gotTrace, "\n"), strings.Join(wantTrace, "\n"); g != w {
			c.Failf("the methods called are %q, expected %q", g, w)
		}
		if wantErr {
			if err == nil {
				c.Failf("no error, but %s", describe(got))
			}
			if got != "before" {
				c.Failf("error %v, but r is %s", err, describe(got))
			}
			c.Ev("errors", 1)
			continue
		}
		if err != nil {
			c.Failf("error %v", err)
		}
		if !sameMember(cur, got) {
			c.Failf("%s, expected %s", describe(got), describe(cur))
		}
		w.l.Ret()
	}
}

// ---------------------------------------------------------------- script functions called by the host

type scriptFn interface {
	Call(args ...interface{}) interface{}
}

func hostCallReal(args []interface{}) interface{} {
	f, ok := args[0].(scriptFn)
	if !ok {
		panic("not a script function")
	}
	return f.Call(args[1:]...)
}

// hostTryReal calls a script function and yields its value or what it panicked with.
func hostTryReal(args []interface{}) (ret []interface{}) {
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(string); ok {
				e = errors.New(s)
			}
			ret = []interface{}{false, e}
		}
	}()
	return []interface{}{true, hostCallReal(args)}
}

func isScriptFn(v interface{}) bool {
	switch f := v.(type) {
	case *rfn:
		return true
	case *rbound:
		return f.o != nil
	}
	return false
}

func (in *rint) hostCall(args []interface{}) interface{} {
	if !isScriptFn(args[0]) {
		in.throw("")
	}
	in.ev("host calls")
	return in.call(args[0], args[1:])
}

// hostTry is the reference of hostTryReal.
func (in *rint) hostTry(args []interface{}) []interface{} {
	var v interface{}
	cur := in.cur
	err := in.try(func() {
		if !isScriptFn(args[0]) {
			in.throw("")
		}
		n := len(args) - 1
		f, ok := args[0].(*rfn)
		if b, isB := args[0].(*rbound); isB {
			f, n = b.f, n+1
		} else if !ok {
			in.throw("")
		}
		if k := len(f.params); f.x.variadic && n < k-1 || !f.x.variadic && n != k {
			in.ev("host calls with a wrong count")
			in.cur = nil // it fails outside of the script
			in.throw("")
		}
		in.ev("host calls")
		v = in.call(args[0], args[1:])
	})
	in.cur = cur
	if err != nil {
		in.ev("errors seen by the host")
		return []interface{}{false, err}
	}
	return []interface{}{true, v}
}

func init() {
	qlang.Import("", map[string]interface{}{
		"hcall": func(args ...interface{}) interface{} { return hostCallReal(args) },
		"htry":  func(args ...interface{}) interface{} { return hostTryReal(args) },
		"hany": func(f interface{}, args ...interface{}) interface{} {
			return hostCallReal(append([]interface{}{f}, args...))
		},
	})
}

func refHostCalls(in *rint) {
	refHost(in)
	call := func(args []interface{}) interface{} {
		if len(args) == 0 {
			panic(&rdiscard{"nothing to call"})
		}
		return in.hostCall(args)
	}
	in.host["hcall"], in.host["hany"] = call, call
	in.host["htry"] = func(args []interface{}) interface{} {
		if len(args) == 0 {
			panic(&rdiscard{"nothing to call"})
		}
		return in.hostTry(args)
	}
}

// wrapHost lets the host make some of the calls of a program.
func wrapHost(r *Rand, pct int) func(x *xCall) qx {
	return func(x *xCall) qx {
		if !r.P(pct) {
			return x
		}
		h := "hcall"
		switch r.N(6) {
		case 0, 1:
			h = "htry"
		case 2:
			h = "hany"
		}
		y := &xCall{f: &xVar{h}, args: append([]qx{x.f}, x.args...), spread: x.spread}
		if h != "htry" {
			return y
		}
		return &xIdx{y, xi(1)} // the value if there is no error
	}
}

// constArgs are values for a call when no script runs.
func constArgs(r *Rand, s *gsig) (l []interface{}) {
	n := len(s.params)
	val := func(k int) interface{} {
		switch k {
		case kI:
			return r.N(20)
		case kF:
			return float64(r.N(20)) / 4
		case kS:
			return r.Pick("", "a", "xyz", "é")
		case kB:
			return r.P(50)
		case kY:
			return byte(r.N(100))
		}
		return nil
	}
	if s.variadic {
		n--
	}
	for i := 0; i < n; i++ {
		l = append(l, val(s.params[i].k))
	}
	if s.variadic {
		for k := r.N(4); k > 0; k-- {
			switch r.N(12) {
			case 0:
				l = append(l, []interface{}{1, "a", nil}[:r.N(4)])
			case 1:
				l = append(l, []int{1, 2})
			case 2:
				l = append(l, map[string]interface{}{"a": 1})
			default:
				l = append(l, val(r.N(5)))
			}
		}
	}
	if r.P(6) {
		if r.P(50) && len(l) > 0 {
			l = l[1:]
		} else {
			l = append(l, r.N(5))
		}
	}
	return
}

type idleCall struct {
	name string
	args []interface{}
}

// full is the function and copies of the arguments, which it may change.
func (k *idleCall) full(f interface{}) []interface{} {
	l := []interface{}{f}
	for _, a := range k.args {
		switch x := a.(type) {
		case []interface{}:
			a = append([]interface{}{}, x...)
		case []int:
			a = append([]int{}, x...)
		case map[string]interface{}:
			m := map[string]interface{}{}
			for k, v := range x {
				m[k] = v
			}
			a = m
		}
		l = append(l, a)
	}
	return l[:len(l):len(l)]
}

func checkCallbacks(c *Case) {
	r := c.R
	w := gweights{tr: 12, err: 4, ctrl: 10, fns: 45, colls: 6, stmts: 8, defers: 12, panics: 5, classes: 8, rets: 8}
	for try := 0; try < 5; try++ {
		g := newQgen(r, w)
		g.onCall = wrapHost(r, 45)
		s := &qsession{semis: r.P(70)}
		file := ""
		if r.P(30) {
			file = r.Pick("a.ql", "日本.ql")
		}
		s.add(r, g.program(), file, r.P(10))
		// calls by the host after the text
		var idle []idleCall
		var fns []gvar
		for _, v := range g.sc.vars {
			if v.t.k == kFn {
				fns = append(fns, v)
			}
		}
		for n := r.N(5); n > 0 && len(fns) > 0; n-- {
			v := fns[r.N(len(fns))]
			idle = append(idle, idleCall{v.name, constArgs(r, v.t.sig)})
		}
		input := s.input()
		for _, k := range idle {
			input += fmt.Sprintf("\n--- the host calls %s with %s", k.name, describeAll(k.args))
		}
		c.Input("%s", input)
		// the reference, for all growth policies
		type obs struct {
			run   refRun
			skip  bool
			val   string
			trace []string
			vars  string
			ev    map[string]int
		}
		var all [][]obs
		discard := ""
		for room := 0; room < 3 && discard == ""; room++ {
			in := newRint()
			in.room = room
			refHostCalls(in)
			l := []obs{{run: in.text(s.progs[0])}}
			if discard = l[0].run.discard; discard != "" {
				break
			}
			for _, k := range idle {
				f, ok := in.top.own[k.name]
				if !ok || !isScriptFn(f) {
					l = append(l, obs{skip: true})
					continue
				}
				func() {
					defer func() {
						if e := recover(); e != nil {
							d, ok := e.(*rdiscard)
							if !ok {
								panic(e)
							}
							discard = d.why
						}
					}()
					in.trace, in.cur, in.depth, in.steps = nil, nil, 0, 0
					in.events = map[string]int{}
					v := in.hostTry(k.full(f))
					l = append(l, obs{val: in.snap(v, 0), trace: in.trace, vars: in.varsSnap(), ev: in.events})
				}()
			}
			all = append(all, l)
			if !in.appended {
				break
			}
		}
		for _, l := range all[min(1, len(all)):] {
			for i, o := range l {
				f := all[0][i]
				if strings.Join(f.trace, "\n") != strings.Join(o.trace, "\n") || strings.Join(f.run.trace, "\n") != strings.Join(o.run.trace, "\n") || f.run.err != o.run.err || f.run.ret != o.run.ret || f.run.vars != o.run.vars || f.val != o.val || f.vars != o.vars || f.skip != o.skip {
					discard = "capacity"
				}
			}
		}
		if discard != "" {
			c.Ev("discarded: "+discard, 1)
			continue
		}
		want := all[0]
		l := qengine(s.semis)
		here().qtrace = here().qtrace[:0]
		err := l.SafeExec([]byte(s.texts[0]), s.files[0])
		s.compare(c, l, 0, want[0].run, err, here().qtrace)
		for i, k := range idle {
			o := want[i+1]
			if o.skip {
				continue
			}
			f, ok := l.Var(k.name)
			if !ok {
				c.Failf("%s is not defined", k.name)
			}
			here().qtrace = here().qtrace[:0]
			got := hostTryReal(k.full(f))
			what := fmt.Sprintf("call %d, of %s: ", i, k.name)
			func() {
				defer func() {
					if e := recover(); e != nil {
						if f, ok := e.(caseFailure); ok {
							f.msg = what + f.msg
							panic(f)
						}
						panic(e)
					}
				}()
				checkTrace(c, o.trace, here().qtrace)
				if d := snapDiff(o.val, realSnap(got, 0)); d != "" {
					c.Failf("outcome %s", d)
				}
				if d := snapDiff(o.vars, realVars(l)); d != "" {
					c.Failf("variables: %s", d)
				}
				if k := stackLen(l); k != 0 {
					c.Failf("%d values on the stack", k)
				}
			}()
			for n, k := range o.ev {
				c.Ev(n, k)
			}
			c.Ev("calls when no text runs", 1)
		}
		c.Seen(input)
		return
	}
}

// ---------------------------------------------------------------- printing, channels

type printed struct {
	text string
	v    interface{}
}

// genPrinted makes a value: as a text of qlang and as a Go value.
func genPrinted(r *Rand, d int, vars map[string]interface{}) printed {
	host := func(v interface{}) printed {
		n := fmt.Sprintf("v%d", len(vars))
		vars[n] = v
		return printed{n, v}
	}
	switch k := r.N(12); {
	case k == 0:
		n := r.N(1000)
		return printed{fmt.Sprint(n), n}
	case k == 1:
		x := float64(r.N(1000)) + .25
		return printed{strconv.FormatFloat(x, 'f', 3, 64), x}
	case k == 2:
		s := r.Pick("", "a", "%d", "été\n", "100%", "a b", "%%", "%!s", "\t")
		return printed{strconv.Quote(s), s}
	case k == 3:
		return printed{"'x'", byte('x')}
	case k == 4:
		return []printed{{"nil", nil}, {"true", true}, {"false", false}, {"undefined", spec.Undefined}, {"[]", []interface{}(nil)}, {"{}", map[string]interface{}{}}}[r.N(6)]
	case k == 5 && d > 0:
		a, b := r.N(100), r.N(100)
		return []printed{{fmt.Sprintf("[%d, %d]", a, b), []int{a, b}}, {fmt.Sprintf("[%d, %d.5]", a, b), []float64{float64(a), float64(b) + .5}}, {"[\"x\", \"y\"]", []string{"x", "y"}},
			{fmt.Sprintf("{\"k\": %d}", a), map[string]int{"k": a}}, {fmt.Sprintf("{%d: \"s\", %d: \"t\"}", a, a+1), map[int]string{a: "s", a + 1: "t"}}}[r.N(5)]
	case k <= 7 && d > 0:
		var l []interface{}
		text := "[nil"
		l = append(l, nil)
		for i := r.N(4); i > 0; i-- {
			p := genPrinted(r, d-1, vars)
			l, text = append(l, p.v), text+", "+p.text
		}
		return printed{text + "]", l}
	}
	return host([]interface{}{errors.New("an error"), vStruct{1, 2}, &vStruct{3, 4}, (*vStruct)(nil), vNamed(3), int8(-3), uint64(1 << 63), float32(.1), 2 + 3i, []byte("by"), [2]bool{true}, []error{nil},
		time.Duration(1500) * time.Millisecond, reflect.TypeOf(1), map[string]interface{}{"a": nil, "b": 2.5}, struct{}{}, strings.Repeat("x", r.N(3000)), 'é', math.Inf(-1), math.NaN(), []interface{}{1, "a"}}[r.N(21)])
}

// checkPrinting: printf, println and fprintln write what those of Go write.
func checkPrinting(c *Case) {
	r := c.R
	l := qengine(false)
	vars := map[string]interface{}{}
	var want, wantBuf, in strings.Builder
	var buf bytes.Buffer
	vars["buf"] = &buf
	var rets []interface{}
	text := ""
	for i := 1 + r.N(5); i > 0; i-- {
		var args []string
		var vals []interface{}
		for k := r.N(5); k > 0; k-- {
			p := genPrinted(r, 2, vars)
			args, vals = append(args, p.text), append(vals, p.v)
		}
		spread := r.P(20)
		form := ""
		if r.P(40) {
			for range vals {
				form += r.Pick("%v", "%v", "%d", "%s", "%q", "%T", "%5v|", "%+v", "%x", "%%", "%-8v.", "%08.3f", "%[1]v", "%*d", "text ", "%", "é")
			}
			form += r.Pick("", "\n", "%v", "%")
		}
		name, head := "println", []string{}
		out, n := fmt.Sprintln(vals...), 0
		w := &want
		switch {
		case form != "":
			name, head = "printf", []string{strconv.Quote(form)}
			out = fmt.Sprintf(form, vals...)
		case r.P(40):
			name, head = "fprintln", []string{"buf"}
			w = &wantBuf
		}
		n = len(out)
		w.WriteString(out)
		rets = append(rets, []interface{}{n, nil})
		call := name + "(" + strings.Join(append(head, args...), ", ") + ")"
		if spread {
			call = name + "(" + strings.Join(append(head, "["+strings.Join(append(args, "nil"), ", ")+"][:"+fmt.Sprint(len(args))+"]..."), ", ") + ")"
			if r.P(50) {
				vn := fmt.Sprintf("l%d", len(vars))
				vars[vn] = append([]interface{}{}, vals...)
				call = name + "(" + strings.Join(append(head, vn+"..."), ", ") + ")"
			}
		}
		text += "got(" + call + ")\n;"
	}
	var got []interface{}
	l.SetVar("got", func(v interface{}) { got = append(got, v) })
	for n, v := range vars {
		l.SetVar(n, v)
	}
	text = strings.TrimSuffix(text, "\n;")
	fmt.Fprintf(&in, "%s\n", text)
	for _, n := range varNames(vars) {
		fmt.Fprintf(&in, "%s = %s\n", n, clip(fmt.Sprintf("%T %v", vars[n], vars[n]), 100))
	}
	c.Input("%s", in.String())
	var err error
	out := outputOf(1, func() { err = l.SafeExec([]byte(text), "") })
	if err != nil {
		c.Failf("error %v", err)
	}
	if d := diffText(out, want.String()); d != "" {
		c.Failf("the output differs: %s", d)
	}
	if d := diffText(buf.String(), wantBuf.String()); d != "" {
		c.Failf("fprintln differs: %s", d)
	}
	if !reflect.DeepEqual(got, rets) {
		c.Failf("the calls give %v, want %v", got, rets)
	}
	c.Ev("calls that print", len(rets))
	c.Ev("bytes printed", len(out)+buf.Len())
	c.Seen(text)
}

func varNames(m map[string]interface{}) (l []string) {
	for n := range m {
		l = append(l, n)
	}
	sort.Strings(l)
	return
}

func diffText(got, want string) string {
	if got == want {
		return ""
	}
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("byte %d of %d, %d: %.100q, want %.100q", i, len(got), len(want), got[i:], want[i:])
}

// checkChans: len and cap of the channels of the host.
func checkChans(c *Case) {
	r := c.R
	l := qengine(false)
	n := r.N(40)
	var ch interface{}
	switch r.N(3) {
	case 0:
		ch = make(chan int, n)
	case 1:
		ch = make(chan interface{}, n)
	default:
		ch = make(chan string, n)
	}
	v := reflect.ValueOf(ch)
	k := 0
	if n > 0 {
		k = r.N(n + 1)
	}
	for i := 0; i < k; i++ {
		v.Send(reflect.Zero(v.Type().Elem()))
	}
	l.SetVar("ch", &types.Chan{Data: v})
	l.SetVar("raw", ch)
	c.Input("%T of %d, %d in it", ch, n, k)
	if err := l.SafeExec([]byte("r = [len(ch), cap(ch), len(raw), cap(raw), len(nil), cap(nil)]"), ""); err != nil {
		c.Failf("error %v", err)
	}
	got, _ := l.Var("r")
	if want := []int{k, n, k, n, 0, 0}; !reflect.DeepEqual(got, want) {
		c.Failf("len and cap are %v, want %v", got, want)
	}
	c.Ev("channels", 1)
	c.Seen(c.input)
}

func init() {
	register(&Prop{ID: "C41",
		Rule: "calls: functions of random signatures (made by reflection) reached by variables, members, fields, elements and calls, with values of all kinds given as literals, variables and spread lists; they record what they get, return given values or panic; compared with a model of the conversions. " +
			"members: random paths of fields, promoted fields, methods, map entries, elements and calls through random graphs of host objects (values, pointers, nils, auto-call types), compared with the same path taken by reflection; every method records its calls. " +
			"callbacks: random programs whose calls are partly made by host functions, which let errors pass or take them, and whose functions the host calls when the text is over; compared with the reference interpreter. printing: printf, println and fprintln with values of all kinds, the output (file descriptor 1 is a file meanwhile) and results compared with those of package fmt; channels: len and cap. big: one dimension (arguments, parameters, results, fields, entries, names, paths, calls, failures, depth) at the sizes of the ladder",
		MustSee: []string{"calls", "values widened", "nil accepted", "calls refused: type", "calls refused: count", "calls refused: no function", "panics of host functions", "no result", "one result", "several results", "spread lists",
			"fields and entries", "missing members", "methods", "methods called by their name", "bound methods", "functions in fields", "types of the same name", "host calls", "errors seen by the host", "host calls with a wrong count", "calls when no text runs", "calls that print", "channels"},
		Assume: []string{"results of a named type over int or float64 may keep the type", "byte results may stay bytes", "unsigned results beyond the range of int are unspecified", "nil for parameters other than interfaces and pointers, and values of an assignable but different type, are unspecified", "members of maps whose keys are of a named string type are unspecified"},
		Parts: []*Part{
			{Name: "calls", Quick: 15000, Thorough: 600000, Run: checkHostCall},
			{Name: "members", Quick: 20000, Thorough: 800000, Run: checkMembers},
			{Name: "callbacks", Quick: 5000, Thorough: 150000, Run: checkCallbacks},
			{Name: "printing", Quick: 20000, Thorough: 400000, Run: checkPrinting},
			{Name: "channels", Quick: 300, Thorough: 3000, Run: checkChans},
			bigHostPart(big41, 1, 4)}})
}
