package main

// C19: calls of Go functions through a value stack.

import (
	"fmt"
	"reflect"
	"strings"

	iu "github.com/qiniu/text/tpl/interpreter.util"
)

type myInt int16
type myFloat float64
type ptrT struct{ a int }

func (p *ptrT) String() string { return "ptrT" }

type callObj struct {
	c    *Case
	got  [][]interface{}
	kind int
}

// Call makes callObj callable.
func (p *callObj) Call(args ...interface{}) interface{} {
	p.got = append(p.got, args)
	return fmt.Sprint("called ", len(args))
}

type callObj2 struct{ o *callObj }

// Call has fixed parameters.
func (p callObj2) Call(a float64, b interface{}) (string, int) {
	p.o.got = append(p.o.got, []interface{}{a, b})
	return "two", 2
}

var c19Types = []reflect.Type{
	tFloat, tFloat, tFloat, tString, tInt, tIntf, tIntf, tBool, tErr,
	reflect.TypeOf(uint8(0)), reflect.TypeOf((*ptrT)(nil)), reflect.TypeOf((*fmt.Stringer)(nil)).Elem(),
	reflect.TypeOf([]int(nil)), reflect.TypeOf(map[string]int(nil)), reflect.TypeOf(float32(0)),
	reflect.TypeOf(int64(0)), reflect.TypeOf(myInt(0)), reflect.TypeOf(myFloat(0)), reflect.TypeOf(complex(0, 0)),
}

func c19Value(r *Rand, t reflect.Type) interface{} {
	k := r.N(1000)
	if t != nil && r.P(85) { // fits
		switch t.Kind() {
		case reflect.Interface:
			if r.P(25) {
				return nil
			}
			switch t.String() {
			case "error":
				return fmt.Errorf("e%d", k)
			case "fmt.Stringer":
				return &ptrT{k}
			}
		case reflect.Ptr:
			if r.P(25) {
				return nil
			}
			return &ptrT{k}
		case reflect.Slice:
			return []int{k}
		case reflect.Map:
			return map[string]int{"k": k}
		case reflect.String:
			return fmt.Sprint("s", k)
		case reflect.Bool:
			return k%2 == 0
		case reflect.Complex128:
			return complex(float64(k), 1)
		default:
			if t == tFloat && r.P(60) {
				break
			}
			return reflect.ValueOf(k).Convert(t).Interface()
		}
	}
	switch r.N(22) {
	case 0:
		return k
	case 1:
		return int8(k - 500)
	case 2:
		return int16(-k)
	case 3:
		return int32(k << 10)
	case 4:
		return int64(k) << 40
	case 5:
		return uint(k)
	case 6:
		return uint8(k)
	case 7:
		return uint16(k)
	case 8:
		return uint32(k) << 20
	case 9:
		return uint64(k) << 54
	case 10:
		return uintptr(k)
	case 11:
		return float32(k) / 3
	case 12:
		return float64(k) / 7
	case 13:
		return fmt.Sprint("x", k)
	case 14:
		return nil
	case 15:
		return k%2 == 0
	case 16:
		return &ptrT{k}
	case 17:
		return fmt.Errorf("e%d", k)
	case 18:
		return myInt(k)
	case 19:
		return myFloat(k)
	case 20:
		return []int{k}
	default:
		return complex(float64(k), 2)
	}
}

func c19Str(v interface{}) string {
	if p, ok := v.(*ptrT); ok {
		if p == nil {
			return "<nil>:<nil>"
		}
		return fmt.Sprintf("*ptrT%d", p.a)
	}
	return fmt.Sprintf("%T:%v", v, v)
}

func c19List(l []interface{}) string {
	var s []string
	for _, v := range l {
		s = append(s, c19Str(v))
	}
	return "[" + strings.Join(s, " ") + "]"
}

func checkCall(c *Case) {
	r := c.R
	stk := &rstk{}
	// a history of calls on one stack
	for step := 0; step < 6; step++ {
		var in, out []reflect.Type
		for i := r.N(5); i > 0; i-- {
			in = append(in, c19Types[r.N(len(c19Types))])
		}
		variadic := len(in) > 0 && r.P(35)
		for i := r.N(4); i > 0; i-- {
			out = append(out, c19Types[r.N(len(c19Types))])
		}
		var rets []interface{}
		for _, t := range out {
			v := c19Value(r, t)
			for {
				if tv := reflect.TypeOf(v); tv != nil && tv.AssignableTo(t) || tv == nil && (t.Kind() == reflect.Interface) {
					break
				}
				v = c19Value(r, t)
				if r.P(5) {
					v = reflect.Zero(t).Interface()
				}
			}
			rets = append(rets, v)
		}
		ftypes := append([]reflect.Type{}, in...)
		if variadic {
			ftypes[len(in)-1] = reflect.SliceOf(in[len(in)-1])
		}
		var calls [][]interface{}
		tfn := reflect.FuncOf(ftypes, out, variadic)
		fn := reflect.MakeFunc(tfn, func(args []reflect.Value) (ret []reflect.Value) {
			var a []interface{}
			for i, x := range args {
				if variadic && i == len(args)-1 {
					for j := 0; j < x.Len(); j++ {
						a = append(a, x.Index(j).Interface())
					}
				} else {
					a = append(a, x.Interface())
				}
			}
			calls = append(calls, a)
			for i, v := range rets {
				x := reflect.New(out[i]).Elem()
				if v != nil {
					x.Set(reflect.ValueOf(v))
				}
				ret = append(ret, x)
			}
			return
		}).Interface()
		param := func(i int) reflect.Type {
			if variadic && i >= len(in)-1 {
				return in[len(in)-1]
			}
			if i < len(in) {
				return in[i]
			}
			return nil
		}
		n := len(in)
		arity := n
		if variadic {
			arity = n - 1 + r.N(4)
		}
		if r.P(12) {
			arity = r.N(6)
		}
		mode := r.N(3) // Call, VCall with a function, VCall with something else
		var callee interface{} = fn
		obj := &callObj{c: c}
		if mode == 2 {
			switch r.N(5) {
			case 0, 1:
				callee = obj
				in, variadic, n = []reflect.Type{tIntf}, true, 1
				arity = r.N(4)
			case 2:
				callee = callObj2{obj}
				in, variadic, n = []reflect.Type{tFloat, tIntf}, false, 2
				arity = 2
				if r.P(25) {
					arity = r.N(5)
				}
			case 3:
				callee = nil
			default:
				callee = []interface{}{5, "f", 1.5, []int{1}, struct{}{}, &ptrT{1}}[r.N(6)]
			}
		}
		// the stack: something below, the function (VCall), the arguments
		have := arity
		if r.P(8) {
			have = r.N(arity + 1)
			stk.vals = nil
		}
		if mode > 0 && have == arity && r.P(97) {
			stk.vals = append(stk.vals, callee)
		} else if mode > 0 {
			stk.vals = nil
		}
		var args []interface{}
		for i := 0; i < have; i++ {
			v := c19Value(r, param(i))
			args = append(args, v)
			stk.vals = append(stk.vals, v)
		}
		before := append([]interface{}{}, stk.vals...)
		c.Input("%s of %v with %d arguments, stack %s, results %s", []string{"Call", "VCall", "VCall"}[mode], reflect.TypeOf(callee), arity, c19List(before), c19List(rets))

		// what must happen
		need := arity
		if mode > 0 {
			need++
		}
		why := ""
		countBad := arity != n
		if variadic {
			countBad = arity < n-1
		}
		_, isObj := callee.(*callObj)
		_, isObj2 := callee.(callObj2)
		isFn := callee != nil && reflect.TypeOf(callee).Kind() == reflect.Func || isObj || isObj2
		var want []interface{}
		switch {
		case mode == 0 && countBad:
			why = "count"
		case len(before) < need:
			why = "damaged"
		case !isFn:
			why = "no function"
		case countBad:
			why = "count"
		default:
			for i, v := range args {
				x, ok := coerce(v, param(i))
				if !ok {
					why = "type"
				} else if x != nil && v != nil && reflect.TypeOf(x) != reflect.TypeOf(v) {
					c.Ev("values widened", 1)
				}
				if v == nil && ok {
					c.Ev("nil accepted", 1)
				}
				want = append(want, x)
			}
		}
		var err error
		func() {
			defer func() {
				if e := recover(); e != nil {
					c.Failf("panic: %v", e)
				}
			}()
			if mode == 0 {
				if !countBad && r.P(30) {
					err = iu.DoCall(stk, fn, arity, n, variadic)
				} else {
					err = iu.Call(stk, fn, arity)
				}
			} else {
				err = iu.VCall(stk, arity)
			}
		}()
		if mode == 2 {
			calls = obj.got
			rets = []interface{}{fmt.Sprint("called ", arity)}
			if isObj2 {
				rets = []interface{}{"two", 2}
			}
		}
		if why != "" {
			if err == nil {
				c.Failf("no error (%s)", why)
			}
			if len(calls) > 0 {
				c.Failf("the function was called in spite of %v", err)
			}
			if mode == 0 && why == "count" && c19List(stk.vals) != c19List(before) {
				c.Failf("after %v the stack is %s", err, c19List(stk.vals))
			}
			c.Ev("calls refused: "+why, 1)
			stk.vals = nil
			continue
		}
		if err != nil {
			c.Failf("error %v", err)
		}
		if len(calls) != 1 {
			c.Failf("the function was called %d times", len(calls))
		}
		if g, w := c19List(calls[0]), c19List(want); g != w {
			c.Failf("the function got %s, want %s", g, w)
		}
		ws := append(before[:len(before)-need:len(before)-need], rets...)
		if g, w := c19List(stk.vals), c19List(ws); g != w {
			c.Failf("the stack is %s, want %s", g, w)
		}
		c.Ev("calls", 1)
		c.Seen(fmt.Sprint(mode, tfn, arity, c19List(want)))
	}
}

func init() {
	register(&Prop{ID: "C19",
		Rule:    "histories of calls on one stack: functions of random signatures (made by reflection, variadic ones included), objects with a Call method and values that cannot be called, with fitting, convertible and unfit arguments, wrong counts and short stacks; a function records its arguments; compared with a model of the conversion rules; a case counts when the function was called",
		MustSee: []string{"calls", "values widened", "nil accepted", "calls refused: type", "calls refused: count", "calls refused: damaged", "calls refused: no function"},
		Parts: []*Part{{Name: "calls", Quick: 40000, Thorough: 3000000, Run: checkCall},
			bigPart("big", bigCallDims, 2, 20, bigCall)}})
}
