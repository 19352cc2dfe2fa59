package main

// C48: a stack is a stack. The stacks of the calculators and of qlang go through histories of
// operations next to a list.

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"

	ccalc "github.com/qiniu/text/tpl/cmplx"
	iu "github.com/qiniu/text/tpl/interpreter.util"
	ncalc "github.com/qiniu/text/tpl/number"
	qlang "github.com/qiniu/text/tpl/qlang/cl"
	rcalc "github.com/qiniu/text/tpl/rat"
)

// stk48 is a stack under test.
type stk48 struct {
	iu.Stack
	name  string
	push  func(v interface{})
	pop   func() (interface{}, bool)
	clear func()
	ret   func() (interface{}, bool) // of the calculator, or nil
	value func(r *Rand, i int) interface{}
	named map[string]func(r *Rand) interface{} // other ways to push: what they push
}

func text48(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case *big.Rat, float64, complex128:
		return valText(x)
	}
	return fmt.Sprintf("%T %v", v, v)
}

func newStk48(r *Rand) (p *stk48) {
	p = &stk48{}
	calc := r.P(50)
	switch r.N(4) {
	case 0:
		s := ncalc.NewStack()
		if calc {
			e := ncalc.New()
			s = e.Stack().(*ncalc.Stack)
			p.ret = func() (interface{}, bool) { return pair48(e.Ret()) }
		}
		p.Stack, p.name = s, "number"
		p.push = func(v interface{}) { s.Push(v.(float64)) }
		p.pop = func() (interface{}, bool) { return pair48(s.Pop()) }
		p.clear = s.Clear
		p.value = func(r *Rand, i int) interface{} { return float64(i) + 0.5 }
		p.named = map[string]func(r *Rand) interface{}{
			"PushIdent": func(r *Rand) interface{} { s.PushIdent("pi"); return 3.141592653589793 },
			"Arity":     func(r *Rand) interface{} { n := r.N(300); ncalc.Arity(s, n); return float64(n) },
		}
	case 1:
		s := ccalc.NewStack()
		if calc {
			e := ccalc.New()
			s = e.Stack().(*ccalc.Stack)
			p.ret = func() (interface{}, bool) { return pair48(e.Ret()) }
		}
		p.Stack, p.name = s, "cmplx"
		p.push = func(v interface{}) { s.Push(v.(complex128)) }
		p.pop = func() (interface{}, bool) { return pair48(s.Pop()) }
		p.clear = s.Clear
		p.value = func(r *Rand, i int) interface{} { return complex(float64(i), -float64(i)) }
		p.named = map[string]func(r *Rand) interface{}{
			"PushReal": func(r *Rand) interface{} { n := float64(r.N(300)); s.PushReal(n); return complex(n, 0) },
			"PushImag": func(r *Rand) interface{} {
				n := r.N(300)
				s.PushImag(fmt.Sprintf("%di", n))
				return complex(0, float64(n))
			},
			"Arity": func(r *Rand) interface{} { n := r.N(300); ccalc.Arity(s, n); return complex(float64(n), 0) },
		}
	case 2:
		s := rcalc.NewStack()
		if calc {
			e := rcalc.New()
			s = e.Stack().(*rcalc.Stack)
			p.ret = func() (interface{}, bool) { return pair48(e.Ret()) }
		}
		p.Stack, p.name = s, "rat"
		p.push = func(v interface{}) { s.Push(v.(*big.Rat)) }
		p.pop = func() (interface{}, bool) { return pair48(s.Pop()) }
		p.clear = s.Clear
		p.value = func(r *Rand, i int) interface{} { return big.NewRat(int64(i), 7) }
		p.named = map[string]func(r *Rand) interface{}{
			"PushInt": func(r *Rand) interface{} { n := int64(r.N(300)); s.PushInt(n); return big.NewRat(n, 1) },
			"PushString": func(r *Rand) interface{} {
				n := r.Range(1, 300)
				s.PushString(fmt.Sprint(n))
				return big.NewRat(int64(n), 1)
			},
			"Arity": func(r *Rand) interface{} { n := r.N(300); rcalc.Arity(s, n); return big.NewRat(int64(n), 1) },
		}
	default:
		s := qlang.NewStack()
		if calc {
			e := qlang.New()
			s = e.Stack().(*qlang.Stack)
			p.ret = func() (interface{}, bool) { return pair48(e.Ret()) }
			p.clear = e.Clear
		}
		p.Stack, p.name = s, "qlang"
		p.push = s.Push
		p.pop = s.Pop
		if p.clear == nil {
			p.clear = func() { s.SetFrame(0) }
		}
		p.value = func(r *Rand, i int) interface{} {
			switch r.N(4) {
			case 0:
				return fmt.Sprint("s", i)
			case 1:
				return float64(i)
			}
			return i
		}
		p.named = map[string]func(r *Rand) interface{}{
			"PushInt":    func(r *Rand) interface{} { n := r.N(300); s.PushInt(n); return n },
			"PushFloat":  func(r *Rand) interface{} { n := r.N(300); s.PushFloat(float64(n)); return float64(n) },
			"PushString": func(r *Rand) interface{} { s.PushString("\"a\\tb\""); return "a\tb" },
			"PushByte":   func(r *Rand) interface{} { s.PushByte("'\\n'"); return byte('\n') },
			"PushNil":    func(r *Rand) interface{} { qlang.PushNil(s); return nil },
			"PushName":   func(r *Rand) interface{} { qlang.PushName(s, "n"); return "n" },
			"Code":       func(r *Rand) interface{} { qlang.Code(s, "c"); return "c" },
			"Arity":      func(r *Rand) interface{} { n := r.N(300); qlang.Arity(s, n); return n },
		}
	}
	return
}

func pair48(a ...interface{}) (interface{}, bool) { return a[0], a[1].(bool) }

type args48 struct {
	args []reflect.Value
	want []string
}

func argText48(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	return text48(v.Interface())
}

// stack48 compares a stack with a list.
func stack48(c *Case) {
	r := c.R
	s := newStk48(r)
	var model []interface{}
	var kept []args48
	var hist []string
	step := func(f string, a ...interface{}) {
		hist = append(hist, fmt.Sprintf(f, a...))
		c.Input("stack of %s: %s", s.name, strings.Join(hist, "; "))
	}
	checkArgs := func(what string, args []reflect.Value, want []interface{}) {
		k := args48{args: args}
		if len(args) != len(want) {
			c.Failf("%s: %d values, want %d", what, len(args), len(want))
		}
		for i, w := range want {
			if got := argText48(args[i]); got != text48(w) {
				c.Failf("%s: value %d is %s, want %s", what, i, got, text48(w))
			}
			k.want = append(k.want, text48(w))
		}
		kept = append(kept, k)
	}
	names := []string{}
	for _, n := range []string{"PushIdent", "PushReal", "PushImag", "PushInt", "PushFloat", "PushString", "PushByte", "PushNil", "PushName", "Code", "Arity"} {
		if s.named[n] != nil {
			names = append(names, n)
		}
	}
	seq := 0
	pushy := r.Range(1, 4)
	for k := r.Range(3, 40); k > 0; k-- {
		op := r.N(9)
		if op > 6 && r.P(25*pushy) {
			op = 0
		}
		switch op {
		case 0, 1:
			for n := r.Pick2(1, 1, 2, 5, 20); n > 0; n-- {
				seq++
				v := s.value(r, seq)
				step("push %s", text48(v))
				s.push(v)
				model = append(model, v)
			}
		case 2:
			n := names[r.N(len(names))]
			step("%s", n)
			model = append(model, s.named[n](r))
			c.Ev("other ways to push", 1)
		case 3:
			seq++
			v := s.value(r, seq)
			step("return %s", text48(v))
			if err := s.PushRet([]reflect.Value{reflect.ValueOf(v)}); err != nil {
				c.Failf("PushRet: %v", err)
			}
			model = append(model, v)
		case 4:
			step("pop")
			got, ok := s.pop()
			if ok != (len(model) > 0) {
				c.Failf("Pop says %v with %d values", ok, len(model))
			}
			if !ok {
				c.Ev("empty stacks", 1)
				continue
			}
			if w := model[len(model)-1]; text48(w) != text48(got) {
				c.Failf("Pop yields %s, want %s", text48(got), text48(w))
			}
			model = model[:len(model)-1]
		case 5:
			n := r.N(len(model) + 3)
			step("popArgs %d", n)
			args, ok := s.PopArgs(n)
			if ok != (n <= len(model)) {
				c.Failf("PopArgs(%d) says %v with %d values", n, ok, len(model))
			}
			if !ok {
				c.Ev("too few values", 1)
				break
			}
			checkArgs("PopArgs", args, model[len(model)-n:])
			model = model[:len(model)-n]
			c.Ev("arguments taken", n)
		case 6: // a call
			n := r.N(len(model) + 2)
			if n > 4 {
				n = 4
			}
			seq++
			ret := s.value(r, seq)
			step("call with %d arguments, yields %s", n, text48(ret))
			var got []string
			any1 := func(a ...interface{}) interface{} {
				for _, x := range a {
					got = append(got, text48(x))
				}
				return ret
			}
			var err error
			any := reflect.TypeOf((*interface{})(nil)).Elem()
			in := make([]reflect.Type, n)
			for i := range in {
				in[i] = any
			}
			tret := reflect.TypeOf(ret)
			fn := reflect.MakeFunc(reflect.FuncOf(in, []reflect.Type{tret}, false), func(a []reflect.Value) []reflect.Value {
				l := make([]interface{}, len(a))
				for i := range a {
					l[i] = a[i].Interface()
				}
				return []reflect.Value{reflect.ValueOf(any1(l...))}
			}).Interface()
			if r.P(50) {
				err = iu.Call(s.Stack, fn, n)
			} else {
				err = iu.DoCall(s.Stack, fn, n, n, false)
			}
			if (err == nil) != (n <= len(model)) {
				c.Failf("the call says %v with %d values", err, len(model))
			}
			if err != nil {
				c.Ev("too few values", 1)
				break
			}
			for i, w := range model[len(model)-n:] {
				if i >= len(got) || got[i] != text48(w) {
					c.Failf("the function gets %v, argument %d should be %s", got, i, text48(w))
				}
			}
			model = append(model[:len(model)-n:len(model)-n], ret)
			c.Ev("calls", 1)
		case 7:
			step("clear")
			s.clear()
			model = nil
		case 8:
			if s.ret == nil {
				continue
			}
			step("Ret")
			got, ok := s.ret()
			if ok != (len(model) > 0) {
				c.Failf("Ret says %v with %d values", ok, len(model))
			}
			if ok {
				if w := model[len(model)-1]; text48(w) != text48(got) {
					c.Failf("Ret yields %s, want %s", text48(got), text48(w))
				}
				c.Ev("results", 1)
			}
			model = nil
		}
	}
	for len(model) > 0 {
		got, ok := s.pop()
		if w := model[len(model)-1]; !ok || text48(w) != text48(got) {
			c.Failf("at the end, value %d is %s (%v), want %s", len(model)-1, text48(got), ok, text48(w))
		}
		model = model[:len(model)-1]
	}
	if got, ok := s.pop(); ok {
		c.Failf("at the end, %s is left", text48(got))
	}
	for _, k := range kept {
		for i, w := range k.want {
			if got := argText48(k.args[i]); got != w {
				c.Failf("argument %d taken before is now %s, was %s", i, got, w)
			}
		}
	}
	c.Ev("histories", 1)
	c.Seen(s.name + strings.Join(hist, ";"))
}

func init() {
	register(&Prop{ID: "C48",
		Rule:    "histories of one stack of a calculator, of qlang or of its own: values pushed in every way, popped, taken as arguments, calls of functions of the host, results, cleared; what comes out is compared with a list, and at the end all that is left, and the arguments taken earlier once more; a case is distinct by its history",
		MustSee: []string{"histories", "other ways to push", "empty stacks", "too few values", "arguments taken", "calls", "results"},
		Parts: []*Part{
			{Name: "histories", Quick: 60000, Thorough: 2000000, Run: stack48},
		}})
}
