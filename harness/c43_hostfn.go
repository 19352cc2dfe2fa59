package main

// C43: functions a host adds to the function table of a calculator. Random functions of all
// signatures record their arguments; lines that call them are compared with the reference
// calculator, which knows the same functions.

import (
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	"math/big"
	"reflect"
	"strings"

	ccalc "github.com/qiniu/text/tpl/cmplx"
	ncalc "github.com/qiniu/text/tpl/number"
	rcalc "github.com/qiniu/text/tpl/rat"
)

type kInt int16
type kUint uint8
type kFloat float32
type kCmplx complex64

// hfn is a function of the host.
type hfn struct {
	name     string
	in       []reflect.Type
	variadic bool
	out      reflect.Type
	pan      string // fails: "string", "error"
	panAt    uint64
	nofunc   interface{}
}

// fworld is where functions are called.
type fworld struct {
	log  []string
	kept []fkept
}

type fkept struct {
	p    *big.Rat
	text string
}

var (
	ktFloat    = reflect.TypeOf(1.5)
	ktCmplx    = reflect.TypeOf(1i)
	ktRat      = reflect.TypeOf((*big.Rat)(nil))
	ktAny      = reflect.TypeOf((*interface{})(nil)).Elem()
	ktStringer = reflect.TypeOf((*fmt.Stringer)(nil)).Elem()
)

var hostOdd = []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(float32(0)), reflect.TypeOf(""), reflect.TypeOf(true), ktFloat, ktCmplx, ktRat, ktStringer,
	reflect.TypeOf([]float64(nil)), reflect.TypeOf(kFloat(0)), reflect.TypeOf(big.Rat{}), reflect.TypeOf((*int)(nil))}

var hostOuts = map[string][]reflect.Type{
	"number": {ktFloat, reflect.TypeOf(float32(0)), reflect.TypeOf(0), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
		reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(uintptr(0)),
		reflect.TypeOf(kInt(0)), reflect.TypeOf(kUint(0)), reflect.TypeOf(kFloat(0))},
	"rat": {ktRat},
}

var hostBadOuts = map[string][]reflect.Type{
	"number": {reflect.TypeOf(""), reflect.TypeOf(true), ktCmplx, ktRat, ktAny, reflect.TypeOf([]float64(nil)), reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf((*float64)(nil)), reflect.TypeOf(kCmplx(0))},
	"cmplx":  {reflect.TypeOf(""), reflect.TypeOf(true), ktRat, ktAny, reflect.TypeOf([]complex128(nil)), reflect.TypeOf((*complex128)(nil))},
	"rat":    {reflect.TypeOf(""), reflect.TypeOf(0), ktFloat, ktCmplx, ktAny, reflect.TypeOf(big.Rat{}), reflect.TypeOf((*big.Int)(nil)), reflect.TypeOf([]*big.Rat(nil))},
}

func init() {
	hostOuts["cmplx"] = append(append([]reflect.Type{ktCmplx, ktCmplx, reflect.TypeOf(complex64(0)), reflect.TypeOf(kCmplx(0))}, hostOuts["number"]...), ktCmplx)
}

func hostArg(name string) reflect.Type {
	return map[string]reflect.Type{"number": ktFloat, "cmplx": ktCmplx, "rat": ktRat}[name]
}

func hostTable(name string) map[string]interface{} {
	return map[string]map[string]interface{}{"number": ncalc.Fntable, "cmplx": ccalc.Fntable, "rat": rcalc.Fntable}[name]
}

// valText is how a value of a calculator is recorded.
func valText(v interface{}) string {
	switch x := v.(type) {
	case float64:
		if x != x {
			return "NaN"
		}
		return fmt.Sprintf("%x", math.Float64bits(x))
	case complex128:
		return valText(real(x)) + "," + valText(imag(x))
	case *big.Rat:
		return x.Num().String() + "/" + x.Denom().String()
	case frac:
		return x.n.String() + "/" + x.d.String()
	}
	return fmt.Sprintf("%T", v)
}

func callText(name string, args []string) (string, uint64) {
	h := fnv.New64a()
	h.Write([]byte(strings.Join(args, " ")))
	return name + "(" + strings.Join(args, " ") + ")", h.Sum64()
}

// result yields what a function returns for a hash and what the calculator makes of it.
func (f *hfn) result(calc string, h uint64, argRats []*big.Rat) (ret reflect.Value, val interface{}) {
	v := reflect.New(f.out).Elem()
	var fl float64
	im := 0.0
	k := int((h >> 7) % 7)
	switch f.out.Kind() {
	case reflect.Float64:
		fl = []float64{0, -1.5, 1e300, math.Inf(1), 3, math.NaN(), 0.1}[k]
		v.SetFloat(fl)
	case reflect.Float32:
		x := []float32{0, -1.5, 1e30, float32(math.Inf(-1)), 3, 16777217, 0.1}[k]
		v.SetFloat(float64(x))
		fl = float64(x)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		bits := f.out.Bits()
		x := []int64{0, -1, 7, 1<<(bits-1) - 1, -1 << (bits - 1), 42, 1<<(bits-2) + 1}[k]
		v.SetInt(x)
		fl, _ = new(big.Float).SetInt64(x).Float64()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		bits := f.out.Bits()
		x := []uint64{0, 1, 7, 1<<uint(bits) - 1, 1 << uint(bits-1), 42, 1<<uint(bits-1) + 1}[k]
		v.SetUint(x)
		fl, _ = new(big.Float).SetUint64(x).Float64()
	case reflect.Complex64:
		x := []complex64{0, 1i, -2, 1.5 + 0.1i, 1e30i, 3, 0.1}[k]
		v.SetComplex(complex128(x))
		fl, im = float64(real(x)), float64(imag(x))
	case reflect.Complex128:
		x := []complex128{0, 1i, -2, 1.5 + 0.1i, 1e300i, 3, 0.1}[k]
		v.SetComplex(x)
		fl, im = real(x), imag(x)
	}
	switch {
	case calc == "rat":
		if f.out != ktRat {
			return v, nil
		}
		q := big.NewRat([]int64{0, 1, -7, 3, math.MaxInt64, 5, 22}[k], []int64{1, 3, 2, 1, 5, 6, 7}[k])
		if len(argRats) > 0 && h%5 == 0 {
			q = argRats[len(argRats)-1]
		}
		return reflect.ValueOf(q), frac{new(big.Int).Set(q.Num()), new(big.Int).Set(q.Denom())}
	case calc == "cmplx":
		return v, complex(fl, im)
	}
	return v, fl
}

// bad tells whether the results of f are of a type the calculator has no use for.
func (f *hfn) bad(calc string) bool {
	for _, t := range hostOuts[calc] {
		if t == f.out {
			return false
		}
	}
	return true
}

// takes tells whether values of the calculator fit a parameter.
func hostTakes(calc string, t reflect.Type) bool {
	switch {
	case t == hostArg(calc), t == ktAny:
		return true
	case t == ktStringer:
		return calc == "rat"
	}
	return false
}

func (f *hfn) real(calc string, w *fworld) interface{} {
	if f.nofunc != nil {
		return f.nofunc
	}
	in := append([]reflect.Type{}, f.in...)
	if f.variadic {
		in[len(in)-1] = reflect.SliceOf(in[len(in)-1])
	}
	return reflect.MakeFunc(reflect.FuncOf(in, []reflect.Type{f.out}, f.variadic), func(args []reflect.Value) []reflect.Value {
		if f.variadic {
			last := args[len(args)-1]
			args = append([]reflect.Value{}, args[:len(args)-1]...)
			for i := 0; i < last.Len(); i++ {
				args = append(args, last.Index(i))
			}
		}
		var l []string
		var rats []*big.Rat
		for _, a := range args {
			v := a.Interface()
			l = append(l, valText(v))
			if q, ok := v.(*big.Rat); ok {
				rats = append(rats, q)
				if len(w.kept) < 100 {
					w.kept = append(w.kept, fkept{q, valText(q)})
				}
			}
		}
		s, h := callText(f.name, l)
		w.log = append(w.log, s)
		if f.pan != "" && h%3 == f.panAt {
			if f.pan == "string" {
				panic("boom of " + f.name)
			}
			panic(errors.New("boom of " + f.name))
		}
		v, _ := f.result(calc, h, rats)
		return []reflect.Value{v}
	}).Interface()
}

func (f *hfn) ref(calc string, w *fworld) calcFn {
	c := calcFn{min: len(f.in), max: len(f.in)}
	if f.variadic {
		c.min, c.max = len(f.in)-1, -1
	}
	if f.nofunc != nil {
		c = calcFn{0, -1, func(a []interface{}) interface{} { panic(calcErr{"not a function"}) }}
		return c
	}
	c.f = func(a []interface{}) interface{} {
		var l []string
		var rats []*big.Rat
		for i, v := range a {
			if !hostTakes(calc, f.in[min(i, len(f.in)-1)]) {
				panic(calcErr{"argument type"})
			}
			l = append(l, valText(v))
			if q, ok := v.(frac); ok {
				rats = append(rats, new(big.Rat).SetFrac(q.n, q.d))
			}
		}
		s, h := callText(f.name, l)
		w.log = append(w.log, s)
		if f.pan != "" && h%3 == f.panAt {
			panic(calcErr{"boom of " + f.name})
		}
		if f.bad(calc) {
			panic(calcErr{"result type"})
		}
		_, v := f.result(calc, h, rats)
		return v
	}
	return c
}

func genHfn(r *Rand, calc, name string) *hfn {
	f := &hfn{name: name}
	if r.P(2) {
		f.nofunc = []interface{}{"text", 1, 2.5, struct{}{}, []int{1}, map[string]int{}, &struct{ a int }{}}[r.N(7)]
		return f
	}
	arg := func() reflect.Type {
		switch r.W(75, 20, 4) {
		case 0:
			return hostArg(calc)
		case 1:
			return ktAny
		}
		return hostOdd[r.N(len(hostOdd))]
	}
	for i := r.W(10, 35, 25, 15, 10, 5); i > 0; i-- {
		f.in = append(f.in, arg())
	}
	if len(f.in) > 0 && r.P(25) {
		f.variadic = true
	}
	l := hostOuts[calc]
	if r.P(5) {
		l = hostBadOuts[calc]
	}
	f.out = l[r.N(len(l))]
	if r.P(6) {
		f.pan, f.panAt = r.Pick("string", "error"), uint64(r.N(3))
	}
	return f
}

// hostCalc puts functions into the table and the reference; undo takes them out.
func hostCalc(calc string, fns []*hfn) (d *calcDef, got, want *fworld, undo func()) {
	x := *calcDefs[calc]
	d = &x
	got, want = &fworld{}, &fworld{}
	d.fns, d.names = map[string]calcFn{}, nil
	for k, f := range calcDefs[calc].fns {
		d.fns[k] = f
	}
	table := hostTable(calc)
	old := map[string]interface{}{}
	for _, f := range fns {
		if _, ok := old[f.name]; !ok {
			old[f.name] = table[f.name]
		}
		table[f.name] = f.real(calc, got)
		d.fns[f.name] = f.ref(calc, want)
	}
	return d, got, want, func() {
		for k, v := range old {
			if v == nil {
				delete(table, k)
			} else {
				table[k] = v
			}
		}
	}
}

// hostLine evaluates a line.
func hostLine(c *Case, d *calcDef, got, want *fworld, text string, ast *cx) {
	got.log, want.log, got.kept = nil, nil, nil
	v, why := d.value(ast)
	if why == "skip" {
		return
	}
	g, err := d.eval(c, text)
	if a, b := got.log, want.log; len(a) != 0 || len(b) != 0 {
		for i := 0; i < max(len(a), len(b)); i++ {
			x, y := "no call", "no call"
			if i < len(a) {
				x = a[i]
			}
			if i < len(b) {
				y = b[i]
			}
			if x != y {
				c.Failf("%s: call %d is\n  %s\nwant\n  %s\n(%v)", d.name, i, clip(x, 2000), clip(y, 2000), err)
			}
		}
		c.Ev("calls of host functions", len(b))
	}
	for _, k := range got.kept {
		if s := valText(k.p); s != k.text {
			c.Failf("%s: an argument kept by a function was %s and is %s", d.name, k.text, s)
		}
	}
	switch {
	case why != "":
		if err == nil {
			c.Failf("%s gives %v, want an error (%s)", d.name, g, why)
		}
		if strings.HasPrefix(why, "boom") {
			if !strings.Contains(err.Error(), why) {
				c.Failf("%s: error %q, want %q", d.name, err, why)
			}
			why = "in a host function"
		}
		if strings.HasPrefix(why, "panic") {
			why = "in a function"
		}
		_ = err.Error()
		c.Ev("errors: "+why, 1)
	case err != nil:
		c.Failf("%s: error %v, want %v", d.name, err, v)
	case !d.same(g, v):
		c.Failf("%s gives %v, want %v", d.name, g, v)
	default:
		c.Ev("values", 1)
	}
}

func checkHostFns(c *Case) {
	r := c.R
	calcEngines(c)
	calc := r.Pick("number", "cmplx", "rat")
	names := []string{"f", "g", "host", "ünï", "f2", "_", "_x", "été", "F", "Arity", "push", "call", "abs", "max", "e1"}
	var fns []*hfn
	var in strings.Builder
	for i := 1 + r.N(5); i > 0; i-- {
		f := genHfn(r, calc, r.Pick(names...))
		fns = append(fns, f)
		fmt.Fprintf(&in, "%s%v variadic %v %v %s %v; ", f.name, f.in, f.variadic, f.out, f.pan, f.nofunc)
	}
	d, got, want, undo := hostCalc(calc, fns)
	defer undo()
	for _, f := range fns {
		d.names = append(d.names, f.name)
	}
	if r.P(60) {
		d.names = append(d.names, "abs", "max", "min")
	}
	key := in.String()
	for i := 1 + r.N(4); i > 0; i-- {
		ast := d.gen(r, 1+r.N(5))
		if r.P(70) {
			ast = &cx{op: "call", s: fns[r.N(len(fns))].name, k: []*cx{ast}}
			f := d.fns[ast.s]
			n := f.min
			if f.max < 0 {
				n += r.N(4)
			}
			for len(ast.k) < n {
				ast.k = append(ast.k, d.gen(r, r.N(3)))
			}
			if n == 0 {
				ast.k = nil
			}
		}
		var toks []string
		ast.toks(r, 0, &toks)
		text := joinCalc(r, toks)
		key += text + "\n"
		c.Input("%s: functions %s", calc, key)
		hostLine(c, d, got, want, text, ast)
	}
	c.Seen(calc + key)
}

var hostFnDims = []bigDim{{"arguments", 20001}, {"calls", 20001}, {"nested calls", 1025}, {"functions", 5001}, {"length of a name", 20001}, {"lines", 2049}, {"failing lines", 2049}}

func bigHostFns(c *Case, b bigCase) {
	r := c.R
	calcEngines(c)
	n := b.n
	calc := r.Pick("number", "cmplx", "rat")
	outs := hostOuts[calc]
	one := func(name string, variadic bool) *hfn {
		return &hfn{name: name, in: []reflect.Type{hostArg(calc)}, variadic: variadic, out: outs[r.N(len(outs))]}
	}
	lit := func(i int) *cx { return &cx{op: "lit", s: fmt.Sprint(i), kind: refLex([]byte("1")).tokens(0)[0].kind} }
	call := func(f string, k ...*cx) *cx { return &cx{op: "call", s: f, k: k} }
	run := func(fns []*hfn, l ...*cx) {
		d, got, want, undo := hostCalc(calc, fns)
		defer undo()
		for _, ast := range l {
			var toks []string
			ast.toks(r, 0, &toks)
			hostLine(c, d, got, want, strings.Join(toks, " "), ast)
		}
	}
	switch b.name {
	case "arguments":
		f := one("f", true)
		if r.P(30) {
			f.in[0] = ktAny
		}
		ast := call("f")
		for i := 0; i < n; i++ {
			ast.k = append(ast.k, lit(i))
		}
		run([]*hfn{f}, ast)
		if n <= 50 { // all of them parameters
			for f.variadic = false; len(f.in) < n; {
				f.in = append(f.in, hostArg(calc))
			}
			run([]*hfn{f}, ast)
		}
	case "calls":
		ast := call("f", lit(0))
		for i := 1; i < n; i++ {
			ast = &cx{op: r.Pick("+", "-"), k: []*cx{ast, call(r.Pick("f", "g"), lit(i))}}
		}
		run([]*hfn{one("f", false), one("g", true)}, ast)
	case "nested calls":
		ast := lit(1)
		for i := 0; i < n; i++ {
			ast = call(r.Pick("f", "g"), ast)
		}
		run([]*hfn{one("f", false), one("g", true)}, ast)
	case "functions":
		var fns []*hfn
		for i := 0; i < n; i++ {
			fns = append(fns, one(fmt.Sprint("f", i), false))
		}
		var l []*cx
		for i := 0; i < 20; i++ {
			l = append(l, call(fmt.Sprint("f", r.N(n)), lit(i)))
		}
		run(fns, append(l, call(fmt.Sprint("f", n-1), lit(7)), call(fmt.Sprint("f", n), lit(7)))...)
	case "length of a name":
		x, y, z := cycle("abcdé", n), cycle("abcdé", n)+"x", cycle("abcdé", n)+"y"
		run([]*hfn{one(x, false), one(y, true)}, call(x, lit(1)), call(y, lit(2), lit(3)), call(z, lit(1)))
	case "lines", "failing lines":
		f := one("f", true)
		if b.name == "failing lines" {
			f.pan = "error"
			f.panAt = uint64(r.N(3))
		}
		var l []*cx
		for i := 0; i < n; i++ {
			ast := call("f", lit(i), call("f", lit(i+1)))
			if i%50 == 7 {
				ast.k = append(ast.k, call("nosuch", lit(1)))
			}
			l = append(l, ast)
		}
		run([]*hfn{f}, l...)
	}
}

func init() {
	register(&Prop{ID: "C43",
		Rule:    "random functions of the host (all parameter and result types, variadic ones, failing ones, things that are no functions) are put into the function tables of the three calculators, under new names or in place of others, record their arguments and are called by random lines; calls, value or error are compared with the reference calculator, which has the same functions. A case counts when a line was evaluated",
		MustSee: []string{"calls of host functions", "values", "big cases", "errors: argument type", "errors: result type", "errors: argument count", "errors: in a host function", "errors: not a function"},
		Assume:  []string{"a host function has one result", "host functions panic with strings or errors only", "*big.Rat arguments are not modified by the function"},
		Parts: []*Part{
			{Name: "host functions", Quick: 200000, Thorough: 4000000, Run: checkHostFns},
			bigPart("big", hostFnDims, 3, 30, bigHostFns),
		}})
}
