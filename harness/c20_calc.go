package main

// C20..C24: numeric literals and the calculators.

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/cmplx"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/qiniu/text/tpl"
	ccalc "github.com/qiniu/text/tpl/cmplx"
	ip "github.com/qiniu/text/tpl/interpreter"
	ncalc "github.com/qiniu/text/tpl/number"
	"github.com/qiniu/text/tpl/qlang"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
	rcalc "github.com/qiniu/text/tpl/rat"
)

// ---------------------------------------------------------------- literals

// litValue is the exact value of an INT or FLOAT literal; ok is false if it is incomplete. huge
// tells the sign of an exponent too big to expand.
func litValue(lit string) (v *big.Rat, ok bool, huge int) {
	digits := func(s string, base int64) *big.Int {
		x := new(big.Int)
		for i := 0; i < len(s); i++ {
			d := int64(strings.IndexByte("0123456789abcdef", s[i]|0x20))
			if s[i] <= '9' {
				d = int64(s[i] - '0')
			}
			x.Mul(x, big.NewInt(base))
			x.Add(x, big.NewInt(d))
		}
		return x
	}
	if len(lit) > 1 && lit[0] == '0' && lit[1]|0x20 == 'x' {
		if len(lit) == 2 {
			return nil, false, 0
		}
		return new(big.Rat).SetInt(digits(lit[2:], 16)), true, 0
	}
	if !strings.ContainsAny(lit, ".eE") {
		base := int64(10)
		if lit[0] == '0' {
			base = 8
		}
		return new(big.Rat).SetInt(digits(lit, base)), true, 0
	}
	mant, exp := lit, ""
	if i := strings.IndexAny(lit, "eE"); i >= 0 {
		mant, exp = lit[:i], lit[i+1:]
		if strings.Trim(exp, "+-") == "" {
			return nil, false, 0
		}
	}
	frac := ""
	if i := strings.IndexByte(mant, '.'); i >= 0 {
		mant, frac = mant[:i], mant[i+1:]
	}
	v = new(big.Rat).SetInt(digits(mant+frac, 10))
	neg := strings.HasPrefix(exp, "-")
	e := digits(strings.TrimLeft(exp, "+-"), 10)
	if v.Sign() == 0 {
		return v, true, 0
	}
	if e.Cmp(big.NewInt(int64(2000+len(mant)+len(frac)))) > 0 {
		if neg {
			return v, true, -1
		}
		return v, true, 1
	}
	n := e.Int64()
	if neg {
		n = -n
	}
	n -= int64(len(frac))
	p := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(max(n, -n)), nil))
	if n < 0 {
		p.Inv(p)
	}
	return v.Mul(v, p), true, 0
}

// litFloat is the float64 a literal denotes. Signed overflow is no float64.
func litFloat(lit string) (f float64, ok bool) {
	v, ok, huge := litValue(lit)
	if !ok || huge > 0 {
		return 0, false
	}
	if huge < 0 {
		return 0, true
	}
	// round to 53 bits by integer arithmetic, independently of strconv and Rat.Float64
	f = ratToFloat(v)
	return f, !math.IsInf(f, 0)
}

// ratToFloat rounds a non-negative value to nearest, ties to even.
func ratToFloat(v *big.Rat) float64 {
	if v.Sign() == 0 {
		return 0
	}
	a, b := new(big.Int).Set(v.Num()), new(big.Int).Set(v.Denom())
	e := a.BitLen() - b.BitLen() - 53 // quotient a/b*2^-e has 53 or 54 bits
	if e < -1074 {
		e = -1074
	}
	for {
		x, y := new(big.Int).Set(a), new(big.Int).Set(b)
		if e > 0 {
			y.Lsh(y, uint(e))
		} else {
			x.Lsh(x, uint(-e))
		}
		q, r := new(big.Int).QuoRem(x, y, new(big.Int))
		if q.BitLen() > 53 {
			e++
			continue
		}
		r.Lsh(r, 1)
		if c := r.Cmp(y); c > 0 || c == 0 && q.Bit(0) == 1 {
			q.Add(q, big.NewInt(1))
		}
		return math.Ldexp(float64(q.Int64()), e)
	}
}

func (r *Rand) digits(n int, set string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = set[r.N(len(set))]
	}
	return string(b)
}

// genLit makes a numeric literal (INT or FLOAT, maybe incomplete).
func genLit(r *Rand) string {
	switch r.W(20, 8, 14, 14, 30, 6, 8) {
	case 0: // decimal
		n := 1 + r.N(12)
		if r.P(30) {
			n = 15 + r.N(8)
		}
		s := strings.TrimLeft(r.digits(n, "0123456789"), "0")
		if s == "" {
			s = "0"
		}
		return s
	case 1: // near the limits
		l := []string{"9223372036854775807", "9223372036854775808", "9223372036854775806", "9007199254740993", "9007199254740992", "9007199254740991", "18446744073709551615", "18446744073709551616", "4503599627370497.5", "9007199254740993.0", "0777777777777777777777", "01000000000000000000000", "0x7fffffffffffffff", "0x8000000000000000", "0xffffffffffffffff", "0x10000000000000000", "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "4.9e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "2.2250738585072014e-308", "2.2250738585072011e-308", "1e309", "1e-400", "1e99999999999999999999", "1e-99999999999999999999", "0e99999999999999999999", "0", "00", "0.", ".0", "0x0", "0e0", "179769313486231580793728971405303415079934132710037826936173778980444968292764750946649017977587207096330286416692887910946555547851940402630657488671505820681908902000708383676273854845817711531764475730270069855571366959622842914819860834936475292719074168444365510704342711559699508093042880", "9223372036854775807.5", "9223372036854775809"}
		return l[r.N(len(l))]
	case 2: // octal
		n := 1 + r.N(8)
		if r.P(30) {
			n = 19 + r.N(5)
		}
		return "0" + r.digits(n, "01234567")
	case 3: // hexadecimal
		n := 1 + r.N(9)
		if r.P(30) {
			n = 14 + r.N(5)
		}
		return r.Pick("0x", "0X") + r.digits(n, "0123456789abcdefABCDEF")
	case 4: // float
		s := ""
		i, f := r.N(8), r.N(8)
		if r.P(15) {
			i, f = r.N(30), r.N(30)
		}
		if i+f == 0 {
			i = 1
		}
		s = r.digits(i, "0123456789") + "." + r.digits(f, "0123456789")
		if r.P(30) {
			s = r.digits(i+1, "0123456789")
			s += "e"
		} else if r.P(50) {
			s += r.Pick("e", "E")
		}
		if strings.ContainsAny(s, "eE") {
			s += r.Pick("", "", "+", "-")
			if r.P(95) {
				s += strconv.Itoa(r.N([]int{5, 30, 330}[r.N(3)]))
			}
		}
		return s
	case 5:
		return r.Pick("1e", "1e+", "1.e-", ".5e", "0e", "00e+", "1.5E", "0e-")
	default: // halfway cases: odd multiples of half a unit in the last place
		m := new(big.Int).SetUint64(1<<53 | r.U64()&(1<<53-1))
		m.Lsh(m, 1).SetBit(m, 0, 1)
		e := r.N(120) - 60
		v := new(big.Rat).SetInt(m)
		p := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(max(e, -e))))
		if e < 0 {
			p.Inv(p)
		}
		v.Mul(v, p)
		s := v.FloatString(max(-e, 0) + 1)
		if r.P(40) { // just beside it
			s += r.Pick("1", "0001")
		}
		return s
	}
}

func sameFloat(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || math.IsNaN(a) && math.IsNaN(b)
}

func sameComplex(a, b complex128) bool {
	return sameFloat(real(a), real(b)) && sameFloat(imag(a), imag(b))
}

func calcEngines(c *Case) {
	h := here()
	if h.engN != nil {
		return
	}
	h.calcN, h.calcC, h.calcR = ncalc.New(), ccalc.New(), rcalc.New()
	var err error
	for _, x := range []struct {
		e **ip.Engine
		f func() (*ip.Engine, error)
	}{{&h.engN, func() (*ip.Engine, error) { return ip.New(h.calcN, nil) }},
		{&h.engC, func() (*ip.Engine, error) { return ip.New(h.calcC, nil) }},
		{&h.engR, func() (*ip.Engine, error) { return ip.New(h.calcR, nil) }}} {
		if *x.e, err = x.f(); err != nil {
			c.Failf("New: %v", err)
		}
	}
	if h.lang20, err = qlang.New(nil); err != nil {
		c.Failf("qlang.New: %v", err)
	}
}

// evalCatch evaluates a line; panics with errors or strings are errors (as in the examples).
func evalCatch(c *Case, e *ip.Engine, line string) (err error) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case error:
			if _, ok := x.(interface{ RuntimeError() }); ok {
				c.Failf("the evaluation panics: %v", x)
			}
			err = x
		default:
			c.Failf("the evaluation panics with a %T: %v", x, x)
		}
	}()
	return e.Eval(line)
}

func checkLiteral(c *Case) { checkLit(c, genLit(c.R)) }

func checkLit(c *Case, lit string) {
	calcEngines(c)
	r := c.R
	c.Input("%q", lit)
	ref := refLex([]byte(lit))
	toks := ref.tokens(0)
	if len(ref.errs) > 0 || len(toks) != 2 || toks[0].kind != tpl.INT && toks[0].kind != tpl.FLOAT {
		c.Ev("not a literal", 1)
		for name, e := range map[string]*ip.Engine{"number": here().engN, "cmplx": here().engC, "rat": here().engR} {
			if err := evalCatch(c, e, lit); err == nil {
				c.Failf("%s accepts it", name)
			}
		}
		return
	}
	isInt := toks[0].kind == tpl.INT
	val, complete, huge := litValue(lit)
	wantF, okF := litFloat(lit)
	var wantI int64
	okI := isInt && complete && val.Num().IsInt64()
	if okI {
		wantI = val.Num().Int64()
	}
	// hexadecimal and octal integers beyond int64: the float64 functions may refuse them
	lax := isInt && !okI && lit[0] == '0'
	c.Seen(lit)
	kind := map[bool]string{true: "integers", false: "floats"}[isInt]
	c.Ev(kind, 1)
	if !complete || !okF || isInt && !okI {
		c.Ev(kind+" that do not fit or are incomplete", 1)
	}
	num := func(what string, got float64, err error) {
		if err != nil {
			if okF && !lax {
				c.Failf("%s: %v, want %v", what, err, wantF)
			}
			return
		}
		if !okF || !sameFloat(got, wantF) {
			c.Failf("%s gives %v, want %v (%v)", what, got, wantF, okF)
		}
	}
	f, err := ip.ParseFloat(lit)
	num("ParseFloat", f, err)
	gv, err := ip.GetValue(tFloat, lit)
	if err == nil {
		f = gv.Interface().(float64)
	}
	num("GetValue(float64)", f, err)
	integer := func(what string, got int64, err error) {
		if (err == nil) != okI || err == nil && got != wantI {
			c.Failf("%s gives %v, %v, want %v (%v)", what, got, err, wantI, okI)
		}
	}
	i, err := ip.ParseInt(lit)
	integer("ParseInt", i, err)
	if gv, err = ip.GetValue(tInt64, lit); err == nil {
		i = gv.Interface().(int64)
	}
	integer("GetValue(int64)", i, err)
	if gv, err = ip.GetValue(tInt, lit); err == nil {
		i = int64(gv.Interface().(int))
	}
	integer("GetValue(int)", i, err)
	if gv, err = ip.GetValue(tString, lit); err != nil || gv.Interface() != lit {
		c.Failf("GetValue(string) gives %v, %v", gv, err)
	}
	// the calculators
	pre, post := r.Pick("", " ", "("), ""
	if pre == "(" {
		post = ")"
	}
	err = evalCatch(c, here().engN, pre+lit+post)
	f, _ = here().calcN.Ret()
	num("the number calculator", f, err)
	err = evalCatch(c, here().engC, pre+lit+post)
	z, _ := here().calcC.Ret()
	if err == nil && imag(z) != 0 {
		c.Failf("the cmplx calculator gives %v", z)
	}
	num("the cmplx calculator", real(z), err)
	if r.P(60) {
		im := lit + "i"
		imRef := refLex([]byte(im))
		if t := imRef.tokens(0); len(imRef.errs) == 0 && len(t) == 2 && t[0].kind == tpl.IMAG && (!isInt || lit[0] != '0' || len(lit) == 1) {
			err = evalCatch(c, here().engC, im)
			z, _ = here().calcC.Ret()
			if err == nil && real(z) != 0 {
				c.Failf("the cmplx calculator gives %v for %s", z, im)
			}
			num("the cmplx calculator (imaginary)", imag(z), err)
			c.Ev("imaginary literals", 1)
		}
	}
	err = evalCatch(c, here().engR, pre+lit+post)
	q, _ := here().calcR.Ret()
	switch {
	case !isInt:
		if err == nil {
			c.Failf("the rat calculator accepts a float: %v", q)
		}
	case err != nil || q == nil || q.Cmp(val) != 0:
		c.Failf("the rat calculator gives %v, %v, want %v", q, err, val)
	}
	// qlang
	err = here().lang20.SafeEval("x = " + lit)
	v, _ := here().lang20.Var("x")
	if isInt {
		if (err == nil) != okI || err == nil && v != int(wantI) {
			c.Failf("qlang gives %v (%T), %v, want %v (%v)", v, v, err, wantI, okI)
		}
	} else {
		f, isF := v.(float64)
		if err == nil && !isF {
			c.Failf("qlang gives a %T", v)
		}
		num("qlang", f, err)
	}
	_ = huge
}

// ---------------------------------------------------------------- expressions

// calcFn is a function of a calculator; max < 0: variadic.
type calcFn struct {
	min, max int
	f        func(a []interface{}) interface{}
}

// calcDef is a reference calculator.
type calcDef struct {
	name   string
	lit    func(kind uint, lit string) (interface{}, bool)
	neg    func(a interface{}) interface{}
	bin    map[string]func(a, b interface{}) interface{}
	consts map[string]interface{}
	fns    map[string]calcFn
	names  []string
	same   func(a, b interface{}) bool
	genLit func(r *Rand) string
	eval   func(c *Case, text string) (v interface{}, err error)
}

type calcErr struct{ why string }

// cx is an expression.
type cx struct {
	op   string // lit, name, call, neg, pos, paren, + - * / %
	s    string
	k    []*cx
	kind uint
}

func (d *calcDef) evalAST(n *cx) interface{} {
	switch n.op {
	case "lit":
		v, ok := d.lit(n.kind, n.s)
		if !ok {
			panic(calcErr{"literal"})
		}
		return v
	case "name":
		v, ok := d.consts[n.s]
		if !ok {
			panic(calcErr{"name"})
		}
		return v
	case "paren", "pos":
		return d.evalAST(n.k[0])
	case "neg":
		return d.neg(d.evalAST(n.k[0]))
	case "call":
		var a []interface{}
		for _, k := range n.k {
			a = append(a, d.evalAST(k))
		}
		f, ok := d.fns[n.s]
		if !ok {
			panic(calcErr{"unknown function"})
		}
		if len(a) < f.min || f.max >= 0 && len(a) > f.max {
			panic(calcErr{"argument count"})
		}
		return f.f(a)
	}
	a := d.evalAST(n.k[0])
	b := d.evalAST(n.k[1])
	return d.bin[n.op](a, b)
}

func (d *calcDef) value(n *cx) (v interface{}, why string) {
	defer func() {
		if e := recover(); e != nil {
			if ce, ok := e.(calcErr); ok {
				why = ce.why
				return
			}
			why = fmt.Sprint("panic: ", e) // e.g. division by zero
		}
	}()
	return d.evalAST(n), ""
}

func (d *calcDef) gen(r *Rand, depth int) *cx {
	if depth <= 0 || r.P(8) {
		if len(d.consts) > 0 && r.P(15) {
			return &cx{op: "name", s: r.Pick(sortedNames(d.consts)...)}
		}
		s := d.genLit(r)
		ref := refLex([]byte(s))
		return &cx{op: "lit", s: s, kind: ref.tokens(0)[0].kind}
	}
	switch r.W(40, 12, 4, 25) {
	case 0:
		ops := []string{"+", "-", "*", "/", "%"}
		op := ops[r.N(len(ops))]
		if d.bin[op] == nil {
			op = "-"
		}
		return &cx{op: op, k: []*cx{d.gen(r, depth-1), d.gen(r, depth-1-r.N(2))}}
	case 1:
		return &cx{op: "neg", k: []*cx{d.gen(r, depth-1)}}
	case 2:
		return &cx{op: "pos", k: []*cx{d.gen(r, depth-1)}}
	}
	n := &cx{op: "call", s: d.names[r.N(len(d.names))]}
	f := d.fns[n.s]
	cnt := f.min
	if f.max < 0 {
		cnt = r.N(5)
	}
	if r.P(2) {
		cnt = r.N(4)
	}
	if r.P(1) {
		n.s = r.Pick("foo", "Abs", "push", "_", "e")
	}
	for i := 0; i < cnt; i++ {
		n.k = append(n.k, d.gen(r, depth-1-r.N(2)))
	}
	return n
}

func sortedNames(m map[string]interface{}) (l []string) {
	mm := map[string]int{}
	for k := range m {
		mm[k] = 1
	}
	return sortedKeys(mm)
}

// text prints an expression with the parentheses its structure needs (and some more).
func (n *cx) toks(r *Rand, lvl int, out *[]string) {
	own := 3
	switch n.op {
	case "+", "-":
		own = 1
	case "*", "/", "%":
		own = 2
	}
	if own < lvl || r.P(8) {
		*out = append(*out, "(")
		n.toks(r, 0, out)
		*out = append(*out, ")")
		return
	}
	switch n.op {
	case "lit", "name":
		*out = append(*out, n.s)
	case "neg", "pos":
		*out = append(*out, map[string]string{"neg": "-", "pos": "+"}[n.op])
		n.k[0].toks(r, 3, out)
	case "call":
		*out = append(*out, n.s, "(")
		for i, k := range n.k {
			if i > 0 {
				*out = append(*out, ",")
			}
			k.toks(r, 0, out)
		}
		*out = append(*out, ")")
	default:
		n.k[0].toks(r, own, out)
		*out = append(*out, n.op)
		n.k[1].toks(r, own+1, out)
	}
}

// joinCalc joins tokens with blanks and comments; blanks separate tokens that would merge.
func joinCalc(r *Rand, toks []string) string {
	var b strings.Builder
	for i, t := range toks {
		if i > 0 {
			p := toks[i-1]
			merge := (p == "+" || p == "-" || p == "/") && (t == p || t == "/" || t == "*")
			l := p[len(p)-1]
			merge = merge || (l >= '0' && l <= '9' || l >= 'a' || l == '.' || l >= 'A' && l <= 'Z' || l == '_') && (t[0] >= '0' && t[0] <= '9' || t[0] >= 'A' || t[0] == '.')
			if l == 'e' || l == 'E' || l == 'x' || l == 'X' {
				merge = true
			}
			if merge || r.P(30) {
				b.WriteString(r.Pick(" ", " ", " ", "  ", "\t", " /* c */", " /**/ "))
			}
		}
		b.WriteString(t)
	}
	return b.String()
}

// parse is the reference parser.
type calcParse struct {
	d  *calcDef
	ts []rtok
	i  int
}

func (d *calcDef) parse(text string) *cx {
	ref := refLex([]byte(text))
	if len(ref.errs) > 0 {
		return nil
	}
	p := &calcParse{d: d, ts: ref.tokens(0)}
	n := p.sum()
	if n == nil || p.ts[p.i].kind != tpl.EOF {
		return nil
	}
	return n
}

func (p *calcParse) sum() *cx {
	a := p.product()
	for a != nil {
		op := opSpell[p.ts[p.i].kind]
		if op != "+" && op != "-" {
			return a
		}
		p.i++
		b := p.product()
		if b == nil {
			return nil
		}
		a = &cx{op: op, k: []*cx{a, b}}
	}
	return nil
}

func (p *calcParse) product() *cx {
	a := p.factor()
	for a != nil {
		op := opSpell[p.ts[p.i].kind]
		if op != "*" && op != "/" && op != "%" || p.d.bin[op] == nil {
			return a
		}
		p.i++
		b := p.factor()
		if b == nil {
			return nil
		}
		a = &cx{op: op, k: []*cx{a, b}}
	}
	return nil
}

func (p *calcParse) factor() *cx {
	t := p.ts[p.i]
	p.i++
	switch t.kind {
	case tpl.INT, tpl.FLOAT, tpl.IMAG:
		return &cx{op: "lit", s: t.lit, kind: t.kind}
	case '-', '+':
		a := p.factor()
		if a == nil {
			return nil
		}
		return &cx{op: map[uint]string{'-': "neg", '+': "pos"}[t.kind], k: []*cx{a}}
	case '(':
		a := p.sum()
		if a == nil || p.ts[p.i].kind != ')' {
			return nil
		}
		p.i++
		return &cx{op: "paren", k: []*cx{a}}
	case tpl.IDENT:
		if p.ts[p.i].kind != '(' {
			return &cx{op: "name", s: t.lit}
		}
		p.i++
		n := &cx{op: "call", s: t.lit}
		if p.ts[p.i].kind == ')' {
			p.i++
			return n
		}
		for {
			a := p.sum()
			if a == nil {
				return nil
			}
			n.k = append(n.k, a)
			k := p.ts[p.i].kind
			p.i++
			if k == ')' {
				return n
			}
			if k != ',' {
				return nil
			}
		}
	}
	p.i--
	return nil
}

// line makes a line for the calculator: an expression, sometimes damaged, or junk.
func (d *calcDef) line(r *Rand, depth int) (text string, ast *cx) {
	if r.P(4) {
		return lexText(r, 1+r.N(6), true), nil
	}
	n := d.gen(r, depth)
	var toks []string
	n.toks(r, 0, &toks)
	if r.P(20) { // damage
		for i := 1 + r.N(2); i > 0; i-- {
			at := r.N(len(toks))
			switch r.N(4) {
			case 0:
				toks = append(toks[:at:at], toks[at+1:]...)
				if len(toks) == 0 {
					toks = []string{"-"}
				}
			case 1:
				toks = append(toks[:at:at], append([]string{r.Pick("(", ")", ",", "+", "*", "1", "abs", "foo", "max", ".", "'c'", "5i", "1.5", "\"s\"", "=", ";", "e")}, toks[at:]...)...)
			case 2:
				toks[at] = r.Pick("(", ")", ",", "-", "/", "%", "2", "pi", "zz", "0x", "08", "1e", "i", "$")
			default:
				toks = toks[:at+1]
			}
		}
		return joinCalc(r, toks), nil
	}
	return joinCalc(r, toks), n
}

// want is the outcome of a line: a value or the reason for an error.
func (d *calcDef) want(text string, ast *cx) (v interface{}, why string) {
	n := d.parse(text)
	if n == nil {
		why = "syntax"
	} else {
		v, why = d.value(n)
	}
	if why != "" && (strings.Contains(text, "jn") || strings.Contains(text, "yn")) {
		why = "skip" // parts of an erroneous line are evaluated before the error is found
		return
	}
	if ast != nil {
		v2, why2 := d.value(ast)
		if why != why2 || why == "" && !d.same(v, v2) {
			panic(fmt.Sprintf("the references disagree about %q: %v %q, %v %q", text, v, why, v2, why2))
		}
	}
	return
}

func (d *calcDef) checkLine(c *Case, text string, ast *cx) {
	want, why := d.want(text, ast)
	if why == "skip" {
		return
	}
	got, err := d.eval(c, text)
	if why != "" {
		if err == nil {
			c.Failf("%s gives %v, want an error (%s)", d.name, got, why)
		}
		if strings.HasPrefix(why, "panic") {
			why = "in a function"
		}
		c.Ev("errors: "+why, 1)
		_ = err.Error()
		return
	}
	if err != nil {
		c.Failf("%s: error %v, want %v", d.name, err, want)
	}
	if !d.same(got, want) {
		c.Failf("%s gives %v, want %v", d.name, got, want)
	}
	c.Ev("values", 1)
}

func f1(f func(float64) float64) calcFn {
	return calcFn{1, 1, func(a []interface{}) interface{} { return f(a[0].(float64)) }}
}
func f2(f func(a, b float64) float64) calcFn {
	return calcFn{2, 2, func(a []interface{}) interface{} { return f(a[0].(float64), a[1].(float64)) }}
}
func z1(f func(complex128) complex128) calcFn {
	return calcFn{1, 1, func(a []interface{}) interface{} { return f(a[0].(complex128)) }}
}

// small refuses orders of Bessel functions that take ages.
func small(a float64) int {
	if !(a > -2000 && a < 2000) {
		panic(calcErr{"skip"})
	}
	return int(a)
}

func defNumber() *calcDef {
	fl := func(f func(a, b float64) float64) func(a, b interface{}) interface{} {
		return func(a, b interface{}) interface{} { return f(a.(float64), b.(float64)) }
	}
	ext := func(less func(a, b float64) bool) calcFn {
		return calcFn{0, -1, func(a []interface{}) interface{} {
			if len(a) == 0 {
				return 0.0
			}
			m := a[0].(float64)
			for _, x := range a[1:] {
				if less(x.(float64), m) {
					m = x.(float64)
				}
			}
			return m
		}}
	}
	d := &calcDef{name: "number",
		lit: func(kind uint, lit string) (interface{}, bool) {
			if kind == tpl.IMAG {
				panic(calcErr{"syntax"})
			}
			f, ok := litFloat(lit)
			return f, ok
		},
		neg: func(a interface{}) interface{} { return -a.(float64) },
		bin: map[string]func(a, b interface{}) interface{}{
			"+": fl(func(a, b float64) float64 { return a + b }), "-": fl(func(a, b float64) float64 { return a - b }),
			"*": fl(func(a, b float64) float64 { return a * b }), "/": fl(func(a, b float64) float64 { return a / b }),
			"%": fl(math.Mod)},
		consts: map[string]interface{}{"e": math.E, "pi": math.Pi, "phi": math.Phi, "Inf": math.Inf(1), "NaN": math.NaN()},
		fns: map[string]calcFn{
			"abs": f1(math.Abs), "acos": f1(math.Acos), "acosh": f1(math.Acosh), "asin": f1(math.Asin), "asinh": f1(math.Asinh),
			"atan": f1(math.Atan), "atan2": f2(math.Atan2), "atanh": f1(math.Atanh), "cbrt": f1(math.Cbrt), "ceil": f1(math.Ceil),
			"copysign": f2(math.Copysign), "cos": f1(math.Cos), "cosh": f1(math.Cosh), "dim": f2(math.Dim), "erf": f1(math.Erf),
			"erfc": f1(math.Erfc), "exp": f1(math.Exp), "exp2": f1(math.Exp2), "expm1": f1(math.Expm1), "floor": f1(math.Floor),
			"gamma": f1(math.Gamma), "hypot": f2(math.Hypot), "j0": f1(math.J0), "j1": f1(math.J1), "ln": f1(math.Log),
			"log": f1(math.Log), "log10": f1(math.Log10), "log1p": f1(math.Log1p), "log2": f1(math.Log2), "logb": f1(math.Logb),
			"mod": f2(math.Mod), "nextafter": f2(math.Nextafter), "pow": f2(math.Pow), "remainder": f2(math.Remainder),
			"sin": f1(math.Sin), "sinh": f1(math.Sinh), "sqrt": f1(math.Sqrt), "tan": f1(math.Tan), "tanh": f1(math.Tanh),
			"trunc": f1(math.Trunc), "y0": f1(math.Y0), "y1": f1(math.Y1),
			"jn":    f2(func(a, b float64) float64 { return math.Jn(small(a), b) }),
			"yn":    f2(func(a, b float64) float64 { return math.Yn(small(a), b) }),
			"ldexp": f2(func(a, b float64) float64 { return math.Ldexp(a, int(b)) }),
			"pow10": f1(func(a float64) float64 { return math.Pow10(int(a)) }),
			"inf": f1(func(a float64) float64 {
				if a < 0 {
					return math.Inf(-1)
				}
				return math.Inf(1)
			}),
			"max": ext(func(a, b float64) bool { return a > b }), "min": ext(func(a, b float64) bool { return a < b }),
			"NaN": {0, 0, func(a []interface{}) interface{} { return math.NaN() }},
		},
		same: func(a, b interface{}) bool { return sameFloat(a.(float64), b.(float64)) },
		genLit: func(r *Rand) string {
			return r.Pick("0", "1", "2", "3", "5", "7", "10", "100", "1.5", "2.25", ".5", "0.", "1e3", "1e-3", "2.5E+2", "017", "0x1F", "3.999", "1e308", "9007199254740993", "0.1", "0.2", strconv.Itoa(r.N(1000)), fmt.Sprintf("%d.%d", r.N(50), r.N(100)))
		},
		eval: func(c *Case, text string) (interface{}, error) {
			if err := evalCatch(c, here().engN, text); err != nil {
				return nil, err
			}
			v, ok := here().calcN.Ret()
			if _, more := here().calcN.Ret(); !ok || more {
				c.Failf("results: %v, more: %v", ok, more)
			}
			return v, nil
		},
	}
	d.names = fnNames(d)
	return d
}

func fnNames(d *calcDef) []string {
	m := map[string]int{}
	for k := range d.fns {
		m[k] = 1
	}
	return sortedKeys(m)
}

func defCmplx() *calcDef {
	zz := func(f func(a, b complex128) complex128) func(a, b interface{}) interface{} {
		return func(a, b interface{}) interface{} { return f(a.(complex128), b.(complex128)) }
	}
	two := func(f func(a, b float64) complex128) calcFn {
		return calcFn{2, 2, func(a []interface{}) interface{} {
			x, y := a[0].(complex128), a[1].(complex128)
			if imag(x) != 0 || imag(y) != 0 {
				panic(calcErr{"real arguments"})
			}
			return f(real(x), real(y))
		}}
	}
	d := &calcDef{name: "cmplx",
		lit: func(kind uint, lit string) (interface{}, bool) {
			if kind == tpl.IMAG {
				lit = lit[:len(lit)-1]
				if !strings.ContainsAny(lit, ".eE") {
					lit = strings.TrimLeft(lit[:len(lit)-1], "0") + lit[len(lit)-1:]
				}
				f, ok := litFloat(lit)
				return complex(0, f), ok
			}
			f, ok := litFloat(lit)
			return complex(f, 0), ok
		},
		neg: func(a interface{}) interface{} { return -a.(complex128) },
		bin: map[string]func(a, b interface{}) interface{}{
			"+": zz(func(a, b complex128) complex128 { return a + b }), "-": zz(func(a, b complex128) complex128 { return a - b }),
			"*": zz(func(a, b complex128) complex128 { return a * b }), "/": zz(func(a, b complex128) complex128 { return a / b })},
		consts: map[string]interface{}{},
		fns: map[string]calcFn{
			"abs":  z1(func(a complex128) complex128 { return complex(cmplx.Abs(a), 0) }),
			"acos": z1(cmplx.Acos), "acosh": z1(cmplx.Acosh), "asin": z1(cmplx.Asin), "asinh": z1(cmplx.Asinh),
			"atan": z1(cmplx.Atan), "atanh": z1(cmplx.Atanh), "conj": z1(cmplx.Conj), "cos": z1(cmplx.Cos), "cosh": z1(cmplx.Cosh),
			"cot": z1(cmplx.Cot), "exp": z1(cmplx.Exp), "log": z1(cmplx.Log), "log10": z1(cmplx.Log10),
			"phase": z1(func(a complex128) complex128 { return complex(cmplx.Phase(a), 0) }),
			"pow":   {2, 2, func(a []interface{}) interface{} { return cmplx.Pow(a[0].(complex128), a[1].(complex128)) }},
			"sin":   z1(cmplx.Sin), "sinh": z1(cmplx.Sinh), "sqrt": z1(cmplx.Sqrt), "tan": z1(cmplx.Tan), "tanh": z1(cmplx.Tanh),
			"real":    z1(func(a complex128) complex128 { return complex(real(a), 0) }),
			"imag":    z1(func(a complex128) complex128 { return complex(imag(a), 0) }),
			"rect":    two(cmplx.Rect),
			"complex": two(func(a, b float64) complex128 { return complex(a, b) }),
			"inf":     {0, 0, func(a []interface{}) interface{} { return cmplx.Inf() }},
			"NaN":     {0, 0, func(a []interface{}) interface{} { return cmplx.NaN() }},
		},
		same: func(a, b interface{}) bool { return sameComplex(a.(complex128), b.(complex128)) },
		genLit: func(r *Rand) string {
			return r.Pick("0", "1", "2", "3", "1.5", ".5", "1e3", "0x10", "010", "1i", "2i", "3.5i", ".5i", "0i", "1e2i", "08i", "010i", "0.25", strconv.Itoa(r.N(1000)), fmt.Sprintf("%d.%di", r.N(50), r.N(100)))
		},
		eval: func(c *Case, text string) (interface{}, error) {
			if err := evalCatch(c, here().engC, text); err != nil {
				return nil, err
			}
			v, ok := here().calcC.Ret()
			if _, more := here().calcC.Ret(); !ok || more {
				c.Failf("results: %v, more: %v", ok, more)
			}
			return v, nil
		},
	}
	d.names = fnNames(d)
	return d
}

// frac is a fraction in lowest terms with a positive denominator.
type frac struct{ n, d *big.Int }

func mkFrac(n, d *big.Int) frac {
	if d.Sign() == 0 {
		panic(calcErr{"division by zero"})
	}
	g := new(big.Int).GCD(nil, nil, new(big.Int).Abs(n), new(big.Int).Abs(d))
	if g.Sign() == 0 {
		g = big.NewInt(1)
	}
	if d.Sign() < 0 {
		g.Neg(g)
	}
	return frac{new(big.Int).Quo(n, g), new(big.Int).Quo(d, g)}
}

func defRat() *calcDef {
	mul := func(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
	qq := func(f func(a, b frac) frac) func(a, b interface{}) interface{} {
		return func(a, b interface{}) interface{} { return f(a.(frac), b.(frac)) }
	}
	q1 := func(f func(a frac) frac) calcFn {
		return calcFn{1, 1, func(a []interface{}) interface{} { return f(a[0].(frac)) }}
	}
	one := big.NewInt(1)
	cmp := func(a, b frac) int { return mul(a.n, b.d).Cmp(mul(b.n, a.d)) }
	ext := func(sign int) calcFn {
		return calcFn{0, -1, func(a []interface{}) interface{} {
			if len(a) == 0 {
				return frac{new(big.Int), one}
			}
			m := a[0].(frac)
			for _, x := range a[1:] {
				if cmp(x.(frac), m) == sign {
					m = x.(frac)
				}
			}
			return m
		}}
	}
	d := &calcDef{name: "rat",
		lit: func(kind uint, lit string) (interface{}, bool) {
			if kind != tpl.INT {
				panic(calcErr{"syntax"})
			}
			v, ok, _ := litValue(lit)
			if !ok {
				return nil, false
			}
			return frac{v.Num(), v.Denom()}, true
		},
		neg: func(a interface{}) interface{} { return frac{new(big.Int).Neg(a.(frac).n), a.(frac).d} },
		bin: map[string]func(a, b interface{}) interface{}{
			"+": qq(func(a, b frac) frac { return mkFrac(new(big.Int).Add(mul(a.n, b.d), mul(b.n, a.d)), mul(a.d, b.d)) }),
			"-": qq(func(a, b frac) frac { return mkFrac(new(big.Int).Sub(mul(a.n, b.d), mul(b.n, a.d)), mul(a.d, b.d)) }),
			"*": qq(func(a, b frac) frac { return mkFrac(mul(a.n, b.n), mul(a.d, b.d)) }),
			"/": qq(func(a, b frac) frac { return mkFrac(mul(a.n, b.d), mul(a.d, b.n)) })},
		consts: map[string]interface{}{},
		fns: map[string]calcFn{
			"abs":   q1(func(a frac) frac { return frac{new(big.Int).Abs(a.n), a.d} }),
			"inv":   q1(func(a frac) frac { return mkFrac(a.d, a.n) }),
			"num":   q1(func(a frac) frac { return frac{a.n, one} }),
			"denom": q1(func(a frac) frac { return frac{a.d, one} }),
			"max":   ext(1), "min": ext(-1),
		},
		same: func(a, b interface{}) bool {
			x, ok := a.(*big.Rat)
			y := b.(frac)
			if !ok {
				f := a.(frac)
				return f.n.Cmp(y.n) == 0 && f.d.Cmp(y.d) == 0
			}
			return x.Num().Cmp(y.n) == 0 && x.Denom().Cmp(y.d) == 0
		},
		genLit: func(r *Rand) string {
			if r.P(12) {
				return "1" + r.digits(r.N(80), "0123456789")
			}
			return r.Pick("0", "1", "2", "3", "4", "6", "7", "10", "12", "100", "9223372036854775807", "9223372036854775808", strconv.Itoa(r.N(10000)), strconv.Itoa(r.N(10)))
		},
		eval: func(c *Case, text string) (interface{}, error) {
			if err := evalCatch(c, here().engR, text); err != nil {
				return nil, err
			}
			v, ok := here().calcR.Ret()
			if _, more := here().calcR.Ret(); !ok || more {
				c.Failf("results: %v, more: %v", ok, more)
			}
			return v, nil
		},
	}
	d.names = fnNames(d)
	return d
}

var calcDefs = map[string]*calcDef{"number": defNumber(), "cmplx": defCmplx(), "rat": defRat()}

func checkCalc(name string) func(c *Case) {
	d := calcDefs[name]
	return func(c *Case) {
		calcEngines(c)
		r := c.R
		text, ast := d.line(r, 1+r.N(6))
		c.Input("%s", text)
		var keep []*big.Rat
		var was []string
		if name == "rat" && r.P(50) { // results of earlier evaluations and their values
			for i := 1 + r.N(2); i > 0; i-- {
				t0, _ := d.line(r, 1+r.N(3))
				if v, err := d.eval(c, t0); err == nil {
					keep = append(keep, v.(*big.Rat))
					was = append(was, v.(*big.Rat).String())
				}
			}
		}
		d.checkLine(c, text, ast)
		for i, v := range keep {
			if v.String() != was[i] {
				c.Failf("an earlier result changed from %s to %s", was[i], v)
			}
			c.Ev("earlier results that stay", 1)
		}
		if ast != nil {
			for op := range map[string]int{"call": 1} {
				_ = op
			}
			countOps(c, ast)
		}
		if len(text) > 3 {
			c.Seen(text)
		}
	}
}

func countOps(c *Case, n *cx) {
	switch n.op {
	case "lit", "name":
	case "call":
		c.Ev("fn "+n.s, 1)
	default:
		c.Ev("op "+n.op, 1)
	}
	for _, k := range n.k {
		countOps(c, k)
	}
}

// checkFunctions calls every function of the table with every kind of argument.
func checkFunctions(name string) func(c *Case) {
	d := calcDefs[name]
	return func(c *Case) {
		calcEngines(c)
		// every entry of the table is known to the reference and vice versa
		var table map[string]interface{}
		switch name {
		case "number":
			table = ncalc.Fntable
		case "cmplx":
			table = ccalc.Fntable
		case "rat":
			table = rcalc.Fntable
		}
		for k := range table {
			if _, ok := d.fns[k]; !ok && k[0] != '$' {
				c.Ev("functions the reference doesn't know", 1)
			}
		}
		fn := d.names[c.Idx%len(d.names)]
		args := []string{"0", "-0", "1", "-1", "2", "3.5", "-2.5", ".5", "100", "-100", "1e3", "1e300", "0.1", "1/3", "5/2"}
		switch name {
		case "number":
			args = append(args, "Inf", "-Inf", "NaN", "pi", "e", "phi", "1e-310", "1e308*10", "-(0)", "0/0")
		case "cmplx":
			args = append(args, "1i", "-1i", "2+3i", "-2-3i", "0i", "inf()", "NaN()", "1e300i", "1+1e-300i", "complex(0,-1)")
		case "rat":
			args = []string{"0", "-0", "1", "-1", "2", "1/3", "-7/3", "6/4", "100000000000000000000/3", "1/100000000000000000000", "-5"}
		}
		r := c.R
		i := c.Idx / len(d.names)
		f := d.fns[fn]
		var a []string
		switch {
		case f.max == 0:
		case f.max == 1:
			a = []string{args[i%len(args)]}
		case f.max == 2:
			a = []string{args[i%len(args)], args[i/len(args)%len(args)]}
		default:
			for j := i % 5; j > 0; j-- {
				a = append(a, args[r.N(len(args))])
			}
		}
		if i%40 == 39 { // a wrong count
			if len(a) > 0 && i%80 == 39 {
				a = a[1:]
			} else {
				a = append(a, "1")
			}
		}
		text := fn + "(" + strings.Join(a, ", ") + ")"
		c.Input("%s", text)
		d.checkLine(c, text, nil)
		c.Ev("fn "+fn, 1)
		c.Seen(text)
	}
}

// ---------------------------------------------------------------- sessions

// hostileLine makes a line a session must survive.
func hostileLine(r *Rand) string {
	n := []int{10, 100, 3000}[r.N(3)]
	var s string
	switch r.N(16) {
	case 0:
		s = strings.Repeat("(", n)
	case 1:
		s = strings.Repeat("-", n)
	case 2:
		s = strings.Repeat("-", n) + "1"
	case 3:
		s = strings.Repeat("(", n) + "1" + strings.Repeat(")", n)
	case 4:
		s = strings.Repeat("abs(", n)
	case 5:
		s = strings.Repeat("max(1,", n) + "1" + strings.Repeat(")", n)
	case 6:
		s = "1" + strings.Repeat("+1", n)
	case 7:
		s = noise(r, r.N(60))
	case 8:
		s = lexText(r, r.N(20), true)
	case 9:
		s = r.Pick("//line foo:10", "// c", "/* c", "# x", "/*", "\"", "'", "`", "$", "\x00", "\xff\xfe", "\xef\xbb\xbf1", "1 /* c */", "1 // c", ";", ",", ")", "1 2")
	case 10:
		s = r.Pick("1/0", "0/0", "inv(0)", "max()", "min()", "pow(0, NaN)", "pow(0, NaN())", "rect(1i, 2)", "complex(1,1i)", "jn(3)", "abs()", "abs(1,2)", "NaN()", "$push(1)", "call(1)", "nextafter(1)", "1e400", "1e400i", "0x", "08", "1e", "9e99999")
	case 11:
		s = strings.Repeat("9", n)
	case 12:
		s = "1" + strings.Repeat("*2", n)
	case 13:
		s = strings.Repeat("e(", n)
	case 14:
		s = "max(" + strings.Repeat("1,", n) + "2)"
	default:
		s = strings.Repeat("1*(2-", n) + "3" + strings.Repeat(")", n)
	}
	return s
}

func (d *calcDef) sessionLine(r *Rand) (string, *cx) {
	if r.P(35) {
		return hostileLine(r), nil
	}
	return d.line(r, 1+r.N(4))
}

func checkSession(c *Case) {
	calcEngines(c)
	r := c.R
	d := calcDefs[[]string{"number", "cmplx", "rat"}[c.Idx%3]]
	var log []string
	for i := 4 + r.N(8); i > 0; i-- {
		text, ast := d.sessionLine(r)
		if len(text) < 200 {
			log = append(log, q(text))
		} else {
			log = append(log, q(text[:50])+"...")
		}
		c.Input("%s: %s", d.name, strings.Join(log, "; "))
		d.checkLine(c, text, ast)
		c.Ev("lines", 1)
	}
	c.Seen(strings.Join(log, ";"))
}

// example runs an example program on a session; sentinels separate the answers.
func checkExample(c *Case) { exampleSession(c, 12+c.R.N(12), false) }

func exampleSession(c *Case, n int, long bool) {
	r := c.R
	name := []string{"number", "cmplx", "rat"}[c.Idx%3]
	d := calcDefs[name]
	bin := filepath.Join(os.Getenv("VERIF_SETUP"), name)
	if os.Getenv("VERIF_SETUP") == "" {
		fail2("the examples are not built")
	}
	cmd := exec.Command(bin)
	stdin, err := cmd.StdinPipe()
	if err != nil {
		fail2("%v", err)
	}
	rd, wr, err := os.Pipe()
	if err != nil {
		fail2("%v", err)
	}
	cmd.Stdout, cmd.Stderr = wr, wr
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	if err := cmd.Start(); err != nil {
		fail2("%v", err)
	}
	wr.Close()
	defer func() {
		stdin.Close()
		cmd.Process.Kill()
		cmd.Wait()
		rd.Close()
	}()
	type entry struct {
		text string
		ast  *cx
	}
	var lines []entry
	var log []string
	for i := n; i > 0; i-- {
		text, ast := d.sessionLine(r)
		if long && !r.P(3) {
			text, ast = d.line(r, 1+r.N(3))
		}
		if _, why := d.want(text, ast); why == "skip" {
			continue
		}
		if r.P(4) && (!long || r.P(2)) {
			n := 30000 + r.N(2000)
			text, ast = strings.Repeat(r.Pick("1+", "(", "-", " "), n)[:n-1]+"1", nil
		}
		text = strings.Map(func(x rune) rune {
			if x == '\n' {
				return ' '
			}
			return x
		}, text)
		if strings.ContainsAny(text, "\n\r") {
			ast = nil
		}
		lines = append(lines, entry{text, ast})
		if len(text) < 150 {
			log = append(log, q(text))
		} else {
			log = append(log, fmt.Sprintf("%q... (%d bytes)", text[:40], len(text)))
		}
	}
	c.Input("%s: %s", name, strings.Join(log, "; "))
	go func() {
		for i, l := range lines {
			nl := "\n"
			if (i+len(l.text))%5 == 0 {
				nl = "\r\n"
			}
			if _, err := fmt.Fprintf(stdin, "%s%s%d\n", l.text, nl, 700100+i); err != nil {
				return
			}
		}
		stdin.Close()
	}()
	type answer struct{ err error }
	br := bufio.NewReaderSize(rd, 1<<20)
	var all strings.Builder
	done := make(chan error, 1)
	go func() {
		_, err := io.Copy(&all, br)
		done <- err
	}()
	select {
	case <-done:
	case <-time.After(4 * time.Minute):
		c.Failf("the program does not end after its input ended")
	}
	err = cmd.Wait()
	rest := all.String()
	for i, l := range lines {
		s := fmt.Sprintf("> %d\n\n", 700100+i)
		at := 0
		if !strings.HasPrefix(rest, s) {
			if at = strings.Index(rest, "\n"+s) + 1; at == 0 {
				c.Failf("line %s: no answer to the line behind it; the program ended with %v, its output goes on with %.300q", log[i], err, rest)
			}
		}
		out := rest[:at]
		rest = rest[at+len(s):]
		text := strings.Trim(l.text, " \t\r\n")
		if text == "" {
			if out != "" {
				c.Failf("a blank line gives %q", out)
			}
			continue
		}
		if len(l.text) >= 20000 {
			c.Ev("very long lines", 1)
		}
		v, why := d.want(text, nil)
		if why != "" {
			if out == "" || strings.HasPrefix(out, "> ") {
				c.Failf("line %s: got %q, want an error (%s)", log[i], out, why)
			}
			c.Ev("error answers", 1)
			continue
		}
		want := ""
		switch x := v.(type) {
		case float64:
			want = fmt.Sprint(x)
		case complex128:
			want = fmt.Sprint(x)
			if imag(x) == 0 {
				want = fmt.Sprint(real(x))
			}
		case frac:
			want = x.n.String() + "/" + x.d.String()
			if x.d.Cmp(big.NewInt(1)) == 0 {
				want = x.n.String()
			}
		}
		if out != "> "+want+"\n\n" {
			c.Failf("line %s: got %.200q, want %.200q", log[i], out, want)
		}
		c.Ev("value answers", 1)
	}
	if rest != "" {
		c.Failf("output behind the last answer: %.200q", rest)
	}
	if err != nil {
		c.Failf("the program ends with %v", err)
	}
	c.Seen(strings.Join(log, ";"))
}

// checkLongLine: a line longer than 64 KB.
func checkLongLine(c *Case) {
	name := []string{"number", "cmplx", "rat"}[c.Idx%3]
	c.Input("%s: a line of 70001 bytes (1+1+...+1), then the line 7", name)
	c.Seen(name)
	c.Ev("lines of 70001 bytes", 1)
	cmd := exec.Command(filepath.Join(os.Getenv("VERIF_SETUP"), name))
	cmd.Stdin = strings.NewReader(strings.Repeat("1+", 35000) + "1\n7\n")
	out, err := cmd.CombinedOutput()
	s := string(out)
	if err != nil {
		c.Failf("the program ends with %v", err)
	}
	if !strings.HasSuffix(s, "> 7\n\n") {
		c.Failf("no answer to the line behind it; the output is %.200q", s)
	}
	if s == "> 7\n\n" {
		c.Failf("no answer to the long line")
	}
}

// buildCmds builds commands of the repository into dir.
func buildCmds(dir string, cmds map[string]string) (string, error) {
	out := filepath.Join(dir, "bin")
	if err := os.MkdirAll(out, 0755); err != nil {
		return "", err
	}
	for name, pkg := range cmds {
		cmd := exec.Command("go", "build", "-o", filepath.Join(out, name), pkg)
		cmd.Dir = "/repo"
		if b, err := cmd.CombinedOutput(); err != nil {
			return "", fmt.Errorf("go build %s: %v\n%s", pkg, err, b)
		}
	}
	return out, nil
}

func fnEvents(name string) (l []string) {
	for _, n := range calcDefs[name].names {
		l = append(l, "fn "+n)
	}
	return
}

func init() {
	_ = reflect.TypeOf
	register(&Prop{ID: "C20",
		Rule:    "numeric literals of every form (random digits, limits of int64 and float64, odd halves of the last place, incomplete exponents) are converted by ParseInt, ParseFloat, GetValue, the three calculators and qlang, and compared with the exact value in big arithmetic, rounded by an independent routine; a case counts when the literal is a single INT or FLOAT token",
		MustSee: []string{"integers", "floats", "integers that do not fit or are incomplete", "floats that do not fit or are incomplete", "imaginary literals"},
		Assume:  []string{"ParseFloat and what uses it may refuse hexadecimal and octal integers beyond int64"},
		Parts: []*Part{{Name: "literals", Quick: 200000, Thorough: 3000000, Run: checkLiteral},
			bigPart("big", bigLitDims, 3, 60, func(c *Case, b bigCase) { checkLit(c, bigLit(c.R, b)) })}})
	register(&Prop{ID: "C21",
		Rule:    "random expression trees are printed with the parentheses they need and some more, some are damaged; the value is computed from the tree and by a reference parser; every function is called with every pair of special arguments; a case counts when the line has more than 3 characters",
		MustSee: append([]string{"values", "errors: syntax", "errors: name", "errors: unknown function", "errors: argument count", "errors: literal", "op neg", "op pos", "op +", "op -", "op *", "op /", "op %"}, fnEvents("number")...),
		Parts: []*Part{
			{Name: "expressions", Quick: 120000, Thorough: 2000000, Run: checkCalc("number")},
			{Name: "functions", Quick: 30000, Thorough: 60000, Run: checkFunctions("number")},
			bigPart("big", bigCalcDims, 1, 10, bigCalc("number")),
		}})
	register(&Prop{ID: "C22",
		Rule:    "as C21 for the complex calculator",
		MustSee: append([]string{"values", "errors: syntax", "errors: name", "errors: unknown function", "errors: argument count", "errors: real arguments", "op neg", "op pos", "op +", "op -", "op *", "op /"}, fnEvents("cmplx")...),
		Parts: []*Part{
			{Name: "expressions", Quick: 120000, Thorough: 2000000, Run: checkCalc("cmplx")},
			{Name: "functions", Quick: 20000, Thorough: 40000, Run: checkFunctions("cmplx")},
			bigPart("big", bigCalcDims, 1, 10, bigCalc("cmplx")),
		}})
	register(&Prop{ID: "C23",
		Rule:    "as C21 for the rational calculator, with a reference that computes with pairs of big integers; results of earlier evaluations are kept and looked at again",
		MustSee: append([]string{"values", "errors: syntax", "errors: name", "errors: unknown function", "errors: argument count", "errors: division by zero", "earlier results that stay", "op neg", "op pos", "op +", "op -", "op *", "op /"}, fnEvents("rat")...),
		Parts: []*Part{
			{Name: "expressions", Quick: 120000, Thorough: 1500000, Run: checkCalc("rat")},
			{Name: "functions", Quick: 5000, Thorough: 10000, Run: checkFunctions("rat")},
			bigPart("big", bigCalcDims, 1, 10, bigCalc("rat")),
		}})
	register(&Prop{ID: "C24",
		Rule:    "sessions of valid, damaged and hostile lines on one engine, and on the three example programs, where a known line behind every line separates the answers; each answer is compared with the reference's value or error for that line alone; a case is a session",
		MustSee: []string{"lines", "values", "errors: syntax", "value answers", "error answers", "very long lines"},
		Setup: func(dir string) (string, error) {
			return buildCmds(dir, map[string]string{"number": "./tpl/examples/calculator", "cmplx": "./tpl/examples/cmplxcalc", "rat": "./tpl/examples/ratcalc"})
		},
		Parts: []*Part{
			{Name: "library", Quick: 3000, Thorough: 150000, Run: checkSession},
			{Name: "examples", Quick: 120, Thorough: 4000, Run: checkExample},
			bigPart("many lines", []bigDim{{"lines", 20001}}, 1, 10, bigSession),
			bigPart("many lines of the examples", []bigDim{{"lines", 10001}}, 1, 6, func(c *Case, b bigCase) { exampleSession(c, b.n, true) }),
			{Name: "longline", Quick: 3, Thorough: 3, Exhaustive: true, Run: checkLongLine},
		}})
}
