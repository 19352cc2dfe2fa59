// Random programs of qlang. Most statements are well typed; the weights decide what the programs
// are made of and how often something is wrong.
package main

import (
	"fmt"
	"strconv"
)

const (
	kI = iota
	kF
	kS
	kB
	kY
	kLI
	kLF
	kLS
	kLV
	kMI
	kMV
	kFn
	kObj
	kNil
	nKinds
)

type gk struct {
	k   int
	sig *gsig
	cls *gcls
}

type gsig struct {
	params   []gk
	variadic bool
	ret      gk
}

type gcls struct {
	name    string
	fields  []gvar
	methods []gvar // kind kFn
	init    *gsig
}

type gvar struct {
	name string
	t    gk
	ro   bool
}

type gscope struct {
	up     *gscope
	vars   []gvar
	refd   map[string]bool
	sig    *gsig // of the function, nil at top level
	defer_ bool
}

type gweights struct {
	tr      int // percent of expressions traced
	err     int // per mille of expressions that are wrong
	fns     int
	defers  int
	panics  int
	classes int
	colls   int
	ctrl    int
	ops     int
	depth   int
	stmts   int
	rets    int
	nest    int
	ends    bool // the program may end the process (return at top level)
}

type qgen struct {
	r       *Rand
	w       gweights
	sc      *gscope
	classes []*gcls
	n       int
	trid    int
	budget  int
	level   int // nesting of functions and blocks
	loops   int
	onCall  func(x *xCall) qx // may change a call
}

func (g *qgen) call(x *xCall) qx {
	if g.onCall != nil {
		return g.onCall(x)
	}
	return x
}

func newQgen(r *Rand, w gweights) *qgen {
	if w.depth == 0 {
		w.depth = 3
	}
	if w.stmts == 0 {
		w.stmts = 7
	}
	return &qgen{r: r, w: w, sc: &gscope{refd: map[string]bool{}}, budget: 250}
}

func (g *qgen) fresh(p string) string {
	g.n++
	switch g.r.N(14) {
	case 0:
		if p == "v" {
			if n := g.r.Pick("a", "b", "x", "y", "i", "n"); !g.visible(n) {
				return n
			}
		}
	case 1:
		return p + strconv.Itoa(g.n) + g.r.Pick("é", "_", "X", "变", "if", "9")
	}
	return p + strconv.Itoa(g.n)
}

func (g *qgen) visible(n string) bool {
	for s := g.sc; s != nil; s = s.up {
		for _, v := range s.vars {
			if v.name == n {
				return true
			}
		}
	}
	return false
}

func (g *qgen) declare(n string, t gk) {
	for i, v := range g.sc.vars {
		if v.name == n {
			g.sc.vars[i].t = t
			return
		}
	}
	g.sc.vars = append(g.sc.vars, gvar{name: n, t: t})
}

func sameKind(a, b gk) bool {
	if a.k != b.k {
		return false
	}
	if a.k == kFn {
		if len(a.sig.params) != len(b.sig.params) || a.sig.variadic != b.sig.variadic || !sameKind(a.sig.ret, b.sig.ret) {
			return false
		}
		for i := range a.sig.params {
			if !sameKind(a.sig.params[i], b.sig.params[i]) {
				return false
			}
		}
	}
	return a.cls == b.cls
}

// pick returns a visible variable that ok accepts.
func (g *qgen) pick(ok func(v gvar) bool) (gvar, bool) {
	var c []gvar
	seen := map[string]bool{}
	for s := g.sc; s != nil; s = s.up {
		for _, v := range s.vars {
			if seen[v.name] || s != g.sc && private(v.name) {
				continue
			}
			seen[v.name] = true
			if ok(v) {
				c = append(c, v)
				if s == g.sc { // prefer the function's own
					c = append(c, v)
				}
			}
		}
	}
	if len(c) == 0 {
		return gvar{}, false
	}
	return c[g.r.N(len(c))], true
}

func (g *qgen) own(n string) bool {
	for _, v := range g.sc.vars {
		if v.name == n {
			return true
		}
	}
	return false
}

func (g *qgen) ref(n string) qx {
	g.sc.refd[n] = true
	return &xVar{n}
}

func xi(n int) qx    { return &xLit{strconv.Itoa(n), n} }
func xs(s string) qx { return &xLit{strconv.Quote(s), s} }

func callOf(name string, args ...qx) qx { return &xCall{f: &xVar{name}, args: args} }

// tr makes a traced expression.
func (g *qgen) tr(args ...qx) qx {
	g.trid++
	return callOf("tr", append([]qx{xi(g.trid)}, args...)...)
}

func (g *qgen) intLit() qx {
	r := g.r
	switch r.N(12) {
	case 0:
		n := r.N(1000)
		return &xLit{fmt.Sprintf("0x%x", n), n}
	case 1:
		n := r.N(512)
		return &xLit{fmt.Sprintf("0%o", n), n}
	case 2:
		if r.P(30) {
			return &xLit{"9223372036854775807", 9223372036854775807}
		}
		return xi(r.N(100000))
	}
	return xi(r.N(10))
}

func (g *qgen) leaf(t gk) qx {
	r := g.r
	if r.P(65) {
		if v, ok := g.pick(func(v gvar) bool { return sameKind(v.t, t) }); ok {
			return g.ref(v.name)
		}
	}
	if r.P(20) {
		// a field of an object
		var f string
		if v, ok := g.pick(func(v gvar) bool {
			if v.t.k != kObj {
				return false
			}
			for _, x := range v.t.cls.fields {
				if sameKind(x.t, t) {
					return true
				}
			}
			return false
		}); ok {
			for _, x := range v.t.cls.fields {
				if sameKind(x.t, t) && (f == "" || r.P(50)) {
					f = x.name
				}
			}
			return &xMem{g.ref(v.name), f}
		}
	}
	switch t.k {
	case kI:
		return g.intLit()
	case kF:
		n := r.N(100)
		switch r.N(4) {
		case 0:
			return &xLit{fmt.Sprintf("%d.5", n), float64(n) + 0.5}
		case 1:
			return &xLit{fmt.Sprintf("%d.", n), float64(n)}
		case 2:
			return &xLit{fmt.Sprintf("%de-2", n), mustFloat(fmt.Sprintf("%de-2", n))}
		}
		return &xLit{fmt.Sprintf("%d.25", n), float64(n) + 0.25}
	case kS:
		if r.P(25) {
			lit, val := hostileString(r)
			return &xLit{lit, val}
		}
		return xs(r.Pick("", "a", "b", "abc", "xyz", "hello", "é", "日本"))
	case kB:
		if r.P(50) {
			return &xLit{"true", true}
		}
		return &xLit{"false", false}
	case kY:
		k := r.N(6)
		return &xLit{[]string{"'a'", "'z'", `'\n'`, `'\''`, `'\x41'`, "'0'"}[k], []byte("az\n'A0")[k]}
	case kLI, kLF, kLS, kLV, kMI, kMV:
		return g.literal(t, 1)
	case kFn:
		return g.fnLit(t.sig, 1)
	case kObj:
		return g.newObj(t.cls, 1)
	}
	return &xLit{"nil", nil}
}

func mustFloat(s string) float64 { v, _ := strconv.ParseFloat(s, 64); return v }

func (g *qgen) newObj(c *gcls, d int) qx {
	x := &xNew{cls: c.name, paren: g.r.P(20)}
	g.sc.refd[c.name] = true
	if c.init != nil {
		x.hasArgs = true
		x.args, _ = g.args(c.init, d)
	} else {
		x.hasArgs = g.r.P(30)
	}
	return x
}

// args makes the arguments of a call; spread tells that the last is to be spread.
func (g *qgen) args(s *gsig, d int) (a []qx, spread bool) {
	for i, p := range s.params {
		if s.variadic && i == len(s.params)-1 {
			break
		}
		a = append(a, g.expr(p, d-1))
	}
	if s.variadic {
		if g.r.P(35) {
			k := g.r.Pick("i", "v", "s")
			t := gk{k: map[string]int{"i": kLI, "v": kLV, "s": kLS}[k]}
			return append(a, g.expr(t, d-1)), true
		}
		for n := g.r.N(4); n > 0; n-- {
			t := g.simple()
			if g.r.P(12) {
				t.k = []int{kLV, kLI, kLS, kMV, kNil}[g.r.N(5)]
			}
			a = append(a, g.expr(t, d-1))
		}
	} else if len(a) > 0 && g.r.P(3) {
		// the same through a spread list
		a[len(a)-1] = &xList{[]qx{a[len(a)-1]}}
		return a, true
	}
	if g.r.N(1000) < g.w.err*3 {
		if len(a) > 0 && g.r.P(50) {
			a = a[:len(a)-1]
		} else {
			a = append(a, g.expr(g.simple(), d-1))
		}
	}
	return a, false
}

func (g *qgen) simple() gk { return gk{k: []int{kI, kI, kF, kS, kB, kY}[g.r.N(6)]} }

func (g *qgen) kind() gk {
	t := []int{kI, kI, kI, kF, kS, kS, kB, kY}
	if g.w.colls > 0 {
		t = append(t, kLI, kLI, kLF, kLS, kLV, kMI, kMV)
	}
	k := gk{k: t[g.r.N(len(t))]}
	if g.w.fns > 0 && g.r.P(8) {
		return gk{k: kFn, sig: g.sig()}
	}
	if len(g.classes) > 0 && g.r.P(8) {
		return gk{k: kObj, cls: g.classes[g.r.N(len(g.classes))]}
	}
	return k
}

func (g *qgen) sig() *gsig {
	s := &gsig{ret: g.simple()}
	for n := g.r.N(4); n > 0; n-- {
		s.params = append(s.params, g.simple())
	}
	if g.r.P(15) {
		s.variadic = true
		s.params = append(s.params, gk{k: kLV})
	}
	if g.r.P(15) {
		s.ret = gk{k: kNil}
	}
	return s
}

// literal makes a list or map literal.
func (g *qgen) literal(t gk, d int) qx {
	n := g.r.N(4)
	if t.k != kLV && t.k != kMV && n == 0 {
		n = 1
	}
	var el []qx
	switch t.k {
	case kLI, kLF, kLS:
		for i := 0; i < n; i++ {
			e := gk{k: t.k - kLI}
			if t.k == kLF && i > 0 && g.r.P(30) {
				e.k = kI
			}
			el = append(el, g.expr(e, d-1))
		}
		if t.k == kLF && n > 1 && g.r.P(30) {
			el[0], el[n-1] = el[n-1], el[0]
		}
	case kLV:
		for i := 0; i < n; i++ {
			el = append(el, g.expr(g.simple(), d-1))
		}
		if n > 0 {
			el[g.r.N(n)] = []qx{&xLit{"nil", nil}, &xLit{"true", true}, &xLit{"'a'", byte('a')}}[g.r.N(3)]
		}
	case kMI, kMV:
		for i := 0; i < n; i++ {
			el = append(el, xs(g.r.Pick("a", "b", "c", "d")))
			if t.k == kMI {
				el = append(el, g.expr(gk{k: kI}, d-1))
			} else {
				el = append(el, g.expr(g.simple(), d-1))
			}
		}
		if t.k == kMV && n > 0 {
			el[len(el)-1] = &xLit{"nil", nil}
			if n > 1 && g.r.P(50) {
				el[1] = &xVar{"undefined"}
			}
		}
		if g.r.P(30) {
			if t.k == kMI || n > 0 {
				return callOf("mapFrom", el...)
			}
		}
		return &xMap{el}
	}
	if g.r.P(15) {
		return callOf("sliceFrom", el...)
	}
	return &xList{el}
}

func (g *qgen) expr(t gk, d int) qx {
	r := g.r
	g.budget--
	if r.P(g.w.tr) {
		return g.tr(g.expr1(t, d))
	}
	return g.expr1(t, d)
}

func (g *qgen) expr1(t gk, d int) qx {
	r := g.r
	if g.w.err > 0 && r.N(1000) < g.w.err {
		return g.wrong(d)
	}
	if d <= 0 || g.budget < 0 || r.P(15) {
		return g.leaf(t)
	}
	if g.w.ctrl > 0 && r.N(100) < g.w.ctrl/4 {
		// a control structure as an expression
		if r.P(60) {
			n := r.Range(1, 2)
			x := &xIf{}
			for i := 0; i < n; i++ {
				x.conds = append(x.conds, g.expr(gk{k: kB}, d-1))
				x.bodies = append(x.bodies, g.valBlock(t, d-1))
			}
			x.els = g.valBlock(t, d-1)
			return x
		}
		x := &xSwitch{}
		k := g.simple()
		if r.P(70) {
			x.x = g.expr(k, d-1)
		} else {
			k = gk{k: kB}
		}
		for n := r.N(3); n > 0; n-- {
			x.cases = append(x.cases, g.expr(k, d-1))
			x.bodies = append(x.bodies, g.valBlock(t, d-1))
		}
		x.def = g.valBlock(t, d-1)
		return x
	}
	if g.w.fns > 0 && t.k != kFn && r.N(100) < g.w.fns {
		if v, ok := g.pick(func(v gvar) bool { return v.t.k == kFn && sameKind(v.t.sig.ret, t) }); ok {
			a, sp := g.args(v.t.sig, d)
			return g.call(&xCall{g.ref(v.name), a, sp})
		}
		if r.P(25) {
			s := g.sig()
			s.ret = t
			f := g.fnLit(s, d-1)
			a, sp := g.args(s, d)
			return g.call(&xCall{f, a, sp})
		}
	}
	if len(g.classes) > 0 && r.P(25) {
		var m gvar
		if v, ok := g.pick(func(v gvar) bool {
			if v.t.k != kObj {
				return false
			}
			for _, x := range v.t.cls.methods {
				if sameKind(x.t.sig.ret, t) {
					m = x
					return true
				}
			}
			return false
		}); ok {
			for _, x := range v.t.cls.methods {
				if sameKind(x.t.sig.ret, t) && (m.name == "" || r.P(50)) {
					m = x
				}
			}
			has := false
			for _, x := range v.t.cls.methods {
				if x.name == m.name {
					has = true
				}
			}
			if has {
				a, sp := g.args(m.t.sig, d)
				return g.call(&xCall{&xMem{g.ref(v.name), m.name}, a, sp})
			}
		}
	}
	e := func(k int) qx { return g.expr(gk{k: k}, d-1) }
	switch t.k {
	case kI:
		switch r.N(12) {
		case 0:
			return &xUn{"-", e(kI)}
		case 1:
			return &xUn{"+", e(kI)}
		case 2:
			return callOf("len", e([]int{kS, kS, kLI, kLV, kMI}[r.N(5)]))
		case 3:
			return callOf("int", e([]int{kY, kI}[r.N(2)]))
		case 4:
			var a []qx
			for n := r.N(4); n > 0; n-- {
				a = append(a, e(kI))
			}
			return callOf(r.Pick("max", "min"), a...)
		case 5:
			if g.w.colls > 0 {
				l := g.expr(gk{k: kLI}, d-1)
				if r.P(70) {
					return &xIdx{&xCall{f: &xVar{"append"}, args: []qx{l, e(kI)}}, xi(0)}
				}
				return &xIdx{l, xi(r.N(3))}
			}
		case 6:
			if g.w.colls > 0 {
				if r.P(50) {
					return &xIdx{&xCall{f: &xVar{"mapFrom"}, args: []qx{xs("a"), e(kI), xs("b"), e(kI)}}, xs(r.Pick("a", "b"))}
				}
				return &xMem{&xMap{[]qx{xs("k"), e(kI), xs("new"), e(kI)}}, r.Pick("k", "new")}
			}
		}
		op := r.Pick("+", "-", "*", "+", "-", "/", "%")
		a, b := e(kI), e(kI)
		if (op == "/" || op == "%") && r.N(1000) >= 3*g.w.err {
			b = xi(r.Range(1, 9))
		}
		return &xBin{op, a, b}
	case kF:
		switch r.N(6) {
		case 0:
			return &xUn{"-", e(kF)}
		case 1:
			return callOf("float", e([]int{kI, kF, kY}[r.N(3)]))
		case 2:
			return callOf(r.Pick("max", "min"), e(kI), e(kF), e(kF))
		}
		a, b := e(kF), e([]int{kF, kI}[r.N(2)])
		if r.P(50) {
			a, b = b, a
		}
		return &xBin{r.Pick("+", "-", "*", "/"), a, b}
	case kS:
		switch r.N(6) {
		case 0:
			return callOf("string", e(kY))
		case 1:
			return callOf("string", xi(r.Range(32, 0x4eff)))
		case 2:
			s := e(kS)
			switch r.N(3) {
			case 0:
				return &xSub{s, xi(0), nil}
			case 1:
				return &xSub{s, nil, nil}
			}
			return callOf("sub", s, xi(0), &xLit{"nil", nil})
		}
		return &xBin{"+", e(kS), e(kS)}
	case kB:
		switch r.N(10) {
		case 0, 1:
			return &xUn{"!", e(kB)}
		case 2, 3, 4:
			return &xBin{r.Pick("&&", "||"), e(kB), e(kB)}
		}
		k1 := []int{kI, kF, kS, kY, kB}[r.N(5)]
		k2 := k1
		op := r.Pick("<", ">", "<=", ">=", "==", "!=")
		if k1 == kB {
			op = r.Pick("==", "!=")
		} else if k1 != kS && r.P(30) {
			k2 = []int{kI, kF, kY}[r.N(3)]
		}
		return &xBin{op, e(k1), e(k2)}
	case kY:
		if r.P(40) {
			return callOf("byte", xi(r.N(256)))
		}
		return &xIdx{&xCall{f: &xVar{"tr"}, args: []qx{xi(0), xs(r.Pick("abc", "é", "x"))}}, xi(0)}
	case kLI, kLF, kLS, kLV:
		switch r.N(6) {
		case 0, 1:
			el := gk{k: t.k - kLI}
			if t.k == kLV {
				el = g.simple()
			}
			a := []qx{g.expr(t, d-1)}
			for n := r.N(3); n >= 0; n-- {
				a = append(a, g.expr(el, d-1))
			}
			return callOf("append", a...)
		case 2:
			l := g.expr(t, d-1)
			switch r.N(3) {
			case 0:
				return &xSub{l, xi(0), nil}
			case 1:
				return &xSub{l, nil, xi(r.N(2))}
			}
			return &xSub{l, nil, callOf("len", g.leaf(t))}
		case 3:
			n := r.N(4)
			name := map[int]string{kLI: "int", kLF: "float", kLS: "string", kLV: "var"}[t.k]
			switch r.N(3) {
			case 0:
				return callOf("slice", xs(name), xi(n))
			case 1:
				return callOf("slice", xs(name), xi(n), xi(n+r.N(4)))
			}
			return callOf("slice", xs(name))
		}
		return g.literal(t, d)
	case kMI, kMV:
		if r.P(20) {
			if t.k == kMI {
				return callOf("mkmap", xs("string:int"))
			}
			return callOf("mkmap", xs("string:var"))
		}
		return g.literal(t, d)
	case kFn:
		if r.P(50) {
			return g.fnLit(t.sig, d-1)
		}
	case kObj:
		if r.P(60) {
			return g.newObj(t.cls, d)
		}
	case kNil:
		if r.P(60) {
			return g.tr(g.expr(g.simple(), d-1))
		}
	}
	return g.leaf(t)
}

// wrong makes an expression that is likely to fail, or of any kind.
func (g *qgen) wrong(d int) qx {
	r := g.r
	switch r.N(9) {
	case 0:
		return &xVar{r.Pick("undefinedName", "_q", "zz", "Len")}
	case 1:
		return &xBin{r.Pick("/", "%"), g.expr(gk{k: kI}, d-1), xi(0)}
	case 2:
		return &xCall{f: g.leaf(g.simple()), args: nil}
	case 3:
		return &xMem{g.leaf(gk{k: []int{kMI, kMV, kI, kS}[r.N(4)]}), "nosuch"}
	case 4:
		return callOf("panic", xs(r.Pick("boom", "bad: x", "p1")))
	case 5:
		return &xIdx{&xList{[]qx{xi(1), xi(2)}}, xi(r.Range(2, 5))}
	case 6:
		return &xUn{r.Pick("-", "!"), g.leaf(gk{k: kS})}
	}
	return g.expr(gk{k: r.N(kFn)}, d-1)
}

// valBlock makes a block whose value has kind t.
func (g *qgen) valBlock(t gk, d int) *qblock {
	b := &qblock{}
	n := len(g.sc.vars)
	if g.r.P(20) && g.budget > 0 {
		b.st = append(b.st, g.stmts(1, d)...)
	}
	b.st = append(b.st, &qstmt{e: g.expr(t, d)})
	g.sc.vars = g.sc.vars[:n]
	return b
}

// block makes a block of statements.
func (g *qgen) block(n, d int) *qblock {
	b := &qblock{trail: g.r.P(60)}
	k := len(g.sc.vars)
	g.level++
	b.st = g.stmts(n, d)
	g.level--
	g.sc.vars = g.sc.vars[:k]
	if len(b.st) == 0 {
		b.trail = false
	}
	return b
}

func (g *qgen) fnLit(s *gsig, d int) *xFn {
	var ps []string
	for i := range s.params {
		p := "p" + strconv.Itoa(i)
		if g.r.P(70) {
			p = g.fresh("p")
		} else if g.r.P(20) {
			p = "_p" + strconv.Itoa(i)
		}
		for _, q := range ps {
			if q == p {
				p += "q"
			}
		}
		ps = append(ps, p)
	}
	return g.fnWith(s, ps, d, nil)
}

// fnWith makes a function of the given parameters; this is the receiver of a method.
func (g *qgen) fnWith(s *gsig, ps []string, d int, this *gcls) *xFn {
	x := &xFn{params: ps, variadic: s.variadic, body: &qblock{}}
	sc := &gscope{up: g.sc, refd: map[string]bool{}, sig: s}
	if this != nil {
		sc.vars = append(sc.vars, gvar{name: "this", t: gk{k: kObj, cls: this}, ro: true})
	}
	for i, p := range ps {
		sc.vars = append(sc.vars, gvar{name: p, t: s.params[i]})
	}
	g.sc = sc
	g.level++
	loops := g.loops
	g.loops = 0
	if g.level > 4 || g.budget < 0 {
		if s.ret.k != kNil {
			x.body.st = append(x.body.st, &qstmt{kind: "return", e: g.leaf(s.ret)})
		} else if g.r.P(50) {
			x.body.st = append(x.body.st, &qstmt{e: g.leaf(g.simple())})
		}
	} else {
		x.body.st = g.stmts(g.r.N(4), d)
		if s.ret.k != kNil {
			x.body.st = append(x.body.st, &qstmt{kind: "return", e: g.expr(s.ret, d)})
		} else if g.r.P(30) {
			x.body.st = append(x.body.st, &qstmt{kind: "return"})
		}
		if g.r.P(10) {
			x.body.st = append(x.body.st, &qstmt{e: g.tr(xs("unreachable or end"))})
		}
	}
	x.body.trail = len(x.body.st) > 0 && g.r.P(60)
	g.loops = loops
	g.level--
	g.sc = sc.up
	return x
}

// assign makes the statements that assign e to a variable.
func (g *qgen) assign(name string, st *qstmt) []*qstmt {
	var pre []*qstmt
	if !g.own(name) && g.sc.sig != nil && g.visible(name) {
		if g.r.N(1000) >= 20+4*g.w.err {
			pre = append(pre, &qstmt{e: &xVar{name}})
		}
	}
	return append(pre, st)
}

func (g *qgen) stmts(n, d int) (l []*qstmt) {
	for i := 0; i < n && g.budget > 0; i++ {
		l = append(l, g.stmt(d)...)
	}
	return
}

func (g *qgen) deferred(d int) qx {
	r := g.r
	switch r.N(6) {
	case 0:
		return g.tr(g.expr(g.simple(), d-1))
	case 1:
		return &xIf{conds: []qx{g.expr(gk{k: kB}, d-1)}, bodies: []*qblock{{st: []*qstmt{{e: g.tr(g.leaf(g.simple()))}}}}}
	case 2:
		if v, ok := g.pick(func(v gvar) bool { return v.t.k == kFn }); ok {
			a, sp := g.args(v.t.sig, d)
			return g.call(&xCall{g.ref(v.name), a, sp})
		}
	case 3:
		if g.w.panics > 0 && r.P(40) {
			return callOf("panic", g.expr(gk{k: kS}, d-1))
		}
	}
	f := &xFn{body: &qblock{}}
	sc := &gscope{up: g.sc, refd: map[string]bool{}, sig: &gsig{ret: gk{k: kNil}}, defer_: true}
	g.sc = sc
	g.level++
	if r.P(60) {
		n := g.fresh("r")
		f.body.st = append(f.body.st, &qstmt{kind: "=", name: n, e: &xRecov{}}, &qstmt{e: g.tr(&xVar{n})})
		if r.P(20) {
			f.body.st = append(f.body.st, &qstmt{e: g.tr(&xRecov{})})
		}
		if r.P(15) && g.w.panics > 0 {
			f.body.st = append(f.body.st, &qstmt{e: &xIf{conds: []qx{&xBin{"!=", &xVar{n}, &xLit{"nil", nil}}},
				bodies: []*qblock{{st: []*qstmt{{e: callOf("panic", []qx{&xVar{n}, xs("again")}[r.N(2)])}}}}}})
		}
	}
	f.body.st = append(f.body.st, g.stmts(r.N(3), d-1)...)
	if len(f.body.st) == 0 {
		f.body.st = append(f.body.st, &qstmt{e: g.tr()})
	}
	f.body.trail = r.P(50)
	g.level--
	g.sc = sc.up
	return g.call(&xCall{f: f})
}

func (g *qgen) stmt(d int) []*qstmt {
	r := g.r
	w := g.w
	one := func(s *qstmt) []*qstmt { return []*qstmt{s} }
	nest := 1
	if g.level > 3+w.nest {
		nest = 0
	}
	if w.ends && g.sc.sig == nil && r.P(14) {
		if r.P(30) {
			return one(&qstmt{e: g.mainBlock(d)})
		}
		ret := &qstmt{kind: "return"}
		switch r.N(6) {
		case 0:
		case 1:
			ret.e = g.expr(g.simple(), d)
		default:
			ret.e = g.expr(gk{k: kI}, d)
		}
		if r.P(70) {
			return one(&qstmt{e: &xIf{conds: []qx{g.expr(gk{k: kB}, d)}, bodies: []*qblock{{st: []*qstmt{ret}, trail: r.P(50)}}}})
		}
		return one(ret)
	}
	wRet := 0
	if g.sc.sig != nil {
		wRet = 3 + w.rets
	}
	wPanic := w.panics
	if g.sc.sig == nil {
		wPanic = w.panics / 8
	}
	switch r.W(25, 14, 8, 10, w.colls, w.ctrl*nest, w.ctrl*nest*2/3, w.ctrl*nest/2, w.fns*nest, w.defers*nest, wPanic, w.classes*nest, w.colls/3, wRet, w.fns/2, w.classes, w.fns/4) {
	case 0: // assignment
		if r.P(40) {
			if v, ok := g.pick(func(v gvar) bool { return !v.ro && v.t.k != kFn }); ok {
				st := &qstmt{kind: "=", name: v.name, e: g.expr(v.t, d)}
				return g.assign(v.name, st)
			}
		}
		t := g.kind()
		n := g.fresh("v")
		if r.P(8) {
			n = "_" + n
			if m := r.Pick("_a", "_b", "_"); r.P(60) && !g.own(m) {
				n = m
			}
		}
		st := &qstmt{kind: "=", name: n, e: g.expr(t, d)}
		g.declare(n, t)
		return one(st)
	case 1: // traced
		if r.N(400) < w.ctrl { // a loop has a value, too
			a := []qx{g.expr(g.simple(), d-1), g.forExpr(d - 1), g.expr(g.simple(), d-1)}
			if r.P(50) {
				return one(&qstmt{e: g.tr(&xList{a})})
			}
			return one(&qstmt{e: g.tr(a...)})
		}
		return one(&qstmt{e: g.tr(g.expr(g.kind(), d))})
	case 2: // ++ --
		if v, ok := g.pick(func(v gvar) bool { return !v.ro && (v.t.k == kI || v.t.k == kY) }); ok {
			return g.assign(v.name, &qstmt{kind: r.Pick("++", "--"), name: v.name})
		}
	case 3: // op=
		if v, ok := g.pick(func(v gvar) bool { return !v.ro && v.t.k <= kS }); ok {
			op := "+="
			k := v.t.k
			if k != kS {
				op = r.Pick("+=", "-=", "*=", "/=")
			}
			if k == kF && r.P(30) {
				k = kI
			}
			e := g.expr(gk{k: k}, d)
			if k == kI && v.t.k == kI && (op == "/=" || r.P(15)) {
				if op == "/=" || r.P(50) {
					op = r.Pick("/=", "%=")
				} else {
					op = "%="
				}
				if r.N(1000) >= 3*w.err {
					e = xi(r.Range(1, 9))
				}
			}
			return g.assign(v.name, &qstmt{kind: op, name: v.name, e: e})
		}
	case 4: // collections
		return g.collStmt(d)
	case 5: // if
		x := &xIf{}
		for n := r.W(0, 60, 25, 10); n > 0; n-- {
			x.conds = append(x.conds, g.expr(gk{k: kB}, d))
			x.bodies = append(x.bodies, g.block(r.N(4), d-1))
		}
		if r.P(50) {
			x.els = g.block(r.N(3), d-1)
		}
		return one(&qstmt{e: x})
	case 6: // for
		if g.loops >= 2 {
			break
		}
		k := g.fresh("k")
		for g.visible(k) {
			k = g.fresh("k")
		}
		n := r.N(4)
		g.loops++
		defer func() { g.loops-- }()
		g.sc.vars = append(g.sc.vars, gvar{name: k, t: gk{k: kI}, ro: true})
		var cond qx = &xBin{"<", &xVar{k}, xi(n)}
		if r.P(30) {
			cond = &xBin{"&&", cond, g.expr(gk{k: kB}, d-1)}
		}
		if r.P(25) {
			cond = g.tr(cond)
		}
		x := &xFor{cond: &qstmt{e: cond}}
		inc := &qstmt{kind: "++", name: k}
		if r.P(30) {
			inc = &qstmt{kind: "+=", name: k, e: g.tr(xi(r.Range(1, 2)))}
		}
		init := &qstmt{kind: "=", name: k, e: xi(0)}
		if r.P(20) {
			init.e = g.tr(xi(0))
		}
		body := g.block(r.N(4), d-1)
		x.body = body
		switch f := r.N(10); {
		case f < 6:
			x.init, x.step = init, inc
			return one(&qstmt{e: x})
		case f < 9:
			body.st = append([]*qstmt{inc}, body.st...)
			return []*qstmt{init, {e: x}}
		default:
			// for { } left by return
			if g.sc.sig == nil {
				x.init, x.step = init, inc
				return one(&qstmt{e: x})
			}
			x.cond = nil
			ret := &qstmt{kind: "return"}
			if g.sc.sig.ret.k != kNil {
				ret.e = g.leaf(g.sc.sig.ret)
			}
			body.st = append([]*qstmt{inc, {e: &xIf{conds: []qx{&xBin{">", &xVar{k}, xi(n)}}, bodies: []*qblock{{st: []*qstmt{ret}}}}}}, body.st...)
			return []*qstmt{init, {e: x}}
		}
	case 7: // switch
		x := &xSwitch{}
		k := g.simple()
		if r.P(4) {
			x.x = []qx{&xLit{"nil", nil}, &xVar{"undefined"}, &xLit{"true", true}}[r.N(3)]
			k = gk{k: kB}
		} else if r.P(75) {
			x.x = g.expr(k, d)
		} else {
			k = gk{k: kB}
		}
		for n := r.N(4); n > 0; n-- {
			if r.P(3) {
				x.cases = append(x.cases, g.expr(g.simple(), d-1))
			} else {
				x.cases = append(x.cases, g.expr(k, d-1))
			}
			x.bodies = append(x.bodies, g.block(r.N(3), d-1))
		}
		if r.P(60) {
			x.def = g.block(r.N(3), d-1)
		}
		return one(&qstmt{e: x})
	case 8: // function
		n := g.fresh("f")
		s := g.sig()
		if r.P(20) {
			return g.recursive(n, d)
		}
		st := &qstmt{kind: "=", name: n, e: g.fnLit(s, d)}
		g.declare(n, gk{k: kFn, sig: s})
		return one(st)
	case 9:
		return one(&qstmt{kind: "defer", e: g.deferred(d)})
	case 10:
		switch r.N(3) {
		case 0:
			return one(&qstmt{e: callOf("panicf", xs("%d-%s"), g.expr(gk{k: kI}, d-1), g.expr(gk{k: kS}, d-1))})
		case 1:
			return one(&qstmt{e: &xIf{conds: []qx{g.expr(gk{k: kB}, d-1)}, bodies: []*qblock{{st: []*qstmt{{e: callOf("panic", g.expr(gk{k: kS}, d-1))}}}}}})
		}
		return one(&qstmt{e: callOf("panic", g.expr(gk{k: kS}, d-1))})
	case 11:
		return g.classStmt(d)
	case 12: // multiple assignment
		t := g.simple()
		n := r.Range(2, 3)
		var names []string
		var el []qx
		var pre []*qstmt
		for i := 0; i < n; i++ {
			nm := ""
			if v, ok := g.pick(func(v gvar) bool { return !v.ro && sameKind(v.t, t) }); ok && r.P(60) {
				nm = v.name
				pre = append(pre, g.assign(nm, nil)...)
				if pre[len(pre)-1] == nil {
					pre = pre[:len(pre)-1]
				}
			} else {
				nm = g.fresh("v")
			}
			names = append(names, nm)
			el = append(el, g.expr(t, d-1))
		}
		for _, nm := range names {
			g.sc.refd[nm] = true
			if !g.visible(nm) {
				g.declare(nm, t)
			}
		}
		if r.N(1000) < 4*w.err {
			el = el[1:]
		}
		return append(pre, &qstmt{kind: "m=", names: names, e: &xList{el}})
	case 13: // return
		ret := &qstmt{kind: "return"}
		if g.sc.sig.ret.k != kNil {
			ret.e = g.expr(g.sc.sig.ret, d)
		}
		return one(&qstmt{e: &xIf{conds: []qx{g.expr(gk{k: kB}, d-1)}, bodies: []*qblock{{st: []*qstmt{ret}, trail: r.P(50)}}}})
	case 14: // call
		if v, ok := g.pick(func(v gvar) bool { return v.t.k == kFn }); ok {
			a, sp := g.args(v.t.sig, d)
			return one(&qstmt{e: g.tr(g.call(&xCall{g.ref(v.name), a, sp}))})
		}
	case 15: // objects
		return g.objStmt(d)
	case 16: // closure factory
		return g.closure(d)
	}
	return one(&qstmt{e: g.tr(g.expr(g.simple(), d))})
}

// forExpr makes a short loop that may be part of an expression.
func (g *qgen) forExpr(d int) qx {
	r := g.r
	k := g.fresh("k")
	for g.visible(k) {
		k = g.fresh("k")
	}
	g.loops += 2
	defer func() { g.loops -= 2 }()
	n := len(g.sc.vars)
	g.sc.vars = append(g.sc.vars, gvar{name: k, t: gk{k: kI}, ro: true})
	x := &xFor{init: &qstmt{kind: "=", name: k, e: xi(0)}, cond: &qstmt{e: &xBin{"<", &xVar{k}, xi(r.N(4))}}, step: &qstmt{kind: "++", name: k}}
	x.body = g.block(r.N(3), d-1)
	g.sc.vars = g.sc.vars[:n]
	return x
}

// mainBlock makes main { }.
func (g *qgen) mainBlock(d int) qx {
	s := &gsig{ret: gk{k: kI}}
	if g.r.P(20) {
		s.ret = gk{k: kNil}
	} else if g.r.P(8) {
		s.ret = g.simple()
	}
	f := g.fnWith(s, nil, d, nil)
	return &xMain{f.body}
}

func (g *qgen) recursive(n string, d int) []*qstmt {
	r := g.r
	t := gk{k: []int{kI, kF, kS}[r.N(3)]}
	s := &gsig{params: []gk{{k: kI}, t}, ret: t}
	a, b := g.fresh("p"), g.fresh("q")
	for b == a {
		b = g.fresh("q")
	}
	sc := &gscope{up: g.sc, refd: map[string]bool{}, sig: s}
	sc.vars = []gvar{{name: a, t: gk{k: kI}}, {name: b, t: t}}
	g.sc = sc
	g.level++
	x := &xFn{params: []string{a, b}, body: &qblock{}}
	x.body.st = append(x.body.st, &qstmt{e: &xIf{conds: []qx{&xBin{"<=", &xVar{a}, xi(0)}}, bodies: []*qblock{{st: []*qstmt{{kind: "return", e: &xVar{b}}}}}}})
	if g.w.defers > 0 && r.P(40) {
		x.body.st = append(x.body.st, &qstmt{kind: "defer", e: g.tr(&xVar{a})})
	}
	if r.P(50) {
		x.body.st = append(x.body.st, g.stmts(1, d-1)...)
	}
	rec := &xCall{f: &xVar{n}, args: []qx{&xBin{"-", &xVar{a}, xi(r.Range(1, 2))}, g.expr(t, 1)}}
	if r.P(50) {
		x.body.st = append(x.body.st, &qstmt{kind: "return", e: rec})
	} else {
		x.body.st = append(x.body.st, &qstmt{kind: "return", e: &xBin{"+", rec, g.leaf(t)}})
	}
	g.level--
	g.sc = sc.up
	st := []*qstmt{{kind: "=", name: n, e: x}}
	st = append(st, &qstmt{e: g.tr(&xCall{f: &xVar{n}, args: []qx{xi(r.N(5)), g.leaf(t)}})})
	// later calls are bounded by small arguments only, so it isn't declared as a function
	return st
}

func (g *qgen) closure(d int) []*qstmt {
	r := g.r
	mk, c, dlt := g.fresh("mk"), g.fresh("c"), g.fresh("d")
	inner := &xFn{params: []string{dlt}, body: &qblock{st: []*qstmt{{kind: "=", name: c, e: &xBin{"+", &xVar{c}, &xVar{dlt}}}, {kind: "return", e: &xVar{c}}}}}
	if r.P(20) {
		inner.body.st[0] = &qstmt{kind: "+=", name: c, e: &xVar{dlt}} // not referenced before: an error
	} else if r.P(30) {
		inner.body.st = append([]*qstmt{{e: &xVar{c}}, {kind: "++", name: c}}, inner.body.st...)
	}
	get := &xFn{body: &qblock{st: []*qstmt{{kind: "return", e: &xVar{c}}}}}
	outer := &xFn{params: []string{c}, body: &qblock{}}
	outer.body.st = append(outer.body.st, &qstmt{kind: "return", e: &xList{[]qx{inner, get}}})
	f, h := g.fresh("f"), g.fresh("h")
	f2, h2 := g.fresh("f"), g.fresh("h")
	st := []*qstmt{{kind: "=", name: mk, e: outer},
		{kind: "m=", names: []string{f, h}, e: callOf(mk, g.expr(gk{k: kI}, d-1))},
		{kind: "m=", names: []string{f2, h2}, e: callOf(mk, g.expr(gk{k: kI}, d-1))}}
	for n := r.Range(1, 4); n > 0; n-- {
		st = append(st, &qstmt{e: g.tr(callOf(r.Pick(f, f2), g.expr(gk{k: kI}, d-1)), callOf(h), callOf(h2))})
	}
	if r.P(50) {
		g.declare(f, gk{k: kFn, sig: &gsig{params: []gk{{k: kI}}, ret: gk{k: kI}}})
		g.declare(h, gk{k: kFn, sig: &gsig{ret: gk{k: kI}}})
	}
	return st
}

func w4(g *qgen) int { return 4 * g.w.err }

func (g *qgen) collStmt(d int) []*qstmt {
	r := g.r
	isList := func(v gvar) bool { return v.t.k >= kLI && v.t.k <= kLV }
	isMap := func(v gvar) bool { return v.t.k == kMI || v.t.k == kMV }
	elem := func(v gvar) gk {
		switch v.t.k {
		case kLV, kMV:
			return g.simple()
		case kMI:
			return gk{k: kI}
		}
		return gk{k: v.t.k - kLI}
	}
	key := func() qx {
		if r.P(20) {
			return g.expr(gk{k: kS}, d-1)
		}
		return xs(r.Pick("a", "b", "c", "d"))
	}
	idx := func(v gvar) qx {
		switch r.N(5) {
		case 0:
			return &xBin{"-", callOf("len", &xVar{v.name}), xi(1)}
		case 1:
			return xi(r.N(4))
		}
		return xi(0)
	}
	switch r.N(9) {
	case 8: // any mixture of elements
		var el []qx
		k := r.N(3)
		for n := r.N(6); n > 0; n-- {
			t := g.simple()
			if k == 0 || k == 1 && r.P(80) {
				t.k = []int{kI, kF}[r.N(2)]
			}
			el = append(el, g.expr(t, d-1))
			if r.P(3) {
				el[len(el)-1] = &xVar{r.Pick("nil", "undefined", "len", "true")}
			}
		}
		if r.P(50) {
			return []*qstmt{{e: g.tr([]qx{&xList{el}, callOf("sliceFrom", el...)}[r.N(2)])}}
		}
		var kv []qx
		ints := r.P(40)
		for _, e := range el {
			if ints != (r.N(1000) < w4(g)) {
				kv = append(kv, xi(r.N(5)))
			} else {
				kv = append(kv, key())
			}
			kv = append(kv, e)
		}
		return []*qstmt{{e: g.tr([]qx{&xMap{kv}, callOf("mapFrom", kv...)}[r.N(2)])}}
	case 0, 1:
		if v, ok := g.pick(func(v gvar) bool { return isList(v) && !v.ro }); ok {
			g.sc.refd[v.name] = true
			a := []qx{&xVar{v.name}}
			for n := r.Range(1, 3); n > 0; n-- {
				a = append(a, g.expr(elem(v), d-1))
			}
			return []*qstmt{{kind: "=", name: v.name, e: callOf("append", a...)}}
		}
	case 2:
		if v, ok := g.pick(isList); ok {
			return []*qstmt{{e: callOf("set", &xVar{v.name}, idx(v), g.expr(elem(v), d-1))}}
		}
	case 3:
		if v, ok := g.pick(isMap); ok {
			a := []qx{&xVar{v.name}}
			for n := r.Range(1, 2); n > 0; n-- {
				e := g.expr(elem(v), d-1)
				if r.P(10) {
					e = &xVar{r.Pick("undefined", "nil")}
				}
				a = append(a, key(), e)
			}
			return []*qstmt{{e: callOf("set", a...)}, {e: g.tr(&xVar{v.name})}}
		}
	case 4:
		if v, ok := g.pick(isMap); ok {
			return []*qstmt{{e: callOf("delete", &xVar{v.name}, key())}, {e: g.tr(callOf("len", &xVar{v.name}), &xIdx{&xVar{v.name}, key()})}}
		}
	case 5:
		if v, ok := g.pick(isList); ok {
			return []*qstmt{{e: g.tr(&xIdx{&xVar{v.name}, idx(v)}, &xVar{v.name}, callOf("cap", &xVar{v.name}))}}
		}
	case 6:
		if v, ok := g.pick(isList); ok { // an alias
			n := g.fresh("v")
			i, j := qx(xi(r.N(2))), qx(nil)
			if r.P(50) {
				i = nil
			}
			if r.P(50) {
				j = xi(r.N(3))
				if r.P(30) {
					j = callOf("cap", &xVar{v.name})
				}
			}
			if r.P(40) {
				v, ok := g.pick(func(v gvar) bool { return v.t.k == kMI })
				if ok {
					st := &qstmt{kind: "=", name: n, e: &xVar{v.name}}
					g.declare(n, v.t)
					return []*qstmt{st}
				}
			}
			st := &qstmt{kind: "=", name: n, e: &xSub{&xVar{v.name}, i, j}}
			g.declare(n, v.t)
			return []*qstmt{st}
		}
	}
	t := gk{k: []int{kLI, kLF, kLS, kLV, kMI, kMV}[r.N(6)]}
	n := g.fresh("v")
	st := &qstmt{kind: "=", name: n, e: g.expr(t, d)}
	g.declare(n, t)
	return []*qstmt{st, {e: g.tr(&xVar{n}, callOf("len", &xVar{n}))}}
}

func (g *qgen) classStmt(d int) []*qstmt {
	r := g.r
	if len(g.classes) > 3 {
		if _, ok := g.pick(func(v gvar) bool { return v.t.k == kObj }); ok {
			return g.objStmt(d)
		}
	}
	c := &gcls{name: g.fresh("C")}
	for i := r.N(3); i >= 0; i-- {
		c.fields = append(c.fields, gvar{name: r.Pick("a", "b", "x", "len", "new", "class", "_p") + strconv.Itoa(i), t: g.simple()})
	}
	x := &xClass{}
	// constructor
	s := &gsig{}
	var ps []string
	args := []qx{&xVar{"this"}}
	for i, f := range c.fields {
		if r.P(60) {
			p := "p" + strconv.Itoa(i)
			ps = append(ps, p)
			s.params = append(s.params, f.t)
			args = append(args, xs(f.name), &xVar{p})
		} else {
			args = append(args, xs(f.name), g.leafConst(f.t))
		}
	}
	c.init = s
	body := &qblock{st: []*qstmt{{e: callOf("set", args...)}}, trail: true}
	if r.P(30) {
		body.st = append(body.st, &qstmt{e: g.tr(&xMem{&xVar{"this"}, c.fields[0].name})})
	}
	x.names = append(x.names, "_init")
	x.fns = append(x.fns, &xFn{params: ps, body: body})
	full := c
	half := &gcls{name: c.name, fields: c.fields, init: c.init}
	for i := r.N(4); i > 0; i-- {
		name := r.Pick("get", "add", "m", "run", "main", "recover") + strconv.Itoa(i)
		f := c.fields[r.N(len(c.fields))]
		ms := g.sig()
		if r.P(60) {
			ms.ret = f.t
		}
		var mps []string
		for j := range ms.params {
			mps = append(mps, "q"+strconv.Itoa(j))
		}
		// a method sees the fields and the earlier methods
		fn := g.fnWith(ms, mps, d-1, half)
		if r.P(60) {
			set := &qstmt{e: callOf("set", &xVar{"this"}, xs(f.name), g.leafConst(f.t))}
			switch f.t.k {
			case kI, kF:
				set.e = callOf("set", &xVar{"this"}, xs(f.name), &xBin{r.Pick("+", "-"), &xMem{&xVar{"this"}, f.name}, xi(r.N(9))})
			case kS:
				set.e = callOf("set", &xVar{"this"}, xs(f.name), &xBin{"+", &xMem{&xVar{"this"}, f.name}, xs("+")})
			}
			fn.body.st = append([]*qstmt{set}, fn.body.st...)
		}
		x.names = append(x.names, name)
		x.fns = append(x.fns, fn)
		m := gvar{name: name, t: gk{k: kFn, sig: ms}}
		half = &gcls{name: c.name, fields: half.fields, init: c.init, methods: append(append([]gvar{}, half.methods...), m)}
		full.methods = append(full.methods, m)
	}
	st := &qstmt{kind: "=", name: c.name, e: x}
	if g.sc.sig != nil || g.level > 0 {
		// a local class: used at once
		o := g.fresh("o")
		l := []*qstmt{st, {kind: "=", name: o, e: g.newObj(c, d)}}
		g.declare(o, gk{k: kObj, cls: c})
		return l
	}
	g.declare(c.name, gk{k: kNil})
	g.sc.vars[len(g.sc.vars)-1].ro = true
	g.classes = append(g.classes, c)
	o := g.fresh("o")
	l := []*qstmt{st, {kind: "=", name: o, e: g.newObj(c, d)}}
	g.declare(o, gk{k: kObj, cls: c})
	return l
}

func (g *qgen) leafConst(t gk) qx {
	sc := g.sc
	g.sc = &gscope{refd: map[string]bool{}}
	e := g.leaf(t)
	g.sc = sc
	return e
}

func (g *qgen) objStmt(d int) []*qstmt {
	r := g.r
	v, ok := g.pick(func(v gvar) bool { return v.t.k == kObj })
	if !ok {
		return g.classStmt(d)
	}
	c := v.t.cls
	o := func() qx { return g.ref(v.name) }
	switch r.N(8) {
	case 0: // set a field
		f := c.fields[r.N(len(c.fields))]
		return []*qstmt{{e: callOf("set", o(), xs(f.name), g.expr(f.t, d-1))}, {e: g.tr(&xMem{o(), f.name})}}
	case 1: // another object or an alias
		n := g.fresh("o")
		st := &qstmt{kind: "=", name: n, e: o()}
		if r.P(60) {
			for _, x := range g.classes {
				if x == c {
					st.e = g.newObj(c, d)
				}
			}
		}
		g.declare(n, v.t)
		return []*qstmt{st, {e: g.tr(&xBin{"==", &xVar{n}, o()})}}
	case 2: // a stored method
		if len(c.methods) > 0 {
			m := c.methods[r.N(len(c.methods))]
			n := g.fresh("f")
			st := &qstmt{kind: "=", name: n, e: &xMem{o(), m.name}}
			g.declare(n, m.t)
			a, sp := g.args(m.t.sig, d)
			return []*qstmt{st, {e: g.tr(g.call(&xCall{&xVar{n}, a, sp}))}}
		}
	case 3: // a method of the class with an explicit this
		if len(c.methods) > 0 && g.visible(c.name) {
			m := c.methods[r.N(len(c.methods))]
			a, sp := g.args(m.t.sig, d)
			return []*qstmt{{e: g.tr(g.call(&xCall{&xMem{&xVar{c.name}, m.name}, append([]qx{o()}, a...), sp}))}}
		}
	case 4: // a new member
		n := "z" + strconv.Itoa(r.N(3))
		return []*qstmt{{e: callOf("set", o(), xs(n), g.expr(g.kind(), d-1))}, {e: g.tr(&xMem{o(), n})}}
	case 5:
		if r.N(1000) < 10*g.w.err {
			switch r.N(4) {
			case 0:
				n := "_init"
				if len(c.methods) > 0 && r.P(70) {
					n = c.methods[r.N(len(c.methods))].name
				}
				a := []qx{o()}
				if r.P(50) {
					a = append(a, xs("z0"), xi(1))
				}
				return []*qstmt{{e: callOf("set", append(a, xs(n), xi(1))...)}}
			case 1:
				return []*qstmt{{e: g.tr(&xMem{o(), "nosuch"})}}
			case 2:
				return []*qstmt{{e: &xNew{cls: v.name, hasArgs: r.P(50)}}}
			}
			return []*qstmt{{e: g.tr(&xMem{&xVar{c.name}, "nosuch"})}}
		}
	}
	var a []qx
	for _, f := range c.fields {
		a = append(a, &xMem{o(), f.name})
	}
	return []*qstmt{{e: g.tr(a...)}}
}

// program makes a program.
func (g *qgen) program() *qblock {
	b := &qblock{}
	if g.w.classes > 0 && len(g.classes) == 0 {
		b.st = append(b.st, g.classStmt(g.w.depth)...)
	}
	for n := g.r.Range(2, g.w.stmts+2); n > 0; n-- {
		b.st = append(b.st, g.stmt(g.w.depth)...)
	}
	if g.r.P(70) {
		b.st = append(b.st, &qstmt{e: g.expr(g.kind(), g.w.depth)})
	}
	b.trail = g.r.P(30)
	return b
}
