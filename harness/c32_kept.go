package main

// C32, C34: the arguments of calls belong to the call: functions and methods that keep or return
// them (as lists, in closures, in members, in deferred expressions), called again and again, also
// through one stored method value.

import (
	"fmt"
	"strings"
)

func checkKept(methods bool) func(c *Case) {
	return func(c *Case) {
		r := c.R
		v := func(n string) qx { return &xVar{n} }
		st := func(k string, e qx) *qstmt { return &qstmt{kind: k, e: e} }
		blk := func(l ...*qstmt) *qblock { return &qblock{st: l} }
		fn := func(ps string, body ...*qstmt) *xFn {
			f := &xFn{body: blk(body...)}
			for _, p := range strings.Fields(ps) {
				if strings.HasSuffix(p, "...") {
					f.variadic, p = true, p[:len(p)-3]
				}
				f.params = append(f.params, p)
			}
			return f
		}
		call := func(f qx, a ...qx) qx { return &xCall{f: f, args: a} }
		num := func(i int) qx { return xi(i) }
		noise := func() *qstmt { // calls in between
			l := []*qstmt{st("", call(v("f0"), num(70), num(71), num(72))), st("", call(v("f1"), num(73), num(74))), st("", call(v("f5"), num(75), num(76), num(77)))}
			if methods {
				l = append(l, st("", call(&xMem{v("o1"), "m"}, num(78), num(79), num(80))), st("", call(v("m1"), num(81), num(82))), st("", call(v("m2"), num(83), num(84), num(85))))
			}
			return l[r.N(len(l))]
		}
		prog := blk()
		put := func(name string, e qx) { prog.st = append(prog.st, &qstmt{kind: "=", name: name, e: e}) }
		put("f0", fn("rest...", st("return", v("rest"))))
		put("f1", fn("x rest...", st("", call(v("f0"), v("x"), v("x"))), st("return", v("rest"))))
		put("f5", fn("x y z", st("return", &xList{[]qx{v("z"), v("y"), v("x")}})))
		// name -> number of parameters before the variadic one; closures return functions
		type callee struct {
			e    qx
			n    int
			vari bool
			fun  bool
		}
		var l []callee
		if methods {
			put("K", &xClass{names: []string{"_init", "m", "n", "k", "cl"}, fns: []*xFn{
				fn("rest...", st("", callOf("set", v("this"), xs("init"), v("rest")))),
				fn("rest...", st("return", v("rest"))),
				fn("x rest...", st("", callOf("set", v("this"), xs("kept"), v("rest"))), st("", call(&xMem{v("this"), "m"}, v("x"), v("x"))), st("return", &xMem{v("this"), "kept"})),
				fn("x y", st("", callOf("set", v("this"), xs("pair"), &xList{[]qx{v("x"), v("y")}})), st("return", &xMem{v("this"), "pair"})),
				fn("x rest...", st("return", fn("", st("return", &xList{[]qx{v("x"), v("rest"), v("this")}})))),
			}})
			put("o1", &xNew{cls: "K", hasArgs: true, args: []qx{num(1), num(2)}})
			put("o2", &xNew{cls: "K", hasArgs: true, args: []qx{num(3)}})
			put("m1", &xMem{v("o1"), "m"})
			put("m2", &xMem{v("o2"), "n"})
			put("m3", &xMem{v("o1"), "cl"})
			l = []callee{{&xMem{v("o1"), "m"}, 0, true, false}, {&xMem{v("o2"), "m"}, 0, true, false}, {v("m1"), 0, true, false}, {v("m1"), 0, true, false}, {v("m2"), 1, true, false}, {v("m2"), 1, true, false}, {&xMem{v("o1"), "k"}, 2, false, false}, {v("m3"), 1, true, true}, {&xMem{v("o2"), "cl"}, 1, true, true}}
		} else {
			put("f2", fn("rest...", st("return", fn("", st("return", v("rest"))))))
			put("f3", fn("n rest...", st("", &xIf{conds: []qx{&xBin{">", v("n"), num(0)}}, bodies: []*qblock{blk(st("", call(v("f3"), &xBin{"-", v("n"), num(1)}, v("n"), num(7))))}}), st("return", v("rest"))))
			put("f4", fn("x rest...", st("defer", callOf("tr", num(-1), v("rest"), v("x"))), noise(), st("return", v("rest"))))
			put("f6", fn("x y z", st("return", fn("", st("return", &xList{[]qx{v("x"), v("y"), v("z")}})))))
			l = []callee{{v("f0"), 0, true, false}, {v("f1"), 1, true, false}, {v("f2"), 0, true, true}, {v("f3"), 1, true, false}, {v("f4"), 1, true, false}, {v("f6"), 3, false, true}, {v("f5"), 3, false, false}}
		}
		// factories: what each call makes is its own
		put("mkf", fn("n", st("return", fn("x", st("return", &xList{[]qx{v("n"), v("x")}})))))
		put("mkc", fn("n", st("return", fn("", st("", v("n")), &qstmt{kind: "++", name: "n"}, st("return", v("n"))))))
		put("mkk", fn("n", st("return", &xClass{names: []string{"get"}, fns: []*xFn{fn("x", st("return", &xList{[]qx{v("n"), v("x")}}))}})))
		put("mkk2", fn("n", st("return", &xClass{names: []string{"_init", "get", "next"}, fns: []*xFn{
			fn("", st("", callOf("set", v("this"), xs("at"), v("n")))),
			fn("", st("return", &xMem{v("this"), "at"})),
			fn("", st("", v("n")), &qstmt{kind: "++", name: "n"}, st("return", &xList{[]qx{v("n"), &xMem{v("this"), "at"}}}))}})))
		var made []string
		make1 := func() {
			name := fmt.Sprintf("M%d", len(made))
			k := r.N(2)
			if methods {
				k = 2 + r.N(2)
			}
			put(name, call(v([]string{"mkf", "mkc", "mkk", "mkk2"}[k]), num(100*(len(made)+1))))
			made = append(made, []string{"mkf", "mkc", "mkk", "mkk2"}[k])
		}
		use := func(i int) qx {
			name := fmt.Sprintf("M%d", i)
			switch made[i] {
			case "mkf":
				return call(v(name), num(r.N(50)))
			case "mkc":
				return call(v(name))
			case "mkk":
				o := &xNew{cls: name, hasArgs: true}
				put("O", o)
				return call(&xMem{v("O"), "get"}, num(r.N(50)))
			}
			put("O", &xNew{cls: name, hasArgs: true})
			if r.P(50) {
				return call(&xMem{v("O"), "get"})
			}
			return call(&xMem{v("O"), "next"})
		}
		arg := func(i int) qx {
			if i == 0 {
				return num(r.N(4))
			}
			switch r.N(8) {
			case 0:
				return xs(r.Pick("a", "é", ""))
			case 1:
				return &xList{[]qx{num(r.N(9)), num(r.N(9))}}
			case 2:
				return v("nil")
			case 3:
				return call(v("f0"), num(r.N(9)), num(r.N(9)))
			}
			return num(10 + r.N(60))
		}
		var res []qx
		for k := 3 + r.N(8); k > 0; k-- {
			f := l[r.N(len(l))]
			n := f.n
			if f.vari {
				n += r.N(5)
			}
			x := &xCall{f: f.e}
			for i := 0; i < n; i++ {
				x.args = append(x.args, arg(i))
			}
			if n > f.n && r.P(20) { // the variadic ones as a list
				x.args, x.spread = append(x.args[:f.n:f.n], &xList{append([]qx{}, x.args[f.n:]...)}), true
			}
			name := fmt.Sprintf("r%d", len(res))
			put(name, x)
			e := v(name)
			if f.fun {
				e = call(v(name))
			} else if f.vari && n > f.n && r.P(15) {
				prog.st = append(prog.st, st("", callOf("set", v(name), num(0), num(99))))
			}
			res = append(res, e)
			if r.P(50) {
				make1()
			}
			for k := r.N(3); k > 0 && len(made) > 0; k-- {
				e := use(r.N(len(made)))
				name := fmt.Sprintf("r%d", len(res))
				put(name, e)
				res = append(res, v(name))
				c.Ev("uses of what factories made", 1)
			}
			if r.P(40) {
				prog.st = append(prog.st, noise())
			}
			if r.P(30) {
				prog.st = append(prog.st, st("", callOf("tr", append([]qx{num(len(res))}, res...)...)))
			}
		}
		if methods {
			res = append(res, &xMem{v("o1"), "init"}, &xMem{v("o2"), "init"})
		}
		prog.st = append(prog.st, st("", callOf("tr", append([]qx{num(0)}, res...)...)))
		s := &qsession{}
		s.add(r, prog, "", true)
		c.Input("%s", s.texts[0])
		in := newRint()
		refHost(in)
		in.max = 1 << 40
		want := in.text(prog)
		if want.discard != "" {
			c.Ev("unspecified: "+want.discard, 1)
			return
		}
		if want.err != "" {
			panic("the reference fails: " + want.err)
		}
		here().qtrace = here().qtrace[:0]
		l1 := qengine(false)
		if err := l1.SafeExec([]byte(s.texts[0]), ""); err != nil {
			c.Failf("error %q, expected %s", err.Error(), strings.Join(want.trace, " "))
		}
		checkTrace(c, want.trace, here().qtrace)
		c.Ev("calls whose arguments are kept", len(res))
		c.Seen(s.texts[0])
	}
}
