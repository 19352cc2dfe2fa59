package main

// C35: every collection builtin applied to values of every kind.

import (
	"fmt"
	"strings"
)

// collExprs are values of every kind, made afresh.
func collExprs() []qx {
	v := func(n string) qx { return &xVar{n} }
	f := func(s string) qx { return &xLit{s, mustFloat(s)} }
	li := func(n ...int) qx {
		l := &xList{}
		for _, x := range n {
			l.el = append(l.el, xi(x))
		}
		return l
	}
	t := func(n string, a ...qx) qx { return callOf(n, a...) }
	return []qx{xi(0), xi(1), xi(2), xi(3), xi(5), &xUn{"-", xi(1)}, xi(200), f("0.0"), f("1.0"), f("2.5"), &xLit{"'a'", byte('a')}, callOf("byte", xi(1)), v("true"), v("nil"), v("undefined"),
		xs(""), xs("a"), xs("b"), xs("été"), xs("int"), xs("float"), xs("string"), xs("byte"), xs("bool"), xs("var"), xs("string:int"), xs("string:float"), xs("string:string"), xs("string:var"), xs("nosuch"),
		&xList{}, li(1), li(1, 2, 3), &xList{[]qx{f("1.5"), xi(2)}}, &xList{[]qx{xs("a"), xs("b")}}, &xList{[]qx{xi(1), xs("a"), v("nil")}}, &xList{[]qx{li(1), li(2, 3)}}, &xList{[]qx{v("nil")}}, &xList{[]qx{v("true"), v("false")}},
		t("slice", xs("byte"), xi(2)), t("slice", xs("int"), xi(2), xi(5)), t("slice", xs("float"), xi(1), xi(1)), t("slice", xs("string"), xi(0), xi(2)), t("slice", xs("var"), xi(3)), t("slice", xs("bool"), xi(1), xi(2)), t("slice", t("sliceOf", xs("int")), xi(2)),
		&xMap{}, &xMap{[]qx{xs("a"), xi(1)}}, &xMap{[]qx{xi(1), xs("x"), xi(2), xs("y")}}, &xMap{[]qx{xs("a"), f("1.5"), xs("b"), xi(2)}}, &xMap{[]qx{xs("a"), v("nil"), xs("b"), li(1)}}, &xMap{[]qx{xi(0), f("0.5")}}, &xMap{[]qx{xi(1), xi(1), xi(2), xi(4)}}, &xMap{[]qx{xs("a"), xs("b")}},
		t("mkmap", xs("string:int")), t("mkmap", t("mapOf", xs("byte"), xs("bool"))), t("mkmap", t("mapOf", xs("float"), xs("var")), xi(3)), t("mkmap", t("mapOf", xs("var"), xs("int"))),
		t("sliceOf", xs("int")), t("mapOf", xs("int"), xs("string")), t("type", xi(1)),
		&xFn{body: &qblock{}}, v("len"), &xClass{}, &xNew{cls: "C0"}}
}

var collOps = []string{"len", "cap", "sliceOf", "slice", "mkmap", "sliceFrom1", "mapFrom1", "range",
	"append", "append2", "index", "get", "delete", "slice n", "slice n c", "mkmap n", "mapOf", "sliceFrom", "sliceFrom3", "list", "mapFrom", "mapFrom2", "map",
	"set", "set2", "set odd", "sub", "sub from", "sub to", "sub three", "append spread", "assign", "append alias", "set alias", "index call"}

func checkCollGrid(c *Case) {
	g := gridSetup()
	n := len(collExprs())
	op, ai := collOps[c.Idx/n%len(collOps)], c.Idx%n
	unary := c.Idx/n%len(collOps) < 8
	for bi := 0; bi < n; bi++ {
		ex := collExprs()
		a, b := ex[ai], ex[bi]
		pick := func() qx { return collExprs()[c.R.N(n)] }
		w, r := &xVar{"w"}, qx(nil)
		var st []*qstmt
		put := func(name string, e qx) { st = append(st, &qstmt{kind: "=", name: name, e: e}) }
		put("w", a)
		switch op {
		case "len", "cap", "sliceOf", "slice", "mkmap":
			r = callOf(op, w)
		case "sliceFrom1", "mapFrom1":
			r = callOf(op[:len(op)-1], w)
		case "range":
			r = &xSub{w, nil, nil}
		case "append", "get", "delete", "mapOf", "sliceFrom", "mapFrom":
			r = callOf(op, w, b)
		case "append2":
			r = callOf("append", w, b, pick())
		case "append spread":
			r = &xCall{f: &xVar{"append"}, args: []qx{w, b}, spread: true}
		case "index":
			r = &xIdx{w, b}
		case "slice n":
			r = callOf("slice", w, b)
		case "slice n c":
			r = callOf("slice", w, b, collExprs()[c.R.N(8)])
		case "mkmap n":
			r = callOf("mkmap", w, b)
		case "sliceFrom3":
			r = callOf("sliceFrom", w, b, pick())
		case "list":
			r = &xList{[]qx{w, b, pick()}}
		case "mapFrom2":
			r = callOf("mapFrom", w, b, pick(), pick())
		case "map":
			r = &xMap{[]qx{w, b, w, pick()}}
		case "set":
			r = callOf("set", w, b, pick())
		case "set2":
			r = callOf("set", w, pick(), b, pick(), pick())
		case "set odd":
			r = callOf("set", w, pick(), b, pick())
		case "sub":
			r = &xSub{w, b, collExprs()[c.R.N(8)]}
		case "sub from":
			r = &xSub{w, b, nil}
		case "sub to":
			r = &xSub{w, nil, b}
		case "sub three":
			r = callOf("sub", w, pick(), b)
		case "assign":
			st = append(st, &qstmt{kind: "m=", names: []string{"x", "y"}, e: w})
			r = &xList{[]qx{&xVar{"x"}, &xVar{"y"}}}
			put("x", xi(0))
			st[1], st[2] = st[2], st[1]
		case "append alias": // the room behind a slice is shared
			put("u", &xSub{w, nil, xi(1)})
			put("z", callOf("append", &xVar{"u"}, b))
			r = &xList{[]qx{w, &xVar{"u"}, &xVar{"z"}, callOf("len", &xVar{"z"})}}
		case "set alias":
			put("u", w)
			st = append(st, &qstmt{e: callOf("set", &xVar{"u"}, xi(0), b)})
			r = &xList{[]qx{w, &xVar{"u"}}}
		case "index call":
			r = &xIdx{w, &xBin{"-", callOf("len", w), xi(1)}}
		}
		st = append(st, &qstmt{e: callOf("tr", xi(0), r)}, &qstmt{e: callOf("tr", xi(1), w)})
		prog := &qblock{st: st}
		s := &qsession{}
		s.add(c.R, prog, "", true)
		c.Input("%s", s.texts[0])
		want := g.in.text(prog)
		g.in.keep, g.in.grown = nil, nil
		if want.discard != "" {
			c.Ev("unspecified: "+want.discard, 1)
			continue
		}
		here().qtrace = here().qtrace[:0]
		err := g.l.SafeExec([]byte(s.texts[0]), "")
		g.l.Ret()
		if want.err == "" {
			c.Ev("operations with a value", 1)
			if err != nil {
				c.Failf("error %q, expected %s", err.Error(), strings.Join(want.trace, " "))
			}
		} else {
			c.Ev("operations that must fail", 1)
			if err == nil {
				c.Failf("no error")
			}
			if d := errMatches(want.err[1:len(want.err)-1], err.Error()); d != "" {
				c.Failf("%s", d)
			}
		}
		checkTrace(c, want.trace, here().qtrace)
		c.Seen(fmt.Sprint(op, ai, bi))
		if unary {
			return
		}
	}
}
