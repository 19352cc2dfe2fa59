package main

// C08: rule variables and matchers that have no grammar yet.

import (
	"fmt"
	"strings"

	"github.com/qiniu/text/tpl"
)

func unassignedCase(c *Case) {
	r := c.R
	m := &tpl.Matcher{}
	src := strings.TrimSpace(strings.Repeat("a ", 1+r.N(4)))
	if r.P(30) {
		for _, err := range []error{m.Eval(src), m.MatchExactly([]byte(src), "f"), func() error { _, err := m.Match([]byte(src), ""); return err }()} {
			if err != tpl.ErrNoGrammar {
				c.Failf("a matcher without grammar gives %v on %q", err, src)
			}
		}
		c.Ev("matchers without grammar", 1)
	}
	toks, err := m.Tokenize([]byte(src), "")
	if err != nil {
		c.Failf("%v", err)
	}
	n := len(toks)
	v := tpl.Var(fmt.Sprintf("v%d", r.N(9)))
	id := tpl.Gr(tpl.IDENT)
	type want struct {
		s       string
		g       tpl.Grammar
		before  int // tokens consumed while v has no grammar (-1: error)
		after   int // and when it is IDENT
		numbers bool
	}
	one := func(ok bool, x int) int {
		if ok {
			return x
		}
		return -1
	}
	l := []want{
		{"v", v, -1, 1, true},
		{"v|IDENT", tpl.Or(v, id), 1, 1, true},
		{"IDENT|v", tpl.Or(id, v), 1, 1, true},
		{"IDENT IDENT|v", tpl.Or(tpl.And(id, id), v), one(n > 1, 2), min(n, 2), true},
		{"v IDENT", tpl.And(v, id), -1, one(n > 1, 2), true},
		{"IDENT v", tpl.And(id, v), -1, one(n > 1, 2), true},
		{"?v", tpl.Repeat01(v), 0, 1, true},
		{"*v", tpl.Repeat0(v), 0, n, true},
		{"+v", tpl.Repeat1(v), -1, n, true},
		{"@v", tpl.Peek(v), -1, 0, true},
		{"~v", tpl.Not(v), 0, -1, true},
		{"v%INT", tpl.List(v, tpl.Gr(tpl.INT)), -1, 1, true},
		{"v%=INT", tpl.List0(v, tpl.Gr(tpl.INT)), 0, 1, true},
		{"INT%=v", tpl.List0(tpl.Gr(tpl.INT), v), 0, 0, true},
		{"IDENT%v", tpl.List(id, v), 1, (n-1)/2*2 + 1, true},
		{"named", tpl.Named("x", v), -1, 1, true},
		{"1 v", tpl.And(tpl.GrTrue, v), -1, 1, true},
	}
	check := func(when string, pick func(w want) int) {
		for i := 0; i < 8; i++ {
			w := l[r.N(len(l))]
			exp := pick(w)
			c.Input("%s with %s %s, text %q", w.s, v.Name, when, src)
			got, err := w.g.Match(toks, m)
			if (err == nil) != (exp >= 0) || err == nil && got != exp {
				c.Failf("matches %d tokens (error %v), want %d", got, err, exp)
			}
			if w.s == "v" && err != nil && err != tpl.ErrVarNotAssigned {
				c.Failf("error %v", err)
			}
			c.Ev("variables "+when, 1)
			c.Seen(w.s + when + src)
		}
	}
	check("not assigned", func(w want) int { return w.before })
	if err := v.Assign(id); err != nil {
		c.Failf("Assign: %v", err)
	}
	check("assigned", func(w want) int { return w.after })
	if err := v.Assign(tpl.Gr(tpl.INT)); err != tpl.ErrVarAssigned {
		c.Failf("a second Assign gives %v", err)
	}
	check("assigned", func(w want) int { return w.after })
	// a named grammar can be given another grammar and name
	x := tpl.Named("old", tpl.Gr(tpl.INT))
	seq := tpl.And(x, tpl.Repeat0(x))
	if _, err := seq.Match(toks, m); err == nil {
		c.Failf("named INT matches %q", src)
	}
	x.Assign("new", id)
	if got, err := seq.Match(toks, m); err != nil || got != n {
		c.Failf("named IDENT, assigned later, matches %d tokens of %q: %v", got, src, err)
	}
	if s := tpl.Code(seq, m.Tokener()); s != "new *new" {
		c.Failf("the code is %q", s)
	}
}
