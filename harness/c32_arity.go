package main

// C32, C34: every number of parameters against every number of arguments, with and without a
// variadic parameter and a spread list, for bodies that are empty and others.

import (
	"fmt"
	"strings"
)

const arityCases = 5 * 2 * 7 * 4 * 2 * 5

func checkArity(c *Case) {
	i := c.Idx
	dig := func(n int) int { d := i % n; i /= n; return d }
	n, vari, m, spread, empty, how := dig(5), dig(2) == 1, dig(7), dig(4)-1, dig(2) == 1, dig(5)
	if vari && n == 0 || spread > m || how == 4 && spread >= 0 { // new takes no list
		return
	}
	var ps, as []string
	for k := 0; k < n; k++ {
		ps = append(ps, fmt.Sprintf("p%d", k))
	}
	for k := 0; k < m; k++ {
		as = append(as, fmt.Sprint(10+k))
	}
	res := strings.Join(ps, ", ")
	if vari {
		ps[n-1] += "..."
	}
	if spread >= 0 { // the last ones are a list
		l := fmt.Sprintf("slice(\"var\", 0, 0)...")
		if spread > 0 {
			l = "[" + strings.Join(as[m-spread:], ", ") + "]..."
		}
		as = append(as[:m-spread:m-spread], l)
	}
	args := "(" + strings.Join(as, ", ") + ")"
	params := "(" + strings.Join(ps, ", ") + ")"
	body := "{ ran = ran + 1; out = [" + res + "]; return 7 }"
	if n == 0 {
		body = "{ ran = ran + 1; out = slice(\"var\"); return 7 }"
	}
	if empty {
		body = "{}"
	}
	var text string
	switch how {
	case 0:
		text = "f = fn" + params + " " + body + "; r = f" + args
	case 1:
		text = "f = [fn" + params + " " + body + "]; r = f[0]" + args
	case 2:
		text = "K = class { fn m" + params + " " + body + " }; o = new K; r = o.m" + args
	case 3:
		text = "K = class { fn m" + params + " " + body + " }; o = new K; f = o.m; r = f" + args
	case 4:
		text = "K = class { fn _init" + params + " " + body + " fn two() { return 2 } }; r = new K" + args + "; r = if r.two() == 2 { " + map[bool]string{true: "nil", false: "7"}[empty] + " }"
	}
	text = "ran = 0; out = nil; " + strings.Replace(text, "{ ran = ran", "{ ran; out; ran = ran", 1)
	c.Input("%s", text)
	l := qengine(false)
	err := l.SafeExec([]byte(text), "")
	ok := m == n || vari && m >= n-1
	if !ok {
		if err == nil {
			c.Failf("%d arguments for %d parameters are accepted", m, n)
		}
		if s := err.Error(); !strings.Contains(s, fmt.Sprint(m)) && (how < 2 || !strings.Contains(s, fmt.Sprint(m+1))) { // methods count this, too
			c.Failf("the error %q doesn't tell the number of arguments %d", s, m)
		}
		if v, _ := l.Var("ran"); v != 0 {
			c.Failf("the body ran with %d arguments for %d parameters", m, n)
		}
		c.Ev("argument counts refused", 1)
		c.Seen(text)
		return
	}
	noErr(c, err)
	want := "7 1 ["
	var vals []string
	for k := 0; k < n; k++ {
		if vari && k == n-1 {
			var rest []string
			for ; k < m; k++ {
				rest = append(rest, fmt.Sprint(10+k))
			}
			vals = append(vals, "["+strings.Join(rest, " ")+"]")
			break
		}
		vals = append(vals, fmt.Sprint(10+k))
	}
	want += strings.Join(vals, " ") + "]"
	if empty {
		want = "<nil> 0 <nil>"
	}
	var got []string
	for _, name := range []string{"r", "ran", "out"} {
		v, _ := l.Var(name)
		got = append(got, fmt.Sprint(v))
	}
	if g := strings.Join(got, " "); g != want {
		c.Failf("result, runs of the body and parameters are %s, want %s", g, want)
	}
	c.Ev("argument counts accepted", 1)
	c.Seen(text)
}
