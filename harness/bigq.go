package main

// Sizes for C29 to C38: programs of qlang that grow in one dimension.

import (
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

// qsrc is a program with what has to come of it.
type qsrc struct {
	src   string
	want  interface{} // of the variable x
	free  bool        // x is not looked at
	trace []string    // the values passed to tr
	err   string      // the error holds this
	line  int         // and names this line
}

type bigQ struct {
	bigDim
	f func(r *Rand, n int) qsrc
}

func qval(src string, want interface{}) qsrc { return qsrc{src: src, want: want} }

// tri is a traced int.
func tri(i int) string { return fmt.Sprintf("tr(%d, %d)", i, i) }

func triTrace(i int) string { return fmt.Sprintf("int:%d int:%d ", i, i) }

func numbers(n int) (l []int) {
	for i := 0; i < n; i++ {
		l = append(l, i)
	}
	return
}

func tris(n int) (l []string) {
	for i := 0; i < n; i++ {
		l = append(l, triTrace(i))
	}
	return
}

func bigQdims(l []bigQ) (d []bigDim) {
	for _, x := range l {
		d = append(d, x.bigDim)
	}
	return
}

// runBigQ runs the program and compares what it does.
func runBigQ(c *Case, q qsrc) {
	r := c.R
	l := qengine(r.P(50))
	here().qtrace = here().qtrace[:0]
	file := r.Pick("", "a.ql")
	err := l.SafeExec([]byte(q.src), file)
	show := clip(q.src, 300)
	if (err != nil) != (q.err != "") {
		e := ""
		if err != nil {
			e = clip(err.Error(), 400)
		}
		c.Failf("error %q, expected %q: %s", e, q.err, show)
	}
	if err != nil {
		e := err.Error()
		if !strings.Contains(e, q.err) {
			c.Failf("error %q doesn't say %q: %s", clip(e, 400), q.err, show)
		}
		if q.line > 0 {
			at := fmt.Sprintf("line %d:", q.line)
			if file != "" {
				at = fmt.Sprintf("%s:%d:", file, q.line)
			}
			if !strings.Contains(e, at) {
				c.Failf("error %q doesn't name %q: %s", clip(e, 400), at, show)
			}
		}
	}
	got := here().qtrace
	for i, w := range q.trace {
		if i >= len(got) {
			c.Failf("%d calls of tr, expected %d: %s", len(got), len(q.trace), show)
		}
		if got[i] != w {
			c.Failf("call %d of tr is %s, expected %s: %s", i, clip(got[i], 100), clip(w, 100), show)
		}
	}
	if len(got) > len(q.trace) {
		c.Failf("%d calls of tr, expected %d: %s", len(got), len(q.trace), show)
	}
	if !q.free {
		v, ok := l.Var("x")
		if !ok && q.want != nil {
			c.Failf("no variable x: %s", show)
		}
		if d := diffVal("x", v, q.want); d != "" {
			c.Failf("%s: %s", d, show)
		}
	}
	k := stackLen(l)
	if err == nil && k != 1 || err != nil && k != 0 {
		c.Failf("%d values on the stack (error %v): %s", k, err != nil, show)
	}
	l.Ret()
}

func diffVal(at string, got, want interface{}) string {
	if reflect.DeepEqual(got, want) {
		return ""
	}
	g, w := reflect.ValueOf(got), reflect.ValueOf(want)
	if got != nil && want != nil && g.Type() == w.Type() {
		switch g.Kind() {
		case reflect.Slice:
			if g.Len() != w.Len() {
				return fmt.Sprintf("%s has %d elements, expected %d", at, g.Len(), w.Len())
			}
			for i := 0; i < g.Len(); i++ {
				if d := diffVal(fmt.Sprintf("%s[%d]", at, i), g.Index(i).Interface(), w.Index(i).Interface()); d != "" {
					return d
				}
			}
		case reflect.Map:
			if g.Len() != w.Len() {
				return fmt.Sprintf("%s has %d elements, expected %d", at, g.Len(), w.Len())
			}
		}
	}
	return fmt.Sprintf("%s is %T %s, expected %T %s", at, got, clip(fmt.Sprint(got), 200), want, clip(fmt.Sprint(want), 200))
}

func bigQpart(l []bigQ, quick, thorough int) *Part {
	return bigPart("big", bigQdims(l), quick, thorough, func(c *Case, b bigCase) {
		runBigQ(c, l[b.dim].f(c.R, b.n))
	})
}

// ---------------------------------------------------------------- C29

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		fail2("%v", err)
	}
	return n
}

// spread joins terms, now and then on lines of their own.
func spread(r *Rand, n int, sep string, f func(i int) string) string {
	nl := r.P(50)
	return times(n, func(i int) string {
		s := f(i)
		if i < n-1 {
			s += sep
			if nl && i%7 == 6 {
				s += "\n"
			}
		}
		return s
	})
}

var big29 = []bigQ{
	{bigDim{"terms of a sum", 20001}, func(r *Rand, n int) qsrc {
		v, s := 0, "x = 0"
		s += times(n, func(i int) string {
			k := r.N(1000)
			if r.P(50) {
				v += k
				return fmt.Sprint(" + ", k)
			}
			v -= k
			return fmt.Sprint(" - ", k)
		})
		return qval(s, v)
	}},
	{bigDim{"factors of a product", 20001}, func(r *Rand, n int) qsrc {
		v, s := 1, "x = 1"
		s += times(n, func(i int) string {
			k := 1 + r.N(1000)
			if i%2 == 1 {
				v %= 1000 + k
				return fmt.Sprint(" % ", 1000+k)
			}
			v *= k
			return fmt.Sprint(" * ", k)
		})
		return qval(s, v)
	}},
	{bigDim{"terms of a float sum", 10001}, func(r *Rand, n int) qsrc {
		v, s := 0.5, "x = 0.5"
		s += times(n, func(i int) string {
			k := r.N(1000)
			switch r.N(3) {
			case 0:
				v += float64(k)
				return fmt.Sprint(" + ", k)
			case 1:
				v -= float64(k) + 0.25
				return fmt.Sprintf(" - %d.25", k)
			}
			f := float64(k) * 1.5
			v += f
			return fmt.Sprintf(" + %d * 1.5", k)
		})
		return qval(s, v)
	}},
	{bigDim{"strings added", 10001}, func(r *Rand, n int) qsrc {
		return qval(`x = ""`+times(n, func(i int) string { return fmt.Sprintf(` + "%d,"`, i) }), times(n, func(i int) string { return fmt.Sprintf("%d,", i) }))
	}},
	{bigDim{"length of a string", 131073}, func(r *Rand, n int) qsrc {
		s := cycle(r.Pick("abc", "é变", "x"), n)
		return qval(fmt.Sprintf("a = %q; b = a + \"!\"; x = [a == b, a < b, b > a, a + \"!\" == b, a != b, b <= a, \"%s\" == a]", s, s), []interface{}{false, true, true, true, true, false, true})
	}},
	{bigDim{"strings that differ in one place", 70001}, func(r *Rand, n int) qsrc {
		a := cycle(r.Pick("mnop", "m"), n)
		k := r.N(n)
		if r.P(30) {
			k = n - 1
		}
		b := a[:k] + "z" + a[k+1:]
		return qval(fmt.Sprintf("a = %q; b = %q; x = [a == b, a != b, a < b, a > b, a <= b, a >= b, b < a, a + b == b + a, get({a: 1, b: 2}, b) == 2]", a, b),
			[]interface{}{false, true, true, false, true, false, false, false, true})
	}},
	{bigDim{"length of an int's string", 19}, func(r *Rand, n int) qsrc {
		s := cycle("123456789", n)
		return qval(fmt.Sprintf("a = %s; x = [\"s\", a, int(float(int(7)))]", s), []interface{}{"s", atoi(s), 7})
	}},
	{bigDim{"arguments of max", 20001}, func(r *Rand, n int) qsrc {
		top, f := r.N(n), r.P(50)
		src := "x = max(" + spread(r, n, ",", func(i int) string {
			k := i % 97
			if i == top {
				k = 100
			}
			if f && i == n/2 {
				return fmt.Sprint(k, ".0")
			}
			return fmt.Sprint(k)
		}) + ")"
		if f {
			return qval(src, 100.0)
		}
		return qval(src, 100)
	}},
	{bigDim{"arguments of min", 20001}, func(r *Rand, n int) qsrc {
		top, f := r.N(n), r.P(50)
		src := "x = min(" + spread(r, n, ",", func(i int) string {
			k := 5 + i%97
			if i == top {
				k = 2
			}
			if f && i == 0 {
				return fmt.Sprint(k, ".0")
			}
			return fmt.Sprint(k)
		}) + ")"
		if f {
			return qval(src, 2.0)
		}
		return qval(src, 2)
	}},
	{bigDim{"parentheses", 3000}, func(r *Rand, n int) qsrc {
		return qval("x = "+times(n, func(i int) string { return "(1 + " })+"1"+strings.Repeat(")", n), n+1)
	}},
	{bigDim{"minus signs", 3000}, func(r *Rand, n int) qsrc {
		v := 5
		if n%2 == 1 {
			v = -5
		}
		return qval("x = "+strings.Repeat("- ", n)+"5", v)
	}},
	{bigDim{"plus signs and minus signs", 3000}, func(r *Rand, n int) qsrc {
		v := 5.5
		return qval("x = "+times(n, func(i int) string {
			if r.P(50) {
				v = -v
				return "- "
			}
			return "+ "
		})+"5.5", v)
	}},
	{bigDim{"negations", 3000}, func(r *Rand, n int) qsrc {
		return qval("x = "+strings.Repeat("!", n)+"true", n%2 == 0)
	}},
	{bigDim{"digits of a float", 5001}, func(r *Rand, n int) qsrc {
		s := "0." + cycle(r.Pick("3", "123456789", "9"), n)
		v, _ := strconv.ParseFloat(s, 64)
		return qval("x = "+s, v)
	}},
	{bigDim{"leading zeros", 5001}, func(r *Rand, n int) qsrc {
		return qval("x = "+strings.Repeat("0", n)+"17", 15)
	}},
	{bigDim{"digits of an int", 5001}, func(r *Rand, n int) qsrc {
		if n < 19 {
			v, _ := strconv.Atoi(cycle("123456789", n))
			return qval("x = "+cycle("123456789", n), v)
		}
		return qsrc{src: "x = 1;\nx = " + cycle("123456789", n+1), want: 1, err: "out of range", line: 2}
	}},
	{bigDim{"assignments with operators", 10001}, func(r *Rand, n int) qsrc {
		v, s := 1, "x = 1;\n"
		s += times(n, func(i int) string {
			k := 1 + r.N(99)
			switch r.N(7) {
			case 0:
				v++
				return "x++;\n"
			case 1:
				v--
				return "x--; "
			case 2:
				v += k
				return fmt.Sprintf("x += %d; ", k)
			case 3:
				v -= k
				return fmt.Sprintf("x -= %d;\n", k)
			case 4:
				v *= k
				return fmt.Sprintf("x *= %d; ", k)
			case 5:
				v /= k
				return fmt.Sprintf("x /= %d; ", k)
			}
			v %= 100000 + k
			return fmt.Sprintf("x %%= %d; ", 100000+k)
		})
		return qval(s, v)
	}},
	{bigDim{"bits", 62}, func(r *Rand, n int) qsrc {
		v := 1 << uint(n)
		return qval(fmt.Sprintf("a = %d; x = [a + 1, a - 1, -a, a * 1, a / 3, a %% 1000, int(a), max(a, 1), min(a, -a), 0x%x]", v, v),
			[]int{v + 1, v - 1, -v, v, v / 3, v % 1000, v, v, -v, v})
	}},
	{bigDim{"exponent", 308}, func(r *Rand, n int) qsrc {
		v := math.Pow10(n)
		v, _ = strconv.ParseFloat(fmt.Sprintf("1.5e%d", n), 64)
		return qval(fmt.Sprintf("a = 1.5e%d; x = [a, -a, a * 2, a / 3, a + 1, 2 - a, max(a, 3), float(a)]", n), []float64{v, -v, v * 2, v / 3, v + 1, 2 - v, math.Max(v, 3), v})
	}},
	{bigDim{"operators of all ranks", 5001}, func(r *Rand, n int) qsrc {
		// sums of products, compared
		sum := 0
		s := times(n, func(i int) string {
			a, b := r.N(50), r.N(50)
			sum += a * b
			return fmt.Sprintf("%d * %d + ", a, b)
		}) + "0"
		return qval(fmt.Sprintf("x = %s == %d && !(%s < %d) || false", s, sum, s, sum), true)
	}},
}

// ---------------------------------------------------------------- C30

var big30 = []bigQ{
	{bigDim{"terms of a sum", 20001}, func(r *Rand, n int) qsrc {
		return qsrc{src: "x = " + spread(r, n, " + ", tri), want: n * (n - 1) / 2, trace: tris(n)}
	}},
	{bigDim{"factors of a product", 20001}, func(r *Rand, n int) qsrc {
		return qsrc{src: "x = " + spread(r, n, " * ", tri), want: 0, trace: tris(n)}
	}},
	{bigDim{"comparisons", 10001}, func(r *Rand, n int) qsrc {
		var l []interface{}
		s := spread(r, n, ",", func(i int) string {
			l = append(l, true)
			return fmt.Sprintf("%s < %s", tri(2*i), tri(2*i+1))
		})
		return qsrc{src: "x = [" + s + "]", want: l, trace: tris(2 * n)}
	}},
	{bigDim{"operands of &&", 10001}, func(r *Rand, n int) qsrc {
		k := r.N(n + 1) // the false one
		var tr []string
		for i := 0; i < n && i <= k; i++ {
			tr = append(tr, fmt.Sprintf("int:%d bool:%v ", i, i != k))
		}
		return qsrc{src: "x = " + spread(r, n, " && ", func(i int) string { return fmt.Sprintf("tr(%d, %v)", i, i != k) }), want: k == n, trace: tr}
	}},
	{bigDim{"operands of ||", 10001}, func(r *Rand, n int) qsrc {
		k := r.N(n + 1)
		var tr []string
		for i := 0; i < n && i <= k; i++ {
			tr = append(tr, fmt.Sprintf("int:%d bool:%v ", i, i == k))
		}
		return qsrc{src: "x = " + spread(r, n, " || ", func(i int) string { return fmt.Sprintf("tr(%d, %v)", i, i == k) }), want: k < n, trace: tr}
	}},
	{bigDim{"&& to the right", 257}, func(r *Rand, n int) qsrc {
		k := r.N(n + 1)
		var tr []string
		for i := 0; i < n && i <= k; i++ {
			tr = append(tr, fmt.Sprintf("int:%d bool:%v ", i, i != k))
		}
		return qsrc{src: "x = " + times(n, func(i int) string { return fmt.Sprintf("tr(%d, %v) && (", i, i != k) }) + "true" + strings.Repeat(")", n), want: k == n, trace: tr}
	}},
	{bigDim{"|| and && taking turns", 10001}, func(r *Rand, n int) qsrc {
		v := false
		var tr []string
		s := "false" + times(n, func(i int) string {
			all, any := true, ""
			k := 1 + r.N(3)
			for j := 0; j < k; j++ {
				b := r.P(60)
				if !v && all {
					tr = append(tr, fmt.Sprintf("int:%d bool:%v ", i, b))
				}
				all = all && b
				any += fmt.Sprintf(" && tr(%d, %v)", i, b)
			}
			if r.P(98) { // keep the chain false for a while
				any += " && false"
				all = false
			}
			v = v || all
			return " ||\n" + any[4:]
		})
		return qsrc{src: "x = " + s, want: v, trace: tr}
	}},
	{bigDim{"operands never evaluated", 10001}, func(r *Rand, n int) qsrc {
		return qsrc{src: "x = false && " + spread(r, n, " * ", tri) + " == 0 || true || " + spread(r, n, " + ", tri) + " == 0", want: true}
	}},
	{bigDim{"arguments", 20001}, func(r *Rand, n int) qsrc {
		return qsrc{src: "x = max(" + spread(r, n, ", ", tri) + ")", want: n - 1, trace: tris(n)}
	}},
	{bigDim{"arguments of a function", 10001}, func(r *Rand, n int) qsrc {
		return qsrc{src: "f = fn(a...) { return a; }; x = len(f(" + spread(r, n, ", ", tri) + "))", want: n, trace: tris(n)}
	}},
	{bigDim{"elements of a list", 20001}, func(r *Rand, n int) qsrc {
		return qsrc{src: "x = [" + spread(r, n, ", ", tri) + "]", want: numbers(n), trace: tris(n)}
	}},
	{bigDim{"elements of a map", 10001}, func(r *Rand, n int) qsrc {
		m := map[int]int{}
		return qsrc{src: "x = {" + spread(r, n, ", ", func(i int) string {
			m[2*i] = 2*i + 1
			return tri(2*i) + ": " + tri(2*i+1)
		}) + "}", want: m, trace: tris(2 * n)}
	}},
	{bigDim{"calls in calls", 1001}, func(r *Rand, n int) qsrc {
		var tr []string
		for i := n - 1; i >= 0; i-- {
			tr = append(tr, fmt.Sprintf("int:%d int:7 ", i))
		}
		return qsrc{src: "x = " + times(n, func(i int) string { return fmt.Sprintf("tr(%d, ", i) }) + "7" + strings.Repeat(")", n), want: 7, trace: tr}
	}},
	{bigDim{"statements", 20001}, func(r *Rand, n int) qsrc {
		sep := r.Pick("; ", ";\n", ";\n\n")
		return qsrc{src: times(n, func(i int) string { return tri(i) + sep }) + "x = 1", want: 1, trace: tris(n)}
	}},
	{bigDim{"indexes of indexes", 1001}, func(r *Rand, n int) qsrc {
		return qsrc{src: "l = [0]; x = " + strings.Repeat("l[", n) + "tr(0, 0)" + strings.Repeat("]", n), want: 0, trace: []string{triTrace(0)}}
	}},
	{bigDim{"statements of a function not called", 10001}, func(r *Rand, n int) qsrc {
		return qsrc{src: "f = fn() { " + times(n, func(i int) string { return tri(i) + ";\n" }) + "}; x = 1", want: 1}
	}},
	{bigDim{"statements of a branch not taken", 10001}, func(r *Rand, n int) qsrc {
		b := times(n, func(i int) string { return tri(i) + ";\n" }) + "0"
		s := r.Pick("if false { "+b+" } else { 1 }", "switch 1 { case 1: 1; case 2: "+b+" default: "+b+" }", "for false { "+b+" }; 1", "if true { 1 } else { "+b+" }", "if true { 1 } elif "+tri(1)+" == 1 { "+b+" }")
		return qsrc{src: s + "; x = 1", want: 1}
	}},
	{bigDim{"functions in functions, none called", 1001}, func(r *Rand, n int) qsrc {
		return qsrc{src: "f = " + times(n, func(i int) string { return "fn() { " + tri(i) + "; return " }) + "1" + strings.Repeat("; }", n) + "; x = 1", want: 1}
	}},
	{bigDim{"blocks in blocks, none run", 1001}, func(r *Rand, n int) qsrc {
		var end []string
		s := times(n, func(i int) string {
			a := r.Pick("if ", "switch {\ncase ", "for ", "false && fn(){ ", "false || ")
			if i == 0 {
				a = "if false && "
			}
			switch a {
			case "switch {\ncase ":
				end = append(end, "}")
				return a + tri(i) + " == 1: "
			case "false && fn(){ ":
				end = append(end, "}()")
				return a + tri(i) + "; "
			case "false || ":
				end = append(end, "")
				return a
			}
			end = append(end, "}")
			return a + tri(i) + " == 1 { "
		}) + tri(n)
		for i := len(end) - 1; i >= 0; i-- {
			s += end[i]
		}
		return qsrc{src: s + "; x = 1", want: 1}
	}},
	{bigDim{"deferred expressions", 5001}, func(r *Rand, n int) qsrc {
		var tr []string
		for i := n - 1; i >= 0; i-- {
			tr = append(tr, triTrace(i))
		}
		return qsrc{src: "x = 1; tr(99, 99); " + times(n, func(i int) string { return "defer " + tri(i) + ";\n" }), want: 1, trace: append([]string{triTrace(99)}, tr...)}
	}},
	{bigDim{"members of members", 1001}, func(r *Rand, n int) qsrc {
		return qsrc{src: "m = mkmap(mapOf(\"string\", \"var\")); set(m, \"m\", m, \"v\", 7); f = fn(i) { tr(i, i); return m; }; x = f(3)" + strings.Repeat(".m", n) + ".v", want: 7, trace: []string{triTrace(3)}}
	}},
	{bigDim{"evaluations of one right side", 20001}, func(r *Rand, n int) qsrc {
		return qsrc{src: fmt.Sprintf("x = 0; for i = 0; i < %d; i++ { (i %% 2 == 0 && tr(i, true)) || (i %% 3 == 0 && tr(i, false)); x++; }", n), want: n, trace: func() (l []string) {
			for i := 0; i < n; i++ {
				if i%2 == 0 || i%3 == 0 {
					l = append(l, fmt.Sprintf("int:%d bool:%v ", i, i%2 == 0))
				}
			}
			return
		}()}
	}},
}

// ---------------------------------------------------------------- C31

var big31 = []bigQ{
	{bigDim{"rounds", 70001}, func(r *Rand, n int) qsrc {
		s := []string{"for i = 0; i < %d; i++ { x += i; }", "i = 0; for i < %d { x += i; i++; }", "i = 0; for i < %d { x += i; if true { i++ } }", "for i = 0; i < %d; if true { i++ } { x += i }"}[r.N(4)]
		return qval(fmt.Sprintf("x = 0; "+s, n), n*(n-1)/2)
	}},
	{bigDim{"rounds without an end", 20001}, func(r *Rand, n int) qsrc {
		return qval(fmt.Sprintf("f = fn() { i = 0; for { i++; if i == %d { return i; } } }; x = f()", n), n)
	}},
	{bigDim{"rounds of rounds", 257}, func(r *Rand, n int) qsrc {
		return qval(fmt.Sprintf("x = 0; for i = 0; i < %d; i++ { for j = 0; j <= i; j++ { x++; }; }", n), n*(n+1)/2)
	}},
	{bigDim{"branches of an if", 2001}, func(r *Rand, n int) qsrc {
		k := r.N(n + 2)
		if r.P(30) {
			k = n - 1 + r.N(3)
		}
		var tr []string
		for i := 0; i <= n && i <= k; i++ {
			tr = append(tr, fmt.Sprintf("int:%d bool:%v ", i, i == k))
		}
		s := fmt.Sprintf("if tr(0, %v) { x = 0 }", k == 0)
		s += times(n, func(i int) string { return fmt.Sprintf(" elif tr(%d, %v) { x = %d }", i+1, i+1 == k, i+1) })
		if r.P(50) {
			s += " else { x = 'e' }"
			if k > n {
				return qsrc{src: s, want: byte('e'), trace: tr}
			}
		}
		q := qsrc{src: "x = \"\"; " + s, want: k, trace: tr}
		if k > n {
			q.want = ""
		}
		return q
	}},
	{bigDim{"cases of a switch", 2001}, func(r *Rand, n int) qsrc {
		k := r.N(n + 2)
		if r.P(30) {
			k = n - 1 + r.N(2)
		}
		var tr []string
		for i := 0; i < n && i <= k; i++ {
			tr = append(tr, triTrace(i))
		}
		s := fmt.Sprintf("x = \"\"; switch %d {", k) + times(n, func(i int) string { return fmt.Sprintf("\ncase %s: x = %d", tri(i), i) })
		want := interface{}(k)
		if r.P(50) {
			s += "\ndefault: x = 'd'"
			if k >= n {
				want = byte('d')
			}
		} else if k >= n {
			want = ""
		}
		return qsrc{src: s + "\n}", want: want, trace: tr}
	}},
	{bigDim{"cases of the same value", 2001}, func(r *Rand, n int) qsrc {
		k := r.N(n)
		return qval(fmt.Sprintf("x = \"\"; switch {%s\n}", times(n, func(i int) string { return fmt.Sprintf("\ncase %v: x = %d", i >= k, i) })), k)
	}},
	{bigDim{"cases of the same text", 2001}, func(r *Rand, n int) qsrc {
		k := r.N(n + 1)
		want := []int{k, k + 1}
		if k == n {
			want = []int{-1, n}
		}
		ret, cond := "c", fmt.Sprint(k+1)
		if r.P(50) {
			ret, cond = fmt.Sprint("c == ", k+1), ""
		}
		return qval(fmt.Sprintf("c = 0; f = fn() { c; c++; return %s; }; x = 0; switch %s {%s\ndefault: x = -1\n}; x = [x, c]", ret, cond, times(n, func(i int) string { return fmt.Sprintf("\ncase f(): x = %d", i) })), want)
	}},
	{bigDim{"conditions that hold", 2001}, func(r *Rand, n int) qsrc {
		return qval("x = 0; if 1 > 0 { x++ }"+strings.Repeat(" elif true { x++ }", n)+" else { x++ }", 1)
	}},
	{bigDim{"blocks in blocks", 257}, func(r *Rand, n int) qsrc {
		return qval("x = 0; "+times(n, func(i int) string {
			return r.Pick("if true { x++; ", "if false { x = -1000000 } else { x++; ", "if false { 1 } elif true { x++; ", "switch 1 { case 2: x = -1000000; case 1: x++; ", "switch { default: x++; ", fmt.Sprintf("for i%d = 0; i%d < 1; i%d++ { x++; ", i, i, i))
		})+"x += 10"+strings.Repeat(" }", n), n+10)
	}},
	{bigDim{"statements of a block", 20001}, func(r *Rand, n int) qsrc {
		sep := r.Pick("; ", ";\n")
		return qval("x = 0; "+r.Pick("if true {", "for x == 0 {", "switch { case true:", "if false { 1 } else {")+times(n, func(i int) string { return "x += 2" + sep })+"}", 2*n)
	}},
	{bigDim{"constructs in sequence", 5001}, func(r *Rand, n int) qsrc {
		v := 0
		return qval("x = 0;\n"+times(n, func(i int) string {
			k := r.N(10)
			switch r.N(4) {
			case 0:
				if k < 5 {
					v++
				}
				return fmt.Sprintf("if %d < 5 { x++ };\n", k)
			case 1:
				v += k
				return fmt.Sprintf("for i = 0; i < %d; i++ { x++ };\n", k)
			case 2:
				if k == 3 || k == 4 {
					v += k
				} else {
					v--
				}
				return fmt.Sprintf("switch %d { case 3: x += 3; case 4: x += 4; default: x-- };\n", k)
			}
			v += k % 3
			return fmt.Sprintf("if %d == 1 { x++ } elif %d == 2 { x += 2 } else { 0 };\n", k%3, k%3)
		}), v)
	}},
	{bigDim{"elements of a list of constructs", 5001}, func(r *Rand, n int) qsrc {
		var l []int
		return qsrc{src: "x = [" + spread(r, n, ", ", func(i int) string {
			k := r.N(3)
			l = append(l, k*10)
			return fmt.Sprintf(r.Pick("if %d == 0 { 0 } elif %d == 1 { 10 } else { 20 }", "switch %d { case 0: 0 case 1: if %d == 1 { 10 } default: 20 }"), k, k)
		}) + "]", want: l}
	}},
	{bigDim{"blocks run in a loop", 20001}, func(r *Rand, n int) qsrc {
		a, b, d := 0, 0, 0
		for i := 0; i < n; i++ {
			switch {
			case i%3 == 0:
				a++
			case i%5 == 0:
				b++
			default:
				d++
			}
		}
		s := r.Pick("if i % 3 == 0 { a++ } elif i % 5 == 0 { b++ } else { d++ }", "switch { case i % 3 == 0: a++; case i % 5 == 0: b++; default: d++ }", "switch 0 { case i % 3: a++; case i % 5: b++; default: d++ }")
		return qval(fmt.Sprintf("a, b, d = [0, 0, 0]; for i = 0; i < %d; i++ { %s }; x = [a, b, d]", n, s), []int{a, b, d})
	}},
	{bigDim{"length of a case", 70001}, func(r *Rand, n int) qsrc {
		s := cycle("abc", n)
		return qval(fmt.Sprintf("switch %q { case \"%s!\": x = 1; case %q: x = 2; case %q: x = 3; default: x = 4 }", s, s, s[1:], s), 3)
	}},
	{bigDim{"return out of blocks", 257}, func(r *Rand, n int) qsrc {
		return qval("f = fn() { "+times(n, func(i int) string { return r.Pick("if true { ", "for { ", "switch { case true: ") })+"return 7; "+strings.Repeat(" }", n)+"; return 8; }; x = f()", 7)
	}},
	{bigDim{"an error in a round", 20001}, func(r *Rand, n int) qsrc {
		return qsrc{src: fmt.Sprintf("x = 0;\nfor i = 0; i < 100000; i++ {\n  x++;\n  if x == %d {\n    if 1 { 2 };\n  };\n}", n), want: n, err: "if condition isn't a boolean expression", line: 5}
	}},
}

// ---------------------------------------------------------------- C32

var big32 = []bigQ{
	{bigDim{"parameters", 2001}, func(r *Rand, n int) qsrc {
		k := r.N(n)
		p := func(i int) string { return fmt.Sprint("p", i) }
		return qval("f = fn("+spread(r, n, ", ", p)+") { return ["+spread(r, n, ", ", p)+"]; }; x = f("+spread(r, n, ", ", func(i int) string { return fmt.Sprint(i * 3) })+fmt.Sprintf(")[%d]", k), k*3)
	}},
	{bigDim{"a wrong number of arguments", 2001}, func(r *Rand, n int) qsrc {
		m := n + 1 - 2*r.N(2)
		if r.P(30) {
			m = r.N(n)
		}
		return qsrc{src: "x = 1; f = fn(" + spread(r, n, ", ", func(i int) string { return fmt.Sprint("p", i) }) + ") { x; x = 2; };\nf(" + spread(&Rand{}, m, ", ", func(i int) string { return "0" }) + ")", want: 1,
			err: fmt.Sprintf("%d arguments, but we got %d", n, m)}
	}},
	{bigDim{"surplus arguments", 20001}, func(r *Rand, n int) qsrc {
		var l []interface{}
		for i := 0; i < n; i++ {
			l = append(l, i)
		}
		return qval("f = fn(a, b...) { return b; }; x = f(\"a\", "+spread(r, n, ", ", strconv.Itoa)+")", l)
	}},
	{bigDim{"parameters before the surplus", 1001}, func(r *Rand, n int) qsrc {
		return qval("f = fn("+times(n, func(i int) string { return fmt.Sprintf("p%d, ", i) })+"z...) { return [p0, "+fmt.Sprintf("p%d", n-1)+", len(z), z[1]]; }; x = f("+spread(r, n+5, ", ", strconv.Itoa)+")", []int{0, n - 1, 5, n + 1})
	}},
	{bigDim{"a spread list", 20001}, func(r *Rand, n int) qsrc {
		k := r.N(4)
		src := fmt.Sprintf("l = []; for i = 0; i < %d; i++ { l = append(l, i); };", n)
		switch k {
		case 0:
			return qval(src+"f = fn(a...) { return [len(a), a[0], a[len(a)-1]]; }; x = f(l...)", []int{n, 0, n - 1})
		case 1:
			return qval(src+"x = max(l...)", n-1)
		case 2:
			return qval(src+"f = fn(p, q, a...) { return [p, q, len(a)]; }; x = f(l...)", []int{0, 1, n - 2})
		}
		return qval(src+"f = fn(p, a...) { return [p, len(a), a[len(a)-1]]; }; x = f(-1, l...)", []int{-1, n, n - 1})
	}},
	{bigDim{"depth of recursion", 10001}, func(r *Rand, n int) qsrc {
		s := r.Pick("f = fn(n) { if n == 0 { return 0; }; return 1 + f(n - 1); };", "f = fn(n) { return if n == 0 { 0 } else { 1 + f(n - 1) }; };", "f = fn(n) { f; v = n; if n > 0 { v = 1 + f(n - 1); }; return v; };", "g = fn(n) { return h(n); }; h = fn(n) { if n == 0 { return 0; }; return 1 + g(n - 1); }; f = fn(n) { return g(n); };")
		return qval(s+fmt.Sprintf(" x = f(%d)", n), n)
	}},
	{bigDim{"locals of each level", 1001}, func(r *Rand, n int) qsrc {
		return qval(fmt.Sprintf("f = fn(n) { v = n; w = if n == 0 { [] } else { f(n - 1) }; return append(w, v); }; x = len(f(%d))", n), n+1)
	}},
	{bigDim{"closures", 10001}, func(r *Rand, n int) qsrc {
		k := r.N(n)
		return qval(fmt.Sprintf("mk = fn(n) { return fn() { n; n += 1; return n; }; }; l = []; for i = 0; i < %d; i++ { l = append(l, mk(i * 10)); }; l[%d](); l[%d](); x = [l[%d](), l[0](), l[%d]()]", n, k, k, k, n-1),
			func() []int {
				v := []int{k*10 + 3, 1, (n-1)*10 + 1}
				if k == 0 {
					v[1] = 4
				}
				if k == n-1 {
					v[2] += 3
				}
				if k == 0 && k == n-1 {
					v[2]++
				}
				return v
			}())
	}},
	{bigDim{"calls of a closure", 32769}, func(r *Rand, n int) qsrc {
		return qval(fmt.Sprintf("mk = fn() { n = 0; return fn(k) { n; n += k; return n; }; }; f = mk(); g = mk(); for i = 0; i < %d; i++ { f(2); g(3); }; x = [f(0), g(0)]", n), []int{2 * n, 3 * n})
	}},
	{bigDim{"functions in functions", 257}, func(r *Rand, n int) qsrc {
		// each one adds its own to the innermost result; the outermost variable is seen from the innermost
		return qval("y = 5; x = "+times(n, func(i int) string { return fmt.Sprintf("fn() { v%d = %d; return v%d + ", i, i, i) })+"y"+strings.Repeat("; }()", n), 5+n*(n-1)/2)
	}},
	{bigDim{"an outer variable set from within", 257}, func(r *Rand, n int) qsrc {
		return qval("x = 0; "+times(n, func(i int) string { return "fn() { " })+"x; x = 7"+strings.Repeat("; }()", n), 7)
	}},
	{bigDim{"an outer variable set, not referenced", 257}, func(r *Rand, n int) qsrc {
		return qsrc{src: "x = 0; " + times(n, func(i int) string { return "fn() { " }) + "x = 7" + strings.Repeat("; }()", n), want: 0, err: "variable `x` exists in extern function"}
	}},
	{bigDim{"private names in functions", 257}, func(r *Rand, n int) qsrc {
		return qval("_y = 1; x = 0; "+times(n, func(i int) string { return fmt.Sprintf("fn() { _y = %d; x; ", i) })+strings.Repeat("x += _y; }()\n;", n)+"x += _y", n*(n-1)/2+1)
	}},
	{bigDim{"locals", 5001}, func(r *Rand, n int) qsrc {
		k := r.N(n)
		return qval("f = fn() { "+times(n, func(i int) string { return fmt.Sprintf("v%d = %d;\n", i, i*7) })+fmt.Sprintf("return [v0, v%d, v%d]; }; x = f()", k, n-1), []int{0, k * 7, (n - 1) * 7})
	}},
	{bigDim{"globals", 5001}, func(r *Rand, n int) qsrc {
		k := r.N(n)
		return qval(times(n, func(i int) string { return fmt.Sprintf("v%d = %d;\n", i, i*7) })+fmt.Sprintf("f = fn() { return [v0, v%d, v%d]; }; x = f()", k, n-1), []int{0, k * 7, (n - 1) * 7})
	}},
	{bigDim{"length of a name", 20001}, func(r *Rand, n int) qsrc {
		s := cycle(r.Pick("abc", "é变", "x_9"), n)
		return qval(fmt.Sprintf("%s = 1; %sb = 2; f%s = fn(%sc) { %s; %s += %sc; return %sb; }; y = f%s(5); x = [%s, %sb, y]", s, s, s, s, s, s, s, s, s, s, s), []int{6, 2, 2})
	}},
	{bigDim{"functions of functions", 2001}, func(r *Rand, n int) qsrc {
		return qval("f = fn(x) { return x + 1; }; x = "+strings.Repeat("f(", n)+"0"+strings.Repeat(")", n), n)
	}},
	{bigDim{"functions called at once", 1001}, func(r *Rand, n int) qsrc {
		return qval(fmt.Sprintf("f = fn(n) { n; return fn(k) { n; n += k; return if n < %d { f2 } else { n }; }; }; f2 = f(0); x = f2", n)+strings.Repeat("(1)", n), n)
	}},
	{bigDim{"functions", 5001}, func(r *Rand, n int) qsrc {
		k := r.N(n)
		return qval(times(n, func(i int) string { return fmt.Sprintf("f%d = fn(a) { return a + %d; };\n", i, i) })+fmt.Sprintf("x = f%d(f%d(0))", k, n-1), k+n-1)
	}},
	{bigDim{"variables of a multiple assignment", 5001}, func(r *Rand, n int) qsrc {
		k := r.N(n)
		return qval(spread(&Rand{}, n, ", ", func(i int) string { return fmt.Sprint("v", i) })+" = ["+spread(r, n, ", ", func(i int) string { return fmt.Sprint(i * 2) })+fmt.Sprintf("]; x = v%d", k), k*2)
	}},
	{bigDim{"returns", 20001}, func(r *Rand, n int) qsrc {
		return qval(fmt.Sprintf("f = fn(i) { if i %% 2 == 0 { return 1; }; for { return 2; }; return 3; }; x = 0; for i = 0; i < %d; i++ { x += f(i); }", n), n+n/2)
	}},
	{bigDim{"arguments left by an error", 5001}, func(r *Rand, n int) qsrc {
		return qsrc{src: "x = 5;\nmax(" + times(n, func(i int) string { return strconv.Itoa(i) + ", " }) + "nosuch)", want: 5, err: "symbol not found: nosuch", line: 2}
	}},
}

// ---------------------------------------------------------------- C33

var big33 = []bigQ{
	{bigDim{"deferred expressions", 5001}, func(r *Rand, n int) qsrc {
		var tr []string
		for i := n - 1; i >= 0; i-- {
			tr = append(tr, triTrace(i))
		}
		d := times(n, func(i int) string { return "defer " + tri(i) + ";\n" })
		switch r.N(3) {
		case 0:
			return qsrc{src: d + "x = 3", want: 3, trace: tr}
		case 1:
			return qsrc{src: "f = fn() { " + d + "return 4; }; x = f()", want: 4, trace: tr}
		}
		return qsrc{src: "x = 1; f = fn() { " + d + "\npanic(\"oops\"); }; f(); x = 2", want: 1, trace: tr, err: "oops"}
	}},
	{bigDim{"deferred in a loop", 10001}, func(r *Rand, n int) qsrc {
		var tr []string
		for i := n - 1; i >= 0; i-- {
			tr = append(tr, triTrace(i))
		}
		return qsrc{src: fmt.Sprintf("f = fn(n) { l = []; for i = 0; i < n; i++ { l = append(l, i); defer fn() { l; k = l[len(l)-1]; l = sub(l, 0, len(l)-1); tr(k, k); }(); }; return 4; }; x = f(%d)", n), want: 4, trace: tr}
	}},
	{bigDim{"frames with deferred expressions", 3000}, func(r *Rand, n int) qsrc {
		var tr []string
		for i := 0; i <= n; i++ {
			tr = append(tr, triTrace(i))
		}
		if r.P(50) {
			return qsrc{src: fmt.Sprintf("f = fn(n) { defer tr(n, n); if n > 0 { f(n - 1); }; return n; }; x = f(%d)", n), want: n, trace: tr}
		}
		return qsrc{src: fmt.Sprintf("x = 0; f = fn(n) { defer tr(n, n); if n > 0 { f(n - 1); } else { panic(\"deep\"); }; return n; }; f(%d); x = 1", n), want: 0, trace: tr, err: "deep"}
	}},
	{bigDim{"frames a panic passes", 3000}, func(r *Rand, n int) qsrc {
		how := r.Pick("panic(\"deep\")", "panic(\"de\" + \"ep\")", "panic(undefined)", "nosuch")
		want := map[string]string{"panic(undefined)": "undefined", "nosuch": "symbol not found: nosuch"}[how]
		if want == "" {
			want = "deep"
		}
		if r.P(50) {
			return qsrc{src: fmt.Sprintf("x = 0; f = fn(n) { if n > 0 { f(n - 1); } else { %s; }; }; g = fn() { x; defer fn() { x; if recover() != nil { x = 7; }; }(); f(%d); x = 1; }; g(); x++", how, n), want: 8}
		}
		return qsrc{src: fmt.Sprintf("x = 0; f = fn(n) { if n > 0 { f(n - 1); } else { %s; }; }; f(%d); x = 1", how, n), want: 0, err: want}
	}},
	{bigDim{"panics recovered", 20001}, func(r *Rand, n int) qsrc {
		rare := r.P(50)
		cond, want := "i % 2 == 1", n/2
		if rare { // all but the last one
			cond, want = fmt.Sprintf("i < %d", n-1), n-1
		}
		return qval(fmt.Sprintf("x = 0; f = fn(i) { x; defer fn() { x; e = recover(); if e != nil { x++; }; }(); if %s { panic(\"odd\"); }; return i; }; for i = 0; i < %d; i++ { f(i); }; x = [x, f(%d)]", cond, n, n*2), []int{want, n * 2})
	}},
	{bigDim{"calls that fail", 20001}, func(r *Rand, n int) qsrc {
		body := r.Pick("if i < %d { nosuch } else { i }", "if i < %d { panic(\"stop\") } else { i }", "if i < %d { [1, max(1, nosuch)] } else { i }", "1 - 1 + if i < %d { [1][5] } else { i }")
		f := r.Pick("f = fn(i) { return %s; };", "f = fn(i) { return fn() { return %s; }(); };", "K = class { fn f(i) { return %s; }; }; f = (new K).f;")
		return qval(fmt.Sprintf("x = 0; "+fmt.Sprintf(f, body)+" g = fn(i) { x; defer fn() { x; e = recover(); if e != nil { x++; }; }(); return f(i); }; for i = 0; i < %d; i++ { g(i); }; x = [x, f(%d), g(%d)]", n, n, n+1, n+2), []int{n, n + 1, n + 2})
	}},
	{bigDim{"panics recovered and raised again", 1001}, func(r *Rand, n int) qsrc {
		return qsrc{src: fmt.Sprintf("x = 0; f = fn(n) { x; defer fn() { x; e = recover(); if e != nil { x++; panic(\"again\"); }; }(); if n > 0 { f(n - 1); } else { panic(\"first\"); }; }; f(%d)", n), want: n + 1, err: "again"}
	}},
	{bigDim{"deferred expressions that fail", 2001}, func(r *Rand, n int) qsrc {
		var tr []string
		for i := n - 1; i >= 0; i-- {
			tr = append(tr, triTrace(i))
		}
		return qsrc{src: "x = 1; f = fn() { " + times(n, func(i int) string { return fmt.Sprintf("defer fn() { %s; panic(\"d%d\"); }();\n", tri(i), i) }) + "}; f(); x = 2", want: 1, trace: tr, err: "d0"}
	}},
	{bigDim{"returns from rounds", 20001}, func(r *Rand, n int) qsrc {
		return qval(fmt.Sprintf("f = fn(k) { for i = 0; true; i++ { if i == k { return [i, \"r\"][0]; }; }; }; x = f(%d)", n), n)
	}},
	{bigDim{"values below an error", 5001}, func(r *Rand, n int) qsrc {
		return qval("f = fn() { defer recover(); x = ["+spread(&Rand{}, n, ", ", strconv.Itoa)+", nosuch]; }; g = fn() { defer fn() { recover(); }(); return ["+spread(&Rand{}, n, ", ", strconv.Itoa)+", nosuch]; }; x = [1, g() == nil, 3][2]", 3)
	}},
	{bigDim{"deferred in deferred", 257}, func(r *Rand, n int) qsrc {
		var tr []string
		for i := 0; i < n; i++ {
			tr = append(tr, triTrace(i))
		}
		return qsrc{src: "x = 1; " + times(n, func(i int) string { return "defer fn() { " + tri(i) + "; " }) + "1" + strings.Repeat("; }()", n), want: 1, trace: tr}
	}},
	{bigDim{"length of a message", 70001}, func(r *Rand, n int) qsrc {
		s := cycle(r.Pick("abc", "é变", "x y"), n)
		if r.P(50) {
			return qval(fmt.Sprintf("f = fn() { defer fn() { x; x = recover() != nil; }(); panic(%q); }; x = 0; f();", s), true)
		}
		return qsrc{src: fmt.Sprintf("x = 1; panic(%q); x = 2", s), want: 1, err: s}
	}},
	{bigDim{"values of a return", 20001}, func(r *Rand, n int) qsrc {
		return qval("f = fn() { return ["+spread(r, n, ", ", strconv.Itoa)+"]; }; x = f()", numbers(n))
	}},
}

// ---------------------------------------------------------------- C34

var big34 = []bigQ{
	{bigDim{"methods", 2001}, func(r *Rand, n int) qsrc {
		k := r.N(n)
		return qval("A = class { "+times(n, func(i int) string { return fmt.Sprintf("fn m%d(a) { return [this.v, a, %d]; };\n", i, i) })+fmt.Sprintf("}; o = new A; set(o, \"v\", 5); p = new A(); set(p, \"v\", 6); x = o.m%d(7); y = p.m%d(8); x = append(x, y...)", k, n-1), []int{5, 7, k, 6, 8, n - 1})
	}},
	{bigDim{"members", 5001}, func(r *Rand, n int) qsrc {
		k := r.N(n)
		return qval("A = class {}; o = new A; p = new A; "+times(n, func(i int) string { return fmt.Sprintf("set(o, \"v%d\", %d); set(p, \"v%d\", %d);\n", i, i, i, -i) })+fmt.Sprintf("x = [o.v%d, o.v%d, p.v%d]", k, n-1, k), []int{k, n - 1, -k})
	}},
	{bigDim{"members set at once", 5001}, func(r *Rand, n int) qsrc {
		k := r.N(n)
		return qval("A = class {}; o = new A; set(o, "+spread(r, n, ", ", func(i int) string { return fmt.Sprintf("\"v%d\", %d", i, i) })+fmt.Sprintf("); x = [o.v0, o.v%d, o.v%d]", k, n-1), []int{0, k, n - 1})
	}},
	{bigDim{"objects", 10001}, func(r *Rand, n int) qsrc {
		k := r.N(n)
		return qval(fmt.Sprintf("A = class { fn _init(v) { set(this, \"v\", v); }; fn get() { return this.v; }; fn add(k) { set(this, \"v\", this.v + k); return this; }; }; l = []; for i = 0; i < %d; i++ { l = append(l, new A(i)); }; l[%d].add(1000000); x = [l[0].get(), l[%d].get(), l[%d].v]", n, k, k, n-1),
			func() []int {
				v := []int{0, k + 1000000, n - 1}
				if k == 0 {
					v[0] += 1000000
				}
				if k == n-1 {
					v[2] += 1000000
				}
				return v
			}())
	}},
	{bigDim{"calls of a method", 20001}, func(r *Rand, n int) qsrc {
		return qval(fmt.Sprintf("A = class { fn _init() { set(this, \"n\", 0); }; fn inc(k) { set(this, \"n\", this.n + k); return this.n; }; }; a = new A; b = new A; f = a.inc; for i = 0; i < %d; i++ { f(1); b.inc(2); }; x = [a.n, b.n]", n), []int{n, 2 * n})
	}},
	{bigDim{"calls in a chain", 2001}, func(r *Rand, n int) qsrc {
		return qval("A = class { fn _init() { set(this, \"n\", 0); }; fn inc() { set(this, \"n\", this.n + 1); return this; }; }; x = (new A)"+strings.Repeat(".inc()", n)+".n", n)
	}},
	{bigDim{"arguments of new", 5001}, func(r *Rand, n int) qsrc {
		return qval("A = class { fn _init(a, l...) { set(this, \"a\", a, \"n\", len(l), \"last\", l[len(l)-1]); }; }; o = new A("+spread(r, n, ", ", strconv.Itoa)+"); x = [o.a, o.n, o.last]", []int{0, n - 1, n - 1})
	}},
	{bigDim{"parameters of a method", 2001}, func(r *Rand, n int) qsrc {
		k := r.N(n)
		return qval("A = class { fn m("+spread(r, n, ", ", func(i int) string { return fmt.Sprint("p", i) })+fmt.Sprintf(") { return [this.v, p%d]; }; }; o = new A; set(o, \"v\", -1); x = o.m(", k)+spread(r, n, ", ", strconv.Itoa)+")", []int{-1, k})
	}},
	{bigDim{"objects in a chain", 5001}, func(r *Rand, n int) qsrc {
		return qval(fmt.Sprintf("N = class { fn _init(v, next) { set(this, \"v\", v, \"next\", next); }; fn sum() { return if this.next == nil { this.v } else { this.v + this.next.sum() }; }; }; o = nil; for i = 0; i < %d; i++ { o = new N(i, o); }; x = o.sum()", n), n*(n-1)/2)
	}},
	{bigDim{"members of members", 2001}, func(r *Rand, n int) qsrc {
		return qval("A = class {}; o = new A; set(o, \"o\", o, \"v\", 3); x = o"+strings.Repeat(".o", n)+".v", 3)
	}},
	{bigDim{"classes", 2001}, func(r *Rand, n int) qsrc {
		k := r.N(n)
		return qval(times(n, func(i int) string { return fmt.Sprintf("C%d = class { fn id() { return %d; }; };\n", i, i) })+fmt.Sprintf("a = new C%d; b = new C%d; x = [a.id(), b.id()]", k, n-1), []int{k, n - 1})
	}},
	{bigDim{"length of a name", 20001}, func(r *Rand, n int) qsrc {
		s := cycle(r.Pick("abc", "x_9", "é变"), n)
		return qval(fmt.Sprintf("A = class { fn %s() { return 1; }; fn %sb() { return 2; }; }; o = new A; set(o, \"%sc\", 3); x = [o.%s(), o.%sb(), o.%sc]", s, s, s, s, s, s), []int{1, 2, 3})
	}},
	{bigDim{"statements of a method", 5001}, func(r *Rand, n int) qsrc {
		return qval("A = class { fn m() { n = 0;\n"+strings.Repeat("n++;\n", n)+"return n; }; }; o = new A; x = o.m()", n)
	}},
	{bigDim{"a missing member of many", 2001}, func(r *Rand, n int) qsrc {
		return qsrc{src: "x = 1; A = class { " + times(n, func(i int) string { return fmt.Sprintf("fn m%d() { return 1; };\n", i) }) + fmt.Sprintf("}; o = new A;\no.m%d()", n), want: 1, err: fmt.Sprintf("object doesn't has member `m%d`", n), line: n + 2}
	}},
	{bigDim{"a member named like a method of many", 2001}, func(r *Rand, n int) qsrc {
		k := r.N(n)
		return qsrc{src: "x = 1; A = class { " + times(n, func(i int) string { return fmt.Sprintf("fn m%d() { return 1; };\n", i) }) + fmt.Sprintf("}; o = new A;\nset(o, \"m%d\", 2)", k), want: 1, err: fmt.Sprintf("class already have a method named m%d", k), line: n + 2}
	}},
	{bigDim{"methods deep in functions", 257}, func(r *Rand, n int) qsrc {
		return qval("y = 3; x = "+times(n, func(i int) string { return "fn() { return " })+"new class { fn m() { y; y++; return y; }; }"+strings.Repeat("; }()", n)+".m()", 4).noAnon()
	}},
	{bigDim{"recursion of a method", 5001}, func(r *Rand, n int) qsrc {
		return qval(fmt.Sprintf("A = class { fn m(n) { set(this, \"n\", n); return if n == 0 { 0 } else { 1 + this.m(n - 1) }; }; }; o = new A; x = o.m(%d) * 10 + o.n", n), n*10)
	}},
}

// noAnon: new wants a name or a name in parentheses.
func (q qsrc) noAnon() qsrc {
	q.src = strings.Replace(q.src, "new class { fn m() { y; y++; return y; }; }", "fn() { A = class { fn m() { y; y++; return y; }; }; return new A; }()", 1)
	return q
}

// ---------------------------------------------------------------- C35

func buildList(n int) string {
	return fmt.Sprintf("l = []; for i = 0; i < %d; i++ { l = append(l, i); }; ", n)
}

var big35 = []bigQ{
	{bigDim{"elements of a list", 20001}, func(r *Rand, n int) qsrc {
		switch r.N(4) {
		case 0:
			return qval("x = ["+spread(r, n, ", ", strconv.Itoa)+"]", numbers(n))
		case 1:
			var l []float64
			return qsrc{src: "x = [" + spread(r, n, ", ", func(i int) string {
				l = append(l, float64(i)+0.5*float64(i%2))
				return []string{fmt.Sprint(i), fmt.Sprint(i, ".5")}[i%2]
			}) + "]", want: l}
		case 2:
			var l []string
			return qsrc{src: "x = [" + spread(r, n, ", ", func(i int) string {
				l = append(l, fmt.Sprint("s", i))
				return fmt.Sprintf("\"s%d\"", i)
			}) + "]", want: l}
		}
		k := r.N(n)
		var l []interface{}
		return qsrc{src: "x = [" + spread(r, n, ", ", func(i int) string {
			if i == k {
				l = append(l, "odd")
				return `"odd"`
			}
			l = append(l, i)
			return fmt.Sprint(i)
		}) + "]", want: l}
	}},
	{bigDim{"a float far behind", 20001}, func(r *Rand, n int) qsrc {
		k := r.N(n)
		var l []float64
		return qsrc{src: "x = " + r.Pick("[", "sliceFrom(") + spread(r, n, ", ", func(i int) string {
			if i == k {
				l = append(l, 0.5)
				return "0.5"
			}
			l = append(l, float64(i))
			return fmt.Sprint(i)
		}), want: l}.close()
	}},
	{bigDim{"appends", 20001}, func(r *Rand, n int) qsrc {
		k := r.N(n)
		return qval(fmt.Sprintf("l = [0]; for i = 1; i < %d; i++ { l = append(l, i); }; x = [len(l), l[%d], l[%d], cap(l) >= %d]", n, k, n-1, n), []interface{}{n, k, n - 1, true})
	}},
	{bigDim{"values of an append", 20001}, func(r *Rand, n int) qsrc {
		switch r.N(3) {
		case 0:
			return qval("x = append([-1], "+spread(r, n, ", ", strconv.Itoa)+")", append([]int{-1}, numbers(n)...))
		case 1:
			return qval("x = append(slice(\"int\"), "+spread(r, n, ", ", strconv.Itoa)+")", numbers(n))
		}
		l := []float64{0.5}
		for i := 0; i < n; i++ {
			l = append(l, float64(i))
		}
		return qval("x = append([0.5], "+spread(r, n, ", ", strconv.Itoa)+")", l)
	}},
	{bigDim{"a list spread into append", 20001}, func(r *Rand, n int) qsrc {
		l := []interface{}{-1, "s"}
		for i := 0; i < n; i++ {
			l = append(l, i)
		}
		return qval(buildList(n)+"x = append([-1, \"s\"], l...)", l)
	}},
	{bigDim{"slice expressions", 20001}, func(r *Rand, n int) qsrc {
		i := r.N(n + 1)
		j := i + r.N(n-i+1)
		all := make([]interface{}, n)
		for k := range all {
			all[k] = k
		}
		switch r.N(4) {
		case 0:
			return qval(buildList(n)+fmt.Sprintf("x = l[%d:%d]", i, j), all[i:j])
		case 1:
			return qval(buildList(n)+fmt.Sprintf("x = l[:%d]", j), all[:j])
		case 2:
			return qval(buildList(n)+fmt.Sprintf("x = l[%d:]", i), all[i:])
		}
		return qval(buildList(n)+fmt.Sprintf("x = sub(l, %d, %d)", i, j), all[i:j])
	}},
	{bigDim{"sets", 20001}, func(r *Rand, n int) qsrc {
		k := r.N(n)
		return qval(fmt.Sprintf("l = slice(\"int\", %d); for i = 0; i < %d; i++ { set(l, i, i * 2); }; set(l, %d, -5); x = [l[%d], l[0] <= 0, l[%d]]", n, n, k, k, (k+1)%n),
			func() []interface{} {
				return []interface{}{-5, true, (k + 1) % n * 2}
			}())
	}},
	{bigDim{"sets at once", 5001}, func(r *Rand, n int) qsrc {
		want := make([]int, n)
		for i := range want {
			want[i] = i * 2
		}
		return qval(fmt.Sprintf("x = slice(\"int\", %d); set(x, %s)", n, spread(r, n, ", ", func(i int) string { return fmt.Sprintf("%d, %d", i, i*2) })), want)
	}},
	{bigDim{"entries of a map", 10001}, func(r *Rand, n int) qsrc {
		pre, end, sep := "{", "}", ": "
		if r.P(40) {
			pre, end, sep = "mapFrom(", ")", ", "
		}
		switch r.N(4) {
		case 0:
			m := map[string]int{}
			return qsrc{src: "x = " + pre + spread(r, n, ", ", func(i int) string {
				m[fmt.Sprint("k", i)] = i
				return fmt.Sprintf("\"k%d\"%s%d", i, sep, i)
			}) + end, want: m}
		case 1:
			m := map[int]string{}
			return qsrc{src: "x = " + pre + spread(r, n, ", ", func(i int) string {
				m[i] = fmt.Sprint("v", i)
				return fmt.Sprintf("%d%s\"v%d\"", i, sep, i)
			}) + end, want: m}
		case 2:
			k := r.N(n)
			m := map[int]float64{}
			return qsrc{src: "x = " + pre + spread(r, n, ", ", func(i int) string {
				m[i] = float64(i)
				if i == k {
					return fmt.Sprintf("%d%s%d.0", i, sep, i)
				}
				return fmt.Sprintf("%d%s%d", i, sep, i)
			}) + end, want: m}
		}
		k := r.N(n)
		m := map[string]interface{}{}
		return qsrc{src: "x = " + pre + spread(r, n, ", ", func(i int) string {
			s := fmt.Sprint(i)
			m[fmt.Sprint("k", i)] = i
			if i == k {
				m[fmt.Sprint("k", i)], s = "odd", `"odd"`
			}
			return fmt.Sprintf("\"k%d\"%s%s", i, sep, s)
		}) + end, want: m}
	}},
	{bigDim{"the same key again and again", 5001}, func(r *Rand, n int) qsrc {
		return qval("x = {"+spread(r, n, ", ", func(i int) string { return fmt.Sprintf("\"k\": %d", i) })+"}", map[string]int{"k": n - 1})
	}},
	{bigDim{"keys set and deleted", 20001}, func(r *Rand, n int) qsrc {
		m := map[int]int{}
		for i := 0; i < n; i++ {
			if i%3 != 0 {
				m[i] = i * 2
			}
		}
		return qval(fmt.Sprintf("x = mkmap(mapOf(\"int\", \"int\")); for i = 0; i < %d; i++ { set(x, i, i * 2); }; for i = 0; i < %d; i += 3 { delete(x, i); }; y = len(x)", n, n), m)
	}},
	{bigDim{"missing keys", 5001}, func(r *Rand, n int) qsrc {
		return qval(fmt.Sprintf("m = mkmap(mapOf(\"int\", \"int\")); x = 0; for i = 0; i < %d; i++ { set(m, i * 2, i); }; for i = 0; i < %d; i++ { if m[i] == undefined { x++; } elif get(m, i) != i / 2 { x += 1000000; }; }", n, 2*n), n)
	}},
	{bigDim{"lists in lists", 1001}, func(r *Rand, n int) qsrc {
		return qval(fmt.Sprintf("l = %s7%s; x = l%s", strings.Repeat("[", n), strings.Repeat("]", n), strings.Repeat("[0]", n)), 7)
	}},
	{bigDim{"maps in maps", 513}, func(r *Rand, n int) qsrc {
		return qval(fmt.Sprintf("m = %s7%s; x = m%s", strings.Repeat("{\"k\": ", n), strings.Repeat("}", n), strings.Repeat(r.Pick(".k", "[\"k\"]"), n)), 7)
	}},
	{bigDim{"variables of a multiple assignment", 5001}, func(r *Rand, n int) qsrc {
		k := r.N(n)
		return qval(spread(&Rand{}, n, ", ", func(i int) string { return fmt.Sprint("v", i) })+" = ["+spread(r, n, ", ", func(i int) string { return fmt.Sprintf("\"s%d\"", i) })+fmt.Sprintf("]; x = [v0, v%d, v%d]", k, n-1), []string{"s0", fmt.Sprint("s", k), fmt.Sprint("s", n-1)})
	}},
	{bigDim{"unequal multiple assignments", 2001}, func(r *Rand, n int) qsrc {
		m := n + 1 - 2*r.N(2)
		return qsrc{src: "x = 1;\n" + strings.TrimSuffix(times(n, func(i int) string { return fmt.Sprintf("v%d, ", i) }), ", ") + " = [" + strings.TrimSuffix(times(m, func(i int) string { return strconv.Itoa(i) + ", " }), ", ") + "]; x = 2", want: 1, err: fmt.Sprintf("multi assignment error: require %d variables, but we got %d", m, n), line: 2}
	}},
	{bigDim{"an index out of range", 5001}, func(r *Rand, n int) qsrc {
		return qsrc{src: "x = 1; " + buildList(n) + fmt.Sprintf("\nx = l[%d]", n+r.N(2)*n), want: 1, err: "out of range", line: 2}
	}},
	{bigDim{"length of a string", 131073}, func(r *Rand, n int) qsrc {
		s := cycle(r.Pick("abcd", "é变", "x"), n)
		m := len(s)
		i := r.N(m)
		j := i + r.N(m-i+1)
		return qval(fmt.Sprintf("s = %q; x = [len(s), s[%d:%d], s[%d], s[:%d] + s[%d:] == s]", s, i, j, i, j, j), []interface{}{m, s[i:j], s[i], true})
	}},
	{bigDim{"length of a key", 70001}, func(r *Rand, n int) qsrc {
		s := cycle("abc", n)
		return qval(fmt.Sprintf("m = {\"%s\": 1, \"%sb\": 2}; x = [m[\"%s\"], m[\"%sb\"], len(m)]", s, s, s, s), []int{1, 2, 2})
	}},
	{bigDim{"shared elements", 10001}, func(r *Rand, n int) qsrc {
		i := r.N(n)
		return qval(buildList(n)+fmt.Sprintf("a = l[%d:]; b = l[:%d]; set(l, %d, \"s\"); x = [a[0], b[%d], len(a), len(b)]", i, i+1, i, i), []interface{}{"s", "s", n - i, i + 1})
	}},
	{bigDim{"made lists", 70001}, func(r *Rand, n int) qsrc {
		return qval(fmt.Sprintf("x = [len(slice(\"int\", %d)), len(slice(\"string\", 3, %d)), cap(slice(\"float\", 3, %d)), len(slice(\"var\", %d))]", n, n, n, n), []int{n, 3, n, n})
	}},
}

func (q qsrc) close() qsrc {
	if strings.HasPrefix(q.src, "x = [") {
		q.src += "]"
	} else {
		q.src += ")"
	}
	return q
}

// ---------------------------------------------------------------- C37

var big37 = []bigQ{
	{bigDim{"lines before the error", 70001}, func(r *Rand, n int) qsrc {
		switch r.N(4) {
		case 0:
			return qsrc{src: "x = 1" + strings.Repeat("\n", n) + ";nosuch", want: 1, err: "symbol not found: nosuch", line: n + 1}.semi()
		case 1:
			return qsrc{src: "x = 1;\n" + times(n-1, func(i int) string { return "// " + strconv.Itoa(i) + "\n" }) + "nosuch", want: 1, err: "symbol not found: nosuch", line: n + 1}
		case 2:
			return qsrc{src: "x = 1; /*" + strings.Repeat("\n", n) + "*/ panic(\"far\")", want: 1, err: "far", line: n + 1}
		}
		return qsrc{src: "x = 1; y = `" + strings.Repeat("\n", n) + "`; panic(\"far\"); x = 2;", want: 1, err: "far", line: n + 1}
	}},
	{bigDim{"statements before the error", 20001}, func(r *Rand, n int) qsrc {
		return qsrc{src: "x = 0;\n" + strings.Repeat("x++;\n", n) + "x += \"s\";\nx = -1;\n", want: n, err: "unsupported operator", line: n + 2}
	}},
	{bigDim{"statements after the error", 20001}, func(r *Rand, n int) qsrc {
		return qsrc{src: "x = 0;\nx += \"s\";\n" + strings.Repeat("x++;\n", n), want: 0, err: "unsupported operator", line: 2}
	}},
	{bigDim{"lines of a function before the error", 20001}, func(r *Rand, n int) qsrc {
		return qsrc{src: "x = 0;\nf = fn() {\n" + strings.Repeat("x;\n", n) + "panic(\"in f\");\n};\nf()", want: 0, err: "in f", line: n + 3}
	}},
	{bigDim{"calls on the way to the error", 1001}, func(r *Rand, n int) qsrc {
		return qsrc{src: fmt.Sprintf("x = 0;\nf = fn(n) {\nif n == 0 {\npanic(\"deep\") };\nf(n - 1);\n};\nf(%d)", n), want: 0, err: "deep", line: 4}
	}},
	{bigDim{"rounds before the error", 20001}, func(r *Rand, n int) qsrc {
		return qsrc{src: fmt.Sprintf("x = 0;\nl = [1, 2];\nfor {\nx++;\nif x == %d {\n  l[2];\n};\n}", n), want: n, err: "out of range", line: 6}
	}},
	{bigDim{"length of the line", 70001}, func(r *Rand, n int) qsrc {
		return qsrc{src: "x = 1;\n" + strings.Repeat(" ", n) + "panic(\"far right\"); y = \"" + cycle("xyz", n) + "\"", want: 1, err: "far right", line: 2}
	}},
	{bigDim{"length of a name not found", 20001}, func(r *Rand, n int) qsrc {
		s := cycle(r.Pick("abc", "é变"), n)
		return qsrc{src: "x = 1;\n" + s, want: 1, err: "symbol not found: " + s, line: 2}
	}},
	{bigDim{"length of a message", 70001}, func(r *Rand, n int) qsrc {
		s := cycle(r.Pick("abc", "é变", "%d%s"), n)
		return qsrc{src: fmt.Sprintf("x = 1;\npanic(%q)", s), want: 1, err: s, line: 2}
	}},
	{bigDim{"blocks around the error", 257}, func(r *Rand, n int) qsrc {
		return qsrc{src: "x = 0;\n" + times(n, func(i int) string { return r.Pick("if true {", "for {", "switch { case true:", "fn() {") + "\n" }) + "nosuch }", want: 0, err: "", line: 0}.closeBlocks(n)
	}},
	{bigDim{"a syntax error far behind", 5001}, func(r *Rand, n int) qsrc {
		return qsrc{src: "x = 0;\n" + strings.Repeat("x++;\n", n) + "x = = 5;\n", free: true, err: "=", line: n + 2}
	}},
	{bigDim{"parentheses not closed", 2001}, func(r *Rand, n int) qsrc {
		return qsrc{src: "x = 0;\nx = " + strings.Repeat("(", n) + "1" + strings.Repeat(")", n-1), free: true, err: "e"}
	}},
}

// closeBlocks writes the blocks around the error anew, with their ends.
func (q qsrc) closeBlocks(n int) qsrc {
	lines := strings.Split(q.src, "\n")
	s, end := "", ""
	for _, l := range lines[:n+1] {
		s += l + "\n"
		if l == "fn() {" {
			end = "\n}()" + end
		} else if strings.HasSuffix(l, "{") || strings.HasSuffix(l, ":") {
			end = "\n}" + end
		}
	}
	q.src, q.err, q.line = s+"nosuch"+end, "symbol not found: nosuch", n+2
	return q
}

// semi puts the semicolon at the end of the first line.
func (q qsrc) semi() qsrc {
	i := strings.Index(q.src, "\n")
	q.src = q.src[:i] + ";" + strings.Replace(q.src[i:], ";", "", 1)
	return q
}

// ---------------------------------------------------------------- C36

var big36dims = []bigDim{{"texts", 3000}, {"texts that fail", 3000}, {"texts that don't parse", 3000}, {"values below an error", 5001}, {"frames below an error", 2001}, {"definitions", 3000}, {"statements of a text", 20001}, {"blocks around an error", 257}, {"loops", 3000}, {"values below a call", 5001}}

func bigSessions(c *Case, b bigCase) {
	r := c.R
	semis := r.P(50)
	l := qengine(semis)
	n := b.n
	ok := func(src string, want interface{}) {
		// the last expression
		i := strings.LastIndex(src, "; ") + 1
		if j := strings.LastIndex(src, ";\n") + 1; j > i {
			i = j
		}
		if k := strings.LastIndex(src, "; }"); k >= 0 && k+1 == i {
			i = 0
		}
		if semis { // the automatic semicolon at the end drops the value
			src = src[:i] + " r_ = " + src[i:]
		}
		if err := l.SafeExec([]byte(src), ""); err != nil {
			c.Failf("error %v: %s", err, clip(src, 300))
		}
		v, has := l.Ret()
		if semis {
			if v != nil {
				c.Failf("the result is %v behind a semicolon: %s", v, clip(src, 300))
			}
			v, _ = l.Var("r_")
		}
		if d := diffVal("the result", v, want); d != "" || !has {
			c.Failf("%s (left %v): %s", d, has, clip(src, 300))
		}
		if k := stackLen(l); k != 0 {
			c.Failf("%d values left on the stack: %s", k, clip(src, 300))
		}
	}
	bad := func(src, text string) {
		err := l.SafeExec([]byte(src), "")
		if err == nil || !strings.Contains(err.Error(), text) {
			c.Failf("error %v, expected %q: %s", err, text, clip(src, 300))
		}
		if k := stackLen(l); k != 0 {
			c.Failf("%d values left on the stack by an error: %s", k, clip(src, 300))
		}
	}
	ok("n = 0; n", 0)
	list := spread(&Rand{}, n, ", ", strconv.Itoa)
	switch b.name {
	case "texts":
		for i := 0; i < n; i++ {
			ok("n += 1; n", i+1)
		}
	case "texts that fail":
		for i := 0; i < n; i++ {
			bad(r.Pick("n += 1; [1, 2, nosuch]", "n++; max(1, 2, [3, nosuch])", "n = n + 1; fn(a) { return [a, nosuch]; }(1)", "n++; if true { for { [1, nosuch] } }", "n++; 1 + (2 + (3 + nosuch))", "n++; switch 1 { case 1: [n, nosuch] }"), "symbol not found")
		}
		ok("(n)", n)
	case "texts that don't parse":
		for i := 0; i < n; i++ {
			bad(r.Pick("n++; [1, 2, ", "n++; max(1, 2", "n++; {1: ", "n++; 1 2", "n++; fn(a) { "), "")
		}
		v, _ := l.Var("n")
		if k, ok := v.(int); !ok || k > n {
			c.Failf("n is %v after %d texts", v, n)
		}
		ok("[2, 3][1]", 3)
	case "values below an error":
		for i := 0; i < 3; i++ {
			bad(r.Pick("n++; max("+list+", nosuch)", "n++; ["+list+", nosuch]", "n++; fn(a...) { return ["+list+", nosuch]; }("+list+")"), "symbol not found")
			ok("n", i+1)
		}
	case "frames below an error":
		ok("f = fn(k) { return if k == 0 { nosuch } else { 1 + f(k - 1) }; }; 5", 5)
		for i := 0; i < 3; i++ {
			bad(fmt.Sprintf("n++; [1, 2, f(%d)]", n), "symbol not found")
			ok("n", i+1)
		}
	case "definitions":
		for i := 0; i < n; i++ {
			ok(fmt.Sprintf("f%d = fn(a) { return a + %d; }; f%d(n)", i, i, i), i)
		}
		k := r.N(n)
		ok(fmt.Sprintf("f%d(1000000)", k), 1000000+k)
		ok(fmt.Sprintf("f0(f%d(1))", n-1), n)
	case "statements of a text":
		ok(strings.Repeat(r.Pick("n++; ", "n += 1;\n", "fn() { n; n++; }();\n"), n)+"n", n)
		bad(strings.Repeat("n++;\n", n)+"[1, nosuch]", "symbol not found")
		ok("n", 2*n)
	case "blocks around an error":
		bad(times(n, func(i int) string {
			return r.Pick("if true { [1, ", "switch 1 { case 1: [2, ", "for { max(1, ", "fn() { return [1, ")
		})+"nosuch", "") // not closed
		s, end := "n++; ", ""
		for i := 0; i < n; i++ {
			x := [][2]string{{"if true { ", "}"}, {"[1, ", "]"}, {"switch 1 { case 1: ", "}"}, {"for { ", "}"}, {"fn() { return ", "; }()"}, {"max(1, 2, ", ")"}}[r.N(6)]
			s, end = s+x[0], x[1]+end
		}
		v, _ := l.Var("n")
		bad(s+"nosuch"+end, "symbol not found")
		ok("n", v.(int)+1)
	case "values below a call":
		ok("f = fn() { return ["+list+"]; }; g = fn(k) { return if k == 0 { len(f()) } else { 1 + g(k - 1) }; }; 5", 5)
		ok("[7, len(f())][0]", 7)
		ok(fmt.Sprintf("[7, max("+list+", %d), 8]", n), []int{7, n, 8})
		ok(fmt.Sprintf("[g(3), [g(%d), len(f()), 1], 2][1]", n%300), []int{n + n%300, n, 1})
		bad("[7, len(f()), nosuch]", "symbol not found")
		ok("1 + (2 + (3 + len(f())))", 6+n)
	case "loops":
		for i := 0; i < n; i++ {
			ok("for i = 0; i < 3; i++ { n++ }; n", 3*i+3)
		}
	}
	ok(`"end"`, "end")
	c.Ev("sessions compared", 1)
}

// ---------------------------------------------------------------- C38

var big38dims = []bigDim{{"deferred expressions", 2001}, {"statements before the end", 10001}, {"statements after the end", 10001}, {"functions in main", 257}, {"rounds before the end", 20001}, {"exit status", 255}, {"depth of calls in main", 5001}}

func bigExit(c *Case, b bigCase) {
	r := c.R
	n := b.n
	code := n % 256
	var src string
	var tr []string
	main := r.P(50)
	ret := fmt.Sprintf("return %d;", code)
	wrap := func(s string) string {
		if main {
			return "main { " + s + " }"
		}
		return s
	}
	switch b.name {
	case "deferred expressions":
		src = wrap(times(n, func(i int) string { return "defer " + tri(i) + ";\n" }) + ret + " tr(5, 5);")
		for i := n - 1; i >= 0; i-- {
			tr = append(tr, triTrace(i))
		}
	case "statements before the end":
		src = wrap("x = 0;\n" + strings.Repeat("x++;\n", n) + "tr(x, x); " + ret)
		tr = []string{triTrace(n)}
	case "statements after the end":
		src = wrap("tr(1, 1); "+ret+"\n"+strings.Repeat(tri(7)+";\n", n)) + ";\n" + strings.Repeat(tri(8)+";\n", n)
		tr = []string{triTrace(1)}
	case "functions in main":
		src = wrap("x = " + times(n, func(i int) string { return "fn() { return 1 + " }) + "0" + strings.Repeat("; }()", n) + "; tr(x, x); " + ret)
		tr = []string{triTrace(n)}
	case "rounds before the end":
		src = wrap(fmt.Sprintf("for i = 0; true; i++ { if i == %d { tr(i, i); %s }; };", n, ret))
		tr = []string{triTrace(n)}
	case "exit status":
		src = wrap(ret)
	case "depth of calls in main":
		src = wrap(fmt.Sprintf("f = fn(k) { return if k == 0 { 0 } else { 1 + f(k - 1) }; }; x = f(%d); tr(x, x); %s", n, ret))
		tr = []string{triTrace(n)}
	}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "exit.")
	if err != nil {
		fail2("%v", err)
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "p.ql")
	if err := os.WriteFile(file, []byte(src), 0644); err != nil {
		fail2("%v", err)
	}
	self, err := os.Executable()
	if err != nil {
		fail2("%v", err)
	}
	cmd := exec.Command(self, "child", "qexit", file, r.Pick("semis", "plain"), r.Pick("safe", "exec"), "a.ql")
	out, err := cmd.Output()
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		fail2("%v", err)
	}
	if st := cmd.ProcessState.ExitCode(); st != code {
		c.Failf("exit status %d, expected %d: %s\noutput %s", st, code, clip(src, 300), clip(string(out), 300))
	}
	want := ""
	for _, t := range tr {
		want += fmt.Sprintf("%q\n", t)
	}
	if string(out) != want {
		c.Failf("output %s, expected %s: %s", clip(string(out), 300), clip(want, 300), clip(src, 300))
	}
	c.Ev("exit statuses compared", 1)
}
