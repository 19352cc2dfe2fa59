package main

// Sizes for C25, C26: extractors.

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/qiniu/text/tpl/extractor"
)

type xmap = map[string]interface{}

func xnew(c *Case, gram string, opt *extractor.Options) *extractor.Engine {
	e, err := extractor.New(gram, opt)
	if err != nil {
		c.Failf("New: %v", err)
	}
	return e
}

// diffDoc tells where two documents differ.
func diffDoc(at string, got, want interface{}) string {
	if reflect.DeepEqual(got, want) {
		return ""
	}
	switch w := want.(type) {
	case xmap:
		g, ok := got.(xmap)
		if !ok || len(g) != len(w) || w == nil || g == nil {
			break
		}
		for k := range w {
			if d := diffDoc(at+"."+clip(k, 30), g[k], w[k]); d != "" {
				return d
			}
		}
	case []xmap:
		g, ok := got.([]xmap)
		if !ok || len(g) != len(w) {
			return fmt.Sprintf("%s has %d items, want %d", at, reflect.ValueOf(got).Len(), len(w))
		}
		for i := range w {
			if d := diffDoc(fmt.Sprintf("%s[%d]", at, i), g[i], w[i]); d != "" {
				return d
			}
		}
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok || len(g) != len(w) {
			return fmt.Sprintf("%s has %d items, want %d", at, reflect.ValueOf(got).Len(), len(w))
		}
		for i := range w {
			if d := diffDoc(fmt.Sprintf("%s[%d]", at, i), g[i], w[i]); d != "" {
				return d
			}
		}
	}
	return fmt.Sprintf("%s is %s, want %s", at, clip(showDoc(got), 300), clip(showDoc(want), 300))
}

func xwant(c *Case, e *extractor.Engine, text string, want xmap) {
	var doc xmap
	var err error
	if c.R.P(50) {
		doc, err = e.SafeParse([]byte(text), "")
	} else {
		doc, err = e.Extract(text)
	}
	if err != nil {
		c.Failf("the parse of %s gives %.300v", clip(text, 200), err)
	}
	if !reflect.DeepEqual(doc, want) {
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(caseFailure); ok {
						panic(x)
					}
					c.Failf("the documents differ: %s, want %s", clip(showDoc(doc), 300), clip(showDoc(want), 300))
				}
			}()
			c.Failf("text %s: %s", clip(text, 200), diffDoc("", doc, want))
		}()
	}
	if res := e.Result(); !reflect.DeepEqual(res, want) {
		c.Failf("Result gives another document than the parse")
	}
}

var bigExtractDims = []bigDim{{"leaf array", 70001}, {"node array", 70001}, {"arrays taking turns", 5001}, {"runs of arrays", 20001}, {"tags", 2049}, {"nested nodes", 2049},
	{"length of a tag", 5001}, {"length of a value", 70001}, {"parses", 4097}, {"leaves of a node", 20001}, {"nodes of nodes", 20001}, {"digits", 5001}, {"scalars under one tag", 20001}, {"value refused far behind", 20001}, {"matches between the marks", 20001}, {"nested arrays", 513}}

func bigExtract(c *Case, b bigCase) {
	r := c.R
	n := b.n
	list := func(f func(i int) interface{}) (l []interface{}) {
		for i := 0; i < n; i++ {
			l = append(l, f(i))
		}
		return
	}
	switch b.name {
	case "leaf array":
		k := r.N(4)
		e := xnew(c, "doc = "+[]string{"*(INT/a_Ints)", "INT/a_IntArray % ','", "+(IDENT/a_Texts)", "*(INT/a_Ints) ?(IDENT/b_Text)"}[k], nil)
		sep := r.Pick(" ", "\n")
		if k == 1 {
			sep = ","
		}
		pre, end := "", ""
		f := func(i int) interface{} { return int64(i) }
		if k == 2 {
			pre = "x"
			f = func(i int) interface{} { return fmt.Sprint("x", i) }
		}
		want := xmap{"a": list(f)}
		if k == 3 {
			end, want["b"] = " end", "end"
		}
		xwant(c, e, strings.TrimSuffix(times(n, func(i int) string { return fmt.Sprint(pre, i, sep) }), ",")+end, want)
	case "node array":
		e := xnew(c, "doc = *pair; pair = (IDENT/k_Text '=' INT/v_Int)/pair_NodeArray", nil)
		var l []xmap
		text := times(n, func(i int) string {
			l = append(l, xmap{"k": fmt.Sprint("k", i), "v": int64(i)})
			return fmt.Sprintf("k%d=%d\n", i, i)
		})
		xwant(c, e, text, xmap{"pair": l})
	case "arrays taking turns":
		e := xnew(c, "doc = *(INT/a_Ints | IDENT/b_Texts | ('(' ?(INT/v_Int) ')')/c_NodeArray)", nil)
		want := xmap{}
		text := times(n, func(i int) string {
			switch i % 3 {
			case 0:
				a, _ := want["a"].([]interface{})
				want["a"] = append(a, int64(i))
				return fmt.Sprint(i, " ")
			case 1:
				a, _ := want["b"].([]interface{})
				want["b"] = append(a, fmt.Sprint("b", i))
				return fmt.Sprint("b", i, " ")
			}
			a, _ := want["c"].([]xmap)
			want["c"] = append(a, xmap{"v": int64(i)})
			return fmt.Sprintf("(%d)", i)
		})
		xwant(c, e, text, want)
	case "runs of arrays":
		e := xnew(c, "doc = *(INT/a_Ints | IDENT/b_Texts)", nil)
		var a, l []interface{}
		run, k := 0, 0
		text := times(n, func(i int) string {
			if run == 0 {
				run, k = 1+r.N(n/3+1), 1-k
			}
			run--
			if k == 0 {
				a = append(a, int64(i))
				return fmt.Sprint(i, " ")
			}
			l = append(l, fmt.Sprint("b", i))
			return fmt.Sprint("b", i, " ")
		})
		want := xmap{"b": l}
		if a != nil {
			want["a"] = a
		}
		xwant(c, e, text, want)
	case "tags":
		want := xmap{}
		g, text := "doc =", ""
		for i := 0; i < n; i++ {
			switch r.N(4) {
			case 0:
				g += fmt.Sprintf(" INT/t%d_Int", i)
				text += fmt.Sprint(i, " ")
				want[fmt.Sprint("t", i)] = int64(i)
			case 1:
				g += fmt.Sprintf(" IDENT/t%d_Texts", i)
				text += fmt.Sprint("x", i, " ")
				want[fmt.Sprint("t", i)] = []interface{}{fmt.Sprint("x", i)}
			case 2:
				g += fmt.Sprintf(" (INT/v_Int)/t%d_Node", i)
				text += fmt.Sprint(i, " ")
				want[fmt.Sprint("t", i)] = xmap{"v": int64(i)}
			default:
				g += fmt.Sprintf(" ('(' ')')/t%d_NodeArray", i)
				text += "() "
				want[fmt.Sprint("t", i)] = []xmap{nil}
			}
		}
		xwant(c, xnew(c, g, nil), text, want)
	case "nested nodes":
		e := xnew(c, "doc = item; item = ('(' INT/v_Int ?item ')')/n_Node", nil)
		var want xmap
		for i := n; i > 0; i-- {
			m := xmap{"v": int64(i)}
			if want != nil {
				m["n"] = want
			}
			want = m
		}
		xwant(c, e, times(n, func(i int) string { return fmt.Sprintf("(%d", i+1) })+strings.Repeat(")", n), xmap{"n": want})
	case "nested arrays":
		e := xnew(c, "doc = item; item = ('[' *(INT/v_Ints | item) ']')/n_NodeArray", nil)
		var want []xmap
		for i := n; i > 0; i-- {
			m := xmap{"v": []interface{}{int64(i), int64(i)}}
			if want != nil {
				m["n"] = want
			}
			want = []xmap{m}
		}
		xwant(c, e, times(n, func(i int) string { return fmt.Sprintf("[%d %d", i+1, i+1) })+strings.Repeat("]", n), xmap{"n": want})
	case "length of a tag":
		t := cycle(r.Pick("ab", "é", "a_b"), n)
		g := fmt.Sprintf("doc = INT/%s_Int IDENT/%s2_Texts (INT/v_Int)/%s3_Node", t, t, t)
		xwant(c, xnew(c, g, nil), "5 x 7", xmap{t: int64(5), t + "2": []interface{}{"x"}, t + "3": xmap{"v": int64(7)}})
	case "length of a value":
		e := xnew(c, "doc = *(STRING/s_Strings | IDENT/t_Texts)", nil)
		v := cycle(r.Pick("ab é", "x", "\"q\" ", "日本"), n)
		id := cycle("xy", n)
		raw := strings.ReplaceAll(v, "`", "'")
		xwant(c, e, strconv.Quote(v)+" "+id+" `"+raw+"`", xmap{"s": []interface{}{v, raw}, "t": []interface{}{id}})
	case "parses":
		e := xnew(c, "doc = *pair ?(INT/n_Int); pair = (IDENT/k_Text '=' (INT/v_Int | pair))/pair_NodeArray", nil)
		for i := 0; i < n; i++ {
			k := fmt.Sprint("k", i)
			if r.P(25) {
				text := r.Pick("a = ", "a = b = ", "1 2", "a = b = 99999999999999999999", "$", "a = 1 b = c")
				if doc, err := e.SafeExtract(text); err == nil || doc != nil {
					c.Failf("parse %d: %q gives %s, %v", i, text, showDoc(doc), err)
				}
				continue
			}
			xwant(c, e, fmt.Sprintf("%s = %d x = y = %d %d", k, i, i, i), xmap{"n": int64(i), "pair": []xmap{{"k": k, "v": int64(i)}, {"k": "x", "pair": []xmap{{"k": "y", "v": int64(i)}}}}})
		}
	case "leaves of a node":
		e := xnew(c, "doc = ('(' *(INT/a_Ints) IDENT/b_Text *(FLOAT/f_Floats) ')')/n_Node", nil)
		xwant(c, e, "("+times(n, func(i int) string { return fmt.Sprint(i, " ") })+"x "+times(n, func(i int) string { return fmt.Sprint(i, ".5 ") })+")",
			xmap{"n": xmap{"a": list(func(i int) interface{} { return int64(i) }), "b": "x", "f": list(func(i int) interface{} { return float64(i) + .5 })}})
	case "nodes of nodes":
		e := xnew(c, "doc = *g; g = ('[' *i ']')/g_NodeArray; i = ('(' INT/v_Int ')')/i_NodeArray", nil)
		var gs []xmap
		k := 0
		text := times(1+r.N(3), func(j int) string {
			var is []xmap
			s := times(n, func(i int) string { k++; is = append(is, xmap{"v": int64(k)}); return fmt.Sprintf("(%d)", k) })
			gs = append(gs, xmap{"i": is})
			return "[" + s + "]"
		})
		xwant(c, e, text, xmap{"g": gs})
	case "digits":
		e := xnew(c, "doc = *(FLOAT/f_Floats)", nil)
		s := r.digits(1+r.N(5), "123456789") + "." + r.digits(n, "0123456789")
		f, _ := litFloat(s)
		xwant(c, e, s+" 1.5", xmap{"f": []interface{}{f, 1.5}})
	case "scalars under one tag":
		e := xnew(c, "doc = *(INT/a_Int | IDENT/b_Text)", nil)
		xwant(c, e, times(n, func(i int) string { return fmt.Sprintf("%d x%d ", i+7, i) }), xmap{"a": int64(7), "b": "x0"})
	case "value refused far behind":
		e := xnew(c, "doc = *(INT/a_Ints)", nil)
		if doc, err := e.SafeExtract(strings.Repeat("1 ", n) + "99999999999999999999"); err == nil || doc != nil {
			c.Failf("%v, document: %v", err, doc != nil)
		}
		xwant(c, e, "1", xmap{"a": []interface{}{int64(1)}})
	case "matches between the marks":
		e := xnew(c, "doc = INT/a_Ints *IDENT INT/a_Ints", nil)
		xwant(c, e, "1 "+strings.Repeat("x ", n)+"2", xmap{"a": []interface{}{int64(1), int64(2)}})
	}
	c.Ev("big documents", 1)
}

var bigUndoDims = []bigDim{{"nodes given up", 20001}, {"leaves of a node given up", 70001}, {"nodes of a node given up", 20001}, {"alternatives given up in one place", 513}, {"nested nodes given up", 1025}, {"parses aborted", 4097}, {"parses aborted with much open", 1025}, {"document before a node given up", 70001}}

func bigUndo(c *Case, b bigCase) {
	r := c.R
	n := b.n
	switch b.name {
	case "nodes given up":
		e := xnew(c, "doc = *(x | y); x = (IDENT/k_Text INT/v_Int ';')/x_NodeArray; y = (IDENT/q_Text INT ',')/y_NodeArray", nil)
		var xs, ys []xmap
		text := times(n, func(i int) string {
			if r.P(30) {
				xs = append(xs, xmap{"k": "a", "v": int64(i)})
				return fmt.Sprintf("a %d;", i)
			}
			ys = append(ys, xmap{"q": "b"})
			return fmt.Sprintf("b %d,", i)
		})
		want := xmap{}
		if xs != nil {
			want["x"] = xs
		}
		if ys != nil {
			want["y"] = ys
		}
		xwant(c, e, text, want)
	case "leaves of a node given up":
		e := xnew(c, "doc = INT/a_Ints (x | y) INT/a_Ints; x = ('(' *(INT/v_Ints) ';')/x_Node; y = '(' *INT ')' IDENT/y_Text", nil)
		xwant(c, e, "1("+strings.Repeat("5 ", n)+")q 2", xmap{"a": []interface{}{int64(1), int64(2)}, "y": "q"})
	case "nodes of a node given up":
		e := xnew(c, "doc = *(x | y); x = ('(' *i ';')/x_NodeArray; i = ('[' INT/v_Int ']')/i_NodeArray; y = ('(' *i ')')/y_NodeArray", nil)
		var is []xmap
		t := times(n, func(i int) string { is = append(is, xmap{"v": int64(i)}); return fmt.Sprintf("[%d]", i) })
		xwant(c, e, "("+t+") (;", xmap{"x": []xmap{nil}, "y": []xmap{{"i": is}}})
	case "alternatives given up in one place":
		g := "doc = *("
		for i := 0; i < n; i++ {
			g += fmt.Sprintf(`(IDENT/k_Text INT/v_Ints "w%d"/w_Text)/n%d_NodeArray | `, i, i)
		}
		g += "(IDENT/z_Text INT ':')/last_NodeArray)"
		e := xnew(c, g, nil)
		j := r.N(n)
		text := fmt.Sprintf("a 5 w%d b 6: c 7 w%d", j, n-1)
		want := xmap{"last": []xmap{{"z": "b"}}}
		a := xmap{"k": "a", "v": []interface{}{int64(5)}, "w": fmt.Sprint("w", j)}
		z := xmap{"k": "c", "v": []interface{}{int64(7)}, "w": fmt.Sprint("w", n-1)}
		want[fmt.Sprint("n", j)] = []xmap{a}
		if j == n-1 {
			want[fmt.Sprint("n", j)] = []xmap{a, z}
		} else {
			want[fmt.Sprint("n", n-1)] = []xmap{z}
		}
		xwant(c, e, text, want)
	case "nested nodes given up":
		e := xnew(c, "doc = x | y; x = (deep ';')/x_Node; deep = ('(' INT/v_Int ?deep ')')/d_Node; y = IDENT/k_Text | *('(' INT/v_Ints) *')'", nil)
		t := times(n, func(i int) string { return fmt.Sprintf("(%d", i) })
		var vs []interface{}
		for i := 0; i < n; i++ {
			vs = append(vs, int64(i))
		}
		xwant(c, e, t+strings.Repeat(")", n), xmap{"v": vs})
		xwant(c, e, t+strings.Repeat(")", n-1), xmap{"v": vs})
		xwant(c, e, t, xmap{"v": vs})
	case "parses aborted", "parses aborted with much open":
		bomb := false
		e := xnew(c, "doc = *item; item = ('(' *(INT/v_Ints | item | IDENT/b_Text) ')')/i_NodeArray", &extractor.Options{GetValue: func(typ, lit string) interface{} {
			if bomb && lit[0] == 'b' {
				panic("boom")
			}
			return lit
		}})
		k, d := n, 1+r.N(4)
		if b.name != "parses aborted" {
			k, d = 2, n
		}
		for i := 0; i < k; i++ {
			bomb = r.P(70)
			text := strings.Repeat("( 1 ", d) + r.Pick("b", "b)", "bb 3")
			if !bomb {
				text = strings.Repeat("( 1 ", d) + strings.Repeat(")", r.N(d))
			}
			var doc xmap
			var err error
			func() {
				defer func() {
					if x := recover(); x != nil {
						err = fmt.Errorf("%v", x)
					}
				}()
				doc, err = e.Parse([]byte(text), "")
			}()
			if err == nil || doc != nil {
				c.Failf("parse %d: %s gives %s, %v", i, clip(text, 100), showDoc(doc), err)
			}
			bomb = false
			if i < 20 || r.P(10) || i == k-1 {
				xwant(c, e, "(1 2) (x)", xmap{"i": []xmap{{"v": []interface{}{"1", "2"}}, {"b": "x"}}})
			}
		}
	case "document before a node given up":
		e := xnew(c, "doc = *(INT/a_Ints) ?x *(IDENT/b_Texts); x = (IDENT/k_Text ';')/x_Node", nil)
		var a []interface{}
		t := times(n, func(i int) string { a = append(a, int64(i)); return fmt.Sprint(i, " ") })
		xwant(c, e, t+"p q", xmap{"a": a, "b": []interface{}{"p", "q"}})
		xwant(c, e, t+"p;q", xmap{"a": a, "x": xmap{"k": "p"}, "b": []interface{}{"q"}})
	}
	c.Ev("big documents", 1)
}
