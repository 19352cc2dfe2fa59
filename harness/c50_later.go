package main

// C50: what the host changes later is its own. Options and function tables are changed after an
// engine was made, documents after they were handed out; a twin engine whose options, table and
// documents nobody touches says what has to come out.

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/extractor"
	ip "github.com/qiniu/text/tpl/interpreter"
	"github.com/qiniu/text/tpl/qlang"
)

var laterGrammars = []string{
	"doc = (IDENT/v_Texts | INT/n_Ints) % ','",
	"item = IDENT/name_Text ?('=' INT/n_Int); doc = item/item_Nodes % ','",
	"a = IDENT/x_Text INT/y_Int; b = IDENT/x_Text; doc = (a/a_Nodes | b/b_Node | INT/n_IntArray) % ','",
	"l = '(' (IDENT/v_Texts | INT/n_Ints) %= ',' ')'; k = l/l_Nodes % ';' | IDENT/only_Text; doc = k/k_NodeArray % '='",
	"doc = *(IDENT/w_Texts | INT/w_Ints | ','/sep_Text | CHAR/c_Char | ';')",
}

// laterPool has the pieces and separators of texts of a grammar.
var laterPool = [][2]string{
	{"a|b|7|12", ", |,\n"},
	{"a|b|x=1|y = 2", ", |,\n"},
	{"a 1|b 2|c|d 4|7|e", ", |,\n"},
	{"(a, b)|(1)|()|(a, 3, b);(c)|x", "="},
	{"a|7|'c'|b c|,", " |;|, "},
}

func laterText(r *Rand, pool [2]string) string {
	var b strings.Builder
	items, seps := strings.Split(pool[0], "|"), strings.Split(pool[1], "|")
	for n := r.N(6); n >= 0; n-- {
		b.WriteString(items[r.N(len(items))])
		if n > 0 || r.P(10) {
			b.WriteString(seps[r.N(len(seps))])
		}
	}
	if r.P(8) {
		b.WriteString(r.Pick(" ?", "\"", " )", " a a a"))
	}
	return b.String()
}

// spoil changes all that a document consists of.
func spoil(r *Rand, v interface{}) {
	switch x := v.(type) {
	case map[string]interface{}:
		if x == nil {
			return
		}
		for _, e := range x {
			spoil(r, e)
		}
		for k := range x {
			switch len(k) % 3 {
			case 0:
				delete(x, k)
			default:
				x[k] = "spoiled"
			}
		}
		x["spoiled"] = 1
	case []map[string]interface{}:
		for i := range x {
			spoil(r, x[i])
			x[i] = map[string]interface{}{"spoiled": 2}
		}
	case []interface{}:
		for i := range x {
			spoil(r, x[i])
			x[i] = "spoiled"
		}
		_ = append(x[:0], "spoiled", "spoiled", "spoiled", "spoiled")
		if n := cap(x); n > len(x) {
			x = x[:n]
			x[n-1] = "spoiled"
		}
	}
}

func laterExtractor(c *Case) {
	r := c.R
	gi := r.N(len(laterGrammars))
	gram := laterGrammars[gi]
	mode := scanModes[r.Pick2(0, 0, 0, 0, 2)]
	opt := &extractor.Options{ScanMode: mode}
	if r.P(30) {
		opt.GetValue = func(typ, lit string) interface{} { return typ + ":" + lit }
	}
	twin := *opt
	grammar := []byte(gram)
	e, err := extractor.New(grammar, opt)
	noErr(c, err)
	e2, err := extractor.New(gram, &twin)
	noErr(c, err)
	opt.GetValue = func(typ, lit string) interface{} { panic(caseFailure{"a GetValue set later is called"}) }
	opt.ScanMode = tpl.InsertSemis | tpl.ScanComments
	opt.Scanner = nil
	if r.P(50) {
		opt.Scanner = new(tpl.AutoKwScanner)
	}
	var hist []string
	var docs, whole []interface{}
	for k := r.Range(2, 5); k > 0; k-- {
		text := laterText(r, laterPool[gi])
		hist = append(hist, strconv.Quote(text))
		c.Input("extractor %s\ntexts %s", gram, strings.Join(hist, " "))
		got, err1 := e.SafeExtract(text)
		want, err2 := e2.SafeExtract(text)
		if fmt.Sprint(err1) != fmt.Sprint(err2) {
			c.Failf("got %v, want %v", err1, err2)
		}
		if d := diffDoc("doc", got, want); d != "" {
			c.Failf("%s", d)
		}
		if err1 != nil {
			c.Ev("texts refused", 1)
			continue
		}
		c.Ev("documents", 1)
		if r.P(60) {
			spoil(r, got)
			c.Ev("documents changed", 1)
			res := e.Result()
			if d := diffDoc("Result()", res, want); d != "" {
				c.Failf("after the document was changed: %s", d)
			}
			if r.P(50) {
				spoil(r, res)
			}
		} else {
			docs, whole = append(docs, got), append(whole, want)
		}
	}
	for i := range docs {
		if d := diffDoc("doc", docs[i], whole[i]); d != "" {
			c.Failf("document %d, after later ones were made and changed: %s", i, d)
		}
	}
	c.Seen(gram + strings.Join(hist, ""))
}

func laterInterp(c *Case) {
	r := c.R
	gram := r.Pick("doc = (IDENT/one | INT/Two | CHAR/_three) % ','/four", "item = IDENT/one ?INT/Two; doc = +(item/four ',')", "doc = *((IDENT INT)/Two | IDENT/one | (INT/_three)/four | ',')")
	log := ""
	make1 := func() (*bipt, *ip.Options, *ip.Engine) {
		p := newBipt(gram)
		p.table["$one"] = func(p *bipt, s string) { log += "one " + s + ";" }
		p.table["$Two"] = func(p *bipt, n int) { log += fmt.Sprint("two ", n, ";") }
		p.table["$_three"] = func(p *bipt, x interface{}) { log += fmt.Sprint("three ", len(x.([]tpl.Token)), ";") }
		p.table["$four"] = func(p *bipt) { log += "four;" }
		opt := &ip.Options{ScanMode: scanModes[r.Pick2(0, 0)]}
		e, err := ip.New(p, opt)
		noErr(c, err)
		return p, opt, e
	}
	p, opt, e := make1()
	_, _, e2 := make1()
	never := func(p *bipt) { panic(caseFailure{"a function set later is called"}) }
	var hist []string
	for k := r.Range(2, 5); k > 0; k-- {
		switch r.N(5) {
		case 0:
			p.table["$"+r.Pick("one", "Two", "_three", "four")] = never
			c.Ev("functions replaced", 1)
		case 1:
			delete(p.table, "$"+r.Pick("one", "Two", "_three", "four"))
		case 2:
			p.table["$_mute"], p.table["$new"] = never, 7
		case 3:
			opt.ScanMode, opt.Scanner = tpl.ScanComments|tpl.InsertSemis, new(tpl.AutoKwScanner)
			c.Ev("options changed", 1)
		}
		text := laterText(r, [2]string{"a|b 7|'c'|5|a 6|9", ", |,\n"})
		hist = append(hist, strconv.Quote(text))
		c.Input("interpreter %s\ntexts %s", gram, strings.Join(hist, " "))
		log = ""
		err1 := e.Eval(text)
		got := log
		log = ""
		err2 := e2.Eval(text)
		if fmt.Sprint(err1) != fmt.Sprint(err2) || got != log {
			c.Failf("got %q %v\nwant %q %v", got, err1, log, err2)
		}
		c.Ev("texts interpreted", 1)
	}
	c.Seen(gram + strings.Join(hist, ""))
}

// laterQlang: the options of qlang, and arguments and results of functions of scripts.
func laterQlang(c *Case) {
	r := c.R
	opt := &qlang.Options{ScanMode: tpl.InsertSemis}
	l, err := qlang.New(opt)
	noErr(c, err)
	opt.ScanMode, opt.Scanner = tpl.ScanComments, new(tpl.Scanner)
	n := r.N(100)
	text := fmt.Sprintf("a = %d\nb = a + 1\n\nf = fn(x) {\n\ty = x // c\n\treturn y * 2\n}\nr = f(b)\n", n)
	c.Input("%s", text)
	code := []byte(text)
	noErr(c, l.SafeExec(code, "f"))
	for i := range code {
		code[i] = '?'
	}
	l.Ret()
	if v, _ := l.Var("r"); v != 2*(n+1) {
		c.Failf("r is %v, want %d", v, 2*(n+1))
	}
	noErr(c, l.SafeEval("r = f(1)"))
	l.Ret()
	if v, _ := l.Var("r"); v != 2 {
		c.Failf("r is %v, want 2", v)
	}
	c.Ev("scripts", 1)
	c.Seen(text)
}

func init() {
	register(&Prop{ID: "C50",
		Rule:    "engines made with options, grammars and function tables that are changed afterwards in random ways (functions replaced, removed and added, scan modes, scanners, conversions), and documents of extractors changed in every part between extractions; everything is compared with a twin nobody touches; a case is distinct by grammar and texts",
		MustSee: []string{"documents", "texts refused", "documents changed", "functions replaced", "options changed", "texts interpreted", "scripts"},
		Parts: []*Part{
			{Name: "extractors", Quick: 8000, Thorough: 300000, Run: laterExtractor},
			{Name: "interpreters", Quick: 6000, Thorough: 200000, Run: laterInterp},
			{Name: "qlang", Quick: 200, Thorough: 2000, Run: laterQlang},
		}})
}
