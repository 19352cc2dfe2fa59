package main

// C49: a compiler may be used again. One compiler (or several that share a scanner) compiles a
// sequence of grammars, well-formed and not; what was compiled before and what is compiled then
// match as the reference says, with the keywords of all grammars that use the scanner.

import (
	"fmt"
	"strings"

	"github.com/qiniu/text/tpl"
)

// member49 is a compiled grammar of a sequence.
type member49 struct {
	*compiled
	d *gdom
}

func reuseCompiler(c *Case) {
	r := c.R
	conf := gconf{syms: someSyms(r), depth: 2 + r.N(2), cut: 12, act: 25}
	kw := map[string]bool{}
	var done []member49
	var hist []string
	share := r.P(40) // several compilers, one scanner
	comp := new(tpl.Compiler)
	if share || r.P(30) {
		comp.Scanner = new(tpl.AutoKwScanner)
	}
	scanner := comp.Scanner
	note := func(f string, a ...interface{}) {
		hist = append(hist, fmt.Sprintf(f, a...))
		c.Input("one scanner %v\n%s", share, strings.Join(hist, "\n"))
	}
	match := func(m member49) {
		s := m.d.sentence(r, m.d.rules[0].body, append(conf.syms, "IDENT"))
		if len(s) > 60 {
			return
		}
		t := renderSyms(r, s, r.P(20))
		hist = hist[:len(hist):len(hist)]
		old := hist
		note("text %q", t.src)
		in := make([]string, len(s))
		for i, x := range s {
			if x[0] == '"' && opTable[x[1:len(x)-1]] == 0 && !kw[x] {
				x = "IDENT"
			}
			in[i] = x
		}
		ref, ok := refMatch(m.d, m.d.rules[0].body, in)
		if !ok {
			hist = old
			return
		}
		got := m.match(c, t)
		if got.kind != ref.kind || got.kind == "ok" && got.n != ref.n {
			c.Failf("matching: got %v (%v), want %v", got.gres, got.err, ref)
		}
		if len(got.ev) == 0 || got.ev[0].typ != 'I' {
			c.Failf("Init was not called first: %v", got.ev)
		}
		sameEvents(c, got.ev, ref.ev, "A")
		c.Ev("texts "+ref.kind, 1)
		hist = old
	}
	for k := r.Range(2, 5); k > 0; k-- {
		conf.rules = 1 + r.N(4)
		d := genDom(r, conf)
		setMarks(r, d)
		text := grammarText(r, ruleToks(r, d))
		damage := ""
		if r.P(30) {
			damage = r.Pick("\nzq = \"zz", "\nzq = 'x' = ", "\nzq = zundefined;", "\ndoc = IDENT;", "\nzq = Undefined;", "\nzq = 7;")
		}
		note("grammar %s%s", text, damage)
		cp := &compiled{ev: &[]gev{}, marks: map[string]int{}}
		if share && len(done) > 0 {
			comp = &tpl.Compiler{Scanner: scanner}
		}
		live := true
		comp.Grammar = []byte(text + damage)
		comp.ScanMode = 0
		comp.Init = func() { *cp.ev = append(*cp.ev, gev{typ: 'I'}) }
		comp.Marker = func(g tpl.Grammar, mark string) tpl.Grammar {
			if !live {
				panic(caseFailure{"the marker of an earlier grammar is called"})
			}
			id := markID(mark)
			return tpl.Action(g, func(tokens []tpl.Token, g tpl.Grammar) {
				e := gev{typ: 'A', id: id, n: len(tokens), ln: g.Len()}
				if len(tokens) > 0 {
					e.pos = cp.base(tokens)
				}
				*cp.ev = append(*cp.ev, e)
			})
		}
		var err error
		failed := ""
		func() {
			defer func() {
				switch e := recover().(type) {
				case nil:
				case caseFailure:
					panic(e)
				default:
					failed = fmt.Sprint(e)
				}
			}()
			cp.cr, err = comp.Cl()
		}()
		live = false
		if err != nil {
			failed = err.Error()
		}
		if (failed != "") != (damage != "") {
			c.Failf("compiling: %q", failed)
		}
		if damage != "\nzq = \"zz" { // the others fail after the rules before
			for x := range d.quoted() {
				kw[x] = true
			}
		}
		if scanner == nil {
			scanner = comp.Scanner
		}
		if scanner == nil || comp.Scanner != scanner {
			c.Failf("the scanner of the compiler is another one now")
		}
		// what the host sets then is for the next grammar
		comp.Init = func() { panic(caseFailure{"an Init set later is called"}) }
		comp.ScanMode = tpl.InsertSemis | tpl.ScanComments
		if failed == "" {
			if cp.cr.Scanner != scanner {
				c.Failf("the scanner of the grammar is not that of the compiler")
			}
			done = append(done, member49{cp, d})
			c.Ev("grammars compiled", 1)
		} else {
			c.Ev("grammars refused", 1)
		}
		for n := 3; n > 0 && len(done) > 0; n-- {
			m := done[r.N(len(done))]
			if n == 3 {
				m = done[len(done)-1]
			} else if len(done) > 1 {
				c.Ev("earlier grammars used", 1)
			}
			match(m)
		}
	}
	if share {
		c.Ev("shared scanners", 1)
	}
	c.Seen(strings.Join(hist, "|"))
}

func init() {
	register(&Prop{ID: "C49",
		Rule:    "sequences of two to five random grammars, a third of them damaged, compiled by one compiler or by several that share a scanner; after each, texts are matched with the newest and with earlier grammars and judged by the reference matcher, with the keywords of all grammars compiled so far; a case is distinct by its grammars",
		MustSee: []string{"grammars compiled", "grammars refused", "earlier grammars used", "shared scanners", "texts ok", "texts fail"},
		Parts: []*Part{
			{Name: "sequences", Quick: 20000, Thorough: 600000, Run: reuseCompiler},
		}})
}
