package main

// C08, C09, C10, C14: matching, actions, transactions and errors of grammars built from rules.

import (
	"fmt"
	"strings"

	"github.com/qiniu/text/tpl"
)

// gcase is a grammar and a text, matched by the real code and by the reference.
type gcase struct {
	d    *gdom
	root *gn
	t    *gtext
	ref  gres
	got  observed
	m    *tpl.Matcher
	file string
}

// kwScanner knows the keywords of the grammars.
func kwScanner() tpl.Tokener {
	s := new(tpl.AutoKwScanner)
	for _, sym := range gramSyms {
		s.Ltot(sym)
	}
	return s
}

// matchCase matches t with the grammar of d. ok is false if the reference gave up.
func matchCase(c *Case, d *gdom, t *gtext, how int) (gc gcase, ok bool) {
	c.Input("grammar %s\ntext %q", d.show(), t.src)
	m := &tpl.Matcher{Scanner: kwScanner()}
	var ev []gev
	b := buildDom(d, m.Scanner, &ev, func(s string) { c.Failf("%s", s) })
	m.Grammar = b.built["doc"]
	gc = gcase{d: d, root: d.rules[0].body, t: t, m: m, file: []string{"", "a.tpl", "dir/é b:7.txt"}[(len(t.src)+how)%3]}
	if gc.ref, ok = refMatch(d, gc.root, t.syms); !ok {
		c.Ev("texts skipped (too many steps)", 1)
		return
	}
	b.base = toksAt(t, m.Scanner, func(s string) { c.Failf("%s", s) })
	switch how {
	case 0:
		gc.got = runMatch(func() (int, error) {
			next, err := m.Match(t.src, gc.file)
			for i := range next {
				if k := b.base(next[i:]); err == nil && k != len(t.syms)-len(next)+i {
					c.Failf("Match returns token %d in place of %d", k, i)
				}
			}
			return len(t.syms) - len(next), err
		})
	case 1: // the rule itself
		toks, err := m.Tokenize(t.src, gc.file)
		if err != nil {
			c.Failf("Tokenize: %v", err)
		}
		gc.got = runMatch(func() (int, error) { return m.Grammar.Match(toks, m) })
	case 2:
		gc.got = runMatch(func() (int, error) { return len(t.syms), m.MatchExactly(t.src, gc.file) })
		if gc.ref.kind == "ok" && gc.ref.n < len(t.syms) {
			gc.ref.kind, gc.ref.at = "fail", gc.ref.n
		}
	}
	gc.got.ev = ev
	return gc, true
}

func (gc *gcase) checkOutcome(c *Case) {
	if gc.got.kind != gc.ref.kind || gc.got.kind == "ok" && gc.got.n != gc.ref.n {
		c.Failf("matching: got %v (%v), want %v", gc.got.gres, gc.got.err, gc.ref)
	}
}

// checkError: the error can be rendered, names the line and quotes the text.
func (gc *gcase) checkError(c *Case) {
	if gc.ref.kind == "ok" {
		return
	}
	c.Ev("errors rendered", 1)
	if gc.got.err == nil {
		c.Failf("matching: got %v, want %v", gc.got.gres, gc.ref)
	}
	if _, ok := gc.got.err.(*tpl.MatchError); !ok {
		c.Failf("the error is a %T: %v", gc.got.err, gc.got.err)
	}
	msg := gc.got.err.Error()
	first := strings.SplitN(msg, "\n", 2)[0]
	var line int
	if gc.file == "" {
		if n, _ := fmt.Sscanf(first, "line %d:", &line); n != 1 {
			c.Failf("the error names no line: %q", msg)
		}
	} else if s, ok := strings.CutPrefix(first, gc.file+":"); !ok {
		c.Failf("the error doesn't name the file %q: %q", gc.file, msg)
	} else if n, _ := fmt.Sscanf(s, "%d:", &line); n != 1 {
		c.Failf("the error names no line: %q", msg)
	} else {
		c.Ev("errors that name a file", 1)
	}
	if !strings.Contains(string(gc.t.src), "nil") && strings.Contains(msg, "<nil>") {
		c.Failf("the message isn't rendered: %q", msg)
	}
	if want := gc.t.line(gc.ref.at); line != want {
		c.Failf("the error names line %d, want %d (token %d): %q", line, want, gc.ref.at, msg)
	}
	tk := gc.t.toks[gc.ref.at]
	if gc.ref.at == len(gc.t.syms) {
		c.Ev("errors at the end of the text", 1)
	} else if strings.Count(string(gc.t.src), "\n") < 9 && !strings.Contains(msg, string(gc.t.src[tk.off:tk.end])) {
		c.Failf("the message does not quote %q: %q", gc.t.src[tk.off:tk.end], msg)
	}
	if gc.got.kind == "cut" {
		c.Ev("errors behind !", 1)
	}
	c.Ev("line "+fmt.Sprint(min(gc.t.line(gc.ref.at), 5)), 1)
}

// sameEvents compares events of some types; a length the reference doesn't know is not compared.
func sameEvents(c *Case, got, want []gev, typs string) {
	filter := func(l []gev) (r []gev) {
		for _, e := range l {
			if strings.IndexByte(typs, e.typ) >= 0 {
				r = append(r, e)
			}
		}
		return
	}
	g, w := filter(got), filter(want)
	same := len(g) == len(w)
	for i := 0; same && i < len(g); i++ {
		x := g[i]
		if w[i].ln == noLen {
			x.ln = noLen
		}
		same = x.String() == w[i].String()
	}
	if !same {
		c.Failf("events differ\n got  %s\n want %s", evStr(g, typs), evStr(w, typs))
	}
}

func (gc *gcase) checkEvents(c *Case, typs string) {
	sameEvents(c, gc.got.ev, gc.ref.ev, typs)
	for _, e := range gc.ref.ev {
		switch e.typ {
		case 'A':
			c.Ev("actions", 1)
			if e.ln == -1 {
				c.Ev("lengths -1", 1)
			} else if e.ln > 1 {
				c.Ev("lengths above 1", 1)
			} else if e.ln == 0 {
				c.Ev("lengths 0", 1)
			}
		case 'E':
			if e.ok {
				c.Ev("transactions ended well", 1)
			} else {
				c.Ev("transactions failed", 1)
			}
		}
	}
}

func (gc *gcase) key() string {
	return fmt.Sprint(gc.root.show(), gc.t.syms)
}

// randomCase makes a grammar and several texts.
func randomCase(c *Case, conf gconf, multiline bool, check func(gc *gcase)) {
	r := c.R
	n := 2 + r.N(8)
	var syms []string
	for i := 0; i < n; i++ {
		syms = append(syms, gramSyms[r.N(len(gramSyms))])
	}
	conf.syms = syms
	conf.rules = 1 + r.N(4)
	conf.depth = 2 + r.N(3)
	d := genDom(r, conf)
	for i := 0; i < 6; i++ {
		s := d.sentence(r, d.rules[0].body, syms)
		t := renderSyms(r, s, multiline)
		gc, ok := matchCase(c, d, t, r.N(3))
		if !ok {
			continue
		}
		c.Ev("texts "+gc.ref.kind, 1)
		check(&gc)
		if len(s) > 0 {
			c.Seen(gc.key())
		}
	}
}

// ---------------------------------------------------------------- all small grammars

// small grammars by size, over two tokens
var smallCache = map[int][]*gn{}

const smallA, smallB = "IDENT", "INT"

func smallGrams(size int) []*gn {
	if l, ok := smallCache[size]; ok {
		return l
	}
	var l []*gn
	if size == 1 {
		l = []*gn{{op: 't', sym: smallA}, {op: 't', sym: smallB}, {op: '1'}, {op: 'E'}}
	} else {
		for _, a := range smallGrams(size - 1) {
			for _, op := range []byte("*+?@~") {
				if (op == '*' || op == '+') && nullable(a) {
					continue
				}
				l = append(l, &gn{op: op, k: []*gn{a}})
			}
		}
		for i := 1; i < size-1; i++ {
			for _, a := range smallGrams(i) {
				for _, b := range smallGrams(size - 1 - i) {
					l = append(l, &gn{op: '&', k: []*gn{a, b}}, &gn{op: '|', k: []*gn{a, b}}, &gn{op: '&', k: []*gn{a, {op: '!'}, b}})
					if !(nullable(a) && nullable(b)) {
						l = append(l, &gn{op: '%', k: []*gn{a, b}}, &gn{op: 'L', k: []*gn{a, b}})
					}
				}
			}
		}
	}
	smallCache[size] = l
	return l
}

func nullable(n *gn) bool {
	switch n.op {
	case 't':
		return false
	case '+', '%':
		return nullable(n.k[0])
	case '&':
		for _, k := range n.k {
			if k.op != '!' && !nullable(k) {
				return false
			}
		}
		return true
	case '|':
		for _, k := range n.k {
			if nullable(k) {
				return true
			}
		}
		return false
	}
	return true
}

func wrapAll(n *gn, op byte, id *int) *gn {
	if n.op == '!' {
		return n
	}
	m := &gn{op: n.op, sym: n.sym}
	for _, k := range n.k {
		m.k = append(m.k, wrapAll(k, op, id))
	}
	*id++
	switch op {
	case 'b':
		return &gn{op: 'x', id: *id, k: []*gn{{op: 'a', id: *id, k: []*gn{m}}}}
	case 0:
		return m
	}
	return &gn{op: op, id: *id, k: []*gn{m}}
}

var smallTexts [][]string

func init() {
	smallTexts = [][]string{{}}
	for from, n := 0, 0; n < 4; n++ {
		to := len(smallTexts)
		for ; from < to; from++ {
			for _, s := range []string{smallA, smallB} {
				smallTexts = append(smallTexts, append(append([]string{}, smallTexts[from]...), s))
			}
		}
	}
}

// smallPart matches all grammars up to a size with all texts of up to 4 tokens.
func smallPart(quick, thorough int, wrap byte, check func(c *Case, gc *gcase)) *Part {
	const per = 16
	cases := func(size int) int { return (smallCount[size] + per - 1) / per }
	return &Part{Name: "all-small-grammars", Quick: cases(quick), Thorough: cases(thorough), Exhaustive: true, Run: func(c *Case) {
		for i := c.Idx * per; i < (c.Idx+1)*per; i++ {
			size, j := 1, i
			for size < 8 && j >= len(smallGrams(size)) {
				j -= len(smallGrams(size))
				size++
			}
			if k := countSmall(size); len(smallGrams(size)) != k[0]+k[1] {
				panic("the count of small grammars is wrong")
			}
			if j >= len(smallGrams(size)) {
				return
			}
			g := smallGrams(size)[j]
			id := 0
			body := wrapAll(g, wrap, &id)
			d := &gdom{rules: []*grule{{name: "doc", body: body}}}
			d.byN = map[string]*grule{"doc": d.rules[0]}
			c.Ev("grammars enumerated", 1)
			for _, s := range smallTexts {
				t := renderSyms(c.R, s, false)
				gc, ok := matchCase(c, d, t, len(s)%3)
				if ok {
					check(c, &gc)
				}
			}
			c.Seen(g.show())
		}
	}}
}

// smallCount is the number of grammars up to each size.
var smallCount = map[int]int{}

func smallCounts() map[int]int {
	n := 0
	for i := 1; i <= 6; i++ {
		k := countSmall(i)
		n += k[0] + k[1]
		smallCount[i] = n
	}
	return smallCount
}

func init() {
	smallCounts()
	rule := "random grammars (1-4 rules, recursive, depth 2-4, all operators) over 2-9 token kinds, texts derived from them and damaged, plus all grammars up to 5 (thorough: 6) operators and leaves over two tokens with all texts of up to 4 tokens; a case is distinct by grammar and token sequence (random) or grammar (small)"
	register(&Prop{ID: "C08", Rule: rule + ". Outcome and consumed tokens are compared with a reference matcher.",
		MustSee: []string{"texts ok", "texts fail", "texts cut", "grammars enumerated", "matchers without grammar", "variables not assigned", "variables assigned"},
		Parts: []*Part{
			{Name: "random", Quick: 80000, Thorough: 3000000, Run: func(c *Case) {
				randomCase(c, gconf{cut: 15, act: 5, trans: 3, direct: true}, false, func(gc *gcase) { gc.checkOutcome(c) })
			}},
			smallPart(5, 6, 0, func(c *Case, gc *gcase) { gc.checkOutcome(c) }),
			bigMatchPart(0, false, func(c *Case, gc *gcase) { gc.checkOutcome(c) }),
			{Name: "unassigned", Quick: 3000, Thorough: 60000, Run: unassignedCase},
		}})
	register(&Prop{ID: "C09", Rule: rule + ". The sequence of action calls with their tokens and lengths is compared with that of a reference matcher.",
		MustSee: []string{"actions", "lengths above 1", "lengths 0", "comments matched", "inserted semicolons matched", "texts ok", "texts fail", "texts cut"},
		Parts: []*Part{
			{Name: "random", Quick: 80000, Thorough: 3000000, Run: func(c *Case) {
				randomCase(c, gconf{cut: 10, act: 45, trans: 5, direct: true}, false, func(gc *gcase) { gc.checkEvents(c, "A") })
			}},
			{Name: "modes", Quick: 6000, Thorough: 100000, Run: checkModes("compiler")},
			smallPart(4, 5, 'a', func(c *Case, gc *gcase) { gc.checkEvents(c, "A") }),
			bigMatchPart(0, false, func(c *Case, gc *gcase) { gc.checkEvents(c, "A") }),
		}})
	register(&Prop{ID: "C10", Rule: rule + ". The sequence of begin, end and action calls is compared with that of a reference matcher; matching and error with those of the same grammar without transactions.",
		MustSee: []string{"transactions ended well", "transactions failed", "actions", "texts ok", "texts fail", "texts cut", "transparency compared"},
		Parts: []*Part{
			{Name: "random", Quick: 80000, Thorough: 3000000, Run: func(c *Case) {
				randomCase(c, gconf{cut: 10, act: 20, trans: 35, direct: true}, c.R.P(30), func(gc *gcase) { checkTrans(c, gc) })
			}},
			smallPart(4, 5, 'b', func(c *Case, gc *gcase) { checkTrans(c, gc) }),
			bigMatchPart('x', false, func(c *Case, gc *gcase) { checkTrans(c, gc) }),
		}})
	register(&Prop{ID: "C14", Rule: rule + ", over several lines. The error is rendered and its line and quotation compared with the token a reference error model names.",
		MustSee: []string{"errors rendered", "errors at the end of the text", "errors behind !", "line 1", "line 2", "line 4"},
		Parts: []*Part{
			{Name: "random", Quick: 100000, Thorough: 3000000, Run: func(c *Case) {
				randomCase(c, gconf{cut: 20, act: 5, trans: 5, direct: true}, c.R.P(90), func(gc *gcase) { gc.checkError(c) })
			}},
			smallPart(4, 5, 0, func(c *Case, gc *gcase) { gc.checkError(c) }),
			bigMatchPart(0, true, func(c *Case, gc *gcase) { gc.checkError(c) }),
		}})
}

// countSmall counts the small grammars of a size: {not nullable, nullable}.
func countSmall(size int) [2]int {
	if size == 1 {
		return [2]int{2, 2}
	}
	k := countSmall(size - 1)
	nn, nu := k[0], k[0]+3*(k[0]+k[1])
	for i := 1; i < size-1; i++ {
		a, b := countSmall(i), countSmall(size-1-i)
		all, both := (a[0]+a[1])*(b[0]+b[1]), a[1]*b[1]
		nn += 2*(all-both) + a[0]*b[0] + a[0]*(b[0]+b[1])
		nu += 2*both + all - a[0]*b[0] + a[1]*b[0] + all - both
	}
	return [2]int{nn, nu}
}

// checkTrans: events, and a transaction changes nothing else.
func checkTrans(c *Case, gc *gcase) {
	gc.checkEvents(c, "ABE")
	var strip func(n *gn) *gn
	strip = func(n *gn) *gn {
		if n.op == 'x' {
			return strip(n.k[0])
		}
		m := *n
		m.k = nil
		for _, k := range n.k {
			m.k = append(m.k, strip(k))
		}
		return &m
	}
	d := &gdom{byN: map[string]*grule{}}
	for _, ru := range gc.d.rules {
		x := &grule{name: ru.name, body: strip(ru.body)}
		d.rules = append(d.rules, x)
		d.byN[x.name] = x
	}
	var ev []gev
	m := &tpl.Matcher{Scanner: kwScanner()}
	b := buildDom(d, m.Scanner, &ev, func(s string) { c.Failf("%s", s) })
	m.Grammar = b.built["doc"]
	b.base = toksAt(gc.t, m.Scanner, func(s string) { c.Failf("%s", s) })
	toks, _ := m.Tokenize(gc.t.src, "")
	got := runMatch(func() (int, error) { return m.Grammar.Match(toks, m) })
	toks, _ = gc.m.Tokenize(gc.t.src, "")
	with := runMatch(func() (int, error) { return gc.m.Grammar.Match(toks, gc.m) })
	es := func(e error) string {
		if e == nil {
			return "ok"
		}
		return e.Error()
	}
	if got.kind != with.kind || got.n != with.n || es(got.err) != es(with.err) {
		c.Failf("with transactions: %v %s\nwithout: %v %s", with.gres, es(with.err), got.gres, es(got.err))
	}
	if a, b := evStr(ev, "A"), evStr(gc.ref.ev, "A"); a != b {
		c.Failf("actions without transactions: %s\nwith: %s", a, b)
	}
	c.Ev("transparency compared", 1)
}
