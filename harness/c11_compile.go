package main

// C07, C11, C12, C13, C15: grammars compiled from text.

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"github.com/qiniu/text/tpl"
)

// ---------------------------------------------------------------- grammar text

type gprint struct {
	r    *Rand
	toks []string
}

func (p *gprint) put(s ...string) { p.toks = append(p.toks, s...) }

// node prints n for a context: 0 choice, 1 sequence, 2 term, 3 factor.
func (p *gprint) node(n *gn, lvl int) {
	own := 3
	switch n.op {
	case '|':
		own = 0
	case '&':
		own = 1
	case '%', 'L', 'a':
		own = 2
	}
	if own < lvl || p.r.P(5) {
		p.put("(")
		p.node0(n)
		p.put(")")
		return
	}
	p.node0(n)
}

func (p *gprint) node0(n *gn) {
	switch n.op {
	case 't', 'r':
		p.put(n.sym)
	case '1':
		p.put("1")
	case 'E':
		p.put("EOF")
	case '!':
		p.put("!")
	case '|':
		for i, k := range n.k {
			if i > 0 {
				p.put("|")
			}
			p.node(k, 1)
		}
	case '&':
		for _, k := range n.k {
			if k.op == '!' {
				p.put("!")
			} else {
				p.node(k, 2)
			}
		}
	case '%', 'L':
		p.node(n.k[0], 2)
		if n.op == '%' {
			p.put("%")
		} else {
			p.put("%=")
		}
		p.node(n.k[1], 3)
	case 'a':
		p.node(n.k[0], 2)
		p.put("/", n.sym)
	default:
		p.put(string(n.op))
		p.node(n.k[0], 3)
	}
}

func arming(tok string) bool {
	c := tok[len(tok)-1]
	return c == ')' || c == '\'' || c == '"' || c == '`' || c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}

// joinGrammar writes the tokens of one rule; a newline is only written where it is no semicolon.
func joinGrammar(r *Rand, b *strings.Builder, toks []string) {
	for i, t := range toks {
		b.WriteString(t)
		if i+1 == len(toks) {
			break
		}
		n := toks[i+1]
		switch {
		case t == "(" || n == ")" || n == "(" && t != "/":
			b.WriteString(r.Pick("", "", " "))
		default:
			b.WriteString(" ")
		}
		if r.P(8) {
			if arming(t) {
				b.WriteString(r.Pick(" /* c */ ", "\t", "/**/"))
			} else {
				b.WriteString(r.Pick("\n", "\n\t", " // c\n", " # d\n", "/* e\n */", "\r\n"))
			}
		}
	}
}

// ruleToks prints every rule.
func ruleToks(r *Rand, d *gdom) (rules [][]string) {
	for _, ru := range d.rules {
		p := &gprint{r: r}
		p.put(ru.name, "=")
		p.node(ru.body, 0)
		rules = append(rules, p.toks)
	}
	return
}

func grammarText(r *Rand, rules [][]string) string {
	rules = append([][]string{}, rules...)
	r.Shuffle(len(rules), func(i, j int) { rules[i], rules[j] = rules[j], rules[i] })
	var b strings.Builder
	if r.P(20) {
		b.WriteString(r.Pick("\n", "// grammar\n", "/* g */"))
	}
	for i, toks := range rules {
		joinGrammar(r, &b, toks)
		last := toks[len(toks)-1]
		if arming(last) && i+1 == len(rules) && r.P(20) {
			break // the end of the text ends the rule
		}
		if arming(last) && r.P(50) {
			b.WriteString(r.Pick("\n", "\n\n", " // c\n", "\r\n", " # c\n", "/* c */\n"))
		} else {
			b.WriteString(r.Pick(";", " ;\n", ";\n\n"))
		}
	}
	return b.String()
}

// quoted tells which words are keywords of the grammar.
func (d *gdom) quoted() map[string]bool {
	m := map[string]bool{}
	var walk func(n *gn)
	walk = func(n *gn) {
		if n.op == 't' && n.sym[0] == '"' && opTable[n.sym[1:len(n.sym)-1]] == 0 {
			m[n.sym] = true
		}
		for _, k := range n.k {
			walk(k)
		}
	}
	for _, ru := range d.rules {
		walk(ru.body)
	}
	return m
}

// seenAs gives the tokens as the compiled grammar sees them: words it doesn't quote are IDENT.
func (d *gdom) seenAs(syms []string) (s []string) {
	kw := d.quoted()
	for _, x := range syms {
		if x[0] == '"' && opTable[x[1:len(x)-1]] == 0 && !kw[x] {
			x = "IDENT"
		}
		s = append(s, x)
	}
	return
}

// setMarks names the actions; some marks occur several times.
func setMarks(r *Rand, d *gdom) map[string]int {
	occ := map[string]int{}
	max := d.ids
	if r.P(40) {
		max = 1 + d.ids/2
	}
	var walk func(n *gn)
	walk = func(n *gn) {
		if n.op == 'a' {
			n.id = 1 + r.N(max)
			n.sym = []string{"m", "Mark", "_m", "été"}[n.id%4] + strconv.Itoa(n.id)
			occ[n.sym]++
		}
		for _, k := range n.k {
			walk(k)
		}
	}
	for _, ru := range d.rules {
		walk(ru.body)
	}
	return occ
}

func markID(mark string) int {
	id, _ := strconv.Atoi(strings.TrimLeft(mark, "mMark_été"))
	return id
}

// compiled is a compiled grammar with its trace.
type compiled struct {
	cr    tpl.CompileRet
	ev    *[]gev
	base  func([]tpl.Token) int
	marks map[string]int
	bomb  int // panic in the n-th action from now
	keep  func([]tpl.Token)
}

func compileTraced(c *Case, text []byte) (cp *compiled, err error) {
	cp = &compiled{ev: &[]gev{}, marks: map[string]int{}}
	comp := &tpl.Compiler{Grammar: text, Marker: func(g tpl.Grammar, mark string) tpl.Grammar {
		cp.marks[mark]++
		id := markID(mark)
		return tpl.Action(g, func(tokens []tpl.Token, g tpl.Grammar) {
			e := gev{typ: 'A', id: id, n: len(tokens), ln: g.Len()}
			if len(tokens) > 0 {
				e.pos = cp.base(tokens)
				if cp.keep != nil {
					cp.keep(tokens)
				}
			}
			*cp.ev = append(*cp.ev, e)
			if cp.bomb > 0 {
				if cp.bomb--; cp.bomb == 0 {
					panic("bomb")
				}
			}
		})
	}, Init: func() { *cp.ev = append(*cp.ev, gev{typ: 'I'}) }}
	if c.R.P(30) {
		comp.Scanner = new(tpl.AutoKwScanner)
	}
	cp.cr, err = comp.Cl()
	return
}

func compileOK(c *Case, text string) *compiled {
	var cp *compiled
	var err error
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(caseFailure); ok {
					panic(e)
				}
				c.Failf("compiling a well-formed grammar panics: %v", e)
			}
		}()
		cp, err = compileTraced(c, []byte(text))
	}()
	if err != nil {
		c.Failf("a well-formed grammar does not compile: %v", err)
	}
	c.Ev("grammars compiled", 1)
	return cp
}

func (cp *compiled) locate(c *Case, t *gtext) {
	cp.base = toksAt(t, cp.cr.Scanner, func(s string) { c.Failf("%s", s) })
}

func (cp *compiled) match(c *Case, t *gtext) observed {
	cp.locate(c, t)
	*cp.ev = nil
	o := runMatch(func() (int, error) {
		next, err := cp.cr.Match(t.src, "")
		return len(t.syms) - len(next), err
	})
	o.ev = *cp.ev
	return o
}

func someSyms(r *Rand) (syms []string) {
	for i := 2 + r.N(8); i > 0; i-- {
		syms = append(syms, gramSyms[r.N(len(gramSyms))])
	}
	return
}

func checkCompile(c *Case) {
	r := c.R
	conf := gconf{syms: someSyms(r), rules: 1 + r.N(5), depth: 2 + r.N(3), cut: 12, act: 25}
	d := genDom(r, conf)
	occ := setMarks(r, d)
	text := grammarText(r, ruleToks(r, d))
	c.Input("grammar %s", text)
	cp := compileOK(c, text)
	for m, n := range occ {
		if cp.marks[m] != n {
			c.Failf("mark %s occurs %d times, the marker was called %d times", m, n, cp.marks[m])
		}
		c.Ev("marks", n)
	}
	if len(cp.marks) != len(occ) {
		c.Failf("marker called for %v, marks are %v", cp.marks, occ)
	}
	for i := 0; i < 6; i++ {
		s := d.sentence(r, d.rules[0].body, append(conf.syms, "IDENT"))
		t := renderSyms(r, s, r.P(20))
		c.Input("grammar %s\ntext %q", text, t.src)
		ref, ok := refMatch(d, d.rules[0].body, d.seenAs(s))
		if !ok {
			continue
		}
		got := cp.match(c, t)
		if got.kind != ref.kind || got.kind == "ok" && got.n != ref.n {
			c.Failf("matching: got %v (%v), want %v", got.gres, got.err, ref)
		}
		if len(got.ev) == 0 || got.ev[0].typ != 'I' {
			c.Failf("Init was not called first: %v", got.ev)
		}
		sameEvents(c, got.ev, ref.ev, "A")
		c.Ev("texts "+ref.kind, 1)
		c.Ev("actions", len(ref.ev))
		if len(s) > 0 {
			c.Seen(d.show() + fmt.Sprint(s))
		}
	}
}

// ---------------------------------------------------------------- C12

type gparse struct {
	ts    []rtok
	i     int
	bad   bool
	defs  map[string]int
	uses  map[string]bool
	why   string
	vague bool
}

// wellFormed decides a grammar text. vague: the notation doesn't say.
func wellFormed(text string) (ok, vague bool, why string) {
	ref := refLex([]byte(text))
	if len(ref.errs) > 0 {
		return false, false, "lexical error"
	}
	p := &gparse{ts: ref.tokens(tpl.InsertSemis), defs: map[string]int{}, uses: map[string]bool{}}
	if p.kind() == tpl.EOF {
		return false, false, "empty"
	}
	for p.kind() != tpl.EOF && !p.bad {
		name := p.lit()
		p.expect(tpl.IDENT)
		p.expect('=')
		if p.bad {
			break
		}
		if name[0] >= 'A' && name[0] <= 'Z' || name == "true" {
			p.vague = true
		}
		p.defs[name]++
		p.choice()
		p.expect(tpl.SEMICOLON)
	}
	if p.bad {
		return false, p.vague, p.why
	}
	if p.defs["doc"] == 0 {
		p.fail("no doc")
	}
	for _, k := range p.defs {
		if k > 1 {
			p.fail("rule defined twice")
		}
	}
	for n := range p.uses {
		if p.defs[n] == 0 {
			p.fail("rule not defined")
		}
	}
	return !p.bad, p.vague, p.why
}

func (p *gparse) fail(why string) {
	if !p.bad {
		p.bad, p.why = true, why
	}
}
func (p *gparse) kind() uint  { return p.ts[p.i].kind }
func (p *gparse) lit() string { return p.ts[p.i].lit }
func (p *gparse) expect(k uint) {
	if p.bad {
		return
	}
	if p.kind() != k {
		p.fail("syntax error")
		return
	}
	p.i++
}

func (p *gparse) choice() {
	for !p.bad {
		p.seq()
		if p.bad || p.kind() != '|' {
			return
		}
		p.i++
	}
}

func (p *gparse) starts() bool {
	switch p.kind() {
	case tpl.IDENT, tpl.CHAR, tpl.STRING, tpl.INT, '*', '+', '?', '~', '@', '(', '!':
		return true
	}
	return false
}

func (p *gparse) seq() {
	n, cuts := 0, 0
	for !p.bad && p.starts() {
		n++
		if p.kind() == '!' {
			cuts++
			p.i++
			continue
		}
		p.factor()
		for !p.bad {
			switch p.kind() {
			case '%', tpl.REM_ASSIGN:
				p.i++
				p.factor()
				continue
			case '/':
				p.i++
				p.expect(tpl.IDENT)
				continue
			}
			break
		}
	}
	if n == 0 {
		p.fail("syntax error")
	}
	if n == cuts {
		p.vague = true
	}
}

func (p *gparse) factor() {
	if p.bad {
		return
	}
	t := p.ts[p.i]
	if t.kind != tpl.EOF {
		p.i++
	}
	switch t.kind {
	case tpl.IDENT:
		if c := t.lit[0]; c >= 'A' && c <= 'Z' {
			switch t.lit {
			case "IDENT", "INT", "FLOAT", "IMAG", "CHAR", "STRING", "COMMENT", "EOF":
			default:
				p.fail("unknown token")
			}
		} else if t.lit == "true" {
			p.vague = true
		} else {
			p.uses[t.lit] = true
		}
	case tpl.CHAR:
		if k, ok := opTable[t.lit[1:len(t.lit)-1]]; t.lit != "';'" && (!ok || k > 255) {
			p.fail("unknown operator")
		}
	case tpl.STRING:
		if t.lit[0] == '`' {
			p.fail("raw string")
		}
		if len(t.lit) == 2 || strings.Contains(t.lit, `\`) {
			p.vague = true // the notation doesn't say what the empty word, or an escape, is
		}
	case tpl.INT:
		if t.lit != "1" {
			p.fail("number")
		}
	case '*', '+', '?', '~', '@':
		p.factor()
	case '(':
		p.choice()
		p.expect(')')
	default:
		p.fail("syntax error")
	}
}

func checkIllFormed(c *Case) {
	r := c.R
	conf := gconf{syms: someSyms(r), rules: 1 + r.N(4), depth: 1 + r.N(3), cut: 12, act: 15}
	d := genDom(r, conf)
	setMarks(r, d)
	rules := ruleToks(r, d)
	pool := []string{"(", ")", "|", "*", "+", "?", "@", "~", "%", "%=", "/", "!", "=", ";", "doc", "expr", "x", "zz", "1", "2", "0", "01", "1.0", "IDENT", "INT", "Foo", "ADD", "IDENTX", "EOF", "ILLEGAL", "'+'", "'a'", `"<<"`, `"+"`, `"kw"`, "`raw`", "`<<`", ",", "{", "]", "mark", "'<<'", "';'", `"..."`, "&", "'&'", "-", "1i"}
	for n := r.W(15, 60, 25); n > 0; n-- {
		k := r.N(len(rules))
		ts := append([]string{}, rules[k]...)
		i := r.N(len(ts))
		switch r.W(25, 20, 25, 8, 8, 8) {
		case 0: // delete
			ts = append(ts[:i], ts[i+1:]...)
		case 1:
			ts[i] = pool[r.N(len(pool))]
		case 2:
			ts = append(ts[:i], append([]string{pool[r.N(len(pool))]}, ts[i:]...)...)
		case 3: // swap
			j := r.N(len(ts))
			ts[i], ts[j] = ts[j], ts[i]
		case 4: // a rule disappears
			rules = append(rules[:k:k], rules[k+1:]...)
			ts = nil
		case 5: // a rule twice
			rules = append(rules, ts)
			ts = nil
		}
		if ts != nil {
			rules[k] = ts
		}
		var rest [][]string
		for _, ts := range rules {
			if len(ts) > 0 {
				rest = append(rest, ts)
			}
		}
		if rules = rest; len(rules) == 0 {
			break
		}
	}
	text := grammarText(r, rules)
	if r.P(15) && len(text) > 0 { // characters
		i := r.N(len(text))
		switch r.N(3) {
		case 0:
			text = text[:i] + text[i+1:]
		case 1:
			text = text[:i] + r.Pick("$", "\n", "\"", "'", "\xff", "\x00", "/*", ";", "=", " ", "é", "_") + text[i:]
		case 2:
			text = text[:i]
		}
	}
	judgeGrammar(c, text)
}

func judgeGrammar(c *Case, text string) {
	c.Input("grammar %q", text)
	ok, vague, why := wellFormed(text)
	if vague {
		c.Ev("grammars the notation doesn't decide", 1)
		return
	}
	var err error
	var pan interface{}
	var cp *compiled
	func() {
		defer func() { pan = recover() }()
		cp, err = compileTraced(c, []byte(text))
	}()
	switch pan.(type) {
	case nil, error, string:
	default:
		c.Failf("compiling panics with %T %v", pan, pan)
	}
	if ok {
		if err != nil || pan != nil {
			c.Failf("a well-formed grammar is refused: %v %v", err, pan)
		}
		if cp.cr.Matcher == nil || cp.cr.Grammar == nil {
			c.Failf("no matcher for a well-formed grammar")
		}
		c.Ev("well-formed grammars", 1)
		c.Seen(text)
		return
	}
	if err == nil && pan == nil {
		c.Failf("an ill-formed grammar compiles: %s", why)
	}
	if err != nil {
		_ = err.Error()
		c.Ev("ill-formed grammars: error", 1)
	} else {
		if _, ok := pan.(interface{ RuntimeError() }); ok {
			c.Failf("compiling panics with the runtime error %v", pan)
		}
		c.Ev("ill-formed grammars: panic", 1)
	}
	c.Ev("ill-formed: "+why, 1)
	c.Seen(text)
}

// ---------------------------------------------------------------- C13

func stripCuts(n *gn) *gn {
	m := *n
	m.k = nil
	for _, k := range n.k {
		if k.op != '!' {
			m.k = append(m.k, stripCuts(k))
		}
	}
	if m.op == 'a' || m.op == 'x' || m.op == '&' && len(m.k) == 1 {
		return m.k[0]
	}
	return &m
}

func checkCode(c *Case) {
	r := c.R
	conf := gconf{syms: someSyms(r), rules: 1 + r.N(4), depth: 2 + r.N(3), cut: 15, act: 8, trans: 4, direct: r.P(50)}
	codeRoundTrip(c, genDom(r, conf), func(d *gdom) []string { return d.sentence(r, d.rules[0].body, append(conf.syms, "IDENT")) }, 5)
}

func codeRoundTrip(c *Case, d *gdom, text func(d *gdom) []string, texts int) {
	r := c.R
	c.Input("grammar %s", d.show())
	m := &tpl.Matcher{Scanner: new(tpl.AutoKwScanner)}
	var ev []gev
	b := buildDom(d, m.Scanner, &ev, func(s string) { c.Failf("%s", s) })
	b.base = func([]tpl.Token) int { return 0 }
	m.Grammar = b.built["doc"]
	codes := map[string]string{}
	var src strings.Builder
	for _, i := range shuffled(r, len(d.rules)) {
		n := d.rules[i].name
		codes[n] = tpl.Code(b.built[n], m.Scanner)
		if again := tpl.Code(b.built[n], m.Tokener()); again != codes[n] {
			c.Failf("code of %s is %q, then %q", n, codes[n], again)
		}
		fmt.Fprintf(&src, "%s = %s;\n", n, codes[n])
	}
	if m.Code() != codes["doc"] {
		c.Failf("Matcher.Code is %q, the code of doc %q", m.Code(), codes["doc"])
	}
	c.Input("grammar %s\ncode %s", d.show(), src.String())
	var cr tpl.CompileRet
	var err error
	var pan interface{}
	func() {
		defer func() { pan = recover() }()
		cr, err = (&tpl.Compiler{Grammar: []byte(src.String())}).Cl()
	}()
	if err != nil || pan != nil {
		c.Failf("the code does not compile: %v %v", err, pan)
	}
	for n, code := range codes {
		g := cr.Grammars[n]
		if g == nil && cr.Vars[n] != nil {
			g = cr.Vars[n].Elem
		}
		if g == nil {
			c.Failf("rule %s is lost", n)
		}
		if again := tpl.Code(g, cr.Tokener()); again != code {
			c.Failf("code of %s is %q, compiled again %q", n, code, again)
		}
		c.Ev("codes printed", 1)
	}
	plain := &gdom{byN: map[string]*grule{}}
	for _, ru := range d.rules {
		x := &grule{name: ru.name, body: stripCuts(ru.body)}
		plain.rules = append(plain.rules, x)
		plain.byN[x.name] = x
	}
	for i := 0; i < texts; i++ {
		s := text(d)
		t := renderSyms(r, s, false)
		ref, ok := refMatch(plain, plain.rules[0].body, plain.seenAs(s))
		if !ok {
			continue
		}
		got := runMatch(func() (int, error) {
			next, err := cr.Match(t.src, "")
			return len(s) - len(next), err
		})
		if got.kind != ref.kind || got.kind == "ok" && got.n != ref.n {
			c.Failf("text %q: the code gives %v (%v), the grammar %v", t.src, got.gres, got.err, ref)
		}
		c.Ev("texts "+ref.kind, 1)
	}
	c.Seen(d.show())
}

func shuffled(r *Rand, n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = i
	}
	r.Shuffle(n, func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l
}

// ---------------------------------------------------------------- C15

func checkHistory(c *Case) { evalHistory(c, 2+c.R.N(7), 1+c.R.N(5), 2+c.R.N(2)) }

func evalHistory(c *Case, n, rules, depth int) {
	r := c.R
	conf := gconf{syms: someSyms(r), rules: rules, depth: depth, cut: 15, act: 25}
	d := genDom(r, conf)
	setMarks(r, d)
	text := grammarText(r, ruleToks(r, d))
	hist := []string{}
	show := func() {
		h, more := hist, ""
		if len(h) > 20 {
			h, more = h[len(h)-20:], fmt.Sprintf("... %d evaluations\n", len(h)-20)
		}
		c.Input("grammar %s\nhistory:\n%s%s", text, more, strings.Join(h, "\n"))
	}
	show()
	cp := compileOK(c, text)
	// the host may keep tokens, and use one buffer for all texts
	type run struct{ toks, was []tpl.Token }
	var kept []run
	cp.keep = func(toks []tpl.Token) {
		if len(kept) < 300 {
			kept = append(kept, run{toks, append([]tpl.Token{}, toks...)})
		}
	}
	var buf []byte
	if r.P(40) {
		buf = make([]byte, 1<<16)
	}
	for ; n > 0; n-- {
		bomb := 0
		if r.P(12) {
			bomb = 1 + r.N(3)
		}
		// what
		ru := d.rules[r.N(len(d.rules))]
		op := r.W(25, 20, 10, 15, 10, 15, 8, 5)
		if op < 3 || op > 5 {
			ru = d.rules[0]
		}
		s := d.sentence(r, ru.body, append(conf.syms, "IDENT"))
		t := renderSyms(r, s, r.P(50))
		name := []string{"", "a.go"}[r.N(2)]
		own := t.src
		if n := (len(own) + 31) / 32 * 32; buf != nil && n < len(buf) {
			if !bytes.Contains(own, []byte("#")) && !bytes.Contains(own, []byte("//")) {
				t.src = append(own, bytes.Repeat([]byte(" "), n-len(own))...)
			}
			own = buf[:copy(buf, t.src)]
		}
		hist = append(hist, fmt.Sprintf("%s(%s) %q bomb=%d", []string{"Match", "MatchExactly", "Eval", "EvalSub string", "EvalSub bytes", "EvalSub tokens", "bad text", "bad EvalSub"}[op], ru.name, t.src, bomb))
		show()
		in := d.seenAs(s)
		do := func(p *compiled) (out string, o observed) {
			p.locate(c, t)
			src := t.src
			if p == cp {
				src = own
			}
			p.bomb = bomb
			*p.ev = nil
			defer func() {
				p.bomb = 0
				if e := recover(); e != nil {
					if e != "bomb" {
						panic(e)
					}
					out, o.kind = "bomb", "bomb"
				}
				o.ev = *p.ev
			}()
			o = runMatch(func() (int, error) {
				switch op {
				case 0:
					next, err := p.cr.Match(src, name)
					if p == cp {
						p.keep(next)
					}
					return len(s) - len(next), err
				case 1:
					return len(s), p.cr.MatchExactly(src, name)
				case 2:
					return len(s), p.cr.Eval(string(t.src))
				case 3:
					return len(s), p.cr.EvalSub(ru.name, string(t.src))
				case 4:
					return len(s), p.cr.EvalSub(ru.name, src)
				case 5:
					toks, err := p.cr.Tokenize(src, name)
					if p == cp {
						p.keep(toks)
					}
					if err != nil {
						c.Failf("Tokenize: %v", err)
					}
					return len(s), p.cr.EvalSub(ru.name, toks)
				case 6:
					return 0, p.cr.MatchExactly(append([]byte("$"), t.src...), name)
				}
				if bomb%2 == 0 {
					return 0, p.cr.EvalSub("no_such_rule", t.src)
				}
				return 0, p.cr.EvalSub(ru.name, 42)
			})
			out = o.gres.String()
			if o.err != nil {
				out += ": " + o.err.Error()
			}
			return
		}
		fresh := compileOK(c, text)
		ref, ok := refMatch(d, ru.body, in)
		if !ok {
			continue
		}
		gotS, got := do(cp)
		wantS, want := do(fresh)
		for _, k := range kept {
			for i := range k.was {
				if k.toks[i] != k.was[i] {
					c.Failf("a token kept from an earlier evaluation was %v and is %v", k.was[i], k.toks[i])
				}
			}
		}
		c.Ev("runs of tokens kept", len(kept))
		if gotS != wantS || evStr(got.ev, "AI") != evStr(want.ev, "AI") {
			c.Failf("after the history: %s\n%s\non a fresh matcher: %s\n%s", gotS, evStr(got.ev, "AI"), wantS, evStr(want.ev, "AI"))
		}
		inits := 0
		for i, e := range got.ev {
			if e.typ == 'I' {
				inits++
				if i > 0 {
					c.Failf("Init is called after %d actions", i)
				}
			}
		}
		if op < 6 && inits != 1 || op == 6 && inits != 0 || op == 7 && inits > 1 {
			c.Failf("%d calls of Init", inits)
		}
		c.Ev("evaluations", 1)
		switch {
		case op >= 6:
			if got.kind != "fail" || len(got.ev) > inits {
				c.Failf("the evaluation gives %s, with %d actions", gotS, len(got.ev)-inits)
			}
			c.Ev("evaluations refused", 1)
			continue
		case got.kind == "bomb":
			c.Ev("evaluations aborted by an action", 1)
			continue
		}
		if op > 0 && ref.kind == "ok" && ref.n < len(in) {
			ref.kind = "fail"
		}
		if got.kind != ref.kind || ref.kind == "ok" && op == 0 && got.n != ref.n {
			c.Failf("the evaluation gives %s, want %v", gotS, ref)
		}
		sameEvents(c, got.ev, ref.ev, "A")
		c.Ev("evaluations "+ref.kind, 1)
		if op >= 3 && op <= 5 {
			c.Ev("EvalSub "+ref.kind, 1)
		}
	}
	if len(hist) > 2 {
		c.Seen(text + strings.Join(hist, ";"))
	}
}

// ---------------------------------------------------------------- C07

var c07Words = []string{"if", "If", "iF", "i", "iff", "ifx", "xif", "if1", "_if", "for", "fo", "form", "for_", "变量", "变", "变量x", "été", "ete", "k", "\u212a", "\u00c5", "\u212b", "x", "X", "true", "doc", "EOF", "IDENT", "a1", "a", "k\u03b1", "k"}

func checkKeywordGrammars(c *Case) {
	r := c.R
	type inst struct {
		quoted map[string]bool
		cr     tpl.CompileRet
		text   string
		ev     *[]string
	}
	var hist []string
	show := func() { c.Input("%s", strings.Join(hist, "\n")) }
	mk := func() inst {
		in := inst{quoted: map[string]bool{}, ev: &[]string{}}
		n := 1 + r.N(6)
		var kws []string
		for i := 0; i < n; i++ {
			w := c07Words[r.N(len(c07Words))]
			if !in.quoted[w] {
				in.quoted[w] = true
				kws = append(kws, w)
			}
		}
		// each keyword appears in the alternatives of doc, or in a rule that is never matched
		var alts, other []string
		live := map[string]bool{}
		for _, w := range kws {
			if r.P(75) {
				alts = append(alts, fmt.Sprintf("%q/kw", w))
				live[w] = true
			} else {
				other = append(other, fmt.Sprintf("%q", w))
			}
		}
		r.Shuffle(len(alts), func(i, j int) { alts[i], alts[j] = alts[j], alts[i] })
		at := r.N(len(alts) + 1)
		alts = append(alts[:at:at], append([]string{"IDENT/id"}, alts[at:]...)...)
		rules := []string{"doc = *(" + strings.Join(alts, " | ") + ")"}
		if len(other) > 0 {
			rules = append(rules, "other = "+strings.Join(other, " "))
		}
		r.Shuffle(len(rules), func(i, j int) { rules[i], rules[j] = rules[j], rules[i] })
		in.text = strings.Join(rules, "; ") + ";"
		for w := range in.quoted {
			if !live[w] {
				in.quoted[w] = true
			}
		}
		hist = append(hist, "grammar "+in.text)
		show()
		ev := in.ev
		cr, err := (&tpl.Compiler{Grammar: []byte(in.text), Marker: func(g tpl.Grammar, mark string) tpl.Grammar {
			return tpl.Action(g, func(tokens []tpl.Token, _ tpl.Grammar) {
				*ev = append(*ev, mark+" "+tokens[0].Literal)
			})
		}}).Cl()
		if err != nil {
			c.Failf("does not compile: %v", err)
		}
		in.cr = cr
		live2 := live
		for w := range in.quoted {
			in.quoted[w] = live2[w] // true: matched as keyword; false: keyword that doc doesn't know
		}
		return in
	}
	insts := []inst{mk()}
	if r.P(60) {
		insts = append(insts, mk())
	}
	for n := 1 + r.N(5); n > 0; n-- {
		if r.P(15) {
			insts = append(insts, mk())
		}
		k := r.N(len(insts))
		in := insts[k]
		var ws, want []string
		stopped := false
		for i := 1 + r.N(7); i > 0; i-- {
			w := c07Words[r.N(len(c07Words))]
			ws = append(ws, w)
			kw, known := in.quoted[w]
			switch {
			case stopped:
			case known && !kw:
				stopped = true // neither IDENT nor one of the alternatives
				c.Ev("keywords of other rules", 1)
			case known:
				want = append(want, "kw "+w)
				c.Ev("keywords", 1)
			default:
				want = append(want, "id "+w)
				c.Ev("identifiers", 1)
			}
		}
		src := strings.Join(ws, " ")
		hist = append(hist, fmt.Sprintf("match #%d %s", k, src))
		show()
		*in.ev = nil
		next, err := in.cr.Match([]byte(src), "")
		if err != nil {
			c.Failf("Match: %v", err)
		}
		if len(next) != len(ws)-len(want) || strings.Join(*in.ev, ", ") != strings.Join(want, ", ") {
			c.Failf("matched as %v (%d tokens left), want %v", *in.ev, len(next), want)
		}
	}
	c.Seen(strings.Join(hist, ";"))
}

func init() {
	register(&Prop{ID: "C07", Rule: "grammars of alternatives of quoted words and IDENT (some words quoted in a rule that is never matched), several compilers, interleaved matches of words that differ by case, prefix, suffix or Unicode form; which alternative each word matches is observed by actions; a case is distinct by its history",
		MustSee: []string{"keywords", "identifiers", "keywords of other rules"},
		Parts:   []*Part{{Name: "histories", Quick: 80000, Thorough: 2000000, Run: checkKeywordGrammars}, bigKeywordsPart()}})
	register(&Prop{ID: "C11", Rule: "random grammars printed as text with random layout, rule order, parentheses, comments and marks, compiled, and matched with texts derived from them and damaged; outcome and action trace are compared with a reference matcher working on the model the text was printed from; a case is distinct by grammar and tokens",
		MustSee: []string{"grammars compiled", "marks", "texts ok", "texts fail", "texts cut", "actions"},
		Parts: []*Part{
			{Name: "random", Quick: 80000, Thorough: 2500000, Run: checkCompile},
			smallTextPart(),
			bigCompilePart(),
		}})
	register(&Prop{ID: "C12", Rule: "grammar texts with 0-2 random edits of tokens, rules or characters, judged by an independent recognizer (texts the notation does not decide are skipped); a case is distinct by the text",
		MustSee: []string{"well-formed grammars", "ill-formed grammars: error", "ill-formed grammars: panic", "ill-formed: no doc", "ill-formed: lexical error", "ill-formed: syntax error", "ill-formed: rule defined twice", "ill-formed: rule not defined", "ill-formed: unknown token", "ill-formed: unknown operator", "ill-formed: number"},
		Parts: []*Part{
			{Name: "mutants", Quick: 120000, Thorough: 3000000, Run: checkIllFormed},
			tokenSoupPart(),
			bigIllFormedPart(),
		}})
	register(&Prop{ID: "C13", Rule: "random grammars and all small ones are printed, the text compiled and printed again; texts are matched with the result and judged by a reference matcher on the original grammar; a case is distinct by the grammar",
		MustSee: []string{"codes printed", "texts ok", "texts fail"},
		Parts: []*Part{
			{Name: "random", Quick: 80000, Thorough: 2500000, Run: checkCode},
			smallCodePart(),
			bigCodePart(),
		}})
	register(&Prop{ID: "C15", Rule: "histories of 2-8 evaluations (Match, MatchExactly, Eval, EvalSub of a string, bytes or tokens, ill-formed texts, unknown rules and source types, panicking actions) on one compiled grammar; each outcome, action trace, Init count and error text is compared with a freshly compiled grammar and with a reference matcher; a case is distinct by grammar and history",
		MustSee: []string{"evaluations ok", "evaluations fail", "evaluations cut", "EvalSub ok", "EvalSub fail", "evaluations refused", "evaluations aborted by an action", "runs of tokens kept"},
		Parts:   []*Part{{Name: "histories", Quick: 60000, Thorough: 1500000, Run: checkHistory}, longHistoryPart()}})
}

// smallDom makes the i-th small grammar (up to 4 nodes in quick mode, 5 in thorough mode).
func smallDom(i int) *gdom {
	size := 1
	for size < 8 && i >= len(smallGrams(size)) {
		i -= len(smallGrams(size))
		size++
	}
	if size == 8 || i >= len(smallGrams(size)) {
		return nil
	}
	d := &gdom{rules: []*grule{{name: "doc", body: smallGrams(size)[i]}}}
	d.byN = map[string]*grule{"doc": d.rules[0]}
	return d
}

func smallBatches(size int) int { smallCounts(); return (smallCount[size] + 15) / 16 }

func smallTextPart() *Part {
	return &Part{Name: "all-small-grammars", Quick: smallBatches(4), Thorough: smallBatches(5), Exhaustive: true, Run: func(c *Case) {
		for i := c.Idx * 16; i < c.Idx*16+16; i++ {
			d := smallDom(i)
			if d == nil {
				return
			}
			id := 0
			d = &gdom{rules: []*grule{{name: "doc", body: wrapAll(d.rules[0].body, 'a', &id)}}, ids: id}
			d.byN = map[string]*grule{"doc": d.rules[0]}
			var walk func(n *gn)
			walk = func(n *gn) {
				if n.op == 'a' {
					n.sym = "m" + strconv.Itoa(n.id)
				}
				for _, k := range n.k {
					walk(k)
				}
			}
			walk(d.rules[0].body)
			text := grammarText(c.R, ruleToks(c.R, d))
			c.Input("grammar %s", text)
			cp := compileOK(c, text)
			for _, s := range smallTexts {
				t := renderSyms(c.R, s, false)
				c.Input("grammar %s\ntext %q", text, t.src)
				ref, ok := refMatch(d, d.rules[0].body, s)
				if !ok {
					continue
				}
				got := cp.match(c, t)
				if got.kind != ref.kind || got.kind == "ok" && got.n != ref.n {
					c.Failf("matching: got %v (%v), want %v", got.gres, got.err, ref)
				}
				sameEvents(c, got.ev, ref.ev, "A")
			}
			c.Seen(text)
		}
	}}
}

func smallCodePart() *Part {
	return &Part{Name: "all-small-grammars", Quick: smallBatches(5), Thorough: smallBatches(6), Exhaustive: true, Run: func(c *Case) {
		for i := c.Idx * 16; i < c.Idx*16+16; i++ {
			d := smallDom(i)
			if d == nil {
				return
			}
			k := 0
			codeRoundTrip(c, d, func(*gdom) []string { k++; return smallTexts[(i*7+k*5)%len(smallTexts)] }, 6)
		}
	}}
}

// tokenSoupPart judges all short token sequences as the body of doc.
func tokenSoupPart() *Part {
	alpha := []string{"IDENT ", "'+' ", "1 ", "*", "?", "(", ")", "|", "%", "%=", "/", "!", "doc ", "x ", ";", "="}
	nq, nt := enumCount(len(alpha), 3), enumCount(len(alpha), 5)
	return &Part{Name: "all-short-bodies", Quick: (nq + 63) / 64, Thorough: (nt + 63) / 64, Exhaustive: true, Run: func(c *Case) {
		n := nq
		if c.Thorough() {
			n = nt
		}
		for i := c.Idx * 64; i < c.Idx*64+64 && i < n; i++ {
			judgeGrammar(c, "doc = "+enumString(alpha, i)+";")
		}
	}}
}
