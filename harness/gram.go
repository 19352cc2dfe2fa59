package main

// A model of grammars: random grammars, a reference matcher with the documented PEG semantics,
// the real grammar built from the model, and traces of both.

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/qiniu/text/tpl"
)

// gn is a node: t token, 1, E (EOF), * + ? @ ~, & (sequence), | (choice), % (list), L (%=),
// r (reference to a rule), a (action or mark), x (transaction), ! (cut, only in a sequence).
type gn struct {
	op   byte
	k    []*gn
	sym  string // t: spelling of the token in a grammar; r: name of the rule; a: mark
	id   int    // a, x
	how  int    // r: 0 variable, 1 named, 2 the same object
	core bool
}

type grule struct {
	name string
	body *gn
	nn   bool // does not match the empty text
}

type gdom struct {
	rules []*grule // rules[0] is doc
	byN   map[string]*grule
	ids   int
	big   bool // made to be big
}

func (d *gdom) rule(name string) *grule { return d.byN[name] }

func (n *gn) clone() *gn {
	m := *n
	m.k = nil
	for _, x := range n.k {
		m.k = append(m.k, x.clone())
	}
	return &m
}

// show prints a node for reports (fully parenthesized).
func (n *gn) show() string {
	kids := func(sep string) string {
		var s []string
		for _, k := range n.k {
			s = append(s, k.show())
		}
		return "(" + strings.Join(s, sep) + ")"
	}
	switch n.op {
	case 't':
		return n.sym
	case '1':
		return "1"
	case 'E':
		return "EOF"
	case 'r':
		return n.sym + []string{"", "'", "^"}[n.how]
	case '!':
		return "!"
	case '&':
		return kids(" ")
	case '|':
		return kids(" | ")
	case '%':
		return kids(" % ")
	case 'L':
		return kids(" %= ")
	case 'a':
		return n.k[0].show() + "/a" + strconv.Itoa(n.id)
	case 'x':
		return n.k[0].show() + "/x" + strconv.Itoa(n.id)
	}
	return string(n.op) + n.k[0].show()
}

func (d *gdom) show() string {
	var s []string
	for _, r := range d.rules {
		s = append(s, r.name+" = "+r.body.show())
	}
	return strings.Join(s, "; ")
}

// ---------------------------------------------------------------- generation

// gconf controls the generator.
type gconf struct {
	syms                      []string
	depth, rules              int
	cut, act, trans           int  // percent
	direct                    bool // rules may be shared without a name
	noSingle, noEOF, noLookup bool
}

var gramSyms = []string{"IDENT", "INT", "FLOAT", "STRING", "CHAR", "'+'", "'-'", `"<<"`, "'('", "')'", "','", `"if"`, `"fn"`, `"..."`}
var ruleNames = []string{"doc", "expr", "term", "x", "arg_2", "été"}

type ggen struct {
	r   *Rand
	c   gconf
	d   *gdom
	cur int
}

func genDom(r *Rand, c gconf) *gdom {
	d := &gdom{byN: map[string]*grule{}}
	for i := 0; i < c.rules; i++ {
		ru := &grule{name: ruleNames[i], nn: r.P(75)}
		d.rules = append(d.rules, ru)
		d.byN[ru.name] = ru
	}
	g := &ggen{r: r, c: c, d: d}
	for i := range d.rules {
		g.cur = i
		d.rules[i].body = g.gen(c.depth-r.N(2), d.rules[i].nn, false)
	}
	d.ids = 0
	for _, ru := range d.rules {
		ru.body = g.wrap(ru.body)
	}
	return d
}

// wrap adds actions and transactions.
func (g *ggen) wrap(n *gn) *gn {
	if n.op == '!' {
		return n
	}
	for i, k := range n.k {
		n.k[i] = g.wrap(k)
	}
	for g.r.P(g.c.act) {
		g.d.ids++
		n = &gn{op: 'a', k: []*gn{n}, id: g.d.ids}
	}
	if g.r.P(g.c.trans) {
		g.d.ids++
		n = &gn{op: 'x', k: []*gn{n}, id: g.d.ids}
	}
	return n
}

func (g *ggen) leaf(nn bool) *gn {
	if !nn && g.r.P(15) {
		if g.r.P(50) || g.c.noEOF {
			return &gn{op: '1'}
		}
		return &gn{op: 'E'}
	}
	return &gn{op: 't', sym: g.c.syms[g.r.N(len(g.c.syms))]}
}

func (g *ggen) gen(d int, nn, guarded bool) *gn {
	if d <= 0 {
		return g.leaf(nn)
	}
	b2i := func(b bool, w int) int {
		if b {
			return w
		}
		return 0
	}
	un := func(op byte, nn bool) *gn { return &gn{op: op, k: []*gn{g.gen(d-1, nn, guarded)}} }
	switch g.r.W(14, b2i(!nn, 8), 8, b2i(!nn, 8), b2i(!nn && !g.c.noLookup, 4), b2i(!nn && !g.c.noLookup, 4), 24, 16, 9, b2i(!nn, 6), 14) {
	case 0:
		return g.leaf(nn)
	case 1:
		return un('*', true)
	case 2:
		return un('+', true)
	case 3:
		return un('?', g.r.P(70))
	case 4:
		return un('@', g.r.P(70))
	case 5:
		return un('~', g.r.P(70))
	case 6:
		n := &gn{op: '&'}
		m := 2 + g.r.W(60, 30, 10)
		at := g.r.N(m)
		cutAt := -1
		if g.r.P(g.c.cut) {
			cutAt = g.r.N(m + 1)
		}
		for i := 0; i < m; i++ {
			if i == cutAt {
				n.k = append(n.k, &gn{op: '!'})
			}
			kn := nn && i == at || g.r.P(70)
			n.k = append(n.k, g.gen(d-1, kn, guarded))
			guarded = guarded || kn
		}
		if cutAt == m {
			n.k = append(n.k, &gn{op: '!'})
		}
		return n
	case 7:
		n := &gn{op: '|'}
		for i := 2 + g.r.W(60, 30, 10); i > 0; i-- {
			n.k = append(n.k, g.gen(d-1, nn || g.r.P(85), guarded))
		}
		return n
	case 8, 9:
		op := byte('%')
		if !nn && g.r.P(50) {
			op = 'L'
		}
		an := nn || g.r.P(85)
		bn := !an || g.r.P(85)
		a := g.gen(d-1, an, guarded)
		return &gn{op: op, k: []*gn{a, g.gen(d-1, bn, guarded || an)}}
	default:
		var ok []*grule
		for i, ru := range g.d.rules {
			if (guarded || i > g.cur) && (ru.nn || !nn) {
				ok = append(ok, ru)
			}
		}
		if len(ok) == 0 {
			return g.leaf(nn)
		}
		how := g.r.N(2)
		if g.c.direct {
			how = g.r.N(3)
		}
		return &gn{op: 'r', sym: ok[g.r.N(len(ok))].name, how: how}
	}
}

// derive makes a sentence (lookahead is ignored, so it need not be in the language).
func (d *gdom) derive(r *Rand, n *gn, depth int, out *[]string) {
	if len(*out) > 40 || depth > 30 {
		return
	}
	switch n.op {
	case 't':
		s := n.sym
		if s == "FLOAT" && r.P(40) {
			s = "INT"
		}
		*out = append(*out, s)
	case '*':
		for i := r.N(4); i > 0; i-- {
			d.derive(r, n.k[0], depth+1, out)
		}
	case '+':
		for i := 1 + r.N(3); i > 0; i-- {
			d.derive(r, n.k[0], depth+1, out)
		}
	case '?':
		if r.P(60) {
			d.derive(r, n.k[0], depth+1, out)
		}
	case '&':
		for _, k := range n.k {
			d.derive(r, k, depth+1, out)
		}
	case '|':
		d.derive(r, n.k[r.N(len(n.k))], depth+1, out)
	case '%', 'L':
		if n.op == 'L' && r.P(30) {
			return
		}
		d.derive(r, n.k[0], depth+1, out)
		for i := r.N(3); i > 0; i-- {
			d.derive(r, n.k[1], depth+1, out)
			d.derive(r, n.k[0], depth+1, out)
		}
	case 'r':
		d.derive(r, d.rule(n.sym).body, depth+1, out)
	case 'a', 'x':
		d.derive(r, n.k[0], depth+1, out)
	}
}

// sentence makes an input: a sentence, often damaged, or random tokens.
func (d *gdom) sentence(r *Rand, root *gn, syms []string) (s []string) {
	if r.P(10) {
		for i := r.N(6); i > 0; i-- {
			s = append(s, syms[r.N(len(syms))])
		}
		return
	}
	d.derive(r, root, 0, &s)
	for i := r.W(45, 35, 20); i > 0; i-- {
		at := r.N(len(s) + 1)
		sym := syms[r.N(len(syms))]
		switch {
		case at == len(s) || r.P(25):
			s = append(s[:at:at], append([]string{sym}, s[at:]...)...)
		case r.P(35):
			s = append(s[:at:at], s[at+1:]...)
		case r.P(50):
			s[at] = sym
		default:
			s = s[:at]
		}
	}
	return
}

// ---------------------------------------------------------------- reference matcher

type gev struct {
	typ     byte // A action, B begin, E end
	id      int
	pos, n  int
	ln      int // A: repetitions, -2 when not a repeated rule
	tr      int // B, E: number of the transaction
	ok      bool
	pending bool
}

func (e gev) String() string {
	switch e.typ {
	case 'A':
		p := fmt.Sprint(e.pos)
		if e.n == 0 {
			p = "_"
		}
		if e.ln != noLen {
			return fmt.Sprintf("a%d[%s+%d]len%d", e.id, p, e.n, e.ln)
		}
		return fmt.Sprintf("a%d[%s+%d]", e.id, p, e.n)
	case 'B':
		return fmt.Sprintf("begin%d#%d", e.id, e.tr)
	}
	return fmt.Sprintf("end%d#%d:%v", e.id, e.tr, e.ok)
}

func evStr(l []gev, typs string) string {
	var s []string
	for _, e := range l {
		if strings.IndexByte(typs, e.typ) >= 0 {
			s = append(s, e.String())
		}
	}
	return strings.Join(s, " ")
}

type rerr struct{ at int } // index of the token the error is reported at

type refCut struct{ at int }
type refBudget struct{}

type refM struct {
	d     *gdom
	in    []string
	ev    []gev
	steps int
	ntr   int
	max   int
}

const noLen = -2

func (m *refM) match(n *gn, pos int) (cnt int, e *rerr, ln int) {
	if m.steps++; m.steps > m.max {
		panic(refBudget{})
	}
	ln = noLen
	if lenNone(n) {
		ln = -1
	}
	switch n.op {
	case 't':
		if pos < len(m.in) && (m.in[pos] == n.sym || m.in[pos] == "INT" && n.sym == "FLOAT") {
			return 1, nil, ln
		}
		return 0, &rerr{pos}, ln
	case '1':
		return 0, nil, ln
	case 'E':
		if pos < len(m.in) {
			return 0, &rerr{pos}, ln
		}
		return 0, nil, ln
	case '@', '~':
		_, e1, _ := m.match(n.k[0], pos)
		if (e1 == nil) != (n.op == '@') {
			return 0, &rerr{pos}, ln
		}
		return 0, nil, ln
	case '?':
		c, e1, _ := m.match(n.k[0], pos)
		if e1 != nil {
			return 0, nil, 0
		}
		return c, nil, 1
	case '*', '+':
		ln = 0
		for {
			c, e1, _ := m.match(n.k[0], pos+cnt)
			if e1 != nil {
				if ln == 0 && n.op == '+' {
					return c, e1, 0
				}
				return cnt, nil, ln
			}
			ln++
			cnt += c
		}
	case '%', 'L':
		c, e1, _ := m.match(n.k[0], pos)
		if e1 != nil {
			if n.op == 'L' {
				return 0, nil, 0
			}
			return c, e1, 0
		}
		ln, cnt = 1, c
		for {
			cb, e1, _ := m.match(n.k[1], pos+cnt)
			if e1 != nil {
				return cnt, nil, ln
			}
			ca, e1, _ := m.match(n.k[0], pos+cnt+cb)
			if e1 != nil {
				return cnt, nil, ln
			}
			ln++
			cnt += cb + ca
		}
	case '&':
		cut := false
		for _, k := range n.k {
			if k.op == '!' {
				cut = true
				continue
			}
			c, e1, _ := m.match(k, pos+cnt)
			if e1 != nil {
				if cut {
					panic(refCut{pos + cnt + c})
				}
				return cnt + c, e1, ln
			}
			cnt += c
		}
		return cnt, nil, ln
	case '|':
		max, tie := 0, true
		var em *rerr
		for _, k := range n.k {
			c, e1, _ := m.match(k, pos)
			if e1 == nil {
				return c, nil, ln
			}
			if c == max {
				tie = true
			} else if c > max {
				max, em, tie = c, e1, false
			}
		}
		if tie {
			em = &rerr{pos}
		}
		return max, em, ln
	case 'r':
		cnt, e, l := m.match(m.d.rule(n.sym).body, pos)
		if n.how == 2 {
			ln = l
		}
		return cnt, e, ln
	case 'a':
		cnt, e, ln = m.match(n.k[0], pos)
		if e == nil {
			m.ev = append(m.ev, gev{typ: 'A', id: n.id, pos: pos, n: cnt, ln: ln})
		}
		return cnt, e, ln
	case 'x':
		m.ntr++
		tr := m.ntr
		m.ev = append(m.ev, gev{typ: 'B', id: n.id, tr: tr})
		cnt, e, ln = m.match(n.k[0], pos)
		m.ev = append(m.ev, gev{typ: 'E', id: n.id, tr: tr, ok: e == nil})
		return cnt, e, ln
	}
	panic("op " + string(n.op))
}

// outcome of a match.
type gres struct {
	kind string // ok, fail, cut
	n    int    // ok: tokens consumed
	at   int    // fail, cut: index of the token the error names
	ev   []gev
}

func (g gres) String() string {
	switch g.kind {
	case "ok":
		return fmt.Sprintf("ok, %d tokens", g.n)
	}
	return g.kind
}

// refMatch runs the reference; ok is false when the budget is exceeded.
func refMatch(d *gdom, root *gn, in []string) (res gres, ok bool) {
	m := &refM{d: d, in: in, max: 20000}
	if d.big {
		m.max = 3000000
	}
	defer func() {
		res.ev = m.ev
		switch e := recover().(type) {
		case nil:
		case refCut:
			res.kind, res.at, ok = "cut", e.at, true
		case refBudget:
			ok = false
		default:
			panic(e)
		}
	}()
	n, e, _ := m.match(root, 0)
	if e != nil {
		return gres{kind: "fail", at: e.at}, true
	}
	return gres{kind: "ok", n: n}, true
}

// ---------------------------------------------------------------- text of an input

type gtext struct {
	syms []string
	src  []byte
	toks []rtok // of the reference lexer
	lm   *lineModel
}

// renderSyms writes the tokens as a text, each literal unlike all others.
func renderSyms(r *Rand, syms []string, multiline bool) *gtext {
	var b strings.Builder
	sep := func() {
		if !multiline {
			b.WriteByte(' ')
			return
		}
		b.WriteString(" ")
		b.WriteString(r.Pick("", "", "", "\n", "\n", "\n\n", "/* c\n */", "// d\n", "# e\n", "/* f */"))
	}
	if multiline && r.P(30) {
		sep()
	}
	for i, s := range syms {
		switch s {
		case "IDENT":
			fmt.Fprintf(&b, "v%dq", i)
		case "INT":
			fmt.Fprintf(&b, "%d", 70100+i)
		case "FLOAT":
			fmt.Fprintf(&b, "%d.25", 70100+i)
		case "IMAG":
			fmt.Fprintf(&b, "%di", 70100+i)
		case "CHAR":
			if i < 30000 {
				fmt.Fprintf(&b, `'\u%04x'`, 0x4e00+i)
			} else {
				fmt.Fprintf(&b, `'\U%08x'`, 0x20000+i)
			}
		case "STRING":
			switch r.N(3) {
			case 0:
				fmt.Fprintf(&b, "`s%d`", i)
			case 1:
				fmt.Fprintf(&b, "\"s%d\"", i)
			default:
				if multiline {
					fmt.Fprintf(&b, "`s%d\n`", i)
				} else {
					fmt.Fprintf(&b, "`s%d`", i)
				}
			}
		default:
			b.WriteString(s[1 : len(s)-1])
		}
		if i+1 < len(syms) {
			sep()
		} else if multiline && r.P(50) {
			sep()
		}
	}
	t := &gtext{syms: syms, src: []byte(b.String())}
	ref := refLex(t.src)
	t.toks = ref.tokens(0)
	if len(ref.errs) > 0 || len(t.toks) != len(syms)+1 {
		panic("bad text " + q(b.String()))
	}
	t.lm = ref.lineModel("")
	return t
}

func (t *gtext) line(i int) int {
	_, l := t.lm.pos(t.toks[i].off)
	return l
}

// ---------------------------------------------------------------- the real grammar

type gbuild struct {
	d     *gdom
	s     tpl.Tokener
	built map[string]tpl.Grammar
	vars  map[string]*tpl.GrVar
	ev    *[]gev
	base  func(tokens []tpl.Token) int // index of the first token
	ntr   int
	open  []int
	fail  func(string)
}

// buildDom builds the real grammar. Actions append to *ev.
func buildDom(d *gdom, s tpl.Tokener, ev *[]gev, fail func(string)) *gbuild {
	b := &gbuild{d: d, s: s, built: map[string]tpl.Grammar{}, vars: map[string]*tpl.GrVar{}, ev: ev, fail: fail}
	for i := len(d.rules) - 1; i >= 0; i-- {
		ru := d.rules[i]
		g := b.node(ru.body)
		b.built[ru.name] = g
	}
	for name, v := range b.vars {
		if err := v.Assign(b.built[name]); err != nil {
			fail("Assign: " + err.Error())
		}
	}
	return b
}

func (b *gbuild) node(n *gn) tpl.Grammar {
	kids := func() (ks []tpl.Grammar) {
		for _, k := range n.k {
			ks = append(ks, b.node(k))
		}
		return
	}
	switch n.op {
	case 't':
		tok := b.s.Ltot(n.sym)
		if tok == tpl.ILLEGAL {
			b.fail("Ltot(" + n.sym + ") is ILLEGAL")
		}
		return tpl.Gr(tok)
	case '1':
		return tpl.GrTrue
	case 'E':
		return tpl.GrEOF
	case '!':
		return nil
	case '*':
		return tpl.Repeat0(kids()[0])
	case '+':
		return tpl.Repeat1(kids()[0])
	case '?':
		return tpl.Repeat01(kids()[0])
	case '@':
		return tpl.Peek(kids()[0])
	case '~':
		return tpl.Not(kids()[0])
	case '&':
		return tpl.And(kids()...)
	case '|':
		return tpl.Or(kids()...)
	case '%':
		k := kids()
		return tpl.List(k[0], k[1])
	case 'L':
		k := kids()
		return tpl.List0(k[0], k[1])
	case 'r':
		if g, ok := b.built[n.sym]; ok && n.how > 0 {
			if n.how == 2 {
				return g
			}
			return tpl.Named(n.sym, g)
		}
		n.how = 0
		v := b.vars[n.sym]
		if v == nil {
			v = tpl.Var(n.sym)
			b.vars[n.sym] = v
		}
		return v
	case 'a':
		return tpl.Action(b.node(n.k[0]), b.action(n.id, lenRule(b.d, n.k[0])))
	case 'x':
		id := n.id
		return tpl.Transaction(b.node(n.k[0]), func() interface{} {
			b.ntr++
			*b.ev = append(*b.ev, gev{typ: 'B', id: id, tr: b.ntr})
			tr := b.ntr
			return &tr
		}, func(trans interface{}, err error) {
			tr, ok := trans.(*int)
			if !ok {
				b.fail(fmt.Sprintf("end of transaction %d gets %v", id, trans))
			}
			*b.ev = append(*b.ev, gev{typ: 'E', id: id, tr: *tr, ok: err == nil})
		})
	}
	panic("op")
}

// lenNone tells whether a node is a rule that has no parts: its length is -1.
func lenNone(n *gn) bool {
	switch n.op {
	case 't', '1', 'E', '@', '~':
		return true
	}
	return n.op == 'r' && n.how != 2
}

// lenRule tells whether the length of a node is specified.
func lenRule(d *gdom, n *gn) bool {
	switch n.op {
	case '*', '+', '?', '%', 'L':
		return true
	case 'a', 'x':
		return lenRule(d, n.k[0])
	case 'r':
		return n.how != 2 || lenRule(d, d.rule(n.sym).body)
	}
	return lenNone(n)
}

func (b *gbuild) action(id int, counted bool) func(tokens []tpl.Token, g tpl.Grammar) {
	return func(tokens []tpl.Token, g tpl.Grammar) {
		e := gev{typ: 'A', id: id, n: len(tokens), ln: noLen}
		if len(tokens) > 0 {
			e.pos = b.base(tokens)
		}
		if counted {
			e.ln = g.Len()
		}
		*b.ev = append(*b.ev, e)
	}
}

// toksAt makes the function that finds the index of the first token of a run, and checks that
// the run is what the text has there.
func toksAt(t *gtext, s tpl.Tokener, fail func(string)) func(tokens []tpl.Token) int {
	idx := map[int]int{}
	for i, tk := range t.toks {
		idx[tk.off] = i
	}
	return func(tokens []tpl.Token) int {
		base := s.Source().File.Base()
		i, ok := idx[int(tokens[0].Pos)-base]
		if !ok || i+len(tokens) > len(t.toks) {
			fail(fmt.Sprintf("no token of the text at position %d", tokens[0].Pos))
		}
		for j, tk := range tokens {
			w := t.toks[i+j]
			if int(tk.Pos)-base != w.off || tk.Literal != w.lit {
				fail(fmt.Sprintf("token %d of the run is %v, want %v", j, tk, w))
			}
		}
		return i
	}
}

// observed is what a match of the real grammar did.
type observed struct {
	gres
	err error
}

// runMatch calls f, which matches, and classifies the outcome.
func runMatch(f func() (n int, err error)) (o observed) {
	defer func() {
		if e := recover(); e != nil {
			me, ok := e.(*tpl.MatchError)
			if !ok {
				panic(e)
			}
			o.kind, o.err = "cut", me
		}
	}()
	n, err := f()
	if err != nil {
		o.kind, o.err = "fail", err
		return
	}
	o.kind, o.n = "ok", n
	return
}
