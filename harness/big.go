package main

// Sizes: what holds for small inputs has to hold for big ones. Each big case has one dimension
// (the length of a token, the number of repetitions, of alternatives, of lines, ...) at one size.

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/qiniu/text/tpl"
)

// ladder are the sizes: around the powers of two and ten where limits like to be.
var ladder = []int{9, 11, 16, 17, 20, 21, 25, 31, 32, 33, 40, 50, 51, 63, 64, 65, 80, 99, 100, 101, 120, 127, 128, 129, 150, 199, 200, 201, 254, 255, 256, 257, 300, 400, 500, 511, 512, 513, 600, 800, 999, 1000, 1001, 1023, 1024, 1025, 1300, 2000, 2047, 2049, 3000, 4095, 4097, 5001, 8191, 8193, 10001, 16385, 20001, 32767, 32769, 50001, 65535, 65536, 65537, 70001, 100001, 131073}

// bigDim is a dimension with its biggest size.
type bigDim struct {
	name string
	max  int
}

type bigCase struct {
	dim  int
	name string
	n    int
}

func bigCases(dims []bigDim) (l []bigCase) {
	for _, n := range ladder {
		for i, d := range dims {
			if n <= d.max {
				l = append(l, bigCase{i, d.name, n})
			}
		}
	}
	return
}

// bigPart makes a part that runs f for each dimension and size, several times.
func bigPart(name string, dims []bigDim, quick, thorough int, f func(c *Case, b bigCase)) *Part {
	l := bigCases(dims)
	small := 0
	for small < len(l) && l[small].n <= 150 {
		small++
	}
	return &Part{Name: name, Small: small, Quick: len(l) * quick, Thorough: len(l) * thorough, Run: func(c *Case) {
		b := l[c.Idx%len(l)]
		c.Input("%s at size %d", b.name, b.n)
		c.Ev("big cases", 1)
		f(c, b)
		c.Seen(fmt.Sprint("big ", b.name, " ", b.n))
	}}
}

// ---------------------------------------------------------------- texts

func cycle(s string, n int) string { // n runes
	rs := []rune(s)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(rs[i%len(rs)])
	}
	return b.String()
}

func times(n int, f func(i int) string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(f(i))
	}
	return b.String()
}

type bigText struct {
	bigDim
	bad bool
	f   func(r *Rand, n int) string
}

const bigMax = 131073

var bigTexts = []bigText{
	{bigDim{"identifier", bigMax}, false, func(r *Rand, n int) string { return cycle(r.Pick("abc_X9", "é变x", "a"), n) }},
	{bigDim{"decimal digits", bigMax}, false, func(r *Rand, n int) string { return cycle(r.Pick("123456789", "9", "10"), n) }},
	{bigDim{"octal digits", bigMax}, false, func(r *Rand, n int) string { return "0" + cycle(r.Pick("0", "7", "1230"), n) }},
	{bigDim{"hexadecimal digits", bigMax}, false, func(r *Rand, n int) string { return r.Pick("0x", "0X") + cycle(r.Pick("f", "0", "1aB9"), n) }},
	{bigDim{"digits of a fraction", bigMax}, false, func(r *Rand, n int) string {
		return r.Pick("3.", ".", "0.", "089.") + cycle("0123", n) + r.Pick("", "e5", "i")
	}},
	{bigDim{"digits of an exponent", bigMax}, false, func(r *Rand, n int) string {
		return r.Pick("1e", "2.5E+", ".5e-") + cycle("7", n) + r.Pick("", "i")
	}},
	{bigDim{"string", bigMax}, false, func(r *Rand, n int) string { return `"` + cycle(r.Pick("ab #/*'`", "é变", "x"), n) + `"` }},
	{bigDim{"escapes", 70001}, false, func(r *Rand, n int) string {
		return `"` + times(n, func(int) string { return r.Pick(`\n`, `\\`, `\"`, `\x41`, `\101`, `\u4e00`, `\U0001F600`) }) + `"`
	}},
	{bigDim{"raw string", bigMax}, false, func(r *Rand, n int) string {
		return "`" + cycle(r.Pick("ab\"'#\\", "line\n", "\r\n", "a\r", "é"), n) + "`"
	}},
	{bigDim{"line comment", bigMax}, false, func(r *Rand, n int) string {
		return r.Pick("//", "#") + cycle(r.Pick("c /*\"'`", "é变", "x\r"), n) + "\n"
	}},
	{bigDim{"block comment", bigMax}, false, func(r *Rand, n int) string {
		return "/*" + cycle(r.Pick("c // \"'`", "\n", "a\r\n", "*", "/"), n) + "*/"
	}},
	{bigDim{"blanks", bigMax}, false, func(r *Rand, n int) string { return cycle(r.Pick(" ", "\t", "\r", " \t\r "), n) }},
	{bigDim{"blank lines", bigMax}, false, func(r *Rand, n int) string { return times(n, func(int) string { return "\n" }) }},
	{bigDim{"CRLF lines", 70001}, false, func(r *Rand, n int) string { return cycle("\r\n", 2*n) }},
	{bigDim{"lines", 70001}, false, func(r *Rand, n int) string {
		return times(n, func(i int) string { return r.Pick("a\n", "b1 +\n", "7\n", "\n", ")\n") })
	}},
	{bigDim{"tokens on a line", 70001}, false, func(r *Rand, n int) string {
		return times(n, func(i int) string { return r.Pick("a ", "+", "(", "12 ", ";", `"s"`, "...", "<<=", "'c'") })
	}},
	{bigDim{"operators", 70001}, false, func(r *Rand, n int) string { return cycle(r.Pick("+", "-", "<", "&", "=", ".", "!", "|", "&^"), n) }},
	{bigDim{"parentheses", 70001}, false, func(r *Rand, n int) string {
		p := [][2]string{{"(", ")"}, {"[", "]"}, {"{", "}"}}[r.N(3)]
		return strings.Repeat(p[0], n) + "x" + strings.Repeat(p[1], n)
	}},
	{bigDim{"comments in a row", 32769}, false, func(r *Rand, n int) string {
		k := r.N(3)
		return times(n, func(int) string { return [...]string{"/**/", "/* c */ ", "/*/*/ "}[k] })
	}},
	{bigDim{"comment lines", 32769}, false, func(r *Rand, n int) string {
		return times(n, func(int) string { return r.Pick("// c\n", "# d\n", "/* e */\n", "/*\n*/") })
	}},
	{bigDim{"semicolons", 70001}, false, func(r *Rand, n int) string { return cycle(r.Pick(";", "; ", ";\n"), n) }},
	{bigDim{"rune literals", 32769}, false, func(r *Rand, n int) string {
		return times(n, func(int) string { return r.Pick("'a'", `'\n'`, `'\u4e00'`, "'变'") })
	}},
	{bigDim{"lines with semicolons due", 32769}, false, func(r *Rand, n int) string {
		return times(n, func(int) string {
			return r.Pick("x", "1", ")", "++", "`r`", "'c'") + r.Pick("\n", " // c\n", " # d\n", " /* e\n */ ", " /*f*/ /*g*/\n", "\r\n")
		})
	}},
	{bigDim{"line directives", 5001}, false, func(r *Rand, n int) string {
		return "\n" + times(n, func(i int) string { return fmt.Sprintf("//line f%d.go:%d\nx\n", i%7, 1+i*3%1000) })
	}},
	{bigDim{"a directive naming a high line", bigMax}, false, func(r *Rand, n int) string {
		return fmt.Sprintf("\n//line g.go:%d\nx\ny\n", n*r.Range(1, 8000))
	}},
	{bigDim{"string too long to end", bigMax}, true, func(r *Rand, n int) string {
		return r.Pick(`"`, "`", "/*", "'") + cycle(r.Pick("abc", "é", " "), n)
	}},
	{bigDim{"long rune literal", bigMax}, true, func(r *Rand, n int) string { return "'" + cycle("ab", n) + "'" }},
	{bigDim{"many errors", 4097}, true, func(r *Rand, n int) string {
		return times(n, func(int) string {
			return r.Pick("$", "08 ", "0x ", `"\q"`, "'' ", "\x00", "\xff", "'ab' ", "\"x\n", "a ", "\n", "\uFEFF")
		})
	}},
	{bigDim{"an error far behind", bigMax}, true, func(r *Rand, n int) string {
		return cycle(r.Pick("a ", "\n", "1+", " "), n) + r.Pick("$", " 08", "0x", `"\q"`, " ''", "\x00", "\xff", "`", "/*")
	}},
}

func bigTextDims(bad bool) (l []bigDim) {
	for _, t := range bigTexts {
		if !t.bad || bad {
			l = append(l, t.bigDim)
		}
	}
	return
}

// makeBigText puts the big thing between small ones.
func makeBigText(c *Case, b bigCase, clean bool) []byte {
	r := c.R
	var list []bigText
	for _, t := range bigTexts {
		if !t.bad || !clean {
			list = append(list, t)
		}
	}
	for {
		var s strings.Builder
		if r.P(50) {
			s.WriteString(lexText(r, r.N(6), false))
			s.WriteString(r.Pick(" ", "\n", ""))
		}
		s.WriteString(list[b.dim].f(r, b.n))
		if r.P(70) {
			s.WriteString(r.Pick(" ", "\n", "\r\n", "/* c */\n", "// d\n", "+", "", "x", "\""))
			s.WriteString(lexText(r, r.N(8), false))
		}
		if r.P(10) {
			s.WriteString(list[b.dim].f(r, b.n))
		}
		src := []byte(s.String())
		if !clean || len(refLex(src).errs) == 0 {
			c.Ev("big bytes", len(src))
			if i := len(src); i > 300 {
				for !utf8.RuneStart(src[i-100]) {
					i--
				}
				c.Input("%s at size %d: %q ... %q (%d bytes)", b.name, b.n, src[:100], src[i-100:], len(src))
			} else {
				c.Input("%s at size %d: %q", b.name, b.n, src)
			}
			return src
		}
	}
}

func bigScanPart(f func(c *Case, src []byte)) *Part {
	return bigPart("big", bigTextDims(true), 1, 10, func(c *Case, b bigCase) { f(c, makeBigText(c, b, false)) })
}

// ---------------------------------------------------------------- keywords

// checkManyKeywords registers n keywords with one scanner.
func checkManyKeywords(c *Case, b bigCase) {
	r := c.R
	s := new(tpl.AutoKwScanner)
	word := func(i int) string { return fmt.Sprintf("k%dx", i) }
	if r.P(30) {
		pad := cycle("w变", r.N(300))
		word = func(i int) string { return fmt.Sprintf("k%d%s", i, pad) }
		if b.n > 5000 {
			word = func(i int) string { return fmt.Sprintf("é%d", i) }
		}
	}
	kinds := make([]uint, b.n)
	byKind := map[uint]int{}
	for i := range kinds {
		k := s.Ltot(`"` + word(i) + `"`)
		if k < tpl.USER_TOKEN_BEGIN {
			c.Failf("keyword %d gets the kind %d", i, k)
		}
		if j, ok := byKind[k]; ok {
			c.Failf("keywords %d and %d both get the kind %d", j, i, k)
		}
		byKind[k], kinds[i] = i, k
		if r.P(10) {
			if j := r.N(i + 1); s.Ltot(`"`+word(j)+`"`) != kinds[j] {
				c.Failf("keyword %d was kind %d, after %d keywords it is another", j, kinds[j], i+1)
			}
		}
	}
	var text strings.Builder
	for i := range kinds {
		if l := s.Ttol(kinds[i]); l != `"`+word(i)+`"` {
			c.Failf("Ttol of keyword %d of %d is %q", i, b.n, l)
		}
		if k := s.Ltot(`"` + word(i) + `"`); k != kinds[i] {
			c.Failf("keyword %d of %d was kind %d, now it is %d", i, b.n, kinds[i], k)
		}
		text.WriteString(word(i) + " " + word(i) + "y ")
	}
	m := &tpl.Matcher{Scanner: s}
	toks, err := m.Tokenize([]byte(text.String()), "")
	if err != nil || len(toks) != 2*b.n {
		c.Failf("%d tokens, %v; want %d", len(toks), err, 2*b.n)
	}
	for i := range kinds {
		if toks[2*i].Kind != kinds[i] || toks[2*i+1].Kind != tpl.IDENT {
			c.Failf("keyword %d of %d is scanned as kind %d, want %d; the word that begins with it as %d", i, b.n, toks[2*i].Kind, kinds[i], toks[2*i+1].Kind)
		}
	}
	c.Ev("registrations", b.n)
}

// ---------------------------------------------------------------- grammars

func tk(sym string) *gn                { return &gn{op: 't', sym: sym} }
func op1(op byte, k ...*gn) *gn        { return &gn{op: op, k: k} }
func seqOf(k ...*gn) *gn               { return &gn{op: '&', k: k} }
func (d *gdom) act(n *gn) *gn          { d.ids++; return &gn{op: 'a', id: d.ids, k: []*gn{n}} }
func (d *gdom) add(name string, b *gn) { d.rules = append(d.rules, &grule{name: name, body: b}) }

type bigGram struct {
	bigDim
	// f makes the rules and a sentence
	f func(r *Rand, d *gdom, n int) []string
}

func repSyms(n int, syms ...string) (l []string) {
	for i := 0; i < n; i++ {
		l = append(l, syms[i%len(syms)])
	}
	return
}

func kwName(i int) string { return fmt.Sprintf(`"kw%d"`, i) }

var leafSyms = []string{"IDENT", "INT", "STRING", "CHAR", "'+'", `"<<"`, `"if"`}

// leafs makes n leaves, keywords or tokens.
func leafs(r *Rand, n int) (l []string) {
	for i := 0; i < n; i++ {
		switch {
		case n > 5000 || r.P(30):
			l = append(l, leafSyms[r.N(len(leafSyms))])
		default:
			l = append(l, kwName(i))
		}
	}
	return
}

var bigGrams = []bigGram{
	{bigDim{"repetitions", 70001}, func(r *Rand, d *gdom, n int) []string {
		op := "*+"[r.N(2)]
		x := tk("IDENT")
		item := []string{"IDENT"}
		switch r.N(4) {
		case 0:
			x = d.act(x)
		case 1:
			x, item = seqOf(tk("INT"), op1('?', tk("'+'"))), []string{"INT", "'+'"}
		case 2:
			x, item = op1('|', tk("INT"), d.act(tk("IDENT"))), []string{"IDENT"}
		}
		d.add("doc", seqOf(d.act(&gn{op: op, k: []*gn{x}}), op1('?', tk("STRING"))))
		return append(repSyms(n*len(item), item...), repSyms(r.N(2), "STRING")...)
	}},
	{bigDim{"list elements", 70001}, func(r *Rand, d *gdom, n int) []string {
		op := "%L"[r.N(2)]
		x := tk("IDENT")
		if r.P(50) {
			x = d.act(x)
		}
		d.add("doc", seqOf(d.act(&gn{op: op, k: []*gn{x, tk("','")}}), op1('?', tk("','"))))
		return append(repSyms(2*n-1, "IDENT", "','"), repSyms(r.N(2), "','")...)
	}},
	{bigDim{"sequence", 70001}, func(r *Rand, d *gdom, n int) []string {
		l := leafs(r, n)
		g := seqOf()
		cut := -1
		if r.P(30) {
			cut = r.N(n)
		}
		for i, s := range l {
			x := tk(s)
			if r.P(5) {
				x = d.act(x)
			}
			g.k = append(g.k, x)
			if i == cut {
				g.k = append(g.k, op1('!'))
			}
		}
		d.add("doc", d.act(g))
		return l
	}},
	{bigDim{"alternatives", 5001}, func(r *Rand, d *gdom, n int) (s []string) {
		g := op1('|')
		for i := 0; i < n; i++ {
			x := tk(kwName(i))
			if r.P(50) {
				x = d.act(x)
			}
			g.k = append(g.k, x)
		}
		d.add("doc", d.act(op1('*', g)))
		for i := 0; i < 40; i++ {
			s = append(s, kwName(r.N(n)))
		}
		return append(s, kwName(n-1), kwName(0), kwName(n/2))
	}},
	{bigDim{"alternatives with a common beginning", 1025}, func(r *Rand, d *gdom, n int) (s []string) {
		g := op1('|')
		for i := 0; i < n; i++ {
			g.k = append(g.k, d.act(seqOf(tk("IDENT"), tk("INT"), tk(kwName(i)))))
		}
		d.add("doc", op1('*', g))
		for i := 0; i < 10; i++ {
			s = append(s, "IDENT", "INT", kwName(r.N(n)))
		}
		return append(s, "IDENT", "INT", kwName(n-1))
	}},
	{bigDim{"rules", 5001}, func(r *Rand, d *gdom, n int) (s []string) {
		// doc = *(x0 | ... ) over all rules, or a chain of rules
		name := func(i int) string { return fmt.Sprintf("x%d", i) }
		if n <= 1025 && r.P(50) {
			d.add("doc", &gn{op: 'r', sym: name(0)})
			for i := 0; i < n; i++ {
				x := seqOf(tk("'+'"), &gn{op: 'r', sym: name(i + 1)})
				d.add(name(i), op1('|', x, d.act(tk("IDENT"))))
			}
			d.add(name(n), op1('|', tk("INT"), tk("IDENT")))
			s = repSyms(r.N(n+1), "'+'")
			return append(s, r.Pick("IDENT", "INT"))
		}
		g := op1('|')
		for i := 0; i < n; i++ {
			g.k = append(g.k, &gn{op: 'r', sym: name(i)})
		}
		d.add("doc", op1('*', g))
		for i := 0; i < n; i++ {
			d.add(name(i), d.act(tk(kwName(i))))
		}
		for i := 0; i < 20; i++ {
			s = append(s, kwName(r.N(n)))
		}
		return append(s, kwName(n-1))
	}},
	{bigDim{"depth of recursion", 2049}, func(r *Rand, d *gdom, n int) []string {
		d.add("doc", &gn{op: 'r', sym: "x"})
		x := seqOf(tk("'('"), &gn{op: 'r', sym: "x"}, tk("')'"))
		if r.P(50) {
			x = seqOf(tk("'('"), op1('*', &gn{op: 'r', sym: "x"}), tk("')'"))
		}
		leaf := d.act(tk("INT"))
		if r.P(50) {
			leaf = tk("INT")
		}
		if r.P(50) {
			x = d.act(x)
		}
		d.add("x", op1('|', leaf, x))
		s := repSyms(n, "'('")
		return append(append(s, "INT"), repSyms(n, "')'")...)
	}},
	{bigDim{"nested parentheses in the grammar", 513}, func(r *Rand, d *gdom, n int) []string {
		var s []string
		g := tk("INT")
		s = []string{"INT"}
		for i := 0; i < n; i++ {
			switch r.N(3) {
			case 0:
				g = op1('|', tk(kwName(i)), g)
			case 1:
				g = seqOf(op1('?', tk("'+'")), g)
				if r.P(50) {
					s = append([]string{"'+'"}, s...)
				}
			case 2:
				g = seqOf(g, tk("','"))
				s = append(s, "','")
			}
		}
		d.add("doc", d.act(g))
		return s
	}},
	{bigDim{"lookahead", 20001}, func(r *Rand, d *gdom, n int) []string {
		ahead := seqOf(op1('*', tk("IDENT")), tk("INT"))
		op := "@~"[r.N(2)]
		d.add("doc", seqOf(op1(op, ahead), d.act(op1('*', tk("IDENT"))), op1('?', tk("STRING"))))
		return append(repSyms(n, "IDENT"), r.Pick("INT", "STRING"))
	}},
	{bigDim{"attempts that fail late", 5001}, func(r *Rand, d *gdom, n int) []string {
		d.add("doc", op1('|',
			d.act(seqOf(op1('*', d.act(tk("IDENT"))), tk("INT"))),
			d.act(seqOf(op1('+', d.act(tk("IDENT"))), tk("STRING"))),
			d.act(seqOf(op1('%', d.act(tk("IDENT")), op1('?', tk("'+'"))), tk("CHAR")))))
		return append(repSyms(n, "IDENT"), r.Pick("INT", "STRING", "CHAR"))
	}},
	{bigDim{"actions on one rule", 1025}, func(r *Rand, d *gdom, n int) []string {
		g := op1('+', tk("IDENT"))
		for i := 0; i < n; i++ {
			g = d.act(g)
		}
		d.add("doc", g)
		return repSyms(1+r.N(20), "IDENT")
	}},
	{bigDim{"nested repetitions", 1001}, func(r *Rand, d *gdom, n int) []string {
		row := d.act(op1('%', d.act(tk("INT")), tk("','")))
		d.add("doc", d.act(op1('*', seqOf(tk("'('"), row, tk("')'")))))
		var s []string
		for i := 0; i < 20; i++ {
			k := 1 + r.N(5)
			if i%7 == 3 {
				k = n
			}
			s = append(append(append(s, "'('"), repSyms(2*k-1, "INT", "','")...), "')'")
		}
		return s
	}},
}

func bigGramDims(limit int) (l []bigDim) {
	for _, g := range bigGrams {
		d := g.bigDim
		d.max = min(d.max, limit)
		l = append(l, d)
	}
	return
}

// bigGramCase makes the grammar and some texts, near the end of which something may be wrong.
func bigGramCase(c *Case, b bigCase, wrap byte, f func(d *gdom, syms []string)) {
	r := c.R
	d := &gdom{byN: map[string]*grule{}, big: true}
	s := bigGrams[b.dim].f(r, d, b.n)
	for _, ru := range d.rules {
		if wrap != 0 {
			ru.body = addTrans(r, d, ru.body)
		}
		d.byN[ru.name] = ru
	}
	syms := s
	f(d, s)
	for k := 0; k < 2; k++ {
		s = append([]string{}, syms...)
		at := len(s) - 1 - r.N(min(len(s), 4))
		if r.P(30) {
			at = r.N(len(s))
		}
		other := syms[r.N(len(syms))]
		switch r.N(4) {
		case 0:
			s = append(s[:at], s[at+1:]...)
		case 1:
			s[at] = other
		case 2:
			s = append(s, other)
		case 3:
			s = s[:at]
		}
		f(d, s)
	}
	f(d, nil)
}

// addTrans wraps some nodes in transactions.
func addTrans(r *Rand, d *gdom, n *gn) *gn {
	if n.op == '!' {
		return n
	}
	pct := 30
	if len(n.k) > 20 {
		pct = 5
	}
	for i, k := range n.k {
		if k.op != 't' || r.P(pct) {
			n.k[i] = addTrans(r, d, k)
		}
	}
	if r.P(40) {
		d.ids++
		n = &gn{op: 'x', id: d.ids, k: []*gn{n}}
	}
	return n
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n*2/3] + " ... " + s[len(s)-n/3:]
	}
	return s
}

func bigMatchPart(wrap byte, multiline bool, check func(c *Case, gc *gcase)) *Part {
	return bigPart("big", bigGramDims(bigMax), 1, 10, func(c *Case, b bigCase) {
		how := 0
		bigGramCase(c, b, wrap, func(d *gdom, s []string) {
			t := renderSyms(c.R, s, multiline)
			how++
			gc, ok := matchCase(c, d, t, how%3)
			c.input = fmt.Sprintf("%s at size %d\n%s", b.name, b.n, clip(c.input, 3000))
			if !ok {
				return
			}
			c.Ev("texts "+gc.ref.kind, 1)
			check(c, &gc)
		})
	})
}

// bigCompilePart compiles the grammars from their text.
func bigCompilePart() *Part {
	return bigPart("big", bigGramDims(10001), 1, 10, func(c *Case, b bigCase) {
		r := c.R
		var cp *compiled
		var text string
		bigGramCase(c, b, 0, func(d *gdom, s []string) {
			if cp == nil {
				occ := setMarks(r, d)
				text = grammarText(r, ruleToks(r, d))
				c.Input("%s at size %d\ngrammar %s", b.name, b.n, clip(text, 2000))
				cp = compileOK(c, text)
				for m, n := range occ {
					if cp.marks[m] != n {
						c.Failf("mark %s occurs %d times, the marker was called %d times", m, n, cp.marks[m])
					}
				}
				c.Ev("marks", len(occ))
			}
			t := renderSyms(r, s, r.P(20))
			c.Input("%s at size %d\ngrammar %s\ntext %s", b.name, b.n, clip(text, 2000), clip(q(string(t.src)), 2000))
			ref, ok := refMatch(d, d.rules[0].body, d.seenAs(s))
			if !ok {
				return
			}
			got := cp.match(c, t)
			if got.kind != ref.kind || got.kind == "ok" && got.n != ref.n {
				c.Failf("matching: got %v (%v), want %v", got.gres, clip(fmt.Sprint(got.err), 1000), ref)
			}
			if len(got.ev) == 0 || got.ev[0].typ != 'I' {
				c.Failf("Init was not called first: %v", got.ev)
			}
			sameEvents(c, got.ev, ref.ev, "A")
			c.Ev("texts "+ref.kind, 1)
		})
	})
}

func bigCodePart() *Part {
	return bigPart("big", bigGramDims(2049), 1, 10, func(c *Case, b bigCase) {
		done := false
		bigGramCase(c, b, 0, func(d *gdom, s []string) {
			if !done {
				done = true
				codeRoundTrip(c, d, func(*gdom) []string { return s }, 1)
			}
		})
	})
}

func bigIllFormedPart() *Part {
	return bigPart("big", bigGramDims(2049), 1, 10, func(c *Case, b bigCase) {
		r := c.R
		done := false
		bigGramCase(c, b, 0, func(d *gdom, s []string) {
			if done {
				return
			}
			done = true
			setMarks(r, d)
			rules := ruleToks(r, d)
			judgeGrammar(c, grammarText(r, rules))
			for k := 0; k < 3; k++ {
				i := r.N(len(rules))
				toks := append([]string{}, rules[i]...)
				at := r.N(len(toks))
				if r.P(60) {
					at = max(0, len(toks)-1-r.N(6))
				}
				switch r.N(3) {
				case 0:
					toks = append(toks[:at], toks[at+1:]...)
				case 1:
					toks[at] = r.Pick("(", ")", "|", "%", "/", "2", "UNKNOWN", "nowhere", `"kw0"`, "!", ";", "=", "'c'", "`", "$")
				case 2:
					toks = append(toks[:at:at], append([]string{r.Pick("(", ")", "|", "%", "/", "1", "IDENT", "INT", "!", ";", "=", "$")}, toks[at:]...)...)
				}
				l := append([][]string{}, rules...)
				l[i] = toks
				if r.P(20) {
					l = append(l, rules[i]) // twice
				}
				judgeGrammar(c, grammarText(r, l))
			}
		})
	})
}

// longHistoryPart evaluates a small grammar many times, and big texts in between.
func longHistoryPart() *Part {
	return bigPart("big", append([]bigDim{{"evaluations", 3000}}, bigGramDims(2049)...), 1, 8, func(c *Case, b bigCase) {
		if b.dim == 0 {
			evalHistory(c, b.n, 1, 2)
			return
		}
		b.dim--
		r := c.R
		var cp *compiled
		var text string
		var all [][]string
		var d *gdom
		bigGramCase(c, b, 0, func(x *gdom, s []string) {
			if cp == nil {
				d = x
				setMarks(r, d)
				text = grammarText(r, ruleToks(r, d))
				c.Input("%s at size %d\ngrammar %s", b.name, b.n, clip(text, 2000))
				cp = compileOK(c, text)
			}
			all = append(all, s)
			if len(s) > 3 {
				all = append(all, s[:3], s[len(s)-3:])
			}
		})
		for k := 0; k < 6; k++ {
			s := all[r.N(len(all))]
			t := renderSyms(r, s, r.P(20))
			c.Input("%s at size %d, evaluation %d\ngrammar %s\ntext %s", b.name, b.n, k, clip(text, 2000), clip(q(string(t.src)), 2000))
			ref, ok := refMatch(d, d.rules[0].body, d.seenAs(s))
			if !ok {
				continue
			}
			got := cp.match(c, t)
			if got.kind != ref.kind || got.kind == "ok" && got.n != ref.n {
				c.Failf("matching: got %v (%v), want %v", got.gres, clip(fmt.Sprint(got.err), 1000), ref)
			}
			sameEvents(c, got.ev, ref.ev, "A")
			want := compileOK(c, text).match(c, t)
			if a, b := fmt.Sprint(got.err), fmt.Sprint(want.err); a != b {
				c.Failf("the error is %s, on a fresh matcher %s", clip(a, 1000), clip(b, 1000))
			}
			c.Ev("evaluations "+ref.kind, 1)
		}
	})
}

// bigKeywordsPart compiles grammars of many keywords.
func bigKeywordsPart() *Part {
	return bigPart("big", []bigDim{{"keywords", 5001}, {"length of a keyword", 70001}}, 2, 20, func(c *Case, b bigCase) {
		r := c.R
		word := func(i int) string { return fmt.Sprintf("kw%dx", i) }
		n := b.n
		if b.dim == 1 {
			w := cycle(r.Pick("abc", "é", "w变"), b.n-1)
			word = func(i int) string { return w + string(rune('a'+i)) }
			n = 3
		}
		var g strings.Builder
		g.WriteString("doc = *(")
		live := func(i int) bool { return i == 0 || i == n-1 || i%3 != 1 }
		first := true
		var other []string
		for i := 0; i < n; i++ {
			if !live(i) {
				other = append(other, `"`+word(i)+`"`)
				continue
			}
			if !first {
				g.WriteString(" | ")
			}
			first = false
			fmt.Fprintf(&g, "%q/kw", word(i))
		}
		g.WriteString(" | IDENT/id);\n")
		if len(other) > 0 {
			g.WriteString("other = " + strings.Join(other, " ") + ";\n")
		}
		var ev []string
		cr, err := (&tpl.Compiler{Grammar: []byte(g.String()), Marker: func(g tpl.Grammar, mark string) tpl.Grammar {
			return tpl.Action(g, func(tokens []tpl.Token, _ tpl.Grammar) {
				ev = append(ev, mark+" "+tokens[0].Literal)
			})
		}}).Cl()
		if err != nil {
			c.Failf("does not compile: %v", err)
		}
		var text strings.Builder
		var want []string
		put := func(kind, w string) {
			text.WriteString(w + " ")
			want = append(want, kind+" "+w)
		}
		for k := 0; k < 30; k++ {
			i := r.N(n)
			if k < 2 {
				i = n - 1 - k
			}
			switch w := word(i); {
			case r.P(20):
				put("id", w+"y")
			case r.P(20):
				put("id", "y"+w)
			case r.P(10):
				put("id", w[:len(w)-1])
			case live(i):
				put("kw", w)
				c.Ev("keywords", 1)
			}
		}
		end := 0
		if len(other) > 0 {
			text.WriteString(strings.Trim(other[len(other)-1], `"`))
			end = 1
		}
		next, err := cr.Match([]byte(text.String()), "")
		if err != nil || len(next) != end {
			c.Failf("Match: %v, %d tokens are left of %d", err, len(next), len(want)+end)
		}
		for i := range want {
			if i >= len(ev) || ev[i] != want[i] {
				c.Failf("word %d is not matched as %s: %s", i, clip(want[i], 300), clip(fmt.Sprint(ev), 2000))
			}
		}
	})
}
