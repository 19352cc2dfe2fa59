package main

// C01..C06: the scanner and the token table.

import (
	"bytes"
	"fmt"
	"go/token"
	"path/filepath"
	"strings"

	"github.com/qiniu/text/tpl"
)

var scanModes = []tpl.ScanMode{0, tpl.ScanComments, tpl.InsertSemis, tpl.ScanComments | tpl.InsertSemis}

func modeName(m tpl.ScanMode) string {
	return [...]string{"plain", "comments", "semis", "comments+semis"}[m&3]
}

func tokStr(ts []rtok) string {
	var s []string
	for _, t := range ts {
		s = append(s, t.String())
	}
	return strings.Join(s, " ")
}

func firstDiff(a, b []rtok) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i].off != b[i].off || a[i].kind != b[i].kind || a[i].lit != b[i].lit {
			return i
		}
	}
	if len(a) != len(b) {
		if len(a) < len(b) {
			return len(a)
		}
		return len(b)
	}
	return -1
}

func newScanner(r *Rand) (tpl.Tokener, func() int) {
	if r.P(50) {
		s := new(tpl.Scanner)
		return s, func() int { return s.ErrorCount }
	}
	s := new(tpl.AutoKwScanner)
	return s, func() int { return s.ErrorCount }
}

// hiding counts on scanning to end: the limit is generous, going over it is C02's business.
func scanLimit(src []byte) int { return 2*len(src) + 16 }

// checkTokens compares the scanner with the reference in one mode.
func checkTokens(c *Case, src []byte, mode tpl.ScanMode) {
	ref := refLex(src)
	want := ref.tokens(mode)
	s, count := newScanner(c.R)
	got := runScan(s, src, "f.txt", mode, scanLimit(src), 0, count)
	c.Ev("tokens compared", len(got.toks))
	if i := firstDiff(got.toks, want); i >= 0 {
		c.Failf("mode %s: token %d differs\n got  %s\n want %s", modeName(mode), i, tokStr(got.toks), tokStr(want))
	}
	if len(ref.errs) > 0 {
		c.Ev("ill-formed texts", 1)
	}
	c.Seen(modeName(mode) + "/" + shape(want))
}

// shape is the sequence of kinds (of the first tokens).
func shape(ts []rtok) string {
	var b strings.Builder
	for i, t := range ts {
		if i > 12 {
			break
		}
		b.WriteString(kindName(t.kind))
		b.WriteByte(' ')
		if t.lit == "\n" {
			b.WriteString("nl ")
		}
	}
	return b.String()
}

var alphaOps = split("+-*/%&|^<>=!:.?~@;(,a1 \n")
var alphaOps4 = split("+-*/&|^<>=!:.%a\n")
var alphaNum = split("0189xXabfeE.+-i \n")
var alphaQuote = []string{"\"", "'", "`", "\\", "n", "x", "u", "0", "4", "f", "8", "\n", "\r", "é", " "}
var alphaComm = []string{"/", "*", "#", "a", "\n", "\r", " ", ")", "1", "\xef\xbb\xbf", "\x00"}
var alphaUni = []string{"a", "_", "é", "٣", "变", "\u0301", "\xff", "\xc3", "\xef\xbb\xbf", "\x00", "$", " ", "\u00a0", "1", "\"", "#"}

type enumSpec struct {
	name          string
	alpha         []string
	quick, deeper int
}

var enums = []enumSpec{
	{"all-ops", alphaOps, 3, 4},
	{"all-numbers", alphaNum, 3, 5},
	{"all-quotes", alphaQuote, 4, 5},
	{"all-comments", alphaComm, 4, 6},
	{"all-unicode", alphaUni, 3, 4},
}

const batch = 64 // strings of an enumeration per case

// enumParts makes the parts that enumerate all short strings of an alphabet.
func enumParts(f func(c *Case, src []byte)) (ps []*Part) {
	for _, e := range enums {
		e := e
		nq, nt := enumCount(len(e.alpha), e.quick), enumCount(len(e.alpha), e.deeper)
		ps = append(ps, &Part{Name: e.name, Quick: (nq + batch - 1) / batch, Thorough: (nt + batch - 1) / batch, Exhaustive: true,
			Run: func(c *Case) {
				n := nq
				if c.Thorough() {
					n = nt
				}
				for i := c.Idx * batch; i < (c.Idx+1)*batch && i < n; i++ {
					s := enumString(e.alpha, i)
					c.Input("%q", s)
					c.Ev("short texts enumerated", 1)
					f(c, []byte(s))
				}
			}})
	}
	return
}

func allModes(f func(c *Case, src []byte, mode tpl.ScanMode)) func(c *Case, src []byte) {
	return func(c *Case, src []byte) {
		for _, m := range scanModes {
			f(c, src, m)
		}
	}
}

func randText(c *Case, bad bool) []byte {
	n := c.R.Range(1, 12)
	if c.R.P(10) {
		n = c.R.Range(12, 120)
	}
	s := lexText(c.R, n, bad)
	c.Input("%q", s)
	return []byte(s)
}

// cleanText makes a text without lexical errors.
func cleanText(c *Case) []byte {
	for {
		src := randText(c, false)
		if len(refLex(src).errs) == 0 {
			return src
		}
	}
}

// scanParts are the workloads C01..C04 share.
func scanParts(quick, thorough int, f func(c *Case, src []byte)) []*Part {
	ps := []*Part{
		{Name: "fragments", Quick: quick, Thorough: thorough, Run: func(c *Case) { f(c, randText(c, false)) }},
		{Name: "fragments-bad", Quick: quick, Thorough: thorough, Run: func(c *Case) { f(c, randText(c, true)) }},
		{Name: "noise", Quick: quick, Thorough: thorough, Run: func(c *Case) {
			s := noise(c.R, c.R.Range(1, 30))
			c.Input("%q", s)
			f(c, []byte(s))
		}},
	}
	ps = append(ps, &Part{Name: "all-runes", Quick: 0x10000 / 256, Thorough: 0x110000 / 256, Exhaustive: true, Run: func(c *Case) {
		for x := c.Idx * 256; x < (c.Idx+1)*256; x++ {
			for _, s := range []string{"a" + string(rune(x)) + "1", "=" + string(rune(x)) + "\n\"" + string(rune(x)) + "\""} {
				c.Input("%q", s)
				c.Ev("runes enumerated", 1)
				f(c, []byte(s))
			}
		}
	}})
	return append(append(ps, bigScanPart(f)), enumParts(f)...)
}

// ---------------------------------------------------------------- C02

func checkPartition(c *Case, src []byte, mode tpl.ScanMode) {
	s, _ := newScanner(c.R)
	// one token per byte, one semicolon per line end and one at EOF, EOF itself
	limit := len(src) + bytes.Count(src, []byte("\n")) + 3
	extra := 3
	got := runScan(s, src, "f.txt", mode, limit+extra, extra, nil)
	ts := got.toks
	fail := func(i int, what string) {
		c.Failf("mode %s: token %d (%v): %s\ntokens: %s", modeName(mode), i, ts[i], what, tokStr(ts))
	}
	first := -1
	for i, t := range ts {
		if t.kind == tpl.EOF {
			first = i
			break
		}
	}
	if first < 0 {
		fail(len(ts)-1, "no EOF within the bound")
	}
	if first > limit {
		fail(first, "too many tokens")
	}
	if len(ts) != first+1+extra {
		fail(len(ts)-1, "scanning did not stay at EOF")
	}
	for i := first; i < len(ts); i++ {
		if ts[i].kind != tpl.EOF || ts[i].lit != "" || ts[i].off != len(src) {
			fail(i, "EOF does not stay at the end of the text")
		}
	}
	prev := 0 // end of the text of the previous token
	if bytes.HasPrefix(src, []byte("\xef\xbb\xbf")) {
		prev = 3
	}
	isCR := func(b byte) bool { return b == '\r' }
	for i, t := range ts[:first+1] {
		if t.off < prev {
			fail(i, "position lies within the previous token, or before it")
		}
		if t.off > len(src) {
			fail(i, "position behind the end of the text")
		}
		if !onlyBlank(src[prev:t.off], mode&tpl.ScanComments == 0) {
			fail(i, fmt.Sprintf("text skipped before the token: %q", src[prev:t.off]))
		}
		rest := src[t.off:]
		e := t.off
		switch {
		case t.kind == tpl.EOF:
		case t.kind == tpl.SEMICOLON && t.lit == "\n":
			// inserted: it has no text of its own, or it stands for the newline
			if len(rest) > 0 && rest[0] == '\n' {
				if t.end != t.off+1 {
					fail(i, "End of a newline semicolon")
				}
			} else if len(rest) > 0 && rest[0] != '/' && rest[0] != '#' {
				fail(i, "inserted semicolon is not at a line end")
			}
		case t.kind == tpl.ILLEGAL:
			_, w := refLex(rest).at(0)
			e = t.off + w
		case t.lit != "":
			var ok bool
			var n int
			if bytes.HasPrefix(rest, []byte(t.lit)) {
				ok, n = true, len(t.lit)
				// a raw string or a comment with carriage returns may begin with its own literal only if equal
				if t.end != t.off+n && n == len(t.lit) {
					fail(i, "End is not behind the text")
				}
			} else if t.kind == tpl.COMMENT || t.kind == tpl.STRING && t.lit[0] == '`' {
				k := 0
				for k < len(t.lit) {
					if n < len(rest) && rest[n] == t.lit[k] {
						n, k = n+1, k+1
					} else if n < len(rest) && isCR(rest[n]) {
						n++
					} else {
						break
					}
				}
				ok = k == len(t.lit)
				for ok && t.kind == tpl.COMMENT && t.lit[1:2] != "*" && n < len(rest) && isCR(rest[n]) {
					n++ // carriage returns at the end of a line comment
				}
				if ok && t.lit[0] == '`' && (len(t.lit) == 1 || t.lit[len(t.lit)-1] != '`') || t.lit[:1] == "/" && !strings.HasSuffix(t.lit, "*/") {
					for n < len(rest) && isCR(rest[n]) {
						n++ // unterminated: carriage returns at the end of the text
					}
				}
			}
			if !ok {
				fail(i, "its text is not at its position")
			}
			e = t.off + n
		default:
			sp, ok := opSpell[t.kind]
			if !ok || !bytes.HasPrefix(rest, []byte(sp)) {
				fail(i, "its operator is not at its position")
			}
			e = t.off + len(sp)
			if t.end != e {
				fail(i, "End is not behind the operator")
			}
		}
		prev = e
		if t.kind == tpl.SEMICOLON && t.lit == "\n" {
			prev = t.off
		}
	}
	c.Ev("tokens located", first+1)
	c.Seen(modeName(mode) + "/" + shape(ts))
}

// onlyBlank tells whether b holds only white space and, if allowed, comments (nothing else may be
// skipped between two tokens).
func onlyBlank(b []byte, commentsToo bool) bool {
	for i := 0; i < len(b); {
		switch b[i] {
		case ' ', '\t', '\r', '\n':
			i++
			continue
		}
		if !commentsToo {
			return false
		}
		switch {
		case b[i] == '#', bytes.HasPrefix(b[i:], []byte("//")):
			j := bytes.IndexByte(b[i:], '\n')
			if j < 0 {
				return true
			}
			i += j
		case bytes.HasPrefix(b[i:], []byte("/*")):
			j := bytes.Index(b[i+2:], []byte("*/"))
			if j < 0 {
				return true
			}
			i += 2 + j + 2
		default:
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- C03

func checkSemis(c *Case, src []byte) {
	for _, comm := range []tpl.ScanMode{0, tpl.ScanComments} {
		s, _ := newScanner(c.R)
		plain := runScan(s, src, "f.txt", comm, scanLimit(src), 0, nil).toks
		s, _ = newScanner(c.R)
		semis := runScan(s, src, "f.txt", comm|tpl.InsertSemis, scanLimit(src), 0, nil).toks
		fail := func(format string, a ...interface{}) {
			c.Failf("mode %s: %s\n plain %s\n semis %s", modeName(comm), fmt.Sprintf(format, a...), tokStr(plain), tokStr(semis))
		}
		for i, t := range plain {
			if t.kind == tpl.SEMICOLON && t.lit != ";" {
				fail("token %d: a semicolon was inserted without InsertSemis", i)
			}
		}
		// the other tokens are the same
		var rest []rtok
		type ins struct{ off, behind int } // behind: number of plain tokens before it
		var inserted []ins
		for _, t := range semis {
			if t.kind == tpl.SEMICOLON && t.lit == "\n" {
				inserted = append(inserted, ins{t.off, len(rest)})
			} else {
				rest = append(rest, t)
			}
		}
		if i := firstDiff(rest, plain); i >= 0 {
			fail("token %d changed by InsertSemis", i)
		}
		// where they are due
		want := map[int]bool{} // number of plain tokens before the semicolon
		ref := refLex(src)
		n := 0 // tokens so far
		armed := false
		for k, it := range ref.items {
			switch it.kind {
			case kindNewline, tpl.EOF:
				if armed {
					want[n] = true
					armed = false
				}
			case tpl.COMMENT:
				if armed && ref.lineEnds(k) {
					want[n] = true
				}
				armed = false
				if comm != 0 {
					n++
				}
			case tpl.ILLEGAL:
				n++
			default:
				armed = armsSemi(it.kind)
				n++
			}
		}
		gotAt := map[int]bool{}
		for _, in := range inserted {
			if gotAt[in.behind] {
				fail("two semicolons inserted behind token %d", in.behind)
			}
			gotAt[in.behind] = true
			if !want[in.behind] {
				fail("semicolon inserted behind %d tokens is not due", in.behind)
			}
		}
		for k := range want {
			if !gotAt[k] {
				fail("semicolon behind %d tokens is missing", k)
			}
		}
		c.Ev("semicolons inserted", len(inserted))
		c.Seen(modeName(comm) + "/" + shape(semis))
	}
}

// ---------------------------------------------------------------- C04

func checkErrors(c *Case, src []byte) {
	ref := refLex(src)
	mode := scanModes[c.R.N(4)]
	s, count := newScanner(c.R)
	got := runScan(s, src, "dir/f.txt", mode, scanLimit(src), 0, count)
	lm := ref.lineModel("dir/f.txt")
	if got.count != len(got.errs) {
		c.Failf("ErrorCount is %d after %d reports", got.count, len(got.errs))
	}
	seen := map[int]bool{}
	for _, e := range got.errs {
		if !ref.errs[e.pos.Offset] {
			c.Failf("mode %s: error %q reported at offset %d, ill-formed are only %v", modeName(mode), e.msg, e.pos.Offset, ref.errList())
		}
		seen[e.pos.Offset] = true
		if e.msg == "" {
			c.Failf("an error without a message is reported at offset %d", e.pos.Offset)
		}
	}
	for o := range ref.errs {
		if !seen[o] {
			c.Failf("mode %s: no error reported at offset %d (ill-formed: %v, reported: %v)", modeName(mode), o, ref.errList(), seen)
		}
	}
	if len(got.errs) > 0 {
		e := got.errs[0]
		_, col := lm.physical(e.pos.Offset)
		file, line := lm.pos(e.pos.Offset)
		if e.pos.Line != line || e.pos.Filename != file || e.pos.Column != col {
			c.Failf("mode %s: error at offset %d reported at %v, want %s:%d:%d", modeName(mode), e.pos.Offset, e.pos, file, line, col)
		}
		c.Ev("lexical errors reported", len(got.errs))
		var kinds []string
		for i, e := range got.errs {
			if i < 4 {
				kinds = append(kinds, e.msg)
			}
		}
		c.Seen(strings.Join(kinds, "|"))
	} else {
		c.Ev("well-formed texts", 1)
	}
	// the matcher
	ran, inits := 0, 0
	m := &tpl.Matcher{ScanMode: mode, Init: func() { inits++ }}
	if c.R.P(50) {
		m.Scanner = new(tpl.AutoKwScanner)
	}
	any := tpl.Or(tpl.Not(tpl.GrEOF), tpl.GrTrue)
	m.Grammar = tpl.Action(any, func([]tpl.Token, tpl.Grammar) { ran++ })
	toks, err := m.Tokenize(src, "g.txt")
	want := ref.tokens(mode)
	if len(ref.errs) == 0 {
		if err != nil {
			c.Failf("Tokenize fails on a well-formed text: %v", err)
		}
		if len(toks) != len(want)-1 {
			c.Failf("Tokenize returns %d tokens, want %d", len(toks), len(want)-1)
		}
	} else {
		te, ok := err.(*tpl.TokenizeError)
		if !ok {
			c.Failf("Tokenize returns %v (%T) for a text with errors at %v", err, err, ref.errList())
		}
		if !ref.errs[te.Pos.Offset] || te.Error() == "" {
			c.Failf("TokenizeError at %v %q, ill-formed are %v", te.Pos, te.Error(), ref.errList())
		}
		for i, t := range toks {
			if int(t.Pos)-1 > te.Pos.Offset || t.Kind == tpl.ILLEGAL {
				c.Failf("Tokenize returns token %d (%s at %d), behind the error at %d", i, kindName(t.Kind), int(t.Pos)-1, te.Pos.Offset)
			}
		}
	}
	ran, inits = 0, 0
	_, err = m.Match(src, "g.txt")
	if len(ref.errs) == 0 {
		if err != nil || ran != 1 || inits != 1 {
			c.Failf("Match of a well-formed text: %v, %d rules, %d Init", err, ran, inits)
		}
	} else if _, ok := err.(*tpl.TokenizeError); !ok || ran != 0 || inits != 0 {
		c.Failf("Match of an ill-formed text: %v (%T), %d rules run, %d Init", err, err, ran, inits)
	}
	ran = 0
	if err = m.MatchExactly(src, "g.txt"); len(ref.errs) != 0 {
		if _, ok := err.(*tpl.TokenizeError); !ok || ran != 0 {
			c.Failf("MatchExactly of an ill-formed text: %v (%T), %d rules run", err, err, ran)
		}
	}
}

// ---------------------------------------------------------------- C05

func checkPositions(c *Case, src []byte) {
	ref := refLex(src)
	mode := scanModes[c.R.N(4)]
	name := []string{"f.txt", "dir/f.txt", "/abs/dir/f.txt", ""}[c.R.N(4)]
	lm := ref.lineModel(name)
	m := &tpl.Matcher{ScanMode: mode}
	if c.R.P(50) {
		m.Scanner = new(tpl.AutoKwScanner)
	}
	rounds := 1 + c.R.N(2)
	var toks []tpl.Token
	var err error
	for i := 0; i < rounds; i++ {
		if i > 0 && c.R.P(50) { // something else in between
			m.Tokenize([]byte(lexText(c.R, 5, true)), "other")
		}
		if toks, err = m.Tokenize(src, name); err != nil {
			c.Failf("Tokenize fails on a well-formed text: %v", err)
		}
	}
	s := m.Tokener()
	file := s.Source().File
	all := toks[:len(toks)+1] // EOF
	off := func(i int) int { return int(all[i].Pos) - file.Base() }
	hasDir := len(lm.dirs) > 0
	for i := range all {
		wf, wl := lm.pos(off(i))
		p := file.Position(all[i].Pos)
		_, col := lm.physical(off(i))
		if p.Line != wl || p.Filename != wf || p.Column != col {
			c.Failf("mode %s: token %d at offset %d is at %v, want %s:%d:%d", modeName(mode), i, off(i), p, wf, wl, col)
		}
		var gl int
		var gf string
		if i < len(toks) {
			gf, gl = tpl.FileLine(toks[i:i+1+c.R.N(len(toks)-i)], s)
		} else {
			gf, gl = tpl.FileLine(toks[i:], s)
		}
		if gl != wl || !hasDir && gf != filepath.ToSlash(name) && gf != name {
			c.Failf("mode %s: FileLine of token %d at offset %d is %s:%d, want %s:%d", modeName(mode), i, off(i), gf, gl, wf, wl)
		}
		c.Ev("positions checked", 1)
	}
	if hasDir {
		c.Ev("line directives", len(lm.dirs))
	}
	// Source of runs
	for k := 0; k < 6 && len(toks) > 0; k++ {
		i := c.R.N(len(toks))
		j := i + 1 + c.R.N(len(toks)-i)
		text := tpl.Source(toks[i:j], s)
		want := src[off(i):off(j)]
		if !bytes.Equal(text, want) {
			c.Failf("mode %s: Source of tokens %d..%d is %q, want %q", modeName(mode), i, j-1, text, want)
		}
		c.Ev("sources checked", 1)
		if mode&tpl.InsertSemis == 0 {
			m2 := &tpl.Matcher{ScanMode: mode}
			toks2, err := m2.Tokenize(text, name)
			if err != nil || len(toks2) != j-i {
				c.Failf("mode %s: scanning Source %q of tokens %d..%d again gives %d tokens, %v", modeName(mode), text, i, j-1, len(toks2), err)
			}
			for x := range toks2 {
				a, b := toks2[x], toks[i+x]
				if a.Kind != b.Kind || a.Literal != b.Literal || int(a.Pos)-1 != off(i+x)-off(i) {
					c.Failf("mode %s: token %d of %q scanned again is %v, was %v", modeName(mode), x, text, a, b)
				}
			}
		}
	}
	if got := tpl.Source(nil, s); len(got) != 0 {
		c.Failf("Source of no tokens is %q", got)
	}
	c.Seen(modeName(mode) + fmt.Sprint(hasDir, rounds) + shape(ref.tokens(mode)))
}

func lineText(c *Case) []byte {
	r := c.R
	for {
		var b strings.Builder
		for n := r.Range(1, 14); n > 0; n-- {
			switch r.N(8) {
			case 0, 1:
				fmt.Fprintf(&b, "//line %s:%s\n", r.Pick("a.go", "", "/x/y.go", "../z", " sp ace ", "c:d", "dir/./e.go"), r.Pick("1", "7", "100", "99999", "0", "x", "-3", "", "012", " 5", "5 "))
			case 2:
				b.WriteString("x /* a\n\nb */ y\n")
			case 3:
				b.WriteString("`raw\n\n` + z")
				b.WriteString(r.Pick("\n", "\r\n", " "))
			case 4:
				b.WriteString(" //line in.go:50\n") // not at the start of a line
			case 5:
				b.WriteString("#line sharp.go:60\n")
			case 6:
				b.WriteString("f(a,\n b)\n")
			case 7:
				b.WriteString(r.Pick("\n", "\r\n", "a", "/*line c.go:9*/", "//line eof.go:3", "++\n"))
			}
		}
		s := b.String()
		c.Input("%q", s)
		if len(refLex([]byte(s)).errs) == 0 {
			return []byte(s)
		}
	}
}

// ---------------------------------------------------------------- C06

var kwPool = []string{"if", "If", "else", "for", "变量", "é", "é", "a b", "x", "_", "", "+", "<<", "IDENT", "true", "\\n", "'", "+=!"}

func init() {
	register(&Prop{ID: "C01",
		Rule:    "random texts of lexical fragments (well-formed, ill-formed, noise) and all short texts over five alphabets, scanned in all four modes and compared token by token with an independent reference lexer; a case is distinct by the sequence of token kinds and the mode",
		MustSee: []string{"tokens compared", "ill-formed texts", "short texts enumerated"},
		Parts:   scanParts(60000, 2000000, allModes(checkTokens))})
	register(&Prop{ID: "C02",
		Rule:    "the texts of C01; a monitor over the tokens returned checks progress, order, placement and that only blanks and comments are skipped, without a reference lexer; a case is distinct by the sequence of token kinds and the mode",
		MustSee: []string{"tokens located", "short texts enumerated"},
		Parts:   scanParts(60000, 2000000, allModes(checkPartition))})
	register(&Prop{ID: "C03",
		Rule:    "the texts of C01; the tokens with InsertSemis are compared with the scanner's own tokens without it plus the documented rule; a case is distinct by the sequence of token kinds",
		MustSee: []string{"semicolons inserted", "short texts enumerated"},
		Parts: append(scanParts(50000, 1500000, checkSemis), &Part{Name: "line-ends", Quick: 60000, Thorough: 1500000, Run: func(c *Case) {
			r := c.R
			var b strings.Builder
			for n := r.Range(1, 4); n > 0; n-- {
				b.WriteString(r.Pick("a", "1", ".5", "'c'", `"s"`, "`r`", "`r\n`", ")", "]", "}", "++", "--", "+", "(", "{", ",", "0x1", "5i", ";", "$", "if", "变", "=", ":", "...", "?", "~", "@"))
				for k := r.N(5); k > 0; k-- {
					b.WriteString(r.Pick(" ", "\n", "\r\n", "/* x */", "/**/", "/* \n */", "// l\n", "//l", "# s\n", "#s", "\t", "/*", "$"))
				}
			}
			c.Input("%q", b.String())
			checkSemis(c, []byte(b.String()))
		}})})
	register(&Prop{ID: "C04",
		Rule:    "the texts of C01; the set of reported errors is compared with the ill-formed places found by an independent reference lexer, then Tokenize and Match are watched; a case is distinct by the sequence of messages",
		MustSee: []string{"lexical errors reported", "well-formed texts", "short texts enumerated"},
		Parts:   scanParts(60000, 2000000, checkErrors)})
	register(&Prop{ID: "C05",
		Rule:    "well-formed texts with multi-line tokens, comments and //line directives; positions of all tokens compared with an independent line model, Source of random runs compared with the text and scanned again; a case is distinct by mode, directives and the sequence of kinds",
		MustSee: []string{"positions checked", "line directives", "sources checked"},
		Parts: []*Part{
			{Name: "fragments", Quick: 60000, Thorough: 2000000, Run: func(c *Case) { checkPositions(c, cleanText(c)) }},
			{Name: "lines", Quick: 100000, Thorough: 3000000, Run: func(c *Case) { checkPositions(c, lineText(c)) }},
			bigPart("big", bigTextDims(false), 1, 10, func(c *Case, b bigCase) { checkPositions(c, makeBigText(c, b, true)) }),
		}})
	register(&Prop{ID: "C06",
		Rule:    "all kinds 0..4095 and some huge ones, all spellings of the table and mutations of them, random histories of keyword registrations and scans against a model; a case is distinct by the history",
		MustSee: []string{"kinds checked", "registrations", "spellings checked"},
		Parts: []*Part{
			{Name: "table", Quick: 1, Thorough: 1, Exhaustive: true, Run: checkTable},
			{Name: "spellings", Quick: 30000, Thorough: 300000, Run: checkSpellings},
			{Name: "keywords", Quick: 30000, Thorough: 1000000, Run: checkKeywords},
			bigPart("big", []bigDim{{"keywords", 70001}}, 2, 20, checkManyKeywords),
		}})
}

// tableKinds are all the built-in kinds with their spelling.
func tableKinds() map[uint]string {
	m := map[uint]string{}
	for k, n := range kindNames {
		m[k] = n
	}
	for k, s := range opSpell {
		if len(s) == 1 {
			m[k] = "'" + s + "'"
		} else {
			m[k] = `"` + s + `"`
		}
	}
	return m
}

func checkTable(c *Case) {
	c.Input("the token table")
	want := tableKinds()
	names := map[string]uint{}
	for k, s := range want {
		if got := tpl.Token2Lit(k); got != s {
			c.Failf("Token2Lit(%d) = %q, want %q", k, got, s)
		}
		if got := new(tpl.Scanner).Ttol(k); got != s {
			c.Failf("Ttol(%d) = %q, want %q", k, got, s)
		}
		if k != tpl.ILLEGAL {
			if got := tpl.Lit2Token(s); got != k {
				c.Failf("Lit2Token(%q) = %d, want %d", s, got, k)
			}
			if got := new(tpl.AutoKwScanner).Ltot(s); got != k {
				c.Failf("Ltot(%q) = %d, want %d", s, got, k)
			}
		}
		if o, ok := names[s]; ok {
			c.Failf("kinds %d and %d are both spelled %q", k, o, s)
		}
		names[s] = k
		c.Ev("spellings checked", 1)
		c.Seen(s)
	}
	lens := func(k uint) {
		w := 0
		if sp, ok := opSpell[k]; ok {
			w = len(sp)
		}
		if got := tpl.TokenLen(k); got != w {
			c.Failf("TokenLen(%d) = %d, want %d", k, got, w)
		}
		c.Ev("kinds checked", 1)
	}
	spelled := map[string]uint{}
	for k := uint(0); k < 4096; k++ {
		lens(k)
		func() {
			defer func() { recover() }() // a kind outside the table has no spelling
			s := tpl.Token2Lit(k)
			if s == "" {
				return
			}
			if _, ok := want[k]; !ok {
				c.Failf("kind %d has the spelling %q", k, s)
			}
			if o, ok := spelled[s]; ok {
				c.Failf("kinds %d and %d are both spelled %q", k, o, s)
			}
			spelled[s] = k
		}()
	}
	for _, k := range []uint{1 << 16, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, ^uint(0), ^uint(0) - 1, ^uint(0) - 100} {
		lens(k)
	}
	if len(spelled) != len(want) {
		c.Failf("%d kinds have a spelling, want %d", len(spelled), len(want))
	}
	if tpl.USER_TOKEN_BEGIN < 128 {
		c.Failf("user tokens begin at %d", tpl.USER_TOKEN_BEGIN)
	}
}

func checkSpellings(c *Case) {
	r := c.R
	want := map[string]uint{}
	for k, s := range tableKinds() {
		want[s] = k
	}
	var list []string
	for _, o := range opList {
		list = append(list, "'"+o+"'", `"`+o+`"`, o)
	}
	list = append(list, "';'", `";"`, "IDENT", "INT", "FLOAT", "EOF", "ident", "SHL", "ILLEGAL", "")
	s := list[r.N(len(list))]
	for n := r.N(3); n > 0; n-- {
		switch i := r.N(len(s) + 1); r.N(3) {
		case 0:
			s = s[:i] + r.Pick("'", `"`, "+", "<", " ", "a", "=", "\x00") + s[i:]
		case 1:
			if i > 0 {
				s = s[:i-1] + s[i:]
			}
		case 2:
			s = strings.Replace(s, r.Pick("'", `"`, "<"), r.Pick("'", `"`, ">"), 1)
		}
	}
	c.Input("spelling %q", s)
	if got := tpl.Lit2Token(s); got != want[s] {
		c.Failf("Lit2Token(%q) = %d, want %d", s, got, want[s])
	}
	if got := new(tpl.Scanner).Ltot(s); got != want[s] {
		c.Failf("Ltot(%q) = %d, want %d", s, got, want[s])
	}
	c.Ev("spellings checked", 1)
	c.Seen(s)
}

func checkKeywords(c *Case) {
	r := c.R
	s := new(tpl.AutoKwScanner)
	model := map[string]uint{} // keyword -> kind
	var hist []string
	builtin := map[string]uint{}
	for k, n := range tableKinds() {
		builtin[n] = k
	}
	byKind := map[uint]string{}
	scan := func() {
		var b strings.Builder
		var ids []string
		for n := r.Range(1, 6); n > 0; n-- {
			w := kwPool[r.N(5)]
			if r.P(30) {
				w = r.Pick("iff", "i", "IF", "fo", "form", "变", "e")
			}
			ids = append(ids, w)
			b.WriteString(w + " ")
		}
		hist = append(hist, "scan "+b.String())
		c.Input("%s", strings.Join(hist, "; "))
		fset := token.NewFileSet()
		src := []byte(b.String())
		s.Init(fset.AddFile("", -1, len(src)), src, nil, 0)
		for _, w := range ids {
			t := s.Scan()
			want := tpl.IDENT
			if k, ok := model[w]; ok {
				want = k
			}
			if t.Kind != want || t.Literal != w {
				c.Failf("%q is scanned as kind %d %q, want %d", w, t.Kind, t.Literal, want)
			}
		}
	}
	for n := r.Range(1, 15); n > 0; n-- {
		switch r.N(5) {
		case 0:
			scan()
		case 1: // a builtin spelling
			o := opList[r.N(len(opList))]
			sp := tableKinds()[opTable[o]]
			sp = r.Pick(sp, `"<<"`, "'+'", "IDENT", "EOF")
			if got := s.Ltot(sp); got != builtin[sp] {
				c.Failf("Ltot(%s) = %d, want %d", sp, got, builtin[sp])
			}
		case 2: // no keyword
			sp := r.Pick("'if'", "ident", "`if`", "if", "", "'", `"`)
			hist = append(hist, "ltot "+sp)
			c.Input("%s", strings.Join(hist, "; "))
			if got := s.Ltot(sp); sp != `"` && got != tpl.ILLEGAL {
				c.Failf("Ltot(%q) = %d, want ILLEGAL", sp, got)
			} else if sp == `"` && got != tpl.ILLEGAL {
				c.Failf("Ltot(%q) = %d, want ILLEGAL", sp, got)
			}
		default:
			w := kwPool[r.N(len(kwPool))]
			sp := `"` + w + `"`
			hist = append(hist, "ltot "+sp)
			c.Input("%s", strings.Join(hist, "; "))
			got := s.Ltot(sp)
			c.Ev("registrations", 1)
			if k, ok := builtin[sp]; ok {
				if got != k {
					c.Failf("Ltot(%s) = %d, want %d", sp, got, k)
				}
				continue
			}
			if k, ok := model[w]; ok && k != got {
				c.Failf("Ltot(%s) = %d, was %d before", sp, got, k)
			}
			if got < tpl.USER_TOKEN_BEGIN {
				c.Failf("Ltot(%s) = %d is not a user token", sp, got)
			}
			if o, ok := byKind[got]; ok && o != w {
				c.Failf("%q and %q are both kind %d", o, w, got)
			}
			model[w], byKind[got] = got, w
		}
		for k, w := range byKind { // no order needed
			if l := s.Ttol(k); l != `"`+w+`"` {
				c.Failf("Ttol(%d) = %s, want %q", k, l, w)
			}
			if got := s.Ltot(`"` + w + `"`); got != k {
				c.Failf("Ltot(%q) = %d, want %d", w, got, k)
			}
			if tpl.TokenLen(k) != 0 {
				c.Failf("TokenLen(%d) = %d of a keyword", k, tpl.TokenLen(k))
			}
		}
	}
	scan()
	c.Seen(strings.Join(hist, ";"))
}
