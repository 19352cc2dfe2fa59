package main

// An independent reference of the lexical grammar: it works on the decoded text as a whole and
// inserts semicolons in a second pass, unlike the scanner, which works with one rune of lookahead.

import (
	"bytes"
	"go/token"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/qiniu/text/tpl"
)

// opTable is the operator vocabulary: spelling -> kind. Longest spelling wins.
var opTable = map[string]uint{
	"+": tpl.ADD, "-": tpl.SUB, "*": tpl.MUL, "/": tpl.QUO, "%": tpl.REM,
	"&": tpl.AND, "|": tpl.OR, "^": tpl.XOR, "<<": tpl.SHL, ">>": tpl.SHR, "&^": tpl.AND_NOT,
	"+=": tpl.ADD_ASSIGN, "-=": tpl.SUB_ASSIGN, "*=": tpl.MUL_ASSIGN, "/=": tpl.QUO_ASSIGN, "%=": tpl.REM_ASSIGN,
	"&=": tpl.AND_ASSIGN, "|=": tpl.OR_ASSIGN, "^=": tpl.XOR_ASSIGN, "<<=": tpl.SHL_ASSIGN, ">>=": tpl.SHR_ASSIGN, "&^=": tpl.AND_NOT_ASSIGN,
	"&&": tpl.LAND, "||": tpl.LOR, "<-": tpl.ARROW, "++": tpl.INC, "--": tpl.DEC,
	"==": tpl.EQ, "<": tpl.LT, ">": tpl.GT, "=": tpl.ASSIGN, "!": tpl.NOT,
	"!=": tpl.NE, "<=": tpl.LE, ">=": tpl.GE, ":=": tpl.DEFINE, "...": tpl.ELLIPSIS,
	"(": tpl.LPAREN, "[": tpl.LBRACK, "{": tpl.LBRACE, ",": tpl.COMMA, ".": tpl.PERIOD,
	")": tpl.RPAREN, "]": tpl.RBRACK, "}": tpl.RBRACE, ":": tpl.COLON,
	"?": tpl.QUESTION, "~": tpl.TILDE, "@": tpl.AT,
}

var opSpell = map[uint]string{}
var opList []string

func init() {
	for s, k := range opTable {
		opSpell[k] = s
		opList = append(opList, s)
	}
	opSpell[';'] = ";"
	sort.Strings(opList)
}

var kindNames = map[uint]string{tpl.ILLEGAL: "ILLEGAL", tpl.EOF: "EOF", tpl.COMMENT: "COMMENT", tpl.IDENT: "IDENT",
	tpl.INT: "INT", tpl.FLOAT: "FLOAT", tpl.IMAG: "IMAG", tpl.CHAR: "CHAR", tpl.STRING: "STRING"}

func kindName(k uint) string {
	if s, ok := kindNames[k]; ok {
		return s
	}
	if s, ok := opSpell[k]; ok {
		return s
	}
	return "#" + strconv.Itoa(int(k))
}

// rtok is a token of the reference: offset, kind, literal.
type rtok struct {
	off, end int
	kind     uint
	lit      string
}

func (t rtok) String() string {
	return kindName(t.kind) + "@" + strconv.Itoa(t.off) + strconv.Quote(t.lit)
}

const badRune = -2

type reflex struct {
	src   []byte
	errs  map[int]bool // offsets of lexical errors
	items []rtok       // tokens, comments and line ends (kind newline) in text order
}

const kindNewline = ^uint(0)

func (r *reflex) at(o int) (rune, int) {
	if o >= len(r.src) {
		return -1, 0
	}
	if r.src[o] < 0x80 {
		return rune(r.src[o]), 1
	}
	return utf8.DecodeRune(r.src[o:])
}

func refLetter(c rune) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c > 0x7f && unicode.IsLetter(c)
}

func refDigit(c rune) bool { return c >= '0' && c <= '9' || c > 0x7f && unicode.IsDigit(c) }

func (r *reflex) span(o int, set string) int {
	for o < len(r.src) && strings.IndexByte(set, r.src[o]) >= 0 {
		o++
	}
	return o
}

const dec, oct, hex = "0123456789", "01234567", "0123456789abcdefABCDEF"

// number returns the end and the kind of the number at o.
func (r *reflex) number(o int) (int, uint) {
	s := r.src
	is := func(o int, set string) bool { return o < len(s) && strings.IndexByte(set, s[o]) >= 0 }
	if s[o] == '0' && is(o+1, "xX") {
		e := r.span(o+2, hex)
		if e == o+2 {
			r.errs[o] = true
		}
		return e, tpl.INT
	}
	kind := tpl.INT
	e := r.span(o, dec)
	octal := s[o] == '0' && e > o+1
	if is(e, ".") {
		kind = tpl.FLOAT
		e = r.span(e+1, dec)
	}
	if is(e, "eE") {
		kind = tpl.FLOAT
		e++
		if is(e, "+-") {
			e++
		}
		e = r.span(e, dec)
	}
	if is(e, "i") {
		kind = tpl.IMAG
		e++
	}
	if kind == tpl.INT && octal && strings.ContainsAny(string(s[o:e]), "89") {
		r.errs[o] = true
	}
	return e, kind
}

// escape checks the escape whose backslash is at o-1; it returns the end of what was recognized.
func (r *reflex) escape(o int, quote byte) (end int, ok bool) {
	if o < len(r.src) && (strings.IndexByte("abfnrtv\\", r.src[o]) >= 0 || r.src[o] == quote) {
		return o + 1, true
	}
	n, digits, base, max, p := 0, "", 0, uint64(0), o
	if o < len(r.src) {
		switch r.src[o] {
		case '0', '1', '2', '3', '4', '5', '6', '7':
			n, digits, base, max = 3, oct, 8, 255
		case 'x':
			n, digits, base, max, p = 2, hex, 16, 255, o+1
		case 'u':
			n, digits, base, max, p = 4, hex, 16, unicode.MaxRune, o+1
		case 'U':
			n, digits, base, max, p = 8, hex, 16, unicode.MaxRune, o+1
		}
	}
	if n == 0 {
		r.errs[o] = true
		return o, false
	}
	q := p
	for q < p+n && q < len(r.src) && strings.IndexByte(digits, r.src[q]) >= 0 {
		q++
	}
	if q < p+n {
		r.errs[q] = true
		return q, false
	}
	v, _ := strconv.ParseUint(string(r.src[p:q]), base, 64)
	if v > max || v >= 0xd800 && v <= 0xdfff {
		r.errs[o] = true
		return q, false
	}
	return q, true
}

func noCR(b []byte) string { return strings.ReplaceAll(string(b), "\r", "") }

func refLex(src []byte) *reflex {
	r := &reflex{src: src, errs: map[int]bool{}}
	// errors of the text as such
	start := 0
	for o := 0; o < len(src); {
		c, w := r.at(o)
		switch {
		case c == 0, c == utf8.RuneError && w == 1:
			r.errs[o] = true
		case c == 0xfeff && o == 0:
			start = w
		case c == 0xfeff:
			r.errs[o] = true
		}
		o += w
	}
	add := func(o, e int, k uint, lit string) int {
		r.items = append(r.items, rtok{o, e, k, lit})
		return e
	}
	text := func(o, e int) string { return string(src[o:e]) }
	for o := start; ; {
		c, w := r.at(o)
		next := byte(0)
		if o+1 < len(src) {
			next = src[o+1]
		}
		switch {
		case c == -1:
			add(o, o, tpl.EOF, "")
			return r
		case c == '\n':
			o = add(o, o+1, kindNewline, "")
		case c == ' ' || c == '\t' || c == '\r':
			o++
		case refLetter(c):
			e := o
			for {
				c, w := r.at(e)
				if !refLetter(c) && !refDigit(c) {
					break
				}
				e += w
			}
			o = add(o, e, tpl.IDENT, text(o, e))
		case c >= '0' && c <= '9', c == '.' && next >= '0' && next <= '9':
			e, k := 0, tpl.FLOAT
			if c == '.' {
				e = r.span(o+1, dec)
				if e < len(src) && (src[e] == 'e' || src[e] == 'E') {
					e++
					if e < len(src) && (src[e] == '+' || src[e] == '-') {
						e++
					}
					e = r.span(e, dec)
				}
				if e < len(src) && src[e] == 'i' {
					e++
					k = tpl.IMAG
				}
			} else {
				e, k = r.number(o)
			}
			o = add(o, e, k, text(o, e))
		case c == '"':
			e := o + 1
			for {
				c, w := r.at(e)
				if c == -1 || c == '\n' {
					r.errs[o] = true
					break
				}
				e += w
				if c == '"' {
					break
				}
				if c == '\\' {
					e, _ = r.escape(e, '"')
				}
			}
			o = add(o, e, tpl.STRING, text(o, e))
		case c == '\'':
			e, n, ok := o+1, 0, true
			for {
				c, w := r.at(e)
				if c == -1 || c == '\n' {
					if ok {
						r.errs[o] = true
					}
					ok = false
					break
				}
				e += w
				if c == '\'' {
					break
				}
				n++
				if c == '\\' {
					good := false
					if e, good = r.escape(e, '\''); !good {
						ok = false
					}
				}
			}
			if ok && n != 1 {
				r.errs[o] = true
			}
			o = add(o, e, tpl.CHAR, text(o, e))
		case c == '`':
			e := len(src)
			if i := bytes.IndexByte(src[o+1:], '`'); i >= 0 {
				e = o + 1 + i + 1
			} else {
				r.errs[o] = true
			}
			o = add(o, e, tpl.STRING, noCR(src[o:e]))
		case c == '#' || c == '/' && next == '/':
			e := len(src)
			if i := bytes.IndexByte(src[o:], '\n'); i >= 0 {
				e = o + i
			}
			lit := text(o, e)
			if c == '/' {
				lit = noCR(src[o:e])
			}
			o = add(o, e, tpl.COMMENT, lit)
		case c == '/' && next == '*':
			e := len(src)
			if i := bytes.Index(src[o+2:], []byte("*/")); i >= 0 {
				e = o + 2 + i + 2
			} else {
				r.errs[o] = true
			}
			o = add(o, e, tpl.COMMENT, noCR(src[o:e]))
		case c == ';':
			o = add(o, o+1, tpl.SEMICOLON, ";")
		default:
			found := false
			for n := 3; n > 0; n-- {
				if o+n <= len(src) {
					if k, ok := opTable[text(o, o+n)]; ok {
						o = add(o, o+n, k, "")
						found = true
						break
					}
				}
			}
			if !found {
				r.errs[o] = true
				o = add(o, o+w, tpl.ILLEGAL, string(c))
			}
		}
	}
}

func armsSemi(k uint) bool {
	switch k {
	case tpl.IDENT, tpl.INT, tpl.FLOAT, tpl.IMAG, tpl.CHAR, tpl.STRING, ')', ']', '}', tpl.INC, tpl.DEC:
		return true
	}
	return false
}

// tokens returns the tokens of a scan mode.
func (r *reflex) tokens(mode tpl.ScanMode) (ts []rtok) {
	armed := false
	semi := func(o int) {
		ts = append(ts, rtok{o, o, tpl.SEMICOLON, "\n"})
		armed = false
	}
	semis := mode&tpl.InsertSemis != 0
	for i, t := range r.items {
		switch t.kind {
		case kindNewline:
			if armed {
				semi(t.off)
			}
		case tpl.EOF:
			if armed {
				semi(t.off)
			}
			ts = append(ts, t)
		case tpl.COMMENT:
			if armed && r.lineEnds(i) {
				semi(t.off)
			}
			armed = false
			if mode&tpl.ScanComments != 0 {
				ts = append(ts, t)
			}
		case tpl.ILLEGAL: // transparent
			ts = append(ts, t)
		default:
			ts = append(ts, t)
			armed = semis && armsSemi(t.kind)
		}
	}
	return
}

// lineEnds tells whether the line ends in or behind the comments starting at item i.
func (r *reflex) lineEnds(i int) bool {
	for ; ; i++ {
		t := r.items[i]
		switch t.kind {
		case kindNewline, tpl.EOF:
			return true
		case tpl.COMMENT:
			s := r.src[t.off:t.end]
			if s[0] == '#' || s[1] == '/' || bytes.IndexByte(s, '\n') >= 0 || r.errs[t.off] && r.items[i+1].kind == tpl.EOF {
				return true
			}
		default:
			return false
		}
	}
}

func (r *reflex) errList() (l []int) {
	for o := range r.errs {
		l = append(l, o)
	}
	sort.Ints(l)
	return
}

// lines models positions: the line of every offset, and the file name in force there.
type lineModel struct {
	starts []int // offsets of line starts
	dirs   []lineDir
	name   string
}

type lineDir struct {
	off, line int // from the line containing off on
	file      string
}

func (r *reflex) lineModel(name string) *lineModel {
	m := &lineModel{name: name, starts: []int{0}}
	for o, b := range r.src {
		if b == '\n' && o+1 < len(r.src) {
			m.starts = append(m.starts, o+1)
		}
	}
	for _, t := range r.items {
		if t.kind != tpl.COMMENT || (t.off != 0 && r.src[t.off-1] != '\n') {
			continue
		}
		s := string(r.src[t.off:t.end])
		if !strings.HasPrefix(s, "//line ") {
			continue
		}
		i := strings.LastIndex(s, ":")
		n, err := strconv.Atoi(s[i+1:])
		if i < 0 || err != nil || n <= 0 {
			continue
		}
		file := strings.TrimSpace(s[len("//line "):i])
		if file != "" {
			file = filepath.Clean(file)
			if !filepath.IsAbs(file) {
				dir, _ := filepath.Split(name)
				file = filepath.Join(dir, file)
			}
		}
		if t.end+1 < len(r.src) {
			m.dirs = append(m.dirs, lineDir{t.end + 1, n, file})
		}
	}
	return m
}

func (m *lineModel) physical(off int) (line, col int) {
	i := sort.Search(len(m.starts), func(i int) bool { return m.starts[i] > off }) - 1
	return i + 1, off - m.starts[i] + 1
}

func (m *lineModel) pos(off int) (file string, line int) {
	file = m.name
	line, _ = m.physical(off)
	if i := sort.Search(len(m.dirs), func(i int) bool { return m.dirs[i].off > off }); i > 0 {
		d := m.dirs[i-1]
		l0, _ := m.physical(d.off)
		file, line = d.file, d.line+line-l0
	}
	return
}

// scanErr is a report of the scanner.
type scanErr struct {
	pos token.Position
	msg string
}

// scanned is what the scanner under test did.
type scanned struct {
	toks  []rtok // end is Token.End
	errs  []scanErr
	count int
	file  *token.File
	base  int
	calls int
}

// runScan drives the scanner under test (limit calls).
func runScan(s tpl.Tokener, src []byte, name string, mode tpl.ScanMode, limit int, extra int, count func() int) (r scanned) {
	fset := token.NewFileSet()
	fset.AddFile("before", -1, 17) // so that positions and offsets differ
	r.file = fset.AddFile(name, -1, len(src))
	r.base = r.file.Base()
	s.Init(r.file, src, func(pos token.Position, msg string) { r.errs = append(r.errs, scanErr{pos, msg}) }, mode)
	for {
		t := s.Scan()
		r.calls++
		r.toks = append(r.toks, rtok{int(t.Pos) - r.base, int(t.End()) - r.base, t.Kind, t.Literal})
		if t.Kind == tpl.EOF {
			if extra == 0 {
				break
			}
			extra--
		}
		if r.calls > limit {
			break
		}
	}
	if count != nil {
		r.count = count()
	}
	return
}
