// Programs of qlang: their syntax trees and how they are written down.
package main

import (
	"strings"
)

type qx interface{} // expression

type (
	xLit struct {
		src string
		v   interface{}
	}
	xVar struct{ name string }
	xBin struct {
		op   string
		a, b qx
	}
	xUn struct {
		op string
		a  qx
	}
	xCall struct {
		f      qx
		args   []qx
		spread bool
	}
	xMem struct {
		o    qx
		name string
	}
	xIdx  struct{ o, i qx }
	xSub  struct{ o, i, j qx } // i, j may be nil
	xList struct{ el []qx }
	xMap  struct{ kv []qx }
	xFn   struct {
		params   []string
		variadic bool
		body     *qblock
	}
	xIf struct {
		conds  []qx
		bodies []*qblock
		els    *qblock // nil: none
	}
	xSwitch struct {
		x      qx // nil: none
		cases  []qx
		bodies []*qblock
		def    *qblock
	}
	xFor struct {
		init, cond, step *qstmt
		body             *qblock
	}
	xNew struct {
		cls            string
		paren, hasArgs bool
		args           []qx
	}
	xClass struct {
		names []string
		fns   []*xFn
	}
	xRecov struct{}
	xMain  struct{ body *qblock }
	xRaw   struct{ src string } // text that is not qlang
)

type qstmt struct {
	kind   string // "", "=", "++", "--", "+=" …, "m=", "return", "defer"
	name   string
	names  []string
	e      qx // return: may be nil
	lo, hi int
	file   string
	snip   int      // number of the text it stands in
	inner  [][2]int // lines that blocks in it have of their own
}

// qblock is a sequence of statements; with trail, a semicolon follows the last one.
type qblock struct {
	st    []*qstmt
	trail bool
}

func qprec(op string) int {
	switch op {
	case "||":
		return 1
	case "&&":
		return 2
	case "<", ">", "<=", ">=", "==", "!=":
		return 3
	case "+", "-":
		return 4
	}
	return 5
}

// qpr writes programs.
type qpr struct {
	b     strings.Builder
	r     *Rand
	semis bool // newlines end statements
	line  int
	file  string
	snip  int
	plain bool // no comments, no extra parentheses
	cur   *qstmt
}

func (p *qpr) s(t string) {
	p.b.WriteString(t)
	p.line += strings.Count(t, "\n")
}

// gap writes white space where a newline may stand.
func (p *qpr) gap() {
	if p.plain {
		return
	}
	switch p.r.N(30) {
	case 0:
		p.s("\n")
	case 1:
		p.s(p.r.Pick("// c\n", "# c\n", "/* c */", "/* ; */ ", "// }\n", "\t", "\r\n", "/* \n */", "// \"\n"))
	case 2:
		p.s(" ")
	}
}

// free writes white space between tokens where a newline would end the statement.
func (p *qpr) free() {
	if !p.semis {
		p.gap()
		return
	}
	if !p.plain && p.r.P(3) {
		p.s(p.r.Pick(" ", "\t", "/* c */", " /**/ "))
	}
}

func (p *qpr) paren(e qx, min int) {
	q := 6
	switch x := e.(type) {
	case *xBin:
		q = qprec(x.op)
	}
	if q < min || !p.plain && p.r.P(4) {
		p.s("(")
		p.gap()
		p.expr(e, 0)
		p.free()
		p.s(")")
		return
	}
	p.expr(e, min)
}

func wordByte(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}

// list writes arguments or elements.
func (p *qpr) list(el []qx, spread bool) {
	for i, e := range el {
		if i > 0 {
			p.s(",")
			p.s(" ")
			p.gap()
		}
		p.paren(e, 1)
	}
	if spread {
		if t := p.b.String(); t[len(t)-1] != ')' && t[len(t)-1] != ']' {
			p.s(" ") // 0... is the number 0. and ..
		}
		p.s("...")
	}
	if len(el) > 0 && !p.plain && p.r.P(5) {
		p.s(",")
		p.gap()
	}
}

// primary writes an expression that atoms may follow.
func (p *qpr) primary(e qx) {
	switch e.(type) {
	case *xVar, *xCall, *xMem, *xIdx, *xSub, *xFn, *xList:
		p.expr(e, 6)
	default:
		p.s("(")
		p.expr(e, 0)
		p.s(")")
	}
}

func leftmost(e qx) qx {
	for {
		switch x := e.(type) {
		case *xBin:
			e = x.a
		case *xCall:
			e = x.f
		case *xMem:
			e = x.o
		case *xIdx:
			e = x.o
		case *xSub:
			e = x.o
		default:
			return e
		}
	}
}

func (p *qpr) expr(e qx, min int) {
	switch x := e.(type) {
	case *xLit:
		p.s(x.src)
	case *xRaw:
		p.s(x.src)
	case *xVar:
		p.s(x.name)
	case *xBin:
		q := qprec(x.op)
		p.paren(x.a, q)
		t := p.b.String()
		last := t[len(t)-1]
		if !p.plain && p.r.P(25) && (wordByte(last) && (last < '0' || last > '9') || last == ')') {
			if l, ok := x.b.(*xVar); ok {
				p.s(x.op + l.name)
				return
			}
		}
		p.s(" " + x.op + " ")
		p.gap()
		p.paren(x.b, q+1)
	case *xUn:
		p.s(x.op)
		if _, ok := x.a.(*xUn); ok || !p.plain && p.r.P(10) {
			p.s(" ")
		} else if l, ok := x.a.(*xLit); ok && (l.src[0] == '-' || l.src[0] == '+') {
			p.s(" ")
		}
		p.paren(x.a, 6)
	case *xCall:
		p.primary(x.f)
		p.s("(")
		p.gap()
		p.list(x.args, x.spread)
		p.s(")")
	case *xMem:
		p.primary(x.o)
		p.s(".")
		p.s(x.name)
	case *xIdx:
		p.primary(x.o)
		p.s("[")
		p.paren(x.i, 1)
		p.s("]")
	case *xSub:
		p.primary(x.o)
		p.s("[")
		if x.i != nil {
			p.paren(x.i, 1)
		}
		p.s(":")
		if x.j != nil {
			p.paren(x.j, 1)
		}
		p.s("]")
	case *xList:
		p.s("[")
		p.list(x.el, false)
		p.s("]")
	case *xMap:
		p.s("{")
		p.gap()
		for i := 0; i < len(x.kv); i += 2 {
			if i > 0 {
				p.s(", ")
				p.gap()
			}
			p.paren(x.kv[i], 1)
			p.s(": ")
			p.paren(x.kv[i+1], 1)
		}
		if len(x.kv) > 0 && !p.plain && p.r.P(8) {
			p.s(",")
			p.gap()
		}
		p.s("}")
	case *xFn:
		p.s("fn")
		p.fnbody(x)
	case *xIf:
		for i, c := range x.conds {
			if i == 0 {
				p.s("if ")
			} else {
				p.s(" elif ")
			}
			p.paren(c, 1)
			p.s(" ")
			p.block(x.bodies[i])
		}
		if x.els != nil {
			p.s(" else ")
			p.block(x.els)
		}
	case *xSwitch:
		p.s("switch ")
		if x.x != nil {
			p.head(x.x)
			p.s(" ")
		}
		p.s("{")
		p.gap()
		nl := func(i int) {
			if i > 0 && p.semis && len(x.bodies[i-1].st) > 0 && !x.bodies[i-1].trail {
				p.s(" ") // a newline would be a semicolon of the body
			} else {
				p.s("\n")
			}
		}
		for i, c := range x.cases {
			nl(i)
			p.s("case ")
			p.paren(c, 1)
			p.s(":")
			p.body(x.bodies[i], " ")
		}
		if x.def != nil {
			nl(len(x.cases))
			p.s("default:")
			p.body(x.def, " ")
		}
		p.s(" }")
	case *xFor:
		p.s("for ")
		if x.init != nil {
			p.stmt(x.init)
			p.s("; ")
			p.stmt(x.cond)
			p.s("; ")
			p.stmt(x.step)
			p.s(" ")
		} else if x.cond != nil {
			saved := p.cur
			p.cur = x.cond
			x.cond.lo, x.cond.file, x.cond.snip, x.cond.inner = p.line, p.file, p.snip, nil
			p.head(x.cond.e)
			x.cond.hi = p.line
			p.cur = saved
			p.s(" ")
		}
		p.block(x.body)
	case *xNew:
		p.s("new ")
		if x.paren {
			p.s("(" + x.cls + ")")
		} else {
			p.s(x.cls)
		}
		if x.hasArgs {
			p.s("(")
			for i, e := range x.args {
				if i > 0 {
					p.s(", ")
				}
				p.paren(e, 1)
			}
			p.s(")")
		}
	case *xClass:
		p.s("class {")
		for i, f := range x.fns {
			p.s("\n")
			p.s("fn " + x.names[i])
			p.fnbody(f)
			if !p.semis && p.r.P(50) {
				p.s(";")
			}
		}
		if len(x.fns) > 0 || p.r.P(50) {
			p.s("\n")
		}
		p.s("}")
	case *xRecov:
		p.s("recover()")
	case *xMain:
		p.s("main ")
		p.block(x.body)
	default:
		panic("qpr.expr")
	}
}

func (p *qpr) head(e qx) {
	if _, ok := leftmost(e).(*xMap); ok {
		p.s("(")
		p.expr(e, 0)
		p.s(")")
		return
	}
	p.paren(e, 1)
}

func (p *qpr) fnbody(x *xFn) {
	p.s("(" + strings.Join(x.params, ", "))
	if x.variadic {
		p.s("...")
	}
	p.s(") ")
	p.block(x.body)
}

func (p *qpr) block(b *qblock) {
	p.s("{")
	p.body(b, "")
	p.s("}")
}

// body writes the statements of a block.
func (p *qpr) body(b *qblock, glue string) {
	first := p.line + 1
	defer func() {
		if p.cur != nil && first < p.line {
			p.cur.inner = append(p.cur.inner, [2]int{first, p.line - 1})
		}
	}()
	if len(b.st) == 0 {
		p.s(glue)
		if p.r.P(30) {
			p.s("\n")
		}
		return
	}
	long := len(b.st) > 1 || p.r.P(40)
	if long {
		p.s("\n")
	} else {
		p.s(" ")
	}
	for i, s := range b.st {
		p.stmt(s)
		if i == len(b.st)-1 && !b.trail {
			if !p.semis && long {
				p.s("\n")
			} else {
				p.s(" ")
			}
			break
		}
		p.sep(long)
	}
}

// sep ends a statement.
func (p *qpr) sep(long bool) {
	if p.semis {
		if long && !p.r.P(15) {
			if !p.plain && p.r.P(5) {
				p.s(p.r.Pick(" // c", " # c ;", ";", " /* c */", ";;"))
			}
			p.s("\n")
			if !p.plain && p.r.P(5) {
				p.s(p.r.Pick("\n", "// x\n", "# {\n", "\t\n", "/* \n */\n", "/*x*/"))
			}
			return
		}
		p.s("; ")
		return
	}
	p.s(";")
	if long {
		p.s("\n")
	} else {
		p.s(" ")
	}
	if !p.plain && p.r.P(4) {
		p.s(p.r.Pick(";", "\n", "// x\n"))
	}
}

func (p *qpr) stmt(s *qstmt) {
	s.lo, s.file, s.snip, s.inner = p.line, p.file, p.snip, nil
	saved := p.cur
	p.cur = s
	defer func() { p.cur = saved }()
	switch s.kind {
	case "":
		p.expr(s.e, 0)
	case "=":
		p.s(s.name + " = ")
		p.gap()
		p.expr(s.e, 0)
	case "m=":
		p.s(strings.Join(s.names, ", ") + " = ")
		p.gap()
		p.expr(s.e, 0)
	case "++", "--":
		p.s(s.name + s.kind)
	case "return":
		p.s("return")
		if s.e != nil {
			p.s(" ")
			p.expr(s.e, 0)
		}
	case "defer":
		p.s("defer ")
		p.expr(s.e, 0)
	default: // op=
		p.s(s.name + " " + s.kind + " ")
		p.gap()
		p.expr(s.e, 0)
	}
	s.hi = p.line
}

// print writes a program.
func (p *qpr) program(b *qblock) string {
	p.line = 1
	if !p.plain && p.r.P(10) {
		p.s(p.r.Pick("// c\n", "#!/usr/bin/qlang\n", "\n", "\n\n", "/* c */ ", " "))
	}
	for i, s := range b.st {
		p.stmt(s)
		if i == len(b.st)-1 && !b.trail {
			break
		}
		p.sep(true)
	}
	return p.b.String()
}

func (p *qpr) String() string { return p.b.String() }
