package main

// C47: a scanner may be used again. One scanner goes through a history of texts, files, modes and
// handlers, some scanned to the end and beyond, some abandoned; each scan must come out as that of
// a new scanner on a file of its own.

import (
	"fmt"
	"go/token"
	"strings"

	"github.com/qiniu/text/tpl"
)

// scanPart is what a scan of at most n tokens yields.
type scanPart struct {
	toks []rtok
	errs []scanErr
	pos  []token.Position
	n    int // ErrorCount
}

func scanSome(s tpl.Tokener, count func() int, file *token.File, src []byte, mode tpl.ScanMode, handler bool, n int) (p scanPart) {
	var h tpl.ScanErrorHandler
	done := false
	if handler {
		h = func(pos token.Position, msg string) {
			if done {
				panic(caseFailure{"an error of a later scan is reported to the handler of an earlier one: " + msg})
			}
			p.errs = append(p.errs, scanErr{pos, msg})
		}
	}
	s.Init(file, src, h, mode)
	for ; n > 0; n-- {
		t := s.Scan()
		p.toks = append(p.toks, rtok{int(t.Pos) - file.Base(), int(t.End()) - file.Base(), t.Kind, t.Literal})
		p.pos = append(p.pos, file.Position(t.Pos))
	}
	p.n = count()
	done = true
	return
}

func (p *scanPart) String() string {
	return fmt.Sprintf("%s\n  positions %v\n  errors %v, ErrorCount %d", tokStr(p.toks), p.pos, p.errs, p.n)
}

// reuseScanner: histories of one scanner.
func reuseScanner(c *Case) {
	r := c.R
	auto := r.P(50)
	make1 := func() (tpl.Tokener, func() int) {
		if auto {
			s := new(tpl.AutoKwScanner)
			s.Ltot(`"if"`)
			s.Ltot(`"x"`)
			return s, func() int { return s.ErrorCount }
		}
		s := new(tpl.Scanner)
		return s, func() int { return s.ErrorCount }
	}
	used, count := make1()
	fset := token.NewFileSet()
	type aFile struct {
		src  []byte
		name string
		f    *token.File
		own  *token.File // scanned by new scanners only, in the same way
	}
	var files []aFile
	var hist []string
	ownSet := token.NewFileSet()
	for k := r.Range(2, 7); k > 0; k-- {
		var a aFile
		again := len(files) > 0 && r.P(40)
		if again {
			a = files[r.N(len(files))]
		} else {
			switch r.N(4) {
			case 0:
				a.src = lineText(c)
			case 1:
				a.src = []byte(lexText(r, r.N(12), true))
			case 2:
				a.src = []byte(r.Pick("", "\ufeff", "\ufeffa b", "a", "x++", "\x00", "\"", "/*", "a\n", "\xff", "// c", "if x", "\r\n", "1\n\n\n2"))
			default:
				a.src = []byte(lexText(r, r.N(12), false))
			}
			a.name = r.Pick("", "f.go", "/d/e.go", "sub/g.go")
			a.f = fset.AddFile(a.name, -1, len(a.src))
			a.own = ownSet.AddFile(a.name, -1, len(a.src))
			files = append(files, a)
		}
		mode := scanModes[r.N(len(scanModes))]
		handler := r.P(70)
		whole := refLex(a.src).tokens(mode)
		n := len(whole) + r.N(4)
		if r.P(40) {
			n = r.N(n + 1)
			c.Ev("scans abandoned", 1)
		}
		hist = append(hist, fmt.Sprintf("file %d %q, text %q, mode %s, handler %v, %d tokens", a.f.Base(), a.name, a.src, modeName(mode), handler, n))
		c.Input("AutoKwScanner %v\n%s", auto, strings.Join(hist, "\n"))
		got := scanSome(used, count, a.f, a.src, mode, handler, n)
		fresh, cnt := make1()
		want := scanSome(fresh, cnt, a.own, a.src, mode, handler, n)
		if g, w := got.String(), want.String(); g != w {
			c.Failf("the used scanner: %s\na new one: %s", g, w)
		}
		if again { // a file of its own says the same at last
			whole := token.NewFileSet().AddFile(a.name, -1, len(a.src))
			fresh, cnt := make1()
			first := scanSome(fresh, cnt, whole, a.src, mode, handler, n)
			if g, w := got.String(), first.String(); g != w {
				c.Failf("the file scanned again: %s\nfor the first time: %s", g, w)
			}
			c.Ev("files scanned again", 1)
		}
		if !handler {
			fresh, cnt := make1()
			with := scanSome(fresh, cnt, token.NewFileSet().AddFile(a.name, -1, len(a.src)), a.src, mode, true, n)
			if len(with.errs) != got.n || tokStr(with.toks) != tokStr(got.toks) {
				c.Failf("without a handler: %s\nwith one: %s", got.String(), with.String())
			}
			c.Ev("errors without a handler", got.n)
		}
		if got.n > 0 {
			c.Ev("ill-formed texts", 1)
		}
		c.Ev("scans compared", 1)
	}
	if r.P(20) {
		src := []byte("a b")
		d := r.Pick2(-3, -1, 1, 50)
		f := fset.AddFile("", -1, len(src)+d)
		c.Input("file of size %d, text of size %d", len(src)+d, len(src))
		if !panics(func() { used.Init(f, src, nil, 0) }) {
			c.Failf("Init accepts a file of another size")
		}
		c.Ev("sizes refused", 1)
	}
	c.Seen(strings.Join(hist, "|"))
}

func panics(f func()) (yes bool) {
	defer func() { yes = recover() != nil }()
	f()
	return
}

func init() {
	register(&Prop{ID: "C47",
		Rule:    "histories of one scanner (Scanner or AutoKwScanner): texts well-formed and not, in all modes, with and without an error handler, scanned to the end, beyond it or abandoned, on new files and on files scanned before; tokens, positions, reported errors and ErrorCount are compared with those of a new scanner on files of its own; a case is distinct by its history",
		MustSee: []string{"scans compared", "scans abandoned", "files scanned again", "errors without a handler", "ill-formed texts", "sizes refused"},
		Parts: []*Part{
			{Name: "histories", Quick: 60000, Thorough: 2000000, Run: reuseScanner},
		}})
}
