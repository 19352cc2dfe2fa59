package main

// The scan mode given to a compiler, an interpreter, an extractor or an interpreter written in
// qlang is the one its texts are scanned in.

import (
	"fmt"
	"strings"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/extractor"
	ip "github.com/qiniu/text/tpl/interpreter"
	"github.com/qiniu/text/tpl/qlang"
	qi "github.com/qiniu/text/tpl/qlang/cl/interpreter"
)

const modesGrammar = "doc = *(IDENT/tok_Text | INT/tok_Text | '='/tok_Text | ';'/tok_Text | COMMENT/tok_Text)"

// checkModes gives a case with a text of one to four evaluations of one engine.
func checkModes(kind string) func(c *Case) {
	return func(c *Case) {
		r := c.R
		mode := scanModes[r.N(len(scanModes))]
		own := r.P(25)
		var scanner tpl.Tokener
		var scan *ownScanner
		if own {
			scan = newOwnScanner()
			scanner = scan
		}
		var got []string
		var eval func(text string) error
		gram := modesGrammar
		if kind == "extractor" {
			gram = strings.Replace(gram, "tok_Text", "tok_Texts", -1)
		} else {
			gram = strings.Replace(gram, "_Text", "", -1)
		}
		switch kind {
		case "compiler":
			comp := &tpl.Compiler{Grammar: []byte(gram), Scanner: scanner, ScanMode: mode, Marker: func(g tpl.Grammar, mark string) tpl.Grammar {
				return tpl.Action(g, func(toks []tpl.Token, g tpl.Grammar) { got = append(got, toks[0].Literal) })
			}}
			m, err := comp.Cl()
			noErr(c, err)
			eval = m.Eval
		case "interpreter":
			p := newBipt(gram)
			p.table["$tok"] = func(p *bipt, lit string) { got = append(got, lit) }
			e, err := ip.New(p, &ip.Options{Scanner: scanner, ScanMode: mode})
			noErr(c, err)
			eval = e.Eval
		case "extractor":
			e, err := extractor.New(gram, &extractor.Options{Scanner: scanner, ScanMode: mode, GetValue: func(typ, lit string) interface{} {
				if typ != "Text" {
					c.Failf("GetValue of %q", typ)
				}
				return lit
			}})
			noErr(c, err)
			eval = func(text string) error {
				doc, err := e.SafeExtract(text)
				if err == nil {
					switch l := doc["tok"].(type) {
					case nil:
					case []interface{}:
						for _, v := range l {
							got = append(got, v.(string))
						}
					case []string:
						got = append(got, l...)
					default:
						c.Failf("the document has %T", l)
					}
				}
				return err
			}
		case "hosted":
			lang, err := qlang.New(qlang.InsertSemis)
			noErr(c, err)
			lang.SetVar("gtext", gram)
			lang.SetVar("opt", &qi.Options{Scanner: scanner, ScanMode: mode})
			lang.SetVar("add", func(lit string) { got = append(got, lit) })
			noErr(c, lang.SafeEval(`
S = class {
fn push(v) { }
fn popArgs(n) { return slice("var") }
}
I = class {
fn grammar() { return gtext }
fn stack() { return new S }
fn fntable() { return {"$tok": I.tok} }
fn tok(lit) { add(lit) }
}
eng, err = ip39.interpreter(new I, opt)
`))
			if e, _ := lang.Var("err"); e != nil {
				c.Failf("interpreter(): %v", e)
			}
			v, _ := lang.Var("eng")
			eval = v.(*qi.Engine).Eval
		}
		in := ""
		for n := r.Range(1, 4); n > 0; n-- {
			var b strings.Builder
			for i := r.N(12); i > 0; i-- {
				b.WriteString(r.Pick("a", "7 ", "b ", "= ", ";", "\n", "\n\n", " ", "// c\n", "# d\n", "/* e */", "/* f\n */", "//\n", "\r\n"))
			}
			text := b.String()
			m := &tpl.Matcher{ScanMode: mode}
			toks, err := m.Tokenize([]byte(text), "")
			if err != nil {
				continue // "//" before something else is well-formed, "/*" isn't
			}
			in += fmt.Sprintf("text %q\n", text)
			c.Input("%s in mode %s, own scanner %v\n%s", kind, modeName(mode), own, in)
			var want []string
			for _, t := range toks {
				if t.Kind == tpl.COMMENT {
					c.Ev("comments matched", 1)
				}
				if t.Literal == "\n" {
					c.Ev("inserted semicolons matched", 1)
				}
				want = append(want, t.Literal)
			}
			before := 0
			if own {
				before = scan.scans
			}
			got = nil
			noErr(c, eval(text))
			sameLog(c, "tokens", got, want)
			if own && scan.scans == before {
				c.Failf("the scanner given isn't used")
			}
			c.Seen(text)
		}
	}
}
