From b7a95d4fe3767b6276bce97b4e08f64dc020f0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 01/43] fix: TokenLen returns 0 for every kind that is not an
 operator

It indexed out of range for the first kind behind the table and returned -2
for the unused kinds inside it.
---
 tpl/token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/token.go b/tpl/token.go
index 6f09c1a..f145600 100644
--- a/tpl/token.go
+++ b/tpl/token.go
@@ -167,7 +167,7 @@ var tokens = [...]string{
 // 2) 0 for else.
 //
 func TokenLen(tok uint) int {
-	if tok > ' ' && tok <= uint(len(tokens)) {
+	if tok > ' ' && tok < uint(len(tokens)) && tokens[tok] != "" {
 		return len(tokens[tok]) - 2
 	}
 	return 0
-- 
2.43.0


From 901eb158ec85e2b4bac6b7d7d4565b21093af97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 02/43] fix: Token.End counted a semicolon twice

A semicolon token has a literal and is an operator kind.
---
 tpl/scanner.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tpl/scanner.go b/tpl/scanner.go
index 90bf6e8..5819af5 100644
--- a/tpl/scanner.go
+++ b/tpl/scanner.go
@@ -20,7 +20,10 @@ type Token struct {
 
 // End returns end position of this token.
 func (p *Token) End() token.Pos {
-	return p.Pos + token.Pos(len(p.Literal)+TokenLen(p.Kind))
+	if p.Literal != "" {
+		return p.Pos + token.Pos(len(p.Literal))
+	}
+	return p.Pos + token.Pos(TokenLen(p.Kind))
 }
 
 // An ScanErrorHandler may be provided to Scanner.Init. If a syntax error is
-- 
2.43.0


From f89fc6db58a11983795e79e3857de4268e6fba3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 03/43] fix: `..` is two periods, not a silent ILLEGAL token

---
 tpl/scanner.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/tpl/scanner.go b/tpl/scanner.go
index 5819af5..7c340fa 100644
--- a/tpl/scanner.go
+++ b/tpl/scanner.go
@@ -671,12 +671,10 @@ scanAgain:
 			if '0' <= s.ch && s.ch <= '9' {
 				insertSemi = true
 				t.Kind, t.Literal = s.scanNumber(true)
-			} else if s.ch == '.' {
+			} else if s.ch == '.' && s.rdOffset < len(s.src) && s.src[s.rdOffset] == '.' {
 				s.next()
-				if s.ch == '.' {
-					s.next()
-					t.Kind = ELLIPSIS
-				}
+				s.next()
+				t.Kind = ELLIPSIS
 			} else {
 				t.Kind = PERIOD
 			}
-- 
2.43.0


From eb18a7e7f247365123ab61224959ffcfe59d1545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 04/43] fix: a # comment behind a /* */ comment also ends the
 line

The automatic semicolon was lost in `x /* c */ # d`.
---
 tpl/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/scanner.go b/tpl/scanner.go
index 7c340fa..8171892 100644
--- a/tpl/scanner.go
+++ b/tpl/scanner.go
@@ -253,7 +253,7 @@ func (s *Scanner) findLineEnd() bool {
 			}
 		}
 		s.skipWhitespace() // s.insertSemi is set
-		if s.ch < 0 || s.ch == '\n' {
+		if s.ch < 0 || s.ch == '\n' || s.ch == '#' {
 			return true
 		}
 		if s.ch != '/' {
-- 
2.43.0


From ab6dce4445a52d18d3f14bbdd390cf96e3865a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 05/43] fix: errors at the end of the text can be rendered and
 have a line

MatchError.Error panicked when the rule behind ! failed at the end of the text,
and errors about an empty run of tokens were reported in line 0.
---
 tpl/grammar.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index cd5b591..9152e61 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -75,12 +75,11 @@ func Source(doc []Token, t Tokener) (text []byte) {
 
 // FileLine returns the file name and line number of tokens.
 func FileLine(doc []Token, t Tokener) (string, int) {
-	n := len(doc)
-	if n == 0 {
+	if cap(doc) == 0 {
 		return "", 0
 	}
 	f := t.Source().File
-	return f.Name(), f.Line(doc[0].Pos)
+	return f.Name(), f.Line(doc[:1][0].Pos) // no token: the one that follows, or EOF
 }
 
 // Code returns the marshal result of a grammar unit.
@@ -123,14 +122,17 @@ func (p *MatchError) Error() string {
 
 func calcErrorInfo(doc []Token, idxErr int, t Tokener) (line int, text []byte) {
 	n := len(doc)
-	if n == 0 {
+	if cap(doc) == 0 {
 		return
 	}
-	doc = doc[:n+1]
+	doc = doc[:n+1] // doc[n] is the token behind doc, or EOF
 	s := t.Source()
 	start := s.File.Offset(doc[0].Pos)
 	end := s.File.Offset(doc[n].Pos)
-	errpos := s.File.Offset(doc[idxErr+1].Pos)
+	errpos := end
+	if idxErr < n {
+		errpos = s.File.Offset(doc[idxErr+1].Pos)
+	}
 	all := s.Src[start:end]
 	text = nextLines(all, 9)
 	if len(text) < errpos-start {
-- 
2.43.0


From 3718fc5de0e89b7f7e6c85713bf2ba50627e29ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 06/43] fix: EOF in a grammar matches the end of the text

---
 tpl/compiler.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 5e2b0ab..4143f69 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -232,7 +232,11 @@ func (p *Compiler) Cl() (ret CompileRet, err error) {
 			if tok == ILLEGAL {
 				panic("illegal token: " + name)
 			}
-			g = Gr(tok)
+			if tok == EOF {
+				g = GrEOF
+			} else {
+				g = Gr(tok)
+			}
 		} else {
 			if g2, ok := grammars[name]; ok {
 				g = Named(name, g2)
-- 
2.43.0


From 24e9bfd9e1f031854fdef7317abb55906d8876f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 07/43] fix: doc may be used before its definition, and so be
 recursive

---
 tpl/compiler.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 4143f69..34a88b3 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -342,7 +342,13 @@ func (p *Compiler) Cl() (ret CompileRet, err error) {
 		return
 	}
 
-	if root, ok := grammars["doc"]; ok {
+	root, ok := grammars["doc"]
+	if !ok {
+		if v := vars["doc"]; v != nil && v.Elem != nil { // doc is used before it is defined
+			root, ok = v, true
+		}
+	}
+	if ok {
 		for name, v := range vars {
 			if v.Elem == nil {
 				err = fmt.Errorf("variable `%s` is not assigned", name)
-- 
2.43.0


From e4d67faa7f9a373313c55ddcf9a6ede87205307e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:08 +0000
Subject: [PATCH 08/43] fix: EvalSub knows the rules that are used before their
 definition

---
 tpl/compiler.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 34a88b3..2efd540 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -77,7 +77,11 @@ type CompileRet struct {
 func (p CompileRet) EvalSub(name string, src interface{}) error {
 	g, ok := p.Grammars[name]
 	if !ok {
-		return ErrNoGrammar
+		v := p.Vars[name]
+		if v == nil { // a rule used before its definition is in Vars
+			return ErrNoGrammar
+		}
+		g = v
 	}
 
 	var text []byte
-- 
2.43.0


From 0269b62a83cf1ec172b7bdbc4ecb8b95d8384b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 09/43] fix: EvalSub treats text and tokens alike

The Init callback was not run for a text, and the tokens left over were
reported at the start of the tokens.
---
 tpl/compiler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 2efd540..fa208ef 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -95,7 +95,7 @@ func (p CompileRet) EvalSub(name string, src interface{}) error {
 			return err
 		}
 		if len(doc) != matched {
-			return &MatchError{GrEOF, p.Matcher, doc, nil, 0}
+			return &MatchError{GrEOF, p.Matcher, doc[matched:], nil, 0}
 		}
 		return nil
 	case []byte:
@@ -110,6 +110,7 @@ func (p CompileRet) EvalSub(name string, src interface{}) error {
 		Grammar:  g,
 		Scanner:  p.Scanner,
 		ScanMode: p.ScanMode,
+		Init:     p.Init,
 	}
 	return m.MatchExactly(text, "")
 }
-- 
2.43.0


From a3df0150d064a72bd3868cf40ee1ef4d5a7d7f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 10/43] fix: Code of a list in a list and of +(+G)

The parentheses of a right operand were lost, and ++ is one token.
---
 tpl/grammar.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index 9152e61..be12d6b 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -457,7 +457,12 @@ func (p *grRepeat1) Match(src []Token, ctx Context) (n int, err error) {
 
 func (p *grRepeat1) Marshal(b []byte, t Tokener, lvlParent int) []byte {
 	b = append(b, '+')
-	return p.g.Marshal(b, t, lvlRepeat)
+	n := len(b)
+	b = p.g.Marshal(b, t, lvlRepeat)
+	if n < len(b) && b[n] == '+' { // `+ +G`, not `++G`
+		b = append(b[:n], append([]byte{' '}, b[n:]...)...)
+	}
+	return b
 }
 
 // Repeat1 represents +G
@@ -546,7 +551,7 @@ func (p *grList) Marshal(b []byte, t Tokener, lvlParent int) []byte {
 		b = append(b, '=')
 	}
 	b = append(b, ' ')
-	b = p.b.Marshal(b, t, lvlList)
+	b = p.b.Marshal(b, t, lvlRepeat) // % and %= are left associative
 	if lvlParent > lvlList {
 		b = append(b, ')')
 	}
-- 
2.43.0


From b5aeb70aa34b1275a4c79bf85b0197421829d9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 11/43] fix: an array keeps the items on both sides of a mark
 with another tag

---
 tpl/extractor/document.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tpl/extractor/document.go b/tpl/extractor/document.go
index e063485..c1299c4 100644
--- a/tpl/extractor/document.go
+++ b/tpl/extractor/document.go
@@ -75,6 +75,9 @@ func (p *Node) toMap() map[string]interface{} {
 				items[i] = hd.val.(*Node).toMap()
 				hd = hd.tail
 			}
+			if later, ok := data[tag].([]map[string]interface{}); ok {
+				items = append(items, later...)
+			}
 			v = items
 		case cateLeafArray:
 			n := arrayCollect(hd)
@@ -83,6 +86,9 @@ func (p *Node) toMap() map[string]interface{} {
 				items[i] = hd.val
 				hd = hd.tail
 			}
+			if later, ok := data[tag].([]interface{}); ok {
+				items = append(items, later...)
+			}
 			v = items
 		default:
 			panic("unknown node category")
-- 
2.43.0


From 048c1f54a0f40e56ec4bc346016e4877ffb6a0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 12/43] fix: ParseFloat took an octal integer that doesn't fit
 for a decimal one

---
 tpl/interpreter/interpreter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tpl/interpreter/interpreter.go b/tpl/interpreter/interpreter.go
index 0a4ed46..af13b46 100644
--- a/tpl/interpreter/interpreter.go
+++ b/tpl/interpreter/interpreter.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"reflect"
 	"strconv"
+	"strings"
 
 	"github.com/qiniu/text/tpl"
 	"github.com/qiniu/text/tpl/interpreter.util"
@@ -50,8 +51,8 @@ func ParseFloat(lit string) (v float64, err error) {
 			return float64(v1), err1
 		default:
 			v1, err1 := strconv.ParseInt(lit[1:], 8, 64)
-			if err1 == nil {
-				return float64(v1), nil
+			if err1 == nil || !strings.ContainsAny(lit, ".eE") {
+				return float64(v1), err1
 			}
 		}
 	}
-- 
2.43.0


From 7647abfcb2a8e38ccd91cb43845fb1a5abc7eace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 13/43] fix: an invalid imaginary literal is an error, not 0i
 or Inf

---
 tpl/cmplx/cmplx.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tpl/cmplx/cmplx.go b/tpl/cmplx/cmplx.go
index 8951db0..350ae51 100644
--- a/tpl/cmplx/cmplx.go
+++ b/tpl/cmplx/cmplx.go
@@ -113,7 +113,10 @@ func (stk *Stack) PushReal(v float64) {
 
 func (stk *Stack) PushImag(v string) {
 
-	val, _ := strconv.ParseFloat(v[:len(v)-1], 64)
+	val, err := strconv.ParseFloat(v[:len(v)-1], 64)
+	if err != nil {
+		panic("invalid imaginary literal `" + v + "`: " + err.Error())
+	}
 	*stk = append(*stk, complex(0, val))
 }
 
-- 
2.43.0


From 0f64c2f19af26ae88f7afc23b581953d29757775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:52 +0000
Subject: [PATCH 14/43] fix: an error in a qlang block left the stack base of
 the block behind

Later evaluations on the engine then cleared the stack only down to that base.
---
 tpl/qlang/cl/ctrl.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tpl/qlang/cl/ctrl.go b/tpl/qlang/cl/ctrl.go
index bc39e31..03333b0 100644
--- a/tpl/qlang/cl/ctrl.go
+++ b/tpl/qlang/cl/ctrl.go
@@ -187,9 +187,10 @@ func evalCode(e interpreter.Engine, p *Interpreter, name string, code interface{
 
 	old := p.base
 	p.base = p.stk.BaseFrame()
-	err := e.EvalCode(p, name, code)
-	p.base = old
-	if err != nil {
+	defer func() { // also if the code panics
+		p.base = old
+	}()
+	if err := e.EvalCode(p, name, code); err != nil {
 		panic(err)
 	}
 }
-- 
2.43.0


From 347b992ef9637d3c01956b15744b14508ee2b3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 15/43] fix: a failing deferred expression doesn't cancel the
 other ones

It escaped SafeExec as a Go panic, the deferred expressions before it were not
executed, and all of them were executed again by every later SafeExec. Deferred
expressions also left their values on the stack, on top of the result, and an
error once returned by SafeExec could be recovered by later code.
---
 tpl/qlang/cl/function.go | 26 ++++++++++++++++++++++----
 tpl/qlang/engine.go      |  1 +
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/tpl/qlang/cl/function.go b/tpl/qlang/cl/function.go
index e8066e9..14dca78 100644
--- a/tpl/qlang/cl/function.go
+++ b/tpl/qlang/cl/function.go
@@ -289,6 +289,9 @@ func (p *Interpreter) Return(e interpreter.Engine) {
 	}
 
 	p.ExecDefers(e)
+	if err := p.Recov; err != nil {
+		panic(err)
+	}
 
 	if p.ret == nil {
 		os.Exit(0)
@@ -301,12 +304,27 @@ func (p *Interpreter) Return(e interpreter.Engine) {
 
 func (p *Interpreter) ExecDefers(e interpreter.Engine) {
 
-	for d := p.defers; d != nil; d = d.next {
-		if err := e.EvalCode(p, "expr", d.src); err != nil {
-			panic(err)
+	for p.defers != nil {
+		d := p.defers
+		p.defers = d.next
+		p.execDefer(e, d)
+	}
+}
+
+// execDefer keeps a failure of the deferred expression in p.Recov, so that the remaining ones are
+// still executed (and may recover it).
+func (p *Interpreter) execDefer(e interpreter.Engine, d *Defer) {
+
+	base := p.stk.BaseFrame()
+	defer func() {
+		if err := recover(); err != nil && err != ErrReturn {
+			p.Recov = err
 		}
+		p.stk.SetFrame(base)
+	}()
+	if err := e.EvalCode(p, "expr", d.src); err != nil {
+		panic(err)
 	}
-	p.defers = nil
 }
 
 func (p *Interpreter) Defer() {
diff --git a/tpl/qlang/engine.go b/tpl/qlang/engine.go
index dfd43b5..427e6d2 100644
--- a/tpl/qlang/engine.go
+++ b/tpl/qlang/engine.go
@@ -43,6 +43,7 @@ func (p Qlang) SafeExec(code []byte, fname string) (err error) {
 		p.Recov = recover()
 		p.ExecDefers(p.Engine)
 		if e := p.Recov; e != nil {
+			p.Recov = nil
 			switch v := e.(type) {
 			case string:
 				err = errors.New(v)
-- 
2.43.0


From f99a50917055662416a1cb2fb47920b47de7b6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:54 +0000
Subject: [PATCH 16/43] fix: the operands of a failed qlang evaluation stayed
 on the stack

---
 tpl/qlang/engine.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tpl/qlang/engine.go b/tpl/qlang/engine.go
index 427e6d2..ffede53 100644
--- a/tpl/qlang/engine.go
+++ b/tpl/qlang/engine.go
@@ -53,6 +53,9 @@ func (p Qlang) SafeExec(code []byte, fname string) (err error) {
 				panic(e)
 			}
 		}
+		if err != nil {
+			p.Clear()
+		}
 	}()
 
 	err = p.MatchExactly(code, fname)
-- 
2.43.0


From a354a97ec7b28566c362b076da7198d2211e1c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 17/43] fix: errors of if and new are reported in the line of
 the statement

The marks were attached to the optional last part, which may be empty.
---
 tpl/qlang/cl/qlang.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpl/qlang/cl/qlang.go b/tpl/qlang/cl/qlang.go
index 60dd6a6..d4f790a 100644
--- a/tpl/qlang/cl/qlang.go
+++ b/tpl/qlang/cl/qlang.go
@@ -62,10 +62,10 @@ factor =
 	STRING/pushs |
 	CHAR/pushc |
 	(IDENT/ref | '('! expr ')' | "fn"! fnbody/fn | '[' expr %= ','/ARITY ?',' ']'/slice) *atom |
-	"if"/_mute! expr/_code ifbody *("elif" expr/_code ifbody)/_ARITY ?("else" ifbody)/_ARITY/_unmute/if |
+	("if"/_mute! expr/_code ifbody *("elif" expr/_code ifbody)/_ARITY ?("else" ifbody)/_ARITY/_unmute)/if |
 	"switch"/_mute! ?(~'{' expr)/_code '{' swbody '}'/_unmute/switch |
 	"for"/_mute! (~'{' s)/_code %= ';'/_ARITY '{' ?doc/_code '}'/_unmute/for |
-	"new"! clsname newargs /new |
+	("new"! clsname newargs)/new |
 	"class"! '{' *classb/ARITY '}'/class |
 	"recover" '(' ')'/recover |
 	"main" '{'/_mute ?doc/_code '}'/_unmute/main |
-- 
2.43.0


From aea15f59473195d67b7182898ee54c33c4ba1076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 18/43] fix: interpreters written in qlang convert octal and
 hexadecimal literals

as native ones do: 012 was 12 and 0x10 an error.
---
 tpl/qlang/cl/interpreter/interpret.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tpl/qlang/cl/interpreter/interpret.go b/tpl/qlang/cl/interpreter/interpret.go
index 496e034..acdb590 100644
--- a/tpl/qlang/cl/interpreter/interpret.go
+++ b/tpl/qlang/cl/interpreter/interpret.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"fmt"
 	"reflect"
-	"strconv"
 	"strings"
 
 	"github.com/qiniu/text/tpl"
@@ -272,17 +271,17 @@ func newEngine(ip1 interface{}, options *Options) (p *Engine) {
 						case "Engine":
 							args[1] = p
 						case "Float":
-							v, err := strconv.ParseFloat(tokens[0].Literal, 64)
+							v, err := interpreter.ParseFloat(tokens[0].Literal)
 							if err != nil {
 								panic(fmt.Sprintf("parse mark `%s` failed: %v", mark, err))
 							}
 							args[1] = v
 						case "Int":
-							v, err := strconv.Atoi(tokens[0].Literal)
+							v, err := interpreter.ParseInt(tokens[0].Literal)
 							if err != nil {
 								panic(fmt.Sprintf("parse mark `%s` failed: %v", mark, err))
 							}
-							args[1] = v
+							args[1] = int(v)
 						default:
 							args[1] = tokens[0].Literal
 						}
-- 
2.43.0


From 5349faa2b21d924caada54641da09c05b101c670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 19/43] fix: AutoKwScanner.Ltot works before Init, and for the
 empty literal

---
 tpl/compiler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index fa208ef..da28561 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -52,12 +52,15 @@ func (p *AutoKwScanner) Ltot(lit string) (tok uint) { // "keyword"
 	if tok = p.Scanner.Ltot(lit); tok != ILLEGAL {
 		return
 	}
-	if lit[0] == '"' {
+	if len(lit) >= 2 && lit[0] == '"' {
 		kw := lit[1 : len(lit)-1]
 		if tok, ok := p.keywords[kw]; ok {
 			return tok
 		}
 		tok = USER_TOKEN_BEGIN + uint(len(p.tokens))
+		if p.keywords == nil { // Init is not called yet
+			p.keywords = make(map[string]uint)
+		}
 		p.keywords[kw] = tok
 		p.tokens = append(p.tokens, lit)
 	}
-- 
2.43.0


From 6b8989f25fa4a0ff36b7566ebd7bb2c283f92e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 20/43] fix: tplgen emitted tpl.tpl.Repeat1

---
 tpl/generator/static_parser_gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index 1b8ab9f..3b8fd52 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -129,7 +129,7 @@ func GenStaticCode(source string) (string, error) {
 	repeat1 := func(tokens []tpl.Token, g tpl.Grammar) {
 		n := len(stk)
 		a := stk[n-1]
-		stk[n-1] = fmt.Sprintf("tpl.tpl.Repeat1(%s)", a)
+		stk[n-1] = fmt.Sprintf("tpl.Repeat1(%s)", a)
 	}
 
 	repeat01 := func(tokens []tpl.Token, g tpl.Grammar) {
-- 
2.43.0


From b443e0d126edc9381ca0d644c78c77e166e6aa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:35 +0000
Subject: [PATCH 21/43] fix: import path of the code written by tplgen

---
 tpl/cmd/tplgen/output.tpl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpl/cmd/tplgen/output.tpl b/tpl/cmd/tplgen/output.tpl
index 2094864..dd12007 100644
--- a/tpl/cmd/tplgen/output.tpl
+++ b/tpl/cmd/tplgen/output.tpl
@@ -8,9 +8,9 @@ import (
 	"strconv"
 	{{ end }}
 
-	"github.com/qiniu/text/tpl.v1"
+	"github.com/qiniu/text/tpl"
 	{{ if .genInterpreter}}
-	"github.com/qiniu/text/tpl.v1/interpreter.util"
+	"github.com/qiniu/text/tpl/interpreter.util"
 	{{ end }}
 )
 {{if .genInterpreter}}
-- 
2.43.0


From c50915135ffb6401493fd68ce80fd3b85f2a7b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 22/43] fix: EOF and true in grammars compiled by tplgen

---
 tpl/generator/static_parser_gen.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index 3b8fd52..d7f475a 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -71,8 +71,8 @@ func GenStaticCode(source string) (string, error) {
 			if tok == tpl.ILLEGAL {
 				panic("illegal token: " + name)
 			}
-			if strings.HasPrefix(name, "'") {
-				s = fmt.Sprintf("tpl.Gr(%s)", name)
+			if tok == tpl.EOF {
+				s = "tpl.GrEOF"
 			} else {
 				s = fmt.Sprintf("tpl.Gr(tpl.%s)", name)
 			}
@@ -82,7 +82,6 @@ func GenStaticCode(source string) (string, error) {
 				s = name
 			} else if s, ok = vars[name]; !ok {
 				if name == "true" {
-					vars[name] = "tpl.GrTrue"
 					s = "tpl.GrTrue"
 				} else {
 					vars[name] = name
-- 
2.43.0


From bcfe979a0ef13025e83273f6d63d8a5361eb7efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 23/43] fix: quoted operators and keywords and the scan mode in
 code written by tplgen

Every quoted string matched any STRING token.
---
 tpl/generator/static_parser_gen.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index d7f475a..ad99b12 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -106,7 +106,7 @@ func GenStaticCode(source string) (string, error) {
 		if tok == tpl.ILLEGAL {
 			panic("illegal token: " + name)
 		}
-		stk = append(stk, "tpl.Gr(tpl.STRING)")
+		stk = append(stk, fmt.Sprintf("tpl.Gr(cmplr.Scanner.Ltot(%q))", name))
 	}
 	grTrue := func(tokens []tpl.Token, g tpl.Grammar) {
 		if tokens[0].Literal != "1" {
@@ -210,12 +210,19 @@ func GenStaticCode(source string) (string, error) {
 			"	ScanMode tpl.ScanMode\n"+
 			"}\n"+
 			"func(cmplr *StaticCompiler)Cl()tpl.CompileRet{\n"+
+			"if cmplr.Scanner == nil {\n"+
+			"	cmplr.Scanner = new(tpl.AutoKwScanner)\n"+
+			"}\n"+
+			"if cmplr.Marker == nil {\n"+
+			"	cmplr.Marker = func(g tpl.Grammar, mark string) tpl.Grammar { return g }\n"+
+			"}\n"+
 			"%s"+
 			"%s"+
 			"ret := tpl.CompileRet{}\n"+
 			"ret.Matcher = &tpl.Matcher{\n"+
 			"		Grammar: doc,\n"+
 			"		Scanner: cmplr.Scanner,\n"+
+			"		ScanMode: cmplr.ScanMode,\n"+
 			"		Init: cmplr.Init,\n"+
 			"	}\n"+
 			"return ret}\n",
-- 
2.43.0


From 59462964df9e6d1a1a83b362ed063d89ebedfccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 24/43] fix: tplgen refuses undefined and twice defined rules,
 accepts a recursive doc

A rule used after its definition, but used before it as well, was emitted as
the assignment instead of its name.
---
 tpl/generator/static_parser_gen.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index ad99b12..c1a1bf6 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -53,7 +53,10 @@ func GenStaticCode(source string) (string, error) {
 		n := len(stk)
 		a := stk[n-1]
 		name := tokens[0].Literal
-		if _, ok := vars[name]; ok {
+		if v, ok := vars[name]; ok {
+			if v != name {
+				panic(tpl.ErrVarAssigned)
+			}
 			vars[name] = fmt.Sprintf("%s.Assign(%s)", name, a)
 		} else if _, ok := grammars[name]; ok {
 			panic("grammar already exists: " + name)
@@ -80,7 +83,9 @@ func GenStaticCode(source string) (string, error) {
 			_, ok := grammars[name]
 			if ok {
 				s = name
-			} else if s, ok = vars[name]; !ok {
+			} else if _, ok = vars[name]; ok {
+				s = name
+			} else {
 				if name == "true" {
 					s = "tpl.GrTrue"
 				} else {
@@ -192,6 +197,9 @@ func GenStaticCode(source string) (string, error) {
 		assignments  string
 	)
 	for k, v := range vars {
+		if v == k {
+			return "", fmt.Errorf("variable `%s` is not assigned", k)
+		}
 		declarations += fmt.Sprintf("%s = new(tpl.GrVar)\n", k)
 		assignments += fmt.Sprintf("// GrVar %s\n%s\n", k, v)
 	}
@@ -200,7 +208,11 @@ func GenStaticCode(source string) (string, error) {
 		assignments += fmt.Sprintf("// GrNamed %s\n%s.Assign(\"%s\", %s)\n", k, k, k, v)
 	}
 	declarations += ")\n"
-	if _, ok := grammars["doc"]; ok {
+	_, ok := grammars["doc"]
+	if !ok {
+		_, ok = vars["doc"] // doc is used before it is defined
+	}
+	if ok {
 		output := fmt.Sprintf("\n"+
 			"type StaticCompiler struct {\n"+
 			"	Grammar  string\n"+
-- 
2.43.0


From 6a9c33974bd1541331a94e0b0c20ab0212b44a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 25/43] fix: tplgen unquotes a grammar written as an
 interpreted string literal

---
 tpl/cmd/tplgen/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tpl/cmd/tplgen/main.go b/tpl/cmd/tplgen/main.go
index cfa3541..3f72c61 100644
--- a/tpl/cmd/tplgen/main.go
+++ b/tpl/cmd/tplgen/main.go
@@ -10,6 +10,7 @@ import (
 	"os"
 	"path"
 	"runtime"
+	"strconv"
 	"text/template"
 
 	"github.com/qiniu/text/tpl/generator"
@@ -123,7 +124,9 @@ OUT:
 	if grammarContent == "" {
 		exitIfNotNil(errors.New(*grammarName + " not found."))
 	}
-	code, err := generator.GenStaticCode(grammarContent[1 : len(grammarContent)-1])
+	source, err := strconv.Unquote(grammarContent)
+	exitIfNotNil(err)
+	code, err := generator.GenStaticCode(source)
 	exitIfNotNil(err)
 	fd, err := os.OpenFile(*outputFileName, os.O_RDWR|os.O_CREATE, 0664)
 	exitIfNotNil(err)
-- 
2.43.0


From 3b7261f3dfef9f6067b6b90ee9a28f1438651103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 26/43] fix: Code of a sequence that begins with ! or has only
 one rule besides it

---
 tpl/grammar.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index be12d6b..318c70b 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -310,13 +310,19 @@ func (p *grAnd) Match(src []Token, ctx Context) (n int, err error) {
 }
 
 func (p *grAnd) Marshal(b []byte, t Tokener, lvlParent int) []byte {
+	var gs []Grammar // without `!`, which is not printed
+	for _, g := range p.gs {
+		if g != nil {
+			gs = append(gs, g)
+		}
+	}
+	if len(gs) == 1 {
+		return gs[0].Marshal(b, t, lvlParent)
+	}
 	if lvlParent > lvlAnd {
 		b = append(b, '(')
 	}
-	for i, g := range p.gs {
-		if g == nil {
-			continue
-		}
+	for i, g := range gs {
 		if i > 0 {
 			b = append(b, ' ')
 		}
-- 
2.43.0


From 7cf6d4d7914dab8303ab2366e730436c2025b3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 27/43] fix: report nil and unassignable arguments and calls of
 non-functions as errors

Call, DoCall and VCall panicked inside reflect.
---
 tpl/interpreter.util/call.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tpl/interpreter.util/call.go b/tpl/interpreter.util/call.go
index 73edeb1..f3531ae 100644
--- a/tpl/interpreter.util/call.go
+++ b/tpl/interpreter.util/call.go
@@ -12,6 +12,8 @@ var (
 	ErrStackDamaged = errors.New("unexpected: stack damaged")
 	// ErrArgumentsNotEnough error
 	ErrArgumentsNotEnough = errors.New("argument not enough")
+	// ErrNotCallable error
+	ErrNotCallable = errors.New("not a function")
 )
 
 var (
@@ -109,9 +111,12 @@ func VCall(stk Stack, arity int) error {
 	}
 
 	vfn := in[0]
-	if vfn.Kind() != reflect.Func { // 这不是func，而是Function对象
+	if vfn.IsValid() && vfn.Kind() != reflect.Func { // 这不是func，而是Function对象
 		vfn = vfn.MethodByName("Call")
 	}
+	if !vfn.IsValid() {
+		return ErrNotCallable
+	}
 	tfn := vfn.Type()
 	n := tfn.NumIn()
 
@@ -150,9 +155,14 @@ func validateType(in *reflect.Value, t reflect.Type) error {
 		if !in.IsValid() {
 			*in = reflect.Zero(t) // work around `reflect: Call using zero Value argument`
 		}
-		return nil
+		if in.Type().AssignableTo(t) {
+			return nil
+		}
 	}
 
+	if !in.IsValid() {
+		return fmt.Errorf("invalid argument type: require `%v`, but we got `nil`", t)
+	}
 	tin := in.Type()
 	if tin == t {
 		return nil
-- 
2.43.0


From b68648d077eb41f799075f21ceb2e006a885365b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 28/43] fix: accept the mark `_`

New panicked with an index out of range.
---
 tpl/interpreter/interpreter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/interpreter/interpreter.go b/tpl/interpreter/interpreter.go
index af13b46..c4c29b8 100644
--- a/tpl/interpreter/interpreter.go
+++ b/tpl/interpreter/interpreter.go
@@ -217,7 +217,7 @@ func New(ipt interpreter.Interface, options *Options) (p *Engine, err error) {
 		if mark[0] == '_' {
 			idxLen++
 		}
-		isLen := (mark[idxLen] >= 'A' && mark[idxLen] <= 'Z') // 用大写的mark表示取Grammar.Len()
+		isLen := idxLen < len(mark) && (mark[idxLen] >= 'A' && mark[idxLen] <= 'Z') // 用大写的mark表示取Grammar.Len()
 		action := func(tokens []tpl.Token, g tpl.Grammar) {
 			if p.mute > 0 { // 禁止所有非 '_' 开头的 action
 				if mark[0] != '_' || p.mute > 1 {
-- 
2.43.0


From 09437acc8bf80765490e8adcdc3da63feb841084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 29/43] fix: keep the repetition count when an action matches
 its rule again

An action that evaluates code may match the very rule it belongs to; the
next mark of the rule then saw the count of that match.
---
 tpl/grammar.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index 318c70b..10b1032 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -656,10 +656,11 @@ func Named(name string, g Grammar) *GrNamed {
 type grAction struct {
 	g   Grammar
 	act func(tokens []Token, g Grammar)
+	len int
 }
 
 func (p *grAction) Len() int {
-	return p.g.Len()
+	return p.len
 }
 
 func (p *grAction) Match(src []Token, ctx Context) (n int, err error) {
@@ -667,7 +668,9 @@ func (p *grAction) Match(src []Token, ctx Context) (n int, err error) {
 	if n, err = g.Match(src, ctx); err != nil {
 		return
 	}
+	n1 := g.Len()
 	p.act(src[:n], g)
+	p.len = n1 // act may have matched g again
 	return
 }
 
@@ -677,7 +680,7 @@ func (p *grAction) Marshal(b []byte, t Tokener, lvlParent int) []byte {
 
 // Action represents G/action.
 func Action(g Grammar, act func(tokens []Token, g Grammar)) Grammar {
-	return &grAction{g, act}
+	return &grAction{g, act, 0}
 }
 
 // -----------------------------------------------------------------------------
-- 
2.43.0


From 0db4552793907ffeb7b74c35d638cfcedd2698cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:21 +0000
Subject: [PATCH 30/43] fix: rat: octal literals

The scanner takes 017 for octal (and refuses 08), the number calculator too.
---
 tpl/rat/big.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tpl/rat/big.go b/tpl/rat/big.go
index 43a8db0..f38c6ab 100644
--- a/tpl/rat/big.go
+++ b/tpl/rat/big.go
@@ -131,7 +131,13 @@ func (stk *Stack) PushInt(v int64) {
 
 func (stk *Stack) PushString(v string) { // 这个v可以很大，超出int64范围
 
-	val, _ := new(big.Rat).SetString(v)
+	val, ok := new(big.Rat).SetString(v)
+	if i, isInt := new(big.Int).SetString(v, 0); isInt { // octal: 017
+		val, ok = new(big.Rat).SetInt(i), true
+	}
+	if !ok {
+		panic("invalid number: " + v)
+	}
 	*stk = append(*stk, val)
 }
 
-- 
2.43.0


From 17beade9172c239d6375e9ef243e725c7abf3fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:43 +0000
Subject: [PATCH 31/43] fix: tplconv: a document JSON can't express is an
 error, not the output

---
 tpl/cmd/tplconv/tplconv.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/tpl/cmd/tplconv/tplconv.go b/tpl/cmd/tplconv/tplconv.go
index 04a918e..a3e64a0 100644
--- a/tpl/cmd/tplconv/tplconv.go
+++ b/tpl/cmd/tplconv/tplconv.go
@@ -91,7 +91,11 @@ func processFile(root, inputFile string) (err error) {
 		if !ok {
 			return fmt.Errorf("unknown output format: %s", *outputFormat)
 		}
-		io.WriteString(w, print(doc))
+		text, err2 := print(doc)
+		if err2 != nil {
+			return err2
+		}
+		io.WriteString(w, text)
 		return nil
 	}
 
@@ -111,13 +115,10 @@ func processFile(root, inputFile string) (err error) {
 
 // -----------------------------------------------------------------------------
 
-func printJson(v interface{}) string {
+func printJson(v interface{}) (string, error) {
 
 	b, err := json.MarshalIndent(v, "", "  ")
-	if err != nil {
-		return err.Error()
-	}
-	return string(b)
+	return string(b), err
 }
 
 var funcMap = template.FuncMap{
@@ -140,7 +141,7 @@ var outTemplates = map[string]func(outputTempFile string) (iExecutor, error){
 	".html": makeHtmlTempl,
 }
 
-var outInternals = map[string]func(v interface{}) string{
+var outInternals = map[string]func(v interface{}) (string, error){
 	"json": printJson,
 }
 
-- 
2.43.0


From fa27aca3324a3da24e5710eb9ee6574d0245d461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:06 +0000
Subject: [PATCH 32/43] fix: tplconv: an output that can't be written is an
 error

---
 tpl/cmd/tplconv/tplconv.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpl/cmd/tplconv/tplconv.go b/tpl/cmd/tplconv/tplconv.go
index a3e64a0..1c2ac02 100644
--- a/tpl/cmd/tplconv/tplconv.go
+++ b/tpl/cmd/tplconv/tplconv.go
@@ -95,8 +95,8 @@ func processFile(root, inputFile string) (err error) {
 		if err2 != nil {
 			return err2
 		}
-		io.WriteString(w, text)
-		return nil
+		_, err = io.WriteString(w, text)
+		return
 	}
 
 	gen, ok := outTemplates[outext]
-- 
2.43.0


From eb0d6a017097a34380fe54b581c0668211ed6756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:40 +0000
Subject: [PATCH 33/43] fix: append to []float64 shares its array as append
 does in Go

---
 tpl/qlang/lib/builtin/builtin.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tpl/qlang/lib/builtin/builtin.go b/tpl/qlang/lib/builtin/builtin.go
index f3a75ef..77d558b 100644
--- a/tpl/qlang/lib/builtin/builtin.go
+++ b/tpl/qlang/lib/builtin/builtin.go
@@ -221,19 +221,20 @@ func Append(a interface{}, vals ...interface{}) interface{} {
 
 func appendFloat(a []float64, vals ...interface{}) interface{} {
 
-	for _, v := range vals {
+	x := make([]float64, len(vals))
+	for i, v := range vals {
 		switch val := v.(type) {
 		case float64:
-			a = append(a, val)
+			x[i] = val
 		case int:
-			a = append(a, float64(val))
+			x[i] = float64(val)
 		case float32:
-			a = append(a, float64(val))
+			x[i] = float64(val)
 		default:
 			panic("unsupported: []float64 append " + reflect.TypeOf(v).String())
 		}
 	}
-	return a
+	return append(a, x...)
 }
 
 func Slice(typ interface{}, args ...interface{}) interface{} {
-- 
2.43.0


From 2175c4bd475da2a478e6a6fec59435e1a0e5f7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:37 +0000
Subject: [PATCH 34/43] fix: tokenize errors name their line

---
 tpl/match.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tpl/match.go b/tpl/match.go
index 33fb3d3..b199415 100644
--- a/tpl/match.go
+++ b/tpl/match.go
@@ -2,6 +2,7 @@ package tpl
 
 import (
 	"errors"
+	"fmt"
 	"go/token"
 )
 
@@ -27,7 +28,15 @@ type TokenizeError struct {
 }
 
 func (p *TokenizeError) Error() string {
-	return p.Msg
+	return posPrefix(p.Pos.Filename, p.Pos.Line) + p.Msg
+}
+
+// posPrefix is what an error message begins with.
+func posPrefix(file string, line int) string {
+	if file == "" {
+		return fmt.Sprintf("line %d: ", line)
+	}
+	return fmt.Sprintf("%s:%d: ", file, line)
 }
 
 // Code returns tpl code of this grammar.
-- 
2.43.0


From 6c7bfecc99cde60bc5708fa0535993ab9c630f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 35/43] fix: match errors name the file, as runtime errors do

---
 tpl/grammar.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index 10b1032..473ea1e 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -110,14 +110,18 @@ type MatchError struct {
 func (p *MatchError) Error() string {
 	s := p.Ctx.Tokener()
 	line, text := calcErrorInfo(p.Src, p.IdxErr, s)
+	prefix := posPrefix("", line)
+	if f := s.Source().File; f != nil {
+		prefix = posPrefix(f.Name(), line)
+	}
 	if p.Err == nil {
 		return fmt.Sprintf(
-			"line %d: match failed: `%s` doesn't match `%s`",
-			line, text, Code(p.Grammar, s))
+			"%smatch failed: `%s` doesn't match `%s`",
+			prefix, text, Code(p.Grammar, s))
 	}
 	return fmt.Sprintf(
-		"line %d: match failed: `%s` doesn't match `%s`\n%v",
-		line, text, Code(p.Grammar, s), p.Err)
+		"%smatch failed: `%s` doesn't match `%s`\n%v",
+		prefix, text, Code(p.Grammar, s), p.Err)
 }
 
 func calcErrorInfo(doc []Token, idxErr int, t Tokener) (line int, text []byte) {
-- 
2.43.0


From 56d59c6d6e036a57114d84a613d1565c7e1ed970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:51 +0000
Subject: [PATCH 36/43] fix: host functions of an interpreter written in qlang
 get converted arguments

The values popped from the stack object were handed to the function as interface
values, so a host function with a parameter of any other type could not be called.
---
 tpl/qlang/cl/interpreter/interpret.go | 46 +++++++++++++++++----------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/tpl/qlang/cl/interpreter/interpret.go b/tpl/qlang/cl/interpreter/interpret.go
index acdb590..f9ec162 100644
--- a/tpl/qlang/cl/interpreter/interpret.go
+++ b/tpl/qlang/cl/interpreter/interpret.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/qiniu/text/tpl"
 	"github.com/qiniu/text/tpl/interpreter"
+	util "github.com/qiniu/text/tpl/interpreter.util"
 	qlang "github.com/qiniu/text/tpl/qlang/cl"
 )
 
@@ -66,26 +67,39 @@ func callN(ip *qlang.Object, name string, args ...interface{}) interface{} {
 	panic("method not found: " + name)
 }
 
-func callFn(stk *qlang.Object, fn interface{}, arity int) {
+// objStack makes the stack object of an interpreter an interpreter.util.Stack.
+type objStack struct {
+	*qlang.Object
+}
 
-	var in []reflect.Value
-	if arity > 0 {
-		ret := reflect.ValueOf(callN(stk, "popArgs", arity))
-		if ret.Kind() != reflect.Slice {
-			panic("method stack.popArgs doesn't return a slice")
-		}
-		n := ret.Len()
-		in = make([]reflect.Value, n)
-		for i := 0; i < n; i++ {
-			in[i] = ret.Index(i)
-		}
+func (p objStack) PopArgs(arity int) (args []reflect.Value, ok bool) {
+
+	ret := reflect.ValueOf(callN(p.Object, "popArgs", arity))
+	if ret.Kind() != reflect.Slice {
+		panic("method stack.popArgs doesn't return a slice")
+	}
+	n := ret.Len()
+	args = make([]reflect.Value, n)
+	for i := 0; i < n; i++ {
+		args[i] = reflect.ValueOf(ret.Index(i).Interface())
 	}
-	vfn := reflect.ValueOf(fn)
-	out := vfn.Call(in)
+	return args, n == arity
+}
+
+func (p objStack) PushRet(out []reflect.Value) error {
+
 	if len(out) == 0 {
-		callN(stk, "push", nil)
+		callN(p.Object, "push", nil)
 	} else {
-		callN(stk, "push", out[0].Interface())
+		callN(p.Object, "push", out[0].Interface())
+	}
+	return nil
+}
+
+func callFn(stk *qlang.Object, fn interface{}, arity int) {
+
+	if err := util.DoCall(objStack{stk}, fn, arity, arity, false); err != nil {
+		panic(err)
 	}
 }
 
-- 
2.43.0


From 5361a200391530cfb232aaf29b7a4e5e28e15bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:52 +0000
Subject: [PATCH 37/43] fix: mark `_` in the grammar of an interpreter written
 in qlang

The name was indexed out of range.
---
 tpl/qlang/cl/interpreter/interpret.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/qlang/cl/interpreter/interpret.go b/tpl/qlang/cl/interpreter/interpret.go
index f9ec162..48a5dda 100644
--- a/tpl/qlang/cl/interpreter/interpret.go
+++ b/tpl/qlang/cl/interpreter/interpret.go
@@ -259,7 +259,7 @@ func newEngine(ip1 interface{}, options *Options) (p *Engine) {
 		if mark[0] == '_' {
 			idxLen++
 		}
-		isLen := (mark[idxLen] >= 'A' && mark[idxLen] <= 'Z') // 用大写的mark表示取Grammar.Len()
+		isLen := idxLen < len(mark) && (mark[idxLen] >= 'A' && mark[idxLen] <= 'Z') // 用大写的mark表示取Grammar.Len()
 		action := func(tokens []tpl.Token, g tpl.Grammar) {
 			if p.mute > 0 { // 禁止所有非 '_' 开头的 action
 				if mark[0] != '_' || p.mute > 1 {
-- 
2.43.0


From 149c5b2fc8c07ca6bd39dc598ee0ec1cb90f9286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:23 +0000
Subject: [PATCH 38/43] fix: tplgen -i: generated interpreters read the numbers
 of a source the way interpreter.New does (hex and octal)

---
 tpl/cmd/tplgen/output.tpl | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tpl/cmd/tplgen/output.tpl b/tpl/cmd/tplgen/output.tpl
index dd12007..6f66698 100644
--- a/tpl/cmd/tplgen/output.tpl
+++ b/tpl/cmd/tplgen/output.tpl
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"reflect"
 	"strconv"
+	"strings"
 	{{ end }}
 
 	"github.com/qiniu/text/tpl"
@@ -54,8 +55,8 @@ func ParseFloat(lit string) (v float64, err error) {
 			return float64(v1), err1
 		default:
 			v1, err1 := strconv.ParseInt(lit[1:], 8, 64)
-			if err1 == nil {
-				return float64(v1), nil
+			if err1 == nil || !strings.ContainsAny(lit, ".eE") {
+				return float64(v1), err1
 			}
 		}
 	}
@@ -69,26 +70,26 @@ func GetValue(t reflect.Type, lit string) (ret reflect.Value, err error) {
 	case reflect.String:
 		return reflect.ValueOf(lit), nil
 	case reflect.Float64:
-		v, err1 := strconv.ParseFloat(lit, 64)
+		v, err1 := ParseFloat(lit)
 		if err1 != nil {
 			err = err1
 			return
 		}
 		return reflect.ValueOf(v), nil
 	case reflect.Int64:
-		v, err1 := strconv.ParseInt(lit, 10, 64)
+		v, err1 := ParseInt(lit)
 		if err1 != nil {
 			err = err1
 			return
 		}
 		return reflect.ValueOf(v), nil
 	case reflect.Int:
-		v, err1 := strconv.Atoi(lit)
+		v, err1 := ParseInt(lit)
 		if err1 != nil {
 			err = err1
 			return
 		}
-		return reflect.ValueOf(v), nil
+		return reflect.ValueOf(int(v)), nil
 	}
 	err = errors.New("unsupported type: " + t.String())
 	return
-- 
2.43.0


From d883d4460373286ce9fb1e2715508b88d731c143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:24 +0000
Subject: [PATCH 39/43] fix: tplgen -i: generated interpreters pass the context
 of a match to the functions of a grammar

---
 tpl/cmd/tplgen/output.tpl | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/tpl/cmd/tplgen/output.tpl b/tpl/cmd/tplgen/output.tpl
index 6f66698..b1dcf86 100644
--- a/tpl/cmd/tplgen/output.tpl
+++ b/tpl/cmd/tplgen/output.tpl
@@ -20,6 +20,7 @@ import (
 var (
 	typeIntf    = reflect.TypeOf((*interface{})(nil)).Elem()
 	typeEng     = reflect.TypeOf((*interpreter.Engine)(nil)).Elem()
+	typeCtx     = reflect.TypeOf((*interpreter.Context)(nil))
 	typeFline   = reflect.TypeOf((*interpreter.FileLine)(nil))
 	zeroIntfVal = reflect.Zero(typeIntf)
 )
@@ -202,7 +203,7 @@ func NewStaticInterpreter(ipt interpreter.Interface, options *Options) (p *Engin
 			kindRecvr = 2
 		}
 		if kindRecvr > 0 {
-			if n > 2 {
+			if n > 3 {
 				panic("invalid function (too many params): " + mark)
 			}
 			if nout := tfn.NumOut(); nout > 0 {
@@ -257,7 +258,7 @@ func NewStaticInterpreter(ipt interpreter.Interface, options *Options) (p *Engin
 				} else {
 					args[0] = reflect.ValueOf(p.Interpreter)
 				}
-				if n == 2 {
+				if n >= 2 {
 					targ1 := tfn.In(1)
 					if isLen {
 						if targ1 != typeInt {
@@ -266,6 +267,8 @@ func NewStaticInterpreter(ipt interpreter.Interface, options *Options) (p *Engin
 						args[1] = reflect.ValueOf(g.Len())
 					} else {
 						switch targ1 {
+						case typeCtx:
+							args[1] = p.ctxValue(tokens)
 						case typeIntf:
 							if len(tokens) == 0 { // use nil as empty source
 								args[1] = zeroIntfVal
@@ -289,6 +292,9 @@ func NewStaticInterpreter(ipt interpreter.Interface, options *Options) (p *Engin
 						}
 					}
 				}
+				if n == 3 {
+					args[2] = p.ctxValue(tokens)
+				}
 				ret := reflect.ValueOf(fn).Call(args)
 				if len(ret) > 0 {
 					if retv := ret[0].Interface(); retv != nil {
@@ -316,6 +322,16 @@ func NewStaticInterpreter(ipt interpreter.Interface, options *Options) (p *Engin
 	return
 }
 
+func (p *Engine) ctxValue(tokens []tpl.Token) reflect.Value {
+
+	ctx := &interpreter.Context{Src: tokens, Engine: interpreter.Engine(p)}
+	if len(tokens) > 0 {
+		ctx.Pos = tokens[0].Pos
+		ctx.End = tokens[len(tokens)-1].End()
+	}
+	return reflect.ValueOf(ctx)
+}
+
 func (p *Engine) Source(src interface{}) (text []byte) {
 
 	if src == nil {
-- 
2.43.0


From 2a04e482dc0555c710c449a4882de9abad697ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 40/43] fix: tplgen -i: a mark of a lone underscore

---
 tpl/cmd/tplgen/output.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/cmd/tplgen/output.tpl b/tpl/cmd/tplgen/output.tpl
index b1dcf86..95081d6 100644
--- a/tpl/cmd/tplgen/output.tpl
+++ b/tpl/cmd/tplgen/output.tpl
@@ -219,7 +219,7 @@ func NewStaticInterpreter(ipt interpreter.Interface, options *Options) (p *Engin
 		if mark[0] == '_' {
 			idxLen++
 		}
-		isLen := (mark[idxLen] >= 'A' && mark[idxLen] <= 'Z') // 用大写的mark表示取Grammar.Len()
+		isLen := idxLen < len(mark) && (mark[idxLen] >= 'A' && mark[idxLen] <= 'Z') // 用大写的mark表示取Grammar.Len()
 		action := func(tokens []tpl.Token, g tpl.Grammar) {
 			if p.mute > 0 { // 禁止所有非 '_' 开头的 action
 				if mark[0] != '_' || p.mute > 1 {
-- 
2.43.0


From 209e5a2aea4ccea4fce641ea838058f625586e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:12 +0000
Subject: [PATCH 41/43] fix: code written by tplgen keeps the rules of the
 grammar, so that EvalSub finds them

---
 tpl/generator/static_parser_gen.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index c1a1bf6..9148bc6 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -201,11 +201,11 @@ func GenStaticCode(source string) (string, error) {
 			return "", fmt.Errorf("variable `%s` is not assigned", k)
 		}
 		declarations += fmt.Sprintf("%s = new(tpl.GrVar)\n", k)
-		assignments += fmt.Sprintf("// GrVar %s\n%s\n", k, v)
+		assignments += fmt.Sprintf("// GrVar %s\n%s\nret.Vars[%q] = %s\n", k, v, k, k)
 	}
 	for k, v := range grammars {
 		declarations += fmt.Sprintf("%s = new(tpl.GrNamed)\n", k)
-		assignments += fmt.Sprintf("// GrNamed %s\n%s.Assign(\"%s\", %s)\n", k, k, k, v)
+		assignments += fmt.Sprintf("// GrNamed %s\n%s.Assign(\"%s\", %s)\nret.Grammars[%q] = %s\n", k, k, k, v, k, k)
 	}
 	declarations += ")\n"
 	_, ok := grammars["doc"]
@@ -228,9 +228,9 @@ func GenStaticCode(source string) (string, error) {
 			"if cmplr.Marker == nil {\n"+
 			"	cmplr.Marker = func(g tpl.Grammar, mark string) tpl.Grammar { return g }\n"+
 			"}\n"+
+			"ret := tpl.CompileRet{Grammars: map[string]tpl.Grammar{}, Vars: map[string]*tpl.GrVar{}}\n"+
 			"%s"+
 			"%s"+
-			"ret := tpl.CompileRet{}\n"+
 			"ret.Matcher = &tpl.Matcher{\n"+
 			"		Grammar: doc,\n"+
 			"		Scanner: cmplr.Scanner,\n"+
-- 
2.43.0


From a520e941d200a4b8e68a419a0bff127b3281f8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:35 +0000
Subject: [PATCH 42/43] fix: match errors of code written by tplgen name the
 rules used before they are defined

---
 tpl/generator/static_parser_gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index 9148bc6..4ae3dd7 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -200,7 +200,7 @@ func GenStaticCode(source string) (string, error) {
 		if v == k {
 			return "", fmt.Errorf("variable `%s` is not assigned", k)
 		}
-		declarations += fmt.Sprintf("%s = new(tpl.GrVar)\n", k)
+		declarations += fmt.Sprintf("%s = tpl.Var(%q)\n", k, k)
 		assignments += fmt.Sprintf("// GrVar %s\n%s\nret.Vars[%q] = %s\n", k, v, k, k)
 	}
 	for k, v := range grammars {
-- 
2.43.0


From e98561661f84d6247f430191fb6690a6f116f3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:25 +0000
Subject: [PATCH 43/43] fix: tplgen passes declarations without a value or body
 over

---
 tpl/cmd/tplgen/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tpl/cmd/tplgen/main.go b/tpl/cmd/tplgen/main.go
index 3f72c61..f493f5e 100644
--- a/tpl/cmd/tplgen/main.go
+++ b/tpl/cmd/tplgen/main.go
@@ -34,7 +34,7 @@ func findInGenDecl(genDecl *ast.GenDecl, grammarName string) string {
 					index = i
 				}
 			}
-			if index != -1 {
+			if index != -1 && index < len(valueSpec.Values) {
 				basicLit, ok := valueSpec.Values[index].(*ast.BasicLit)
 				if ok {
 					return basicLit.Value
@@ -56,7 +56,7 @@ func findInAssignment(assignStmt *ast.AssignStmt, grammarName string) string {
 			}
 		}
 	}
-	if index != -1 {
+	if index != -1 && index < len(assignStmt.Rhs) {
 		basicLit, ok := assignStmt.Rhs[index].(*ast.BasicLit)
 		if ok {
 			return basicLit.Value
@@ -74,7 +74,7 @@ func findInDecl(decl ast.Decl, grammarName string) string {
 		}
 	}
 	funcDecl, ok := decl.(*ast.FuncDecl)
-	if ok {
+	if ok && funcDecl.Body != nil {
 		for _, stmt := range funcDecl.Body.List {
 			declStmt, ok := stmt.(*ast.DeclStmt)
 			if ok {
-- 
2.43.0

