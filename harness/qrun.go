// Running qlang programs under observation and comparing them with the reference interpreter.
package main

import (
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/qiniu/text/tpl/qlang"
	cl "github.com/qiniu/text/tpl/qlang/cl"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
	"github.com/qiniu/text/tpl/qlang/spec"
)

func init() {
	qlang.Import("", map[string]interface{}{
		"tr": func(args ...interface{}) interface{} {
			var b strings.Builder
			for _, a := range args {
				b.WriteString(realSnap(a, 0) + " ")
			}
			here().qtrace = append(here().qtrace, b.String())
			if len(here().qtrace) > 100000 {
				panic("endless program")
			}
			if len(args) > 1 {
				return args[1]
			}
			return nil
		},
	})
}

// realSnap describes a value of the implementation as rint.snap does.
func realSnap(v interface{}, d int) string {
	if v == spec.Undefined && v != nil {
		return "undefined"
	}
	switch x := v.(type) {
	case nil:
		return "nil"
	case *cl.Object:
		return "object"
	case *cl.Class:
		return "class"
	case string:
		return fmt.Sprintf("%q", x)
	case float64:
		return "float64:" + floatText(x)
	case bool, int, byte:
		return fmt.Sprintf("%T:%v", v, v)
	case reflect.Type:
		return "type:" + x.String()
	case error:
		return "\x01" + snapSafe(x.Error()) + "\x02"
	}
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Func || rv.MethodByName("Call").IsValid() {
		return "function"
	}
	return snapColl(rv, d, realSnap)
}

var lineRe = regexp.MustCompile(`^(?:line (\d+)|(.*):(\d+)): `)

// errMatches tells what is wrong with the text of an error; mark is what errMark made of it.
func errMatches(mark, text string) string {
	text = snapSafe(text)
	var lo, hi int
	var file, msg, inner string
	if _, err := fmt.Sscanf(mark, "%d %d %q %q %q", &lo, &hi, &file, &msg, &inner); err != nil {
		return "mark: " + err.Error()
	}
	if !strings.Contains(text, msg) {
		return fmt.Sprintf("the error %q doesn't carry its cause %q", text, msg)
	}
	if lo == 0 {
		return ""
	}
	m := lineRe.FindStringSubmatch(text)
	if m == nil {
		return fmt.Sprintf("the error %q names no line", text)
	}
	n, _ := strconv.Atoi(m[1] + m[3])
	if m[2] != file {
		return fmt.Sprintf("the error %q names the file %q, not %q", text, m[2], file)
	}
	if n < lo || n > hi {
		return fmt.Sprintf("the error %q names line %d, the failing statement is in lines %d-%d", text, n, lo, hi)
	}
	for _, x := range strings.Split(inner, ",")[min(1, len(inner)):] {
		var a, b int
		if fmt.Sscanf(x, "%d-%d", &a, &b); n >= a && n <= b {
			return fmt.Sprintf("the error %q names line %d, but the failing statement is in lines %d-%d and has a block of its own in lines %d-%d", text, n, lo, hi, a, b)
		}
	}
	return ""
}

// snapDiff compares a snapshot of the reference and one of the implementation.
func snapDiff(want, got string) string {
	w, g := want, got
	for {
		i, j := strings.IndexByte(w, 1), strings.IndexByte(g, 1)
		if i < 0 || j < 0 {
			if w != g {
				return fmt.Sprintf("%s, expected %s", brief(strings.ReplaceAll(got, "\x01", "E")), brief(strings.ReplaceAll(want, "\x01", "E")))
			}
			return ""
		}
		k, l := strings.IndexByte(w, 2), strings.IndexByte(g, 2)
		if k < i || l < j || w[:i] != g[:j] {
			return fmt.Sprintf("%s, expected %s", brief(got), brief(want))
		}
		if d := errMatches(w[i+1:k], g[j+1:l]); d != "" {
			return d
		}
		w, g = w[k+1:], g[l+1:]
	}
}

func brief(s string) string {
	if len(s) > 300 {
		return s[:300] + "…"
	}
	return s
}

// refRun is what the reference says about one text.
type refRun struct {
	trace   []string
	err     string // errMark of the error, "" if none
	ret     string
	retAny  bool // recovered at top level
	vars    string
	exited  bool
	late    bool // the text itself was over
	code    int
	discard string
	events  map[string]int
	execd   int
}

// refHost gives the reference the traced host function.
func refHost(in *rint) {
	in.host = map[string]func(args []interface{}) interface{}{
		"tr": func(args []interface{}) interface{} {
			var b strings.Builder
			for _, a := range args {
				b.WriteString(in.snap(a, 0) + " ")
			}
			in.trace = append(in.trace, b.String())
			if len(args) > 1 {
				return args[1]
			}
			return nil
		},
	}
}

// text evaluates one text on the reference.
func (in *rint) text(prog *qblock) (r refRun) {
	in.trace = nil
	in.cur = nil
	in.syntax = false
	in.depth, in.steps, in.exec = 0, 0, 0
	in.events = map[string]int{}
	defer func() {
		r.trace = in.trace
		r.events = in.events
		r.execd = in.exec
		if e := recover(); e != nil {
			switch x := e.(type) {
			case *rdiscard:
				r.discard = x.why
			case *rexit:
				r.exited, r.code = true, x.code
			default:
				panic(e)
			}
		}
	}()
	var v interface{}
	s := in.top
	s.recov = in.try(func() { v = in.block(s, prog) })
	r.late = true
	r.retAny = s.recov != nil
	if in.fatal {
		syntax := s.recov
		s.recov = nil
		in.syntax = true
		in.runDefers(s)
		in.syntax = false
		if s.recov == nil {
			s.recov = syntax
		}
	} else {
		in.runDefers(s)
	}
	if s.recov != nil {
		r.err = in.errMark(s.recov)
		r.retAny = true
	}
	s.recov = nil
	if !r.retAny {
		r.ret = in.snap(v, 0)
	}
	r.vars = in.varsSnap()
	return
}

func (in *rint) varsSnap() string {
	var l []string
	for n, v := range in.top.own {
		l = append(l, n+"="+in.snap(v, 0))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func realVars(l qlang.Qlang) string {
	var r []string
	for n, v := range l.Vars() {
		r = append(r, n+"="+realSnap(v, 0))
	}
	sort.Strings(r)
	return strings.Join(r, "\n")
}

func stackLen(l qlang.Qlang) int { return len(*(l.Interpreter.Stack().(*cl.Stack))) }

// qsession is a sequence of texts for one engine.
type qsession struct {
	semis bool
	progs []*qblock
	texts []string
	files []string
}

func (s *qsession) add(r *Rand, prog *qblock, file string, plain bool) {
	p := &qpr{r: r, semis: s.semis, file: file, snip: len(s.progs), plain: plain}
	if s.semis && len(prog.st) > 0 {
		prog.trail = true // the end of the text is a semicolon, too
	}
	s.progs = append(s.progs, prog)
	s.texts = append(s.texts, p.program(prog))
	s.files = append(s.files, file)
}

func (s *qsession) input() string {
	var b strings.Builder
	for i, t := range s.texts {
		if i > 0 {
			b.WriteString("\n--- next text\n")
		}
		if s.files[i] != "" {
			b.WriteString("--- file " + s.files[i] + "\n")
		}
		b.WriteString(t)
	}
	if !s.semis {
		b.WriteString("\n--- (no automatic semicolons)")
	}
	return b.String()
}

// reference evaluates the session under all growth policies; ok tells whether it is specified.
func (s *qsession) reference() (runs []refRun, ok bool, why string) {
	for room := 0; room < 3; room++ {
		in := newRint()
		in.room = room
		refHost(in)
		var rs []refRun
		for i, p := range s.progs {
			in.snip = i
			r := in.text(p)
			if r.discard != "" {
				return nil, false, r.discard
			}
			rs = append(rs, r)
			if r.exited {
				break
			}
		}
		if room == 0 {
			runs = rs
		}
		if len(runs) != len(rs) {
			return nil, false, "capacity"
		}
		for i, r := range runs {
			o := rs[i]
			if strings.Join(r.trace, "\n") != strings.Join(o.trace, "\n") || r.err != o.err || r.ret != o.ret || r.vars != o.vars || r.exited != o.exited || r.code != o.code {
				return nil, false, "capacity"
			}
		}
		if !in.appended {
			break // nothing depends on the policy
		}
	}
	return runs, true, ""
}

func qengine(semis bool) qlang.Qlang {
	var o *qlang.Options
	if semis {
		o = qlang.InsertSemis
	}
	l, err := qlang.New(o)
	if err != nil {
		panic("qlang.New: " + err.Error())
	}
	return l
}

// checkTrace compares traces.
func checkTrace(c *Case, want, got []string) {
	for i := range want {
		if i >= len(got) {
			c.Failf("call %d of tr is missing: expected %s", i, brief(want[i]))
		}
		if d := snapDiff(want[i], got[i]); d != "" {
			c.Failf("call %d of tr: %s", i, d)
		}
	}
	if len(got) > len(want) {
		c.Failf("%d calls of tr, expected %d; the first surplus one: %s", len(got), len(want), brief(got[len(want)]))
	}
}

// run runs a session on an engine and compares everything that can be observed. It returns false
// if the session is not specified.
func (s *qsession) run(c *Case, l qlang.Qlang) bool {
	c.Input("%s", s.input())
	runs, ok, why := s.reference()
	if !ok {
		c.Ev("discarded: "+why, 1)
		return false
	}
	for i, want := range runs {
		here().qtrace = here().qtrace[:0]
		err := l.SafeExec([]byte(s.texts[i]), s.files[i])
		s.compare(c, l, i, want, err, here().qtrace)
	}
	return true
}

func (s *qsession) compare(c *Case, l qlang.Qlang, i int, want refRun, err error, got []string) {
	for k, n := range want.events {
		c.Ev(k, n)
	}
	c.Ev("statements executed", want.execd)
	c.Ev("calls of the host function compared", len(got))
	n := ""
	if len(s.texts) > 1 {
		n = fmt.Sprintf("text %d: ", i)
	}
	text := ""
	if err != nil {
		text = err.Error()
	}
	defer func() {
		if e := recover(); e != nil {
			if f, ok := e.(caseFailure); ok {
				f.msg = n + f.msg
				if text != "" {
					f.msg += fmt.Sprintf(" (error: %q)", text)
				}
				panic(f)
			}
			panic(e)
		}
	}()
	checkTrace(c, want.trace, got)
	switch {
	case want.err == "" && err != nil:
		c.Failf("failed: %q", text)
	case want.err != "" && err == nil:
		c.Failf("no error, expected one: %q", want.err)
	case err != nil:
		if d := errMatches(want.err[1:len(want.err)-1], text); d != "" {
			c.Failf("%s", d)
		}
		c.Ev("texts that failed as expected", 1)
	default:
		c.Ev("texts that succeeded", 1)
	}
	if d := snapDiff(want.vars, realVars(l)); d != "" {
		a, b := strings.Split(want.vars, "\n"), strings.Split(realVars(l), "\n")
		for k := 0; k < len(a) && k < len(b); k++ {
			if d := snapDiff(a[k], b[k]); d != "" {
				c.Failf("variables: %s", d)
			}
		}
		c.Failf("variables: %s", d)
	}
	c.Ev("variables compared", strings.Count(want.vars, "\n")+1)
	k := stackLen(l)
	v, ok := l.Ret()
	if want.retAny {
		if err != nil && k != 0 {
			c.Failf("%d values left on the stack by a text that failed", k)
		}
	} else {
		if k != 1 || !ok {
			c.Failf("%d values left on the stack, expected 1", k)
		}
		if d := snapDiff(want.ret, realSnap(v, 0)); d != "" {
			c.Failf("result %s", d)
		}
		c.Ev("results compared", 1)
	}
	if k := stackLen(l); k != 0 {
		c.Failf("%d values on the stack after Ret", k)
	}
}
