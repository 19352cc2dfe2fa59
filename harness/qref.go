// A reference interpreter of qlang: it walks the syntax trees of qast.go and shares nothing with
// the implementation (which evaluates while it matches tokens).
package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
)

type (
	rfn struct {
		x      *xFn
		params []string
		scope  *rscope
		in     *rint
	}
	rclass struct {
		fns map[string]*rfn
	}
	robj struct {
		vars map[string]interface{}
		cls  *rclass
	}
	rbound struct {
		o *robj
		f *rfn
	}
	rbuiltin struct{ name string }
	// qerr is an error value of a program.
	qerr struct {
		msg   string // the cause, "" if only the implementation knows its wording
		s     *qstmt // the failing statement
		opt   bool   // the line is not specified
		stale bool   // raised by code of an earlier text
	}
	rthrow struct {
		e     *qerr
		fatal bool // a syntax error: it can't be recovered
	}
	rreturn  struct{}
	rdiscard struct{ why string }
	undefT   struct{}
	rexit    struct{ code int }
)

var rUndef = undefT{}

type rscope struct {
	own    map[string]interface{}
	ext    map[string]*rscope
	parent *rscope
	defers []*qstmt
	recov  *qerr
	ret    interface{}
}

func newRscope(p *rscope) *rscope {
	return &rscope{own: map[string]interface{}{}, ext: map[string]*rscope{}, parent: p}
}

// rint is the reference interpreter.
type rint struct {
	top      *rscope
	cur      *qstmt
	steps    int
	depth    int
	room     int              // what append leaves: 0 nothing, 1 much, 2 what Go leaves (all must agree)
	grown    map[uintptr]bool // ends of the arrays append made
	keep     []reflect.Value
	appended bool
	trace    []string
	host     map[string]func(args []interface{}) interface{}
	snip     int
	inTop    bool
	events   map[string]int
	lines    map[int][2]int // of traced errors
	exec     int            // statements executed
	max      int            // bound of steps
	fatal    bool           // try caught a syntax error
	syntax   bool           // the text has failed with a syntax error
}

func newRint() *rint {
	return &rint{top: newRscope(nil), events: map[string]int{}, max: 40000}
}

func (in *rint) ev(k string) { in.events[k]++ }

func (in *rint) throw(msg string) {
	in.ev("errors")
	e := &qerr{msg: msg, s: in.cur}
	e.stale = e.s != nil && e.s.snip != in.snip
	panic(&rthrow{e: e})
}

func (in *rint) step() {
	in.steps++
	if in.steps > in.max {
		panic(&rdiscard{"too many steps"})
	}
}

func (s *rscope) owner(name string) *rscope {
	if _, ok := s.own[name]; ok {
		return s
	}
	return s.ext[name]
}

func private(name string) bool { return name[0] == '_' }

func (in *rint) get(s *rscope, name string) interface{} {
	if o := s.owner(name); o != nil {
		if v, ok := o.own[name]; ok {
			return v
		}
		panic(&rdiscard{"variable of an outer function was unset"})
	}
	if !private(name) {
		for t := s.parent; t != nil; t = t.parent {
			if o := t.owner(name); o != nil {
				s.ext[name] = o
				in.ev("outer variables")
				v, ok := o.own[name]
				if !ok {
					panic(&rdiscard{"variable of an outer function was unset"})
				}
				return v
			}
		}
	}
	switch name {
	case "true":
		return true
	case "false":
		return false
	case "nil":
		return nil
	case "undefined":
		return rUndef
	case "unset":
		return &rbound{nil, &rfn{scope: s}}
	}
	if _, ok := in.host[name]; ok || rBuiltins[name] != nil {
		return &rbuiltin{name}
	}
	in.throw("")
	return nil
}

// target is the scope an assignment goes to.
func (in *rint) target(s *rscope, name string) *rscope {
	if o := s.owner(name); o != nil {
		return o
	}
	if !private(name) {
		for t := s.parent; t != nil; t = t.parent {
			if t.owner(name) != nil {
				in.ev("conflicts with outer variables")
				in.throw("")
			}
		}
	}
	return s
}

func (in *rint) block(s *rscope, b *qblock) interface{} {
	if b == nil || len(b.st) == 0 {
		return nil
	}
	var v interface{}
	for _, st := range b.st {
		v = in.stmt(s, st)
	}
	if b.trail {
		return nil
	}
	return v
}

func (in *rint) stmt(s *rscope, st *qstmt) interface{} {
	in.step()
	in.exec++
	saved := in.cur
	in.cur = st
	v := in.stmt1(s, st)
	in.cur = saved
	return v
}

func (in *rint) stmt1(s *rscope, st *qstmt) interface{} {
	switch st.kind {
	case "":
		return in.eval(s, st.e)
	case "=":
		v := in.eval(s, st.e)
		in.target(s, st.name).own[st.name] = v
		return v
	case "m=":
		v := in.eval(s, st.e)
		rv := reflect.ValueOf(v)
		if rv.Kind() != reflect.Slice {
			in.throw("")
		}
		if rv.Len() != len(st.names) {
			in.throw("")
		}
		for i, n := range st.names {
			in.target(s, n).own[n] = rv.Index(i).Interface()
		}
		return v
	case "++", "--":
		o := s.owner(st.name)
		if o == nil {
			in.throw("")
		}
		d := 1
		if st.kind == "--" {
			d = -1
		}
		switch x := o.own[st.name].(type) {
		case int:
			o.own[st.name] = x + d
		case byte:
			o.own[st.name] = x + byte(d)
		default:
			in.throw("")
		}
		return o.own[st.name]
	case "return":
		s.ret = nil
		if st.e != nil {
			s.ret = in.eval(s, st.e)
		}
		in.ev("returns")
		if s.parent == nil {
			in.runDefers(s)
			if s.recov != nil {
				e := s.recov
				s.recov = nil
				panic(&rthrow{e: e})
			}
			in.exit(s.ret)
		}
		panic(&rreturn{})
	case "defer":
		s.defers = append(s.defers, st)
		in.ev("deferred")
		return nil
	}
	// op=
	v := in.eval(s, st.e)
	o := s.owner(st.name)
	if o == nil {
		in.throw("")
	}
	v = in.arith(st.kind[:1], o.own[st.name], v)
	o.own[st.name] = v
	return v
}

func (in *rint) exit(v interface{}) {
	if v == nil {
		panic(&rexit{0})
	}
	if n, ok := v.(int); ok {
		panic(&rexit{n})
	}
	in.throw("")
}

// rnum tells whether a and b are numbers, and whether both are ints.
func rnum(a, b interface{}) (x, y float64, i, j int, ints, ok bool) {
	_, a1 := a.(int)
	_, b1 := b.(int)
	x, oka := rfloat(a)
	y, okb := rfloat(b)
	if a1 {
		i = a.(int)
	}
	if b1 {
		j = b.(int)
	}
	return x, y, i, j, a1 && b1, oka && okb
}

func rfloat(a interface{}) (float64, bool) {
	switch v := a.(type) {
	case int:
		return float64(v), true
	case float64:
		return v, true
	}
	return 0, false
}

func (in *rint) arith(op string, a, b interface{}) interface{} {
	if op == "+" {
		if x, ok := a.(string); ok {
			if y, ok := b.(string); ok {
				if len(x)+len(y) > 1<<14 {
					panic(&rdiscard{"long string"})
				}
				return x + y
			}
		}
	}
	x, y, i, j, ints, ok := rnum(a, b)
	if !ok {
		in.throw("")
	}
	if op == "%" {
		if !ints || j == 0 {
			in.throw("")
		}
		return i % j
	}
	if ints {
		switch op {
		case "+":
			return i + j
		case "-":
			return i - j
		case "*":
			return i * j
		}
		if j == 0 {
			in.throw("")
		}
		return i / j
	}
	switch op {
	case "+":
		return x + y
	case "-":
		return x - y
	case "*":
		return x * y
	}
	return x / y
}

func (in *rint) compare(op string, a, b interface{}) interface{} {
	if op == "==" || op == "!=" {
		return in.equal(a, b) == (op == "==")
	}
	if x, ok := a.(byte); ok {
		a = int(x)
	}
	if x, ok := b.(byte); ok {
		b = int(x)
	}
	var lt, eq bool
	if s, ok := a.(string); ok {
		t, ok := b.(string)
		if !ok {
			in.throw("")
		}
		lt, eq = s < t, s == t
	} else {
		x, y, i, j, ints, ok := rnum(a, b)
		if !ok {
			in.throw("")
		}
		if ints {
			lt, eq = i < j, i == j
		} else {
			lt, eq = x < y, x == y
			if math.IsNaN(x) || math.IsNaN(y) {
				return false
			}
		}
	}
	switch op {
	case "<":
		return lt
	case "<=":
		return lt || eq
	case ">":
		return !lt && !eq
	}
	return !lt
}

// equal: same type and same value, as Go compares interfaces.
func (in *rint) equal(a, b interface{}) bool {
	if _, ok := a.(*rbound); ok {
		if _, ok := b.(*rbound); ok && a == b {
			return true
		}
		return false
	}
	ta, tb := rtypeName(a), rtypeName(b)
	if ta != tb {
		return false
	}
	switch x := a.(type) {
	case *rbuiltin:
		in.throw("")
	case *qerr:
		return a == b
	case nil:
		return b == nil
	case reflect.Type:
		return a == b
	case bool, int, float64, byte, string, undefT, *rfn, *rclass, *robj:
		return x == b
	}
	in.throw("") // slices and maps
	return false
}

func rtypeName(v interface{}) string {
	switch v.(type) {
	case *rfn, *rclass, *robj, *rbound, *qerr, *rbuiltin, undefT:
		return fmt.Sprintf("%T", v)
	case nil:
		return "nil"
	}
	return reflect.TypeOf(v).String()
}

func (in *rint) eval(s *rscope, e qx) interface{} {
	in.step()
	switch x := e.(type) {
	case *xLit:
		return x.v
	case *xVar:
		return in.get(s, x.name)
	case *xRecov:
		in.ev("recover calls")
		if s.parent == nil {
			return nil
		}
		if in.syntax && s.parent == in.top {
			// the grammar decides: a mismatch it is sure of panics, others are returned
			panic(&rdiscard{"recover of a syntax error"})
		}
		r := s.parent.recov
		s.parent.recov = nil
		if r == nil {
			return nil
		}
		in.ev("recovered")
		return r
	case *xUn:
		v := in.eval(s, x.a)
		switch x.op {
		case "!":
			b, ok := v.(bool)
			if !ok {
				in.throw("")
			}
			return !b
		case "-":
			switch n := v.(type) {
			case int:
				return -n
			case float64:
				return -n
			}
			in.throw("")
		}
		return v
	case *xBin:
		a := in.eval(s, x.a)
		if x.op == "&&" || x.op == "||" {
			b, ok := a.(bool)
			if !ok {
				in.throw("")
			}
			if b == (x.op == "||") {
				in.ev("short circuits")
				return b
			}
			return in.eval(s, x.b)
		}
		b := in.eval(s, x.b)
		if qprec(x.op) == 3 {
			return in.compare(x.op, a, b)
		}
		return in.arith(x.op, a, b)
	case *xFn:
		return &rfn{x, x.params, s, in}
	case *xCall:
		f := in.eval(s, x.f)
		var args []interface{}
		for _, a := range x.args {
			args = append(args, in.eval(s, a))
		}
		if x.spread {
			if len(args) == 0 {
				in.throw("")
			}
			rv := reflect.ValueOf(args[len(args)-1])
			if rv.Kind() != reflect.Slice {
				in.throw("")
			}
			args = args[:len(args)-1]
			for i := 0; i < rv.Len(); i++ {
				args = append(args, rv.Index(i).Interface())
			}
			in.ev("spread calls")
		}
		return in.call(f, args)
	case *xMem:
		return in.member(in.eval(s, x.o), x.name)
	case *xIdx:
		o := in.eval(s, x.o)
		return in.index(o, in.eval(s, x.i))
	case *xSub:
		o := in.eval(s, x.o)
		var i, j interface{}
		if x.i != nil {
			i = in.eval(s, x.i)
		}
		if x.j != nil {
			j = in.eval(s, x.j)
		}
		return in.sub(o, i, j)
	case *xList:
		var args []interface{}
		for _, a := range x.el {
			args = append(args, in.eval(s, a))
		}
		return in.sliceFrom(args)
	case *xMap:
		var args []interface{}
		for _, a := range x.kv {
			args = append(args, in.eval(s, a))
		}
		return in.mapFrom(args)
	case *xIf:
		for i, c := range x.conds {
			b, ok := in.eval(s, c).(bool)
			if !ok {
				in.throw("")
			}
			if b {
				in.ev("if branches")
				return in.block(s, x.bodies[i])
			}
		}
		in.ev("else branches")
		return in.block(s, x.els)
	case *xSwitch:
		var v interface{} = true
		if x.x != nil {
			v = in.eval(s, x.x)
		}
		for i, c := range x.cases {
			if in.equal(v, in.eval(s, c)) {
				in.ev("switch cases")
				return in.block(s, x.bodies[i])
			}
		}
		in.ev("switch defaults")
		return in.block(s, x.def)
	case *xFor:
		if x.init != nil {
			in.stmt(s, x.init)
		}
		for {
			if x.cond != nil {
				v := in.stmt(s, x.cond)
				b, ok := v.(bool)
				if !ok {
					in.throw("")
				}
				if !b {
					break
				}
			}
			in.ev("loop rounds")
			in.step()
			in.block(s, x.body)
			if x.step != nil {
				in.stmt(s, x.step)
			}
		}
		return nil
	case *xNew:
		c := in.get(s, x.cls)
		var args []interface{}
		for _, a := range x.args {
			args = append(args, in.eval(s, a))
		}
		cls, ok := c.(*rclass)
		if !ok {
			in.throw("")
		}
		o := &robj{map[string]interface{}{}, cls}
		in.ev("objects")
		if init := cls.fns["_init"]; init != nil {
			in.callFn(init, append([]interface{}{o}, args...))
		} else if len(args) > 0 {
			panic(&rdiscard{"new with arguments, but no _init"})
		}
		return o
	case *xClass:
		c := &rclass{map[string]*rfn{}}
		for i, f := range x.fns {
			c.fns[x.names[i]] = &rfn{f, append([]string{"this"}, f.params...), s, in}
		}
		return c
	case *xMain:
		f := &rfn{&xFn{body: x.body}, nil, s, in}
		in.exit(in.callFn(f, nil))
	case *xRaw:
		in.ev("syntax errors")
		panic(&rthrow{e: &qerr{s: in.cur}, fatal: true})
	}
	panic(fmt.Sprintf("rint.eval %T", e))
}

func (in *rint) call(f interface{}, args []interface{}) interface{} {
	switch fn := f.(type) {
	case *rfn:
		return in.callFn(fn, args)
	case *rbound:
		if fn.o == nil { // unset
			if len(args) != 1 {
				in.throw("")
			}
			n, ok := args[0].(string)
			if !ok {
				in.throw("")
			}
			s := fn.f.scope
			delete(s.own, n)
			delete(s.ext, n)
			return nil
		}
		in.ev("method calls")
		return in.callFn(fn.f, append([]interface{}{fn.o}, args...))
	case *rbuiltin:
		if h := in.host[fn.name]; h != nil {
			return h(args)
		}
		return rBuiltins[fn.name](in, args)
	}
	in.throw("")
	return nil
}

func (in *rint) callFn(f *rfn, args []interface{}) interface{} {
	n := len(f.params)
	if f.x.variadic && len(args) < n-1 || !f.x.variadic && len(args) != n {
		in.throw("")
	}
	if len(f.x.body.st) == 0 {
		return nil
	}
	if in.depth++; in.depth > 60 {
		panic(&rdiscard{"deep recursion"})
	}
	in.ev("calls")
	s := newRscope(f.scope)
	if f.x.variadic {
		rest := append([]interface{}{}, args[n-1:]...)
		for i := 0; i < n-1; i++ {
			s.own[f.params[i]] = args[i]
		}
		s.own[f.params[n-1]] = rest
		in.ev("variadic calls")
	} else {
		for i, a := range args {
			s.own[f.params[i]] = a
		}
	}
	saved := in.cur
	s.recov = in.try(func() { in.block(s, f.x.body) })
	in.runDefers(s)
	in.cur = saved
	in.depth--
	if s.recov != nil {
		panic(&rthrow{e: s.recov})
	}
	return s.ret
}

// try runs f and returns the error it threw.
func (in *rint) try(f func()) (err *qerr) {
	in.fatal = false
	depth := in.depth
	defer func() {
		if e := recover(); e != nil {
			in.depth = depth
			switch x := e.(type) {
			case *rthrow:
				err = x.e
				in.fatal = x.fatal
			case *rreturn:
			default:
				panic(e)
			}
		}
	}()
	f()
	return nil
}

func (in *rint) runDefers(s *rscope) {
	for len(s.defers) > 0 {
		st := s.defers[len(s.defers)-1]
		s.defers = s.defers[:len(s.defers)-1]
		in.cur = st
		in.ev("deferred run")
		if err := in.try(func() { in.eval(s, st.e) }); err != nil {
			s.recov = err
		}
	}
}

func (in *rint) member(o interface{}, name string) interface{} {
	switch x := o.(type) {
	case *robj:
		if v, ok := x.vars[name]; ok {
			return v
		}
		if f := x.cls.fns[name]; f != nil {
			return &rbound{x, f}
		}
	case *rclass:
		if f := x.fns[name]; f != nil {
			return f
		}
	default:
		rv := reflect.ValueOf(o)
		if rv.Kind() == reflect.Map && rv.Type().Key().Kind() == reflect.String {
			if v := rv.MapIndex(reflect.ValueOf(name)); v.IsValid() {
				return v.Interface()
			}
		}
		switch o.(type) {
		case *qerr, *rfn, *rbound, undefT:
			panic(&rdiscard{"member of a host value"})
		}
	}
	in.throw("")
	return nil
}

// fitsKey tells if k can be a key of maps of type t.
func fitsKey(k interface{}, t reflect.Type) bool {
	if _, ok := k.(*rbuiltin); ok {
		return false // a Go function
	}
	return k != nil && reflect.TypeOf(k).AssignableTo(t.Key()) && reflect.ValueOf(k).Comparable()
}

func (in *rint) index(o, i interface{}) interface{} {
	rv := reflect.ValueOf(o)
	switch rv.Kind() {
	case reflect.Map:
		if !fitsKey(i, rv.Type()) {
			in.throw("")
		}
		in.ev("map reads")
		v := rv.MapIndex(reflect.ValueOf(i))
		if !v.IsValid() {
			return rUndef
		}
		return v.Interface()
	case reflect.Slice, reflect.String:
		n, ok := i.(int)
		if !ok || n < 0 || n >= rv.Len() {
			in.throw("")
		}
		return rv.Index(n).Interface()
	}
	in.throw("")
	return nil
}

func (in *rint) sub(o, i, j interface{}) interface{} {
	rv := reflect.ValueOf(o)
	lim := 0
	switch rv.Kind() {
	case reflect.Slice:
		lim = rv.Cap()
	case reflect.String:
		lim = rv.Len()
	default:
		in.throw("")
	}
	a, b := 0, rv.Len()
	for k, x := range []interface{}{i, j} {
		if x == nil {
			continue
		}
		n, ok := x.(int)
		if !ok {
			in.throw("")
		}
		if k == 0 {
			a = n
		} else {
			b = n
		}
	}
	if a < 0 || a > b || b > lim {
		in.throw("")
	}
	in.ev("slice expressions")
	return rv.Slice(a, b).Interface()
}

// elemKind is the common kind of values: "int", "float64", "string" or "".
func elemKind(args []interface{}) string {
	kind := ""
	for i, a := range args {
		k := ""
		switch a.(type) {
		case int:
			k = "int"
		case float64:
			k = "float64"
		case string:
			k = "string"
		}
		if k == "" {
			return ""
		}
		switch {
		case i == 0 || k == kind:
			kind = k
		case k != "string" && kind != "string":
			kind = "float64"
		default:
			return ""
		}
	}
	return kind
}

func (in *rint) sliceFrom(args []interface{}) interface{} {
	n := len(args)
	if n == 0 {
		return []interface{}(nil)
	}
	switch elemKind(args) {
	case "int":
		r := make([]int, n)
		for i, a := range args {
			r[i] = a.(int)
		}
		return r
	case "float64":
		r := make([]float64, n)
		for i, a := range args {
			r[i], _ = rfloat(a)
		}
		return r
	case "string":
		r := make([]string, n)
		for i, a := range args {
			r[i] = a.(string)
		}
		return r
	}
	r := make([]interface{}, n)
	copy(r, args)
	return r
}

func (in *rint) mapFrom(args []interface{}) interface{} {
	if len(args)%2 != 0 {
		in.throw("")
	}
	if len(args) == 0 {
		return map[string]interface{}{}
	}
	var ks, vs []interface{}
	for i := 0; i < len(args); i += 2 {
		ks, vs = append(ks, args[i]), append(vs, args[i+1])
	}
	kk, vk := elemKind(ks), elemKind(vs)
	if kk != "string" && kk != "int" {
		in.throw("")
	}
	kt, vt := reflect.TypeOf(""), reflect.TypeOf((*interface{})(nil)).Elem()
	if kk == "int" {
		kt = reflect.TypeOf(0)
	}
	switch vk {
	case "int":
		vt = reflect.TypeOf(0)
	case "float64":
		vt = reflect.TypeOf(0.0)
	case "string":
		vt = reflect.TypeOf("")
	}
	m := reflect.MakeMap(reflect.MapOf(kt, vt))
	for i, k := range ks {
		v := vs[i]
		if v == rUndef {
			continue
		}
		if vk == "float64" {
			v, _ = rfloat(v)
		}
		rv := reflect.Zero(vt)
		if v != nil {
			rv = reflect.ValueOf(v)
		}
		m.SetMapIndex(reflect.ValueOf(k), rv)
	}
	return m.Interface()
}

// grow makes room for n elements more under the policy of the run.
func (in *rint) grow(v reflect.Value, n int) reflect.Value {
	if v.Len()+n <= v.Cap() {
		return v
	}
	in.appended = true
	c := v.Len() + n
	switch in.room {
	case 1:
		c += 8 + v.Len()
	case 2:
		x := reflect.AppendSlice(v, reflect.MakeSlice(v.Type(), n, n))
		c = x.Cap()
	}
	if c > 4000 {
		panic(&rdiscard{"long slice"})
	}
	w := reflect.MakeSlice(v.Type(), v.Len(), c)
	reflect.Copy(w, v)
	if in.grown == nil {
		in.grown = map[uintptr]bool{}
	}
	in.grown[arrayEnd(w)] = true
	in.keep = append(in.keep, w) // so that the address isn't used again
	return w
}

// arrayEnd is the end of the array behind a slice.
func arrayEnd(v reflect.Value) uintptr {
	return v.Pointer() + uintptr(v.Cap())*v.Type().Elem().Size()
}

// rtype is the type a type name of qlang stands for.
func (in *rint) rtype(t interface{}) reflect.Type {
	if r, ok := t.(reflect.Type); ok {
		return r
	}
	s, _ := t.(string)
	v := reflect.TypeOf((*interface{})(nil)).Elem()
	switch s {
	case "int":
		return reflect.TypeOf(0)
	case "bool":
		return reflect.TypeOf(false)
	case "float":
		return reflect.TypeOf(0.0)
	case "string":
		return reflect.TypeOf("")
	case "byte":
		return reflect.TypeOf(byte(0))
	case "var":
		return v
	case "string:int":
		return reflect.TypeOf(map[string]int{})
	case "string:float":
		return reflect.TypeOf(map[string]float64{})
	case "string:string":
		return reflect.TypeOf(map[string]string{})
	case "string:var":
		return reflect.TypeOf(map[string]interface{}{})
	}
	in.throw("")
	return nil
}

// store converts an element for a slice or map of elements of type t.
func (in *rint) store(v interface{}, t reflect.Type) reflect.Value {
	if v == nil {
		return reflect.Zero(t)
	}
	rv := reflect.ValueOf(v)
	if !rv.Type().AssignableTo(t) {
		in.throw("")
	}
	return rv
}

func (in *rint) nargs(args []interface{}, min, max int) {
	if len(args) < min || max >= 0 && len(args) > max {
		in.throw("")
	}
}

var rBuiltins map[string]func(in *rint, a []interface{}) interface{}

func init() {
	minmax := func(less bool) func(in *rint, a []interface{}) interface{} {
		return func(in *rint, a []interface{}) interface{} {
			if len(a) == 0 {
				return 0
			}
			k := elemKind(a)
			if k != "int" && k != "float64" {
				in.throw("")
			}
			best := a[0]
			for _, x := range a[1:] {
				op := ">"
				if less {
					op = "<"
				}
				if in.compare(op, x, best) == true {
					best = x
				}
			}
			if k == "float64" {
				best, _ = rfloat(best)
			}
			return best
		}
	}
	rBuiltins = map[string]func(in *rint, a []interface{}) interface{}{
		"len": func(in *rint, a []interface{}) interface{} {
			in.nargs(a, 1, 1)
			if a[0] == nil {
				return 0
			}
			v := reflect.ValueOf(a[0])
			switch v.Kind() {
			case reflect.Slice, reflect.Map, reflect.String:
				return v.Len()
			}
			in.throw("")
			return nil
		},
		"cap": func(in *rint, a []interface{}) interface{} {
			in.nargs(a, 1, 1)
			if a[0] == nil {
				return 0
			}
			v := reflect.ValueOf(a[0])
			if v.Kind() == reflect.Slice {
				if in.grown[arrayEnd(v)] && v.Cap() > 0 {
					panic(&rdiscard{"capacity"})
				}
				return v.Cap()
			}
			in.throw("")
			return nil
		},
		"append": func(in *rint, a []interface{}) interface{} {
			in.nargs(a, 1, -1)
			v := reflect.ValueOf(a[0])
			if v.Kind() != reflect.Slice {
				in.throw("")
			}
			t := v.Type().Elem()
			var vals []reflect.Value
			for _, x := range a[1:] {
				if t.Kind() == reflect.Float64 {
					if x == nil {
						in.throw("")
					}
					if i, ok := x.(int); ok {
						x = float64(i)
					}
				}
				vals = append(vals, in.store(x, t))
			}
			in.ev("appends")
			n := v.Len()
			v = in.grow(v, len(vals))
			v = v.Slice(0, n+len(vals))
			for i, x := range vals {
				v.Index(n + i).Set(x)
			}
			return v.Interface()
		},
		"sub": func(in *rint, a []interface{}) interface{} {
			in.nargs(a, 3, 3)
			return in.sub(a[0], a[1], a[2])
		},
		"get": func(in *rint, a []interface{}) interface{} {
			in.nargs(a, 2, 2)
			return in.index(a[0], a[1])
		},
		"set": func(in *rint, a []interface{}) interface{} {
			in.nargs(a, 1, -1)
			if len(a)%2 == 0 {
				in.throw("")
			}
			in.ev("sets")
			if o, ok := a[0].(*robj); ok {
				for i := 1; i < len(a); i += 2 {
					n, ok := a[i].(string)
					if !ok || o.cls.fns[n] != nil {
						in.throw("")
					}
					o.vars[n] = a[i+1]
				}
				return nil
			}
			v := reflect.ValueOf(a[0])
			switch v.Kind() {
			case reflect.Map:
				for i := 1; i < len(a); i += 2 {
					if !fitsKey(a[i], v.Type()) {
						in.throw("")
					}
					k := reflect.ValueOf(a[i])
					if a[i+1] == rUndef {
						v.SetMapIndex(k, reflect.Value{})
						continue
					}
					v.SetMapIndex(k, in.store(a[i+1], v.Type().Elem()))
				}
			case reflect.Slice:
				for i := 1; i < len(a); i += 2 {
					n, ok := a[i].(int)
					if !ok || n < 0 || n >= v.Len() || a[i+1] == nil {
						in.throw("")
					}
					v.Index(n).Set(in.store(a[i+1], v.Type().Elem()))
				}
			default:
				in.throw("")
			}
			return nil
		},
		"delete": func(in *rint, a []interface{}) interface{} {
			in.nargs(a, 2, 2)
			v := reflect.ValueOf(a[0])
			if v.Kind() != reflect.Map || !fitsKey(a[1], v.Type()) {
				in.throw("")
			}
			v.SetMapIndex(reflect.ValueOf(a[1]), reflect.Value{})
			return nil
		},
		"mkmap": func(in *rint, a []interface{}) interface{} {
			in.nargs(a, 1, -1)
			for _, n := range a[1:] {
				if _, ok := n.(int); !ok {
					in.throw("")
				}
			}
			t := in.rtype(a[0])
			if t.Kind() != reflect.Map {
				in.throw("")
			}
			return reflect.MakeMap(t).Interface()
		},
		"mapOf": func(in *rint, a []interface{}) interface{} {
			in.nargs(a, 2, 2)
			k := in.rtype(a[0])
			if !k.Comparable() {
				in.throw("")
			}
			return reflect.MapOf(k, in.rtype(a[1]))
		},
		"sliceOf": func(in *rint, a []interface{}) interface{} {
			in.nargs(a, 1, 1)
			return reflect.SliceOf(in.rtype(a[0]))
		},
		"mapFrom":   func(in *rint, a []interface{}) interface{} { return in.mapFrom(a) },
		"sliceFrom": func(in *rint, a []interface{}) interface{} { return in.sliceFrom(a) },
		"slice": func(in *rint, a []interface{}) interface{} {
			in.nargs(a, 1, -1)
			if len(a) > 3 {
				panic(&rdiscard{"slice with more arguments"})
			}
			n, c := 0, 0
			for i, x := range a[1:] {
				v, ok := x.(int)
				if !ok {
					in.throw("")
				}
				if c = v; i == 0 {
					n = v
				}
			}
			t := in.rtype(a[0])
			if n < 0 || n > c || c > 1<<16 {
				in.throw("")
			}
			return reflect.MakeSlice(reflect.SliceOf(t), n, c).Interface()
		},
		"float": func(in *rint, a []interface{}) interface{} {
			in.nargs(a, 1, 1)
			if b, ok := a[0].(byte); ok {
				return float64(b)
			}
			f, ok := rfloat(a[0])
			if !ok {
				in.throw("")
			}
			return f
		},
		"int": func(in *rint, a []interface{}) interface{} {
			in.nargs(a, 1, 1)
			switch x := a[0].(type) {
			case int:
				return x
			case byte:
				return int(x)
			case float64:
				if !(math.Abs(x) < 1e18) {
					panic(&rdiscard{"int of a large float"})
				}
				return int(x)
			}
			in.throw("")
			return nil
		},
		"byte": func(in *rint, a []interface{}) interface{} {
			in.nargs(a, 1, 1)
			switch x := a[0].(type) {
			case int:
				return byte(x)
			case byte:
				return x
			case float64:
				if !(x >= 0 && x < 256) {
					panic(&rdiscard{"byte of a large float"})
				}
				return byte(x)
			}
			in.throw("")
			return nil
		},
		"string": func(in *rint, a []interface{}) interface{} {
			in.nargs(a, 1, 1)
			switch x := a[0].(type) {
			case int:
				r := rune(0xfffd)
				if x >= 0 && x <= 0x10ffff && (x < 0xd800 || x > 0xdfff) {
					r = rune(x)
				}
				return string([]rune{r})
			case byte:
				return string([]rune{rune(x)})
			case []byte:
				return string(x)
			}
			in.throw("")
			return nil
		},
		"max": minmax(false),
		"min": minmax(true),
		"panic": func(in *rint, a []interface{}) interface{} {
			in.nargs(a, 1, 1)
			in.ev("panics")
			switch x := a[0].(type) {
			case string:
				in.throw(x)
			case *qerr:
				panic(&rthrow{e: &qerr{msg: x.msg, s: x.s, opt: true}})
			}
			panic(&rdiscard{"panic with another value"})
		},
		"panicf": func(in *rint, a []interface{}) interface{} {
			in.nargs(a, 1, -1)
			f, ok := a[0].(string)
			if !ok {
				in.throw("")
			}
			for _, x := range a[1:] {
				switch x.(type) {
				case int, string, bool, float64:
				default:
					panic(&rdiscard{"panicf"})
				}
			}
			in.ev("panics")
			in.throw(fmt.Sprintf(f, a[1:]...))
			return nil
		},
		"type": func(in *rint, a []interface{}) interface{} {
			in.nargs(a, 1, 1)
			switch a[0].(type) {
			case nil:
				return nil
			case int, float64, string, bool, byte:
				return reflect.TypeOf(a[0])
			}
			if k := reflect.TypeOf(a[0]).Kind(); k == reflect.Slice || k == reflect.Map {
				return reflect.TypeOf(a[0])
			}
			panic(&rdiscard{"type of an object"})
		},
	}
}

// ---------------------------------------------------------------- snapshots

// snap describes a value of the reference at this moment. Errors are written as
// "error{cause@lo-hi}".
func (in *rint) snap(v interface{}, d int) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case *rfn, *rbound, *rbuiltin:
		return "function"
	case *rclass:
		return "class"
	case *robj:
		return "object"
	case undefT:
		return "undefined"
	case *qerr:
		return in.errMark(x)
	case string:
		return fmt.Sprintf("%q", x)
	case float64:
		return "float64:" + floatText(x)
	case bool, int, byte:
		return fmt.Sprintf("%T:%v", v, v)
	case reflect.Type:
		return "type:" + x.String()
	}
	return snapColl(reflect.ValueOf(v), d, in.snap)
}

// errMark stands for an error in a snapshot.
func (in *rint) errMark(e *qerr) string {
	lo, hi, file, inner := 0, 0, "", ""
	if e.s != nil && !e.opt && !e.stale && e.s.snip == in.snip {
		lo, hi, file = e.s.lo, e.s.hi, e.s.file
		for _, x := range e.s.inner {
			inner += fmt.Sprintf(",%d-%d", x[0], x[1])
		}
	}
	return fmt.Sprintf("\x01%d %d %q %q %q\x02", lo, hi, file, snapSafe(e.msg), inner)
}

// snapSafe keeps the delimiters of errors in snapshots unambiguous.
func snapSafe(s string) string {
	return strings.NewReplacer("\x01", "␁", "\x02", "␂").Replace(s)
}

func floatText(x float64) string {
	if math.IsNaN(x) {
		return "NaN"
	}
	return fmt.Sprintf("%016x", math.Float64bits(x))
}

func snapColl(v reflect.Value, d int, f func(v interface{}, d int) string) string {
	if d > 6 {
		return "…"
	}
	switch v.Kind() {
	case reflect.Slice:
		var b strings.Builder
		b.WriteString(v.Type().String() + "[")
		for i := 0; i < v.Len(); i++ {
			b.WriteString(f(v.Index(i).Interface(), d+1) + " ")
			if b.Len() > 20000 {
				return b.String()
			}
		}
		return b.String() + "]"
	case reflect.Map:
		var l []string
		for _, k := range v.MapKeys() {
			l = append(l, f(k.Interface(), d+1)+":"+f(v.MapIndex(k).Interface(), d+1))
		}
		sort.Strings(l)
		return v.Type().String() + "{" + strings.Join(l, " ") + "}"
	}
	return fmt.Sprintf("%T", v.Interface())
}
