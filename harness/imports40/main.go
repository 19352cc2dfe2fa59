// imports40 runs histories of imports (C40). It doesn't link the builtin package, so the operators
// are placeholders at the start of each history. Each line of standard input is the seed of a
// history (and its dimension and size), each line of output its outcome.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/qiniu/text/tpl/qlang"
	"github.com/qiniu/text/tpl/qlang/spec"
)

type rnd struct{ s uint64 }

func (r *rnd) n(n int) int {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return int((z ^ (z >> 31)) % uint64(n))
}

func (r *rnd) p(pct int) bool { return r.n(100) < pct }

func (r *rnd) pick(l ...string) string { return l[r.n(len(l))] }

type fail string

func failf(f string, a ...interface{}) { panic(fail(fmt.Sprintf(f, a...))) }

// val is a value to import and how to recognize it.
type val struct {
	kind string
	id   int
	v    interface{}
}

func (v val) String() string { return v.kind + strconv.Itoa(v.id) }

var ids int

func newVal(r *rnd) val {
	ids++
	id := ids
	kind := r.pick("int", "string", "func", "func", "func1", "func2", "nil", "nilfunc", "bool", "map", "funcv")
	return mkVal(kind, id)
}

func mkVal(kind string, id int) val {
	v := val{kind: kind, id: id}
	switch kind {
	case "int":
		v.v = id
	case "string":
		v.v = "s" + strconv.Itoa(id)
	case "func":
		v.v = func() int { return id }
	case "func1":
		v.v = func(a interface{}) interface{} { return id }
	case "func2":
		v.v = func(a, b interface{}) interface{} { return id }
	case "funcv":
		v.v = func(a ...interface{}) interface{} { return id }
	case "nil":
	case "nilfunc":
		v.v = (func())(nil)
	case "bool":
		v.v = id%2 == 0
	case "map":
		v.v = map[string]interface{}{"id": id}
	}
	return v
}

// is tells whether got is the value.
func (v val) is(got interface{}) bool {
	switch v.kind {
	case "func":
		f, ok := got.(func() int)
		return ok && f != nil && f() == v.id
	case "func1":
		f, ok := got.(func(interface{}) interface{})
		return ok && f(1) == v.id
	case "func2":
		f, ok := got.(func(a, b interface{}) interface{})
		return ok && f(1, 2) == v.id
	case "funcv":
		f, ok := got.(func(...interface{}) interface{})
		return ok && f(1, 2) == v.id
	case "unsafe":
		f, ok := got.(func(...interface{}) interface{})
		if !ok {
			return false
		}
		return panics(func() { f(1) }) != nil
	case "nilfunc":
		f, ok := got.(func())
		return ok && f == nil
	case "map":
		m, ok := got.(map[string]interface{})
		return ok && len(m) == 1 && m["id"] == v.id
	case "hook":
		return got != nil && reflect.TypeOf(got) == reflect.TypeOf(v.v)
	}
	return got == v.v
}

func panics(f func()) (e interface{}) {
	defer func() { e = recover() }()
	f()
	return
}

// sym is what the model knows of a symbol.
type sym struct {
	val    val
	mod    map[string]val // a module
	holder bool           // a placeholder
	fixed  bool           // of the language itself
}

type result struct {
	Input  string
	Fail   string
	Events map[string]int
}

type history struct {
	r      *rnd
	log    []string
	syms   map[string]*sym
	names  []string // names looked at
	old    qlang.Qlang
	ev     map[string]int
	nested bool
}

var (
	initial = map[string]interface{}{}
	holders = map[string]int{"$neg": 1, "$mul": 2, "$quo": 2, "$mod": 2, "$add": 2, "$sub": 2, "$lt": 2, "$gt": 2, "$le": 2, "$ge": 2, "$eq": 2, "$ne": 2, "$not": 1}
	opText  = map[string]string{"$neg": "-5", "$mul": "3 * 4", "$quo": "3 / 4", "$mod": "3 % 4", "$add": "3 + 4", "$sub": "3 - 4", "$lt": "3 < 4", "$gt": "3 > 4", "$le": "3 <= 4", "$ge": "3 >= 4", "$eq": "3 == 4", "$ne": "3 != 4", "$not": "!5"}
	globals = []string{"g0", "g1", "g2", "g3", "été", "_p", "m0", "m1", "Len", "_initSafe"}
	mods    = []string{"m0", "m1", "m2", "g0", "模"}
	members = []string{"a", "b", "g0", "len", "_x", "main", "new", "class", "_initSafe"}
)

func newEngine() qlang.Qlang {
	l, err := qlang.New(nil)
	if err != nil {
		failf("qlang.New: %v", err)
	}
	return l
}

// eval evaluates an expression.
func eval(l qlang.Qlang, expr string) (interface{}, error) {
	l.SetVar("it", nil)
	var err error
	if e := panics(func() { err = l.SafeEval("it = " + expr) }); e != nil {
		failf("%s: panic: %v", expr, e)
	}
	if err != nil {
		return nil, err
	}
	v, _ := l.Var("it")
	return v, nil
}

// look compares the symbol a script sees with what the model knows.
func (h *history) look(l qlang.Qlang, which, name string, s *sym) string {
	if strings.HasPrefix(name, "$") {
		text, ok := opText[name]
		if !ok || which != "new" {
			return ""
		}
		got, err := eval(l, text)
		if s.holder {
			if err == nil {
				return fmt.Sprintf("%s gives %v without an implementation", text, got)
			}
			return ""
		}
		if err != nil || got != s.val.id {
			return fmt.Sprintf("%s gives %v (%v), expected %d", text, got, err, s.val.id)
		}
		return ""
	}
	got, err := eval(l, name)
	if s == nil {
		if err == nil {
			return fmt.Sprintf("the %s engine sees %v as %s, which isn't imported", which, got, name)
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("the %s engine doesn't see %s: %v", which, name, err)
	}
	if s.mod == nil {
		if !s.val.is(got) {
			return fmt.Sprintf("the %s engine sees %v as %s, expected %v", which, got, name, s.val)
		}
		switch s.val.kind {
		case "func", "func1", "func2", "funcv":
			args := map[string]string{"func": "()", "func1": "(1)", "func2": "(1, 2)", "funcv": "(1, 2, 3)"}[s.val.kind]
			if got, err := eval(l, name+args); err != nil || got != s.val.id {
				return fmt.Sprintf("%s%s gives %v (%v), expected %d", name, args, got, err, s.val.id)
			}
		case "unsafe":
			if got, err := eval(l, name+"(1)"); err == nil {
				return fmt.Sprintf("%s(1) gives %v though the hook disabled it", name, got)
			}
		}
		return ""
	}
	m, ok := got.(map[string]interface{})
	if !ok || len(m) != len(s.mod) {
		return fmt.Sprintf("the %s engine sees %v as module %s, expected %v", which, got, name, s.mod)
	}
	for k, v := range m {
		if w, ok := s.mod[k]; !ok || !w.is(v) {
			return fmt.Sprintf("module %s has %s = %v, expected %v (%v)", name, k, v, w, ok)
		}
	}
	for _, k := range members {
		got, err := eval(l, name+"."+k)
		w, ok := s.mod[k]
		if ok != (err == nil) || ok && !w.is(got) {
			return fmt.Sprintf("%s.%s gives %v (%v), expected %v (%v)", name, k, got, err, w, ok)
		}
		if ok && w.kind == "func" {
			if got, err := eval(l, name+"."+k+"()"); err != nil || got != w.id {
				return fmt.Sprintf("%s.%s() gives %v (%v), expected %d", name, k, got, err, w.id)
			}
		}
		if ok && w.kind == "unsafe" {
			if _, err := eval(l, name+"."+k+"()"); err == nil {
				return fmt.Sprintf("%s.%s() works though the hook disabled it", name, k)
			}
		}
	}
	return ""
}

func (h *history) lookAll() {
	fresh := newEngine()
	for _, n := range h.names {
		if s := h.syms[n]; s != nil && s.fixed {
			continue
		}
		for which, l := range map[string]qlang.Qlang{"old": h.old, "new": fresh} {
			if d := h.look(l, which, n, h.syms[n]); d != "" {
				failf("%s", d)
			}
			h.ev["symbols looked at"]++
		}
	}
	for n, v := range initial {
		if s := h.syms[n]; s != nil && s.fixed {
			if got, ok := spec.Fntable[n]; !ok || reflect.ValueOf(got).Pointer() != reflect.ValueOf(v).Pointer() {
				failf("%s of the language was replaced", n)
			}
		}
	}
}

func (h *history) say(f string, a ...interface{}) { h.log = append(h.log, fmt.Sprintf(f, a...)) }

func tableText(t map[string]val) string {
	var l []string
	for k, v := range t {
		l = append(l, k+":"+v.String())
	}
	sort.Strings(l)
	return "{" + strings.Join(l, " ") + "}"
}

func (h *history) imp() {
	r := h.r
	mod := ""
	names := append([]string{}, members...)
	if r.p(45) {
		mod = mods[r.n(len(mods))]
		if r.p(3) {
			mod = "$ref"
		}
	} else {
		names = append([]string{}, globals...)
		for k := range holders {
			names = append(names, k)
		}
		sort.Strings(names)
		if r.p(15) {
			names = append(names, "$and", "$or", "$ref", "$pushi", "$call")
		}
	}
	vals := map[string]val{}
	for i := r.n(5); i > 0; i-- {
		n := names[r.n(len(names))]
		if mod == "" && r.p(40) { // a new name, mostly
			n = names[r.n(len(names))]
		}
		v := newVal(r)
		if k := holders[n]; k > 0 && mod == "" {
			v = mkVal([]string{"", "func1", "func2"}[k], v.id)
		}
		if n == "_initSafe" {
			continue
		}
		vals[n] = v
	}
	table := map[string]interface{}{}
	// the hook
	hookPanics, badHook := false, false
	var edits []string
	extra := map[string]val{}
	hooked := false
	var ran int
	if r.p(35) {
		badHook = r.p(20)
		if badHook {
			v := newVal(r)
			vals["_initSafe"] = v
		} else {
			hookPanics = r.p(12)
			for k := range vals {
				edits = append(edits, k)
			}
			sort.Strings(edits)
			plan := map[string]string{}
			for _, k := range edits {
				plan[k] = r.pick("keep", "keep", "delete", "unsafe", "replace")
				if mod == "" && holders[k] > 0 {
					plan[k] = r.pick("keep", "delete")
				}
				if plan[k] == "replace" {
					extra[k] = newVal(r)
				}
			}
			if r.p(30) {
				k := names[r.n(len(names))]
				if _, ok := vals[k]; !ok && (mod != "" || holders[k] == 0 && k[0] != '$') && k != "_initSafe" {
					plan[k] = "replace"
					extra[k] = newVal(r)
				}
			}
			if r.p(20) {
				plan["_initSafe"] = "delete"
			}
			hook := func(t map[string]interface{}, unsafe func(...interface{}) interface{}) {
				ran++
				if reflect.ValueOf(t).Pointer() != reflect.ValueOf(table).Pointer() {
					failf("the hook gets another table")
				}
				if d := h.unseen(mod, vals); d != "" {
					failf("when the hook runs: %s", d)
				}
				for k, p := range plan {
					switch p {
					case "delete":
						delete(t, k)
					case "unsafe":
						t[k] = unsafe
					case "replace":
						t[k] = extra[k].v
					}
				}
				if hookPanics {
					panic("not safe")
				}
			}
			vals["_initSafe"] = val{kind: "hook", v: hook}
			if spec.SafeMode {
				after := map[string]val{}
				for k, v := range vals {
					switch plan[k] {
					case "delete":
						continue
					case "unsafe":
						v = val{kind: "unsafe", id: v.id}
					case "replace":
						v = extra[k]
					}
					after[k] = v
				}
				for k, p := range plan {
					if _, ok := vals[k]; !ok && p == "replace" {
						after[k] = extra[k]
					}
				}
				for k, v := range vals {
					table[k] = v.v
				}
				h.say("import %q %s safe hook %v panics %v", mod, tableText(vals), plan, hookPanics)
				vals, hooked = after, true
			}
		}
	}
	if !hooked {
		for k, v := range vals {
			table[k] = v.v
		}
		h.say("import %q %s safe %v", mod, tableText(vals), spec.SafeMode)
	}
	safeHook := hooked
	conflict := []string{}
	if mod != "" {
		if h.syms[mod] != nil {
			conflict = append(conflict, mod)
		}
	} else {
		for k := range vals {
			if s := h.syms[k]; s != nil && !s.holder {
				conflict = append(conflict, k)
			}
		}
	}
	wantPanic := len(conflict) > 0 || spec.SafeMode && badHook || safeHook && hookPanics
	e := panics(func() { qlang.Import(mod, table) })
	if f, ok := e.(fail); ok {
		panic(f)
	}
	if wantPanic != (e != nil) {
		failf("the import panics: %v, expected %v (conflicts %v)", e, wantPanic, conflict)
	}
	if safeHook && (ran > 1 || ran == 0 && len(conflict) == 0) || !safeHook && ran > 0 {
		failf("the hook ran %d times (safe mode %v)", ran, spec.SafeMode)
	}
	h.ev["hooks run"] += ran
	if e != nil && spec.SafeMode && (badHook || safeHook && hookPanics) {
		h.ev["refused in safe mode"]++
		return
	}
	if e == nil {
		h.ev["imports"]++
		if mod != "" {
			h.syms[mod] = &sym{mod: vals}
			h.ev["modules imported"]++
			return
		}
		for k, v := range vals {
			if s := h.syms[k]; s != nil {
				h.ev["placeholders filled"]++
			}
			h.syms[k] = &sym{val: v}
		}
		return
	}
	h.ev["conflicts"]++
	for _, k := range conflict {
		if s := h.syms[k]; s.fixed {
			h.ev["conflicts with the language"]++
		} else if holders[k] > 0 {
			h.ev["placeholders filled twice"]++
		}
	}
	if mod != "" {
		return
	}
	// what else the table holds may have been imported before the conflict was seen
	fresh := newEngine()
	for k, v := range vals {
		if s := h.syms[k]; s != nil && !s.holder {
			continue
		}
		n := &sym{val: v}
		if h.look(fresh, "new", k, n) == "" {
			h.syms[k] = n
		}
	}
}

// unseen tells if something of a table is visible too early.
func (h *history) unseen(mod string, vals map[string]val) string {
	if mod != "" {
		return h.look(h.old, "old", mod, h.syms[mod])
	}
	fresh := newEngine()
	for k := range vals {
		if s := h.syms[k]; s == nil || !s.fixed {
			if d := h.look(fresh, "new", k, s); d != "" {
				return d
			}
		}
	}
	return ""
}

func (h *history) run() {
	r := h.r
	for i := 1 + r.n(9); i > 0; i-- {
		if r.p(25) {
			spec.SafeMode = !spec.SafeMode
			h.say("safe mode %v", spec.SafeMode)
		}
		h.imp()
		h.lookAll()
	}
}

func play(seed uint64, dim string, n int) (res result) {
	for n := range spec.Fntable {
		delete(spec.Fntable, n)
	}
	h := &history{r: &rnd{seed}, syms: map[string]*sym{}, ev: map[string]int{}}
	h.r.n(2)
	ids = 0
	for n, v := range initial {
		spec.Fntable[n] = v
		h.syms[n] = &sym{fixed: true}
		if holders[n] > 0 {
			h.syms[n] = &sym{holder: true}
		}
	}
	spec.SafeMode = false
	seen := map[string]bool{}
	for _, l := range [][]string{globals, mods} {
		for _, n := range l {
			if !seen[n] {
				seen[n] = true
				h.names = append(h.names, n)
			}
		}
	}
	for n := range holders {
		h.names = append(h.names, n)
	}
	sort.Strings(h.names)
	res.Events = h.ev
	defer func() {
		res.Input = strings.Join(h.log, "\n")
		if e := recover(); e != nil {
			if f, ok := e.(fail); ok {
				res.Fail = string(f)
			} else {
				res.Fail = fmt.Sprintf("panic: %v", e)
			}
		}
	}()
	h.old = newEngine()
	if dim != "" {
		h.say("%s at size %d", dim, n)
		h.big(dim, n)
		return
	}
	h.run()
	return
}

func main() {
	for n, v := range spec.Fntable {
		initial[n] = v
	}
	sc := bufio.NewScanner(os.Stdin)
	out := json.NewEncoder(os.Stdout)
	for sc.Scan() {
		// SEED or SEED,SIZE,DIMENSION
		f := strings.SplitN(sc.Text(), ",", 3)
		dim, n := "", 0
		if len(f) == 3 {
			dim = f[2]
			n, _ = strconv.Atoi(f[1])
		}
		seed, err := strconv.ParseUint(f[0], 10, 64)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		out.Encode(play(seed, dim, n))
	}
}
