package main

// Sizes: histories that grow in one dimension.

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/qiniu/text/tpl/qlang"
	"github.com/qiniu/text/tpl/qlang/spec"
)

// check compares what the engines see of a name.
func (h *history) check(fresh qlang.Qlang, names ...string) {
	for _, n := range names {
		for which, l := range map[string]qlang.Qlang{"old": h.old, "new": fresh} {
			if d := h.look(l, which, n, h.syms[n]); d != "" {
				if len(d) > 300 {
					d = d[:300] + "..."
				}
				failf("%s", d)
			}
			h.ev["symbols looked at"]++
		}
	}
}

func cyc(s string, n int) string {
	rs := []rune(s)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(rs[i%len(rs)])
	}
	return b.String()
}

// imports makes an import and compares its outcome.
func (h *history) imports(mod string, vals map[string]val, refused bool) {
	t := map[string]interface{}{}
	for k, v := range vals {
		t[k] = v.v
	}
	if e := panics(func() { qlang.Import(mod, t) }); (e != nil) != refused {
		failf("the import panics: %.200v, expected %v", e, refused)
	}
	if refused {
		h.ev["conflicts"]++
		return
	}
	h.ev["imports"]++
	if mod != "" {
		h.syms[mod] = &sym{mod: vals}
		h.ev["modules imported"]++
		return
	}
	for k, v := range vals {
		h.syms[k] = &sym{val: v}
	}
}

// look for member k of a module.
func (h *history) member(mod, k string, want val) {
	for _, l := range []qlang.Qlang{h.old, newEngine()} {
		got, err := eval(l, mod+"."+k)
		if err != nil || !want.is(got) {
			failf("%.50s.%.50s gives %v (%.200v), expected %v", mod, k, got, err, want)
		}
	}
}

func (h *history) some(n int) []int {
	return []int{0, n - 1, h.r.n(n), h.r.n(n), h.r.n(n)}
}

func (h *history) big(dim string, n int) {
	r := h.r
	name := func(i int) string { return "n" + strconv.Itoa(i) }
	kind := func() string { return r.pick("int", "func", "string", "nil", "func1", "funcv") }
	table := func(n int) map[string]val {
		vals := map[string]val{}
		for i := 0; i < n; i++ {
			ids++
			vals[name(i)] = mkVal(kind(), ids)
		}
		return vals
	}
	safe := r.p(40)
	spec.SafeMode = safe
	switch dim {
	case "names of a table":
		if r.p(50) && n > 30 { // the operators among them
			t := table(n)
			for k, c := range holders {
				ids++
				t[k] = mkVal([]string{"", "func1", "func2"}[c], ids)
			}
			h.imports("", t, false)
		} else {
			h.imports("", table(n), false)
		}
		fresh := newEngine()
		for k := range holders {
			h.check(fresh, k)
		}
		for _, i := range h.some(n) {
			h.check(fresh, name(i))
			h.imports("", map[string]val{name(i): mkVal("int", 1)}, true)
			h.imports(name(i), map[string]val{"a": mkVal("int", 1)}, true)
			h.check(fresh, name(i))
		}
		h.check(fresh, name(n))
	case "members of a module":
		t := table(n)
		h.imports("m0", t, false)
		for _, i := range h.some(n) {
			h.member("m0", name(i), t[name(i)])
		}
		h.imports("m0", map[string]val{"a": mkVal("int", 1)}, true)
		h.check(newEngine(), "m0", "m1", name(0))
	case "modules":
		for i := 0; i < n; i++ {
			ids++
			h.imports(name(i), map[string]val{"a": mkVal("func", ids), "b": mkVal("int", i)}, false)
		}
		fresh := newEngine()
		for _, i := range h.some(n) {
			h.check(fresh, name(i))
			h.imports(name(i), map[string]val{"a": mkVal("int", 1)}, true)
			h.check(fresh, name(i))
		}
		h.check(fresh, name(n))
	case "imports of symbols":
		for i := 0; i < n; i++ {
			ids++
			h.imports("", map[string]val{name(i): mkVal(kind(), ids)}, false)
		}
		fresh := newEngine()
		for _, i := range h.some(n) {
			h.check(fresh, name(i))
		}
		h.check(fresh, name(n))
	case "imports refused":
		h.imports("", map[string]val{"g0": mkVal("func", 1)}, false)
		h.imports("m0", map[string]val{"a": mkVal("func", 2)}, false)
		for i := 0; i < n; i++ {
			switch r.n(3) {
			case 0:
				h.imports("", map[string]val{"g0": mkVal("func", 5)}, true)
			case 1:
				h.imports("m0", map[string]val{"a": mkVal("func", 5)}, true)
			case 2:
				h.imports("", map[string]val{"$pushi": mkVal("func1", 5)}, true)
			}
		}
		h.imports("", map[string]val{"g1": mkVal("func", 3), "$add": mkVal("func2", 4)}, false)
		h.imports("m1", map[string]val{"a": mkVal("func", 5)}, false)
		h.check(newEngine(), "g0", "g1", "g2", "m0", "m1", "m2", "$add", "$sub")
	case "characters of a name":
		k := cyc(r.pick("abc_X9", "é变x", "a"), n)
		h.imports("", map[string]val{k: mkVal("func", 1), k + "x": mkVal("func", 2)}, false)
		h.imports(k+"y", map[string]val{k: mkVal("func", 3), k + "x": mkVal("int", 4)}, false)
		h.check(newEngine(), k, k+"x", k+"z")
		h.member(k+"y", k, mkVal("func", 3))
		h.member(k+"y", k+"x", mkVal("int", 4))
		h.imports("", map[string]val{k: mkVal("func", 5)}, true)
		h.imports(k+"y", map[string]val{k: mkVal("func", 5)}, true)
		h.check(newEngine(), k, k+"x", k+"z")
	case "hooks":
		spec.SafeMode = true
		ran := 0
		for i := 0; i < n; i++ {
			i := i
			ids++
			v, w := mkVal("func", ids), mkVal("func1", ids)
			bad := r.p(10)
			t := map[string]interface{}{"a": v.v, "b": w.v, "c": 1}
			t["_initSafe"] = func(t map[string]interface{}, unsafe func(...interface{}) interface{}) {
				ran++
				t["b"] = unsafe
				delete(t, "c")
				delete(t, "_initSafe")
				if bad {
					panic("not safe")
				}
			}
			e := panics(func() { qlang.Import(name(i), t) })
			if (e != nil) != bad || ran != i+1 {
				failf("import %d: %v, %d hooks have run", i, e, ran)
			}
			if !bad {
				h.syms[name(i)] = &sym{mod: map[string]val{"a": v, "b": {kind: "unsafe", id: w.id}}}
			}
		}
		h.ev["hooks run"] += ran
		fresh := newEngine()
		for _, i := range h.some(n) {
			h.check(fresh, name(i))
		}
		h.check(fresh, name(n))
	case "engines":
		l := []qlang.Qlang{h.old}
		for i := 0; i < n; i++ {
			l = append(l, newEngine())
			if i%3 == 0 {
				ids++
				h.imports(name(i), map[string]val{"a": mkVal("func", ids)}, false)
			}
			if i%7 == 0 {
				ids++
				h.imports("", map[string]val{"s" + name(i): mkVal("func", ids)}, false)
			}
		}
		for _, i := range h.some(n) {
			h.old = l[i]
			h.check(l[n], name(i), "s"+name(i), name(0), "sn0")
		}
	default:
		panic(fmt.Sprint("unknown dimension ", dim))
	}
}
