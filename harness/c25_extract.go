package main

// C25, C26: the extractor. The reference turns the events of the reference matcher (leaf matched,
// node begun, node ended) into a document.

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/qiniu/text/tpl/extractor"
)

// xmark is a mark of the extractor.
type xmark struct {
	tag, typ string
	array    bool
}

// xent is an entry of a node.
type xent struct {
	xmark
	val  interface{}
	node *xnode
}

type xnode struct {
	ents []xent
	up   *xnode
}

// doc makes the document; entries under one tag are of one kind.
func (n *xnode) doc() map[string]interface{} {
	if len(n.ents) == 0 {
		return nil
	}
	m := map[string]interface{}{}
	for _, e := range n.ents {
		switch {
		case e.array && e.node != nil:
			l, _ := m[e.tag].([]map[string]interface{})
			m[e.tag] = append(l, e.node.doc())
		case e.array:
			l, _ := m[e.tag].([]interface{})
			m[e.tag] = append(l, e.val)
		default:
			if _, ok := m[e.tag]; ok {
				break // the first one counts
			}
			if e.node != nil {
				m[e.tag] = e.node.doc()
			} else {
				m[e.tag] = e.val
			}
		}
	}
	return m
}

var errBadValue = errors.New("bad value")

// stdValue is the documented conversion.
func stdValue(typ, lit string) (interface{}, error) {
	switch typ {
	case "Text":
		return lit, nil
	case "String":
		return strconv.Unquote(lit)
	case "Int":
		return strconv.ParseInt(lit, 10, 64)
	case "Float":
		return strconv.ParseFloat(lit, 64)
	case "Char":
		if len(lit) < 3 || lit[0] != '\'' {
			return nil, errBadValue
		}
		s, err := strconv.Unquote(lit)
		if err != nil || len([]rune(s)) != 1 {
			return nil, errBadValue
		}
		if s[0] >= 0x80 && !(len(s) == 1) {
			return nil, errBadValue
		}
		return s[0], nil
	}
	return nil, errBadValue
}

// xdom is a grammar with extractor marks.
type xdom struct {
	d     *gdom // actions and transactions
	text  string
	marks map[int]xmark
}

func (d *gdom) mayBeEmpty(n *gn) bool {
	switch n.op {
	case 't':
		return false
	case '+', '%', 'a', 'x':
		return d.mayBeEmpty(n.k[0])
	case '&':
		for _, k := range n.k {
			if k.op != '!' && !d.mayBeEmpty(k) {
				return false
			}
		}
		return true
	case '|':
		for _, k := range n.k {
			if d.mayBeEmpty(k) {
				return true
			}
		}
		return false
	case 'r':
		return !d.rule(n.sym).nn
	}
	return true
}

// prefixDom makes a grammar whose alternatives begin alike, so that nodes fail behind their parts.
func prefixDom(r *Rand) *gdom {
	d := &gdom{byN: map[string]*grule{}}
	names := []string{"doc", "item", "part"}[:2+r.N(2)]
	for _, n := range names {
		ru := &grule{name: n, nn: n != "doc"}
		d.rules = append(d.rules, ru)
		d.byN[n] = ru
	}
	act := func(op byte, k *gn) *gn { d.ids++; return &gn{op: op, k: []*gn{k}, id: d.ids} }
	tok := func(s string) *gn { return &gn{op: 't', sym: s} }
	var elem func(depth int) *gn
	elem = func(depth int) *gn {
		switch r.W(4, 3, 1, 2, 2, 1) {
		case 0:
			return act('a', tok(r.Pick("IDENT", "INT")))
		case 1:
			return tok(r.Pick("','", "INT", "IDENT"))
		case 2:
			if depth > 0 {
				return &gn{op: '*', k: []*gn{act('x', elem(depth-1))}}
			}
		case 3:
			if depth > 0 {
				return act('x', &gn{op: '&', k: []*gn{elem(depth - 1), elem(depth - 1)}})
			}
		case 4:
			if len(d.rules) > 2 {
				return &gn{op: 'r', sym: "part", how: 1}
			}
		case 5:
			if depth > 0 {
				return &gn{op: '%', k: []*gn{act('a', tok("INT")), tok("','")}}
			}
		}
		return act('a', tok("IDENT"))
	}
	relabel := func(n *gn) *gn { // a copy with marks of its own
		var f func(n *gn) *gn
		f = func(n *gn) *gn {
			m := *n
			m.k = nil
			for _, k := range n.k {
				m.k = append(m.k, f(k))
			}
			if m.op == 'a' || m.op == 'x' {
				d.ids++
				m.id = d.ids
			}
			return &m
		}
		return f(n)
	}
	alts := func(depth int) *gn {
		or := &gn{op: '|'}
		var last []*gn
		for i := 2 + r.N(3); i > 0; i-- {
			var seq []*gn
			if len(last) > 0 {
				for _, k := range last[:r.N(len(last)+1)] {
					seq = append(seq, relabel(k))
				}
			}
			for j := 1 + r.N(3); j > 0 || len(seq) < 2; j-- {
				seq = append(seq, elem(depth))
			}
			last = seq
			n := &gn{op: '&', k: seq}
			if r.P(75) {
				n = act('x', n)
			}
			or.k = append(or.k, n)
		}
		return or
	}
	if len(d.rules) > 2 {
		d.rules[2].body = alts(1)
		if r.P(30) {
			d.rules[2].body = act('x', d.rules[2].body)
		}
	}
	d.rules[1].body = alts(2)
	it := &gn{op: 'r', sym: "item", how: 1}
	if r.P(30) {
		it = act('x', it)
	}
	d.rules[0].body = &gn{op: '*', k: []*gn{it}}
	// a sequence that may be empty needs a token
	for _, ru := range d.rules[1:] {
		for _, k := range ru.body.k {
			for k.op != '&' {
				if k.op == '|' {
					k = k.k[0]
					continue
				}
				k = k.k[0]
			}
			if d.mayBeEmpty(k) {
				k.k = append(k.k, tok("IDENT"))
			}
		}
	}
	return d
}

func (m xmark) String(r *Rand) string {
	s := m.tag + "_" + m.typ
	if m.array {
		if m.typ == "Node" || r.P(50) {
			return s + "Array"
		}
		return s + "s"
	}
	return s
}

// genExtract makes a grammar with marks; custom: the types are the caller's.
func genExtract(r *Rand, conf gconf, custom bool) *xdom {
	d := genDom(r, conf)
	if conf.rules == 0 {
		d = prefixDom(r)
	}
	x := &xdom{d: d, marks: map[int]xmark{}}
	var mark func(n *gn) *gn
	mark = func(n *gn) *gn {
		for i, k := range n.k {
			n.k[i] = mark(k)
		}
		var m xmark
		switch n.op {
		default:
			return n
		case 'x':
			m = xmark{r.Pick("n", "no_de", "N"), "Node", r.P(50)}
			if m.array {
				m.tag += "s"
			}
		case 'a':
			if d.mayBeEmpty(n.k[0]) {
				return n.k[0]
			}
			k := n.k[0]
			m = xmark{r.Pick("a", "b", "c_d", "", "été"), "Text", r.P(60)}
			if m.array {
				m.tag += "l"
			}
			if k.op == 't' {
				switch k.sym {
				case "INT":
					m.typ = r.Pick("Int", "Int", "Int", "Float", "Text")
				case "FLOAT":
					m.typ = r.Pick("Float", "Float", "Float", "Text", "Text", "Int")
				case "STRING":
					m.typ = r.Pick("String", "String", "Text")
				}
			}
			if r.P(2) {
				m.typ = r.Pick("Int", "Float", "String", "Bool", "Foo")
			}
			if custom {
				m.typ = r.Pick("Int", "Text", "T", "Bool", "Foo", "Foo", "Foo")
				if r.P(3) {
					m.typ = r.Pick("Boom", "BoomErr")
				}
			}
		}
		n.sym = m.String(r)
		x.marks[n.id] = m
		return n
	}
	for _, ru := range d.rules {
		ru.body = mark(ru.body)
	}
	// in the text, nodes are marks, too
	var toMark func(n *gn) *gn
	toMark = func(n *gn) *gn {
		m := *n
		m.k = nil
		for _, k := range n.k {
			m.k = append(m.k, toMark(k))
		}
		if m.op == 'x' {
			m.op = 'a'
		}
		return &m
	}
	pd := &gdom{byN: d.byN}
	for _, ru := range d.rules {
		pd.rules = append(pd.rules, &grule{name: ru.name, body: toMark(ru.body)})
	}
	x.text = grammarText(r, ruleToks(r, pd))
	return x
}

type xcall struct{ typ, lit string }

// xref is what the reference expects.
type xref struct {
	res    string // ok, fail, cut, value (a conversion fails)
	doc    map[string]interface{}
	leaves int
	nodes  int
	undone int // nodes that failed with something in them
	calls  []xcall
}

// expect runs the reference on a text.
func (x *xdom) expect(t *gtext, getValue func(typ, lit string) (interface{}, error)) (ref xref, ok bool) {
	res, ok := refMatch(x.d, x.d.rules[0].body, x.d.seenAs(t.syms))
	if !ok {
		return
	}
	if res.kind == "ok" && res.n < len(t.syms) {
		res.kind = "fail"
	}
	ref.res = res.kind
	root := &xnode{}
	cur := root
	type open struct {
		node *xnode
		n    int
	}
	var stk []open
	for _, e := range res.ev {
		m := x.marks[e.id]
		switch e.typ {
		case 'A':
			lit := t.toks[e.pos].lit
			ref.calls = append(ref.calls, xcall{m.typ, lit})
			v, err := getValue(m.typ, lit)
			if err != nil {
				ref.res = "value"
				return ref, true
			}
			cur.ents = append(cur.ents, xent{xmark: m, val: v})
			ref.leaves++
		case 'B':
			stk = append(stk, open{cur, len(cur.ents)})
			n := &xnode{}
			cur.ents = append(cur.ents, xent{xmark: m, node: n})
			cur = n
			ref.nodes++
		case 'E':
			o := stk[len(stk)-1]
			stk = stk[:len(stk)-1]
			if !e.ok && len(cur.ents) > 0 {
				ref.undone++
			}
			cur = o.node
			if !e.ok {
				cur.ents = cur.ents[:o.n]
			}
		}
	}
	if ref.res == "ok" {
		ref.doc = root.doc()
	}
	return ref, true
}

// showDoc prints a document with types and sorted keys.
func showDoc(v interface{}) string {
	switch v := v.(type) {
	case map[string]interface{}:
		if v == nil {
			return "nil"
		}
		var ks []string
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for i, k := range ks {
			ks[i] = fmt.Sprintf("%q:%s", k, showDoc(v[k]))
		}
		return "{" + strings.Join(ks, " ") + "}"
	case []map[string]interface{}:
		var s []string
		for _, x := range v {
			s = append(s, showDoc(x))
		}
		return "nodes[" + strings.Join(s, " ") + "]"
	case []interface{}:
		var s []string
		for _, x := range v {
			s = append(s, showDoc(x))
		}
		return "[" + strings.Join(s, " ") + "]"
	case string:
		return strconv.Quote(v)
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

type xown struct{ typ, lit string }

// xengine makes an engine; calls of GetValue are recorded if it is the caller's.
func xengine(c *Case, text string, custom bool, calls *[]xcall) *extractor.Engine {
	r := c.R
	opt := &extractor.Options{}
	if r.P(30) {
		opt.Scanner = newOwnScanner()
	}
	if custom {
		opt.GetValue = func(typ, lit string) interface{} {
			*calls = append(*calls, xcall{typ, lit})
			switch typ {
			case "Boom":
				panic("boom")
			case "BoomErr":
				panic(errors.New("boom"))
			}
			return xown{typ, lit}
		}
	} else if r.P(50) && opt.Scanner == nil {
		opt = nil
	}
	var g interface{} = text
	if r.P(50) {
		g = []byte(text)
	}
	var e *extractor.Engine
	var err error
	func() {
		defer func() {
			if x := recover(); x != nil {
				c.Failf("New panics for a well-formed grammar: %v", x)
			}
		}()
		e, err = extractor.New(g, opt)
	}()
	if err != nil {
		c.Failf("New: %v", err)
	}
	if opt != nil && opt.Scanner != nil {
		e.Tokenize([]byte("a 1"), "") // no parse: the rule may not end
		if opt.Scanner.(*ownScanner).scans == 0 {
			c.Failf("the engine doesn't use the scanner given to New")
		}
		*calls = nil
	}
	return e
}

func ownValue(typ, lit string) (interface{}, error) {
	if strings.HasPrefix(typ, "Boom") {
		return nil, errBadValue
	}
	return xown{typ, lit}, nil
}

// xparse parses with one of the functions; a panic of Parse (which doesn't catch) is an error.
func xparse(r *Rand, e *extractor.Engine, src []byte) (doc map[string]interface{}, err error, how string) {
	switch r.N(4) {
	case 0:
		doc, err = e.Extract(string(src))
		return doc, err, "Extract"
	case 1:
		doc, err = e.SafeExtract(string(src))
		return doc, err, "SafeExtract"
	case 2:
		doc, err = e.SafeParse(src, "")
		return doc, err, "SafeParse"
	}
	how = "Parse"
	defer func() {
		if x := recover(); x != nil {
			doc, err = nil, fmt.Errorf("%v", x)
		}
	}()
	doc, err = e.Parse(src, "")
	return
}

func checkExtract(nodes int, prefix bool) func(c *Case) {
	return func(c *Case) {
		r := c.R
		conf := gconf{syms: someSyms(r), rules: 1 + r.N(5), depth: 2 + r.N(3), cut: 4, act: 30, trans: nodes}
		if r.P(50) {
			conf.syms = []string{"IDENT", "INT", "','", "STRING"}
		}
		if prefix {
			conf.rules, conf.syms = 0, []string{"IDENT", "INT", "','"}
		}
		custom := r.P(30)
		x := genExtract(r, conf, custom)
		c.Input("grammar %s", x.text)
		var calls []xcall
		e := xengine(c, x.text, custom, &calls)
		conv := stdValue
		if custom {
			conv = ownValue
		}
		hist := ""
		for i := 0; i < 8; i++ {
			s := x.d.sentence(r, x.d.rules[0].body, append(conf.syms, "IDENT"))
			t := renderSyms(r, s, r.P(20))
			c.Input("grammar %s\nbefore: %s\ntext %q", x.text, hist, t.src)
			ref, ok := x.expect(t, conv)
			if !ok {
				continue
			}
			calls = nil
			doc, err, how := xparse(r, e, t.src)
			if (err == nil) != (ref.res == "ok") {
				c.Failf("%s: error %v, want outcome %s", how, err, ref.res)
			}
			if err != nil && doc != nil {
				c.Failf("%s: error %v and document %s", how, err, showDoc(doc))
			}
			if err == nil {
				if !reflect.DeepEqual(doc, ref.doc) {
					c.Failf("%s: document\n  %s, want\n  %s", how, showDoc(doc), showDoc(ref.doc))
				}
				if res := e.Result(); !reflect.DeepEqual(res, ref.doc) {
					c.Failf("Result: document\n  %s, want\n  %s", showDoc(res), showDoc(ref.doc))
				}
			}
			if custom && !(len(calls) == 0 && len(ref.calls) == 0) && !reflect.DeepEqual(calls, ref.calls) {
				c.Failf("GetValue was called with %v, want %v", calls, ref.calls)
			}
			hist += ref.res + " "
			c.Ev("parses: "+ref.res, 1)
			c.Ev("leaves", ref.leaves)
			c.Ev("nodes begun", ref.nodes)
			if ref.res == "ok" {
				c.Ev("failed nodes with something in them, in a parse that succeeds", ref.undone)
			}
			if len(ref.calls) > 0 || ref.nodes > 0 {
				c.Seen(x.text + string(t.src))
			}
		}
	}
}

// ---------------------------------------------------------------- documents by construction

// xconfig: a table of records with arrays that are interrupted by other marks.
func checkRecords(c *Case) {
	r := c.R
	const gram = `
field = IDENT/key_Text ':' (INT/ints_Ints | FLOAT/floats_FloatArray | STRING/strs_Strings | CHAR/chars_CharArray | record/sub_Node | IDENT/list_Text '[' record %= ',' ']' | "none")
record = ('{' field %= ',' '}')/rec_NodeArray
doc = *(record | "note" STRING/notes_Strings | INT/count_Int)
`
	e, err := extractor.New(gram, nil)
	if err != nil {
		c.Failf("New: %v", err)
	}
	// type of a field: the rule `record` is a node itself, so sub_Node holds rec
	type M = map[string]interface{}
	var b strings.Builder
	n := 0
	add := func(m M, key string, v interface{}) {
		l, _ := m[key].([]interface{})
		m[key] = append(l, v)
	}
	first := func(m M, key string, v interface{}) {
		if _, ok := m[key]; !ok {
			m[key] = v
		}
	}
	var record func(m M, depth int)
	record = func(m M, depth int) {
		n++
		l, _ := m["rec"].([]M)
		at := len(l)
		m["rec"] = append(l, nil)
		b.WriteString("{")
		rec := M{}
		for i, k := 0, r.N(5); i < k; i++ {
			if i > 0 {
				b.WriteString(", ")
			}
			name := "k" + strconv.Itoa(r.N(5))
			b.WriteString(name + ": ")
			first(rec, "key", name)
			switch w := r.N(7); {
			case w == 0:
				v := r.N(1000000)
				fmt.Fprint(&b, v)
				add(rec, "ints", int64(v))
			case w == 1:
				v := float64(r.N(1000000)) / 64
				s := strconv.FormatFloat(v, 'e', -1, 64)
				b.WriteString(s)
				add(rec, "floats", v)
			case w == 2:
				v := r.Pick("", "a b", "q\"q", "\n\t\x00", "été", "//", "{}", "\\")
				b.WriteString(strconv.Quote(v))
				add(rec, "strs", v)
			case w == 3:
				v := byte(r.N(128))
				b.WriteString(strconv.QuoteRune(rune(v)))
				add(rec, "chars", v)
			case w == 4 && depth > 0:
				sub := M{}
				record(sub, depth-1)
				first(rec, "sub", sub)
			case w == 5 && depth > 0:
				name := "l" + strconv.Itoa(r.N(5))
				b.WriteString(name + "[")
				first(rec, "list", name)
				for j, q := 0, r.N(3); j < q; j++ {
					if j > 0 {
						b.WriteString(", ")
					}
					record(rec, depth-1)
				}
				b.WriteString("]")
			default:
				b.WriteString("none")
			}
		}
		b.WriteString("}\n")
		if len(rec) == 0 {
			rec = nil
		}
		m["rec"].([]M)[at] = rec
	}
	want := M{}
	for i := r.N(6); i > 0; i-- {
		switch r.N(4) {
		case 0:
			v := r.Pick("x", "", "none")
			fmt.Fprintf(&b, "note %q ", v)
			add(want, "notes", v)
		case 1:
			fmt.Fprintf(&b, "%d ", i)
			first(want, "count", int64(i))
		default:
			record(want, r.N(6))
		}
	}
	c.Input("text %q", b.String())
	doc, err := e.SafeExtract(b.String())
	if err != nil {
		c.Failf("error %v", err)
	}
	if len(want) == 0 {
		want = nil
	}
	if !reflect.DeepEqual(doc, want) {
		c.Failf("document\n  %s, want\n  %s", showDoc(doc), showDoc(want))
	}
	c.Ev("records", n)
	c.Seen(b.String())
}

// checkDeep: nesting of any depth, with alternatives that fail behind the nested nodes.
func checkDeep(c *Case) {
	r := c.R
	depth := 1 + r.N(200)
	bad := 1 + r.N(7) // levels at which the first alternative fails
	const gram = `
item = ('<' IDENT/open_Text *(item | INT/n_Ints) IDENT '>')/tried_Node |
	('(' IDENT/name_Text *(item | INT/nums_Ints) ')')/kid_NodeArray |
	('(' IDENT/other_Text *(item | INT/nums_Ints) ']')/odd_NodeArray |
	('(' IDENT/last_Text *item/part_Node INT '}')/end_NodeArray
doc = item
`
	e, err := extractor.New(gram, nil)
	if err != nil {
		c.Failf("New: %v", err)
	}
	type M = map[string]interface{}
	for round := 0; round < 3; round++ {
		var b, tail strings.Builder
		root := M{}
		cur := root
		kids := []func(){}
		left := bad
		for i := 0; i < depth; i++ {
			name := fmt.Sprintf("n%d", i)
			fmt.Fprintf(&b, "(%s ", name)
			m := M{}
			key, nm, end := "kid", "name", ")"
			if left > 0 && r.P(10) {
				key, nm, end = "odd", "other", "]"
				left--
			}
			m[nm] = name
			var nums []interface{}
			for j := r.N(3); j > 0; j-- {
				fmt.Fprintf(&b, "%d ", j)
				nums = append(nums, int64(j))
			}
			var after []interface{}
			t := ""
			for j := r.N(3); j > 0; j-- {
				t += fmt.Sprintf(" %d", 10+j)
				after = append(after, int64(10+j))
			}
			t += end
			kids = append(kids, func() {})
			if all := append(nums, after...); len(all) > 0 {
				m["nums"] = all
			}
			s := t + tail.String()
			tail.Reset()
			tail.WriteString(s)
			cur[key] = []M{m}
			cur = m
		}
		src := b.String() + tail.String()
		want := root
		switch r.N(4) {
		case 0: // the text ends early
			src, want = src[:len(src)-1], nil
		case 1:
			src, want = src+" 5", nil
		}
		c.Input("depth %d, text %q", depth, src)
		doc, err := e.SafeExtract(src)
		if (err == nil) != (want != nil) {
			c.Failf("error %v", err)
		}
		if err != nil && doc != nil {
			c.Failf("error %v and document %s", err, showDoc(doc))
		}
		if err == nil && !reflect.DeepEqual(doc, want) {
			c.Failf("document\n  %s, want\n  %s", showDoc(doc), showDoc(want))
		}
		if want != nil {
			c.Ev("nested nodes that match", depth)
			c.Ev("nested nodes given up at the end", bad-left)
		} else {
			c.Ev("nested texts refused", 1)
		}
		c.Seen(src)
	}
}

// checkBadMarks: marks and values that are no marks or values.
func checkBadMarks(c *Case) {
	r := c.R
	type bad struct{ gram, text string }
	l := []bad{
		{`doc = INT/x`, "1"}, {`doc = INT/Int`, "1"}, {`doc = INT/xs`, "1"}, {`doc = INT/Array`, "1"},
		{`doc = INT/x_Bool`, "1"}, {`doc = INT/x_int`, "1"}, {`doc = INT/x_`, "1"}, {`doc = INT/x_Bools`, "1"}, {`doc = INT/x_IntsArray`, "1"},
		{`doc = INT/x_nodeArray`, "1"}, {`doc = INT/x_Texts_`, "1"},
		{`doc = INT/x_Int`, "9223372036854775808"}, {`doc = INT/x_Int`, "0x10"}, {`doc = FLOAT/x_Int`, "1.5"},
		{`doc = FLOAT/x_Float`, "1e999"}, {`doc = IDENT/x_Int`, "abc"}, {`doc = IDENT/x_Float`, "abc"}, {`doc = IDENT/x_Strings`, "abc"},
		{`doc = CHAR/x_Char`, `'é'`}, {`doc = CHAR/x_Chars`, `'\u1234'`}, {`doc = STRING/x_Int`, `"1"`}, {`doc = INT/x_String`, `1`}, {`doc = IMAG/x_Float`, "1i"},
		{`doc = +(INT/x_Int | IDENT/n_Int)/p_Node`, "1 2 a"}, {`doc = +(CHAR/x_Char | INT/n_Int)/p_NodeArray`, "1 2 'é'"},
		{`doc = +((INT/x_Ints IDENT | INT IDENT IDENT)/p_NodeArray | '+' IDENT/x_Floats)`, "1 a 2 b + c"},
	}
	b := l[r.N(len(l))]
	good := r.P(30)
	if good {
		b = bad{`doc = +(INT/xs_Int | IDENT/x_s_Texts | STRING/x_Array_String | FLOAT/x_Ints_Float)/n_NodeArray_Nodes`, "1"}
	}
	c.Input("grammar %s\ntext %s", b.gram, b.text)
	c.Seen(b.gram + b.text)
	var e *extractor.Engine
	var err error
	func() {
		defer func() {
			switch x := recover().(type) {
			case nil:
			case string:
				err = errors.New(x)
			case error:
				err = x
			default:
				c.Failf("panic with %v", x)
			}
		}()
		e, err = extractor.New(b.gram, nil)
	}()
	if good {
		if err != nil {
			c.Failf("New: %v", err)
		}
		src, n := "", 1+r.N(5)
		want := map[string]interface{}{}
		texts := []interface{}(nil)
		for i := 0; i < n; i++ {
			switch r.N(4) {
			case 0:
				src += fmt.Sprintf("%d ", i)
				if want["xs"] == nil {
					want["xs"] = int64(i)
				}
			case 1:
				src += fmt.Sprintf("v%d ", i)
				texts = append(texts, fmt.Sprintf("v%d", i))
				want["x_s"] = texts
			case 2:
				src += fmt.Sprintf("\"%d\" ", i)
				if want["x_Array"] == nil {
					want["x_Array"] = fmt.Sprint(i)
				}
			case 3:
				src += fmt.Sprintf("%d.5 ", i)
				if want["x_Ints"] == nil {
					want["x_Ints"] = float64(i) + 0.5
				}
			}
		}
		want = map[string]interface{}{"n_NodeArray": []map[string]interface{}{want}}
		doc, err := e.SafeExtract(src)
		if err != nil || !reflect.DeepEqual(doc, want) {
			c.Failf("text %s: document\n  %s (%v), want\n  %s", src, showDoc(doc), err, showDoc(want))
		}
		c.Ev("odd tags", 1)
		return
	}
	if err != nil {
		c.Ev("marks refused when the extractor is made", 1)
		return
	}
	doc, err := e.SafeExtract(b.text)
	if err == nil {
		c.Failf("no error, document %s", showDoc(doc))
	}
	if doc != nil {
		c.Failf("error %v and document %s", err, showDoc(doc))
	}
	if err.Error() == "" {
		c.Failf("empty error")
	}
	c.Ev("values refused", 1)
}

func checkCase(c *Case) { // one byte characters
	r := c.R
	e, err := extractor.New(`doc = +(CHAR/c_Chars | STRING/s_Strings | INT/i_Ints | FLOAT/f_Floats)`, nil)
	if err != nil {
		c.Failf("New: %v", err)
	}
	want := map[string]interface{}{}
	add := func(k string, v interface{}) {
		l, _ := want[k].([]interface{})
		want[k] = append(l, v)
	}
	var b strings.Builder
	for i := 1 + r.N(20); i > 0; i-- {
		switch r.N(6) {
		case 0:
			x := r.N(128)
			switch {
			case x == '\'' || x == '\\':
				fmt.Fprintf(&b, `'\%c' `, x)
			case x >= ' ' && x < 127 && r.P(50):
				fmt.Fprintf(&b, "'%c' ", x)
			case r.P(30):
				fmt.Fprintf(&b, `'\%03o' `, x)
			default:
				fmt.Fprintf(&b, `'\x%02x' `, x)
			}
			add("c", byte(x))
		case 1:
			s, v := hostileString(r)
			b.WriteString(s + " ")
			add("s", v)
		case 2, 3:
			v := int64(r.U64() >> uint(1+r.N(63)))
			fmt.Fprintf(&b, "%d ", v)
			add("i", v)
		default:
			v := float64(r.U64()>>uint(r.N(64))) * []float64{1, 1e-3, 1e100, 1e-200, 1.0 / 3}[r.N(5)]
			s := strconv.FormatFloat(v, 'e', -1, 64)
			if !strings.ContainsAny(s, "e.") {
				s += ".0"
			}
			b.WriteString(s + " ")
			add("f", v)
		}
	}
	c.Input("text %q", b.String())
	doc, err := e.SafeExtract(b.String())
	if err != nil || !reflect.DeepEqual(doc, want) {
		c.Failf("document\n  %s (%v), want\n  %s", showDoc(doc), err, showDoc(want))
	}
	c.Ev("literals converted", 1)
	c.Seen(b.String())
}

// hostileString makes a string literal and its value.
func hostileString(r *Rand) (lit, val string) {
	if r.P(20) {
		val = r.Pick("", "a", "a\nb", "\\n", `"`, "été", "// x", "/* ", "# y")
		return "`" + val + "`", val
	}
	var b, v strings.Builder
	b.WriteByte('"')
	for i := r.N(6); i > 0; i-- {
		switch r.N(8) {
		case 0:
			k := r.N(7)
			b.WriteString([]string{`\a`, `\b`, `\f`, `\n`, `\r`, `\t`, `\v`}[k])
			v.WriteByte("\a\b\f\n\r\t\v"[k])
		case 1:
			x := r.N(256)
			fmt.Fprintf(&b, `\x%02x`, x)
			v.WriteByte(byte(x))
		case 2:
			x := r.N(256)
			fmt.Fprintf(&b, `\%03o`, x)
			v.WriteByte(byte(x))
		case 3:
			x := 0x4e00 + r.N(1000)
			fmt.Fprintf(&b, `\u%04x`, x)
			v.WriteRune(rune(x))
		case 4:
			x := 0x10000 + r.N(1000)
			fmt.Fprintf(&b, `\U%08x`, x)
			v.WriteRune(rune(x))
		case 5:
			b.WriteString(r.Pick(`\"`))
			v.WriteString(`"`)
		case 6:
			b.WriteString(`\\`)
			v.WriteString(`\`)
		default:
			s := r.Pick("a", " ", "é", "'", "`", "//", "#", "{}", "日本")
			b.WriteString(s)
			v.WriteString(s)
		}
	}
	b.WriteByte('"')
	return b.String(), v.String()
}

// checkXSemis: the scan mode of the options is used.
func checkXSemis(c *Case) {
	r := c.R
	const gram = `doc = *((IDENT/key_Text '=' (INT/val_Int | STRING/str_String) ';')/item_NodeArray | ';')`
	semis := r.P(70)
	opt := extractor.InsertSemis
	if !semis {
		opt = nil
	}
	e, err := extractor.New(gram, opt)
	if err != nil {
		c.Failf("New: %v", err)
	}
	var b strings.Builder
	var items []map[string]interface{}
	ok := true
	for i := r.N(8); i > 0; i-- {
		m := map[string]interface{}{"key": fmt.Sprint("k", i)}
		fmt.Fprintf(&b, "k%d = ", i)
		if r.P(50) {
			fmt.Fprint(&b, i*3)
			m["val"] = int64(i * 3)
		} else {
			s, v := hostileString(r)
			b.WriteString(s)
			m["str"] = v
		}
		if r.P(60) {
			b.WriteString(r.Pick("\n", "\n\n", " // c\n", " # c\n", "/* \n */"))
			ok = ok && semis
		} else {
			b.WriteString("; ")
		}
		items = append(items, m)
	}
	c.Input("semis %v, text %q", semis, b.String())
	doc, err := e.SafeExtract(b.String())
	if (err == nil) != ok {
		c.Failf("error %v, want success: %v", err, ok)
	}
	if ok {
		var want map[string]interface{}
		if len(items) > 0 {
			want = map[string]interface{}{"item": items}
		}
		if !reflect.DeepEqual(doc, want) {
			c.Failf("document\n  %s, want\n  %s", showDoc(doc), showDoc(want))
		}
		c.Ev("documents by lines", 1)
	}
	c.Seen(b.String())
}

// checkAborts: whatever ended the parses before, a parse starts from an empty document.
func checkAborts(c *Case) {
	r := c.R
	const gram = `
doc = *(pair | list | IDENT/words_Texts) ?("end" ! INT/n_Int)
pair = (IDENT/k_Text '=' (INT/v_Int | pair | list))/pair_NodeArray
list = ('[' (INT/nums_Ints | pair | list) %= ',' ']')/list_NodeArray
`
	bomb := 0
	var bombVal interface{}
	e, err := extractor.New(gram, &extractor.Options{GetValue: func(typ, lit string) interface{} {
		if bomb > 0 {
			if bomb--; bomb == 0 {
				panic(bombVal)
			}
		}
		return lit
	}})
	if err != nil {
		c.Failf("New: %v", err)
	}
	fresh, err := extractor.New(gram, &extractor.Options{GetValue: func(typ, lit string) interface{} { return lit }})
	if err != nil {
		c.Failf("New: %v", err)
	}
	_ = fresh
	type M = map[string]interface{}
	var gen func(b *strings.Builder, m M, depth int, what int)
	gen = func(b *strings.Builder, m M, depth int, what int) {
		key := []string{"pair", "list"}[what]
		l, _ := m[key].([]M)
		at := len(l)
		m[key] = append(l, nil)
		n := M{}
		if what == 0 {
			k := fmt.Sprint("k", r.N(9))
			n["k"] = k
			b.WriteString(k + "=")
			if w := r.N(3); w < 2 && depth > 0 {
				gen(b, n, depth-1, w)
			} else {
				v := fmt.Sprint(r.N(99))
				b.WriteString(v + " ")
				n["v"] = v
			}
		} else {
			b.WriteString("[")
			for i, q := 0, r.N(4); i < q; i++ {
				if i > 0 {
					b.WriteString(", ")
				}
				if w := r.N(3); w < 2 && depth > 0 {
					gen(b, n, depth-1, w)
				} else {
					v := fmt.Sprint(r.N(99))
					b.WriteString(v)
					x, _ := n["nums"].([]interface{})
					n["nums"] = append(x, v)
				}
			}
			b.WriteString("]")
		}
		if len(n) == 0 {
			n = nil
		}
		m[key].([]M)[at] = n
	}
	hist := ""
	for i := 0; i < 10; i++ {
		var b strings.Builder
		m := M{}
		for j := r.N(4); j > 0; j-- {
			if w := r.N(3); w < 2 {
				gen(&b, m, r.N(6), w)
			} else {
				w := fmt.Sprint("w", r.N(9))
				b.WriteString(w + " ")
				x, _ := m["words"].([]interface{})
				m["words"] = append(x, w)
			}
		}
		if len(m) == 0 {
			m = nil
		}
		src := b.String()
		what := r.W(40, 15, 15, 30)
		bomb = 0
		switch what {
		case 1:
			src += " end x" // behind !
		case 2:
			src += r.Pick("[", "a =", "a = [1, b = [2, c = 3", ")", "a = [1, [2, x]]", "5")
		case 3:
			bomb = 1 + r.N(8)
			bombVal = []interface{}{"s", errors.New("e"), 5, &struct{}{}}[r.N(4)]
		}
		c.Input("before: %s\ntext %q (bomb %d %v)", hist, src, bomb, bombVal)
		var doc M
		var err error
		escaped := false
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(caseFailure); ok {
						panic(x)
					}
					escaped = true
				}
			}()
			if r.P(50) {
				doc, err = e.Parse([]byte(src), "")
			} else {
				doc, err = e.SafeExtract(src)
			}
		}()
		exploded := what == 3 && bomb == 0
		switch {
		case exploded:
			if !escaped && err == nil {
				c.Failf("no error though GetValue panicked")
			}
			if doc != nil {
				c.Failf("document %s though GetValue panicked", showDoc(doc))
			}
			c.Ev("parses aborted by GetValue", 1)
		case what == 1 || what == 2:
			if !escaped && err == nil {
				c.Failf("no error, document %s", showDoc(doc))
			}
			if doc != nil {
				c.Failf("error %v and document %s", err, showDoc(doc))
			}
			c.Ev([]string{"", "parses aborted by !", "parses that fail"}[what], 1)
		default:
			if escaped || err != nil {
				c.Failf("error %v (panic: %v)", err, escaped)
			}
			if !reflect.DeepEqual(doc, m) {
				c.Failf("document\n  %s, want\n  %s", showDoc(doc), showDoc(m))
			}
			c.Ev("parses that succeed", 1)
			if hist != "" {
				c.Ev("parses behind others on the same extractor", 1)
			}
		}
		hist += []string{"ok ", "cut ", "fail ", "bomb "}[what]
		c.Seen(hist + src)
	}
}

func init() {
	register(&Prop{
		ID:   "C25",
		Rule: "random and constructed grammars with leaf and node marks and texts; non-trivial: a leaf or node was matched; distinct by grammar and text",
		MustSee: []string{"parses: ok", "parses: fail", "parses: value", "leaves", "nodes begun", "records", "values refused",
			"marks refused when the extractor is made", "literals converted", "documents by lines", "odd tags"},
		Assume: []string{"one tag is used for one kind of mark only; of two scalars under one tag the first one counts",
			"a leaf matched in an alternative that failed later stays, unless a node around it fails",
			"marks on rules that match nothing are left out"},
		Parts: []*Part{
			{Name: "random", Quick: 15000, Thorough: 1200000, Run: checkExtract(25, false)},
			{Name: "records", Quick: 10000, Thorough: 600000, Run: checkRecords},
			{Name: "literals", Quick: 10000, Thorough: 600000, Run: checkCase},
			{Name: "semis", Quick: 4000, Thorough: 200000, Run: checkXSemis},
			{Name: "bad", Quick: 2000, Thorough: 20000, Run: checkBadMarks},
			bigPart("big", bigExtractDims, 1, 15, bigExtract),
			{Name: "modes", Quick: 4000, Thorough: 60000, Run: checkModes("extractor")},
		},
	})
	register(&Prop{
		ID:   "C26",
		Rule: "random grammars with many nodes, deeply nested nodes behind failing alternatives, and histories of parses on one extractor; non-trivial: a node was begun; distinct by grammar and text",
		MustSee: []string{"parses: ok", "parses: fail", "failed nodes with something in them, in a parse that succeeds", "nested nodes given up at the end",
			"parses aborted by GetValue", "parses aborted by !", "parses behind others on the same extractor"},
		Parts: []*Part{
			{Name: "random", Quick: 15000, Thorough: 1200000, Run: checkExtract(55, false)},
			{Name: "prefixes", Quick: 10000, Thorough: 800000, Run: checkExtract(0, true)},
			{Name: "deep", Quick: 600, Thorough: 30000, Run: checkDeep},
			{Name: "aborts", Quick: 8000, Thorough: 400000, Run: checkAborts},
			bigPart("big", bigUndoDims, 1, 15, bigUndo),
		},
	})
}
