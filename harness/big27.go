package main

// C27: sizes, and documents written through templates.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"html/template"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// tplconv runs the program in work/ of dir.
func (v *convRun) tplconv(args ...string) (stdout, stderr string, err error) {
	if os.Getenv("VERIF_SETUP") == "" {
		fail2("tplconv is not built")
	}
	os.MkdirAll(filepath.Join(v.dir, "work"), 0755)
	cmd := exec.Command(filepath.Join(os.Getenv("VERIF_SETUP"), "tplconv"), args...)
	cmd.Dir = filepath.Join(v.dir, "work")
	cmd.Env = append(os.Environ(), "HOME="+filepath.Join(v.dir, "home"))
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	if err := cmd.Start(); err != nil {
		fail2("%v", err)
	}
	tm := time.AfterFunc(3*time.Minute, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	if !tm.Stop() {
		v.c.Failf("tplconv does not end")
	}
	return out.String(), errs.String(), err
}

func newConvRun(c *Case) *convRun {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "conv.")
	if err != nil {
		fail2("%v", err)
	}
	return &convRun{c: c, dir: dir}
}

var bigConvDims = []bigDim{{"files of a run", 600}, {"records", 20001}, {"numbers of a record", 20001}, {"notes", 20001}, {"length of a note", 131073}, {"rules of the grammar", 1001}, {"nested nodes", 1001}, {"length of a name", 200}, {"formats", 300}}

func bigConv(c *Case, b bigCase) {
	r := c.R
	n := b.n
	v := newConvRun(c)
	defer os.RemoveAll(v.dir)
	ext := r.Pick("", "", "json")
	var names []string
	var docs []xmap
	add := func(name, text string, doc xmap) {
		v.put("work/"+name, text)
		names, docs = append(names, name), append(docs, doc)
	}
	v.put("home/.tplconv/input/rec.tpl", recordGram)
	bad := false
	switch b.name {
	case "files of a run":
		for i := 0; i < n; i++ {
			add(fmt.Sprintf("f%d.rec", i), fmt.Sprintf("rec a { %d }", i), xmap{"rec": []xmap{{"name": "a", "nums": []interface{}{int64(i)}}}})
		}
		if r.P(30) { // the last one can't be read
			names = append(names, "nosuch.rec")
			bad = true
		}
	case "records":
		var l []xmap
		text := times(n, func(i int) string {
			l = append(l, xmap{"name": fmt.Sprint("r", i), "f": 0.5})
			return fmt.Sprintf("rec r%d {0.5}%s", i, r.Pick("\n", " "))
		})
		add("a.rec", text, xmap{"rec": l})
	case "numbers of a record":
		var l []interface{}
		text := times(n, func(i int) string {
			l = append(l, int64(i))
			return fmt.Sprint(i, " ")
		})
		add("a.rec", "rec a {"+text+"}", xmap{"rec": []xmap{{"name": "a", "nums": l}}})
	case "notes":
		var l []interface{}
		text := times(n, func(i int) string {
			l = append(l, fmt.Sprint("<", i, ">"))
			return fmt.Sprintf("note \"<%d>\"\n", i)
		})
		add("a.rec", text, xmap{"notes": l})
	case "length of a note":
		s := cycle(r.Pick("ab<>&", "é变", "x"), n)
		add("a.rec", `note "`+s+`"`, xmap{"notes": []interface{}{s}})
	case "rules of the grammar":
		v.put("home/.tplconv/input/big.tpl", "doc = r0\n"+times(n, func(i int) string { return fmt.Sprintf("r%d = INT/v%d_Int r%d\n", i, i, i+1) })+fmt.Sprintf("r%d = IDENT/end_Text\n", n))
		m := xmap{"end": "z"}
		add("a.big", times(n, func(i int) string {
			m[fmt.Sprint("v", i)] = int64(i)
			return fmt.Sprint(i, " ")
		})+"z", m)
	case "nested nodes":
		v.put("home/.tplconv/input/big.tpl", "doc = item\nitem = ('(' INT/v_Int ?item ')')/n_Node\n")
		var m xmap
		for i := n; i > 0; i-- {
			x := xmap{"v": int64(i)}
			if m != nil {
				x["n"] = m
			}
			m = x
		}
		add("a.big", times(n, func(i int) string { return fmt.Sprintf("(%d", i+1) })+strings.Repeat(")", n), xmap{"n": m})
	case "length of a name":
		name := cycle(r.Pick("abc", "a.b", "é", "x y"), n)
		if len(name) > 240 {
			name = strings.ToValidUTF8(name[:240], "")
		}
		add(name+".rec", "rec a {}", xmap{"rec": []xmap{{"name": "a"}}})
	case "formats":
		for i := 0; i < n; i++ {
			v.put(fmt.Sprintf("home/.tplconv/input/e%d.tpl", i), fmt.Sprintf("doc = IDENT/k%d_Text", i))
			add(fmt.Sprintf("f.e%d", i), "x", xmap{fmt.Sprint("k", i): "x"})
		}
	}
	var args []string
	if ext != "" {
		args = append(args, "-ext", ext)
	}
	out, errs, err := v.tplconv(append(args, names...)...)
	if (err != nil) != bad || (strings.TrimSpace(errs) != "") != bad {
		c.Failf("exit status %v, message %s, want an error: %v", err, clip(errs, 300), bad)
	}
	if ext != "" {
		for i, doc := range docs {
			b, err := os.ReadFile(filepath.Join(v.dir, "work", names[i]+"."+ext))
			if err != nil || !sameDocs(string(b), jsonOf(doc)) {
				c.Failf("%s.%s: %v; holds %s, want %s", names[i], ext, err, clip(string(b), 300), clip(jsonOf(doc), 300))
			}
		}
		docs = nil
	}
	d := json.NewDecoder(strings.NewReader(out))
	d.UseNumber()
	for i := 0; ; i++ {
		var x interface{}
		if err := d.Decode(&x); err != nil {
			if i != len(docs) {
				c.Failf("document %d of %d: %v", i, len(docs), err)
			}
			break
		}
		if i >= len(docs) {
			c.Failf("more than %d documents on the standard output", len(docs))
		}
		if got, _ := json.Marshal(x); !sameDocs(string(got), jsonOf(docs[i])) {
			c.Failf("document %d is %s, want %s", i, clip(string(got), 300), clip(jsonOf(docs[i]), 300))
		}
	}
}

// ---------------------------------------------------------------- templates

var convTemplates = []string{
	"<ul>{{range .rec}}<li title=\"{{.name}}\">{{.name}}: {{.nums}}</li>\n{{end}}</ul>",
	"{{range $i, $x := .notes}}{{$i}}={{$x}};{{else}}none{{end}}",
	"<script>var doc = {{.}};</script>",
	"<script>var doc = {{json .}};</script>",
	"<pre>{{json .}}</pre>",
	"{{range .notes}}<a href=\"/x?q={{.}}\" onclick='f({{.}})'>{{.}}</a>{{end}}",
	"{{with .rec}}{{len .}}{{else}}-{{end}}",
	"plain text, nothing of the document\n",
	"",
	"{{define \"one\"}}[{{.name}}]{{end}}{{range .rec}}{{template \"one\" .}}{{end}}",
	"{{.}}", "{{.nosuch}}", "{{json .rec}}{{json .notes}}",
	"<style>p { content: \"{{range .notes}}{{.}}{{end}}\" }</style>",
	"{{if eq 1 1}}{{printf \"%d\" (len .notes)}}{{end}}",
}

// templates that fail when they are read or run
var badTemplates = []string{"{{.", "{{nosuch .}}", "{{template \"nosuch\"}}", "{{index .rec 1000}}", "{{.rec.x.y}}{{json}}", "{{range .rec}}", "<script>{{if .rec}}'{{end}}</script>{{.}}"}

func checkConvHTML(c *Case) {
	r := c.R
	v := newConvRun(c)
	defer os.RemoveAll(v.dir)
	v.put("home/.tplconv/input/rec.tpl", recordGram)
	format := r.Pick("page.html", "page.html", "page.htm", "sub/list.html", "a.b.html", "x y.htm", "json.html")
	text := r.Pick(convTemplates...)
	if r.P(30) {
		text += r.Pick(convTemplates...)
	}
	bad := ""
	switch r.W(80, 8, 6, 6) {
	case 1:
		text, bad = r.Pick(badTemplates...), "bad template"
	case 2:
		format, bad = r.Pick("page.txt", "page", "page.HTML", "page.php", "page.html.", "JSON"), "unknown output format"
	case 3:
		bad = "no template"
	}
	if bad != "no template" {
		v.put("home/.tplconv/output/"+format, text)
	}
	// one that must not be taken
	v.put("home/.tplconv/output/other.html", "OTHER")
	v.put("home/.tplconv/input/page.html", "OTHER")
	v.put("work/page.html", "OTHER")
	var names []string
	var docs []xmap
	var log []string
	for i := 1 + r.W(50, 30, 20); i > 0; i-- {
		s, doc := recordText(r, "name")
		name := fmt.Sprintf("f%d.rec", i)
		v.put("work/"+name, s)
		names, docs, log = append(names, name), append(docs, doc), append(log, s)
	}
	args := []string{"-o", format}
	ext := r.Pick("", "", "out", "html")
	if ext != "" {
		args = append(args, "-ext", ext)
	}
	c.Input("tplconv %s; template %q; files %q", strings.Join(args, " "), text, log)
	render := func(doc xmap) (string, error) {
		t, err := template.New("x").Funcs(template.FuncMap{"json": func(v interface{}) (string, error) {
			b, err := json.MarshalIndent(v, "", "  ")
			return string(b), err
		}}).Parse(text)
		if err != nil {
			return "", err
		}
		var b bytes.Buffer
		err = t.Execute(&b, doc)
		return b.String(), err
	}
	out, errs, err := v.tplconv(append(args, names...)...)
	want := ""
	for i, doc := range docs {
		s, terr := render(doc)
		if terr != nil && bad == "" {
			bad = "failing template"
		}
		if bad == "bad template" && terr == nil {
			return // this document lets it pass
		}
		if bad != "" {
			break
		}
		want += s
		c.Ev("documents through templates", 1)
		if ext != "" {
			b, err := os.ReadFile(filepath.Join(v.dir, "work", names[i]+"."+ext))
			if err != nil || string(b) != s {
				c.Failf("%s.%s: %v; holds\n%s\nwant\n%s\nstderr %s", names[i], ext, err, b, s, errs)
			}
			want = ""
		}
	}
	if bad != "" {
		if err == nil || strings.TrimSpace(errs) == "" {
			c.Failf("%s, but exit status %v, message %q, output %q", bad, err, errs, out)
		}
		if !strings.HasPrefix(out, want) {
			c.Failf("%s: the documents before it are missing: output\n%s\nwant\n%s", bad, out, want)
		}
		c.Ev("templates that fail", 1)
		c.Seen(c.input)
		return
	}
	if err != nil || errs != "" {
		c.Failf("exit status %v, message %q", err, errs)
	}
	if out != want {
		c.Failf("output\n%s\nwant\n%s", out, want)
	}
	c.Seen(c.input)
}
