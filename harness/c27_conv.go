package main

// C27: tplconv, run as a program with a home directory of its own.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"time"
)

type convFile struct {
	name string
	src  string
	doc  map[string]interface{}
	bad  string // why no document comes out
}

type convRun struct {
	c     *Case
	dir   string
	files []*convFile
	log   []string
}

func jsonOf(doc map[string]interface{}) string {
	b, err := json.MarshalIndent(doc, "", "  ")
	if err != nil {
		fail2("json: %v", err)
	}
	return string(b)
}

// decodeAll reads a sequence of documents; nil if it isn't one.
func decodeAll(s string) (l []interface{}, ok bool) {
	d := json.NewDecoder(strings.NewReader(strings.ReplaceAll(s, "nullnull", "null null")))
	d.UseNumber()
	for d.More() {
		var v interface{}
		if d.Decode(&v) != nil {
			return nil, false
		}
		l = append(l, v)
	}
	return l, true
}

func sameDocs(got, want string) bool {
	if got == want {
		return true
	}
	g, ok := decodeAll(got)
	w, _ := decodeAll(want)
	return ok && reflect.DeepEqual(g, w)
}

func (v *convRun) put(name, text string) {
	p := filepath.Join(v.dir, name)
	if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
		fail2("%v", err)
	}
	if err := os.WriteFile(p, []byte(text), 0644); err != nil {
		fail2("%v", err)
	}
}

// recordDoc writes a text of the record grammar and its document.
func recordText(r *Rand, key string) (string, map[string]interface{}) {
	var b strings.Builder
	var l []map[string]interface{}
	var notes []interface{}
	m := map[string]interface{}{}
	for i := r.N(5); i > 0; i-- {
		if r.P(30) {
			s, v := hostileString(r)
			fmt.Fprintf(&b, "note %s\n", s)
			notes = append(notes, v)
			m["notes"] = notes
			continue
		}
		name := fmt.Sprint("r", r.N(9))
		e := map[string]interface{}{key: name}
		fmt.Fprintf(&b, "rec %s {", name)
		var nums []interface{}
		for j := r.N(4); j > 0; j-- {
			x := int64(r.U64() >> uint(1+r.N(63)))
			fmt.Fprintf(&b, " %d", x)
			nums = append(nums, x)
			e["nums"] = nums
		}
		if r.P(30) {
			fmt.Fprintf(&b, " 2.5e%d", r.N(30))
			var f float64
			fmt.Sscan(strings.Fields(b.String())[len(strings.Fields(b.String()))-1], &f)
			e["f"] = f
		}
		if r.P(30) {
			b.WriteString(" 'x'")
			e["c"] = byte('x')
		}
		if r.P(20) {
			b.WriteString(" sub { }")
			e["sub"] = map[string]interface{}(nil)
		}
		b.WriteString(" }\n")
		l = append(l, e)
		m["rec"] = l
	}
	if len(m) == 0 {
		m = nil
	}
	return b.String(), m
}

const recordGram = `
doc = *("note" STRING/notes_Strings | record)
record = ("rec" IDENT/name_Text '{' *(INT/nums_Ints) ?(FLOAT/f_Float) ?(CHAR/c_Char) ?("sub" ('{' '}')/sub_Node) '}')/rec_NodeArray
`

func checkConv(c *Case) {
	r := c.R
	bin := filepath.Join(os.Getenv("VERIF_SETUP"), "tplconv")
	if os.Getenv("VERIF_SETUP") == "" {
		fail2("tplconv is not built")
	}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "conv.")
	if err != nil {
		fail2("%v", err)
	}
	defer os.RemoveAll(dir)
	v := &convRun{c: c, dir: dir}
	// grammars
	exts := []string{"rec", "c++", "Rec", "x y", "random"}
	for i, e := range exts[:4] {
		v.put("home/.tplconv/input/"+e+".tpl", strings.Replace(recordGram, "/name_Text", fmt.Sprintf("/nam%d_Text", i), 1))
	}
	v.put("home/.tplconv/input/rec2.tpl", strings.Replace(recordGram, "/name_Text", "/nam6_Text", 1))
	v.put("home/.tplconv/input/bad.tpl", r.Pick("doc = (", "doc = undefined", "", "x = INT", "doc = INT/mark", "doc = INT INT,", "doc = INT\ndoc = FLOAT"))
	conf := gconf{syms: someSyms(r), rules: 1 + r.N(3), depth: 2 + r.N(2), act: 40, trans: 25}
	x := genExtract(r, conf, false)
	v.put("home/.tplconv/input/random.tpl", x.text)
	// files
	for i := r.W(0, 50, 20, 20, 10); i > 0; i-- {
		f := &convFile{}
		switch r.W(50, 20, 20) {
		case 0:
			k := r.N(4)
			f.src, f.doc = recordText(r, fmt.Sprint("nam", k))
			f.name = fmt.Sprintf("f%d%s.%s", i, r.Pick("", "", ".txt", " b", ".rec2"), exts[k])
		case 1:
			s := x.d.sentence(r, x.d.rules[0].body, append(conf.syms, "IDENT"))
			t := renderSyms(r, s, r.P(30))
			ref, ok := x.expect(t, stdValue)
			if !ok {
				continue
			}
			f.name, f.src, f.doc = fmt.Sprintf("f%d.random", i), string(t.src), ref.doc
			if ref.res != "ok" {
				f.bad = "no match: " + ref.res
			}
		case 2:
			f.src, f.doc = recordText(r, "nam0")
			f.name = fmt.Sprintf("f%d.rec", i)
			switch r.N(6) {
			case 0:
				f.name, f.bad = fmt.Sprintf("f%d.bad", i), "bad grammar"
			case 1:
				f.name, f.bad = fmt.Sprintf("f%d.%s", i, r.Pick("unknown", "re", "rec3", "tpl", "REC")), "unknown format"
			case 2:
				f.name, f.bad = fmt.Sprintf("f%d", i), "unknown format"
			case 3:
				f.src += r.Pick("rec", "x", "}", "note 5", "rec a {", "note 'a'", "rec a { 99999999999999999999 }", "rec a {'é'}")
				f.bad = "no match"
			case 4:
				f.bad = "missing"
			case 5: // the extension decides, not the rest of the name
				f.name = fmt.Sprintf("f%d.bad.rec", i)
			}
		}
		if r.P(20) {
			f.name = "d.rec2/" + f.name
		}
		v.files = append(v.files, f)
	}
	if len(v.files) == 0 {
		return
	}
	var args []string
	ext := ""
	if r.P(40) {
		ext = r.Pick("json", "out", "a.b")
		args = append(args, "-ext", ext)
	}
	if r.P(20) {
		args = append(args, "-o", "json")
	}
	for _, f := range v.files {
		if f.bad != "missing" {
			v.put("work/"+f.name, f.src)
		}
		p := f.name
		if r.P(30) {
			p = filepath.Join(dir, "work", f.name)
		}
		args = append(args, p)
		v.log = append(v.log, fmt.Sprintf("%s (%s): %q", f.name, f.bad, f.src))
	}
	c.Input("tplconv %s; random grammar %s; files %s", strings.Join(args[:len(args)-len(v.files)], " "), x.text, strings.Join(v.log, "; "))
	os.MkdirAll(filepath.Join(dir, "work"), 0755)
	cmd := exec.Command(bin, args...)
	cmd.Dir = filepath.Join(dir, "work")
	cmd.Env = append(os.Environ(), "HOME="+filepath.Join(dir, "home"))
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	if err := cmd.Start(); err != nil {
		fail2("%v", err)
	}
	tm := time.AfterFunc(3*time.Minute, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	if !tm.Stop() {
		c.Failf("tplconv does not end")
	}
	want, failed := "", ""
	seen := map[string]bool{}
	for _, f := range v.files {
		if f.bad != "" {
			failed = f.bad
			if ext != "" {
				if b, err := os.ReadFile(filepath.Join(dir, "work", f.name+"."+ext)); err == nil && len(b) > 0 && !seen[f.name] {
					c.Failf("%s: %s, but %s.%s holds %q", f.name, f.bad, f.name, ext, b)
				}
			}
			break
		}
		seen[f.name] = true
		text := jsonOf(f.doc)
		c.Ev("documents", 1)
		if ext == "" {
			want += text
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, "work", f.name+"."+ext))
		if err != nil {
			c.Failf("no output for %s: %v; stderr %s", f.name, err, errs.String())
		}
		if !sameDocs(string(b), text) {
			c.Failf("%s.%s holds\n%s\nwant\n%s", f.name, ext, b, text)
		}
		c.Ev("output files", 1)
	}
	if !sameDocs(out.String(), want) {
		c.Failf("standard output:\n%s\nwant\n%s\nstderr %s", out.String(), want, errs.String())
	}
	if (err != nil) != (failed != "") {
		c.Failf("exit status %v, want failure: %q; stderr %s", err, failed, errs.String())
	}
	if failed != "" {
		if strings.TrimSpace(errs.String()) == "" {
			c.Failf("no error message (%s)", failed)
		}
		c.Ev("error: "+strings.SplitN(failed, ":", 2)[0], 1)
	} else if errs.Len() > 0 {
		c.Failf("message %q though nothing failed", errs.String())
	}
	if len(v.files) > 1 {
		c.Ev("runs with several files", 1)
	}
	c.Seen(strings.Join(v.log, ";"))
}

// checkConvOdd: values JSON has no words for, and calls without files.
func checkConvOdd(c *Case) {
	bin := filepath.Join(os.Getenv("VERIF_SETUP"), "tplconv")
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "conv.")
	if err != nil {
		fail2("%v", err)
	}
	defer os.RemoveAll(dir)
	v := &convRun{c: c, dir: dir}
	v.put("home/.tplconv/input/f.tpl", "doc = *(FLOAT/f_Floats | IDENT/f_Floats)")
	v.put("work/a.f", []string{"NaN", "1 Inf", "1 2 infinity", "", "-"}[c.Idx%5])
	v.put("work/b.f", "1.5 2")
	args := [][]string{{"a.f"}, {"b.f", "a.f"}, {"-ext", "json", "a.f"}, {}, {"-o", "nosuch", "b.f"}}[c.Idx/5%5]
	c.Input("tplconv %s; a.f %d", strings.Join(args, " "), c.Idx%5)
	cmd := exec.Command(bin, args...)
	cmd.Dir = filepath.Join(dir, "work")
	cmd.Env = append(os.Environ(), "HOME="+filepath.Join(dir, "home"))
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	full := c.Idx >= 25
	if full { // the output can't be written
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			fail2("%v", err)
		}
		defer f.Close()
		cmd.Stdout = f
		cmd.Args = append(cmd.Args[:1], "b.f")
		c.Input("tplconv b.f > /dev/full")
	}
	err = cmd.Run()
	if full {
		if err == nil || strings.TrimSpace(errs.String()) == "" {
			c.Failf("exit status %v, message %q", err, errs.String())
		}
		c.Ev("full disks", 1)
		c.Seen(c.input)
		return
	}
	empty := c.Idx%5 == 3 && c.Idx/5%5 < 3 // a document: null
	if empty {
		want := []string{"null", jsonOf(map[string]interface{}{"f": []interface{}{1.5, 2.0}}) + "null", ""}[c.Idx/5%5]
		if err != nil || out.String() != want {
			c.Failf("exit status %v, output %q, want %q", err, out.String(), want)
		}
		c.Ev("empty documents", 1)
		c.Seen(c.input)
		return
	}
	if err == nil {
		c.Failf("exit status 0; output %q, stderr %q", out.String(), errs.String())
	}
	if strings.TrimSpace(errs.String()) == "" {
		c.Failf("no error message; output %q", out.String())
	}
	want := ""
	if len(args) == 2 {
		want = jsonOf(map[string]interface{}{"f": []interface{}{1.5, 2.0}})
	}
	if out.String() != want {
		c.Failf("output %q, want %q", out.String(), want)
	}
	c.Ev("odd calls", 1)
	c.Seen(c.input)
}

func init() {
	register(&Prop{
		ID:   "C27",
		Rule: "tplconv runs with one to four files of known, unknown and broken formats, matching and not; one to three records go through the templates of an output folder, and runs grow in one dimension up to its limit (files, records, names, rules, ...); non-trivial: it ran; distinct by the files",
		MustSee: []string{"documents", "output files", "error: bad grammar", "error: unknown format", "error: no match", "error: missing",
			"runs with several files", "odd calls", "empty documents", "full disks", "big cases", "documents through templates", "templates that fail"},
		Assume: []string{"documents are compared as JSON values; their layout is not part of the property"},
		Setup: func(dir string) (string, error) {
			return buildCmds(dir, map[string]string{"tplconv": "./tpl/cmd/tplconv"})
		},
		Parts: []*Part{
			{Name: "files", Quick: 2500, Thorough: 60000, Run: checkConv},
			{Name: "html", Quick: 1000, Thorough: 20000, Run: checkConvHTML},
			bigPart("big", bigConvDims, 1, 6, bigConv),
			{Name: "odd", Quick: 26, Thorough: 26, Exhaustive: true, Run: checkConvOdd},
		},
	})
}
