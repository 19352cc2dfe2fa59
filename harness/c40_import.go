package main

// C40: histories of imports. They need the placeholders of the operators, which the builtin
// package fills, so they run in a program without it (imports40).

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

var imports40 struct {
	in  io.WriteCloser
	out *bufio.Reader
	err strings.Builder
	cmd *exec.Cmd
}

func checkImports(c *Case) { runImports(c, "") }

var big40 = []bigDim{{"names of a table", 20001}, {"members of a module", 20001}, {"modules", 5001}, {"imports of symbols", 5001}, {"imports refused", 5001}, {"characters of a name", 20001}, {"hooks", 2001}, {"engines", 300}}

func runImports(c *Case, size string) {
	p := &imports40
	seed := c.R.U64()
	c.Input("history %d%s", seed, size)
	if p.cmd == nil {
		if os.Getenv("VERIF_SETUP") == "" {
			fail2("no program")
		}
		p.cmd = exec.Command(filepath.Join(os.Getenv("VERIF_SETUP"), "imports40"))
		p.err.Reset()
		p.cmd.Stderr = &p.err
		var err error
		if p.in, err = p.cmd.StdinPipe(); err != nil {
			fail2("%v", err)
		}
		out, err := p.cmd.StdoutPipe()
		if err != nil {
			fail2("%v", err)
		}
		p.out = bufio.NewReaderSize(out, 1<<20)
		if err := p.cmd.Start(); err != nil {
			fail2("%v", err)
		}
	}
	fmt.Fprintf(p.in, "%d%s\n", seed, size)
	line, err := p.out.ReadBytes('\n')
	if err != nil {
		p.cmd.Wait()
		p.cmd = nil
		c.Failf("the program that imports ended: %s", brief(p.err.String()))
	}
	var res struct {
		Input, Fail string
		Events      map[string]int
	}
	if err := json.Unmarshal(line, &res); err != nil {
		fail2("%v", err)
	}
	c.Input("%s", res.Input)
	for _, k := range sortedKeys(res.Events) {
		c.Ev(k, res.Events[k])
	}
	if res.Fail != "" {
		c.Failf("%s", res.Fail)
	}
	c.Seen(res.Input)
}

func init() {
	register(&Prop{ID: "C40",
		Rule:    "histories of imports of random tables (functions, values, nil, nested maps, operators) under new and existing module names and as global symbols, with safe mode switched on and off and hooks that edit the table, check what is visible meanwhile, have the wrong prototype or panic; after each import an engine that existed before and a new one look at every name of the universe, every member of every module and every operator and compare with a model of the symbol table; a history counts when it is over; big: one dimension (names, members, modules, refusals, hooks, engines) at the sizes of the ladder",
		MustSee: []string{"imports", "modules imported", "conflicts", "conflicts with the language", "placeholders filled", "placeholders filled twice", "hooks run", "refused in safe mode", "symbols looked at"},
		Assume:  []string{"which other symbols of a refused global table have been imported is unspecified", "whether the hook of a table that is refused runs is unspecified", "engines made before an operator is imported keep the placeholder"},
		Setup: func(dir string) (string, error) {
			cmd := exec.Command("go", "build", "-o", filepath.Join(dir, "imports40"), "./imports40")
			cmd.Dir = filepath.Join(os.Getenv("VERIF_DIR"), "harness")
			if out, err := cmd.CombinedOutput(); err != nil {
				return "", fmt.Errorf("%v: %s", err, out)
			}
			return dir, nil
		},
		Parts: []*Part{{Name: "histories", Quick: 6000, Thorough: 250000, Run: checkImports},
			bigPart("big", big40, 1, 4, func(c *Case, b bigCase) { runImports(c, fmt.Sprintf(",%d,%s", b.n, b.name)) })}})
}
