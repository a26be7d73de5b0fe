package main

import (
	"bytes"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	simcmd "github.com/alxarch/njson/cmd/njson"
	"github.com/alxarch/njson/verifsim/core"
	"github.com/alxarch/njson/verifsim/simos"
	"github.com/alxarch/njson/verifsim/simrt"
)

// opts are command-line options other than -w and -p.
func genOpts(g *src) []string {
	var o []string
	if g.Bool(1, 6) {
		o = append(o, "-k", "njson")
	}
	if g.Bool(1, 8) {
		o = append(o, "-only-tagged")
	}
	if g.Bool(1, 6) {
		o = append(o, "-only-exported")
	}
	switch g.Pick(5, 1, 1) {
	case 1:
		o = append(o, "-append")
	case 2:
		o = append(o, "-unmarshal")
	}
	if g.Bool(1, 8) {
		o = append(o, "-match", []string{"^[A-M]", "e", "."}[g.N(3)])
	}
	if g.Bool(1, 8) {
		o = append(o, "-omitempty")
	}
	if g.Bool(1, 5) {
		o = append(o, "-case", []string{"snake", "camel", "lower"}[g.N(3)])
	}
	return o
}

func genFilter(g *src) string {
	return []string{"", "", "", "*", "^[A-Z]", "o", ".*", "Foo", "[FB]", "Foo|item"}[g.N(10)]
}

type command struct {
	p    *pkg
	dir  string
	opts []string
	filt string
	w    bool
	dump bool // print without formatting, to the standard error output
	bare bool // the package's name is left to the command
}

func (c command) args() []string {
	a := []string{"njson", "-p", c.dir}
	a = append(a, c.opts...)
	if c.w {
		a = append(a, "-w")
	}
	if c.dump {
		a = append(a, "-d")
	}
	if c.bare && c.filt == "" && filepath.Base(c.dir) == c.p.name {
		return a
	}
	a = append(a, c.p.name)
	if c.filt != "" {
		a = append(a, c.filt)
	}
	return a
}

// world is the part of the environment that may differ between two generations.
type world struct {
	order uint64 // 0: maps in key order
	clock int64
}

// run runs the command in a simulated process.
func (c command) run(w world, proc *simos.Process) (int, interface{}) {
	oldArgs := os.Args
	defer func() { os.Args = oldArgs }()
	os.Args = c.args()
	simrt.MapOrder = nil
	if w.order != 0 {
		simrt.MapOrder = simrt.NewSource(w.order)
	}
	simrt.ClockOffset = w.clock
	before := simrt.MapIters
	defer func() {
		simrt.MapOrder = nil
		simrt.ClockOffset = 0
		if simrt.MapIters > before {
			core.Hit(pMapOrder)
		}
	}()
	return simos.Run(proc, func() {
		freshProcess()
		simcmd.SimMain()
	})
}

// freshProcess puts the packages' variables in the state they have when a process starts.
func freshProcess() {
	flag.CommandLine = flag.NewFlagSet("njson", flag.PanicOnError)
	flag.CommandLine.SetOutput(&bytes.Buffer{})
	simrt.ResetProc()
}

func describe(c *core.Ctx, p *pkg) {
	if !c.WantDesc {
		return
	}
	for _, f := range p.files {
		c.Describe("file %s:\n%s", f, p.text[f])
	}
}

func tree(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(path string, st os.FileInfo, err error) error {
		if err == nil && st.Mode().IsRegular() {
			b, _ := os.ReadFile(path)
			m[strings.TrimPrefix(path, dir+"/")] = string(b)
		}
		return nil
	})
	return m
}

// firstDiff shows where two texts differ.
func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) && i < len(lb); i++ {
		if la[i] != lb[i] {
			return fmt.Sprintf("line %d:\n  %q\n  %q", i+1, la[i], lb[i])
		}
	}
	return fmt.Sprintf("%d and %d lines", len(la), len(lb))
}

func last(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.LastIndexByte(s, '\n'); i >= 0 {
		s = s[i+1:]
	}
	return s
}
