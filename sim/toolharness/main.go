// Command toolharness simulates the byte map tool.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"

	simcmd "github.com/alxarch/njson/internal/bytemaper"
	"github.com/alxarch/njson/verifsim/core"
	"github.com/alxarch/njson/verifsim/simos"
	"github.com/alxarch/njson/verifsim/simrt"
)

type src = simrt.Source

var (
	pOldFile = core.Probe("output file of an earlier run present")
	pNoFile  = core.Probe("no output file before")
	pBadArg  = core.Fault("argument that makes no sense")
	pPrinted = core.Probe("code printed")
	pFailed  = core.Probe("file faults, process fails")
	pKilled  = core.Probe("process killed")
	pSuccess = core.Probe("file faults, process succeeds")
)

var scratch string

func main() {
	core.AtExit = func() {
		if scratch != "" {
			os.RemoveAll(scratch)
		}
	}
	defer core.AtExit()
	core.Main([]*core.Prop{
		{ID: "C21", Setup: setupC21, Direct: true,
			Real:   []string{"command internal/bytemaper", "flag, text/template"},
			Stub:   []string{"map iteration order: simulated", "file and process functions of os and io/ioutil, package log: simulated over a scratch directory"},
			Probes: []int{pOldFile, pNoFile, pBadArg, pPrinted, pFailed, pKilled, pSuccess},
			Rule:   "Each run draws arguments for the byte map tool (predefined, renamed and custom maps, quoted and unquoted, package, prefix, sometimes one that makes no sense), an output file that is absent or of an earlier run, and runs the tool up to 4 times with failing file operations, a failing standard output or a kill at a chosen operation, checking the output file and exit status after each, and then once without faults; what it writes is checked with go/parser and against the tables the arguments ask for."},
	})
}

func sub(name string) string {
	if scratch == "" {
		d, err := os.MkdirTemp("", "njtool")
		if err != nil {
			panic(err)
		}
		scratch = d
	}
	d := filepath.Join(scratch, name)
	os.RemoveAll(d)
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

// call is one way to call the tool.
type call struct {
	pkg, prefix string
	maps        []string
	want        map[string]func(byte) int // tables asked for; -1: any entry
	bad         bool
}

var predefined = map[string]func(rune) bool{
	"IsControl": unicode.IsControl, "IsPunct": unicode.IsPunct, "IsDigit": unicode.IsDigit, "IsSpace": unicode.IsSpace, "IsPrint": unicode.IsPrint,
}

var otherNames = []string{"ToJSON", "ToISO3166", "ToISO639", "ToHex", "FromHex", "ToLower", "ToUpper", "ToTitle"}
var others = map[string]func(byte) int{
	"ToJSON": func(c byte) int {
		switch i := strings.IndexByte("\b\f\n\r\t\\\"/<>&", c); {
		case c >= 0x80:
			return 0xff
		case i >= 8:
			return 1
		case i >= 0:
			return int(`bfnrt\\\`[i])
		case c < ' ' || c == 0x7f:
			return 0
		}
		return 0x80
	},
	"ToISO3166": func(c byte) int { return letter(c, 'A', 'Z') },
	"ToISO639":  func(c byte) int { return letter(c, 'a', 'z') },
	"ToHex": func(c byte) int {
		if c < 16 {
			return int("0123456789abcdef"[c])
		}
		return 0xff
	},
	"FromHex": func(c byte) int {
		switch i := strings.IndexByte("0123456789abcdef", c|0x20); {
		case c >= '0' && c <= '9', i >= 10 && c >= 'A':
			return i
		case c < '0' || c >= 0x80:
			return 0xff
		}
		return -1
	},
	"ToLower": func(c byte) int { return rune1(unicode.ToLower(rune(c))) },
	"ToUpper": func(c byte) int { return rune1(unicode.ToUpper(rune(c))) },
	"ToTitle": func(c byte) int { return rune1(unicode.ToTitle(rune(c))) },
}

func letter(c, first, other byte) int {
	if l := c | 0x20; l >= 'a' && l <= 'z' {
		return int(first + l - 'a')
	}
	return int(other)
}

func rune1(r rune) int {
	if r < 0x80 {
		return int(r)
	}
	return 0
}

func genCall(g *src) call {
	a := call{want: map[string]func(byte) int{}}
	if g.Bool(1, 2) {
		a.pkg = []string{"main", "strjson", "p"}[g.N(3)]
	}
	if g.Bool(1, 3) {
		a.prefix = []string{"bytemap", "_", "table", "x9"}[g.N(4)]
	}
	var names []string
	for n := range predefined {
		names = append(names, n)
	}
	sort.Strings(names)
	for n := g.Pick(1, 3, 3, 2, 2, 1, 1); n > 0; n-- {
		id := fmt.Sprintf("%s%d", []string{"Is", "To", "X"}[g.N(3)], g.N(12))
		switch g.N(5) {
		case 0:
			p := names[g.N(len(names))]
			is := predefined[p]
			f := func(c byte) int { return one(is(rune(c))) }
			if g.Bool(1, 2) {
				a.maps, a.want[p] = append(a.maps, p), f
			} else {
				a.maps, a.want[id] = append(a.maps, p+":"+id), f
			}
		case 1:
			p := otherNames[g.N(len(otherNames))]
			if g.Bool(1, 2) {
				a.maps, a.want[p] = append(a.maps, p), others[p]
			} else {
				a.maps, a.want[id] = append(a.maps, p+":"+id), others[p]
			}
		default:
			chars, arg := "", ""
			for k := g.N(5); k >= 0; k-- {
				c := []string{"a", "0", " ", "\t", "\n", ":", "'", "`", "\\", "\"", "\x00", "-", "é", "#", "{{", "%q"}[g.N(16)]
				chars += c
			}
			switch q := strconv.Quote(chars); {
			case g.Bool(1, 3):
				arg = q
			case !strings.Contains(q[1:len(q)-1], `\"`):
				arg = q[1 : len(q)-1] // the quotes are optional
			default:
				arg = q
			}
			a.maps, a.want[id] = append(a.maps, id+":"+arg), func(c byte) int { return one(strings.IndexByte(chars, c) >= 0) }
		}
	}
	return a
}

func one(b bool) int {
	if b {
		return 1
	}
	return 0
}

// spoiled is the same call with an argument that makes no sense.
func (a call) spoiled(g *src) call {
	a.bad = true
	maps := append([]string(nil), a.maps...)
	bad := []string{":abc", "", ":", `Foo:"abc`, `Foo:a"b`, `Foo:a\`, `Foo:\q`, `Foo:"a"b"`, `Foo:\x4`}[g.N(9)]
	i := g.N(len(maps) + 1)
	a.maps = append(maps[:i:i], append([]string{bad}, maps[i:]...)...)
	return a
}

func (a call) args(file string) []string {
	l := []string{"bytemaper"}
	if a.pkg != "" {
		l = append(l, "-pkg", a.pkg)
	}
	if a.prefix != "" {
		l = append(l, "-prefix="+a.prefix)
	}
	if file != "" {
		l = append(l, "-w", file)
	}
	return append(l, a.maps...)
}

// run runs the tool in a simulated process.
func run(c *core.Ctx, args []string, order uint64, proc *simos.Process) int {
	old := os.Args
	os.Args = args
	if order != 0 {
		simrt.MapOrder = simrt.NewSource(order)
	}
	simrt.ClockOffset = int64(c.Env.N(1 << 30))
	defer func() { os.Args, simrt.MapOrder, simrt.ClockOffset = old, nil, 0 }()
	code, pv := simos.Run(proc, func() {
		flag.CommandLine = flag.NewFlagSet("bytemaper", flag.PanicOnError)
		flag.CommandLine.SetOutput(&bytes.Buffer{})
		simrt.ResetProc()
		simcmd.SimMain()
	})
	for _, l := range proc.Trace {
		c.Describe("  %s", l)
	}
	c.Describe("exit status %d: %s", code, strings.TrimSpace(proc.Err.String()))
	if pv != nil {
		c.Describe("panic: %v", pv)
	}
	if proc.Escape != "" {
		c.Fail("escape", "%q modifies %s", args, proc.Escape)
	}
	return code
}

// lacks says how text fails to be what the call asks for.
func (a call) lacks(text string) string {
	f, err := parser.ParseFile(token.NewFileSet(), "out.go", text, 0)
	if err != nil {
		return "is no Go source: " + err.Error()
	}
	pkg, prefix := a.pkg, a.prefix
	if pkg == "" {
		pkg = "main"
	}
	if prefix == "" {
		prefix = "bytemap"
	}
	if f.Name.Name != pkg {
		return "is of package " + f.Name.Name
	}
	tables, funcs := map[string]string{}, map[string]bool{}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			funcs[d.Name.Name] = true
		case *ast.GenDecl:
			for _, s := range d.Specs {
				if v, ok := s.(*ast.ValueSpec); ok && len(v.Names) == 1 && len(v.Values) == 1 {
					if l, ok := v.Values[0].(*ast.BasicLit); ok {
						tables[v.Names[0].Name], _ = strconv.Unquote(l.Value)
					}
				}
			}
		}
	}
	for name, want := range a.want {
		if !funcs[name] {
			return "has no function " + name
		}
		t, ok := tables[prefix+name]
		if !ok || len(t) != 256 {
			return "has no table of 256 bytes for " + name
		}
		for i := 0; i < 256; i++ {
			if w := want(byte(i)); w >= 0 && int(t[i]) != w {
				return fmt.Sprintf("has a wrong entry %#x for byte %#x (%[2]q) of %s", t[i], i, name)
			}
		}
	}
	if len(tables) != len(a.want) || len(funcs) != len(a.want) {
		return fmt.Sprintf("has %d tables and %d functions instead of %d", len(tables), len(funcs), len(a.want))
	}
	return ""
}

func setupC21(c *core.Ctx) {
	g := c.Gen
	dir := sub("t")
	file := filepath.Join(dir, []string{"bytemaps.go", "out", "x.y.go"}[g.N(3)])
	others := []string{filepath.Join(dir, "other.go"), file + ".tmp", file + "~", file + ".bak"}
	const otherText = "package other\n"
	for _, f := range others {
		os.WriteFile(f, []byte(otherText), 0o644)
	}
	read := func() (string, bool) {
		b, err := os.ReadFile(file)
		return string(b), err == nil
	}
	order := func() uint64 {
		if g.Bool(1, 2) {
			return 0
		}
		return uint64(1 + g.N(1<<20))
	}
	quiet := func(a call, file string) string {
		proc := &simos.Process{Env: c.Env, Root: dir}
		before := tree(dir)
		args := a.args(file)
		c.Describe("%q", args)
		if code := run(c, args, order(), proc); code != 0 {
			c.Fail("fails", "%q fails without faults: %s", args, strings.TrimSpace(proc.Err.String()))
		}
		if file == "" {
			core.Hit(pPrinted)
			if d := differ(before, tree(dir)); d != "" {
				c.Fail("damaged", "%q, which only prints, changes %s", args, d)
			}
			return proc.Out.String()
		}
		b, err := os.ReadFile(file)
		if err != nil {
			c.Fail("false success", "%q: exit status 0, and no output file: %v", args, err)
		}
		return string(b)
	}
	a := genCall(g)
	want := quiet(a, "")
	if what := a.lacks(want); what != "" {
		c.Fail("incomplete", "%q: exit status 0, and the code %s", a.args(""), what)
	}
	if g.Bool(2, 3) {
		quiet(genCall(g), file)
		if g.Bool(1, 3) {
			os.Chmod(file, 0o600)
		}
		core.Hit(pOldFile)
	} else {
		core.Hit(pNoFile)
	}
	for n := 1 + g.Pick(3, 2, 1, 1); n > 0; n-- {
		b, w := a, want
		switch g.Pick(3, 1, 1) {
		case 1:
			b = a.spoiled(g)
			core.Hit(pBadArg)
		case 2:
			b = genCall(g)
			w = quiet(b, "")
			if what := b.lacks(w); what != "" {
				c.Fail("incomplete", "%q: exit status 0, and the code %s", b.args(""), what)
			}
		}
		proc := &simos.Process{Env: c.Env, Root: dir}
		target := file
		if g.Bool(1, 6) {
			target = ""
			proc.StdPct = 50
		} else if c.Env.Bool(1, 2) {
			proc.KillAt = 1 + c.Env.N(8)
			if c.Env.Bool(1, 4) {
				proc.FaultPct = 15
			}
		} else {
			proc.FaultPct = []int{0, 10, 30, 60, 100}[c.Env.N(5)]
		}
		args := b.args(target)
		c.Describe("%q with kill at operation %d, %d%% faults", args, proc.KillAt, proc.FaultPct)
		before := tree(dir)
		old, had := read()
		code := run(c, args, order(), proc)
		now, has := read()
		switch {
		case proc.Killed:
			core.Hit(pKilled)
		case proc.Faults > 0 && code == 0:
			core.Hit(pSuccess)
		case proc.Faults > 0:
			core.Hit(pFailed)
		}
		ops := "\noperations:\n  " + strings.Join(proc.Trace, "\n  ")
		if b.bad && code == 0 {
			c.Fail("false success", "%q: exit status 0 in spite of an argument that makes no sense", args)
		}
		if target == "" {
			if d := differ(before, tree(dir)); d != "" {
				c.Fail("damaged", "%q, which only prints, changes %s", args, d)
			}
			if code == 0 && proc.Out.String() != w {
				c.Fail("false success", "%q: exit status 0, and what was printed is not the code%s", args, ops)
			}
			continue
		}
		whole := has && now == w && !b.bad
		if code == 0 && !whole {
			c.Fail("false success", "%q: exit status 0, and the file of %d bytes is not the code of %d bytes%s", args, len(now), len(w), ops)
		}
		if !whole && (has != had || now != old) {
			c.Fail("damaged", "%q: the file (%d bytes, before: %d) is neither as before nor complete%s", args, len(now), len(old), ops)
		}
		for _, f := range others {
			if t, err := os.ReadFile(f); err == nil && string(t) != otherText || err != nil && before[f] != "" {
				c.Fail("damaged", "%q changes %s%s", args, filepath.Base(f), ops)
			}
		}
	}
	if got := quiet(a, file); got != want {
		c.Fail("incomplete", "%q without faults: exit status 0, and the file of %d bytes is not the code of %d bytes", a.args(file), len(got), len(want))
	}
}

func tree(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(path string, st os.FileInfo, err error) error {
		if err == nil && st.Mode().IsRegular() {
			b, _ := os.ReadFile(path)
			m[path] = string(b)
		}
		return nil
	})
	return m
}

func differ(a, b map[string]string) string {
	for f := range b {
		if t, ok := a[f]; !ok || t != b[f] {
			return filepath.Base(f)
		}
	}
	for f := range a {
		if _, ok := b[f]; !ok {
			return filepath.Base(f)
		}
	}
	return ""
}
