package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/alxarch/njson/verifsim/core"
	"github.com/alxarch/njson/verifsim/simos"
	"github.com/alxarch/njson/verifsim/simrt"
)

var (
	pGenError = core.Fault("package that code cannot be generated for")
	pSyntax   = core.Fault("package that does not parse")
	pOldFile  = core.Probe("output file of an earlier generation present")
	pNoFile   = core.Probe("no output file before")
	pKilled   = core.Probe("process killed")
	pFaulted  = core.Probe("file faults, process fails")
	pChanged  = core.Probe("package changed between runs")
	pDump     = core.Probe("debug output printed")
	pSurvived = core.Probe("file faults, process succeeds")
)

func setupC17(c *core.Ctx) {
	defer func() { simrt.MapOrder = nil; simrt.ClockOffset = 0 }()
	p := genPkg(c.Gen, false)
	describe(c, p)
	dir := sub("p/" + p.name)
	p.write(dir)
	cmd := command{p: p, dir: dir, opts: genOpts(c.Gen), filt: genFilter(c.Gen), bare: c.Gen.Bool(1, 2)}
	target := filepath.Join(dir, p.output())
	// maps are walked in key order throughout: that the output does not depend on it is C16
	genClock := func() world { return world{clock: int64(c.Env.N(1 << 30))} }
	w := genClock()
	quiet := func(cmd command, w world) (int, *simos.Process) {
		proc := &simos.Process{Env: c.Env, Root: cmd.dir}
		var before map[string]string
		if !cmd.w {
			before = tree(cmd.dir)
		}
		code, pv := cmd.run(w, proc)
		if !cmd.w {
			same(c, cmd, before)
		}
		if pv != nil {
			c.Fail("panic", "%v panics: %v", cmd.args(), pv)
		}
		if proc.Escape != "" {
			c.Fail("escape", "%v modifies %s", cmd.args(), proc.Escape)
		}
		return code, proc
	}
	write := cmd
	write.w = true
	// generated code has all the methods that were asked for
	whole := func(cmd command, extra []string, text string) {
		if what := cmd.missing(extra, text); what != "" {
			c.Fail("incomplete", "%v: exit status 0, and the generated code %s", cmd.args()[3:], what)
		}
	}
	// what a complete output file looks like, and how many operations writing it takes
	reference := func(cmd command, w world) (string, bool) {
		rd := sub("r/" + cmd.p.name)
		cmd.p.write(rd)
		cmd.dir = rd
		code, proc := quiet(cmd, w)
		if code != 0 {
			return last(proc.Err.String()), false
		}
		return proc.Out.String(), true
	}
	want, ok := reference(cmd, w)
	if !ok {
		// options leave nothing to generate: fall back to the plain command
		cmd.opts, write.opts, cmd.filt, write.filt = nil, nil, "", ""
		if want, ok = reference(cmd, w); !ok {
			// some packages are beyond the generator, but not these
			if p.imports == 0 {
				c.Fail("fails", "%v fails without faults: %s", cmd.args()[3:], want)
			}
			core.Hit(pGenErr)
			return
		}
	}
	whole(cmd, nil, want)
	// an earlier output file
	if c.Gen.Bool(1, 2) {
		old := write
		if c.Gen.Bool(1, 2) {
			old.opts = genOpts(c.Gen)
		}
		ow := genClock()
		if code, _ := quiet(old, ow); code == 0 {
			c.Describe("earlier: %v", old.args())
		}
		if c.Gen.Bool(1, 4) {
			os.Chmod(target, 0o600)
		}
	}
	if _, err := os.Stat(target); err == nil {
		core.Hit(pOldFile)
	} else {
		core.Hit(pNoFile)
	}
	rd := sub("r2/" + p.name)
	for f, text := range tree(dir) {
		os.WriteFile(filepath.Join(rd, f), []byte(text), 0o644)
	}
	dry := write
	dry.dir = rd
	code, proc := quiet(dry, w)
	if code != 0 {
		c.Fail("fails", "%v fails without faults: %s", dry.args()[3:], last(proc.Err.String()))
	}
	if b, err := os.ReadFile(filepath.Join(rd, p.output())); err != nil || string(b) != want {
		c.Fail("incomplete", "%v without faults: exit status 0, and the output file is not the generated code: %v", dry.args()[3:], diffOrErr(want, string(b), err))
	}
	ops := proc.Ops
	check := func(what string, before map[string]string, proc *simos.Process, code int, want string) {
		after := tree(dir)
		old, had := before[p.output()]
		now, has := after[p.output()]
		for _, l := range proc.Trace {
			c.Describe("  %s", l)
		}
		c.Describe("exit status %d: %s", code, last(proc.Err.String()))
		if proc.Escape != "" {
			c.Fail("escape", "%s: %v modifies %s", what, write.args(), proc.Escape)
		}
		for _, f := range p.files {
			if after[f] != before[f] {
				c.Fail("source", "%s: source file %s was changed", what, f)
			}
		}
		complete := has && now == want
		if code == 0 && !complete {
			c.Fail("false success", "%s: exit status 0, and the output file is not the generated code: %s\noperations:\n%s", what, fileState(has, now, had, old, want), lines(proc.Trace))
		}
		if !complete && (has != had || now != old) {
			c.Fail("damaged", "%s: the output file is neither as before nor complete: %s\noperations:\n%s", what, fileState(has, now, had, old, want), lines(proc.Trace))
		}
	}
	cur := want
	for n := 1 + c.Gen.Pick(3, 2, 1, 1); n > 0; n-- {
		w := w
		want := cur
		if c.Gen.Bool(1, 4) {
			// the package cannot be generated for now
			bad := filepath.Join(dir, "bad.go")
			if p.test {
				bad = filepath.Join(dir, "bad_test.go")
			}
			text := "package " + p.name + "\n\ntype Foo_bad struct { X " + []string{"chan int", "func()", "[3]int", "complex64", "map[string]chan int", "struct{ Y int } `json:\",omitempty\" njson:\",omitempty\"`", "map[string]func()", "int `json:\"a\\\"b\" njson:\"a\\\"b\"`", "int `json:\"a\\nb\" njson:\"a\\nb\"`"}[c.Gen.N(9)] + " }\n"
			if c.Gen.Bool(1, 3) {
				text = "package " + p.name + "\n\ntype Foo_bad struct {\n"
				core.Hit(pSyntax)
			} else {
				core.Hit(pGenError)
			}
			os.WriteFile(bad, []byte(text), 0o644)
			before := tree(dir)
			proc := &simos.Process{Env: c.Env, Root: dir}
			c.Describe("with %s", text)
			code, _ := write.run(w, proc)
			// a filter may leave the bad struct out: then all must be as usual
			if code == 0 {
				want, _ = badReference(c, write, w, filepath.Base(bad), text)
				whole(write, []string{"Foo_bad"}, want)
			}
			check("unsupported package", before, proc, code, want)
			os.Remove(bad)
			continue
		}
		if c.Gen.Bool(1, 4) {
			// the package changed since
			q := p.grown(c.Gen)
			if len(q.files) == len(p.files) || c.Gen.Bool(1, 4) {
				if r := genPkg(c.Gen, false); r.test == p.test {
					q = r.renamed(p.name)
				}
			}
			if s, ok := reference(command{p: q, opts: cmd.opts, filt: cmd.filt}, w); ok {
				core.Hit(pChanged)
				describe(c, q)
				for _, f := range p.files {
					os.Remove(filepath.Join(dir, f))
				}
				p = q
				p.write(dir)
				cmd.p, write.p, cur, want = p, p, s, s
			}
		}
		if c.Gen.Bool(1, 3) {
			w = genClock()
			want, _ = reference(cmd, w)
		}
		before := tree(dir)
		proc := &simos.Process{Env: c.Env, Root: dir}
		if c.Env.Bool(1, 2) {
			proc.KillAt = 1 + c.Env.N(ops+1)
			if c.Env.Bool(1, 4) {
				proc.FaultPct = 15
			}
		} else {
			proc.FaultPct = []int{10, 30, 60, 100}[c.Env.N(4)]
		}
		c.Describe("%v with kill at operation %d, %d%% faults", write.args(), proc.KillAt, proc.FaultPct)
		code, pv := write.run(w, proc)
		what := "run with file faults"
		if proc.Killed {
			core.Hit(pKilled)
			what = "run that is killed"
		} else if proc.Faults > 0 {
			if code == 0 {
				core.Hit(pSurvived)
			} else {
				core.Hit(pFaulted)
			}
		}
		_ = pv // a crash is a failure like any other
		check(what, before, proc, code, want)
	}
	if c.Gen.Bool(1, 3) {
		// printed to a standard output that fails
		rd := sub("r4/" + p.name)
		p.write(rd)
		dry := cmd
		dry.dir, dry.w = rd, false
		before := tree(rd)
		proc := &simos.Process{Env: c.Env, Root: rd, StdPct: 50}
		c.Describe("%v with a failing standard output", dry.args())
		code, _ := dry.run(w, proc)
		same(c, dry, before)
		if got := proc.Out.String(); code == 0 && got != cur {
			c.Fail("false success", "%v: exit status 0, and what was printed is not the generated code: %s\noperations:\n%s", dry.args(), firstDiff(cur, got), lines(proc.Trace))
		}
	}
	if c.Gen.Bool(1, 4) {
		// printed unformatted, to a standard error output that fails
		core.Hit(pDump)
		rd := sub("r5/" + p.name)
		p.write(rd)
		dry := cmd
		dry.dir, dry.w, dry.dump = rd, false, true
		code, proc := quiet(dry, w)
		if code != 0 {
			c.Fail("fails", "%v fails without faults: %s", dry.args()[3:], last(proc.Err.String()))
		}
		dump := func(s string) string {
			if i := strings.Index(s, "// Code generated"); i >= 0 {
				return s[i:]
			}
			return ""
		}
		want := dump(proc.Err.String())
		whole(dry, nil, want)
		before := tree(rd)
		proc = &simos.Process{Env: c.Env, Root: rd, ErrPct: 40}
		c.Describe("%v with a failing standard error output", dry.args())
		code, _ = dry.run(w, proc)
		same(c, dry, before)
		if got := dump(proc.Err.String()); code == 0 && got != want {
			c.Fail("false success", "%v: exit status 0, and what was printed is not the generated code: %s\noperations:\n%s", dry.args(), firstDiff(want, got), lines(proc.Trace))
		}
	}
	proc = &simos.Process{Env: c.Env, Root: dir}
	before := tree(dir)
	code, pv := write.run(w, proc)
	if pv != nil {
		c.Fail("panic", "%v panics: %v", write.args(), pv)
	}
	if code != 0 {
		c.Fail("fails", "the command run again without faults fails: %s", last(proc.Err.String()))
	}
	check("run again without faults", before, proc, code, cur)
}

// same checks that a command that prints has changed no file.
func same(c *core.Ctx, cmd command, before map[string]string) {
	after := tree(cmd.dir)
	for f := range after {
		if before[f] != after[f] {
			c.Fail("damaged", "%v, which only prints, changes %s", cmd.args(), f)
		}
	}
	if len(before) != len(after) {
		c.Fail("damaged", "%v, which only prints, removes files", cmd.args())
	}
}

// missing says what generated code lacks, if anything.
func (c command) missing(extra []string, text string) string {
	f, err := parser.ParseFile(token.NewFileSet(), "out.go", text, parser.ParseComments)
	if err != nil {
		return "is no Go source: " + err.Error()
	}
	if f.Name.Name != c.p.name {
		return "is of package " + f.Name.Name
	}
	have := map[string]bool{}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv != nil && len(fd.Recv.List) == 1 {
			t := fd.Recv.List[0].Type
			if st, ok := t.(*ast.StarExpr); ok {
				t = st.X
			}
			if id, ok := t.(*ast.Ident); ok {
				have[id.Name+"."+fd.Name.Name] = true
			}
		}
	}
	a, u := false, false
	for _, o := range c.opts {
		a = a || o == "-append"
		u = u || o == "-unmarshal"
	}
	if !a && !u {
		a, u = true, true
	}
	matches := func(name string) bool { return true }
	switch {
	case c.filt == "" || c.filt == "*":
	case regexp.QuoteMeta(c.filt) == c.filt:
		matches = func(name string) bool { return name == c.filt }
	default:
		matches = regexp.MustCompile(c.filt).MatchString
	}
	for _, name := range append(append([]string{}, c.p.structs...), extra...) {
		if !matches(name) {
			continue
		}
		if a && !have[name+".AppendJSON"] {
			return "has no method to encode " + name
		}
		if u && !have[name+".UnmarshalNodeJSON"] {
			return "has no method to decode " + name
		}
	}
	return ""
}

func badReference(c *core.Ctx, cmd command, w world, name, text string) (string, bool) {
	rd := sub("r3/" + cmd.p.name)
	cmd.p.write(rd)
	os.WriteFile(filepath.Join(rd, name), []byte(text), 0o644)
	cmd.dir = rd
	cmd.w = false
	proc := &simos.Process{Env: c.Env, Root: rd}
	code, _ := cmd.run(w, proc)
	return proc.Out.String(), code == 0
}

func lines(l []string) string {
	s := ""
	for _, x := range l {
		s += "  " + x + "\n"
	}
	return s
}

func diffOrErr(a, b string, err error) string {
	if err != nil {
		return err.Error()
	}
	return firstDiff(a, b)
}

func fileState(has bool, now string, had bool, old string, want string) string {
	d := func(ok bool, s string) string {
		if !ok {
			return "absent"
		}
		return itoa(len(s)) + " bytes"
	}
	return d(has, now) + ", before: " + d(had, old) + ", complete: " + d(true, want) + "; " + firstDiff(now, want)
}

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}
