package main

import (
	"bytes"
	"errors"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/alxarch/njson/internal/generator"
	"github.com/alxarch/njson/verifsim/core"
	"github.com/alxarch/njson/verifsim/simos"
	"github.com/alxarch/njson/verifsim/simrt"
	"regexp"
)

var (
	pHistory    = core.Probe("other packages generated before")
	pRegen      = core.Probe("output file already present")
	pSameClock  = core.Probe("same clock in both generations")
	pOtherClock = core.Fault("clock jump between generations")
	pReused     = core.Probe("generator reset and used again")
	pMulti      = core.Probe("package of several files")
	pDup        = core.Probe("clashing names in a struct")
	pImports    = core.Probe("imports of other packages")
	pMapOrder   = core.Fault("map iteration reordered")
	pGenErr     = core.Probe("generation fails")
	pAgain      = core.Fault("printed to a failing writer and again")
	pLib        = core.Probe("generator interface used")
)

// mask hides the header comment's time stamp.
func mask(s string, same bool) string {
	if same || !strings.HasPrefix(s, "// Code generated") {
		return s
	}
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[i:]
	}
	return s
}

// result of a generation.
type result struct {
	out    string
	failed []bool
	types  []string
	why    string
}

func (r result) same(o result, clock bool) string {
	if len(r.failed) != len(o.failed) {
		return "different numbers of calls"
	}
	for i := range r.failed {
		if r.failed[i] != o.failed[i] {
			return "one generation fails, the other succeeds: " + r.why + " / " + o.why
		}
	}
	if a, b := strings.Join(r.types, " "), strings.Join(o.types, " "); a != b {
		return "the structs are listed in different orders:\n  " + a + "\n  " + b
	}
	if a, b := mask(r.out, clock), mask(o.out, clock); a != b {
		return "outputs differ at " + firstDiff(a, b)
	}
	return ""
}

type libOpts struct {
	options []string
	filt    string
	file    bool // NewFromFile
	listed  bool // types as listed by AllStructs, else as drawn
	types   []string
	app     bool
	un      bool
}

func (l libOpts) build(p *pkg, dir string) (*generator.Generator, error) {
	var o []generator.Option
	for i := 0; i < len(l.options); i++ {
		switch l.options[i] {
		case "-k":
			i++
			o = append(o, generator.TagKey(l.options[i]))
		case "-only-tagged":
			o = append(o, generator.OnlyTagged(true))
		case "-only-exported":
			o = append(o, generator.OnlyExported(true))
		case "-match":
			i++
			o = append(o, generator.MatchFieldName(regexp.MustCompile(l.options[i])))
		case "-case":
			i++
			o = append(o, generator.TransformFieldCase(l.options[i]))
		case "-omitempty":
			o = append(o, generator.ForceOmitEmpty(true))
		case "AppendMethod":
			i++
			o = append(o, generator.AppendMethod(l.options[i]))
		case "UnmarshalMethod":
			i++
			o = append(o, generator.UnmarshalMethod(l.options[i]))
		case "OmitMethod":
			i++
			o = append(o, generator.OmitMethod(l.options[i]))
		}
	}
	if l.file {
		return generator.NewFromFile(filepath.Join(dir, p.files[0]), nil, o...)
	}
	return generator.NewFromDir(dir, p.name, o...)
}

func (l libOpts) generate(g *generator.Generator, types []string) (r result) {
	note := func(err error) {
		r.failed = append(r.failed, err != nil)
		if err != nil {
			r.why = err.Error()
		}
	}
	for _, t := range types {
		if l.un {
			note(g.WriteUnmarshaler(t))
		}
		if l.app {
			note(g.WriteAppender(t))
		}
	}
	var b bytes.Buffer
	note(g.PrintTo(&b))
	r.out = b.String()
	return r
}

// fresh generates with a new generator.
func (l libOpts) fresh(p *pkg, dir string, w world) (r result, g *generator.Generator) {
	simrt.MapOrder = simrt.NewSource(w.order)
	simrt.ClockOffset = w.clock
	before := simrt.MapIters
	g, err := l.build(p, dir)
	if err != nil {
		r.failed, r.why = []bool{true}, err.Error()
		return r, nil
	}
	types := l.types
	all := g.AllStructs()
	if l.listed {
		types = all
	}
	g.Reset()
	r = l.generate(g, types)
	r.types = all
	if simrt.MapIters > before {
		core.Hit(pMapOrder)
	}
	return r, g
}

// failWriter fails after so many bytes.
type failWriter struct {
	left   int
	failed bool
}

func (w *failWriter) Write(b []byte) (int, error) {
	if len(b) <= w.left {
		w.left -= len(b)
		return len(b), nil
	}
	w.failed = true
	return w.left, errors.New("disk full")
}

func genWorld(e *src) world {
	w := world{order: 1 + uint64(e.N(1<<30))}
	if e.Bool(1, 2) {
		w.clock = int64(e.N(1 << 30))
	}
	return w
}

func setupC16(c *core.Ctx) {
	defer func() { simrt.MapOrder = nil; simrt.ClockOffset = 0 }()
	p := genPkg(c.Gen, true)
	describe(c, p)
	dir := sub("p/" + p.name)
	p.write(dir)
	if c.Gen.Bool(1, 5) && !p.test {
		os.WriteFile(filepath.Join(dir, "ext_test.go"), []byte("package "+p.name+"_test\n\ntype Ext struct { A int; B string }\n"), 0o644)
	}
	if p.multi {
		core.Hit(pMulti)
	}
	if p.dup {
		core.Hit(pDup)
	}
	if p.imports > 0 {
		core.Hit(pImports)
	}
	w1, w2 := genWorld(c.Env), genWorld(c.Env)
	if w1.clock == w2.clock {
		core.Hit(pSameClock)
	} else {
		core.Hit(pOtherClock)
	}
	opts := genOpts(c.Gen)
	if c.Gen.Bool(1, 2) {
		c16Library(c, p, dir, opts, w1, w2)
		return
	}
	cmd := command{p: p, dir: dir, opts: opts, filt: genFilter(c.Gen), bare: c.Gen.Bool(1, 2)}
	c.Describe("command %v", cmd.args())
	one := func(w world) (r result) {
		proc := &simos.Process{Env: c.Env, Root: dir}
		code, pv := cmd.run(w, proc)
		if pv != nil {
			c.Fail("panic", "%v panics: %v", cmd.args(), pv)
		}
		r.failed = []bool{code != 0}
		r.why = last(proc.Err.String())
		if code == 0 {
			r.out = proc.Out.String()
		}
		return r
	}
	r1 := one(w1)
	if r1.failed[0] {
		core.Hit(pGenErr)
	}
	if c.Gen.Bool(1, 2) {
		// an earlier generation's output file is present
		prev := cmd
		prev.w = true
		if c.Gen.Bool(1, 2) {
			prev.opts = genOpts(c.Gen)
			prev.filt = genFilter(c.Gen)
		}
		proc := &simos.Process{Env: c.Env, Root: dir}
		if code, _ := prev.run(genWorld(c.Env), proc); code == 0 {
			core.Hit(pRegen)
			c.Describe("output file present from %v", prev.args())
		}
	}
	r2 := one(w2)
	if d := r1.same(r2, w1.clock == w2.clock); d != "" {
		c.Fail("different", "generating twice with %v: %s", cmd.args()[3:], d)
	}
}

func c16Library(c *core.Ctx, p *pkg, dir string, opts []string, w1, w2 world) {
	core.Hit(pLib)
	l := libOpts{options: opts, listed: c.Gen.Bool(1, 2), app: true, un: true}
	l.file = !p.multi && c.Gen.Bool(1, 3)
	switch c.Gen.Pick(3, 1, 1) {
	case 1:
		l.app = false
	case 2:
		l.un = false
	}
	for _, m := range []string{"AppendMethod", "UnmarshalMethod", "OmitMethod"} {
		if c.Gen.Bool(1, 8) {
			l.options = append(l.options[:len(l.options):len(l.options)], m, []string{"", "Custom", "Method_2"}[c.Gen.N(3)])
		}
	}
	l.types = append([]string(nil), p.structs...)
	for i := range l.types {
		j := i + c.Gen.N(len(l.types)-i)
		l.types[i], l.types[j] = l.types[j], l.types[i]
	}
	l.types = l.types[:1+c.Gen.N(len(l.types))]
	c.Describe("interface: options %v, types %v, as listed: %v, append %v, unmarshal %v", l.options, l.types, l.listed, l.app, l.un)
	history := func() {}
	kind := c.Gen.Pick(2, 2, 3, 3)
	switch kind {
	case 3:
		history = func() {
			core.Hit(pHistory)
			// the same package again and again, with these and other options
			for n := 1 + c.Gen.Pick(3, 1, 1, 1); n > 0; n-- {
				lo := l
				if c.Gen.Bool(1, 2) {
					lo.options, lo.listed, lo.app, lo.un = genOpts(c.Gen), true, true, true
				}
				if c.Gen.Bool(1, 3) {
					lo.options = append(lo.options[:len(lo.options):len(lo.options)], []string{"AppendMethod", "UnmarshalMethod", "OmitMethod"}[c.Gen.N(3)], "Earlier")
				}
				c.Describe("before: options %v", lo.options)
				lo.fresh(p, dir, genWorld(c.Env))
			}
		}
	case 1:
		history = func() {
			core.Hit(pHistory)
			for n := 1 + c.Gen.N(2); n > 0; n-- {
				q := genPkg(c.Gen, true)
				qd := sub("q")
				q.write(qd)
				describe(c, q)
				lo := libOpts{options: genOpts(c.Gen), listed: true, app: true, un: true}
				lo.fresh(q, qd, genWorld(c.Env))
			}
		}
	}
	early := c.Gen.Bool(1, 2)
	freshProcess()
	if early {
		history()
	}
	r1, g1 := l.fresh(p, dir, w1)
	if g1 == nil {
		core.Hit(pGenErr)
	}
	for _, f := range r1.failed {
		if f {
			core.Hit(pGenErr)
			break
		}
	}
	if g1 != nil && c.Gen.Bool(1, 3) {
		// printed again, with and without success
		core.Hit(pAgain)
		w := &failWriter{left: c.Env.N(len(r1.out) + 10)}
		ok := r1.out != ""
		if err := g1.PrintTo(w); err == nil && w.failed {
			c.Fail("false success", "PrintTo returns no error, and its writer failed")
		}
		if c.Gen.Bool(1, 3) {
			g1.DumpTo(&failWriter{left: c.Env.N(100)})
		}
		var b bytes.Buffer
		simrt.ClockOffset = w1.clock
		err := g1.PrintTo(&b)
		if d := firstDiff(mask(r1.out, false), mask(b.String(), false)); ok != (err == nil) || mask(r1.out, false) != mask(b.String(), false) {
			c.Fail("different", "printing twice with one generator: %v, outputs differ at %s", err, d)
		}
	}
	if kind == 2 && g1 != nil {
		core.Hit(pReused)
		// the same generator, reset, after other work
		lo := l
		lo.app, lo.un = c.Gen.Bool(3, 4), c.Gen.Bool(3, 4)
		other := append([]string(nil), p.structs...)
		sort.Strings(other)
		for i := range other {
			j := i + c.Gen.N(len(other)-i)
			other[i], other[j] = other[j], other[i]
		}
		g1.Reset()
		print := c.Gen.Bool(1, 2)
		for _, t := range other[:1+c.Gen.N(len(other))] {
			if lo.un {
				g1.WriteUnmarshaler(t)
			}
			if lo.app {
				g1.WriteAppender(t)
			}
		}
		if print {
			g1.PrintTo(new(bytes.Buffer))
		}
		c.Describe("generator reset and used for %v before", other)
		g1.Reset()
		simrt.MapOrder = simrt.NewSource(w2.order)
		simrt.ClockOffset = w2.clock
		types := l.types
		if l.listed {
			types = g1.AllStructs()
		}
		r2 := l.generate(g1, types)
		r2.types = g1.AllStructs()
		if d := r1.same(r2, w1.clock == w2.clock); d != "" {
			c.Fail("different", "generating twice with one generator: %s", d)
		}
		return
	}
	if early {
		freshProcess()
	} else {
		history()
	}
	r2, _ := l.fresh(p, dir, w2)
	if d := r1.same(r2, w1.clock == w2.clock); d != "" {
		c.Fail("different", "generating twice: %s", d)
	}
}
