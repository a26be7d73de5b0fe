package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/alxarch/njson/unjson"
	"github.com/alxarch/njson/verifsim/core"
	"github.com/alxarch/njson/verifsim/simrt"
)

type op struct {
	call
	plan []pact
}

var fStorm = core.Fault("the same call made, or failing, very many times")

// runTasks gives every task its calls and makes one more round of calls after all tasks are done.
func runTasks(c *core.Ctx, tasks, calls int, gen func(task int) op, after func() op) {
	g := c.Gen
	clear(tctx[:])
	main := newTk(c, -1)
	for i := 0; i < tasks; i++ {
		t := newTk(c, i)
		t.scribble = g.Bool(1, 3)
		ops := make([]op, 1+g.N(calls))
		for k := range ops {
			ops[k] = gen(i)
			c.Describe("task %d call %d: %s; %d callbacks planned%s", i, k, ops[k].desc, len(ops[k].plan), planText(ops[k].plan))
		}
		c.Go(fmt.Sprintf("task%d", i), func() {
			for _, o := range ops {
				t.do(o.call, o.plan)
			}
		})
	}
	// now and then the same call is made, and fails, very many times: nothing runs out
	var storm op
	times := 0
	if bigText == 0 && g.Bool(1, 14) {
		times = []int{20, 80, 300, 1100, 11000}[g.Pick(24, 16, 8, 4, 1)]
		storm = gen(0)
		for i := range storm.plan {
			storm.plan[i].nest = nil
		}
		c.Describe("at the end, %d times: %s%s", times, storm.desc, planText(storm.plan))
	}
	var last []op
	for i := 0; i < 2; i++ {
		last = append(last, after())
	}
	c.Post(func() {
		if times > 0 {
			core.Hit(fStorm)
		}
		for i := 0; i < times; i++ {
			main.do(storm.call, storm.plan)
		}
		for _, o := range last {
			main.do(o.call, o.plan)
		}
	})
}

func planText(p []pact) string {
	var b strings.Builder
	for i, a := range p {
		switch a.kind {
		case actFail:
			fmt.Fprintf(&b, "; callback %d fails", i)
		case actPanic:
			fmt.Fprintf(&b, "; callback %d panics", i)
		case actGoexit:
			fmt.Fprintf(&b, "; callback %d ends the task", i)
		}
		if a.nest != nil {
			fmt.Fprintf(&b, "; callback %d calls %s", i, a.nest.desc)
		}
	}
	return b.String()
}

func taskCount(g *src) int { return 1 + g.Pick(1, 5, 3, 1) }

// nester returns a generator of nested calls.
func nester(g *src, sh *shared) func() *call {
	return func() *call {
		var k call
		switch g.N(6) {
		case 0:
			k = genPrintCall(g, 0, nil)
		case 1:
			k = genWrapCall(g)
		case 2:
			k = genEncodeCall(g, sh)
		case 3:
			k = genDecodeCall(g, sh)
		case 4:
			k = genGeneratedCall(g)
		default:
			k = genPlainCall(g, sh, 500)
		}
		return &k
	}
}

func setupC06(c *core.Ctx) {
	g := c.Gen
	bigRun(c)
	sh := newShared(c)
	nest := nester(g, sh)
	printNest := func() *call {
		if g.Bool(1, 3) {
			return nest()
		}
		k := genPrintCall(g, 0, nil)
		return &k
	}
	faults := g.Pick(2, 3, 2)
	runTasks(c, taskCount(g), 5, func(int) op {
		if g.Bool(1, 6) {
			return op{genWrapCall(g), genPlan(g, 0, printNest)}
		}
		return op{genPrintCall(g, faults, printNest), genPlan(g, faults, printNest)}
	}, func() op { return op{genPrintCall(g, 0, nil), nil} })
}

func setupC07(c *core.Ctx) {
	g := c.Gen
	bigRun(c)
	sh := newShared(c)
	nest := nester(g, sh)
	faults := g.Pick(2, 3, 2)
	runTasks(c, taskCount(g), 5, func(int) op {
		switch g.Pick(5, 2, 1, 1, 1) {
		case 0:
			return op{genWrapCall(g), genPlan(g, faults, nest)}
		case 1:
			return op{genDecodeCall(g, sh), genPlan(g, faults, nest)}
		case 2:
			return op{genTopCall(g), genPlan(g, faults, nest)}
		case 4:
			return op{genGeneratedCall(g), genPlan(g, faults, nest)}
		default:
			return op{genPrintCall(g, 0, nest), genPlan(g, 0, nest)}
		}
	}, func() op { return op{genWrapCall(g), nil} })
}

// genSharedValueCall encodes a value that several tasks share (and do not modify).
func genSharedValueCall(g *src, sh *shared, v *boxE, text string) call {
	how := g.N(3)
	return call{fmt.Sprintf("encode shared value by way %d: %s", how, short(text)), func(t *tk) {
		var b []byte
		var err error
		switch how {
		case 0:
			b, err = unjson.Marshal(v)
		case 1:
			b, err = sh.encBox.Encode(nil, v)
		case 2:
			b, err = unjson.Marshal([]*boxE{v})
			b = bytes.TrimSuffix(bytes.TrimPrefix(b, []byte("[")), []byte("]"))
		}
		if t.verdict(err) && !sameJSON(b, text) {
			t.fail("wrong result", "encoded as %s, want %s", short(b), short(text))
		}
	}}
}

func setupC13(c *core.Ctx) {
	g := c.Gen
	bigRun(c)
	sh := newShared(c)
	nest := nester(g, sh)
	v, text := genBoxE(g, 1)
	faults := 0
	if g.Bool(1, 4) {
		faults = 1
	}
	gen := func(i int) op {
		switch g.Pick(3, 3, 3, 1, 2, 1, 2) {
		case 6:
			return op{genGeneratedCall(g), genPlan(g, faults, nest)}
		case 0:
			return op{genEncodeCall(g, sh), genPlan(g, faults, nest)}
		case 1:
			return op{genDecodeCall(g, sh), genPlan(g, faults, nest)}
		case 2:
			return op{genPlainCall(g, sh, i), nil}
		case 3:
			return op{genTopCall(g), genPlan(g, faults, nest)}
		case 4:
			return op{genSharedValueCall(g, sh, v, text), genPlan(g, faults, nest)}
		default:
			return op{genStreamCall(g, sh, 0), nil}
		}
	}
	runTasks(c, 1+taskCount(g), 4, gen, func() op { return op{genPlainCall(g, sh, 77), nil} })
}

// genStreamCall writes values to a line encoder and reads values from a line
// decoder while user code fails as planned; the stream goes on after a failure.
func genStreamCall(g *src, sh *shared, faults int) call {
	n := 1 + g.N(5)
	if g.Bool(1, 2) {
		type rec struct {
			v    *boxE
			text string
			plan []pact
			w    pWriter
		}
		recs := make([]rec, n)
		for i := range recs {
			v, s := genBoxE(g, g.N(2))
			recs[i] = rec{v: v, text: s, plan: genPlan(g, faults, nil), w: genWriter(g, faults, nil)}
		}
		typed := g.Bool(1, 2)
		return call{fmt.Sprintf("encode stream of %d values", n), func(t *tk) {
			var w pWriter
			e := unjson.NewLineEncoder(writerFunc(func(p []byte) (int, error) { return w.Write(p) }))
			if typed {
				e.Encoder = sh.encBox
			}
			for i, r := range recs {
				w = r.w
				w.t = t
				var err error
				if t.do(call{fmt.Sprintf("encode stream value %d", i), func(t *tk) {
					err = e.Encode(r.v)
					if t.panicked != nil {
						t.fail("panic swallowed", "user code panicked, but Encode returned (error %v)", err)
					}
				}}, r.plan) {
					if w.kind == 0 && len(w.handed) > 0 {
						t.fail("partial output", "a value whose marshaling panicked wrote %s", short(w.handed))
					}
					continue
				}
				if t.fired != nil {
					t.verdict(err)
					if len(w.handed) > 0 {
						t.fail("partial output", "a failing value wrote %s", short(w.handed))
					}
					continue
				}
				if w.mode == 0 {
					t.verdict(err)
				} else if w.mode == 5 {
					// what a writer means by that is anyone's guess
				} else if err == nil {
					t.fail("failure hidden", "the writer failed with %v, Encode returned no error", w.err)
				}
				b := w.handed
				if len(b) == 0 || b[len(b)-1] != '\n' || !sameJSON(b[:len(b)-1], r.text) {
					t.fail("wrong result", "stream value %d written as %s, want %s", i, short(b), short(r.text))
				}
			}
		}}
	}
	type rec struct {
		text string
		want []seen
		ok   func(v *boxD) bool
		plan []pact
		rd   int // what the reader does when the record is being read: actPanic, actGoexit
	}
	recs := make([]rec, n)
	for i := range recs {
		s, w, ok := genBoxD(g, g.N(2))
		recs[i] = rec{s, w, ok, genPlan(g, faults, nil), 0}
		if faults > 1 && g.Bool(1, 4) {
			recs[i].rd = actPanic
			if faults > 2 && g.Bool(1, 3) {
				recs[i].rd = actGoexit
			}
		}
	}
	buf := []int{0, 16, 100}[g.N(3)]
	for _, r := range recs {
		// what a reader handed over before it panicked while a line longer than
		// the buffer was collected does not need to be kept
		if size := max(buf, 4096*(1-min(buf, 1))); r.rd != 0 && size <= len(r.text)+2 {
			buf = 2 * (len(r.text) + 2)
		}
	}
	step := 1 + g.N(300)
	typed := g.Bool(1, 2)
	return call{fmt.Sprintf("decode stream of %d values", n), func(t *tk) {
		rd := &panicReader{t: t, step: step}
		for _, r := range recs {
			if r.rd != 0 {
				rd.at = append(rd.at, len(rd.data)+len(r.text)/2)
				rd.kind = append(rd.kind, r.rd)
			}
			rd.data = append(append(rd.data, r.text...), '\n')
		}
		var r io.Reader = rd
		if buf > 0 {
			r = bufio.NewReaderSize(rd, buf)
		}
		d := unjson.NewLineDecoder(r)
		if typed {
			d.Decoder = sh.decBox
		}
		for i := 0; i < len(recs); {
			r := recs[i]
			v := new(boxD)
			var err error
			before := rd.fired
			if t.do(call{fmt.Sprintf("decode stream value %d: %s", i, short(r.text)), func(t *tk) {
				err = d.Decode(v)
				if t.panicked != nil {
					t.fail("panic swallowed", "user code panicked, but Decode returned (error %v)", err)
				}
			}}, r.plan) {
				if rd.fired != before {
					continue // the reader panicked: nothing was delivered yet
				}
				i++
				continue
			}
			t.checkSeen(r.want)
			if t.verdict(err) && !r.ok(v) {
				t.fail("wrong result", "stream value %d decoded as %s, want %s", i, short(v), short(r.text))
			}
			i++
		}
		t.do(call{"end of stream", func(t *tk) {
			if err := d.Decode(new(boxD)); err != io.EOF {
				t.fail("no end of stream", "error %v", err)
			}
		}}, nil)
	}}
}

type writerFunc func([]byte) (int, error)

func (f writerFunc) Write(p []byte) (int, error) { return f(p) }

var fRPanic = core.Fault("reader: panic or task termination")

// panicReader panics or ends the task once at each given offset.
type panicReader struct {
	t     *tk
	data  []byte
	pos   int
	step  int
	at    []int
	kind  []int
	fired int
}

func (r *panicReader) Read(p []byte) (int, error) {
	simrt.Yield()
	if r.fired < len(r.at) && r.pos >= r.at[r.fired] {
		k := r.kind[r.fired]
		r.fired++
		core.Hit(fRPanic)
		if k == actGoexit {
			r.t.exit()
		}
		r.t.panicked = planPanic{-2}
		panic(r.t.panicked)
	}
	if r.pos == len(r.data) {
		return 0, io.EOF
	}
	n := min(len(p), r.step, len(r.data)-r.pos)
	if r.fired < len(r.at) && r.pos < r.at[r.fired] {
		n = min(n, r.at[r.fired]-r.pos)
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	return n, nil
}

func setupC14(c *core.Ctx) {
	g := c.Gen
	bigRun(c)
	sh := newShared(c)
	gen := func(int) op {
		switch g.Pick(4, 4, 1, 1, 1, 2, 2) {
		case 6:
			return op{genGeneratedCall(g), failPlan(g)}
		case 0:
			return op{genEncodeCall(g, sh), failPlan(g)}
		case 1:
			return op{genDecodeCall(g, sh), failPlan(g)}
		case 2:
			return op{genTopCall(g), failPlan(g)}
		case 3:
			return op{genWrapCall(g), failPlan(g)}
		case 4:
			return op{genPlainCall(g, sh, 3), nil}
		default:
			return op{genStreamCall(g, sh, 1), nil}
		}
	}
	runTasks(c, 1, 6, gen, func() op { return op{genEncodeCall(g, sh), nil} })
}

// failPlan makes one or several callbacks fail.
func failPlan(g *src) []pact {
	n := 1 + g.N(20)
	plan := make([]pact, n)
	plan[n-1].kind = actFail
	if g.Bool(1, 5) {
		for i := range plan {
			if g.Bool(1, 3) {
				plan[i].kind = actFail
			}
		}
	}
	if g.Bool(1, 3) {
		for i := range plan {
			plan[i].err = g.N(7)
		}
	}
	if g.Bool(1, 6) {
		return nil
	}
	return plan
}

func setupC15(c *core.Ctx) {
	g := c.Gen
	bigRun(c)
	sh := newShared(c)
	nest := nester(g, sh)
	faults := 2 + g.Pick(2, 1)
	sharedV, sharedText := genBoxE(g, 1)
	gen := func(i int) op {
		f := faults
		if i%2 == 1 && g.Bool(2, 3) {
			f = 0 // bystander
		}
		switch g.Pick(3, 3, 1, 2, 2, 2, 1, 1, 1) {
		case 8:
			return op{genGeneratedCall(g), genPlan(g, f, nest)}
		case 0:
			return op{genEncodeCall(g, sh), genPlan(g, f, nest)}
		case 1:
			return op{genDecodeCall(g, sh), genPlan(g, f, nest)}
		case 2:
			return op{genTopCall(g), genPlan(g, f, nest)}
		case 3:
			return op{genPrintCall(g, f, nest), genPlan(g, f, nest)}
		case 4:
			return op{genWrapCall(g), genPlan(g, f, nest)}
		case 5:
			return op{genStreamCall(g, sh, f), nil}
		case 6:
			return op{genSharedValueCall(g, sh, sharedV, sharedText), genPlan(g, f, nest)}
		default:
			return op{genPlainCall(g, sh, i), nil}
		}
	}
	runTasks(c, taskCount(g), 4, gen, func() op {
		switch g.N(4) {
		case 0:
			return op{genPrintCall(g, 0, nil), nil}
		case 1:
			return op{genWrapCall(g), nil}
		case 2:
			return op{genDecodeCall(g, sh), nil}
		default:
			return op{genEncodeCall(g, sh), nil}
		}
	})
}

// ---- C12: codec cache

type tree struct {
	V int              `json:"v" alt:"w"`
	L *tree            `json:"l" alt:"left"`
	K []tree           `json:"k" alt:"kids"`
	M map[string]*tree `json:"m" alt:"map"`
	O *other           `json:"o" alt:"other"`
}

type other struct {
	T *tree  `json:"t" alt:"tree"`
	S string `json:"s" alt:"str"`
}

type badField struct {
	A int      `json:"a"`
	C chan int `json:"c"`
}

type badDeep struct {
	T *tree      `json:"t"`
	B []badField `json:"b"`
	R *badDeep   `json:"r"`
}

// partlyBad is supported when its tag is alt.
type partlyBad struct {
	A int              `json:"a" alt:"x"`
	C chan int         `json:"c" alt:"-"`
	K map[chan int]int `json:"k" alt:"-"`
	P *partlyBad       `json:"p" alt:"q"`
}

// encOnly can be encoded and not decoded, decOnly the other way round.
type (
	encOnly func()
	decOnly chan int
	badBoth struct {
		A int `json:"a"`
		E encOnly
	}
)

// EmbBad is embedded.
type EmbBad struct {
	B int
	C []chan int
}

type embBad struct {
	A int
	EmbBad
}

type embBadP struct {
	*EmbBad
	Z int
}

func (encOnly) MarshalText() ([]byte, error) { return []byte("f"), nil }
func (*decOnly) UnmarshalText([]byte) error  { return nil }

type badIface struct {
	E error `json:"e"`
}

type small struct {
	A int      `json:"a" alt:"x"`
	B string   `json:"b" alt:"y"`
	C *small   `json:"c" alt:"z"`
	D [2]int   `json:"d" alt:"u"`
	E []string `json:"e" alt:"v"`
}

type named []map[string]small

type skipper struct {
	N int `json:"n" alt:"n"`
}

func (s skipper) Skip() bool { return s.N == 7 }
func (s skipper) Omit() bool { return s.N == 8 }

// optT is encoded differently by every option.
type optT struct {
	F float64  `json:"f" alt:"g"`
	H string   `json:"h,html" alt:"i"`
	P string   `json:"p" alt:"q,html"`
	L []string `json:"l,html" alt:"m"`
	S skipper  `json:"s,omitempty" alt:"t,omitempty"`
	T skipper  `json:"t,omitempty" alt:"u"`
}

// optJSON is the encoding of a value of optT, or "" if it fails. NaN and Inf are strings in it.
func optJSON(v optT, o unjson.Options) string {
	alt := o.Tag == "alt"
	var fields []string
	add := func(name, altName, text string, omit bool) {
		if !omit {
			fields = append(fields, fmt.Sprintf("%q:%s", pick(alt, name, altName), text))
		}
	}
	skip := func(s skipper) bool {
		if o.OmitMethod == "Skip" {
			return s.Skip()
		}
		return s.Omit()
	}
	str := func(s string, html bool) string {
		if html {
			s = strings.NewReplacer("<", `\u003c`, ">", `\u003e`, "&", `\u0026`).Replace(s)
		}
		return `"` + s + `"`
	}
	f := fmt.Sprint(v.F)
	switch {
	case math.IsNaN(v.F):
		f = `"NaN"`
	case math.IsInf(v.F, 0):
		f = strconv.Quote(fmt.Sprintf("%+v", v.F))
	}
	if math.IsNaN(v.F) && !o.AllowNaN || math.IsInf(v.F, 0) && !o.AllowInf {
		return ""
	}
	add("f", "g", f, o.OmitEmpty && v.F == 0)
	add("h", "i", str(v.H, !alt), o.OmitEmpty && v.H == "")
	add("p", "q", str(v.P, alt), o.OmitEmpty && v.P == "")
	l := ""
	for i, s := range v.L {
		if i > 0 {
			l += ","
		}
		l += str(s, !alt)
	}
	add("l", "m", "["+l+"]", o.OmitEmpty && len(v.L) == 0)
	add("s", "t", fmt.Sprintf(`{"n":%d}`, v.S.N), skip(v.S))
	add("t", "u", fmt.Sprintf(`{"n":%d}`, v.T.N), (!alt || o.OmitEmpty) && skip(v.T))
	return "{" + strings.Join(fields, ",") + "}"
}

var optValues = []optT{
	{1.5, "<", ">", []string{"&", "x"}, skipper{7}, skipper{8}},
	{math.Inf(1), "", "a", nil, skipper{8}, skipper{7}},
	{math.Inf(-1), "q", "", []string{"<b>"}, skipper{1}, skipper{2}},
	{math.NaN(), "&", "<", []string{""}, skipper{8}, skipper{8}},
	{0, "", "", nil, skipper{7}, skipper{7}},
}

// two types of the same name
func sameName1() cacheType {
	type rec struct {
		A int
		B string
	}
	return cacheType{name: "rec (1)", typ: reflect.TypeOf(rec{}),
		enc: func(alt, omit bool) (interface{}, string) { return rec{1, "x"}, `{"A":1,"B":"x"}` },
		dec: func(alt bool) (string, interface{}, interface{}) {
			return `{"A":5,"B":"y","C":[1]}`, &rec{}, &rec{5, "y"}
		}}
}

func sameName2() cacheType {
	type rec struct {
		C []int
		A string
	}
	return cacheType{name: "rec (2)", typ: reflect.TypeOf(rec{}),
		enc: func(alt, omit bool) (interface{}, string) { return rec{[]int{3}, "s"}, `{"C":[3],"A":"s"}` },
		dec: func(alt bool) (string, interface{}, interface{}) {
			return `{"A":"z","C":[1,2]}`, &rec{}, &rec{[]int{1, 2}, "z"}
		}}
}

// cacheType is a type to ask codecs for.
type cacheType struct {
	name  string
	typ   reflect.Type
	bad   bool
	std   bool // bad but for tag alt
	opts  bool // of type optT
	noEnc bool // only decoded
	// try makes correct use of codecs of the type; alt: field names of tag alt; omit: empty fields are left out
	enc func(alt, omit bool) (interface{}, string)
	dec func(alt bool) (string, interface{}, interface{}) // text, target, expected target
}

func pick(alt bool, a, b string) string {
	if alt {
		return b
	}
	return a
}

var cacheTypes = []cacheType{
	{name: "small", typ: reflect.TypeOf(small{}),
		enc: func(alt, omit bool) (interface{}, string) {
			v := small{A: 1, C: &small{B: "x"}}
			if omit {
				return v, pick(alt, `{"a":1,"c":{"b":"x"}}`, `{"x":1,"z":{"y":"x"}}`)
			}
			return v, pick(alt, `{"a":1,"b":"","c":{"a":0,"b":"x","c":null,"d":[0,0],"e":[]},"d":[0,0],"e":[]}`, `{"x":1,"y":"","z":{"x":0,"y":"x","z":null,"u":[0,0],"v":[]},"u":[0,0],"v":[]}`)
		},
		dec: func(alt bool) (string, interface{}, interface{}) {
			return pick(alt, `{"a":4,"c":{"e":["p","q"]},"x":9}`, `{"x":4,"z":{"v":["p","q"]},"a":9}`), &small{}, &small{A: 4, C: &small{E: []string{"p", "q"}}}
		}},
	{name: "tree", typ: reflect.TypeOf(tree{}),
		enc: func(alt, omit bool) (interface{}, string) {
			v := tree{V: 1, L: &tree{V: 2}, K: []tree{{V: 3}}, O: &other{T: &tree{V: 4}, S: "s"}}
			leaf := func(n int) string {
				if omit {
					return fmt.Sprintf(pick(alt, `{"v":%d}`, `{"w":%d}`), n)
				}
				return fmt.Sprintf(pick(alt, `{"v":%d,"l":null,"k":[],"m":null,"o":null}`, `{"w":%d,"left":null,"kids":[],"map":null,"other":null}`), n)
			}
			m := pick(omit, pick(alt, `"m":null,`, `"map":null,`), "")
			return v, pick(alt, `{"v":1,"l":`+leaf(2)+`,"k":[`+leaf(3)+`],`+m+`"o":{"t":`+leaf(4)+`,"s":"s"}}`,
				`{"w":1,"left":`+leaf(2)+`,"kids":[`+leaf(3)+`],`+m+`"other":{"tree":`+leaf(4)+`,"str":"s"}}`)
		},
		dec: func(alt bool) (string, interface{}, interface{}) {
			return pick(alt, `{"v":1,"l":{"k":[{"v":2}]},"m":{"x":{"o":{"t":{"v":5},"s":"t"}}}}`, `{"w":1,"left":{"kids":[{"w":2}]},"map":{"x":{"other":{"tree":{"w":5},"str":"t"}}}}`),
				&tree{}, &tree{V: 1, L: &tree{K: []tree{{V: 2}}}, M: map[string]*tree{"x": {O: &other{T: &tree{V: 5}, S: "t"}}}}
		}},
	{name: "other", typ: reflect.TypeOf(other{}),
		enc: func(alt, omit bool) (interface{}, string) {
			if omit {
				return other{S: "q"}, pick(alt, `{"s":"q"}`, `{"str":"q"}`)
			}
			return other{S: "q"}, pick(alt, `{"t":null,"s":"q"}`, `{"tree":null,"str":"q"}`)
		},
		dec: func(alt bool) (string, interface{}, interface{}) {
			return pick(alt, `{"t":{"o":{"s":"deep"}}}`, `{"tree":{"other":{"str":"deep"}}}`), &other{}, &other{T: &tree{O: &other{S: "deep"}}}
		}},
	{name: "named", typ: reflect.TypeOf(named{}),
		enc: func(alt, omit bool) (interface{}, string) {
			return named{{"k": small{A: 1, B: "b", C: &small{A: 2, B: "c", C: &small{A: 3, B: "d", D: [2]int{1, 1}, E: []string{"e"}}, D: [2]int{1, 1}, E: []string{"e"}}, D: [2]int{1, 2}, E: []string{"e"}}}},
				pick(omit, pick(alt, `[{"k":{"a":1,"b":"b","c":{"a":2,"b":"c","c":{"a":3,"b":"d","c":null,"d":[1,1],"e":["e"]},"d":[1,1],"e":["e"]},"d":[1,2],"e":["e"]}}]`, `[{"k":{"x":1,"y":"b","z":{"x":2,"y":"c","z":{"x":3,"y":"d","z":null,"u":[1,1],"v":["e"]},"u":[1,1],"v":["e"]},"u":[1,2],"v":["e"]}}]`),
					pick(alt, `[{"k":{"a":1,"b":"b","c":{"a":2,"b":"c","c":{"a":3,"b":"d","d":[1,1],"e":["e"]},"d":[1,1],"e":["e"]},"d":[1,2],"e":["e"]}}]`, `[{"k":{"x":1,"y":"b","z":{"x":2,"y":"c","z":{"x":3,"y":"d","u":[1,1],"v":["e"]},"u":[1,1],"v":["e"]},"u":[1,2],"v":["e"]}}]`))
		},
		dec: func(alt bool) (string, interface{}, interface{}) {
			return pick(alt, `[{"k":{"a":1}},{}]`, `[{"k":{"x":1}},{}]`), &named{}, &named{{"k": small{A: 1}}, {}}
		}},
	{name: "map", typ: reflect.TypeOf(map[string][]int{}),
		enc: func(alt, omit bool) (interface{}, string) { return map[string][]int{"a": {1, 2}}, `{"a":[1,2]}` },
		dec: func(alt bool) (string, interface{}, interface{}) {
			return `{"a":[1,2],"b":[]}`, &map[string][]int{}, &map[string][]int{"a": {1, 2}, "b": {}}
		}},
	{name: "string", typ: reflect.TypeOf(""),
		enc: func(alt, omit bool) (interface{}, string) { return "x\ny", `"x\ny"` },
		dec: func(alt bool) (string, interface{}, interface{}) {
			s, w := "", "x\ny"
			return `"x\ny"`, &s, &w
		}},
	sameName1(),
	{name: "chan", typ: reflect.TypeOf(make(chan int)), bad: true},
	sameName2(),
	{name: "options", typ: reflect.TypeOf(optT{}), opts: true,
		dec: func(alt bool) (string, interface{}, interface{}) {
			return pick(alt, `{"f":2,"s":{"n":3},"m":["x"],"l":["y"]}`, `{"g":2,"t":{"n":3},"m":["x"],"l":["y"]}`),
				&optT{}, &optT{F: 2, S: skipper{3}, L: []string{pick(alt, "y", "x")}}
		}},
	{name: "partlyBad", typ: reflect.TypeOf(partlyBad{}), std: true,
		enc: func(alt, omit bool) (interface{}, string) {
			v := partlyBad{A: 1, C: make(chan int), P: &partlyBad{A: 2}}
			return v, pick(omit, `{"x":1,"q":{"x":2,"q":null}}`, `{"x":1,"q":{"x":2}}`)
		},
		dec: func(alt bool) (string, interface{}, interface{}) {
			return `{"x":1,"c":5,"q":{"x":6}}`, &partlyBad{}, &partlyBad{A: 1, P: &partlyBad{A: 6}}
		}},
	{name: "partlyBad list", typ: reflect.TypeOf([]*partlyBad{}), std: true,
		enc: func(alt, omit bool) (interface{}, string) {
			return []*partlyBad{{A: 1, P: &partlyBad{A: 2, P: &partlyBad{A: 3}}}}, pick(omit, `[{"x":1,"q":{"x":2,"q":{"x":3,"q":null}}}]`, `[{"x":1,"q":{"x":2,"q":{"x":3}}}]`)
		},
		dec: func(alt bool) (string, interface{}, interface{}) {
			return `[{"x":1},null]`, &[]*partlyBad{}, &[]*partlyBad{{A: 1}, nil}
		}},
	{name: "badField", typ: reflect.TypeOf(badField{}), bad: true},
	{name: "badDeep", typ: reflect.TypeOf(badDeep{}), bad: true},
	{name: "badIface", typ: reflect.TypeOf(badIface{}), bad: true},
	{name: "int map", typ: reflect.TypeOf(map[int]string{}), bad: true},
	{name: "map of chan", typ: reflect.TypeOf(map[string]chan int{}), bad: true},
	{name: "list of func", typ: reflect.TypeOf([]func(){}), bad: true},
	{name: "array of chan", typ: reflect.TypeOf([2]chan int{}), bad: true},
	{name: "pointer to chan", typ: reflect.TypeOf(new(chan int)), bad: true},
	{name: "deep func", typ: reflect.TypeOf(map[string][]*[1]map[string]func(){}), bad: true},
	{name: "map of badField", typ: reflect.TypeOf(map[string]*badField{}), bad: true},
	{name: "encoding only", typ: reflect.TypeOf(badBoth{}), bad: true},
	{name: "decoding only", typ: reflect.TypeOf(map[string]struct {
		A int
		D decOnly
	}{}), bad: true},
	{name: "embedded bad", typ: reflect.TypeOf([]embBad{}), bad: true},
	{name: "embedded bad pointer", typ: reflect.TypeOf(&embBadP{}), bad: true},
	{name: "complex", typ: reflect.TypeOf([]complex64{}), bad: true},
	{name: "named interfaces", typ: reflect.TypeOf(anys{}),
		enc: func(alt, omit bool) (interface{}, string) {
			return anys{A: 1.5, L: []anyT{"x", true}, M: map[string]anyT{"k": []interface{}{"y"}}}, pick(alt, `{"a":1.5,"l":["x",true],"m":{"k":["y"]}}`, `{"x":1.5,"y":["x",true],"z":{"k":["y"]}}`)
		},
		dec: func(alt bool) (string, interface{}, interface{}) {
			return pick(alt, `{"a":"s","l":[null,{"k":2}],"m":{"p":null,"q":false}}`, `{"x":"s","y":[null,{"k":2}],"z":{"p":null,"q":false}}`),
				&anys{A: 1}, &anys{A: "s", L: []anyT{nil, map[string]interface{}{"k": 2.0}}, M: map[string]anyT{"p": nil, "q": false}}
		}},
	{name: "named list", typ: reflect.TypeOf([]anyT{}),
		enc: func(alt, omit bool) (interface{}, string) { return []anyT{"x", nil, 3}, `["x",null,3]` },
		dec: func(alt bool) (string, interface{}, interface{}) {
			return `[1,{"x":[]},null]`, &[]anyT{}, &[]anyT{1.0, map[string]interface{}{"x": []interface{}{}}, nil}
		}},
	{name: "list of itself", typ: reflect.TypeOf(nestL{}),
		enc: func(alt, omit bool) (interface{}, string) { return nestL{{}, {{}, {{}}}}, `[[],[[],[[]]]]` },
		dec: func(alt bool) (string, interface{}, interface{}) {
			return `[[],[[]]]`, &nestL{}, &nestL{{}, {{}}}
		}},
	{name: "map of itself", typ: reflect.TypeOf(nestM{}),
		enc: func(alt, omit bool) (interface{}, string) {
			return nestM{"a": {"b": nil, "c": {}}}, `{"a":{"b":null,"c":{}}}`
		},
		dec: func(alt bool) (string, interface{}, interface{}) {
			return `{"a":{"b":{}}}`, &nestM{}, &nestM{"a": {"b": {}}}
		}},
	{name: "list of pointers to itself", typ: reflect.TypeOf(nestP{}),
		enc: func(alt, omit bool) (interface{}, string) { return nestP{nil, {nil}}, `[null,[null]]` },
		dec: func(alt bool) (string, interface{}, interface{}) {
			return `[[],null]`, &nestP{}, &nestP{{}, nil}
		}},
	{name: "array of pointers to itself", typ: reflect.TypeOf(nestA{}),
		enc: func(alt, omit bool) (interface{}, string) {
			return nestA{nil, &nestA{}}, `[null,[null,null]]`
		},
		dec: func(alt bool) (string, interface{}, interface{}) {
			return `[[null,null,7],null]`, &nestA{1: &nestA{}}, &nestA{&nestA{}, nil}
		}},
	{name: "anything", typ: reflect.TypeOf((*interface{})(nil)).Elem(), noEnc: true,
		dec: func(alt bool) (string, interface{}, interface{}) {
			var x, w interface{} = "stale", map[string]interface{}{"k": []interface{}{nil, 1.0}}
			return `{"k":[null,1]}`, &x, &w
		}},
}

// types that contain themselves without a struct in between
type (
	nestL []nestL
	nestM map[string]nestM
	nestP []*nestP
	nestA [2]*nestA
)

// alien is a type no codec is asked for.
type alien struct{ X, Y int }

// anys has fields that hold anything, of a type of their own.
type anys struct {
	A anyT            `json:"a" alt:"x"`
	L []anyT          `json:"l" alt:"y"`
	M map[string]anyT `json:"m" alt:"z"`
}

var (
	pFirstRace = core.Probe("cache: several tasks asked for the same new codec")
	pBadType   = core.Probe("cache: unsupported type requested")
)

func setupC12(c *core.Ctx) {
	g := c.Gen
	clear(tctx[:])
	tasks := 2 + g.Pick(4, 2, 1)
	type cc struct {
		c         *unjson.Cache
		alt, omit bool
	}
	caches := []cc{{&unjson.Cache{}, false, false}}
	for g.Bool(1, 3) && len(caches) < 3 {
		k := cc{&unjson.Cache{}, g.Bool(1, 2), g.Bool(1, 2)}
		k.c.OmitEmpty = k.omit
		if g.Bool(1, 3) {
			k.c.OmitMethod = []string{"Skip", "Omit"}[g.N(2)]
		}
		k.c.AllowNaN, k.c.AllowInf = g.Bool(1, 3), g.Bool(1, 3)
		if k.alt {
			k.c.Tag = "alt"
		}
		caches = append(caches, k)
	}
	type req struct {
		cache int // -1: the package's own, through Marshal and Unmarshal
		typ   int
		enc   bool
	}
	types := 1 + g.N(3)
	first := g.N(len(cacheTypes))
	results := make([][]interface{}, tasks+1)
	reqs := make([][]req, tasks+1)
	seenReq := map[req]int{}
	genReq := func() req {
		r := req{cache: g.N(len(caches)+1) - 1, typ: (first + g.N(types)*2) % len(cacheTypes), enc: g.Bool(1, 2)}
		return r
	}
	isBad := func(r req) bool {
		ct := &cacheTypes[r.typ]
		return ct.bad || ct.std && (r.cache < 0 || !caches[r.cache].alt)
	}
	do := func(t int, r req) interface{} {
		ct := &cacheTypes[r.typ]
		where := fmt.Sprintf("task %d, type %s, encoder %v, cache %d", t, ct.name, r.enc, r.cache)
		bad := isBad(r)
		var codec interface{}
		if r.enc && !ct.noEnc {
			var v interface{}
			var want string
			if ct.opts {
				o := unjson.Options{}
				if r.cache >= 0 {
					o = caches[r.cache].c.Options
				}
				val := optValues[(t+1+r.typ)%len(optValues)]
				v, want = val, optJSON(val, o)
			} else if !bad {
				k := cc{}
				if r.cache >= 0 {
					k = caches[r.cache]
				}
				v, want = ct.enc(k.alt, k.omit)
			} else {
				v = reflect.New(ct.typ).Elem().Interface()
			}
			var b []byte
			var err error
			if r.cache < 0 {
				b, err = unjson.Marshal(v)
			} else {
				var e unjson.Encoder
				e, err = caches[r.cache].c.Encoder(ct.typ)
				if err == nil {
					if bad {
						c.Fail("failure hidden", "%s: an encoder for an unsupported type", where)
					}
					if e == nil {
						c.Fail("no codec", "%s: neither a codec nor an error", where)
					}
					codec = e
					for _, x := range []interface{}{alien{1, 2}, &alien{3, 4}, nil} {
						if b, err := e.Encode(nil, x); err == nil {
							c.Fail("failure hidden", "%s: %T %v was encoded as %s", where, x, x, short(b))
						}
					}
					b, err = e.Encode(nil, v)
				}
			}
			if bad {
				if err == nil {
					c.Fail("failure hidden", "%s: no error for an unsupported type", where)
				}
				return nil
			}
			if ct.opts {
				if want == "" {
					if err == nil {
						c.Fail("failure hidden", "%s: %+v was encoded as %s", where, v, short(b))
					}
					return codec
				}
				b = []byte(strings.NewReplacer(":NaN,", `:"NaN",`, ":+Inf,", `:"+Inf",`, ":-Inf,", `:"-Inf",`).Replace(string(b)))
				if raw := strings.ContainsAny(string(b), "<>&"); raw != strings.ContainsAny(want, "<>&") {
					c.Fail("wrong result", "%s: encoded as %s, want %s", where, short(b), want)
				}
			}
			if err != nil {
				c.Fail("made-up error", "%s: %v", where, err)
			}
			if !sameJSON(b, want) {
				c.Fail("wrong result", "%s: encoded as %s, want %s", where, short(b), want)
			}
			return codec
		}
		pt := reflect.PtrTo(ct.typ)
		var text string
		var target, want interface{} = reflect.New(ct.typ).Interface(), nil
		text = "{}"
		if !bad {
			text, target, want = ct.dec(r.cache >= 0 && caches[r.cache].alt)
		}
		var err error
		if r.cache < 0 {
			err = unjson.Unmarshal([]byte(text), target)
		} else {
			var d unjson.Decoder
			d, err = caches[r.cache].c.Decoder(pt)
			if err == nil {
				if bad {
					c.Fail("failure hidden", "%s: a decoder for an unsupported type", where)
				}
				if d == nil {
					c.Fail("no codec", "%s: neither a codec nor an error", where)
				}
				codec = d
				x := &alien{1, 2}
				for _, x := range []interface{}{x, *x, nil} {
					if err := decodeText(d, text, x); err == nil {
						c.Fail("failure hidden", "%s: %s was decoded to a %T: %v", where, text, x, x)
					}
				}
				if *x != (alien{1, 2}) {
					c.Fail("target changed", "%s: a codec changed a value of another type: %v", where, x)
				}
				if ct.noEnc {
					// of no particular type
					for _, typ := range []reflect.Type{nil, ct.typ} {
						d, err := caches[r.cache].c.Decoder(typ)
						if err != nil {
							c.Fail("made-up error", "%s: decoder of %v: %v", where, typ, err)
						}
						_, target, _ := ct.dec(false)
						if err := decodeText(d, text, target); err != nil || !reflect.DeepEqual(target, want) {
							c.Fail("wrong result", "%s: decoder of %v: decoded as %s, error %v", where, typ, short(target), err)
						}
					}
				}
				err = decodeText(d, text, target)
			}
		}
		if bad {
			if err == nil {
				c.Fail("failure hidden", "%s: no error for an unsupported type", where)
			}
			return nil
		}
		if err != nil {
			c.Fail("made-up error", "%s: %v", where, err)
		}
		if !reflect.DeepEqual(target, want) {
			c.Fail("wrong result", "%s: decoded as %s, want %s", where, short(fmt.Sprintf("%+v", target)), short(fmt.Sprintf("%+v", want)))
		}
		return codec
	}
	for t := 0; t < tasks; t++ {
		n := 1 + g.N(4)
		for i := 0; i < n; i++ {
			r := genReq()
			if i == 0 && g.Bool(2, 3) && t > 0 {
				r = reqs[0][0]
			}
			reqs[t] = append(reqs[t], r)
			if s, ok := seenReq[r]; ok && s != t {
				core.Hit(pFirstRace)
			}
			if isBad(r) {
				core.Hit(pBadType)
			}
			seenReq[r] = t
			c.Describe("task %d asks: cache %d, type %s, encoder %v", t, r.cache, cacheTypes[r.typ].name, r.enc)
		}
		results[t] = make([]interface{}, n)
		t := t
		c.Go(fmt.Sprintf("task%d", t), func() {
			for i, r := range reqs[t] {
				simrt.Note("asks: cache %d, type %s, encoder %v", r.cache, cacheTypes[r.typ].name, r.enc)
				results[t][i] = do(t, r)
			}
		})
	}
	many := []int{0, 20, 150, 700}[g.Pick(30, 4, 2, 1)]
	manyCache := caches[g.N(len(caches))]
	c.Post(func() {
		// very many other types in between change nothing
		for i := 0; i < many; i++ {
			typ := reflect.StructOf([]reflect.StructField{{Name: "F" + strconv.Itoa(i), Type: reflect.TypeOf(i)}})
			v := reflect.New(typ)
			want := fmt.Sprintf(`{"F%d":%d}`, i, i+1)
			var err error
			var b []byte
			if d, derr := manyCache.c.Decoder(v.Type()); derr != nil {
				err = derr
			} else if err = decodeText(d, want, v.Interface()); err == nil {
				var e unjson.Encoder
				if e, err = manyCache.c.Encoder(typ); err == nil {
					b, err = e.Encode(nil, v.Interface())
				}
			}
			if err == nil && !sameJSON(b, want) {
				c.Fail("wrong result", "type %d of many was encoded as %s, want %s", i, short(b), want)
			}
			if err == nil && i%7 == 0 {
				if err = unjson.Unmarshal([]byte(want), v.Interface()); err == nil {
					b, err = unjson.Marshal(v.Interface())
				}
				if err == nil && !sameJSON(b, want) {
					c.Fail("wrong result", "type %d of many was marshaled as %s, want %s", i, short(b), want)
				}
			}
			if err != nil {
				c.Fail("made-up error", "type %d of many: %v", i, err)
			}
		}
		one := map[req]interface{}{}
		for t := range reqs {
			for i, r := range reqs[t] {
				if r.cache < 0 || isBad(r) {
					continue
				}
				if x, ok := one[r]; ok && x != results[t][i] {
					c.Fail("several codecs", "cache %d gave different codecs (%T) for the same type %s (encoder %v)", r.cache, x, cacheTypes[r.typ].name, r.enc)
				}
				one[r] = results[t][i]
			}
		}
		for t := range reqs {
			for _, r := range reqs[t] {
				x := do(-1, r)
				if r.cache >= 0 && !isBad(r) && one[r] != x {
					c.Fail("several codecs", "cache %d gives a different codec (%T) for type %s later (encoder %v)", r.cache, x, cacheTypes[r.typ].name, r.enc)
				}
			}
		}
	})
}
