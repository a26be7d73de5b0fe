package main

import (
	"bufio"
	"fmt"
	"io"
	"runtime"
	"strings"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/numjson"
	"github.com/alxarch/njson/strjson"
	"github.com/alxarch/njson/unjson"
	"github.com/alxarch/njson/verifsim/core"
	"github.com/alxarch/njson/verifsim/simrt"
)

// C22: the work of a call is bounded by the size of its data, whatever the
// fragmentation, the transient errors and what went before. Work is counted in
// statements of the library and in bytes allocated, never in time.

var (
	pCostScale = core.Fault("cost: data and fragments grown 8-fold")
	pCostHist  = core.Fault("cost: history grown in between")
	pCostErr   = core.Fault("cost: transient read error every so many reads")
	pCostBad   = core.Fault("cost: failing call")
	pCostGrow  = core.Fault("cost: repetitions grown 8-fold")
)

type cost struct{ work, alloc int64 }

func (c cost) String() string { return fmt.Sprintf("%d statements, %d bytes", c.work, c.alloc) }

// most is the most work a call is ever allowed with so many bytes of data.
func most(size int) int64 { return 4000000 + 4000*int64(size) }

// first is the least cost of 3 calls with so many bytes of data.
func first(c *core.Ctx, what string, f func(), size int) cost {
	a := least(f, most(size))
	if a.work > most(size) {
		c.Fail("work out of proportion", "%s: more than %d statements with %d bytes of data", what, most(size), size)
	}
	return a
}

// costOf counts the work of f, which is left at a limit if there is one.
func costOf(f func(), limit int64) (c cost) {
	var m1, m2 runtime.MemStats
	runtime.ReadMemStats(&m1)
	simrt.Work, simrt.WorkLimit = 0, limit
	simrt.Counting = true
	defer func() {
		simrt.Counting = false
		if v := recover(); v != nil && v != interface{}(simrt.Overrun{}) {
			panic(v)
		}
		runtime.ReadMemStats(&m2)
		core.Beat()
		c = cost{simrt.Work, int64(m2.TotalAlloc - m1.TotalAlloc)}
	}()
	f()
	return
}

// least is the least cost of 3 calls.
func least(f func(), limit int64) cost {
	c := costOf(f, limit)
	for i := 0; i < 2 && c.work <= limit; i++ {
		d := costOf(f, limit)
		c.work, c.alloc = min(c.work, d.work), min(c.alloc, d.alloc)
	}
	return c
}

const (
	costFactor   = 8
	workPerItem  = 16      // 8 and room for logarithms
	allocPerItem = 40      // 8 and room for buffers that grow by doubling
	workSlack    = 20000   // statements
	allocSlack   = 1 << 20 // bytes
)

// costText gives a text of a size proportional to n.
func costText(g *src) (func(n int) string, string) {
	kind := g.N(14)
	wrap := g.Bool(1, 4)
	rep := func(s, sep string, n int) string {
		return strings.TrimSuffix(strings.Repeat(s+sep, n), sep)
	}
	f := func(n int) string {
		switch kind {
		case 0:
			return "[" + rep("12.5", ",", n) + "]"
		case 1:
			return "[" + rep(`"a\nb\u00e9\ud83d\ude00"`, ",", n) + "]"
		case 2:
			var b strings.Builder
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, `,"k%d":%d`, i, i)
			}
			return "{" + b.String()[1:] + "}"
		case 3: // no deeper than the limit
			m := min(n, 9000)
			return strings.Repeat(" ", 8*(n-m)) + strings.Repeat(`[1,`, m) + "2" + strings.Repeat("]", m)
		case 4:
			return `"` + strings.Repeat("plain text ", n) + `"`
		case 5:
			return `"` + strings.Repeat(`\\\"\u0001`, n) + `"`
		case 6:
			return `[` + strings.Repeat(" \t\n", n) + "1" + strings.Repeat(" ", n) + `]`
		case 7:
			return "[" + rep(`{"id":1,"s":"x\ty","l":["a","b"],"x":null,"n":5}`, ",", n) + "]"
		case 8:
			return "[" + rep("[[],{},[true,false]]", ",", n) + "]"
		case 9:
			return `{"` + strings.Repeat(`key\"`, n) + `":1,"x":2}`
		case 10:
			return "[" + strings.Repeat("1", min(n, 200)) + strings.Repeat(`,1234567890`, n) + "]"
		case 11:
			return `{"id":1,"l":[` + rep(`"\tab"`, ",", n) + `],"q":[` + rep(`{"n":1,"x":[]}`, ",", n) + `],"x":[` + rep(`{"y":1}`, ",", n) + `]}`
		case 12:
			var b strings.Builder
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, `,"k%d":"\t%d"`, i, i)
			}
			return `{"m":{` + b.String()[1:] + `},"x":{` + b.String()[1:] + `}}`
		default:
			m := min(n, 4000)
			return strings.Repeat(" ", 8*(n-m)) + strings.Repeat(`{"a":{"k":`, m) + `"v"` + strings.Repeat("}}", m)
		}
	}
	if wrap {
		return func(n int) string { return `{"x":` + f(n) + `}` }, fmt.Sprintf("texts of kind %d, wrapped", kind)
	}
	return f, fmt.Sprintf("texts of kind %d", kind)
}

// costBad makes a text bad near its end or its middle.
func costBad(g *src) (func(s string) string, string) {
	kind := g.N(5)
	return func(s string) string {
		core.Hit(pCostBad)
		switch kind {
		case 0:
			return s[:len(s)-1]
		case 1:
			return s[:len(s)/2]
		case 2:
			return s[:len(s)-1] + "\x01" + s[len(s)-1:]
		case 3:
			return s + "x"
		default:
			return s[:len(s)/2] + "?" + s[len(s)/2:]
		}
	}, fmt.Sprintf("made bad (%d)", kind)
}

type costSink struct{ n int }

func (s *costSink) Write(p []byte) (int, error) { s.n += len(p); return len(p), nil }

// costUse makes something with a text. Its cost is to be proportional.
func costUse(g *src) (func(text string) func(), string) {
	switch g.N(19) {
	case 0:
		return func(s string) func() {
			return func() { new(njson.Document).Parse(s) }
		}, "parse"
	case 1:
		return func(s string) func() {
			d := new(njson.Document)
			n, _, _ := d.Parse(s)
			return func() { n.AppendJSON(nil) }
		}, "append JSON"
	case 2:
		return func(s string) func() {
			d := new(njson.Document)
			n, _, _ := d.Parse(s)
			return func() { n.PrintJSON(&costSink{}) }
		}, "print"
	case 3:
		return func(s string) func() {
			d := new(njson.Document)
			n, _, _ := d.Parse(s)
			return func() { n.ToInterface() }
		}, "to interface"
	case 4:
		return func(s string) func() {
			return func() { var x interface{}; unjson.UnmarshalFromString(s, &x) }
		}, "unmarshal"
	case 5:
		return func(s string) func() {
			b := []byte(s)
			return func() { var x Rec; unjson.Unmarshal(b, &x) }
		}, "unmarshal a record"
	case 6:
		return func(s string) func() {
			b := []byte(s)
			return func() {
				var x []Rec
				var y map[string]interface{}
				var z []interface{}
				var f []float64
				var q string
				for _, v := range []interface{}{&x, &y, &z, &f, &q} {
					unjson.Unmarshal(b, v)
				}
			}
		}, "unmarshal several types"
	case 7:
		return func(s string) func() {
			var x interface{}
			unjson.UnmarshalFromString(s, &x)
			return func() { unjson.Marshal(x) }
		}, "marshal"
	case 8:
		return func(s string) func() {
			var x Rec
			unjson.UnmarshalFromString(s, &x)
			x.S = s
			x.M = map[string]string{s: s}
			return func() { unjson.AppendJSON(nil, &x) }
		}, "marshal a record"
	case 9:
		return func(s string) func() {
			d := new(njson.Document)
			n, _, _ := d.Parse(s)
			return func() {
				e := unjson.NewLineEncoder(&costSink{})
				e.Encode(n)
				e.Encode([]interface{}{rawJSON(`"` + "x" + `"`), s})
			}
		}, "line encoder"
	case 10:
		return func(s string) func() {
			d := new(njson.Document)
			n, _, _ := d.Parse(s)
			return func() {
				o := new(njson.Document)
				a := o.Array()
				a.Append(n, n)
				o.Object().Set("x", n)
				a.Replace(0, n)
				d.Array().Append(n)
			}
		}, "copies"
	case 11:
		return func(s string) func() {
			return func() {
				strjson.Unescaped(s)
				strjson.AppendUnescaped(nil, s)
				e := strjson.Escaped(s, true, true)
				strjson.Unescaped(e)
				strjson.AppendEscaped(nil, s, false)
			}
		}, "escape and unescape"
	case 12:
		return func(s string) func() {
			d := new(njson.Document)
			n, _, _ := d.Parse(s)
			return func() { walk(n, 0) }
		}, "walk"
	case 13:
		return func(s string) func() {
			d := new(njson.Document)
			n, _, _ := d.Parse(s)
			if n.Type() != njson.TypeObject {
				o := d.Object()
				o.Set("x", n)
				n = o
			}
			return func() {
				n.Get("x").Get("k1")
				n.Lookup("x", "k2", "k3")
				n.Set("x", d.Text(s))
				n.Del("x")
				n.Strip("k1")
				n.Set("x", d.Null())
				n.Del("nothing")
			}
		}, "edit an object"
	case 14:
		return func(s string) func() {
			d := new(njson.Document)
			n, _, _ := d.Parse(s)
			return func() {
				var x, y wrapKeep
				n.WrapUnmarshalJSON(&x)
				n.WrapUnmarshalText(&y)
				var v interface{}
				unjson.UnmarshalFromNode(n, &v)
				var r Rec
				unjson.UnmarshalFromNode(n, &r)
			}
		}, "unmarshalers"
	case 15: // many appended to one buffer
		return func(s string) func() {
			return func() {
				var b, e []byte
				for s := s; s != ""; {
					k := min(len(s), 24)
					b = strjson.AppendEscaped(b, s[:k], k%2 == 0)
					s = s[k:]
				}
				for s := s; s != ""; {
					k := min(len(s), 24)
					e = strjson.AppendUnescaped(e, s[:k])
					s = s[k:]
				}
			}
		}, "escape to one buffer"
	case 16:
		return func(s string) func() {
			d := new(njson.Document)
			n, _, _ := d.Parse(s)
			return func() {
				var b, e, f []byte
				for it := n.Values(); it.Next(); {
					b, _ = it.Value().AppendJSON(b)
					x, _ := it.Value().ToInterface()
					e, _ = unjson.AppendJSON(e, x)
				}
				for i := 0; i < len(s); i += 10 {
					f = numjson.AppendFloat(f, float64(i)/7, 64)
					f, _ = unjson.AppendJSON(f, i)
				}
			}
		}, "append to one buffer"
	case 17: // an array built value by value
		return func(s string) func() {
			d := new(njson.Document)
			n, _, _ := d.Parse(s)
			return func() {
				o := new(njson.Document)
				a := o.Array()
				for it := n.Values(); it.Next(); {
					a.Append(it.Value())
					a.Append(o.Number(1.5))
				}
				for i := 0; i < len(s); i += 40 {
					a.Append(o.Text(s[i:min(len(s), i+40)]))
				}
				_ = a.Index(len(s) / 80)
			}
		}, "an array built"
	default:
		return func(s string) func() {
			d := new(njson.Document)
			d.Parse(s)
			return func() {
				d.Reset()
				d.Parse(s)
				d.Parse(s)
				d.Reset()
			}
		}, "reset and parse"
	}
}

type wrapKeep struct{ n int }

func (w *wrapKeep) UnmarshalJSON(b []byte) error { w.n += len(b); return nil }
func (w *wrapKeep) UnmarshalText(b []byte) error { w.n += len(b); return nil }

func walk(n njson.Node, depth int) {
	n.Type()
	n.Data()
	it := n.Values()
	for it.Next() {
		v := it.Value()
		_ = it.Key()
		_ = it.Len()
		walk(v, depth+1)
	}
	it.Close()
}

// costReader delivers a stream in small pieces with transient errors.
type costReader struct {
	data  string
	frag  []int
	i, n  int
	errAt int
}

func (r *costReader) Read(p []byte) (int, error) {
	r.n++
	if r.errAt > 0 && r.n%r.errAt == 0 {
		core.Hit(pCostErr)
		return 0, errRejected
	}
	if r.data == "" {
		return 0, io.EOF
	}
	k := min(len(p), len(r.data), r.frag[r.i])
	if r.i++; r.i == len(r.frag) {
		r.i = 0
	}
	copy(p, r.data[:k])
	r.data = r.data[k:]
	return k, nil
}

func setupC22(c *core.Ctx) {
	g := c.Gen
	clear(tctx[:])
	switch g.Pick(4, 3, 3, 2) {
	case 0:
		costScale(c, g)
	case 1:
		costStream(c, g)
	case 2:
		costHistory(c, g)
	default:
		costRepeat(c, g)
	}
}

// costCheck compares costs.
func costCheck(c *core.Ctx, what string, a, b cost, wf, af, ws, as int64) {
	c.Describe("%s: %s, then %s", what, a, b)
	if b.work > wf*a.work/4+ws {
		c.Fail("work out of proportion", "%s: first %s, then %s", what, a, b)
	}
	if b.alloc > af*a.alloc/4+as {
		c.Fail("allocations out of proportion", "%s: first %s, then %s", what, a, b)
	}
}

func costScale(c *core.Ctx, g *src) {
	text, td := costText(g)
	use, ud := costUse(g)
	bad, bd := func(s string) string { return s }, ""
	if g.Bool(1, 4) {
		bad, bd = costBad(g)
	}
	n := []int{20, 60, 150, 400, 1000}[g.Pick(1, 2, 3, 3, 2)]
	n += g.N(n)
	c.Describe("%s, %s %s, size %d", ud, td, bd, n)
	core.Hit(pCostScale)
	what := ud + " of " + td + " " + bd
	short := text(n)
	a := first(c, what, use(bad(short)), len(short))
	long := text(n * costFactor)
	slack := int64(allocSlack)
	if bd != "" { // where a text is bad can depend on its size
		d := first(c, what, use(short), len(short))
		a.work, a.alloc = max(a.work, d.work), max(a.alloc, d.alloc)
	}
	// The small call can have reused all the memory it needs, where the large
	// one has to allocate: that much is linear in its size.
	slack += 400 * int64(len(long))
	b := least(use(bad(long)), workPerItem*a.work+workSlack)
	costCheck(c, what, a, b, 4*workPerItem, 4*allocPerItem, workSlack, slack)
}

func costStream(c *core.Ctx, g *src) {
	text, td := costText(g)
	n := []int{5, 20, 60, 150, 400}[g.Pick(1, 2, 3, 3, 2)]
	n += g.N(n)
	lines := g.Bool(1, 3)
	frag := make([]int, 1+g.N(5))
	for i := range frag {
		frag[i] = 1 + g.N(40)*g.N(20)
	}
	errAt := 0
	if g.Bool(2, 3) {
		errAt = 2 + g.N(9)
	}
	size := 0
	if g.Bool(1, 3) {
		size = []int{16, 64, 4096}[g.N(3)]
	}
	rec := g.Bool(1, 2)
	c.Describe("stream of %s, size %d, lines %t, fragments %v, transient error every %d reads, buffer %d", td, n, lines, frag, errAt, size)
	run := func(n int) (int, func()) {
		data := strings.ReplaceAll(text(n), "\n", " ") + "\n"
		if lines {
			data = strings.Repeat(strings.ReplaceAll(text(5), "\n", " ")+"\r\n", n)
		}
		return len(data), func() {
			r := &costReader{data: data, frag: frag, errAt: errAt}
			var src io.Reader = r
			if size > 0 {
				src = bufio.NewReaderSize(r, size)
			}
			d := unjson.NewLineDecoder(src)
			ok := 0
			for {
				var err error
				if rec {
					var x Rec
					err = d.Decode(&x)
				} else {
					var x interface{}
					err = d.Decode(&x)
				}
				if err == io.EOF {
					break
				}
				if err == nil {
					ok++
				}
			}
		}
	}
	core.Hit(pCostScale)
	size0, f := run(n)
	a := first(c, "stream of "+td, f, size0)
	size1, f := run(n * costFactor)
	b := least(f, workPerItem*a.work+workSlack)
	costCheck(c, "stream of "+td, a, b, 4*workPerItem, 4*allocPerItem, workSlack, allocSlack+400*int64(size1))
}

// costHistory compares the cost of small calls before and after a long history.
func costHistory(c *core.Ctx, g *src) {
	text, td := costText(g)
	n := 2000 + 2000*g.N(8)
	big := text(n)
	if g.Bool(1, 3) {
		bad, bd := costBad(g)
		big = bad(big)
		td += " " + bd
	}
	var small, hist func()
	desc := ""
	st := `{"id":1,"s":"x\ty","x":[1,{"y":"\n"}],"m":{"a":"b"}}`
	times := 1 + g.N(3)
	switch g.N(8) {
	case 0: // a document
		d := new(njson.Document)
		small = func() {
			n, _, _ := d.Parse(st)
			n.Set("k", d.Text("a\nb"))
			n.AppendJSON(nil)
			d.Reset()
		}
		hist = func() {
			n, _, _ := d.Parse(big)
			a := d.Array()
			a.Append(n)
			a.Append(n)
			d.Reset()
		}
		desc = "a document, reset"
	case 1: // the default pool
		small = func() {
			d := njson.Blank()
			n, _, _ := d.Parse(st)
			n.Set("k", d.Text("a\nb"))
			n.AppendJSON(nil)
			d.Close()
		}
		hist = func() {
			d := njson.Blank()
			n, _, _ := d.Parse(big)
			d.Array().Append(n)
			d.Close()
		}
		desc = "the document pool"
	case 2:
		small = func() {
			var x interface{}
			var y Rec
			unjson.UnmarshalFromString(st, &x)
			unjson.UnmarshalFromString(st, &y)
			unjson.Marshal(y)
		}
		hist = func() {
			var x interface{}
			var y Rec
			unjson.UnmarshalFromString(big, &x)
			unjson.UnmarshalFromString(big, &y)
			unjson.Marshal(x)
		}
		desc = "unmarshal and marshal"
	case 3:
		q := &textReader{}
		long := false
		q.next = func() string {
			if long {
				return strings.ReplaceAll(big, "\n", " ") + "\n"
			}
			return st + "\n"
		}
		d := unjson.NewLineDecoder(bufio.NewReaderSize(q, 16))
		small = func() {
			var x interface{}
			d.Decode(&x)
		}
		hist = func() {
			long = true
			for i := 0; i < 3; i++ {
				small()
			}
			long = false
			for i := 0; i < 3; i++ {
				small()
			}
		}
		desc = "a line decoder"
	case 4:
		w := &cycWriter{}
		fails := g.N(4)
		e := unjson.NewLineEncoder(w)
		small = func() { e.Encode(map[string]interface{}{"a": "\n", "b": []int{1, 2}}) }
		hist = func() {
			w.every = fails & 1
			e.Encode(map[string]interface{}{"a": big})
			if fails&2 != 0 {
				e.Encode([]interface{}{big, make(chan int)})
			}
			w.every = 0
		}
		desc = "a line encoder"
	case 5:
		d := new(njson.Document)
		n, _, _ := d.Parse(st)
		small = func() { n.PrintJSON(&costSink{}) }
		hist = func() {
			o := new(njson.Document)
			n, _, _ := o.Parse(big)
			n.PrintJSON(&costSink{})
			njson.PrintJSON(&cycWriter{every: 1}, n)
		}
		desc = "print"
	case 6: // a node of the same document, without a reset
		d := new(njson.Document)
		n, _, _ := d.Parse(st)
		small = func() {
			n.AppendJSON(nil)
			n.ToInterface()
			walk(n, 0)
			n.Set("k", d.Text("a\nb"))
			n.Get("s").SetString("v")
			n.Get("x").Append(d.Null())
			n.Get("x").Remove(2)
			d.Parse(st)
		}
		hist = func() {
			m, _, _ := d.Parse(big)
			d.Array().Append(m, m)
		}
		desc = "a document that grows"
	default: // wrapped unmarshalers
		d := new(njson.Document)
		n, _, _ := d.Parse(st)
		small = func() {
			var x, y wrapKeep
			n.WrapUnmarshalJSON(&x)
			n.Get("s").WrapUnmarshalText(&y)
		}
		hist = func() {
			o := new(njson.Document)
			n, _, _ := o.Parse(big)
			var x, y wrapKeep
			n.WrapUnmarshalJSON(&x)
			n.WrapUnmarshalText(&y)
			t := o.TextRaw(big)
			t.WrapUnmarshalText(&y)
		}
		desc = "unmarshalers"
	}
	c.Describe("%s, history of %d of %s, size %d", desc, times, td, n)
	calls := func() {
		for i := 0; i < 20; i++ {
			small()
		}
	}
	calls()
	a := first(c, desc, calls, 20*len(st))
	core.Hit(pCostHist)
	for i := 0; i < times; i++ {
		if costOf(hist, 10*most(len(big))).work > 10*most(len(big)) {
			c.Fail("work out of proportion", "%s: more than %d statements with %s of %d bytes", desc, 10*most(len(big)), td, len(big))
		}
	}
	b := least(calls, 2*a.work+4000)
	costCheck(c, desc+" before and after "+td, a, b, 8, 8, 4000, 64<<10)
}

// costRepeat compares the cost of repetitions early and late in an endless use.
func costRepeat(c *core.Ctx, g *src) {
	t := newTk(c, -1)
	s, desc := genMemStep(g, t)
	n := 40 + g.N(80)
	c.Describe("%s, %d repetitions", desc, n)
	i := 0
	round := func() {
		for k := 0; k < n; k++ {
			s(i)
			i++
		}
	}
	round()
	round()
	a := costOf(round, 1<<33)
	for k := 0; k < 2; k++ {
		d := costOf(round, 1<<33)
		a.work, a.alloc = max(a.work, d.work), max(a.alloc, d.alloc)
	}
	core.Hit(pCostGrow)
	for k := 0; k < costFactor*3; k++ {
		round()
		core.Beat()
	}
	b := least(round, 1<<33)
	costCheck(c, "repetitions of "+desc, a, b, 8, 8, workSlack, allocSlack/4)
}
