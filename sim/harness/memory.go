package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"strings"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/unjson"
	"github.com/alxarch/njson/verifsim/core"
	"github.com/alxarch/njson/verifsim/simrt"
)

// C18: endless use with a fixed mix of values must not need ever more memory.

// heapSlack is the growth of live memory between two rounds that is not looked into.
const heapSlack = 8 << 10

func liveHeap() int64 {
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// endless is a reader repeating a stream for ever.
type endless struct {
	data  []byte
	pos   int
	frag  []int
	i     int
	errAt int // a transient error every so many reads
	n     int
	wraps int // how often it was delivered
}

func (r *endless) Read(p []byte) (int, error) {
	r.n++
	if r.errAt > 0 && r.n%r.errAt == 0 {
		core.Hit(fReadErr)
		return 0, errRejected
	}
	k := min(len(p), len(r.data)-r.pos)
	if f := r.frag[r.i]; f > 0 {
		k = min(k, f)
	}
	if r.i++; r.i == len(r.frag) {
		r.i = 0
	}
	copy(p, r.data[r.pos:r.pos+k])
	if r.pos += k; r.pos == len(r.data) {
		r.pos = 0
		r.wraps++
	}
	return k, nil
}

// cycWriter fails now and then.
type cycWriter struct {
	every, n int
	mode     int
}

func (w *cycWriter) Write(p []byte) (int, error) {
	w.n++
	if w.every > 0 && w.n%w.every == 0 {
		switch w.mode {
		case 0:
			core.Hit(fWriteErr)
			return 0, errRejected
		case 1:
			core.Hit(fWriteShort)
			return len(p) / 2, io.ErrShortWrite
		default:
			core.Hit(fWPanic)
			panic(errRejected)
		}
	}
	return len(p), nil
}

func recovered(f func()) {
	defer func() {
		if v := recover(); v != nil && v != interface{}(errRejected) {
			core.Rethrow(v)
			if _, ok := v.(planPanic); !ok {
				panic(v)
			}
		}
	}()
	f()
}

var pMemFail = core.Fault("endless use: failing call")

// step is one use of the library, repeated for ever; i counts the repetitions.
type step func(i int)

func genMemStep(g *src, t *tk) (step, string) {
	kind := g.N(12)
	switch kind {
	case 10, 11:
		return genFreshStep(g)
	case 0, 1: // a stream decoder
		cfg := genCfg(g)
		n := 1 + g.N(8)
		var b bytes.Buffer
		bad := g.N(3)
		for i := 0; i < n; i++ {
			if bad > 0 && g.Bool(bad, 4) {
				b.WriteString(badLine(g, cfg, i))
				core.Hit(pMemFail)
			} else {
				it := genItem(g, cfg, i)
				for len(it.text) > 9500 {
					it = genItem(g, streamCfg{many: true}, i)
				}
				b.WriteString(it.text)
			}
			b.WriteString([]string{"\n", "\r\n"}[g.N(2)])
		}
		r := &endless{data: b.Bytes(), frag: make([]int, 1+g.N(5))}
		for i := range r.frag {
			r.frag[i] = g.N(40) * g.N(20)
		}
		if g.Bool(1, 3) {
			r.errAt = 2 + g.N(9)
		}
		var d *unjson.LineDecoder
		if cfg.bufsize > 0 {
			d = unjson.NewLineDecoder(bufio.NewReaderSize(r, cfg.bufsize))
		} else {
			d = unjson.NewLineDecoder(r)
		}
		if cfg.target == 2 {
			d.Decoder, _ = unjson.NewTypeDecoder(reflect.TypeOf(&Rec{}), "json")
		}
		// buffers have the size for the largest line
		for k := 0; r.wraps < 2 && k < 100000; k++ {
			decodeOne(d, cfg, nil)
		}
		return func(int) { decodeOne(d, cfg, nil) }, fmt.Sprintf("stream decoder over %s, bad lines %d/4, transient error every %d reads", short(b.Bytes()), bad, r.errAt)
	case 2, 3: // a stream encoder
		n := 1 + g.N(6)
		vals := make([]interface{}, n)
		for i := range vals {
			vals[i] = genEV(g, i, []int{0, 40}[g.N(2)]).v
		}
		w := &cycWriter{}
		if g.Bool(1, 2) {
			w.every, w.mode = 2+g.N(5), g.N(3)
		}
		e := unjson.NewLineEncoder(w)
		return func(i int) { recovered(func() { e.Encode(vals[i%n]) }) }, fmt.Sprintf("stream encoder of %d values, writer failing every %d writes", n, w.every)
	case 4, 5, 6: // marshal, unmarshal and print calls
		sh := newShared(t.c)
		n := 1 + g.N(4)
		calls := make([]call, n)
		plans := make([][]pact, n)
		desc := ""
		for i := range calls {
			switch g.N(6) {
			case 0:
				calls[i] = genEncodeCall(g, sh)
			case 1:
				calls[i] = genDecodeCall(g, sh)
			case 2:
				calls[i] = genPrintCall(g, 2, nil)
			case 3:
				calls[i] = genWrapCall(g)
			case 4:
				calls[i] = genTopCall(g)
			default:
				calls[i] = genPlainCall(g, sh, i)
			}
			plans[i] = genPlan(g, g.N(3), nil)
			for k := range plans[i] {
				plans[i][k].stalls = 0
			}
			desc += "; " + calls[i].desc
		}
		return func(i int) {
			t.kept = nil
			t.do(calls[i%n], plans[i%n])
		}, "calls" + desc
	case 7: // documents of a pool
		n := 1 + g.N(4)
		texts := make([]string, n)
		for i := range texts {
			texts[i] = genDoc(g)
			if g.Bool(1, 4) {
				texts[i] = genBad(g, texts[i])
				core.Hit(pMemFail)
			}
		}
		pool := new(njson.Pool)
		own := g.Bool(1, 2)
		return func(i int) {
			var d *njson.Document
			if own {
				d = pool.Get()
			} else {
				d = njson.Blank()
			}
			nd, _, _ := d.Parse(texts[i%n])
			a := d.Array()
			a.Append(nd, d.Text("x"))
			a.Append(nd)
			nd.Set("k", a)
			nd.Set("k", d.True())
			if own {
				pool.Put(d)
			} else {
				d.Close()
			}
		}, fmt.Sprintf("pooled documents parsing %s", short(strings.Join(texts, " ")))
	case 8: // one document, reset
		n := 1 + g.N(4)
		texts := make([]string, n)
		for i := range texts {
			texts[i] = genDoc(g)
			if g.Bool(1, 4) {
				texts[i] = genBad(g, texts[i])
				core.Hit(pMemFail)
			}
		}
		d := new(njson.Document)
		return func(i int) {
			nd, _, _ := d.Parse(texts[i%n])
			// failed parses must not pile up even without a reset
			d.Parse(`{"a":[1,2`)
			d.Parse(`[1,2,{"a":]`)
			_ = nd.Raw()
			d.Reset()
		}, fmt.Sprintf("a document parsing %s and reset", short(strings.Join(texts, " ")))
	default: // codec caches
		var cache unjson.Cache
		types := []reflect.Type{reflect.TypeOf(Rec{}), reflect.TypeOf(&Rec{}), reflect.TypeOf([]boxE{}), reflect.TypeOf(&boxD{}), reflect.TypeOf(make(chan int)), reflect.TypeOf(map[int]string{}), reflect.TypeOf([]func(){}), reflect.TypeOf(1)}
		n := 1 + g.N(len(types))
		k := g.N(len(types))
		return func(i int) {
			ty := types[(k+i%n)%len(types)]
			cache.Encoder(ty)
			if ty.Kind() == reflect.Ptr {
				cache.Decoder(ty)
			}
			x := reflect.Zero(ty)
			if ty.Kind() == reflect.Ptr {
				x = reflect.New(ty.Elem())
			}
			unjson.Marshal(x.Interface())
			if i%8 == 0 {
				unjson.NewTypeEncoder(ty, unjson.DefaultOptions())
				unjson.NewTypeDecoder(ty, "json")
			}
		}, fmt.Sprintf("codec cache, %d types", n)
	}
}

// genFreshStep is use with values that are all different.
func genFreshStep(g *src) (step, string) {
	kind, key := g.N(8), g.Bool(1, 2)
	text := func(i int) string {
		u := fmt.Sprintf("%d-%s", i, pad(60, i))
		switch {
		case !key:
			return fmt.Sprintf(`{"id":%d,"s":"%s","x":["%s",%d.5,"\n%s"],"f":1%d.25,"f4":%d.5,"i":77%d,"v":88%d,"l":["%s","\t%s"],"c":"~%s","q":[{"n":5%d,"x":%d%s},{"y":{"%s":-%d}}]}`, i, u, u, i, u, i, i%9999, i, i, u, u, u, i, i, strings.Repeat("0123456789", 12), u, i)
		case i%5 == 4:
			return fmt.Sprintf(`{"%s":1,"x":{"%s":[1,{"\\t%s":null`, u, u, u) // ends early
		default:
			return fmt.Sprintf(`{"m":{"%s":"1"},"k%s":1,"x":{"%s":[1,{"\t%s":null}]},"k":{"~%s":1},"mi":{"%s":[]},"ms":{"\n%s":{}},"ym":{"%s":1}}`, u, u, u, u, u, u, u, u)
		}
	}
	desc := fmt.Sprintf("values that are all different (kind %d, keys %t)", kind, key)
	n := 0
	r := &textReader{next: func() string { n++; return text(n) + "\n" }}
	switch kind {
	case 0:
		d := unjson.NewLineDecoder(r)
		return func(int) {
			var x interface{}
			d.Decode(&x)
		}, "stream decoder, " + desc
	case 1:
		d := unjson.NewLineDecoder(r)
		return func(int) {
			var x Rec
			d.Decode(&x)
		}, "stream decoder, " + desc
	case 2:
		e := unjson.NewLineEncoder(&cycWriter{every: g.N(3) * 2})
		return func(i int) {
			u := fmt.Sprintf("%d-%s", i, pad(60, i))
			recovered(func() { e.Encode(map[string]interface{}{u: []string{u, "\n" + u}}) })
			recovered(func() {
				e.Encode(Rec{ID: i, S: u, X: rawJSON(`"` + u + `"`), K: map[mkey]int{mkey(u): 1}, C: custom{u}})
			})
		}, "stream encoder, " + desc
	case 3:
		return func(i int) {
			var x interface{}
			var y Rec
			unjson.UnmarshalFromString(text(i), &x)
			unjson.Unmarshal([]byte(text(i)), &y)
		}, "unmarshal, " + desc
	case 4:
		return func(i int) {
			d := njson.Blank()
			nd, _, _ := d.Parse(text(i))
			nd.Set("t", d.Text(fmt.Sprintf("%d\n%s", i, pad(60, i))))
			nd.Lookup("x", fmt.Sprintf("%d-%s", i, pad(60, i)))
			nd.Get("s").Unescaped()
			d.Close()
		}, "pooled documents, " + desc
	case 5:
		d := new(njson.Document)
		return func(i int) {
			d.Parse(text(i))
			d.Reset()
		}, "a document, reset, " + desc
	case 6:
		return func(i int) {
			u := fmt.Sprintf("%d-%s", i, pad(60, i))
			unjson.Marshal(map[string]interface{}{u: float64(i) / 3, "\n" + u: i})
			unjson.AppendJSON(nil, Rec{ID: i, F: float64(i) * 1.7, L: []string{u, "\"" + u}, M: map[string]string{u: u}})
			unjson.Marshal(badJSON{fmt.Errorf("%d %s", i, u)})
			unjson.Unmarshal([]byte(`"`+u), &u)
		}, "marshal, " + desc
	default:
		return func(i int) {
			d := njson.Blank()
			nd, _, _ := d.Parse(text(i))
			recovered(func() { nd.PrintJSON(&cycWriter{every: 1 + i%2, mode: i % 3}) })
			nd.WrapUnmarshalJSON(rejects{})
			nd.TypeError(njson.TypeNumber)
			nd.Get("s").ToInt()
			nd.Get("id").WrapUnmarshalText(rejects{})
			d.Close()
		}, "print and failing unmarshalers, " + desc
	}
}

// rejects is an unmarshaler that always fails, each time with a new error.
type rejects struct{}

func (rejects) UnmarshalJSON(b []byte) error { return fmt.Errorf("%s: %w", b, errRejected) }
func (rejects) UnmarshalText(b []byte) error { return fmt.Errorf("%s: %w", b, errRejected) }

// textReader reads an endless sequence of texts.
type textReader struct {
	next func() string
	left string
}

func (r *textReader) Read(p []byte) (int, error) {
	if r.left == "" {
		r.left = r.next()
	}
	n := copy(p, r.left)
	r.left = r.left[n:]
	return n, nil
}

func setupC18(c *core.Ctx) {
	g := c.Gen
	clear(tctx[:])
	t := newTk(c, -1)
	var steps []step
	for i, n := 0, 1+g.N(2); i < n; i++ {
		s, desc := genMemStep(g, t)
		c.Describe("%s", desc)
		steps = append(steps, s)
	}
	round := 600 + 200*g.N(4)
	if g.Bool(1, 4) {
		round *= 3
	}
	c.Describe("%d repetitions a round", round)
	simrt.GC()
	goroutines := runtime.NumGoroutine()
	i := 0
	run := func() int64 {
		for k := 0; k < round; k++ {
			for _, s := range steps {
				s(i)
			}
			if k%50 == 0 {
				core.Beat()
			}
			i++
		}
		return liveHeap()
	}
	h1 := run()
	h2 := run()
	if h2-h1 > heapSlack {
		// go on, to tell one-time growth from a leak. What grows by doubling
		// grows again whenever the number of repetitions doubles.
		run()
		h4 := run()
		if h4-h2 > heapSlack {
			for k := 0; k < 3; k++ {
				run()
			}
			h8 := run()
			if h8-h4 > heapSlack {
				c.Fail("memory grows", "live memory grew by about %d kB between %d and %d repetitions, and each time these doubled", (h8-h1)/16384*16, round, 8*round)
			}
		}
	}
	if n := runtime.NumGoroutine(); n > goroutines+10 {
		c.Fail("goroutines pile up", "%d more goroutines", n-goroutines)
	}
	runtime.KeepAlive(steps)
}
