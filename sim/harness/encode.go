package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math"
	"reflect"
	"strings"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/unjson"
	"github.com/alxarch/njson/verifsim/core"
	"github.com/alxarch/njson/verifsim/gentypes"
	"github.com/alxarch/njson/verifsim/simrt"
	"github.com/alxarch/njson/verifsim/simsync"
)

// stdAny decodes JSON with encoding/json.
func stdAny(b []byte) (interface{}, error) {
	var x interface{}
	err := json.Unmarshal(b, &x)
	return x, err
}

// sameJSON compares two JSON texts by value.
func sameJSON(got []byte, want string) bool {
	a, err := stdAny(got)
	if err != nil {
		return false
	}
	b, err := stdAny([]byte(want))
	if err != nil {
		panic("harness: bad golden " + want)
	}
	return reflect.DeepEqual(a, b)
}

// recFromJSON checks with encoding/json that b is the JSON of r.
func recFromJSON(b []byte, r *Rec) bool {
	var x Rec
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.DisallowUnknownFields()
	if err := dec.Decode(&x); err != nil {
		return false
	}
	if _, err := dec.Token(); err != io.EOF {
		return false
	}
	y := *r
	if len(x.L) == 0 && len(y.L) == 0 {
		x.L, y.L = nil, nil
	}
	if len(x.Q) == 0 && len(y.Q) == 0 {
		x.Q, y.Q = nil, nil
	}
	return reflect.DeepEqual(x, y)
}

// rawJSON marshals itself as the given text; rawAppender appends it.
type rawJSON string

func (r rawJSON) MarshalJSON() ([]byte, error) { simrt.Yield(); return []byte(r), nil }

type rawAppender string

func (r rawAppender) AppendJSON(b []byte) ([]byte, error) {
	b = append(b, r[:len(r)/2]...)
	simrt.Yield()
	return append(b, r[len(r)/2:]...), nil
}

type badJSON struct{ err error }

func (r badJSON) MarshalJSON() ([]byte, error) { return []byte(`"partial`), r.err }

type badAppender struct{ err error }

func (r badAppender) AppendJSON(b []byte) ([]byte, error) {
	return append(b, `{"partial":[1,2,`...), r.err
}

type badText struct{ err error }

func (r badText) MarshalText() ([]byte, error) { return []byte(`partial`), r.err }

var pSameValue = core.Probe("value: encoded twice in a row")

type holder struct {
	A int         `json:"a"`
	V interface{} `json:"v"`
	Z string      `json:"z"`
}

// wide holds a value behind a text that may be long.
type wide struct {
	Pad string      `json:"pad"`
	V   interface{} `json:"v"`
	Z   string      `json:"z"`
}

// widen puts a value behind a text.
func widen(g *src, e ev) ev {
	w := wide{Pad: strings.Repeat("x", []int{0, 300, 2100, 4200, 9000, 70000}[g.Pick(8, 8, 4, 4, 4, 1)]), V: e.v, Z: genStr(g)}
	if bigText > 0 {
		w.Pad += strings.Repeat("y", bigText)
	}
	ok := e.ok
	e.v = &w
	if g.Bool(1, 3) {
		e.v = w
	}
	e.ok = func(b []byte) bool {
		var x struct {
			Pad string          `json:"pad"`
			V   json.RawMessage `json:"v"`
			Z   string          `json:"z"`
		}
		return json.Unmarshal(b, &x) == nil && x.Pad == w.Pad && x.Z == w.Z && ok(x.V)
	}
	e.desc = fmt.Sprintf("after %d bytes: %s", len(w.Pad), e.desc)
	return e
}

// ev is a value to encode: either failing or with a check of its JSON.
type ev struct {
	v    interface{}
	bad  bool
	err  error // the error expected, if known
	ok   func(b []byte) bool
	desc string
}

// spread puts line breaks between the tokens of a JSON text.
func spread(text string, g *src) string {
	var b strings.Builder
	in, esc := false, false
	for i := 0; i < len(text); i++ {
		ch := text[i]
		b.WriteByte(ch)
		if in {
			if esc {
				esc = false
			} else if ch == '\\' {
				esc = true
			} else if ch == '"' {
				in = false
			}
			continue
		}
		switch ch {
		case '"':
			in = true
		case ',', '[', '{', ':':
			b.WriteString([]string{"\n", "\r\n", "\n\t", ""}[g.N(4)])
		}
	}
	return b.String()
}

func genEV(g *src, id int, badPct int) ev {
	if g.Bool(badPct, 100) {
		e := &simErr{id}
		switch g.N(9) {
		case 0:
			return ev{v: badJSON{e}, bad: true, err: e, desc: "failing MarshalJSON"}
		case 1:
			return ev{v: badAppender{e}, bad: true, err: e, desc: "failing AppendJSON"}
		case 2:
			return ev{v: holder{A: id, V: badAppender{e}}, bad: true, err: e, desc: "struct with failing field"}
		case 3:
			return ev{v: []interface{}{1, "x", badText{e}, 2}, bad: true, err: e, desc: "list with failing element"}
		case 4:
			return ev{v: make(chan int), bad: true, desc: "unsupported type"}
		case 5:
			return ev{v: holder{A: id, V: math.NaN()}, bad: true, desc: "NaN"}
		case 6:
			return ev{v: map[string]interface{}{"k": badJSON{e}}, bad: true, err: e, desc: "map with failing value"}
		case 7:
			return ev{v: &holder{V: []badText{{e}}}, bad: true, err: e, desc: "nested failing text"}
		default:
			return ev{v: holder{A: id, V: func() {}}, bad: true, desc: "nested unsupported type"}
		}
	}
	switch g.Pick(4, 2, 2, 1, 1, 1, 1) {
	case 6:
		v, text := genLine(g, id, true)
		return ev{v: v, ok: func(b []byte) bool { return sameJSON(b, text) }, desc: "generated " + short(text)}
	case 0:
		r, text := genRec(g, id, false)
		if g.Bool(1, 3) {
			n := g.Range(100, 3000)
			if bigText > 0 && g.Bool(1, 2) {
				n = bigText * g.Range(1, 3)
			}
			r, text = padRec(r, text, n)
		}
		_ = text
		rr := r
		var v interface{} = r
		if g.Bool(1, 2) {
			v = &r
		}
		return ev{v: v, ok: func(b []byte) bool { return recFromJSON(b, &rr) }, desc: short(&rr)}
	case 1, 2:
		var b strings.Builder
		genAny(&b, g, 3, false)
		t := fmt.Sprintf(`{"id":%d,"v":%s}`, id, b.String())
		text := t
		if g.Bool(2, 3) {
			text = spread(t, g)
			core.Hit(pNewlines)
		}
		var v interface{} = rawJSON(text)
		switch g.N(4) {
		case 1:
			v = rawAppender(text)
		case 2:
			v = holder{A: 1, V: rawJSON(text), Z: "end\n"}
			t = `{"a":1,"v":` + t + `,"z":"end\n"}`
		case 3:
			v = []interface{}{rawAppender(text), nil, rawJSON(text)}
			t = "[" + t + ",null," + t + "]"
		}
		return ev{v: v, ok: func(b []byte) bool { return sameJSON(b, t) }, desc: short(text)}
	case 3:
		var b strings.Builder
		v := genAny(&b, g, 3, false)
		t := b.String()
		return ev{v: v, ok: func(b []byte) bool { return sameJSON(b, t) }, desc: short(t)}
	case 4:
		// nodes are appenders
		_, text := genRec(g, id, false)
		d := new(njson.Document)
		n, _, err := d.Parse(text)
		if err != nil {
			panic(err)
		}
		return ev{v: n, ok: func(b []byte) bool { return sameJSON(b, text) }, desc: "node " + short(text)}
	default:
		isNull := func(b []byte) bool { return string(b) == "null" }
		switch g.N(7) {
		case 3:
			return ev{v: (*rawAppender)(nil), ok: isNull, desc: "nil pointer to an appender"}
		case 4:
			return ev{v: (*badText)(nil), ok: isNull, desc: "nil pointer to a text marshaler"}
		case 0:
			return ev{v: (*Rec)(nil), ok: isNull, desc: "nil *Rec"}
		case 1:
			return ev{v: (*eJ)(nil), ok: isNull, desc: "nil pointer to a marshaler"}
		case 2:
			t := genStr(g)
			return ev{v: custom{t}, ok: func(b []byte) bool { return sameJSON(b, quoted("~"+t, &src{})) }, desc: "text marshaler " + short(t)}
		}
		return ev{v: nil, ok: isNull, desc: "nil"}
	}
}

// simWriter records what it is handed and fails as planned.
type simWriter struct {
	fault  int // 0 none, 1 error, 2 short with error, 3 short without error
	at     int // the call that fails
	err    error
	stall  int
	calls  int
	handed []byte // bytes handed in during the current operation
	torn   string // set if the bytes changed while the writer held them
}

func (w *simWriter) begin(fault, at int, err error) {
	w.fault, w.at, w.err, w.calls, w.handed, w.torn = fault, at, err, 0, nil, ""
}

func (w *simWriter) Write(p []byte) (int, error) {
	simrt.Yield()
	w.calls++
	at := len(w.handed)
	w.handed = append(w.handed, p...)
	for i := 0; i < w.stall; i++ {
		simrt.Stall()
	}
	if !bytes.Equal(p, w.handed[at:]) {
		w.torn = fmt.Sprintf("handed %s, later %s", short(w.handed[at:]), short(p))
	}
	if w.calls != w.at {
		return len(p), nil
	}
	switch w.fault {
	case 1:
		core.Hit(fWriteErr)
		return 0, w.err
	case 2:
		core.Hit(fWriteShort)
		return len(p) / 2, w.err
	case 3:
		core.Hit(fWriteShrtN)
		return len(p) / 2, nil
	}
	return len(p), nil
}

// fullWriter is a simWriter with the other methods a writer may have.
type fullWriter struct{ *simWriter }

func (w fullWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

func (w fullWriter) WriteByte(c byte) error {
	n, err := w.Write([]byte{c})
	if err == nil && n == 0 {
		err = io.ErrShortWrite
	}
	return err
}

func (w fullWriter) ReadFrom(r io.Reader) (int64, error) {
	b, err := ioutil.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := w.Write(b)
	return int64(n), err
}

func setupC04(c *core.Ctx) {
	g := c.Gen
	bigRun(c)
	tasks := g.Pick(3, 2, 1) + 1
	for t := 0; t < tasks; t++ {
		n := g.Range(1, 8)
		typed := g.Pick(5, 1, 2)
		typ := []reflect.Type{nil, reflect.TypeOf(Rec{}), reflect.TypeOf(&wide{})}[typed]
		badPct := []int{0, 30, 60}[g.N(3)]
		faultPct := []int{0, 30, 60}[g.N(3)]
		type op struct {
			ev
			fault int
			at    int
			err   error
		}
		ops := make([]op, n)
		for i := range ops {
			o := op{}
			if typed > 0 && g.N(100) < badPct && g.Bool(1, 4) {
				o.ev = ev{v: []interface{}{1, holder{}, "x", nil, (*Rec)(nil), &holder{}}[g.N(4)], bad: true, desc: "value of another type"}
			} else if typed == 1 {
				r, _ := genRec(g, t*100+i, false)
				o.ev = ev{v: &r, ok: func(b []byte) bool { return recFromJSON(b, &r) }, desc: "typed record"}
			} else {
				o.ev = genEV(g, t*100+i, badPct)
				if typed == 2 || g.Bool(1, 4) {
					o.ev = widen(g, o.ev)
				}
			}
			if i > 0 && g.Bool(1, 10) {
				o.ev = ops[i-1].ev
				core.Hit(pSameValue)
			}
			if o.bad {
				core.Hit(fEncodeErr)
			}
			if g.Bool(faultPct, 100) {
				o.fault = 1 + g.N(3)
				o.at = 1 + g.Pick(8, 1, 1)
				o.err = &simErr{1000*t + i}
			}
			ops[i] = o
			c.Describe("task %d value %d: bad=%v writer fault=%d: %s", t, i, o.bad, o.fault, o.desc)
		}
		stall := g.N(3)
		full := g.Bool(1, 4)
		t := t
		c.Go(fmt.Sprintf("encoder%d", t), func() {
			w := &simWriter{stall: stall}
			e := unjson.NewLineEncoder(w)
			if full {
				e = unjson.NewLineEncoder(fullWriter{w})
			}
			if typed > 0 {
				enc, err := unjson.NewTypeEncoder(typ, unjson.DefaultOptions())
				if err != nil {
					c.Sim.Fail("encoder", "NewTypeEncoder: %v", err)
				}
				e.Encoder = enc
			}
			for i, o := range ops {
				w.begin(o.fault, o.at, o.err)
				err := e.Encode(o.v)
				simrt.Note("encode %d: %v, %d bytes handed to the writer", i, err, len(w.handed))
				where := fmt.Sprintf("task %d value %d (%s)", t, i, o.desc)
				if w.torn != "" {
					c.Sim.Fail("record changed in writer", "%s: %s", where, w.torn)
				}
				if o.bad {
					if err == nil {
						c.Sim.Fail("failure hidden", "%s: no error; written %s", where, short(w.handed))
					}
					if o.err2(err) {
						c.Sim.Fail("wrong error", "%s: error %v, want %v", where, err, o.ev.err)
					}
					if len(w.handed) > 0 {
						c.Sim.Fail("partial record", "%s: failed value wrote %s", where, short(w.handed))
					}
					continue
				}
				b := w.handed
				if len(b) == 0 || b[len(b)-1] != '\n' || bytes.IndexByte(b, '\n') != len(b)-1 || bytes.IndexByte(b, '\r') >= 0 {
					c.Sim.Fail("line framing", "%s: error %v, written %s", where, err, short(b))
				}
				if !o.ok(b[:len(b)-1]) {
					c.Sim.Fail("wrong record", "%s: written %s", where, short(b))
				}
				fault := o.fault
				if w.calls < o.at {
					fault = 0 // the record was written before
				}
				switch fault {
				case 0:
					if err != nil {
						c.Sim.Fail("made-up error", "%s: %v", where, err)
					}
				case 3:
					if err == nil {
						c.Sim.Fail("failure hidden", "%s: short write not reported", where)
					}
				default:
					if err != o.err && !errors.Is(err, o.err) {
						c.Sim.Fail("failure hidden", "%s: writer failed with %v, Encode returned %v", where, o.err, err)
					}
				}
			}
		})
	}
}

// err2 reports whether err is not the failure expected.
func (e ev) err2(err error) bool { return e.err != nil && !errors.Is(err, e.err) }

// ---- pipe

// simPipe is a bounded in-memory pipe on simulated primitives.
type simPipe struct {
	c      *core.Ctx
	mu     simsync.Mutex
	cond   *simsync.Cond
	buf    []byte
	max    int
	werr   error // set when the writing side is closed
	rdone  bool  // reading side closed
	cutAt  int   // the producer dies once this many bytes were written, -1 never
	total  int
	chunky bool
}

var errDied = errors.New("simulated: producer died")
var errCut = errors.New("simulated: write interrupted by death")

var (
	fPipeFull  = core.Probe("pipe: producer waited")
	fPipeEmpty = core.Probe("pipe: consumer waited")
	fDie       = core.Fault("pipe: producer died inside a record")
	fGone      = core.Fault("pipe: consumer went away")
)

func newPipe(c *core.Ctx, max int) *simPipe {
	p := &simPipe{c: c, max: max, cutAt: -1}
	p.cond = simsync.NewCond(&p.mu)
	return p
}

func (p *simPipe) Write(b []byte) (n int, err error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for len(b) > 0 {
		for len(p.buf) >= p.max && !p.rdone {
			core.Hit(fPipeFull)
			p.cond.Wait()
		}
		if p.rdone {
			return n, io.ErrClosedPipe
		}
		k := min(len(b), p.max-len(p.buf))
		if p.chunky && k > 1 {
			k = 1 + p.c.Env.N(k)
		}
		if p.cutAt >= 0 && p.total+k >= p.cutAt {
			k = p.cutAt - p.total
			p.buf = append(p.buf, b[:k]...)
			p.total += k
			p.cond.Broadcast()
			core.Hit(fDie)
			return n + k, errCut
		}
		p.buf = append(p.buf, b[:k]...)
		p.total += k
		n += k
		b = b[k:]
		p.cond.Broadcast()
	}
	return n, nil
}

func (p *simPipe) Read(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for len(p.buf) == 0 && p.werr == nil {
		core.Hit(fPipeEmpty)
		p.cond.Wait()
	}
	if len(p.buf) == 0 {
		return 0, p.werr
	}
	k := min(len(b), len(p.buf))
	if p.chunky && k > 1 {
		k = 1 + p.c.Env.N(k)
	}
	copy(b, p.buf[:k])
	p.buf = append([]byte(nil), p.buf[k:]...)
	var err error
	if len(p.buf) == 0 && p.werr != nil && p.c.Env.Bool(1, 2) {
		err = p.werr
	}
	p.cond.Broadcast()
	return k, err
}

func (p *simPipe) closeWrite(err error) {
	p.mu.Lock()
	if p.werr == nil {
		p.werr = err
	}
	p.cond.Broadcast()
	p.mu.Unlock()
}

func (p *simPipe) closeRead() {
	p.mu.Lock()
	p.rdone = true
	p.cond.Broadcast()
	p.mu.Unlock()
}

// sent is a record sent through a pipe.
type sent struct {
	v      interface{}
	new    func() interface{}
	eq     func(x interface{}) bool
	before ev // a value that fails, tried before
}

func genSent(g *src, id int, rec bool) sent {
	k := 0
	if !rec {
		k = g.N(4)
	}
	switch k {
	case 0:
		r, text := genRec(g, id, false)
		if g.Bool(1, 4) {
			r, _ = padRec(r, text, g.Range(200, 5000))
		}
		return sent{v: &r, new: func() interface{} { return new(Rec) }, eq: func(x interface{}) bool { return eqRecLoose(x.(*Rec), &r) }}
	case 1:
		v, _ := genRedo(g, 1, true)
		return sent{v: v, new: func() interface{} { return new(redo) }, eq: func(x interface{}) bool { return reflect.DeepEqual(x, v) }}
	case 2:
		v, _ := genLine(g, id, true)
		return sent{v: v, new: func() interface{} { return new(gentypes.Line) }, eq: func(x interface{}) bool { return equalTo(x, v) }}
	default:
		var b strings.Builder
		var v interface{} = map[string]interface{}{"id": float64(id), "v": genAny(&b, g, 2, false)}
		return sent{v: v, new: func() interface{} { return new(interface{}) }, eq: func(x interface{}) bool { return reflect.DeepEqual(*x.(*interface{}), v) }}
	}
}

func setupC05(c *core.Ctx) {
	g := c.Gen
	pipes := 1
	if g.Bool(1, 4) {
		pipes = 2
	}
	clear(tctx[:])
	for i := 0; i < 2*pipes; i++ {
		newTk(c, i).scribble = g.Bool(1, 3)
	}
	for k := 0; k < pipes; k++ {
		n := g.Range(1, 8)
		same := g.Bool(1, 2)
		recs := make([]sent, n)
		for i := range recs {
			recs[i] = genSent(g, k*100+i, same)
			if i > 0 && g.Bool(1, 10) {
				recs[i] = recs[i-1]
			}
			if g.Bool(1, 10) {
				recs[i].before = genEV(g, k*100+i, 100)
				if g.Bool(1, 3) {
					recs[i].before = widen(g, recs[i].before)
				}
				core.Hit(fEncodeErr)
			}
		}
		p := newPipe(c, []int{1, 7, 64, 1000, 5000}[g.N(5)])
		if p.max == 1 && len(recs) > 3 {
			recs = recs[:3]
		}
		n = len(recs)
		p.chunky = g.Bool(1, 2)
		cfg := streamCfg{bufsize: []int{0, 16, 100}[g.N(3)]}
		end := g.Pick(3, 2, 1, 2) // clean close, death with error, death seen as end of file, consumer leaves
		leave := -1
		switch end {
		case 1, 2:
			p.cutAt = g.Range(1, 200*n)
		case 3:
			leave = g.N(n)
		}
		c.Describe("pipe %d: %d records, capacity %d, chunky %v, ending %d, cut at %d, consumer leaves after %d", k, n, p.max, p.chunky, end, p.cutAt, leave)
		for i := range recs {
			c.Describe("  record %d (failing before: %v): %s", i, recs[i].before.desc, short(recs[i].v))
		}
		k := k
		ends := make([]int, 0, n) // byte offset after each record; owned by the producer until it closes
		died := false
		c.Go(fmt.Sprintf("producer%d", k), func() {
			e := unjson.NewLineEncoder(p)
			for i := range recs {
				if o := recs[i].before; o.bad {
					total := p.total
					if err := e.Encode(o.v); err == nil || o.err2(err) || p.total != total {
						c.Sim.Fail("failure hidden", "pipe %d before record %d: a value that cannot be encoded (%s): error %v, %d bytes sent", k, i, o.desc, err, p.total-total)
					}
				}
				err := e.Encode(recs[i].v)
				simrt.Note("encode %d: %v", i, err)
				if errors.Is(err, io.ErrClosedPipe) {
					if leave < 0 {
						c.Sim.Fail("made-up error", "pipe %d: producer was told the pipe is closed, but the consumer never left", k)
					}
					core.Hit(fGone)
					return
				}
				if errors.Is(err, errCut) {
					died = true
					if end == 1 {
						p.closeWrite(errDied)
					} else {
						p.closeWrite(io.EOF)
					}
					return
				}
				if err != nil {
					c.Sim.Fail("encode failed", "pipe %d record %d: %v", k, i, err)
				}
				ends = append(ends, p.total)
			}
			p.closeWrite(io.EOF)
		})
		c.Go(fmt.Sprintf("consumer%d", k), func() {
			defer p.closeRead()
			d := newDecoder(c, p, cfg)
			got := 0
			var vals []interface{}
			var final error
			for {
				if got == leave {
					return
				}
				var v interface{} = new(interface{})
				if got < n {
					v = recs[got].new()
				}
				err := d.Decode(v)
				simrt.Note("decode: %v", err)
				if err != nil {
					final = err
					break
				}
				if got >= n {
					c.Sim.Fail("not a prefix", "pipe %d: record %d received as %s, sent nothing", k, got, short(v))
				}
				if !recs[got].eq(v) {
					c.Sim.Fail("not a prefix", "pipe %d: record %d received as %s, sent %s", k, got, short(v), short(recs[got].v))
				}
				vals = append(vals, v)
				got++
			}
			for i, v := range vals {
				if !recs[i].eq(v) {
					c.Sim.Fail("record changed later", "pipe %d: record %d changed after it was received: %s, sent %s", k, i, short(v), short(recs[i].v))
				}
				scrub(v)
			}
			// the producer is done: closeWrite happened before the end was seen
			if !died {
				if final != io.EOF || got != n {
					c.Sim.Fail("record lost", "pipe %d: %d of %d records received, then %v", k, got, n, final)
				}
				return
			}
			if got < len(ends) {
				c.Sim.Fail("record lost", "pipe %d: %d of %d completely sent records received, then %v", k, got, len(ends), final)
			}
			torn := p.total
			if len(ends) > 0 {
				torn -= ends[len(ends)-1]
			}
			// a record cut exactly before its line break is complete
			if got > len(ends)+1 {
				c.Sim.Fail("made-up record", "pipe %d: %d records received, %d sent", k, got, len(ends))
			}
			if end == 1 {
				if !errors.Is(final, errDied) {
					c.Sim.Fail("error lost", "pipe %d: producer died with %d bytes of a record sent, consumer saw %v", k, torn, final)
				}
			} else if torn > 0 && got == len(ends) && errors.Is(final, io.EOF) {
				c.Sim.Fail("torn record ignored", "pipe %d: %d bytes of a torn record were sent, consumer saw a clean end", k, torn)
			}
			if err := d.Decode(new(interface{})); err == nil {
				c.Sim.Fail("made-up record", "pipe %d: a record after the end", k)
			}
		})
	}
}

// eqRecLoose compares records ignoring the difference of nil and empty lists.
func eqRecLoose(a, b *Rec) bool {
	x, y := *a, *b
	if len(x.L) == 0 && len(y.L) == 0 {
		x.L, y.L = nil, nil
	}
	if len(x.Q) == 0 && len(y.Q) == 0 {
		x.Q, y.Q = nil, nil
	}
	if len(x.M) == 0 && len(y.M) == 0 {
		x.M, y.M = nil, nil
	}
	return reflect.DeepEqual(x, y)
}
