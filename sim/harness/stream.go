package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"sort"
	"strings"
	"syscall"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/unjson"
	"github.com/alxarch/njson/verifsim/core"
	"github.com/alxarch/njson/verifsim/gentypes"
	"github.com/alxarch/njson/verifsim/simrt"
)

var (
	fEmptyRead  = core.Fault("reader: empty read")
	fSplitRead  = core.Fault("reader: record split across reads")
	fDataEOF    = core.Fault("reader: data together with EOF")
	fReadErr    = core.Fault("reader: transient error")
	fReadErrD   = core.Fault("reader: data together with error")
	fReadPerm   = core.Fault("reader: permanent error")
	fReadDirty  = core.Fault("reader: scratch bytes past n")
	fBadLine    = core.Fault("stream: bad line")
	fUnterm     = core.Fault("stream: last line unterminated")
	fCRLF       = core.Fault("stream: CRLF line end")
	pBoundary   = core.Probe("stream: record length next to buffer size")
	pLong       = core.Probe("stream: record longer than 64 kB")
	pMany       = core.Probe("stream: more than 100 lines")
	pMixed      = core.Probe("stream: targets of different types")
	pSource     = core.Probe("stream: read from a buffer or a started reader")
	pTwice      = core.Probe("stream: the same line twice")
	pNested     = core.Probe("stream: deeply nested or very many values")
	fDeep       = core.Fault("line: millions of brackets")
	fStall      = core.Fault("reader: stall (many empty reads)")
	pMidErr     = core.Probe("stream: read error inside a record")
	pEdgeErr    = core.Probe("stream: read error between records")
	fWriteErr   = core.Fault("writer: error")
	fWriteShort = core.Fault("writer: short write with error")
	fWriteShrtN = core.Fault("writer: short write without error")
	fEncodeErr  = core.Fault("value: fails to encode")
	pNewlines   = core.Probe("value: encodes itself with line breaks")
)

// simReader is a reader whose fragmentation and faults the simulator decides.
type simReader struct {
	c       *core.Ctx
	data    []byte
	pos     int
	mode    int
	empties int // percent
	dataEOF bool
	dirty   bool
	faults  []rfault
	perm    error
	run     int
	errs    int   // errors delivered
	stalls  []int // offsets where it stalls
	stallN  int
	stalled int // stalls that happened
}

type rfault struct {
	at   int
	err  error
	with bool // delivered together with the preceding data
}

func (r *simReader) draw(g *src) *simReader {
	r.mode = g.N(6)
	if len(r.data) > 30000 {
		// no byte by byte reading of long records
		r.mode = []int{0, 3, 5, 6}[g.N(4)]
		r.c.Sim.Cfg.MaxSteps += int64(len(r.data)) * 60
	}
	if g.Bool(1, 3) {
		r.empties = g.Range(5, 60)
	}
	r.dataEOF = g.Bool(1, 2)
	r.dirty = g.Bool(1, 2)
	return r
}

func (r *simReader) Read(p []byte) (int, error) {
	simrt.Yield()
	if len(p) == 0 {
		return 0, nil
	}
	env := r.c.Env
	limit := len(r.data)
	if len(r.faults) > 0 {
		f := r.faults[0]
		if f.at <= r.pos {
			r.faults = r.faults[1:]
			r.errs++
			core.Hit(fReadErr)
			simrt.Note("reader: error %v at offset %d", f.err, r.pos)
			return 0, f.err
		}
		limit = f.at
	}
	if len(r.stalls) > 0 && r.stalls[0] <= len(r.data) {
		if r.stalls[0] <= r.pos {
			if r.stallN++; r.stallN == 1 {
				core.Hit(fStall)
				r.stalled++
				simrt.Note("reader: stalls at offset %d", r.pos)
			}
			if r.stallN > 100+r.stalls[0]%60 {
				r.stalls, r.stallN = r.stalls[1:], 0
			}
			return 0, nil
		}
		limit = min(limit, r.stalls[0])
	}
	if r.pos >= len(r.data) {
		if r.perm != nil {
			core.Hit(fReadPerm)
			return 0, r.perm
		}
		return 0, io.EOF
	}
	if r.empties > 0 && r.run < 20 && env.Bool(r.empties, 100) {
		r.run++
		core.Hit(fEmptyRead)
		return 0, nil
	}
	r.run = 0
	n := min(len(p), limit-r.pos)
	switch r.mode {
	case 1:
		n = 1
	case 2:
		n = min(n, 1+env.N(8))
	case 3:
		n = min(n, 1+env.N(n))
	case 4:
		n = min(n, 1+env.N(200))
	case 5:
		if env.Bool(1, 2) {
			n = min(n, 1+env.N(n))
		}
	case 6:
		n = min(n, 1000+env.N(5000))
	}
	copy(p, r.data[r.pos:r.pos+n])
	if r.dirty && n < len(p) {
		q := p[n:min(len(p), n+64)]
		for i := range q {
			q[i] = "\n{\"junk"[i%7]
		}
		core.Hit(fReadDirty)
	}
	r.pos += n
	if r.pos < len(r.data) && r.data[r.pos-1] != '\n' {
		core.Hit(fSplitRead)
	}
	if len(r.faults) > 0 && r.faults[0].at == r.pos && r.faults[0].with {
		f := r.faults[0]
		r.faults = r.faults[1:]
		r.errs++
		core.Hit(fReadErrD)
		simrt.Note("reader: %d bytes and error %v at offset %d", n, f.err, r.pos)
		return n, f.err
	}
	if r.pos == len(r.data) && r.perm == nil && r.dataEOF && len(r.faults) == 0 {
		core.Hit(fDataEOF)
		return n, io.EOF
	}
	simrt.Note("reader: %d bytes, now at offset %d of %d", n, r.pos, len(r.data))
	return n, nil
}

// item is one line of a stream.
type item struct {
	text   string
	rec    *Rec        // typed value, or
	any    interface{} // generic value
	flat   *Flat
	line   *gentypes.Line
	bad    bool
	target int
}

// streamCfg is how a stream is read.
type streamCfg struct {
	many    bool // of many short records
	target  int  // 0 Rec, 1 interface{}, 2 Rec with explicit decoder, 3 custom node unmarshaler, 4 custom JSON unmarshaler, 5 one Flat for all lines, 6 and 7 one Line or lineR for all lines
	mixed   bool // targets differ from line to line
	kind    int  // of reader, see source
	flat    *Flat
	line    *gentypes.Line
	bufsize int  // 0: the decoder's own buffer
	edit    bool // node unmarshalers change the node
	lax     bool // node unmarshalers make do with nodes they cannot read
}

// catchNode is decoded by a custom node unmarshaler, catchJSON by a custom JSON unmarshaler.
type catchNode struct {
	b    string
	edit bool // changes the node afterwards
	lax  bool // makes do with a node that cannot be read
}

func (c *catchNode) UnmarshalNodeJSON(n njson.Node) error {
	b, err := n.AppendJSON(nil)
	if err != nil {
		if c.lax {
			c.b = "no node"
			return nil
		}
		return err
	}
	c.b = string(b)
	if c.edit {
		if d := n.Document(); d != nil {
			x := d.Text("an edit of the unmarshaler")
			n.Set("id", x)
			a := d.Array()
			a.Append(x)
			n.Set("edited", a)
			n.Append(x)
		}
	}
	if strings.Contains(c.b, rejectMark) {
		return errRejected
	}
	return nil
}

type catchJSON struct{ b string }

func (c *catchJSON) UnmarshalJSON(b []byte) error {
	c.b = string(b)
	if strings.Contains(c.b, rejectMark) {
		return errRejected
	}
	return nil
}

const rejectMark = "reject-this-record"

var errRejected = errors.New("rejected by custom unmarshaler")

func genCfg(g *src) streamCfg {
	cfg := streamCfg{
		target:  g.N(8),
		bufsize: []int{0, 16, 17, 32, 64, 100, 256, 1024, 4096, 8192}[g.N(10)],
		flat:    &Flat{9, "stale", 1, true},
		line:    &gentypes.Line{S: "stale", L: []string{"stale", "stale"}, N: []int{8, 9}, LI: []gentypes.InL{{N: 7, T: "stale"}}},
		edit:    g.Bool(1, 2),
		lax:     g.Bool(1, 2),
	}
	if cfg.target != 2 && g.Bool(1, 4) {
		cfg.mixed = true
		core.Hit(pMixed)
	}
	if g.Bool(1, 8) {
		cfg.kind = 1 + g.N(7)
		core.Hit(pSource)
	}
	return cfg
}

// Flat is a target that is used for line after line.
type Flat struct {
	ID int     `json:"id"`
	S  string  `json:"s"`
	F  float64 `json:"f"`
	B  bool    `json:"b"`
}

// draw draws the target of a line.
func (cfg streamCfg) draw(g *src) streamCfg {
	if cfg.mixed {
		cfg.target = []int{0, 1, 3, 4, 5, 6, 7}[g.N(7)]
	}
	return cfg
}

// byteSource is a reader with all the methods a reader may have.
type byteSource struct{ *bytes.Reader }

// source is r, or another kind of reader of the same data.
func (cfg streamCfg) source(r *simReader) io.Reader {
	data := r.data
	switch cfg.kind {
	case 1:
		return bytes.NewBuffer(append([]byte(nil), data...))
	case 2:
		return bytes.NewReader(data)
	case 3:
		return strings.NewReader(string(data))
	case 4:
		return byteSource{bytes.NewReader(data)}
	case 5:
		// the first line was read by someone else
		r.data = append([]byte("header: [1, 2\n"), data...)
		br := bufio.NewReaderSize(r, 64)
		if s, err := br.ReadString('\n'); s != "header: [1, 2\n" || err != nil {
			r.c.Sim.Fail("harness", "header %q %v", s, err)
		}
		return br
	case 6:
		return io.MultiReader(bytes.NewReader(data[:len(data)/3]), &simReader{c: r.c, data: data[len(data)/3:], mode: r.mode})
	case 7:
		return io.LimitReader(io.MultiReader(r, strings.NewReader("{}\nnot part of the stream\n")), int64(len(data)))
	}
	return r
}

// genItem generates one good line.
func genItem(g *src, cfg streamCfg, id int) item {
	cfg = cfg.draw(g)
	it := genItemOf(g, cfg, id)
	it.target = cfg.target
	return it
}

func genItemOf(g *src, cfg streamCfg, id int) item {
	spaces := g.Bool(1, 3)
	if cfg.target == 1 && !cfg.many && g.Bool(1, 60) {
		return nested(g)
	}
	if cfg.target == 1 && g.Bool(1, 2) {
		var b strings.Builder
		v := genAny(&b, g, 3, spaces)
		return item{text: b.String(), any: v}
	}
	if cfg.target == 3 || cfg.target == 4 {
		spaces = false
	}
	if cfg.target == 5 {
		if g.Bool(1, 6) {
			return item{text: fmt.Sprintf(`{"b":null,"f":null,"s":null,"id":%d}`, id), flat: &Flat{ID: id}}
		}
		f := Flat{id, genStr(g), genFloat(g), g.Bool(1, 2)}
		var b strings.Builder
		order := g.N(2)
		b.WriteString(fmt.Sprintf(`{"id":%d,"s":`, id))
		quote(&b, f.S, g)
		if order == 0 {
			fmt.Fprintf(&b, `,"b":%v,"f":%s}`, f.B, fstr(f.F))
		} else {
			fmt.Fprintf(&b, `, "x":[{"id":3}],"f":%s,"b":%v }`, fstr(f.F), f.B)
		}
		return item{text: b.String(), flat: &f}
	}
	if cfg.target == 6 || cfg.target == 7 {
		v, text := genLine(g, id, false)
		return item{text: text, line: v}
	}
	r, text := genRec(g, id, spaces)
	if !cfg.many && g.Bool(1, 2) {
		bs := cfg.bufsize
		if bs == 0 {
			bs = 4096
		}
		want := bs*(1+g.N(3)) + g.Range(0, 6) - 3
		if want < 9000 && want > len(text)+10 {
			r, text = padRec(r, text, want)
			core.Hit(pBoundary)
		}
	}
	if !cfg.many && g.Bool(1, 250) {
		want := 66000 + g.N(100000)
		switch g.N(12) {
		case 0, 1:
			want = 1<<20 + g.N(1<<20)
		case 2:
			want = 1<<24 + g.N(1<<20)
		}
		r, text = padRec(r, text, want)
		core.Hit(pLong)
	}
	it := item{text: text, rec: &r}
	return it
}

// nested is a value of many arrays and objects, within each other or in a row.
func nested(g *src) item {
	if g.Bool(1, 3) {
		n := 10000 + g.N(3000)
		l := make([]interface{}, n)
		t, obj := ",[]", g.Bool(1, 2)
		if obj {
			t = ",{}"
		}
		for i := range l {
			if l[i] = []interface{}{}; obj {
				l[i] = map[string]interface{}{}
			}
		}
		core.Hit(pNested)
		return item{text: "[" + strings.Repeat(t, n)[1:] + "]", any: l}
	}
	n := []int{100, 1000, 3000, 5000}[g.N(4)] + g.N(100)
	var v interface{} = 7.0
	open, end := make([]byte, 0, 3*n), make([]byte, 0, n)
	var kinds []bool
	for i := 0; i < n; i++ {
		kinds = append(kinds, g.Bool(1, 3))
		if kinds[i] {
			open = append(open, `{"":`...)
		} else {
			open = append(open, '[')
		}
	}
	for i := n - 1; i >= 0; i-- {
		if kinds[i] {
			end, v = append(end, '}'), map[string]interface{}{"": v}
		} else {
			end, v = append(end, ']'), []interface{}{v}
		}
	}
	core.Hit(pNested)
	return item{text: string(open) + "7" + string(end), any: v}
}

func (it item) generic() interface{} {
	if it.rec == nil {
		return it.any
	}
	return nil
}

// decodeOne decodes the next record; got describes the value, eq tells whether it is it.
// For the line it, unless there is none.
func decodeOne(d *unjson.LineDecoder, cfg streamCfg, it *item) (val interface{}, err error) {
	target := cfg.target
	if it != nil {
		target = it.target
	}
	switch target {
	case 0, 2:
		r := new(Rec)
		err = d.Decode(r)
		return r, err
	case 1:
		var x interface{} = "stale"
		err = d.Decode(&x)
		return x, err
	case 3:
		r := &catchNode{edit: cfg.edit, lax: cfg.lax}
		err = d.Decode(r)
		return r, err
	case 5:
		err = d.Decode(cfg.flat)
		r := *cfg.flat
		return &r, err
	case 6:
		cfg.line.M, cfg.line.MI = nil, nil
		err = d.Decode(cfg.line)
		return copyLine(cfg.line), err
	case 7:
		cfg.line.M, cfg.line.MI = nil, nil
		err = d.Decode((*lineR)(cfg.line))
		return copyLine(cfg.line), err
	default:
		r := new(catchJSON)
		err = d.Decode(r)
		return r, err
	}
}

func matches(it item, cfg streamCfg, val interface{}) bool {
	switch it.target {
	case 5:
		return reflect.DeepEqual(val, it.flat)
	case 6, 7:
		return reflect.DeepEqual(val, it.line)
	case 0, 2:
		return reflect.DeepEqual(val, it.rec)
	case 1:
		if it.rec == nil {
			return reflect.DeepEqual(val, it.any)
		}
		return anyIsRec(val, it)
	case 3:
		return val.(*catchNode).b == it.text
	default:
		return val.(*catchJSON).b == it.text
	}
}

// anyIsRec checks the generic form of a record through its identifying fields.
func anyIsRec(val interface{}, it item) bool {
	m, ok := val.(map[string]interface{})
	if !ok {
		return false
	}
	if m["id"] != float64(it.rec.ID) {
		return false
	}
	str := func(k, want string) bool {
		if v, ok := m[k]; ok {
			return v == want
		}
		return want == ""
	}
	if !str("s", it.rec.S) || !str("pad", it.rec.Pad) {
		return false
	}
	if v, ok := m["f"]; ok && v != it.rec.F {
		return false
	}
	if v, ok := m["x"]; ok && !reflect.DeepEqual(v, it.rec.X) {
		return false
	}
	if l, ok := m["l"]; ok {
		a, ok := l.([]interface{})
		if !ok || len(a) != len(it.rec.L) {
			return false
		}
		for i := range a {
			if a[i] != it.rec.L[i] {
				return false
			}
		}
	}
	return true
}

// build joins lines; it returns the bytes and the end offset of each line (with its terminator).
func build(c *core.Ctx, items []item, ending int, unterminated bool) ([]byte, []int) {
	var b bytes.Buffer
	ends := make([]int, len(items))
	for i, it := range items {
		b.WriteString(it.text)
		if i == len(items)-1 && unterminated {
			core.Hit(fUnterm)
			if ending != 0 && c.Gen.Bool(1, 3) {
				// all of the line but its last byte
				core.Hit(fCRLF)
				b.WriteByte('\r')
			}
			ends[i] = b.Len()
			break
		}
		if ending == 1 || ending == 2 && c.Gen.Bool(1, 2) {
			core.Hit(fCRLF)
			b.WriteString("\r\n")
		} else {
			b.WriteByte('\n')
		}
		ends[i] = b.Len()
	}
	return b.Bytes(), ends
}

func newDecoder(c *core.Ctx, r io.Reader, cfg streamCfg) *unjson.LineDecoder {
	if cfg.bufsize > 0 {
		r = bufio.NewReaderSize(r, cfg.bufsize)
	}
	d := unjson.NewLineDecoder(r)
	if cfg.target == 2 {
		dec, err := unjson.NewTypeDecoder(reflect.TypeOf((*Rec)(nil)), "json")
		if err != nil {
			c.Sim.Fail("decoder", "NewTypeDecoder: %v", err)
		}
		d.Decoder = dec
	}
	return d
}

func setupC01(c *core.Ctx) {
	g := c.Gen
	streams := 1
	if g.Bool(1, 5) {
		streams = g.Range(2, 3)
	}
	for s := 0; s < streams; s++ {
		cfg := genCfg(g)
		n := g.Range(1, 10)
		if g.Bool(1, 60) {
			n, cfg.many = g.Range(100, 700), true
			core.Hit(pMany)
		}
		items := make([]item, n)
		for i := range items {
			items[i] = genItem(g, cfg, s*1000+i)
		}
		repeat(g, items)
		data, _ := build(c, items, g.N(3), g.Bool(1, 2))
		r := (&simReader{c: c, data: data}).draw(g)
		c.Describe("stream %d: %d records, %d bytes, target %d, buffer %d, fragmentation mode %d, empty reads %d%%, data+EOF %v", s, n, len(data), cfg.target, cfg.bufsize, r.mode, r.empties, r.dataEOF)
		if c.WantDesc {
			for i, it := range items {
				c.Describe("  record %d (%d bytes): %s", i, len(it.text), short(it.text))
			}
		}
		s := s
		c.Go(fmt.Sprintf("decoder%d", s), func() {
			d := newDecoder(c, cfg.source(r), cfg)
			vals := []interface{}{}
			for i, it := range items {
				v, err := decodeOne(d, cfg, &items[i])
				simrt.Note("decode %d: %v", i, err)
				if err != nil {
					c.Sim.Fail("record lost", "stream %d: decode %d of %d: error %v, want record %s", s, i, n, err, short(it.text))
				}
				if !matches(it, cfg, v) {
					c.Sim.Fail("wrong record", "stream %d: decode %d of %d: got %s, want %s", s, i, n, short(v), short(it.text))
				}
				vals = append(vals, v)
			}
			for k := 0; k < 2; k++ {
				v, err := decodeOne(d, cfg, nil)
				if err != io.EOF {
					c.Sim.Fail("no end of stream", "stream %d: after %d records: value %s, error %v, want EOF", s, n, short(v), err)
				}
			}
			for i, it := range items {
				if !matches(it, cfg, vals[i]) {
					c.Sim.Fail("record changed later", "stream %d: record %d changed after it was delivered: %s, want %s", s, i, short(vals[i]), short(it.text))
				}
				scrub(vals[i])
			}
		})
	}
}

// repeat makes some lines the same as the one before.
func repeat(g *src, items []item) {
	if !g.Bool(1, 5) {
		return
	}
	for i := 1; i < len(items); i++ {
		if g.Bool(1, 3) && !(items[i-1].bad && strings.TrimSpace(items[i-1].text) == "") {
			items[i] = items[i-1]
			core.Hit(pTwice)
		}
	}
}

type simErr struct{ n int }

// tempErr is an error that says it will go away.
type tempErr struct{ n int }

func (e *tempErr) Error() string   { return fmt.Sprintf("simulated temporary fault %d", e.n) }
func (e *tempErr) Temporary() bool { return true }
func (e *tempErr) Timeout() bool   { return true }

func (e *simErr) Error() string { return fmt.Sprintf("simulated fault %d", e.n) }

// severalStreams sets up one stream, or now and then a few of them.
func severalStreams(c *core.Ctx, setup func(c *core.Ctx, s int)) {
	streams := 1
	if c.Gen.Bool(1, 8) {
		streams = c.Gen.Range(2, 3)
	}
	for s := 0; s < streams; s++ {
		setup(c, s)
	}
}

func setupC02(c *core.Ctx) { severalStreams(c, streamC02) }

func streamC02(c *core.Ctx, s int) {
	g := c.Gen
	cfg := genCfg(g)
	n := g.Range(1, 8)
	if g.Bool(1, 100) {
		n, cfg.many = g.Range(100, 500), true
		core.Hit(pMany)
	}
	items := make([]item, n)
	for i := range items {
		items[i] = genItem(g, cfg, s*1000+i)
		if items[i].rec == nil && items[i].flat == nil && items[i].line == nil && isScalar(items[i].any) {
			// a cut number or literal could pass for another record
			items[i] = item{text: "[" + items[i].text + "]", any: []interface{}{items[i].any}, target: items[i].target}
		}
	}
	repeat(g, items)
	data, ends := build(c, items, g.N(3), g.Bool(1, 2))
	r := (&simReader{c: c, data: data}).draw(g)
	nf := g.Range(1, 4)
	if cfg.many {
		nf = g.Range(1, 60)
	}
	perm := g.Bool(1, 3)
	errs := []error{}
	at := 0
	for i := 0; i < nf; i++ {
		// place the fault inside a record, more often than between records
		if g.Bool(2, 3) {
			k := g.N(n)
			lo := 0
			if k > 0 {
				lo = ends[k-1]
			}
			at = lo + g.N(ends[k]-lo+1)
		} else {
			at = g.N(len(data) + 1)
		}
		var e error = &simErr{i}
		switch g.N(16) {
		case 0:
			e = io.ErrUnexpectedEOF
		case 1:
			e = io.ErrClosedPipe
		case 2, 3:
			e = fmt.Errorf("wrapped: %w", io.EOF)
		case 4:
			e = io.ErrShortBuffer
		case 5, 6:
			e = &tempErr{i}
		case 7:
			e = os.ErrDeadlineExceeded
		case 8:
			e = context.Canceled
		case 9:
			e = syscall.EAGAIN
		case 10:
			e = &os.PathError{Op: "read", Path: "x", Err: syscall.EINTR}
		}
		r.faults = append(r.faults, rfault{at: at, err: e, with: g.Bool(1, 2)})
	}
	sortFaults(r.faults)
	if g.Bool(1, 12) {
		for i := g.Range(1, 2); i > 0; i-- {
			r.stalls = append(r.stalls, g.N(len(data)+1))
		}
		sort.Ints(r.stalls)
		c.Describe("stalls at %v", r.stalls)
	}
	for _, f := range r.faults {
		errs = append(errs, f.err)
		mid := true
		for _, e := range ends {
			mid = mid && f.at != e
		}
		if mid && f.at != 0 {
			core.Hit(pMidErr)
		} else {
			core.Hit(pEdgeErr)
		}
	}
	whole := n
	if perm {
		// the last fault is for good: nothing after it is ever received
		last := r.faults[len(r.faults)-1]
		r.perm = last.err
		r.data = r.data[:last.at]
		whole = 0
		for whole < n && ends[whole] <= last.at && data[ends[whole]-1] == '\n' {
			whole++
		}
	}
	c.Describe("stream %d: %d records (%d whole), %d bytes, target %d, buffer %d, mode %d, permanent %v", s, n, whole, len(r.data), cfg.target, cfg.bufsize, r.mode, perm)
	for i, f := range r.faults {
		c.Describe("  fault %d: offset %d, with data %v: %v", i, f.at, f.with, f.err)
	}
	if c.WantDesc {
		for i, it := range items {
			c.Describe("  record %d ending at %d: %s", i, ends[i], short(it.text))
		}
	}
	c.Go(fmt.Sprintf("decoder%d", s), func() {
		d := newDecoder(c, r, cfg)
		next, nerr, stalled := 0, 0, 0
		var got []interface{}
		for calls := 0; ; calls++ {
			if calls > n+nf+3*len(r.stalls)+10 {
				c.Sim.Fail("no progress", "%d calls, %d records and %d errors delivered", calls, next, nerr)
			}
			var tgt *item
			if next < n {
				tgt = &items[next]
			}
			v, err := decodeOne(d, cfg, tgt)
			simrt.Note("decode: %v", err)
			if err == io.EOF {
				break
			}
			if errors.Is(err, io.ErrNoProgress) && stalled < 3*r.stalled {
				// may be reported, or waited for
				stalled++
				continue
			}
			if err != nil {
				if nerr < len(errs) && errors.Is(err, errs[nerr]) {
					nerr++
					continue
				}
				if perm && nerr == len(errs) && errors.Is(err, errs[nerr-1]) {
					nerr++ // the permanent error repeats
					break
				}
				c.Sim.Fail("wrong error", "call %d: error %v; %d records and %d of %d read errors delivered before", calls, err, next, nerr, len(errs))
			}
			if next >= whole {
				c.Sim.Fail("made-up record", "call %d: record %s after all %d whole records", calls, short(v), whole)
			}
			if !matches(items[next], cfg, v) {
				c.Sim.Fail("damaged record", "call %d: got %s, want record %d: %s", calls, short(v), next, short(items[next].text))
			}
			got = append(got, v)
			next++
		}
		for i, v := range got {
			if !matches(items[i], cfg, v) {
				c.Sim.Fail("record changed later", "record %d changed after it was delivered: %s, want %s", i, short(v), short(items[i].text))
			}
			scrub(v)
		}
		if next != whole {
			c.Sim.Fail("record lost", "%d of %d records delivered, then end of stream", next, whole)
		}
		if nerr < len(errs) {
			c.Sim.Fail("error lost", "%d of %d read errors reported", nerr, len(errs))
		}
		if perm && nerr == len(errs) {
			c.Sim.Fail("error lost", "end of stream reported although the reader failed for good with %v", r.perm)
		}
	})
}

func isScalar(v interface{}) bool {
	switch v.(type) {
	case map[string]interface{}, []interface{}:
		return false
	}
	return true
}

func sortFaults(f []rfault) {
	for i := 1; i < len(f); i++ {
		for j := i; j > 0 && f[j].at < f[j-1].at; j-- {
			f[j], f[j-1] = f[j-1], f[j]
		}
	}
}

// badLine generates a line whose decoding must fail for the target.
func badLine(g *src, cfg streamCfg, id int) string {
	_, good := genRec(g, 90000+id, false)
	if !cfg.many && g.Bool(1, 3) {
		r, t := genRec(g, 90000+id, false)
		bs := cfg.bufsize
		if bs == 0 {
			bs = 4096
		}
		_, good = padRec(r, t, min(9000, bs*(1+g.N(2))+g.Range(0, 4)-2))
	}
	kinds := 8
	switch cfg.target {
	case 0, 2:
		kinds = 13
	case 5:
		kinds = 11
	case 6, 7:
		kinds = 12
	case 3, 4:
		kinds = 10
	}
	if !cfg.many && g.Bool(1, 300) {
		core.Hit(fDeep)
		n := 5 << 20
		switch g.N(4) {
		case 0:
			return strings.Repeat(`{"id":`, n/4)
		case 1:
			return strings.Repeat("[", n) + "}"
		case 2:
			return strings.Repeat(`[{"a":`, n/2) + "1"
		}
		return strings.Repeat("[", n)
	}
	if g.Bool(1, 8) { // garbage before
		return []string{"#", "//", "\x1e", ",", "data: ", ";", "\x00", "[", "{", "-", "/**/", "1", "\"", ")]}'", "\x7f", ":", "=", "'", "null,"}[g.N(19)] + good
	}
	switch g.N(kinds) {
	case 0: // cut short
		return good[:1+g.N(len(good)-1)]
	case 1: // extra data
		return good + []string{" x", ",", " ,", "]", "}", ":", "\"", " 1", " null", "{}", " []", "[", "{", " //", "\\", ".", "-", "\x00", "e", "\t,\t"}[g.N(20)]
	case 2:
		return good + good
	case 3:
		return good + ",1"
	case 4:
		return good[1:]
	case 5:
		return `{"id":}`
	case 6:
		return `{"id":1,,"s":"x"}`
	case 7:
		return []string{"nope", "}", "]", `{"a":tru}`, `[1,2`, `{"a"`, `"abc`, "tru"}[g.N(8)]
	case 8: // of a type the target cannot hold / rejected by the unmarshaler
		if cfg.target == 3 || cfg.target == 4 {
			return good[:len(good)-1] + `,"r":"` + rejectMark + `"}`
		}
		return `{"id":"not a number"}`
	case 9:
		if cfg.target == 3 || cfg.target == 4 {
			return `["` + rejectMark + `"]`
		}
		return `[1,2,3]`
	case 10:
		return `"text"`
	case 11:
		if cfg.target > 5 {
			return []string{`{"id":7,"s8":300}`, `{"s8":-129}`, `{"u":4294967296,"id":1}`, `{"u":-1}`, `{"id":9223372036854775808}`, `{"id":1.5}`,
				`{"s":5}`, `{"s":[]}`, `{"s":true}`, `{"l":["a",1]}`, `{"l":{}}`, `{"n":[1,"x"]}`, `{"li":[{"n":1},{"n":"x"}]}`, `{"p":[]}`, `{"lp":[null,4]}`,
				`{"i":{"t":{}}}`, `{"m":{"a":"b"}}`, `{"m":[]}`, `{"mi":{"a":3}}`, `{"f4":1e39}`, `{"f4":-4e38}`, `{"b":1}`, `{"f":"x"}`, `{"nn":[[1],2]}`}[g.N(24)]
		}
		// values the fields cannot hold, rejected by a custom unmarshaler of a field or key
		return []string{`{"id":7,"s8":300}`, `{"s8":-129}`, `{"u":4294967296,"id":1}`, `{"u":-1}`, `{"i":9223372036854775808}`,
			`{"v":18446744073709551616}`, `{"i":1.5}`, `{"c":"no tilde"}`, `{"d":""}`, `{"c":3}`, `{"q":[{"n":1},{"n":"x"}]}`, `{"a":[1,"2"]}`,
			`{"m":{"a":"b","c":3}}`, `{"l":["a",1]}`, `{"p":[]}`, `{"f4":1e39}`, `{"e":"x"}`, `{"k":{"a":"b"}}`, `{"b":1}`}[g.N(19)]
	default:
		return `{"id":3,"f":"x","s":"kept"}`
	}
}

func setupC03(c *core.Ctx) { severalStreams(c, streamC03) }

func streamC03(c *core.Ctx, s int) {
	g := c.Gen
	cfg := genCfg(g)
	n, bad := g.Range(2, 10), 2
	if g.Bool(1, 80) {
		n, bad, cfg.many = g.Range(100, 600), 1+g.N(5), true
		core.Hit(pMany)
	}
	items := make([]item, n)
	bads := 0
	for i := range items {
		if g.Bool(bad, 5) {
			t := cfg.draw(g)
			items[i] = item{text: badLine(g, t, s*1000+i), bad: true, target: t.target}
			if i < n-1 && g.Bool(1, 12) {
				items[i].text = []string{"", " ", "\t", "   "}[g.N(4)]
			}
			core.Hit(fBadLine)
			bads++
		} else {
			items[i] = genItem(g, cfg, s*1000+i)
		}
	}
	repeat(g, items)
	data, _ := build(c, items, g.N(3), g.Bool(1, 2))
	r := (&simReader{c: c, data: data}).draw(g)
	c.Describe("stream %d: %d lines, %d bad, target %d, buffer %d, mode %d", s, n, bads, cfg.target, cfg.bufsize, r.mode)
	if c.WantDesc {
		for i, it := range items {
			c.Describe("  line %d bad=%v: %s", i, it.bad, short(it.text))
		}
	}
	c.Go(fmt.Sprintf("decoder%d", s), func() {
		d := newDecoder(c, cfg.source(r), cfg)
		vals := make([]interface{}, n)
		for i, it := range items {
			v, err := decodeOne(d, cfg, &items[i])
			simrt.Note("decode %d: %v", i, err)
			if it.bad {
				if err == nil {
					c.Sim.Fail("bad line accepted", "line %d %s accepted as %s", i, short(it.text), short(v))
				}
				if errors.Is(err, io.EOF) {
					c.Sim.Fail("bad line ends stream", "line %d %s reported as end of stream", i, short(it.text))
				}
				continue
			}
			if err != nil {
				c.Sim.Fail("good line failed", "line %d %s: error %v", i, short(it.text), err)
			}
			if !matches(it, cfg, v) {
				c.Sim.Fail("wrong record", "line %d: got %s, want %s", i, short(v), short(it.text))
			}
			vals[i] = v
		}
		if v, err := decodeOne(d, cfg, nil); err != io.EOF {
			c.Sim.Fail("no end of stream", "after all lines: value %s, error %v, want EOF", short(v), err)
		}
		for i, it := range items {
			if !it.bad && !matches(it, cfg, vals[i]) {
				c.Sim.Fail("record changed later", "record %d: %s, want %s", i, short(vals[i]), short(it.text))
			}
			if !it.bad {
				scrub(vals[i])
			}
		}
	})
}
