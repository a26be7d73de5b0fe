package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime/debug"
	"strings"
	"unsafe"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/unjson"
	"github.com/alxarch/njson/verifsim/core"
	"github.com/alxarch/njson/verifsim/simrt"
)

// This file generates library calls that run user code (marshalers,
// unmarshalers, appenders, omit methods, readers, writers) and checks their
// results against values known by construction.

const (
	actNone = iota
	actFail
	actPanic
	actGoexit
)

// pact is what one callback does besides its job.
type pact struct {
	stalls int
	kind   int
	err    int // of the error it fails with
	nest   *call
}

// failure is the error user code fails with.
func (a pact) failure(id int) error {
	switch a.err {
	case 1:
		return io.EOF
	case 2:
		return io.ErrUnexpectedEOF
	case 3:
		// the error of a call user code made itself
		d := new(njson.Document)
		_, _, err := d.Parse(`{"torn":[1,`)
		return err
	case 4:
		d := new(njson.Document)
		_, _, err := d.Parse(`{"bad":}`)
		return err
	case 5:
		return fmt.Errorf("user code %d: %w", id, io.EOF)
	case 6:
		return &tempErr{id}
	}
	return &simErr{id}
}

// seen is what an unmarshaler was given.
type seen struct {
	kind string // json, text, node
	text string
}

// tk is the state of a simulated task.
type tk struct {
	c        *core.Ctx
	id       int
	n        int
	plan     []pact
	fired    error
	panicked interface{}
	exiting  bool
	seen     []seen
	depth    int
	where    string
	kept     []njson.Node
	keep     bool
	scribble bool // unmarshalers overwrite their bytes before they return
}

// call is one library call together with the check of its result.
type call struct {
	desc string
	run  func(t *tk)
}

// tctx is indexed by task number + 1; entry 0 is for calls made outside tasks.
var tctx [40]*tk

func curTk() *tk { return tctx[simrt.Cur()+1] }

func newTk(c *core.Ctx, id int) *tk {
	t := &tk{c: c, id: id}
	tctx[id+1] = t
	return t
}

type planPanic struct{ n int }

var (
	fCbFail   = core.Fault("callback: error")
	fCbPanic  = core.Fault("callback: panic")
	fCbGoexit = core.Fault("callback: task terminated")
	fCbStall  = core.Probe("callback: blocked while other tasks ran")
	fCbNest   = core.Probe("callback: nested library call")
)

func (t *tk) fail(class, format string, args ...interface{}) {
	t.c.Fail(class, "task %d: %s: %s", t.id, t.where, fmt.Sprintf(format, args...))
}

// callback is the body of every piece of user code. data, if any, must not
// change while it runs.
func (t *tk) callback(kind string, data []byte) error {
	i := t.n
	t.n++
	simrt.Yield()
	if i >= len(t.plan) {
		return nil
	}
	a := t.plan[i]
	var before string
	if data != nil {
		before = string(data)
	}
	for k := 0; k < a.stalls; k++ {
		core.Hit(fCbStall)
		simrt.Stall()
	}
	if a.nest != nil && t.depth < 2 {
		core.Hit(fCbNest)
		t.nested(a.nest)
	}
	if data != nil && string(data) != before {
		t.fail("bytes changed", "%s callback %d: its bytes changed from %s to %s while it ran", kind, i, short(before), short(data))
	}
	switch a.kind {
	case actFail:
		if kind == "Omit" {
			return nil // cannot fail
		}
		core.Hit(fCbFail)
		err := a.failure(t.id*1000 + i)
		if err == nil {
			t.fail("harness", "no error %d", a.err)
		}
		if t.fired == nil {
			t.fired = err
		}
		return err
	case actPanic:
		core.Hit(fCbPanic)
		t.panicked = planPanic{i}
		panic(t.panicked)
	case actGoexit:
		core.Hit(fCbGoexit)
		t.exit()
	}
	return nil
}

// exit terminates the task; outside tasks it panics.
func (t *tk) exit() {
	if t.id < 0 {
		t.panicked = planPanic{-3}
		panic(t.panicked)
	}
	t.exiting = true
	simrt.Goexit()
}

func (t *tk) nested(k *call) {
	save := *t
	t.n, t.plan, t.fired, t.seen, t.panicked, t.keep = 0, nil, nil, nil, nil, false
	t.depth++
	t.where = save.where + " / nested " + k.desc
	k.run(t)
	kept := t.kept
	*t = save
	t.kept = kept
}

// do makes a call under a plan. It reports whether the call panicked as planned.
func (t *tk) do(k call, plan []pact) (panicked bool) {
	t.n, t.plan, t.fired, t.seen, t.panicked, t.depth, t.where = 0, plan, nil, nil, nil, 0, k.desc
	simrt.Note("task %d: %s", t.id, k.desc)
	returned := false
	func() {
		defer func() {
			if returned {
				return
			}
			v := recover()
			if v == nil {
				return // Goexit or abort
			}
			core.Rethrow(v)
			if t.panicked == nil || v != t.panicked {
				t.fail("panic", "unexpected panic %v\n%s", v, simrt.Stack())
			}
			panicked = true
		}()
		k.run(t)
		returned = true
	}()
	return panicked
}

// verdict checks the error of a call; it reports whether the call succeeded.
func (t *tk) verdict(err error) bool {
	if t.panicked != nil {
		t.fail("panic swallowed", "user code panicked, but the call returned (error %v)", err)
	}
	if t.fired != nil {
		if err == nil {
			t.fail("failure hidden", "user code failed with %v, the call returned no error", t.fired)
		}
		if err != t.fired && !errors.Is(err, t.fired) {
			t.fail("wrong error", "user code failed with %v, the call returned %v", t.fired, err)
		}
		return false
	}
	if err != nil {
		t.fail("made-up error", "%v", err)
	}
	return true
}

// ---- marshalers. They carry the JSON they stand for.

type eJ struct{ Text string }

func (e eJ) MarshalJSON() ([]byte, error) {
	b := append([]byte(nil), e.Text...)
	if err := curTk().callback("MarshalJSON", nil); err != nil {
		return b[:len(b)/2], err
	}
	return b, nil
}

type eA struct{ Text string }

func (e eA) AppendJSON(dst []byte) ([]byte, error) {
	n := len(dst)
	prefix := string(dst)
	dst = append(dst, e.Text[:len(e.Text)/2]...)
	if err := curTk().callback("AppendJSON", nil); err != nil {
		return dst, err
	}
	dst = append(dst, e.Text[len(e.Text)/2:]...)
	if string(dst[:n]) != prefix || string(dst[n:]) != e.Text {
		curTk().fail("bytes changed", "the buffer given to AppendJSON changed while it ran: %s, want %s", short(dst), short(prefix+e.Text))
	}
	return dst, nil
}

type eT struct{ Text string }

func (e eT) MarshalText() ([]byte, error) {
	b := append([]byte(nil), e.Text...)
	if err := curTk().callback("MarshalText", nil); err != nil {
		return nil, err
	}
	return b, nil
}

type eK string

func (e eK) MarshalText() ([]byte, error) {
	if err := curTk().callback("MarshalText of key", nil); err != nil {
		return nil, err
	}
	return []byte("key:" + e), nil
}

// The following have methods and are not structs. eS, eI and eM have them on the pointer.
type eS []string

func (e *eS) MarshalJSON() ([]byte, error) {
	b := []byte((*e)[0])
	if err := curTk().callback("(*eS).MarshalJSON", nil); err != nil {
		return b[:len(b)/2], err
	}
	return b, nil
}

type eI int

func (e *eI) MarshalText() ([]byte, error) {
	b := []byte(fmt.Sprint("number ", int(*e)))
	if err := curTk().callback("(*eI).MarshalText", nil); err != nil {
		return b, err
	}
	return b, nil
}

type eM map[string]string

func (e *eM) AppendJSON(dst []byte) ([]byte, error) {
	dst = append(dst, (*e)["json"]...)
	if err := curTk().callback("(*eM).AppendJSON", nil); err != nil {
		return dst, err
	}
	return dst, nil
}

type eStr string

func (e eStr) AppendJSON(dst []byte) ([]byte, error) {
	dst = append(dst, e...)
	if err := curTk().callback("eStr.AppendJSON", nil); err != nil {
		return dst, err
	}
	return dst, nil
}

type eB bool

func (e eB) MarshalJSON() ([]byte, error) {
	if err := curTk().callback("eB.MarshalJSON", nil); err != nil {
		return nil, err
	}
	if e {
		return []byte(`"yes"`), nil
	}
	return []byte(`"no"`), nil
}

type eF float64

func (e eF) MarshalText() ([]byte, error) {
	if err := curTk().callback("eF.MarshalText", nil); err != nil {
		return nil, err
	}
	return []byte(fmt.Sprintf("%g\"", float64(e))), nil
}

type eArr [1]string

func (e *eArr) MarshalJSON() ([]byte, error) {
	b := []byte(e[0])
	if err := curTk().callback("(*eArr).MarshalJSON", nil); err != nil {
		return nil, err
	}
	return b, nil
}

// eBoth is an interface whose values encode and decode themselves.
type eBoth interface {
	json.Marshaler
	json.Unmarshaler
}

type eB1 struct{ eJ }

func (e *eB1) UnmarshalJSON([]byte) error { return nil }

type eB2 string

func (e eB2) MarshalJSON() ([]byte, error) { return eJ{string(e)}.MarshalJSON() }

func (e eB2) UnmarshalJSON([]byte) error { return nil }

// oM decides itself whether it is omitted.
type oM struct {
	V int `json:"v"`
}

func (o oM) Omit() bool {
	curTk().callback("Omit", nil)
	return o.V == 0
}

// boxE has marshalers in every position.
type boxE struct {
	A  int             `json:"a"`
	J  eJ              `json:"j"`
	T  eT              `json:"t"`
	P  eA              `json:"p"`
	L  []eJ            `json:"l"`
	R  [2]eT           `json:"r"`
	M  map[string]eA   `json:"m"`
	K  map[eK]int      `json:"k"`
	PJ *eJ             `json:"pj"`
	N  *boxE           `json:"n"`
	X  interface{}     `json:"x"`
	O  oM              `json:"o,omitempty"`
	PP **eA            `json:"pp"`
	LL [][]eA          `json:"ll"`
	ML map[string][]eJ `json:"ml"`
	EmbE
	*EmbP
	V  eV     `json:"v"`
	VL []eW   `json:"vl"`
	Z  string `json:"z"`

	KS *eS           `json:"ks"`
	SS []eS          `json:"ss"`
	II [2]eI         `json:"ii"`
	MM eM            `json:"mm"`
	ST eStr          `json:"st"`
	BB map[string]eB `json:"bb"`
	FF []eF          `json:"ff"`
	AR eArr          `json:"ar"`
	MI eBoth         `json:"mi"`
}

// EmbP is embedded by pointer, or missing.
type EmbP struct {
	PT eT `json:"ept"`
}

// eV and eW have their methods on the pointer: they are used where a pointer
// can be taken, as with encoding/json.
type eV struct{ Text string }

func (e *eV) MarshalJSON() ([]byte, error) {
	b := append([]byte(nil), e.Text...)
	if err := curTk().callback("(*eV).MarshalJSON", nil); err != nil {
		return b[:len(b)/2], err
	}
	return b, nil
}

type eW struct{ Text string }

func (e *eW) MarshalText() ([]byte, error) {
	b := append([]byte(nil), e.Text...)
	if err := curTk().callback("(*eW).MarshalText", nil); err != nil {
		return nil, err
	}
	return b, nil
}

type EmbE struct {
	EA eA `json:"ea"`
}

func genText(g *src, depth int) string {
	var b strings.Builder
	genAny(&b, g, depth, false)
	return b.String()
}

// genBoxE generates a value and its JSON.
func genBoxE(g *src, depth int) (*boxE, string) {
	var b strings.Builder
	v := &boxE{A: g.N(1000)}
	fmt.Fprintf(&b, `{"a":%d`, v.A)
	v.J = eJ{genText(g, 1)}
	b.WriteString(`,"j":` + v.J.Text)
	v.T = eT{genStr(g)}
	b.WriteString(`,"t":` + quoted(v.T.Text, g))
	v.P = eA{genText(g, 1)}
	b.WriteString(`,"p":` + v.P.Text)
	v.L = make([]eJ, g.N(3))
	b.WriteString(`,"l":[`)
	for i := range v.L {
		if i > 0 {
			b.WriteByte(',')
		}
		v.L[i] = eJ{genText(g, 1)}
		b.WriteString(v.L[i].Text)
	}
	v.R = [2]eT{{genPlain(g)}, {genStr(g)}}
	b.WriteString(`],"r":["` + v.R[0].Text + `",` + quoted(v.R[1].Text, g) + `],"m":`)
	if g.Bool(1, 2) {
		v.M = map[string]eA{}
		b.WriteByte('{')
		for i, n := 0, g.N(3); i < n; i++ {
			if i > 0 {
				b.WriteByte(',')
			}
			k := fmt.Sprintf("key%d", i)
			if g.Bool(1, 4) {
				k += genStr(g)
			}
			v.M[k] = eA{genText(g, 0)}
			b.WriteString(quoted(k, g) + `:` + v.M[k].Text)
		}
		b.WriteByte('}')
	} else {
		b.WriteString("null")
	}
	b.WriteString(`,"k":`)
	if g.Bool(1, 3) {
		k := genStr(g)
		v.K = map[eK]int{eK(k): 7}
		b.WriteString(`{` + quoted("key:"+k, g) + `:7}`)
	} else {
		b.WriteString("null")
	}
	b.WriteString(`,"pj":`)
	pj := eJ{genText(g, 1)}
	v.PJ = &pj
	b.WriteString(pj.Text + `,"n":`)
	if depth > 0 && g.Bool(1, 2) {
		n, s := genBoxE(g, depth-1)
		v.N = n
		b.WriteString(s)
	} else {
		b.WriteString("null")
	}
	b.WriteString(`,"x":`)
	x, xs := genX(g, depth)
	v.X = x
	b.WriteString(xs)
	if g.Bool(1, 2) {
		v.O.V = 1 + g.N(9)
		fmt.Fprintf(&b, `,"o":{"v":%d}`, v.O.V)
	}
	b.WriteString(`,"pp":`)
	if g.Bool(1, 3) {
		a := &eA{genText(g, 0)}
		v.PP = &a
		b.WriteString(a.Text)
	} else {
		b.WriteString("null")
	}
	b.WriteString(`,"ll":[`)
	if g.Bool(1, 3) {
		v.LL = [][]eA{{{genText(g, 0)}}, {}}
		b.WriteString(`[` + v.LL[0][0].Text + `],[]`)
	}
	b.WriteString(`],"ml":`)
	if g.Bool(1, 3) {
		v.ML = map[string][]eJ{"q": {{genText(g, 0)}, {genText(g, 0)}}}
		b.WriteString(`{"q":[` + v.ML["q"][0].Text + "," + v.ML["q"][1].Text + `]}`)
	} else {
		b.WriteString("null")
	}
	v.EA = eA{genText(g, 0)}
	b.WriteString(`,"ea":` + v.EA.Text)
	if g.Bool(1, 2) {
		v.EmbP = &EmbP{eT{genStr(g)}}
		b.WriteString(`,"ept":` + quoted(v.PT.Text, g))
	}
	v.V = eV{genText(g, 0)}
	b.WriteString(`,"v":` + v.V.Text)
	v.VL = make([]eW, g.N(3))
	b.WriteString(`,"vl":[`)
	for i := range v.VL {
		if i > 0 {
			b.WriteByte(',')
		}
		v.VL[i].Text = genStr(g)
		b.WriteString(quoted(v.VL[i].Text, g))
	}
	b.WriteByte(']')
	v.Z = genStr(g)
	b.WriteString(`,"z":`)
	quote(&b, v.Z, g)
	genKinds(&b, v, g)
	b.WriteByte('}')
	return v, b.String()
}

// genKinds generates the values with marshalers that are not structs.
func genKinds(b *strings.Builder, v *boxE, g *src) {
	some := func() bool { return g.Bool(1, 3) }
	b.WriteString(`,"ks":`)
	if some() {
		v.KS = &eS{genText(g, 0), "x"}
		b.WriteString((*v.KS)[0])
	} else {
		b.WriteString("null")
	}
	b.WriteString(`,"ss":[`)
	if some() {
		v.SS = []eS{{genText(g, 1)}, {genText(g, 0), "x"}}
		b.WriteString(v.SS[0][0] + "," + v.SS[1][0])
	}
	v.II = [2]eI{eI(g.N(10)), eI(g.N(100))}
	fmt.Fprintf(b, `],"ii":["number %d","number %d"],"mm":`, v.II[0], v.II[1])
	v.MM = eM{"json": genText(g, 0)}
	v.ST = eStr(genText(g, 1))
	b.WriteString(v.MM["json"] + `,"st":` + string(v.ST) + `,"bb":`)
	switch {
	case some():
		v.BB = map[string]eB{"one": true}
		b.WriteString(`{"one":"yes"}`)
	default:
		b.WriteString("null")
	}
	b.WriteString(`,"ff":[`)
	if some() {
		v.FF = []eF{1.5, -3}
		b.WriteString(`"1.5\"","-3\""`)
	}
	v.AR[0] = genText(g, 0)
	b.WriteString(`],"ar":` + v.AR[0] + `,"mi":`)
	switch {
	case some():
		x := eJ{genText(g, 0)}
		v.MI = &eB1{x}
		b.WriteString(x.Text)
	case some():
		x := eB2(genText(g, 0))
		v.MI = x
		b.WriteString(string(x))
	default:
		b.WriteString("null")
	}
}

// genX generates a dynamic value with marshalers inside.
func genX(g *src, depth int) (interface{}, string) {
	k := g.N(7)
	if depth <= 0 {
		k = g.N(4)
	}
	switch k {
	case 0:
		return nil, "null"
	case 1:
		t := genText(g, 1)
		return eJ{t}, t
	case 2:
		t := genText(g, 1)
		return &eA{t}, t
	case 3:
		t := genStr(g)
		return eT{t}, quoted(t, g)
	case 4:
		n := 1 + g.N(3)
		l := make([]interface{}, n)
		var b strings.Builder
		b.WriteByte('[')
		for i := range l {
			if i > 0 {
				b.WriteByte(',')
			}
			x, s := genX(g, depth-1)
			l[i] = x
			b.WriteString(s)
		}
		b.WriteByte(']')
		return l, b.String()
	case 5:
		x, s := genX(g, depth-1)
		return map[string]interface{}{"k": x}, `{"k":` + s + `}`
	default:
		v, s := genBoxE(g, depth-1)
		return v, s
	}
}

// ---- unmarshalers. They record what they are given.

type dJ struct{}

func (dJ) UnmarshalJSON(b []byte) error { return sawBytes("json", b) }

type dT struct{}

func (dT) UnmarshalText(b []byte) error { return sawBytes("text", b) }

type dN struct{}

func (dN) UnmarshalNodeJSON(n njson.Node) error { return sawNode(n) }

// vJ, vT and vN have their methods on the pointer and are used by value, dK as a map key.
type vJ struct{ _ int }

func (*vJ) UnmarshalJSON(b []byte) error { return sawBytes("json", b) }

type vT struct{ _ int }

func (*vT) UnmarshalText(b []byte) error { return sawBytes("text", b) }

type vN struct{ _ int }

func (*vN) UnmarshalNodeJSON(n njson.Node) error { return sawNode(n) }

type dK struct{ s string }

func (k dK) MarshalText() ([]byte, error) { return []byte(k.s), nil }

func (k *dK) UnmarshalText(b []byte) error { k.s = string(b); return sawBytes("text", b) }

// pJ, pT and pN are used behind pointers, nil ones included.
type pJ struct{ _ int }

func (*pJ) UnmarshalJSON(b []byte) error { return sawBytes("json", b) }

type pT struct{ _ int }

func (*pT) UnmarshalText(b []byte) error { return sawBytes("text", b) }

type pN struct{ _ int }

func (*pN) UnmarshalNodeJSON(n njson.Node) error { return sawNode(n) }

// The following have methods on the pointer and are not structs.
type kS []string

func (k *kS) UnmarshalJSON(b []byte) error { *k = append(*k, "x"); return sawBytes("json", b) }

type kI int

func (k *kI) UnmarshalText(b []byte) error { *k++; return sawBytes("text", b) }

type kM map[string]int

func (k *kM) UnmarshalNodeJSON(n njson.Node) error { *k = kM{"seen": 1}; return sawNode(n) }

type kStr string

func (k *kStr) UnmarshalJSON(b []byte) error { *k += "!"; return sawBytes("json", b) }

type kB bool

func (k *kB) UnmarshalNodeJSON(n njson.Node) error { *k = !*k; return sawNode(n) }

type kA [2]int

func (k *kA) UnmarshalText(b []byte) error { k[1]++; return sawBytes("text", b) }

func sawBytes(kind string, b []byte) error {
	t := curTk()
	t.seen = append(t.seen, seen{kind, string(b)})
	err := t.callback(kind, b)
	if t.scribble {
		// the bytes are the unmarshaler's own until it returns
		func() {
			defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
			defer func() {
				if v := recover(); v != nil {
					t.fail("bytes shared", "the %s unmarshaler was given %s, which it cannot write to: %v", kind, short(b), v)
				}
			}()
			for i := range b {
				b[i] = '#'
			}
		}()
	}
	return err
}

func sawNode(n njson.Node) error {
	t := curTk()
	b, err := n.AppendJSON(nil)
	if err != nil {
		return err
	}
	if t.keep {
		t.kept = append(t.kept, n)
	}
	t.seen = append(t.seen, seen{"json", string(b)})
	err = t.callback("node", nil)
	if err == nil {
		b2, err2 := n.AppendJSON(nil)
		if err2 != nil || !bytes.Equal(b, b2) {
			t.fail("bytes changed", "the node changed while its unmarshaler ran: %s, then %s (%v)", short(b), short(b2), err2)
		}
	}
	return err
}

type boxD struct {
	A  int             `json:"a"`
	J  dJ              `json:"j"`
	T  dT              `json:"t"`
	N  dN              `json:"n"`
	L  []dJ            `json:"l"`
	R  [2]dT           `json:"r"`
	M  map[string]dN   `json:"m"`
	PJ *pJ             `json:"pj"`
	PN *pN             `json:"pn"`
	PT *pT             `json:"pt"`
	Q  *boxD           `json:"q"`
	LL [][]dT          `json:"ll"`
	ML map[string][]dJ `json:"ml"`
	LP []*pJ           `json:"lp"`
	S  string          `json:"s"`
	LB []boxD          `json:"lb"`
	PP **pN            `json:"pp"`
	VJ vJ              `json:"vj"`
	VL []vT            `json:"vl"`
	VM map[string]vN   `json:"vm"`
	KM map[dK]vJ       `json:"km"`
	EmbD
	*EmbQ
	KS kS            `json:"ks"`
	KL []kI          `json:"kl"`
	K2 [2]kI         `json:"k2"`
	MM kM            `json:"mm"`
	KP *kM           `json:"kp"`
	ST map[kStr]kStr `json:"st"`
	KB []kB          `json:"kb"`
	KA kA            `json:"ka"`
	QA **kA          `json:"qa"`
}

// EmbQ is embedded by pointer.
type EmbQ struct {
	QT vT  `json:"qt"`
	QN int `json:"qn"`
	QJ vJ  `json:"qj"`
}

type EmbD struct {
	ED dJ `json:"ed"`
}

// genBoxD generates JSON for a boxD, what its unmarshalers see, in order, and a check of the rest.
func genBoxD(g *src, depth int) (string, []seen, func(v *boxD) bool) {
	var b strings.Builder
	var want []seen
	a := g.N(1000)
	s := genStr(g)
	js := func() string {
		t := genText(g, 1)
		want = append(want, seen{"json", t})
		return t
	}
	// null makes a pointer nil, so its unmarshaler is not called
	jp := func() string {
		t := genText(g, 1)
		if t == "null" {
			t = "[null]"
		}
		want = append(want, seen{"json", t})
		return t
	}
	ts := func() string {
		t := genStr(g)
		want = append(want, seen{"text", t})
		return quoted(t, g)
	}
	list := func(n int, f func() string) string {
		p := make([]string, n)
		for i := range p {
			p[i] = f()
		}
		return strings.Join(p, ",")
	}
	var sub []func(v *boxD) bool
	fmt.Fprintf(&b, `{"a":%d`, a)
	order := g.N(3)
	const kinds = 31
	for i := 0; i < kinds; i++ {
		k := i
		if order == 1 {
			k = kinds - 1 - i
		} else if order == 2 {
			k = (i * 7) % kinds
		}
		if !g.Bool(2, 5) {
			continue
		}
		switch k {
		case 0:
			b.WriteString(`,"j":` + js())
		case 1:
			b.WriteString(`,"t":` + ts())
		case 2:
			b.WriteString(`,"n":` + js())
		case 3:
			b.WriteString(`,"l":[` + list(g.N(4), js) + `]`)
		case 4:
			b.WriteString(`,"r":[` + list(g.N(3), ts) + `]`)
		case 5:
			i := 0
			b.WriteString(`,"m":{` + list(g.N(3), func() string { i++; return fmt.Sprintf(`"k%d":`, i) + js() }) + `}`)
		case 6:
			b.WriteString(`,"pj":` + jp())
		case 7:
			b.WriteString(`,"pn":` + jp())
		case 8:
			b.WriteString(`,"pt":` + ts())
		case 9:
			if depth > 0 {
				t, w, f := genBoxD(g, depth-1)
				want = append(want, w...)
				b.WriteString(`,"q":` + t)
				sub = append(sub, func(v *boxD) bool { return v.Q != nil && f(v.Q) })
			}
		case 10:
			b.WriteString(`,"ll":[[` + list(g.N(2), ts) + `],[` + list(g.N(3), ts) + `]]`)
		case 11:
			b.WriteString(`,"ml":{"x":[` + list(g.N(3), js) + `]}`)
		case 12:
			b.WriteString(`,"lp":[` + list(g.N(3), jp) + `]`)
		case 13:
			if depth > 0 {
				n := g.N(3)
				fs := make([]func(v *boxD) bool, n)
				i := 0
				b.WriteString(`,"lb":[` + list(n, func() string {
					t, w, f := genBoxD(g, 0)
					want = append(want, w...)
					fs[i] = f
					i++
					return t
				}) + `]`)
				sub = append(sub, func(v *boxD) bool {
					if len(v.LB) != n {
						return false
					}
					for i := range fs {
						if !fs[i](&v.LB[i]) {
							return false
						}
					}
					return true
				})
			}
		case 14:
			b.WriteString(`,"ed":` + js())
		case 15:
			b.WriteString(`,"pp":` + jp())
			sub = append(sub, func(v *boxD) bool { return v.PP != nil && *v.PP != nil })
		case 16:
			b.WriteString(`,"vj":` + js())
		case 17:
			n := g.N(3)
			b.WriteString(`,"vl":[` + list(n, ts) + `]`)
			sub = append(sub, func(v *boxD) bool { return len(v.VL) == n })
		case 18:
			i := 0
			b.WriteString(`,"vm":{` + list(g.N(3), func() string { i++; return fmt.Sprintf(`"k%d\n":`, i) + js() }) + `}`)
			n := i
			sub = append(sub, func(v *boxD) bool {
				_, ok := v.VM["k1\n"]
				return len(v.VM) == n && ok == (n > 0)
			})
		case 19:
			// the order of the calls for a key and its value does not matter
			key := genStr(g)
			val := js()
			w := want[len(want)-1]
			want = append(want[:len(want)-1], seen{"either", w.text + "\x00" + key}, seen{"either", w.text + "\x00" + key})
			b.WriteString(`,"km":{` + quoted(key, g) + `:` + val + `}`)
			sub = append(sub, func(v *boxD) bool {
				_, ok := v.KM[dK{key}]
				return ok && len(v.KM) == 1
			})
		case 20:
			b.WriteString(`,"qt":` + ts())
			sub = append(sub, func(v *boxD) bool { return v.EmbQ != nil })
		case 22:
			b.WriteString(`,"ks":` + js())
			sub = append(sub, func(v *boxD) bool { return len(v.KS) == 1 })
		case 23:
			n := g.N(3)
			b.WriteString(`,"kl":[` + list(n, ts) + `]`)
			sub = append(sub, func(v *boxD) bool { return len(v.KL) == n && (n == 0 || v.KL[n-1] == 1) })
		case 24:
			b.WriteString(`,"k2":[` + list(2, ts) + `]`)
			sub = append(sub, func(v *boxD) bool { return v.K2 == [2]kI{1, 1} })
		case 25:
			b.WriteString(`,"mm":` + js())
			sub = append(sub, func(v *boxD) bool { return len(v.MM) == 1 })
		case 26:
			b.WriteString(`,"kp":` + jp())
			sub = append(sub, func(v *boxD) bool { return v.KP != nil && len(*v.KP) == 1 })
		case 27:
			key := genPlain(g)
			b.WriteString(`,"st":{"` + key + `":` + js() + `}`)
			sub = append(sub, func(v *boxD) bool { return len(v.ST) == 1 && v.ST[kStr(key)] == "!" })
		case 28:
			n := g.N(3)
			b.WriteString(`,"kb":[` + list(n, js) + `]`)
			sub = append(sub, func(v *boxD) bool { return len(v.KB) == n && (n == 0 || bool(v.KB[0])) })
		case 30:
			b.WriteString(`,"qj":` + js())
			sub = append(sub, func(v *boxD) bool { return v.EmbQ != nil })
		case 29:
			b.WriteString(`,"ka":` + ts() + `,"qa":` + ts())
			sub = append(sub, func(v *boxD) bool { return v.KA[1] == 1 && v.QA != nil && *v.QA != nil && (*v.QA)[1] == 1 })
		case 21:
			b.WriteString(`,"qn":77`)
			sub = append(sub, func(v *boxD) bool { return v.EmbQ != nil && v.QN == 77 })
		}
	}
	b.WriteString(`,"s":`)
	quote(&b, s, g)
	b.WriteByte('}')
	return b.String(), want, func(v *boxD) bool {
		if v.A != a || v.S != s {
			return false
		}
		for _, f := range sub {
			if !f(v) {
				return false
			}
		}
		return true
	}
}

// checkSeen checks what the unmarshalers of a successful call were given.
func (t *tk) checkSeen(want []seen) {
	for i, s := range t.seen {
		if i >= len(want) {
			t.fail("made-up callback", "unmarshaler %d was given %s", i, short(s.text))
		}
		w := want[i]
		if w.kind == "either" {
			// a map key (text) or its value (json)
			val, key, _ := strings.Cut(w.text, "\x00")
			w = seen{"json", val}
			if s.kind == "text" {
				w = seen{"text", key}
			}
			if i > 0 && want[i-1] == want[i] && t.seen[i-1].kind == s.kind {
				t.fail("wrong callback", "unmarshaler %d (%s) was called twice in a row: %s", i, s.kind, short(s.text))
			}
		}
		if s.kind != w.kind {
			t.fail("wrong callback", "unmarshaler %d (%s) was given %s, want %s %s", i, s.kind, short(s.text), w.kind, short(w.text))
		}
		if s.kind == "text" && s.text != w.text || s.kind == "json" && !sameJSON([]byte(s.text), w.text) {
			t.fail("wrong bytes", "unmarshaler %d was given %s, want %s", i, short(s.text), short(w.text))
		}
	}
	if t.fired == nil && len(t.seen) < len(want) {
		t.fail("callback lost", "%d of %d unmarshalers were called", len(t.seen), len(want))
	}
}

// ---- writers and readers

// pWriter is the writer of one print or encode call.
type pWriter struct {
	t      *tk
	mode   int // 0 ok, 1 error, 2 short with error, 3 short without error, 4 error after taking everything, 5 and 6 impossible counts
	err    error
	stalls int
	kind   int // actPanic, actGoexit
	nest   *call
	handed []byte
	n      int
	calls  int
}

var (
	fWPanic   = core.Fault("writer: panic")
	fWGoexit  = core.Fault("writer: task terminated")
	fWriteOdd = core.Fault("writer: impossible count")
	fWStall   = core.Probe("writer: blocked while other tasks ran")
	fWNest    = core.Probe("writer: nested library call")
)

func (w *pWriter) Write(p []byte) (int, error) {
	simrt.Yield()
	w.calls++
	at := len(w.handed)
	w.handed = append(w.handed, p...)
	for i := 0; i < w.stalls; i++ {
		core.Hit(fWStall)
		simrt.Stall()
	}
	if w.nest != nil && w.t.depth < 2 {
		core.Hit(fWNest)
		w.t.nested(w.nest)
	}
	if !bytes.Equal(p, w.handed[at:]) {
		w.t.fail("bytes changed", "the writer was handed %s, which changed to %s before it returned", short(w.handed[at:]), short(p))
	}
	switch w.kind {
	case actPanic:
		core.Hit(fWPanic)
		w.t.panicked = planPanic{-1}
		panic(w.t.panicked)
	case actGoexit:
		core.Hit(fWGoexit)
		w.t.exit()
	}
	n := len(p)
	var err error
	switch w.mode {
	case 1:
		core.Hit(fWriteErr)
		n, err = 0, w.err
	case 2:
		core.Hit(fWriteShort)
		n, err = len(p)/2, w.err
	case 3:
		core.Hit(fWriteShrtN)
		n = len(p) / 2
	case 4:
		core.Hit(fWriteErr)
		err = w.err
	case 5:
		core.Hit(fWriteOdd)
		n += 3
	case 6:
		core.Hit(fWriteOdd)
		n, err = -1, w.err
	}
	w.n += n
	return n, err
}

// genWriter draws the behaviour of a writer. faults: 0 none, 1 errors, 2 errors and panics, 3 and Goexit.
func genWriter(g *src, faults int, nest func() *call) pWriter {
	w := pWriter{stalls: g.Pick(2, 1, 1, 1)}
	if faults > 0 {
		w.mode = g.Pick(12, 4, 4, 4, 4, 1, 1)
		if w.mode != 0 && w.mode != 5 {
			w.err = &simErr{g.N(1000)}
			if g.Bool(1, 8) {
				w.err = io.EOF
			}
		}
	}
	if faults > 1 && g.Bool(1, 3) {
		w.kind = actPanic
		if faults > 2 && g.Bool(1, 3) {
			w.kind = actGoexit
		}
	}
	if nest != nil && g.Bool(1, 4) {
		w.nest = nest()
	}
	return w
}

// genPlan draws what the first callbacks of a call do.
func genPlan(g *src, faults int, nest func() *call) []pact {
	n := g.N(14)
	plan := make([]pact, n)
	for i := range plan {
		plan[i].stalls = g.Pick(5, 1, 1)
		if nest != nil && g.Bool(1, 10) {
			plan[i].nest = nest()
		}
	}
	if faults > 0 && n > 0 && g.Bool(2, 3) {
		k := g.N(n)
		plan[k].kind = actFail
		if g.Bool(1, 3) {
			plan[k].err = 1 + g.N(6)
		}
		if faults > 1 && g.Bool(2, 3) {
			plan[k].kind = actPanic
			if faults > 2 && g.Bool(1, 3) {
				plan[k].kind = actGoexit
			}
		}
		if g.Bool(1, 4) && plan[k].kind == actFail {
			// everything from here on fails
			for ; k < n; k++ {
				plan[k].kind = actFail
			}
		}
	}
	return plan
}

// ---- calls

// shared are the codecs and caches shared by the tasks of a run.
type shared struct {
	encBox, encRec unjson.Encoder
	decBox, decRec unjson.Decoder
	cache          *unjson.Cache
}

func newShared(c *core.Ctx) *shared {
	s := &shared{cache: &unjson.Cache{}}
	var err error
	must := func(what string) {
		if err != nil {
			c.Fail("codec", "%s: %v", what, err)
		}
	}
	s.encBox, err = unjson.NewTypeEncoder(reflect.TypeOf(boxE{}), unjson.DefaultOptions())
	must("NewTypeEncoder(boxE)")
	s.encRec, err = unjson.NewTypeEncoder(reflect.TypeOf(Rec{}), unjson.DefaultOptions())
	must("NewTypeEncoder(Rec)")
	s.decBox, err = unjson.NewTypeDecoder(reflect.TypeOf(&boxD{}), "json")
	must("NewTypeDecoder(*boxD)")
	s.decRec, err = unjson.NewTypeDecoder(reflect.TypeOf(&Rec{}), "json")
	must("NewTypeDecoder(*Rec)")
	return s
}

// genEncodeCall generates a call that encodes a value with marshalers in it.
func genEncodeCall(g *src, sh *shared) call {
	x, text := genX(g, 2)
	how := g.N(5)
	var box *boxE
	if how >= 3 {
		box, text = genBoxE(g, 1)
		x = box
	}
	prefix := ""
	if g.Bool(1, 2) {
		prefix = "prefix:"
	}
	spare := g.N(3) * 400
	names := []string{"Marshal", "AppendJSON", "PrintJSON of Marshal result", "shared Encoder", "cache Encoder"}
	return call{"encode by " + names[how] + ": " + short(text), func(t *tk) {
		var b []byte
		var err error
		dst := append(make([]byte, 0, len(prefix)+spare), prefix...)
		pre := prefix
		switch how {
		case 0, 2:
			pre = ""
			b, err = unjson.Marshal(x)
		case 1:
			b, err = unjson.AppendJSON(dst, x)
		case 3:
			b, err = sh.encBox.Encode(dst, x)
		case 4:
			enc, e := sh.cache.Encoder(reflect.TypeOf(x))
			if e != nil {
				t.fail("codec", "Cache.Encoder: %v", e)
			}
			b, err = enc.Encode(dst, x)
		}
		if !t.verdict(err) {
			return
		}
		if !bytes.HasPrefix(b, []byte(pre)) || !sameJSON(b[len(pre):], text) {
			t.fail("wrong result", "encoded as %s, want %s", short(b), short(pre+text))
		}
		simrt.Yield()
		if how == 0 || how == 2 {
			overwrite(b)
		}
	}}
}

// genDecodeCall generates a call that decodes a value with unmarshalers in it.
func genDecodeCall(g *src, sh *shared) call {
	text, want, ok := genBoxD(g, 2)
	how := g.N(6)
	names := []string{"Unmarshal", "UnmarshalFromString", "UnmarshalFromNode", "shared Decoder", "cache Decoder", "pooled document"}
	return call{"decode by " + names[how] + ": " + short(text), func(t *tk) {
		v := new(boxD)
		var err error
		switch how {
		case 0:
			err = unjson.Unmarshal([]byte(text), v)
		case 1:
			err = unjson.UnmarshalFromString(text, v)
		default:
			var d *njson.Document
			if how == 5 {
				d = njson.Blank()
				defer func() {
					if t.panicked == nil && !t.exiting {
						d.Close()
					}
				}()
			} else {
				d = new(njson.Document)
			}
			n, _, e := d.Parse(text)
			if e != nil {
				t.fail("parse", "%v", e)
			}
			switch how {
			case 3:
				err = sh.decBox.Decode(v, n)
			case 4:
				dec, e := sh.cache.Decoder(reflect.TypeOf(v))
				if e != nil {
					t.fail("codec", "Cache.Decoder: %v", e)
				}
				err = dec.Decode(v, n)
			default:
				err = unjson.UnmarshalFromNode(n, v)
			}
		}
		t.checkSeen(want)
		if !t.verdict(err) {
			return
		}
		if !ok(v) {
			t.fail("wrong result", "decoded as %s", short(v))
		}
	}}
}

// genTopCall decodes a single unmarshaler at top level.
func genTopCall(g *src) call {
	k := g.N(4)
	text := genText(g, 2)
	w := seen{"json", text}
	if k == 2 {
		w = seen{"text", genStr(g)}
		text = quoted(w.text, g)
	}
	return call{fmt.Sprintf("decode top level %d: %s", k, short(text)), func(t *tk) {
		var err error
		switch k {
		case 0:
			err = unjson.Unmarshal([]byte(text), &dJ{})
		case 1:
			err = unjson.Unmarshal([]byte(text), &dN{})
		case 2:
			err = unjson.Unmarshal([]byte(text), &dT{})
		case 3:
			err = unjson.UnmarshalFromString(text, &pJ{})
		}
		t.checkSeen([]seen{w})
		t.verdict(err)
	}}
}

// genPlainCall generates a call without user code.
func genPlainCall(g *src, sh *shared, id int) call {
	r, text := genRec(g, id, g.Bool(1, 4))
	if g.Bool(1, 4) {
		r, text = padRec(r, text, g.Range(300, 3000))
	}
	switch g.N(6) {
	case 0:
		return call{"Unmarshal record " + short(text), func(t *tk) {
			var x Rec
			if t.verdict(unjson.Unmarshal([]byte(text), &x)) && !reflect.DeepEqual(x, r) {
				t.fail("wrong result", "decoded as %s, want %s", short(&x), short(&r))
			}
			scrub(&x)
		}}
	case 1:
		return call{"Marshal record " + short(text), func(t *tk) {
			b, err := unjson.Marshal(&r)
			if t.verdict(err) && !recFromJSON(b, &r) {
				t.fail("wrong result", "encoded as %s, want %s", short(b), short(text))
			}
		}}
	case 2:
		return call{"shared Encoder record " + short(text), func(t *tk) {
			b, err := sh.encRec.Encode(nil, r)
			if t.verdict(err) && !recFromJSON(b, &r) {
				t.fail("wrong result", "encoded as %s, want %s", short(b), short(text))
			}
		}}
	case 3:
		return call{"shared Decoder record " + short(text), func(t *tk) {
			d := njson.Blank()
			n, _, err := d.Parse(text)
			var x Rec
			if err == nil {
				err = sh.decRec.Decode(&x, n)
			}
			d.Close()
			if t.verdict(err) && !reflect.DeepEqual(x, r) {
				t.fail("wrong result", "decoded as %s, want %s", short(&x), short(&r))
			}
			scrub(&x)
		}}
	case 4:
		var b strings.Builder
		want := genAny(&b, g, 3, false)
		text := b.String()
		return call{"Unmarshal dynamic " + short(text), func(t *tk) {
			var x interface{}
			if t.verdict(unjson.Unmarshal([]byte(text), &x)) && !reflect.DeepEqual(x, want) {
				t.fail("wrong result", "decoded as %s, want %s", short(x), short(text))
			}
			simrt.Yield()
			scrub(&x)
			b, err := unjson.Marshal(want)
			if t.verdict(err) && !sameJSON(b, text) {
				t.fail("wrong result", "encoded as %s, want %s", short(b), short(text))
			}
			simrt.Yield()
			overwrite(b)
		}}
	default:
		// calls that must fail, and fail alone
		k := g.N(5)
		return call{fmt.Sprintf("failing call %d", k), func(t *tk) {
			var err error
			switch k {
			case 0:
				err = unjson.Unmarshal([]byte(text[:len(text)-1]), new(Rec))
			case 1:
				err = unjson.Unmarshal([]byte(`{"id":"x"}`), new(Rec))
			case 2:
				_, err = unjson.Marshal(make(chan int))
			case 3:
				_, err = unjson.Marshal([]interface{}{1, func() {}})
			case 4:
				err = unjson.Unmarshal([]byte(`{}`), 3)
			}
			if err == nil {
				t.fail("failure hidden", "no error")
			}
		}}
	}
}

// genPrintCall prints a value to a writer.
func genPrintCall(g *src, faults int, nest func() *call) call {
	w0 := genWriter(g, faults, nest)
	kind := g.N(5)
	var text string
	if g.Bool(1, 4) {
		_, text = padRec(Rec{}, `{"id":1}`, g.Range(1500, 6000))
	} else {
		text = genText(g, 3)
	}
	cut := len(text) / (1 + g.N(4))
	sink := g.Pick(6, 1, 1, 1, 1, 1)
	if sink > 2 && (w0.mode != 0 || w0.kind != 0) {
		sink = 0
	}
	prior := []string{"", "prior", pad(300, 1)}[g.N(3)]
	spare := []int{0, 16, 500, 5000}[g.N(4)]
	return call{fmt.Sprintf("print %d, writer mode %d, sink %d: %s", kind, w0.mode, sink, short(text)), func(t *tk) {
		pw := w0
		pw.t = t
		var w io.Writer = &pw
		var got func() string
		switch sink {
		case 1:
			w = &pWriterS{&pw}
		case 2:
			w = &pWriterR{&pw}
		case 3:
			b := bytes.NewBuffer(make([]byte, 0, spare))
			b.WriteString("?" + prior)
			b.ReadByte()
			got = b.String
			w = b
		case 4:
			b := new(strings.Builder)
			b.Grow(spare)
			b.WriteString(prior)
			got = b.String
			w = b
		case 5:
			b := bufio.NewWriterSize(&pw, spare)
			b.WriteString(prior)
			got = func() string { b.Flush(); return string(pw.handed) }
			w = b
		}
		var n int
		var err error
		invalid := false
		switch kind {
		case 0, 1, 2: // documents and nodes
			d := njson.Blank()
			nd, _, e := d.Parse(text)
			if e != nil {
				t.fail("parse", "%v", e)
			}
			switch kind {
			case 0:
				n, err = nd.PrintJSON(w)
			case 1:
				n, err = njson.PrintJSON(w, d)
			case 2:
				n, err = njson.PrintJSON(w, nd)
			}
			d.Close()
		case 3: // custom appender
			n, err = njson.PrintJSON(w, eA{text})
		case 4:
			if cut == len(text) {
				// a node that is no longer valid
				invalid = true
				d := njson.Blank()
				nd := d.Text("x")
				d.Reset()
				n, err = nd.PrintJSON(w)
				d.Close()
			} else {
				n, err = njson.PrintJSON(w, chunked{text, cut})
			}
		}
		if t.panicked != nil {
			t.fail("panic swallowed", "user code panicked, but the call returned (error %v)", err)
		}
		if t.fired != nil || invalid {
			if err == nil {
				t.fail("failure hidden", "the value cannot be encoded, but no error was returned")
			}
			if t.fired != nil && err != t.fired {
				t.fail("wrong error", "the appender failed with %v, PrintJSON returned %v", t.fired, err)
			}
			if got != nil && got() != prior {
				t.fail("partial output", "the value cannot be encoded, but the writer has %s, before %s", short(got()), short(prior))
			}
			if got == nil && len(pw.handed) > 0 {
				t.fail("partial output", "the value cannot be encoded, but %s was written", short(pw.handed))
			}
			if n != 0 {
				t.fail("wrong count", "%d bytes reported, nothing written", n)
			}
			return
		}
		if got != nil {
			s := got()
			if !strings.HasPrefix(s, prior) || !sameJSON([]byte(s[len(prior):]), text) {
				t.fail("wrong output", "the writer has %s, want %s", short(s), short(prior+text))
			}
			if n != len(s)-len(prior) || err != nil {
				t.fail("wrong count", "the writer took %d bytes, PrintJSON returned %d and %v", len(s)-len(prior), n, err)
			}
			return
		}
		if pw.calls > 1 {
			t.fail("several writes", "the writer was called %d times for %s", pw.calls, short(text))
		}
		if !sameJSON(pw.handed, text) {
			t.fail("wrong output", "the writer was handed %s, want %s", short(pw.handed), short(text))
		}
		if n != pw.n {
			t.fail("wrong count", "the writer reported %d, PrintJSON returned %d", pw.n, n)
		}
		if pw.mode == 3 {
			// "returned unchanged": a short write without an error stays that
			if err != nil {
				t.fail("wrong error", "the writer reported %d and no error, PrintJSON returned %v", pw.n, err)
			}
		} else if err != pw.err {
			t.fail("wrong error", "the writer returned %v, PrintJSON %v", pw.err, err)
		}
	}}
}

// pWriterS and pWriterR also offer other ways to write.
type pWriterS struct{ *pWriter }

func (w *pWriterS) WriteString(s string) (int, error) {
	return w.Write(unsafe.Slice(unsafe.StringData(s), len(s)))
}

type pWriterR struct{ *pWriter }

func (w *pWriterR) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := w.Write(b)
	return int64(n), err
}

// chunked appends in small pieces.
type chunked struct {
	text string
	size int
}

func (a chunked) AppendJSON(dst []byte) ([]byte, error) {
	s := a.text
	t := curTk()
	for i := 0; len(s) > 0; i++ {
		k := max(1, min(a.size, len(s)))
		dst = append(dst, s[:k]...)
		s = s[k:]
		if i < 4 {
			if err := t.callback("AppendJSON piece", nil); err != nil {
				return dst, err
			}
		}
	}
	return dst, nil
}

// genWrapCall calls a wrapped unmarshaler for a node of a document.
func genWrapCall(g *src) call {
	// a document with an array of values; one of them is wrapped
	n := 1 + g.N(4)
	texts := make([]string, n)
	for i := range texts {
		switch g.N(6) {
		case 0:
			texts[i] = []string{"[]", "{}", `""`, "null", "true", "0"}[g.N(6)]
		case 1:
			_, texts[i] = padRec(Rec{}, `{"id":1}`, g.Range(100, 5000))
		default:
			texts[i] = genText(g, 3)
		}
	}
	k := g.N(n)
	text, plain := false, ""
	if g.Bool(1, 3) {
		text = true
		plain = genStr(g)
		if g.Bool(1, 4) {
			plain += pad(g.Range(0, 4000), 3)
		}
		texts[k] = quoted(plain, g)
	}
	pooled := g.Bool(1, 2)
	invalid := g.Bool(1, 12)
	wrong := !text && g.Bool(1, 8)
	return call{fmt.Sprintf("wrap (text %v) %s", text, short(texts[k])), func(t *tk) {
		d := new(njson.Document)
		if pooled {
			d = njson.Blank()
		}
		root, _, err := d.Parse("[" + strings.Join(texts, ",") + "]")
		if err != nil {
			t.fail("parse", "%v", err)
		}
		nd := root.Index(k)
		if invalid {
			nd = root.Index(n)
		}
		want := seen{"json", texts[k]}
		switch {
		case invalid && text:
			err = nd.WrapUnmarshalText(dT{})
		case invalid:
			err = nd.WrapUnmarshalJSON(dJ{})
		case wrong && texts[k][0] != '"':
			invalid = true
			err = nd.WrapUnmarshalText(dT{})
		case text:
			want = seen{"text", plain}
			err = nd.WrapUnmarshalText(dT{})
		default:
			err = nd.WrapUnmarshalJSON(dJ{})
		}
		if pooled {
			d.Close()
		}
		if invalid {
			if err == nil || len(t.seen) > 0 {
				t.fail("made-up callback", "an invalid node was unmarshaled: error %v, unmarshaler called %d times", err, len(t.seen))
			}
			return
		}
		t.checkSeen([]seen{want})
		if t.fired != nil && err != t.fired {
			t.fail("wrong error", "the unmarshaler failed with %v, the call returned %v", t.fired, err)
		}
		t.verdict(err)
	}}
}

// overwrite uses a returned buffer, which is the caller's own, up to its capacity.
func overwrite(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = '!'
	}
}

func decodeText(d unjson.Decoder, text string, target interface{}) error {
	doc := new(njson.Document)
	n, _, err := doc.Parse(text)
	if err != nil {
		return err
	}
	return d.Decode(target, n)
}
