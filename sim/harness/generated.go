package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/unjson"
	"github.com/alxarch/njson/verifsim/core"
	"github.com/alxarch/njson/verifsim/gentypes"
	"github.com/alxarch/njson/verifsim/simrt"
)

// Calls that go through methods written by the tree's own code generator.

var pGenerated = core.Probe("call through a method the generator wrote")

func init() {
	gentypes.Encode = func(kind string) error { return curTk().callback(kind, nil) }
	gentypes.Decode = sawBytes
}

// genCodeBoxE generates a value and its JSON.
func genCodeBoxE(g *src) (*gentypes.BoxE, string) {
	var b strings.Builder
	js := func() string { // custom JSON that is not null
		s := genText(g, 1)
		if s == "null" {
			s = "[null]"
		}
		b.WriteString(s)
		return s
	}
	ts := func() string {
		s := genStr(g)
		b.WriteString(quoted(s, g))
		return s
	}
	list := func(key string, f func()) {
		b.WriteString(`,"` + key + `":[`)
		for i, n := 0, g.N(3); i < n; i++ {
			if i > 0 {
				b.WriteByte(',')
			}
			f()
		}
		b.WriteByte(']')
	}
	in := func() (v gentypes.InE) {
		b.WriteString(`{"t":`)
		v.T.Text = ts()
		b.WriteString(`,"j":`)
		v.J.Text = js()
		b.WriteByte('}')
		return v
	}
	v := &gentypes.BoxE{A: g.N(1000), LJ: []gentypes.J{}, LT: []gentypes.T{}, LP: [][]gentypes.P{}, LI: []gentypes.InE{}}
	fmt.Fprintf(&b, `{"a":%d,"j":`, v.A)
	v.J.Text = js()
	b.WriteString(`,"t":`)
	v.T.Text = ts()
	b.WriteString(`,"p":`)
	v.P.Text = js()
	list("lj", func() { v.LJ = append(v.LJ, gentypes.J{Text: js()}) })
	list("lt", func() { v.LT = append(v.LT, gentypes.T{Text: ts()}) })
	list("lp", func() {
		b.WriteByte('[')
		v.LP = append(v.LP, []gentypes.P{{Text: js()}})
		b.WriteByte(']')
	})
	b.WriteString(`,"i":`)
	v.I = in()
	b.WriteString(`,"pi":`)
	p := in()
	v.PI = &p
	list("li", func() { v.LI = append(v.LI, in()) })
	dict := func(key string, f func(k string)) {
		b.WriteString(`,"` + key + `":{`)
		// not more: generated code, which is not instrumented, would range over them in any order
		if g.Bool(1, 2) {
			k := "k" + genStr(g)
			b.WriteString(quoted(k, g) + ":")
			f(k)
		}
		b.WriteByte('}')
	}
	v.M, v.MT = map[string]gentypes.P{}, map[string][]gentypes.T{}
	dict("m", func(k string) { v.M[k] = gentypes.P{Text: js()} })
	dict("mt", func(k string) {
		b.WriteByte('[')
		v.MT[k] = []gentypes.T{{Text: ts()}}
		b.WriteByte(']')
	})
	b.WriteString(`,"v":`)
	v.V.Text = js()
	v.LW, v.N = []gentypes.W{}, []*gentypes.J{}
	list("lw", func() { v.LW = append(v.LW, gentypes.W{Text: ts()}) })
	list("n", func() {
		if g.Bool(1, 3) {
			b.WriteString("null")
			v.N = append(v.N, nil)
			return
		}
		v.N = append(v.N, &gentypes.J{Text: js()})
	})
	b.WriteString(`,"z":`)
	v.Z = ts()
	if v.F = float64(g.N(3)); v.F != 0 {
		fmt.Fprintf(&b, `,"f":%d`, int(v.F))
	}
	b.WriteByte('}')
	return v, b.String()
}

// genCodeBoxD generates JSON for a value, what its unmarshalers see and a check of the rest.
func genCodeBoxD(g *src) (string, []seen, func(v *gentypes.BoxD) bool) {
	var b strings.Builder
	var want []seen
	js := func() string {
		s := genText(g, 1)
		if s == "null" {
			s = "[null]"
		}
		want = append(want, seen{"json", s})
		return s
	}
	ts := func() string {
		s := genStr(g)
		want = append(want, seen{"text", s})
		return quoted(s, g)
	}
	list := func(n int, f func() string) string {
		p := make([]string, n)
		for i := range p {
			p[i] = f()
		}
		return strings.Join(p, ",")
	}
	in := func() string {
		if g.Bool(1, 2) {
			return `{"t":` + ts() + `,"j":` + js() + `}`
		}
		return `{"j":` + js() + `,"more":[{}],"t":` + ts() + `}`
	}
	a, z := g.N(1000), genStr(g)
	sizes := [4]int{}
	pj, pi, hasKey := false, false, ""
	fmt.Fprintf(&b, `{"a":%d`, a)
	back := g.Bool(1, 2)
	for i := 0; i < 9; i++ {
		k := i
		if back {
			k = 8 - i
		}
		if !g.Bool(1, 2) {
			continue
		}
		switch k {
		case 0:
			b.WriteString(`,"j":` + js())
		case 1:
			b.WriteString(`,"t":` + ts())
		case 2:
			sizes[0] = g.N(4)
			b.WriteString(`,"lj":[` + list(sizes[0], js) + `]`)
		case 3:
			sizes[1] = g.N(4)
			b.WriteString(`,"lt":[` + list(sizes[1], ts) + `]`)
		case 4:
			sizes[2] = g.N(4)
			i := 0
			b.WriteString(`,"mj":{` + list(sizes[2], func() string { i++; return fmt.Sprintf(`"k%d\n":`, i) + js() }) + `}`)
			if n := sizes[2]; n > 0 {
				hasKey = fmt.Sprintf("k%d\n", n)
			}
		case 5:
			pj = true
			b.WriteString(`,"pj":` + js())
		case 6:
			b.WriteString(`,"i":` + in())
		case 7:
			pi = true
			b.WriteString(`,"pi":` + in())
		case 8:
			sizes[3] = g.N(4)
			b.WriteString(`,"li":[` + list(sizes[3], in) + `]`)
		}
	}
	b.WriteString(`,"z":` + quoted(z, g) + `}`)
	return b.String(), want, func(v *gentypes.BoxD) bool {
		if _, ok := v.MJ[hasKey]; !ok && hasKey != "" {
			return false
		}
		return v.A == a && v.Z == z && [4]int{len(v.LJ), len(v.LT), len(v.MJ), len(v.LI)} == sizes && (v.PJ != nil) == pj && (v.PI != nil) == pi
	}
}

// genGeneratedCall encodes or decodes a value of a type with generated methods.
func genGeneratedCall(g *src) call {
	if g.Bool(1, 2) {
		v, text := genCodeBoxE(g)
		how := g.N(4)
		names := []string{"Marshal", "AppendJSON", "its own AppendJSON", "LineEncoder"}
		return call{"encode generated by " + names[how] + ": " + short(text), func(t *tk) {
			var b []byte
			var err error
			pre := "prefix:"
			switch how {
			case 0:
				pre = ""
				b, err = unjson.Marshal(v)
			case 1:
				b, err = unjson.AppendJSON([]byte(pre), v)
			case 2:
				if a, ok := interface{}(v).(njson.Appender); ok {
					core.Hit(pGenerated)
					b, err = a.AppendJSON([]byte(pre))
				} else {
					b, err = unjson.AppendJSON([]byte(pre), v)
				}
			default:
				pre = ""
				w := new(bytes.Buffer)
				err = unjson.NewLineEncoder(w).Encode(v)
				b = w.Bytes()
				if err != nil && len(b) > 0 {
					t.fail("partial output", "a failing value wrote %s", short(b))
				}
				if err == nil {
					if len(b) == 0 || b[len(b)-1] != '\n' {
						t.fail("wrong result", "wrote %s", short(b))
					}
					b = b[:len(b)-1]
				}
			}
			if !t.verdict(err) {
				return
			}
			if !bytes.HasPrefix(b, []byte(pre)) || !sameJSON(b[len(pre):], text) {
				t.fail("wrong result", "encoded as %s, want %s", short(b), short(pre+text))
			}
		}}
	}
	text, want, ok := genCodeBoxD(g)
	how := g.N(5)
	names := []string{"Unmarshal", "UnmarshalFromNode", "its own UnmarshalNodeJSON", "LineDecoder", "pooled document"}
	return call{"decode generated by " + names[how] + ": " + short(text), func(t *tk) {
		v := new(gentypes.BoxD)
		var err error
		switch how {
		case 0:
			err = unjson.Unmarshal([]byte(text), v)
		case 3:
			err = unjson.NewLineDecoder(bufio.NewReaderSize(onlyReader{strings.NewReader(text + "\n")}, 16)).Decode(v)
		default:
			d := new(njson.Document)
			if how == 4 {
				d = njson.Blank()
				defer func() {
					if t.panicked == nil && !t.exiting {
						d.Close()
					}
				}()
			}
			n, _, e := d.Parse(text)
			if e != nil {
				t.fail("parse", "%v", e)
			}
			if u, ok := interface{}(v).(njson.Unmarshaler); ok && how != 1 {
				core.Hit(pGenerated)
				err = u.UnmarshalNodeJSON(n)
			} else {
				err = unjson.UnmarshalFromNode(n, v)
			}
		}
		t.checkSeen(want)
		if t.verdict(err) && !ok(v) {
			t.fail("wrong result", "decoded as %s", short(v))
		}
	}}
}

type onlyReader struct{ r io.Reader }

func (r onlyReader) Read(p []byte) (int, error) { simrt.Yield(); return r.r.Read(p) }

// lineR is gentypes.Line without generated methods.
type lineR gentypes.Line

// genLine generates a value and its JSON, to be encoded or decoded.
func genLine(g *src, id int, encode bool) (*gentypes.Line, string) {
	var b strings.Builder
	list := func(n int, f func(i int)) {
		b.WriteByte('[')
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteByte(',')
			}
			f(i)
		}
		b.WriteByte(']')
	}
	str := func() string {
		s := genStr(g)
		b.WriteString(quoted(s, g))
		return s
	}
	num := func() int {
		n := g.N(2000) - 1000
		fmt.Fprintf(&b, "%d", n)
		return n
	}
	in := func() (v gentypes.InL) {
		if g.Bool(1, 2) {
			b.WriteString(`{"n":`)
			v.N = num()
			b.WriteString(`,"t":`)
			v.T = str()
		} else {
			b.WriteString(`{"t":`)
			v.T = str()
			b.WriteString(`,"n":`)
			v.N = num()
		}
		b.WriteByte('}')
		return v
	}
	size := func() int { return g.Pick(3, 4, 4, 2, 1, 1) }
	v := &gentypes.Line{ID: id}
	fmt.Fprintf(&b, `{"id":%d,"s":`, id)
	v.S = str()
	b.WriteString(`,"l":`)
	v.L = make([]string, size())
	list(len(v.L), func(i int) { v.L[i] = str() })
	b.WriteString(`,"n":`)
	v.N = make([]int, size())
	list(len(v.N), func(i int) { v.N[i] = num() })
	b.WriteString(`,"nn":`)
	v.NN = make([][]int, g.N(4))
	list(len(v.NN), func(i int) {
		v.NN[i] = make([]int, size())
		list(len(v.NN[i]), func(j int) { v.NN[i][j] = num() })
	})
	b.WriteString(`,"i":`)
	v.I = in()
	b.WriteString(`,"li":`)
	v.LI = make([]gentypes.InL, size())
	list(len(v.LI), func(i int) { v.LI[i] = in() })
	b.WriteString(`,"p":`)
	if !encode && g.Bool(1, 3) { // nil fields are left out by generated code
		b.WriteString("null")
	} else {
		p := in()
		v.P = &p
	}
	b.WriteString(`,"lp":`)
	v.LP = make([]*gentypes.InL, size())
	list(len(v.LP), func(i int) {
		if g.Bool(1, 4) {
			b.WriteString("null")
			return
		}
		p := in()
		v.LP[i] = &p
	})
	keys := func(f func(k string)) {
		b.WriteByte('{')
		n := g.N(4)
		if encode { // not in just any order
			n = min(n, 1)
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteByte(',')
			}
			k := fmt.Sprint(genStr(g), i)
			b.WriteString(quoted(k, g) + ":")
			f(k)
		}
		b.WriteByte('}')
	}
	b.WriteString(`,"m":`)
	v.M, v.MI = map[string]int{}, map[string]gentypes.InL{}
	keys(func(k string) { v.M[k] = num() })
	b.WriteString(`,"mi":`)
	keys(func(k string) { v.MI[k] = in() })
	v.S8, v.U, v.F4 = int8(g.N(256)-128), []uint32{0, 7, 1<<32 - 1}[g.N(3)], []float32{0, 1.5, math.MaxFloat32, -math.MaxFloat32}[g.N(4)]
	if encode {
		v.F4 = float32(g.N(3)) / 2
	}
	fmt.Fprintf(&b, `,"s8":%d,"u":%d,"f4":%s`, v.S8, v.U, strconv.FormatFloat(float64(v.F4), 'g', -1, 32))
	v.B = g.Bool(1, 2)
	v.F = genFloat(g)
	fmt.Fprintf(&b, `,"b":%v,"f":%s}`, v.B, fstr(v.F))
	return v, b.String()
}

// copyLine copies a value that is decoded into again.
func copyLine(v *gentypes.Line) *gentypes.Line {
	c := *v
	c.L = append([]string{}, v.L...)
	c.N = append([]int{}, v.N...)
	c.NN = append([][]int{}, v.NN...)
	for i, x := range c.NN {
		c.NN[i] = append([]int{}, x...)
	}
	c.LI = append([]gentypes.InL{}, v.LI...)
	c.LP = append([]*gentypes.InL{}, v.LP...)
	for i, x := range c.LP {
		if x != nil {
			p := *x
			c.LP[i] = &p
		}
	}
	if v.P != nil {
		p := *v.P
		c.P = &p
	}
	return &c
}
