package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/alxarch/njson/verifsim/core"
	"github.com/alxarch/njson/verifsim/simrt"
)

// Independent generation of JSON texts together with the Go values they stand for.

type src = simrt.Source

// Sub is nested in records.
type Sub struct {
	N int    `json:"n"`
	T string `json:"t"`
}

// Rec is the record type of typed workloads.
type Rec struct {
	ID int               `json:"id"`
	S  string            `json:"s"`
	F  float64           `json:"f"`
	B  bool              `json:"b"`
	L  []string          `json:"l"`
	M  map[string]string `json:"m"`
	P  *Sub              `json:"p"`
	Q  []Sub             `json:"q"`
	A  [2]int            `json:"a"`
	U  uint32            `json:"u"`
	X  interface{}       `json:"x"`
	I  int64             `json:"i"`
	V  uint64            `json:"v"`
	S8 int8              `json:"s8"`
	F4 float32           `json:"f4"`
	C  custom            `json:"c"`
	D  *custom           `json:"d"`
	K  map[mkey]int      `json:"k"`
	MI map[string][]int  `json:"mi"`
	MP map[string]*Sub   `json:"mp"`
	MS map[string]Sub    `json:"ms"`
	Y  anyT              `json:"y"`
	YM map[string]anyT   `json:"ym"`
	*RecEmb
	Pad string `json:"pad"`
}

// RecEmb is embedded in records by pointer.
type RecEmb struct {
	E int    `json:"e"`
	G string `json:"g"`
}

// anyT holds anything, like an interface{}.
type anyT interface{}

// mkey is a key type of its own.
type mkey string

// custom encodes itself as text, prefixed.
type custom struct{ t string }

func (x custom) MarshalText() ([]byte, error) { return []byte("~" + x.t), nil }

func (x *custom) UnmarshalText(b []byte) error {
	simrt.Yield()
	if len(b) == 0 || b[0] != '~' {
		return fmt.Errorf("custom: bad text %q", b)
	}
	x.t = string(b[1:])
	return nil
}

var pieces = []string{"", "a", "key value", "\\", "\"", "\n", "é", "\\\\", "\t{", "日本語", "},{", "\"\\", "[1,2", "\r\n", "</b>", "\u2028", "\x01", "😀", "\\u0041", "null", " "}

// bigText, if set for a run, is the size of the texts and values that are
// generated now and then.
var bigText int

// bigRun makes some runs handle large texts.
func bigRun(c *core.Ctx) {
	bigText = 0
	if c.Gen.Bool(1, 60) {
		bigText = []int{700, 3000, 5000, 20000, 70000}[c.Gen.Pick(2, 4, 4, 2, 1)]
		c.Sim.Cfg.MaxSteps += 4000 * int64(bigText)
		c.Describe("with texts of %d bytes", bigText)
		core.Hit(pBigText)
	}
}

var pBigText = core.Probe("large texts")

// genBig is a long text with some characters that need escapes.
func genBig(g *src) string {
	n := bigText + g.N(200)
	s := pad(n, g.N(36))
	if g.Bool(1, 2) {
		p := pieces[g.N(len(pieces))]
		for k := g.N(6); k >= 0; k-- {
			at := g.N(n)
			s = s[:at] + p + s[at:]
		}
	}
	return strings.ToValidUTF8(s, "?")
}

func genStr(g *src) string {
	if bigText > 0 && g.Bool(1, 8) {
		return genBig(g)
	}
	n := g.Pick(4, 3, 3, 2, 1)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(pieces[g.N(len(pieces))])
	}
	return b.String()
}

func genPlain(g *src) string {
	return []string{"x", "abc", "hello world", "0", "some longer plain text without anything special in it", "a{b}[c],:"}[g.N(6)]
}

// quote writes s as a JSON string, choosing among equivalent escapes.
func quote(b *strings.Builder, s string, g *src) {
	b.WriteByte('"')
	for _, r := range s {
		switch r {
		case '"':
			b.WriteString(`\"`)
		case '\\':
			b.WriteString(`\\`)
		case '\n':
			b.WriteString([]string{`\n`, `\u000a`, `\u000A`}[g.N(3)])
		case '\r':
			b.WriteString(`\r`)
		case '\t':
			b.WriteString([]string{`\t`, `\u0009`}[g.N(2)])
		default:
			if r < 0x20 {
				fmt.Fprintf(b, `\u%04x`, r)
			} else if r == 0xe9 && g.Bool(1, 2) {
				b.WriteString(`\u00e9`)
			} else if r == '/' && g.Bool(1, 2) {
				b.WriteString(`\/`)
			} else {
				b.WriteRune(r)
			}
		}
	}
	b.WriteByte('"')
}

func quoted(s string, g *src) string {
	var b strings.Builder
	quote(&b, s, g)
	return b.String()
}

func ws(b *strings.Builder, g *src, on bool) {
	if on && g.Bool(1, 5) {
		b.WriteString([]string{" ", "\t", "  "}[g.N(3)])
	}
}

func genInt(g *src) int64 {
	v := []int64{0, 1, 7, 42, 1000, 65535, 123456789, 1 << 40, 1<<53 - 1, 1<<53 + 1, 1<<63 - 1, 1234567890123456789}[g.N(12)]
	if g.Bool(1, 3) {
		return -v
	}
	return v
}

func genFloat(g *src) float64 {
	f := 0.0
	switch g.Pick(3, 1, 1) {
	case 0:
		f = float64(g.N(20000)) / []float64{1, 2, 4, 8}[g.N(4)]
	case 1:
		f = float64(g.N(1<<30)) / []float64{10, 1000, 1e7, 1e15, 1e-9}[g.N(5)]
	default:
		f = []float64{0.1, 1.1, 3.141592653589793, 1e21, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 1e22, 1e23, 123456789.12345679, 9007199254740993, 0.3, 1e-7, 4.35, 0.000001}[g.N(15)]
	}
	if g.Bool(1, 4) {
		f = -f
	}
	if f == 0 {
		return 0
	}
	return f
}

func fstr(f float64) string {
	if a := math.Abs(f); a != 0 && (a < 1e-6 || a >= 1e21) {
		return strconv.FormatFloat(f, 'e', -1, 64)
	}
	return strconv.FormatFloat(f, 'f', -1, 64)
}

// genAny writes a JSON value and returns its generic Go form.
func genAny(b *strings.Builder, g *src, depth int, spaces bool) interface{} {
	return genAnyK(b, g, depth, spaces, false)
}

// genAnyK is genAny; with plain set, keys need no escaping.
func genAnyK(b *strings.Builder, g *src, depth int, spaces, plain bool) interface{} {
	k := 0
	if depth > 0 {
		k = g.Pick(3, 2, 1, 1, 1, 3, 3)
	} else {
		k = g.Pick(3, 2, 1, 1, 1)
	}
	switch k {
	case 0:
		s := genStr(g)
		quote(b, s, g)
		return s
	case 1:
		f := genFloat(g)
		b.WriteString(fstr(f))
		return f
	case 2:
		b.WriteString("true")
		return true
	case 3:
		b.WriteString("false")
		return false
	case 4:
		b.WriteString("null")
		return nil
	case 5:
		n := g.N(4)
		if g.Bool(1, 16) {
			n, depth = n+4+g.N(20), 1
		}
		a := make([]interface{}, n)
		b.WriteByte('[')
		for i := range a {
			if i > 0 {
				b.WriteByte(',')
			}
			ws(b, g, spaces)
			a[i] = genAnyK(b, g, depth-1, spaces, plain)
			ws(b, g, spaces)
		}
		b.WriteByte(']')
		return a
	default:
		n := g.N(4)
		if g.Bool(1, 12) {
			n, depth = n+4+g.N(20), 1
		}
		m := make(map[string]interface{}, n)
		b.WriteByte('{')
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteByte(',')
			}
			k := []string{"a", "key", "long-ish key", "x_y"}[i%4]
			if i >= 4 {
				k += strconv.Itoa(i)
			}
			ws(b, g, spaces)
			if !plain && g.Bool(1, 6) {
				k += genStr(g)
				quote(b, k, g)
			} else {
				b.WriteString(`"` + k + `"`)
			}
			ws(b, g, spaces)
			b.WriteByte(':')
			ws(b, g, spaces)
			m[k] = genAnyK(b, g, depth-1, spaces, plain)
			ws(b, g, spaces)
		}
		b.WriteByte('}')
		return m
	}
}

// genRec generates a record with the given id; text is a JSON form of it
// without line breaks. Fields of zero value may be left out of the text.
func genRec(g *src, id int, spaces bool) (Rec, string) {
	r := Rec{ID: id}
	var b strings.Builder
	b.WriteByte('{')
	ws(&b, g, spaces)
	fmt.Fprintf(&b, `"id":%d`, id)
	field := func(name string) {
		ws(&b, g, spaces)
		b.WriteByte(',')
		ws(&b, g, spaces)
		b.WriteString(`"` + name + `"`)
		ws(&b, g, spaces)
		b.WriteByte(':')
		ws(&b, g, spaces)
	}
	full := g.N(3) // 0: few fields
	has := func() bool { return full > 0 && g.Bool(full, 3) }
	if has() {
		r.S = genStr(g)
		field("s")
		quote(&b, r.S, g)
	}
	if has() {
		r.F = genFloat(g)
		field("f")
		b.WriteString(fstr(r.F))
	}
	if has() {
		r.B = true
		field("b")
		b.WriteString("true")
	}
	if has() {
		n := g.N(4)
		r.L = make([]string, n)
		field("l")
		b.WriteByte('[')
		for i := range r.L {
			if i > 0 {
				b.WriteByte(',')
			}
			r.L[i] = genStr(g)
			quote(&b, r.L[i], g)
		}
		b.WriteByte(']')
	}
	if has() {
		r.M = map[string]string{}
		field("m")
		b.WriteByte('{')
		if g.Bool(2, 3) {
			s := genStr(g)
			k := "mk"
			if g.Bool(1, 4) {
				k = genStr(g)
			}
			r.M[k] = s
			quote(&b, k, g)
			b.WriteByte(':')
			quote(&b, s, g)
		}
		b.WriteByte('}')
	}
	sub := func() Sub {
		s := Sub{N: int(genInt(g)), T: genStr(g)}
		fmt.Fprintf(&b, `{"n":%d,"t":`, s.N)
		quote(&b, s.T, g)
		b.WriteByte('}')
		return s
	}
	if has() {
		field("p")
		s := sub()
		r.P = &s
	}
	if has() {
		n := g.N(3)
		r.Q = make([]Sub, n)
		field("q")
		b.WriteByte('[')
		for i := range r.Q {
			if i > 0 {
				b.WriteByte(',')
			}
			r.Q[i] = sub()
		}
		b.WriteByte(']')
	}
	if has() {
		r.A = [2]int{int(genInt(g)), int(genInt(g))}
		field("a")
		fmt.Fprintf(&b, "[%d,%d]", r.A[0], r.A[1])
	}
	if has() {
		r.U = uint32(g.N(1 << 30))
		field("u")
		fmt.Fprint(&b, r.U)
	}
	if has() {
		switch g.N(5) {
		case 0:
			r.I = genInt(g)
			field("i")
			fmt.Fprint(&b, r.I)
		case 1:
			r.V = uint64(genInt(g))
			field("v")
			fmt.Fprint(&b, r.V)
		case 2:
			r.S8 = int8(g.N(256) - 128)
			field("s8")
			fmt.Fprint(&b, r.S8)
		case 3:
			r.F4 = []float32{0.1, 1.5, 3.4028235e38, 1e-45, 16777217, -2.7}[g.N(6)]
			field("f4")
			b.WriteString(strconv.FormatFloat(float64(r.F4), 'g', -1, 32))
		default:
			r.I, r.V = genInt(g), 1<<64-1
			field("i")
			fmt.Fprint(&b, r.I)
			field("v")
			fmt.Fprint(&b, r.V)
		}
	}
	if has() {
		r.C.t = genStr(g)
		field("c")
		quote(&b, "~"+r.C.t, g)
	}
	if has() {
		switch g.N(3) {
		case 0:
			r.D = &custom{genStr(g)}
			field("d")
			quote(&b, "~"+r.D.t, g)
		case 1:
			k := genStr(g)
			r.K = map[mkey]int{mkey(k): 5}
			field("k")
			b.WriteByte('{')
			quote(&b, k, g)
			b.WriteString(":5}")
		default:
			r.RecEmb = &RecEmb{E: int(genInt(g)), G: genStr(g)}
			field("g")
			quote(&b, r.G, g)
			field("e")
			fmt.Fprint(&b, r.E)
		}
	}
	if has() {
		// values of maps, of which each must have storage of its own
		n := 1 + g.N(3)
		switch g.N(3) {
		case 0:
			r.MI = map[string][]int{}
			field("mi")
			b.WriteByte('{')
			for i := 0; i < n; i++ {
				if i > 0 {
					b.WriteByte(',')
				}
				l := make([]int, g.N(4))
				fmt.Fprintf(&b, `"m%d":[`, i)
				for k := range l {
					if k > 0 {
						b.WriteByte(',')
					}
					l[k] = i*10 + k
					fmt.Fprint(&b, l[k])
				}
				b.WriteByte(']')
				r.MI[fmt.Sprintf("m%d", i)] = l
			}
			b.WriteByte('}')
		default:
			r.MP, r.MS = map[string]*Sub{}, map[string]Sub{}
			ptr := g.Bool(1, 2)
			if ptr {
				r.MS = nil
				field("mp")
			} else {
				r.MP = nil
				field("ms")
			}
			b.WriteByte('{')
			for i := 0; i < n; i++ {
				if i > 0 {
					b.WriteByte(',')
				}
				fmt.Fprintf(&b, `"m%d":`, i)
				var s Sub
				switch g.N(4) {
				case 0:
					s = sub()
				case 1:
					s.N = 1 + i
					fmt.Fprintf(&b, `{"n":%d}`, s.N)
				case 2:
					s.T = "t"
					b.WriteString(`{"t":"t"}`)
				default:
					b.WriteString(`{}`)
				}
				if ptr {
					r.MP[fmt.Sprintf("m%d", i)] = &s
				} else {
					r.MS[fmt.Sprintf("m%d", i)] = s
				}
			}
			b.WriteByte('}')
		}
	}
	if has() {
		field("x")
		r.X = genAny(&b, g, 2, spaces)
	}
	if g.Bool(1, 6) {
		field("y")
		r.Y = genAny(&b, g, 2, spaces)
	}
	if g.Bool(1, 8) {
		field("ym")
		r.YM = map[string]anyT{}
		b.WriteByte('{')
		for i, n := 0, g.N(3); i < n; i++ {
			if i > 0 {
				b.WriteByte(',')
			}
			fmt.Fprintf(&b, `"y%d":`, i)
			r.YM[fmt.Sprintf("y%d", i)] = genAny(&b, g, 1, spaces)
		}
		b.WriteByte('}')
	}
	ws(&b, g, spaces)
	b.WriteByte('}')
	return r, b.String()
}

// padRec pads the text of a record to length n, if it is shorter.
func padRec(r Rec, text string, n int) (Rec, string) {
	need := n - len(text) - len(`,"pad":""`)
	if need < 0 {
		return r, text
	}
	r.Pad = pad(need, r.ID)
	return r, text[:len(text)-1] + `,"pad":"` + r.Pad + `"}`
}

// pad returns n bytes that are different for different ids and positions.
func pad(n, id int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[(i*7+i/36+id*5)%36]
	}
	return string(b)
}

// eqRec compares records; a nil and an empty list or map differ.
func eqRec(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

func short(v interface{}) string {
	var s string
	switch v := v.(type) {
	case string:
		s = strconv.Quote(v)
	case []byte:
		s = strconv.Quote(string(v))
	case *Rec:
		s = fmt.Sprintf("%+v", *v)
	default:
		s = fmt.Sprintf("%+v", v)
	}
	if len(s) > 300 {
		s = s[:140] + "..." + s[len(s)-140:] + fmt.Sprintf(" (%d bytes)", len(s))
	}
	return s
}

// scrub overwrites a decoded value, which is the caller's own: maps, lists with
// their spare capacity, and what pointers lead to.
func scrub(v interface{}) { scrubV(reflect.ValueOf(v), 12) }

func scrubV(v reflect.Value, depth int) {
	if depth < 0 {
		return
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			scrubV(v.Elem(), depth-1)
			if e := v.Elem(); v.Kind() == reflect.Ptr && e.CanSet() && e.Kind() == reflect.Interface {
				e.Set(reflect.Zero(e.Type()))
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		for _, k := range v.MapKeys() {
			scrubV(v.MapIndex(k), depth-1)
			v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
		}
		if v.Type().Key().Kind() == reflect.String {
			v.SetMapIndex(reflect.ValueOf("scrubbed").Convert(v.Type().Key()), reflect.Zero(v.Type().Elem()))
		}
	case reflect.Slice:
		v = v.Slice(0, v.Cap())
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			e := v.Index(i)
			scrubV(e, depth-1)
			if e.CanSet() {
				scrubSet(e)
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			e := v.Field(i)
			scrubV(e, depth-1)
			if e.CanSet() {
				scrubSet(e)
			}
		}
	}
}

func scrubSet(e reflect.Value) {
	switch e.Kind() {
	case reflect.String:
		e.SetString("scrubbed")
	case reflect.Interface:
		if e.NumMethod() == 0 {
			e.Set(reflect.ValueOf("scrubbed"))
		}
	case reflect.Int, reflect.Int64:
		e.SetInt(-77)
	}
}
