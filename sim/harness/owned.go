package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/strjson"
	"github.com/alxarch/njson/unjson"
	"github.com/alxarch/njson/verifsim/core"
	"github.com/alxarch/njson/verifsim/gentypes"
	"github.com/alxarch/njson/verifsim/simrt"
)

// ---- values that keep what their methods are given

// uV, uT and uN code themselves. What they hold is compact JSON (uT: text).
type uV struct{ S string }

func (u *uV) UnmarshalJSON(b []byte) error {
	s := string(b)
	if err := sawBytes("json", b); err != nil {
		return err
	}
	u.S = s
	return nil
}

func (u uV) MarshalJSON() ([]byte, error) { return eJ{u.S}.MarshalJSON() }

type uT struct{ S string }

func (u *uT) UnmarshalText(b []byte) error {
	s := string(b)
	if err := sawBytes("text", b); err != nil {
		return err
	}
	u.S = s
	return nil
}

func (u uT) MarshalText() ([]byte, error) { return eT{u.S}.MarshalText() }

type uN struct{ S string }

func (u *uN) UnmarshalNodeJSON(n njson.Node) error {
	b, err := n.AppendJSON(nil)
	if err == nil {
		err = sawNode(n)
	}
	if err != nil {
		return err
	}
	u.S = string(b)
	return nil
}

func (u uN) AppendJSON(dst []byte) ([]byte, error) { return eA{u.S}.AppendJSON(dst) }

// redo is a type with such values in every position.
type redo struct {
	ID  int              `json:"id"`
	S   string           `json:"s"`
	U   uV               `json:"u"`
	LI  []int            `json:"li"`
	T   uT               `json:"t"`
	P   *uV              `json:"p"`
	L   []uV             `json:"l"`
	LT  []uT             `json:"lt"`
	A   [2]uT            `json:"a"`
	M   map[string]uV    `json:"m"`
	MT  map[uT]int       `json:"mt"`
	X   interface{}      `json:"x"`
	N   uN               `json:"n"`
	LP  []*uN            `json:"lp"`
	Sub *redo            `json:"sub"`
	SL  []redo           `json:"sl"`
	ML  map[string][]int `json:"ml"`
	F   float64          `json:"f"`
	EmbU
	Z string `json:"z"`
}

// EmbU is embedded in redo.
type EmbU struct {
	EV uV   `json:"ev"`
	EL []uN `json:"el"`
}

// genRedo generates a value and its JSON. Every field is there, so that the
// value is equal to what decoding the text into any redo gives. To be encoded the
// text must be full.
func genRedo(g *src, depth int, full bool) (*redo, string) {
	var b strings.Builder
	v := &redo{ID: g.N(1000)}
	fmt.Fprintf(&b, `{"id":%d`, v.ID)
	field := func(name string) { b.WriteString(`,"` + name + `":`) }
	js := func() string {
		var x strings.Builder
		genAnyK(&x, g, 1, false, true)
		b.WriteString(x.String())
		return x.String()
	}
	txt := func() string {
		s := genStr(g)
		b.WriteString(quoted(s, g))
		return s
	}
	num := func() int {
		n := g.N(2000) - 1000
		fmt.Fprintf(&b, "%d", n)
		return n
	}
	list := func(n int, f func(i int)) {
		b.WriteByte('[')
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteByte(',')
			}
			f(i)
		}
		b.WriteByte(']')
	}
	keys := func(f func(k string)) {
		b.WriteByte('{')
		for i, n := 0, g.N(3); i < n; i++ {
			if i > 0 {
				b.WriteByte(',')
			}
			k := fmt.Sprint("k", genPlain(g), i)
			b.WriteString(quoted(k, g) + ":")
			f(k)
		}
		b.WriteByte('}')
	}
	size := func() int { return g.Pick(2, 4, 2, 1) }
	some := func() bool { return g.Bool(2, 3) }
	if some() || full {
		field("s")
		v.S = txt()
	}
	if some() {
		field("u")
		v.U.S = js()
	} else {
		field("u")
		b.WriteString("{}")
		v.U.S = "{}"
	}
	field("li")
	v.LI = make([]int, size())
	list(len(v.LI), func(i int) { v.LI[i] = num() })
	field("t")
	v.T.S = txt()
	if some() {
		field("p")
		v.P = new(uV)
		v.P.S = strings.Replace(quoted(genPlain(g), g), "/", "", -1)
		b.WriteString(v.P.S)
	} else if full {
		field("p")
		b.WriteString("null")
	}
	field("l")
	v.L = make([]uV, size())
	list(len(v.L), func(i int) { v.L[i].S = js() })
	field("lt")
	v.LT = make([]uT, size())
	list(len(v.LT), func(i int) { v.LT[i].S = txt() })
	field("a")
	nA := 2
	if !full {
		nA = g.N(4) // missing elements are zero, others are dropped
	}
	list(nA, func(i int) {
		if s := txt(); i < 2 {
			v.A[i].S = s
		}
	})
	field("m")
	v.M = map[string]uV{}
	keys(func(k string) { v.M[k] = uV{js()} })
	field("mt")
	v.MT = map[uT]int{}
	keys(func(k string) { v.MT[uT{k}] = num() })
	if some() {
		field("x")
		v.X = genAnyK(&b, g, 2, false, true)
	} else if full {
		field("x")
		b.WriteString("null")
	}
	field("n")
	v.N.S = js()
	field("lp")
	v.LP = make([]*uN, size())
	list(len(v.LP), func(i int) {
		v.LP[i] = new(uN)
		v.LP[i].S = fmt.Sprintf(`{"n":%d}`, g.N(100))
		b.WriteString(v.LP[i].S)
	})
	if depth > 0 && g.Bool(1, 2) {
		field("sub")
		var s string
		v.Sub, s = genRedo(g, depth-1, full)
		b.WriteString(s)
	} else if full {
		field("sub")
		b.WriteString("null")
	}
	field("sl")
	v.SL = make([]redo, g.N(3)*depth)
	list(len(v.SL), func(i int) {
		x, s := genRedo(g, 0, full)
		v.SL[i] = *x
		b.WriteString(s)
	})
	field("ml")
	v.ML = map[string][]int{}
	keys(func(k string) {
		l := make([]int, size())
		list(len(l), func(i int) { l[i] = num() })
		v.ML[k] = l
	})
	field("f")
	v.F = genFloat(g)
	b.WriteString(fstr(v.F))
	field("ev")
	v.EV.S = js()
	field("el")
	v.EL = make([]uN, size())
	list(len(v.EL), func(i int) { v.EL[i].S = js() })
	field("z")
	v.Z = txt()
	b.WriteByte('}')
	return v, b.String()
}

// deepCopy copies a value and everything it leads to, down to the bytes of strings.
func deepCopy(v interface{}) interface{} {
	if v == nil {
		return nil
	}
	return deepCopyV(reflect.ValueOf(v)).Interface()
}

func deepCopyV(v reflect.Value) reflect.Value {
	c := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			c.Set(reflect.New(v.Type().Elem()))
			c.Elem().Set(deepCopyV(v.Elem()))
		}
	case reflect.Interface:
		if !v.IsNil() {
			c.Set(deepCopyV(v.Elem()))
		}
	case reflect.Map:
		if !v.IsNil() {
			c.Set(reflect.MakeMap(v.Type()))
			for _, k := range v.MapKeys() {
				c.SetMapIndex(deepCopyV(k), deepCopyV(v.MapIndex(k)))
			}
		}
	case reflect.Slice:
		if !v.IsNil() {
			c.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
			for i := 0; i < v.Len(); i++ {
				c.Index(i).Set(deepCopyV(v.Index(i)))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			c.Index(i).Set(deepCopyV(v.Index(i)))
		}
	case reflect.Struct:
		c.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if c.Field(i).CanSet() && v.Type().Field(i).PkgPath == "" {
				c.Field(i).Set(deepCopyV(v.Field(i)))
			}
		}
	case reflect.String:
		c.SetString(strings.Clone(v.String()))
	default:
		c.Set(v)
	}
	return c
}

// equalTo compares a decoded value with the one that was encoded. Generated code
// leaves a nil slice as it is for an empty list.
func equalTo(x, want interface{}) bool {
	if l, ok := x.(*gentypes.Line); ok {
		return reflect.DeepEqual(withLists(l), withLists(want.(*gentypes.Line)))
	}
	return reflect.DeepEqual(x, want)
}

func withLists(v *gentypes.Line) *gentypes.Line {
	c := copyLine(v)
	for i, x := range c.NN {
		c.NN[i] = append([]int{}, x...)
	}
	return c
}

// ---- C19: what calls return belongs to the caller

var (
	pHeld    = core.Probe("result checked again after later calls")
	pSpoiled = core.Probe("result overwritten by its owner")
	pInput   = core.Probe("input buffer overwritten by its owner after the call")
)

// held is something that belongs to a task.
type held struct {
	what  string
	check func() string
	spoil func()
}

type holds struct {
	list []*held
	mark int // of the last value, different in every task
	n    int // times they were looked at
}

func (h *holds) bytes(what string, b []byte) {
	b = b[:cap(b)]
	want := string(b)
	h.add(&held{"the bytes of " + what, func() string {
		if string(b) != want {
			return fmt.Sprintf("were %s and are %s", short(want), short(b))
		}
		return ""
	}, func() {
		for i := range b {
			b[i] ^= 0x55
		}
		want = string(b)
	}})
}

func (h *holds) value(what string, v interface{}) {
	want := deepCopy(v)
	// the room behind slices is the owner's too
	h.mark++
	mark := h.mark
	if bad := markSpare(reflect.ValueOf(v), mark, false); bad != "" {
		panic(bad)
	}
	h.add(&held{"the value of " + what, func() string {
		if !reflect.DeepEqual(v, want) {
			return fmt.Sprintf("was %s and is %s", short(want), short(v))
		}
		return markSpare(reflect.ValueOf(v), mark, true)
	}, func() {
		scrub(v)
		want = deepCopy(v)
		markSpare(reflect.ValueOf(v), mark, false)
	}})
}

// markSpare writes a mark to the room behind the slices of a value, or checks it.
func markSpare(v reflect.Value, mark int, check bool) (bad string) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			return markSpare(v.Elem(), mark, check)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if s := markSpare(v.MapIndex(k), mark, check); s != "" {
				return s
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField() && bad == ""; i++ {
			if v.Type().Field(i).PkgPath == "" {
				bad = markSpare(v.Field(i), mark, check)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len() && bad == ""; i++ {
			bad = markSpare(v.Index(i), mark, check)
		}
	case reflect.Slice:
		for i := 0; i < v.Len() && bad == ""; i++ {
			bad = markSpare(v.Index(i), mark, check)
		}
		n := v.Len()
		for w := v.Slice(0, v.Cap()); n < w.Len() && bad == ""; n++ {
			var m reflect.Value
			switch el := w.Index(n); el.Kind() {
			case reflect.Int:
				m = reflect.ValueOf(mark).Convert(el.Type())
			case reflect.String:
				m = reflect.ValueOf(fmt.Sprint("mark", mark)).Convert(el.Type())
			case reflect.Interface:
				if el.NumMethod() > 0 {
					continue
				}
				m = reflect.ValueOf(fmt.Sprint("mark", mark))
			default:
				continue
			}
			if !check {
				w.Index(n).Set(m)
			} else if x := w.Index(n).Interface(); x != m.Interface() {
				return fmt.Sprintf("had %v appended to one of its slices and now there is %v", m, x)
			}
		}
	}
	return bad
}

// add keeps the first and the latest of many.
func (h *holds) add(x *held) {
	if len(h.list) >= 40 {
		h.list = append(h.list[:20], h.list[21:]...)
	}
	h.list = append(h.list, x)
}

// check looks at the results after a call, once in a while if there are very many calls.
func (h *holds) check(t *tk) {
	if h.n++; h.n < 200 || h.n%50 == 0 {
		h.look(t)
	}
}

func (h *holds) look(t *tk) {
	for _, x := range h.list {
		if s := x.check(); s != "" {
			t.fail("result changed", "%s %s", x.what, s)
		}
		core.Hit(pHeld)
	}
}

// arena is a caller's buffer of which a part is given away.
type arena struct {
	all      []byte
	from, to int
	pre      string
}

func genArena(g *src) *arena {
	a := &arena{pre: []string{"", "prefix:", "[1,"}[g.N(3)]}
	n := g.N(40)
	a.from = n
	a.to = n + len(a.pre) + []int{0, 3, 60, 900}[g.N(4)]
	a.all = make([]byte, a.to+g.N(40))
	return a
}

// fresh is another one like it.
func (a *arena) fresh() *arena {
	b := *a
	b.all = make([]byte, len(a.all))
	return &b
}

// dst is what is given away.
func (a *arena) dst() []byte {
	for i := range a.all {
		a.all[i] = byte('A' + i%26)
	}
	copy(a.all[a.from:], a.pre)
	return a.all[a.from : a.from+len(a.pre) : a.to]
}

// check looks at the rest, and at the result if there is one.
func (a *arena) check(t *tk, what string, b []byte, failed bool) {
	for i, c := range a.all {
		if (i < a.from || i >= a.to) && c != byte('A'+i%26) {
			t.fail("buffer overrun", "%s: byte %d of the caller's buffer was changed, of which only %d to %d were given", what, i, a.from, a.to)
		}
	}
	if string(a.all[a.from:a.from+len(a.pre)]) != a.pre {
		t.fail("prefix changed", "%s: the bytes already in the output buffer were %s and are %s", what, a.pre, short(a.all[a.from:a.from+len(a.pre)]))
	}
	if !failed && !bytes.HasPrefix(b, []byte(a.pre)) {
		t.fail("prefix changed", "%s: the result %s does not start with %s", what, short(b), a.pre)
	}
}

// ownJ and ownT marshal themselves to bytes of their own, with more behind.
type ownJ struct{ buf []byte }

func newOwn(s string) []byte {
	b := append(make([]byte, 0, len(s)+16), s...)
	copy(b[len(s):cap(b)], "................")
	return b
}

func (o ownJ) MarshalJSON() ([]byte, error) {
	if err := curTk().callback("MarshalJSON", nil); err != nil {
		return o.buf, err
	}
	return o.buf, nil
}

type ownT struct{ buf []byte }

func (o ownT) MarshalText() ([]byte, error) {
	if err := curTk().callback("MarshalText", nil); err != nil {
		return o.buf, err
	}
	return o.buf, nil
}

type ownBox struct {
	J ownJ            `json:"j"`
	L []ownT          `json:"l"`
	M map[string]ownJ `json:"m"`
	X interface{}     `json:"x"`
}

// genOwnCall generates a call whose inputs are overwritten and whose results are kept.
func genOwnCall(g *src, sh *shared, hs *[21]holds) call {
	hold := func(t *tk) *holds { return &hs[t.id+1] }
	spoil := -1
	if g.Bool(1, 2) {
		spoil = g.N(16)
	}
	done := func(t *tk) {
		h := hold(t)
		simrt.Yield()
		h.check(t)
		if spoil >= 0 && len(h.list) > 0 {
			x := h.list[len(h.list)-1-spoil%len(h.list)]
			core.Hit(pSpoiled)
			x.spoil()
		}
	}
	switch g.Pick(4, 3, 4, 5, 2, 2, 2) {
	case 0: // decoding from bytes
		type target struct {
			new  func() interface{}
			want interface{}
		}
		var tg target
		var text string
		switch g.N(5) {
		case 0:
			r, s := genRec(g, g.N(100), g.Bool(1, 3))
			tg, text = target{func() interface{} { return new(Rec) }, &r}, s
		case 1:
			var b strings.Builder
			x := genAny(&b, g, 3, g.Bool(1, 3))
			tg, text = target{func() interface{} { return new(interface{}) }, &x}, b.String()
		case 2:
			v, s := genRedo(g, 1, false)
			tg, text = target{func() interface{} { return new(redo) }, v}, s
		case 3:
			v, s := genLine(g, g.N(100), false)
			tg, text = target{func() interface{} { return new(gentypes.Line) }, v}, s
		default: // the small results that might be shared
			k := g.N(6)
			text = []string{"[]", "{}", `""`, "[[],[],{},{}]", `{"a":{},"b":[],"c":""}`, `["",{},[]]`}[k]
			x := []interface{}{[]interface{}{}, map[string]interface{}{}, "", []interface{}{[]interface{}{}, []interface{}{}, map[string]interface{}{}, map[string]interface{}{}},
				map[string]interface{}{"a": map[string]interface{}{}, "b": []interface{}{}, "c": ""}, []interface{}{"", map[string]interface{}{}, []interface{}{}}}[k]
			tg, text = target{func() interface{} { return new(interface{}) }, &x}, text
		}
		how := g.N(4)
		return call{fmt.Sprintf("decode bytes by way %d: %s", how, short(text)), func(t *tk) {
			data := newOwn(text)
			x := tg.new()
			var err error
			switch how {
			case 0, 1:
				err = unjson.Unmarshal(data, x)
			case 2:
				err = unjson.NewLineDecoder(bytes.NewBuffer(data)).Decode(x)
			case 3:
				d := njson.Blank()
				var n njson.Node
				n, _, err = d.Parse(string(data))
				if err == nil {
					err = unjson.UnmarshalFromNode(n, x)
				}
				d.Close()
			}
			if string(data) != text || string(data[len(data):cap(data)]) != "................"[:cap(data)-len(data)] {
				t.fail("input changed", "the bytes decoded were %s and are %s", short(text), short(data))
			}
			core.Hit(pInput)
			overwrite(data)
			if t.verdict(err) && !equalTo(x, tg.want) {
				t.fail("wrong result", "decoded as %s, want %s", short(x), short(tg.want))
			}
			hold(t).value("decoding "+short(text), x)
			done(t)
		}}
	case 1: // encoding to new bytes
		var x interface{}
		var text string
		switch g.N(4) {
		case 0:
			r, s := genRec(g, g.N(100), false)
			x, text = &r, s
		case 1:
			var b strings.Builder
			x = genAny(&b, g, 3, false)
			text = b.String()
		case 2:
			x, text = genRedo(g, 1, true)
		default:
			x, text = genLine(g, g.N(100), true)
		}
		how := g.N(3)
		if x == nil {
			how = 0
		}
		ar := genArena(g)
		return call{fmt.Sprintf("encode by way %d: %s", how, short(text)), func(t *tk) {
			ar := ar.fresh()
			before := deepCopy(x)
			var b []byte
			var err error
			pre := ""
			switch how {
			case 0:
				b, err = unjson.Marshal(x)
			case 1:
				pre = ar.pre
				b, err = unjson.AppendJSON(ar.dst(), x)
			default:
				pre = ar.pre
				enc, e := sh.cache.Encoder(reflect.TypeOf(x))
				if e != nil {
					t.fail("codec", "%v", e)
				}
				b, err = enc.Encode(ar.dst(), x)
			}
			if how > 0 {
				ar.check(t, "encode", b, err != nil)
			}
			if !reflect.DeepEqual(x, before) {
				t.fail("input changed", "the value encoded was %s and is %s", short(before), short(x))
			}
			if t.verdict(err) {
				if _, rec := x.(*Rec); rec && !recFromJSON(b[len(pre):], x.(*Rec)) || !rec && !sameJSON(b[len(pre):], text) {
					t.fail("wrong result", "encoded as %s, want %s", short(b), short(text))
				}
				hold(t).bytes("encoding "+short(text), b)
			}
			done(t)
		}}
	case 2: // reading a document that then goes on
		var sb strings.Builder
		x := genAnyK(&sb, g, 3, false, true)
		text := sb.String()
		other := func() string { var b strings.Builder; genAny(&b, g, 2, false); return b.String() }()
		pooled, next := g.Bool(2, 3), g.N(4)
		ar, ar2 := genArena(g), genArena(g)
		scr := g.Bool(1, 2)
		return call{"read a document of " + short(text), func(t *tk) {
			ar, ar2 := ar.fresh(), ar2.fresh()
			d := new(njson.Document)
			if pooled {
				d = njson.Blank()
			}
			n, _, err := d.Parse(text)
			if err != nil {
				t.fail("parse", "%v", err)
			}
			h := hold(t)
			v, ok := n.ToInterface()
			if !ok || !reflect.DeepEqual(v, x) {
				t.fail("wrong result", "document of %s converted to %s", short(text), short(v))
			}
			var v2 interface{}
			err = unjson.UnmarshalFromNode(n, &v2)
			if t.verdict(err) && !reflect.DeepEqual(v2, x) {
				t.fail("wrong result", "document of %s decoded as %s", short(text), short(v2))
			}
			h.value("converting "+short(text), v)
			h.value("decoding the node "+short(text), v2)
			if scr {
				scrub(v)
				scrub(&v2)
				h.list = h.list[:len(h.list)-2]
				h.value("converting (overwritten) "+short(text), v)
				h.value("decoding the node (overwritten) "+short(text), v2)
			}
			b, err := n.AppendJSON(ar.dst())
			ar.check(t, "Node.AppendJSON", b, err != nil)
			if t.verdict(err) && string(b[len(ar.pre):]) != text {
				t.fail("wrong result", "document of %s serialised as %s", short(text), short(b))
			}
			if scr {
				overwrite(b)
			}
			h.bytes("serialising "+short(text), b)
			b, err = d.AppendJSON(ar2.dst())
			ar2.check(t, "Document.AppendJSON", b, err != nil)
			if t.verdict(err) && string(b[len(ar2.pre):]) != text {
				t.fail("wrong result", "document of %s serialised as %s", short(text), short(b))
			}
			h.bytes("serialising document "+short(text), b)
			strs := []string{n.Raw(), n.Unescaped()}
			for it := n.Values(); it.Next(); {
				strs = append(strs, it.Key(), it.Value().Raw(), it.Value().Unescaped())
			}
			h.value("the strings of "+short(text), &strs)
			simrt.Yield()
			h.check(t)
			switch next {
			case 0:
				n.SetString("changed")
			case 1:
				for it := n.Values(); it.Next(); {
					it.Value().SetInt(77)
				}
				n.Set("new", d.Text("added"))
				n.Append(d.Text("added"))
			case 2:
				d.Reset()
				d.Parse(other)
			}
			h.check(t)
			if pooled {
				d.Close()
			}
			done(t)
		}}
	case 3: // marshalers that return bytes of their own
		var texts []string
		js := func() string {
			s := genText(g, 1)
			if g.Bool(1, 3) {
				s = "{\n\"a\" : " + s + "\n}"
			}
			texts = append(texts, s)
			return s
		}
		var b strings.Builder
		b.WriteString(`{"j":` + js() + `,"l":[`)
		nl := g.N(3)
		for i := 0; i < nl; i++ {
			s := genStr(g)
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(quoted(s, g))
			texts = append(texts, s)
		}
		b.WriteString(`],"m":{`)
		inMap := g.Bool(1, 2)
		if inMap {
			b.WriteString(`"k":` + js())
		}
		last := js()
		b.WriteString(`},"x":` + last + `}`)
		boxText := b.String()
		how := g.N(4)
		ar := genArena(g)
		return call{fmt.Sprintf("encode values with buffers by way %d: %s", how, short(boxText)), func(t *tk) {
			ar := ar.fresh()
			text := boxText
			bufs := [][]byte{}
			for _, s := range texts {
				bufs = append(bufs, newOwn(s))
			}
			box := &ownBox{J: ownJ{bufs[0]}, L: []ownT{}, M: map[string]ownJ{}, X: ownJ{bufs[len(bufs)-1]}}
			for i := 0; i < nl; i++ {
				box.L = append(box.L, ownT{bufs[1+i]})
			}
			if inMap {
				box.M["k"] = ownJ{bufs[1+nl]}
			}
			check := func() {
				for i, buf := range bufs {
					if string(buf) != texts[i] || string(buf[len(buf):cap(buf)]) != "................"[:cap(buf)-len(buf)] {
						t.fail("input changed", "the buffer a marshaler returned was %s and is %s", short(texts[i]), short(buf[:cap(buf)]))
					}
				}
			}
			var b []byte
			var err error
			pre := ""
			switch how {
			case 0:
				b, err = unjson.Marshal(box)
			case 1:
				pre = ar.pre
				b, err = unjson.AppendJSON(ar.dst(), box)
				ar.check(t, "AppendJSON", b, err != nil)
			case 2:
				b, err = unjson.Marshal(box.X)
				text = last
			default:
				w := new(bytes.Buffer)
				e := unjson.NewLineEncoder(w)
				for i := 0; i < 2 && err == nil; i++ {
					w.Reset()
					err = e.Encode(box)
				}
				b = w.Bytes()
			}
			check()
			if t.verdict(err) && !sameJSON(b[len(pre):], text) {
				t.fail("wrong result", "encoded as %s, want %s", short(b), short(text))
			}
			h := hold(t)
			h.bytes("encoding "+short(text), b)
			for i, buf := range bufs {
				overwrite(buf)
				h.bytes(fmt.Sprint("marshaler's buffer ", i), buf)
			}
			done(t)
		}}
	case 4: // strings
		s := genStr(g) + genPlain(g)
		ar, ar2 := genArena(g), genArena(g)
		html := g.Bool(1, 2)
		return call{"escape and unescape " + short(s), func(t *tk) {
			ar, ar2 := ar.fresh(), ar2.fresh()
			h := hold(t)
			e := strjson.Escaped(s, html, false)
			u := strjson.Unescaped(e)
			ae := strjson.AppendEscaped(ar.dst(), s, html)
			ar.check(t, "AppendEscaped", ae, false)
			au := strjson.AppendUnescaped(ar2.dst(), e)
			ar2.check(t, "AppendUnescaped", au, false)
			if u != s || string(au[len(ar2.pre):]) != s || string(ae[len(ar.pre):]) != e {
				t.fail("wrong result", "%q escaped as %q and %q, unescaped as %q and %q", s, e, ae, u, au)
			}
			strs := []string{e, u}
			h.value("strings", &strs)
			h.bytes("AppendEscaped", ae)
			h.bytes("AppendUnescaped", au)
			done(t)
		}}
	case 5: // a stream read from the caller's bytes
		n := 1 + g.N(5)
		var data strings.Builder
		var wants []interface{}
		kinds := []int{}
		for i := 0; i < n; i++ {
			k := g.N(3)
			kinds = append(kinds, k)
			switch k {
			case 0:
				r, s := genRec(g, i, false)
				wants = append(wants, &r)
				data.WriteString(s + "\n")
			case 1:
				x := genAny(&data, g, 2, false)
				wants = append(wants, &x)
				data.WriteString("\n")
			default:
				v, s := genLine(g, i, false)
				wants = append(wants, v)
				data.WriteString(s + "\n")
			}
		}
		text := data.String()
		way := g.N(3)
		return call{fmt.Sprintf("decode %d lines: %s", n, short(text)), func(t *tk) {
			b := newOwn(text)
			var r io.Reader = bytes.NewBuffer(b)
			switch way {
			case 1:
				r = bufio.NewReaderSize(bytes.NewReader(b), 16)
			case 2:
				r = onlyReader{bytes.NewReader(b)}
			}
			d := unjson.NewLineDecoder(r)
			h := hold(t)
			for i := range wants {
				x := reflect.New(reflect.TypeOf(wants[i]).Elem()).Interface()
				err := d.Decode(x)
				if t.verdict(err) && !equalTo(x, wants[i]) {
					t.fail("wrong result", "line %d decoded as %s, want %s", i, short(x), short(wants[i]))
				}
				h.value(fmt.Sprint("line ", i), x)
				h.check(t)
				if spoil == i {
					h.list[len(h.list)-1].spoil()
				}
			}
			if err := d.Decode(new(interface{})); err != io.EOF {
				t.fail("no end of stream", "error %v", err)
			}
			if string(b) != text || string(b[len(b):cap(b)]) != "................"[:cap(b)-len(b)] {
				t.fail("input changed", "the bytes read were %s and are %s", short(text), short(b[:cap(b)]))
			}
			overwrite(b)
			done(t)
		}}
	default: // other calls in between
		return genPlainCall(g, sh, 3)
	}
}

func setupC19(c *core.Ctx) {
	g := c.Gen
	bigRun(c)
	sh := newShared(c)
	nest := nester(g, sh)
	hs := new([21]holds)
	for i := range hs {
		hs[i].mark = i << 20
	}
	faults := 0
	gen := func(i int) op {
		if g.Bool(1, 8) {
			return op{genGeneratedCall(g), genPlan(g, 1, nest)}
		}
		return op{genOwnCall(g, sh, hs), genPlan(g, faults, nest)}
	}
	runTasks(c, taskCount(g), 8, gen, func() op {
		return op{call{"look at all results again", func(t *tk) {
			for i := range hs {
				hs[i].look(t)
			}
		}}, nil}
	})
}

// ---- C20: a failed call leaves no trace

var pRetry = core.Probe("failed call repeated successfully")
var pIllTyped = core.Fault("ill-typed or cut input, then good input")

// redoWriter fails as long as it is told to.
type redoWriter struct {
	t   *tk
	w   pWriter
	ok  bool
	got []byte
}

func (w *redoWriter) Write(p []byte) (int, error) {
	if w.ok {
		simrt.Yield()
		w.got = append(w.got, p...)
		return len(p), nil
	}
	w.w.t = w.t
	return w.w.Write(p)
}

// attempts draws plans of which only the last lets the call succeed.
func attempts(g *src, nest func() *call) [][]pact {
	var a [][]pact
	for n := 1 + g.Pick(4, 2, 1); n > 0; n-- {
		p := make([]pact, 1+g.N(16))
		for i := range p {
			p[i].stalls = g.Pick(6, 1, 1)
			if g.Bool(1, 12) {
				p[i].nest = nest()
			}
		}
		f := &p[len(p)-1]
		f.kind = actFail
		if g.Bool(1, 2) {
			f.kind = actPanic
		} else {
			f.err = g.N(7)
		}
		a = append(a, p)
	}
	for n := 1 + g.Pick(3, 1); n > 0; n-- {
		a = append(a, nil)
	}
	return a
}

// again is a call that is made several times.
type again struct {
	desc  string
	plans [][]pact
	// start returns the call, made with the same value, buffer, document and
	// target every time, and a check to be made after each
	start func(t *tk) (try func(t *tk, last bool), after func(t *tk, failed bool))
}

func (a again) do(t *tk) {
	try, after := a.start(t)
	failed := false
	for i, p := range a.plans {
		var fired bool
		panicked := t.do(call{fmt.Sprintf("%s, attempt %d%s", a.desc, i, planText(p)), func(t *tk) {
			try(t, p == nil)
		}}, p)
		fired = t.fired != nil || panicked
		failed = failed || fired
		t.plan = nil
		after(t, fired)
		if p == nil && failed {
			core.Hit(pRetry)
		}
	}
}

func genAgain(g *src, sh *shared, nest func() *call) again {
	a := again{plans: attempts(g, nest)}
	switch g.Pick(4, 5, 2, 2, 2, 2) {
	case 0: // encode into the caller's buffer
		var x interface{}
		var text string
		if g.Bool(1, 2) {
			x, text = genRedo(g, 1, true)
		} else if g.Bool(1, 2) {
			x, text = genBoxE(g, 1)
		} else {
			x, text = genCodeBoxE(g)
		}
		ar := genArena(g)
		how := g.N(4)
		if how == 3 {
			if _, ok := x.(njson.Appender); !ok {
				how = 1
			}
		}
		a.desc = fmt.Sprintf("encode by way %d: %s", how, short(text))
		a.start = func(t *tk) (func(*tk, bool), func(*tk, bool)) {
			before := deepCopy(x)
			return func(t *tk, last bool) {
					var b []byte
					var err error
					pre := ar.pre
					switch how {
					case 0:
						pre = ""
						b, err = unjson.Marshal(x)
					case 1:
						b, err = unjson.AppendJSON(ar.dst(), x)
					case 2:
						enc, e := sh.cache.Encoder(reflect.TypeOf(x))
						if e != nil {
							t.fail("codec", "%v", e)
						}
						b, err = enc.Encode(ar.dst(), x)
					default:
						b, err = x.(njson.Appender).AppendJSON(ar.dst())
					}
					if t.verdict(err) && (!bytes.HasPrefix(b, []byte(pre)) || !sameJSON(b[len(pre):], text)) {
						t.fail("wrong result", "encoded as %s, want %s", short(b), short(pre+text))
					}
				}, func(t *tk, failed bool) {
					if how > 0 {
						ar.check(t, "encode", nil, true)
					}
					if !reflect.DeepEqual(x, before) {
						t.fail("input changed", "the value encoded was %s and is %s", short(before), short(x))
					}
				}
		}
	case 1: // decode into the same target
		var want interface{}
		var text string
		gen := false
		if g.Bool(2, 3) {
			want, text = genRedo(g, 1, false)
		} else {
			want, text = genLine(g, g.N(100), false)
			gen = true
		}
		// the first attempts may be made with input that is bad in one place
		bad := make([]string, len(a.plans))
		for i := range bad {
			if a.plans[i] != nil && (gen || g.Bool(1, 2)) {
				a.plans[i] = a.plans[i][:len(a.plans[i])-1]
				bad[i] = spoilJSON(g, text)
			}
		}
		how := g.N(4)
		a.desc = fmt.Sprintf("decode by way %d: %s", how, short(text))
		a.start = func(t *tk) (func(*tk, bool), func(*tk, bool)) {
			x := reflect.New(reflect.TypeOf(want).Elem()).Interface()
			d := new(njson.Document)
			if how == 3 {
				d = njson.Blank()
			}
			n, _, err := d.Parse(text)
			if err != nil {
				t.fail("parse", "%v", err)
			}
			data := newOwn(text)
			k := 0
			return func(t *tk, last bool) {
					i := k
					k++
					var err error
					in := data
					node := n
					untouched := interface{}(nil)
					if bad[i] != "" {
						core.Hit(pIllTyped)
						in = newOwn(bad[i])
						dd := new(njson.Document)
						node, _, err = dd.Parse(bad[i])
						if err != nil {
							untouched = deepCopy(x)
						}
					}
					switch {
					case how < 1 || err != nil:
						err = unjson.Unmarshal(in, x)
					case how == 1:
						dec, e := sh.cache.Decoder(reflect.TypeOf(x))
						if e != nil {
							t.fail("codec", "%v", e)
						}
						err = dec.Decode(x, node)
					default:
						err = unjson.UnmarshalFromNode(node, x)
					}
					if bad[i] != "" {
						if t.fired == nil && err == nil {
							t.fail("failure hidden", "%s decoded without error", short(bad[i]))
						}
						if untouched != nil && !reflect.DeepEqual(x, untouched) {
							t.fail("target changed", "decoding %s, which is no JSON, changed the target from %s to %s", short(bad[i]), short(untouched), short(x))
						}
						return
					}
					if t.verdict(err) && !equalTo(x, want) {
						t.fail("wrong result", "decoded as %s, want %s", short(x), short(want))
					}
				}, func(t *tk, failed bool) {
					if string(data) != text {
						t.fail("input changed", "the bytes decoded were %s and are %s", short(text), short(data))
					}
					b, err := d.AppendJSON(nil)
					if err != nil || string(b) != textOf(text) {
						t.fail("document changed", "the document decoded was %s and is %s (%v)", short(text), short(b), err)
					}
				}
		}
	case 2: // decode values with unmarshalers everywhere, from one document
		text, want, ok := genBoxD(g, 1)
		if g.Bool(1, 3) {
			text, want, ok = "", nil, nil
		}
		var text2 string
		var want2 []seen
		var ok2 func(*gentypes.BoxD) bool
		if ok == nil {
			text2, want2, ok2 = genCodeBoxD(g)
		}
		a.desc = "decode from one document: " + short(text+text2)
		a.start = func(t *tk) (func(*tk, bool), func(*tk, bool)) {
			d := new(njson.Document)
			n, _, err := d.Parse(text + text2)
			if err != nil {
				t.fail("parse", "%v", err)
			}
			before, _ := d.AppendJSON(nil)
			return func(t *tk, last bool) {
					if ok != nil {
						v := new(boxD)
						err := unjson.UnmarshalFromNode(n, v)
						t.checkSeen(want)
						if t.verdict(err) && !ok(v) {
							t.fail("wrong result", "decoded as %s", short(v))
						}
						return
					}
					v := new(gentypes.BoxD)
					err := unjson.UnmarshalFromNode(n, v)
					t.checkSeen(want2)
					if t.verdict(err) && !ok2(v) {
						t.fail("wrong result", "decoded as %s", short(v))
					}
				}, func(t *tk, failed bool) {
					if b, err := d.AppendJSON(nil); err != nil || !bytes.Equal(b, before) {
						t.fail("document changed", "the document decoded was %s and is %s (%v)", short(before), short(b), err)
					}
				}
		}
	case 3: // print to a writer that fails at first
		var b strings.Builder
		genAny(&b, g, 2, false)
		text := b.String()
		ws := make([]pWriter, len(a.plans))
		for i := range ws {
			ws[i] = genWriter(g, 2, nest)
			if a.plans[i] != nil {
				a.plans[i] = a.plans[i][:0]
				if ws[i].mode == 0 && ws[i].kind == 0 {
					ws[i].mode, ws[i].err = 1, &simErr{i}
				}
			}
		}
		custom := g.Bool(1, 3)
		a.desc = "print " + short(text)
		a.start = func(t *tk) (func(*tk, bool), func(*tk, bool)) {
			d := new(njson.Document)
			n, _, err := d.Parse(text)
			if err != nil {
				t.fail("parse", "%v", err)
			}
			k := 0
			return func(t *tk, last bool) {
					w := &redoWriter{t: t, w: ws[k], ok: last}
					k++
					var m int
					var err error
					if custom {
						m, err = njson.PrintJSON(w, eA{text})
					} else {
						m, err = n.PrintJSON(w)
					}
					if !last {
						if t.panicked != nil {
							t.fail("panic swallowed", "the writer panicked, PrintJSON returned")
						}
						if !bytes.Equal(w.w.handed, []byte(textOf(text))) {
							t.fail("wrong result", "printed %s, want %s", short(w.w.handed), short(text))
						}
						return
					}
					if t.verdict(err) && (m != len(w.got) || string(w.got) != textOf(text)) {
						t.fail("wrong result", "printed %s (%d), want %s", short(w.got), m, short(text))
					}
				}, func(t *tk, failed bool) {
					if b, err := d.AppendJSON(nil); err != nil || string(b) != textOf(text) {
						t.fail("document changed", "the document printed was %s and is %s (%v)", short(text), short(b), err)
					}
				}
		}
	case 4: // the same value again on the same encoder
		var x interface{}
		var text string
		if g.Bool(1, 2) {
			x, text = genRedo(g, 1, true)
		} else {
			x, text = genCodeBoxE(g)
		}
		typed := g.Bool(1, 3)
		a.desc = "encode on one stream: " + short(text)
		a.start = func(t *tk) (func(*tk, bool), func(*tk, bool)) {
			w := &redoWriter{t: t, ok: true}
			e := unjson.NewLineEncoder(w)
			if typed {
				enc, err := sh.cache.Encoder(reflect.TypeOf(x))
				if err != nil {
					t.fail("codec", "%v", err)
				}
				e.Encoder = enc
			}
			before := deepCopy(x)
			return func(t *tk, last bool) {
					w.got = nil
					err := e.Encode(x)
					if !t.verdict(err) {
						return
					}
					b := w.got
					if len(b) == 0 || b[len(b)-1] != '\n' || bytes.IndexByte(b, '\n') != len(b)-1 || !sameJSON(b, text) {
						t.fail("wrong result", "wrote %s, want %s", short(b), short(text))
					}
				}, func(t *tk, failed bool) {
					if failed && len(w.got) > 0 {
						t.fail("partial output", "a failing value wrote %s", short(w.got))
					}
					if !reflect.DeepEqual(x, before) {
						t.fail("input changed", "the value encoded was %s and is %s", short(before), short(x))
					}
				}
		}
	default: // a line that is rejected comes again
		v, text := genRedo(g, 1, false)
		a.desc = "decode from one stream: " + short(text)
		same := g.Bool(1, 2)
		buf := []int{0, 16, 64}[g.N(3)]
		a.start = func(t *tk) (func(*tk, bool), func(*tk, bool)) {
			var r io.Reader = onlyReader{strings.NewReader(strings.Repeat(text+"\n", len(a.plans)))}
			if buf > 0 {
				r = bufio.NewReaderSize(r, buf)
			}
			d := unjson.NewLineDecoder(r)
			x := new(redo)
			return func(t *tk, last bool) {
				if !same {
					x = new(redo)
				}
				err := d.Decode(x)
				if t.verdict(err) && !reflect.DeepEqual(x, v) {
					t.fail("wrong result", "decoded as %s, want %s", short(x), short(v))
				}
			}, func(*tk, bool) {}
		}
	}
	return a
}

// textOf is the text a document of a text has.
func textOf(text string) string { return text }

// spoilJSON makes a JSON object ill-typed in one place, or cuts it.
func spoilJSON(g *src, text string) string {
	if g.Bool(1, 4) {
		return text[:g.Range(1, len(text)-1)]
	}
	i := strings.Index(text, `"id":`) + 5
	j := i + strings.IndexAny(text[i:], ",}")
	s := text[:i] + []string{`"x"`, "[]", "{}", "true", "1.5", "1e99"}[g.N(6)] + text[j:]
	if g.Bool(1, 2) {
		// last, after everything else was decoded
		k := strings.LastIndexByte(text, '}')
		s = text[:k] + `,"id":` + []string{`"x"`, "[]", "{}", "true", "1.5", "1e99"}[g.N(6)] + "}"
	}
	return s
}

func setupC20(c *core.Ctx) {
	g := c.Gen
	bigRun(c)
	clear(tctx[:])
	main := newTk(c, -1)
	sh := newShared(c)
	nest := nester(g, sh)
	for i, n := 0, taskCount(g); i < n; i++ {
		t := newTk(c, i)
		t.scribble = g.Bool(1, 3)
		list := make([]again, 1+g.N(4))
		for k := range list {
			list[k] = genAgain(g, sh, nest)
			c.Describe("task %d call %d: %s", i, k, list[k].desc)
			for _, p := range list[k].plans {
				c.Describe("  attempt: %d callbacks planned%s", len(p), planText(p))
			}
		}
		c.Go(fmt.Sprintf("task%d", i), func() {
			for _, a := range list {
				a.do(t)
			}
		})
	}
	last := []call{genEncodeCall(g, sh), genDecodeCall(g, sh), genGeneratedCall(g)}
	c.Post(func() {
		for _, k := range last {
			main.do(k, nil)
		}
	})
}
