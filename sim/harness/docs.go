package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/unjson"
	"github.com/alxarch/njson/verifsim/core"
	"github.com/alxarch/njson/verifsim/simrt"
)

// This file drives documents together with mirrors: every operation on a
// document under test is repeated on a document that was newly created for the
// purpose, has never been used before, is never reset and never sees a parse
// that fails. Whatever can be observed of both must be the same.

// dnode is a node of a document under test and its counterpart in the mirror.
type dnode struct{ n, m njson.Node }

// ddoc is a document under test and its mirror.
type ddoc struct {
	root  njson.Node // the root before it was reset
	d, m  *njson.Document
	pool  int // -1: not pooled, 0: default pool, else a shared pool
	nodes []dnode
	fails bool // saw a parse that failed
	iters []dIter
	label string
}

type dIter struct {
	n, m njson.IterV
}

// old is a handle that is no longer valid.
type old struct {
	n       njson.Node
	it      *njson.IterV
	where   string
	text    string
	d       *njson.Document
	lenient bool // the document may not have been reset: n is dead or still shows text
}

// world is what the tasks of a run share.
type world struct {
	pools []*njson.Pool
	olds  []old
	sh    *shared
	stale bool // keep and use old handles
}

// dt is the state of a task working on documents.
type dt struct {
	*tk
	w    *world
	docs []*ddoc
	seq  int
}

var (
	pDocReused  = core.Probe("document: reused from a pool")
	pDocNew     = core.Probe("document: new from a pool")
	pParseFail  = core.Fault("parse: input ends early")
	pParseBad   = core.Fault("parse: input corrupt")
	pResume     = core.Probe("parse: resumed after an early end")
	pOldRead    = core.Probe("old handle: read")
	pOldWrite   = core.Probe("old handle: written")
	pOldValue   = core.Probe("old handle: used as a value")
	pOldOther   = core.Probe("old handle: its document in use by another borrower")
	pOldIter    = core.Probe("old iterator: used")
	pOldKept    = core.Probe("old handle: kept by an unmarshaler")
	pDocReset   = core.Fault("document: reset")
	pDocCopy    = core.Probe("document: value copied from another document")
	pDocAdopt   = core.Probe("document: value of the same document")
	pStorm      = core.Fault("document: reset very many times")
	pBig        = core.Probe("document: very many nodes")
	pDocPoolPut = core.Fault("document: given back to its pool")
)

func docKey(d *njson.Document) uintptr { return uintptr(unsafe.Pointer(d)) }

var docSeen map[*njson.Document]bool

// borrow gets a document and checks that it is blank and not somebody else's.
func (t *dt) borrow(pool int) *ddoc {
	x := &ddoc{pool: pool, m: new(njson.Document)}
	switch {
	case pool < 0:
		x.d = new(njson.Document)
	case pool == 0:
		x.d = njson.Blank()
	default:
		x.d = t.w.pools[(pool-1)%len(t.w.pools)].Get()
	}
	if x.d == nil {
		t.fail("no document", "the pool returned nil")
	}
	if o := simrt.Claim(docKey(x.d)); o != -1 || t.owns(x.d) {
		t.fail("document shared", "the pool handed out a document that task %d is still using", o)
	}
	t.seq++
	x.label = fmt.Sprintf("doc%d.%d", t.id, t.seq)
	t.checkBlank(x)
	t.docs = append(t.docs, x)
	return x
}

func (t *dt) owns(d *njson.Document) bool {
	for _, x := range t.docs {
		if x.d == d {
			return true
		}
	}
	return false
}

func (t *dt) checkBlank(x *ddoc) {
	for i, n := range []njson.Node{x.d.Root(), x.d.Node(0), x.d.Node(1), x.d.Node(63)} {
		if ty := n.Type(); ty != njson.TypeInvalid {
			b, _ := n.AppendJSON(nil)
			t.fail("not blank", "%s is not blank: probe %d shows %s", x.label, i, short(b))
		}
		if r := n.Raw(); r != "" {
			t.fail("not blank", "%s is not blank: probe %d shows raw %s", x.label, i, short(r))
		}
	}
	if b, err := x.d.AppendJSON(nil); err == nil {
		t.fail("not blank", "%s is not blank: it shows %s", x.label, short(b))
	}
}

// retire makes all handles of a document old ones.
func (t *dt) retire(x *ddoc, how string) {
	if t.w.stale {
		if len(t.w.olds) < 60 {
			t.w.olds = append(t.w.olds, old{n: x.root, d: x.d, where: "root of " + x.label + " before " + how})
		}
		for i := range x.nodes {
			if len(t.w.olds) < 60 && (i < 4 || i%3 == 0) {
				t.w.olds = append(t.w.olds, old{n: x.nodes[i].n, d: x.d, where: x.label + " before " + how})
			}
		}
		for i := range x.iters {
			if len(t.w.olds) < 60 {
				t.w.olds = append(t.w.olds, old{it: &x.iters[i].n, where: "iterator of " + x.label + " before " + how})
			}
		}
	}
	x.nodes, x.iters = nil, nil
}

// giveBack closes a document.
func (t *dt) giveBack(k int) {
	x := t.docs[k]
	t.compareAll(x, "before it is given back")
	t.docs = append(t.docs[:k:k], t.docs[k+1:]...)
	simrt.Unclaim(docKey(x.d))
	// the handles go out of date inside Put, where other tasks may run
	nodes, iters := x.nodes, x.iters
	x.root = x.d.Root()
	core.Hit(pDocPoolPut)
	switch {
	case x.pool < 0:
		x.d.Reset()
	case x.pool == 0:
		x.d.Close()
	default:
		t.w.pools[(x.pool-1)%len(t.w.pools)].Put(x.d)
	}
	x.nodes, x.iters = nodes, iters
	t.retire(x, "it was given back")
}

func (t *dt) reset(x *ddoc) {
	t.compareAll(x, "before its reset")
	core.Hit(pDocReset)
	x.root = x.d.Root()
	x.d.Reset()
	t.retire(x, "its reset")
	x.m = new(njson.Document)
	x.fails = false
	t.checkBlank(x)
}

// big parses a text of very many nodes and ends the document's use.
func (t *dt) big(x *ddoc, o dop) {
	core.Hit(pBig)
	n := int(o.f)
	simrt.Note("task %d: %s parses an array of %d values", t.id, x.label, n)
	t.compareAll(x, "before a big parse")
	root, rest, err := x.d.Parse(o.text)
	if err != nil || rest != "" {
		t.fail("parse failed", "%s: parsing an array of %d values: %v, remainder %s", x.label, n, err, short(rest))
	}
	if b, err := root.AppendJSON(nil); err != nil || string(b) != o.text {
		t.fail("wrong value", "%s: an array of %d values became %s (%v)", x.label, n, short(string(b)), err)
	}
	hs := []njson.Node{root, root.Index(0), root.Index(n / 2), root.Index(n - 1), root.Lookup(strconv.Itoa(n / 3))}
	for i := range hs {
		if hs[i].Type() == njson.TypeInvalid || hs[i].Document() != x.d {
			t.fail("wrong value", "%s: probe %d of an array of %d values leads nowhere", x.label, i, n)
		}
	}
	if raw := hs[3].Raw(); raw != "last" {
		t.fail("wrong value", "%s: the last of %d values is %s", x.label, n, short(raw))
	}
	if _, _, err := x.m.Parse(o.text); err != nil {
		t.fail("parse failed", "a new document: parsing an array of %d values: %v", n, err)
	}
	for _, a := range x.nodes {
		t.compare(x, a, "after a big parse")
	}
	it := root.Values()
	it.Next()
	x.nodes = append([]dnode{{hs[3], x.m.Root()}, {hs[2], x.m.Root()}, {root, x.m.Root()}}, x.nodes...)
	x.root = x.d.Root()
	nodes, iters := x.nodes, append(x.iters, dIter{it, it})
	if o.c%2 == 0 {
		x.d.Reset()
		x.nodes, x.iters = nodes, iters
		t.retire(x, fmt.Sprintf("its reset with over %d nodes", n))
		x.m, x.fails = new(njson.Document), false
		t.checkBlank(x)
	} else {
		for k := range t.docs {
			if t.docs[k] == x {
				t.docs = append(t.docs[:k:k], t.docs[k+1:]...)
				break
			}
		}
		simrt.Unclaim(docKey(x.d))
		switch {
		case x.pool < 0:
			x.d.Reset()
		case x.pool == 0:
			x.d.Close()
		default:
			t.w.pools[(x.pool-1)%len(t.w.pools)].Put(x.d)
		}
		x.nodes, x.iters = nodes, iters
		t.retire(x, fmt.Sprintf("it was given back with over %d nodes", n))
	}
	if t.w.stale {
		for i := range hs {
			if hs[i].Document() != nil || hs[i].Type() != njson.TypeInvalid {
				t.fail("old handle alive", "a handle of %s is valid after the end of use of its %d nodes", x.label, n)
			}
		}
	}
}

// storm resets a document very many times: a handle stays dead however long its
// document lives on.
func (t *dt) storm(n int, text string, every int) {
	core.Hit(pStorm)
	d := new(njson.Document)
	root, _, err := d.Parse(text)
	if err != nil {
		t.fail("parse", "cannot parse %s: %v", text, err)
	}
	child := root.Lookup("0")
	it := child.Values()
	hs := []njson.Node{root, child, d.Root()}
	for i := 1; i <= n; i++ {
		d.Reset()
		for k := range hs {
			if hs[k].Document() != nil {
				t.fail("old handle alive", "a handle is valid again after %d resets of its document", i)
			}
		}
		if i%every == 0 || i == n {
			if _, _, err = d.Parse(text); err != nil {
				t.fail("parse", "cannot parse %s after %d resets: %v", text, i, err)
			}
			for k := range hs {
				if ty := hs[k].Type(); ty != njson.TypeInvalid || hs[k].Raw() != "" {
					t.fail("old handle alive", "a handle is %v again after %d resets of its document", ty, i)
				}
			}
			if i2 := it; i2.Next() || i2.Len() != 0 {
				t.fail("old handle alive", "an iterator proceeds after %d resets of its document", i)
			}
		}
	}
}

func jsonOf(n njson.Node) string {
	b, err := n.AppendJSON(nil)
	if err != nil {
		return "error: " + err.Error()
	}
	return string(b)
}

// compare checks that a node shows what its mirror shows.
func (t *dt) compare(x *ddoc, a dnode, when string) {
	n, m := a.n, a.m
	js, jm := jsonOf(n), jsonOf(m)
	if js != jm {
		t.fail("differs", "%s %s: a node shows %s, a new document shows %s", x.label, when, short(js), short(jm))
	}
	if n.Type() != m.Type() || n.Raw() != m.Raw() {
		t.fail("differs", "%s %s: a node is %v %s, in a new document %v %s", x.label, when, n.Type(), short(n.Raw()), m.Type(), short(m.Raw()))
	}
	if (n.Document() == nil) != (m.Document() == nil) || n.Document() != nil && n.Document() != x.d {
		t.fail("differs", "%s %s: a node has lost its document", x.label, when)
	}
}

func (t *dt) compareAll(x *ddoc, when string) {
	for _, a := range x.nodes {
		t.compare(x, a, when)
	}
	t.compare(x, dnode{x.d.Root(), x.m.Root()}, when+" (root)")
	b1, e1 := x.d.AppendJSON(nil)
	b2, e2 := x.m.AppendJSON(nil)
	if string(b1) != string(b2) || (e1 == nil) != (e2 == nil) {
		t.fail("differs", "%s %s: it shows %s (%v), a new document %s (%v)", x.label, when, short(b1), e1, short(b2), e2)
	}
}

func (x *ddoc) add(n, m njson.Node) {
	if len(x.nodes) < 14 {
		x.nodes = append(x.nodes, dnode{n, m})
		return
	}
	x.nodes[(len(jsonOf(m))+int(m.ID()))%14] = dnode{n, m}
}

func (x *ddoc) pick(k int) dnode {
	if len(x.nodes) == 0 {
		return dnode{x.d.Root(), x.m.Root()}
	}
	return x.nodes[k%len(x.nodes)]
}

// pickOf picks a node of a type, if there is one.
func (x *ddoc) pickOf(k int, ty njson.Type) dnode {
	var c []dnode
	for _, a := range x.nodes {
		if a.m.Type() == ty {
			c = append(c, a)
		}
	}
	if len(c) == 0 {
		return x.pick(k)
	}
	return c[k%len(c)]
}

// contains reports whether target is in the tree of n.
func contains(n, target njson.Node, fuel *int) bool {
	if n.ID() == target.ID() {
		return true
	}
	if *fuel--; *fuel < 0 {
		return true
	}
	for it := n.Values(); it.Next(); {
		if contains(it.Value(), target, fuel) {
			return true
		}
	}
	return false
}

// canPut reports whether putting value into target yields a tree of moderate size.
func canPut(x, y *ddoc, target, value dnode) bool {
	fuel := 400
	if x == y && value.m.ID() != target.m.ID() && contains(value.m, target.m, &fuel) {
		return false
	}
	return len(jsonOf(target.m))+len(jsonOf(value.m)) < 1500
}

// dop is one operation on documents.
type dop struct {
	kind, a, b, c int
	text          string
	cuts          []int
	bad           string
	call          *call
	plan          []pact
	f             float64
}

const (
	oBorrow = iota
	oParse
	oMake
	oSet
	oAppend
	oReplace
	oRemove
	oSlice
	oDel
	oStrip
	oScalar
	oRead
	oIter
	oReset
	oBack
	oCall
	oOld
	oNav
	oBig
	oTwin
	oLast
)

var dopNames = []string{"borrow", "parse", "make", "set", "append", "replace", "remove", "slice", "del", "strip", "scalar", "read", "iterate", "reset", "give back", "call", "old handle", "navigate", "big parse", "twin"}

func genDoc(g *src) string {
	var b strings.Builder
	if g.Bool(1, 5) {
		return []string{`[]`, `{}`, `[[],[],[]]`, `{"a":{},"key":[]}`, `[1,2,3,4,5,6,7,8,9,10,11,12]`, `{"a":1,"b":2,"c":3,"d":4,"e":5,"f":6}`, `["",{"":""}]`}[g.N(7)]
	}
	if g.Bool(1, 24) {
		// more nodes than a new document has room for
		n := 20 + g.N(150)
		elem := []string{"1", `""`, "[]", `{"a":1}`, `[[2]]`, `{"k\u0065y":{}}`}[g.N(6)]
		return "[" + strings.Repeat(elem+",", n) + `"end"]`
	}
	genAny(&b, g, 1+g.N(4), g.Bool(1, 4))
	return b.String()
}

// genCuts draws where deliveries of text end early. Numbers are complete at any point.
func genCuts(g *src, text string) []int {
	start := len(text) - len(strings.TrimLeft(text, " \t\r\n"))
	if strings.IndexByte("-0123456789", text[start]) >= 0 {
		if start > 0 && g.Bool(1, 2) {
			return []int{g.N(start + 1)}
		}
		return []int{0}[:g.N(2)]
	}
	var cuts []int
	if len(text) < 80 && g.Bool(1, 6) { // byte by byte
		for at := range text {
			cuts = append(cuts, at)
		}
		return cuts
	}
	for at := 0; len(cuts) < 4; {
		at += g.N(len(text)/2 + 2)
		if at >= len(text) {
			break
		}
		cuts = append(cuts, at)
	}
	return cuts
}

// genBad damages a text.
func genBad(g *src, text string) string {
	at := g.N(len(text) + 1)
	switch g.N(5) {
	case 0:
		return text[:at]
	case 1:
		return text[:at] + "}" + text[at:]
	case 2:
		return text[:at] + "\x00" + text[at:]
	case 3:
		return "[" + text + ` "x": 1]`
	default:
		return `{"a":` + text + `,"b":[` + text + `,?]}`
	}
}

func genDop(g *src, w *world, weights []int, task int) dop {
	o := dop{kind: g.Pick(weights...), a: g.N(100), b: g.N(100), c: g.N(100)}
	switch o.kind {
	case oParse:
		o.text = genDoc(g)
		if g.Bool(1, 4) {
			o.text = []string{" ", "\n", "\r\n\t", "  \n "}[g.N(4)] + o.text
		}
		if g.Bool(1, 3) {
			o.cuts = genCuts(g, o.text)
		}
		if g.Bool(1, 4) {
			o.bad = o.text
			if g.Bool(1, 3) {
				o.bad = genDoc(g) // unrelated to what follows
			}
			o.bad = genBad(g, o.bad)
		}
	case oMake, oScalar:
		o.text = genStr(g)
		o.f = genFloat(g)
	case oTwin:
		if g.Bool(1, 2) {
			o.text = []string{"[[]]", `{"a":[1]}`, `[[1]]`, `{"a":{}}`, `[{"key":1}]`, `[[[2]]]`, `{"a":{"b":[]}}`}[g.N(7)]
		} else if g.Bool(1, 2) {
			o.text = genDoc(g)
			if s := strings.TrimSpace(o.text); s[0] != '[' && s[0] != '{' {
				o.text = "[" + s + "]"
			}
		}
	case oBig:
		n := []int{66, 140, 600, 1100, 2600, 5000}[g.Pick(6, 6, 4, 3, 2, 1)]
		elem := []string{"1", `""`, "[]", `[{"a":1}]`}[g.N(4)]
		if elem[0] == '[' && n > 2600 {
			n = 2600
		}
		o.text = "[" + strings.Repeat(elem+",", n-1) + `"last"]`
		o.f = float64(n)
	case oCall:
		var k call
		switch {
		case w.stale && g.Bool(2, 3):
			k = genKeepCall(g, w)
		case g.Bool(1, 3):
			k = genDecodeCall(g, w.sh)
		default:
			k = genPlainCall(g, w.sh, task*100)
		}
		o.call = &k
		o.plan = make([]pact, g.N(3))
		for i := range o.plan {
			o.plan[i].stalls = g.N(3)
		}
	}
	return o
}

var dkeys = []string{"a", "key", "b", "long-ish key", "x_y", "new"}

// doc picks one of the task's documents, borrowing one if there is none.
func (t *dt) doc(k int) *ddoc {
	if len(t.docs) == 0 {
		return t.borrow(0)
	}
	return t.docs[k%len(t.docs)]
}

func (t *dt) run(o dop) {
	t.where = dopNames[o.kind]
	simrt.Yield()
	switch o.kind {
	case oBorrow:
		if len(t.docs) < 3 {
			x := t.borrow(o.a % (1 + len(t.w.pools)))
			simrt.Note("task %d borrows %s", t.id, x.label)
		}
	case oParse:
		t.parse(t.doc(o.a), o)
	case oMake:
		x := t.doc(o.a)
		var n, m njson.Node
		mk := func(d *njson.Document) njson.Node {
			switch o.b % 9 {
			case 0:
				return d.Null()
			case 1:
				return d.True()
			case 2:
				return d.False()
			case 3:
				return d.Text(o.text)
			case 4:
				return d.TextHTML(o.text)
			case 5:
				return d.Number(o.f)
			case 6:
				return d.Array()
			case 7:
				return d.TextRaw("raw")
			default:
				return d.Object()
			}
		}
		n, m = mk(x.d), mk(x.m)
		if !x.fails && n.ID() != m.ID() {
			t.fail("differs", "%s: a new node has id %d, in a new document %d", x.label, n.ID(), m.ID())
		}
		t.compare(x, dnode{n, m}, "after making a node")
		x.add(n, m)
	case oSet, oAppend, oReplace:
		x, y := t.doc(o.a), t.doc(o.b)
		ty := njson.TypeArray
		if o.kind == oSet {
			ty = njson.TypeObject
		}
		target, value := x.pickOf(o.a/3, ty), y.pick(o.c)
		if !canPut(x, y, target, value) {
			return
		}
		if x == y {
			core.Hit(pDocAdopt)
		} else {
			core.Hit(pDocCopy)
		}
		simrt.Note("task %d: %s in %s a value of %s", t.id, t.where, x.label, y.label)
		switch o.kind {
		case oSet:
			key := dkeys[o.b%len(dkeys)]
			target.n.Set(key, value.n)
			target.m.Set(key, value.m)
		case oAppend:
			if o.b%5 == 0 && canPut(x, y, target, value) && len(jsonOf(value.m)) < 300 {
				v2 := y.pick(o.c / 2)
				if canPut(x, y, target, v2) && v2.m.ID() != value.m.ID() && !canReach(value, v2) && !canReach(v2, value) {
					target.n.Append(value.n, v2.n)
					target.m.Append(value.m, v2.m)
					break
				}
			}
			target.n.Append(value.n)
			target.m.Append(value.m)
		case oReplace:
			i := o.b % 4
			target.n.Replace(i, value.n)
			target.m.Replace(i, value.m)
		}
		t.compare(x, target, "after "+t.where)
		t.compare(y, value, "after being used by "+t.where)
	case oRemove, oSlice:
		x := t.doc(o.a)
		a := x.pickOf(o.b, njson.TypeArray)
		if o.kind == oRemove {
			a.n.Remove(o.c % 5)
			a.m.Remove(o.c % 5)
		} else {
			a.n.Slice(o.c%3, o.c%5)
			a.m.Slice(o.c%3, o.c%5)
		}
		t.compare(x, a, "after "+t.where)
	case oDel, oStrip:
		x := t.doc(o.a)
		a := x.pickOf(o.b, njson.TypeObject)
		key := dkeys[o.c%len(dkeys)]
		if o.kind == oDel {
			a.n.Del(key)
			a.m.Del(key)
		} else {
			a.n.Strip(key)
			a.m.Strip(key)
		}
		t.compare(x, a, "after "+t.where)
	case oScalar:
		x := t.doc(o.a)
		a := x.pick(o.b)
		for _, n := range []njson.Node{a.n, a.m} {
			setScalar(n, o)
		}
		t.compare(x, a, "after setting a scalar")
	case oRead:
		x := t.doc(o.a)
		t.read(x, x.pick(o.b), o.c)
	case oIter:
		x := t.doc(o.a)
		a := x.pickOf(o.b, njson.Type([]njson.Type{njson.TypeArray, njson.TypeObject}[o.c%2]))
		p, q := a.n.Values(), a.m.Values()
		if p.Len() != q.Len() {
			t.fail("differs", "%s: %d values, in a new document %d", x.label, p.Len(), q.Len())
		}
		if len(x.iters) < 4 && t.w.stale {
			x.iters = append(x.iters, dIter{p, q})
			if o.c%3 == 0 {
				k := len(x.iters) - 1
				x.iters[k].n.Next()
				x.iters[k].m.Next()
			}
		}
		for {
			more := p.Next()
			if more != q.Next() {
				t.fail("differs", "%s: an iterator ends before or after that of a new document", x.label)
			}
			if !more {
				break
			}
			if p.Key() != q.Key() || p.Index() != q.Index() {
				t.fail("differs", "%s: an iterator is at %d key %q, in a new document at %d key %q", x.label, p.Index(), p.Key(), q.Index(), q.Key())
			}
			t.compare(x, dnode{p.Value(), q.Value()}, "when iterating")
		}
	case oNav:
		x := t.doc(o.a)
		a := x.pick(o.b)
		var b dnode
		switch o.c % 4 {
		case 0:
			b = dnode{a.n.Index(o.c % 3), a.m.Index(o.c % 3)}
		case 1:
			k := dkeys[o.c%len(dkeys)]
			b = dnode{a.n.Get(k), a.m.Get(k)}
		case 2:
			p := []string{dkeys[o.c%len(dkeys)], "0", dkeys[o.b%len(dkeys)]}[:1+o.c%3]
			b = dnode{a.n.Lookup(p...), a.m.Lookup(p...)}
		default:
			b = dnode{x.d.Root(), x.m.Root()}
		}
		t.compare(x, b, "when navigating")
		if b.m.Type() != njson.TypeInvalid || o.c%4 == 3 {
			x.add(b.n, b.m) // the root of a blank document is a handle as well
		}
	case oBig:
		t.big(t.doc(o.a), o)
	case oTwin:
		t.twin(o)
	case oReset:
		x := t.doc(o.a)
		simrt.Note("task %d resets %s", t.id, x.label)
		t.reset(x)
	case oBack:
		if len(t.docs) > 0 {
			k := o.a % len(t.docs)
			simrt.Note("task %d gives back %s", t.id, t.docs[k].label)
			t.giveBack(k)
		}
	case oCall:
		t.tk.do(*o.call, o.plan)
	case oOld:
		t.useOld(o)
	}
}

var pTwin = core.Probe("document: original and copy edited in turn")

// down follows a path of child positions as far as it leads.
func down(n njson.Node, path []int) njson.Node {
	for _, k := range path {
		it := n.Values()
		if it.Len() == 0 {
			break
		}
		for k %= it.Len(); it.Next() && k > 0; k-- {
		}
		n = it.Value()
	}
	return n
}

// twin copies a value from one document to another and then edits both in turn.
func (t *dt) twin(o dop) {
	y := t.doc(o.a)
	if len(t.docs) < 2 {
		t.borrow(o.b % (1 + len(t.w.pools)))
	}
	x := t.docs[o.b%len(t.docs)]
	if x == y {
		x = t.docs[(o.b+1)%len(t.docs)]
	}
	core.Hit(pTwin)
	if o.text != "" {
		if len(y.nodes) > 12 {
			y.nodes = y.nodes[:8]
		}
		t.parse(y, dop{text: o.text, b: o.b})
	}
	v := y.pickOf(o.c, []njson.Type{njson.TypeArray, njson.TypeObject}[o.c%2])
	if o.text != "" {
		v = y.nodes[len(y.nodes)-1]
	}
	if v.m.Type()&(njson.TypeArray|njson.TypeObject) == 0 || len(jsonOf(v.m)) > 1000 {
		return
	}
	path := []int{o.a / 2, o.b / 2, o.c / 2}[:o.a%4]
	edit := func(n njson.Node, k int, s string) {
		switch n.Type() {
		case njson.TypeArray:
			switch k % 5 {
			case 0:
				n.Remove(k / 5 % 3)
			case 1:
				n.Slice(0, k/5%3)
			case 2:
				n.Replace(k/5%3, n.Document().Text(s))
			default:
				n.Append(n.Document().Text(s))
			}
		case njson.TypeObject:
			key := dkeys[k/5%len(dkeys)]
			switch k % 5 {
			case 0:
				n.Del(key)
			case 1:
				n.Strip(key)
			default:
				n.Set(key, n.Document().Text(s))
			}
		case njson.TypeInvalid:
		default:
			n.SetString(s)
		}
	}
	for i := 0; i < o.b%3; i++ { // leaves spare room
		k := (o.c+i*7)%15/5*5 + i%2
		edit(down(v.n, path), k, "")
		edit(down(v.m, path), k, "")
	}
	t.compare(y, v, "before being copied")
	a := dnode{x.d.Array(), x.m.Array()}
	a.n.Append(v.n)
	a.m.Append(v.m)
	t.compare(x, a, "after getting a copy")
	cp := dnode{a.n.Index(0), a.m.Index(0)}
	for i := 0; i < 2+o.a%3; i++ {
		k := o.c + i*3 + o.a*i
		if i < 2 {
			k = 3
		}
		s := fmt.Sprintf("original %d", i)
		edit(down(v.n, path), k, s)
		edit(down(v.m, path), k, s)
		t.compare(x, cp, "after its original was edited")
		s = fmt.Sprintf("copy %d", i)
		edit(down(cp.n, path), k, s)
		edit(down(cp.m, path), k, s)
		t.compare(y, v, "after its copy was edited")
		t.compare(x, cp, "after being edited")
	}
	x.add(a.n, a.m)
}

func canReach(a, b dnode) bool {
	fuel := 400
	return contains(a.m, b.m, &fuel)
}

func setScalar(n njson.Node, o dop) {
	switch o.c % 10 {
	case 0:
		n.SetInt(int64(o.f))
	case 1:
		n.SetUint(uint64(o.b))
	case 2:
		n.SetFloat(o.f)
	case 3:
		n.SetString(o.text)
	case 4:
		n.SetStringHTML(o.text)
	case 5:
		n.SetStringRaw("raw text")
	case 6:
		n.SetTrue()
	case 7:
		n.SetFalse()
	default:
		n.SetNull()
	}
}

// parse parses a text, possibly after deliveries that end early or are damaged.
func (t *dt) parse(x *ddoc, o dop) {
	tail := []string{"", "", " ", ",", "]x", "\n{\"more\":1}", "}"}[o.b%7]
	if strings.IndexByte("-0123456789", strings.TrimLeft(o.text, " \t\r\n")[0]) >= 0 && tail == "}" {
		tail = ""
	}
	for i, at := range o.cuts {
		core.Hit(pParseFail)
		in := o.text[:at]
		simrt.Note("task %d: %s parses %s", t.id, x.label, short(in))
		n, rest, err := x.d.Parse(in)
		x.fails = true
		if err == nil {
			t.fail("early end accepted", "%s: %s was accepted as %s", x.label, short(in), short(jsonOf(n)))
		}
		if _, ok := err.(njson.UnexpectedEOF); !ok {
			t.fail("early end misreported", "%s: parsing %s failed with %T %v", x.label, short(in), err, err)
		}
		if rest != in {
			t.fail("input lost", "%s: parsing %s returned the remainder %s", x.label, short(in), short(rest))
		}
		if n.Type() != njson.TypeInvalid {
			t.fail("made-up node", "%s: a failed parse returned a node", x.label)
		}
		if i == 0 || o.c%2 == 0 {
			t.compareAll(x, "after a parse that ended early")
		}
	}
	if o.bad != "" {
		if n, _, err := new(njson.Document).Parse(o.bad); err != nil {
			core.Hit(pParseBad)
			simrt.Note("task %d: %s parses %s", t.id, x.label, short(o.bad))
			n2, _, err2 := x.d.Parse(o.bad)
			x.fails = true
			if err2 == nil || fmt.Sprintf("%T %v", err2, err2) != fmt.Sprintf("%T %v", err, err) {
				t.fail("differs", "%s: parsing %s: %v, with a new document %v", x.label, short(o.bad), err2, err)
			}
			if n2.Type() != njson.TypeInvalid {
				t.fail("made-up node", "%s: a failed parse returned a node", x.label)
			}
			t.compareAll(x, "after a parse of corrupt input")
		} else {
			_ = n // not damaged
		}
	}
	in := o.text + tail
	simrt.Note("task %d: %s parses %s", t.id, x.label, short(in))
	n, rest, err := x.d.Parse(in)
	m, mrest, merr := x.m.Parse(in)
	if err != nil || merr != nil {
		t.fail("parse failed", "%s: parsing %s: %v, with a new document %v", x.label, short(in), err, merr)
	}
	if len(o.cuts) > 0 {
		core.Hit(pResume)
	}
	want := tail
	if rest != mrest || strings.TrimLeft(rest, " \n") != strings.TrimLeft(want, " \n") {
		t.fail("wrong remainder", "%s: parsing %s left %s, want %s", x.label, short(in), short(rest), short(want))
	}
	if !x.fails && n.ID() != m.ID() {
		t.fail("differs", "%s: parse returned node %d, with a new document %d", x.label, n.ID(), m.ID())
	}
	if !sameJSON([]byte(jsonOf(n)), o.text) {
		t.fail("wrong value", "%s: parsing %s gave %s", x.label, short(in), short(jsonOf(n)))
	}
	t.compare(x, dnode{n, m}, "after parsing")
	x.add(n, m)
}

// read compares conversions.
func (t *dt) read(x *ddoc, a dnode, k int) {
	n, m := a.n, a.m
	t.compare(x, a, "when read")
	i1, ok1 := n.ToInterface()
	i2, ok2 := m.ToInterface()
	if ok1 != ok2 || ok1 && !reflect.DeepEqual(i1, i2) {
		t.fail("differs", "%s: a node converts to %s, in a new document to %s", x.label, short(i1), short(i2))
	}
	scrub(&i1)
	scrub(&i2)
	switch k % 5 {
	case 0:
		w := pWriter{t: t.tk, stalls: k % 3}
		c, err := n.PrintJSON(&w)
		want := jsonOf(m)
		if err == nil && (string(w.handed) != want || c != len(want)) || err != nil && m.Type() != njson.TypeInvalid {
			t.fail("differs", "%s: printed as %s (%v), in a new document %s", x.label, short(w.handed), err, short(want))
		}
	case 1:
		var v1, v2 interface{}
		e1, e2 := unjson.UnmarshalFromNode(n, &v1), unjson.UnmarshalFromNode(m, &v2)
		if (e1 == nil) != (e2 == nil) || !reflect.DeepEqual(v1, v2) {
			t.fail("differs", "%s: decoded as %s (%v), from a new document %s (%v)", x.label, short(v1), e1, short(v2), e2)
		}
		scrub(&v1)
		scrub(&v2)
	case 2:
		b1, e1 := unjson.Marshal(n)
		b2, e2 := unjson.Marshal(m)
		if (e1 == nil) != (e2 == nil) || e1 == nil && !bytes.Equal(b1, b2) {
			t.fail("differs", "%s: marshaled as %s (%v), from a new document %s (%v)", x.label, short(b1), e1, short(b2), e2)
		}
	case 3:
		f1, ok1 := n.ToFloat()
		f2, ok2 := m.ToFloat()
		b1, ok3 := n.ToBool()
		b2, ok4 := m.ToBool()
		if ok1 != ok2 || ok1 && f1 != f2 || ok3 != ok4 || b1 != b2 || n.Unescaped() != m.Unescaped() {
			t.fail("differs", "%s: a scalar is %v %v %q, in a new document %v %v %q", x.label, f1, b1, n.Unescaped(), f2, b2, m.Unescaped())
		}
	case 4:
		t.n, t.plan, t.seen, t.depth = 0, []pact{{stalls: k % 4}}, nil, 0
		if m.Type() != njson.TypeInvalid {
			if err := n.WrapUnmarshalJSON(dJ{}); err != nil {
				t.fail("made-up error", "%s: WrapUnmarshalJSON: %v", x.label, err)
			}
			if len(t.seen) != 1 || t.seen[0].text != jsonOf(m) {
				t.fail("differs", "%s: an unmarshaler saw %v, want %s", x.label, t.seen, short(jsonOf(m)))
			}
		}
	}
}

// genKeepCall decodes with unmarshalers that keep their nodes.
func genKeepCall(g *src, w *world) call {
	text, want, ok := genBoxD(g, 1)
	top := g.Bool(1, 4)
	str := g.Bool(1, 2)
	if top {
		text = genDoc(g)
		want = []seen{{"json", text}}
	}
	return call{"decode, keeping nodes: " + short(text), func(t *tk) {
		t.keep, t.kept = true, nil
		var err error
		v := new(boxD)
		var target interface{} = v
		if top {
			target = &dN{}
		}
		if str {
			err = unjson.UnmarshalFromString(text, target)
		} else {
			err = unjson.Unmarshal([]byte(text), target)
		}
		t.keep = false
		kept := t.kept
		t.kept = nil
		if top {
			for i := range t.seen {
				if !sameJSON([]byte(t.seen[i].text), text) {
					t.fail("wrong bytes", "an unmarshaler was given %s, want %s", short(t.seen[i].text), short(text))
				}
			}
		} else {
			t.checkSeen(want)
		}
		if t.verdict(err) && !top && !ok(v) {
			t.fail("wrong result", "decoded as %s", short(v))
		}
		for k := 0; k < len(kept) && len(w.olds) < 60; k++ {
			core.Hit(pOldKept)
			w.olds = append(w.olds, old{n: kept[k], where: "unmarshaler of " + short(text), lenient: true, text: jsonOf(kept[k])})
		}
	}}
}

// useOld uses an old handle in all ways.
func (t *dt) useOld(o dop) {
	if len(t.w.olds) == 0 {
		return
	}
	h := t.w.olds[o.a%len(t.w.olds)]
	t.where = "old handle of " + h.where
	dead := func(cond bool, format string, args ...interface{}) {
		if !cond {
			t.fail("old handle alive", format, args...)
		}
	}
	if h.it != nil {
		core.Hit(pOldIter)
		it := *h.it
		if o.c%4 == 0 {
			it.Reset()
		}
		dead(it.Len() == 0, "the iterator has %d values", it.Len())
		v := it.Value()
		dead(v.Type() == njson.TypeInvalid && v.Document() == nil, "the iterator's value is %s", short(jsonOf(v)))
		dead(!it.Next(), "the iterator goes on")
		dead(!it.Next(), "the iterator goes on")
		v = it.Value()
		dead(v.Type() == njson.TypeInvalid, "the iterator's value is %s", short(jsonOf(v)))
		it.Close()
		dead(!it.Next() && it.Len() == 0, "the closed iterator goes on")
		return
	}
	n := h.n
	if o.c%7 == 0 {
		n = n.With(uint(o.b % 5))
	}
	if h.lenient && n.Document() != nil {
		// not given back: the document is nobody else's then
		if s := jsonOf(h.n); s != h.text && !strings.HasPrefix(h.text, "error: ") {
			t.fail("old handle alive", "it now shows %s, it used to show %s", short(s), short(h.text))
		}
		if strings.HasPrefix(h.text, "error: ") {
			t.fail("old handle alive", "it was dead and now shows %s", short(jsonOf(h.n)))
		}
	} else {
		core.Hit(pOldRead)
		if h.d != nil && !t.owns(h.d) && simrt.Claimed(docKey(h.d)) {
			core.Hit(pOldOther)
		}
		dead(n.Document() == nil, "it still has a document")
		dead(n.Type() == njson.TypeInvalid, "it is %v", n.Type())
		dead(n.Raw() == "", "it shows %s", short(n.Raw()))
		raw, ty := n.Data()
		dead(raw == "" && ty == njson.TypeInvalid, "its data is %v %s", ty, short(raw))
		dead(n.Unescaped() == "", "it shows %s", short(n.Unescaped()))
		_, err := n.AppendJSON(nil)
		dead(err != nil, "it shows %s", short(jsonOf(n)))
		_, ok := n.ToInterface()
		dead(!ok, "it converts to a value")
		_, ok = n.ToFloat()
		dead(!ok, "it converts to a float")
		_, ok = n.ToInt()
		dead(!ok, "it converts to an integer")
		_, ok = n.ToUint()
		dead(!ok, "it converts to an unsigned integer")
		_, ok = n.ToBool()
		dead(!ok, "it converts to a bool")
		for _, c := range []njson.Node{n.Index(0), n.Get("a"), n.Lookup("a"), n.Lookup("0"), n.Lookup(), n.With(0), n.With(1)} {
			dead(c.Type() == njson.TypeInvalid && c.Document() == nil, "navigating from it leads to %s", short(jsonOf(c)))
		}
		it := n.Values()
		dead(it.Len() == 0 && !it.Next(), "it has values")
		var w pWriter
		w.t = t.tk
		_, err = n.PrintJSON(&w)
		dead(err != nil && len(w.handed) == 0, "it prints as %s", short(w.handed))
		t.n, t.plan, t.seen, t.depth = 0, nil, nil, 0
		dead(n.WrapUnmarshalJSON(dJ{}) != nil && n.WrapUnmarshalText(dT{}) != nil && len(t.seen) == 0, "it was given to an unmarshaler: %v", t.seen)
		var i int
		dead(unjson.UnmarshalFromNode(n, &i) != nil && i == 0, "it decodes as %d", i)
	}
	// write through it
	core.Hit(pOldWrite)
	live := t.liveValue()
	switch o.b % 10 {
	case 0:
		n.Set("poison", live)
	case 1:
		n.Append(live)
	case 2:
		n.Append(live, live)
	case 3:
		n.Replace(0, live)
	case 4:
		n.Remove(0)
	case 5:
		n.Slice(0, 1)
	case 6:
		n.Del(dkeys[o.c%len(dkeys)])
	case 7:
		n.Strip(dkeys[o.c%len(dkeys)])
	case 8:
		n.SetStringRaw("poison")
	default:
		setScalar(n, dop{c: o.c, text: "poison", f: 666})
	}
	if h.lenient && n.Document() != nil {
		t.w.olds[o.a%len(t.w.olds)].text = jsonOf(h.n)
		return
	}
	// use it as a value
	if len(t.docs) > 0 {
		x := t.docs[o.b%len(t.docs)]
		if x.d != nil && len(x.nodes) > 0 {
			core.Hit(pOldValue)
			switch o.c % 4 {
			case 0:
				x.pickOf(o.c, njson.TypeObject).n.Set(dkeys[o.b%len(dkeys)], n)
			case 1:
				x.pickOf(o.c, njson.TypeArray).n.Append(n)
			case 2:
				a := x.pickOf(o.c, njson.TypeArray)
				if l := x.pick(o.b); o.b%2 == 0 && canPut(x, x, a, l) {
					// a valid value between two invalid ones
					a.n.Append(n, l.n, n)
					a.m.Append(l.m)
				} else {
					a.n.Append(n, n)
				}
			default:
				x.pickOf(o.c, njson.TypeArray).n.Replace(o.b%3, n)
			}
			t.compareAll(x, "after an old handle was used as a value")
		}
	}
	for _, x := range t.docs {
		t.compareAll(x, "after an old handle was written through")
	}
}

// liveValue is a value that must never appear anywhere.
func (t *dt) liveValue() njson.Node {
	d := new(njson.Document)
	return d.TextRaw("poison")
}

func setupDocs(c *core.Ctx, w *world, tasks, ops int, weights []int) {
	g := c.Gen
	clear(tctx[:])
	w.sh = newShared(c)
	for i, n := 0, g.N(2); i < n; i++ {
		w.pools = append(w.pools, new(njson.Pool))
	}
	main := &dt{tk: newTk(c, -1), w: w}
	for i := 0; i < tasks; i++ {
		t := &dt{w: w}
		if c.P.Direct {
			t.tk = main.tk
		} else {
			t.tk = newTk(c, i)
		}
		list := make([]dop, 2+g.N(ops))
		for k := range list {
			list[k] = genDop(g, w, weights, i)
			c.Describe("task %d: %s", i, describe(list[k]))
		}
		list[0].kind = oBorrow
		work := func() {
			for _, o := range list {
				t.run(o)
			}
			for len(t.docs) > 0 {
				t.giveBack(len(t.docs) - 1)
			}
		}
		if c.P.Direct {
			work()
		} else {
			c.Go(fmt.Sprintf("task%d", i), work)
		}
	}
	var last []dop
	for k := 0; k < 6; k++ {
		last = append(last, genDop(g, w, weights, 9))
	}
	storm, stormText, stormParse := 0, "", 0
	if w.stale {
		storm = []int{0, 40, 300, 1100, 70000}[g.Pick(20, 8, 4, 2, 1)]
		stormText, stormParse = `[{"a":[1]},"storm"]`, 1+g.N(50)
	}
	after := func() {
		if storm > 0 {
			main.storm(storm, stormText, stormParse)
		}
		// a borrower that comes after all
		for _, o := range last {
			main.run(o)
		}
		for k := 0; w.stale && k < len(w.olds); k++ {
			main.run(dop{kind: oOld, a: k, b: k, c: 1})
		}
		for len(main.docs) > 0 {
			main.giveBack(len(main.docs) - 1)
		}
	}
	if c.P.Direct {
		after()
	} else {
		c.Post(after)
	}
}

func describe(o dop) string {
	s := fmt.Sprintf("%s %d %d %d", dopNames[o.kind], o.a, o.b, o.c)
	if o.text != "" {
		s += " " + short(o.text)
	}
	if len(o.cuts) > 0 {
		s += fmt.Sprintf(", ending early at %v", o.cuts)
	}
	if o.bad != "" {
		s += ", damaged " + short(o.bad)
	}
	if o.call != nil {
		s += " " + o.call.desc
	}
	return s
}

// borrow parse make set app rep rem sli del str sca rea ite res back call old nav big
var weightsC08 = []int{15, 40, 15, 25, 20, 10, 10, 5, 10, 5, 15, 20, 10, 10, 15, 15, 0, 15, 1, 12}
var weightsC09 = []int{15, 30, 10, 10, 10, 5, 5, 0, 5, 0, 10, 5, 15, 20, 20, 15, 50, 10, 2, 3}
var weightsC10 = []int{5, 70, 10, 15, 15, 5, 5, 5, 5, 5, 10, 10, 5, 10, 5, 0, 0, 10, 1, 3}

func setupC08(c *core.Ctx) {
	setupDocs(c, &world{}, taskCount(c.Gen), 14, weightsC08)
}

func setupC09(c *core.Ctx) {
	setupDocs(c, &world{stale: true}, taskCount(c.Gen), 18, weightsC09)
}

func setupC10(c *core.Ctx) {
	setupDocs(c, &world{}, 1, 20, weightsC10)
}

// ---- C11: concurrent readers

// gval is a value known by construction.
type gval struct {
	text string
	v    interface{}
}

func genVal(g *src, depth int) gval {
	var b strings.Builder
	v := genAnyK(&b, g, depth, false, true)
	return gval{b.String(), v}
}

var pCopyOut = core.Probe("reader: copied out of the shared document")
var pReadWrap = core.Probe("reader: unmarshaler called")

type rnode struct {
	n njson.Node
	g gval
}

type rop struct {
	kind, node, a, b, stalls int
}

func setupC11(c *core.Ctx) {
	g := c.Gen
	clear(tctx[:])
	newTk(c, -1)
	var d, m *njson.Document
	switch g.N(3) {
	case 0:
		d = new(njson.Document)
	case 1:
		d = njson.Blank()
	default:
		// a document that was used before
		d = njson.Blank()
		d.Parse(genDoc(g))
		d.Parse(genBad(g, genDoc(g)))
		d.Reset()
	}
	m = new(njson.Document)
	var nodes, mirror []rnode
	for i, n := 0, 1+g.N(3); i < n; i++ {
		v := genVal(g, 2+g.N(2))
		a, _, err := d.Parse(v.text)
		b, _, err2 := m.Parse(v.text)
		if err != nil || err2 != nil {
			c.Fail("parse", "%s: %v", v.text, err)
		}
		nodes = append(nodes, rnode{a, v})
		mirror = append(mirror, rnode{b, v})
		c.Describe("document value %d: %s", i, short(v.text))
	}
	if g.Bool(1, 2) {
		// nodes made by edits
		o, mo := d.Object(), m.Object()
		text := "{"
		v := map[string]interface{}{}
		for i := range nodes {
			k := fmt.Sprintf("k%d", i)
			o.Set(k, nodes[i].n)
			mo.Set(k, mirror[i].n)
			if i > 0 {
				text += ","
			}
			text += `"` + k + `":` + nodes[i].g.text
			v[k] = nodes[i].g.v
		}
		a, ma := d.Array(), m.Array()
		tx, mtx := d.Text("loose \"text\""), m.Text("loose \"text\"")
		a.Append(d.Number(2.5), d.True(), tx)
		ma.Append(m.Number(2.5), m.True(), mtx)
		gv := gval{text + "}", v}
		nodes = append(nodes, rnode{o, gv}, rnode{a, gval{`[2.5,true,"loose \"text\""]`, []interface{}{2.5, true, "loose \"text\""}}})
		mirror = append(mirror, rnode{mo, gv}, rnode{ma, nodes[len(nodes)-1].g})
	}
	if g.Bool(1, 3) {
		// a wide object that was edited
		v := gval{v: map[string]interface{}{}}
		n := 9 + g.N(40)
		v.text = "{"
		for i := 0; i < n; i++ {
			if i > 0 {
				v.text += ","
			}
			e := genVal(g, 0)
			k := fmt.Sprintf("w%d", (i*37)%n)
			if _, ok := v.v.(map[string]interface{})[k]; ok {
				k = fmt.Sprintf("v%d", i)
			}
			v.text += quoted(k, g) + ":" + e.text
			v.v.(map[string]interface{})[k] = e.v
		}
		v.text += "}"
		a, _, err := d.Parse(v.text)
		b, _, err2 := m.Parse(v.text)
		if err != nil || err2 != nil {
			c.Fail("parse", "%s: %v", v.text, err)
		}
		for i, k := 0, 1+g.N(6); i < k; i++ {
			key := fmt.Sprintf("w%d", g.N(n+4))
			switch g.N(4) {
			case 0:
				a.Del(key)
				b.Del(key)
				delete(v.v.(map[string]interface{}), key)
			case 1:
				a.Strip(key)
				b.Strip(key)
				delete(v.v.(map[string]interface{}), key)
			case 2:
				a.Set(key, nodes[0].n)
				b.Set(key, mirror[0].n)
				v.v.(map[string]interface{})[key] = nodes[0].g.v
			default:
				s := genPlain(g)
				a.Set(key, d.Text(s))
				b.Set(key, m.Text(s))
				v.v.(map[string]interface{})[key] = s
			}
		}
		v.text = jsonOf(b)
		nodes = append(nodes, rnode{a, v})
		mirror = append(mirror, rnode{b, v})
		c.Describe("an edited object: %s", short(v.text))
	}
	// values nested in these
	for i := 0; i < len(nodes) && len(nodes) < 16; i++ {
		switch v := nodes[i].g.v.(type) {
		case []interface{}:
			for k := range v {
				if len(nodes) < 16 {
					n := nodes[i].n.Index(k)
					mn := mirror[i].n.Index(k)
					x := rnode{n, gval{jsonOf(mn), v[k]}}
					nodes = append(nodes, x)
					mirror = append(mirror, rnode{mn, x.g})
				}
			}
		case map[string]interface{}:
			for _, k := range sortedKeys(v) {
				if len(nodes) < 16 {
					mn := mirror[i].n.Get(k)
					x := rnode{nodes[i].n.Get(k), gval{jsonOf(mn), v[k]}}
					nodes = append(nodes, x)
					mirror = append(mirror, rnode{mn, x.g})
				}
			}
		}
	}
	before := dump(d)
	tasks := 2 + g.Pick(3, 2, 1)
	for i := 0; i < tasks; i++ {
		t := newTk(c, i)
		ops := make([]rop, 1+g.N(8))
		for k := range ops {
			ops[k] = rop{g.N(13), g.N(len(nodes)), g.N(50), g.N(50), g.N(3)}
		}
		c.Describe("reader %d: %v", i, ops)
		c.Go(fmt.Sprintf("reader%d", i), func() {
			own := new(njson.Document)
			if ops[0].a%2 == 0 {
				own = njson.Blank()
			}
			for _, o := range ops {
				readShared(t, d, own, nodes[o.node], o)
			}
			if ops[0].a%2 == 0 {
				own.Close()
			}
		})
	}
	k1, k2 := g.N(len(nodes)), g.N(len(nodes))
	c.Post(func() {
		if s := dump(d); s != before {
			c.Fail("modified", "reading changed the document from %s to %s", short(before), short(s))
		}
		// it must also behave as a document nobody has read
		x := &ddoc{d: d, m: m}
		t := &dt{tk: tctx[0], w: &world{}}
		t.where = "edit after reading"
		for _, k := range []int{k1, k2} {
			o, mo := d.Array(), m.Array()
			v, mv := nodes[k].n, mirror[k].n
			o.Append(v)
			mo.Append(mv)
			setScalar(v, dop{c: k, text: "changed", f: 3})
			setScalar(mv, dop{c: k, text: "changed", f: 3})
			t.compare(x, dnode{o, mo}, "edited after the reads")
			t.compare(x, dnode{v, mv}, "edited after the reads")
		}
	})
}

func sortedKeys(m map[string]interface{}) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

// dump shows every node of a document.
func dump(d *njson.Document) string {
	var b strings.Builder
	for id := uint(0); ; id++ {
		n := d.Node(id)
		if n.Type() == njson.TypeInvalid {
			break
		}
		fmt.Fprintf(&b, "%d:%v %s", id, n.Type(), n.Raw())
		for it := n.Values(); it.Next(); {
			fmt.Fprintf(&b, " %s=%d", it.Key(), it.Value().ID())
		}
		b.WriteByte(';')
	}
	return b.String()
}

func readShared(t *tk, d, own *njson.Document, x rnode, o rop) {
	n, g := x.n, x.g
	t.where = fmt.Sprintf("read %d of %s", o.kind, short(g.text))
	simrt.Note("task %d: %s", t.id, t.where)
	bad := func(what string, got interface{}) {
		t.fail("wrong read", "%s gave %s", what, short(got))
	}
	switch o.kind {
	case 0:
		if s := jsonOf(n); !sameJSON([]byte(s), g.text) {
			bad("AppendJSON", s)
		}
	case 1:
		w := pWriter{t: t, stalls: o.stalls}
		c, err := n.PrintJSON(&w)
		if err != nil || c != len(w.handed) || !sameJSON(w.handed, g.text) {
			bad(fmt.Sprintf("PrintJSON (%v)", err), w.handed)
		}
	case 2:
		v, ok := n.ToInterface()
		if !ok || !reflect.DeepEqual(v, g.v) {
			bad("ToInterface", v)
		}
		scrub(&v)
	case 3: // navigate
		cur, v := n, g.v
		var path []string
		missing := false
		for k := 0; k < 4 && !missing; k++ {
			switch y := v.(type) {
			case []interface{}:
				i := (o.a + k*7) % (len(y) + 1)
				cur = cur.Index(i)
				path = append(path, strconv.Itoa(i))
				if missing = i == len(y); !missing {
					v = y[i]
				}
			case map[string]interface{}:
				keys := append(sortedKeys(y), "none")
				key := keys[(o.b+k*7)%len(keys)]
				cur = cur.Get(key)
				path = append(path, key)
				var ok bool
				v, ok = y[key]
				missing = !ok
			default:
				k = 4
			}
		}
		found := n.Lookup(path...)
		if missing {
			if cur.Type() != njson.TypeInvalid || found.Type() != njson.TypeInvalid {
				bad("navigation to a missing value", jsonOf(cur)+jsonOf(found))
			}
			return
		}
		got, ok := cur.ToInterface()
		if !ok || !reflect.DeepEqual(got, v) {
			bad("navigation", got)
		}
		got, ok = found.ToInterface()
		if !ok || !reflect.DeepEqual(got, v) {
			bad("Lookup", got)
		}
		if found.Document() != d || found.ID() != cur.ID() {
			bad("Lookup", found.ID())
		}
	case 4: // iterate
		i := 0
		for it := n.Values(); it.Next(); i++ {
			got, ok := it.Value().ToInterface()
			var want interface{}
			switch y := g.v.(type) {
			case []interface{}:
				if i < len(y) {
					want = y[i]
				}
			case map[string]interface{}:
				want = y[it.Key()]
			}
			if !ok || !reflect.DeepEqual(got, want) {
				bad("iteration", got)
			}
		}
		want := 0
		switch y := g.v.(type) {
		case []interface{}:
			want = len(y)
		case map[string]interface{}:
			want = len(y)
		}
		if i != want {
			bad("iteration", fmt.Sprint(i, " values"))
		}
	case 5: // scalars
		switch y := g.v.(type) {
		case float64:
			f, ok := n.ToFloat()
			if !ok || f != y {
				bad("ToFloat", f)
			}
			if i, ok := n.ToInt(); ok && float64(i) != y {
				bad("ToInt", i)
			}
		case bool:
			if v, ok := n.ToBool(); !ok || v != y {
				bad("ToBool", v)
			}
		case string:
			if s := n.Unescaped(); s != y {
				bad("Unescaped", s)
			}
		case nil:
			if n.Type() != njson.TypeNull {
				bad("Type", n.Type())
			}
		}
	case 6, 7: // unmarshalers
		core.Hit(pReadWrap)
		t.n, t.plan, t.seen, t.depth, t.fired = 0, []pact{{stalls: o.stalls}}, nil, 0, nil
		if y, ok := g.v.(string); ok && o.kind == 7 {
			err := n.WrapUnmarshalText(dT{})
			if err != nil || len(t.seen) != 1 || t.seen[0].text != y {
				bad(fmt.Sprintf("WrapUnmarshalText (%v)", err), t.seen)
			}
			return
		}
		err := n.WrapUnmarshalJSON(dJ{})
		if err != nil || len(t.seen) != 1 || !sameJSON([]byte(t.seen[0].text), g.text) {
			bad(fmt.Sprintf("WrapUnmarshalJSON (%v)", err), t.seen)
		}
	case 8:
		var v interface{}
		err := unjson.UnmarshalFromNode(n, &v)
		if err != nil || !reflect.DeepEqual(v, g.v) {
			bad(fmt.Sprintf("UnmarshalFromNode (%v)", err), v)
		}
		defer scrub(&v)
		switch y := g.v.(type) {
		case map[string]interface{}:
			var m map[string]interface{}
			if err := unjson.UnmarshalFromNode(n, &m); err != nil || !reflect.DeepEqual(m, y) {
				bad(fmt.Sprintf("UnmarshalFromNode to a map (%v)", err), m)
			}
			scrub(m)
			var r struct {
				A interface{}  `json:"a"`
				K interface{}  `json:"key"`
				P *interface{} `json:"x_y"`
			}
			if err := unjson.UnmarshalFromNode(n, &r); err != nil || !reflect.DeepEqual(r.A, y["a"]) || !reflect.DeepEqual(r.K, y["key"]) {
				bad(fmt.Sprintf("UnmarshalFromNode to a struct (%v)", err), r)
			}
		case []interface{}:
			var l []interface{}
			if err := unjson.UnmarshalFromNode(n, &l); err != nil || !reflect.DeepEqual(l, y) {
				bad(fmt.Sprintf("UnmarshalFromNode to a list (%v)", err), l)
			}
			scrub(l)
		case string:
			var s string
			if err := unjson.UnmarshalFromNode(n, &s); err != nil || s != y {
				bad(fmt.Sprintf("UnmarshalFromNode to a string (%v)", err), s)
			}
		case float64:
			var f float64
			if err := unjson.UnmarshalFromNode(n, &f); err != nil || f != y {
				bad(fmt.Sprintf("UnmarshalFromNode to a float (%v)", err), f)
			}
		}
	case 12:
		// the document as a whole is its first value
		b, err := d.AppendJSON(nil)
		if err != nil || string(b) != jsonOf(d.Root()) {
			bad(fmt.Sprintf("the document's AppendJSON (%v)", err), b)
		}
		w := pWriter{t: t, stalls: o.stalls}
		c, err := njson.PrintJSON(&w, d)
		if err != nil || c != len(b) || string(w.handed) != string(b) {
			bad(fmt.Sprintf("PrintJSON of the document (%v)", err), w.handed)
		}
	case 9:
		b, err := unjson.Marshal(n)
		if err != nil || !sameJSON(b, g.text) {
			bad(fmt.Sprintf("Marshal (%v)", err), b)
		}
	default: // copy out, then edit the copy
		core.Hit(pCopyOut)
		var cp njson.Node
		if o.kind == 10 {
			obj := own.Object()
			obj.Set("k", n)
			cp = obj.Get("k")
		} else {
			arr := own.Array()
			arr.Append(n, n)
			cp = arr.Index(1)
		}
		if s := jsonOf(cp); !sameJSON([]byte(s), g.text) {
			bad("a copy", s)
		}
		switch o.a % 6 {
		case 0:
			cp.SetStringRaw("edited copy")
		case 1:
			cp.Del("a")
		case 2:
			cp.Remove(0)
		case 3:
			cp.Append(own.Text("edited copy"))
			cp.Set("a", own.Text("edited copy"))
		case 4:
			cp.Index(0).SetInt(666)
			cp.Get("a").SetInt(666)
		case 5:
			cp.Replace(0, own.Text("edited copy"))
			cp.Strip("a")
		}
		if s := jsonOf(n); !sameJSON([]byte(s), g.text) {
			bad("AppendJSON after a copy was edited", s)
		}
	}
}
