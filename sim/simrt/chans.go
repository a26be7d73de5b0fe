package simrt

import (
	"reflect"
	"runtime"
	"strings"
	"sync"
	"time"
	"unsafe"
)

// Channel operations of instrumented code. Values that are buffered stay in the
// real channel; whether an operation can proceed, and the hand-over of values
// over unbuffered channels, is decided here. What is generic is compiled into the
// packages under test, with race instrumentation: it touches no simulator state.

// (Lists, not maps and slices: the runtime reports the use of those as accesses.)
type chanState struct {
	p      uintptr
	next   *chanState
	closed bool
	queue  *chanItem // values sent over an unbuffered channel, not received yet
	queued int
	waits  int // receivers waiting
}

type chanItem struct {
	next  *chanItem
	v     reflect.Value
	taken bool
	edge  byte
}

var (
	chans      *chanState
	chanEvents int64
)

func resetChans() { chans, chanEvents = nil, 0 }

// Case is one channel operation: an argument of Select.
type Case struct {
	ch   reflect.Value
	send bool
	v    reflect.Value // value to send, or where to put the received one
	ok   bool
}

func (c *Case) state() *chanState {
	p := c.ch.Pointer()
	for s := chans; s != nil; s = s.next {
		if s.p == p {
			return s
		}
	}
	chans = &chanState{p: p, next: chans}
	return chans
}

func (s *chanState) push(v reflect.Value) *chanItem {
	it := &chanItem{v: v}
	at := &s.queue
	for *at != nil {
		at = &(*at).next
	}
	*at = it
	s.queued++
	RaceReleaseMerge(unsafe.Pointer(&it.edge))
	return it
}

// ready reports whether a case of a select can proceed.
func (c *Case) ready() bool {
	if c.ch.IsNil() {
		return false
	}
	s := c.state()
	if c.send {
		if s.closed {
			return true
		}
		if c.ch.Cap() > 0 {
			return c.ch.Len() < c.ch.Cap()
		}
		return s.waits > s.queued
	}
	if c.ch.Len() == 0 && s.queued == 0 && !s.closed {
		if v, ok := c.ch.TryRecv(); !ok && v.IsValid() {
			s.closed = true // outside the simulation
		}
	}
	return c.ch.Len() > 0 || s.closed || s.queued > 0
}

// do carries out an operation that can proceed.
func (c *Case) do() {
	s := c.state()
	chanEvents++
	switch {
	case c.send && (c.ch.Cap() > 0 || s.closed):
		c.ch.TrySend(c.v) // panics if closed
	case c.send:
		s.push(c.v)
	case s.queued > 0:
		it := s.queue
		s.queue = it.next
		s.queued--
		RaceAcquire(unsafe.Pointer(&it.edge))
		it.taken = true
		RaceReleaseMerge(unsafe.Pointer(&it.edge))
		c.v.Set(it.v)
		c.ok = true
	default:
		v, ok := c.ch.TryRecv()
		if v.IsValid() {
			c.v.Set(v)
		}
		c.ok = ok
	}
}

func outside() bool { return active == nil || active.cur == nil }

// Goroutines started outside simulated runs may wait as long as they like.
var (
	outsideMu sync.Mutex
	outsideGo = map[string]bool{}
)

func goid() string {
	var b [64]byte
	s := string(b[:runtime.Stack(b[:], false)])
	if i := strings.Index(s, " ["); i > 0 {
		return s[:i]
	}
	return s
}

func markOutside(on bool) {
	id := goid()
	outsideMu.Lock()
	if on {
		outsideGo[id] = true
	} else {
		delete(outsideGo, id)
	}
	outsideMu.Unlock()
}

func isOutside() bool {
	outsideMu.Lock()
	n := len(outsideGo)
	outsideMu.Unlock()
	if n == 0 {
		return false
	}
	id := goid()
	outsideMu.Lock()
	defer outsideMu.Unlock()
	return outsideGo[id]
}

// real carries out the operation with the runtime, outside simulated runs.
func real(hasDefault bool, cases []*Case) int {
	var in []reflect.SelectCase
	for _, c := range cases {
		if c.send {
			in = append(in, reflect.SelectCase{Dir: reflect.SelectSend, Chan: c.ch, Send: c.v})
		} else {
			in = append(in, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: c.ch})
		}
	}
	if hasDefault {
		in = append(in, reflect.SelectCase{Dir: reflect.SelectDefault})
	} else if !isOutside() {
		t := time.NewTimer(time.Second)
		defer t.Stop()
		in = append(in, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(t.C)})
	}
	i, v, ok := reflect.Select(in)
	if i == len(cases) {
		if hasDefault {
			return -1
		}
		panic("simrt: a channel operation blocks for ever")
	}
	if c := cases[i]; !c.send {
		c.v.Set(v)
		c.ok = ok
	}
	return i
}

func send(ch, v reflect.Value) {
	c := &Case{ch: ch, send: true, v: v}
	if outside() {
		real(false, []*Case{c})
		return
	}
	Yield()
	if ch.IsNil() {
		Block("send to a nil channel", func() bool { return false })
		return
	}
	s := c.state()
	if ch.Cap() > 0 {
		Block("channel send", c.ready)
		if !Aborting() {
			c.do()
		}
		return
	}
	if s.closed {
		panic("send on closed channel")
	}
	it := s.push(v)
	chanEvents++
	Block("channel send", func() bool { return it.taken || s.closed })
	if !it.taken && !Aborting() {
		panic("send on closed channel")
	}
	RaceAcquire(unsafe.Pointer(&it.edge))
}

func recv(ch, v reflect.Value) bool {
	c := &Case{ch: ch, v: v}
	if outside() {
		real(false, []*Case{c})
		return c.ok
	}
	Yield()
	if ch.IsNil() {
		Block("receive from a nil channel", func() bool { return false })
		return false
	}
	s := c.state()
	s.waits++
	chanEvents++ // a receiver arrived
	Block("channel receive", c.ready)
	s.waits--
	if !Aborting() {
		c.do()
	}
	return c.ok
}

func closeChan(ch reflect.Value) {
	if !outside() && !ch.IsNil() {
		Yield()
		(&Case{ch: ch}).state().closed = true
		chanEvents++
	}
	ch.Close()
}

func sel(hasDefault bool, cases []*Case) int {
	if outside() {
		return real(hasDefault, cases)
	}
	Yield()
	for first := true; ; first = false {
		var can []int
		for i, c := range cases {
			if c.ready() {
				can = append(can, i)
			}
		}
		if len(can) > 0 {
			k := can[0]
			if len(can) > 1 {
				k = can[active.Env.N(len(can))]
			}
			cases[k].do()
			return k
		}
		if hasDefault {
			return -1
		}
		if active.aborting {
			panic(abortSentinel{})
		}
		enter := func(n int) {
			for _, c := range cases {
				if !c.send && !c.ch.IsNil() {
					c.state().waits += n
				}
			}
		}
		enter(1)
		if first {
			chanEvents++ // a receiver arrived
		}
		n := chanEvents
		Block("select", func() bool { return chanEvents != n })
		enter(-1)
	}
}

// ChanSend is ch <- v, as ChanSend(ch)(v): v converts as it does in a send.
func ChanSend[T any](ch chan<- T) func(T) {
	return func(v T) { send(reflect.ValueOf(ch), reflect.ValueOf(&v).Elem()) }
}

// ChanRecv2 is v, ok := <-ch.
func ChanRecv2[T any](ch <-chan T) (T, bool) {
	v := new(T)
	ok := recv(reflect.ValueOf(ch), reflect.ValueOf(v).Elem())
	return *v, ok
}

// ChanRecv is <-ch.
func ChanRecv[T any](ch <-chan T) T {
	v := new(T)
	recv(reflect.ValueOf(ch), reflect.ValueOf(v).Elem())
	return *v
}

// ChanClose is close(ch).
func ChanClose[T any](ch chan<- T) { closeChan(reflect.ValueOf(ch)) }

// RecvC is a receiving case.
type RecvC[T any] struct {
	Case *Case
	v    *T
}

// RecvCase is case <-ch.
func RecvCase[T any](ch <-chan T) *RecvC[T] {
	v := new(T)
	return &RecvC[T]{&Case{ch: reflect.ValueOf(ch), v: reflect.ValueOf(v).Elem()}, v}
}

// V is the received value.
func (c *RecvC[T]) V() T { return *c.v }

// OK tells whether a value was received.
func (c *RecvC[T]) OK() bool { return c.Case.isOK() }

func (c *Case) isOK() bool { return c.ok }

// SendC is a sending case.
type SendC struct{ Case *Case }

// SendCase is case ch <- v, as SendCase(ch)(v).
func SendCase[T any](ch chan<- T) func(T) SendC {
	return func(v T) SendC {
		return SendC{&Case{ch: reflect.ValueOf(ch), send: true, v: reflect.ValueOf(&v).Elem()}}
	}
}

// Select chooses a case that can proceed: its index, or -1 for the default.
func Select(hasDefault bool, cases ...*Case) int { return sel(hasDefault, cases) }

// Gosched is runtime.Gosched.
func Gosched() { Stall() }
