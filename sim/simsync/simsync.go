// Package simsync stands in for package sync in instrumented code. Blocking
// and pool behaviour are decided by the simulator; under -race the same
// happens-before edges as the real package's are reported, and no others.
package simsync

import (
	"bytes"
	"reflect"
	"sort"
	"unsafe"

	"fmt"

	"github.com/alxarch/njson/verifsim/simrt"
)

// Fault and probe counters of this package (see harness).
const (
	CPoolHit = iota
	CPoolMiss
	CPoolDrop
	CPoolAny
	CPoolScribble
	CPoolPurge
	CLockWait
	CRLockWait
	COnceWait
	CCondWait
	NCounters
)

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

func fatal(msg string) {
	if s := simrt.Active(); s != nil {
		if simrt.Aborting() {
			return
		}
		s.Fail("fatal", "fatal error: %s", msg)
	}
	panic("fatal error: " + msg)
}

// Mutex is sync.Mutex.
type Mutex struct {
	locked bool
	edge   byte
}

func (m *Mutex) Lock() {
	simrt.Yield()
	if m.locked {
		simrt.Count(CLockWait)
		simrt.Block("Mutex.Lock", func() bool { return !m.locked })
	}
	m.locked = true
	simrt.RaceAcquire(unsafe.Pointer(&m.edge))
}

func (m *Mutex) TryLock() bool {
	simrt.Yield()
	if m.locked {
		return false
	}
	m.locked = true
	simrt.RaceAcquire(unsafe.Pointer(&m.edge))
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		fatal("sync: unlock of unlocked mutex")
		return
	}
	simrt.RaceRelease(unsafe.Pointer(&m.edge))
	m.locked = false
	simrt.Yield()
}

// RWMutex is sync.RWMutex: a waiting writer keeps new readers out.
type RWMutex struct {
	writer  bool
	waiting int
	readers int
	redge   byte
	wedge   byte
}

func (m *RWMutex) RLock() {
	simrt.Yield()
	if m.writer || m.waiting > 0 {
		simrt.Count(CRLockWait)
		simrt.Block("RWMutex.RLock", func() bool { return !m.writer && m.waiting == 0 })
	}
	m.readers++
	simrt.RaceAcquire(unsafe.Pointer(&m.redge))
}

func (m *RWMutex) TryRLock() bool {
	simrt.Yield()
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	simrt.RaceAcquire(unsafe.Pointer(&m.redge))
	return true
}

func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
		return
	}
	simrt.RaceReleaseMerge(unsafe.Pointer(&m.wedge))
	m.readers--
	simrt.Yield()
}

func (m *RWMutex) Lock() {
	simrt.Yield()
	if m.writer || m.readers > 0 {
		simrt.Count(CLockWait)
		m.waiting++
		ok := false
		defer func() {
			if !ok {
				m.waiting--
			}
		}()
		simrt.Block("RWMutex.Lock", func() bool { return !m.writer && m.readers == 0 })
		ok = true
		m.waiting--
	}
	m.writer = true
	simrt.RaceAcquire(unsafe.Pointer(&m.redge))
	simrt.RaceAcquire(unsafe.Pointer(&m.wedge))
}

func (m *RWMutex) TryLock() bool {
	simrt.Yield()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	simrt.RaceAcquire(unsafe.Pointer(&m.redge))
	simrt.RaceAcquire(unsafe.Pointer(&m.wedge))
	return true
}

func (m *RWMutex) Unlock() {
	if !m.writer {
		fatal("sync: Unlock of unlocked RWMutex")
		return
	}
	simrt.RaceRelease(unsafe.Pointer(&m.redge))
	m.writer = false
	simrt.Yield()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Pool is sync.Pool. The simulator decides whether a Get hits, which item it
// returns, whether a Put is dropped, and when a garbage collection empties it.
type Pool struct {
	New   func() interface{}
	items [maxPool]poolItem // a fixed array: the runtime reports slice growth and copies to the race detector
	n     int
	gen   int64
	edge  byte
}

type poolItem struct{ x interface{} }

const maxPool = 64

func (p *Pool) check() {
	if g := simrt.Epoch(); p.gen != g {
		p.gen = g
		for p.n > 0 {
			p.n--
			p.items[p.n].x = nil
		}
	}
}

func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	simrt.Yield()
	p.check()
	s := simrt.Active()
	if s != nil && s.Cfg.Scribble {
		scribble(x)
	}
	if p.n >= maxPool || s != nil && s.Cfg.PoolDrop > 0 && s.Env.Bool(s.Cfg.PoolDrop, 100) {
		simrt.Count(CPoolDrop)
		return
	}
	simrt.RaceReleaseMerge(unsafe.Pointer(&p.edge))
	p.items[p.n].x = x
	p.n++
	simrt.Yield()
}

func (p *Pool) Get() interface{} {
	simrt.Yield()
	s := simrt.Active()
	if s != nil && s.Cfg.PoolMiss > 0 && p.n > 0 && s.Env.Bool(1, 50) {
		simrt.GC()
		simrt.Count(CPoolPurge)
	}
	p.check()
	if n := p.n; n > 0 {
		if s != nil && s.Cfg.PoolMiss > 0 && s.Env.Bool(s.Cfg.PoolMiss, 100) {
			simrt.Count(CPoolMiss)
		} else {
			i := n - 1
			if s != nil && n > 1 && s.Cfg.PoolAny > 0 && s.Env.Bool(s.Cfg.PoolAny, 100) {
				i = s.Env.N(n)
				simrt.Count(CPoolAny)
			}
			x := p.items[i].x
			for ; i+1 < n; i++ {
				p.items[i].x = p.items[i+1].x
			}
			p.n--
			p.items[p.n].x = nil
			simrt.Count(CPoolHit)
			simrt.RaceAcquire(unsafe.Pointer(&p.edge))
			return x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// scribble overwrites pooled byte buffers: their next borrower may write
// anything to them at any time.
func scribble(x interface{}) {
	var b []byte
	switch x := x.(type) {
	case []byte:
		b = x
	case *[]byte:
		if x != nil {
			b = *x
		}
	case *bytes.Buffer:
		if x != nil {
			b = x.Bytes()
			b = b[:cap(b)]
			if len(b) > 0 && x.Len() > 0 {
				return // contents may be meaningful to the next borrower
			}
		}
	default:
		return
	}
	b = b[:cap(b)]
	if len(b) > 1<<14 {
		b = b[:1<<14]
	}
	const junk = "~pooled buffer reused by somebody else"
	for i := 0; i < len(b); i += len(junk) {
		copy(b[i:], junk)
	}
	simrt.Count(CPoolScribble)
}

// Once is sync.Once.
type Once struct {
	state uint8 // 0 new, 1 running, 2 done
	edge  byte
}

func (o *Once) Do(f func()) {
	simrt.Yield()
	if o.state == 1 {
		simrt.Count(COnceWait)
		simrt.Block("Once.Do", func() bool { return o.state == 2 })
	}
	if o.state == 2 {
		simrt.RaceAcquire(unsafe.Pointer(&o.edge))
		return
	}
	o.state = 1
	defer func() {
		simrt.RaceRelease(unsafe.Pointer(&o.edge))
		o.state = 2
	}()
	f()
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	var p interface{}
	ok := false
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					simrt.Rethrow(p)
					panic(p)
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var v T
	g := OnceFunc(func() { v = f() })
	return func() T { g(); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var v1 T1
	var v2 T2
	g := OnceFunc(func() { v1, v2 = f() })
	return func() (T1, T2) { g(); return v1, v2 }
}

// Map is sync.Map. It has no Go map inside, because the runtime reports those to
// the race detector: a store happens before the calls that see it, and nothing else.
type Map struct {
	buckets [256]*mapEntry
	edge    byte // deletions
}

type mapEntry struct {
	k, v interface{}
	next *mapEntry
	edge byte
}

func bucket(k interface{}) int {
	if s, ok := k.(string); ok {
		h := uint(len(s))
		for i := 0; i < len(s); i++ {
			h = h*31 + uint(s[i])
		}
		return int(h % 256)
	}
	if v := reflect.ValueOf(k); v.Kind() == reflect.Ptr {
		return int(v.Pointer() / 64 % 256)
	}
	return 0
}

// find gives the place of an entry.
func (m *Map) find(k interface{}) **mapEntry {
	p := &m.buckets[bucket(k)]
	for *p != nil && (*p).k != k {
		p = &(*p).next
	}
	return p
}

func (m *Map) load(p **mapEntry) (interface{}, bool) {
	if *p == nil {
		simrt.RaceAcquire(unsafe.Pointer(&m.edge))
		return nil, false
	}
	simrt.RaceAcquire(unsafe.Pointer(&(*p).edge))
	return (*p).v, true
}

func (m *Map) store(p **mapEntry, k, v interface{}) {
	if *p == nil {
		*p = &mapEntry{k: k}
	}
	simrt.RaceReleaseMerge(unsafe.Pointer(&(*p).edge))
	(*p).v = v
}

func (m *Map) remove(p **mapEntry) {
	if *p != nil {
		simrt.RaceReleaseMerge(unsafe.Pointer(&m.edge))
		*p = (*p).next
	}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	simrt.Yield()
	return m.load(m.find(k))
}
func (m *Map) Store(k, v interface{}) {
	simrt.Yield()
	m.store(m.find(k), k, v)
	simrt.Yield()
}
func (m *Map) Delete(k interface{}) {
	simrt.Yield()
	m.remove(m.find(k))
}
func (m *Map) Clear() {
	simrt.Yield()
	simrt.RaceReleaseMerge(unsafe.Pointer(&m.edge))
	for i := range m.buckets {
		m.buckets[i] = nil
	}
}
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	simrt.Yield()
	p := m.find(k)
	if o, ok := m.load(p); ok {
		return o, true
	}
	m.store(p, k, v)
	simrt.Yield()
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	simrt.Yield()
	p := m.find(k)
	v, ok := m.load(p)
	m.remove(p)
	return v, ok
}
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	simrt.Yield()
	p := m.find(k)
	o, ok := m.load(p)
	m.store(p, k, v)
	simrt.Yield()
	return o, ok
}
func (m *Map) CompareAndSwap(k, old, new interface{}) bool {
	simrt.Yield()
	p := m.find(k)
	if o, ok := m.load(p); !ok || o != old {
		return false
	}
	m.store(p, k, new)
	simrt.Yield()
	return true
}
func (m *Map) CompareAndDelete(k, old interface{}) bool {
	simrt.Yield()
	p := m.find(k)
	if o, ok := m.load(p); !ok || o != old {
		return false
	}
	m.remove(p)
	return true
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	simrt.Yield()
	var keys []interface{}
	for i := range m.buckets {
		for e := m.buckets[i]; e != nil; e = e.next {
			keys = append(keys, e.k)
		}
	}
	names := make([]string, len(keys))
	for i, k := range keys {
		names[i] = fmt.Sprintf("%T:%v", k, k)
	}
	sort.Sort(&byName{keys, names})
	simrt.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	for _, k := range keys {
		simrt.Yield()
		v, ok := m.load(m.find(k))
		if ok && !f(k, v) {
			return
		}
	}
}

type byName struct {
	keys  []interface{}
	names []string
}

func (b *byName) Len() int           { return len(b.keys) }
func (b *byName) Less(i, j int) bool { return b.names[i] < b.names[j] }
func (b *byName) Swap(i, j int) {
	b.keys[i], b.keys[j] = b.keys[j], b.keys[i]
	b.names[i], b.names[j] = b.names[j], b.names[i]
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n    int
	edge byte
}

func (w *WaitGroup) Add(n int) {
	simrt.Yield()
	if n < 0 {
		simrt.RaceReleaseMerge(unsafe.Pointer(&w.edge))
	}
	w.n += n
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	simrt.Yield()
	simrt.Block("WaitGroup.Wait", func() bool { return w.n == 0 })
	simrt.RaceAcquire(unsafe.Pointer(&w.edge))
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.GoCall(func() { defer w.Done(); f() })
}

// Cond is sync.Cond.
type Cond struct {
	L     Locker
	waits []*bool
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	woken := new(bool)
	c.waits = append(c.waits, woken)
	simrt.Count(CCondWait)
	c.L.Unlock()
	simrt.Block("Cond.Wait", func() bool { return *woken })
	c.L.Lock()
}
func (c *Cond) Signal() {
	simrt.Yield()
	if n := len(c.waits); n > 0 {
		i := 0
		if s := simrt.Active(); s != nil {
			i = s.Env.N(n)
		}
		*c.waits[i] = true
		rest := make([]*bool, 0, n)
		for k, w := range c.waits {
			if k != i {
				rest = append(rest, w)
			}
		}
		c.waits = rest
	}
}
func (c *Cond) Broadcast() {
	simrt.Yield()
	for _, w := range c.waits {
		*w = true
	}
	c.waits = nil
}
