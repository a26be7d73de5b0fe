// Package simrt is the simulator's runtime: cooperative tasks on real
// goroutines of which exactly one runs at a time, released by a seeded scheduler.
//
// The package is compiled without race instrumentation and hides its own
// hand-offs from the race detector, so that under -race only synchronisation
// performed by the code under test orders accesses of different tasks.
package simrt

import (
	"fmt"
	"reflect"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

type taskState uint8

const (
	ready taskState = iota
	blocked
	finished
)

// Task is a simulated thread of control.
type Task struct {
	ID         int
	Name       string
	wake       chan struct{}
	done       chan struct{}
	state      taskState
	cond       func() bool
	what       string
	fn         func()
	gone       bool // terminated by runtime.Goexit
	PanicValue interface{}
	PanicStack string
	started    bool
}

// Failure is a violation found during a run.
type Failure struct {
	Class  string
	Detail string
}

// Config are the per-run scheduler parameters.
type Config struct {
	MeanPreempt int // mean number of yield points between preemptions; 0: only at blocking points
	MaxSteps    int64
	PoolMiss    int // percent of Pool.Get that find the pool empty
	PoolDrop    int // percent of Pool.Put dropped
	PoolAny     int // percent of Pool.Get that take an arbitrary item, not the most recent
	Scribble    bool
	Trace       bool
}

// Sim is one simulated run.
type Sim struct {
	Cfg      Config
	Sched    *Source
	Env      *Source
	tasks    []*Task
	cur      *Task
	mainWake chan struct{}
	count    int64 // yield points until the next preemption
	Steps    int64
	Switches int64
	Preempts int64
	Hash     uint64
	aborting bool
	Failure  *Failure
	Now      int64
	Events   []Event
	runnable []*Task
}

// Event is one line of the schedule trace.
type Event struct {
	Step int64
	Task int
	Site uint32
	Text string
}

var active *Sim

// Sites resolves yield point numbers to source positions (set by the harness).
var Sites []string

type abortSentinel struct{}

// Active returns the current run or nil.
func Active() *Sim { return active }

// New returns a new run.
func New(cfg Config, sched, env *Source) *Sim {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 3000000
	}
	return &Sim{Cfg: cfg, Sched: sched, Env: env, mainWake: make(chan struct{}, 1), Hash: 14695981039346656037}
}

// Go adds a task.
func (s *Sim) Go(name string, fn func()) *Task {
	t := &Task{ID: len(s.tasks), Name: name, wake: make(chan struct{}, 1), done: make(chan struct{}), fn: fn}
	s.tasks = append(s.tasks, t)
	go s.body(t)
	return t
}

func (s *Sim) body(t *Task) {
	raceDisable()
	<-t.wake
	raceEnable()
	normal := false
	defer func() {
		var v interface{}
		if !normal {
			v = recover()
			if v == nil {
				t.gone = true
			} else if _, ok := v.(abortSentinel); !ok {
				t.PanicValue = v
				t.PanicStack = Stack()
				s.fail("panic", fmt.Sprintf("task %s: unexpected panic: %v\n%s", t.Name, v, t.PanicStack))
			}
		}
		close(t.done) // real edge task -> main
		raceDisable()
		t.state = finished
		s.leave()
		raceEnable()
	}()
	if s.aborting {
		panic(abortSentinel{})
	}
	t.fn()
	normal = true
}

var hexArgs = regexp.MustCompile(`\(?(0x[0-9a-f]+\??|\{|\}|, |\.\.\.)+\)|goroutine \d+ | \+0x[0-9a-f]+|/\S*/l[0-9]/`)

// Stack is the current stack without addresses, which differ between executions.
func Stack() string {
	l := strings.Split(string(debug.Stack()), "\n")
	for i := range l {
		if strings.HasPrefix(l[i], "panic(") && i+2 <= len(l) {
			l = l[i+2:]
			break
		}
	}
	if len(l) > 16 {
		l = l[:16]
	}
	return hexArgs.ReplaceAllString(strings.Join(l, "\n"), "")
}

// leave passes control on when the current task is over.
func (s *Sim) leave() {
	if s.aborting {
		s.mainWake <- struct{}{}
		return
	}
	if n := s.pick(true); n != nil {
		s.switchTo(n, 0)
		n.wake <- struct{}{}
		return
	}
	s.mainWake <- struct{}{}
}

func (s *Sim) mix(v uint64) {
	s.Hash = (s.Hash ^ v) * 1099511628211
}

func (s *Sim) switchTo(n *Task, site uint32) {
	s.cur = n
	s.Switches++
	s.mix(uint64(n.ID)<<32 | uint64(site))
	s.refill()
}

func (s *Sim) refill() {
	m := s.Cfg.MeanPreempt
	if m <= 0 {
		s.count = 1 << 62
		return
	}
	v := s.Sched.draw(uint32(2*m)+1, 1)
	if v == 0 {
		s.count = 1 << 62
		return
	}
	s.count = int64(v)
}

// pick chooses the next task to run; nil if none can. force: the current task cannot continue.
func (s *Sim) pick(force bool) *Task {
	r := s.runnable[:0]
	for _, t := range s.tasks {
		if t.state == blocked && t.cond() {
			t.state = ready
			t.cond = nil
		}
		if t.state == ready && !(force && t == s.cur) {
			r = append(r, t)
		}
	}
	s.runnable = r
	if len(r) == 0 {
		return nil
	}
	if len(r) == 1 {
		return r[0]
	}
	return r[s.Sched.N(len(r))]
}

// Run runs all tasks to completion and returns the failure found, if any.
func (s *Sim) Run() *Failure {
	if active != nil {
		panic("simrt: nested run")
	}
	active = s
	raceDisable()
	s.cur = nil
	if n := s.pick(false); n != nil {
		s.switchTo(n, 0)
		n.wake <- struct{}{}
		<-s.mainWake
		if !s.aborting {
			var stuck []string
			for _, t := range s.tasks {
				if t.state != finished {
					stuck = append(stuck, fmt.Sprintf("%s waits for %s", t.Name, t.what))
				}
			}
			if len(stuck) > 0 {
				s.fail("deadlock", fmt.Sprintf("no task can proceed: %v", stuck))
			}
		}
		s.aborting = true
		for i := 0; i < len(s.tasks); i++ {
			t := s.tasks[i]
			if t.state == finished {
				continue
			}
			s.cur = t
			t.wake <- struct{}{}
			<-s.mainWake
		}
	}
	raceEnable()
	for _, t := range s.tasks {
		<-t.done
	}
	active = nil
	return s.Failure
}

func (s *Sim) fail(class, detail string) {
	if s.Failure == nil {
		s.Failure = &Failure{class, detail}
	}
}

// Fail records a violation and ends the run. From a task it does not return.
func (s *Sim) Fail(class, format string, args ...interface{}) {
	s.fail(class, fmt.Sprintf(format, args...))
	if active == s && s.cur != nil {
		s.abort()
	}
}

// abort hands control to main, which unwinds every task; called on a task.
func (s *Sim) abort() {
	if !s.aborting {
		s.aborting = true
		raceDisable()
		t := s.cur
		s.mainWake <- struct{}{}
		<-t.wake
		raceEnable()
	}
	panic(abortSentinel{})
}

// Rethrow must be called with every value recovered by harness code.
func Rethrow(v interface{}) {
	if _, ok := v.(abortSentinel); ok {
		panic(v)
	}
}

// Y is a yield point.
func Y(site uint32) {
	if active != nil {
		yield(site)
	} else if Counting {
		work(1)
	}
}

func yield(site uint32) {
	s := active
	if s.aborting || s.cur == nil {
		return
	}
	s.Steps++
	if s.Steps > s.Cfg.MaxSteps {
		s.fail("livelock", fmt.Sprintf("no progress within %d steps (at %s)", s.Cfg.MaxSteps, SiteName(site)))
		s.abort()
	}
	s.count--
	if s.count > 0 {
		return
	}
	n := s.pick(false)
	if n == s.cur || n == nil {
		s.refill()
		return
	}
	s.Preempts++
	s.handoff(n, site)
}

// handoff switches from the current task to n.
func (s *Sim) handoff(n *Task, site uint32) {
	me := s.cur
	if s.Cfg.Trace {
		s.Events = append(s.Events, Event{s.Steps, n.ID, site, ""})
	}
	s.switchTo(n, site)
	raceDisable()
	n.wake <- struct{}{}
	<-me.wake
	raceEnable()
	if s.aborting {
		panic(abortSentinel{})
	}
}

// Yield is a yield point of the harness (inside simulated readers, callbacks, ...).
func Yield() { Y(HarnessSite) }

// HarnessSite marks yield points of the harness.
const HarnessSite = 0xffffff

// Stall gives every other task a chance to run for a while.
func Stall() {
	s := active
	if s == nil || s.aborting || s.cur == nil {
		return
	}
	s.Steps++
	if n := s.pick(true); n != nil {
		s.handoff(n, HarnessSite)
	}
}

// Block parks the current task until cond holds. Outside a run it panics if cond does not hold.
func Block(what string, cond func() bool) {
	s := active
	if s == nil || s.cur == nil {
		if !cond() {
			panic("simrt: would block for ever outside a run: " + what)
		}
		return
	}
	if s.aborting {
		return
	}
	for !cond() {
		t := s.cur
		t.state, t.cond, t.what = blocked, cond, what
		n := s.pick(true)
		if n == nil {
			// deadlock: let main find out
			raceDisable()
			s.mainWake <- struct{}{}
			<-t.wake
			raceEnable()
			panic(abortSentinel{})
		}
		s.handoff(n, HarnessSite)
	}
}

// Aborting reports whether the run is being torn down.
func Aborting() bool { return active != nil && active.aborting }

// Cur returns the current task's number, -1 outside a run.
func Cur() int {
	if active == nil || active.cur == nil {
		return -1
	}
	return active.cur.ID
}

// StepNo is the global event sequence number.
func StepNo() int64 {
	if active == nil {
		return 0
	}
	return active.Steps
}

// Note adds a line to the trace of the run.
func Note(format string, args ...interface{}) {
	s := active
	if s == nil || !s.Cfg.Trace || s.aborting {
		return
	}
	id := -1
	if s.cur != nil {
		id = s.cur.ID
	}
	s.Events = append(s.Events, Event{s.Steps, id, 0, fmt.Sprintf(format, args...)})
}

// GoCall implements the go statement of instrumented code.
func GoCall(f interface{}, args ...interface{}) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		pt := ft.In(min(i, ft.NumIn()-1))
		if ft.IsVariadic() && i >= ft.NumIn()-1 {
			pt = ft.In(ft.NumIn() - 1).Elem()
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
		} else {
			in[i] = reflect.ValueOf(a).Convert(pt)
		}
	}
	s := active
	if s == nil || s.cur == nil {
		go func() {
			markOutside(true)
			defer markOutside(false)
			fv.Call(in)
		}()
		return
	}
	s.Go(fmt.Sprintf("go%d", len(s.tasks)), func() { fv.Call(in) })
}

// SiteName names a yield point.
func SiteName(site uint32) string {
	if site == HarnessSite {
		return "harness"
	}
	if int(site) < len(Sites) {
		return Sites[site]
	}
	return fmt.Sprintf("site %d", site)
}

// TaskName returns the name of task id.
func (s *Sim) TaskName(id int) string {
	if id >= 0 && id < len(s.tasks) {
		return s.tasks[id].Name
	}
	return "main"
}

// ---- package state

type resetter struct {
	pkg string
	fn  func()
}

var resets []resetter

// RegisterReset registers the re-initialisation of a package's variables.
func RegisterReset(pkg string, fn func()) { resets = append(resets, resetter{pkg, fn}) }

var procResets []resetter

// RegisterProc registers the re-initialisation of a package that is used by
// simulated processes (package simos) only.
func RegisterProc(pkg string, fn func()) { procResets = append(procResets, resetter{pkg, fn}) }

// ResetProc puts those packages' variables in their initial state, as at the start of a process.
func ResetProc() {
	for _, r := range procResets {
		r.fn()
	}
}

// ResetGlobals puts every instrumented package's variables in their initial state.
func ResetGlobals() {
	resetChans()
	for _, r := range resets {
		r.fn()
	}
}

// Zero sets *p to its zero value.
func Zero(p interface{}) {
	v := reflect.ValueOf(p).Elem()
	v.Set(reflect.Zero(v.Type()))
}

// ---- clock

// TimeNow is the simulated clock.
func TimeNow() time.Time {
	if s := active; s != nil {
		return time.Unix(1500000000+s.Now, 0).UTC()
	}
	return time.Unix(1500000000+ClockOffset, 0).UTC()
}

// ClockOffset shifts the clock outside runs.
var ClockOffset int64

// TimeSince mirrors time.Since.
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }

// TimeSleep advances the simulated clock.
func TimeSleep(d time.Duration) {
	if s := active; s != nil {
		s.Now += int64(d / time.Second)
		Stall()
	}
}

// ---- map iteration order

// MapOrder, when set, decides the iteration order of maps outside runs.
var MapOrder *Source

// MapIters counts map iterations ordered by the simulator (with at least two entries).
var MapIters int64

func orderSource() *Source {
	if s := active; s != nil {
		return s.Env
	}
	return MapOrder
}

// Shuffle permutes n items in simulated order.
func Shuffle(n int, swap func(i, j int)) { shuffle(n, swap) }

func shuffle(n int, swap func(i, j int)) {
	if n < 2 {
		return
	}
	src := orderSource()
	if src == nil {
		return
	}
	MapIters++
	for i := 0; i < n-1; i++ {
		if j := i + src.N(n-i); j != i {
			swap(i, j)
		}
	}
}

func keyString(v reflect.Value) string {
	if v.Kind() == reflect.String {
		return "s" + v.String()
	}
	return fmt.Sprintf("%T:%v", v, v)
}

func ordered(keys []reflect.Value) {
	names := make([]string, len(keys))
	idx := make([]int, len(keys))
	for i := range keys {
		names[i] = keyString(keys[i])
		idx[i] = i
	}
	sort.SliceStable(idx, func(i, j int) bool { return names[idx[i]] < names[idx[j]] })
	out := make([]reflect.Value, len(keys))
	for i, j := range idx {
		out[i] = keys[j]
	}
	copy(keys, out)
}

// Item is one entry of an iterated map.
type Item[K comparable, V any] struct {
	k K
	m map[K]V
}

// Get returns the entry if it is still in the map.
func (it Item[K, V]) Get() (K, V, bool) {
	v, ok := it.m[it.k]
	return it.k, v, ok
}

// MapIter returns the entries of a map in simulated order.
func MapIter[M ~map[K]V, K comparable, V any](m M) []Item[K, V] {
	rk := reflect.ValueOf(m).MapKeys()
	ordered(rk)
	items := make([]Item[K, V], len(rk))
	for i, k := range rk {
		var key K
		if x := k.Interface(); x != nil { // nil keys of interface types
			key = x.(K)
		}
		items[i] = Item[K, V]{key, m}
	}
	shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
	return items
}

// ReflectMapKeys is reflect.Value.MapKeys in simulated order.
func ReflectMapKeys(v reflect.Value) []reflect.Value {
	keys := v.MapKeys()
	ordered(keys)
	shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	return keys
}

// ReflectMapIter stands in for reflect.MapIter.
type ReflectMapIter struct {
	m    reflect.Value
	keys []reflect.Value
	pos  int
}

// ReflectMapRange is reflect.Value.MapRange in simulated order.
func ReflectMapRange(v reflect.Value) *ReflectMapIter {
	return &ReflectMapIter{m: v, keys: ReflectMapKeys(v)}
}

func (it *ReflectMapIter) Next() bool {
	for it.pos < len(it.keys) {
		it.pos++
		if it.m.MapIndex(it.keys[it.pos-1]).IsValid() {
			return true
		}
	}
	return false
}
func (it *ReflectMapIter) Key() reflect.Value    { return it.keys[it.pos-1] }
func (it *ReflectMapIter) Value() reflect.Value  { return it.m.MapIndex(it.keys[it.pos-1]) }
func (it *ReflectMapIter) Reset(v reflect.Value) { *it = *ReflectMapRange(v) }

// ---- garbage collection

var epoch int64

// Epoch counts simulated garbage collections; pools empty themselves when it changes.
func Epoch() int64 { return epoch }

// GC simulates a garbage collection emptying all pools.
func GC() { epoch++ }

// ---- exclusive claims (harness bookkeeping hidden from the race detector)

// No Go map: the runtime reports map accesses to the race detector.
var claims [1024]struct {
	p     uintptr
	owner int
}
var numClaims int

// Claim notes that the current task owns p; it returns the owner if another does, else -1.
func Claim(p uintptr) int {
	for i := 0; i < numClaims; i++ {
		if claims[i].p == p {
			return claims[i].owner
		}
	}
	if numClaims < len(claims) {
		claims[numClaims].p, claims[numClaims].owner = p, Cur()
		numClaims++
	}
	return -1
}

// Claimed reports whether p has an owner.
func Claimed(p uintptr) bool {
	for i := 0; i < numClaims; i++ {
		if claims[i].p == p {
			return true
		}
	}
	return false
}

// Unclaim ends ownership of p.
func Unclaim(p uintptr) {
	for i := 0; i < numClaims; i++ {
		if claims[i].p == p {
			numClaims--
			claims[i].p, claims[i].owner = claims[numClaims].p, claims[numClaims].owner
			return
		}
	}
}

// ClearClaims forgets all claims.
func ClearClaims() { numClaims = 0 }

// ---- counters

// MaxCounters is the number of fault and probe counters.
const MaxCounters = 256

// Counters are fault and probe counts of this process.
var Counters [MaxCounters]int64

// RunCounters are those of the current run.
var RunCounters [MaxCounters]int64

// Count increments a counter.
func Count(k int) {
	if Aborting() {
		return
	}
	RunCounters[k]++
}

// Goexit ends the current task from inside a callback.
func Goexit() { runtime.Goexit() }
