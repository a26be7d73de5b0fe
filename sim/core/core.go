// Package core executes, minimises, records and replays simulated runs.
package core

import (
	"fmt"
	"hash/fnv"
	"os"
	"strings"

	"github.com/alxarch/njson/verifsim/simos"
	"github.com/alxarch/njson/verifsim/simrt"
	"github.com/alxarch/njson/verifsim/simsync"
)

// Prop is the simulation deciding one property.
type Prop struct {
	ID   string
	Rule string
	// Setup draws a workload from c.Gen and adds tasks (c.Go) and checks to be
	// made after the run (c.Post).
	Setup func(c *Ctx)
	// Direct runs take place outside tasks (no concurrency in the property).
	Direct bool
	Real   []string
	Stub   []string
	// Probes are counters expected to be non-zero in a quick batch.
	Probes []int
}

// Ctx is the context of one run.
type Ctx struct {
	P        *Prop
	Gen, Env *simrt.Source
	Sim      *simrt.Sim
	posts    []func()
	WantDesc bool
	desc     []string
}

// Go adds a task.
func (c *Ctx) Go(name string, fn func()) *simrt.Task { return c.Sim.Go(name, fn) }

// Post adds a check made after all tasks are done.
func (c *Ctx) Post(fn func()) { c.posts = append(c.posts, fn) }

// Describe adds a line to the description of the run.
func (c *Ctx) Describe(format string, args ...interface{}) {
	if c.WantDesc {
		c.desc = append(c.desc, fmt.Sprintf(format, args...))
	}
}

type postFail struct{}

// Fail reports a violation; it does not return.
func (c *Ctx) Fail(class, format string, args ...interface{}) {
	c.Sim.Fail(class, format, args...)
	panic(postFail{})
}

// Rethrow must be called with every value recovered by harness code.
func Rethrow(v interface{}) {
	simrt.Rethrow(v)
	if _, ok := v.(postFail); ok {
		panic(v)
	}
}

// Outcome of a run.
type Outcome struct {
	Fail       *simrt.Failure
	Steps      int64
	Switches   int64
	Preempts   int64
	SimTime    int64
	Sig        uint64 // signature of the execution
	Inter      uint64 // signature of the interleaving
	Nontrivial bool
	Desc       []string
	Trace      []string
}

// ---- counters

var counterNames [simrt.MaxCounters]string
var nextCounter = 40
var faultCounter [simrt.MaxCounters]bool

func init() {
	for i, n := range []string{"pool get: reused item", "pool get: forced miss", "pool put: dropped", "pool get: arbitrary item", "pool put: buffer scribbled", "pool emptied by gc", "lock contended", "rlock contended", "once contended", "cond wait"} {
		counterNames[i] = n
	}
	for _, i := range []int{simsync.CPoolMiss, simsync.CPoolDrop, simsync.CPoolAny, simsync.CPoolScribble, simsync.CPoolPurge} {
		faultCounter[i] = true
	}
	for i, n := range []string{"create error", "write error", "short write", "disk full", "close error", "sync error", "rename error", "remove error", "kill", "kill in mid-write", "", "standard output fails"} {
		if n != "" {
			counterNames[simos.CCreateErr+i] = n
			faultCounter[simos.CCreateErr+i] = true
		}
	}
}

// Fault registers a fault counter.
func Fault(name string) int {
	nextCounter++
	counterNames[nextCounter] = name
	faultCounter[nextCounter] = true
	return nextCounter
}

// Probe registers a reach counter.
func Probe(name string) int {
	nextCounter++
	counterNames[nextCounter] = name
	return nextCounter
}

// Hit counts.
func Hit(k int) { simrt.Count(k) }

func hashVals(h uint64, v []uint32) uint64 {
	for _, x := range v {
		h = (h ^ uint64(x) ^ 0x9e37) * 1099511628211
	}
	return h
}

// RaceLog is the prefix of the race detector's log file, set by the orchestrator.
var RaceLog string

func raceReport(before int64) (string, int64) {
	name := fmt.Sprintf("%s.%d", RaceLog, os.Getpid())
	b, err := os.ReadFile(name)
	if err != nil {
		return "(report on standard error)", before
	}
	s := string(b)
	n := int64(len(s))
	if before < n {
		s = s[before:]
	}
	if i := strings.Index(s, "Goroutine "); i > 0 {
		s = s[:i]
	}
	return strings.TrimSpace(s), n
}

var raceSeen int
var raceOff int64

// Execute performs one run.
func Execute(p *Prop, gen, sched, env *simrt.Source, trace, desc bool) (o Outcome) {
	simrt.ResetGlobals()
	simrt.ClearClaims()
	simrt.GC()
	clear(simrt.RunCounters[:])
	// swarm configuration
	cfg := simrt.Config{Trace: trace}
	if !p.Direct {
		cfg.MeanPreempt = []int{0, 1, 2, 4, 10, 40, 200}[gen.Pick(1, 2, 3, 3, 3, 2, 1)]
		if gen.Bool(1, 3) {
			cfg.PoolMiss = gen.Range(0, 60)
		}
		if gen.Bool(1, 3) {
			cfg.PoolDrop = gen.Range(0, 40)
		}
		if gen.Bool(1, 2) {
			cfg.PoolAny = gen.Range(0, 100)
		}
		cfg.Scribble = gen.Bool(1, 2)
	}
	s := simrt.New(cfg, sched, env)
	c := &Ctx{P: p, Gen: gen, Env: env, Sim: s, WantDesc: desc || trace}
	func() {
		defer func() {
			if v := recover(); v != nil {
				if _, ok := v.(postFail); ok {
					return
				}
				s.Fail("panic", "unexpected panic outside tasks: %v\n%s", v, simrt.Stack())
			}
		}()
		p.Setup(c)
		if !p.Direct {
			s.Run()
		}
		if s.Failure == nil {
			for _, f := range c.posts {
				f()
			}
		}
	}()
	o.Fail = s.Failure
	if n := simrt.RaceErrors(); n > raceSeen {
		raceSeen = n
		var rep string
		rep, raceOff = raceReport(raceOff)
		if o.Fail == nil {
			o.Fail = &simrt.Failure{Class: "race", Detail: "data race\n" + rep}
		}
	}
	o.Steps, o.Switches, o.Preempts, o.SimTime = s.Steps, s.Switches, s.Preempts, s.Now
	o.Inter = s.Hash
	h := s.Hash
	h = hashVals(h, gen.Vals[:min(gen.Used(), len(gen.Vals))])
	h = hashVals(h*31+7, env.Vals[:min(env.Used(), len(env.Vals))])
	for i, n := range simrt.RunCounters {
		if n != 0 {
			simrt.Counters[i] += n
			h = (h ^ uint64(n)<<8 ^ uint64(i)) * 1099511628211
			if faultCounter[i] {
				o.Nontrivial = true
			}
		}
	}
	if s.Preempts > 0 {
		o.Nontrivial = true
	}
	o.Sig = h ^ uint64(s.Steps)
	o.Desc = c.desc
	if trace {
		for _, e := range s.Events {
			if e.Text != "" {
				o.Trace = append(o.Trace, fmt.Sprintf("%7d %-10s %s", e.Step, s.TaskName(e.Task), e.Text))
			} else {
				o.Trace = append(o.Trace, fmt.Sprintf("%7d switch to %s at %s", e.Step, s.TaskName(e.Task), simrt.SiteName(e.Site)))
			}
		}
	}
	return o
}

func propSeed(base uint64, id string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(id))
	return simrt.Mix(base, h.Sum64())
}

// Choices is a recorded execution.
type Choices struct {
	Gen   []uint32 `json:"gen"`
	Sched []uint32 `json:"schedule"`
	Env   []uint32 `json:"environment"`
}

func (c Choices) size() int { return len(c.Gen) + len(c.Sched) + len(c.Env) }

func fresh(seed uint64) (gen, sched, env *simrt.Source) {
	return simrt.NewSource(simrt.Mix(seed, 1)), simrt.NewSource(simrt.Mix(seed, 2)), simrt.NewSource(simrt.Mix(seed, 3))
}

func replay(p *Prop, ch Choices, trace bool) (Outcome, Choices) {
	g, s, e := simrt.ReplaySource(ch.Gen), simrt.ReplaySource(ch.Sched), simrt.ReplaySource(ch.Env)
	o := Execute(p, g, s, e, trace, false)
	cut := func(v []uint32, used int) []uint32 {
		v = v[:min(used, len(v))]
		for len(v) > 0 && v[len(v)-1] == 0 {
			v = v[:len(v)-1]
		}
		return v
	}
	return o, Choices{cut(ch.Gen, g.Used()), cut(ch.Sched, s.Used()), cut(ch.Env, e.Used())}
}
