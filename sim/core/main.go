package core

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/alxarch/njson/verifsim/simrt"
)

// Replay is a replay file.
type Replay struct {
	Property  string `json:"property"`
	Target    string `json:"target"`
	Seed      uint64 `json:"verif_seed"`
	RunSeed   uint64 `json:"run_seed"`
	Class     string `json:"class"`
	Violation string `json:"violation"`
	FromSeed  bool   `json:"from_seed"` // replay from run seeds, not from recorded choices
	// Before are the seeds of runs to execute first: the violation needs what
	// they leave behind in the process (only when it does not repeat alone).
	Before    []string `json:"runs_before,omitempty"`
	Choices   Choices  `json:"choices"`
	Original  int      `json:"choices_before_minimisation"`
	Minimised int      `json:"choices_after_minimisation"`
	Tries     int      `json:"minimisation_runs"`
	Workload  []string
	Trace     []string `json:"trace"`
}

type workerResult struct {
	Runs, Nontrivial   int64
	Steps, Switches    int64
	Preempts           int64
	SimTime            int64
	Rechecks, Mismatch int64
	Counters           map[string]int64
	Samples            [][]string
	Elapsed            float64
	MaxSteps           int64
	MismatchSeed       uint64
	Failed             bool
	Known              map[string]int64
}

// Finding is an entry of known-findings.json.
type Finding struct {
	Status   string `json:"status"` // open or fixed
	Property string `json:"property"`
	Class    string `json:"class"`
	Match    string `json:"match"` // regular expression over the violation text
	Text     string `json:"text"`
}

var (
	fWorker  = flag.Bool("worker", false, "")
	fProp    = flag.String("prop", "", "property")
	fSeed    = flag.Uint64("seed", 1, "")
	fIdx     = flag.Int("idx", 0, "")
	fBudget  = flag.Duration("budget", 10*time.Second, "")
	fOut     = flag.String("out", "", "")
	fReplay  = flag.String("replay", "", "replay file")
	fRunSeed = flag.Uint64("runseed", 0, "execute the run with this seed")
	fTarget  = flag.String("target", "harness", "")
	fKnown   = flag.String("known", "", "known findings file")
	fMaxRuns = flag.Int64("maxruns", 0, "")
	fPrint   = flag.Bool("print", false, "print the trace")
	fOrch    = flag.String("orchestrate", "", "phases, target=seconds, comma separated")
	fVerif   = flag.String("verif", "", "")
	fTier    = flag.String("tier", "quick", "")
	fWorkers = flag.Int("workers", 8, "")
	fSelf    = flag.Int("selftest", 0, "print signatures of this many runs")
)

var lastBeat atomic.Int64

// Beat tells the watchdog that there is progress.
func Beat() { lastBeat.Store(time.Now().UnixNano()) }

// AtExit is called before the process ends.
var AtExit func()

func exit(code int) {
	if AtExit != nil {
		AtExit()
	}
	os.Exit(code)
}

// Main is the entry point of a simulator binary.
func Main(props []*Prop) {
	flag.Parse()
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(3 << 30)
	debug.SetMaxStack(64 << 20)
	if b, err := os.ReadFile(os.Args[0] + ".sites"); err == nil {
		simrt.Sites = strings.Split(strings.TrimSpace(string(b)), "\n")
	}
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			RaceLog = strings.TrimPrefix(f, "log_path=")
		}
	}
	var p *Prop
	for _, q := range props {
		if q.ID == *fProp {
			p = q
		}
	}
	lastBeat.Store(time.Now().UnixNano())
	go func() {
		for {
			time.Sleep(time.Second)
			if time.Since(time.Unix(0, lastBeat.Load())) > 60*time.Second {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "watchdog: no progress for 60s\n%s\n", buf)
				exit(4)
			}
		}
	}()
	switch {
	case *fReplay != "":
		var r Replay
		b, err := os.ReadFile(*fReplay)
		if err == nil {
			err = json.Unmarshal(b, &r)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			exit(3)
		}
		for _, q := range props {
			if q.ID == r.Property {
				p = q
			}
		}
		if p == nil {
			fmt.Fprintln(os.Stderr, "unknown property", r.Property)
			exit(3)
		}
		var o Outcome
		if r.FromSeed {
			for _, b := range r.Before {
				g, s, e := fresh(Atou(b, 1))
				Execute(p, g, s, e, false, false)
				lastBeat.Store(time.Now().UnixNano())
			}
			g, s, e := fresh(r.RunSeed)
			o = Execute(p, g, s, e, *fPrint, false)
		} else {
			o, _ = replay(p, r.Choices, *fPrint)
		}
		if *fPrint {
			for _, l := range o.Desc {
				fmt.Println("workload:", l)
			}
			for _, l := range o.Trace {
				fmt.Println(l)
			}
		}
		if o.Fail != nil {
			fmt.Printf("REPRODUCED class=%s\n%s\n", o.Fail.Class, o.Fail.Detail)
			exit(0)
		}
		fmt.Println("NOT REPRODUCED")
		exit(5)
	case p == nil:
		fmt.Fprintln(os.Stderr, "unknown property", *fProp)
		exit(3)
	case *fOrch != "":
		var phases []Phase
		for _, ph := range strings.Split(*fOrch, ",") {
			name, secs, _ := strings.Cut(ph, "=")
			phases = append(phases, Phase{Binary: filepath.Join(filepath.Dir(os.Args[0]), name), Target: name, Budget: time.Duration(Atou(secs, 10)) * time.Second, Workers: *fWorkers})
		}
		runtime.GOMAXPROCS(2)
		go func() {
			for {
				lastBeat.Store(time.Now().UnixNano())
				time.Sleep(time.Second)
			}
		}()
		Orchestrate(p, phases, *fVerif, *fTier, *fSeed)
	case *fSelf > 0:
		base := propSeed(*fSeed, p.ID)
		for i := 0; i < *fSelf; i++ {
			g, s, e := fresh(simrt.Mix(base, uint64(i)))
			o := Execute(p, g, s, e, false, false)
			lastBeat.Store(time.Now().UnixNano())
			fmt.Printf("%d %x %x %d %v\n", i, o.Sig, o.Inter, o.Steps, o.Fail)
		}
	case *fRunSeed != 0:
		g, s, e := fresh(*fRunSeed)
		o := Execute(p, g, s, e, *fPrint, true)
		for _, l := range append(o.Desc, o.Trace...) {
			fmt.Println(l)
		}
		if o.Fail != nil {
			fmt.Printf("FAIL class=%s\n%s\n", o.Fail.Class, o.Fail.Detail)
			exit(1)
		}
		fmt.Println("ok", o.Steps, "steps")
	case *fWorker:
		worker(p)
	default:
		fmt.Fprintln(os.Stderr, "nothing to do")
		exit(3)
	}
}

func loadKnown() (known []Finding) {
	if *fKnown == "" {
		return nil
	}
	b, err := os.ReadFile(*fKnown)
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &known); err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		exit(3)
	}
	return known
}

func matchKnown(known []Finding, id string, f *simrt.Failure) *Finding {
	for i := range known {
		k := &known[i]
		if k.Status != "open" || k.Property != id || k.Class != f.Class {
			continue
		}
		if ok, _ := regexp.MatchString(k.Match, f.Detail); ok {
			return k
		}
	}
	return nil
}

func worker(p *Prop) {
	known := loadKnown()
	start := time.Now()
	base := propSeed(*fSeed, p.ID)
	res := workerResult{Counters: map[string]int64{}, Known: map[string]int64{}}
	sigs := map[uint64]bool{}
	inters := map[uint64]bool{}
	cur, err := os.Create(filepath.Join(*fOut, fmt.Sprintf("w%d.cur", *fIdx)))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		exit(3)
	}
	stop := filepath.Join(*fOut, "stop")
	var b8 [8]byte
	for i := int64(0); ; i++ {
		if *fMaxRuns > 0 && i >= *fMaxRuns {
			break
		}
		if i&15 == 0 || p.Direct {
			if time.Since(start) > *fBudget {
				break
			}
			if _, err := os.Stat(stop); err == nil {
				break
			}
		}
		seed := simrt.Mix(base, uint64(*fIdx)<<40|uint64(i))
		if seed == 0 {
			seed = 1
		}
		binary.LittleEndian.PutUint64(b8[:], seed)
		cur.WriteAt(b8[:], 0)
		lastBeat.Store(time.Now().UnixNano())
		g, s, e := fresh(seed)
		want := *fIdx == 0 && (i == 1 || i == 10 || i == 100)
		o := Execute(p, g, s, e, false, want)
		res.Runs++
		res.Steps += o.Steps
		res.Switches += o.Switches
		res.Preempts += o.Preempts
		res.SimTime += o.SimTime
		if o.Steps > res.MaxSteps {
			res.MaxSteps = o.Steps
		}
		if o.Nontrivial {
			res.Nontrivial++
			if len(sigs) < 2000000 {
				sigs[o.Sig] = true
			}
		}
		if len(inters) < 2000000 {
			inters[o.Inter] = true
		}
		if want {
			res.Samples = append(res.Samples, append(o.Desc, fmt.Sprintf("run seed %d: %d steps, %d task switches, %d preemptions", seed, o.Steps, o.Switches, o.Preempts)))
		}
		ch := Choices{g.Vals, s.Vals, e.Vals}
		if o.Fail != nil {
			if k := matchKnown(known, p.ID, o.Fail); k != nil {
				res.Known[k.Text]++
				continue
			}
			res.Failed = true
			r := Replay{Property: p.ID, Target: *fTarget, Seed: *fSeed, RunSeed: seed, Original: ch.size()}
			class := o.Fail.Class
			// keep an unminimised copy first
			write := func(name string, ch Choices) {
				o2, _ := replay(p, ch, true)
				f := o2.Fail
				if f == nil {
					f = o.Fail
				}
				r.Class, r.Violation, r.Choices, r.Minimised = f.Class, f.Detail, ch, ch.size()
				r.Workload = o2.Desc
				r.Trace = o2.Trace
				if len(r.Trace) > 600 {
					r.Trace = append(r.Trace[:300:300], append([]string{fmt.Sprintf("... %d lines left out ...", len(r.Trace)-600)}, r.Trace[len(r.Trace)-300:]...)...)
				}
				b, _ := json.MarshalIndent(r, "", " ")
				os.WriteFile(filepath.Join(*fOut, name+".tmp"), b, 0o644)
				os.Rename(filepath.Join(*fOut, name+".tmp"), filepath.Join(*fOut, name))
			}
			write(fmt.Sprintf("w%d.raw", *fIdx), ch)
			os.WriteFile(stop, nil, 0o644)
			done := make(chan bool)
			go func() { // keep the watchdog quiet while minimising
				for {
					select {
					case <-done:
						return
					case <-time.After(5 * time.Second):
						lastBeat.Store(time.Now().UnixNano())
					}
				}
			}()
			small, tries := shrink(p, ch, class, 15*time.Second)
			close(done)
			r.Tries = tries
			write(fmt.Sprintf("w%d.min", *fIdx), small)
			break
		}
		if i%199 == 7 {
			res.Rechecks++
			o2, _ := replay(p, ch, false)
			if o2.Sig != o.Sig || (o2.Fail == nil) != (o.Fail == nil) {
				res.Mismatch++
				res.MismatchSeed = seed
			}
		}
	}
	res.Elapsed = time.Since(start).Seconds()
	for i, n := range simrt.Counters {
		if counterNames[i] != "" {
			res.Counters[counterNames[i]] = n
		}
	}
	dump := func(name string, m map[uint64]bool) {
		var b bytes.Buffer
		for h := range m {
			binary.LittleEndian.PutUint64(b8[:], h)
			b.Write(b8[:])
		}
		os.WriteFile(filepath.Join(*fOut, fmt.Sprintf("w%d.%s", *fIdx, name)), b.Bytes(), 0o644)
	}
	dump("sig", sigs)
	dump("inter", inters)
	b, _ := json.Marshal(res)
	os.WriteFile(filepath.Join(*fOut, fmt.Sprintf("w%d.json", *fIdx)), b, 0o644)
}

// ---- orchestration (runs in the check command, see cmd check)

// Phase is a batch of simulated runs with one binary.
type Phase struct {
	Binary, Target string
	Budget         time.Duration
	Workers        int
	Env            []string
	MaxRuns        int64
}

// isCrash tells whether the output of a process shows that it crashed.
func isCrash(out []byte) bool {
	return bytes.Contains(out, []byte("fatal error:")) || bytes.Contains(out, []byte("goroutine stack exceeds")) || bytes.Contains(out, []byte("[signal SIG"))
}

// Orchestrate runs the phases of a property's check and exits.
func Orchestrate(p *Prop, phases []Phase, verif, tier string, seed uint64) {
	start := time.Now()
	fail := func(format string, args ...interface{}) {
		fmt.Fprintf(os.Stderr, "check %s: "+format+"\n", append([]interface{}{p.ID}, args...)...)
		exit(3)
	}
	evDir := filepath.Join(verif, "evidence")
	replays := filepath.Join(evDir, "replays")
	os.MkdirAll(replays, 0o755)
	knownFile := filepath.Join(verif, "known-findings.json")
	var knownAll []Finding
	if b, err := os.ReadFile(knownFile); err == nil {
		if err := json.Unmarshal(b, &knownAll); err != nil {
			fail("known-findings.json: %v", err)
		}
	}
	tot := workerResult{Counters: map[string]int64{}, Known: map[string]int64{}}
	sigs := map[uint64]bool{}
	inters := map[uint64]bool{}
	phaseInfo := []map[string]interface{}{}
	violations := 0
	var vline, vpath string
	for _, ph := range phases {
		dir, err := os.MkdirTemp("", "njsim")
		if err != nil {
			fail("%v", err)
		}
		type proc struct {
			cmd *exec.Cmd
			err bytes.Buffer
			rc  error
		}
		procs := make([]*proc, ph.Workers)
		env := append(os.Environ(), ph.Env...)
		env = append(env, "TMPDIR="+dir)
		env = append(env, "GORACE=halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=3 log_path="+filepath.Join(dir, "race"))
		for i := range procs {
			pr := &proc{}
			pr.cmd = exec.Command(ph.Binary, "-worker", "-prop", p.ID, "-seed", fmt.Sprint(seed), "-idx", fmt.Sprint(i), "-budget", ph.Budget.String(), "-out", dir, "-target", ph.Target, "-known", knownFile, "-maxruns", fmt.Sprint(ph.MaxRuns))
			pr.cmd.Env = env
			pr.cmd.Stderr = &pr.err
			procs[i] = pr
			if err := pr.cmd.Start(); err != nil {
				fail("%v", err)
			}
		}
		for _, pr := range procs {
			pr.rc = pr.cmd.Wait()
		}
		phaseStart := tot.Runs
		elapsed := 0.0
		unclear := "" // a crash that did not repeat by itself
		crashed := map[int]Replay{}
		for i, pr := range procs {
			if pr.rc == nil {
				var r workerResult
				b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("w%d.json", i)))
				if err == nil {
					err = json.Unmarshal(b, &r)
				}
				if err != nil {
					fail("worker result: %v", err)
				}
				tot.Runs += r.Runs
				tot.Nontrivial += r.Nontrivial
				tot.Steps += r.Steps
				tot.Switches += r.Switches
				tot.Preempts += r.Preempts
				tot.SimTime += r.SimTime
				tot.Rechecks += r.Rechecks
				tot.Mismatch += r.Mismatch
				tot.MaxSteps = max(tot.MaxSteps, r.MaxSteps)
				if r.Mismatch > 0 {
					fmt.Fprintf(os.Stderr, "check %s: warning: run with seed %d did not repeat exactly\n", p.ID, r.MismatchSeed)
				}
				for k, n := range r.Counters {
					tot.Counters[k] += n
				}
				for k, n := range r.Known {
					tot.Known[k] += n
				}
				tot.Samples = append(tot.Samples, r.Samples...)
				elapsed = max(elapsed, r.Elapsed)
				for name, m := range map[string]map[uint64]bool{"sig": sigs, "inter": inters} {
					b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("w%d.%s", i, name)))
					for ; len(b) >= 8; b = b[8:] {
						m[binary.LittleEndian.Uint64(b)] = true
					}
				}
				continue
			}
			// the worker died
			text := pr.err.String()
			crash := isCrash([]byte(text))
			if ee, ok := pr.rc.(*exec.ExitError); ok && ee.ExitCode() == 4 {
				crash = false
			}
			if !crash {
				fail("worker %d: %v\n%s", i, pr.rc, tail(text, 4000))
			}
			b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("w%d.cur", i)))
			if len(b) < 8 {
				fail("worker %d crashed before its first run: %s", i, tail(text, 4000))
			}
			if _, err := os.Stat(filepath.Join(dir, fmt.Sprintf("w%d.raw", i))); err == nil {
				continue // it crashed while minimising a violation
			}
			rs := binary.LittleEndian.Uint64(b)
			cmd := exec.Command(ph.Binary, "-prop", p.ID, "-runseed", fmt.Sprint(rs))
			cmd.Env = env
			out, rerr := cmd.CombinedOutput()
			line := text
			if j := strings.Index(line, "fatal error:"); j >= 0 {
				line = line[j:]
			}
			r := Replay{Property: p.ID, Target: ph.Target, Seed: seed, RunSeed: rs, Class: "crash", FromSeed: true, Violation: "the process crashed: " + tail(firstLines(line, 30), 3000)}
			if rerr == nil || !isCrash(out) {
				unclear = fmt.Sprintf("worker %d crashed, and its run (seed %d) does not crash again: %s", i, rs, tail(text, 3000))
				crashed[i] = r
				continue
			}
			vpath = filepath.Join(replays, fmt.Sprintf("%s-%s-%d.json", p.ID, ph.Target, rs))
			b, _ = json.MarshalIndent(r, "", " ")
			os.WriteFile(vpath, b, 0o644)
			vline = r.Violation
			violations++
		}
		// violations found and minimised by workers
		if violations == 0 {
			best := ""
			bestN := 1 << 62
			ended := time.Now()
			for _, suf := range []string{"min", "raw"} {
				for i := range procs {
					if best != "" && time.Since(ended) > 20*time.Second {
						break
					}
					name := filepath.Join(dir, fmt.Sprintf("w%d.%s", i, suf))
					b, err := os.ReadFile(name)
					if err != nil {
						continue
					}
					var r Replay
					if json.Unmarshal(b, &r) != nil {
						continue
					}
					// the file must reproduce in a fresh process
					ok := false
					tries := 1
					if r.Class == "race" {
						tries = 5 // std library pools under the race detector drop items at random
					}
					for t := 0; t < tries && !ok; t++ {
						cmd := exec.Command(ph.Binary, "-replay", name)
						cmd.Env = env
						out, _ := cmd.CombinedOutput()
						ok = bytes.Contains(out, []byte("REPRODUCED class="+r.Class+"\n")) && !bytes.Contains(out, []byte("NOT REPRODUCED"))
					}
					if !ok {
						fmt.Fprintf(os.Stderr, "check %s: %s (run seed %d, class %s) did not reproduce in a fresh process: %s\n", p.ID, suf, r.RunSeed, r.Class, firstLines(r.Violation, 4))
						continue
					}
					if r.Minimised < bestN {
						bestN, best = r.Minimised, name
						vpath = filepath.Join(replays, fmt.Sprintf("%s-%s-%d.json", p.ID, ph.Target, r.RunSeed))
						vline = fmt.Sprintf("[%s] %s (minimised from %d to %d choices in %d runs)", r.Class, firstLines(r.Violation, 25), r.Original, r.Minimised, r.Tries)
						os.WriteFile(vpath, b, 0o644)
					}
				}
				if best != "" {
					violations++
					break
				}
			}
			// a violation that needs the runs before it (state left in the process)
			for i := range procs {
				if best != "" {
					break
				}
				r, crash := crashed[i]
				if !crash {
					b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("w%d.raw", i)))
					if err != nil {
						continue
					}
					if json.Unmarshal(b, &r) != nil {
						continue
					}
				}
				r.FromSeed, r.Choices, r.Trace = true, Choices{}, nil
				base := propSeed(seed, p.ID)
				at := int64(-1)
				for j := int64(0); j < 50000000 && at < 0; j++ {
					if sd := simrt.Mix(base, uint64(i)<<40|uint64(j)); sd == r.RunSeed {
						at = j
					}
				}
				limit := time.Now().Add(90 * time.Second)
				for n := int64(0); at >= 0 && n <= 2*at+1 && time.Now().Before(limit); n = 4*n + 1 {
					k := min(n, at)
					r.Before = nil
					for j := at - k; j < at; j++ {
						r.Before = append(r.Before, fmt.Sprint(simrt.Mix(base, uint64(i)<<40|uint64(j))))
					}
					name := filepath.Join(dir, "history")
					b, _ := json.MarshalIndent(r, "", " ")
					os.WriteFile(name, b, 0o644)
					ok := true
					for t := 0; t < 2 && ok; t++ {
						cmd := exec.Command(ph.Binary, "-replay", name)
						cmd.Env = env
						out, _ := cmd.CombinedOutput()
						if ok = bytes.Contains(out, []byte("REPRODUCED class="+r.Class+"\n")) && !bytes.Contains(out, []byte("NOT REPRODUCED")); crash {
							ok = isCrash(out)
						}
					}
					if ok {
						best = name
						vpath = filepath.Join(replays, fmt.Sprintf("%s-%s-%d.json", p.ID, ph.Target, r.RunSeed))
						vline = fmt.Sprintf("[%s] %s (after %d runs in the same process)", r.Class, firstLines(r.Violation, 25), k)
						os.WriteFile(vpath, b, 0o644)
						violations++
						break
					}
				}
			}
			if best == "" && unclear != "" {
				fail("%s", unclear)
			}
			if best == "" {
				if _, err := os.Stat(filepath.Join(dir, "stop")); err == nil {
					fail("a violation was seen but no replay file reproduces it")
				}
			}
		}
		phaseInfo = append(phaseInfo, map[string]interface{}{"binary": ph.Target, "race_detector": ph.Target == "race", "workers": ph.Workers, "runs": tot.Runs - phaseStart, "seconds": elapsed})
		os.RemoveAll(dir)
		if violations > 0 {
			break
		}
	}
	wall := time.Since(start).Seconds()
	simSecs := 0.0
	for _, pi := range phaseInfo {
		simSecs += pi["seconds"].(float64)
	}
	faults := map[string]int64{}
	probes := map[string]int64{}
	for i, n := range counterNames {
		if n == "" {
			continue
		}
		if v := tot.Counters[n]; v > 0 {
			if faultCounter[i] {
				faults[n] = v
			} else {
				probes[n] = v
			}
		}
	}
	zero := []string{}
	for _, k := range p.Probes {
		if tot.Counters[counterNames[k]] == 0 {
			zero = append(zero, counterNames[k])
		}
	}
	sort.Strings(zero)
	samples := []interface{}{}
	for _, s := range tot.Samples {
		if len(s) > 40 {
			s = append(s[:40:40], "...")
		}
		samples = append(samples, s)
	}
	rate := func(n int64) int64 {
		if simSecs == 0 {
			return 0
		}
		return int64(float64(n) / simSecs * 3600)
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": violations,
		"coverage": map[string]interface{}{
			"evaluations":                  tot.Runs,
			"distinct_nontrivial":          len(sigs),
			"rule":                         p.Rule + " A run is counted as non-trivial if at least one fault was injected or a task was preempted; distinct means a different combination of workload, environment choices, fired faults and schedule (signature over all of them).",
			"samples":                      samples,
			"simulated_runs_per_hour":      rate(tot.Runs),
			"seeds_per_hour":               rate(tot.Runs),
			"nontrivial_runs":              tot.Nontrivial,
			"distinct_interleavings":       len(inters),
			"interleaving_measure":         "hash of the sequence of (task switched to, source position of the yield point)",
			"scheduler_steps":              tot.Steps,
			"simulated_time":               fmt.Sprintf("%d scheduler steps; the code has no timers, the simulated clock advanced %d s", tot.Steps, tot.SimTime),
			"task_switches":                tot.Switches,
			"preemptions":                  tot.Preempts,
			"longest_run_steps":            tot.MaxSteps,
			"faults_injected":              faults,
			"reach_probes":                 probes,
			"reach_probes_at_zero":         zero,
			"determinism_rechecks":         tot.Rechecks,
			"determinism_mismatches":       tot.Mismatch,
			"phases":                       phaseInfo,
			"components_running_real_code": p.Real,
			"components_stubbed":           p.Stub,
		},
		"assumptions": []string{"sampling: absence of a violation in the explored runs is evidence, not proof", "tasks switch at statement boundaries, at lock and pool operations and inside simulated readers, writers and callbacks; instruction-level reordering within a statement is covered by the race detector phase where there is one", "standard library code runs for real and is not preempted"},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fail("%v", err)
	}
	for _, k := range knownAll {
		if k.Status == "open" && k.Property == p.ID {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.Text)
		}
	}
	if violations > 0 {
		fmt.Println(vline)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, vpath)
		exit(1)
	}
	fmt.Printf("%s: held on %d runs (%d distinct non-trivial, %d interleavings), %.1fs\n", p.ID, tot.Runs, len(sigs), len(inters), wall)
	if tot.Runs == 0 {
		fail("no runs")
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// Atou parses a number.
func Atou(s string, def uint64) uint64 {
	if n, err := strconv.ParseUint(s, 10, 64); err == nil {
		return n
	}
	return def
}
