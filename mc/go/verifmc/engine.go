// Command verifmc is a stateless model checker of neojhat. A space is a function that asks for
// every nondeterministic choice; all choice vectors within the bounds are executed, depth
// first, against the real code.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Space is one bounded set of executions of a property.
type Space struct {
	Name string
	Fn   func(c *Ctx)
	// Devs bounds the number of deviations (see Ctx.Dev) of one execution.
	Devs int
	// Real tells that the executions need nothing but a file system, so that they can be
	// repeated with the unmodified binary. One state of RealEvery is.
	Real      bool
	RealEvery int
	// Stubborn is the number of attempts to reproduce a violation (for code whose own
	// nondeterminism is not controlled).
	Attempts int
	// Alone: at most this many workers (memory).
	Workers int
}

type Property struct {
	ID     string
	Level  string
	Rule   string
	Assume []string
	Spaces func(thorough bool) []Space
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

type choice struct{ n, c int }

// Ctx is one execution.
type Ctx struct {
	vec      []choice
	pos      int
	devs     int
	key      string
	keyed    bool
	e        *explorer
	real     bool
	usedReal bool
	Thorough bool
	cleanup  []func()
	steps    int
	nontriv  bool
	sample   string
	mu       sync.Mutex
}

type skip struct{}
type violation struct{ msg string }

// Choose enumerates 0..n-1.
func (c *Ctx) Choose(n int) int {
	if n <= 0 {
		panic("Choose(0)")
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.steps++
	if n == 1 {
		return 0
	}
	if c.pos < len(c.vec) {
		ch := &c.vec[c.pos]
		if ch.n == 0 {
			ch.n = n
		}
		if ch.n != n {
			panic(fmt.Sprintf("choice %d had %d options, now %d: the space is not deterministic", c.pos, ch.n, n))
		}
		c.pos++
		return ch.c
	}
	c.vec = append(c.vec, choice{n, 0})
	c.pos++
	return 0
}

func (c *Ctx) Bool() bool { return c.Choose(2) == 1 }

// Dev is a choice whose option 0 is the default; every other option uses up one deviation.
func (c *Ctx) Dev(n int) int {
	if c.devs <= 0 {
		return 0
	}
	k := c.Choose(n)
	if k != 0 {
		c.devs--
	}
	return k
}

// Pick chooses an element.
func Pick[T any](c *Ctx, xs []T) T { return xs[c.Choose(len(xs))] }

// State declares that everything chosen so far is described by key. States are distributed
// over the workers by key, and a state reached again by other choices is not explored again.
func (c *Ctx) State(key string) {
	if c.real || c.e == nil || c.e.replay {
		c.key, c.keyed = key, true
		return
	}
	if !c.keyed {
		h := fnv.New64a()
		h.Write([]byte(key))
		if int(h.Sum64()%uint64(c.e.shards)) != c.e.shard {
			panic(skip{})
		}
	}
	var sb strings.Builder
	for _, ch := range c.vec[:c.pos] {
		fmt.Fprintf(&sb, "%d,", ch.c)
	}
	by := sb.String()
	if first, ok := c.e.seen[key]; ok && first != by {
		panic(skip{})
	} else if !ok {
		c.e.seen[key] = by
		c.e.states++
	}
	c.key, c.keyed = key, true
}

// Skip leaves out this combination of choices.
func (c *Ctx) Skip() { panic(skip{}) }

// Steps counts transitions.
func (c *Ctx) Steps(n int) { c.steps += n }

// Trivial marks the execution as not counting as a non-trivial one.
func (c *Ctx) Trivial() { c.nontriv = false }

// Fail reports a violation of the property by this execution.
func (c *Ctx) Fail(format string, args ...any) {
	panic(violation{fmt.Sprintf(format, args...)})
}

// Check fails if err is not nil.
func (c *Ctx) Check(err error, format string, args ...any) {
	if err != nil {
		c.Fail("%s: %v", fmt.Sprintf(format, args...), err)
	}
}

type explorer struct {
	prop     *Property
	thorough bool
	shard    int
	shards   int
	seen     map[string]string
	states   int
	execs    int
	nontriv  int
	steps    int
	realRuns int
	replay   bool
	status   *os.File
	samples  []string
	deadline time.Time
}

func (e *explorer) run(sp *Space, vec []choice, real bool) (c *Ctx, fail string, skipped bool) {
	c = &Ctx{vec: vec, e: e, devs: sp.Devs, real: real, Thorough: e.thorough, nontriv: true}
	func() {
		defer func() {
			for i := len(c.cleanup) - 1; i >= 0; i-- {
				c.cleanup[i]()
			}
		}()
		defer func() {
			switch r := recover().(type) {
			case nil:
			case skip:
				skipped = true
			case violation:
				fail = r.msg
			default:
				buf := make([]byte, 16384)
				buf = buf[:runtime.Stack(buf, false)]
				fail = fmt.Sprintf("panic: %v\n%s", r, buf)
			}
		}()
		sp.Fn(c)
	}()
	return
}

func vecString(vec []choice) string {
	var s []string
	for _, ch := range vec {
		s = append(s, strconv.Itoa(ch.c))
	}
	return strings.Join(s, ",")
}

func parseVec(s string) []choice {
	var v []choice
	if s == "" {
		return v
	}
	for _, f := range strings.Split(s, ",") {
		n, _ := strconv.Atoi(f)
		v = append(v, choice{0, n})
	}
	return v
}

type event struct {
	T        string // viol done
	Space    string
	Vec      string
	Msg      string
	Key      string
	Real     bool
	States   int
	Execs    int
	Nontriv  int
	Steps    int
	RealRuns int
	Complete bool
	Samples  []string
}

func emit(ev event) {
	b, _ := json.Marshal(ev)
	os.Stdout.Write(append(b, '\n'))
}

func (e *explorer) writeStatus(sp *Space, vec []choice, real bool) {
	if e.status == nil {
		return
	}
	s := fmt.Sprintf("%d\n%s\n%v\n%s\n", e.execs, sp.Name, real, vecString(vec))
	b := make([]byte, 8192)
	copy(b, s)
	e.status.WriteAt(b, 0)
}

func (e *explorer) explore(sp *Space) {
	e.seen = map[string]string{}
	e.states, e.execs, e.nontriv, e.steps, e.realRuns, e.samples = 0, 0, 0, 0, 0, nil
	var vec []choice
	viols := 0
	complete := true
	n := 0
	lastStatus := time.Time{}
	for {
		if n&15 == 0 && time.Now().After(e.deadline) {
			complete = false
			break
		}
		n++
		if n < 3 || time.Since(lastStatus) >= 0 {
			e.writeStatus(sp, vec, false)
		}
		c, fail, skipped := e.run(sp, vec, false)
		if !skipped {
			if !c.keyed {
				if e.shard != 0 && len(c.vec) == 0 {
					break
				}
				e.states++
			}
			e.execs++
			if c.nontriv {
				e.nontriv++
			}
			e.steps += c.steps
			if len(e.samples) < 3 || (e.execs&(e.execs-1)) == 0 && len(e.samples) < 12 {
				s := c.sample
				if s == "" {
					s = c.key
				}
				e.samples = append(e.samples, fmt.Sprintf("%s: choices [%s] %s", sp.Name, vecString(c.vec[:c.pos]), s))
			}
			real := false
			if c.usedReal {
				e.realRuns++
			}
			if fail == "" && sp.Real && e.realDue(sp, c) {
				e.realRuns++
				e.writeStatus(sp, c.vec[:c.pos], true)
				cr, failr, _ := e.run(sp, append([]choice(nil), c.vec[:c.pos]...), true)
				e.steps += cr.steps
				if failr != "" {
					fail, real = failr, true
				}
			}
			if fail != "" {
				viols++
				emit(event{T: "viol", Space: sp.Name, Vec: vecString(c.vec[:c.pos]), Msg: fail, Key: c.key, Real: real})
				if viols >= 20 {
					complete = false
					break
				}
			}
		}
		// next vector
		vec = c.vec[:c.pos]
		i := len(vec) - 1
		for i >= 0 && vec[i].c+1 >= vec[i].n {
			i--
		}
		if i < 0 {
			break
		}
		vec = append([]choice(nil), vec[:i+1]...)
		vec[i].c++
	}
	emit(event{T: "done", Space: sp.Name, States: e.states, Execs: e.execs, Nontriv: e.nontriv, Steps: e.steps, RealRuns: e.realRuns, Complete: complete, Samples: e.samples})
}

func (e *explorer) realDue(sp *Space, c *Ctx) bool {
	every := sp.RealEvery
	if every <= 0 {
		every = 50
	}
	if e.states <= 1 {
		return true
	}
	h := fnv.New64a()
	h.Write([]byte("real" + c.key + vecString(c.vec[:c.pos])))
	return h.Sum64()%uint64(every) == 0
}

func findSpace(p *Property, thorough bool, name string) *Space {
	for _, sp := range p.Spaces(thorough) {
		if sp.Name == name {
			return &sp
		}
	}
	return nil
}

// ---------------------------------------------------------------- worker and replay

func memoryGuard(limit int64) {
	go func() {
		page := int64(os.Getpagesize())
		for {
			time.Sleep(50 * time.Millisecond)
			b, err := os.ReadFile("/proc/self/statm")
			if err != nil {
				continue
			}
			f := strings.Fields(string(b))
			if n, err := strconv.ParseInt(f[1], 10, 64); err == nil && n*page > limit {
				fmt.Fprintln(os.Stderr, "memory limit of the worker exceeded")
				os.Exit(77)
			}
		}
	}()
}

func workerMain(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	space := fs.String("space", "", "")
	tier := fs.String("tier", "quick", "")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	status := fs.String("status", "", "")
	seconds := fs.Float64("seconds", 60, "")
	fs.Parse(args)
	debug.SetGCPercent(400)
	debug.SetMaxStack(256 << 20)
	memoryGuard(3 << 30)
	p := properties[*prop]
	e := &explorer{prop: p, thorough: *tier == "thorough", shard: *shard, shards: *shards, deadline: time.Now().Add(time.Duration(*seconds * float64(time.Second)))}
	var err error
	e.status, err = os.OpenFile(*status, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	if err != nil {
		panic(err)
	}
	e.explore(findSpace(p, e.thorough, *space))
	os.Exit(0)
}

func replayMain(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	space := fs.String("space", "", "")
	tier := fs.String("tier", "quick", "")
	vec := fs.String("vec", "", "")
	real := fs.Bool("real", false, "")
	fs.Parse(args)
	debug.SetMaxStack(256 << 20)
	memoryGuard(6 << 30)
	p := properties[*prop]
	e := &explorer{prop: p, thorough: *tier == "thorough", shards: 1, replay: true, seen: map[string]string{}}
	sp := findSpace(p, e.thorough, *space)
	if sp == nil {
		fmt.Println("no such space")
		os.Exit(3)
	}
	c, fail, _ := e.run(sp, parseVec(*vec), *real)
	fmt.Printf("state: %s\n", c.key)
	if fail != "" {
		fmt.Printf("violated: %s\n", fail)
		os.Exit(1)
	}
	fmt.Println("held")
	os.Exit(0)
}

// ---------------------------------------------------------------- master

type cand struct {
	event
	how string // "", "crash", "hang"
}

var hangAfter = 100 * time.Second

// scratchDir prefers a file system in memory: the binary syncs the index it builds.
func scratchDir() string {
	if dir, err := os.MkdirTemp("/dev/shm", "verifmc-"); err == nil {
		return dir
	}
	dir, err := os.MkdirTemp("", "verifmc-")
	if err != nil {
		panic(err)
	}
	return dir
}

func runWorkers(self string, p *Property, sp *Space, tier string, seconds float64, onViol func(cand) (stop bool)) (done []event) {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if sp.Workers > 0 && n > sp.Workers {
		n = sp.Workers
	}
	dir := scratchDir()
	defer os.RemoveAll(dir)
	var mu sync.Mutex
	var wg sync.WaitGroup
	var stopped atomic.Bool
	var procs []*exec.Cmd
	stopAll := func() {
		stopped.Store(true)
		mu.Lock()
		for _, c := range procs {
			if c.Process != nil {
				c.Process.Kill()
			}
		}
		mu.Unlock()
	}
	for i := 0; i < n; i++ {
		status := filepath.Join(dir, fmt.Sprint(i))
		cmd := exec.Command(self, "worker", "-prop", p.ID, "-space", sp.Name, "-tier", tier,
			"-shard", fmt.Sprint(i), "-shards", fmt.Sprint(n), "-status", status, "-seconds", fmt.Sprint(seconds))
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "VERIF_SCRATCH="+dir)
		var stderr bytes.Buffer
		cmd.Stderr = &limited{w: &stderr, n: 1 << 16}
		out, err := cmd.StdoutPipe()
		if err != nil {
			panic(err)
		}
		mu.Lock()
		procs = append(procs, cmd)
		mu.Unlock()
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			finished := make(chan struct{})
			var hung atomic.Bool
			go func() {
				last, at := "", time.Now()
				for {
					select {
					case <-finished:
						return
					case <-time.After(500 * time.Millisecond):
					}
					b, _ := os.ReadFile(status)
					if s := string(b); s != last {
						last, at = s, time.Now()
					} else if time.Since(at) > hangAfter {
						hung.Store(true)
						cmd.Process.Kill()
						return
					}
				}
			}()
			r := bufio.NewReaderSize(out, 1<<20)
			isDone := false
			for {
				line, err := r.ReadBytes('\n')
				if len(line) > 0 {
					var ev event
					if json.Unmarshal(line, &ev) == nil {
						mu.Lock()
						if ev.T == "done" {
							isDone = true
							done = append(done, ev)
						}
						mu.Unlock()
						if ev.T == "viol" && !stopped.Load() {
							if onViol(cand{event: ev}) {
								stopAll()
							}
						}
					}
				}
				if err != nil {
					break
				}
			}
			werr := cmd.Wait()
			close(finished)
			if !isDone && !stopped.Load() {
				b, _ := os.ReadFile(status)
				f := strings.SplitN(strings.TrimRight(string(b), "\x00"), "\n", 5)
				ev := event{Space: sp.Name}
				if len(f) >= 4 {
					ev.Real = f[2] == "true"
					ev.Vec = f[3]
				}
				how := "crash"
				ev.Msg = fmt.Sprintf("the process crashed (%v): %s", werr, head(stderr.String(), 1500))
				if hung.Load() {
					how = "hang"
					ev.Msg = fmt.Sprintf("no end after %v", hangAfter)
				}
				if onViol(cand{event: ev, how: how}) {
					stopAll()
				}
			}
		}()
	}
	wg.Wait()
	return done
}

type limited struct {
	w *bytes.Buffer
	n int
}

func (l *limited) Write(b []byte) (int, error) {
	if k := l.n - l.w.Len(); k > 0 {
		l.w.Write(b[:min(k, len(b))])
	}
	return len(b), nil
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// replayOnce tells whether the violation shows again in a fresh process.
func replayOnce(self string, p *Property, cd cand, tier string, real bool) (bool, string) {
	args := []string{"replay", "-prop", p.ID, "-space", cd.Space, "-tier", tier, "-vec", cd.Vec}
	if real {
		args = append(args, "-real")
	}
	cmd := exec.Command(self, args...)
	var out bytes.Buffer
	cmd.Stdout = &limited{w: &out, n: 1 << 18}
	cmd.Stderr = cmd.Stdout
	if err := cmd.Start(); err != nil {
		return false, err.Error()
	}
	ch := make(chan error, 1)
	go func() { ch <- cmd.Wait() }()
	select {
	case err := <-ch:
		if err == nil {
			return false, out.String()
		}
		if x, ok := err.(*exec.ExitError); ok && x.ExitCode() == 3 {
			return false, out.String()
		}
		return true, out.String()
	case <-time.After(hangAfter):
		cmd.Process.Kill()
		<-ch
		return true, fmt.Sprintf("no end after %v", hangAfter)
	}
}

type knownFinding struct{ prop, key, text string }

func loadKnown(path string) (r []knownFinding) {
	b, _ := os.ReadFile(path)
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		// known: property=<id> state=<exact space/state key> :: <what fails>
		rest, text, _ := strings.Cut(strings.TrimPrefix(l, "known: "), " :: ")
		prop, key, ok := strings.Cut(rest, " state=")
		if ok {
			r = append(r, knownFinding{strings.TrimPrefix(prop, "property="), key, text})
		}
	}
	return
}

func main() {
	if len(os.Args) > 1 {
		switch os.Args[1] {
		case "worker":
			workerMain(os.Args[2:])
			return
		case "measure":
			measureMain(os.Args[2:])
			return
		case "replay":
			replayMain(os.Args[2:])
			return
		}
	}
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	verif := flag.String("verif", "/verif", "")
	only := flag.String("space", "", "explore only this space")
	total := flag.Float64("seconds", 0, "time budget")
	flag.Parse()
	p := properties[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	thorough := *tier == "thorough"
	if *total == 0 {
		*total = 150
		if thorough {
			*total = 780
		}
	}
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	start := time.Now()
	end := start.Add(time.Duration(*total * float64(time.Second)))
	known := loadKnown(filepath.Join(*verif, "known-findings.txt"))
	var mu sync.Mutex
	var found *cand
	var foundMsg string
	unconfirmed := []string{}
	knownSeen := map[string]bool{}
	tally := map[string]*event{}
	var order []string
	exhaustive := true
	spaces := p.Spaces(thorough)
	for i := range spaces {
		sp := &spaces[i]
		if *only != "" && sp.Name != *only {
			continue
		}
		left := time.Until(end).Seconds()
		remain := len(spaces) - i
		slot := left
		if remain > 1 { // leave something for the others
			slot = left * 0.75
		}
		if slot < 1 {
			exhaustive = false
			slot = 1
		}
		t0 := time.Now()
		tried := map[string]bool{}
		done := runWorkers(self, p, sp, *tier, slot, func(cd cand) bool {
			mu.Lock()
			defer mu.Unlock()
			if found != nil {
				return true
			}
			for _, k := range known {
				if k.prop == p.ID && k.key == sp.Name+"/"+cd.Key {
					if !knownSeen[k.key] {
						knownSeen[k.key] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.text)
					}
					return false
				}
			}
			if len(tried) >= 12 || tried[cd.Vec] {
				return false
			}
			tried[cd.Vec] = true
			attempts := max(sp.Attempts, 3)
			ok, msg := false, ""
			for a := 0; a < attempts && !ok; a++ {
				ok, msg = replayOnce(self, p, cd, *tier, cd.Real)
				if cd.how == "hang" {
					break
				}
			}
			if ok && sp.Real && !cd.Real {
				okr, msgr := false, ""
				for a := 0; a < attempts && !okr; a++ {
					okr, msgr = replayOnce(self, p, cd, *tier, true)
				}
				if !okr {
					ok = false
					unconfirmed = append(unconfirmed, fmt.Sprintf("%s [%s]: not reproduced by the unmodified binary: %s / %s", sp.Name, cd.Vec, head(cd.Msg, 300), head(msgr, 200)))
					fmt.Fprintln(os.Stderr, "unconfirmed:", unconfirmed[len(unconfirmed)-1])
					return false
				}
			}
			if !ok {
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s [%s]: not reproduced in a fresh process: %s", sp.Name, cd.Vec, head(cd.Msg, 300)))
				fmt.Fprintln(os.Stderr, "unconfirmed:", unconfirmed[len(unconfirmed)-1])
				return false
			}
			found = &cd
			foundMsg = msg
			return true
		})
		t := &event{Space: sp.Name, Complete: len(done) > 0}
		for _, d := range done {
			t.States += d.States
			t.Execs += d.Execs
			t.Nontriv += d.Nontriv
			t.Steps += d.Steps
			t.RealRuns += d.RealRuns
			t.Complete = t.Complete && d.Complete
			t.Samples = append(t.Samples, d.Samples...)
		}
		if !t.Complete {
			exhaustive = false
		}
		tally[sp.Name] = t
		order = append(order, sp.Name)
		fmt.Fprintf(os.Stderr, "%s %s: %d states, %d executions, %d transitions, %d on the real binary, complete=%v, %.1fs\n", p.ID, sp.Name, t.States, t.Execs, t.Steps, t.RealRuns, t.Complete, time.Since(t0).Seconds())
		if found != nil {
			exhaustive = false
			break
		}
	}
	var states, execs, steps, reals, nontriv int
	var samples []string
	per := map[string]any{}
	for _, n := range order {
		t := tally[n]
		states += t.States
		execs += t.Execs
		steps += t.Steps
		reals += t.RealRuns
		nontriv += t.Nontriv
		sort.Strings(t.Samples)
		for i, s := range t.Samples {
			if i < 4 {
				samples = append(samples, head(s, 400))
			}
		}
		per[n] = map[string]any{"states": t.States, "executions": t.Execs, "transitions": t.Steps, "real_binary": t.RealRuns, "complete": t.Complete}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	viol := 0
	if found != nil {
		viol = 1
	}
	cov := map[string]any{
		"samples": samples, "rule": p.Rule, "exhaustive": exhaustive, "spaces": per, "repeated_on_unmodified_binary": reals,
		"unconfirmed": unconfirmed,
		"explanation": "Every execution runs the implementation itself, rebuilt from /repo with an in-memory file system in place of package os, so each explored trace is a trace of the implementation; repeated_on_unmodified_binary counts those run again with the plain binary on a real directory.",
	}
	if p.Level == "fault_enumeration" {
		cov["evaluations"], cov["distinct_nontrivial"] = execs, min(nontriv, states)
		cov["file_system_operations"] = steps
	} else {
		cov["states"], cov["transitions"], cov["traces_validated_against_impl"] = states, steps, execs
	}
	ev := map[string]any{
		"property": p.ID, "tier": *tier, "seed": seed, "level": p.Level, "coverage": cov,
		"assumptions": p.Assume, "wall_s": time.Since(start).Seconds(), "violations": viol,
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	if *only == "" {
		if err := os.WriteFile(filepath.Join(*verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
			panic(err)
		}
	}
	if found != nil {
		dir := filepath.Join(*verif, "build", "replay")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, p.ID+".json")
		args := fmt.Sprintf("%s replay -prop %s -space %s -tier %s -vec '%s'", self, p.ID, found.Space, *tier, found.Vec)
		if found.Real {
			args += " -real"
		}
		rb, _ := json.MarshalIndent(map[string]any{"property": p.ID, "space": found.Space, "choices": found.Vec, "state": found.Key, "message": found.Msg, "replay": foundMsg, "real": found.Real, "command": args}, "", " ")
		os.WriteFile(path, rb, 0o644)
		fmt.Printf("%s\n", head(foundMsg, 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		os.Exit(1)
	}
	fmt.Printf("property %s held: %d states, %d executions, %d transitions, exhaustive=%v, %.1fs\n", p.ID, states, execs, steps, exhaustive, time.Since(start).Seconds())
}
