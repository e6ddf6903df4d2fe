// Package explore enumerates the schedules and environment choices of small
// concurrent scenarios run on the real code, up to a deviation bound.
//
// A coordinator process keeps the tree of choice prefixes; worker processes
// (the same binary) execute one prefix at a time in a testing/synctest bubble
// under the scheduler of package vsync and report the choice points met.
package explore

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/tdex-network/tdex-daemon/verif/vsync"
)

// Scenario is one closed system: set-up, threads, oracle.
type Scenario struct {
	Name string
	// Sched lists the scheduling points.
	Sched vsync.Config
	// Bound and ThoroughBound are the largest numbers of deviations explored.
	Bound, ThoroughBound int
	// Quantum of simulated time per tick; Ticks is how many are let pass when
	// nothing else can run, before the execution counts as finished.
	Quantum time.Duration
	Ticks   int
	// TickAlways offers a tick as a deviation while threads could run (if Early
	// is set, only as long as less than so many ticks have passed).
	TickAlways bool
	Early      int
	// MaxPoints bounds one execution (default 4000).
	MaxPoints int
	// Setup builds the system; it calls x.Thread for each thread of the scenario.
	Setup func(x *Exec)
	// Final is the oracle, run when everything has ended.
	Final func(x *Exec)
	// Stuck tells whether a scenario thread that never ends is a violation (default: yes).
	AllowStuck bool
	// Weight shares out the time (default 1).
	Weight float64
	// Ops makes it a search of histories instead: Hist runs the operations with
	// the given indexes in a row from the initial state, calls x.State with the
	// digest of the state reached (or x.Disabled if the last operation makes no
	// sense there) and x.Fail if a step went wrong. Every state is expanded with
	// every operation, level by level, until no new digest appears or the depth
	// (Bound, ThoroughBound) is reached.
	Ops  []string
	Hist func(x *Exec, path []int)
	// Delay bounds delays instead of preemptions: also a choice other than the
	// first one when the running thread ended or blocked counts as a deviation.
	Delay bool
	// Real runs the histories in real time, as those that use the network must.
	Real bool
	// ThoroughOnly skips the scenario in the quick tier.
	ThoroughOnly bool
}

// Exec is one execution.
type Exec struct {
	V       map[string]interface{}
	threads []struct {
		name string
		f    func()
	}
	s        *vsync.Sched
	prefix   []int
	Points   []Point
	choices  []int
	labels   []string
	diverged string
	mu       sync.Mutex
	fails    []fail
	outcome  []string
	tracing  bool
	log      []string
	ticks    int
	stuck    string
	ctl      bool
	digest   string
	disabled bool
	counts   map[string]int
}

type fail struct{ Sig, Msg string }

// Point is a choice point: N alternatives, Free if the alternatives cost nothing.
type Point struct {
	N    int  `json:"n"`
	Free bool `json:"f,omitempty"`
}

// Thread adds a thread of the scenario.
func (x *Exec) Thread(name string, f func()) {
	x.threads = append(x.threads, struct {
		name string
		f    func()
	}{name, f})
}

// Fail reports a broken property.
func (x *Exec) Fail(sig, format string, a ...interface{}) {
	x.mu.Lock()
	x.fails = append(x.fails, fail{sig, fmt.Sprintf(format, a...)})
	x.mu.Unlock()
}

// Outcome adds to the observed outcome of the execution.
func (x *Exec) Outcome(format string, a ...interface{}) {
	x.mu.Lock()
	x.outcome = append(x.outcome, fmt.Sprintf(format, a...))
	x.mu.Unlock()
}

// Count adds to a counter of the evidence.
func (x *Exec) Count(what string, n int) {
	x.mu.Lock()
	if x.counts == nil {
		x.counts = map[string]int{}
	}
	x.counts[what] += n
	x.mu.Unlock()
}

// Log adds a line to the trace of a replay.
func (x *Exec) Log(format string, a ...interface{}) {
	if x.tracing {
		x.mu.Lock()
		x.log = append(x.log, fmt.Sprintf(format, a...))
		x.mu.Unlock()
	}
}

func (x *Exec) next(n int, free bool, label string) int {
	x.mu.Lock()
	defer x.mu.Unlock()
	i := len(x.Points)
	c := 0
	if i < len(x.prefix) {
		c = x.prefix[i]
		if c >= n || c < 0 {
			x.diverged = fmt.Sprintf("choice %d of %d at point %d (%s)", c, n, i, label)
			c = 0
		}
	}
	x.Points = append(x.Points, Point{n, free})
	x.choices = append(x.choices, c)
	if x.tracing {
		x.log = append(x.log, fmt.Sprintf("#%d %s -> %d/%d", i, label, c, n))
	}
	return c
}

// Choose is a choice of the environment (a fault, an answer); 0 is the default.
func (x *Exec) Choose(label string, n int) int {
	if n <= 1 || !x.ctl {
		return 0
	}
	return x.next(n, false, "choose "+label)
}

// Pick is a choice of a parameter, all values of which are explored at no cost.
func (x *Exec) Pick(label string, n int) int {
	if n <= 1 || !x.ctl {
		return 0
	}
	return x.next(n, true, "pick "+label)
}

// State tells the state reached by a history.
func (x *Exec) State(digest string) { x.digest = digest }

// Disabled tells that the last operation of a history is not applicable.
func (x *Exec) Disabled() { x.disabled = true }

// Sleep lets simulated time pass (from Final or Setup).
func (x *Exec) Sleep(d time.Duration) { time.Sleep(d); synctest.Wait() }

// Settle waits until nothing can run without time passing.
func (x *Exec) Settle() { synctest.Wait() }

// Stuck describes what did not end ("" if all ended).
func (x *Exec) Stuck() string { return x.stuck }

type result struct {
	Points   []Point  `json:"p"`
	Outcome  string   `json:"o"`
	Fails    []fail   `json:"x,omitempty"`
	Diverged string   `json:"d,omitempty"`
	Capped   bool     `json:"c,omitempty"`
	Log      []string `json:"l,omitempty"`
	Choices  []int    `json:"ch,omitempty"`
	Err      string   `json:"e,omitempty"`
	Digest   string   `json:"g,omitempty"`
	Disabled bool     `json:"n,omitempty"`

	Counts map[string]int `json:"k,omitempty"`
	// Mem is what the worker holds, in MB.
	Mem int `json:"m,omitempty"`
}

// resident tells the memory of this process, in MB.
func resident() int {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var size, rss int
	fmt.Sscan(string(b), &size, &rss)
	return rss * os.Getpagesize() >> 20
}

func runOne(t *testing.T, sc *Scenario, prefix []int, tracing bool) (res result) {
	x := &Exec{V: map[string]interface{}{}, prefix: prefix, tracing: tracing}
	capped := false
	hist := func(t *testing.T) {
		if p, st := hx.Catch(func() { sc.Hist(x, prefix) }); p != nil {
			x.Fail("panic:"+panicKey(fmt.Sprint(p)), "%v %s", p, st)
		}
	}
	body := func(t *testing.T) {
		if sc.Hist != nil {
			hist(t)
			return
		}
		s := vsync.NewSched(sc.Sched)
		x.s = s
		sc.Setup(x)
		synctest.Wait()
		s.Control()
		x.ctl = true
		for _, th := range x.threads {
			s.Spawn(th.name, th.f)
		}
		max := sc.MaxPoints
		if max == 0 {
			max = 4000
		}
		q := sc.Quantum
		if q == 0 {
			q = time.Second
		}
		decide := func(ids, labels []string, lastFirst bool) int {
			if len(x.Points) > max {
				return -1
			}
			n := len(ids)
			opt := sc.TickAlways && x.ticks < sc.Ticks && (sc.Early == 0 || x.ticks < sc.Early)
			c := 0
			if n > 1 || opt {
				m := n
				if opt {
					m++
				}
				lbl := ""
				if tracing {
					for i := range ids {
						lbl += ids[i] + "@" + labels[i] + " "
					}
				}
				// an alternative costs a deviation iff the running thread could go on
				c = x.next(m, !lastFirst && !sc.Delay, lbl)
			}
			if c < n {
				x.Log("run %s @ %s", ids[c], labels[c])
			}
			return c
		}
		s.Decide = decide
		for {
			synctest.Wait()
			var ids, labels []string
			c := 0
			if p := s.TakePending(); p != nil {
				ids, c = p.IDs, p.Choice
			} else {
				var lastFirst bool
				ids, labels, lastFirst = s.Enabled()
				if len(ids) == 0 {
					if x.ticks >= sc.Ticks {
						if mains, _, _, w := s.Status(); mains > 0 {
							x.stuck = strings.Join(w, " ")
						}
						break
					}
					x.ticks++
					x.Log("tick")
					time.Sleep(q)
					continue
				}
				c = decide(ids, labels, lastFirst)
			}
			if c < 0 {
				capped = true
				break
			}
			if c == len(ids) {
				x.ticks++
				x.Log("early tick")
				time.Sleep(q)
				continue
			}
			s.Release(ids[c])
		}
		x.ctl = false
		s.Off()
		for _, p := range s.Panics {
			x.Fail("panic:"+panicKey(p), "%s", p)
		}
		if x.stuck != "" && !sc.AllowStuck {
			x.Fail("stuck:"+stuckKey(x.stuck), "threads that never end: %s", x.stuck)
		}
		if !capped && (x.stuck == "" || sc.AllowStuck) {
			if p, st := hx.Catch(func() { sc.Final(x) }); p != nil {
				x.Fail("panic-in-oracle", "%v %s", p, st)
			}
		}
		s.Abort()
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				msg := fmt.Sprint(r)
				if strings.Contains(msg, "blocked goroutines remain") {
					return // goroutines of the daemon that live on; the scenario decides whether that matters
				}
				res.Err = msg
			}
		}()
		if sc.Real {
			body(t)
			return
		}
		synctest.Test(t, body)
	}()
	if t.Failed() && res.Err == "" {
		res.Err = "test failed"
	}
	res.Points = x.Points
	res.Outcome = strings.Join(x.outcome, " | ")
	res.Fails = x.fails
	res.Diverged = x.diverged
	res.Capped = capped
	res.Digest, res.Disabled = x.digest, x.disabled
	res.Counts = x.counts
	if sc.Hist != nil {
		x.choices = prefix
	}
	res.Choices = x.choices
	if tracing {
		res.Log = x.log
	}
	return
}

func panicKey(p string) string {
	l := strings.SplitN(p, "\n", 2)
	k := l[0]
	if i := strings.Index(k, ": "); i >= 0 {
		k = k[i+2:]
	}
	if len(l) > 1 {
		f := strings.SplitN(l[1], " <- ", 2)[0]
		f = f[strings.LastIndex(f, "/")+1:]
		if i := strings.LastIndex(f, "("); i > 0 {
			f = f[:i]
		}
		k = f + ":" + k
	}
	return strings.ReplaceAll(k, " ", "_")
}

func stuckKey(w string) string {
	// thread names without the places
	out := []string{}
	for _, f := range strings.Fields(w) {
		out = append(out, strings.SplitN(f, "@", 2)[0])
	}
	return strings.Join(out, ",")
}

// Main runs the scenarios of a check. With MC_WORKER set the process is a
// worker; otherwise it coordinates, then calls done (which must call c.Finish).
func Main(c func() *hx.Check, scs []*Scenario, done func(*hx.Check)) {
	run := func(t *testing.T) {
		if os.Getenv("MC_WORKER") != "" {
			worker(t, scs)
			os.Exit(0)
		}
		if os.Getenv("MC_BENCH") != "" {
			bench(t, scs)
		}
		for i, a := range os.Args {
			if a == "replay" && i+1 < len(os.Args) {
				replay(t, scs, os.Args[i+1])
			}
		}
		ck := c()
		coordinate(ck, scs)
		done(ck)
		os.Exit(0)
	}
	testing.Main(func(string, string) (bool, error) { return true, nil },
		[]testing.InternalTest{{Name: "mc", F: run}}, nil, nil)
}

func replay(t *testing.T, scs []*Scenario, path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	var r struct {
		Replay struct {
			Scenario string
			Choices  []int
		}
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	for _, sc := range scs {
		if sc.Name == r.Replay.Scenario {
			res := runOne(t, sc, r.Replay.Choices, true)
			for _, l := range res.Log {
				fmt.Println(l)
			}
			fmt.Println("outcome:", res.Outcome, res.Diverged, res.Err)
			for _, f := range res.Fails {
				fmt.Println("FAIL", f.Sig, f.Msg)
			}
			os.Exit(0)
		}
	}
	fmt.Println("no such scenario")
	os.Exit(3)
}

type job struct {
	Sc     int   `json:"s"`
	Prefix []int `json:"p"`
	Trace  bool  `json:"t,omitempty"`
	cost   int
}

func worker(t *testing.T, scs []*Scenario) {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.NewFile(3, "out"), 1<<20)
	enc := json.NewEncoder(out)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var j job
		if json.Unmarshal(line, &j) != nil {
			return
		}
		res := runOne(t, scs[j.Sc], j.Prefix, j.Trace)
		res.Mem = resident()
		enc.Encode(res)
		out.Flush()
	}
}

type wk struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errb *tail
	pr   *os.File
	n    int
	mem  int
}

// worn tells that the worker should be replaced: executions leave things behind.
func (w *wk) worn() bool { return w.n > 3000 || w.mem > 1000 }

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		// keep the beginning: a crash starts with its reason
		t.b = t.b[:1<<16]
	}
	t.mu.Unlock()
	return len(p), nil
}

func startWorker() *wk {
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "MC_WORKER=1", "GOMAXPROCS=1")
	w := &wk{cmd: cmd, errb: &tail{}}
	pr, pw, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	cmd.ExtraFiles = []*os.File{pw}
	cmd.Stderr = w.errb
	cmd.Stdout = nil
	w.in, _ = cmd.StdinPipe()
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	pw.Close()
	w.pr = pr
	w.out = bufio.NewReaderSize(pr, 1<<20)
	return w
}

// do runs a job; crash is the text of a worker that died, hung tells a timeout.
func (w *wk) do(j job, limit time.Duration) (res result, crash string, hung bool) {
	b, _ := json.Marshal(j)
	timer := time.AfterFunc(limit, func() { hung = true; w.cmd.Process.Kill() })
	w.in.Write(append(b, '\n'))
	line, err := w.out.ReadBytes('\n')
	timer.Stop()
	if err != nil {
		w.cmd.Wait()
		w.errb.mu.Lock()
		crash = string(w.errb.b)
		w.errb.mu.Unlock()
		if crash == "" {
			crash = "worker ended"
		}
		return
	}
	if e := json.Unmarshal(line, &res); e != nil {
		res.Err = e.Error()
	}
	w.n++
	w.mem = res.Mem
	return
}

func (w *wk) close() { w.pr.Close(); w.in.Close(); w.cmd.Process.Kill(); w.cmd.Wait() }

func coordinate(c *hx.Check, scs []*Scenario) {
	nw := runtime.NumCPU()
	total := 0.0
	act := []int{}
	for i, sc := range scs {
		if sc.ThoroughOnly && !c.Thorough() {
			continue
		}
		if f := os.Getenv("MC_SCENARIO"); f != "" && !strings.Contains(sc.Name, f) {
			continue
		}
		if sc.Weight == 0 {
			sc.Weight = 1
		}
		total += sc.Weight
		act = append(act, i)
	}
	perSc := map[string]interface{}{}
	left := total
	for _, i := range act {
		sc := scs[i]
		// what the scenarios before did not use is shared among the rest
		remain := time.Until(c.Deadline)
		dl := time.Now().Add(time.Duration(float64(remain) * sc.Weight / left))
		left -= sc.Weight
		if sc.Hist != nil {
			perSc[sc.Name] = coordHist(c, scs, i, nw, dl)
		} else {
			perSc[sc.Name] = coordOne(c, scs, i, nw, dl)
		}
	}
	c.Info("scenarios", perSc)
}

func coordOne(c *hx.Check, scs []*Scenario, idx, nw int, dl time.Time) map[string]interface{} {
	sc := scs[idx]
	bound := sc.Bound
	if c.Thorough() && sc.ThoroughBound > bound {
		bound = sc.ThoroughBound
	}
	start := time.Now()
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	queues := make([][]job, bound+1)
	queues[0] = []job{{Sc: idx}}
	pending := 1 // queued + running
	running := make([]int, bound+1)
	execs, points, divergences, errs, cappedN, hungs := 0, 0, 0, 0, 0, 0
	nontrivial := 0
	execsAt := make([]int, bound+1)
	outcomes := map[string]int{}
	maxPoints := 0
	expired := false
	failSeen := map[string]int{}
	var errSample string
	var vios []vio
	stopEarly, hurry := false, false

	handle := func(w **wk, j job) {
		res, crash, hung := (*w).do(j, 20*time.Second)
		if crash != "" || hung {
			*w = startWorker()
			mu.Lock()
			defer mu.Unlock()
			execs++
			if hung {
				hungs++
				return
			}
			if strings.Contains(crash, "panic:") || strings.Contains(crash, "fatal error:") || strings.Contains(crash, "DATA RACE") {
				sig := "crash:" + crashKey(crash)
				failSeen[sig]++
				if failSeen[sig] == 1 {
					vios = append(vios, vio{j, fail{sig, firstLines(crash, 30)}, true})
				}
			} else {
				errs++
				errSample = firstLines(crash, 10)
			}
			return
		}
		if (*w).worn() {
			(*w).close()
			*w = startWorker()
		}
		mu.Lock()
		defer mu.Unlock()
		execs++
		execsAt[j.cost]++
		for _, ch := range j.Prefix {
			if ch != 0 {
				nontrivial++
				break
			}
		}
		points += len(res.Points)
		if len(res.Points) > maxPoints {
			maxPoints = len(res.Points)
		}
		if res.Err != "" {
			errs++
			errSample = res.Err
			return
		}
		if res.Diverged != "" {
			divergences++
			errSample = res.Diverged
			return
		}
		if res.Capped {
			cappedN++
		}
		for k, n := range res.Counts {
			c.Count(k, n)
		}
		outcomes[res.Outcome]++
		for _, f := range res.Fails {
			failSeen[f.Sig]++
			if failSeen[f.Sig] == 1 {
				jj := job{Sc: j.Sc, Prefix: res.Choices, cost: j.cost}
				vios = append(vios, vio{jj, f, false})
			}
		}
		// cost of the path up to each point
		cost := 0
		for i := 0; i < len(res.Points); i++ {
			p := res.Points[i]
			step := 1
			if p.Free {
				step = 0
			}
			if i >= len(j.Prefix) {
				nc := cost + step
				if nc <= bound {
					for alt := 1; alt < p.N; alt++ {
						pre := make([]int, i+1)
						copy(pre, res.Choices[:i])
						pre[i] = alt
						queues[nc] = append(queues[nc], job{Sc: idx, Prefix: pre, cost: nc})
						pending++
					}
				}
			}
			if res.Choices[i] != 0 {
				cost += step
			}
		}
		if len(vios) > 0 && !hurry {
			hurry = true
			if d := time.Now().Add(8 * time.Second); d.Before(dl) {
				dl = d
			}
		}
		if len(vios) >= 40 {
			stopEarly = true
		}
		cond.Broadcast()
	}

	var wg sync.WaitGroup
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := startWorker()
			defer func() { w.close() }()
			for {
				mu.Lock()
				var j job
				got := false
				for !got {
					if time.Now().After(dl) {
						expired = pending > 0
					}
					if pending == 0 || expired || stopEarly {
						cond.Broadcast()
						mu.Unlock()
						return
					}
					for q := range queues {
						if n := len(queues[q]); n > 0 {
							j = queues[q][n-1]
							queues[q] = queues[q][:n-1]
							got = true
							break
						}
					}
					if !got {
						cond.Wait()
					}
				}
				running[j.cost]++
				mu.Unlock()
				handle(&w, j)
				mu.Lock()
				running[j.cost]--
				pending--
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	wg.Wait()

	confirmed := confirm(c, sc, vios, failSeen)
	completed := bound
	if expired || stopEarly {
		completed = -1
		for q := range queues {
			if len(queues[q]) > 0 {
				break
			}
			completed = q
		}
		why := "time"
		if stopEarly {
			why = "enough violations"
		}
		c.Cap(fmt.Sprintf("scenario %s: stopped (%s) with bound %d complete of %d; %d prefixes left", sc.Name, why, completed, bound, pending))
	}
	if divergences > 0 {
		c.Cap(fmt.Sprintf("scenario %s: %d executions diverged while replaying their prefix (%s)", sc.Name, divergences, errSample))
	}
	if errs > 0 || hungs > 0 {
		c.Cap(fmt.Sprintf("scenario %s: %d executions ended in an error of the harness, %d hung (%s)", sc.Name, errs, hungs, errSample))
	}
	if cappedN > 0 {
		c.Cap(fmt.Sprintf("scenario %s: %d executions hit the length limit", sc.Name, cappedN))
	}
	c.Count("executions", execs)
	c.Count("distinct_nontrivial", nontrivial)
	c.Count("choice_points", points)
	c.Count("divergences", divergences)
	for o, n := range outcomes {
		for k := 0; k < 1; k++ {
			c.Outcome(sc.Name + ": " + o)
		}
		_ = n
	}
	type on struct {
		o string
		n int
	}
	os_ := []on{}
	for o, n := range outcomes {
		os_ = append(os_, on{o, n})
	}
	sort.Slice(os_, func(i, j int) bool { return os_[i].n > os_[j].n })
	if len(os_) > 12 {
		os_ = os_[:12]
	}
	oc := map[string]int{}
	for _, o := range os_ {
		oc[o.o] = o.n
	}
	r := map[string]interface{}{
		"executions": execs, "by_deviations": execsAt, "bound_completed": completed, "bound": bound,
		"longest": maxPoints, "distinct_outcomes": len(outcomes), "most_frequent_outcomes": oc,
		"wall_s": time.Since(start).Seconds(),
	}
	fmt.Printf("  %s: executions=%d by_deviations=%v bound=%d/%d longest=%d outcomes=%d div=%d err=%d hung=%d viol=%d %.1fs\n", sc.Name, execs, execsAt, completed, bound, maxPoints, len(outcomes), divergences, errs, hungs, confirmed, time.Since(start).Seconds())
	if errSample != "" {
		fmt.Println("    note:", errSample)
	}
	if os.Getenv("MC_OUTCOMES") != "" {
		for _, o := range os_ {
			fmt.Printf("    %6d %s\n", o.n, o.o)
		}
	}
	return r
}

type vio struct {
	j     job
	f     fail
	crash bool
}

// confirm repeats violations and reports those that repeat.
func confirm(c *hx.Check, sc *Scenario, vios []vio, failSeen map[string]int) int {
	confirmed := 0
	if len(vios) > 0 {
		w := startWorker()
		for _, v := range vios {
			same := 0
			var log []string
			for k := 0; k < 5; k++ {
				jj := v.j
				jj.Trace = k == 0
				res, crash, hung := w.do(jj, 20*time.Second)
				if crash != "" || hung {
					w = startWorker()
					if v.crash && crash != "" && "crash:"+crashKey(crash) == v.f.Sig {
						same++
					}
					continue
				}
				for _, f := range res.Fails {
					if f.Sig == v.f.Sig {
						same++
						break
					}
				}
				if jj.Trace {
					log = res.Log
				}
			}
			if same >= 3 {
				confirmed++
				if len(log) > 400 {
					log = append(append([]string{}, log[:200]...), log[len(log)-200:]...)
				}
				c.Fail(sc.Name+":"+strings.ReplaceAll(v.f.Sig, " ", "_"),
					fmt.Sprintf("scenario %s, %d deviations (%d times in the run, repeated %d/5): %s", sc.Name, v.j.cost, failSeen[v.f.Sig], same, v.f.Msg),
					map[string]interface{}{"scenario": sc.Name, "choices": v.j.Prefix, "trace": log})
			} else {
				c.Count("unrepeatable_alarms", 1)
				c.Sample(fmt.Sprintf("alarm that did not repeat (%d/5), not reported: %s %s", same, v.f.Sig, firstLines(v.f.Msg, 3)))
			}
		}
		w.close()
	}
	return confirmed
}

// coordHist searches the histories of a scenario breadth first.
func coordHist(c *hx.Check, scs []*Scenario, idx, nw int, dl time.Time) map[string]interface{} {
	sc := scs[idx]
	bound := sc.Bound
	if c.Thorough() && sc.ThoroughBound > bound {
		bound = sc.ThoroughBound
	}
	start := time.Now()
	type node struct{ path []int }
	level := []node{{}}
	seen := map[string]bool{}
	failSeen := map[string]int{}
	var vios []vio
	outcomes := map[string]int{}
	states, transitions, disabled, errs := 1, 0, 0, 0
	errSample := ""
	expired := false
	depth := 0
	closed := false
	ws := make([]*wk, nw)
	for k := range ws {
		ws[k] = startWorker()
	}
	defer func() {
		for _, w := range ws {
			w.close()
		}
	}()
	byDepth := []int{1}
	for depth < bound && !expired {
		jobs := [][]int{}
		for _, n := range level {
			for o := range sc.Ops {
				jobs = append(jobs, append(append([]int{}, n.path...), o))
			}
		}
		type out struct {
			res  result
			done bool
		}
		outs := make([]out, len(jobs))
		var mu sync.Mutex
		next := 0
		var wg sync.WaitGroup
		for k := range ws {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					mu.Lock()
					if time.Now().After(dl) && next < len(jobs) {
						expired = true
					}
					if next >= len(jobs) || expired || len(vios) >= 20 {
						mu.Unlock()
						return
					}
					i := next
					next++
					mu.Unlock()
					j := job{Sc: idx, Prefix: jobs[i], cost: len(jobs[i])}
					res, crash, hung := ws[k].do(j, 20*time.Second)
					if crash != "" || hung {
						ws[k] = startWorker()
					} else if ws[k].worn() {
						ws[k].close()
						ws[k] = startWorker()
					}
					mu.Lock()
					transitions++
					switch {
					case hung:
						errs++
						errSample = fmt.Sprintf("history %v hung", names(sc, jobs[i]))
					case crash != "":
						if strings.Contains(crash, "panic:") || strings.Contains(crash, "fatal error:") {
							sig := "crash:" + crashKey(crash)
							failSeen[sig]++
							if failSeen[sig] == 1 {
								vios = append(vios, vio{j, fail{sig, fmt.Sprintf("history %v: ", names(sc, jobs[i])) + firstLines(crash, 30)}, true})
							}
						} else {
							errs++
							errSample = firstLines(crash, 10)
						}
					case res.Err != "":
						errs++
						errSample = res.Err
					default:
						for k, n := range res.Counts {
							c.Count(k, n)
						}
						if res.Outcome != "" {
							outcomes[res.Outcome]++
						}
						for _, f := range res.Fails {
							failSeen[f.Sig]++
							if failSeen[f.Sig] == 1 {
								f.Msg = fmt.Sprintf("history %v: ", names(sc, jobs[i])) + f.Msg
								vios = append(vios, vio{j, f, false})
							}
						}
						outs[i] = out{res, len(res.Fails) == 0}
					}
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		nl := []node{}
		for i, o := range outs {
			if !o.done {
				continue
			}
			if o.res.Disabled {
				disabled++
				continue
			}
			if !seen[o.res.Digest] {
				seen[o.res.Digest] = true
				nl = append(nl, node{jobs[i]})
				states++
			}
		}
		if expired || len(vios) >= 20 {
			break
		}
		level = nl
		depth++
		byDepth = append(byDepth, len(nl))
		if len(nl) == 0 {
			closed = true
			break
		}
		if len(vios) > 0 && len(vios) >= 3 {
			break
		}
	}
	if expired {
		c.Cap(fmt.Sprintf("scenario %s: stopped (time) at depth %d of %d", sc.Name, depth, bound))
	}
	if errs > 0 {
		c.Cap(fmt.Sprintf("scenario %s: %d executions ended in an error of the harness (%s)", sc.Name, errs, errSample))
	}
	confirmed := confirm(c, sc, vios, failSeen)
	c.Count("executions", transitions)
	c.Count("distinct_nontrivial", transitions-disabled)
	c.Count("choice_points", transitions)
	c.Count("distinct_states", states)
	for o := range outcomes {
		c.Outcome(sc.Name + ": " + o)
	}
	fmt.Printf("  %s: states=%d transitions=%d depth=%d/%d closed=%v err=%d viol=%d %.1fs\n", sc.Name, states, transitions, depth, bound, closed, errs, confirmed, time.Since(start).Seconds())
	if errSample != "" {
		fmt.Println("    note:", errSample)
	}
	if os.Getenv("MC_OUTCOMES") != "" {
		for o, n := range outcomes {
			fmt.Printf("    %6d %s\n", n, o)
		}
	}
	return map[string]interface{}{"operations": sc.Ops, "states": states, "transitions": transitions, "not_applicable": disabled, "depth": depth, "bound": bound, "closed": closed, "states_by_depth": byDepth,
		"distinct_outcomes": len(outcomes), "wall_s": time.Since(start).Seconds()}
}

func names(sc *Scenario, path []int) []string {
	out := []string{}
	for _, p := range path {
		out = append(out, sc.Ops[p])
	}
	return out
}

func crashKey(s string) string {
	key := ""
	for _, l := range strings.Split(s, "\n") {
		if key == "" && (strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:")) {
			key = l
			if len(key) > 90 {
				key = key[:90]
			}
		}
		if key != "" && strings.HasPrefix(l, "github.com/tdex-network/tdex-daemon/") && !strings.Contains(l, "/verif/") {
			l = l[strings.LastIndex(l, "/")+1:]
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			key += "@" + l
			break
		}
	}
	return strings.ReplaceAll(key, " ", "_")
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// bench runs the default execution of every scenario repeatedly (MC_BENCH=cpu profile).
func bench(t *testing.T, scs []*Scenario) {
	f, _ := os.Create(os.Getenv("MC_BENCH"))
	pprof.StartCPUProfile(f)
	for _, sc := range scs {
		if f := os.Getenv("MC_ONLY"); f != "" && !strings.Contains(sc.Name, f) {
			continue
		}
		t0 := time.Now()
		n := 0
		for time.Since(t0) < 3*time.Second {
			runOne(t, sc, nil, false)
			n++
		}
		fmt.Printf("%s: %d/s\n", sc.Name, n/3)
	}
	pprof.StopCPUProfile()
	os.Exit(0)
}

// Bubble runs a sequential check with simulated time (frozen unless slept).
// f must end with c.Finish.
func Bubble(f func()) {
	testing.Main(func(string, string) (bool, error) { return true, nil },
		[]testing.InternalTest{{Name: "mc", F: func(t *testing.T) {
			synctest.Test(t, func(t *testing.T) { f() })
			os.Exit(0)
		}}}, nil, nil)
}

// InTest runs a sequential check under a *testing.T; each call of bubble runs
// its body in a fresh synctest bubble. f must end with c.Finish.
func InTest(f func(bubble func(body func()) (panicked interface{}))) {
	testing.Main(func(string, string) (bool, error) { return true, nil },
		[]testing.InternalTest{{Name: "mc", F: func(t *testing.T) {
			f(func(body func()) (p interface{}) {
				defer func() {
					if r := recover(); r != nil {
						if !strings.Contains(fmt.Sprint(r), "blocked goroutines remain") {
							p = r
						}
					}
				}()
				synctest.Test(t, func(t *testing.T) {
					if pp, st := hx.Catch(body); pp != nil {
						p = fmt.Sprintf("%v %s", pp, st)
					}
				})
				return
			})
			os.Exit(0)
		}}}, nil, nil)
}

// Settle waits until every other goroutine of the bubble is blocked.
func Settle() { synctest.Wait() }
