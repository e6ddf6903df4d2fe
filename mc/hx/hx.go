// Package hx is the common part of every check: tier and deadline, violations,
// known findings, evidence.
package hx

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Verif is the directory of the framework.
func Verif() string {
	if d := os.Getenv("MC_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

// Repo is the tree under test.
func Repo() string {
	if d := os.Getenv("MC_REPO"); d != "" {
		return d
	}
	return "/repo"
}

type violation struct {
	Sig    string
	Msg    string
	Replay interface{}
}

// Check collects what one run covered and found.
type Check struct {
	// Describe prints case i of Procs.
	Describe func(i int) string

	ID, Level string
	Tier      string
	Seed      int
	Start     time.Time
	Deadline  time.Time

	mu         sync.Mutex
	counts     map[string]int
	info       map[string]interface{}
	samples    []interface{}
	assume     []string
	outcomes   map[string]int
	violations []violation
	seen       map[string]int
	capped     []string
}

// Budgets in seconds of exploration (without the build), per tier.
var (
	QuickBudget    = 60.0
	ThoroughBudget = 600.0
)

// New starts a check.
func New(id, level string) *Check {
	debug.SetGCPercent(200)
	c := &Check{ID: id, Level: level, Tier: os.Getenv("VERIF_TIER"), Start: Now(),
		counts: map[string]int{}, info: map[string]interface{}{}, outcomes: map[string]int{}, seen: map[string]int{}}
	if c.Tier != "thorough" {
		c.Tier = "quick"
	}
	c.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	b := QuickBudget
	if c.Tier == "thorough" {
		b = ThoroughBudget
	}
	if s := os.Getenv("MC_BUDGET"); s != "" {
		b, _ = strconv.ParseFloat(s, 64)
	}
	c.Deadline = c.Start.Add(time.Duration(b * float64(time.Second)))
	return c
}

// Now is the real time, also inside a synctest bubble.
func Now() time.Time {
	var tv syscall.Timeval
	syscall.Gettimeofday(&tv)
	return time.Unix(tv.Sec, int64(tv.Usec)*1000)
}

// Thorough tells whether the deep tier runs.
func (c *Check) Thorough() bool { return c.Tier == "thorough" }

// Expired tells whether the budget is used up.
func (c *Check) Expired() bool { return Now().After(c.Deadline) }

// Cap records that a part of the space was not covered.
func (c *Check) Cap(what string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, s := range c.capped {
		if s == what {
			return
		}
	}
	c.capped = append(c.capped, what)
}

// Count adds to a counter.
func (c *Check) Count(key string, n int) { c.mu.Lock(); c.counts[key] += n; c.mu.Unlock() }

// Get reads a counter.
func (c *Check) Get(key string) int { c.mu.Lock(); defer c.mu.Unlock(); return c.counts[key] }

// Info records a non-numeric fact about the run.
func (c *Check) Info(key string, v interface{}) { c.mu.Lock(); c.info[key] = v; c.mu.Unlock() }

// Outcome counts distinct observed outcomes.
func (c *Check) Outcome(s string) { c.mu.Lock(); c.outcomes[s]++; c.mu.Unlock() }

// Sample keeps a few of the cases of the run.
func (c *Check) Sample(v interface{}) {
	c.mu.Lock()
	if len(c.samples) < 6 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

// Assume states an assumption.
func (c *Check) Assume(s string) { c.assume = append(c.assume, s) }

// Fail records a violation, sig identifying it (input class, call site, history).
func (c *Check) Fail(sig, msg string, replay interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	sig = strings.ReplaceAll(sig, " ", "_")
	c.seen[sig]++
	if c.seen[sig] > 1 {
		return
	}
	c.violations = append(c.violations, violation{sig, msg, replay})
}

// Failed tells whether anything was reported that is not a known finding.
func (c *Check) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	kf := c.known()
	for _, v := range c.violations {
		if _, ok := kf[v.Sig]; !ok {
			return true
		}
	}
	return false
}

// known reads the findings listed for this property:
//
//	finding: property=C06 sig=<signature without blanks> <what fails>
func (c *Check) known() map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(Verif(), "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+c.ID+" sig=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+c.ID+" sig=")
		p := strings.SplitN(rest, " ", 2)
		if len(p) == 2 {
			out[p[0]] = p[1]
		}
	}
	return out
}

// Finish writes the evidence, reports and exits.
func (c *Check) Finish() {
	c.mu.Lock()
	defer c.mu.Unlock()
	kf := c.known()
	repdir := filepath.Join(Verif(), "replay")
	os.MkdirAll(repdir, 0o755)
	nviol := 0
	lines := []string{}
	ksigs := []string{}
	for s := range kf {
		ksigs = append(ksigs, s)
	}
	sort.Strings(ksigs)
	for _, s := range ksigs {
		n := c.seen[s]
		fmt.Printf("KNOWN-FINDING: property=%s %s [sig=%s, seen %d times in this run]\n", c.ID, kf[s], s, n)
	}
	for i, v := range c.violations {
		if _, ok := kf[v.Sig]; ok {
			continue
		}
		nviol++
		path := filepath.Join(repdir, fmt.Sprintf("%s-%d.json", c.ID, i))
		b, _ := json.MarshalIndent(map[string]interface{}{"property": c.ID, "signature": v.Sig, "message": v.Msg, "replay": v.Replay}, "", " ")
		os.WriteFile(path, b, 0o644)
		if nviol <= 6 {
			m := v.Msg
			if len(m) > 1200 {
				m = m[:1200] + " ... (the whole is in the replay file)"
			}
			fmt.Printf("-- %s: %s\n   %s\n", c.ID, v.Sig, strings.ReplaceAll(m, "\n", "\n   "))
		}
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", c.ID, path))
		if nviol >= 20 {
			break
		}
	}
	cov := map[string]interface{}{}
	for k, v := range c.counts {
		cov[k] = v
	}
	for k, v := range c.info {
		cov[k] = v
	}
	cov["distinct_outcomes"] = len(c.outcomes)
	if len(c.outcomes) <= 40 {
		cov["outcomes"] = c.outcomes
	}
	if len(c.samples) == 0 {
		c.samples = append(c.samples, "none")
	}
	cov["samples"] = c.samples
	cov["exhaustive"] = len(c.capped) == 0
	if len(c.capped) > 0 {
		cov["not_covered"] = c.capped
	}
	switch c.Level {
	case "model_checking":
		for _, k := range []string{"states", "transitions", "traces_validated_against_impl"} {
			if _, ok := cov[k]; !ok {
				cov[k] = 0
			}
		}
	default:
		for _, k := range []string{"evaluations", "distinct_nontrivial"} {
			if _, ok := cov[k]; !ok {
				cov[k] = 0
			}
		}
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Level, "coverage": cov,
		"wall_s": Now().Sub(c.Start).Seconds(), "violations": nviol, "assumptions": c.assume,
	}
	if c.assume == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)
		os.Exit(3)
	}
	os.MkdirAll(filepath.Join(Verif(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(Verif(), "evidence", c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
		os.Exit(3)
	}
	keys := []string{}
	for k := range c.counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	sum := ""
	for _, k := range keys {
		sum += fmt.Sprintf(" %s=%d", k, c.counts[k])
	}
	fmt.Printf("%s %s: exhaustive=%v outcomes=%d%s wall=%.1fs violations=%d\n", c.ID, c.Tier, len(c.capped) == 0, len(c.outcomes), sum, Now().Sub(c.Start).Seconds(), nviol)
	for _, s := range c.capped {
		fmt.Println("  not covered:", s)
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	if nviol > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

// Catch runs f and returns the panic it raised, if any.
func Catch(f func()) (p interface{}, stack string) {
	defer func() {
		if r := recover(); r != nil {
			p = r
			stack = shortStack()
		}
	}()
	f()
	return
}

func shortStack() string {
	out := []string{}
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "tdex-daemon/") && strings.Contains(l, "(") && !strings.Contains(l, "/verif/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 5 {
			break
		}
	}
	return strings.Join(out, " <- ")
}

// Within runs f and tells whether it returned in the given time (a hang is
// left behind). Only for calls that are expected to take microseconds.
func Within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

// Tmp makes a scratch directory (the runner removes its parent).
func Tmp(prefix string) string {
	d, err := os.MkdirTemp(os.Getenv("MC_SCRATCH"), prefix)
	if err != nil {
		panic(err)
	}
	return d
}

// Par runs f(0..n-1) on all cores; panics in f are reported as a violation.
func (c *Check) Par(n int, f func(i int)) {
	var wg sync.WaitGroup
	next := make(chan int)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				if p, st := Catch(func() { f(i) }); p != nil {
					c.Fail("panic", fmt.Sprintf("case %d: %v\n%s", i, p, st), i)
				}
			}
		}()
	}
	for i := 0; i < n; i++ {
		next <- i
	}
	close(next)
	wg.Wait()
}
