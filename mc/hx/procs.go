package hx

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

type shard struct {
	Counts     map[string]int
	Outcomes   map[string]int
	Samples    []interface{}
	Violations []violation
	Seen       map[string]int
	Capped     []string
}

// Procs runs f(0..n-1) in one process per core (for code that keeps its state
// in package variables); name tells the calls of a check apart. In the
// processes it starts, every other call is skipped.
func (c *Check) Procs(name string, n int, f func(i int)) {
	if s := os.Getenv("MC_SHARD"); s != "" {
		p := strings.Split(s, "|")
		if p[0] != name {
			return
		}
		k, _ := strconv.Atoi(p[1])
		of, _ := strconv.Atoi(p[2])
		from, _ := strconv.Atoi(p[4])
		for ; k < from; k += of {
		}
		last, nv := time.Now(), 0
		save := func() {
			c.mu.Lock()
			nv, last = len(c.violations), time.Now()
			b, err := json.Marshal(shard{c.counts, c.outcomes, c.samples, c.violations, c.seen, c.capped})
			c.mu.Unlock()
			if err == nil {
				err = os.WriteFile(p[3], b, 0o644)
			}
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(4)
			}
		}
		for i := k; i < n; i += of {
			os.WriteFile(p[3]+".at", []byte(fmt.Sprint(i)), 0o644)
			if pn, st := Catch(func() { f(i) }); pn != nil {
				c.Fail("panic", fmt.Sprintf("%s, case %s: %v\n%s", name, c.describe(i), pn, st), i)
			}
			if nv != c.nviol() || time.Since(last) > 100*time.Millisecond {
				save()
			}
		}
		save()
		os.Exit(0)
	}
	of := runtime.NumCPU()
	if of > n {
		of = n
	}
	dir := Tmp("shards")
	defer os.RemoveAll(dir)
	var wg sync.WaitGroup
	for k := 0; k < of; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for from, crashes := k, 0; from < n; crashes++ {
				out := filepath.Join(dir, fmt.Sprint(k))
				os.Remove(out)
				cmd := exec.Command("/proc/self/exe")
				cmd.Env = append(os.Environ(), fmt.Sprintf("MC_SHARD=%s|%d|%d|%s|%d", name, k, of, out, from), "GOMAXPROCS=3")
				var log strings.Builder
				cmd.Stdout, cmd.Stderr = &log, &log
				err := cmd.Run()
				b, rerr := os.ReadFile(out)
				var s shard
				if rerr == nil {
					rerr = json.Unmarshal(b, &s)
				}
				if err == nil && rerr == nil {
					c.merge(s)
					return
				}
				if rerr == nil {
					c.merge(s)
				}
				t := log.String()
				died := false
				for _, w := range []string{"panic:", "fatal error:", "SIGSEGV", "SIGABRT"} {
					if i := strings.Index(t, w); i >= 0 {
						t, died = t[i:], true
						break
					}
				}
				if len(t) > 3000 {
					t = t[:3000]
				}
				at, aerr := os.ReadFile(out + ".at")
				i, ierr := strconv.Atoi(string(at))
				// a crash of a goroutine or a library of the code under test ends the process
				if died && aerr == nil && ierr == nil {
					what := c.describe(i)
					c.Fail("crash", fmt.Sprintf("%s, case %s: the process dies: %s", name, what, t), what)
					if crashes < 3 {
						from = i + of
						continue
					}
					c.Cap("crashes")
					return
				}
				fmt.Fprintf(os.Stderr, "%s, process %d of %d: %v %v %s\n", name, k, of, err, rerr, t)
				os.Exit(3)
			}
		}(k)
	}
	wg.Wait()
}

func (c *Check) describe(i int) string {
	if c.Describe != nil {
		return c.Describe(i)
	}
	return fmt.Sprint(i)
}

func (c *Check) nviol() int { c.mu.Lock(); defer c.mu.Unlock(); return len(c.violations) }

func (c *Check) merge(s shard) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for a, v := range s.Counts {
		c.counts[a] += v
	}
	for a, v := range s.Outcomes {
		c.outcomes[a] += v
	}
	for _, x := range s.Samples {
		if len(c.samples) < 6 {
			c.samples = append(c.samples, x)
		}
	}
	for _, v := range s.Violations {
		if c.seen[v.Sig] == 0 {
			c.violations = append(c.violations, v)
		}
		c.seen[v.Sig] += s.Seen[v.Sig]
	}
	for _, w := range s.Capped {
		known := false
		for _, x := range c.capped {
			known = known || x == w
		}
		if !known {
			c.capped = append(c.capped, w)
		}
	}
}
