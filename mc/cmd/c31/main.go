// C31: the daemon as a process. The real tdexd, built from the tree, is started with
// every configuration of a list, by itself or next to whatever is in its way, and in
// every state of its clients stopped; short histories of operator's orders are each
// cut by a stop and by a kill after every reply and at every request to the explorer;
// its certificate and macaroon files are cut at every point of being written. What it
// shows afterwards is compared with what it showed before.
//
//mc:instr pkg/wallet=K pkg/macaroons=K pkg/securestore/bolt=K
package main

import (
	"fmt"
	"os"
	"strings"
	"sync"

	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/tdex-network/tdex-daemon/verif/world"
)

var (
	c     *hx.Check
	base  = world.Base
	quote = world.Quote(0)
	words = world.Words
)

const pass = "password"

type job struct {
	name string
	f    func(bad func(sig, f string, x ...interface{}))
}

var jobs []job

func add(name string, f func(bad func(sig, f string, x ...interface{}))) {
	jobs = append(jobs, job{name, f})
}

func main() {
	c = hx.New("C31", "exploration")
	build()
	th := c.Thorough()
	prepare()
	stops(th)
	refusals(th)
	settings(th)
	files(th)
	histories(th)
	effects(th)
	only := os.Getenv("MC_SCENARIO")
	// those that mostly wait apart, then the longest first
	var waiting, long, other []job
	for _, j := range jobs {
		switch {
		case only != "" && !strings.Contains(j.name, only):
		case strings.HasPrefix(j.name, "stopped with"):
			waiting = append(waiting, j)
		case strings.HasPrefix(j.name, "cut:"), strings.Contains(j.name, "trade"):
			long = append(long, j)
		default:
			other = append(other, j)
		}
	}
	var wg sync.WaitGroup
	run := func(l []job, n int) {
		next := make(chan job, len(l))
		for _, j := range l {
			next <- j
		}
		close(next)
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := range next {
					j := j
					if c.Expired() {
						c.Cap("budget")
						return
					}
					if p, st := hx.Catch(func() {
						j.f(func(sig, f string, x ...interface{}) {
							c.Fail(sig, j.name+": "+fmt.Sprintf(f, x...), j.name)
						})
					}); p != nil {
						c.Fail("panic", fmt.Sprintf("%s: %v\n%s", j.name, p, st), j.name)
					}
					c.Count("evaluations", 1)
				}
			}()
		}
	}
	run(waiting, 12)
	run(append(long, other...), 12)
	wg.Wait()
	c.Info("jobs", len(jobs))
	for _, i := range []int{0, len(jobs) / 3, len(jobs) - 1} {
		c.Sample(jobs[i].name)
	}
	c.Info("rule", "every state of a connected client on every interface when the daemon is stopped; every listed value of every setting, sound or not; every prefix of the writing of the certificate and macaroon files; every sequence of the operator's and traders' orders up to the depth, ended by a stop, by a kill, and the last one by a kill at each of its requests to the explorer; non-trivial: the daemon ran and was compared after a restart, or refused to start")
	c.Assume("keys are derived from passwords with a cheap cost in the process under test")
	c.Finish()
}
