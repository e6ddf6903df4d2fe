package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	osexec "os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	dbbadger "github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/badger"
	"github.com/tdex-network/tdex-daemon/verif/hx"
)

// image is the content of the files of the store.
type image map[string][]byte

func snap(dir string) image {
	im := image{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() || i.Name() == "LOCK" {
			return nil
		}
		f, err := os.Open(p)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		b, err := io.ReadAll(f)
		if err != nil {
			panic(err)
		}
		rel, _ := filepath.Rel(dir, p)
		im[rel] = b
		return nil
	})
	return im
}

func (im image) write(dir string) {
	for n, b := range im {
		p := filepath.Join(dir, n)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, b, 0o644); err != nil {
			panic(err)
		}
	}
}

// load tells what a store opened on the image holds. The coins are not kept
// on disk: they are put back, as the daemon does, for their locks to show.
func load(dir string, then func(r ports.RepoManager)) (state string) {
	var r ports.RepoManager
	p, st := hx.Catch(func() {
		var err error
		if r, err = dbbadger.NewRepoManager(dir, nil); err != nil {
			state = "does not open: " + err.Error()
			r = nil
			return
		}
		exec(bg, r, find("add both"))
		state = digest(bg, r)
		if then != nil {
			then(r)
		}
	})
	if p != nil {
		state = fmt.Sprintf("panic: %v %s", p, st)
	}
	if r != nil {
		r.Close()
	}
	return
}

var scratch struct {
	sync.Mutex
	n int
}

func tmp(root string) string {
	scratch.Lock()
	scratch.n++
	d := filepath.Join(root, fmt.Sprint(scratch.n))
	scratch.Unlock()
	os.MkdirAll(d, 0o755)
	return d
}

// step of a history on disk.
type step struct {
	name string
	do   func(r ports.RepoManager)
}

func txstep(in string, fail bool, names ...string) step {
	n := in + "{" + strings.Join(names, ", ") + "}"
	if fail {
		n += " failing"
	}
	return step{n, func(r ports.RepoManager) {
		runner(r, in)(bg, false, func(ctx context.Context) (interface{}, error) {
			for _, x := range names {
				if _, err := find(x).f(ctx, r); err != nil {
					return nil, err
				}
			}
			if fail {
				return nil, errEnd
			}
			return nil, nil
		})
	}}
}

func plain(name string) step {
	return step{name, func(r ports.RepoManager) { exec(bg, r, find(name)) }}
}

func crashes(c *hx.Check) {
	root := fast("c18-")
	defer os.RemoveAll(root)
	histories := [][]step{
		{txstep("main", false, "vault", "market 5", "fund 5"), plain("derive"), txstep("main", false, "trade 1", "count 1", "derive"), plain("lock for 1"), txstep("main", true, "fee 5", "derive"), plain("unlock"), plain("delete 5")},
		{plain("market 5"), plain("market 6"), plain("fund 5"), plain("price 5"), plain("open"), txstep("prices", false, "price 5 again", "price 6"), txstep("main", false, "fee 5", "close", "next market")},
		{plain("vault"), plain("trade 1"), plain("count 1"), plain("count 1"), txstep("main", false, "lock for 1", "trade 2", "derive"), txstep("main", false, "unlock", "delete 5")},
	}
	type job struct {
		desc          string
		im            image
		before, after string
		more          bool
	}
	var jobs []job
	for hi, h := range histories {
		dir := tmp(root)
		r, err := dbbadger.NewRepoManager(dir, nil)
		if err != nil {
			panic(err)
		}
		exec(bg, r, find("add both"))
		prev := snap(dir)
		before := digest(bg, r)
		done := []string{}
		for _, s := range h {
			s.do(r)
			done = append(done, s.name)
			now := snap(dir)
			after := digest(bg, r)
			desc := fmt.Sprintf("history %d: %s", hi, strings.Join(done, "; "))
			jobs = append(jobs, job{desc + "; killed afterwards", now, after, after, true})
			// the files that were written
			var names []string
			for n, b := range now {
				if !bytes.Equal(prev[n], b) {
					names = append(names, n)
				}
			}
			sort.Strings(names)
			for _, n := range names {
				if !bytes.HasPrefix(now[n], prev[n]) {
					c.Cap(fmt.Sprintf("%s: %s is not only appended to", desc, n))
					continue
				}
				// any subset of the other files had been written before
				for mask := 0; mask < 1<<(len(names)-1); mask++ {
					base := image{}
					for k, v := range prev {
						base[k] = v
					}
					bit := 0
					for _, o := range names {
						if o == n {
							continue
						}
						if mask>>bit&1 == 1 {
							base[o] = now[o]
						}
						bit++
					}
					lo, hi := len(prev[n]), len(now[n])
					stride := 1
					if !c.Thorough() && hi-lo > 200 {
						stride = (hi - lo) / 120
					}
					for k := lo; k < hi; k += stride {
						for _, zeros := range []bool{false, true} {
							if zeros && (k == hi-1 || k%7 != 0 && stride == 1) {
								continue
							}
							im := image{}
							for a, b := range base {
								im[a] = b
							}
							b := append([]byte{}, now[n][:k]...)
							if zeros {
								b = append(b, make([]byte, hi-k)...)
							}
							im[n] = b
							jobs = append(jobs, job{fmt.Sprintf("%s; killed with %d of %d bytes of %s written (rest zeroed: %v, %d)", desc, k-lo, hi-lo, n, zeros, mask), im, before, after, k%16 == 0})
						}
					}
				}
			}
			prev, before = now, after
		}
		r.Close()
		jobs = append(jobs, job{fmt.Sprintf("history %d, closed", hi), snap(dir), before, before, true})
	}
	t0 := time.Now()
	// a store once opened on disk is never let go, so each process opens a few
	const batch = 20
	defer func() { c.Info("crash_seconds", time.Since(t0).Seconds()) }()
	c.Par((len(jobs)+batch-1)/batch, func(b int) {
		part := jobs[b*batch:]
		if len(part) > batch {
			part = part[:batch]
		}
		if time.Since(t0) > 25*time.Second && !c.Thorough() || c.Expired() {
			c.Cap("torn writes stopped")
			return
		}
		var ask strings.Builder
		for _, j := range part {
			d := tmp(root)
			defer os.RemoveAll(d)
			j.im.write(d)
			fmt.Fprintf(&ask, "%s %v\n", d, j.more)
		}
		self, err := os.Executable()
		if err != nil {
			panic(err)
		}
		ctx, cancel := context.WithTimeout(bg, 2*time.Minute)
		defer cancel()
		cmd := osexec.CommandContext(ctx, self)
		cmd.Env = append(os.Environ(), "C18_LOAD=1", "GOMAXPROCS=2")
		cmd.Stdin = strings.NewReader(ask.String())
		out, err := cmd.Output()
		var ans []answer
		for _, l := range strings.Split(string(out), "\n") {
			var a answer
			if strings.HasPrefix(l, "{") && json.Unmarshal([]byte(l), &a) == nil {
				ans = append(ans, a)
			}
		}
		for i, j := range part {
			if i >= len(ans) {
				c.Fail("crash-dies", fmt.Sprintf("%s: opening the store ends the process: %v", j.desc, err), j.desc)
				return
			}
			got := ans[i].State
			c.Count("evaluations", 1)
			c.Count("crash_images", 1)
			switch got {
			case j.before:
				c.Outcome("crash: before")
			case j.after:
				c.Outcome("crash: after")
			default:
				sig := "crash-state"
				if strings.HasPrefix(got, "does not open") {
					sig = "crash-open"
				}
				c.Fail(sig, fmt.Sprintf("%s: the store holds\n%s\nbefore the step\n%s\nafter it\n%s", j.desc, got, j.before, j.after), j.desc)
				continue
			}
			if ans[i].Again != ans[i].Want {
				c.Fail("crash-after", fmt.Sprintf("%s: used and closed again, the store holds\n%s\ninstead of\n%s", j.desc, ans[i].Again, ans[i].Want), j.desc)
			}
		}
	})
}

// answer is what the process that opens a store says about it.
type answer struct{ State, Want, Again string }

func loader() {
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		f := strings.Fields(in.Text())
		var a answer
		var then func(r ports.RepoManager)
		if f[1] == "true" {
			then = func(r ports.RepoManager) {
				for _, n := range []string{"trade 2", "vault", "derive", "next market"} {
					exec(bg, r, find(n))
				}
				a.Want = digest(bg, r)
			}
		}
		a.State = load(f[0], then)
		if then != nil && a.Want != "" {
			a.Again = load(f[0], nil)
		}
		b, _ := json.Marshal(a)
		fmt.Println(string(b))
	}
}

// fast is a directory in memory, where there is one.
func fast(prefix string) string {
	if d, err := os.MkdirTemp("/dev/shm", prefix); err == nil {
		return d
	}
	return hx.Tmp(prefix)
}
