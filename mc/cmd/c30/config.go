package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"

	"github.com/tdex-network/tdex-daemon/verif/hx"
)

// what a configuration command does to the configuration; nil: it is refused.
type confOp struct {
	args []string
	set  map[string]string
}

func confOps() (l []confOp) {
	for _, kv := range [][2]string{{"rpcserver", "localhost:9000"}, {"base_asset", baseAsset}, {"base_asset", ""}, {"quote_asset", quoteAsset}, {"odd key", "a \"b\" <ä> \\ \n: c"}, {"fee_wallet", `{"privateKey":"` + strings.Repeat("5a", 32) + `"}`}} {
		l = append(l, confOp{[]string{"config", "set", kv[0], kv[1]}, map[string]string{kv[0]: kv[1]}})
	}
	l = append(l, confOp{[]string{"config", "set", "rpcserver"}, nil}, confOp{[]string{"config", "set"}, nil}, confOp{[]string{"config", "init", "--no_such_flag"}, nil})
	d := map[string]string{"network": "liquid", "explorer_url": "https://blockstream.info/liquid/api", "rpcserver": "localhost:9000", "tls_cert_path": "", "no_macaroons": "false", "macaroons_path": ""}
	with := func(kv ...string) map[string]string {
		m := map[string]string{}
		for k, v := range d {
			m[k] = v
		}
		for i := 0; i < len(kv); i += 2 {
			m[kv[i]] = kv[i+1]
		}
		return m
	}
	l = append(l, confOp{[]string{"config", "init"}, with()},
		confOp{[]string{"config", "init", "--no_macaroons"}, with("no_macaroons", "true")},
		confOp{[]string{"config", "init", "--network", "regtest", "--explorer_url", "http://127.0.0.1:3001", "--rpcserver", "10.0.0.1:1", "--tls_cert_path", "~/a/../b.pem", "--macaroons_path", "$C30_DIR//y"},
			with("network", "regtest", "explorer_url", "http://127.0.0.1:3001", "rpcserver", "10.0.0.1:1", "tls_cert_path", filepath.Join(home, "b.pem"), "macaroons_path", "/data/x/y")})
	return
}

// read a configuration; nil when there is none.
func read(dir string) (map[string]string, error) {
	b, err := os.ReadFile(file(dir))
	if err != nil {
		return nil, nil
	}
	if len(b) == 0 {
		return map[string]string{}, nil
	}
	m := map[string]string{}
	return m, json.Unmarshal(b, &m)
}

func key(m map[string]string) string {
	if m == nil {
		return "none"
	}
	b, _ := json.Marshal(m)
	return string(b)
}

func merged(m, s map[string]string) map[string]string {
	x := map[string]string{}
	for k, v := range m {
		x[k] = v
	}
	for k, v := range s {
		x[k] = v
	}
	return x
}

// configs goes through all configurations that a few commands reach.
func configs(th bool, add func(string, func())) {
	depth := 3
	if th {
		depth = 5
	}
	ops := confOps()
	type st struct {
		m    map[string]string
		hist string
	}
	add("configurations", func() {
		level := []st{{nil, ""}}
		seen := map[string]bool{"none": true}
		for d := 0; d <= depth && len(level) > 0; d++ {
			var next []st
			var mu sync.Mutex
			var wg sync.WaitGroup
			sem := make(chan bool, 8)
			for _, s := range level {
				s := s
				wg.Add(1)
				sem <- true
				go func() {
					defer func() { <-sem; wg.Done() }()
					if c.Expired() {
						c.Cap("budget: configurations")
						return
					}
					shown(s.m, s.hist)
					if d == depth {
						return
					}
					for _, o := range ops {
						h := s.hist + fmt.Sprintf("%q; ", o.args)
						m, ok := step(s.m, o, h)
						if !ok {
							return
						}
						mu.Lock()
						if !seen[key(m)] {
							seen[key(m)] = true
							next = append(next, st{m, h})
						}
						mu.Unlock()
					}
				}()
			}
			wg.Wait()
			sort.Slice(next, func(i, j int) bool { return next[i].hist < next[j].hist })
			level = next
		}
		c.Info("configurations reached", len(seen))
		c.Count("distinct_nontrivial", len(seen))
	})
}

func fresh(m map[string]string) string {
	dir := hx.Tmp("c30-")
	if m != nil {
		write(dir, m)
	} else {
		os.RemoveAll(dir)
	}
	return dir
}

// step runs one command in a configuration.
func step(m map[string]string, o confOp, hist string) (map[string]string, bool) {
	dir := fresh(m)
	defer os.RemoveAll(dir)
	r := execute(dir, nil, o.args...)
	c.Count("evaluations", 1)
	got, err := read(dir)
	bad := func(sig, f string, x ...interface{}) (map[string]string, bool) {
		c.Fail(sig, fmt.Sprintf(f, x...)+": "+hist+fmt.Sprintf("; exit code %d; it said: %s%s", r.code, r.out, r.errs), hist)
		return nil, false
	}
	switch {
	case r.hang:
		return bad("hang", "the tool does not end")
	case r.signal != 0 || r.code == 2:
		return bad("crash", "the tool crashes")
	case err != nil:
		return bad("config", "the configuration is unreadable: %v", err)
	case o.set == nil && r.code == 0:
		return bad("silent", "the command is wrong, but the tool reports success")
	case o.set != nil && r.code != 0:
		return bad("refused", "the command is refused")
	}
	want := m
	if o.set != nil {
		want = merged(m, o.set)
	}
	if len(want) == 0 && len(got) == 0 {
		got = want
	}
	if !reflect.DeepEqual(got, want) {
		return bad("config", "the configuration is %v, not %v", got, want)
	}
	return got, true
}

// shown checks what the tool says that the configuration is.
func shown(m map[string]string, hist string) {
	dir := fresh(m)
	defer os.RemoveAll(dir)
	r := execute(dir, nil, "config")
	c.Count("evaluations", 1)
	if m == nil {
		if r.code == 0 {
			c.Fail("silent", "there is no configuration, but the tool reports success: "+r.out, hist)
		}
		return
	}
	for k, v := range m {
		if r.code != 0 || !strings.Contains("\n"+r.out, "\n"+k+": "+v+"\n") {
			c.Fail("config-shown", fmt.Sprintf("the configuration is %v: %s; exit code %d; the tool says: %s%s", m, hist, r.code, r.out, r.errs), hist)
			return
		}
	}
}

// limited runs the tool with a limit on what can be written to a file.
func limited() bool {
	s := os.Getenv("C30_LIMIT")
	if s == "" {
		if len(os.Args) < 3 || os.Args[1] != "--limit" {
			return false
		}
		s = os.Args[2]
	}
	n, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		panic(err)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n}); err != nil {
		panic(err)
	}
	if err := syscall.Exec(os.Args[3], os.Args[3:], os.Environ()); err != nil {
		panic(err)
	}
	return true
}

const calls = "openat,open,creat,write,pwrite64,rename,renameat,renameat2,unlink,unlinkat,link,linkat,symlinkat,ftruncate,truncate,fsync,fdatasync,mkdir,mkdirat,close,fchmod,fchmodat,chmod,copy_file_range,sendfile"

// faults ends the writing of the configuration at every point.
func faults(th bool, add func(string, func())) {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	keys := map[string]string{"fee_wallet": `{"privateKey":"` + strings.Repeat("5a", 32) + `"}`, "rpcserver": "localhost:9000"}
	starts := []map[string]string{nil, keys, merged(keys, map[string]string{"long": strings.Repeat("x", 9000)})}
	var ops []confOp
	for i, o := range confOps() {
		if o.set != nil && (th || i == 0 || i == 2 || o.args[1] == "init" && len(o.args) == 2) {
			ops = append(ops, o)
		}
	}
	ops = append(ops, confOp{[]string{"config", "set", "long", "y"}, map[string]string{"long": "y"}}, confOp{[]string{"config", "set", "fee_wallet", ""}, map[string]string{"fee_wallet": ""}})
	trace := false
	if p, err := exec.LookPath("strace"); err == nil {
		out, err := exec.Command(p, "-f", "-o", "/dev/null", "-e", "trace=exit_group", "/bin/true").CombinedOutput()
		trace = err == nil && len(out) == 0
	}
	if !trace {
		c.Cap("no strace here: the tool is not killed between system calls")
	}
	for si, m := range starts {
		for _, o := range ops {
			m, o := m, o
			old, neu := m, merged(m, o.set)
			size := len(key(neu)) + 8
			// check one outcome; over says that the fault did not happen any more
			check := func(what string, pre []string) (over bool) {
				dir := fresh(m)
				defer os.RemoveAll(dir)
				r := execute(dir, pre, o.args...)
				c.Count("evaluations", 1)
				hist := fmt.Sprintf("%q with configuration %v; %s", o.args, m, what)
				if len(hist) > 1500 {
					hist = hist[:600] + " ... " + hist[len(hist)-200:]
				}
				bad := func(sig, f string, x ...interface{}) {
					c.Fail(sig, fmt.Sprintf(f, x...)+": "+hist+fmt.Sprintf("; exit code %d, signal %v; it said: %s%s", r.code, r.signal, r.out, r.errs), hist)
				}
				if r.hang {
					bad("hang", "the tool does not end")
					return true
				}
				got, err := read(dir)
				isOld := reflect.DeepEqual(got, old) || len(old) == 0 && len(got) == 0
				isNew := reflect.DeepEqual(got, neu)
				switch {
				case isNew && !isOld:
					c.Outcome("interrupted after the change")
				case r.code != 0:
					c.Outcome("interrupted before the change")
				}
				if r.code != 0 {
					c.Count("distinct_nontrivial", 1)
				}
				switch {
				case err != nil || !isOld && !isNew:
					b, _ := os.ReadFile(file(dir))
					if len(b) > 300 {
						b = b[:300]
					}
					bad("config-lost", "the configuration is neither the old nor the new one: %q", b)
				case r.code == 0 && !isNew:
					bad("config-claimed", "the tool reports success, but nothing is set")
				default:
					// the tool works again afterwards
					if x, ok := again(dir, merged(got, map[string]string{"z": "1"})); !ok {
						bad("config-stuck", "the tool does not work any more: %s", x)
					}
				}
				return r.code == 0
			}
			add(fmt.Sprintf("disk full: %q from %d", o.args, si), func() {
				for n := 0; n <= size; n++ {
					if !th && (size > 1000 && n%512 != 0 && n > 20 && n < size-20 || n%3 != 0 && n > 20 && n < size-20) {
						continue
					}
					if c.Expired() {
						c.Cap("budget: full disk")
						return
					}
					check(fmt.Sprintf("files cannot grow beyond %d bytes", n), []string{self, "--limit", fmt.Sprint(n)})
				}
			})
			if !trace {
				continue
			}
			add(fmt.Sprintf("killed: %q from %d", o.args, si), func() {
				n := 1
				for ; n < 2000; n++ {
					if c.Expired() {
						c.Cap("budget: killed tool")
						return
					}
					if check(fmt.Sprintf("killed before file operation %d", n), []string{"strace", "-f", "-o", "/dev/null", "-e", "trace=" + calls, "-e", fmt.Sprintf("inject=%s:signal=SIGKILL:when=%d", calls, n)}) {
						break
					}
				}
				c.Count("kill points", n-1)
			})
		}
	}
}

func again(dir string, want map[string]string) (string, bool) {
	r := execute(dir, nil, "config", "set", "z", "1")
	got, err := read(dir)
	return fmt.Sprintf("exit code %d, %v, configuration %v; it said: %s%s", r.code, err, got, r.out, r.errs), r.code == 0 && err == nil && reflect.DeepEqual(got, want)
}
