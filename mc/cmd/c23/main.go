// C23: the secure store. Every history, up to a depth, of unlocking, locking,
// adding, reading, removing, changing the password, failures of the disk and
// restarts, on the real store against a reference; at every step of them every
// image of the file that a crash may leave; and every interleaving, up to a
// number of delays, of concurrent operations against the serial orders.
//
//mc:instr pkg/securestore/bolt=LGSK
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/tdex-network/tdex-daemon/pkg/securestore"
	boltsecurestore "github.com/tdex-network/tdex-daemon/pkg/securestore/bolt"
	"github.com/tdex-network/tdex-daemon/verif/disk"
	"github.com/tdex-network/tdex-daemon/verif/explore"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/tdex-network/tdex-daemon/verif/vsync"
)

var (
	passes  = []string{"the first password", "a second, other password"}
	buckets = []string{"a", "a_b"}
	keys    = []string{"k", "k_x", "a"}
	values  = []string{"the value of one entry, forty bytes long", "another value stored in some entry or so", strings.Repeat("a value longer than a page. ", 200), "\x00"}
)

// model is what the store should do.
type model struct {
	unlocked bool
	pwd      string // "" when there is none yet
	data     map[string]map[string]string
}

func newModel() *model { return &model{data: map[string]map[string]string{"": {}}} }

func (m *model) clone() *model {
	o := &model{m.unlocked, m.pwd, map[string]map[string]string{}}
	for b, kv := range m.data {
		o.data[b] = map[string]string{}
		for k, v := range kv {
			o.data[b][k] = v
		}
	}
	return o
}

// stored is what a restart brings back.
func (m *model) stored() string { return show(m.pwd, m.data) }

func show(pwd string, data map[string]map[string]string) string {
	var out []string
	for b, kv := range data {
		out = append(out, fmt.Sprintf("%q", b))
		for k, v := range kv {
			out = append(out, fmt.Sprintf("%q %q: %.60q(%d)", b, k, v, len(v)))
		}
	}
	sort.Strings(out)
	return fmt.Sprintf("password %q: %s", pwd, strings.Join(out, "; "))
}

// op of a history: its name is what it does.
//
//	unlock P, lock, bucket B, add B K V, get B K, all B, list, del B K, rmbucket B, change P Q
//
// where P, Q, B, K and V are indices or one of "-" (nil), "e" (empty),
// "enckey" or, for B, "." (the root) or "none" (a missing one).
type op []string

func (o op) String() string { return strings.Join(o, " ") }

func pick(from []string, s string) string {
	if len(s) == 1 && s[0] >= '0' && s[0] <= '9' {
		return from[s[0]-'0']
	}
	switch s {
	case "-", "e", ".":
		return ""
	case "big":
		return values[2]
	}
	return s
}

func errs(bad bool) string {
	if bad {
		return "error"
	}
	return "ok"
}

// do is the reference.
func (m *model) do(o op) string {
	switch o[0] {
	case "unlock":
		if m.unlocked {
			return "ok"
		}
		if o[1] == "-" {
			return "error"
		}
		p := pick(passes, o[1])
		if m.pwd != "" && m.pwd != p {
			return "error"
		}
		m.pwd, m.unlocked = p, true
		return "ok"
	case "lock":
		m.unlocked = false
		return "ok"
	case "locked":
		return fmt.Sprint(!m.unlocked)
	}
	if !m.unlocked {
		return "error"
	}
	switch o[0] {
	case "bucket":
		b := pick(buckets, o[1])
		if b == "" || b == "enckey" {
			return "error"
		}
		if _, ok := m.data[""][b]; ok {
			return "error"
		}
		if m.data[b] == nil {
			m.data[b] = map[string]string{}
		}
		return "ok"
	case "rmbucket":
		b := pick(buckets, o[1])
		if b == "" || m.data[b] == nil {
			return "error"
		}
		delete(m.data, b)
		return "ok"
	case "add":
		b, k, v := pick(buckets, o[1]), pick(keys, o[2]), pick(values, o[3])
		if m.data[b] == nil || k == "" || k == "enckey" || v == "" {
			return "error"
		}
		if b == "" && m.data[k] != nil {
			return "error"
		}
		m.data[b][k] = v
		return "ok"
	case "get":
		b, k := pick(buckets, o[1]), pick(keys, o[2])
		if m.data[b] == nil || k == "" || k == "enckey" {
			return "error"
		}
		v, ok := m.data[b][k]
		return fmt.Sprintf("%v %.60q(%d)", ok, v, len(v))
	case "del":
		b, k := pick(buckets, o[1]), pick(keys, o[2])
		if m.data[b] == nil || k == "" || k == "enckey" {
			return "error"
		}
		if b == "" && m.data[k] != nil {
			return "error"
		}
		delete(m.data[b], k)
		return "ok"
	case "all":
		b := pick(buckets, o[1])
		if m.data[b] == nil {
			return "error"
		}
		return show("", map[string]map[string]string{b: m.data[b]})
	case "list":
		var out []string
		for b := range m.data {
			if b != "" {
				out = append(out, b)
			}
		}
		sort.Strings(out)
		return fmt.Sprintf("%q", out)
	case "change":
		if o[1] == "-" || o[2] == "-" || m.pwd != pick(passes, o[1]) {
			return "error"
		}
		m.pwd = pick(passes, o[2])
		return "ok"
	}
	panic(o.String())
}

func arg(s, spec string) []byte {
	if spec == "-" || spec == "." {
		return nil
	}
	return []byte(s)
}

func scribble(b []byte) {
	for i := range b {
		b[i] = 'X'
	}
}

// run is the same on a real store.
func run(s securestore.SecureStorage, o op) (res string) {
	res = "ok"
	fail := func(err error) {
		if err != nil {
			res = "error"
		}
	}
	switch o[0] {
	case "unlock":
		if o[1] == "-" {
			fail(s.CreateUnlock(nil))
			return
		}
		p := []byte(pick(passes, o[1]))
		fail(s.CreateUnlock(&p))
		scribble(p)
	case "lock":
		s.Lock()
	case "locked":
		return fmt.Sprint(s.IsLocked())
	case "bucket":
		b := arg(pick(buckets, o[1]), o[1])
		fail(s.CreateBucket(b))
		scribble(b)
	case "rmbucket":
		b := arg(pick(buckets, o[1]), o[1])
		fail(s.RemoveBucket(b))
		scribble(b)
	case "add":
		b, k, v := arg(pick(buckets, o[1]), o[1]), arg(pick(keys, o[2]), o[2]), arg(pick(values, o[3]), o[3])
		fail(s.AddToBucket(b, k, v))
		scribble(b)
		scribble(k)
		scribble(v)
	case "get":
		b, k := arg(pick(buckets, o[1]), o[1]), arg(pick(keys, o[2]), o[2])
		v, err := s.GetFromBucket(b, k)
		if err != nil {
			if v != nil {
				return "error with a value"
			}
			return "error"
		}
		res = fmt.Sprintf("%v %.60q(%d)", v != nil, v, len(v))
		scribble(v)
	case "del":
		b, k := arg(pick(buckets, o[1]), o[1]), arg(pick(keys, o[2]), o[2])
		fail(s.RemoveFromBucket(b, k))
		scribble(b)
		scribble(k)
	case "all":
		b := arg(pick(buckets, o[1]), o[1])
		m, err := s.GetAllFromBucket(b)
		if err != nil {
			if len(m) > 0 {
				return "error with values"
			}
			return "error"
		}
		kv := map[string]string{}
		for k, v := range m {
			kv[k] = string(v)
			scribble(v)
		}
		return show("", map[string]map[string]string{string(b): kv})
	case "list":
		l, err := s.ListBuckets()
		if err != nil {
			if len(l) > 0 {
				return "error with a list"
			}
			return "error"
		}
		var out []string
		for _, b := range l {
			out = append(out, string(b))
			scribble(b)
		}
		sort.Strings(out)
		return fmt.Sprintf("%q", out)
	case "change":
		p, q := arg(pick(passes, o[1]), o[1]), arg(pick(passes, o[2]), o[2])
		fail(s.ChangePassword(p, q))
		scribble(p)
		scribble(q)
	default:
		panic(o.String())
	}
	return
}

func parse(s ...string) (out []op) {
	for _, x := range s {
		out = append(out, strings.Fields(x))
	}
	return
}

// reads is everything that can be asked.
func reads() []op {
	out := parse("locked", "list", "all none", "get none 0", "get . e", "get . -", "get . enckey", "all .")
	for i := range keys {
		out = append(out, parse(fmt.Sprint("get . ", i))...)
	}
	for b := range buckets {
		out = append(out, parse(fmt.Sprint("all ", b), fmt.Sprintf("get %d enckey", b))...)
		for k := range keys {
			out = append(out, parse(fmt.Sprintf("get %d %d", b, k))...)
		}
	}
	return out
}

var allReads = reads()

// store is one on a file whose writes are recorded.
type store struct {
	*disk.Disk
	dir string
	s   securestore.SecureStorage
}

const name = "pubsub.db"

func (d *store) open() error {
	s, err := boltsecurestore.NewSecureStorage(d.dir, name)
	d.s = s
	return err
}

func newStore() *store {
	d := &store{dir: tmp()}
	d.Disk = disk.On(filepath.Join(d.dir, name))
	if err := d.open(); err != nil {
		panic(err)
	}
	return d
}

func (d *store) drop() {
	d.s.Close()
	d.Off()
	os.RemoveAll(d.dir)
}

// opened tells what is in the file and with which password.
func opened(im disk.Image) (state string) {
	dir := tmp()
	defer os.RemoveAll(dir)
	if err := os.WriteFile(filepath.Join(dir, name), im, 0o600); err != nil {
		panic(err)
	}
	p, st := hx.Catch(func() {
		s, err := boltsecurestore.NewSecureStorage(dir, name)
		if err != nil {
			state = "does not open: " + err.Error()
			return
		}
		defer s.Close()
		state = content(s)
	})
	if p != nil {
		return fmt.Sprintf("panic: %v %s", p, st)
	}
	return
}

// content of a locked store.
func content(s securestore.SecureStorage) string {
	with := ""
	for _, p := range append([]string{"no password"}, passes...) {
		b := []byte(p)
		if err := s.CreateUnlock(&b); err == nil && !s.IsLocked() {
			with = p
			break
		} else if !s.IsLocked() {
			return fmt.Sprintf("unlocked with %q though %v", p, err)
		}
	}
	switch with {
	case "":
		return "no password opens it"
	case "no password":
		with = "" // it had none
	}
	data := map[string]map[string]string{"": {}}
	l, err := s.ListBuckets()
	if err != nil {
		return err.Error()
	}
	for _, b := range append(l, nil) {
		m, err := s.GetAllFromBucket(b)
		if err != nil {
			return fmt.Sprintf("password %q: bucket %q: %v", with, b, err)
		}
		data[string(b)] = map[string]string{}
		for k, v := range m {
			data[string(b)][k] = string(v)
		}
	}
	return show(with, data)
}

// clear tells what of the secrets the image shows.
func clear(im disk.Image) string {
	for _, v := range values {
		if len(v) > 1 && bytes.Contains(im, []byte(v)[:min(len(v), 20)]) {
			return fmt.Sprintf("the value %.60q", v)
		}
	}
	for _, p := range passes {
		if bytes.Contains(im, []byte(p)) {
			return fmt.Sprintf("the password %q", p)
		}
	}
	return ""
}

var scratch struct {
	sync.Mutex
	root string
	n    int
}

func tmp() string {
	scratch.Lock()
	scratch.n++
	d := filepath.Join(scratch.root, fmt.Sprint(scratch.n))
	scratch.Unlock()
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

func histories(name string, bound, deep int, before ...string) *explore.Scenario {
	var all []string
	for _, s := range strings.Split("unlock 0,unlock 1,unlock -,lock,bucket 0,bucket 1,bucket e,bucket -,bucket enckey,"+
		"rmbucket 0,rmbucket 1,rmbucket none,rmbucket enckey,rmbucket e,rmbucket a,"+
		"add . 0 0,add . 1 1,add . 2 0,add . 0 big,add . enckey 0,add . e 0,add . - 0,add . 1 e,add . 1 -,add . 0 3,"+
		"add 0 0 0,add 0 0 1,add 0 1 big,add 0 2 3,add 0 enckey 1,add 0 e 0,add 0 0 e,add 1 0 1,add 1 1 0,add 1 0 big,add none 0 0,"+
		"del . 0,del . 1,del . 2,del . enckey,del . e,del 0 0,del 0 1,del 1 0,del 1 1,del 0 enckey,del none 0,"+
		"change 0 1,change 1 0,change 0 0,change - 1,change 0 -,restart,close,"+
		"fail 0 change 0 1,fail 1 change 0 1,fail 2 change 0 1,fail 0 add 0 0 1,fail 1 add 1 1 0,fail 0 unlock 0,fail 1 unlock 0,fail 0 bucket 0,fail 1 del 0 0,fail 0 rmbucket 1", ",") {
		all = append(all, s)
	}
	return &explore.Scenario{Name: name, Ops: all, Bound: bound, ThoroughBound: deep, Weight: 15, Hist: func(x *explore.Exec, path []int) {
		d := newStore()
		defer d.drop()
		m := newModel()
		for _, b := range before {
			if r := run(d.s, parse(b)[0]); r != m.do(parse(b)[0]) {
				panic(b + ": " + r)
			}
		}
		for k, p := range path {
			o := parse(all[p])[0]
			last := k == len(path)-1
			x.Log("%s", o)
			was := m.stored()
			d.Rec, d.Log = last, nil
			switch o[0] {
			case "restart", "close":
				if err := d.s.Close(); err != nil {
					x.Fail("close", "%v", err)
				}
				m.unlocked = false
				if o[0] == "close" {
					for _, s := range strings.Split("locked,unlock 0,add 0 0 0,get 0 0,all .,list,bucket 0,change 0 1,del 0 0", ",") {
						c := parse(s)[0]
						if got := run(d.s, c); got != "error" && !(s == "locked" && got == "true") {
							x.Fail("closed", "%s: %s on a closed store", s, got)
						}
					}
				}
				if err := d.open(); err != nil {
					x.Fail("open", "%v", err)
				}
			case "fail":
				n := int(o[1][0] - '0')
				w := m.clone()
				before := d.Errs
				d.Fail = n
				got := run(d.s, o[2:])
				d.Fail = -1
				want := w.do(o[2:])
				if d.Errs == before {
					// too few writes
					if !last {
						panic("not repeatable: " + o.String())
					}
					x.Disabled()
					return
				}
				if got != "error" {
					x.Fail("result", "%s: %s though the disk failed (else %s)", o, got, want)
				}
				x.Count("disk_failures", 1)
			default:
				want := m.do(o)
				if got := run(d.s, o); got != want {
					x.Fail("result", "%s: %s, not %s", o, got, want)
				}
			}
			if !last {
				continue
			}
			for _, r := range allReads {
				if got, want := run(d.s, r), m.clone().do(r); got != want {
					x.Fail("read", "%s: %s, not %s", r, got, want)
				}
			}
			d.Rec = false
			// a crash before the end leaves the old or the new content, one
			// after it the new
			now := m.stored()
			seen := map[string]bool{}
			try := func(im disk.Image, may ...string) {
				if seen[string(im)] {
					return
				}
				seen[string(im)] = true
				got := opened(im)
				ok := false
				for _, s := range may {
					ok = ok || got == s
				}
				if !ok {
					x.Fail("crash", "%s: a crash leaves %s, not %s", o, got, strings.Join(may, " or "))
				}
				if c := clear(im); c != "" {
					x.Fail("clear", "%s: the file shows %s", o, c)
				}
			}
			if len(d.Log) > 0 {
				// the first part of the log may be of the restart
				for _, im := range d.Log {
					try(im, was, now)
				}
			}
			after := &disk.Disk{File: d.File, Pend: d.Pend}
			if o[0] == "fail" {
				// what was written without success
				for _, im := range after.Images() {
					try(im, was)
				}
			} else {
				for _, im := range after.Images() {
					delete(seen, string(im))
					try(im, now)
				}
			}
			x.Count("crash_points", len(d.Log)+1)
			x.Count("distinct_crash_images", len(seen))
		}
		x.State(fmt.Sprint(m.unlocked, m.stored()))
		x.Outcome("%v %v %d buckets", m.unlocked, m.pwd != "", len(m.data)-1)
	}}
}

// race runs operations at once: together with the state they leave their
// results are those of one of the serial orders.
func race(before string, threads ...string) *explore.Scenario {
	var pre []op
	if before != "" {
		pre = parse(strings.Split(before, ",")...)
	}
	var progs [][]op
	for _, t := range threads {
		progs = append(progs, parse(strings.Split(t, ",")...))
	}
	initial := newModel()
	for _, o := range pre {
		initial.do(o)
	}
	after := parse("locked", "list", "all .", "all 0", "all 1")
	final := func(do func(o op) string) (out []string) {
		for _, o := range after {
			out = append(out, do(o))
		}
		return
	}
	// the serial orders
	legal := map[string]bool{}
	var rec func(m *model, at []int, res []string)
	rec = func(m *model, at []int, res []string) {
		done := true
		for i, p := range progs {
			if at[i] == len(p) {
				continue
			}
			done = false
			m2 := m.clone()
			at2 := append([]int{}, at...)
			res2 := append([]string{}, res...)
			res2[i] += m2.do(p[at[i]]) + ", "
			at2[i]++
			rec(m2, at2, res2)
		}
		if done {
			m2 := m.clone()
			legal[fmt.Sprintf("%q %q %s", res, final(m2.do), m.stored())] = true
		}
	}
	rec(initial, make([]int, len(progs)), make([]string, len(progs)))

	return &explore.Scenario{Name: before + " then " + strings.Join(threads, " || "), Bound: 2, ThoroughBound: 3, Delay: true, Quantum: time.Second, Ticks: 2,
		Sched: vsync.Config{Points: []string{"S:pkg/securestore", "L:*"}},
		Setup: func(x *explore.Exec) {
			d := newStore()
			x.V["d"] = d
			for _, o := range pre {
				run(d.s, o)
			}
			res := make([]string, len(progs))
			x.V["res"] = res
			for i, p := range progs {
				i, p := i, p
				x.Thread(fmt.Sprint(i), func() {
					for _, o := range p {
						res[i] += run(d.s, o) + ", "
					}
				})
			}
		},
		Final: func(x *explore.Exec) {
			d := x.V["d"].(*store)
			defer d.drop()
			fin := final(func(o op) string { return run(d.s, o) })
			d.s.Close()
			im, err := os.ReadFile(filepath.Join(d.dir, name))
			if err != nil {
				panic(err)
			}
			got := fmt.Sprintf("%q %q %s", x.V["res"], fin, opened(im))
			if !legal[got] {
				var all []string
				for l := range legal {
					all = append(all, l)
				}
				sort.Strings(all)
				x.Fail("serial", "%s, which no order gives: %s", got, strings.Join(all, " | "))
			}
			x.Outcome("%s", got)
			d.open()
		}}
}

func main() {
	// the workers share a directory
	root := os.Getenv("C23_ROOT")
	if root == "" {
		var err error
		if root, err = os.MkdirTemp("/dev/shm", "c23-"); err != nil {
			root = hx.Tmp("c23")
		}
		os.Setenv("C23_ROOT", root)
	}
	scratch.root = filepath.Join(root, fmt.Sprint(os.Getpid()))
	const full = "unlock 0,bucket 0,bucket 1,add . 0 0,add . 1 big,add 0 0 0,add 0 1 1,add 1 0 1,add 1 1 3"
	const some = "unlock 0,bucket 0,add . 0 0,add 0 0 0"
	scs := []*explore.Scenario{
		histories("new", 5, 7),
		histories("full", 4, 6, strings.Split(full, ",")...),
		race(some, "add 0 1 1", "lock"), race(some, "add 0 0 1", "change 0 1"), race(some, "change 0 1", "lock"), race(some, "change 0 1", "change 0 1"),
		race(some, "get 0 0", "lock"), race(some, "get 0 0", "change 0 1"), race(some, "all .", "change 0 1"), race(some, "all 0", "lock"), race(some, "list", "lock"),
		race(some, "del 0 0", "change 0 1"), race(some, "bucket 1", "change 0 1"), race(some, "rmbucket 0", "change 0 1"), race(some, "rmbucket 0", "add 0 1 1"),
		race(some, "add 0 1 1", "add 0 2 1"), race(some, "add 0 1 1", "add 0 1 0"), race(some, "lock", "lock"), race(some, "locked", "lock"),
		race(some, "lock,unlock 0", "add 0 1 1"), race(some, "lock,unlock 0", "change 0 1"), race(some, "change 0 1,lock,unlock 1", "add 0 1 1"),
		race(some+",lock", "unlock 0", "unlock 1"), race(some+",lock", "unlock 0", "unlock 0"), race(some+",lock", "unlock 0,add 0 1 1", "get 0 0"), race(some+",lock", "unlock 0", "lock"),
		race("", "unlock 0", "unlock 1"), race("", "unlock 0,bucket 0", "unlock 0,bucket 1"),
		race(some, "add 0 1 1", "lock", "get 0 0"), race(some, "add 0 1 1", "lock", "change 0 1"), race(some, "change 0 1", "get 0 0", "add 0 1 1"),
	}
	explore.Main(func() *hx.Check { return hx.New("C23", "model_checking") }, scs, func(c *hx.Check) {
		os.RemoveAll(root)
		c.Count("traces_validated_against_impl", c.Get("executions"))
		c.Count("transitions", c.Get("choice_points"))
		c.Count("states", c.Get("distinct_states"))
		c.Finish()
	})
}
