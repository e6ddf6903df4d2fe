// C24: credentials. (1) Every history, up to a depth, of the credential store:
// unlocking, baking, renewing and deleting root keys, changing the password,
// failures of the disk and restarts, with every image of the file that a crash
// may leave; (2) every interleaving, up to a number of delays, of concurrent
// operations against the serial orders; (3) on the real gRPC servers: every
// request with every credential and alteration of it, in every state of the
// files at the start and after every history, up to a depth, of initialising,
// unlocking, changing the password and restarting the daemon.
//
//mc:instr pkg/macaroons=LGSK
package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/tdex-network/tdex-daemon/pkg/macaroons"
	"github.com/tdex-network/tdex-daemon/verif/disk"
	"github.com/tdex-network/tdex-daemon/verif/explore"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/tdex-network/tdex-daemon/verif/vsync"
	"google.golang.org/grpc/metadata"
	"gopkg.in/macaroon-bakery.v2/bakery"
)

var (
	ctx    = context.Background()
	passes = []string{"the first password", "a second, other password"}
	reads  = bakery.Op{Entity: "market", Action: "read"}
	writes = bakery.Op{Entity: "market", Action: "write"}
)

// model of the store of root keys: which versions of them exist.
type model struct {
	unlocked, closed bool
	pwd              string // "" when there is none yet
	keys             map[string]int
	next             int
	baked            []mac // the credentials issued so far
}

type mac struct {
	id  string
	ver int
}

func newModel() *model { return &model{keys: map[string]int{}} }

func (m *model) clone() *model {
	o := *m
	o.keys = map[string]int{}
	for k, v := range m.keys {
		o.keys[k] = v
	}
	o.baked = append([]mac(nil), m.baked...)
	return &o
}

func (m *model) valid(c mac) bool { return m.keys[c.id] == c.ver }

func (m *model) stored() string {
	var ids []string
	for id := range m.keys {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	var ok []string
	for _, c := range m.baked {
		ok = append(ok, fmt.Sprint(m.valid(c)))
	}
	return fmt.Sprintf("password %q: keys %q, valid %v", m.pwd, ids, ok)
}

// digest of the state, without the history in the versions.
func (m *model) digest() string {
	var ok []string
	seen := map[string]bool{}
	for _, c := range m.baked {
		s := fmt.Sprint(c.id, m.valid(c))
		if !seen[s] {
			seen[s] = true
			ok = append(ok, s)
		}
	}
	sort.Strings(ok)
	var ids []string
	for id := range m.keys {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return fmt.Sprint(m.unlocked, m.pwd, ids, ok)
}

type op []string

func (o op) String() string { return strings.Join(o, " ") }

func parse(s ...string) (out []op) {
	for _, x := range s {
		out = append(out, strings.Fields(x))
	}
	return
}

// arg is a password, by index, or an id.
func arg(s string) string {
	switch s {
	case "p":
		return passes[0]
	case "q":
		return passes[1]
	case "e", "-":
		return ""
	}
	return s
}

// do is the reference.
func (m *model) do(o op) string {
	if m.closed && o[0] != "check" && o[0] != "close" {
		return "error"
	}
	switch o[0] {
	case "unlock":
		if m.unlocked || o[1] == "-" {
			return "error"
		}
		p := arg(o[1])
		if m.pwd != "" && m.pwd != p {
			return "error"
		}
		m.pwd, m.unlocked = p, true
		return "ok"
	case "close":
		m.unlocked, m.closed = false, true
		return "ok"
	case "state":
		if !m.unlocked {
			return "locked"
		}
		return m.stored()
	case "check":
		for _, c := range m.baked {
			if fmt.Sprint(c.id) == o[1] {
				if m.unlocked && m.valid(c) {
					return "valid"
				}
				return "refused"
			}
		}
		return "none"
	}
	if !m.unlocked {
		return "error"
	}
	switch o[0] {
	case "change":
		if o[1] == "-" || o[2] == "-" || m.pwd != arg(o[1]) {
			return "error"
		}
		m.pwd = arg(o[2])
	case "renew":
		m.next++
		m.keys["0"] = m.next
	case "bake":
		id := arg(o[1])
		if id == "" || id == "enckey" {
			return "error"
		}
		if m.keys[id] == 0 {
			m.next++
			m.keys[id] = m.next
		}
		m.baked = append(m.baked, mac{id, m.keys[id]})
	case "del":
		id := arg(o[1])
		if id == "" || id == "enckey" || id == "0" {
			return "error"
		}
		ok := m.keys[id] != 0
		delete(m.keys, id)
		return fmt.Sprint(ok)
	case "list":
		var ids []string
		for id := range m.keys {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		return fmt.Sprintf("%q", ids)
	default:
		panic(o.String())
	}
	return "ok"
}

const file = "macaroons.db"

// store is a real one on a file whose writes are recorded.
type store struct {
	*disk.Disk
	dir   string
	s     *macaroons.Service
	mu    sync.Mutex
	baked []baked
}

type baked struct {
	id  string
	hex string
}

func newStore() *store {
	d := &store{dir: tmp()}
	d.Disk = disk.On(filepath.Join(d.dir, file))
	d.open()
	return d
}

func (d *store) open() {
	s, err := macaroons.NewService(d.dir, "tdexd", file, false, macaroons.IPLockChecker)
	if err != nil {
		panic(err)
	}
	d.s = s
}

func (d *store) drop() {
	d.s.Close()
	d.Off()
	os.RemoveAll(d.dir)
}

func validate(s *macaroons.Service, macs []string, method string, ops ...bakery.Op) error {
	c := metadata.NewIncomingContext(ctx, metadata.MD{"macaroon": macs})
	return s.ValidateMacaroon(c, ops, method)
}

func bytesOf(s, spec string) []byte {
	if spec == "-" {
		return nil
	}
	return []byte(s)
}

func scribble(bs ...[]byte) {
	for _, b := range bs {
		for i := range b {
			b[i] = 'X'
		}
	}
}

// run is do on a real store.
func (d *store) run(o op) (res string) {
	res = "ok"
	fail := func(err error) {
		if err != nil {
			res = "error"
		}
	}
	switch o[0] {
	case "unlock":
		if o[1] == "-" {
			fail(d.s.CreateUnlock(nil))
			return
		}
		p := []byte(arg(o[1]))
		fail(d.s.CreateUnlock(&p))
		scribble(p)
	case "close":
		d.s.Close()
	case "change":
		p, q := bytesOf(arg(o[1]), o[1]), bytesOf(arg(o[2]), o[2])
		fail(d.s.ChangePassword(p, q))
		scribble(p, q)
	case "renew":
		fail(d.s.GenerateNewRootKey())
	case "bake":
		id := bytesOf(arg(o[1]), o[1])
		m, err := d.s.NewMacaroon(ctx, id, reads)
		scribble(id)
		fail(err)
		if err == nil {
			b, err := m.M().MarshalBinary()
			if err != nil {
				panic(err)
			}
			d.mu.Lock()
			d.baked = append(d.baked, baked{arg(o[1]), fmt.Sprintf("%x", b)})
			d.mu.Unlock()
		}
	case "del":
		id := bytesOf(arg(o[1]), o[1])
		got, err := d.s.DeleteMacaroonID(ctx, id)
		if err != nil {
			return "error"
		}
		if got != nil && string(got) != arg(o[1]) {
			return fmt.Sprintf("deleted %q", got)
		}
		return fmt.Sprint(got != nil)
	case "list":
		ids, err := d.s.ListMacaroonIDs(ctx)
		if err != nil {
			return "error"
		}
		var out []string
		for _, id := range ids {
			out = append(out, string(id))
			scribble(id)
		}
		sort.Strings(out)
		return fmt.Sprintf("%q", out)
	case "check":
		for _, b := range d.all() {
			if b.id == o[1] {
				if validate(d.s, []string{b.hex}, "/m", reads) == nil {
					return "valid"
				}
				return "refused"
			}
		}
		return "none"
	case "state":
		return d.state(d.s)
	default:
		panic(o.String())
	}
	return
}

func (d *store) all() []baked {
	d.mu.Lock()
	defer d.mu.Unlock()
	return append([]baked{}, d.baked...)
}

// state of a store: which of the credentials issued so far it takes.
func (d *store) state(s *macaroons.Service) string {
	ids, err := s.ListMacaroonIDs(ctx)
	if err != nil {
		for _, b := range d.all() {
			if validate(s, []string{b.hex}, "/m", reads) == nil {
				return "a credential is valid though the store is locked"
			}
		}
		return "locked"
	}
	var l, ok []string
	for _, id := range ids {
		l = append(l, string(id))
	}
	sort.Strings(l)
	for _, b := range d.all() {
		ok = append(ok, fmt.Sprint(validate(s, []string{b.hex}, "/m", reads) == nil))
	}
	return fmt.Sprintf("keys %q, valid %v", l, ok)
}

// opened tells what is in the file and with which password.
func (d *store) opened(im disk.Image) (state string) {
	dir := tmp()
	defer os.RemoveAll(dir)
	if err := os.WriteFile(filepath.Join(dir, file), im, 0o600); err != nil {
		panic(err)
	}
	p, st := hx.Catch(func() {
		s, err := macaroons.NewService(dir, "tdexd", file, false)
		if err != nil {
			state = "does not open: " + err.Error()
			return
		}
		defer s.Close()
		for _, p := range append([]string{"no password"}, passes...) {
			b := []byte(p)
			if err := s.CreateUnlock(&b); err == nil {
				if p == "no password" {
					p = "" // it had none
				}
				state = fmt.Sprintf("password %q: %s", p, d.state(s))
				return
			}
			if r := d.state(s); r != "locked" {
				state = fmt.Sprintf("%s after a refused password", r)
				return
			}
		}
		state = "no password opens it"
	})
	if p != nil {
		return fmt.Sprintf("panic: %v %s", p, st)
	}
	return
}

// forged credentials, made without any key of the store.
var forged = func() (out []string) {
	for _, key := range [][]byte{make([]byte, 32), {}, []byte("enckey"), []byte("0")} {
		for _, id := range []string{"0", "1", "2", "enckey", "macrootkeys"} {
			out = append(out, bake(key, id, reads))
		}
	}
	return
}()

type keyed struct {
	key []byte
	id  string
}

func (k keyed) Get(context.Context, []byte) ([]byte, error)     { return k.key, nil }
func (k keyed) RootKey(context.Context) ([]byte, []byte, error) { return k.key, []byte(k.id), nil }

// bake makes a credential with a root key of one's own.
func bake(key []byte, id string, ops ...bakery.Op) string {
	b := bakery.New(bakery.BakeryParams{Location: "tdexd", RootKeyStore: keyed{key, id}})
	m, err := b.Oven.NewMacaroon(ctx, bakery.LatestVersion, nil, ops...)
	if err != nil {
		panic(err)
	}
	bin, err := m.M().MarshalBinary()
	if err != nil {
		panic(err)
	}
	return fmt.Sprintf("%x", bin)
}

var scratch struct {
	sync.Mutex
	root string
	n    int
}

func tmp() string {
	scratch.Lock()
	scratch.n++
	d := filepath.Join(scratch.root, fmt.Sprint(scratch.n))
	scratch.Unlock()
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

func histories(bound, deep int) *explore.Scenario {
	all := strings.Split("unlock p,unlock q,unlock -,bake 0,bake 1,bake enckey,bake e,bake -,renew,del 1,del 0,del enckey,del e,del none,list,"+
		"change p q,change q p,change p p,change - q,change p -,restart,"+
		"fail 0 change p q,fail 1 change p q,fail 2 change p q,fail 0 renew,fail 1 renew,fail 0 bake 1,fail 1 bake 0,fail 0 unlock p,fail 1 unlock p,fail 0 del 1", ",")
	return &explore.Scenario{Name: "store", Ops: all, Bound: bound, ThoroughBound: deep, Weight: 8, Hist: func(x *explore.Exec, path []int) {
		d := newStore()
		defer d.drop()
		m := newModel()
		for k, p := range path {
			o := parse(all[p])[0]
			last := k == len(path)-1
			x.Log("%s", o)
			was := m.clone()
			d.Rec, d.Log = last, nil
			switch o[0] {
			case "restart":
				if err := d.s.Close(); err != nil {
					x.Fail("close", "%v", err)
				}
				if s := d.state(d.s); s != "locked" {
					x.Fail("closed", "a closed store: %s", s)
				}
				m.unlocked = false
				d.open()
			case "fail":
				n := int(o[1][0] - '0')
				before := d.Errs
				d.Fail = n
				got := d.run(o[2:])
				d.Fail = -1
				if d.Errs == before {
					if !last {
						panic("not repeatable: " + o.String())
					}
					x.Disabled()
					return
				}
				if got != "error" {
					x.Fail("result", "%s: %s though the disk failed", o, got)
				}
				x.Count("disk_failures", 1)
			default:
				want := m.do(o)
				if got := d.run(o); got != want {
					x.Fail("result", "%s: %s, not %s", o, got, want)
				}
			}
			if !last {
				continue
			}
			want := "locked"
			if m.unlocked {
				want = m.stored()
				want = want[strings.Index(want, ": ")+2:]
			}
			if got := d.state(d.s); got != want {
				x.Fail("read", "%s: %s, not %s", o, got, want)
			}
			for _, f := range forged {
				if validate(d.s, []string{f}, "/m", reads) == nil {
					x.Fail("forged", "%s: a credential baked elsewhere is valid", o)
				}
			}
			for _, b := range d.all() {
				if validate(d.s, []string{b.hex}, "/m", writes) == nil {
					x.Fail("permission", "%s: a credential to read may write", o)
				}
			}
			x.Count("credentials_checked", len(forged)+2*len(d.baked))
			d.Rec = false
			// a crash before the end leaves the old or the new content, one
			// after it the new; of the credentials all have been seen
			was.baked = m.baked
			seen := map[string]bool{}
			try := func(im disk.Image, may ...string) {
				if seen[string(im)] {
					return
				}
				seen[string(im)] = true
				got := d.opened(im)
				ok := false
				for _, s := range may {
					ok = ok || got == s
				}
				if !ok {
					x.Fail("crash", "%s: a crash leaves %s, not %s", o, got, strings.Join(may, " or "))
				}
			}
			for _, im := range d.Log {
				try(im, was.stored(), m.stored())
			}
			after := &disk.Disk{File: d.File, Pend: d.Pend}
			for _, im := range after.Images() {
				delete(seen, string(im))
				try(im, m.stored())
			}
			x.Count("crash_points", len(d.Log)+1)
			x.Count("distinct_crash_images", len(seen))
		}
		x.State(m.digest())
		x.Outcome("%v %v %d keys", m.unlocked, m.pwd != "", len(m.keys))
	}}
}

// race runs operations at once: together with the state they leave their
// results are those of one of the serial orders.
func race(before string, threads ...string) *explore.Scenario {
	var pre []op
	if before != "" {
		pre = parse(strings.Split(before, ",")...)
	}
	var progs [][]op
	for _, t := range threads {
		progs = append(progs, parse(strings.Split(t, ",")...))
	}
	initial := newModel()
	for _, o := range pre {
		initial.do(o)
	}
	show := func(pwd string, keys, checks string) string { return pwd + " " + keys + " " + checks }
	checks := parse("check 0", "check 1")
	legal := map[string]bool{}
	var rec func(m *model, at []int, res []string)
	rec = func(m *model, at []int, res []string) {
		done := true
		for i, p := range progs {
			if at[i] == len(p) {
				continue
			}
			done = false
			m2 := m.clone()
			at2 := append([]int{}, at...)
			res2 := append([]string{}, res...)
			res2[i] += m2.do(p[at[i]]) + ", "
			at2[i]++
			rec(m2, at2, res2)
		}
		if done {
			m2 := m.clone()
			now := m2.do(op{"list"})
			c := m2.do(checks[0]) + " " + m2.do(checks[1])
			// those baked by the threads are judged after a restart too: their
			// order among the threads does not matter
			m2.closed, m2.unlocked = false, m2.pwd != ""
			var ok []string
			for _, b := range m2.baked {
				ok = append(ok, fmt.Sprint(b.id, m2.valid(b)))
			}
			sort.Strings(ok)
			legal[show(fmt.Sprintf("%q %q %s", res, m2.pwd, now), m2.do(op{"list"}), fmt.Sprint(c, ok))] = true
		}
	}
	rec(initial, make([]int, len(progs)), make([]string, len(progs)))

	return &explore.Scenario{Name: before + " then " + strings.Join(threads, " || "), Bound: 2, ThoroughBound: 3, Delay: true, Quantum: time.Second, Ticks: 2,
		Sched: vsync.Config{Points: []string{"S:pkg/macaroons", "L:*"}},
		Setup: func(x *explore.Exec) {
			d := newStore()
			x.V["d"] = d
			for _, o := range pre {
				d.run(o)
			}
			res := make([]string, len(progs))
			x.V["res"] = res
			for i, p := range progs {
				i, p := i, p
				x.Thread(fmt.Sprint(i), func() {
					for _, o := range p {
						res[i] += d.run(o) + ", "
					}
				})
			}
		},
		Final: func(x *explore.Exec) {
			d := x.V["d"].(*store)
			defer d.drop()
			now := d.run(op{"list"})
			c := d.run(checks[0]) + " " + d.run(checks[1])
			d.s.Close()
			d.open()
			pwd := "none"
			for _, p := range passes {
				b := []byte(p)
				if d.s.CreateUnlock(&b) == nil {
					pwd = p
					break
				}
			}
			var ok []string
			for _, b := range d.all() {
				ok = append(ok, fmt.Sprint(b.id, validate(d.s, []string{b.hex}, "/m", reads) == nil))
			}
			sort.Strings(ok)
			got := show(fmt.Sprintf("%q %q %s", x.V["res"], pwd, now), d.run(op{"list"}), fmt.Sprint(c, ok))
			if !legal[got] {
				var all []string
				for l := range legal {
					all = append(all, l)
				}
				sort.Strings(all)
				x.Fail("serial", "%s, which no order gives: %s", got, strings.Join(all, " | "))
			}
			x.Outcome("%s", got)
		}}
}

func main() {
	// the workers share a directory
	root := os.Getenv("C24_ROOT")
	if root == "" {
		var err error
		if root, err = os.MkdirTemp("/dev/shm", "c24-"); err != nil {
			root = hx.Tmp("c24")
		}
		os.Setenv("C24_ROOT", root)
	}
	scratch.root = filepath.Join(root, fmt.Sprint(os.Getpid()))
	const some = "unlock p,bake 0,bake 1"
	scs := []*explore.Scenario{
		histories(6, 9),
		race(some, "check 1", "change p q"), race(some, "check 1", "close"), race(some, "check 0", "renew"), race(some, "check 1", "del 1"),
		race(some, "bake 1", "change p q"), race(some, "bake 2", "change p q"), race(some, "bake 2", "bake 2"), race(some, "bake 2", "close"), race(some, "bake 1", "del 1"),
		race(some, "renew", "change p q"), race(some, "renew", "bake 0"), race(some, "renew", "close"), race(some, "del 1", "change p q"),
		race(some, "change p q", "change p q"), race(some, "change p q", "close"), race(some, "list", "change p q"), race(some, "list", "close"),
		race("", "unlock p", "unlock q"), race("", "unlock p,bake 0", "unlock p,bake 0"), race("unlock p,bake 0", "close", "change p q", "check 0"),
		race(some, "change p q", "renew", "check 0"), race(some, "bake 2", "del 2", "list"),
	}
	scs = append(scs, daemon()...)
	explore.Main(func() *hx.Check { return hx.New("C24", "model_checking") }, scs, func(c *hx.Check) {
		os.RemoveAll(root)
		c.Count("traces_validated_against_impl", c.Get("executions"))
		c.Count("transitions", c.Get("choice_points"))
		c.Count("states", c.Get("distinct_states"))
		c.Finish()
	})
}
