// C12: the wallet secret. Every sequence of vault operations (directly, with
// the real encryption) and of wallet service calls (on both back ends, with
// restarts), and every interleaving of two concurrent calls, against a
// reference that knows the mnemonic, the passphrase and whether it is open.
//
//mc:instr internal/core/application=LE internal/core/domain=LE internal/infrastructure/storage/db/inmemory=LE internal/infrastructure/storage/db/badger=LE
package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/verif/explore"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/tdex-network/tdex-daemon/verif/vsync"
	"github.com/tdex-network/tdex-daemon/verif/world"
)

var bg = context.Background()

var (
	m1 = strings.Join(world.Words, " ")
	m2 = "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about"
)

var mnemonics = map[string]string{"m1": m1, "m2": m2, "bad": "abandon abandon abandon", "none": ""}

func words(n string) []string {
	if mnemonics[n] == "" {
		return nil
	}
	return strings.Split(mnemonics[n], " ")
}

// memo runs the real encryption once per argument.
type memo struct {
	mu   sync.Mutex
	real domain.Encrypter
	enc  map[string]string
	dec  map[string]res
}
type res struct {
	s   string
	err error
}

func (m *memo) Encrypt(t, p string) (string, error) {
	m.mu.Lock()
	s, ok := m.enc[t+"|"+p]
	m.mu.Unlock()
	if ok {
		return s, nil
	}
	s, err := m.real.Encrypt(t, p)
	if err == nil {
		m.mu.Lock()
		m.enc[t+"|"+p] = s
		m.mu.Unlock()
	}
	return s, err
}

func (m *memo) Decrypt(t, p string) (string, error) {
	m.mu.Lock()
	r, ok := m.dec[t+"|"+p]
	m.mu.Unlock()
	if ok {
		return r.s, r.err
	}
	s, err := m.real.Decrypt(t, p)
	m.mu.Lock()
	m.dec[t+"|"+p] = res{s, err}
	m.mu.Unlock()
	return s, err
}

// ref is the wallet as it should be.
type ref struct {
	exists bool
	mn, pw string
	open   bool
}

type op struct {
	name string
	// ref changes the reference and tells the expected answer: 1 accepted, 0 refused, -1 either
	ref func(r *ref) int
	vau func(e *vaultEnv) error
	svc func(e *svcEnv) error
}

type vaultEnv struct{ v *domain.Vault }

func create(m, p string) op {
	return op{name: fmt.Sprintf("create(%s,%s)", m, p), ref: func(r *ref) int {
		if m == "bad" || m == "none" || p == "" {
			return 0
		}
		*r = ref{true, m, p, true}
		return 1
	}, vau: func(e *vaultEnv) error {
		v, err := domain.NewVault(words(m), p, world.Net)
		if err == nil {
			e.v = v
		}
		return err
	}}
}

func unlock(p string) op {
	return op{name: "unlock(" + p + ")", ref: func(r *ref) int {
		if !r.exists {
			return 0
		}
		if r.open {
			return -1
		}
		if p != r.pw {
			return 0
		}
		r.open = true
		return 1
	}, vau: func(e *vaultEnv) error { return e.v.Unlock(p) }, svc: func(e *svcEnv) error { return e.w.Wallet.UnlockWallet(bg, p) }}
}

func change(c, n string) op {
	return op{name: fmt.Sprintf("change(%s,%s)", c, n), ref: func(r *ref) int {
		if !r.exists || r.open || c != r.pw || n == "" {
			return 0
		}
		r.pw = n
		return 1
	}, vau: func(e *vaultEnv) error { return e.v.ChangePassphrase(c, n) }, svc: func(e *svcEnv) error { return e.w.Wallet.ChangePassword(bg, c, n) }}
}

func vaultOps() []op {
	ops := []op{create("m1", "pA"), create("m2", "pAx"), create("bad", "pA"), create("none", "pA"), create("m1", "")}
	for _, p := range []string{"pA", "pAx", ""} {
		ops = append(ops, unlock(p))
		for _, n := range []string{"pA", "pAx", ""} {
			ops = append(ops, change(p, n))
		}
	}
	return append(ops, op{name: "lock", ref: func(r *ref) int { r.open = false; return -1 }, vau: func(e *vaultEnv) error { e.v.Lock(); return nil }})
}

// observe compares the vault with the reference.
func observe(v *domain.Vault, r ref) string {
	if v == nil || !v.IsInitialized() {
		if r.exists {
			return "the wallet is gone"
		}
		return ""
	}
	if v.IsLocked() == r.open {
		return fmt.Sprintf("IsLocked is %v", v.IsLocked())
	}
	w, err := v.GetMnemonicSafe()
	if r.open != (err == nil) {
		return fmt.Sprintf("the mnemonic can be read: %v", err == nil)
	}
	if r.open && strings.Join(w, " ") != mnemonics[r.mn] {
		return fmt.Sprintf("the mnemonic is %v", w)
	}
	if !r.open && len(w) > 0 {
		return "the mnemonic is given out with the error"
	}
	if !r.open {
		if _, err := v.DeriveNextExternalAddressForAccount(0); err == nil {
			return "addresses can be derived while locked"
		}
		if _, err := v.DeriveNextInternalAddressForAccount(0); err == nil {
			return "addresses can be derived while locked"
		}
		if l := domain.MnemonicStoreManager.Get(); len(l) > 0 && strings.Join(l, "") != "" {
			return "the store still holds the mnemonic while locked"
		}
	}
	if _, stub := domain.EncrypterManager.(world.Enc); !stub && strings.Contains(v.EncryptedMnemonic, mnemonics[r.mn]) {
		return "the mnemonic is stored in the clear"
	}
	return ""
}

func answer(want int, err error) bool { return want < 0 || (want == 1) == (err == nil) }

func partVault(c *hx.Check) {
	en := &memo{real: domain.EncrypterManager, enc: map[string]string{}, dec: map[string]res{}}
	domain.EncrypterManager = en
	defer func() { domain.EncrypterManager = world.Enc{} }()
	// the expensive part, ahead and side by side
	pairs := [][2]string{{m1, "pA"}, {m1, "pAx"}, {m2, "pA"}, {m2, "pAx"}}
	c.Par(len(pairs), func(i int) {
		s, err := en.Encrypt(pairs[i][0], pairs[i][1])
		if err != nil {
			c.Fail("encrypt", "a mnemonic could not be encrypted: "+err.Error(), nil)
			return
		}
		en.Decrypt(s, "pA")
	})
	c.Par(len(pairs), func(i int) {
		if s, err := en.Encrypt(pairs[i][0], pairs[i][1]); err == nil {
			en.Decrypt(s, "pAx")
		}
	})
	ops := vaultOps()
	depth := 3
	if c.Thorough() {
		depth = 4
	}
	n := len(ops)
	seen := map[ref]bool{}
	var walk func(path []int)
	run := func(path []int) bool {
		e := &vaultEnv{v: &domain.Vault{}}
		domain.MnemonicStoreManager.Unset()
		r := ref{}
		for i, o := range path {
			before := r
			want := ops[o].ref(&r)
			if want == 0 {
				r = before
			}
			var err error
			p, st := hx.Catch(func() { err = ops[o].vau(e) })
			if i < len(path)-1 {
				if p != nil || !answer(want, err) {
					return false
				}
				continue
			}
			c.Count("transitions", 1)
			c.Count("traces_validated_against_impl", 1)
			if !seen[r] {
				seen[r] = true
				c.Count("states", 1)
			}
			h := names(ops, path)
			rep := map[string]interface{}{"part": "vault", "history": h}
			if p != nil {
				c.Fail("vault.panic", fmt.Sprintf("vault: %v panicked: %v at %s", h, p, st), rep)
				return false
			}
			if !answer(want, err) {
				c.Fail("vault.answer", fmt.Sprintf("vault: after %v, %s answered %v", h[:len(h)-1], h[len(h)-1], err), rep)
				return false
			}
			if why := observe(e.v, r); why != "" {
				c.Fail("vault.state", fmt.Sprintf("vault: after %v, should be %+v: %s", h, r, why), rep)
				return false
			}
		}
		return true
	}
	walk = func(path []int) {
		if len(path) == depth {
			return
		}
		if c.Expired() {
			c.Cap("vault: sequences of the full depth")
			return
		}
		for o := 0; o < n; o++ {
			p := append(append([]int{}, path...), o)
			if run(p) {
				walk(p)
			}
		}
	}
	walk(nil)
	c.Info("depth_vault", depth)
	c.Outcome(fmt.Sprintf("vault: %d states", len(seen)))
}

func names(ops []op, path []int) []string {
	out := []string{}
	for _, p := range path {
		out = append(out, ops[p].name)
	}
	return out
}

// ---- the wallet service ------------------------------------------------

type svcEnv struct {
	w     *world.World
	stop  chan bool
	fresh bool
}

func newSvc(badger bool) *svcEnv {
	e := &svcEnv{w: world.New(world.Opts{Badger: badger, NoVault: true, WithOps: true})}
	e.w.Mnem.Unset()
	return e
}

func (e *svcEnv) drain() {
	for {
		select {
		case <-e.w.Wallet.PassphraseChan():
			continue
		default:
			return
		}
	}
}

func initw(m, p string) op {
	return op{name: fmt.Sprintf("init(%s,%s)", m, p), ref: func(r *ref) int {
		if r.exists {
			return -1 // does nothing
		}
		if m == "bad" || m == "none" || p == "" {
			return 0
		}
		*r = ref{true, m, p, false}
		return 1
	}, svc: func(e *svcEnv) error {
		res, errs := make(chan *application.InitWalletReply, 64), make(chan error, 8)
		e.w.Wallet.InitWallet(bg, words(m), p, false, res, errs)
		return <-errs
	}}
}

func svcOps() []op {
	ops := []op{initw("m1", "pA"), initw("m2", "pAx"), initw("bad", "pA"), initw("none", "pA"), initw("m1", "")}
	for _, p := range []string{"pA", "pAx", ""} {
		ops = append(ops, unlock(p))
		for _, n := range []string{"pA", "pAx", ""} {
			if n != "" { // the cheap encryption takes any passphrase
				ops = append(ops, change(p, n))
			}
		}
	}
	return append(ops, op{name: "restart", ref: func(r *ref) int { r.open = false; return 1 }, svc: func(e *svcEnv) error {
		e.w.Mnem.Unset()
		e.w.Restart()
		return nil
	}})
}

func (e *svcEnv) observe(r ref) string {
	v, err := e.w.Repo.VaultRepository().GetOrCreateVault(bg, nil, "", nil)
	if err != nil {
		v = nil
	}
	if why := observe(v, r); why != "" {
		return why
	}
	a, _, err := e.w.Wallet.GenerateAddressAndBlindingKey(bg)
	if (err == nil) != r.open || (err != nil && a != "") {
		return fmt.Sprintf("an address can be had: %v", err == nil)
	}
	if _, err := e.w.Trade.GetTradableMarkets(bg); (err == nil) != r.open {
		return fmt.Sprintf("the trade service answers: %v", err == nil)
	}
	return ""
}

func partService(c *hx.Check, depth [2]int) {
	ops := svcOps()
	seen := map[ref]bool{}
	for b, back := range []string{"in-memory", "persistent"} {
		var cur *svcEnv
		run := func(path []int) bool {
			if cur != nil {
				cur.w.Close()
			}
			e := newSvc(b == 1)
			cur = e
			r := ref{}
			for i, o := range path {
				before := r
				want := ops[o].ref(&r)
				if want == 0 {
					r = before
				}
				var err error
				p, st := hx.Catch(func() { err = ops[o].svc(e) })
				e.drain()
				if i < len(path)-1 {
					if p != nil || !answer(want, err) {
						return false
					}
					continue
				}
				c.Count("transitions", 1)
				c.Count("traces_validated_against_impl", 1)
				if !seen[r] {
					seen[r] = true
					c.Count("states", 1)
				}
				h := names(ops, path)
				rep := map[string]interface{}{"part": "wallet service", "backend": back, "history": h}
				if p != nil {
					c.Fail("service.panic", fmt.Sprintf("wallet service, %s: %v panicked: %v at %s", back, h, p, st), rep)
					return false
				}
				if !answer(want, err) {
					c.Fail("service.answer", fmt.Sprintf("wallet service, %s: after %v, %s answered %v", back, h[:len(h)-1], h[len(h)-1], err), rep)
					return false
				}
				if why := e.observe(r); why != "" {
					c.Fail("service.state", fmt.Sprintf("wallet service, %s: after %v, should be %+v: %s", back, h, r, why), rep)
					return false
				}
			}
			return true
		}
		var walk func(path []int)
		walk = func(path []int) {
			if len(path) == depth[b] {
				return
			}
			if c.Expired() {
				c.Cap(back + ": wallet service sequences of the full depth")
				return
			}
			for o := range ops {
				p := append(append([]int{}, path...), o)
				if run(p) {
					walk(p)
				}
			}
		}
		walk(nil)
		if cur != nil {
			cur.w.Close()
		}
		c.Info("depth_service_"+back, depth[b])
	}
	c.Outcome(fmt.Sprintf("service: %d states", len(seen)))
}

// ---- races -------------------------------------------------------------

func races() []*explore.Scenario {
	out := []*explore.Scenario{}
	mk := func(badger bool, cs ...op) {
		back := "in-memory"
		if badger {
			back = "persistent"
		}
		nm := []string{}
		for _, o := range cs {
			nm = append(nm, o.name)
		}
		bound := 2
		if badger {
			bound = 1
		}
		out = append(out, &explore.Scenario{
			Name: back + ": " + strings.Join(nm, " || "), Bound: bound, ThoroughBound: bound + 1,
			Quantum: time.Second, Ticks: 1,
			Sched: vsync.Config{Points: []string{"E:internal/core/domain", "E:internal/infrastructure/storage/db/inmemory", "E:internal/infrastructure/storage/db/badger", "L:*"}},
			Setup: func(x *explore.Exec) {
				e := newSvc(badger)
				x.V["e"] = e
				if err := initw("m1", "pA").svc(e); err != nil {
					panic(err)
				}
				e.drain()
				x.Settle()
				go func() {
					for range e.w.Wallet.PassphraseChan() {
					}
				}()
				errs := make([]error, len(cs))
				x.V["errs"] = errs
				for i := range cs {
					i := i
					x.Thread(cs[i].name, func() { errs[i] = cs[i].svc(e) })
				}
			},
			Final: func(x *explore.Exec) {
				e := x.V["e"].(*svcEnv)
				errs := x.V["errs"].([]error)
				defer e.w.Close()
				defer close(e.w.Wallet.PassphraseChan())
				why := ""
				for _, order := range [][]int{{0, 1}, {1, 0}} {
					r := ref{true, "m1", "pA", false}
					ok := true
					for _, i := range order {
						n := r
						w := cs[i].ref(&n)
						if w != 0 {
							r = n
						}
						ok = ok && answer(w, errs[i])
					}
					if !ok {
						continue
					}
					open := r
					if why = e.observe(r); why == "" {
						// the passphrase that counts
						e.w.Mnem.Unset()
						for _, p := range []string{"pA", "pAx", "pB"} {
							v, err := e.w.Repo.VaultRepository().GetOrCreateVault(bg, nil, "", nil)
							if err != nil {
								x.Fail("race", "no wallet: %v", err)
								return
							}
							if got := v.Unlock(p) == nil; got != (p == r.pw) {
								why = fmt.Sprintf("the passphrase %s unlocks: %v", p, got)
							}
							e.w.Mnem.Unset()
						}
						if open.open {
							e.w.Mnem.Set(m1)
						}
					}
					if why == "" {
						x.Outcome("%v %+v", errs, r)
						return
					}
				}
				x.Fail("race", "%v answered %v: no order of the calls explains that (%s)", nm, errs, why)
			},
		})
	}
	for _, b := range []bool{false, true} {
		mk(b, unlock("pA"), change("pA", "pAx"))
		mk(b, change("pA", "pAx"), change("pA", "pB"))
		mk(b, unlock("pA"), unlock("pB"))
	}
	return out
}

var _ = errors.New

func main() {
	explore.Main(func() *hx.Check {
		c := hx.New("C12", "model_checking")
		partVault(c)
		d := [2]int{3, 2}
		if c.Thorough() {
			d = [2]int{4, 3}
		}
		partService(c, d)
		c.Assume("the reply to unlock when already unlocked, and to init when already initialised, is not constrained: nothing may change")
		return c
	}, races(), func(c *hx.Check) {
		c.Count("transitions", c.Get("choice_points"))
		c.Count("traces_validated_against_impl", c.Get("executions"))
		c.Sample(map[string]interface{}{"history": []string{"create(m1,pA)", "lock", "change(pA,pAx)", "unlock(pA)"}})
		c.Info("rule", "every sequence of operations up to the depth (no state merging); all interleavings of two calls up to the bound")
		c.Finish()
	})
}
