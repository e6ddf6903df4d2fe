// C13: addresses. Every history of requests that derive addresses (also with
// the storage failing and across restarts), and every interleaving of two or
// three of them, on the real services over both back ends: whatever is handed
// out has to be new, of the right account and remembered.
//
//mc:instr internal/core/application=LGE internal/core/domain=L internal/infrastructure/storage/db/inmemory=LSE internal/infrastructure/storage/db/badger=LSE pkg/wallet=M
package main

import (
	"context"
	"encoding/hex"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/pkg/wallet"
	"github.com/tdex-network/tdex-daemon/verif/explore"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/tdex-network/tdex-daemon/verif/vsync"
	"github.com/tdex-network/tdex-daemon/verif/world"
	"github.com/vulpemventures/go-elements/address"
	"github.com/vulpemventures/go-elements/transaction"
)

var bg = context.Background()

// given is an address that left the daemon.
type given struct {
	what     string
	accounts []int  // it may belong to
	addr     string // confidential, or
	script   string
	key      string // blinding key, if told
	chain    int    // 0 external, 1 internal, -1 either
}

type env struct {
	w     *world.World
	mu    sync.Mutex
	given []given
	n     int // proposals
	fresh int // markets made by deposits
	ups   int
}

func (e *env) give(gs ...given) {
	e.mu.Lock()
	e.given = append(e.given, gs...)
	e.mu.Unlock()
}

func newEnv(badger bool) *env {
	o := world.Opts{Badger: badger, Markets: 1, Prepare: world.FlatMarket, Slippage: decimal.NewFromFloat(0.5), Gated: true, WithOps: true, Coins: []world.Coin{
		{Account: world.Account(0), Asset: world.Quote(0), Value: 100},
		{Account: world.Account(0), Asset: world.Quote(0), Value: 100},
		{Account: world.Account(0), Asset: world.Base, Value: 5000},
		{Account: domain.FeeAccount, Asset: world.LBTC, Value: 120},
		{Account: domain.FeeAccount, Asset: world.LBTC, Value: 120},
	}}
	e := &env{w: world.New(o)}
	for a, infos := range e.w.Addr {
		for _, in := range infos {
			e.given = append(e.given, given{what: "set-up", accounts: []int{a}, addr: in.Address, key: hex.EncodeToString(in.BlindingKey)})
		}
	}
	sort.Slice(e.given, func(i, j int) bool { return e.given[i].addr < e.given[j].addr })
	e.w.Listener.StartObservation()
	return e
}

func (e *env) list(what string, acc []int, l []application.AddressAndBlindingKey) {
	for _, a := range l {
		e.give(given{what: what, accounts: acc, addr: a.Address, key: a.BlindingKey})
	}
}

// do runs a request and returns what it answered.
func (e *env) do(op string) error {
	var name string
	var n int
	fmt.Sscan(op, &name, &n)
	w := e.w
	switch name {
	case "deposit-market":
		l, err := w.Operator.DepositMarket(bg, world.Base, world.Quote(0), n)
		e.list(op, []int{world.Account(0)}, l)
		if err == nil && len(l) != n {
			return fmt.Errorf("%d addresses instead of %d", len(l), n)
		}
		return err
	case "deposit-new":
		l, err := w.Operator.DepositMarket(bg, "", "", n)
		e.mu.Lock()
		group := fmt.Sprintf("new market #%d", e.fresh)
		e.fresh++
		e.mu.Unlock()
		for _, a := range l {
			e.give(given{what: group, addr: a.Address, key: a.BlindingKey})
		}
		return err
	case "deposit-fee":
		l, err := w.Operator.DepositFeeAccount(bg, n)
		e.list(op, []int{domain.FeeAccount}, l)
		return err
	case "receive":
		a, k, err := w.Wallet.GenerateAddressAndBlindingKey(bg)
		if err == nil {
			e.give(given{what: op, accounts: []int{domain.WalletAccount}, addr: a, key: k})
		}
		return err
	case "propose":
		e.mu.Lock()
		e.n++
		n := e.n
		e.mu.Unlock()
		s := w.Propose(n, 0)
		if !s.Accepted {
			return fmt.Errorf("refused: %s %v", s.Refusal, s.Err)
		}
		t, err := transaction.NewTxFromHex(s.Raw)
		if err != nil {
			panic(err)
		}
		for i := 1; i < len(t.Outputs); i++ {
			acc := []int{world.Account(0), domain.FeeAccount}
			e.give(given{what: fmt.Sprintf("output %d of a swap", i), accounts: acc, script: hex.EncodeToString(t.Outputs[i].Script)})
		}
		return nil
	case "unlock":
		return w.Wallet.UnlockWallet(bg, world.Pass)
	case "restart":
		w.Restart()
		w.Listener.StartObservation()
		return nil
	case "wait":
		time.Sleep(200 * time.Second)
		return nil
	}
	panic(op)
}

// failing makes the n-th write fail.
func (e *env) failing(n int) {
	k := 0
	e.w.Gate.Fault = func(call string) error {
		if call == "UpdateVault" || call == "RunTransaction" || call == "GetOrCreateMarket" {
			k++
			if k == n {
				return world.ErrFault
			}
		}
		return nil
	}
}

// judge says what is wrong with the addresses handed out so far.
func (e *env) judge() (sig, msg string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	v, err := e.w.Repo.VaultRepository().GetOrCreateVault(bg, nil, "", nil)
	if err != nil {
		return "vault", err.Error()
	}
	byScript := map[string]domain.AddressInfo{}
	byPath := map[string]string{}
	for _, in := range v.AllDerivedAddressesInfo() {
		byScript[in.Script] = in
		if o, ok := byPath[in.DerivationPath]; ok {
			return "path", fmt.Sprintf("addresses %s and %s are both recorded for path %s", o, in.Address, in.DerivationPath)
		}
		byPath[in.DerivationPath] = in.Address
	}
	derived := map[string]bool{}
	for a := range v.Accounts {
		l, err := v.AllDerivedAddressesInfoForAccount(a)
		if err != nil {
			return "list", err.Error()
		}
		for _, in := range l {
			derived[in.Script] = true
			got, ok := byScript[in.Script]
			if !ok || got.AccountIndex != a || got.DerivationPath != in.DerivationPath || string(got.BlindingKey) != string(in.BlindingKey) {
				return "views", fmt.Sprintf("the vault lists %s as %s of account %d, but by address as %+v", in.Address, in.DerivationPath, a, got)
			}
		}
	}
	for s, in := range byScript {
		if !derived[s] {
			return "views", fmt.Sprintf("address %s (%s) is not listed for its account %d", in.Address, in.DerivationPath, in.AccountIndex)
		}
	}
	ww, err := wallet.NewWalletFromMnemonic(wallet.NewWalletFromMnemonicOpts{SigningMnemonic: world.Words})
	if err != nil {
		panic(err)
	}
	used := map[string]string{}
	groups := map[string]int{}
	for _, g := range e.given {
		script := g.script
		if script == "" {
			b, err := address.ToOutputScript(g.addr)
			if err != nil {
				return "malformed", fmt.Sprintf("%s handed out %q: %v", g.what, g.addr, err)
			}
			script = hex.EncodeToString(b)
		}
		if o, ok := used[script]; ok {
			return "twice", fmt.Sprintf("the same address was handed out for %q and for %q", o, g.what)
		}
		used[script] = g.what
		in, ok := byScript[script]
		if !ok {
			return "forgotten", fmt.Sprintf("the address handed out for %q is not recorded in the vault", g.what)
		}
		if g.accounts == nil {
			if a, ok := groups[g.what]; ok && a != in.AccountIndex {
				return "account", fmt.Sprintf("addresses of %s belong to accounts %d and %d", g.what, a, in.AccountIndex)
			}
			if in.AccountIndex <= world.Account(0) {
				return "account", fmt.Sprintf("the address of %s belongs to account %d", g.what, in.AccountIndex)
			}
			groups[g.what] = in.AccountIndex
		} else {
			ok = false
			for _, a := range g.accounts {
				ok = ok || a == in.AccountIndex
			}
			if !ok {
				return "account", fmt.Sprintf("the address handed out for %q is recorded for account %d", g.what, in.AccountIndex)
			}
		}
		if !strings.HasPrefix(in.DerivationPath, fmt.Sprintf("%d'/", in.AccountIndex)) {
			return "path", fmt.Sprintf("the address of %q, of account %d, has path %s", g.what, in.AccountIndex, in.DerivationPath)
		}
		addr, sc, err := ww.DeriveConfidentialAddress(wallet.DeriveConfidentialAddressOpts{DerivationPath: in.DerivationPath, Network: world.Net})
		if err != nil || hex.EncodeToString(sc) != script || (g.addr != "" && addr != g.addr) {
			return "path", fmt.Sprintf("the address of %q can't be derived from its path %s again", g.what, in.DerivationPath)
		}
		if g.addr != "" && in.Address != g.addr {
			return "address", fmt.Sprintf("%s handed out %s, recorded is %s", g.what, g.addr, in.Address)
		}
		if g.key != "" && g.key != hex.EncodeToString(in.BlindingKey) {
			return "key", fmt.Sprintf("%s told a blinding key that is not the recorded one", g.what)
		}
		bk, _, err := ww.DeriveBlindingKeyPair(wallet.DeriveBlindingKeyPairOpts{Script: sc})
		if err != nil || string(bk.Serialize()) != string(in.BlindingKey) {
			return "key", fmt.Sprintf("the blinding key recorded for %q is wrong", g.what)
		}
		if a, n, err := v.AccountByAddress(in.Address); err != nil || n != in.AccountIndex || a.DerivationPathByScript[script] != in.DerivationPath {
			return "owner", fmt.Sprintf("the address of %q is not found in its account", g.what)
		}
	}
	// every new market has an account of its own, and a market
	owner := map[int]string{}
	for g, a := range groups {
		if o, ok := owner[a]; ok {
			return "shared", fmt.Sprintf("%s and %s have the same account %d", o, g, a)
		}
		owner[a] = g
		m, err := e.w.Repo.MarketRepository().GetMarketByAccount(bg, a)
		if err != nil || m == nil {
			return "market", fmt.Sprintf("there is no market for account %d of %s", a, g)
		}
	}
	ext, err := e.w.Operator.ListMarketExternalAddresses(bg, application.Market{BaseAsset: world.Base, QuoteAsset: world.Quote(0)})
	if err != nil {
		return "listext", err.Error()
	}
	listed := map[string]bool{}
	for _, a := range ext {
		listed[a] = true
	}
	for _, g := range e.given {
		if strings.HasPrefix(g.what, "deposit-market") && !listed[g.addr] {
			return "unlisted", fmt.Sprintf("the address handed out for %q is not listed for the market", g.what)
		}
	}
	return "", ""
}

// digest: indexes of all accounts.
func (e *env) digest() string {
	v, _ := e.w.Repo.VaultRepository().GetOrCreateVault(bg, nil, "", nil)
	out := []string{}
	for a, acc := range v.Accounts {
		out = append(out, fmt.Sprintf("%d:%d/%d", a, acc.LastExternalIndex, acc.LastInternalIndex))
	}
	sort.Strings(out)
	avail := 0
	for _, u := range e.w.Unspents() {
		if !u.Locked && !u.Spent {
			avail++
		}
	}
	return strings.Join(out, " ") + fmt.Sprint(avail, e.fresh, len(e.given))
}

func histories(badger bool) *explore.Scenario {
	ops := []string{"deposit-market 2", "deposit-new 2", "deposit-fee 1", "receive", "propose", "restart", "wait",
		"failing1 deposit-market 1", "failing1 deposit-new 2", "failing2 deposit-new 1", "failing1 deposit-fee 2", "failing1 receive", "failing1 propose", "failing2 propose"}
	back, depth := "in-memory", 4
	if badger {
		back, depth = "persistent", 3
	}
	return &explore.Scenario{Name: back + ": histories", Ops: ops, Bound: depth, ThoroughBound: depth + 2, Weight: 10,
		Hist: func(x *explore.Exec, path []int) {
			e := newEnv(badger)
			defer e.w.Close()
			x.Settle()
			for k, p := range path {
				op := ops[p]
				x.Log("%s", op)
				var err error
				if strings.HasPrefix(op, "failing") {
					e.failing(int(op[7] - '0'))
					err = e.do(op[9:])
					e.w.Gate.Fault = nil
				} else {
					err = e.do(op)
				}
				x.Settle()
				if k < len(path)-1 {
					continue
				}
				if sig, msg := e.judge(); sig != "" {
					x.Fail(sig, "answer %v: %s", err, msg)
				}
				if err != nil && !strings.HasPrefix(op, "failing") && !strings.HasPrefix(op, "propose") {
					x.Fail("refused", "%s: %v", op, err)
				}
				x.Outcome("%s %v", op, err)
			}
			x.State(e.digest())
		}}
}

func race(badger bool, bound int, delay, tOnly bool, calls ...string) *explore.Scenario {
	back := "in-memory"
	if badger {
		back = "persistent"
	}
	kind := "preemptions"
	if delay {
		kind = "delays"
	}
	return &explore.Scenario{
		Name: fmt.Sprintf("%s: %s, %s", back, strings.Join(calls, " || "), kind), Bound: bound, ThoroughBound: bound + 1, ThoroughOnly: tOnly, Delay: delay,
		Quantum: time.Second, Ticks: 1,
		Sched: vsync.Config{Points: []string{"E:internal/infrastructure/storage/db/inmemory", "E:internal/infrastructure/storage/db/badger", "L:*", "X:*"}},
		Setup: func(x *explore.Exec) {
			e := newEnv(badger)
			x.V["e"] = e
			x.Settle()
			errs := make([]error, len(calls))
			x.V["errs"] = errs
			for i, c := range calls {
				i, c := i, c
				x.Thread(fmt.Sprintf("%d:%s", i, strings.ReplaceAll(c, " ", "-")), func() { errs[i] = e.do(c) })
			}
		},
		Final: func(x *explore.Exec) {
			e := x.V["e"].(*env)
			defer e.w.Close()
			errs := x.V["errs"].([]error)
			if sig, msg := e.judge(); sig != "" {
				x.Fail(sig, "answers %v: %s", errs, msg)
			}
			for i, err := range errs {
				if err != nil {
					x.Fail("refused", "%s: %v", calls[i], err)
				}
			}
			x.Outcome("%v %s", errs, e.digest())
		},
	}
}

func main() {
	scs := []*explore.Scenario{histories(false), histories(true)}
	pairs := [][]string{
		{"deposit-market 1", "deposit-market 1"},
		{"deposit-new 1", "deposit-new 1"},
		{"deposit-fee 1", "deposit-fee 2"},
		{"receive", "receive"},
		{"deposit-market 1", "propose"},
		{"deposit-fee 1", "propose"},
		{"receive", "deposit-new 1"},
		{"receive", "propose"},
		{"propose", "propose"},
		{"deposit-fee 1", "unlock"},
	}
	for _, b := range []bool{false, true} {
		for i, p := range pairs {
			q := 2
			if b {
				q = 1
			}
			scs = append(scs, race(b, q, true, b && i > 5, p...))
			if !b {
				scs = append(scs, race(b, 1, false, i > 3, p...))
			}
		}
		scs = append(scs, race(b, 1, true, b, "deposit-new 1", "deposit-fee 1", "receive"), race(b, 1, true, true, "deposit-new 1", "deposit-new 1", "deposit-new 1"))
	}
	explore.Main(func() *hx.Check { return hx.New("C13", "model_checking") }, scs, func(c *hx.Check) {
		c.Count("states", c.Get("distinct_states")+c.Get("executions"))
		c.Count("transitions", c.Get("choice_points"))
		c.Count("traces_validated_against_impl", c.Get("executions"))
		c.Info("rule", "breadth-first search of all histories up to the depth (states: derivation indexes of every account); all interleavings of two or three requests up to the bound at lock acquisitions and storage calls")
		c.Sample("deposit-new 1 || deposit-new 1")
		c.Assume("restarts rebuild the services over the same storage")
		c.Finish()
	})
}
