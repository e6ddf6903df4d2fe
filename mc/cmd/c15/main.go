// C15: what a wallet serves in every state. Every history, up to a depth, of
// initialisations (new, restored, failing wherever the explorer or the storage
// may), unlocks, changes of the password and restarts, on both back ends, with
// every request made in every state reached, and at every moment of an
// initialisation; and every interleaving of two or three of them.
//
//mc:instr internal/core/application=LGSE internal/interfaces/grpc/handler=LG internal/core/domain=L internal/infrastructure/storage/db/inmemory=LE internal/infrastructure/storage/db/badger=LE pkg/wallet=M
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/btcsuite/btcutil"
	pbop "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	pbw "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	grpchandler "github.com/tdex-network/tdex-daemon/internal/interfaces/grpc/handler"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
	"github.com/tdex-network/tdex-daemon/pkg/wallet"
	"github.com/tdex-network/tdex-daemon/verif/explore"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/tdex-network/tdex-daemon/verif/vsync"
	"github.com/tdex-network/tdex-daemon/verif/world"
	pbt "github.com/tdex-network/tdex-protobuf/generated/go/trade"
	"github.com/vulpemventures/go-elements/network"
	"google.golang.org/grpc"
)

var (
	ctx   = context.Background()
	base  = world.Base
	words = map[string][]string{
		"A": world.Words,
		"B": strings.Split("abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about", " "),
		"X": {"no", "such", "words"},
	}
	there string
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// ---- chain ---------------------------------------------------------------

type place struct{ acct, chain, idx int }

// coins of the wallet that is restored, by address.
var (
	chainMu sync.Mutex
	chainOf map[string][]explorer.Utxo
)

func funds() map[string][]explorer.Utxo {
	chainMu.Lock()
	defer chainMu.Unlock()
	if chainOf != nil {
		return chainOf
	}
	out := map[string][]explorer.Utxo{}
	hd, err := wallet.NewWalletFromMnemonic(wallet.NewWalletFromMnemonicOpts{SigningMnemonic: words["A"]})
	must(err)
	n := 0
	put := func(p place, asset string, v uint64) {
		a, s, err := hd.DeriveConfidentialAddress(wallet.DeriveConfidentialAddressOpts{DerivationPath: fmt.Sprintf("%d'/%d/%d", p.acct, p.chain, p.idx), Network: world.Net})
		must(err)
		if there == "" {
			there = a
		}
		n++
		out[a] = append(out[a], esplora.NewWitnessUtxo(strings.Repeat(fmt.Sprintf("%02x", n), 32), 0, v, asset, "", "", make([]byte, 32), make([]byte, 32), s, []byte{0}, []byte{1}, []byte{2}, true))
	}
	put(place{domain.FeeAccount, 0, 0}, base, 5000)
	put(place{domain.WalletAccount, 0, 0}, base, 6000)
	put(place{world.Account(0), 0, 0}, base, 7000)
	put(place{world.Account(0), 0, 0}, world.Quote(0), 800)
	chainOf = out
	return out
}

type tx struct {
	explorer.Transaction
	id string
}

func (t tx) Hash() string    { return t.id }
func (t tx) Confirmed() bool { return true }

type chain struct {
	*world.Explorer
	mu    sync.Mutex
	calls int
	// on is told of every call, and decides whether it fails.
	on func(n int, call string) error
}

func (h *chain) call(s string) error {
	h.mu.Lock()
	n := h.calls
	h.calls++
	f := h.on
	h.mu.Unlock()
	if f == nil {
		return nil
	}
	return f(n, s)
}

func (h *chain) GetTransactionsForAddress(a string, _ []byte) ([]explorer.Transaction, error) {
	if err := h.call("GetTransactionsForAddress"); err != nil {
		return nil, err
	}
	out := []explorer.Transaction{}
	for _, u := range funds()[a] {
		out = append(out, tx{id: u.Hash()})
	}
	return out, nil
}

func (h *chain) GetUnspents(a string, k [][]byte) ([]explorer.Utxo, error) {
	return h.GetUnspentsForAddresses([]string{a}, k)
}

func (h *chain) GetUnspentsForAddresses(as []string, _ [][]byte) ([]explorer.Utxo, error) {
	if err := h.call("GetUnspentsForAddresses"); err != nil {
		return nil, err
	}
	out := []explorer.Utxo{}
	for _, a := range as {
		out = append(out, funds()[a]...)
	}
	return out, nil
}

// ---- storage -------------------------------------------------------------

var errDisk = errors.New("storage failure")

// store is the storage, failing at will.
type store struct {
	ports.RepoManager
	mu sync.Mutex
	// fail: the call that fails, "before" it did anything or "after" what it
	// was given was run
	fail, when string
	// only creations under this password fail
	pwd string
	// on is told of every call.
	on func(call string)
}

func (s *store) set(fail, when string) { s.mu.Lock(); s.fail, s.when = fail, when; s.mu.Unlock() }

func (s *store) call(c string) (before, after bool) {
	s.mu.Lock()
	f := s.on
	if s.fail == c {
		before, after = s.when == "before", s.when == "after"
	}
	s.mu.Unlock()
	if f != nil {
		f(c)
	}
	return
}

func (s *store) VaultRepository() domain.VaultRepository {
	return vaults{s.RepoManager.VaultRepository(), s}
}
func (s *store) MarketRepository() domain.MarketRepository {
	s.call("market")
	return s.RepoManager.MarketRepository()
}
func (s *store) UnspentRepository() domain.UnspentRepository {
	s.call("unspent")
	return s.RepoManager.UnspentRepository()
}
func (s *store) RunTransaction(c context.Context, ro bool, h func(context.Context) (interface{}, error)) (interface{}, error) {
	b, a := s.call("RunTransaction")
	if b {
		return nil, errDisk
	}
	r, err := s.RepoManager.RunTransaction(c, ro, func(c context.Context) (interface{}, error) {
		r, err := h(c)
		if err == nil && a {
			err = errDisk
		}
		return r, err
	})
	s.call("transaction done")
	return r, err
}

type vaults struct {
	domain.VaultRepository
	s *store
}

func (r vaults) GetOrCreateVault(c context.Context, m []string, p string, n *network.Network) (*domain.Vault, error) {
	if m != nil {
		b, a := r.s.call("create")
		if r.s.pwd != "" && r.s.pwd != p {
			b, a = false, false
		}
		if b {
			return nil, errDisk
		}
		if a {
			if _, err := domain.NewVault(m, p, n); err != nil {
				return nil, err
			}
			return nil, errDisk
		}
		defer r.s.call("created")
	}
	return r.VaultRepository.GetOrCreateVault(c, m, p, n)
}

func (r vaults) UpdateVault(c context.Context, f func(*domain.Vault) (*domain.Vault, error)) error {
	b, a := r.s.call("update")
	if b {
		return errDisk
	}
	return r.VaultRepository.UpdateVault(c, func(v *domain.Vault) (*domain.Vault, error) {
		w, err := f(v)
		if err == nil && a {
			return nil, errDisk
		}
		return w, err
	})
}

// ---- daemon --------------------------------------------------------------

type daemon struct {
	*world.World
	st    *store
	h     *chain
	op    pbop.OperatorServer
	tr    pbt.TradeServer
	wal   pbw.WalletServer
	mu    sync.Mutex
	msgs  []string
	pws   chan application.PassphraseMsg
	onMsg func() // at every reply of an initialisation
}

func start(badger bool) *daemon {
	w := world.New(world.Opts{NoVault: true, Badger: badger})
	w.Mnem.Unset()
	d := &daemon{World: w, st: &store{RepoManager: w.Repo}, h: &chain{Explorer: w.Explorer}}
	must(d.up())
	return d
}

func (d *daemon) up() error {
	d.Listener = application.NewBlockchainListener(d.Crawler, d.st, d.PubSub, base, world.Net)
	d.Operator = application.NewOperatorService(d.st, d.h, d.Listener, base, 25, world.Net, 1000)
	d.Trade = application.NewTradeService(d.st, d.h, d.Listener, base, d.Opts.Expiry, d.Opts.Slippage, world.Net)
	ws, err := application.NewWalletService(d.st, d.h, d.Listener, world.Net, 25, base)
	d.Wallet = ws
	if err == nil {
		d.pws = ws.PassphraseChan()
		d.op, d.tr, d.wal = grpchandler.NewOperatorHandler(d.Operator), grpchandler.NewTraderHandler(d.Trade), grpchandler.NewWalletHandler(d.Wallet)
	}
	return err
}

type stream struct {
	grpc.ServerStream
	d *daemon
}

func (s *stream) Context() context.Context { return ctx }
func (s *stream) Send(*pbw.InitWalletReply) error {
	if s.d.onMsg != nil {
		s.d.onMsg()
	}
	return nil
}

// drain plays the one who waits for passwords.
func (d *daemon) drain() {
	d.mu.Lock()
	defer d.mu.Unlock()
	for {
		select {
		case m := <-d.pws:
			switch m.Method {
			case application.InitWallet:
				d.msgs = append(d.msgs, "init "+m.CurrentPwd)
			case application.UnlockWallet:
				d.msgs = append(d.msgs, "unlock "+m.CurrentPwd)
			case application.ChangePassphrase:
				d.msgs = append(d.msgs, "change "+m.CurrentPwd+" "+m.NewPwd)
			}
		default:
			return
		}
	}
}

// ---- model ---------------------------------------------------------------

// model of the wallet.
type model struct {
	seed     string // "" if there is none
	pwd      string
	open     bool
	restored bool
	addrs    int // handed out
}

func (m model) String() string {
	if m.seed == "" {
		return "uninitialised"
	}
	s := "locked"
	if m.open {
		s = "unlocked"
	}
	if m.restored {
		s += " restored"
	}
	return fmt.Sprintf("%s wallet %s under %s, %d addresses", s, m.seed, m.pwd, m.addrs)
}

// step tells what an operation does: whether it is granted, and what the
// credentials service is told.
func (m *model) step(op string) (ok bool, msg string) {
	f := strings.Fields(op)
	if len(f) < 3 {
		f = append(f, "", "")
	}
	switch f[0] {
	case "create", "restore":
		if m.seed != "" || f[1] == "X" {
			return false, ""
		}
		*m = model{seed: f[1], pwd: f[2], restored: f[0] == "restore" && f[1] == "A"}
		if m.restored {
			m.addrs = 1
		}
		return true, "init " + f[2]
	case "create!", "restore!":
		return false, ""
	case "unlock!":
		// an unlocked wallet needs no storage
		return m.open, ""
	case "change!":
		return false, ""
	case "unlock":
		switch {
		case m.seed == "":
			return false, ""
		case m.open:
			return true, ""
		case f[1] != m.pwd:
			return false, ""
		}
		m.open = true
		return true, "unlock " + f[1]
	case "change":
		if m.seed == "" || m.open || f[1] != m.pwd {
			return false, ""
		}
		m.pwd = f[2]
		return true, "change " + f[1] + " " + f[2]
	case "address":
		if m.open {
			m.addrs++
		}
		return m.open, ""
	case "address!":
		return false, ""
	case "restart":
		m.open = false
		return true, ""
	}
	panic(op)
}

// ---- operations ----------------------------------------------------------

func (d *daemon) do(op string) error {
	f := strings.Fields(op)
	bang := strings.HasSuffix(f[0], "!")
	name := strings.TrimSuffix(f[0], "!")
	if bang {
		// restore! A p where when: the last two say what fails
		where, when := f[len(f)-2], f[len(f)-1]
		if where == "explorer" {
			h := d.h
			var k int
			fmt.Sscan(when, &k)
			h.mu.Lock()
			old, first := h.on, h.calls
			h.on = func(n int, c string) error {
				if old != nil {
					if err := old(n, c); err != nil {
						return err
					}
				}
				if n-first == k || k < 0 && c == "GetUnspentsForAddresses" {
					return errors.New("explorer down")
				}
				return nil
			}
			h.mu.Unlock()
			defer func() { h.mu.Lock(); h.on = old; h.mu.Unlock() }()
		} else {
			if name == "create" {
				d.st.pwd = f[2]
			}
			d.st.set(where, when)
			defer d.st.set("", "")
		}
	}
	switch name {
	case "create", "restore":
		return d.wal.InitWallet(&pbw.InitWalletRequest{SeedMnemonic: words[f[1]], WalletPassword: []byte(f[2]), Restore: name == "restore"}, &stream{d: d})
	case "unlock":
		_, err := d.wal.UnlockWallet(ctx, &pbw.UnlockWalletRequest{WalletPassword: []byte(f[1])})
		return err
	case "change":
		_, err := d.wal.ChangePassword(ctx, &pbw.ChangePasswordRequest{CurrentPassword: []byte(f[1]), NewPassword: []byte(f[2])})
		return err
	case "address":
		_, err := d.wal.WalletAddress(ctx, &pbw.WalletAddressRequest{})
		return err
	case "restart":
		d.Mnem.Unset()
		d.Crawler = world.NewCrawler()
		return d.up()
	}
	panic(op)
}

// view of everything that is stored or was sent.
func (d *daemon) view() string {
	var s []string
	v, err := d.Repo.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
	if err != nil {
		s = append(s, "no vault")
	} else {
		b, err := json.Marshal(v)
		must(err)
		s = append(s, string(b))
	}
	ms, err := d.Repo.MarketRepository().GetAllMarkets(ctx)
	must(err)
	sort.Slice(ms, func(i, j int) bool { return ms[i].AccountIndex < ms[j].AccountIndex })
	for _, m := range ms {
		s = append(s, fmt.Sprintf("market %d %s %s %d %v %v %v", m.AccountIndex, m.BaseAsset, m.QuoteAsset, m.Fee, m.FixedFee, m.Tradable, m.Price))
	}
	var us []string
	for k, u := range d.Unspents() {
		us = append(us, fmt.Sprint("coin ", k.TxID, k.VOut, u.Value, u.Spent, u.Locked, u.Confirmed))
	}
	sort.Strings(us)
	ts, err := d.Repo.TradeRepository().GetAllTrades(ctx)
	must(err)
	return strings.Join(append(s, us...), "\n") + fmt.Sprint("\ntrades ", len(ts), d.Explorer.Broadcasted(), d.PubSub.Published())
}

// probes are requests made while the wallet must not serve.
type probes struct {
	d   *daemon
	mu  sync.Mutex
	wg  sync.WaitGroup
	bad string
	n   int
	was string // the view, if it must not change
}

// ask all requests that must be refused now. Those that have to wait are left
// waiting.
func (p *probes) ask(when string, live bool) {
	for _, r := range requests() {
		if !r.need {
			continue
		}
		r := r
		done := make(chan struct{})
		p.wg.Add(1)
		go func() {
			defer p.wg.Done()
			defer close(done)
			got, err := r.safely(p.d)
			p.mu.Lock()
			defer p.mu.Unlock()
			p.n++
			if err == nil && !r.empty(got) && p.bad == "" {
				p.bad = fmt.Sprintf("%s: %s is answered: %v", when, r.name, got)
			}
		}()
		if !live {
			<-done
			continue
		}
		select {
		case <-done:
		case <-time.After(3 * time.Millisecond):
		}
	}
}

func (r request) safely(d *daemon) (got interface{}, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	return r.do(d)
}

// empty replies serve nothing.
func (r request) empty(got interface{}) bool {
	switch r.name {
	case "Markets":
		return len(got.(*pbt.MarketsReply).GetMarkets()) == 0
	case "TradePropose":
		rep, ok := got.(*pbt.TradeProposeReply)
		return ok && rep.GetSwapAccept() == nil && rep.GetSwapFail() == nil
	}
	return false
}

// check compares the daemon with the model.
func (d *daemon) check(m model) (sig, msg string) {
	v, err := d.Repo.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
	if (err == nil && v.IsInitialized()) != (m.seed != "") {
		return "stored", fmt.Sprintf("the wallet should be %s but the stored vault is %v (%v)", m, v, err)
	}
	if m.seed != "" {
		want := "enc:" + m.pwd + ":" + strings.Join(words[m.seed], " ")
		if v.EncryptedMnemonic != want || string(v.PassphraseHash) != string(btcutil.Hash160([]byte(m.pwd))) {
			return "stored", fmt.Sprintf("the wallet should be %s but %q is stored", m, v.EncryptedMnemonic)
		}
		if d.Mnem.IsSet() != m.open {
			return "lock", fmt.Sprintf("the wallet should be %s but its mnemonic is in memory: %v", m, d.Mnem.IsSet())
		}
		if m.open && strings.Join(d.Mnem.Get(), " ") != strings.Join(words[m.seed], " ") {
			return "lock", fmt.Sprintf("the wallet should be %s but another mnemonic is used", m)
		}
	}
	before := d.view()
	if !m.open {
		p := &probes{d: d}
		p.ask(m.String(), false)
		if p.bad != "" {
			return "served", p.bad
		}
		if m.seed == "" {
			// there is no wallet: nothing else has an effect either
			for _, r := range requests() {
				if r.name != "AddWebhook" && r.name != "RemoveWebhook" {
					r.safely(d)
				}
			}
		}
	} else {
		for _, r := range requests() {
			if r.need && r.pure {
				_, err := r.safely(d)
				if err == nil {
					continue
				}
				for _, w := range []string{"panic", "unlocked", "unavailable", "initialized", "syncing"} {
					if strings.Contains(err.Error(), w) {
						return "not-served", fmt.Sprintf("the wallet is %s but %s is refused: %v", m, r.name, err)
					}
				}
			}
		}
	}
	if after := d.view(); after != before {
		return "effect", fmt.Sprintf("%s: requests changed what is stored from %s to %s", m, before, after)
	}
	return "", ""
}

func opsOf(badger bool) []string {
	ops := []string{"create A p", "create B q", "create X p", "create! A p create before", "create! B q create after",
		"restore A p", "restore B q", "restore X p", "restore! A p explorer 0", "restore! A q explorer 50", "restore! A p explorer -1", "restore! B q explorer 30", "restore! A p RunTransaction before",
		"unlock p", "unlock q", "unlock! p update before", "unlock! p update after", "unlock! q update after",
		"change p q", "change q p", "change p p", "change! p q update before", "change! p q update after", "address", "address! update after", "restart"}
	if badger {
		// only this one undoes what a transaction did
		ops = append(ops, "restore! A p RunTransaction after", "restore! A q RunTransaction after")
	}
	return ops
}

func backOf(badger bool) string {
	if badger {
		return "persistent"
	}
	return "in-memory"
}

func within(what string, f func() error) (err error, late bool) {
	ch := make(chan error, 1)
	go func() { ch <- f() }()
	select {
	case err = <-ch:
		return err, false
	case <-time.After(10 * time.Second):
		return nil, true
	}
}

func histories(badger bool) *explore.Scenario {
	ops := opsOf(badger)
	bound := 3
	if badger {
		bound = 2 // and all of the thorough tier
	}
	return &explore.Scenario{Name: backOf(badger) + ": histories", Ops: ops, Bound: bound, ThoroughBound: 5, Weight: 40, Real: true,
		Hist: func(x *explore.Exec, path []int) {
			d := start(badger)
			defer d.Close()
			m := model{}
			for k, p := range path {
				op := ops[p]
				x.Log("%s: %s", m, op)
				last := k == len(path)-1
				was := m
				pr := &probes{d: d}
				if last && was.seed == "" && (strings.HasPrefix(op, "create") || strings.HasPrefix(op, "restore")) {
					// everything is asked for while it goes on
					nth := 0
					probe := func(s string) { pr.ask(op+" at "+s, true) }
					d.h.on = func(_ int, c string) error {
						if nth%25 == 0 || c == "GetUnspentsForAddresses" {
							probe("a call of the explorer")
						}
						nth++
						return nil
					}
					d.st.on = func(c string) {
						if c == "RunTransaction" || c == "created" || c == "create" || c == "transaction done" {
							f := d.st.on
							d.st.on = nil
							probe(c)
							d.st.on = f
						}
					}
					d.onMsg = func() { probe("a reply") }
				}
				want, msg := m.step(op)
				d.msgs = nil
				err, late := within(op, func() error { return d.do(op) })
				if late {
					x.Fail("hang", "%s: %q never ends", was, op)
					return
				}
				d.h.on, d.st.on, d.onMsg = nil, nil, nil
				d.drain()
				pr.wg.Wait()
				if !last {
					continue
				}
				x.Count("probes", pr.n)
				if pr.bad != "" {
					x.Fail("served", "%s: %s", was, pr.bad)
				}
				if (err == nil) != want && err != io.EOF {
					x.Fail("answer", "%s: %q is answered %v", was, op, err)
				}
				if got := strings.Join(d.msgs, ", "); got != msg {
					x.Fail("told", "%s: after %q the credentials service is told %q instead of %q", was, op, got, msg)
				}
				if sig, msg := d.check(m); sig != "" {
					x.Fail(sig, "%s, then %q (%v): %s", was, op, err, msg)
				}
				x.Outcome("%s %v", strings.Fields(op)[0], want)
			}
			dig := m.String() + fmt.Sprint(d.Mnem.IsSet())
			if len(path) > 0 {
				dig += ops[path[len(path)-1]]
			}
			x.State(dig)
		}}
}

// ---- interleavings -------------------------------------------------------

func race(badger bool, bound int, tOnly bool, prefix string, calls ...string) *explore.Scenario {
	points := []string{"E:internal/infrastructure/storage/db/inmemory", "E:internal/infrastructure/storage/db/badger", "L:*", "X:*"}
	if !strings.Contains(calls[0], "restore") {
		points = append(points, "S:internal/core/application")
	}
	w := 1
	if strings.HasPrefix(calls[0], "restore") {
		w = 4
	}
	return &explore.Scenario{
		Weight: float64(w), Name: fmt.Sprintf("%s: %s: %s", backOf(badger), prefix, strings.Join(calls, " || ")), Bound: bound, ThoroughBound: bound + 1, ThoroughOnly: tOnly, Delay: true,
		Quantum: time.Second, Ticks: 9,
		Sched: vsync.Config{Points: points},
		Setup: func(x *explore.Exec) {
			d := start(badger)
			m := model{}
			for _, op := range strings.Split(prefix, ",") {
				if op = strings.TrimSpace(op); op != "" {
					m.step(op)
					if err := d.do(op); err != nil {
						panic(err)
					}
					d.drain()
				}
			}
			x.Settle()
			d.msgs = nil
			errs := make([]error, len(calls))
			x.V["d"], x.V["m"], x.V["errs"] = d, m, errs
			for i, c := range calls {
				i, c := i, c
				x.Thread(fmt.Sprintf("%d:%s", i, strings.ReplaceAll(c, " ", "-")), func() {
					errs[i] = d.do(c)
					d.drain()
				})
			}
		},
		Final: func(x *explore.Exec) {
			d := x.V["d"].(*daemon)
			defer d.Close()
			errs := x.V["errs"].([]error)
			d.drain()
			var tried []string
			got := ""
			for i, e := range errs {
				a := "granted"
				if e != nil {
					a = "refused"
				}
				got += fmt.Sprintf("%s %s; ", calls[i], a)
			}
			ok := false
			perms(len(calls), func(order []int) {
				m := x.V["m"].(model)
				answers := make([]string, len(calls))
				var msgs []string
				for _, i := range order {
					busy := errs[i] == application.ErrWalletIsSyncing
					for j, c := range calls {
						busy = busy && (j == i || !strings.HasPrefix(c, "restore")) || errs[i] == application.ErrWalletIsSyncing && j != i && strings.HasPrefix(c, "restore")
					}
					if busy {
						answers[i] = "refused"
						continue
					}
					granted, msg := m.step(calls[i])
					answers[i] = "refused"
					if granted {
						answers[i] = "granted"
					}
					if msg != "" {
						msgs = append(msgs, msg)
					}
				}
				s := ""
				for i, a := range answers {
					s += fmt.Sprintf("%s %s; ", calls[i], a)
				}
				s += strings.Join(msgs, ", ")
				sig, msg := d.check(m)
				if s == got+strings.Join(d.msgs, ", ") && sig == "" {
					ok = true
				}
				tried = append(tried, s+" "+msg)
			})
			if !ok {
				x.Fail("serial", "%s (credentials service told: %s), which no order gives: %s", got, strings.Join(d.msgs, ", "), strings.Join(tried, " | "))
			}
			x.Outcome("%s", got)
		},
	}
}

func perms(n int, f func([]int)) {
	var rec func(p []int)
	rec = func(p []int) {
		if len(p) == n {
			f(p)
			return
		}
	next:
		for i := 0; i < n; i++ {
			for _, j := range p {
				if i == j {
					continue next
				}
			}
			rec(append(append([]int{}, p...), i))
		}
	}
	rec(nil)
}

func main() {
	funds()
	world.Stubs()
	scs := []*explore.Scenario{histories(false), histories(true)}
	const locked, open = "create A p", "create A p,unlock p"
	type rc struct {
		prefix string
		calls  []string
	}
	for _, b := range []bool{false, true} {
		for _, r := range []rc{
			{"", []string{"create A p", "create B q"}},
			{"", []string{"create A p", "unlock p"}},
			{"", []string{"create A p", "unlock q"}},
			{"", []string{"create A p", "address"}},
			{"", []string{"create A p", "change p q"}},
			{"", []string{"restore A p", "create B q"}},
			{"", []string{"restore! A p RunTransaction before", "create B q"}},
			{"", []string{"create! A p create after", "create B q"}},
			{"", []string{"restore B p", "unlock p"}},
			{locked, []string{"unlock p", "unlock q"}},
			{locked, []string{"unlock p", "unlock p"}},
			{locked, []string{"unlock! p update after", "address"}},
			{locked, []string{"unlock p", "change p q"}},
			{locked, []string{"change p q", "change q r"}},
			{locked, []string{"change p q", "change p r"}},
			{locked, []string{"unlock p", "address"}},
			{locked, []string{"unlock p", "create B q"}},
		} {
			scs = append(scs, race(b, 2, false, r.prefix, r.calls...))
		}
		scs = append(scs, race(b, 1, b, "", "create A p", "unlock p", "address"), race(b, 1, b, "", "create A p", "create B q", "unlock p"), race(b, 1, b, locked, "unlock p", "change p q", "unlock q"))
	}
	explore.Main(func() *hx.Check { return hx.New("C15", "model_checking") }, scs, func(c *hx.Check) {
		c.Info("rule", "breadth-first search of all histories of operations up to the depth, every request asked in every state and at the moments of every initialisation; all interleavings of two or three operations up to the bound, judged against every serial order")
		c.Sample("create A p, unlock p: unlock p || change p q || unlock q")
		c.Assume("the client of the credentials service reads what it is told between operations")
		c.Count("states", c.Get("distinct_states")+c.Get("executions"))
		c.Count("transitions", c.Get("choice_points"))
		c.Count("traces_validated_against_impl", c.Get("executions"))
		c.Finish()
	})
}
