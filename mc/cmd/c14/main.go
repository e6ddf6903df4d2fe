// C14: restoring a wallet. Every small population of used addresses (gaps, both
// branches, all accounts), of coins and of market assets, restored through the
// real RPC handler and services over both back ends; and for some of them every
// failure of the explorer, of the storage and of the client's stream, followed
// by another attempt, on the same daemon or after a restart.
//
//mc:instr pkg/wallet=M
package main

import (
	"context"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	pb "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	grpchandler "github.com/tdex-network/tdex-daemon/internal/interfaces/grpc/handler"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
	"github.com/tdex-network/tdex-daemon/pkg/wallet"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/tdex-network/tdex-daemon/verif/world"
	"github.com/vulpemventures/go-elements/transaction"
	"google.golang.org/grpc"
)

const (
	gap       = 20
	marketFee = 25
)

var (
	c     *hx.Check
	ctx   = context.Background()
	base  = world.Base
	pass  = "restored"
	pass2 = "second"
)

// coin at an address.
type coin struct {
	asset  string
	v      uint64
	unconf bool
	conf   bool
}

func (k coin) String() string {
	s := fmt.Sprintf("%d %s", k.v, world.Fmt(k.asset))
	if k.conf {
		s += "c"
	}
	if k.unconf {
		s += "u"
	}
	return s
}

// place is an address by its path.
type place struct{ acct, chain, idx int }

func (p place) path() string { return fmt.Sprintf("%d'/%d/%d", p.acct, p.chain, p.idx) }

// use of an address: its coins; none if all were spent.
type use struct {
	place
	coins []coin
}

type population []use

func (p population) String() string {
	s := []string{}
	for _, u := range p {
		t := u.path()
		for _, k := range u.coins {
			t += " " + k.String()
		}
		s = append(s, t)
	}
	return strings.Join(s, ", ")
}

// ---- addresses -----------------------------------------------------------

type addr struct {
	address string
	script  []byte
	key     []byte
}

var (
	adrMu sync.Mutex
	adrs  = map[place]addr{}
	hd    *wallet.Wallet
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func at(p place) addr {
	adrMu.Lock()
	defer adrMu.Unlock()
	if a, ok := adrs[p]; ok {
		return a
	}
	if hd == nil {
		var err error
		hd, err = wallet.NewWalletFromMnemonic(wallet.NewWalletFromMnemonicOpts{SigningMnemonic: world.Words})
		must(err)
	}
	a, s, err := hd.DeriveConfidentialAddress(wallet.DeriveConfidentialAddressOpts{DerivationPath: p.path(), Network: world.Net})
	must(err)
	k, _, err := hd.DeriveBlindingKeyPair(wallet.DeriveBlindingKeyPairOpts{Script: s})
	must(err)
	adrs[p] = addr{a, s, k.Serialize()}
	return adrs[p]
}

// ---- chain ---------------------------------------------------------------

type tx struct{ id string }

func (t tx) Hash() string                     { return t.id }
func (t tx) Version() int                     { return 2 }
func (t tx) Locktime() int                    { return 0 }
func (t tx) Inputs() []*transaction.TxInput   { return nil }
func (t tx) Outputs() []*transaction.TxOutput { return nil }
func (t tx) Size() int                        { return 1 }
func (t tx) Weight() int                      { return 1 }
func (t tx) Confirmed() bool                  { return true }

type chain struct {
	*world.Explorer
	mu    sync.Mutex
	calls int
	by    map[string]use
	// fault says whether the n-th call fails
	fault func(n int, call string) error
	fired bool
}

func newChain(p population) *chain {
	h := &chain{Explorer: world.NewExplorer(), by: map[string]use{}}
	for _, u := range p {
		h.by[at(u.place).address] = u
	}
	return h
}

func (h *chain) call(s string) error {
	h.mu.Lock()
	n := h.calls
	h.calls++
	f := h.fault
	h.mu.Unlock()
	if f == nil {
		return nil
	}
	err := f(n, s)
	if err != nil {
		h.mu.Lock()
		h.fired = true
		h.mu.Unlock()
	}
	return err
}

func (h *chain) hit() bool { h.mu.Lock(); defer h.mu.Unlock(); return h.fired }

func (h *chain) GetTransactionsForAddress(a string, k []byte) ([]explorer.Transaction, error) {
	if err := h.call("GetTransactionsForAddress"); err != nil {
		return nil, err
	}
	u, ok := h.by[a]
	if !ok {
		return []explorer.Transaction{}, nil
	}
	if string(k) != string(at(u.place).key) {
		return nil, errors.New("wrong blinding key")
	}
	return []explorer.Transaction{tx{outpoint(u, 0)}}, nil
}

func outpoint(u use, i int) string {
	s := sha256.Sum256([]byte(fmt.Sprintf("%s %d", u.path(), i)))
	return hex.EncodeToString(s[:])
}

func utxo(u use, i int) explorer.Utxo {
	k, a := u.coins[i], at(u.place)
	vb, ab, vc, ac, nonce := make([]byte, 32), make([]byte, 32), "", "", []byte{0}
	if k.conf {
		vb, ab = []byte(strings.Repeat("v", 31)+string(rune('a'+i))), []byte(strings.Repeat("a", 31)+string(rune('a'+i)))
		vc, ac, nonce = "09"+strings.Repeat("bb", 32), "0b"+strings.Repeat("cc", 32), []byte(strings.Repeat("n", 33))
	}
	return esplora.NewWitnessUtxo(outpoint(u, i), uint32(i), k.v, k.asset, vc, ac, vb, ab, a.script, nonce, []byte{1, 2}, []byte{3, 4}, !k.unconf)
}

func (h *chain) GetUnspents(a string, keys [][]byte) ([]explorer.Utxo, error) {
	if err := h.call("GetUnspents"); err != nil {
		return nil, err
	}
	return h.unspents([]string{a}, keys)
}

func (h *chain) unspents(as []string, keys [][]byte) ([]explorer.Utxo, error) {
	out := []explorer.Utxo{}
	for _, a := range as {
		u, ok := h.by[a]
		if !ok {
			continue
		}
		has := false
		for _, k := range keys {
			has = has || string(k) == string(at(u.place).key)
		}
		if !has {
			return nil, errors.New("cannot unblind")
		}
		for i := range u.coins {
			out = append(out, utxo(u, i))
		}
	}
	return out, nil
}

func (h *chain) GetUnspentsForAddresses(as []string, keys [][]byte) ([]explorer.Utxo, error) {
	if err := h.call("GetUnspentsForAddresses"); err != nil {
		return nil, err
	}
	return h.unspents(as, keys)
}

// ---- reference -----------------------------------------------------------

// last index found for a branch, -1 if none.
func (p population) last(acct, ch int) int {
	last := -1
	for i := 0; i-last <= gap; i++ {
		for _, u := range p {
			if u.acct == acct && u.chain == ch && u.idx == i {
				last = i
			}
		}
	}
	return last
}

func (p population) used(acct int) bool { return p.last(acct, 0) >= 0 || p.last(acct, 1) >= 0 }

// found tells what a restore has to bring back.
func (p population) found() (accts []int, uses []use) {
	accts = []int{domain.FeeAccount, domain.WalletAccount}
	for m := domain.MarketAccountStart; p.used(m); m++ {
		accts = append(accts, m)
	}
	for _, a := range accts {
		for _, u := range p {
			if u.acct == a && u.idx <= p.last(a, u.chain) {
				uses = append(uses, u)
			}
		}
	}
	return
}

// behind are market accounts with coins that follow a market never used.
func (p population) behind() bool {
	accts, _ := p.found()
	top := accts[len(accts)-1]
	for _, u := range p {
		if u.acct > top && u.acct >= domain.MarketAccountStart && p.used(u.acct) {
			return true
		}
	}
	return false
}

// ---- daemon --------------------------------------------------------------

type stream struct {
	grpc.ServerStream
	sent []string
	fail int // -1: never
	// hold is called at the first reply: what comes meanwhile has to wait
	hold func()
	c    context.Context
	stop context.CancelFunc
}

func (s *stream) Context() context.Context { return s.c }
func (s *stream) Send(r *pb.InitWalletReply) error {
	n := len(s.sent)
	s.sent = append(s.sent, r.GetData())
	if n == s.fail {
		s.stop()
		return errors.New("client gone")
	}
	if n == 0 && s.hold != nil {
		s.hold()
	}
	return nil
}

type daemon struct {
	*world.World
	h    *chain
	repo interface{}
}

func start(p population, badger bool) *daemon {
	w := world.New(world.Opts{NoVault: true, Badger: badger, Gated: true})
	w.Gate.Deep = true
	w.Mnem.Unset()
	d := &daemon{World: w, h: newChain(p)}
	must(d.up())
	return d
}

// up makes the services over the storage.
func (d *daemon) up() error {
	d.Listener = application.NewBlockchainListener(d.Crawler, d.Gate, d.PubSub, base, world.Net)
	d.Operator = application.NewOperatorService(d.Gate, d.h, d.Listener, base, marketFee, world.Net, 1000)
	ws, err := application.NewWalletService(d.Gate, d.h, d.Listener, world.Net, marketFee, base)
	d.Wallet = ws
	return err
}

// init calls the handler; timeout tells that it never returned.
func (d *daemon) init(pw string, fail int) (s *stream, err error, timeout bool) {
	s = &stream{fail: fail}
	if d.h.fault != nil {
		s.hold = func() {
			for end := time.Now().Add(300 * time.Millisecond); time.Now().Before(end) && !d.h.hit(); time.Sleep(time.Millisecond) {
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
	s.c, s.stop = context.WithCancel(ctx)
	ch := make(chan error, 1)
	go func() {
		h := grpchandler.NewWalletHandler(d.Wallet)
		ch <- h.InitWallet(&pb.InitWalletRequest{SeedMnemonic: world.Words, WalletPassword: []byte(pw), Restore: true}, s)
	}()
	select {
	case err = <-ch:
	case <-time.After(60 * time.Second):
		timeout = true
	}
	s.stop()
	d.drain()
	return
}

// drain plays the one who waits for the passwords.
func (d *daemon) drain() {
	for i := 0; i < 200; i++ {
		select {
		case <-d.Wallet.PassphraseChan():
			return
		default:
			if i > 0 {
				return
			}
		}
	}
}

func (d *daemon) initialized() (bool, error) {
	err := d.Wallet.UnlockWallet(ctx, "no such password")
	if err == application.ErrWalletNotInitialized {
		return false, nil
	}
	if err == application.ErrWalletIsSyncing {
		return false, err
	}
	return true, nil
}

// settle waits until no restore is going on.
func (d *daemon) settle() bool {
	for end := time.Now().Add(15 * time.Second); time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
		d.drain()
		if _, err := d.initialized(); err != application.ErrWalletIsSyncing {
			return true
		}
	}
	return false
}

// restored judges a wallet that was restored.
func (d *daemon) restored(p population, pw string) (string, string) {
	accts, uses := p.found()
	if ini, _ := d.initialized(); !ini {
		return "not-initialised", "the restore succeeded but the wallet is not initialised"
	}
	if d.Mnem.IsSet() {
		return "left-unlocked", "the restored wallet is left unlocked"
	}
	done := make(chan error, 1)
	go func() { done <- d.Wallet.UnlockWallet(ctx, pw) }()
	select {
	case err := <-done:
		if err != nil {
			return "unlock", fmt.Sprintf("the restored wallet does not unlock: %v", err)
		}
	case <-time.After(20 * time.Second):
		return "unlock", "unlocking the restored wallet never returns"
	}
	d.drain()
	v, err := d.Repo.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
	if err != nil {
		return "no-vault", err.Error()
	}
	if m, err := v.GetMnemonicSafe(); err != nil || strings.Join(m, " ") != strings.Join(world.Words, " ") {
		return "mnemonic", fmt.Sprintf("the restored mnemonic is %v (%v)", m, err)
	}
	info := map[string]domain.AddressInfo{}
	for _, i := range v.AllDerivedAddressesInfo() {
		info[i.Address] = i
	}
	for _, a := range accts {
		if _, err := v.AccountByIndex(a); err != nil {
			return "account", fmt.Sprintf("account %d is not restored", a)
		}
		for ch := 0; ch <= 1; ch++ {
			for i := 0; i <= p.last(a, ch); i++ {
				pl := place{a, ch, i}
				k := at(pl)
				want := domain.AddressInfo{AccountIndex: a, Address: k.address, Script: hex.EncodeToString(k.script), BlindingKey: k.key, DerivationPath: pl.path()}
				if got, ok := info[k.address]; !ok || !reflect.DeepEqual(got, want) {
					return "address", fmt.Sprintf("address %s is %+v in the restored wallet", pl.path(), got)
				}
			}
		}
	}
	// markets
	ms, err := d.Repo.MarketRepository().GetAllMarkets(ctx)
	if err != nil {
		return "markets", err.Error()
	}
	got := map[int]domain.Market{}
	for _, m := range ms {
		got[m.AccountIndex] = m
	}
	for _, a := range accts[2:] {
		m, ok := got[a]
		if !ok {
			return "market", fmt.Sprintf("market of account %d is not restored", a)
		}
		assets := map[string]bool{}
		for _, u := range uses {
			for _, k := range u.coins {
				if u.acct == a {
					assets[k.asset] = true
				}
			}
		}
		wb, wq := "", ""
		if len(assets) == 2 && assets[base] {
			wb = base
			for k := range assets {
				if k != base {
					wq = k
				}
			}
		}
		if m.BaseAsset != wb || m.QuoteAsset != wq {
			return "market-assets", fmt.Sprintf("market of account %d is restored with %q/%q instead of %q/%q", a, m.BaseAsset, m.QuoteAsset, wb, wq)
		}
		if m.Fee != marketFee || m.Tradable {
			return "market-terms", fmt.Sprintf("market of account %d is restored with fee %d, open %v", a, m.Fee, m.Tradable)
		}
		delete(got, a)
	}
	if len(got) > 0 {
		return "market-extra", fmt.Sprintf("markets made up: %v", got)
	}
	// coins
	coins := d.Unspents()
	balance := map[string]application.BalanceInfo{}
	for _, u := range uses {
		for i, k := range u.coins {
			x, a := utxo(u, i), at(u.place)
			if u.acct == domain.WalletAccount {
				b := balance[k.asset]
				b.TotalBalance += k.v
				if k.unconf {
					b.UnconfirmedBalance += k.v
				} else {
					b.ConfirmedBalance += k.v
				}
				balance[k.asset] = b
			}
			key := domain.UnspentKey{TxID: x.Hash(), VOut: x.Index()}
			s, ok := coins[key]
			if !ok {
				if u.acct == domain.WalletAccount {
					continue // these are asked for when they are needed
				}
				return "coin", fmt.Sprintf("the coin %v at %s is not restored", k, u.path())
			}
			if s.Value != k.v || s.AssetHash != k.asset || s.Address != a.address || string(s.ScriptPubKey) != string(a.script) || s.Confirmed == k.unconf || s.Spent || s.Locked || s.LockedBy != nil ||
				string(s.ValueBlinder) != string(x.ValueBlinder()) || string(s.AssetBlinder) != string(x.AssetBlinder()) || s.ValueCommitment != x.ValueCommitment() || s.AssetCommitment != x.AssetCommitment() || string(s.Nonce) != string(x.Nonce()) {
				return "coin-data", fmt.Sprintf("the coin %v at %s is restored as %+v", k, u.path(), s)
			}
			delete(coins, key)
		}
	}
	if len(coins) > 0 {
		return "coin-extra", fmt.Sprintf("coins made up: %v", coins)
	}
	bal, err := d.Wallet.GetWalletBalance(ctx)
	if err != nil || !(len(bal) == 0 && len(balance) == 0) && !reflect.DeepEqual(bal, balance) {
		return "balance", fmt.Sprintf("the balance of the wallet is %v (%v) instead of %v", bal, err, balance)
	}
	// derivation goes on
	fresh := func(what, a string) (string, string) {
		for _, u := range uses {
			if at(u.place).address == a {
				return "reused-address", fmt.Sprintf("%s returns %s, used before", what, u.path())
			}
		}
		return "", ""
	}
	a, _, err := d.Wallet.GenerateAddressAndBlindingKey(ctx)
	if err != nil {
		return "derive", err.Error()
	}
	if s, m := fresh("a new wallet address", a); s != "" {
		return s, m
	}
	fa, err := d.Operator.DepositFeeAccount(ctx, 2)
	if err != nil {
		return "derive", err.Error()
	}
	for _, x := range fa {
		if s, m := fresh("a new fee address", x.Address); s != "" {
			return s, m
		}
	}
	nm, err := d.Operator.DepositMarket(ctx, "", "", 1)
	if err != nil || len(nm) != 1 {
		return "new-market", fmt.Sprintf("no market can be made after the restore: %v", err)
	}
	if s, m := fresh("a new market", nm[0].Address); s != "" {
		return s, m
	}
	if s := d.change(accts, uses); s != "" {
		return "reused-change", s
	}
	// and the daemon starts again
	d.Wallet.PassphraseChan()
	d.Mnem.Unset()
	if err := d.up(); err != nil {
		return "restart", fmt.Sprintf("the daemon does not start after the restore: %v", err)
	}
	if err := d.Wallet.UnlockWallet(ctx, pw); err != nil {
		return "restart", fmt.Sprintf("after a restart the wallet does not unlock: %v", err)
	}
	d.drain()
	return "", ""
}

// change addresses that come next.
func (d *daemon) change(accts []int, uses []use) (bad string) {
	must(d.Repo.VaultRepository().UpdateVault(ctx, func(v *domain.Vault) (*domain.Vault, error) {
		for _, a := range accts {
			for ch, f := range []func(int) (*domain.AddressInfo, error){v.DeriveNextExternalAddressForAccount, v.DeriveNextInternalAddressForAccount} {
				i, err := f(a)
				if err != nil {
					bad = err.Error()
					return v, nil
				}
				for _, u := range uses {
					if at(u.place).address == i.Address {
						bad = fmt.Sprintf("the next address of branch %d of account %d is %s, used before", ch, a, u.path())
					}
				}
			}
		}
		return v, nil
	}))
	return
}

// ---- cases ---------------------------------------------------------------

type task struct {
	kind   string
	p      population
	badger bool
	after  string // "retry" or "restart", of failures
	n      int
	txt    string
}

func (t task) String() string {
	s := "in-memory"
	if t.badger {
		s = "persistent"
	}
	s += ", used " + t.p.String()
	switch t.kind {
	case "explorer":
		s += fmt.Sprintf(", explorer call %d fails, then %s", t.n, t.after)
	case "storage":
		s += fmt.Sprintf(", storage call %d fails, then %s", t.n, t.after)
	case "client":
		s += fmt.Sprintf(", the client is gone at reply %d", t.n)
	}
	return s
}

func (t task) fail(sig, msg string) { c.Fail(sig, t.String()+": "+msg, t.String()) }

func run(t task) {
	c.Count("evaluations", 1)
	c.Count("restores of "+t.kind, 1)
	d := start(t.p, t.badger)
	defer d.Close()
	switch t.kind {
	case "explorer":
		d.h.fault = func(n int, call string) error {
			if n == t.n {
				return errors.New("explorer down")
			}
			return nil
		}
	case "storage":
		n := -1
		var mu sync.Mutex
		d.Gate.Fault = func(call string) error {
			mu.Lock()
			defer mu.Unlock()
			n++
			if n == t.n {
				d.h.mu.Lock()
				d.h.fired = true
				d.h.mu.Unlock()
				return errors.New("disk full")
			}
			return nil
		}
	}
	fail := -1
	if t.kind == "client" {
		fail = t.n
	}
	s, err, timeout := d.init(pass, fail)
	if timeout {
		t.fail("hang", "the restore never ends")
		return
	}
	d.h.fault, d.Gate.Fault = nil, nil
	if t.kind == "client" {
		if len(s.sent) <= t.n {
			c.Count("not reached", 1)
			return
		}
		if !d.settle() {
			t.fail("stuck-syncing", "the wallet is syncing forever")
			return
		}
		if ini, _ := d.initialized(); ini {
			c.Outcome("client gone, restored")
			if sig, m := d.restored(t.p, pass); sig != "" {
				t.fail(sig, m)
			}
			return
		}
		c.Outcome("client gone, not restored")
		t.again(d)
		return
	}
	if t.kind != "fine" && !d.h.hit() {
		c.Count("not reached", 1)
		return
	}
	c.Count("distinct_nontrivial", 1)
	if err == nil {
		c.Outcome(t.kind + " restored")
		sig, m := d.restored(t.p, pass)
		if sig == "" && t.p.behind() {
			sig, m = "account-behind-unused", "the accounts behind the unused one are not restored"
		}
		if sig != "" {
			if t.kind != "fine" {
				sig = "unreported-" + sig
			}
			t.fail(sig, m)
		}
		return
	}
	if t.kind == "fine" {
		t.fail("refused", fmt.Sprintf("the restore fails: %v", err))
		return
	}
	c.Outcome(t.kind + " reported")
	t.again(d)
}

// again restores after a failure.
func (t task) again(d *daemon) {
	d.settle() // before the restart, lest the old daemon goes on
	if t.after == "restart" {
		d.Mnem.Unset()
		if err := d.up(); err != nil {
			t.fail("restart", fmt.Sprintf("the daemon does not start after the restore failed: %v", err))
			return
		}
	}
	if !d.settle() {
		t.fail("stuck-syncing", "the restore failed but the wallet is still syncing")
		return
	}
	if ini, _ := d.initialized(); ini {
		if sig, m := d.restored(t.p, pass); sig != "" {
			t.fail("half-restored", "the restore failed, and the wallet is initialised without all of its funds: "+m)
		}
		return
	}
	if d.Mnem.IsSet() {
		t.fail("left-unlocked", "the mnemonic is left in memory after the restore failed")
		return
	}
	_, err, timeout := d.init(pass2, -1)
	if timeout {
		t.fail("retry", "after a failed restore another one never ends")
		return
	}
	if err != nil {
		t.fail("retry", fmt.Sprintf("after a failed restore another one fails: %v", err))
		return
	}
	if sig, m := d.restored(t.p, pass2); sig != "" {
		t.fail("retry-"+sig, "after a failed restore another one: "+m)
	}
}

func cases(thorough bool) []task {
	var out []task
	fine := func(b bool, p population) { out = append(out, task{kind: "fine", p: p, badger: b}) }
	M := domain.MarketAccountStart
	b, q, q2, junk := base, world.Quote(0), world.Quote(1), world.Quote(5)
	// gaps
	sets := [][]int{nil, {0}, {1}, {19}, {20}, {0, 20}, {0, 21}, {0, 1, 2}, {0, 19, 39}}
	if thorough {
		sets = append(sets, []int{2, 3}, []int{18}, []int{0, 19}, []int{5, 25}, []int{5, 26}, []int{0, 20, 40}, []int{0, 20, 41}, []int{19, 20, 21})
	}
	for _, a := range []int{domain.FeeAccount, domain.WalletAccount, M, M + 1} {
		for _, e := range sets {
			for _, i := range sets {
				var p population
				if a != domain.FeeAccount {
					p = append(p, use{place{0, 0, 0}, []coin{{asset: b, v: 5}}})
				}
				if a == M+1 {
					p = append(p, use{place{M, 0, 0}, nil})
				}
				for k, x := range e {
					p = append(p, use{place{a, 0, x}, []coin{{asset: b, v: uint64(10 + k)}}})
				}
				for k, x := range i {
					p = append(p, use{place{a, 1, x}, []coin{{asset: q, v: uint64(20 + k)}}})
				}
				fine(len(out)%2 == 0, p)
			}
		}
	}
	// assets of markets
	contents := [][]coin{
		nil,
		{{asset: b, v: 7}},
		{{asset: q, v: 7}},
		{{asset: b, v: 7}, {asset: q, v: 9}},
		{{asset: b, v: 7}, {asset: q, v: 9, unconf: true}},
		{{asset: b, v: 7, conf: true, unconf: true}, {asset: q, v: 9, conf: true}},
		{{asset: q, v: 9}, {asset: b, v: 7}, {asset: q, v: 1}, {asset: b, v: 1 << 60}},
		{{asset: b, v: 7}, {asset: q, v: 9}, {asset: junk, v: 1}},
		{{asset: q, v: 9}, {asset: junk, v: 1}},
	}
	spread := func(a int, ks []coin, how int) population {
		var p population
		switch how {
		case 0: // all at one address
			p = append(p, use{place{a, 0, 0}, ks})
		case 1: // one address each
			for i, k := range ks {
				p = append(p, use{place{a, 0, i}, []coin{k}})
			}
		case 2: // both branches, a spent address between
			for i, k := range ks {
				p = append(p, use{place{a, i % 2, 2 * i}, []coin{k}}, use{place{a, i % 2, 2*i + 1}, nil})
			}
		}
		if len(ks) == 0 {
			p = population{{place{a, 0, 0}, nil}}
		}
		return p
	}
	for _, ks := range contents {
		for how := 0; how < 3; how++ {
			for _, feed := range []population{nil, {{place{0, 0, 0}, []coin{{asset: b, v: 5}}}}} {
				fine(len(out)%2 == 0, append(append(population{}, feed...), spread(M, ks, how)...))
				if thorough {
					fine(len(out)%2 == 0, append(append(population{}, feed...), spread(M, ks, how)...))
				}
			}
		}
	}
	swap := func(ks []coin) []coin {
		var o []coin
		for _, k := range ks {
			if k.asset == q {
				k.asset = q2
			}
			o = append(o, k)
		}
		return o
	}
	for i, k1 := range contents {
		for j, k2 := range contents {
			if thorough || (i+j)%2 == 0 {
				fine((i+j)%4 < 2, append(spread(M, k1, j%3), spread(M+1, swap(k2), i%3)...))
			}
			if thorough {
				fine(false, append(append(spread(M, k1, j%3), spread(M+1, swap(k2), i%3)...), spread(M+2, k1[:len(k1)/2], 1)...))
			}
		}
	}
	// wallet account
	for _, ks := range contents {
		fine(len(out)%2 == 0, append(spread(domain.WalletAccount, ks, 2), spread(domain.FeeAccount, ks, 1)...))
	}
	// a market never used before one that is
	fine(false, population{{place{0, 0, 0}, []coin{{asset: b, v: 5}}}, {place{M + 1, 0, 0}, []coin{{asset: b, v: 5}, {asset: q, v: 7}}}})
	// failures
	pops := []population{
		{{place{0, 0, 0}, []coin{{asset: b, v: 5}}}, {place{M, 0, 0}, []coin{{asset: b, v: 7}}}, {place{M, 1, 1}, []coin{{asset: q, v: 9}}}},
	}
	if thorough {
		pops = append(pops,
			population{},
			append(append(spread(M, contents[3], 1), spread(M+1, swap(contents[6]), 2)...), use{place{1, 0, 3}, contents[3]}),
		)
	}
	for pi, p := range pops {
		accts, uses := p.found()
		calls := len(uses)
		for _, a := range append(accts, accts[len(accts)-1]+1) {
			for ch := 0; ch <= 1; ch++ {
				calls += p.last(a, ch) + 1 + gap
			}
		}
		for a := range accts {
			for ch := 0; ch <= 1; ch++ {
				if a != 1 {
					calls += p.last(accts[a], ch) + 1
				}
			}
		}
		for n := 0; n < calls; n++ {
			for _, after := range []string{"retry", "restart"} {
				out = append(out, task{kind: "explorer", p: p, badger: (n/2+pi)%2 == 0, n: n, after: after})
			}
		}
		for n := 0; n < 12; n++ {
			for _, after := range []string{"retry", "restart"} {
				out = append(out, task{kind: "storage", p: p, badger: true, n: n, after: after})
			}
		}
		for n := 0; n < 14; n++ {
			out = append(out, task{kind: "client", p: p, badger: n%2 == 0, n: n, after: "retry"})
		}
	}
	return out
}

func main() {
	c = hx.New("C14", "exploration")
	world.Stubs()
	ts := cases(c.Thorough())
	sort.SliceStable(ts, func(i, j int) bool { return ts[i].kind > ts[j].kind })
	c.Describe = func(i int) string { return ts[i].String() }
	c.Procs("restores", len(ts), func(i int) {
		if c.Expired() {
			c.Cap("time")
			return
		}
		run(ts[i])
	})
	c.Info("rule", "every pair of sets of used indexes of the two branches of each account from a list around the gap of 20; every content of one market and pairs of contents of two, spread over addresses in three ways; a failure at each explorer call, storage call and reply")
	c.Assume("The explorer is played by a chain that knows the used addresses; C27 checks the real client.")
	c.Assume("The mnemonic is kept with a cheap encryption (C16 and C12 check the real one).")
	c.Finish()
}
