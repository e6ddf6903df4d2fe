package world

import (
	"context"
	"encoding/hex"
	"errors"
	"runtime"
	"sort"
	"sync"

	"github.com/google/uuid"
	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	"github.com/tdex-network/tdex-daemon/pkg/crawler"
	mm "github.com/tdex-network/tdex-daemon/pkg/marketmaking"
	"github.com/vulpemventures/go-elements/network"
)

// ErrFault is what a failing storage call answers.
var ErrFault = errors.New("storage failure")

// Gate stands between services and storage: it can fail calls, and it ends
// every goroutine of a daemon that was killed.
type Gate struct {
	ports.RepoManager
	mu   sync.Mutex
	dead bool
	// Fault decides the outcome of a call, nil lets it through.
	Fault func(call string) error
	Calls []string
	// Deep makes further calls pass the gate.
	Deep bool
}

// Kill the daemon behind the gate.
func (g *Gate) Kill() { g.mu.Lock(); g.dead = true; g.mu.Unlock() }

func (g *Gate) alive() {
	g.mu.Lock()
	d := g.dead
	g.mu.Unlock()
	if d {
		runtime.Goexit()
	}
}

func (g *Gate) call(s string) error {
	g.alive()
	g.mu.Lock()
	g.Calls = append(g.Calls, s)
	f := g.Fault
	g.mu.Unlock()
	if f == nil {
		return nil
	}
	return f(s)
}

func (g *Gate) VaultRepository() domain.VaultRepository {
	g.alive()
	return gVault{g.RepoManager.VaultRepository(), g}
}
func (g *Gate) MarketRepository() domain.MarketRepository {
	g.alive()
	return gMarket{g.RepoManager.MarketRepository(), g}
}
func (g *Gate) UnspentRepository() domain.UnspentRepository {
	g.alive()
	return gUnspent{g.RepoManager.UnspentRepository(), g}
}
func (g *Gate) TradeRepository() domain.TradeRepository {
	g.alive()
	return gTrade{g.RepoManager.TradeRepository(), g}
}
func (g *Gate) RunTransaction(c context.Context, ro bool, h func(context.Context) (interface{}, error)) (interface{}, error) {
	if err := g.call("RunTransaction"); err != nil {
		return nil, err
	}
	return g.RepoManager.RunTransaction(c, ro, h)
}

type gVault struct {
	domain.VaultRepository
	g *Gate
}

func (r gVault) GetOrCreateVault(c context.Context, m []string, p string, n *network.Network) (*domain.Vault, error) {
	if err := r.g.call("GetOrCreateVault"); err != nil {
		return nil, err
	}
	return r.VaultRepository.GetOrCreateVault(c, m, p, n)
}
func (r gVault) UpdateVault(c context.Context, f func(*domain.Vault) (*domain.Vault, error)) error {
	if err := r.g.call("UpdateVault"); err != nil {
		return err
	}
	return r.VaultRepository.UpdateVault(c, f)
}
func (r gVault) GetAllDerivedAddressesInfoForAccount(c context.Context, a int) (domain.AddressesInfo, error) {
	if err := r.g.call("GetAllDerivedAddressesInfoForAccount"); err != nil {
		return nil, err
	}
	return r.VaultRepository.GetAllDerivedAddressesInfoForAccount(c, a)
}

type gMarket struct {
	domain.MarketRepository
	g *Gate
}

func (r gMarket) GetMarketByAsset(c context.Context, a string) (*domain.Market, int, error) {
	if err := r.g.call("GetMarketByAsset"); err != nil {
		return nil, -1, err
	}
	return r.MarketRepository.GetMarketByAsset(c, a)
}
func (r gMarket) GetOrCreateMarket(c context.Context, m *domain.Market) (*domain.Market, error) {
	if err := r.g.call("GetOrCreateMarket"); err != nil {
		return nil, err
	}
	return r.MarketRepository.GetOrCreateMarket(c, m)
}

type gUnspent struct {
	domain.UnspentRepository
	g *Gate
}

func (r gUnspent) GetAvailableUnspentsForAddresses(c context.Context, a []string) ([]domain.Unspent, error) {
	if err := r.g.call("GetAvailableUnspentsForAddresses"); err != nil {
		return nil, err
	}
	return r.UnspentRepository.GetAvailableUnspentsForAddresses(c, a)
}
func (r gUnspent) LockUnspents(c context.Context, k []domain.UnspentKey, t uuid.UUID) (int, error) {
	if err := r.g.call("LockUnspents"); err != nil {
		return -1, err
	}
	return r.UnspentRepository.LockUnspents(c, k, t)
}
func (r gUnspent) UnlockUnspents(c context.Context, k []domain.UnspentKey) (int, error) {
	if err := r.g.call("UnlockUnspents"); err != nil {
		return -1, err
	}
	return r.UnspentRepository.UnlockUnspents(c, k)
}
func (r gUnspent) SpendUnspents(c context.Context, k []domain.UnspentKey) (int, error) {
	if err := r.g.call("SpendUnspents"); err != nil {
		return -1, err
	}
	return r.UnspentRepository.SpendUnspents(c, k)
}

func (r gUnspent) AddUnspents(c context.Context, u []domain.Unspent) error {
	if r.g.Deep {
		if err := r.g.call("AddUnspents"); err != nil {
			return err
		}
	}
	return r.UnspentRepository.AddUnspents(c, u)
}
func (r gUnspent) ConfirmUnspents(c context.Context, k []domain.UnspentKey) (int, error) {
	if r.g.Deep {
		if err := r.g.call("ConfirmUnspents"); err != nil {
			return -1, err
		}
	}
	return r.UnspentRepository.ConfirmUnspents(c, k)
}
func (r gUnspent) GetAllUnspentsForAddresses(c context.Context, a []string) ([]domain.Unspent, error) {
	if r.g.Deep {
		if err := r.g.call("GetAllUnspentsForAddresses"); err != nil {
			return nil, err
		}
	}
	return r.UnspentRepository.GetAllUnspentsForAddresses(c, a)
}
func (r gTrade) GetTradeByTxID(c context.Context, id string) (*domain.Trade, error) {
	if r.g.Deep {
		if err := r.g.call("GetTradeByTxID"); err != nil {
			return nil, err
		}
	}
	return r.TradeRepository.GetTradeByTxID(c, id)
}

type gTrade struct {
	domain.TradeRepository
	g *Gate
}

func (r gTrade) GetOrCreateTrade(c context.Context, id *uuid.UUID) (*domain.Trade, error) {
	if err := r.g.call("GetOrCreateTrade"); err != nil {
		return nil, err
	}
	return r.TradeRepository.GetOrCreateTrade(c, id)
}
func (r gTrade) UpdateTrade(c context.Context, id *uuid.UUID, f func(*domain.Trade) (*domain.Trade, error)) error {
	if err := r.g.call("UpdateTrade"); err != nil {
		return err
	}
	return r.TradeRepository.UpdateTrade(c, id, f)
}

// ---- swaps -------------------------------------------------------------

// Swap is a proposal and what came of it.
type Swap struct {
	N, Market int
	Accepted  bool
	ID        string // of the accept message
	Tx, TxID  string // pset and id
	Refusal   string
	Err       error
	Deadline  uint64
	Coins     []domain.UnspentKey // of the wallet
	Raw       string              // the transaction in hex
}

// FlatMarket is priced at one unit for one unit.
func FlatMarket(m *domain.Market) {
	m.Fee = 25
	m.Strategy = mm.NewStrategyFromFormula(domain.PluggableStrategy{})
	m.Price = domain.Prices{BasePrice: decimal.NewFromInt(1), QuotePrice: decimal.NewFromInt(1)}
	m.Tradable = true
}

// Lot is what a trader asks for in Propose, in units of the quote asset.
const Lot = 99

// Propose sells base for a lot of quote to a flat market as trader n.
func (w *World) Propose(n, mkt int) *Swap {
	s := &Swap{N: n, Market: mkt}
	rq := NewRequest(n, Base, Lot+10, Quote(mkt), Lot)
	acc, fl, dl, err := w.Trade.TradePropose(ctx, application.Market{BaseAsset: Base, QuoteAsset: Quote(mkt)}, application.TradeSell, rq)
	s.Err, s.Deadline = err, dl
	if fl != nil {
		s.Refusal = fl.GetFailureMessage()
	}
	if acc != nil {
		s.Accepted = true
		s.ID, s.Tx = acc.GetId(), acc.GetTransaction()
		s.TxID, _ = Psets{}.GetTxID(s.Tx)
		s.Raw, _ = Psets{}.GetTxHex(s.Tx)
		for _, k := range Ins(s.Tx) {
			if _, ok := w.Coins[k]; ok {
				s.Coins = append(s.Coins, k)
			}
		}
	}
	return s
}

// Complete sends the trader's completion.
func (w *World) Complete(s *Swap) (string, error) {
	m := domain.SwapComplete(Msg{Kind: "com", Ref: s.ID, Tx: s.Tx})
	id, fl, err := w.Trade.TradeComplete(ctx, &m, nil)
	if err == nil && fl != nil {
		err = errors.New(fl.GetFailureMessage())
	}
	return id, err
}

// Reject sends the trader's failure about the message with the given id.
func (w *World) Reject(id string) error {
	m := domain.SwapFail(Msg{Kind: "fail", Ref: id, Text: "changed my mind", Code: 9})
	_, _, err := w.Trade.TradeComplete(ctx, nil, &m)
	return err
}

// Confirm delivers the confirmation of a transaction.
func (w *World) Confirm(txid, hx string) {
	w.Crawler.Ev <- crawler.TransactionEvent{TxID: txid, TxHex: hx, EventType: crawler.TransactionConfirmed, BlockHash: "bh", BlockTime: 7}
}

// Available coins of the set-up: neither locked nor spent.
func (w *World) Available() map[domain.UnspentKey]bool {
	out := map[domain.UnspentKey]bool{}
	us, err := w.Repo.UnspentRepository().GetAvailableUnspents(ctx)
	must(err)
	for _, u := range us {
		if _, ok := w.Coins[u.Key()]; ok {
			out[u.Key()] = true
		}
	}
	return out
}

// CoinNames gives every set-up coin a short name.
func (w *World) CoinNames(ks []domain.UnspentKey) []string {
	out := []string{}
	for _, k := range ks {
		out = append(out, Fmt(w.Coins[k].Asset)+"-"+k.TxID[:4])
	}
	sort.Strings(out)
	return out
}

var _ = hex.EncodeToString
