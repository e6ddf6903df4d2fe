// Package world is a small daemon around the real services: real repositories
// (in memory or badger), real trade, operator and wallet services and
// blockchain listener, over a chain, an explorer and a crawler that are
// plain data, with transactions that are not blinded or signed.
package world

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/shopspring/decimal"
	log "github.com/sirupsen/logrus"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	dbbadger "github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/badger"
	"github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/inmemory"
	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
	"github.com/tdex-network/tdex-daemon/pkg/crawler"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/pkg/transactionutil"
	"github.com/tdex-network/tdex-daemon/verif/vsync"
	"github.com/vulpemventures/go-elements/network"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
)

var (
	Net   = &network.Regtest
	LBTC  = network.Regtest.AssetID
	Base  = LBTC
	Words = strings.Split("leave dice fine decrease dune ribbon ocean earn lunar account silver admit cheap fringe disorder trade because trade steak clock grace video jacket equal", " ")
	Pass  = "pass"
)

// Quote is the asset of the i-th market.
func Quote(i int) string { return fmt.Sprintf("%02x", 0xa0+i) + strings.Repeat("11", 31) }

// Fmt is readable short form of an asset.
func Fmt(asset string) string {
	switch asset {
	case LBTC:
		return "LBTC"
	case Quote(0):
		return "Q0"
	case Quote(1):
		return "Q1"
	}
	if len(asset) < 6 {
		return asset
	}
	return asset[:6]
}

func init() {
	log.SetOutput(io.Discard)
	log.SetLevel(log.PanicLevel)
}

// Store keeps the plain mnemonic in memory.
type Store struct {
	mu sync.Mutex
	m  string
}

func (s *Store) Set(m string) { s.mu.Lock(); s.m = m; s.mu.Unlock() }
func (s *Store) Unset()       { s.mu.Lock(); s.m = ""; s.mu.Unlock() }
func (s *Store) IsSet() bool  { s.mu.Lock(); defer s.mu.Unlock(); return s.m != "" }
func (s *Store) Get() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return strings.Split(s.m, " ")
}

// Enc is a cheap reversible encryption that checks the password.
type Enc struct{}

func (Enc) Encrypt(m, p string) (string, error) { return "enc:" + p + ":" + m, nil }
func (Enc) Decrypt(m, p string) (string, error) {
	if !strings.HasPrefix(m, "enc:"+p+":") {
		return "", errors.New("wrong password")
	}
	return strings.TrimPrefix(m, "enc:"+p+":"), nil
}

var stubs sync.Mutex

// Stubs puts the cheap managers in place of the real ones.
func Stubs() *Store {
	stubs.Lock()
	defer stubs.Unlock()
	if st, ok := domain.MnemonicStoreManager.(*Store); ok {
		return st
	}
	st := &Store{}
	domain.MnemonicStoreManager = st
	domain.EncrypterManager = Enc{}
	domain.SwapParserManager = Parser{}
	domain.PsetParserManager = Psets{}
	application.TradeManager = Trader{}
	application.TransactionManager = Txs{}
	application.BlinderManager = Blinder{}
	return st
}

var realManagers = []interface{}{domain.SwapParserManager, domain.PsetParserManager, application.TradeManager, application.TransactionManager, application.BlinderManager}

// Real puts the real handling of transactions and swap messages back in place,
// for worlds made afterwards too.
func Real() {
	Stubs()
	domain.SwapParserManager = realManagers[0].(domain.SwapParser)
	domain.PsetParserManager = realManagers[1].(domain.PsetParser)
	application.TradeManager = realManagers[2].(application.TradeHandler)
	application.TransactionManager = realManagers[3].(application.TransactionHandler)
	application.BlinderManager = realManagers[4].(application.Blinder)
}

// World is one daemon.
type World struct {
	Repo     ports.RepoManager
	Mnem     *Store
	Explorer *Explorer
	Crawler  *Crawler
	PubSub   *PubSub
	Listener application.BlockchainListener
	Trade    application.TradeService
	Operator application.OperatorService
	Wallet   application.WalletService
	Markets  []*domain.Market
	Coins    map[domain.UnspentKey]Coin
	Addr     map[int][]domain.AddressInfo
	Opts     Opts
	Gate     *Gate
	nextTx   int
}

// Coin is a wallet coin of the set-up.
type Coin struct {
	Account int
	Asset   string
	Value   uint64
	Unconf  bool
	AddrIdx int
}

// Opts of a world.
type Opts struct {
	Badger    bool
	Dir       string // of badger; "" is in memory
	Markets   int
	Coins     []Coin
	Expiry    time.Duration
	Slippage  decimal.Decimal
	Addresses int // external addresses per account, at least 1
	Fee       int64
	Prepare   func(m *domain.Market)
	NoVault   bool
	WithOps   bool // also operator and wallet services
	// Wrap replaces the repositories that the services see.
	Wrap func(ports.RepoManager) ports.RepoManager
	// Hooks makes the pubsub service, instead of one that records.
	Hooks func() ports.SecurePubSub
	// Gated puts a Gate in front of the storage.
	Gated bool
}

// Account of the i-th market.
func Account(i int) int { return domain.MarketAccountStart + i }

var ctx = context.Background()

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// New builds a world.
func New(o Opts) *World {
	w := &World{Coins: map[domain.UnspentKey]Coin{}, Addr: map[int][]domain.AddressInfo{}, Opts: o}
	w.Mnem = Stubs()
	if o.Badger {
		r, err := dbbadger.NewRepoManager(o.Dir, nil)
		must(err)
		w.Repo = r
	} else {
		w.Repo = inmemory.NewRepoManager()
	}
	if w.Opts.Expiry == 0 {
		w.Opts.Expiry = 2 * time.Minute
	}
	if w.Opts.Slippage.IsZero() {
		w.Opts.Slippage = decimal.NewFromFloat(0.05)
	}
	if w.Opts.Addresses == 0 {
		w.Opts.Addresses = 1
	}
	if !o.NoVault {
		w.seed()
	}
	w.Explorer = NewExplorer()
	w.Crawler = NewCrawler()
	w.PubSub = NewPubSub()
	w.services()
	return w
}

func (w *World) seed() {
	v, err := w.Repo.VaultRepository().GetOrCreateVault(ctx, Words, Pass, Net)
	must(err)
	accts := []int{domain.FeeAccount, domain.WalletAccount}
	for i := 0; i < w.Opts.Markets; i++ {
		accts = append(accts, Account(i))
	}
	must(w.Repo.VaultRepository().UpdateVault(ctx, func(v *domain.Vault) (*domain.Vault, error) {
		for _, a := range accts {
			v.InitAccount(a)
			for k := 0; k < w.Opts.Addresses; k++ {
				in, err := v.DeriveNextExternalAddressForAccount(a)
				must(err)
				w.Addr[a] = append(w.Addr[a], *in)
			}
		}
		return v, nil
	}))
	_ = v
	for i := 0; i < w.Opts.Markets; i++ {
		_, err := w.Repo.MarketRepository().GetOrCreateMarket(ctx, &domain.Market{AccountIndex: Account(i), Fee: w.Opts.Fee})
		must(err)
		must(w.Repo.MarketRepository().UpdateMarket(ctx, Account(i), func(m *domain.Market) (*domain.Market, error) {
			m.BaseAsset, m.QuoteAsset = Base, Quote(i)
			if w.Opts.Prepare != nil {
				w.Opts.Prepare(m)
			} else {
				must(m.MakeTradable())
			}
			return m, nil
		}))
	}
	for _, c := range w.Opts.Coins {
		w.AddCoin(c)
	}
}

// AddCoin puts a coin into the wallet.
func (w *World) AddCoin(c Coin) domain.UnspentKey {
	in := w.Addr[c.Account][c.AddrIdx]
	// every three coins are outputs of the same transaction
	h := sha256.Sum256([]byte(fmt.Sprintf("coin%d", w.nextTx/3)))
	script, _ := hex.DecodeString(in.Script)
	u := domain.Unspent{TxID: hex.EncodeToString(h[:]), VOut: uint32(w.nextTx % 3), Value: c.Value, AssetHash: c.Asset, ScriptPubKey: script, Address: in.Address,
		ValueBlinder: make([]byte, 32), AssetBlinder: make([]byte, 32), ValueCommitment: "09", AssetCommitment: "0a", Nonce: []byte{1}, RangeProof: []byte{1}, SurjectionProof: []byte{1}, Confirmed: !c.Unconf}
	w.nextTx++
	must(w.Repo.UnspentRepository().AddUnspents(ctx, []domain.Unspent{u}))
	w.Coins[u.Key()] = c
	return u.Key()
}

func (w *World) services() {
	r := w.Repo
	if w.Opts.Wrap != nil {
		r = w.Opts.Wrap(r)
	}
	if w.Opts.Gated {
		w.Gate = &Gate{RepoManager: r}
		r = w.Gate
	}
	var hooks ports.SecurePubSub = w.PubSub
	if w.Opts.Hooks != nil {
		hooks = w.Opts.Hooks()
	}
	w.Listener = application.NewBlockchainListener(w.Crawler, r, hooks, Base, Net)
	w.Trade = application.NewTradeService(r, w.Explorer, w.Listener, Base, w.Opts.Expiry, w.Opts.Slippage, Net)
	if w.Opts.WithOps {
		w.Operator = application.NewOperatorService(r, w.Explorer, w.Listener, Base, 25, Net, 1000)
		ws, err := application.NewWalletService(r, w.Explorer, w.Listener, Net, 25, Base)
		must(err)
		w.Wallet = ws
	}
}

// Restart makes new services over the same storage.
func (w *World) Restart() {
	if w.Gate != nil {
		w.Gate.Kill()
	}
	w.Crawler = NewCrawler()
	w.services()
}

// Close ends it.
func (w *World) Close() {
	if w.Gate != nil {
		w.Gate.Kill()
	}
	w.Repo.Close()
}

// Coin list of the wallet, by key.
func (w *World) Unspents() map[domain.UnspentKey]domain.Unspent {
	out := map[domain.UnspentKey]domain.Unspent{}
	for _, u := range w.Repo.UnspentRepository().GetAllUnspents(ctx) {
		out[u.Key()] = u
	}
	return out
}

// Trades by id.
func (w *World) Trades() map[string]*domain.Trade {
	out := map[string]*domain.Trade{}
	for i := 0; i < w.Opts.Markets; i++ {
		ts, err := w.Repo.TradeRepository().GetAllTradesByMarket(ctx, Quote(i))
		must(err)
		for _, t := range ts {
			out[t.ID.String()] = t
		}
	}
	return out
}

// ---- transactions ------------------------------------------------------

// Request is a swap request.
type Request struct {
	ID, AP, AR, Tx string
	P, R           uint64
	InK, OutK      map[string][]byte
}

func (s Request) GetId() string                           { return s.ID }
func (s Request) GetAssetP() string                       { return s.AP }
func (s Request) GetAmountP() uint64                      { return s.P }
func (s Request) GetAssetR() string                       { return s.AR }
func (s Request) GetAmountR() uint64                      { return s.R }
func (s Request) GetTransaction() string                  { return s.Tx }
func (s Request) GetInputBlindingKey() map[string][]byte  { return s.InK }
func (s Request) GetOutputBlindingKey() map[string][]byte { return s.OutK }

// NewRequest makes a request of the n-th trader.
func NewRequest(n int, ap string, p uint64, ar string, r uint64) Request {
	h := sha256.Sum256([]byte(fmt.Sprintf("trader%d", n)))
	in := transaction.NewTxInput(h[:], uint32(n))
	out := TxOut(ar, r, append([]byte{0, 20}, h[:20]...))
	pt, err := pset.New([]*transaction.TxInput{in}, []*transaction.TxOutput{out}, 2, 0)
	must(err)
	b, err := pt.ToBase64()
	must(err)
	return Request{ID: fmt.Sprintf("req%d", n), AP: ap, P: p, AR: ar, R: r, Tx: b, InK: map[string][]byte{"in": {1}}, OutK: map[string][]byte{"out": {1}}}
}

// TxOut is an explicit output.
func TxOut(asset string, v uint64, script []byte) *transaction.TxOutput {
	a, err := bufferutil.AssetHashToBytes(asset)
	must(err)
	val, err := bufferutil.ValueToBytes(v)
	must(err)
	return transaction.NewTxOutput(a, val, script)
}

// Trader fills proposals without blinding or signing.
type Trader struct{}

// FeePaid by the daemon for a swap.
const FeePaid = 100

func (Trader) FillProposal(o application.FillProposalOpts) (*application.FillProposalResult, error) {
	vsync.Point("FillProposal")
	coins, change, err := explorer.SelectUnspents(o.MarketUtxos, o.SwapRequest.GetAmountR(), o.SwapRequest.GetAssetR())
	if err != nil {
		return nil, err
	}
	fees, feeChange, err := explorer.SelectUnspents(o.FeeUtxos, FeePaid, LBTC)
	if err != nil {
		return nil, err
	}
	p, err := pset.NewPsetFromBase64(o.SwapRequest.GetTransaction())
	if err != nil {
		return nil, err
	}
	ins, outs := p.UnsignedTx.Inputs, p.UnsignedTx.Outputs
	all := append(append([]explorer.Utxo{}, coins...), fees...)
	for _, u := range all {
		h, _ := bufferutil.TxIDToBytes(u.Hash())
		ins = append(ins, transaction.NewTxInput(h, u.Index()))
	}
	sc := func(i domain.AddressInfo) []byte { b, _ := hex.DecodeString(i.Script); return b }
	outs = append(outs, TxOut(o.SwapRequest.GetAssetP(), o.SwapRequest.GetAmountP(), sc(o.OutputInfo)))
	if change > 0 {
		outs = append(outs, TxOut(o.SwapRequest.GetAssetR(), change, sc(o.ChangeInfo)))
	}
	if feeChange > 0 {
		outs = append(outs, TxOut(LBTC, feeChange, sc(o.FeeChangeInfo)))
	}
	np, err := pset.New(ins, outs, 2, 0)
	if err != nil {
		return nil, err
	}
	b, err := np.ToBase64()
	if err != nil {
		return nil, err
	}
	vsync.Point("FillProposal-done")
	return &application.FillProposalResult{PsetBase64: b, SelectedUnspents: all, InputBlindingKeys: o.SwapRequest.GetInputBlindingKey(), OutputBlindingKeys: o.SwapRequest.GetOutputBlindingKey()}, nil
}

// Psets reads transactions out of psets.
type Psets struct{}

func (Psets) GetTxID(p string) (string, error) {
	t, err := pset.NewPsetFromBase64(p)
	if err != nil {
		return "", err
	}
	return t.UnsignedTx.TxHash().String(), nil
}
func (Psets) GetTxHex(p string) (string, error) {
	t, err := pset.NewPsetFromBase64(p)
	if err != nil {
		return "", err
	}
	return t.UnsignedTx.ToHex()
}

// Ins of a transaction in hex or of a pset.
func Ins(tx string) []domain.UnspentKey {
	t := parse(tx)
	out := []domain.UnspentKey{}
	for _, in := range t.Inputs {
		out = append(out, domain.UnspentKey{TxID: bufferutil.TxIDFromBytes(in.Hash), VOut: in.Index})
	}
	return out
}

func parse(tx string) *transaction.Transaction {
	if _, err := hex.DecodeString(tx); err == nil {
		t, err := transaction.NewTxFromHex(tx)
		must(err)
		return t
	}
	p, err := pset.NewPsetFromBase64(tx)
	must(err)
	return p.UnsignedTx
}

// Txs extracts coins from unsigned, explicit transactions.
type Txs struct{}

func (Txs) ExtractUnspents(txhex string, info map[string]domain.AddressInfo, _ *network.Network) ([]domain.Unspent, []domain.UnspentKey, error) {
	t, err := transaction.NewTxFromHex(txhex)
	if err != nil {
		return nil, nil, err
	}
	add, spend := []domain.Unspent{}, Ins(txhex)
	for i, o := range t.Outputs {
		in, ok := info[hex.EncodeToString(o.Script)]
		if !ok {
			continue
		}
		add = append(add, domain.Unspent{TxID: t.TxHash().String(), VOut: uint32(i), Value: bufferutil.ValueFromBytes(o.Value), AssetHash: bufferutil.AssetHashFromBytes(o.Asset), ScriptPubKey: o.Script,
			Address: in.Address, ValueBlinder: make([]byte, 32), AssetBlinder: make([]byte, 32), Nonce: []byte{1}, RangeProof: []byte{1}, SurjectionProof: []byte{1}})
	}
	return add, spend, nil
}

func (Txs) ExtractBlindingData(string, map[string][]byte, map[string][]byte) (map[int]application.BlindingData, map[int]application.BlindingData, error) {
	return nil, nil, nil
}

// ---- explorer ----------------------------------------------------------

// Explorer is a chain that accepts a transaction unless an input is already
// spent by a different one.
type Explorer struct {
	mu    sync.Mutex
	Mem   map[string]string // txid -> hex
	spent map[domain.UnspentKey]string
	// Fault decides the outcome of a call: nil is the honest answer.
	Fault  func(call string) error
	Utxos  func(addrs []string) []explorer.Utxo
	Calls  []string
	Height int
}

func NewExplorer() *Explorer {
	return &Explorer{Mem: map[string]string{}, spent: map[domain.UnspentKey]string{}}
}

func (e *Explorer) call(s string) error {
	vsync.Point("explorer." + s)
	e.mu.Lock()
	e.Calls = append(e.Calls, s)
	e.mu.Unlock()
	if e.Fault != nil {
		return e.Fault(s)
	}
	return nil
}

func (e *Explorer) BroadcastTransaction(txhex string) (string, error) {
	err := e.call("Broadcast")
	t, perr := transaction.NewTxFromHex(txhex)
	if perr != nil {
		return "", perr
	}
	id := t.TxHash().String()
	if err != nil {
		return "", err
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	for _, in := range Ins(txhex) {
		if by, ok := e.spent[in]; ok && by != id {
			return "", errors.New("bad-txns-inputs-missingorspent")
		}
	}
	for _, in := range Ins(txhex) {
		e.spent[in] = id
	}
	e.Mem[id] = txhex
	return id, nil
}

// Broadcasted transaction ids.
func (e *Explorer) Broadcasted() []string {
	e.mu.Lock()
	defer e.mu.Unlock()
	out := []string{}
	for id := range e.Mem {
		out = append(out, id)
	}
	sort.Strings(out)
	return out
}

func (e *Explorer) GetUnspents(addr string, k [][]byte) ([]explorer.Utxo, error) {
	return e.GetUnspentsForAddresses([]string{addr}, k)
}
func (e *Explorer) GetUnspentsForAddresses(addrs []string, _ [][]byte) ([]explorer.Utxo, error) {
	if err := e.call("GetUnspents"); err != nil {
		return nil, err
	}
	if e.Utxos == nil {
		return nil, nil
	}
	return e.Utxos(addrs), nil
}

type tx struct{ *transaction.Transaction }

func (t tx) Hash() string                     { return t.TxHash().String() }
func (t tx) Version() int                     { return int(t.Transaction.Version) }
func (t tx) Locktime() int                    { return int(t.Transaction.Locktime) }
func (t tx) Inputs() []*transaction.TxInput   { return t.Transaction.Inputs }
func (t tx) Outputs() []*transaction.TxOutput { return t.Transaction.Outputs }
func (t tx) Size() int                        { return 100 }
func (t tx) Weight() int                      { return 400 }
func (t tx) Confirmed() bool                  { return true }
func (e *Explorer) hexOf(txid string) (string, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	h, ok := e.Mem[txid]
	return h, ok
}
func (e *Explorer) GetTransaction(txid string) (explorer.Transaction, error) {
	if err := e.call("GetTransaction"); err != nil {
		return nil, err
	}
	h, ok := e.hexOf(txid)
	if !ok {
		return nil, errors.New("unknown transaction")
	}
	t, err := transaction.NewTxFromHex(h)
	if err != nil {
		return nil, err
	}
	return tx{t}, nil
}
func (e *Explorer) GetTransactionHex(txid string) (string, error) {
	if err := e.call("GetTransactionHex"); err != nil {
		return "", err
	}
	h, ok := e.hexOf(txid)
	if !ok {
		return "", errors.New("unknown transaction")
	}
	return h, nil
}
func (e *Explorer) IsTransactionConfirmed(string) (bool, error) {
	return true, e.call("IsTransactionConfirmed")
}
func (e *Explorer) GetTransactionStatus(string) (map[string]interface{}, error) {
	return map[string]interface{}{"confirmed": true, "block_hash": "bh", "block_time": float64(7)}, e.call("GetTransactionStatus")
}
func (e *Explorer) GetTransactionsForAddress(string, []byte) ([]explorer.Transaction, error) {
	return nil, e.call("GetTransactionsForAddress")
}
func (e *Explorer) GetBlockHeight() (int, error) { return e.Height, e.call("GetBlockHeight") }
func (e *Explorer) Faucet(string, float64, string) (string, error) {
	return "", errors.New("not available")
}
func (e *Explorer) Mint(string, float64) (string, string, error) {
	return "", "", errors.New("not available")
}

// ---- crawler -----------------------------------------------------------

// Crawler records what is observed and lets the scenario send events.
type Crawler struct {
	mu  sync.Mutex
	Obs map[string]int
	Ev  chan crawler.Event
}

func NewCrawler() *Crawler { return &Crawler{Obs: map[string]int{}, Ev: make(chan crawler.Event, 16)} }

func (c *Crawler) Start() {}
func (c *Crawler) Stop()  { c.Ev <- crawler.CloseEvent{} }
func (c *Crawler) AddObservable(o crawler.Observable) {
	vsync.Point("crawler.Add")
	c.mu.Lock()
	c.Obs[o.Key()]++
	c.mu.Unlock()
}
func (c *Crawler) RemoveObservable(o crawler.Observable) {
	vsync.Point("crawler.Remove")
	c.mu.Lock()
	delete(c.Obs, o.Key())
	c.mu.Unlock()
}
func (c *Crawler) IsObservingAddresses(a []string) bool { return len(a) > 0 }
func (c *Crawler) GetEventChannel() chan crawler.Event  { return c.Ev }

// Observing tells whether the transaction or address is observed.
func (c *Crawler) Observing(key string) bool { c.mu.Lock(); defer c.mu.Unlock(); return c.Obs[key] > 0 }

// ---- pubsub ------------------------------------------------------------

type topic struct {
	c int
	l string
}

func (t topic) Code() int     { return t.c }
func (t topic) Label() string { return t.l }

// PubSub records what is published.
type PubSub struct {
	mu   sync.Mutex
	Msgs []string
	St   PubStore
}

// PubStore is a store with a password.
type PubStore struct {
	mu   sync.Mutex
	Pw   string
	Open bool
	Fail func(call string) error
}

func (s *PubStore) f(c string) error {
	if s.Fail != nil {
		return s.Fail(c)
	}
	return nil
}
func (s *PubStore) Init(p string) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if err := s.f("Init"); err != nil {
		return err
	}
	s.Pw = p
	return nil
}
func (s *PubStore) IsLocked() bool { s.mu.Lock(); defer s.mu.Unlock(); return !s.Open }
func (s *PubStore) Lock()          { s.mu.Lock(); s.Open = false; s.mu.Unlock() }
func (s *PubStore) Unlock(p string) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if err := s.f("Unlock"); err != nil {
		return err
	}
	if p != s.Pw {
		return errors.New("invalid password")
	}
	s.Open = true
	return nil
}
func (s *PubStore) ChangePassword(o, n string) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if err := s.f("ChangePassword"); err != nil {
		return err
	}
	if o != s.Pw {
		return errors.New("invalid password")
	}
	s.Pw = n
	return nil
}
func (s *PubStore) Close() error { return nil }

func NewPubSub() *PubSub { return &PubSub{} }

func (p *PubSub) Store() ports.PubSubStore                              { return &p.St }
func (p *PubSub) Subscribe(string, ...interface{}) (string, error)      { return "id", nil }
func (p *PubSub) Unsubscribe(string, string) error                      { return nil }
func (p *PubSub) ListSubscriptionsForTopic(string) []ports.Subscription { return nil }
func (p *PubSub) Publish(t string, m string) error {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.Msgs = append(p.Msgs, t+" "+m)
	return nil
}

// Published messages.
func (p *PubSub) Published() []string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]string{}, p.Msgs...)
}
func (p *PubSub) TopicsByCode() map[int]ports.Topic {
	return map[int]ports.Topic{application.TradeSettled: topic{application.TradeSettled, "TRADE_SETTLED"}, application.AccountLowBalance: topic{application.AccountLowBalance, "ACCOUNT_LOW_BALANCE"},
		application.AccountWithdraw: topic{application.AccountWithdraw, "ACCOUNT_WITHDRAW"}}
}
func (p *PubSub) TopicsByLabel() map[string]ports.Topic {
	out := map[string]ports.Topic{}
	for _, t := range p.TopicsByCode() {
		out[t.Label()] = t
	}
	return out
}

var _ = bytes.Equal

// Blinder reads explicit outputs.
type Blinder struct{}

func (Blinder) UnblindOutput(o *transaction.TxOutput, key []byte) (application.UnblindedResult, bool) {
	if len(key) == 0 {
		return nil, false
	}
	return &transactionutil.UnblindedResult{AssetHash: bufferutil.AssetHashFromBytes(o.Asset), Value: bufferutil.ValueFromBytes(o.Value), AssetBlinder: make([]byte, 32), ValueBlinder: make([]byte, 32)}, true
}
