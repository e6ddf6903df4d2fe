// C29: the traders' client library. Orders are made through it over a real
// connection with a provider that answers each of its three requests in every way,
// and with a whole daemon; all that the trader signs away is counted.
//
//mc:instr pkg/wallet=M
package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"net"
	"strings"
	"sync"

	"github.com/btcsuite/btcd/btcec"
	"github.com/btcsuite/btcutil/psbt"
	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	grpchandler "github.com/tdex-network/tdex-daemon/internal/interfaces/grpc/handler"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
	"github.com/tdex-network/tdex-daemon/pkg/trade"
	tradeclient "github.com/tdex-network/tdex-daemon/pkg/trade/client"
	trademarket "github.com/tdex-network/tdex-daemon/pkg/trade/market"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/tdex-network/tdex-daemon/verif/onchain"
	"github.com/tdex-network/tdex-daemon/verif/txs"
	"github.com/tdex-network/tdex-daemon/verif/world"
	pbswap "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	pb "github.com/tdex-network/tdex-protobuf/generated/go/trade"
	"github.com/tdex-network/tdex-protobuf/generated/go/types"
	"github.com/vulpemventures/go-elements/payment"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
)

var (
	c     *hx.Check
	base  = world.Base
	quote = world.Quote(0)
	third = world.Quote(1)
	boom  = errors.New("boom")
)

const me = "trader"

// coin of the trader.
type coin struct {
	asset string
	v     uint64
	conf  bool
}

func (k coin) out() *transaction.TxOutput {
	if k.conf {
		return txs.Conf(k.asset, k.v, txs.Script(me), txs.Blind(me))
	}
	return txs.Out(k.asset, k.v, txs.Script(me))
}

func point(i int) (byte, uint32) { return byte(0x20 + i), uint32(i % 3) }

// order of the trader.
type order struct {
	sell     bool
	asset    string
	amount   uint64
	coins    []coin
	complete bool
}

func (o order) String() string {
	s := "buys "
	if o.sell {
		s = "sells "
	}
	s += fmt.Sprint(o.amount, " ", world.Fmt(o.asset), ", coins")
	for _, k := range o.coins {
		s += fmt.Sprintf(" %d %s", k.v, world.Fmt(k.asset))
		if k.conf {
			s += " blinded"
		}
	}
	if o.complete {
		s += ", to completion"
	}
	return s
}

func (o order) other() string {
	if o.asset == base {
		return quote
	}
	return base
}

// price is what the provider asks or gives for an amount.
func (o order) price() uint64 { return 2*o.amount + 7 }

// flows are what goes out and comes in.
func (o order) flows() (p string, pv uint64, r string, rv uint64) {
	if o.sell == (o.asset == base) { // gives what it names
		return o.asset, o.amount, o.other(), o.price()
	}
	return o.other(), o.price(), o.asset, o.amount
}

// chain is the explorer of the trader.
type chain struct {
	explorer.Service
	coins []coin
	fail  bool
}

func (e chain) GetUnspents(addr string, keys [][]byte) ([]explorer.Utxo, error) {
	if e.fail {
		return nil, boom
	}
	l := []explorer.Utxo{}
	for i, k := range e.coins {
		h, n := point(i)
		id := hex.EncodeToString(bytes.Repeat([]byte{h}, 32))
		o := k.out()
		if k.conf {
			abf, vbf := txs.Secrets(k.asset, k.v, o.Script, txs.Blind(me))
			l = append(l, esplora.NewWitnessUtxo(id, n, k.v, k.asset, hex.EncodeToString(o.Value), hex.EncodeToString(o.Asset), vbf, abf, o.Script, o.Nonce, o.RangeProof, o.SurjectionProof, true))
		} else {
			l = append(l, esplora.NewWitnessUtxo(id, n, k.v, k.asset, "", "", nil, nil, o.Script, nil, nil, nil, true))
		}
	}
	return l, nil
}

// provider answers as it's told.
type provider struct {
	pb.UnimplementedTradeServer
	mu        sync.Mutex
	back      pb.TradeServer // if set, answers
	price     func(*pb.MarketPriceRequest) (*pb.MarketPriceReply, error)
	propose   func(*pb.TradeProposeRequest) ([]*pb.TradeProposeReply, error)
	complete  func(*pb.TradeCompleteRequest) ([]*pb.TradeCompleteReply, error)
	priced    []*pb.MarketPriceRequest
	proposed  []*pb.TradeProposeRequest
	completed []*pb.TradeCompleteRequest
}

func (s *provider) MarketPrice(x context.Context, r *pb.MarketPriceRequest) (*pb.MarketPriceReply, error) {
	s.mu.Lock()
	s.priced = append(s.priced, r)
	f, b := s.price, s.back
	s.mu.Unlock()
	if b != nil {
		return b.MarketPrice(x, r)
	}
	return f(r)
}

func (s *provider) TradePropose(r *pb.TradeProposeRequest, st pb.Trade_TradeProposeServer) error {
	s.mu.Lock()
	s.proposed = append(s.proposed, r)
	f, b := s.propose, s.back
	s.mu.Unlock()
	if b != nil {
		return b.TradePropose(r, st)
	}
	l, err := f(r)
	for _, m := range l {
		if err := st.Send(m); err != nil {
			return err
		}
	}
	return err
}

func (s *provider) TradeComplete(r *pb.TradeCompleteRequest, st pb.Trade_TradeCompleteServer) error {
	s.mu.Lock()
	s.completed = append(s.completed, r)
	f, b := s.complete, s.back
	s.mu.Unlock()
	if b != nil {
		return b.TradeComplete(r, st)
	}
	l, err := f(r)
	for _, m := range l {
		if err := st.Send(m); err != nil {
			return err
		}
	}
	return err
}

var (
	prov   *provider
	client *tradeclient.Client
)

func serve() {
	if prov != nil {
		return
	}
	prov = &provider{}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := grpc.NewServer(grpc.MaxRecvMsgSize(64 << 20))
	pb.RegisterTradeServer(s, prov)
	go s.Serve(l)
	a := l.Addr().(*net.TCPAddr)
	if client, err = tradeclient.NewTradeClient("127.0.0.1", a.Port); err != nil {
		panic(err)
	}
}

func address() string {
	_, bp := btcec.PrivKeyFromBytes(btcec.S256(), txs.Blind(me))
	a, err := payment.FromPublicKey(txs.Key(me).PubKey(), world.Net, bp).ConfidentialWitnessPubKeyHash()
	if err != nil {
		panic(err)
	}
	return a
}

// place the order; the answer of the library.
func (o order) place(e chain) (acc []byte, txid string, err error, pn interface{}, st string) {
	t, err := trade.NewTrade(trade.NewTradeOpts{Chain: world.Net.Name, ExplorerService: e, Client: client})
	if err != nil {
		panic(err)
	}
	m := trademarket.Market{BaseAsset: base, QuoteAsset: quote}
	pn, st = hx.Catch(func() {
		if o.complete {
			x := trade.BuyOrSellAndCompleteOpts{Market: m, Amount: o.amount, Asset: o.asset, PrivateKey: txs.Key(me).Serialize(), BlindingKey: txs.Blind(me)}
			if o.sell {
				txid, err = t.SellAndComplete(x)
			} else {
				txid, err = t.BuyAndComplete(x)
			}
			return
		}
		x := trade.BuyOrSellOpts{Market: m, Amount: o.amount, Asset: o.asset, Address: address(), BlindingKey: txs.Blind(me)}
		if o.sell {
			acc, err = t.Sell(x)
		} else {
			acc, err = t.Buy(x)
		}
	})
	return
}

// deal is a transaction to be accepted, before it's made.
type deal struct {
	o      order
	ins    []txs.In
	keys   []string // who signs, "" nobody
	outs   []*transaction.TxOutput
	n      int // outputs that are the trader's, at the front
	edit   func(p *pset.Pset)
	text   func(s string) string
	accept func(a *pbswap.SwapAccept)
}

// dev is one way for a step to go.
type dev struct {
	name  string
	fine  bool // the step goes as it should
	quiet bool // may be taken as well as refused
	price func(o order, m *pb.MarketPriceReply) (*pb.MarketPriceReply, error)
	prop  func(r *pb.TradeProposeReply) ([]*pb.TradeProposeReply, error)
	deal  func(d *deal)
	comp  func(r *pb.TradeCompleteReply) ([]*pb.TradeCompleteReply, error)
}

func (d *deal) reply(rq *pbswap.SwapRequest) *pb.TradeProposeReply {
	p := txs.Pset(d.ins, d.outs)
	for i, k := range d.keys {
		if k != "" {
			txs.Sign(p, i, k)
		}
	}
	if d.edit != nil {
		d.edit(p)
	}
	s := txs.B64(p)
	if d.text != nil {
		s = d.text(s)
	}
	keys := map[string][]byte{txs.ScriptHex(me): txs.Blind(me), txs.ScriptHex("provider"): txs.Blind("provider")}
	a := &pbswap.SwapAccept{Id: "accept", RequestId: rq.GetId(), Transaction: s, InputBlindingKey: keys, OutputBlindingKey: keys}
	if d.accept != nil {
		d.accept(a)
	}
	return &pb.TradeProposeReply{SwapAccept: a, ExpiryTimeUnix: 99}
}

// newDeal is what an honest provider makes of a request.
func newDeal(o order, rq *pbswap.SwapRequest) (d *deal, err error) {
	d = &deal{o: o}
	p, err := pset.NewPsetFromBase64(rq.GetTransaction())
	if err != nil {
		return nil, err
	}
	for i, in := range p.UnsignedTx.Inputs {
		d.ins = append(d.ins, txs.In{Hash: in.Hash[0], Index: in.Index, Prev: p.Inputs[i].WitnessUtxo})
		d.keys = append(d.keys, "")
	}
	R, v := rq.GetAssetR(), rq.GetAmountR()
	d.ins = append(d.ins, txs.In{Hash: 0x91, Index: 0, Prev: txs.Out(R, v+50, txs.Script("provider"))}, txs.In{Hash: 0x92, Index: 4, Prev: txs.Out(base, 5000, txs.Script("provider"))})
	d.keys = append(d.keys, "provider", "provider")
	for _, q := range p.UnsignedTx.Outputs {
		a, v, ok := txs.Open(q, nil)
		if !ok {
			return nil, errors.New("an output of the request is not readable")
		}
		d.outs = append(d.outs, txs.Conf(a, v, q.Script, txs.Blind(me)))
	}
	d.n = len(d.outs)
	d.outs = append(d.outs, txs.Conf(rq.GetAssetP(), rq.GetAmountP(), txs.Script("provider"), txs.Blind("provider")), txs.Conf(R, 50, txs.Script("provider"), txs.Blind("provider")), txs.Conf(base, 4500, txs.Script("provider"), txs.Blind("provider")), txs.Fee(base, 500))
	return d, nil
}

// signedAway tells what the trader loses by what was signed, per asset, and how
// many of its coins are.
func signedAway(tx *transaction.Transaction, sigs func(i int) [][2][]byte, coins []coin) (net map[string]int64, n int) {
	net = map[string]int64{}
	spent := map[int]bool{}
	for i, in := range tx.Inputs {
		for k, x := range coins {
			h, at := point(k)
			if spent[k] || !bytes.Equal(in.Hash, bytes.Repeat([]byte{h}, 32)) || in.Index != at {
				continue
			}
			for _, s := range sigs(i) {
				if sig, _ := onchain.Signed(tx, i, x.out(), s[0], s[1]); sig == "" {
					net[x.asset] += int64(x.v)
					spent[k] = true
					n++
					break
				}
			}
		}
	}
	for _, q := range tx.Outputs {
		if !bytes.Equal(q.Script, txs.Script(me)) {
			continue
		}
		if a, v, ok := txs.Open(q, txs.Blind(me)); ok {
			net[a] -= int64(v)
		}
	}
	return
}

func psetSigs(p *pset.Pset) func(i int) [][2][]byte {
	return func(i int) (l [][2][]byte) {
		for _, s := range p.Inputs[i].PartialSigs {
			l = append(l, [2][]byte{s.Signature, s.PubKey})
		}
		return
	}
}

// covers tells whether the loss is what was agreed on, at most.
func (o order) covers(net map[string]int64) bool {
	p, pv, r, rv := o.flows()
	want := map[string]int64{p: int64(pv), r: -int64(rv)}
	for a, v := range net {
		if v > want[a] {
			return false
		}
	}
	return net[r] <= want[r]
}

type test struct {
	o     order
	steps []dev // one that deviates, or none
	unfit bool  // the coins do not suffice
	down  bool  // the explorer fails
}

func (t test) String() string {
	s := t.o.String()
	for _, d := range t.steps {
		s += "; " + d.name
	}
	if t.down {
		s += "; the explorer fails"
	}
	return s
}

func run(t test) {
	serve()
	o := t.o
	fine, may := !t.unfit && !t.down, !t.unfit && !t.down
	at := 0 // first step that is not as it should
	for _, d := range t.steps {
		fine = fine && d.fine
		// without completion the accepted transaction is for the caller to judge
		may = may && (d.fine || d.quiet || (d.deal != nil && !o.complete))
		if !d.fine {
			switch {
			case d.price != nil:
				at = 1
			case d.prop != nil || d.deal != nil:
				at = 2
			default:
				at = 3
			}
		}
	}
	var sent *pbswap.SwapAccept
	bad := func(sig, f string, a ...interface{}) { c.Fail(sig, t.String()+": "+fmt.Sprintf(f, a...), t.String()) }
	odd := ""
	P, pv, R, rv := o.flows()
	prov.mu.Lock()
	prov.back, prov.priced, prov.proposed, prov.completed = nil, nil, nil, nil
	prov.price = func(*pb.MarketPriceRequest) (*pb.MarketPriceReply, error) {
		m := &pb.MarketPriceReply{Prices: []*types.PriceWithFee{{Asset: o.other(), Amount: o.price(), Price: &types.Price{BasePrice: 1, QuotePrice: 1}, Fee: &types.Fee{BasisPoint: 25}}}}
		for _, d := range t.steps {
			if d.price != nil {
				return d.price(o, m)
			}
		}
		return m, nil
	}
	prov.propose = func(r *pb.TradeProposeRequest) ([]*pb.TradeProposeReply, error) {
		d, err := newDeal(o, r.GetSwapRequest())
		if err != nil {
			odd = "the proposal cannot be read: " + err.Error()
			return nil, err
		}
		for _, x := range t.steps {
			if x.deal != nil {
				x.deal(d)
			}
		}
		m := d.reply(r.GetSwapRequest())
		sent = m.GetSwapAccept()
		for _, x := range t.steps {
			if x.prop != nil {
				l, err := x.prop(m)
				return l, err
			}
		}
		return []*pb.TradeProposeReply{m}, nil
	}
	prov.complete = func(r *pb.TradeCompleteRequest) ([]*pb.TradeCompleteReply, error) {
		m := &pb.TradeCompleteReply{Txid: "the txid"}
		for _, x := range t.steps {
			if x.comp != nil {
				return x.comp(m)
			}
		}
		return []*pb.TradeCompleteReply{m}, nil
	}
	prov.mu.Unlock()
	acc, txid, err, pn, st := o.place(chain{coins: o.coins, fail: t.down})
	prov.mu.Lock()
	defer prov.mu.Unlock()
	c.Count("evaluations", 1)
	if pn != nil {
		bad("crash", "the library crashes: %v %s", pn, st)
		return
	}
	if odd != "" {
		bad("proposal", "%s", odd)
	}
	if err != nil && (len(acc) > 0 || txid != "") {
		bad("both", "both a result and the error %v", err)
	}
	if fine && err != nil {
		bad("refused", "fails: %v", err)
		return
	}
	if err == nil && !may && !(at == 3 && !o.complete) {
		bad("swallowed", "reported as a success")
	}
	// what was asked
	for _, r := range prov.priced {
		if r.GetMarket().GetBaseAsset() != base || r.GetMarket().GetQuoteAsset() != quote || (r.GetType() == pb.TradeType_SELL) != o.sell || r.GetAmount() != o.amount || r.GetAsset() != o.asset {
			bad("price-request", "the price is asked by %v", r)
		}
	}
	if at == 1 && !may && len(prov.proposed) > 0 {
		bad("proposed", "a proposal is made")
		return
	}
	if len(prov.proposed) > 1 || len(prov.completed) > 1 {
		bad("twice", "%d proposals and %d completions", len(prov.proposed), len(prov.completed))
	}
	if fine && len(prov.proposed) == 0 {
		bad("no-proposal", "no proposal is made")
	}
	for _, r := range prov.proposed {
		q := r.GetSwapRequest()
		if r.GetMarket().GetBaseAsset() != base || r.GetMarket().GetQuoteAsset() != quote || (r.GetType() == pb.TradeType_SELL) != o.sell || q.GetAssetP() != P || q.GetAssetR() != R || q.GetAmountP() != pv || q.GetAmountR() != rv {
			if at != 1 {
				bad("proposal", "proposes %d %s for %d %s, market %v, type %v", q.GetAmountP(), world.Fmt(q.GetAssetP()), q.GetAmountR(), world.Fmt(q.GetAssetR()), r.GetMarket(), r.GetType())
			}
		}
		p, err := pset.NewPsetFromBase64(q.GetTransaction())
		if err != nil {
			bad("proposal", "the transaction cannot be read: %v", err)
			continue
		}
		net, seen := map[string]int64{}, map[int]bool{}
		for i, in := range p.UnsignedTx.Inputs {
			own := -1
			for k := range o.coins {
				if h, n := point(k); bytes.Equal(in.Hash, bytes.Repeat([]byte{h}, 32)) && in.Index == n {
					own = k
				}
			}
			if own < 0 || seen[own] {
				bad("proposal-input", "input %d is no coin of the trader, or is there twice", i)
				continue
			}
			seen[own] = true
			net[o.coins[own].asset] += int64(o.coins[own].v)
			w := p.Inputs[i].WitnessUtxo
			if x := o.coins[own].out(); w == nil || !bytes.Equal(w.Script, x.Script) || !bytes.Equal(w.Value, x.Value) || !bytes.Equal(w.Asset, x.Asset) {
				bad("proposal-input", "input %d does not tell what it spends", i)
			}
			if len(p.Inputs[i].PartialSigs) > 0 {
				bad("proposal-signed", "input %d of the proposal is signed", i)
			}
		}
		for i, x := range p.UnsignedTx.Outputs {
			a, v, ok := txs.Open(x, txs.Blind(me))
			if !ok || !bytes.Equal(x.Script, txs.Script(me)) || v == 0 {
				bad("proposal-output", "output %d of the proposal does not go to the trader", i)
			}
			net[a] -= int64(v)
		}
		for a, v := range net {
			if at != 1 && v != map[string]int64{P: int64(pv), R: -int64(rv)}[a] {
				bad("proposal-flows", "the proposed transaction takes %d %s", v, world.Fmt(a))
			}
		}
		for i, m := range []map[string][]byte{q.GetInputBlindingKey(), q.GetOutputBlindingKey()} {
			if !bytes.Equal(m[txs.ScriptHex(me)], txs.Blind(me)) {
				bad("proposal-keys", "the blinding key is missing (%d)", i)
			}
		}
	}
	// what was signed
	for _, r := range prov.completed {
		if r.GetSwapFail() != nil {
			continue
		}
		if !o.complete {
			bad("completed", "a trade is completed that was not asked to be")
		}
		s := r.GetSwapComplete()
		p, err := pset.NewPsetFromBase64(s.GetTransaction())
		if err != nil {
			bad("completion", "the transaction cannot be read: %v", err)
			continue
		}
		net, n := signedAway(p.UnsignedTx, psetSigs(p), o.coins)
		if n > 0 && !o.covers(net) {
			bad("signed-away", "signs a transaction that takes %v from it, instead of paying %d %s for %d %s", named(net), pv, world.Fmt(P), rv, world.Fmt(R))
		}
		if fine {
			want := 0
			a := txs.Parse(sent.GetTransaction())
			for i := range a.Inputs {
				if a.Inputs[i].WitnessUtxo != nil && bytes.Equal(a.Inputs[i].WitnessUtxo.Script, txs.Script(me)) {
					want++
				}
			}
			if n != want || s.GetAcceptId() != "accept" {
				bad("completion", "%d of %d coins are signed; the completion is of %q", n, want, s.GetAcceptId())
			}
			if a.UnsignedTx.TxHash() != p.UnsignedTx.TxHash() {
				bad("completion", "completes another transaction")
			}
		}
	}
	if err == nil {
		c.Count("distinct_nontrivial", 1)
		c.Outcome("done")
		if o.complete && (txid != "the txid" || len(prov.completed) != 1) && at != 3 {
			bad("txid", "returns %q after %d completions", txid, len(prov.completed))
		}
		if !o.complete && sent != nil {
			got := &pbswap.SwapAccept{}
			if proto.Unmarshal(acc, got) != nil || !proto.Equal(got, sent) {
				bad("accept", "another answer is returned than the provider's")
			}
		}
		return
	}
	c.Outcome(fmt.Sprintf("refused at step %d", at))
}

func named(net map[string]int64) string {
	s := []string{}
	for _, a := range []string{base, quote, third} {
		if net[a] != 0 {
			s = append(s, fmt.Sprint(net[a], " ", world.Fmt(a)))
		}
	}
	return strings.Join(s, " and ")
}

// whole trades with a daemon.
func whole(o order) {
	serve()
	d := onchain.Start(onchain.Join(
		onchain.Cs(domain.FeeAccount, base, 5000, 6000),
		onchain.Cs(world.Account(0), base, 100000, "c", 40000), onchain.Cs(world.Account(0), quote, 900000, 800000),
	), world.Opts{Markets: 1, Addresses: 2, Prepare: world.FlatMarket, Slippage: decimal.NewFromInt(1)})
	defer d.Close()
	bad := func(sig, f string, a ...interface{}) {
		c.Fail(sig, "with a whole daemon: "+o.String()+": "+fmt.Sprintf(f, a...), o.String())
	}
	prov.mu.Lock()
	prov.back, prov.priced, prov.proposed, prov.completed = grpchandler.NewTraderHandler(d.Trade), nil, nil, nil
	prov.mu.Unlock()
	acc, txid, err, pn, st := o.place(chain{coins: o.coins})
	c.Count("evaluations", 1)
	if pn != nil {
		bad("crash", "the library crashes: %v %s", pn, st)
		return
	}
	if err != nil {
		bad("whole-refused", "fails: %v", err)
		return
	}
	c.Count("distinct_nontrivial", 1)
	c.Outcome("whole daemon: done")
	prov.mu.Lock()
	defer prov.mu.Unlock()
	rq := prov.proposed[0].GetSwapRequest()
	want := map[string]int64{rq.GetAssetP(): int64(rq.GetAmountP()), rq.GetAssetR(): -int64(rq.GetAmountR())}
	if !o.complete {
		if len(acc) == 0 {
			bad("accept", "no answer is returned")
		}
		return
	}
	raw := d.Explorer.Mem[txid]
	if raw == "" {
		bad("txid", "transaction %q was not broadcast", txid)
		return
	}
	tx, err := transaction.NewTxFromHex(raw)
	if err != nil {
		panic(err)
	}
	net, n := signedAway(tx, func(i int) [][2][]byte {
		if w := tx.Inputs[i].Witness; len(w) == 2 {
			return [][2][]byte{{w[0], w[1]}}
		}
		return nil
	}, o.coins)
	if n == 0 || net[rq.GetAssetP()] != want[rq.GetAssetP()] || net[rq.GetAssetR()] != want[rq.GetAssetR()] {
		bad("whole-flows", "%d coins are signed, and the transaction takes %s, instead of %s", n, named(net), named(want))
	}
}

func prices() []dev {
	p := func(name string, quiet bool, f func(o order, m *pb.MarketPriceReply) (*pb.MarketPriceReply, error)) dev {
		return dev{name: "price: " + name, quiet: quiet, price: f}
	}
	set := func(name string, quiet bool, f func(o order, q *types.PriceWithFee)) dev {
		return p(name, quiet, func(o order, m *pb.MarketPriceReply) (*pb.MarketPriceReply, error) {
			f(o, m.Prices[0])
			return m, nil
		})
	}
	return []dev{
		p("fails", false, func(order, *pb.MarketPriceReply) (*pb.MarketPriceReply, error) { return nil, boom }),
		p("none", false, func(order, *pb.MarketPriceReply) (*pb.MarketPriceReply, error) { return &pb.MarketPriceReply{}, nil }),
		p("two", true, func(o order, m *pb.MarketPriceReply) (*pb.MarketPriceReply, error) {
			m.Prices = append(m.Prices, &types.PriceWithFee{})
			return m, nil
		}),
		p("empty", false, func(o order, m *pb.MarketPriceReply) (*pb.MarketPriceReply, error) {
			m.Prices[0] = &types.PriceWithFee{}
			return m, nil
		}),
		set("no asset", false, func(o order, q *types.PriceWithFee) { q.Asset = "" }),
		set("no hex", false, func(o order, q *types.PriceWithFee) { q.Asset = "zz" }),
		set("short asset", false, func(o order, q *types.PriceWithFee) { q.Asset = o.other()[2:] }),
		set("same asset", false, func(o order, q *types.PriceWithFee) { q.Asset = o.asset }),
		set("another asset", false, func(o order, q *types.PriceWithFee) { q.Asset = third }),
		set("nothing", false, func(o order, q *types.PriceWithFee) { q.Amount = 0 }),
		{name: "price: without details", fine: true, price: func(o order, m *pb.MarketPriceReply) (*pb.MarketPriceReply, error) {
			m.Prices[0].Price, m.Prices[0].Fee = nil, nil
			return m, nil
		}},
	}
}

// dear prices are more than the trader has.
func dear() (l []dev) {
	for _, v := range []uint64{1 << 40, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64} {
		v := v
		l = append(l, dev{name: fmt.Sprint("price: ", v), price: func(o order, m *pb.MarketPriceReply) (*pb.MarketPriceReply, error) {
			m.Prices[0].Amount = v
			return m, nil
		}})
	}
	return
}

func proposals() []dev {
	p := func(name string, quiet bool, f func(m *pb.TradeProposeReply) ([]*pb.TradeProposeReply, error)) dev {
		return dev{name: "proposal: " + name, quiet: quiet, prop: f}
	}
	one := func(m *pb.TradeProposeReply) ([]*pb.TradeProposeReply, error) { return []*pb.TradeProposeReply{m}, nil }
	fl := &pbswap.SwapFail{Id: "f", FailureCode: 8, FailureMessage: "no"}
	return []dev{
		p("fails", false, func(*pb.TradeProposeReply) ([]*pb.TradeProposeReply, error) { return nil, boom }),
		p("no answer", false, func(*pb.TradeProposeReply) ([]*pb.TradeProposeReply, error) { return nil, nil }),
		p("an empty answer", false, func(m *pb.TradeProposeReply) ([]*pb.TradeProposeReply, error) { return one(&pb.TradeProposeReply{}) }),
		p("rejected", false, func(m *pb.TradeProposeReply) ([]*pb.TradeProposeReply, error) {
			return one(&pb.TradeProposeReply{SwapFail: fl})
		}),
		p("rejected for no reason", false, func(m *pb.TradeProposeReply) ([]*pb.TradeProposeReply, error) {
			return one(&pb.TradeProposeReply{SwapFail: &pbswap.SwapFail{}})
		}),
		p("rejected and accepted", false, func(m *pb.TradeProposeReply) ([]*pb.TradeProposeReply, error) { m.SwapFail = fl; return one(m) }),
		p("answered twice", true, func(m *pb.TradeProposeReply) ([]*pb.TradeProposeReply, error) {
			return []*pb.TradeProposeReply{m, {SwapFail: fl}}, nil
		}),
		p("answered, then fails", true, func(m *pb.TradeProposeReply) ([]*pb.TradeProposeReply, error) {
			return []*pb.TradeProposeReply{m}, boom
		}),
		{name: "proposal: accepted without an expiry", fine: true, prop: func(m *pb.TradeProposeReply) ([]*pb.TradeProposeReply, error) { m.ExpiryTimeUnix = 0; return one(m) }},
	}
}

func completions() []dev {
	p := func(name string, f func(m *pb.TradeCompleteReply) ([]*pb.TradeCompleteReply, error)) dev {
		return dev{name: "completion: " + name, comp: f}
	}
	one := func(m *pb.TradeCompleteReply) ([]*pb.TradeCompleteReply, error) {
		return []*pb.TradeCompleteReply{m}, nil
	}
	return []dev{
		p("fails", func(*pb.TradeCompleteReply) ([]*pb.TradeCompleteReply, error) { return nil, boom }),
		p("no answer", func(*pb.TradeCompleteReply) ([]*pb.TradeCompleteReply, error) { return nil, nil }),
		p("an empty answer", func(*pb.TradeCompleteReply) ([]*pb.TradeCompleteReply, error) { return one(&pb.TradeCompleteReply{}) }),
		p("rejected", func(*pb.TradeCompleteReply) ([]*pb.TradeCompleteReply, error) {
			return one(&pb.TradeCompleteReply{SwapFail: &pbswap.SwapFail{FailureMessage: "no"}})
		}),
		p("rejected for no reason", func(*pb.TradeCompleteReply) ([]*pb.TradeCompleteReply, error) {
			return one(&pb.TradeCompleteReply{SwapFail: &pbswap.SwapFail{}})
		}),
	}
}

// deals that are not what was proposed, or are it in another way.
func deals() (l []dev) {
	add := func(name string, f func(d *deal)) {
		l = append(l, dev{name: "accepted: " + name, quiet: true, deal: f})
	}
	add("with other ids", func(d *deal) { d.accept = func(a *pbswap.SwapAccept) { a.RequestId += "x" } })
	add("outputs in another order", func(d *deal) {
		for i, j := 0, len(d.outs)-1; i < j; i, j = i+1, j-1 {
			d.outs[i], d.outs[j] = d.outs[j], d.outs[i]
		}
	})
	for i := 0; i < 2; i++ {
		i := i
		out := func(what string, f func(d *deal, a string, v uint64)) {
			add(fmt.Sprintf("output %d %s", i, what), func(d *deal) {
				if i < d.n {
					a, v, _ := txs.Open(d.outs[i], txs.Blind(me))
					f(d, a, v)
				}
			})
		}
		out("missing", func(d *deal, a string, v uint64) { d.outs = append(d.outs[:i:i], d.outs[i+1:]...) })
		out("of one less", func(d *deal, a string, v uint64) {
			if v > 1 {
				d.outs[i] = txs.Conf(a, v-1, txs.Script(me), txs.Blind(me))
			} else {
				d.outs = append(d.outs[:i:i], d.outs[i+1:]...)
			}
		})
		out("of one more", func(d *deal, a string, v uint64) { d.outs[i] = txs.Conf(a, v+1, txs.Script(me), txs.Blind(me)) })
		out("of a third asset", func(d *deal, a string, v uint64) { d.outs[i] = txs.Conf(third, v, txs.Script(me), txs.Blind(me)) })
		out("of the other asset", func(d *deal, a string, v uint64) {
			d.outs[i] = txs.Conf(map[string]string{base: quote, quote: base}[a], v, txs.Script(me), txs.Blind(me))
		})
		out("of a third asset, said to be the right one", func(d *deal, a string, v uint64) {
			d.outs[i] = txs.False(a, third, v, txs.Script(me), txs.Blind(me))
		})
		out("of the other asset, said to be the right one", func(d *deal, a string, v uint64) {
			d.outs[i] = txs.False(a, map[string]string{base: quote, quote: base}[a], v, txs.Script(me), txs.Blind(me))
		})
		out("to the provider", func(d *deal, a string, v uint64) {
			d.outs[i] = txs.Conf(a, v, txs.Script("provider"), txs.Blind("provider"))
		})
		out("to the provider, blinded for the trader", func(d *deal, a string, v uint64) {
			d.outs[i] = txs.Conf(a, v, txs.Script("provider"), txs.Blind(me))
		})
		out("blinded with another key", func(d *deal, a string, v uint64) {
			d.outs[i] = txs.Conf(a, v, txs.Script(me), txs.Blind("provider"))
		})
		out("not blinded", func(d *deal, a string, v uint64) { d.outs[i] = txs.Out(a, v, txs.Script(me)) })
		out("not blinded and of one less", func(d *deal, a string, v uint64) { d.outs[i] = txs.Out(a, v-1, txs.Script(me)) })
		out("of another value, with the proof of the right one", func(d *deal, a string, v uint64) {
			x, y := *d.outs[i], txs.Conf(a, v+5, txs.Script(me), txs.Blind(me))
			x.Value = y.Value
			d.outs[i] = &x
		})
		out("without proof", func(d *deal, a string, v uint64) {
			x := *d.outs[i]
			x.RangeProof, x.SurjectionProof = nil, nil
			d.outs[i] = &x
		})
		out("without nonce", func(d *deal, a string, v uint64) {
			x := *d.outs[i]
			x.Nonce = []byte{0}
			d.outs[i] = &x
		})
		out("twice", func(d *deal, a string, v uint64) { d.outs = append(d.outs, d.outs[i]) })
		out("in two parts", func(d *deal, a string, v uint64) {
			if v > 1 {
				d.outs[i] = txs.Conf(a, v-1, txs.Script(me), txs.Blind(me))
				d.outs = append(d.outs, txs.Conf(a, 1, txs.Script(me), txs.Blind(me)))
			}
		})
	}
	add("the change instead of what is bought, twice", func(d *deal) {
		if d.n > 1 {
			d.outs[0] = d.outs[1]
		}
	})
	add("what is bought instead of the change, twice", func(d *deal) {
		if d.n > 1 {
			d.outs[1] = d.outs[0]
		}
	})
	add("a gift", func(d *deal) {
		d.outs = append(d.outs, txs.Conf(d.o.asset, 5, txs.Script(me), txs.Blind(me)))
	})
	extra := func(signer string, f func(d *deal)) func(d *deal) {
		return func(d *deal) {
			for k, x := range d.o.coins {
				h, n := point(k)
				used := false
				for _, i := range d.ins {
					used = used || i.Hash == h && i.Index == n
				}
				if !used {
					d.ins = append(d.ins, txs.In{Hash: h, Index: n, Prev: x.out()})
					d.keys = append(d.keys, signer)
				}
			}
			if f != nil {
				f(d)
			}
		}
	}
	add("more coins of the trader", extra("", nil))
	add("more coins of the trader, first", extra("", func(d *deal) {
		n := len(d.ins) - 1
		d.ins = append([]txs.In{d.ins[n]}, d.ins[:n]...)
		d.keys = append([]string{d.keys[n]}, d.keys[:n]...)
	}))
	add("other coins of the trader instead", extra("", func(d *deal) {
		d.ins, d.keys = d.ins[1:], d.keys[1:]
	}))
	add("no coins of the trader", func(d *deal) {
		for len(d.keys) > 0 && d.keys[0] == "" {
			d.ins, d.keys = d.ins[1:], d.keys[1:]
		}
	})
	add("a coin of the trader missing", func(d *deal) { d.ins, d.keys = d.ins[1:], d.keys[1:] })
	add("a coin of the trader twice", func(d *deal) {
		d.ins, d.keys = append(d.ins, d.ins[0]), append(d.keys, "")
	})
	add("no inputs", func(d *deal) { d.ins, d.keys = nil, nil })
	add("no outputs", func(d *deal) { d.outs = nil })
	add("nothing", func(d *deal) { d.ins, d.keys, d.outs = nil, nil, nil })
	add("not signed by the provider", func(d *deal) {
		for i := range d.keys {
			d.keys[i] = ""
		}
	})
	last := func(p *pset.Pset) int { return len(p.Inputs) - 1 }
	for i, at := range []func(p *pset.Pset) int{func(p *pset.Pset) int { return 0 }, last} {
		at := at
		who := []string{"the trader", "the provider"}[i]
		ed := func(what string, f func(p *pset.Pset, i int)) {
			add("an input of "+who+" "+what, func(d *deal) { d.edit = func(p *pset.Pset) { f(p, at(p)) } })
		}
		ed("without what it spends", func(p *pset.Pset, i int) { p.Inputs[i].WitnessUtxo = nil })
		ed("with the whole transaction it spends", func(p *pset.Pset, i int) {
			t := transaction.NewTx(2)
			for k := 0; k <= int(p.UnsignedTx.Inputs[i].Index); k++ {
				t.AddOutput(p.Inputs[i].WitnessUtxo)
			}
			p.Inputs[i].WitnessUtxo, p.Inputs[i].NonWitnessUtxo = nil, t
		})
		ed("said to be the trader's", func(p *pset.Pset, i int) { p.Inputs[i].WitnessUtxo.Script = txs.Script(me) })
		ed("said to be the provider's", func(p *pset.Pset, i int) { p.Inputs[i].WitnessUtxo.Script = txs.Script("provider") })
		ed("said to be nobody's", func(p *pset.Pset, i int) { p.Inputs[i].WitnessUtxo.Script = []byte{} })
		ed("said to be worth 1", func(p *pset.Pset, i int) { p.Inputs[i].WitnessUtxo.Value = txs.Value(1) })
		ed("said to be of a third asset", func(p *pset.Pset, i int) { p.Inputs[i].WitnessUtxo.Asset = txs.Out(third, 1, nil).Asset })
		ed("with a wrong signature", func(p *pset.Pset, i int) {
			p.Inputs[i].PartialSigs = []*psbt.PartialSig{{PubKey: txs.Key("provider").PubKey().SerializeCompressed(), Signature: append(bytes.Repeat([]byte{0x30}, 70), 1)}}
		})
		ed("with other rules for signatures", func(p *pset.Pset, i int) { p.Inputs[i].SighashType = 0x83 })
		ed("with a redeem script", func(p *pset.Pset, i int) { p.Inputs[i].RedeemScript = []byte{0x51} })
		ed("with a witness script", func(p *pset.Pset, i int) { p.Inputs[i].WitnessScript = []byte{0x51} })
		ed("with a sequence", func(p *pset.Pset, i int) { p.UnsignedTx.Inputs[i].Sequence = 3 })
	}
	add("version and lock time changed", func(d *deal) {
		d.edit = func(p *pset.Pset) { p.UnsignedTx.Version, p.UnsignedTx.Locktime = 1, 600000000 }
	})
	for _, s := range []string{"", "zz", "cHNldA==", "cHNldP8=", "cHNldP8A", strings.Repeat("f", 5000), "é"} {
		s := s
		l = append(l, dev{name: fmt.Sprintf("accepted: the transaction is %.20q", s), deal: func(d *deal) { d.text = func(string) string { return s } }})
	}
	l = append(l, dev{name: "accepted: the transaction is in hex", deal: func(d *deal) {
		d.text = func(s string) string { return txs.Hex(txs.Parse(s).UnsignedTx) }
	}})
	return
}

// parts of an accepted transaction: as far as byte n, and with byte n changed.
func cut(n, flip int) dev {
	return dev{name: fmt.Sprintf("accepted: bytes %d, %d", n, flip), quiet: true, deal: func(d *deal) {
		d.text = func(s string) string {
			b, err := base64.StdEncoding.DecodeString(s)
			if err != nil {
				panic(err)
			}
			if n >= 0 && n < len(b) {
				b = b[:n]
			}
			if flip >= 0 && flip < len(b) {
				b[flip] ^= 0x41
			}
			return base64.StdEncoding.EncodeToString(b)
		}
	}}
}

func main() {
	c = hx.New("C29", "exploration")
	world.Stubs()
	world.Real()
	th := c.Thorough()
	conf := func(a string, v uint64) coin { return coin{a, v, true} }
	plain := func(a string, v uint64) coin { return coin{a, v, false} }
	purses := [][]coin{
		{plain(base, 1000), plain(quote, 1000), plain(third, 1000)},
		{conf(base, 1000), conf(base, 3000), conf(quote, 1001), conf(quote, 2500), plain(third, 9)},
	}
	if th {
		purses = append(purses, []coin{plain(base, 30), conf(base, 40), plain(base, 300), conf(quote, 50), plain(quote, 60), plain(quote, 208), conf(third, 5000)})
	}
	var orders []order
	for _, sell := range []bool{false, true} {
		for _, a := range []string{base, quote} {
			for _, p := range purses {
				for _, done := range []bool{false, true} {
					orders = append(orders, order{sell, a, 100, p, done})
				}
			}
		}
	}
	var ts []test
	for _, o := range orders {
		ts = append(ts, test{o: o}, test{o: o, down: true})
		_, pv, _, _ := o.flows()
		P, _, _, _ := o.flows()
		// exactly enough, one more, and one less
		for k := -1; k < 2; k++ {
			x := o
			x.coins = []coin{plain(P, pv+uint64(k))}
			ts = append(ts, test{o: x, unfit: k < 0})
			x.coins = []coin{conf(P, 7), conf(third, 1000), plain(P, pv+uint64(k)-7)}
			ts = append(ts, test{o: x, unfit: k < 0})
		}
		x := o
		x.coins = nil
		ts = append(ts, test{o: x, unfit: true})
		x.coins = []coin{plain(third, 10000), conf(third, 20000)}
		ts = append(ts, test{o: x, unfit: true})
		l := append(append(append(prices(), proposals()...), completions()...), deals()...)
		if p, _, _, _ := o.flows(); p == o.other() {
			l = append(l, dear()...)
		}
		for _, d := range l {
			ts = append(ts, test{o: o, steps: []dev{d}})
			if !th || d.deal == nil {
				continue
			}
			for _, e := range append(deals(), completions()...) {
				ts = append(ts, test{o: o, steps: []dev{d, e}})
			}
		}
	}
	// an accepted transaction cut and changed everywhere
	o := order{false, base, 100, purses[0], true}
	step, top := 1, 2500
	for n := 0; n < top; n += step {
		ts = append(ts, test{o: o, steps: []dev{cut(n, -1)}}, test{o: o, steps: []dev{cut(-1, n)}})
		if n >= 700 {
			step = 23
		}
	}
	var ws []order
	for _, sell := range []bool{false, true} {
		for _, a := range []string{base, quote} {
			for i := 0; i < 2; i++ {
				for _, v := range []uint64{2000, 12345} {
					cs := []coin{plain(base, 50000), plain(quote, 50000)}
					if i == 1 {
						cs = []coin{conf(quote, 700), conf(base, 900), plain(base, 50000), plain(quote, 50000), conf(third, 5)}
					}
					ws = append(ws, order{sell, a, v, cs, true})
					if v == 2000 {
						ws = append(ws, order{sell, a, v, cs, false})
					}
				}
			}
		}
	}
	c.Describe = func(i int) string { return ts[i].String() }
	c.Procs("scripted", len(ts), func(i int) {
		if c.Expired() {
			c.Cap("budget")
			return
		}
		run(ts[i])
	})
	c.Describe = func(i int) string { return ws[i].String() }
	c.Procs("whole", len(ws), func(i int) { whole(ws[i]) })
	for _, i := range []int{5, len(ts) / 3, len(ts) / 2} {
		c.Sample(ts[i].String())
	}
	c.Info("orders with a scripted provider", len(ts))
	c.Info("orders with a whole daemon", len(ws))
	c.Info("rule", "an order is counted as nontrivial if it's done: the answer is returned or the trade completed")
	c.Assume("the price asked by the provider is the trader's to accept: a market order sets no limit; a provider that never answers is waited for")
	c.Finish()
}
