package main

import (
	"encoding/hex"
	"fmt"
	"os"

	pb "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
	"github.com/tdex-network/tdex-daemon/pkg/swap"
	"github.com/tdex-network/tdex-daemon/pkg/trade"
	tradeclient "github.com/tdex-network/tdex-daemon/pkg/trade/client"
	trademarket "github.com/tdex-network/tdex-daemon/pkg/trade/market"
	tradetype "github.com/tdex-network/tdex-daemon/pkg/trade/type"
	"github.com/tdex-network/tdex-daemon/verif/txs"
	"github.com/tdex-network/tdex-daemon/verif/world"
	"github.com/vulpemventures/go-elements/address"
	"github.com/vulpemventures/go-elements/payment"
)

// propose to buy (or sell) a given amount of base asset for the price shown
// times a factor; says whether that was accepted.
func (d *daemon) propose(typ tradetype.TradeType, factor float64) (bool, error) {
	d.n++
	who := fmt.Sprint("trader", d.n)
	_, bpub := keyOf(txs.Blind(who))
	addr, err := payment.FromPublicKey(txs.Key(who).PubKey(), world.Net, bpub).ConfidentialWitnessPubKeyHash()
	if err != nil {
		panic(err)
	}
	d.e.deposit(pay{quote, 20000000, addr}, pay{base, 100000, addr})
	ex, err := esplora.NewService(d.e.srv.URL, 15000)
	if err != nil {
		return false, err
	}
	cl, err := tradeclient.NewTradeClient("127.0.0.1", d.tr)
	if err != nil {
		return false, err
	}
	defer cl.CloseConnection()
	t, err := trade.NewTrade(trade.NewTradeOpts{Chain: "regtest", ExplorerService: ex, Client: cl})
	if err != nil {
		return false, err
	}
	m := trademarket.Market{BaseAsset: base, QuoteAsset: quote}
	p, err := t.Preview(trade.PreviewOpts{Market: m, TradeType: int(typ), Amount: 10000, Asset: base})
	if err != nil {
		return false, err
	}
	if typ.IsBuy() {
		p.AmountToSend = uint64(float64(p.AmountToSend) * factor)
	} else {
		p.AmountToReceive = uint64(float64(p.AmountToReceive) / factor)
	}
	us, err := ex.GetUnspents(addr, [][]byte{txs.Blind(who)})
	if err != nil {
		return false, err
	}
	script, _ := address.ToOutputScript(addr)
	tx, err := trade.NewSwapTx(us, p.AssetToSend, p.AmountToSend, p.AssetToReceive, p.AmountToReceive, script)
	if err != nil {
		return false, err
	}
	keys := map[string][]byte{hex.EncodeToString(script): txs.Blind(who)}
	r, err := swap.Request(swap.RequestOpts{AssetToSend: p.AssetToSend, AmountToSend: p.AmountToSend, AssetToReceive: p.AssetToReceive, AmountToReceive: p.AmountToReceive,
		PsetBase64: tx, InputBlindingKeys: keys, OutputBlindingKeys: keys})
	if err != nil {
		return false, err
	}
	a, err := cl.TradePropose(tradeclient.TradeProposeOpts{Market: m, SwapRequest: r, TradeType: typ})
	if err != nil {
		return false, err
	}
	return a.GetSwapAccept() != nil, nil
}

// effects of the settings that bear on trades.
func effects(th bool) {
	run := func(v env, f func(d *daemon, bad fail)) {
		add(fmt.Sprintf("effect of %v", v), func(bad func(sig, f string, x ...interface{})) {
			e, dir := baseChain.clone(), fresh(baseDir)
			defer e.end()
			defer os.RemoveAll(dir)
			d := launch(dir, e, v)
			defer d.kill()
			if err := d.works(pass, false); err != nil {
				bad("refused", "%v", err)
				return
			}
			f(d, bad)
			c.Count("distinct_nontrivial", 1)
			c.Outcome("effect seen")
		})
	}
	expiries := []int{1, 60, 121, 86400}
	slips := []float64{0, 0.01, 0.05, 0.3}
	if th {
		expiries = append(expiries, 2, 59, 119, 120, 3600, 604800)
		slips = append(slips, 0.001, 0.02, 0.1, 0.5, 0.9)
	}
	for _, n := range expiries {
		n := n
		run(env{"TRADE_EXPIRY_TIME": fmt.Sprint(n)}, func(d *daemon, bad fail) {
			if ok, err := d.propose(tradetype.Buy, 1); !ok || err != nil {
				bad("trade", "a proposal is not accepted: %v", err)
				return
			}
			x, f := d.ctx()
			defer f()
			l, err := d.operator.ListTrades(x, &pb.ListTradesRequest{})
			if err != nil || len(l.GetTrades()) != 1 {
				bad("trade", "ListTrades: %v %v", l, err)
				return
			}
			t := l.Trades[0]
			if got := int(t.GetExpiryTimeUnix()) - int(t.GetAcceptTimeUnix()); got < n-1 || got > n+1 {
				bad("expiry", "the accepted trade expires after %d s", got)
			}
		})
	}
	for _, s := range slips {
		for _, typ := range []tradetype.TradeType{tradetype.Buy, tradetype.Sell} {
			s, typ := s, typ
			out, in := 1.6*s, 0.7*s
			if s == 0 {
				out = 0.01
			}
			v := env{"PRICE_SLIPPAGE": fmt.Sprint(s)}
			if !typ.IsBuy() {
				v["LOG_LEVEL"] = "3" // another name
			}
			run(v, func(d *daemon, bad fail) {
				for _, f := range []float64{1 - out, 1 - in} {
					if f <= 0 {
						continue
					}
					ok, err := d.propose(typ, f)
					if err != nil {
						bad("trade", "a proposal of %v times the price: %v", f, err)
						return
					}
					if want := f == 1-in; ok != want {
						bad("slippage", "a proposal of %v times the price is accepted: %v (buy %v)", f, ok, typ.IsBuy())
					}
				}
			})
		}
	}
}
