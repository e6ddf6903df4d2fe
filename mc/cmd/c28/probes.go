package main

import (
	"context"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/shopspring/decimal"
	pbop "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	pbw "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/verif/world"
	pbswap "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	pbt "github.com/tdex-network/tdex-protobuf/generated/go/trade"
	"github.com/tdex-network/tdex-protobuf/generated/go/types"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
)

const there = "el1qqdd2sk3hu7nkwg9zx9f7ktkz3ekdnhhsxrwaewyfj4nm6sj4r9fvn4w9ekvlp86ffpa3fxd29hhhsnh09ah4e5p46q8vhkaaw"

var (
	hash    = strings.Repeat("ab", 32)
	quote   = world.Quote(0)
	huge    = []uint64{0, 1, 99, 1 << 62, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64}
	signed  = []int64{math.MinInt64, -1, 0, 1, 99, math.MaxInt64}
	bits    = []bool{false, true}
	strange = []string{"", "x", quote, base, strings.Repeat("é\x01", 40), strings.Repeat("f", 5000)}
)

type mkt struct {
	m    *types.Market
	form int
}

func (m mkt) app() application.Market {
	return application.Market{BaseAsset: m.m.GetBaseAsset(), QuoteAsset: m.m.GetQuoteAsset()}
}

func markets() []mkt {
	mk := func(b, q string) *types.Market { return &types.Market{BaseAsset: b, QuoteAsset: q} }
	return []mkt{{mk(base, quote), fine}, {mk(base, world.Quote(1)), fine}, {nil, broken}, {mk("", ""), broken}, {mk(base, ""), broken}, {mk("", quote), broken},
		{mk(quote, base), broken}, {mk(quote, world.Quote(1)), broken}, {mk(base, base), either}, {mk(base, "zz"), either}, {mk(base, world.Quote(2)), either}, {mk(base, strings.Repeat("f", 5000)), either}}
}

func worst(l ...int) int {
	w := fine
	for _, f := range l {
		if f == broken {
			return broken
		}
		if f == either {
			w = either
		}
	}
	return w
}

func is(ok bool) int {
	if ok {
		return fine
	}
	return broken
}

// opt is either, unless ok.
func opt(ok bool) int {
	if ok {
		return fine
	}
	return either
}

type swapReq struct {
	Id, AP, AR, Tx string
	P, R           uint64
	In, Out        string
}

func swapRequest(r domain.SwapRequest) interface{} {
	if r == nil {
		return nil
	}
	return swapReq{r.GetId(), r.GetAssetP(), r.GetAssetR(), r.GetTransaction(), r.GetAmountP(), r.GetAmountR(), fmt.Sprint(r.GetInputBlindingKey()), fmt.Sprint(r.GetOutputBlindingKey())}
}

var (
	fees   = []application.Fee{{}, {BasisPoint: 25, FixedBaseFee: 3, FixedQuoteFee: 4}, {BasisPoint: 9999, FixedBaseFee: math.MaxInt64, FixedQuoteFee: math.MaxInt64 - 1}}
	prices = []decimal.Decimal{decimal.Zero, decimal.NewFromFloat(1), decimal.New(1, -8), decimal.New(123456789, -4), decimal.New(98765, 3)}
	lists  = []int{0, 1, 2, 3}
)

func pbfee(f application.Fee) *types.Fee {
	return &types.Fee{BasisPoint: f.BasisPoint, Fixed: &types.Fixed{BaseFee: f.FixedBaseFee, QuoteFee: f.FixedQuoteFee}}
}

func pbmarket(m application.Market) *types.Market {
	return &types.Market{BaseAsset: m.BaseAsset, QuoteAsset: m.QuoteAsset}
}

func msgs(m ...proto.Message) []proto.Message { return m }

func f64(d decimal.Decimal) float64 { f, _ := d.Float64(); return f }

func utc(t uint64) string {
	if t == 0 {
		return ""
	}
	return time.Unix(int64(t), 0).UTC().String()
}

func probes() (ps []probe) {
	add := func(rpc, say string, form int, cl call, answers []answer, do func(h handlers) ([]proto.Message, error)) {
		ps = append(ps, probe{rpc: rpc, say: say, form: form, call: cl, answers: answers, do: do})
	}
	to := func(name string, args ...interface{}) call { return call{name, args} }
	ok := func(m proto.Message) []answer { return []answer{{nil, msgs(m)}} }
	ms := markets()

	// ---- the operator's
	deps := func(mk func(l []application.AddressAndBlindingKey) proto.Message) (as []answer) {
		for _, n := range lists[1:] {
			var l []application.AddressAndBlindingKey
			for i := 0; i < n; i++ {
				l = append(l, application.AddressAndBlindingKey{Address: fmt.Sprint("address", i), BlindingKey: fmt.Sprint("key", i)})
			}
			as = append(as, answer{l, msgs(mk(l))})
		}
		return
	}
	for _, n := range []int64{0, 1, 2, 7, -1, math.MinInt64, math.MinInt32, math.MaxInt64} {
		n := n
		for _, m := range append(ms, mkt{&types.Market{BaseAsset: "zz", QuoteAsset: quote}, either}) {
			m := m
			r := &pbop.DepositMarketRequest{Market: m.m, NumOfAddresses: n}
			form := m.form
			if m.m.GetBaseAsset() == "" && m.m.GetQuoteAsset() == "" {
				form = fine // a new market
			}
			add("DepositMarket", show(r), worst(form, opt(n >= 0 && n < 8)), to("DepositMarket", m.m.GetBaseAsset(), m.m.GetQuoteAsset(), int(n)), deps(func(l []application.AddressAndBlindingKey) proto.Message {
				o := &pbop.DepositMarketReply{}
				for _, a := range l {
					o.Addresses = append(o.Addresses, a.Address)
				}
				return o
			}), func(h handlers) ([]proto.Message, error) {
				return unary(h.op.DepositMarket(ctx, wire(r).(*pbop.DepositMarketRequest)))
			})
			if m.form != fine && form != fine { // the application looks at the assets
				ps[len(ps)-1].form = either
			}
		}
		r := &pbop.DepositFeeAccountRequest{NumOfAddresses: n}
		add("DepositFeeAccount", show(r), opt(n >= 0 && n < 8), to("DepositFeeAccount", int(n)), deps(func(l []application.AddressAndBlindingKey) proto.Message {
			o := &pbop.DepositFeeAccountReply{}
			for _, a := range l {
				o.AddressWithBlindingKey = append(o.AddressWithBlindingKey, &types.AddressWithBlindingKey{Address: a.Address, Blinding: a.BlindingKey})
			}
			return o
		}), func(h handlers) ([]proto.Message, error) {
			return unary(h.op.DepositFeeAccount(ctx, wire(r).(*pbop.DepositFeeAccountRequest)))
		})
	}
	for _, m := range ms {
		m := m
		r1, r2 := &pbop.OpenMarketRequest{Market: m.m}, &pbop.CloseMarketRequest{Market: m.m}
		add("OpenMarket", show(r1), m.form, to("OpenMarket", m.m.GetBaseAsset(), m.m.GetQuoteAsset()), ok(&pbop.OpenMarketReply{}), func(h handlers) ([]proto.Message, error) {
			return unary(h.op.OpenMarket(ctx, wire(r1).(*pbop.OpenMarketRequest)))
		})
		add("CloseMarket", show(r2), m.form, to("CloseMarket", m.m.GetBaseAsset(), m.m.GetQuoteAsset()), ok(&pbop.CloseMarketReply{}), func(h handlers) ([]proto.Message, error) {
			return unary(h.op.CloseMarket(ctx, wire(r2).(*pbop.CloseMarketRequest)))
		})
		var upd []answer
		for _, f := range fees {
			upd = append(upd, answer{&application.MarketWithFee{Market: m.app(), Fee: f}, msgs(&pbop.UpdateMarketFeeReply{MarketWithFee: &types.MarketWithFee{Market: pbmarket(m.app()), Fee: pbfee(f)}})})
		}
		for _, v := range append(signed, 9999, 10000) {
			r := &pbop.UpdateMarketPercentageFeeRequest{Market: m.m, BasisPoint: v}
			f := m.form
			if f == fine && (v < 0 || v > 9999) {
				f = either
			}
			add("UpdateMarketPercentageFee", show(r), f, to("UpdateMarketPercentageFee", m.app(), v), upd, func(h handlers) ([]proto.Message, error) {
				return unary(h.op.UpdateMarketPercentageFee(ctx, wire(r).(*pbop.UpdateMarketPercentageFeeRequest)))
			})
		}
		fixed := []*types.Fixed{nil, {}}
		for _, a := range signed {
			for _, b := range signed {
				fixed = append(fixed, &types.Fixed{BaseFee: a, QuoteFee: b})
			}
		}
		for _, v := range fixed {
			r := &pbop.UpdateMarketFixedFeeRequest{Market: m.m, Fixed: v}
			f := worst(m.form, is(v != nil))
			if f == fine && (v.GetBaseFee() < 0 || v.GetQuoteFee() < 0) {
				f = either
			}
			add("UpdateMarketFixedFee", show(r), f, to("UpdateMarketFixedFee", m.app(), v.GetBaseFee(), v.GetQuoteFee()), upd, func(h handlers) ([]proto.Message, error) {
				return unary(h.op.UpdateMarketFixedFee(ctx, wire(r).(*pbop.UpdateMarketFixedFeeRequest)))
			})
		}
		nan, inf := float32(math.NaN()), float32(math.Inf(1))
		vs := []float32{0, 1, 0.25, 1e-8, 123456.78, 3.4e38, 1e-45, -1, nan, inf, -inf}
		for i := -1; i < len(vs)*len(vs); i++ {
			var p *types.Price
			good := false
			if i >= 0 {
				p = &types.Price{BasePrice: vs[i%len(vs)], QuotePrice: vs[i/len(vs)]}
				okp := func(v float32) bool { return v > 0 && v < inf }
				good = okp(p.BasePrice) && okp(p.QuotePrice)
			}
			r := &pbop.UpdateMarketPriceRequest{Market: m.m, Price: p}
			add("UpdateMarketPrice", show(r), worst(m.form, is(good)), to("UpdateMarketPrice", m.app(), p.GetBasePrice(), p.GetQuotePrice()), ok(&pbop.UpdateMarketPriceReply{}), func(h handlers) ([]proto.Message, error) {
				return unary(h.op.UpdateMarketPrice(ctx, wire(r).(*pbop.UpdateMarketPriceRequest)))
			})
		}
		for _, v := range []int32{0, 1, 2, 3, -1, math.MaxInt32, math.MinInt32} {
			r := &pbop.UpdateMarketStrategyRequest{Market: m.m, StrategyType: pbop.StrategyType(v)}
			f := worst(m.form, is(v >= 0 && v <= 2))
			if f == fine && v == 2 {
				f = either
			}
			add("UpdateMarketStrategy", show(r), f, to("UpdateMarketStrategy", m.app(), int(v)), ok(&pbop.UpdateMarketStrategyReply{}), func(h handlers) ([]proto.Message, error) {
				return unary(h.op.UpdateMarketStrategy(ctx, wire(r).(*pbop.UpdateMarketStrategyRequest)))
			})
		}
		var addrs, reports []answer
		for _, n := range lists[1:] {
			var l []string
			rep, prep := &application.ReportMarketFee{TotalCollectedFeesPerAsset: map[string]int64{}}, &pbop.ReportMarketFeeReply{TotalCollectedFeesPerAsset: map[string]int64{}}
			for i := 0; i < n; i++ {
				l = append(l, fmt.Sprint("address", i))
				p := prices[(i+n)%len(prices)]
				x := application.FeeInfo{TradeID: fmt.Sprint("id", i), BasisPoint: int64(10 + i), Asset: world.Quote(i), Amount: huge[(i+1)%len(huge)], MarketPrice: p}
				rep.CollectedFees = append(rep.CollectedFees, x)
				prep.CollectedFees = append(prep.CollectedFees, &pbop.FeeInfo{TradeId: x.TradeID, BasisPoint: x.BasisPoint, Asset: x.Asset, Amount: x.Amount, MarketPrice: float32(f64(p))})
				rep.TotalCollectedFeesPerAsset[x.Asset], prep.TotalCollectedFeesPerAsset[x.Asset] = int64(7+i), int64(7+i)
			}
			addrs = append(addrs, answer{l, msgs(&pbop.ListDepositMarketReply{Address: l})})
			reports = append(reports, answer{rep, msgs(prep)})
		}
		r3, r4 := &pbop.ListDepositMarketRequest{Market: m.m}, &pbop.ReportMarketFeeRequest{Market: m.m}
		add("ListDepositMarket", show(r3), m.form, to("ListMarketExternalAddresses", m.app()), addrs, func(h handlers) ([]proto.Message, error) {
			return unary(h.op.ListDepositMarket(ctx, wire(r3).(*pbop.ListDepositMarketRequest)))
		})
		add("ReportMarketFee", show(r4), m.form, to("GetCollectedMarketFee", m.app()), reports, func(h handlers) ([]proto.Message, error) {
			return unary(h.op.ReportMarketFee(ctx, wire(r4).(*pbop.ReportMarketFeeRequest)))
		})
		bals := []*types.Balance{nil}
		for _, a := range huge {
			for _, b := range huge {
				bals = append(bals, &types.Balance{BaseAmount: a, QuoteAmount: b})
			}
		}
		for _, b := range bals {
			for _, rate := range []int64{math.MinInt64, -1, 0, 99, 100, 1000, math.MaxInt64} {
				for _, a := range []string{there, "", "nowhere"} {
					if (a != there || m.form != fine) && rate != 100 {
						continue
					}
					r := &pbop.WithdrawMarketRequest{Market: m.m, BalanceToWithdraw: b, MillisatPerByte: rate, Address: a}
					add("WithdrawMarket", show(r), worst(m.form, opt(b != nil && a == there && rate >= 100 && rate < math.MaxInt64 && (b.BaseAmount > 0 || b.QuoteAmount > 0))), to("WithdrawMarketFunds", application.WithdrawMarketReq{
						Market: m.app(), BalanceToWithdraw: application.Balance{BaseAmount: b.GetBaseAmount(), QuoteAmount: b.GetQuoteAmount()}, MillisatPerByte: rate, Address: a, Push: true}),
						[]answer{{[]byte{1, 2, 3}, msgs(&pbop.WithdrawMarketReply{RawTx: []byte{1, 2, 3}})}}, func(h handlers) ([]proto.Message, error) {
							return unary(h.op.WithdrawMarket(ctx, wire(r).(*pbop.WithdrawMarketRequest)))
						})
				}
			}
		}
	}
	// claims
	outs := [][]*pbop.TxOutpoint{nil}
	for _, h := range []string{hash, "", "zz", strings.Repeat("f", 5000)} {
		for _, i := range []int32{0, 1, 5, -1, math.MinInt32, math.MaxInt32} {
			outs = append(outs, []*pbop.TxOutpoint{{Hash: h, Index: i}}, []*pbop.TxOutpoint{{Hash: hash, Index: 2}, {Hash: h, Index: i}}, []*pbop.TxOutpoint{{Hash: h, Index: i}, {Hash: h, Index: i}})
		}
	}
	for _, o := range outs {
		l := make([]application.TxOutpoint, 0, len(o))
		good := len(o) > 0
		for _, p := range o {
			l = append(l, application.TxOutpoint{Hash: p.Hash, Index: int(p.Index)})
			good = good && p.Hash == hash && p.Index >= 0
		}
		for _, m := range ms {
			r := &pbop.ClaimMarketDepositRequest{Market: m.m, Outpoints: o}
			add("ClaimMarketDeposit", show(r), worst(opt(good), opt(m.form == fine)), to("ClaimMarketDeposit", m.app(), l), ok(&pbop.ClaimMarketDepositReply{}), func(h handlers) ([]proto.Message, error) {
				return unary(h.op.ClaimMarketDeposit(ctx, wire(r).(*pbop.ClaimMarketDepositRequest)))
			})
		}
		r := &pbop.ClaimFeeDepositRequest{Outpoints: o}
		add("ClaimFeeDeposit", show(r), opt(good), to("ClaimFeeDeposit", l), ok(&pbop.ClaimFeeDepositReply{}), func(h handlers) ([]proto.Message, error) {
			return unary(h.op.ClaimFeeDeposit(ctx, wire(r).(*pbop.ClaimFeeDepositRequest)))
		})
	}
	// lists
	var trades, infos, utxos, balances []answer
	for _, n := range lists {
		var tl []application.TradeInfo
		tr := &pbop.ListTradesReply{}
		var il []application.MarketInfo
		ir := &pbop.ListMarketReply{}
		for i := 0; i < n; i++ {
			f, p := fees[(i+n)%len(fees)], application.Price{BasePrice: prices[(i+1)%len(prices)], QuotePrice: prices[(i+3)%len(prices)]}
			m := application.Market{BaseAsset: base, QuoteAsset: world.Quote(i)}
			x := application.MarketInfo{AccountIndex: uint64(5 + i), Market: m, Fee: f, Tradable: i%2 == 0, StrategyType: i % 3, Price: domain.Prices{BasePrice: p.BasePrice, QuotePrice: p.QuotePrice}}
			il = append(il, x)
			ir.Markets = append(ir.Markets, &pbop.MarketInfo{Market: pbmarket(m), Fee: pbfee(f), Tradable: x.Tradable, StrategyType: pbop.StrategyType(x.StrategyType), AccountIndex: x.AccountIndex,
				Price: &types.Price{BasePrice: float32(f64(p.BasePrice)), QuotePrice: float32(f64(p.QuotePrice))}})
		}
		for code := 0; code <= domain.Expired; code++ {
			for k := 0; k < n; k++ {
				f, p := fees[(code+n)%len(fees)], application.Price{BasePrice: prices[(code+k)%len(prices)], QuotePrice: prices[(code+n)%len(prices)]}
				m := application.Market{BaseAsset: base, QuoteAsset: world.Quote(k)}
				x := application.TradeInfo{ID: fmt.Sprint("trade", code, k), Status: domain.Status{Code: code, Failed: (code+k)%2 == 0}, MarketWithFee: application.MarketWithFee{Market: m, Fee: f}, Price: p, TxURL: fmt.Sprint("url", k)}
				y := &pbop.TradeInfo{TradeId: x.ID, Status: &pbop.TradeStatusInfo{Status: pbop.TradeStatus(code), Failed: x.Status.Failed}, MarketWithFee: &types.MarketWithFee{Market: pbmarket(m), Fee: pbfee(f)},
					Price: &pbop.TradePrice{BasePrice: f64(p.BasePrice), QuotePrice: f64(p.QuotePrice)}, TxUrl: x.TxURL}
				at := func(i int) uint64 {
					if (code+k)>>uint(i)&1 == 0 {
						return 0
					}
					return uint64(1600000000 + 1000*i + 7*code + k)
				}
				x.RequestTimeUnix, x.AcceptTimeUnix, x.CompleteTimeUnix, x.SettleTimeUnix, x.ExpiryTimeUnix = at(0), at(1), at(2), at(0)+5, at(1)+6
				if code == 5 {
					x.SettleTimeUnix, x.ExpiryTimeUnix = 0, at(0)
				}
				y.RequestTimeUnix, y.AcceptTimeUnix, y.CompleteTimeUnix, y.SettleTimeUnix, y.ExpiryTimeUnix = x.RequestTimeUnix, x.AcceptTimeUnix, x.CompleteTimeUnix, x.SettleTimeUnix, x.ExpiryTimeUnix
				y.RequestTimeUtc, y.AcceptTimeUtc, y.CompleteTimeUtc, y.SettleTimeUtc, y.ExpiryTimeUtc = utc(x.RequestTimeUnix), utc(x.AcceptTimeUnix), utc(x.CompleteTimeUnix), utc(x.SettleTimeUnix), utc(x.ExpiryTimeUnix)
				if code > 0 {
					x.SwapInfo = application.SwapInfo{AmountP: uint64(11 + k), AssetP: base, AmountR: uint64(22 + code), AssetR: world.Quote(k)}
					y.SwapInfo = &pbop.SwapInfo{AmountP: x.SwapInfo.AmountP, AssetP: base, AmountR: x.SwapInfo.AmountR, AssetR: world.Quote(k)}
				}
				if x.Status.Failed {
					x.SwapFailInfo = application.SwapFailInfo{Code: 8 + k, Message: fmt.Sprint("why", code)}
					y.FailInfo = &pbop.SwapFailInfo{FailureCode: uint32(8 + k), FailureMessage: fmt.Sprint("why", code)}
				}
				tl = append(tl, x)
				tr.Trades = append(tr.Trades, y)
			}
		}
		trades = append(trades, answer{tl, msgs(tr)})
		infos = append(infos, answer{il, msgs(ir)})
		for _, k := range lists {
			um := map[uint64]application.UtxoInfoList{}
			ur := &pbop.ListUtxosReply{InfoPerAccount: map[uint64]*pbop.UtxoInfoList{}}
			for a := 0; a < k; a++ {
				mk := func(kind string, n int) (l []application.UtxoInfo, p []*pbop.UtxoInfo) {
					for i := 0; i < n; i++ {
						u := application.UtxoInfo{Outpoint: &application.TxOutpoint{Hash: fmt.Sprint(kind, a, i), Index: a + i}, Value: uint64(100*a + i), Asset: world.Quote(i)}
						l = append(l, u)
						p = append(p, &pbop.UtxoInfo{Outpoint: &pbop.TxOutpoint{Hash: u.Outpoint.Hash, Index: int32(u.Outpoint.Index)}, Value: u.Value, Asset: u.Asset})
					}
					return
				}
				i, y := application.UtxoInfoList{}, &pbop.UtxoInfoList{}
				i.Unspents, y.Unspents = mk("free", n)
				i.Spents, y.Spents = mk("spent", (n+a)%3)
				i.Locks, y.Locks = mk("locked", (n+a+1)%3)
				um[uint64(a*5)], ur.InfoPerAccount[uint64(a*5)] = i, y
			}
			utxos = append(utxos, answer{um, msgs(ur)})
		}
		bm, br := map[string]application.BalanceInfo{}, &pbw.WalletBalanceReply{Balance: map[string]*pbw.BalanceInfo{}}
		for i := 0; i < n; i++ {
			bm[world.Quote(i)] = application.BalanceInfo{TotalBalance: uint64(10 + i), ConfirmedBalance: uint64(6 + i), UnconfirmedBalance: 4}
			br.Balance[world.Quote(i)] = &pbw.BalanceInfo{TotalBalance: uint64(10 + i), ConfirmedBalance: uint64(6 + i), UnconfirmedBalance: 4}
		}
		balances = append(balances, answer{bm, msgs(br)})
	}
	add("ListTrades", "", fine, to("ListTrades"), trades, func(h handlers) ([]proto.Message, error) {
		return unary(h.op.ListTrades(ctx, &pbop.ListTradesRequest{}))
	})
	add("ListMarket", "", fine, to("ListMarket"), infos, func(h handlers) ([]proto.Message, error) {
		return unary(h.op.ListMarket(ctx, &pbop.ListMarketRequest{}))
	})
	add("ListUtxos", "", fine, to("ListUtxos"), utxos, func(h handlers) ([]proto.Message, error) {
		return unary(h.op.ListUtxos(ctx, &pbop.ListUtxosRequest{}))
	})
	add("ReloadUtxos", "", fine, to("ReloadUtxos"), ok(&pbop.ReloadUtxosReply{}), func(h handlers) ([]proto.Message, error) {
		return unary(h.op.ReloadUtxos(ctx, &pbop.ReloadUtxosRequest{}))
	})
	var fee []answer
	for _, v := range signed {
		fee = append(fee, answer{v, msgs(&pbop.BalanceFeeAccountReply{Balance: v})})
	}
	add("BalanceFeeAccount", "", fine, to("FeeAccountBalance"), fee, func(h handlers) ([]proto.Message, error) {
		return unary(h.op.BalanceFeeAccount(ctx, &pbop.BalanceFeeAccountRequest{}))
	})
	for _, v := range append(huge, 5, 6, 7) {
		r := &pbop.DropMarketRequest{AccountIndex: v}
		add("DropMarket", show(r), opt(v <= 7), to("DropMarket", int(v)), ok(&pbop.DropMarketReply{}), func(h handlers) ([]proto.Message, error) {
			return unary(h.op.DropMarket(ctx, wire(r).(*pbop.DropMarketRequest)))
		})
	}
	var hooks []answer
	for _, n := range lists {
		var l []application.WebhookInfo
		r := &pbop.ListWebhooksReply{}
		for i := 0; i < n; i++ {
			l = append(l, application.WebhookInfo{Id: fmt.Sprint("id", i), ActionType: i, Endpoint: fmt.Sprint("http://", i), IsSecured: i%2 == 0})
			r.WebhookInfo = append(r.WebhookInfo, &pbop.WebhookInfo{Id: fmt.Sprint("id", i), Endpoint: fmt.Sprint("http://", i), IsSecured: i%2 == 0})
		}
		hooks = append(hooks, answer{l, msgs(r)})
	}
	for _, a := range []int32{0, 1, 2, 3, 4, -1, math.MaxInt32, math.MinInt32} {
		good := a >= 0 && a <= 3
		r := &pbop.ListWebhooksRequest{Action: pbop.ActionType(a)}
		add("ListWebhooks", show(r), opt(good), to("ListWebhooks", int(a)), hooks, func(h handlers) ([]proto.Message, error) {
			return unary(h.op.ListWebhooks(ctx, wire(r).(*pbop.ListWebhooksRequest)))
		})
		for _, e := range []string{"http://localhost:1/x", "", "x", "http://[", strings.Repeat("f", 5000)} {
			for _, s := range []string{"", "s", strings.Repeat("é", 300)} {
				r := &pbop.AddWebhookRequest{Action: pbop.ActionType(a), Endpoint: e, Secret: s}
				add("AddWebhook", show(r), worst(opt(good), opt(strings.HasSuffix(e, "/x"))), to("AddWebhook", application.Webhook{ActionType: int(a), Endpoint: e, Secret: s}),
					[]answer{{"the id", msgs(&pbop.AddWebhookReply{Id: "the id"})}}, func(h handlers) ([]proto.Message, error) {
						return unary(h.op.AddWebhook(ctx, wire(r).(*pbop.AddWebhookRequest)))
					})
			}
		}
	}
	for _, id := range strange {
		if strings.Contains(id, "\x01") {
			continue
		}
		r := &pbop.RemoveWebhookRequest{Id: id}
		add("RemoveWebhook", show(r), opt(id != ""), to("RemoveWebhook", id), ok(&pbop.RemoveWebhookReply{}), func(h handlers) ([]proto.Message, error) {
			return unary(h.op.RemoveWebhook(ctx, wire(r).(*pbop.RemoveWebhookRequest)))
		})
	}

	// ---- the wallet's
	add("GenSeed", "", fine, to("GenSeed"), []answer{{[]string{"a", "b"}, msgs(&pbw.GenSeedReply{SeedMnemonic: []string{"a", "b"}})}}, func(h handlers) ([]proto.Message, error) {
		return unary(h.wal.GenSeed(ctx, &pbw.GenSeedRequest{}))
	})
	add("WalletAddress", "", fine, to("GenerateAddressAndBlindingKey"), []answer{{[2]string{"a", "b"}, msgs(&pbw.WalletAddressReply{Address: "a", Blinding: "b"})}}, func(h handlers) ([]proto.Message, error) {
		return unary(h.wal.WalletAddress(ctx, &pbw.WalletAddressRequest{}))
	})
	add("WalletBalance", "", fine, to("GetWalletBalance"), balances, func(h handlers) ([]proto.Message, error) {
		return unary(h.wal.WalletBalance(ctx, &pbw.WalletBalanceRequest{}))
	})
	pwds := []string{world.Pass, "", "x", "\x00\xff", strings.Repeat("p", 5000)}
	for _, p := range pwds {
		r := &pbw.UnlockWalletRequest{WalletPassword: []byte(p)}
		add("UnlockWallet", show(r), is(p != ""), to("UnlockWallet", p), ok(&pbw.UnlockWalletReply{}), func(h handlers) ([]proto.Message, error) {
			return unary(h.wal.UnlockWallet(ctx, wire(r).(*pbw.UnlockWalletRequest)))
		})
		ps[len(ps)-1].skip = p == world.Pass // tells the password to a channel that nobody reads here
		for _, q := range pwds {
			r := &pbw.ChangePasswordRequest{CurrentPassword: []byte(p), NewPassword: []byte(q)}
			add("ChangePassword", show(r), is(p != "" && q != ""), to("ChangePassword", p, q), ok(&pbw.ChangePasswordReply{}), func(h handlers) ([]proto.Message, error) {
				return unary(h.wal.ChangePassword(ctx, wire(r).(*pbw.ChangePasswordRequest)))
			})
			if p == world.Pass && q != "" {
				ps[len(ps)-1].skip = true // as above
			}
		}
		for _, w := range [][]string{nil, {}, {""}, {"abandon"}, world.Words, world.Words[:12], world.Words[:23], append([]string{"", " "}, world.Words[2:]...), make([]string, 24), strings.Split(strings.Repeat("f ", 500), " ")} {
			for _, restore := range bits {
				r := &pbw.InitWalletRequest{WalletPassword: []byte(p), SeedMnemonic: w, Restore: restore}
				var as []answer
				for _, n := range lists {
					var l []*application.InitWalletReply
					var out []proto.Message
					for i := 0; i < n; i++ {
						l = append(l, &application.InitWalletReply{AccountIndex: i, AddressIndex: 2 * i, Status: i % 2, Data: fmt.Sprint("data", i)})
						out = append(out, &pbw.InitWalletReply{Account: uint64(i), Index: uint64(2 * i), Status: pbw.InitWalletReply_Status(i % 2), Data: fmt.Sprint("data", i)})
					}
					as = append(as, answer{l, out})
				}
				f := worst(is(p != "" && len(w) > 0), opt(len(w) == 24 && w[0] == world.Words[0]))
				add("InitWallet", show(r), f, to("InitWallet", w, p, restore), as, func(h handlers) ([]proto.Message, error) {
					s := &initStream{}
					err := h.wal.InitWallet(wire(r).(*pbw.InitWalletRequest), s)
					return s.got, err
				})
			}
		}
	}
	outputs := [][]*pbw.TxOut{nil}
	var forms = []int{broken}
	for _, a := range []string{base, quote, "", "zz", base[:62], strings.Repeat("f", 5000)} {
		for _, v := range signed {
			for _, to := range []string{there, "", "nowhere", strings.Repeat("f", 5000)} {
				f := is(a != "" && v > 0 && to != "")
				if f == fine && !((a == base || a == quote) && v < 1<<50 && to == there) {
					f = either
				}
				o := &pbw.TxOut{Asset: a, Value: v, Address: to}
				outputs = append(outputs, []*pbw.TxOut{o}, []*pbw.TxOut{{Asset: base, Value: 5000, Address: there}, o})
				forms = append(forms, f, f)
			}
		}
	}
	for i, o := range outputs {
		for _, rate := range []int64{100, 99, 0, -1, math.MinInt64, 1000, math.MaxInt64} {
			if rate != 100 && i > 40 {
				continue
			}
			r := &pbw.SendToManyRequest{Outputs: o, MillisatPerByte: rate}
			l := make([]application.TxOut, 0)
			for _, x := range o {
				l = append(l, application.TxOut{Asset: x.Asset, Value: x.Value, Address: x.Address})
			}
			add("SendToMany", show(r), worst(forms[i], is(rate >= 100), opt(rate < math.MaxInt64)), to("SendToMany", application.SendToManyRequest{Outputs: l, MillisatPerByte: rate, Push: true}),
				[]answer{{[]byte{1, 2, 3}, msgs(&pbw.SendToManyReply{RawTx: []byte{1, 2, 3}})}}, func(h handlers) ([]proto.Message, error) {
					return unary(h.wal.SendToMany(ctx, wire(r).(*pbw.SendToManyRequest)))
				})
		}
	}

	// ---- the traders'
	var mwf []answer
	for _, n := range lists {
		var l []application.MarketWithFee
		r := &pbt.MarketsReply{}
		for i := 0; i < n; i++ {
			m := application.Market{BaseAsset: base, QuoteAsset: world.Quote(i)}
			l = append(l, application.MarketWithFee{Market: m, Fee: fees[i%len(fees)]})
			r.Markets = append(r.Markets, &types.MarketWithFee{Market: pbmarket(m), Fee: pbfee(fees[i%len(fees)])})
		}
		mwf = append(mwf, answer{l, msgs(r)})
	}
	add("Markets", "", fine, to("GetTradableMarkets"), mwf, func(h handlers) ([]proto.Message, error) {
		return unary(h.tr.Markets(ctx, &pbt.MarketsRequest{}))
	})
	for _, m := range ms {
		m := m
		var bal, pri []answer
		for i, f := range fees {
			b := application.Balance{BaseAmount: huge[i+1], QuoteAmount: huge[i+3]}
			pb := &types.Balance{BaseAmount: b.BaseAmount, QuoteAmount: b.QuoteAmount}
			bal = append(bal, answer{&application.BalanceWithFee{Balance: b, Fee: f}, msgs(&pbt.BalancesReply{Balances: []*types.BalanceWithFee{{Balance: pb, Fee: pbfee(f)}}})})
			for k := range prices {
				p := application.Price{BasePrice: prices[k], QuotePrice: prices[(k+i+1)%len(prices)]}
				pri = append(pri, answer{&application.PriceWithFee{Price: p, Fee: f, Amount: huge[(i+k)%len(huge)], Asset: world.Quote(k % 3), Balance: b},
					msgs(&pbt.MarketPriceReply{Prices: []*types.PriceWithFee{{Price: &types.Price{BasePrice: float32(f64(p.BasePrice)), QuotePrice: float32(f64(p.QuotePrice))}, Fee: pbfee(f), Amount: huge[(i+k)%len(huge)], Asset: world.Quote(k % 3), Balance: pb}}})})
			}
		}
		r := &pbt.BalancesRequest{Market: m.m}
		add("Balances", show(r), m.form, to("GetMarketBalance", m.app()), bal, func(h handlers) ([]proto.Message, error) {
			return unary(h.tr.Balances(ctx, wire(r).(*pbt.BalancesRequest)))
		})
		for _, t := range []int32{0, 1, 2, -1, math.MaxInt32, math.MinInt32} {
			for _, v := range huge {
				for _, a := range []string{base, quote, "", "zz", base[:62], strings.ToUpper(quote), base + "00"} {
					if (v != 99 || a != base) && m.form != fine {
						continue
					}
					f := worst(m.form, is((t == 0 || t == 1) && v > 0 && len(a) == 64), opt(a != strings.ToUpper(quote) && v < 1<<62))
					r := &pbt.MarketPriceRequest{Market: m.m, Type: pbt.TradeType(t), Amount: v, Asset: a}
					add("MarketPrice", show(r), f, to("GetMarketPrice", m.app(), int(t), v, a), pri, func(h handlers) ([]proto.Message, error) {
						return unary(h.tr.MarketPrice(ctx, wire(r).(*pbt.MarketPriceRequest)))
					})
				}
			}
			keys := map[string][]byte{"00": {1}}
			sound := pbswap.SwapRequest{Id: "r1", AssetP: base, AmountP: 109, AssetR: quote, AmountR: 99, Transaction: "cHNldA==", InputBlindingKey: keys, OutputBlindingKey: map[string][]byte{"01": {2}, "": nil}}
			reqs := []*pbswap.SwapRequest{nil, {}}
			fs := []int{broken, broken}
			vary := func(f int, g func(r *pbswap.SwapRequest)) {
				r := proto.Clone(&sound).(*pbswap.SwapRequest)
				g(r)
				reqs, fs = append(reqs, r), append(fs, f)
			}
			vary(fine, func(r *pbswap.SwapRequest) {})
			vary(either, func(r *pbswap.SwapRequest) { r.Id = "" })
			for _, a := range []string{"", "zz", quote, strings.Repeat("f", 5000)} {
				f := opt(a == quote)
				if a == "" {
					f = broken
				}
				vary(f, func(r *pbswap.SwapRequest) { r.AssetP = a })
				vary(f, func(r *pbswap.SwapRequest) { r.AssetR = a })
			}
			for _, v := range huge {
				vary(is(v > 0), func(r *pbswap.SwapRequest) { r.AmountP = v })
				vary(is(v > 0), func(r *pbswap.SwapRequest) { r.AmountR = v })
			}
			for _, x := range []string{"", "zz", "cHNldP8=", strings.Repeat("f", 5000)} {
				vary(is(x != ""), func(r *pbswap.SwapRequest) { r.Transaction = x })
			}
			for _, k := range []map[string][]byte{nil, {"": nil}, {"zz": {1, 2}}, {"00": make([]byte, 64)}} {
				vary(is(k != nil), func(r *pbswap.SwapRequest) { r.InputBlindingKey = k })
				vary(is(k != nil), func(r *pbswap.SwapRequest) { r.OutputBlindingKey = k })
			}
			acc, fl := &pbswap.SwapAccept{Id: "a", RequestId: "r", Transaction: "t", InputBlindingKey: keys, OutputBlindingKey: map[string][]byte{"03": {4}}}, &pbswap.SwapFail{Id: "f", MessageId: "m", FailureCode: 8, FailureMessage: "no"}
			as := []answer{{proposed{acc, nil, 77}, msgs(&pbt.TradeProposeReply{SwapAccept: acc, ExpiryTimeUnix: 77})}, {proposed{nil, fl, 0}, msgs(&pbt.TradeProposeReply{SwapFail: fl})}}
			for i, s := range reqs {
				if m.form != fine && i > 3 {
					continue
				}
				r := &pbt.TradeProposeRequest{Market: m.m, Type: pbt.TradeType(t), SwapRequest: s}
				var w interface{}
				if s != nil {
					w = swapRequest(wire(s).(*pbswap.SwapRequest))
				}
				add("TradePropose", show(r), worst(m.form, fs[i], is(t == 0 || t == 1)), to("TradePropose", m.app(), int(t), w), as, func(h handlers) ([]proto.Message, error) {
					st := &proposeStream{}
					err := h.tr.TradePropose(wire(r).(*pbt.TradeProposeRequest), st)
					return st.got, err
				})
			}
		}
	}
	fl := &pbswap.SwapFail{Id: "f", MessageId: "m", FailureCode: 8, FailureMessage: "no"}
	as := []answer{{completed{"txid", nil}, msgs(&pbt.TradeCompleteReply{Txid: "txid"})}, {completed{"", fl}, msgs(&pbt.TradeCompleteReply{SwapFail: fl})}}
	for _, id := range []string{"", "nosuch"} {
		for _, tx := range []string{"", "zz", "cHNldA==", strings.Repeat("f", 5000)} {
			for k := 0; k < 3; k++ {
				r := &pbt.TradeCompleteRequest{SwapComplete: &pbswap.SwapComplete{Id: "c", AcceptId: id, Transaction: tx}}
				var f interface{}
				if k > 0 {
					r.SwapFail = &pbswap.SwapFail{Id: "x", MessageId: id, FailureCode: uint32(k), FailureMessage: tx}
					f = []interface{}{"x", id, uint32(k), tx}
				}
				add("TradeComplete", show(r), opt(k == 0 && id != "" && tx != ""), to("TradeComplete", []string{"c", id, tx}, f), as, completeDo(r))
				if k > 0 {
					r := &pbt.TradeCompleteRequest{SwapFail: r.SwapFail}
					add("TradeComplete", show(r), opt(id != ""), to("TradeComplete", nil, f), as, completeDo(r))
				}
			}
		}
	}
	empty := &pbt.TradeCompleteRequest{}
	add("TradeComplete", "", either, to("TradeComplete", nil, nil), as, completeDo(empty))
	return
}

func completeDo(r *pbt.TradeCompleteRequest) func(h handlers) ([]proto.Message, error) {
	return func(h handlers) ([]proto.Message, error) {
		st := &completeStream{}
		err := h.tr.TradeComplete(wire(r).(*pbt.TradeCompleteRequest), st)
		return st.got, err
	}
}

type stream struct {
	grpc.ServerStream
	got []proto.Message
}

func (s *stream) Context() context.Context { return ctx }

type initStream struct{ stream }

func (s *initStream) Send(r *pbw.InitWalletReply) error { s.got = append(s.got, wire(r)); return nil }

type proposeStream struct{ stream }

func (s *proposeStream) Send(r *pbt.TradeProposeReply) error {
	s.got = append(s.got, wire(r))
	return nil
}

type completeStream struct{ stream }

func (s *completeStream) Send(r *pbt.TradeCompleteReply) error {
	s.got = append(s.got, wire(r))
	return nil
}
