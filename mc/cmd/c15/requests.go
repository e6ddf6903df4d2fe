package main

import (
	"context"
	"strings"

	pbop "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	pbw "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	"github.com/tdex-network/tdex-daemon/verif/world"
	pbswap "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	pbt "github.com/tdex-network/tdex-protobuf/generated/go/trade"
	"github.com/tdex-network/tdex-protobuf/generated/go/types"
)

func market(i int) *types.Market { return &types.Market{BaseAsset: base, QuoteAsset: world.Quote(i)} }

// request of a client.
type request struct {
	name string
	// need: it needs the keys, the balances or the tradable markets
	need bool
	// pure: it changes nothing
	pure bool
	do   func(d *daemon) (interface{}, error)
}

func requests() []request {
	out := []request{
		{"WalletAddress", true, false, func(d *daemon) (interface{}, error) { return d.wal.WalletAddress(ctx, &pbw.WalletAddressRequest{}) }},
		{"WalletBalance", true, true, func(d *daemon) (interface{}, error) { return d.wal.WalletBalance(ctx, &pbw.WalletBalanceRequest{}) }},
		{"SendToMany", true, false, func(d *daemon) (interface{}, error) {
			return d.wal.SendToMany(ctx, &pbw.SendToManyRequest{MillisatPerByte: 100, Outputs: []*pbw.TxOut{{Asset: base, Value: 1000, Address: there}}})
		}},
		{"DepositMarket/new", true, false, func(d *daemon) (interface{}, error) { return d.op.DepositMarket(ctx, &pbop.DepositMarketRequest{}) }},
		{"DepositMarket", true, false, func(d *daemon) (interface{}, error) {
			return d.op.DepositMarket(ctx, &pbop.DepositMarketRequest{Market: market(0), NumOfAddresses: 2})
		}},
		{"DepositFeeAccount", true, false, func(d *daemon) (interface{}, error) {
			return d.op.DepositFeeAccount(ctx, &pbop.DepositFeeAccountRequest{})
		}},
		{"OpenMarket", true, false, func(d *daemon) (interface{}, error) {
			return d.op.OpenMarket(ctx, &pbop.OpenMarketRequest{Market: market(1)})
		}},
		{"CloseMarket", false, false, func(d *daemon) (interface{}, error) {
			return d.op.CloseMarket(ctx, &pbop.CloseMarketRequest{Market: market(0)})
		}},
		{"UpdateMarketPercentageFee", false, false, func(d *daemon) (interface{}, error) {
			return d.op.UpdateMarketPercentageFee(ctx, &pbop.UpdateMarketPercentageFeeRequest{Market: market(1), BasisPoint: 77})
		}},
		{"UpdateMarketFixedFee", false, false, func(d *daemon) (interface{}, error) {
			return d.op.UpdateMarketFixedFee(ctx, &pbop.UpdateMarketFixedFeeRequest{Market: market(1), Fixed: &types.Fixed{BaseFee: 1, QuoteFee: 2}})
		}},
		{"UpdateMarketPrice", false, false, func(d *daemon) (interface{}, error) {
			return d.op.UpdateMarketPrice(ctx, &pbop.UpdateMarketPriceRequest{Market: market(0), Price: &types.Price{BasePrice: 2, QuotePrice: 0.5}})
		}},
		{"UpdateMarketStrategy", false, false, func(d *daemon) (interface{}, error) {
			return d.op.UpdateMarketStrategy(ctx, &pbop.UpdateMarketStrategyRequest{Market: market(1), StrategyType: pbop.StrategyType_PLUGGABLE})
		}},
		{"ListTrades", false, true, func(d *daemon) (interface{}, error) { return d.op.ListTrades(ctx, &pbop.ListTradesRequest{}) }},
		{"WithdrawMarket", true, false, func(d *daemon) (interface{}, error) {
			return d.op.WithdrawMarket(ctx, &pbop.WithdrawMarketRequest{Market: market(1), BalanceToWithdraw: &types.Balance{BaseAmount: 500}, MillisatPerByte: 100, Address: there})
		}},
		{"BalanceFeeAccount", true, true, func(d *daemon) (interface{}, error) {
			return d.op.BalanceFeeAccount(ctx, &pbop.BalanceFeeAccountRequest{})
		}},
		{"ClaimMarketDeposit", true, false, func(d *daemon) (interface{}, error) {
			return d.op.ClaimMarketDeposit(ctx, &pbop.ClaimMarketDepositRequest{Market: market(1), Outpoints: []*pbop.TxOutpoint{{Hash: strings.Repeat("ab", 32)}}})
		}},
		{"ClaimFeeDeposit", true, false, func(d *daemon) (interface{}, error) {
			return d.op.ClaimFeeDeposit(ctx, &pbop.ClaimFeeDepositRequest{Outpoints: []*pbop.TxOutpoint{{Hash: strings.Repeat("ab", 32)}}})
		}},
		{"ListDepositMarket", true, true, func(d *daemon) (interface{}, error) {
			return d.op.ListDepositMarket(ctx, &pbop.ListDepositMarketRequest{Market: market(0)})
		}},
		{"ListMarket", false, true, func(d *daemon) (interface{}, error) { return d.op.ListMarket(ctx, &pbop.ListMarketRequest{}) }},
		{"ReportMarketFee", false, true, func(d *daemon) (interface{}, error) {
			return d.op.ReportMarketFee(ctx, &pbop.ReportMarketFeeRequest{Market: market(0)})
		}},
		{"ReloadUtxos", false, false, func(d *daemon) (interface{}, error) { return d.op.ReloadUtxos(ctx, &pbop.ReloadUtxosRequest{}) }},
		{"ListUtxos", false, true, func(d *daemon) (interface{}, error) { return d.op.ListUtxos(ctx, &pbop.ListUtxosRequest{}) }},
		{"DropMarket", false, false, func(d *daemon) (interface{}, error) {
			return d.op.DropMarket(ctx, &pbop.DropMarketRequest{AccountIndex: uint64(world.Account(1))})
		}},
		{"AddWebhook", false, false, func(d *daemon) (interface{}, error) {
			return d.op.AddWebhook(ctx, &pbop.AddWebhookRequest{Endpoint: "http://localhost:1/x", Action: pbop.ActionType_ALL_ACTIONS, Secret: "s"})
		}},
		{"RemoveWebhook", false, false, func(d *daemon) (interface{}, error) {
			return d.op.RemoveWebhook(ctx, &pbop.RemoveWebhookRequest{Id: "id"})
		}},
		{"ListWebhooks", false, true, func(d *daemon) (interface{}, error) { return d.op.ListWebhooks(ctx, &pbop.ListWebhooksRequest{}) }},
		{"Markets", true, true, func(d *daemon) (interface{}, error) { return d.tr.Markets(ctx, &pbt.MarketsRequest{}) }},
		{"Balances", true, true, func(d *daemon) (interface{}, error) {
			return d.tr.Balances(ctx, &pbt.BalancesRequest{Market: market(0)})
		}},
		{"MarketPrice", true, true, func(d *daemon) (interface{}, error) {
			return d.tr.MarketPrice(ctx, &pbt.MarketPriceRequest{Market: market(0), Type: pbt.TradeType_SELL, Amount: 100, Asset: base})
		}},
		{"TradePropose", true, false, func(d *daemon) (interface{}, error) {
			st := &sink{}
			err := d.tr.TradePropose(&pbt.TradeProposeRequest{Market: market(0), Type: pbt.TradeType_SELL, SwapRequest: &pbswap.SwapRequest{
				Id: "r1", AssetP: base, AmountP: 109, AssetR: world.Quote(0), AmountR: 99, Transaction: "cHNldA==",
				InputBlindingKey: map[string][]byte{"a": {1}}, OutputBlindingKey: map[string][]byte{"b": {1}}}}, st)
			return st.last, err
		}},
		{"TradeComplete", false, false, func(d *daemon) (interface{}, error) {
			st := &sink{}
			err := d.tr.TradeComplete(&pbt.TradeCompleteRequest{SwapComplete: &pbswap.SwapComplete{Id: "c", AcceptId: "nosuch", Transaction: "cHNldA=="}}, &sink2{st})
			return st.last, err
		}},
	}
	return out
}

type sink struct {
	pbt.Trade_TradeProposeServer
	last interface{}
}

func (s *sink) Send(r *pbt.TradeProposeReply) error { s.last = r; return nil }
func (s *sink) Context() context.Context            { return ctx }

type sink2 struct{ *sink }

func (s *sink2) Send(r *pbt.TradeCompleteReply) error { s.last = r; return nil }
