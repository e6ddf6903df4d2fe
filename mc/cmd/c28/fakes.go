package main

import (
	"context"

	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
)

// rec records what the handlers ask of the services, and answers what it's told.
type rec struct {
	calls []call
	ret   interface{}
	err   error
}

type call struct {
	Name string
	Args []interface{}
}

func (r *rec) on(name string, args ...interface{}) { r.calls = append(r.calls, call{name, args}) }

type operator struct {
	application.OperatorService
	*rec
}

func (f operator) DepositMarket(_ context.Context, b, q string, n int) ([]application.AddressAndBlindingKey, error) {
	f.on("DepositMarket", b, q, n)
	x, _ := f.ret.([]application.AddressAndBlindingKey)
	return x, f.err
}
func (f operator) DepositFeeAccount(_ context.Context, n int) ([]application.AddressAndBlindingKey, error) {
	f.on("DepositFeeAccount", n)
	x, _ := f.ret.([]application.AddressAndBlindingKey)
	return x, f.err
}
func (f operator) OpenMarket(_ context.Context, b, q string) error {
	f.on("OpenMarket", b, q)
	return f.err
}
func (f operator) CloseMarket(_ context.Context, b, q string) error {
	f.on("CloseMarket", b, q)
	return f.err
}
func (f operator) UpdateMarketPercentageFee(_ context.Context, m application.MarketWithFee) (*application.MarketWithFee, error) {
	f.on("UpdateMarketPercentageFee", m.Market, m.BasisPoint)
	x, _ := f.ret.(*application.MarketWithFee)
	return x, f.err
}
func (f operator) UpdateMarketFixedFee(_ context.Context, m application.MarketWithFee) (*application.MarketWithFee, error) {
	f.on("UpdateMarketFixedFee", m.Market, m.FixedBaseFee, m.FixedQuoteFee)
	x, _ := f.ret.(*application.MarketWithFee)
	return x, f.err
}
func (f operator) UpdateMarketPrice(_ context.Context, m application.MarketWithPrice) error {
	b, _ := m.BasePrice.Float64()
	q, _ := m.QuotePrice.Float64()
	f.on("UpdateMarketPrice", m.Market, float32(b), float32(q))
	return f.err
}
func (f operator) UpdateMarketStrategy(_ context.Context, m application.MarketStrategy) error {
	f.on("UpdateMarketStrategy", m.Market, int(m.Strategy))
	return f.err
}
func (f operator) ListTrades(context.Context) ([]application.TradeInfo, error) {
	f.on("ListTrades")
	x, _ := f.ret.([]application.TradeInfo)
	return x, f.err
}
func (f operator) ListMarketExternalAddresses(_ context.Context, m application.Market) ([]string, error) {
	f.on("ListMarketExternalAddresses", m)
	x, _ := f.ret.([]string)
	return x, f.err
}
func (f operator) WithdrawMarketFunds(_ context.Context, r application.WithdrawMarketReq) ([]byte, error) {
	f.on("WithdrawMarketFunds", r)
	x, _ := f.ret.([]byte)
	return x, f.err
}
func (f operator) FeeAccountBalance(context.Context) (int64, error) {
	f.on("FeeAccountBalance")
	x, _ := f.ret.(int64)
	return x, f.err
}
func (f operator) ClaimMarketDeposit(_ context.Context, m application.Market, o []application.TxOutpoint) error {
	f.on("ClaimMarketDeposit", m, o)
	return f.err
}
func (f operator) ClaimFeeDeposit(_ context.Context, o []application.TxOutpoint) error {
	f.on("ClaimFeeDeposit", o)
	return f.err
}
func (f operator) ListMarket(context.Context) ([]application.MarketInfo, error) {
	f.on("ListMarket")
	x, _ := f.ret.([]application.MarketInfo)
	return x, f.err
}
func (f operator) GetCollectedMarketFee(_ context.Context, m application.Market) (*application.ReportMarketFee, error) {
	f.on("GetCollectedMarketFee", m)
	x, _ := f.ret.(*application.ReportMarketFee)
	return x, f.err
}
func (f operator) ListUtxos(context.Context) (map[uint64]application.UtxoInfoList, error) {
	f.on("ListUtxos")
	x, _ := f.ret.(map[uint64]application.UtxoInfoList)
	return x, f.err
}
func (f operator) ReloadUtxos(context.Context) error { f.on("ReloadUtxos"); return f.err }
func (f operator) DropMarket(_ context.Context, i int) error {
	f.on("DropMarket", i)
	return f.err
}
func (f operator) AddWebhook(_ context.Context, h application.Webhook) (string, error) {
	f.on("AddWebhook", h)
	x, _ := f.ret.(string)
	return x, f.err
}
func (f operator) RemoveWebhook(_ context.Context, id string) error {
	f.on("RemoveWebhook", id)
	return f.err
}
func (f operator) ListWebhooks(_ context.Context, a int) ([]application.WebhookInfo, error) {
	f.on("ListWebhooks", a)
	x, _ := f.ret.([]application.WebhookInfo)
	return x, f.err
}

type walletSvc struct {
	application.WalletService
	*rec
}

func (f walletSvc) GenSeed(context.Context) ([]string, error) {
	f.on("GenSeed")
	x, _ := f.ret.([]string)
	return x, f.err
}

// InitWallet answers with the given replies and, if any, the error.
func (f walletSvc) InitWallet(_ context.Context, m []string, p string, restore bool, res chan *application.InitWalletReply, errs chan error) {
	f.on("InitWallet", m, p, restore)
	defer close(res)
	defer close(errs)
	l, _ := f.ret.([]*application.InitWalletReply)
	for _, r := range l {
		res <- r
	}
	if f.err != nil {
		errs <- f.err
	}
}
func (f walletSvc) UnlockWallet(_ context.Context, p string) error {
	f.on("UnlockWallet", p)
	return f.err
}
func (f walletSvc) ChangePassword(_ context.Context, a, b string) error {
	f.on("ChangePassword", a, b)
	return f.err
}
func (f walletSvc) GenerateAddressAndBlindingKey(context.Context) (string, string, error) {
	f.on("GenerateAddressAndBlindingKey")
	x, _ := f.ret.([2]string)
	return x[0], x[1], f.err
}
func (f walletSvc) GetWalletBalance(context.Context) (map[string]application.BalanceInfo, error) {
	f.on("GetWalletBalance")
	x, _ := f.ret.(map[string]application.BalanceInfo)
	return x, f.err
}
func (f walletSvc) SendToMany(_ context.Context, r application.SendToManyRequest) ([]byte, error) {
	f.on("SendToMany", r)
	x, _ := f.ret.([]byte)
	return x, f.err
}

type trader struct {
	application.TradeService
	*rec
}

type proposed struct {
	accept domain.SwapAccept
	fail   domain.SwapFail
	expiry uint64
}

func (f trader) GetTradableMarkets(context.Context) ([]application.MarketWithFee, error) {
	f.on("GetTradableMarkets")
	x, _ := f.ret.([]application.MarketWithFee)
	return x, f.err
}
func (f trader) GetMarketPrice(_ context.Context, m application.Market, t int, v uint64, a string) (*application.PriceWithFee, error) {
	f.on("GetMarketPrice", m, t, v, a)
	x, _ := f.ret.(*application.PriceWithFee)
	return x, f.err
}
func (f trader) TradePropose(_ context.Context, m application.Market, t int, r domain.SwapRequest) (domain.SwapAccept, domain.SwapFail, uint64, error) {
	f.on("TradePropose", m, t, swapRequest(r))
	x, _ := f.ret.(proposed)
	return x.accept, x.fail, x.expiry, f.err
}

type completed struct {
	txid string
	fail domain.SwapFail
}

func (f trader) TradeComplete(_ context.Context, c *domain.SwapComplete, x *domain.SwapFail) (string, domain.SwapFail, error) {
	var a, b interface{}
	if c != nil {
		a = []string{(*c).GetId(), (*c).GetAcceptId(), (*c).GetTransaction()}
	}
	if x != nil {
		b = []interface{}{(*x).GetId(), (*x).GetMessageId(), (*x).GetFailureCode(), (*x).GetFailureMessage()}
	}
	f.on("TradeComplete", a, b)
	r, _ := f.ret.(completed)
	return r.txid, r.fail, f.err
}
func (f trader) GetMarketBalance(_ context.Context, m application.Market) (*application.BalanceWithFee, error) {
	f.on("GetMarketBalance", m)
	x, _ := f.ret.(*application.BalanceWithFee)
	return x, f.err
}
