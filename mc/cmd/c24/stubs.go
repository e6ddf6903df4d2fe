package main

import (
	"context"
	"errors"
	"sync"

	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
)

// calls records which services were reached; they do nothing.
type calls struct {
	mu sync.Mutex
	n  map[string]int
	ch chan application.PassphraseMsg
}

var errServed = errors.New("SERVED")

func (c *calls) hit(s string) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.n[s]++
	return errServed
}

func (c *calls) total() (n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, k := range c.n {
		n += k
	}
	return
}

type operator struct{ *calls }
type wallet struct{ *calls }
type trade struct{ *calls }

func (s operator) DepositMarket(context.Context, string, string, int) ([]application.AddressAndBlindingKey, error) {
	return nil, s.hit("DepositMarket")
}

func (s operator) DepositFeeAccount(context.Context, int) ([]application.AddressAndBlindingKey, error) {
	return nil, s.hit("DepositFeeAccount")
}

func (s operator) OpenMarket(context.Context, string, string) error { return s.hit("OpenMarket") }

func (s operator) CloseMarket(context.Context, string, string) error { return s.hit("CloseMarket") }

func (s operator) UpdateMarketPercentageFee(context.Context, application.MarketWithFee) (*application.MarketWithFee, error) {
	return nil, s.hit("UpdateMarketPercentageFee")
}

func (s operator) UpdateMarketFixedFee(context.Context, application.MarketWithFee) (*application.MarketWithFee, error) {
	return nil, s.hit("UpdateMarketFixedFee")
}

func (s operator) UpdateMarketPrice(context.Context, application.MarketWithPrice) error {
	return s.hit("UpdateMarketPrice")
}

func (s operator) UpdateMarketStrategy(context.Context, application.MarketStrategy) error {
	return s.hit("UpdateMarketStrategy")
}

func (s operator) ListTrades(context.Context) ([]application.TradeInfo, error) {
	return nil, s.hit("ListTrades")
}

func (s operator) ListMarketExternalAddresses(context.Context, application.Market) ([]string, error) {
	return nil, s.hit("ListMarketExternalAddresses")
}

func (s operator) WithdrawMarketFunds(context.Context, application.WithdrawMarketReq) ([]byte, error) {
	return nil, s.hit("WithdrawMarketFunds")
}

func (s operator) FeeAccountBalance(context.Context) (int64, error) {
	return 0, s.hit("FeeAccountBalance")
}

func (s operator) ClaimMarketDeposit(context.Context, application.Market, []application.TxOutpoint) error {
	return s.hit("ClaimMarketDeposit")
}

func (s operator) ClaimFeeDeposit(context.Context, []application.TxOutpoint) error {
	return s.hit("ClaimFeeDeposit")
}

func (s operator) ListMarket(context.Context) ([]application.MarketInfo, error) {
	return nil, s.hit("ListMarket")
}

func (s operator) GetCollectedMarketFee(context.Context, application.Market) (*application.ReportMarketFee, error) {
	return nil, s.hit("GetCollectedMarketFee")
}

func (s operator) ListUtxos(context.Context) (map[uint64]application.UtxoInfoList, error) {
	return nil, s.hit("ListUtxos")
}

func (s operator) ReloadUtxos(context.Context) error { return s.hit("ReloadUtxos") }

func (s operator) DropMarket(context.Context, int) error { return s.hit("DropMarket") }

func (s operator) AddWebhook(context.Context, application.Webhook) (string, error) {
	return "", s.hit("AddWebhook")
}

func (s operator) RemoveWebhook(context.Context, string) error { return s.hit("RemoveWebhook") }

func (s operator) ListWebhooks(context.Context, int) ([]application.WebhookInfo, error) {
	return nil, s.hit("ListWebhooks")
}

func (s wallet) GenSeed(context.Context) ([]string, error) { return nil, s.hit("GenSeed") }

func (s wallet) InitWallet(_ context.Context, _ []string, _ string, _ bool, res chan *application.InitWalletReply, err chan error) {
	err <- s.hit("InitWallet")
	close(err)
	close(res)
}

func (s wallet) UnlockWallet(context.Context, string) error { return s.hit("UnlockWallet") }

func (s wallet) ChangePassword(context.Context, string, string) error { return s.hit("ChangePassword") }

func (s wallet) GenerateAddressAndBlindingKey(context.Context) (string, string, error) {
	return "", "", s.hit("GenerateAddressAndBlindingKey")
}

func (s wallet) GetWalletBalance(context.Context) (map[string]application.BalanceInfo, error) {
	return nil, s.hit("GetWalletBalance")
}

func (s wallet) SendToMany(context.Context, application.SendToManyRequest) ([]byte, error) {
	return nil, s.hit("SendToMany")
}

func (s wallet) PassphraseChan() chan application.PassphraseMsg { return s.ch }

func (s trade) GetTradableMarkets(context.Context) ([]application.MarketWithFee, error) {
	return nil, s.hit("GetTradableMarkets")
}

func (s trade) GetMarketPrice(context.Context, application.Market, int, uint64, string) (*application.PriceWithFee, error) {
	return nil, s.hit("GetMarketPrice")
}

func (s trade) TradePropose(context.Context, application.Market, int, domain.SwapRequest) (domain.SwapAccept, domain.SwapFail, uint64, error) {
	return nil, nil, 0, s.hit("TradePropose")
}

func (s trade) TradeComplete(context.Context, *domain.SwapComplete, *domain.SwapFail) (string, domain.SwapFail, error) {
	return "", nil, s.hit("TradeComplete")
}

func (s trade) GetMarketBalance(context.Context, application.Market) (*application.BalanceWithFee, error) {
	return nil, s.hit("GetMarketBalance")
}
