// C11: balances and fee reports. Every small population of coins (account,
// asset, state) and of trades (market, status, side, terms), on both back ends,
// asked for through the services and the handlers and compared with sums made
// here; and sequences of swaps with the market's fee changed in between.
//
//mc:instr pkg/wallet=M
package main

import (
	"context"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/google/uuid"
	"github.com/shopspring/decimal"
	pbop "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	pbw "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	grpchandler "github.com/tdex-network/tdex-daemon/internal/interfaces/grpc/handler"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/tdex-network/tdex-daemon/verif/world"
	pbt "github.com/tdex-network/tdex-protobuf/generated/go/trade"
	"github.com/tdex-network/tdex-protobuf/generated/go/types"
)

var (
	c    *hx.Check
	ctx  = context.Background()
	base = world.Base
)

// coin of a population.
type coin struct {
	acct  int
	asset int // 0 base, 1 first quote, 2 second quote
	conf  bool
	lock  bool
	spent bool
}

func asset(i int) string {
	if i == 0 {
		return base
	}
	return world.Quote(i - 1)
}

func (k coin) String() string {
	s := fmt.Sprintf("account %d %s", k.acct, world.Fmt(asset(k.asset)))
	if !k.conf {
		s += " unconfirmed"
	}
	if k.lock {
		s += " locked"
	}
	if k.spent {
		s += " spent"
	}
	return s
}

// value of the i-th coin: every subset has its own sum.
func value(i int) uint64 { return []uint64{3, 2000000000000000, 41, 500}[i] }

// trade of a population.
type trade struct {
	mkt    int
	status domain.Status
	sell   bool // the trader sends base
	amount uint64
	fee    int64
}

var statuses = []domain.Status{domain.EmptyStatus, domain.ProposalStatus, domain.ProposalRejectedStatus, domain.AcceptedStatus, domain.FailedToCompleteStatus, domain.CompletedStatus, domain.FailedToSettleStatus, domain.SettledStatus, domain.ExpiredStatus}

func (t trade) String() string {
	return fmt.Sprintf("market %d status %d failed %v sell %v %d at %d bp", t.mkt, t.status.Code, t.status.Failed, t.sell, t.amount, t.fee)
}

func (t trade) sides() (ap, ar string) {
	if t.sell {
		return base, world.Quote(t.mkt)
	}
	return world.Quote(t.mkt), base
}

type test struct {
	name   string
	bdg    bool
	coins  []coin
	trades []trade
	steps  string
}

func (t test) String() string {
	s := []string{t.name}
	if t.bdg {
		s = append(s, "badger")
	}
	for _, k := range t.coins {
		s = append(s, k.String())
	}
	for _, k := range t.trades {
		s = append(s, k.String())
	}
	if t.steps != "" {
		s = append(s, t.steps)
	}
	return strings.Join(s, "; ")
}

type daemon struct {
	*world.World
	t   test
	op  pbop.OperatorServer
	tr  pbt.TradeServer
	wal pbw.WalletServer
	bad func(sig, f string, a ...interface{})
}

func start(t test, prep func(*domain.Market)) *daemon {
	w := world.New(world.Opts{Badger: t.bdg, Markets: 2, Addresses: 3, WithOps: true, Slippage: decimal.NewFromFloat(0.5), Prepare: prep, Gated: t.name == "history"})
	d := &daemon{World: w, t: t, op: grpchandler.NewOperatorHandler(w.Operator), tr: grpchandler.NewTraderHandler(w.Trade), wal: grpchandler.NewWalletHandler(w.Wallet)}
	d.bad = func(sig, f string, a ...interface{}) {
		c.Fail(sig, t.String()+": "+fmt.Sprintf(f, a...), t.String())
	}
	return d
}

func market(i int) *types.Market { return &types.Market{BaseAsset: base, QuoteAsset: world.Quote(i)} }

// balances compares everything reported with what w records.
func (d *daemon) balances(us []domain.Unspent, acctOf map[string]int) {
	sum := func(acct int, ass string) (v uint64) {
		for _, u := range us {
			if acctOf[u.Address] == acct && u.AssetHash == ass && u.Confirmed && !u.Spent {
				v += u.Value
			}
		}
		return
	}
	r, err := d.op.BalanceFeeAccount(ctx, &pbop.BalanceFeeAccountRequest{})
	if err != nil {
		d.bad("fee-balance", "the fee account's balance is not told: %v", err)
	} else if want := int64(sum(domain.FeeAccount, base)); r.GetBalance() != want {
		d.bad("fee-balance", "the fee account holds %d but %d is reported", want, r.GetBalance())
	}
	for i := 0; i < 2; i++ {
		m, err := d.tr.Balances(ctx, &pbt.BalancesRequest{Market: market(i)})
		if err != nil || len(m.GetBalances()) != 1 {
			d.bad("market-balance", "the balance of market %d is not told once: %v %v", i, m, err)
			continue
		}
		b := m.GetBalances()[0]
		wb, wq := sum(world.Account(i), base), sum(world.Account(i), world.Quote(i))
		if b.GetBalance().GetBaseAmount() != wb || b.GetBalance().GetQuoteAmount() != wq {
			d.bad("market-balance", "market %d holds %d base and %d quote but %v is reported", i, wb, wq, b.GetBalance())
		}
		mk, _, err := d.Repo.MarketRepository().GetMarketByAsset(ctx, world.Quote(i))
		if err != nil {
			panic(err)
		}
		if f := b.GetFee(); f.GetBasisPoint() != mk.Fee || f.GetFixed().GetBaseFee() != mk.FixedFee.BaseFee || f.GetFixed().GetQuoteFee() != mk.FixedFee.QuoteFee {
			d.bad("market-fee", "market %d charges %d bp and %v but %v is reported", i, mk.Fee, mk.FixedFee, f)
		}
	}
	l, err := d.op.ListUtxos(ctx, &pbop.ListUtxosRequest{})
	if err != nil {
		d.bad("list-utxos", "the coins are not listed: %v", err)
		return
	}
	var got, want []string
	for a, in := range l.GetInfoPerAccount() {
		for k, list := range map[string][]*pbop.UtxoInfo{"unspent": in.GetUnspents(), "spent": in.GetSpents(), "locked": in.GetLocks()} {
			for _, u := range list {
				got = append(got, fmt.Sprint(a, k, u.GetOutpoint().GetHash(), u.GetOutpoint().GetIndex(), u.GetValue(), u.GetAsset()))
			}
		}
	}
	for _, u := range us {
		k := "unspent"
		if u.Spent {
			k = "spent"
		} else if u.Locked {
			k = "locked"
		}
		want = append(want, fmt.Sprint(uint64(acctOf[u.Address]), k, u.TxID, u.VOut, u.Value, u.AssetHash))
	}
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, ",") != strings.Join(want, ",") {
		d.bad("list-utxos", "the listed coins %v are not the recorded ones %v", got, want)
	}
}

func (d *daemon) accounts() map[string]int {
	m := map[string]int{}
	for a, l := range d.Addr {
		for _, in := range l {
			m[in.Address] = a
		}
	}
	return m
}

func runCoins(t test) {
	d := start(t, nil)
	defer d.Close()
	rep := d.Repo.UnspentRepository()
	id := uuid.New()
	var us []domain.Unspent
	for i, k := range t.coins {
		in := d.Addr[k.acct][i%3]
		sc, _ := hex.DecodeString(in.Script)
		u := domain.Unspent{TxID: strings.Repeat(fmt.Sprintf("%02x", 0x10+i/2), 32), VOut: uint32(i % 2), Value: value(i), AssetHash: asset(k.asset), ScriptPubKey: sc, Address: in.Address,
			ValueCommitment: "09", AssetCommitment: "0a", ValueBlinder: make([]byte, 32), AssetBlinder: make([]byte, 32), Nonce: []byte{1}, RangeProof: []byte{1}, SurjectionProof: []byte{1}}
		// what happens to coins: they are added confirmed or confirm later,
		// then are locked, then spent
		u.Confirmed = k.conf && i%2 == 0
		if err := rep.AddUnspents(ctx, []domain.Unspent{u}); err != nil {
			panic(err)
		}
		if k.conf && i%2 == 1 {
			rep.ConfirmUnspents(ctx, []domain.UnspentKey{u.Key()})
		}
		u.Confirmed = k.conf
		if k.lock {
			rep.LockUnspents(ctx, []domain.UnspentKey{u.Key()}, id)
			u.Locked = true
		}
		if k.spent {
			rep.SpendUnspents(ctx, []domain.UnspentKey{u.Key()})
			u.Spent, u.Locked = true, false
		}
		us = append(us, u)
	}
	d.balances(us, d.accounts())
	c.Count("evaluations", 1)
	for _, k := range t.coins {
		if k.conf && !k.spent {
			c.Count("distinct_nontrivial", 1)
			c.Outcome("coins")
			return
		}
	}
	c.Outcome("no spendable coin")
}

type utxo struct {
	explorer.Utxo
	h    string
	v    uint64
	a    string
	conf bool
}

func (u utxo) Hash() string      { return u.h }
func (u utxo) Index() uint32     { return 0 }
func (u utxo) Value() uint64     { return u.v }
func (u utxo) Asset() string     { return u.a }
func (u utxo) IsConfirmed() bool { return u.conf }

func runWallet(t test) {
	d := start(t, nil)
	defer d.Close()
	d.Explorer.Utxos = func(addrs []string) (out []explorer.Utxo) {
		for i, k := range t.coins {
			if k.spent {
				continue
			}
			for _, a := range addrs {
				if d.Addr[k.acct][i%3].Address == a {
					out = append(out, utxo{h: fmt.Sprint(i), v: value(i), a: asset(k.asset), conf: k.conf})
				}
			}
		}
		return
	}
	r, err := d.wal.WalletBalance(ctx, &pbw.WalletBalanceRequest{})
	if err != nil {
		d.bad("wallet-balance", "the wallet's balance is not told: %v", err)
		return
	}
	want := map[string][3]uint64{}
	for i, k := range t.coins {
		if k.acct != domain.WalletAccount || k.spent {
			continue
		}
		w := want[asset(k.asset)]
		w[0] += value(i)
		if k.conf {
			w[1] += value(i)
		} else {
			w[2] += value(i)
		}
		want[asset(k.asset)] = w
	}
	got := map[string][3]uint64{}
	for a, b := range r.GetBalance() {
		got[a] = [3]uint64{b.GetTotalBalance(), b.GetConfirmedBalance(), b.GetUnconfirmedBalance()}
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		d.bad("wallet-balance", "the wallet holds (total, confirmed, unconfirmed) %v but %v is reported", want, got)
	}
	c.Count("evaluations", 1)
	if len(want) > 0 {
		c.Count("distinct_nontrivial", 1)
	}
	c.Outcome(fmt.Sprintf("wallet with %d assets", len(want)))
}

// fee of amount at bp: rounded down.
func fee(amount uint64, bp int64) uint64 {
	f := new(big.Int).Mul(new(big.Int).SetUint64(amount), big.NewInt(bp))
	return f.Div(f, big.NewInt(10000)).Uint64()
}

type line struct {
	ID    string
	bp    int64
	asset string
	v     uint64
	price float32
}

// report compares the fee reports with the trades that should be in them.
func (d *daemon) report(want [2][]line) {
	for i := range want {
		r, err := d.op.ReportMarketFee(ctx, &pbop.ReportMarketFeeRequest{Market: market(i)})
		if err != nil {
			d.bad("report", "the fees of market %d are not reported: %v", i, err)
			continue
		}
		tot := map[string]int64{}
		w := map[string]line{}
		for _, l := range want[i] {
			w[l.ID] = l
			tot[l.asset] += int64(l.v)
		}
		for _, l := range r.GetCollectedFees() {
			g := line{l.GetTradeId(), l.GetBasisPoint(), l.GetAsset(), l.GetAmount(), l.GetMarketPrice()}
			x, ok := w[g.ID]
			if !ok {
				d.bad("report-extra", "market %d: %v is reported, but it was not (or is already) listed", i, g)
			} else if x != g {
				d.bad("report-line", "market %d: %v is reported, not %v", i, g, x)
			}
			delete(w, g.ID)
		}
		for _, x := range w {
			d.bad("report-missing", "market %d: %v is not reported", i, x)
		}
		if fmt.Sprint(tot) != fmt.Sprint(r.GetTotalCollectedFeesPerAsset()) {
			d.bad("report-total", "market %d: the total is %v but %v is reported", i, tot, r.GetTotalCollectedFeesPerAsset())
		}
	}
}

func runTrades(t test) {
	d := start(t, nil)
	defer d.Close()
	rep := d.Repo.TradeRepository()
	var want [2][]line
	listed := map[string]string{}
	for i, k := range t.trades {
		tr, err := rep.GetOrCreateTrade(ctx, nil)
		if err != nil {
			panic(err)
		}
		ap, ar := k.sides()
		var price domain.Prices
		err = rep.UpdateTrade(ctx, &tr.ID, func(x *domain.Trade) (*domain.Trade, error) {
			if k.status == domain.EmptyStatus {
				return x, nil
			}
			x.Propose(world.NewRequest(i, ap, k.amount, ar, 2*k.amount+1), world.Quote(k.mkt), k.fee, int64(10+i), int64(20+i), []byte{1})
			price = domain.Prices{BasePrice: decimal.NewFromFloat(0.25 + float64(i)), QuotePrice: decimal.NewFromFloat(4 + float64(i))}
			x.MarketPrice = price
			x.SwapRequest.Timestamp = uint64(1000 + 10*((i*2)%3))
			if k.status.Code >= domain.Accepted {
				id, msg, _ := domain.SwapParserManager.SerializeAccept(domain.AcceptArgs{RequestMessage: x.SwapRequest.Message, Transaction: "x"})
				x.SwapAccept = domain.Swap{ID: id, Message: msg, Timestamp: uint64(2000 + i)}
				x.ExpiryTime = uint64(9000 + i)
			}
			if k.status.Code >= domain.Completed {
				id, msg, _ := domain.SwapParserManager.SerializeComplete(x.SwapAccept.Message, "y")
				x.SwapComplete = domain.Swap{ID: id, Message: msg, Timestamp: uint64(3000 + i)}
				x.TxID = strings.Repeat(fmt.Sprintf("%02x", i), 32)
			}
			if k.status.Code == domain.Settled {
				x.SettlementTime, x.ExpiryTime = uint64(4000+i), 0
			}
			if k.status.Failed && k.status.Code != domain.Expired {
				x.Fail(x.SwapRequest.ID, 40+i, "because")
			}
			x.Status = k.status
			return x, nil
		})
		if err != nil {
			panic(err)
		}
		if k.status == domain.EmptyStatus {
			continue
		}
		id := tr.ID.String()
		if (k.status.Code == domain.Completed || k.status.Code == domain.Settled) && !k.status.Failed {
			p := price.QuotePrice
			if ap == base {
				p = price.BasePrice
			}
			f32, _ := p.BigFloat().Float32()
			want[k.mkt] = append(want[k.mkt], line{id, k.fee, ap, fee(k.amount, k.fee), f32})
		}
		x := [5]uint64{uint64(1000 + 10*((i*2)%3))}
		if k.status.Code >= domain.Accepted {
			x[1], x[4] = uint64(2000+i), uint64(9000+i)
		}
		if k.status.Code >= domain.Completed {
			x[2] = uint64(3000 + i)
		}
		if k.status.Code == domain.Settled {
			x[3], x[4] = uint64(4000+i), 0
		}
		fl := ""
		if k.status.Failed && k.status.Code != domain.Expired {
			fl = fmt.Sprint(40+i, " because")
		}
		listed[id] = fmt.Sprint(k.status.Code, k.status.Failed, base, world.Quote(k.mkt), k.fee, 10+i, 20+i, 0.25+float64(i), 4+float64(i), ap, k.amount, ar, 2*k.amount+1, x, fl, k.status.Code == domain.Settled)
	}
	d.report(want)
	r, err := d.op.ListTrades(ctx, &pbop.ListTradesRequest{})
	if err != nil {
		d.bad("list-trades", "the trades are not listed: %v", err)
		return
	}
	last := uint64(0)
	for _, x := range r.GetTrades() {
		fl := ""
		if f := x.GetFailInfo(); f != nil {
			fl = fmt.Sprint(f.GetFailureCode(), " ", f.GetFailureMessage())
		}
		m, s := x.GetMarketWithFee(), x.GetSwapInfo()
		g := fmt.Sprint(x.GetStatus().GetStatus().Number(), x.GetStatus().GetFailed(), m.GetMarket().GetBaseAsset(), m.GetMarket().GetQuoteAsset(), m.GetFee().GetBasisPoint(), m.GetFee().GetFixed().GetBaseFee(), m.GetFee().GetFixed().GetQuoteFee(),
			x.GetPrice().GetBasePrice(), x.GetPrice().GetQuotePrice(), s.GetAssetP(), s.GetAmountP(), s.GetAssetR(), s.GetAmountR(),
			[5]uint64{x.GetRequestTimeUnix(), x.GetAcceptTimeUnix(), x.GetCompleteTimeUnix(), x.GetSettleTimeUnix(), x.GetExpiryTimeUnix()}, fl, x.GetTxUrl() != "")
		if w, ok := listed[x.GetTradeId()]; !ok {
			d.bad("list-trades", "trade %s is listed but was not recorded (or is already listed)", x.GetTradeId())
		} else if w != g {
			d.bad("list-trades", "a trade is listed as %s but recorded as %s", g, w)
		}
		delete(listed, x.GetTradeId())
		if x.GetRequestTimeUnix() < last {
			d.bad("list-trades", "the trades are not listed in the order of their requests")
		}
		last = x.GetRequestTimeUnix()
	}
	for _, w := range listed {
		d.bad("list-trades", "a trade is not listed: %s", w)
	}
	c.Count("evaluations", 1)
	if len(want[0])+len(want[1]) > 0 {
		c.Count("distinct_nontrivial", 1)
	}
	c.Outcome(fmt.Sprintf("%d and %d fees", len(want[0]), len(want[1])))
}

// runHistory: a, b propose to market 0, 1; c completes the oldest accepted
// trade, s delivers the confirmation of the oldest completed one, f changes the
// fee of both markets.
func runHistory(t test) {
	d := start(t, func(m *domain.Market) { world.FlatMarket(m); m.Fee = 300 })
	defer d.Close()
	d.Listener.StartObservation()
	for i := 0; i < 2; i++ {
		for k := 0; k < 4; k++ {
			d.AddCoin(world.Coin{Account: world.Account(i), Asset: world.Quote(i), Value: 150, AddrIdx: k % 3})
		}
	}
	for k := 0; k < 9; k++ {
		d.AddCoin(world.Coin{Account: domain.FeeAccount, Asset: base, Value: 200})
	}
	var accepted, completed []*world.Swap
	var want [2][]line
	feeOf := map[*world.Swap]int64{}
	cur, n := int64(300), 0
	for _, s := range t.steps {
		switch s {
		case 'a', 'b':
			n++
			sw := d.Propose(n, int(s-'a'))
			if !sw.Accepted {
				d.bad("harness", "a proposal is not accepted: %v %v", sw.Refusal, sw.Err)
				return
			}
			feeOf[sw] = cur
			accepted = append(accepted, sw)
		case 'c':
			if len(accepted) == 0 {
				return
			}
			sw := accepted[0]
			accepted = accepted[1:]
			if _, err := d.Complete(sw); err != nil {
				d.bad("harness", "a completion is refused: %v", err)
				return
			}
			completed = append(completed, sw)
			tr, err := d.Repo.TradeRepository().GetTradeByTxID(ctx, sw.TxID)
			if err != nil || tr == nil {
				d.bad("harness", "no trade of a completed swap: %v", err)
				return
			}
			f32, _ := tr.MarketPrice.BasePrice.BigFloat().Float32()
			want[sw.Market] = append(want[sw.Market], line{tr.ID.String(), feeOf[sw], base, fee(world.Lot+10, feeOf[sw]), f32})
		case 's':
			if len(completed) == 0 {
				return
			}
			sw := completed[0]
			completed = completed[1:]
			d.Confirm(sw.TxID, sw.Raw)
			for end := time.Now().Add(5 * time.Second); ; time.Sleep(time.Millisecond) {
				if tr, _ := d.Repo.TradeRepository().GetTradeByTxID(ctx, sw.TxID); tr != nil && tr.IsSettled() {
					break
				}
				if time.Now().After(end) {
					d.bad("harness", "a confirmed trade is not settled")
					return
				}
			}
			// the coins follow the trade
			for end := time.Now().Add(5 * time.Second); ; time.Sleep(time.Millisecond) {
				us := d.Unspents()
				ok := true
				for _, k := range sw.Coins {
					ok = ok && us[k].Spent
				}
				if ok {
					break
				}
				if time.Now().After(end) {
					d.bad("harness", "the coins of a settled trade are not spent")
					return
				}
			}
			time.Sleep(5 * time.Millisecond)
		case 'f':
			cur = 900 - cur
			for i := 0; i < 2; i++ {
				err := d.Repo.MarketRepository().UpdateMarket(ctx, world.Account(i), func(m *domain.Market) (*domain.Market, error) {
					m.Fee = cur
					return m, nil
				})
				if err != nil {
					panic(err)
				}
			}
		}
		d.report(want)
		var us []domain.Unspent
		for _, u := range d.Unspents() {
			us = append(us, u)
		}
		acct := map[string]int{}
		for _, u := range us {
			_, a, err := d.Repo.VaultRepository().GetAccountByAddress(ctx, u.Address)
			if err != nil {
				panic(err)
			}
			acct[u.Address] = a
		}
		d.balances(us, acct)
	}
	c.Count("evaluations", 1)
	if len(want[0])+len(want[1]) > 0 {
		c.Count("distinct_nontrivial", 1)
	}
	c.Outcome(fmt.Sprintf("history with %d fees", len(want[0])+len(want[1])))
}

func multisets(n, k int, f func([]int)) {
	var rec func(from int, cur []int)
	rec = func(from int, cur []int) {
		f(cur)
		if len(cur) == k {
			return
		}
		for i := from; i < n; i++ {
			rec(i, append(cur[:len(cur):len(cur)], i))
		}
	}
	rec(0, nil)
}

func main() {
	c = hx.New("C11", "exploration")
	world.Stubs()
	th := c.Thorough()
	var ts []test
	var ks, few []coin
	for _, a := range []int{domain.FeeAccount, domain.WalletAccount, world.Account(0), world.Account(1)} {
		for s := 0; s < 3; s++ {
			for st := 0; st < 6; st++ {
				k := coin{a, s, st%2 == 0, st/2 == 1, st/2 == 2}
				ks = append(ks, k)
				if a != domain.WalletAccount && (s == 0 || a == world.Account(s-1)) && st != 5 && (th || st != 4) {
					few = append(few, k)
				}
			}
		}
	}
	for _, bdg := range []bool{false, true} {
		b := bdg
		pop := func(u []coin, n, min int) {
			multisets(len(u), n, func(ix []int) {
				if len(ix) < min {
					return
				}
				var l []coin
				for _, i := range ix {
					l = append(l, u[i])
				}
				ts = append(ts, test{name: "coins", bdg: b, coins: l})
			})
		}
		pop(ks, 2, 0)
		if th && !b {
			pop(ks, 3, 3)
		} else if th || !b {
			pop(few, 3, 3)
		}
		var tr, tf []trade
		for m := 0; m < 2; m++ {
			for _, s := range statuses {
				for _, sell := range []bool{false, true} {
					k := trade{m, s, sell, 123456, 25}
					tr = append(tr, k)
					if m == 0 && (s.Code == domain.Completed || s.Code == domain.Settled || s.Code == domain.Expired) || m == 1 && s.Code == domain.Settled {
						tf = append(tf, k)
					}
				}
			}
		}
		trades := func(u []trade, n, min int) {
			multisets(len(u), n, func(ix []int) {
				if len(ix) < min {
					return
				}
				var l []trade
				for j, i := range ix {
					k := u[i]
					k.amount += uint64(1000 * j)
					k.fee += int64(30 * j)
					l = append(l, k)
				}
				ts = append(ts, test{name: "trades", bdg: b, trades: l})
			})
		}
		trades(tr, 2, 0)
		trades(tf, 3, 3)
		if th && !b {
			trades(tr, 3, 3)
			trades(tf, 4, 4)
		}
		for _, amount := range []uint64{1, 39, 40, 399, 400, 10000, 10001, 2100000000000000} {
			for _, f := range []int64{0, 1, 25, 100, 3333, 9999} {
				for _, sell := range []bool{false, true} {
					l := []trade{{0, domain.CompletedStatus, sell, amount, f}}
					ts = append(ts, test{name: "trades", bdg: b, trades: l})
					if th || amount > 1e14 {
						ts = append(ts, test{name: "trades", bdg: b, trades: append(l, trade{0, domain.SettledStatus, sell, amount, 9999 - f})})
					}
				}
			}
		}
		n := 5
		if th {
			n = 6
		} else if b {
			n = 4
		}
		for l := 1; l <= n; l++ {
			for x := 0; x < pow(5, l); x++ {
				s, y := "", x
				for i := 0; i < l; i++ {
					s += string("abcsf"[y%5])
					y /= 5
				}
				if valid(s) && (l == n || !strings.ContainsAny(s, "cs")) {
					ts = append(ts, test{name: "history", bdg: b, steps: s})
				}
			}
		}
	}
	var wk []coin
	for _, a := range []int{domain.WalletAccount, domain.FeeAccount, world.Account(0)} {
		for s := 0; s < 2; s++ {
			for st := 0; st < 3; st++ {
				wk = append(wk, coin{a, s, st == 0, false, st == 2})
			}
		}
	}
	n := 3
	if th {
		n = 4
	}
	multisets(len(wk), n, func(ix []int) {
		var l []coin
		for _, i := range ix {
			l = append(l, wk[i])
		}
		ts = append(ts, test{name: "wallet", coins: l})
	})

	c.Describe = func(i int) string { return ts[i].String() }
	c.Procs("all", len(ts), func(i int) {
		if c.Expired() {
			c.Cap("budget")
			return
		}
		switch t := ts[i]; t.name {
		case "coins":
			runCoins(t)
		case "wallet":
			runWallet(t)
		case "trades":
			runTrades(t)
		case "history":
			runHistory(t)
		}
	})
	groups := map[string]int{}
	for _, t := range ts {
		groups[t.name]++
	}
	c.Info("cases", groups)
	for _, i := range []int{17, len(ts) / 2, len(ts) - 1} {
		c.Sample(ts[i].String())
	}
	c.Info("rule", "every population of up to two coins, and three of a smaller universe, of account x asset x state (thorough: three in memory), of up to three (thorough: four) explorer coins of the wallet, of up to two (three) trades of market x status x direction with different terms, amount x fee edges, and every sequence of five (badger: four; thorough: six) proposals, completions, confirmations and fee changes, on both back ends; non-trivial: something is to be reported")
	c.Assume("a market's and the fee account's balance is that of their confirmed coins not yet spent, locked or not; the wallet's balance is told by the explorer; the fee of a trade is its recorded percentage of the amount the trader sent, rounded down")
	c.Finish()
}

func pow(a, b int) int {
	r := 1
	for ; b > 0; b-- {
		r *= a
	}
	return r
}

// valid: nothing is completed before it was proposed, or confirmed before it
// was completed; a market takes four proposals; two fee changes in a row and at
// the end are pointless.
func valid(s string) bool {
	acc, com, a, b := 0, 0, 0, 0
	for i := range s {
		switch s[i] {
		case 'a':
			acc++
			a++
		case 'b':
			acc++
			b++
		case 'c':
			acc--
			com++
		case 's':
			com--
		case 'f':
			if i == len(s)-1 || s[i+1] == 'f' {
				return false
			}
		}
		if acc < 0 || com < 0 || a > 4 || b > 4 {
			return false
		}
	}
	return true
}
