package main

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"time"

	pb "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	pbw "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
	"github.com/tdex-network/tdex-daemon/pkg/trade"
	tradeclient "github.com/tdex-network/tdex-daemon/pkg/trade/client"
	trademarket "github.com/tdex-network/tdex-daemon/pkg/trade/market"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/tdex-network/tdex-daemon/verif/txs"
	"github.com/tdex-network/tdex-daemon/verif/world"
	pbtypes "github.com/tdex-network/tdex-protobuf/generated/go/types"
	"github.com/vulpemventures/go-elements/address"
	"github.com/vulpemventures/go-elements/payment"
	"github.com/vulpemventures/go-elements/transaction"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
)

func (e *chain) count() int { e.mu.Lock(); defer e.mu.Unlock(); return e.hits }

// wait until request n has come.
func (e *chain) wait(n int) {
	for i := 0; i < 1500 && e.count() < n; i++ {
		time.Sleep(10 * time.Millisecond)
	}
}

func (e *chain) confirm() {
	e.mu.Lock()
	for id := range e.conf {
		e.conf[id] = true
	}
	e.mu.Unlock()
}

type pay struct {
	asset string
	v     uint64
	addr  string
}

// deposit confirms a transaction that pays these.
func (e *chain) deposit(l ...pay) string {
	tx := transaction.NewTx(2)
	e.mu.Lock()
	n := len(e.order)
	e.mu.Unlock()
	h := sha256.Sum256(binary.LittleEndian.AppendUint32(nil, uint32(n)))
	tx.AddInput(transaction.NewTxInput(h[:], 0))
	for _, p := range l {
		script, err := address.ToOutputScript(p.addr)
		if err != nil {
			panic(err)
		}
		tx.AddOutput(txs.Out(p.asset, p.v, script))
	}
	return e.add(tx, true)
}

func points(id string, n int) (l []*pb.TxOutpoint) {
	for i := 0; i < n; i++ {
		l = append(l, &pb.TxOutpoint{Hash: id, Index: int32(i)})
	}
	return
}

// fund claims coins for the fee account.
// deposit pays to addresses of the daemon.
func (d *daemon) deposit(l ...pay) string {
	id := d.e.deposit(l...)
	if d.halt {
		panic("deposited")
	}
	return id
}

func (d *daemon) fund(n int) error {
	x, f := d.ctx()
	defer f()
	r, err := d.operator.DepositFeeAccount(x, &pb.DepositFeeAccountRequest{NumOfAddresses: int64(n)})
	if err != nil {
		return err
	}
	var l []pay
	for _, a := range r.GetAddressWithBlindingKey() {
		l = append(l, pay{base, 50000, a.GetAddress()})
	}
	d.between()
	_, err = d.operator.ClaimFeeDeposit(x, &pb.ClaimFeeDepositRequest{Outpoints: points(d.deposit(l...), n)})
	return err
}

var mkt = &pbtypes.Market{BaseAsset: base, QuoteAsset: quote}

// newMarket funds a market.
func (d *daemon) newMarket(q string) error {
	x, f := d.ctx()
	defer f()
	r, err := d.operator.DepositMarket(x, &pb.DepositMarketRequest{NumOfAddresses: 2})
	if err != nil {
		return err
	}
	d.between()
	id := d.deposit(pay{base, 1000000, r.GetAddresses()[0]}, pay{q, 30000000, r.GetAddresses()[1]})
	_, err = d.operator.ClaimMarketDeposit(x, &pb.ClaimMarketDepositRequest{Market: &pbtypes.Market{BaseAsset: base, QuoteAsset: q}, Outpoints: points(id, 2)})
	return err
}

func (d *daemon) open() error {
	x, f := d.ctx()
	defer f()
	_, err := d.operator.OpenMarket(x, &pb.OpenMarketRequest{Market: mkt})
	return err
}

// eventually retries while what precedes is still being recorded.
func eventually(f func() error) (err error) { return eventuallyFor(15, f) }

func eventuallyFor(s int, f func() error) (err error) {
	for i := 0; i < 20*s; i++ {
		if err = f(); err == nil {
			return
		}
		time.Sleep(50 * time.Millisecond)
	}
	return
}

// trading makes an open market.
func (d *daemon) trading() error {
	if err := d.fund(3); err != nil {
		return err
	}
	if err := d.newMarket(quote); err != nil {
		return err
	}
	if err := eventually(d.open); err != nil {
		return err
	}
	d.settled()
	return nil
}

// buy some of the base asset as a trader.
func (d *daemon) buy(complete bool) error {
	d.n++
	who := fmt.Sprint("trader", d.n)
	pub := txs.Key(who).PubKey()
	_, bpub := keyOf(txs.Blind(who))
	addr, err := payment.FromPublicKey(pub, world.Net, bpub).ConfidentialWitnessPubKeyHash()
	if err != nil {
		panic(err)
	}
	d.e.deposit(pay{quote, 20000000, addr}, pay{base, 100000, addr})
	ex, err := esplora.NewService(d.e.srv.URL, 15000)
	if err != nil {
		return err
	}
	cl, err := tradeclient.NewTradeClient("127.0.0.1", d.tr)
	if err != nil {
		return err
	}
	defer cl.CloseConnection()
	t, err := trade.NewTrade(trade.NewTradeOpts{Chain: "regtest", ExplorerService: ex, Client: cl})
	if err != nil {
		return err
	}
	m := trademarket.Market{BaseAsset: base, QuoteAsset: quote}
	if complete {
		_, err = t.BuyAndComplete(trade.BuyOrSellAndCompleteOpts{Market: m, Amount: 10000, Asset: base, PrivateKey: txs.Key(who).Serialize(), BlindingKey: txs.Blind(who)})
	} else {
		_, err = t.Buy(trade.BuyOrSellOpts{Market: m, Amount: 10000, Asset: base, Address: addr, BlindingKey: txs.Blind(who)})
	}
	return err
}

var (
	hashes = regexp.MustCompile(`[0-9a-f]{64}`)
	ids    = regexp.MustCompile(`[0-9a-f]{8}-[0-9a-f-]{27}`)
	times  = regexp.MustCompile(`(time_?[uU]nix|time_?[uU]tc|Time(Unix|Utc))"?: ?"?[^",]*"?`)
	urls   = regexp.MustCompile(`"txUrl":"[^"]*"`)
	ports5 = regexp.MustCompile(`127\.0\.0\.1:\d+`)
)

// view is what the daemon shows; general: without what differs between two runs.
func (d *daemon) view(general bool) string {
	x, f := d.ctx()
	defer f()
	var s []string
	show := func(name string, m proto.Message, err error) {
		if err != nil {
			s = append(s, name+": "+err.Error())
			return
		}
		b, _ := protojson.MarshalOptions{EmitUnpopulated: true}.Marshal(m)
		s = append(s, name+": "+strings.ReplaceAll(string(b), ": ", ":"))
	}
	lm, err := d.operator.ListMarket(x, &pb.ListMarketRequest{})
	if lm != nil {
		sort.Slice(lm.Markets, func(i, j int) bool { return lm.Markets[i].GetAccountIndex() < lm.Markets[j].GetAccountIndex() })
	}
	show("markets", lm, err)
	for _, m := range lm.GetMarkets() {
		if m.GetMarket().GetQuoteAsset() == "" {
			continue
		}
		a, err := d.operator.ListDepositMarket(x, &pb.ListDepositMarketRequest{Market: m.GetMarket()})
		show("addresses of the market", a, err)
		r, err := d.operator.ReportMarketFee(x, &pb.ReportMarketFeeRequest{Market: m.GetMarket()})
		show("fees", r, err)
	}
	lt, err := d.operator.ListTrades(x, &pb.ListTradesRequest{})
	if lt != nil {
		sort.Slice(lt.Trades, func(i, j int) bool {
			a, b := lt.Trades[i], lt.Trades[j]
			if a.GetRequestTimeUnix() != b.GetRequestTimeUnix() {
				return a.GetRequestTimeUnix() < b.GetRequestTimeUnix()
			}
			if general {
				return a.GetStatus().String() < b.GetStatus().String()
			}
			return a.GetTradeId() < b.GetTradeId()
		})
		for _, t := range lt.Trades {
			if general {
				t.RequestTimeUnix, t.AcceptTimeUnix, t.CompleteTimeUnix, t.SettleTimeUnix, t.ExpiryTimeUnix = 0, 0, 0, 0, 0
				t.RequestTimeUtc, t.AcceptTimeUtc, t.CompleteTimeUtc, t.SettleTimeUtc, t.ExpiryTimeUtc = "", "", "", "", ""
				t.TradeId, t.TxUrl = "", ""
			}
		}
	}
	show("trades", lt, err)
	lu, err := d.operator.ListUtxos(x, &pb.ListUtxosRequest{})
	if err != nil {
		show("coins", lu, err)
	}
	var accs []int
	for a := range lu.GetInfoPerAccount() {
		accs = append(accs, int(a))
	}
	sort.Ints(accs)
	for _, a := range accs {
		i := lu.GetInfoPerAccount()[uint64(a)]
		for n, l := range map[string][]*pb.UtxoInfo{"free": i.GetUnspents(), "locked": i.GetLocks()} {
			var k []string
			for _, u := range l {
				t := fmt.Sprint(u.GetValue(), " ", world.Fmt(u.GetAsset()))
				if !general {
					t += fmt.Sprint(" ", u.GetOutpoint().GetHash(), ":", u.GetOutpoint().GetIndex())
				}
				k = append(k, t)
			}
			if len(k) > 0 {
				s = append(s, fmt.Sprintf("account %d %s %v", a, n, sorted(k)))
			}
		}
	}
	w, err := d.wallet.WalletBalance(x, &pbw.WalletBalanceRequest{})
	show("wallet", w, err)
	fb, err := d.operator.BalanceFeeAccount(x, &pb.BalanceFeeAccountRequest{})
	show("fee account", fb, err)
	wh, err := d.operator.ListWebhooks(x, &pb.ListWebhooksRequest{})
	if wh != nil {
		sort.Slice(wh.WebhookInfo, func(i, j int) bool { return wh.WebhookInfo[i].String() < wh.WebhookInfo[j].String() })
	}
	show("webhooks", wh, err)
	sort.Strings(s)
	v := strings.Join(s, "\n")
	if general {
		v = ids.ReplaceAllString(v, "ID")
	}
	return v
}

// settled is the view once it does not change any more.
func (d *daemon) settled() string {
	v, long := d.view(false), 150*time.Millisecond
	if d.slow {
		long = 1500 * time.Millisecond
	}
	for start, since := time.Now(), time.Now(); time.Since(start) < 30*time.Second && time.Since(since) < long; {
		time.Sleep(40 * time.Millisecond)
		if n := d.view(false); n != v {
			v, since = n, time.Now()
		}
	}
	return v
}

// same waits until the daemon shows what is wanted, and returns what it shows
// instead.
func (d *daemon) same(want string, general bool) (v string) {
	for i := 0; i < 150; i++ {
		if v = d.view(general); v == want {
			return ""
		}
		time.Sleep(100 * time.Millisecond)
	}
	return
}

func (d *daemon) between() {
	if d.mark != nil {
		d.mark()
	}
}

type op struct {
	name string
	f    func(d *daemon) error
}

func (d *daemon) close1() error {
	x, f := d.ctx()
	defer f()
	_, err := d.operator.CloseMarket(x, &pb.CloseMarketRequest{Market: mkt})
	return err
}

var ops = []op{
	{"open", (*daemon).open},
	{"close", (*daemon).close1},
	{"percentage fee", func(d *daemon) error {
		x, f := d.ctx()
		defer f()
		_, err := d.operator.UpdateMarketPercentageFee(x, &pb.UpdateMarketPercentageFeeRequest{Market: mkt, BasisPoint: int64(31 + d.step)})
		return err
	}},
	{"fixed fee", func(d *daemon) error {
		x, f := d.ctx()
		defer f()
		_, err := d.operator.UpdateMarketFixedFee(x, &pb.UpdateMarketFixedFeeRequest{Market: mkt, Fixed: &pbtypes.Fixed{BaseFee: 7, QuoteFee: int64(900 + d.step)}})
		return err
	}},
	{"strategy", func(d *daemon) error {
		x, f := d.ctx()
		defer f()
		_, err := d.operator.UpdateMarketStrategy(x, &pb.UpdateMarketStrategyRequest{Market: mkt, StrategyType: pb.StrategyType_PLUGGABLE})
		return err
	}},
	{"price", func(d *daemon) error {
		x, f := d.ctx()
		defer f()
		_, err := d.operator.UpdateMarketPrice(x, &pb.UpdateMarketPriceRequest{Market: mkt, Price: &pbtypes.Price{BasePrice: 0.01, QuotePrice: float32(100 + d.step)}})
		return err
	}},
	{"new market", func(d *daemon) error { return d.newMarket(world.Quote(5 + d.step)) }},
	{"addresses of the market", func(d *daemon) error {
		x, f := d.ctx()
		defer f()
		_, err := d.operator.DepositMarket(x, &pb.DepositMarketRequest{Market: mkt, NumOfAddresses: 2})
		return err
	}},
	{"fee deposit", func(d *daemon) error { return d.fund(1) }},
	{"market deposit", func(d *daemon) error {
		x, f := d.ctx()
		defer f()
		r, err := d.operator.DepositMarket(x, &pb.DepositMarketRequest{Market: mkt, NumOfAddresses: 1})
		if err != nil {
			return err
		}
		d.between()
		_, err = d.operator.ClaimMarketDeposit(x, &pb.ClaimMarketDepositRequest{Market: mkt, Outpoints: points(d.deposit(pay{quote, 5000, r.GetAddresses()[0]}), 1)})
		return err
	}},
	{"withdrawal", func(d *daemon) error {
		x, f := d.ctx()
		defer f()
		_, bpub := keyOf(txs.Blind("w"))
		addr, _ := payment.FromPublicKey(txs.Key("w").PubKey(), world.Net, bpub).ConfidentialWitnessPubKeyHash()
		_, err := d.operator.WithdrawMarket(x, &pb.WithdrawMarketRequest{Market: mkt, BalanceToWithdraw: &pbtypes.Balance{BaseAmount: 1000, QuoteAmount: 2000}, MillisatPerByte: 100, Address: addr, Push: true})
		return err
	}},
	{"trade", func(d *daemon) error { return d.buy(true) }},
	{"half a trade", func(d *daemon) error { return d.buy(false) }},
	{"confirmations", func(d *daemon) error {
		d.e.confirm()
		time.Sleep(time.Second) // the daemon asks every now and then
		return nil
	}},
	{"webhook", func(d *daemon) error {
		x, f := d.ctx()
		defer f()
		_, err := d.operator.AddWebhook(x, &pb.AddWebhookRequest{Endpoint: fmt.Sprint("http://127.0.0.1:1/", d.step), Action: pb.ActionType_ALL_ACTIONS, Secret: "s"})
		return err
	}},
	{"no webhook", func(d *daemon) error {
		x, f := d.ctx()
		defer f()
		r, err := d.operator.ListWebhooks(x, &pb.ListWebhooksRequest{Action: pb.ActionType_ALL_ACTIONS})
		for _, w := range r.GetWebhookInfo() {
			if _, err := d.operator.RemoveWebhook(x, &pb.RemoveWebhookRequest{Id: w.GetId()}); err != nil {
				return err
			}
		}
		return err
	}},
	{"wallet coin", func(d *daemon) error {
		x, f := d.ctx()
		defer f()
		r, err := d.wallet.WalletAddress(x, &pbw.WalletAddressRequest{})
		if err == nil {
			d.deposit(pay{base, 70000, r.GetAddress()})
			d.between()
			_, err = d.operator.ReloadUtxos(x, &pb.ReloadUtxosRequest{})
		}
		return err
	}},
	{"payment", func(d *daemon) error {
		x, f := d.ctx()
		defer f()
		_, bpub := keyOf(txs.Blind("w"))
		addr, _ := payment.FromPublicKey(txs.Key("w").PubKey(), world.Net, bpub).ConfidentialWitnessPubKeyHash()
		_, err := d.wallet.SendToMany(x, &pbw.SendToManyRequest{Outputs: []*pbw.TxOut{{Asset: base, Value: 3000, Address: addr}}, MillisatPerByte: 100, Push: true})
		return err
	}},
}

var baseDir string // with an open market

// addresses handed out so far are never handed out again.
func (d *daemon) newAddresses() ([]string, error) {
	x, f := d.ctx()
	defer f()
	r, err := d.operator.DepositFeeAccount(x, &pb.DepositFeeAccountRequest{NumOfAddresses: 1})
	if err != nil {
		return nil, err
	}
	m, err := d.operator.DepositMarket(x, &pb.DepositMarketRequest{Market: mkt, NumOfAddresses: 1})
	if err != nil {
		return nil, err
	}
	w, err := d.wallet.WalletAddress(x, &pbw.WalletAddressRequest{})
	if err != nil {
		return nil, err
	}
	return []string{r.GetAddressWithBlindingKey()[0].GetAddress(), m.GetAddresses()[0], w.GetAddress()}, nil
}

func (e *chain) clone() *chain {
	n := newChain()
	for _, id := range e.order {
		n.add(e.txs[id], e.conf[id])
	}
	return n
}

var baseChain *chain

func prepareBase() error {
	e := newChain()
	d := launch(fresh(plainDir), e, nil)
	defer d.kill()
	if err := d.works(pass, false); err != nil {
		return err
	}
	if err := d.trading(); err != nil {
		return err
	}
	d.settled()
	baseDir, baseChain = d.dir, e
	d.close()
	return d.stop()
}

func names(l []op) string {
	var s []string
	for _, o := range l {
		s = append(s, o.name)
	}
	return strings.Join(s, ", ")
}

func histories(th bool) {
	if err := prepareBase(); err != nil {
		c.Fail("prepare", "an open market cannot be made: "+err.Error(), nil)
		return
	}
	depth := 2
	if th {
		depth = 3
	}
	var seqs [][]op
	var rec func(p []op)
	rec = func(p []op) {
		if len(p) > 0 {
			seqs = append(seqs, append([]op{}, p...))
		}
		if len(p) == depth {
			return
		}
		for _, o := range ops {
			rec(append(p, o))
		}
	}
	rec(nil)
	sort.SliceStable(seqs, func(i, j int) bool { return len(seqs[i]) < len(seqs[j]) })
	// quick: of those that take long only the pairs that matter
	heavy := map[string]bool{"trade": true, "half a trade": true, "withdrawal": true, "payment": true, "new market": true, "wallet coin": true, "market deposit": true, "confirmations": true}
	pairs := map[string]bool{"trade, confirmations": true, "half a trade, trade": true, "half a trade, half a trade": true, "trade, trade": true, "wallet coin, payment": true,
		"new market, trade": true, "close, trade": true, "market deposit, withdrawal": true, "withdrawal, confirmations": true, "trade, close": true, "half a trade, close": true,
		"new market, new market": true, "fixed fee, trade": true, "percentage fee, trade": true, "webhook, trade": true}
	for _, s := range seqs {
		s := s
		if !th && len(s) > 1 && (heavy[s[0].name] || heavy[s[1].name]) && !pairs[names(s)] {
			continue
		}
		add("history: "+names(s), func(bad func(sig, f string, x ...interface{})) {
			twice(bad, func(bad fail, slow bool) { history(s, bad, slow) })
		})
	}
	must := map[string]bool{"wallet coin, payment": true, "half a trade, trade": true}
	for _, s := range seqs {
		s := s
		if len(s) > 1 && !th && !must[names(s)] {
			continue
		}
		if len(s) > 2 {
			break
		}
		add("cut: "+names(s), func(bad func(sig, f string, x ...interface{})) {
			twice(bad, func(bad fail, slow bool) { cut(s, bad, slow) })
		})
	}
}

// history: after each order but the last the daemon is killed, after the last it is
// stopped and then killed again after having shown the same.
type fail = func(sig, f string, x ...interface{})

// twice: what is wrong is tried again, with more time for the daemon to settle,
// because it might just have been busy.
func twice(bad fail, f func(bad fail, slow bool)) {
	wrong := false
	f(func(sig, x string, y ...interface{}) {
		wrong = true
		if os.Getenv("MC_TWICE") != "" {
			fmt.Printf(x+"\n", y...)
		}
	}, false)
	if wrong {
		c.Count("tried again", 1)
		f(bad, true)
	}
}

func history(l []op, bad fail, slow bool) {
	e, dir := baseChain.clone(), fresh(baseDir)
	defer e.end()
	defer os.RemoveAll(dir)
	d := launch(dir, e, nil)
	d.slow = slow
	defer func() { d.kill() }()
	if err := d.works(pass, false); err != nil {
		bad("start", "%v", err)
		return
	}
	given := map[string]string{}
	said := ""
	for i, o := range l {
		n := d.n
		d.step = i
		err := o.f(d)
		said += fmt.Sprintf("%s: %v; ", o.name, err)
		if d.crashed() {
			bad("crash", "%sit crashed: %s", said, d.said())
			return
		}
		if err == nil {
			c.Count("orders carried out", 1)
			c.Outcome(o.name + " carried out")
		} else {
			c.Outcome(o.name + " refused")
		}
		as, err := d.newAddresses()
		if err != nil {
			bad("addresses", "%snew addresses: %v", said, err)
			return
		}
		for _, a := range as {
			if given[a] != "" {
				bad("address", "%sthe address %s is handed out again", said, a)
			}
			given[a] = "x"
		}
		before := d.settled()
		how := "killed"
		if i == len(l)-1 {
			how = "stopped"
			d.close()
			if err := d.stop(); err != nil {
				bad("stop", "%s%v; it said: %s", said, err, d.said())
				return
			}
		} else {
			d.kill()
		}
		said += how + "; "
		n, d = d.n+0*n, launch(dir, e, nil)
		d.n, d.slow = n, slow
		if err := d.works(pass, false); err != nil {
			bad("restart", "%sit %v", said, err)
			return
		}
		if v := d.same(before, false); v != "" {
			bad("lost", "%safter a restart it shows\n%s\ninstead of\n%s", said, diff(v, before), diff(before, v))
			return
		}
	}
	c.Count("distinct_nontrivial", 1)
}

// diff is the lines of a that are not in b.
func diff(a, b string) string {
	var s []string
	in := map[string]bool{}
	for _, l := range strings.Split(b, "\n") {
		in[l] = true
	}
	for _, l := range strings.Split(a, "\n") {
		if !in[l] {
			s = append(s, l)
		}
	}
	return strings.Join(s, "\n")
}

// cut: the daemon is killed at each request to the explorer that the last order
// makes, and afterwards shows what it showed before the order or shows after it.
func cut(l []op, bad fail, slow bool) {
	last := l[len(l)-1]
	setup := func() (*daemon, *chain, bool) {
		e, dir := baseChain.clone(), fresh(baseDir)
		d := launch(dir, e, nil)
		d.slow = slow
		if err := d.works(pass, false); err != nil {
			bad("start", "%v", err)
			return d, e, false
		}
		for i, o := range l[:len(l)-1] {
			d.step = i
			o.f(d)
			d.settled()
		}
		d.step = len(l) - 1
		d.settled()
		return d, e, true
	}
	before, done := "", ""
	also := map[string]bool{} // shown between the requests of the order
	for k := 0; k < 80; k++ { // 0: not cut
		if c.Expired() {
			c.Cap("budget: cuts")
			return
		}
		d, e, ok := setup()
		if !ok {
			d.kill()
			return
		}
		if k == 0 {
			before = d.view(true)
			d.mark = func() { d.settled(); also[d.view(true)] = true }
			// what is deposited is seen at a restart even if not claimed
			h, e2, ok := setup()
			if ok {
				h.halt = true
				p, _ := hx.Catch(func() { last.f(h) })
				ok = fmt.Sprint(p) == "deposited"
			}
			h.kill()
			if ok {
				r := launch(h.dir, e2, nil)
				r.slow = slow
				if r.works(pass, false) == nil {
					for i := 0; i < 3; i++ {
						r.settled()
						also[r.view(true)] = true
					}
				}
				r.kill()
			}
			e2.end()
			if last.name == "trade" {
				h, e2, ok := setup()
				if ok {
					h.buy(false)
					h.between()
					h.settled()
					also[h.view(true)] = true
				}
				h.kill()
				e2.end()
			}
		}
		stop := make(chan bool)
		n0 := e.count()
		e.mu.Lock()
		e.hit = func(n int) bool {
			if k == 0 {
				return false
			}
			if n == n0+k {
				d.cmd.Process.Kill()
				close(stop)
			}
			return n >= n0+k
		}
		e.mu.Unlock()
		res := make(chan error, 1)
		go func() { res <- last.f(d) }()
		over := false
		var err error
		select {
		case <-stop:
		case err = <-res:
			d.settled()
			over = k > 0
		}
		d.kill()
		e.mu.Lock()
		e.hit = nil
		e.mu.Unlock()
		r := launch(d.dir, e, nil)
		r.slow = slow
		err = r.works(pass, false)
		if err != nil {
			bad("restart", "killed at request %d to the explorer: it %v", k, err)
		}
		if k == 0 {
			r.settled()
			done = r.view(true)
		} else if err == nil && !over {
			var v string
			for i := 0; i < 100; i++ {
				if v = r.view(true); v == before || v == done || also[v] {
					break
				}
				time.Sleep(50 * time.Millisecond)
			}
			switch v {
			case before:
				c.Outcome("cut: as before")
			case done:
				c.Outcome("cut: as done")
			default:
				if also[v] {
					c.Outcome("cut: between two requests")
					break
				}
				bad("half", "killed at request %d to the explorer, afterwards it shows\n%s\ninstead of\n%s\nor\n%s", k, diff(v, before), diff(before, v), diff(done, v))
			}
		}
		c.Count("cuts", 1)
		r.kill()
		e.end()
		os.RemoveAll(d.dir)
		if over || err != nil {
			break
		}
	}
	c.Count("distinct_nontrivial", 1)
}
