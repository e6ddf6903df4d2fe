// C10: payouts. Every withdrawal and payment over small sets of coins (blinded
// or not, locked, unconfirmed), amounts, rates and outputs, with the real
// wallet, signatures and blinding, each resulting transaction opened output by
// output and balanced coin by coin; with failures of the explorer and of every
// storage call; and pairs of payouts after each other.
//
//mc:instr pkg/wallet=M
package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/btcsuite/btcd/btcec"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/tdex-network/tdex-daemon/verif/onchain"
	"github.com/tdex-network/tdex-daemon/verif/txs"
	"github.com/tdex-network/tdex-daemon/verif/world"
	"github.com/vulpemventures/go-elements/payment"
	"github.com/vulpemventures/go-elements/transaction"
)

var (
	c    *hx.Check
	ctx  = context.Background()
	base = world.Base
)

const other = 7 // a third asset, in the wallet account

// recipient i of payments.
func recipient(i int) (addr string, script, blind []byte) {
	name := fmt.Sprintf("recipient %d", i)
	blind = txs.Blind(name)
	_, bp := btcec.PrivKeyFromBytes(btcec.S256(), blind)
	p := payment.FromPublicKey(txs.Key(name).PubKey(), world.Net, bp)
	addr, err := p.ConfidentialWitnessPubKeyHash()
	if err != nil {
		panic(err)
	}
	return addr, txs.Script(name), blind
}

type pay struct {
	asset string
	v     uint64
	to    int
}

// payout is a request: from a market (account) or from the wallet.
type payout struct {
	market int // -1: from the wallet
	base   uint64
	quote  uint64
	outs   []pay
	rate   int64
	push   bool
}

func (p payout) String() string {
	if p.market >= 0 {
		return fmt.Sprintf("withdraw %d base and %d quote from market %d at %d msat/byte, push %v", p.base, p.quote, p.market, p.rate, p.push)
	}
	s := []string{}
	for _, o := range p.outs {
		s = append(s, fmt.Sprintf("%d %s to recipient %d", o.v, world.Fmt(o.asset), o.to))
	}
	return fmt.Sprintf("pay %s at %d msat/byte, push %v", strings.Join(s, ", "), p.rate, p.push)
}

func (p payout) wanted() []pay {
	if p.market < 0 {
		return p.outs
	}
	var w []pay
	if p.base > 0 {
		w = append(w, pay{base, p.base, 0})
	}
	if p.quote > 0 {
		w = append(w, pay{world.Quote(p.market), p.quote, 0})
	}
	return w
}

func (p payout) account() int {
	if p.market < 0 {
		return domain.WalletAccount
	}
	return world.Account(p.market)
}

func (d daemon) do(p payout) (raw []byte, err error) {
	if p.market >= 0 {
		a, _, _ := recipient(0)
		return d.Operator.WithdrawMarketFunds(ctx, application.WithdrawMarketReq{
			Market:            application.Market{BaseAsset: base, QuoteAsset: world.Quote(p.market)},
			BalanceToWithdraw: application.Balance{BaseAmount: p.base, QuoteAmount: p.quote},
			MillisatPerByte:   p.rate, Address: a, Push: p.push})
	}
	var outs []application.TxOut
	for _, o := range p.outs {
		a, _, _ := recipient(o.to)
		outs = append(outs, application.TxOut{Asset: o.asset, Value: int64(o.v), Address: a})
	}
	return d.Wallet.SendToMany(ctx, application.SendToManyRequest{Outputs: outs, MillisatPerByte: p.rate, Push: p.push})
}

// state is what a refusal must leave alone.
func (d daemon) state() string {
	s := []string{}
	for k, u := range d.Unspents() {
		s = append(s, fmt.Sprint(k.TxID[:6], k.VOut, u.Spent, u.Locked, u.Confirmed, u.Value))
	}
	sort.Strings(s)
	return strings.Join(s, ";") + " | " + strings.Join(d.Explorer.Broadcasted(), ",")
}

// judge a transaction made for p. It returns what is wrong, and the fee paid.
func (d daemon) judge(p payout, raw []byte) (sig, msg string) {
	tx, err := transaction.NewTxFromHex(hex.EncodeToString(raw))
	if err != nil {
		return "unreadable", "the transaction cannot be read: " + err.Error()
	}
	owned := d.Owned()
	acctOf := func(script []byte) int {
		in, ok := owned[hex.EncodeToString(script)]
		if !ok {
			return -1
		}
		return in.AccountIndex
	}
	balance := map[string]int64{} // account/asset: spent minus change
	var blind onchain.Blind
	seen := map[onchain.Outpoint]bool{}
	for i, in := range tx.Inputs {
		op := onchain.Prev(in)
		k, ok := d.Chain[op]
		if !ok {
			return "foreign-coin", fmt.Sprintf("input %d is no coin of the wallet", i)
		}
		if seen[op] {
			return "coin-twice", fmt.Sprintf("input %d spends %s again", i, k)
		}
		seen[op] = true
		if k.Acct != p.account() && k.Acct != domain.FeeAccount {
			return "wrong-account", fmt.Sprintf("input %d spends %s", i, k)
		}
		if k.State == 'l' {
			return "locked-coin", fmt.Sprintf("input %d spends the locked %s", i, k)
		}
		if (k.State == 'u' || k.Pending) && k.Acct != domain.WalletAccount {
			return "unconfirmed-coin", fmt.Sprintf("input %d spends the unconfirmed %s", i, k)
		}
		if k.Spent {
			return "spent-coin", fmt.Sprintf("input %d spends %s, which an earlier broadcast payout spent", i, k)
		}
		// the signature
		if len(in.Witness) != 2 {
			return "unsigned", fmt.Sprintf("input %d is not signed", i)
		}
		if sig, msg := onchain.Signed(tx, i, k.Out, in.Witness[0], in.Witness[1]); sig != "" {
			return sig, msg
		}
		balance[fmt.Sprint(k.Acct, "/", k.Asset)] += int64(k.V)
		blind.Add(onchain.Opened{Asset: k.Asset, V: k.V, Abf: k.Abf, Vbf: k.Vbf}, 1)
	}
	wanted := p.wanted()
	got := make([]bool, len(wanted))
	var fee uint64
	nfee := 0
	for i, o := range tx.Outputs {
		if len(o.Script) == 0 {
			x, ok := onchain.Open(o, nil)
			if o.IsConfidential() || !ok || x.Asset != base {
				return "fee-output", fmt.Sprintf("output %d is no explicit LBTC fee", i)
			}
			fee += x.V
			nfee++
			continue
		}
		var x onchain.Opened
		ok, mine := false, false
		for j, w := range wanted {
			_, script, key := recipient(w.to)
			if got[j] || !bytes.Equal(script, o.Script) {
				continue
			}
			mine = true
			if x, ok = onchain.Open(o, key); !ok {
				return "unreadable-output", fmt.Sprintf("recipient %d cannot open output %d", w.to, i)
			}
			if x.Asset == w.asset && x.V == w.v {
				got[j] = true
				break
			}
			ok = false
		}
		if mine {
			if !ok {
				return "wrong-amount", fmt.Sprintf("output %d pays %d %s to a recipient, which was not requested", i, x.V, world.Fmt(x.Asset))
			}
			blind.Add(x, -1)
			continue
		}
		in, ok := owned[hex.EncodeToString(o.Script)]
		if !ok {
			return "foreign-output", fmt.Sprintf("output %d pays neither a recipient nor the wallet", i)
		}
		if x, ok = onchain.Open(o, in.BlindingKey); !ok {
			return "unreadable-change", fmt.Sprintf("the wallet cannot open output %d, its own change", i)
		}
		if x.V == 0 {
			return "empty-change", fmt.Sprintf("output %d is a change of nothing", i)
		}
		balance[fmt.Sprint(acctOf(o.Script), "/", x.Asset)] -= int64(x.V)
		blind.Add(x, -1)
	}
	for j, w := range wanted {
		if !got[j] {
			return "unpaid", fmt.Sprintf("%d %s to recipient %d is not paid", w.v, world.Fmt(w.asset), w.to)
		}
		balance[fmt.Sprint(p.account(), "/", w.asset)] -= int64(w.v)
	}
	if nfee != 1 {
		return "fee-output", fmt.Sprintf("%d fee outputs", nfee)
	}
	balance[fmt.Sprint(domain.FeeAccount, "/", base)] -= int64(fee)
	for k, b := range balance {
		if b != 0 {
			return "not-conserved", fmt.Sprintf("account/asset %s: %d more spent than paid, returned or taken as fee (all: %v, fee %d)", k, b, balance, fee)
		}
	}
	if !blind.Balanced() {
		return "unbalanced", "the commitments do not balance"
	}
	rate := p.rate
	if rate < 100 {
		rate = 100
	}
	vs := int64(tx.VirtualSize())
	min := vs * rate / 1000
	c.Outcome(fmt.Sprintf("fee of %d inputs and %d outputs: %d%% of the size", len(tx.Inputs), len(tx.Outputs), int64(fee)*100/(min+1)))
	if int64(fee) < min-1 || int64(fee) > min*112/100+2 {
		return "fee-rate", fmt.Sprintf("the fee is %d, for %d virtual bytes at %d msat/byte", fee, vs, rate)
	}
	return "", ""
}

// refusable tells why a payout may be refused.
func (d daemon) refusable(p payout) string {
	have, fee := map[string]uint64{}, uint64(0)
	for _, k := range d.Chain {
		if k.Spent || k.State == 'l' && k.Acct != domain.WalletAccount {
			continue
		}
		if (k.State == 'u' || k.Pending) && k.Acct != domain.WalletAccount {
			continue
		}
		if k.Acct == p.account() {
			have[k.Asset] += k.V
		}
		if k.Acct == domain.FeeAccount && k.Asset == base && k.V > fee {
			fee = k.V
		}
	}
	need := map[string]uint64{}
	ws := p.wanted()
	if len(ws) == 0 {
		return "nothing to pay"
	}
	for _, w := range ws {
		if w.v == 0 || w.v > 2100000000000000 && w.asset == base || w.v > 1<<62 {
			return "no valid amount"
		}
		need[w.asset] += w.v
	}
	for a, n := range need {
		if have[a] < n {
			return "not enough"
		}
	}
	if p.market >= 0 && (have[base] == 0 || have[world.Quote(p.market)] == 0) {
		return "market not funded with both assets"
	}
	rate := p.rate
	if rate < 100 {
		rate = 100
	}
	// a generous bound of the size; the wallet asks for a coin of 700 at least
	size := int64(100 + 120*len(d.Chain) + 1300*(len(ws)+len(need)+1))
	if fee < 700 || fee <= uint64(size*rate/1000) {
		return "fee"
	}
	return ""
}

type test struct {
	name  string
	coins []onchain.Coin
	ps    []payout
	fault string // of the explorer ("Broadcast", "GetUnspents") or of a storage call
	nth   int
	bdg   bool
	hook  string // what else happens while broadcasting
}

func (t test) String() string {
	q := []string{}
	for _, p := range t.ps {
		q = append(q, p.String())
	}
	out := fmt.Sprintf("coins [%s]: %s", onchain.Names(t.coins), strings.Join(q, "; then "))
	if t.fault != "" {
		out += fmt.Sprintf("; %s fails (call %d)", t.fault, t.nth)
	}
	if t.bdg {
		out += "; on badger"
	}
	if t.hook != "" {
		out += "; meanwhile: " + t.hook
	}
	return out
}

type daemon struct{ *onchain.Daemon }

var errFault = errors.New("injected")

func run(t test) {
	o := world.Opts{Badger: t.bdg, Gated: true}
	o.Markets = 2
	d := daemon{onchain.Start(t.coins, o)}
	defer d.Close()
	for i, p := range t.ps {
		before := d.State()
		n := 0
		hit := false
		fault := func(call string) error {
			if t.fault != call || i > 0 {
				return nil
			}
			n++
			if n-1 == t.nth {
				hit = true
				return errFault
			}
			return nil
		}
		nb := 0
		d.Explorer.Fault = func(call string) error {
			if call == "Broadcast" {
				nb++
				if t.hook == "unlock" && nb == 1 {
					if err := d.Wallet.UnlockWallet(ctx, world.Pass); err != nil {
						c.Outcome("the wallet is not unlocked: " + err.Error())
					}
				}
			}
			return fault(call)
		}
		d.Gate.Fault = fault
		known := map[string]bool{}
		for _, id := range d.Explorer.Broadcasted() {
			known[id] = true
		}
		raw, err := d.do(p)
		d.Gate.Fault, d.Explorer.Fault = nil, nil
		c.Count("evaluations", 1)
		fail := func(sig, msg string) { c.Fail(t.name+"-"+sig, t.String()+": "+msg, t.String()) }
		sent := []string{}
		for _, id := range d.Explorer.Broadcasted() {
			if !known[id] {
				sent = append(sent, id)
			}
		}
		if err != nil {
			c.Outcome("refused: " + err.Error())
			if !hit {
				if why := d.refusable(p); why == "" {
					fail("refused", fmt.Sprintf("refused (%v), though the coins cover it", err))
					return
				}
			}
			if after := d.State(); after != before {
				fail("refused-with-effect", fmt.Sprintf("refused (%v), but changed\n   %s\nto %s", err, before, after))
				return
			}
			continue
		}
		if t.fault == "Broadcast" && i == 0 && hit {
			fail("broadcast-failure-ignored", "the broadcast failed, and the payout is reported as done")
			return
		}
		if sig, msg := d.judge(p, raw); sig != "" {
			fail(sig, msg)
			return
		}
		c.Count("distinct_nontrivial", 1)
		tx, _ := transaction.NewTxFromHex(hex.EncodeToString(raw))
		if p.push && (len(sent) != 1 || sent[0] != tx.TxHash().String()) || !p.push && len(sent) != 0 {
			fail("broadcast", fmt.Sprintf("%d transactions were broadcast (%v)", len(sent), sent))
			return
		}
		d.Settle(raw)
		if sig, msg := d.Books(); sig != "" {
			if hit {
				c.Outcome("storage failure after the broadcast: " + sig)
			} else {
				fail(sig, msg)
			}
			return
		}
	}
}

// ---- the cases ----

func total(ks []onchain.Coin, asset string) (n, max uint64) {
	for _, k := range ks {
		if k.Asset == asset {
			n += k.V
			if k.V > max {
				max = k.V
			}
		}
	}
	return
}

func uniq(vs ...uint64) []uint64 {
	var out []uint64
	for _, v := range vs {
		dup := false
		for _, o := range out {
			dup = dup || o == v
		}
		if !dup {
			out = append(out, v)
		}
	}
	return out
}

func main() {
	c = hx.New("C10", "exploration")
	world.Real()
	M, Q, F, W := world.Account(0), world.Quote(0), domain.FeeAccount, domain.WalletAccount
	X := txs.Asset(other)
	th := c.Thorough()
	var ts []test

	// withdrawals: coins and amounts
	bs := [][]onchain.Coin{nil, onchain.Cs(M, base, 5000), onchain.Cs(M, base, "3000", 2000), onchain.Cs(M, base, 2000, 2000)}
	qs := [][]onchain.Coin{nil, onchain.Cs(M, Q, 900), onchain.Cs(M, Q, 300, "200"), onchain.Cs(M, Q, 30, 2000)}
	if th {
		bs = append(bs, onchain.Cs(M, base, 5000, 1, "700"), onchain.Cs(M, base, 2100000000000000))
		qs = append(qs, onchain.Cs(M, Q, 100, 100, 100), onchain.Cs(M, Q, "1", 2000000000000000))
	}
	noise := onchain.Join(onchain.Cs(world.Account(1), base, 8000), onchain.Cs(world.Account(1), Q, 8000))
	for _, b := range bs {
		for _, q := range qs {
			bt, bm := total(b, base)
			qt, qm := total(q, Q)
			for _, x := range uniq(0, bt/2, bm, bt, bt+1) {
				for _, y := range uniq(0, qt/2, qm, qt, qt+1) {
					ts = append(ts, test{name: "withdraw", coins: onchain.Join(b, q, onchain.Cs(F, base, 1000), noise), ps: []payout{{market: 0, base: x, quote: y, rate: 100, push: true}}})
				}
			}
		}
	}
	// the network fee
	fees := [][]onchain.Coin{nil, onchain.Cs(F, base, 699), onchain.Cs(F, base, 700), onchain.Cs(F, base, "701"), onchain.Cs(F, base, 350, "400"), onchain.Cs(F, base, 5000, 100), onchain.Cs(F, base, 1, 699), onchain.Cs(F, base, 20000), onchain.Cs(F, base, "2500", 2500), onchain.Join(onchain.Cs(F, base, 300), onchain.Cs(F, Q, 9000))}
	if th {
		for v := 230; v < 900; v += 45 {
			fees = append(fees, onchain.Cs(F, base, v, 760))
		}
	}
	rates := []int64{-1, 0, 100, 101, 333, 1000, 5000}
	for _, f := range fees {
		for _, r := range rates {
			for k, a := range [][2]uint64{{3000, 0}, {100, 250}, {5000, 500}} {
				if k > 0 && !th && r != 100 && r != 1000 {
					continue
				}
				ts = append(ts, test{name: "withdraw-fee", coins: onchain.Join(onchain.Cs(M, base, "3000", 2000), onchain.Cs(M, Q, 300, "200"), f), ps: []payout{{market: 0, base: a[0], quote: a[1], rate: r, push: true}}})
			}
			ts = append(ts, test{name: "pay-fee", coins: onchain.Join(onchain.Cs(W, base, "3000"), onchain.Cs(W, X, 500, 40), f), ps: []payout{{market: -1, outs: []pay{{X, 510, 1}, {base, 1000, 2}}, rate: r, push: true}}})
		}
	}
	// locked and unconfirmed coins
	five := onchain.Join(onchain.Cs(M, base, 3000, "2000"), onchain.Cs(M, Q, 300), onchain.Cs(F, base, 900, "800"))
	for n := 0; n < 243; n++ {
		ks := append([]onchain.Coin{}, five...)
		bad, x := 0, n
		for i := range ks {
			ks[i].State = []byte{0, 'l', 'u'}[x%3]
			if x%3 != 0 {
				bad++
			}
			x /= 3
		}
		if bad > 2 && !th {
			continue
		}
		ts = append(ts, test{name: "withdraw-state", coins: ks, ps: []payout{{market: 0, base: 1500, quote: 100, rate: 100, push: true}}})
		if n%3 == 0 && (n/3)%3 == 0 && (n/9)%3 == 0 {
			w := onchain.Join(onchain.Cs(W, base, 5000), ks[3:])
			ts = append(ts, test{name: "pay-state", coins: w, ps: []payout{{market: -1, outs: []pay{{base, 100, 1}}, rate: 100, push: true}}})
		}
	}
	// payments: outputs
	wallets := [][]onchain.Coin{nil, onchain.Cs(W, base, 5000), onchain.Join(onchain.Cs(W, base, "1000", 1000), onchain.Cs(W, X, 500, 40), onchain.Cs(W, Q, "77"))}
	lists := [][]pay{
		{}, {{base, 1, 1}}, {{base, 1000, 1}}, {{base, 5000, 1}}, {{base, 2001, 1}}, {{base, 0, 1}},
		{{base, 600, 1}, {base, 400, 2}}, {{base, 600, 1}, {base, 600, 1}}, {{X, 500, 1}}, {{X, 540, 1}, {base, 10, 1}},
		{{X, 20, 1}, {X, 30, 2}, {Q, 7, 1}}, {{X, 20, 1}, {base, 30, 2}, {Q, 7, 3}}, {{Q, 78, 1}}, {{X, 1, 1}, {Q, 77, 1}, {base, 1, 1}},
		{{base, 1 << 63, 1}}, {{base, ^uint64(0), 1}}, {{base, 3000, 1}, {base, ^uint64(0) - 1999, 2}}, {{base, 2100000000000001, 1}},
	}
	for _, w := range wallets {
		for _, l := range lists {
			for _, push := range []bool{true, false} {
				ts = append(ts, test{name: "pay", coins: onchain.Join(w, onchain.Cs(F, base, 1000)), ps: []payout{{market: -1, outs: l, rate: 100, push: push}}})
			}
		}
	}
	// failures
	fc := onchain.Join(onchain.Cs(M, base, 5000), onchain.Cs(M, Q, 900), onchain.Cs(W, base, 900), onchain.Cs(F, base, 1000, 900))
	for _, push := range []bool{true, false} {
		for _, p := range []payout{{market: 0, base: 100, quote: 900, rate: 100, push: push}, {market: -1, outs: []pay{{base, 100, 1}}, rate: 100, push: push}} {
			for _, f := range []string{"Broadcast", "GetUnspents", "GetOrCreateVault", "UpdateVault", "GetMarketByAsset", "GetAvailableUnspentsForAddresses", "GetAllDerivedAddressesInfoForAccount", "SpendUnspents", "AddUnspents"} {
				for n := 0; n < 3; n++ {
					for _, bdg := range []bool{false, true} {
						if bdg && n > 0 && !th {
							continue
						}
						ts = append(ts, test{name: "failure", coins: fc, ps: []payout{p, p}, fault: f, nth: n, bdg: bdg})
					}
				}
			}
			ts = append(ts, test{name: "meanwhile", coins: fc, ps: []payout{p}, bdg: true, hook: "unlock"})
		}
	}
	// one after the other
	steps := []payout{{market: 0, base: 2000, rate: 100, push: true}, {market: 0, base: 100, quote: 300, rate: 200, push: true}, {market: 0, base: 700, quote: 10, rate: 100}, {market: -1, outs: []pay{{base, 800, 1}, {X, 500, 2}}, rate: 100, push: true}, {market: -1, outs: []pay{{base, 300, 1}}, rate: 300}}
	sc := onchain.Join(onchain.Cs(M, base, 2500, "2000", 900), onchain.Cs(M, Q, 300, 200, "100"), onchain.Cs(W, base, 1000, 2000), onchain.Cs(W, X, 500, 500), onchain.Cs(F, base, 1000, 900, "1200"))
	for _, a := range steps {
		for _, b := range steps {
			for _, bdg := range []bool{false, true} {
				if bdg && !th && a.push {
					continue
				}
				ts = append(ts, test{name: "sequence", coins: sc, ps: []payout{a, b}, bdg: bdg})
				if th {
					for _, e := range steps {
						ts = append(ts, test{name: "sequence", coins: sc, ps: []payout{a, b, e}, bdg: bdg})
					}
				}
			}
		}
	}

	c.Describe = func(i int) string { return ts[i].String() }
	c.Procs("all", len(ts), func(i int) {
		if c.Expired() {
			c.Cap("budget")
			return
		}
		run(ts[i])
	})
	groups := map[string]int{}
	for _, t := range ts {
		groups[t.name]++
	}
	c.Info("cases", groups)
	for _, i := range []int{17, len(ts) / 2, len(ts) - 1} {
		c.Sample(ts[i].String())
	}
	c.Info("rule", "every listed coin set x amounts (0, half, largest coin, all, one too many), fee coin set x rate, state (fine, locked, unconfirmed) of up to two (thorough: all) of five coins, output list x wallet, failure of each explorer and storage call, and pairs (thorough: triples) of payouts; non-trivial: a transaction was made and judged")
	c.Assume("the coins of the wallet account are taken from the explorer, confirmed or not, as the daemon documents; the fee is compared with the virtual size of the final transaction within 12 percent, as the size is estimated before signing")
	c.Finish()
}
