// C07: accepted swaps. Every proposal over small sets of market and fee coins
// (blinded or not, locked, unconfirmed), amounts, both directions and shapes of
// the trader's half, through the real trade service, wallet, blinding and
// signing; every transaction handed back is opened and balanced coin by coin,
// signed by the trader, completed and compared with what is broadcast.
//
//mc:instr pkg/wallet=M
package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"fmt"
	"strings"
	"time"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/tdex-network/tdex-daemon/verif/onchain"
	"github.com/tdex-network/tdex-daemon/verif/txs"
	"github.com/tdex-network/tdex-daemon/verif/world"
	pb "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
)

var (
	c    *hx.Check
	ctx  = context.Background()
	base = world.Base
)

// tin is an input of the trader.
type tin struct {
	v    uint64
	conf bool
	how  byte // 0 witness utxo, 'n' whole previous transaction, '0' nothing, 'i' previous transaction without that output
	kind byte // 0 p2wpkh, 'h' p2wsh, 's' p2sh, 'k' p2pkh, 'm' bare multisig, 'o' OP_RETURN, '0' one byte, 'e' empty script
}

// swap is a proposal.
type swap struct {
	sell  bool
	p, r  uint64
	ins   []tin
	extra []string // of the trader's outputs: "change", "change-explicit", "fee", "data", "short", "bare", "nokey", "feekey", "wrongkey", "same", "mine"
	keys  string   // "" all, "noin", "noout", "badin"
	mine  bool     // the first input is a coin of the provider
	dup   bool     // an input twice
}

func (s swap) String() string {
	dir := "buy"
	if s.sell {
		dir = "sell"
	}
	x := []string{}
	for _, i := range s.ins {
		t := fmt.Sprint(i.v)
		if i.conf {
			t += "c"
		}
		if i.how != 0 {
			t += string(i.how)
		}
		if i.kind != 0 {
			t += string(i.kind)
		}
		x = append(x, t)
	}
	o := fmt.Sprintf("%s, pay %d for %d, inputs [%s] outputs %v", dir, s.p, s.r, strings.Join(x, " "), s.extra)
	if s.keys != "" {
		o += " keys " + s.keys
	}
	if s.mine {
		o += " with a coin of the provider"
	}
	if s.dup {
		o += " an input twice"
	}
	return o
}

// regular proposals are to be accepted if the coins cover them.
func (s swap) regular() bool {
	if s.keys != "" || s.mine || s.dup {
		return false
	}
	total := uint64(0)
	for _, i := range s.ins {
		total += i.v
		if i.how == '0' || i.how == 'i' || i.kind != 0 {
			return false
		}
	}
	for _, e := range s.extra {
		if e != "change" {
			return false
		}
	}
	return total >= s.p && len(s.ins) > 0
}

func (s swap) assets() (p, r string) {
	if s.sell {
		return base, world.Quote(0)
	}
	return world.Quote(0), base
}

func inName(n, i int) string  { return fmt.Sprintf("trader %d in %d", n, i) }
func outName(n, i int) string { return fmt.Sprintf("trader %d out %d", n, i) }

func (i tin) script(name string) []byte {
	k := txs.Key(name).PubKey().SerializeCompressed()
	switch i.kind {
	case 'h':
		return append([]byte{0, 32}, k[:32]...)
	case 's':
		return append(append([]byte{0xa9, 20}, k[:20]...), 0x87)
	case 'k':
		return append(append([]byte{0x76, 0xa9, 20}, k[:20]...), 0x88, 0xac)
	case 'm':
		return append(append([]byte{0x51, 33}, k...), 0x51, 0xae)
	case 'o':
		return append([]byte{0x6a, 32}, k[:32]...)
	case '0':
		return []byte{0}
	case 'e':
		return []byte{}
	}
	return txs.Script(name)
}

// prop is a proposal made concrete.
type prop struct {
	swap
	n      int
	rq     *pb.SwapRequest
	ptx    *pset.Pset
	prev   []onchain.Opened // of the inputs
	tprev  []*transaction.TxOutput
	signed []int
}

func (d *daemon) make(s swap, n int) *prop {
	P, R := s.assets()
	p := &prop{swap: s, n: n}
	ik, ok := map[string][]byte{}, map[string][]byte{}
	var ins []txs.In
	for i, t := range s.ins {
		name := inName(n, i)
		sc := t.script(name)
		var out *transaction.TxOutput
		o := onchain.Opened{Asset: P, V: t.v, Abf: make([]byte, 32), Vbf: make([]byte, 32)}
		in := txs.In{Hash: byte(16*n + i + 1), Index: uint32(i)}
		if s.mine && i == 0 {
			for q, k := range d.Chain {
				if k.Asset == P && k.Acct == world.Account(0) {
					out, o = k.Out, onchain.Opened{Asset: P, V: k.V, Abf: k.Abf, Vbf: k.Vbf}
					sc = out.Script
					b, _ := hex.DecodeString(q.Tx)
					in.Hash, in.Index = b[0], q.N // the hash is set below
					break
				}
			}
		}
		if out == nil {
			if t.conf {
				out = txs.Conf(P, t.v, sc, txs.Blind(name))
				o.Abf, o.Vbf = txs.Secrets(P, t.v, sc, txs.Blind(name))
			} else {
				out = txs.Out(P, t.v, sc)
			}
		}
		ik[hex.EncodeToString(sc)] = txs.Blind(name)
		if s.keys == "badin" {
			ik[hex.EncodeToString(sc)] = txs.Blind("another")
		}
		if t.how == 'n' || t.how == 'i' {
			tx := transaction.NewTx(2)
			tx.AddInput(transaction.NewTxInput(bytes.Repeat([]byte{in.Hash}, 32), 9))
			for j := 0; j < i; j++ {
				tx.AddOutput(txs.Out(P, 1, txs.Script("somebody")))
			}
			if t.how != 'i' {
				tx.AddOutput(out)
			}
			in.Non = tx
		}
		if t.how == 0 {
			in.Prev = out
		}
		ins = append(ins, in)
		p.prev, p.tprev = append(p.prev, o), append(p.tprev, out)
		p.signed = append(p.signed, i)
	}
	if s.dup {
		ins, p.prev, p.tprev = append(ins, ins[0]), append(p.prev, p.prev[0]), append(p.tprev, p.tprev[0])
	}
	var total uint64
	for _, t := range p.prev {
		total += t.V
	}
	var outs []*transaction.TxOutput
	out := func(asset string, v uint64, key bool) {
		name := outName(n, len(outs))
		outs = append(outs, txs.Out(asset, v, txs.Script(name)))
		if key {
			ok[txs.ScriptHex(name)] = txs.Blind(name)
		}
	}
	out(R, s.r, true)
	rest := total - s.p
	for k, e := range s.extra {
		v := rest
		for _, f := range s.extra[k+1:] {
			if strings.HasPrefix(f, "change") && v > 1 {
				v /= 2
				break
			}
		}
		switch e {
		case "change":
			out(P, v, true)
			rest -= v
		case "change-explicit":
			out(P, v, false)
			rest -= v
		case "fee":
			outs = append(outs, txs.Fee(base, 1))
		case "feekey":
			outs = append(outs, txs.Fee(base, 1))
			ok[""] = txs.Blind("fee")
		case "data":
			outs = append(outs, txs.Out(base, 0, []byte{0x6a, 1, 1}))
		case "short":
			outs = append(outs, txs.Out(base, 1, []byte{0}))
			ok["00"] = txs.Blind("short")
		case "bare":
			outs = append(outs, txs.Out(P, v, append(append([]byte{0x51, 33}, txs.Key("x").PubKey().SerializeCompressed()...), 0x51, 0xae)))
		case "wrongkey":
			out(P, v, true)
			ok[hex.EncodeToString(outs[len(outs)-1].Script)] = []byte{1, 2, 3}
		case "same": // what it gets, again
			out(R, s.r, true)
		case "mine": // to an address of the provider
			a := d.Addr[world.Account(0)][0]
			sc, _ := hex.DecodeString(a.Script)
			outs = append(outs, txs.Out(P, v, sc))
			ok[a.Script] = txs.Blind("mine")
		}
	}
	p.ptx = txs.Pset(ins, outs)
	if s.mine {
		for q, k := range d.Chain {
			if bytes.Equal(k.Out.Script, p.tprev[0].Script) && k.V == p.prev[0].V {
				b, _ := hex.DecodeString(q.Tx)
				for x, y := 0, len(b)-1; x < y; x, y = x+1, y-1 {
					b[x], b[y] = b[y], b[x]
				}
				p.ptx.UnsignedTx.Inputs[0].Hash, p.ptx.UnsignedTx.Inputs[0].Index = b, q.N
				ik[hex.EncodeToString(k.Out.Script)] = d.Owned()[hex.EncodeToString(k.Out.Script)].BlindingKey
			}
		}
	}
	switch s.keys {
	case "noin":
		ik = map[string][]byte{"ab": txs.Blind("x")}
	case "noout":
		ok = map[string][]byte{"ab": txs.Blind("x")}
	}
	if len(ik) == 0 { // requests without keys do not get past the interface
		ik["ab"] = txs.Blind("x")
	}
	p.rq = &pb.SwapRequest{Id: fmt.Sprintf("request %d", n), AssetP: P, AmountP: s.p, AssetR: R, AmountR: s.r, Transaction: txs.B64(p.ptx), InputBlindingKey: ik, OutputBlindingKey: ok}
	return p
}

type daemon struct{ *onchain.Daemon }

// judge an accepted transaction.
func (d daemon) judge(p *prop, acc domain.SwapAccept) (*pset.Pset, string, string) {
	bad := func(sig, f string, a ...interface{}) (*pset.Pset, string, string) {
		return nil, sig, fmt.Sprintf(f, a...)
	}
	ptx, err := pset.NewPsetFromBase64(acc.GetTransaction())
	if err != nil {
		return bad("unreadable", "the transaction cannot be read: %v", err)
	}
	if acc.GetRequestId() != p.rq.Id {
		return bad("request-id", "the answer is to %q", acc.GetRequestId())
	}
	tx := ptx.UnsignedTx
	n := len(p.prev)
	if len(tx.Inputs) < n {
		return bad("trader-input", "inputs of the trader are missing")
	}
	var blind onchain.Blind
	for i := 0; i < n; i++ {
		a, b := p.ptx.UnsignedTx.Inputs[i], tx.Inputs[i]
		if !bytes.Equal(a.Hash, b.Hash) || a.Index != b.Index || a.Sequence != b.Sequence {
			return bad("trader-input", "input %d of the trader was changed", i)
		}
		w := p.ptx.Inputs[i].WitnessUtxo
		if x := ptx.Inputs[i].WitnessUtxo; w != nil && (x == nil || !bytes.Equal(x.Value, w.Value) || !bytes.Equal(x.Asset, w.Asset) || !bytes.Equal(x.Script, w.Script)) {
			return bad("trader-input", "what input %d of the trader spends was changed", i)
		}
		blind.Add(p.prev[i], 1)
	}
	owned := d.Owned()
	balance := map[string]int64{}
	seen := map[onchain.Outpoint]bool{}
	for i := n; i < len(tx.Inputs); i++ {
		in := tx.Inputs[i]
		k, ok := d.Chain[onchain.Prev(in)]
		if !ok {
			return bad("foreign-coin", "input %d is no coin of the wallet", i)
		}
		if seen[onchain.Prev(in)] {
			return bad("coin-twice", "input %d spends %s again", i, k)
		}
		seen[onchain.Prev(in)] = true
		if k.Acct != world.Account(0) && k.Acct != domain.FeeAccount {
			return bad("wrong-account", "input %d spends %s", i, k)
		}
		if !k.Usable() {
			return bad("unusable-coin", "input %d spends %s, spent %v, of a pending transaction %v", i, k, k.Spent, k.Pending)
		}
		w := ptx.Inputs[i].WitnessUtxo
		if w == nil || !bytes.Equal(w.Script, k.Out.Script) || !bytes.Equal(w.Value, k.Out.Value) || !bytes.Equal(w.Asset, k.Out.Asset) {
			return bad("input-data", "input %d does not say what it spends", i)
		}
		if len(ptx.Inputs[i].PartialSigs) != 1 {
			return bad("unsigned", "input %d has %d signatures", i, len(ptx.Inputs[i].PartialSigs))
		}
		ps := ptx.Inputs[i].PartialSigs[0]
		if sig, msg := onchain.Signed(tx, i, k.Out, ps.Signature, ps.PubKey); sig != "" {
			return bad(sig, "%s", msg)
		}
		balance[fmt.Sprint(k.Acct, "/", k.Asset)] += int64(k.V)
		blind.Add(onchain.Opened{Asset: k.Asset, V: k.V, Abf: k.Abf, Vbf: k.Vbf}, 1)
	}
	var fee uint64
	nfee, paid := 0, false
	next := 0
	for i, o := range tx.Outputs {
		if next < len(p.ptx.UnsignedTx.Outputs) {
			q := p.ptx.UnsignedTx.Outputs[next]
			if bytes.Equal(q.Script, o.Script) {
				key := p.rq.OutputBlindingKey[hex.EncodeToString(o.Script)]
				if n := len(key); n > 0 && n < 32 {
					key = append(make([]byte, 32-n), key...)
				}
				if key == nil && o.IsConfidential() {
					return bad("trader-output", "output %d of the trader is blinded with a key that is not the trader's", i)
				}
				x, ok := onchain.Open(o, key)
				if ow, is := owned[hex.EncodeToString(o.Script)]; is && !ok {
					x, ok = onchain.Open(o, ow.BlindingKey)
				}
				y, _ := onchain.Open(q, nil)
				if !ok || x.Asset != y.Asset || x.V != y.V {
					return bad("trader-output", "output %d of the trader, %d %s, became %d %s (readable %v)", i, y.V, world.Fmt(y.Asset), x.V, world.Fmt(x.Asset), ok)
				}
				blind.Add(x, -1)
				next++
				if len(o.Script) == 0 {
					nfee++
				}
				continue
			}
		}
		if len(o.Script) == 0 {
			x, ok := onchain.Open(o, nil)
			if o.IsConfidential() || !ok || x.Asset != base {
				return bad("fee-output", "output %d is no explicit LBTC fee", i)
			}
			fee += x.V
			nfee++
			continue
		}
		in, ok := owned[hex.EncodeToString(o.Script)]
		if !ok {
			return bad("foreign-output", "output %d pays neither the trader nor the wallet", i)
		}
		x, ok := onchain.Open(o, in.BlindingKey)
		if !ok {
			return bad("unreadable-output", "the wallet cannot open its output %d", i)
		}
		if x.V == 0 {
			return bad("empty-change", "output %d is a change of nothing", i)
		}
		if x.V == p.p && x.Asset == p.rq.AssetP && in.AccountIndex == world.Account(0) {
			paid = true
		}
		balance[fmt.Sprint(in.AccountIndex, "/", x.Asset)] -= int64(x.V)
		blind.Add(x, -1)
	}
	if next != len(p.ptx.UnsignedTx.Outputs) {
		return bad("trader-output", "outputs of the trader are missing")
	}
	if !paid {
		return bad("unpaid", "no output pays %d %s to the market", p.p, world.Fmt(p.rq.AssetP))
	}
	m := world.Account(0)
	balance[fmt.Sprint(m, "/", p.rq.AssetP)] += int64(p.p)
	balance[fmt.Sprint(m, "/", p.rq.AssetR)] -= int64(p.r)
	balance[fmt.Sprint(domain.FeeAccount, "/", base)] -= int64(fee)
	for k, b := range balance {
		if b != 0 {
			return bad("not-conserved", "account/asset %s: %d more spent than owed or returned (all: %v, fee %d)", k, b, balance, fee)
		}
	}
	if p.regular() {
		if nfee != 1 {
			return bad("fee-output", "%d fee outputs", nfee)
		}
		if !blind.Balanced() {
			return bad("unbalanced", "the commitments do not balance")
		}
	}
	return ptx, "", ""
}

// covered tells whether the usable coins cover the proposal.
func (d daemon) covered(p *prop) bool {
	var have, fee uint64
	for _, k := range d.Chain {
		if !k.Usable() {
			continue
		}
		if k.Acct == world.Account(0) && k.Asset == p.rq.AssetR {
			have += k.V
		}
		if k.Acct == domain.FeeAccount && k.Asset == base {
			fee += k.V
		}
	}
	size := uint64(200 + 120*len(d.Chain) + 1300*(len(p.extra)+5))
	return have >= p.r && fee >= 700 && fee > size/10
}

type test struct {
	name  string
	coins []onchain.Coin
	ps    []swap
	how   string // what follows an acceptance: "" completion, "wait" nothing
}

func (t test) String() string {
	q := []string{}
	for _, p := range t.ps {
		q = append(q, p.String())
	}
	s := fmt.Sprintf("coins [%s]: %s", onchain.Names(t.coins), strings.Join(q, "; then "))
	if t.how != "" {
		s += " (" + t.how + ")"
	}
	return s
}

func run(t test) {
	d := daemon{onchain.Start(t.coins, world.Opts{Prepare: world.FlatMarket, Slippage: decimal.NewFromInt(1000000000), Expiry: time.Hour})}
	defer d.Close()
	fail := func(sig, msg string) { c.Fail(t.name+"-"+sig, t.String()+": "+msg, t.String()) }
	for i, s := range t.ps {
		p := d.make(s, i+1)
		before := d.State()
		tt := application.TradeBuy
		if s.sell {
			tt = application.TradeSell
		}
		c.Count("evaluations", 1)
		var acc domain.SwapAccept
		var fl domain.SwapFail
		var err error
		covered := d.covered(p)
		if pn, st := hx.Catch(func() {
			acc, fl, _, err = d.Trade.TradePropose(ctx, application.Market{BaseAsset: base, QuoteAsset: world.Quote(0)}, tt, p.rq)
		}); pn != nil {
			fail("crash", fmt.Sprintf("the proposal crashes the daemon: %v\n%s", pn, st))
			return
		}
		if err != nil || acc == nil {
			why := fmt.Sprint(err)
			if fl != nil {
				why = fl.GetFailureMessage()
			}
			c.Outcome("refused: " + why)
			if s.regular() && covered && !strings.Contains(why, "bad pricing") {
				fail("refused", "refused ("+why+"), though the coins cover it")
				return
			}
			if after := d.State(); after != before {
				fail("refused-with-effect", fmt.Sprintf("refused (%s), but changed\n   %s\nto %s", why, before, after))
				return
			}
			continue
		}
		ptx, sig, msg := d.judge(p, acc)
		if sig != "" {
			fail(sig, msg)
			return
		}
		c.Count("distinct_nontrivial", 1)
		c.Outcome(fmt.Sprintf("accepted: %d inputs, %d outputs", len(ptx.Inputs), len(ptx.Outputs)))
		for k := len(p.prev); k < len(ptx.Inputs); k++ {
			d.Chain[onchain.Prev(ptx.UnsignedTx.Inputs[k])].State = 'l'
		}
		if t.how == "wait" || !s.regular() {
			continue
		}
		for k := range p.prev {
			if ptx.Inputs[k].WitnessUtxo == nil {
				ptx.Inputs[k].WitnessUtxo, ptx.Inputs[k].NonWitnessUtxo = p.tprev[k], nil
			}
			txs.Sign(ptx, k, inName(p.n, k))
		}
		done := domain.SwapComplete(&pb.SwapComplete{Id: "complete", AcceptId: acc.GetId(), Transaction: txs.B64(ptx)})
		known := map[string]bool{}
		for _, id := range d.Explorer.Broadcasted() {
			known[id] = true
		}
		id, fl, err := d.Trade.TradeComplete(ctx, &done, nil)
		if err != nil || fl != nil {
			w := fmt.Sprint(err)
			if fl != nil {
				w = fl.GetFailureMessage()
			}
			fail("not-completed", "the trader's signed transaction is refused: "+w)
			return
		}
		sent := []string{}
		for _, id := range d.Explorer.Broadcasted() {
			if !known[id] {
				sent = append(sent, id)
			}
		}
		if len(sent) != 1 {
			fail("not-broadcast", fmt.Sprint("broadcast: ", sent))
			return
		}
		tx := txs.Final(ptx)
		if id != tx.TxHash().String() || sent[0] != id {
			fail("other-transaction", fmt.Sprintf("the transaction signed is %s, %s was reported and %s broadcast", tx.TxHash(), id, sent[0]))
			return
		}
		var fee uint64
		for _, o := range tx.Outputs {
			if len(o.Script) == 0 {
				x, _ := onchain.Open(o, nil)
				fee += x.V
			}
		}
		vs := int64(tx.VirtualSize())
		min := vs * domain.MinMilliSatPerByte / 1000
		c.Outcome(fmt.Sprintf("fee: %d%% of the size", int64(fee)*100/(min+1)))
		if int64(fee) < min-1 || int64(fee) > min*112/100+2 {
			fail("fee-rate", fmt.Sprintf("the fee is %d, for %d virtual bytes", fee, vs))
			return
		}
		raw, _ := hex.DecodeString(txs.Hex(tx))
		for k := len(p.prev); k < len(tx.Inputs); k++ {
			d.Chain[onchain.Prev(tx.Inputs[k])].State = 0
		}
		d.Settle(raw)
		if sig, msg := d.Books(); sig != "" {
			fail(sig, msg)
			return
		}
	}
}

func main() {
	c = hx.New("C07", "exploration")
	world.Real()
	M, Q, F := world.Account(0), world.Quote(0), domain.FeeAccount
	Cs, Join := onchain.Cs, onchain.Join
	th := c.Thorough()
	var ts []test
	noise := Join(Cs(world.Account(1), base, 90000), Cs(world.Account(1), Q, 90000), Cs(domain.WalletAccount, base, 90000))
	fee := Cs(F, base, 5000)
	one := func(v uint64) []tin { return []tin{{v: v, conf: true}} }

	// coins and amounts
	sets := [][]interface{}{{9000}, {"9000"}, {5000, "4000"}, {3000, 3000, 3000}, {1000, 2000, 6000}}
	if th {
		sets = append(sets, []interface{}{"1000", "1000", 1000, 1000, 5000}, []interface{}{300, 500, 700, 1100, 6400}, []interface{}{1, 8999}, []interface{}{4500, 4500})
	}
	for _, sell := range []bool{true, false} {
		R, P := base, Q
		if sell {
			R, P = Q, base
		}
		for _, set := range sets {
			coins := Join(Cs(M, R, set...), Cs(M, P, 9000), fee, noise)
			amounts := []uint64{1, 300, 1000, 2999, 3000, 3001, 5000, 6000, 8999, 9000, 9001}
			if th {
				for a := uint64(250); a < 9000; a += 250 {
					amounts = append(amounts, a)
				}
			}
			for _, r := range amounts {
				for _, p := range []uint64{400, 20000} {
					if p != 400 && !th && r != 1000 && r != 9000 {
						continue
					}
					ts = append(ts, test{name: "coins", coins: coins, ps: []swap{{sell: sell, p: p, r: r, ins: one(p + 7), extra: []string{"change"}}}})
				}
			}
		}
	}
	// fee coins
	mk := Join(Cs(M, base, 5000, 4000), Cs(M, Q, 5000, "4000"), noise)
	fees := [][]onchain.Coin{nil, Cs(F, base, 699), Cs(F, base, 700), Cs(F, base, "701"), Cs(F, base, 350, "400"), Cs(F, base, 300, "300", 300), Cs(F, base, 1, 699), Cs(F, base, 20000, 100), Cs(F, base, "2500", 2500), Join(Cs(F, base, 300), Cs(F, Q, 9000)), Cs(F, Q, 9000), Cs(F, base, 760, 800)}
	for _, f := range fees {
		for _, sell := range []bool{true, false} {
			for k, ins := range [][]tin{one(1000), {{v: 600, conf: true}, {v: 400}, {v: 30, conf: true}, {v: 20}}} {
				s := swap{sell: sell, p: 1000, r: 1000, ins: ins}
				if k > 0 {
					s.extra = []string{"change", "change"}
				}
				ts = append(ts, test{name: "fees", coins: Join(mk, f), ps: []swap{s}})
			}
		}
	}
	// locked and unconfirmed coins
	four := Join(Cs(M, base, 3000, "2000"), Cs(F, base, 900, "800"))
	for n := 0; n < 81; n++ {
		ks := append([]onchain.Coin{}, four...)
		x := n
		for i := range ks {
			ks[i].State = []byte{0, 'l', 'u'}[x%3]
			x /= 3
		}
		for _, r := range []uint64{1500, 2500, 3500} {
			if !th && (r == 1500) != (n%2 == 0) {
				continue
			}
			ts = append(ts, test{name: "state", coins: Join(ks, Cs(M, Q, 9000), noise), ps: []swap{{p: 1000, r: r, ins: one(1000)}}})
		}
	}
	// shapes of the trader's half
	shapes := []swap{}
	for _, in := range [][]tin{{{v: 1000}}, {{v: 1000, conf: true}}, {{v: 1500, conf: true}}, {{v: 700}, {v: 800, conf: true}}, {{v: 1000, how: 'n'}}, {{v: 1000, conf: true, how: 'n'}}, {{v: 300, conf: true}, {v: 1000, how: 'n'}}, {{v: 999}}, {{v: 1000, how: '0'}}, {{v: 1500, how: 'i'}}, {{v: 1500}, {v: 10, how: '0'}}, {{v: 1500, conf: true}, {v: 10, how: 'i'}}, {}} {
		for _, ex := range [][]string{nil, {"change"}, {"change-explicit"}, {"change", "change"}, {"fee"}, {"feekey"}, {"data"}, {"short"}, {"bare"}, {"wrongkey"}, {"same"}, {"mine"}} {
			for _, k := range []string{"", "noin", "noout", "badin"} {
				total := uint64(0)
				for _, i := range in {
					total += i.v
				}
				if total <= 1000 && len(ex) > 0 && (ex[0] == "change" || ex[0] == "change-explicit" || ex[0] == "bare" || ex[0] == "mine" || ex[0] == "wrongkey") {
					continue
				}
				if total > 1000 && len(ex) == 0 && k == "" {
					continue // does not balance: the change belongs to nobody
				}
				shapes = append(shapes, swap{p: 1000, r: 1000, ins: in, extra: ex, keys: k})
			}
		}
	}
	for _, k := range "hskmoe0" {
		for _, conf := range []bool{false, true} {
			shapes = append(shapes, swap{p: 1000, r: 1000, ins: []tin{{v: 1000, conf: conf, kind: byte(k)}}})
			shapes = append(shapes, swap{p: 1000, r: 1000, ins: []tin{{v: 1500, conf: true}, {v: 100, conf: conf, kind: byte(k), how: 'n'}}, extra: []string{"change"}})
		}
	}
	shapes = append(shapes, swap{p: 1000, r: 1000, ins: one(5000), mine: true}, swap{p: 1000, r: 1000, ins: []tin{{v: 5000, conf: true}, {v: 1000, conf: true}}, mine: true, extra: []string{"change"}},
		swap{p: 1000, r: 1000, ins: one(1000), dup: true, extra: []string{"change"}}, swap{p: 1000, r: 1000, ins: []tin{{v: 500}}, dup: true},
		swap{p: 1 << 63, r: 1000, ins: []tin{{v: 1 << 63}}}, swap{p: 1000, r: 1 << 63, ins: one(1000)}, swap{p: ^uint64(0), r: ^uint64(0), ins: []tin{{v: ^uint64(0)}}})
	for i, s := range shapes {
		for _, sell := range []bool{true, false} {
			if !th && sell != (i%2 == 0) {
				continue
			}
			s.sell = sell
			ts = append(ts, test{name: "shape", coins: Join(mk, fee), ps: []swap{s}})
		}
	}
	// one after the other
	rich := Join(Cs(M, base, 3000, "2000", 900), Cs(M, Q, 3000, "200", 1500), Cs(F, base, 900, "800", 1200), noise)
	steps := []swap{{sell: true, p: 500, r: 1000, ins: one(500)}, {p: 700, r: 2500, ins: []tin{{v: 900}}, extra: []string{"change"}}, {p: 10, r: 800, ins: one(10)}, {sell: true, p: 500, r: 3100, ins: one(500)}}
	for _, a := range steps {
		for _, b := range steps {
			for _, how := range []string{"", "wait"} {
				ts = append(ts, test{name: "sequence", coins: rich, ps: []swap{a, b, {p: 10, r: 50, ins: one(10)}}, how: how})
				if th {
					for _, e := range steps {
						ts = append(ts, test{name: "sequence", coins: rich, ps: []swap{a, b, e, {p: 10, r: 50, ins: one(10)}}, how: how})
					}
				}
			}
		}
	}

	c.Describe = func(i int) string { return ts[i].String() }
	c.Procs("all", len(ts), func(i int) {
		if c.Expired() {
			c.Cap("budget")
			return
		}
		run(ts[i])
	})
	groups := map[string]int{}
	for _, t := range ts {
		groups[t.name]++
	}
	c.Info("cases", groups)
	for _, i := range []int{17, len(ts) / 2, len(ts) - 1} {
		c.Sample(ts[i].String())
	}
	c.Info("rule", "every listed set of market coins x amount x direction, fee coin set, state (fine, locked, unconfirmed) of four coins, and shape of the trader's half (inputs, outputs, keys, also malformed); sequences of three (thorough: four) proposals, completed or left open; non-trivial: a transaction was accepted and judged")
	c.Assume("prices are taken as agreed (the slippage allowed is huge): pricing is C05's subject")
	c.Finish()
}
