// Package onchain puts the daemon next to a chain of real coins: explicit or
// blinded, locked, unconfirmed, spent by the transactions it makes; and reads
// those transactions back, output by output.
package onchain

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"

	"github.com/btcsuite/btcd/btcec"
	"github.com/btcsuite/btcd/txscript"
	"github.com/google/uuid"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
	"github.com/tdex-network/tdex-daemon/verif/txs"
	"github.com/tdex-network/tdex-daemon/verif/world"
	"github.com/vulpemventures/go-elements/confidential"
	"github.com/vulpemventures/go-elements/elementsutil"
	"github.com/vulpemventures/go-elements/payment"
	"github.com/vulpemventures/go-elements/transaction"
)

var ctx = context.Background()

// Coin of the set-up; Conf = blinded, State 0 fine, 'l' locked, 'u' unconfirmed.
type Coin struct {
	Acct  int
	Asset string
	V     uint64
	Conf  bool
	State byte
}

func (k Coin) String() string {
	s := fmt.Sprintf("%s:%s=%d", AcctName(k.Acct), world.Fmt(k.Asset), k.V)
	if k.Conf {
		s += "c"
	}
	if k.State != 0 {
		s += string(k.State)
	}
	return s
}

// Names prints coins.
func Names(ks []Coin) string {
	s := []string{}
	for _, k := range ks {
		s = append(s, k.String())
	}
	return strings.Join(s, " ")
}

// AcctName prints an account.
func AcctName(a int) string {
	switch a {
	case domain.FeeAccount:
		return "fee"
	case domain.WalletAccount:
		return "wallet"
	}
	return fmt.Sprintf("market%d", a-domain.MarketAccountStart)
}

// Cs makes coins: an int is a blinded one, a string an explicit one.
func Cs(acct int, asset string, vs ...interface{}) []Coin {
	var out []Coin
	for _, v := range vs {
		switch x := v.(type) {
		case int:
			out = append(out, Coin{Acct: acct, Asset: asset, V: uint64(x), Conf: true})
		case string:
			var n uint64
			fmt.Sscan(x, &n)
			out = append(out, Coin{Acct: acct, Asset: asset, V: n})
		}
	}
	return out
}

// Join concatenates.
func Join(ks ...[]Coin) []Coin {
	var out []Coin
	for _, k := range ks {
		out = append(out, k...)
	}
	return out
}

// Outpoint of a coin.
type Outpoint struct {
	Tx string
	N  uint32
}

// Prev is what an input spends.
func Prev(in *transaction.TxInput) Outpoint {
	return Outpoint{hex.EncodeToString(elementsutil.ReverseBytes(in.Hash)), in.Index}
}

// Own is an output on the chain that belongs to the wallet.
type Own struct {
	Coin
	Out      *transaction.TxOutput
	Abf, Vbf []byte
	Addr     string
	Spent    bool
	Pending  bool // made by a transaction that is not confirmed yet
}

// Usable tells whether the daemon may spend it for its market or for fees.
func (k *Own) Usable() bool { return !k.Spent && k.State == 0 && !k.Pending }

// Daemon with a chain.
type Daemon struct {
	*world.World
	mu    sync.Mutex
	Chain map[Outpoint]*Own
}

func (d *Daemon) utxo(p Outpoint, o *Own) explorer.Utxo {
	conf := o.State != 'u' && !o.Pending
	if !o.Coin.Conf {
		return esplora.NewWitnessUtxo(p.Tx, p.N, o.V, o.Asset, "", "", nil, nil, o.Out.Script, nil, nil, nil, conf)
	}
	return esplora.NewWitnessUtxo(p.Tx, p.N, o.V, o.Asset, hex.EncodeToString(o.Out.Value), hex.EncodeToString(o.Out.Asset), o.Vbf, o.Abf, o.Out.Script, o.Out.Nonce, o.Out.RangeProof, o.Out.SurjectionProof, conf)
}

func (d *Daemon) utxos(addrs []string) []explorer.Utxo {
	d.mu.Lock()
	defer d.mu.Unlock()
	var ps []Outpoint
	for p, o := range d.Chain {
		for _, a := range addrs {
			if o.Addr == a && !o.Spent {
				ps = append(ps, p)
				break
			}
		}
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].Tx < ps[j].Tx || ps[i].Tx == ps[j].Tx && ps[i].N < ps[j].N })
	us := []explorer.Utxo{}
	for _, p := range ps {
		us = append(us, d.utxo(p, d.Chain[p]))
	}
	return us
}

// Start a daemon that owns the coins and knows them.
func Start(coins []Coin, o world.Opts) *Daemon {
	if o.Markets == 0 {
		o.Markets = 2
	}
	o.WithOps = true
	w := world.New(o)
	world.Real()
	d := &Daemon{World: w, Chain: map[Outpoint]*Own{}}
	w.Explorer.Utxos = d.utxos
	for i, k := range coins {
		in := w.Addr[k.Acct][i%len(w.Addr[k.Acct])]
		script, _ := hex.DecodeString(in.Script)
		oc := &Own{Coin: k, Addr: in.Address}
		if k.Conf {
			oc.Out = txs.Conf(k.Asset, k.V, script, in.BlindingKey)
			oc.Abf, oc.Vbf = txs.Secrets(k.Asset, k.V, script, in.BlindingKey)
		} else {
			oc.Out = txs.Out(k.Asset, k.V, script)
			oc.Abf, oc.Vbf = make([]byte, 32), make([]byte, 32)
		}
		h := sha256.Sum256([]byte(fmt.Sprintf("funding %d", i/3)))
		d.Chain[Outpoint{hex.EncodeToString(h[:]), uint32(i % 3)}] = oc
	}
	if err := w.Operator.ReloadUtxos(ctx); err != nil {
		panic(err)
	}
	var ks []domain.UnspentKey
	for p, oc := range d.Chain {
		if oc.State == 'l' {
			ks = append(ks, domain.UnspentKey{TxID: p.Tx, VOut: p.N})
		}
	}
	if len(ks) > 0 {
		if n, err := w.Repo.UnspentRepository().LockUnspents(ctx, ks, uuid.New()); err != nil || n != len(ks) {
			panic(fmt.Sprint(n, err))
		}
	}
	return d
}

// State is what a refusal must leave alone.
func (d *Daemon) State() string {
	s := []string{}
	for k, u := range d.Unspents() {
		s = append(s, fmt.Sprint(k.TxID, k.VOut, u.Spent, u.Locked, u.Confirmed, u.Value))
	}
	sort.Strings(s)
	return strings.Join(s, ";") + " | " + strings.Join(d.Explorer.Broadcasted(), ",")
}

// Opened is an output made readable.
type Opened struct {
	Asset    string
	V        uint64
	Abf, Vbf []byte
}

// Open reads an output, explicit or blinded.
func Open(o *transaction.TxOutput, key []byte) (Opened, bool) {
	if !o.IsConfidential() {
		a, v, ok := txs.Open(o, nil)
		return Opened{a, v, make([]byte, 32), make([]byte, 32)}, ok
	}
	if len(o.RangeProof) == 0 || len(o.SurjectionProof) == 0 {
		return Opened{}, false
	}
	r, err := confidential.UnblindOutputWithKey(o, key)
	if err != nil {
		return Opened{}, false
	}
	return Opened{hex.EncodeToString(elementsutil.ReverseBytes(r.Asset)), r.Value, r.AssetBlindingFactor, r.ValueBlindingFactor}, true
}

// Blind adds up blinding factors: a transaction balances if they cancel out.
type Blind struct{ n big.Int }

// Add an input (sign 1) or an output (sign -1).
func (b *Blind) Add(o Opened, sign int64) {
	x := new(big.Int).Mul(new(big.Int).SetUint64(o.V), new(big.Int).SetBytes(o.Abf))
	x.Add(x, new(big.Int).SetBytes(o.Vbf))
	b.n.Add(&b.n, x.Mul(x, big.NewInt(sign)))
}

// Balanced tells whether they do.
func (b *Blind) Balanced() bool {
	return new(big.Int).Mod(&b.n, btcec.S256().N).Sign() == 0
}

// Owned addresses of the stored vault, by script.
func (d *Daemon) Owned() map[string]domain.AddressInfo {
	v, err := d.Repo.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
	if err != nil {
		panic(err)
	}
	m := map[string]domain.AddressInfo{}
	for _, a := range v.AllDerivedAddressesInfo() {
		m[a.Script] = a
	}
	for a := range v.Accounts {
		l, err := v.AllDerivedAddressesInfoForAccount(a)
		if err != nil {
			continue
		}
		for _, in := range l {
			m[in.Script] = in
		}
	}
	return m
}

// Signed checks the signature (of a p2wpkh output) in a witness or a partial
// signature of input i.
func Signed(tx *transaction.Transaction, i int, out *transaction.TxOutput, sig, pubkey []byte) (string, string) {
	if len(sig) < 9 {
		return "unsigned", fmt.Sprintf("input %d is not signed", i)
	}
	pub, err := btcec.ParsePubKey(pubkey, btcec.S256())
	if err != nil {
		return "unsigned", fmt.Sprintf("input %d: %v", i, err)
	}
	pm := payment.FromPublicKey(pub, world.Net, nil)
	if !bytes.Equal(pm.WitnessScript, out.Script) {
		return "unsigned", fmt.Sprintf("input %d is signed with another key", i)
	}
	code := append(append([]byte{0x76, 0xa9, 20}, out.Script[2:]...), 0x88, 0xac)
	h := tx.HashForWitnessV0(i, code, out.Value, txscript.SigHashAll)
	sg, err := btcec.ParseDERSignature(sig[:len(sig)-1], btcec.S256())
	if err != nil || sig[len(sig)-1] != byte(txscript.SigHashAll) || !sg.Verify(h[:], pub) {
		return "bad-signature", fmt.Sprintf("the signature of input %d is not valid", i)
	}
	return "", ""
}

// Settle records a broadcast transaction on the chain.
func (d *Daemon) Settle(raw []byte) {
	tx, err := transaction.NewTxFromHex(hex.EncodeToString(raw))
	if err != nil {
		return
	}
	owned := d.Owned()
	id := tx.TxHash().String()
	d.mu.Lock()
	defer d.mu.Unlock()
	for _, in := range tx.Inputs {
		if k, ok := d.Chain[Prev(in)]; ok {
			k.Spent = true
		}
	}
	for i, o := range tx.Outputs {
		in, ok := owned[hex.EncodeToString(o.Script)]
		if !ok || len(o.Script) == 0 {
			continue
		}
		x, ok := Open(o, in.BlindingKey)
		if !ok {
			continue
		}
		d.Chain[Outpoint{id, uint32(i)}] = &Own{Coin: Coin{Acct: in.AccountIndex, Asset: x.Asset, V: x.V, Conf: true}, Out: o, Abf: x.Abf, Vbf: x.Vbf, Addr: in.Address, Pending: true}
	}
}

// Books compares the stored coins of markets and fees with the chain.
func (d *Daemon) Books() (sig, msg string) {
	us := d.Unspents()
	for p, k := range d.Chain {
		if k.Acct == domain.WalletAccount {
			continue
		}
		u, ok := us[domain.UnspentKey{TxID: p.Tx, VOut: p.N}]
		if !ok {
			return "coin-forgotten", fmt.Sprintf("the daemon does not know its %s", k)
		}
		if u.Spent != k.Spent {
			return "spent-flag", fmt.Sprintf("%s: spent %v, recorded as spent %v", k, k.Spent, u.Spent)
		}
		if u.Value != k.V || u.AssetHash != k.Asset {
			return "coin-differs", fmt.Sprintf("%s is recorded as %d %s", k, u.Value, world.Fmt(u.AssetHash))
		}
		if k.Pending && u.Confirmed {
			return "early-confirmation", fmt.Sprintf("%s, not confirmed yet, is recorded as confirmed", k)
		}
	}
	return "", ""
}
