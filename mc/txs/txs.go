// Package txs builds Elements transactions with known contents: explicit and
// confidential outputs, psets, keys and signatures.
package txs

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"sync"

	"github.com/btcsuite/btcd/btcec"
	"github.com/btcsuite/btcd/txscript"
	"github.com/btcsuite/btcutil"
	"github.com/vulpemventures/go-elements/confidential"
	"github.com/vulpemventures/go-elements/elementsutil"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/go-secp256k1-zkp"
)

// Asset is the hex id of asset i (as displayed).
func Asset(i int) string { return hex.EncodeToString(bytes.Repeat([]byte{byte(0x10 + i)}, 32)) }

// Key is a private key made of a name.
func Key(name string) *btcec.PrivateKey {
	h := sha256.Sum256([]byte("key " + name))
	k, _ := btcec.PrivKeyFromBytes(btcec.S256(), h[:])
	return k
}

// Script is the p2wpkh script of the key of that name.
func Script(name string) []byte {
	return append([]byte{0, 20}, btcutil.Hash160(Key(name).PubKey().SerializeCompressed())...)
}

// ScriptHex is Script in hex.
func ScriptHex(name string) string { return hex.EncodeToString(Script(name)) }

// Blind is the private blinding key of the script of that name.
func Blind(name string) []byte { h := sha256.Sum256([]byte("blind " + name)); return h[:] }

func assetBytes(asset string) []byte {
	b, err := hex.DecodeString(asset)
	if err != nil || len(b) != 32 {
		panic("asset " + asset)
	}
	return elementsutil.ReverseBytes(b)
}

// Value is the explicit value.
func Value(v uint64) []byte {
	b := make([]byte, 9)
	b[0] = 1
	binary.BigEndian.PutUint64(b[1:], v)
	return b
}

// Out is an explicit output.
func Out(asset string, v uint64, script []byte) *transaction.TxOutput {
	return transaction.NewTxOutput(append([]byte{1}, assetBytes(asset)...), Value(v), script)
}

// Fee is a fee output.
func Fee(asset string, v uint64) *transaction.TxOutput { return Out(asset, v, []byte{}) }

var (
	mu    sync.Mutex
	cache = map[string]*transaction.TxOutput{}
)

// Secrets are the blinding factors used for an output.
func Secrets(asset string, v uint64, script, blind []byte) (abf, vbf []byte) {
	a := sha256.Sum256([]byte(fmt.Sprintf("abf %s %d %x %x", asset, v, script, blind)))
	b := sha256.Sum256([]byte(fmt.Sprintf("vbf %s %d %x %x", asset, v, script, blind)))
	return a[:], b[:]
}

// Conf is a confidential output that blind opens.
func Conf(asset string, v uint64, script, blind []byte) *transaction.TxOutput {
	id := fmt.Sprintf("%s %d %x %x", asset, v, script, blind)
	mu.Lock()
	defer mu.Unlock()
	o := cache[id]
	if o == nil {
		o = conf(asset, asset, v, script, blind)
		cache[id] = o
	}
	cp := *o
	return &cp
}

// False is a confidential output that commits to an asset, while what blind reads
// in it names another.
func False(asset, real string, v uint64, script, blind []byte) *transaction.TxOutput {
	return conf(asset, real, v, script, blind)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func conf(asset, real string, v uint64, script, blind []byte) *transaction.TxOutput {
	ab := assetBytes(real)
	abf, vbf := Secrets(asset, v, script, blind)
	ac, err := confidential.AssetCommitment(ab, abf)
	must(err)
	vc, err := confidential.ValueCommitment(v, ac, vbf)
	must(err)
	eph := Key("ephemeral " + asset + fmt.Sprint(v))
	_, bp := btcec.PrivKeyFromBytes(btcec.S256(), blind)
	nonce, err := confidential.NonceHash(bp.SerializeCompressed(), eph.Serialize())
	must(err)
	var vb [32]byte
	copy(vb[:], vbf)
	ctx, _ := secp256k1.ContextCreate(secp256k1.ContextBoth)
	defer secp256k1.ContextDestroy(ctx)
	gen, err := secp256k1.GeneratorFromBytes(ac)
	must(err)
	commit, err := secp256k1.CommitmentParse(ctx, vc)
	must(err)
	rp, err := secp256k1.RangeProofSign(ctx, 1, commit, vb, nonce, 0, 52, v, append(append([]byte{}, assetBytes(asset)...), abf...), script, gen)
	must(err)
	sp, ok := confidential.SurjectionProof(confidential.SurjectionProofArgs{OutputAsset: ab, OutputAssetBlindingFactor: abf, InputAssets: [][]byte{ab}, InputAssetBlindingFactors: [][]byte{make([]byte, 32)}, Seed: bytes.Repeat([]byte{7}, 32)})
	if !ok {
		panic("surjection proof")
	}
	o := transaction.NewTxOutput(ac, vc, script)
	o.Nonce = eph.PubKey().SerializeCompressed()
	o.RangeProof = rp
	o.SurjectionProof = sp
	return o
}

// In is a transaction input and what it spends.
type In struct {
	Hash  byte // of the spent transaction, repeated
	Index uint32
	Prev  *transaction.TxOutput // witness utxo
	Non   *transaction.Transaction
}

// Pset makes an unsigned partial transaction.
func Pset(ins []In, outs []*transaction.TxOutput) *pset.Pset {
	ti := []*transaction.TxInput{}
	for _, i := range ins {
		h := bytes.Repeat([]byte{i.Hash}, 32)
		if i.Non != nil {
			x := i.Non.TxHash()
			h = x[:]
		}
		ti = append(ti, transaction.NewTxInput(h, i.Index))
	}
	to := []*transaction.TxOutput{}
	for _, o := range outs {
		cp := *o
		to = append(to, &cp)
	}
	p, err := pset.New(ti, to, 2, 0)
	must(err)
	for i, in := range ins {
		if in.Prev != nil {
			cp := *in.Prev
			p.Inputs[i].WitnessUtxo = &cp
		}
		if in.Non != nil {
			p.Inputs[i].NonWitnessUtxo = in.Non
		}
	}
	return p
}

// B64 prints a pset.
func B64(p *pset.Pset) string {
	s, err := p.ToBase64()
	must(err)
	return s
}

// Parse reads a pset.
func Parse(s string) *pset.Pset {
	p, err := pset.NewPsetFromBase64(s)
	must(err)
	return p
}

// Sign signs input i with the key of that name (p2wpkh).
func Sign(p *pset.Pset, i int, name string) {
	k := Key(name)
	pub := k.PubKey().SerializeCompressed()
	code := append(append([]byte{0x76, 0xa9, 20}, btcutil.Hash160(pub)...), 0x88, 0xac)
	h := p.UnsignedTx.HashForWitnessV0(i, code, p.Inputs[i].WitnessUtxo.Value, txscript.SigHashAll)
	sg, err := k.Sign(h[:])
	must(err)
	u, err := pset.NewUpdater(p)
	must(err)
	_, err = u.Sign(i, append(sg.Serialize(), byte(txscript.SigHashAll)), pub, nil, nil)
	must(err)
}

// Final finalises all inputs and returns the transaction.
func Final(p *pset.Pset) *transaction.Transaction {
	q := Parse(B64(p))
	must(pset.FinalizeAll(q))
	tx, err := pset.Extract(q)
	must(err)
	return tx
}

// Hex prints a transaction.
func Hex(tx *transaction.Transaction) string {
	s, err := tx.ToHex()
	must(err)
	return s
}

// Open reads an output, explicit or (with the key) confidential.
func Open(o *transaction.TxOutput, blind []byte) (asset string, v uint64, ok bool) {
	if o.IsConfidential() {
		if len(o.RangeProof) == 0 || len(o.Nonce) != 33 {
			return "", 0, false
		}
		r, err := confidential.UnblindOutputWithKey(o, blind)
		if err != nil {
			return "", 0, false
		}
		ac, err := confidential.AssetCommitment(r.Asset, r.AssetBlindingFactor)
		if err != nil || !bytes.Equal(ac, o.Asset) {
			return "", 0, false
		}
		return hex.EncodeToString(elementsutil.ReverseBytes(r.Asset)), r.Value, true
	}
	if len(o.Value) != 9 || len(o.Asset) != 33 {
		return "", 0, false
	}
	return hex.EncodeToString(elementsutil.ReverseBytes(o.Asset[1:])), binary.BigEndian.Uint64(o.Value[1:]), true
}
