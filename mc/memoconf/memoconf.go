// Package memoconf is package confidential of go-elements with the (slow, pure)
// unblinding of outputs remembered.
package memoconf

import (
	"crypto/sha256"
	"encoding/binary"
	"sync"

	"github.com/vulpemventures/go-elements/confidential"
	"github.com/vulpemventures/go-elements/transaction"
)

type (
	UnblindOutputResult          = confidential.UnblindOutputResult
	UnblindIssuanceResult        = confidential.UnblindIssuanceResult
	FinalValueBlindingFactorArgs = confidential.FinalValueBlindingFactorArgs
	RangeProofArgs               = confidential.RangeProofArgs
	SurjectionProofArgs          = confidential.SurjectionProofArgs
	VerifySurjectionProofArgs    = confidential.VerifySurjectionProofArgs
)

var (
	NonceHash                = confidential.NonceHash
	UnblindIssuance          = confidential.UnblindIssuance
	FinalValueBlindingFactor = confidential.FinalValueBlindingFactor
	AssetCommitment          = confidential.AssetCommitment
	ValueCommitment          = confidential.ValueCommitment
	RangeProof               = confidential.RangeProof
	SurjectionProof          = confidential.SurjectionProof
	VerifySurjectionProof    = confidential.VerifySurjectionProof
)

type result struct {
	r   *UnblindOutputResult
	err error
}

var (
	mu   sync.Mutex
	seen = map[[32]byte]result{}
)

func remember(kind byte, out *transaction.TxOutput, key []byte, f func() (*UnblindOutputResult, error)) (*UnblindOutputResult, error) {
	h := sha256.New()
	h.Write([]byte{kind})
	for _, b := range [][]byte{out.Asset, out.Value, out.Nonce, out.Script, out.RangeProof, key} {
		var n [5]byte
		binary.BigEndian.PutUint32(n[:], uint32(len(b)))
		if b == nil {
			n[4] = 1
		}
		h.Write(n[:])
		h.Write(b)
	}
	var k [32]byte
	h.Sum(k[:0])
	mu.Lock()
	r, ok := seen[k]
	mu.Unlock()
	if !ok {
		r.r, r.err = f()
		mu.Lock()
		if len(seen) > 1<<16 {
			seen = map[[32]byte]result{}
		}
		seen[k] = r
		mu.Unlock()
	}
	if r.r == nil {
		return nil, r.err
	}
	c := *r.r
	cp := func(b []byte) []byte { return append([]byte{}, b...) }
	c.Asset, c.ValueBlindingFactor, c.AssetBlindingFactor = cp(c.Asset), cp(c.ValueBlindingFactor), cp(c.AssetBlindingFactor)
	return &c, r.err
}

// UnblindOutputWithKey is a pure function of its arguments.
func UnblindOutputWithKey(out *transaction.TxOutput, blindKey []byte) (*UnblindOutputResult, error) {
	return remember('k', out, blindKey, func() (*UnblindOutputResult, error) { return confidential.UnblindOutputWithKey(out, blindKey) })
}

// UnblindOutputWithNonce is a pure function of its arguments.
func UnblindOutputWithNonce(out *transaction.TxOutput, nonce []byte) (*UnblindOutputResult, error) {
	return remember('n', out, nonce, func() (*UnblindOutputResult, error) { return confidential.UnblindOutputWithNonce(out, nonce) })
}
