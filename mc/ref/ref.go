// Package ref is exact arithmetic for the pricing properties: every value is
// given as the range allowed by the rounding of the price ratio.
package ref

import (
	"math"
	"math/big"
)

func U(x uint64) *big.Int { return new(big.Int).SetUint64(x) }

func Rat(n, d *big.Int) *big.Rat { return new(big.Rat).SetFrac(n, d) }

// Floor of a rational.
func Floor(r *big.Rat) *big.Int {
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(r.Num(), r.Denom(), m)
	return q
}

// Eps is half of the last of the eight decimals of the price ratio.
var Eps = Rat(big.NewInt(1), big.NewInt(200000000))

// Max is the largest amount that can be returned.
var Max = big.NewInt(math.MaxInt64)

// Less takes a fee in basis points off, rounding down.
func Less(a *big.Int, fee uint64) *big.Int {
	n := new(big.Int).Mul(a, U(10000-fee))
	return n.Div(n, U(10000))
}

// Plus adds a fee in basis points, rounding down.
func Plus(a *big.Int, fee uint64) *big.Int {
	n := new(big.Int).Mul(a, U(10000+fee))
	return n.Div(n, U(10000))
}

// Out is the range of what amount a brings in; mustErr: it must be refused.
func Out(bi, bo, a, fee uint64, in bool) (lo, hi *big.Int, mustErr bool) {
	if bi == 0 || bo == 0 || a == 0 || a > math.MaxInt64 {
		return nil, nil, true
	}
	amt := U(a)
	if in {
		amt = Less(amt, fee)
	}
	if amt.Sign() == 0 {
		return nil, nil, true
	}
	ratio := Rat(amt, new(big.Int).Add(U(bi), amt))
	bor := new(big.Rat).SetInt(U(bo))
	lo = Floor(new(big.Rat).Mul(bor, new(big.Rat).Sub(ratio, Eps)))
	hi = Floor(new(big.Rat).Mul(bor, new(big.Rat).Add(ratio, Eps)))
	if lo.Sign() < 0 {
		lo.SetInt64(0)
	}
	if hi.Cmp(U(bo)) > 0 {
		hi = U(bo)
	}
	if !in {
		lo, hi = Less(lo, fee), Less(hi, fee)
	}
	return lo, hi, hi.Sign() == 0
}

// In is the range of what amount a costs.
func In(bi, bo, a, fee uint64, in bool) (lo, hi *big.Int, mustErr bool) {
	if bi == 0 || bo == 0 || a == 0 || a >= bo {
		return nil, nil, true
	}
	amt := U(a)
	if !in {
		amt = Plus(amt, fee)
	}
	if amt.Sign() == 0 || amt.Cmp(U(bo)) >= 0 {
		return nil, nil, true
	}
	ratio := Rat(amt, new(big.Int).Sub(U(bo), amt))
	bir := new(big.Rat).SetInt(U(bi))
	lo = Floor(new(big.Rat).Mul(bir, new(big.Rat).Sub(ratio, Eps)))
	hi = Floor(new(big.Rat).Mul(bir, new(big.Rat).Add(ratio, Eps)))
	if lo.Sign() < 0 {
		lo.SetInt64(0)
	}
	if in {
		lo, hi = Plus(lo, fee), Plus(hi, fee)
	}
	return lo, hi, hi.Sign() == 0 || lo.Cmp(Max) > 0
}
