// C06: every combination of reserves, amount, fee and fee side in a dense small
// box and in a grid up to the supply, on the real formula, against exact
// rational arithmetic.
package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	mm "github.com/tdex-network/tdex-daemon/pkg/marketmaking"
	"github.com/tdex-network/tdex-daemon/pkg/marketmaking/formula"
	"github.com/tdex-network/tdex-daemon/pkg/mathutil"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/tdex-network/tdex-daemon/verif/ref"
)

var c *hx.Check
var strat = mm.NewStrategyFromFormula(formula.BalancedReserves{}).Formula()

var (
	u      = ref.U
	rat    = ref.Rat
	eps    = ref.Eps
	maxI   = ref.Max
	less   = ref.Less
	plus   = ref.Plus
	refOut = ref.Out
	refIn  = ref.In
)

type cell struct {
	n, nerr, nval, rounds int
}

func class(v uint64) string {
	switch {
	case v == 0:
		return "0"
	case v < 100:
		return "tiny"
	case v < 1000000000000:
		return "mid"
	case v <= math.MaxInt64:
		return "big"
	}
	return "overflow"
}

type fcall func(bi, bo, a, fee uint64, in bool) (uint64, error)

func out(bi, bo, a, fee uint64, in bool) (uint64, error) {
	return strat.OutGivenIn(formula.BalancedReservesOpts{BalanceIn: bi, BalanceOut: bo, Fee: fee, ChargeFeeOnTheWayIn: in}, a)
}
func inn(bi, bo, a, fee uint64, in bool) (uint64, error) {
	return strat.InGivenOut(formula.BalancedReservesOpts{BalanceIn: bi, BalanceOut: bo, Fee: fee, ChargeFeeOnTheWayIn: in}, a)
}

func series(st *cell, bi, bo, fee uint64, in bool, amounts []uint64) {
	type fn struct {
		name string
		call fcall
		ref  func(bi, bo, a, fee uint64, in bool) (*big.Int, *big.Int, bool)
	}
	for _, f := range []fn{{"OutGivenIn", out, refOut}, {"InGivenOut", inn, refIn}} {
		var prev uint64
		var preva uint64
		for _, a := range amounts {
			var v uint64
			var err error
			id := fmt.Sprintf("%s(BalanceIn=%d BalanceOut=%d Fee=%d ChargeFeeOnTheWayIn=%v, %d)", f.name, bi, bo, fee, in, a)
			rep := map[string]interface{}{"f": f.name, "bi": bi, "bo": bo, "fee": fee, "in": in, "amount": a}
			sig := func(k string) string { return f.name + "-" + k + "-" + class(bi) + "-" + class(bo) + "-" + class(a) }
			st.n++
			p, stk := hx.Catch(func() { v, err = f.call(bi, bo, a, fee, in) })
			if p != nil {
				c.Fail(sig("panic"), fmt.Sprintf("%s panics: %v\n%s", id, p, stk), rep)
				continue
			}
			lo, hi, mustErr := f.ref(bi, bo, a, fee, in)
			if err != nil {
				st.nerr++
				if v != 0 {
					c.Fail(sig("error-value"), fmt.Sprintf("%s returns %d together with the error %v", id, v, err), rep)
				}
				if !mustErr && lo.Sign() > 0 && hi.Cmp(maxI) <= 0 {
					c.Fail(sig("refused"), fmt.Sprintf("%s is refused (%v), expected between %v and %v", id, err, lo, hi), rep)
				}
				continue
			}
			st.nval++
			switch {
			case mustErr:
				c.Fail(sig("not-refused"), fmt.Sprintf("%s returns %d where only an error is possible", id, v), rep)
			case v == 0:
				c.Fail(sig("zero"), id+" returns 0 without error", rep)
			case u(v).Cmp(lo) < 0 || u(v).Cmp(hi) > 0:
				c.Fail(sig("value"), fmt.Sprintf("%s returns %d, expected between %v and %v", id, v, lo, hi), rep)
			case v < prev:
				c.Fail(sig("monotone"), fmt.Sprintf("%s returns %d but %d for the smaller amount %d", id, v, prev, preva), rep)
			case f.name == "OutGivenIn" && v > bo:
				c.Fail(sig("reserve"), fmt.Sprintf("%s returns %d, more than the reserve", id, v), rep)
			}
			prev, preva = v, a
			if f.name == "OutGivenIn" && v < bo && a < math.MaxInt64-bi {
				round(st, bi, bo, fee, in, a, v, rep, sig)
			}
		}
	}
}

// round quotes the trade (a in, v out), applies it to the reserves and trades back.
func round(st *cell, bi, bo, fee uint64, in bool, a, v uint64, rep interface{}, sig func(string) string) {
	st.rounds++
	// there and back through the moved reserves
	back, err := out(bo-v, bi+a, v, fee, in)
	if err == nil && back > a {
		// rounding: the first leg can be generous by bo*eps, the second by (bi+a)*eps
		d1 := new(big.Rat).Mul(new(big.Rat).SetInt(u(bo)), eps)
		d2 := new(big.Rat).Mul(new(big.Rat).SetInt(u(bi+a)), eps)
		price := rat(u(bi+a), u(bo-v))
		tol := new(big.Rat).Add(d2, new(big.Rat).Mul(new(big.Rat).Add(d1, big.NewRat(1, 1)), price))
		if new(big.Rat).SetInt(u(back-a)).Cmp(tol) > 0 {
			c.Fail(sig("roundtrip"), fmt.Sprintf("with reserves %d/%d (fee %d, on the way in: %v) %d gives %d, which sold back gives %d", bi, bo, fee, in, a, v, back), rep)
		}
	}
	// the other side's quote for what was obtained
	need, err := inn(bi, bo, v, fee, in)
	if err == nil {
		// v units cost at most a, beyond the fee asymmetry and the rounding; the cost is never
		// lower than what the next lower amount would have bought
		d := new(big.Rat).Mul(new(big.Rat).SetInt(u(bi)), eps)
		tol := new(big.Rat).Add(d, big.NewRat(2, 1))
		exact := new(big.Rat).Mul(new(big.Rat).SetInt(u(bi)), rat(u(v), u(bo-v)))
		low := new(big.Rat).Sub(exact, tol)
		if new(big.Rat).SetInt(u(need)).Cmp(low) < 0 {
			c.Fail(sig("opposite"), fmt.Sprintf("with reserves %d/%d (fee %d) %d of the reserve cost %d, the curve says %s", bi, bo, fee, v, need, exact.FloatString(3)), rep)
		}
	}
}

func uniq(v []uint64) []uint64 {
	sort.Slice(v, func(i, j int) bool { return v[i] < v[j] })
	o := v[:0]
	for i, x := range v {
		if i == 0 || x != o[len(o)-1] {
			o = append(o, x)
		}
	}
	return o
}

func main() {
	c = hx.New("C06", "exploration")
	dense, damt := uint64(36), uint64(40)
	if c.Thorough() {
		dense, damt = 64, 72
	}
	fees := []uint64{0, 1, 25, 100, 5000, 9999}
	type job struct {
		bi, bo  uint64
		amounts []uint64
		big     bool
	}
	jobs := []job{}
	da := []uint64{}
	for a := uint64(0); a <= damt; a++ {
		da = append(da, a)
	}
	for bi := uint64(0); bi <= dense; bi++ {
		for bo := uint64(0); bo <= dense; bo++ {
			jobs = append(jobs, job{bi, bo, da, false})
		}
	}
	grid := []uint64{1, 2, 3, 99, 10000, 10001, 99999999, 100000000, 100000001, 650000000000, 1e14 + 7, 2100000000000000}
	if c.Thorough() {
		grid = append(grid, 4, 7, 101, 9999, 999999, 1000000, 33333333, 987654321, 5000000000, 123456789012, 77777777777777, 2099999999999999)
	}
	near := func(x uint64) []uint64 { return []uint64{x - 1, x, x + 1} }
	for _, bi := range grid {
		for _, bo := range grid {
			am := []uint64{0, 1, 2, 3, 7, 100, 10000, 50000, 1 << 40, math.MaxInt64 - 1, math.MaxInt64, 1 << 63, 1<<63 + 1, math.MaxUint64 - 1, math.MaxUint64, -bi, -bi + 1, -bi - 1, -bo}
			for _, b := range []uint64{bi, bo} {
				am = append(am, near(b)...)
				am = append(am, b/2, b/2+1, b/3, b/1000, b/10000+1, 2*b, 10*b, b-b/10, b-b/1000, b-b/100000, b-2)
			}
			am = uniq(am)
			jobs = append(jobs, job{bi, bo, am, true})
		}
	}
	c.Par(len(jobs), func(i int) {
		j := jobs[i]
		st := &cell{}
		for _, fee := range fees {
			for _, in := range []bool{true, false} {
				series(st, j.bi, j.bo, fee, in, j.amounts)
			}
		}
		spot(j.bi, j.bo)
		c.Count("evaluations", st.n)
		c.Count("distinct_nontrivial", st.nval)
		c.Count("refusals", st.nerr)
		c.Count("round_trips", st.rounds)
	})
	feeTables(dense)
	misuse()
	c.Info("rule", fmt.Sprintf("all reserves 0..%d x amounts 0..%d x 6 fees x both fee sides x both directions, plus %d reserves squared up to 2.1e15 with amounts at every boundary of the 64-bit range", dense, damt, len(grid)))
	c.Sample(map[string]interface{}{"bi": 100000000, "bo": 650000000000, "fee": 25, "amount": 10000})
	c.Assume("reserves do not exceed 2.1e15 (the supply of one asset); the rounding allowed is that of the price ratio to eight decimals")
	c.Finish()
}

func spot(bi, bo uint64) {
	for _, k := range [][2]uint64{{bi, bo}, {bo, bi}} {
		p, err := strat.SpotPrice(formula.BalancedReservesOpts{BalanceIn: k[0], BalanceOut: k[1]})
		c.Count("spot_prices", 1)
		if k[0] == 0 || k[1] == 0 {
			if err == nil {
				c.Fail("spot-empty", fmt.Sprintf("spot price of reserves %v is %v", k, p), k)
			}
			continue
		}
		if err != nil {
			c.Fail("spot-error", fmt.Sprintf("spot price of reserves %v: %v", k, err), k)
			continue
		}
		// each reserve is divided by its weight and rounded to eight decimals first
		got := p.Rat()
		want := rat(u(k[1]), u(k[0]))
		tol := rat(big.NewInt(1), big.NewInt(100000000))
		// relative error of the two rounded operands
		r1 := new(big.Rat).Mul(want, rat(big.NewInt(50), new(big.Int).Mul(u(k[0]), big.NewInt(200000000))))
		r2 := rat(big.NewInt(50), new(big.Int).Mul(u(k[0]), big.NewInt(200000000)))
		tol.Add(tol, r1).Add(tol, r1).Add(tol, r2).Add(tol, r2)
		d := new(big.Rat).Sub(got, want)
		if d.Abs(d).Cmp(tol) > 0 {
			c.Fail("spot-"+class(k[0])+"-"+class(k[1]), fmt.Sprintf("spot price of reserves %v is %v, the ratio is %s", k, p, want.FloatString(10)), k)
		}
	}
}

// feeTables checks the percentage helpers against integer arithmetic.
func feeTables(dense uint64) {
	am := []uint64{}
	for a := uint64(0); a <= 400; a++ {
		am = append(am, a)
	}
	am = append(am, 9999, 10000, 10001, 123456789, 99999999999, 2100000000000000, math.MaxInt64-1, math.MaxInt64)
	c.Par(10000, func(i int) {
		f := uint64(i)
		if i > 300 && i%37 != 0 && i != 9999 {
			return
		}
		for _, a := range am {
			l, lf := mathutil.LessFee(a, f)
			if u(l).Cmp(less(u(a), f)) != 0 || u(lf).Cmp(new(big.Int).Div(new(big.Int).Mul(u(a), u(f)), u(10000))) != 0 {
				c.Fail("LessFee", fmt.Sprintf("LessFee(%d, %d) = %d, %d", a, f, l, lf), []uint64{a, f})
			}
			if plus(u(a), f).Cmp(maxI) <= 0 {
				p, pf := mathutil.PlusFee(a, f)
				if u(p).Cmp(plus(u(a), f)) != 0 || u(pf).Cmp(new(big.Int).Div(new(big.Int).Mul(u(a), u(f)), u(10000))) != 0 {
					c.Fail("PlusFee", fmt.Sprintf("PlusFee(%d, %d) = %d, %d", a, f, p, pf), []uint64{a, f})
				}
			}
		}
		c.Count("evaluations", 2*len(am))
		c.Count("fee_values", 1)
	})
}

func misuse() {
	for n, f := range map[string]func() error{
		"OutGivenIn": func() error { _, e := strat.OutGivenIn(1, 1); return e },
		"InGivenOut": func() error { _, e := strat.InGivenOut("x", 1); return e },
		"SpotPrice":  func() error { _, e := strat.SpotPrice(nil); return e },
		"other": func() error {
			_, e := strat.OutGivenIn(domain.PluggableStrategyOpts{Price: decimal.NewFromInt(1)}, 1)
			return e
		},
	} {
		var err error
		p, _ := hx.Catch(func() { err = f() })
		if p != nil || err == nil {
			c.Fail("misuse-"+n, fmt.Sprintf("%s with foreign options: panic %v, error %v", n, p, err), n)
		}
	}
}
