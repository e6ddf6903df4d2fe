// C05: every combination of strategy, price, fee, balance, direction, asset and
// amount of a grid on the real Market.Preview and trade service, against exact
// arithmetic; and every proposal around the edges of the slippage range.
package main

import (
	"context"
	"fmt"
	"math"
	"math/big"
	"sort"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	mm "github.com/tdex-network/tdex-daemon/pkg/marketmaking"
	"github.com/tdex-network/tdex-daemon/pkg/marketmaking/formula"
	"github.com/tdex-network/tdex-daemon/verif/explore"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/tdex-network/tdex-daemon/verif/ref"
	"github.com/tdex-network/tdex-daemon/verif/world"
)

var c *hx.Check
var ctx = context.Background()

type config struct {
	plug       bool
	bp, qp     string
	fee        int64
	fixB, fixQ int64
}

func (k config) String() string {
	if k.plug {
		return fmt.Sprintf("pluggable(base %s, quote %s) fee %d fixed %d/%d", k.bp, k.qp, k.fee, k.fixB, k.fixQ)
	}
	return fmt.Sprintf("balanced fee %d fixed %d/%d", k.fee, k.fixB, k.fixQ)
}

func dec(s string) decimal.Decimal {
	d, err := decimal.NewFromString(s)
	if err != nil {
		panic(err)
	}
	return d
}

func (k config) apply(m *domain.Market) {
	m.Fee = k.fee
	m.FixedFee = domain.FixedFee{BaseFee: k.fixB, QuoteFee: k.fixQ}
	if k.plug {
		m.Strategy = mm.NewStrategyFromFormula(domain.PluggableStrategy{})
		m.Price = domain.Prices{BasePrice: dec(k.bp), QuotePrice: dec(k.qp)}
	} else {
		m.Strategy = mm.NewStrategyFromFormula(formula.BalancedReserves{})
	}
	m.Tradable = true
}

// expected range of the quote; must: only an error is possible; may: an error is tolerated.
func expected(k config, bb, qb, amount uint64, isBase, isBuy bool) (lo, hi *big.Int, must, may bool) {
	own := uint64(k.fixQ)
	if isBase {
		own = uint64(k.fixB)
	}
	may = amount < own
	in, out := bb, qb // what the market receives, what it gives
	if isBuy {
		in, out = qb, bb
	}
	// does the trader state what it pays?
	gives := isBuy != isBase
	fixed := uint64(k.fixB)
	if isBase {
		fixed = uint64(k.fixQ)
	}
	if k.plug {
		price := dec(k.bp)
		if isBase {
			price = dec(k.qp)
		}
		if amount == 0 || amount > math.MaxInt64 || !gives && amount >= out {
			return nil, nil, true, true
		}
		v := ref.Floor(new(big.Rat).Mul(new(big.Rat).SetInt(ref.U(amount)), price.Rat()))
		if v.Cmp(ref.Max) > 0 {
			return nil, nil, true, true
		}
		if gives {
			lo = ref.Less(v, uint64(k.fee))
		} else {
			lo = ref.Plus(v, uint64(k.fee))
		}
		hi = lo
	} else {
		if gives {
			lo, hi, must = ref.Out(in, out, amount, uint64(k.fee), true)
		} else {
			lo, hi, must = ref.In(in, out, amount, uint64(k.fee), true)
		}
		if must {
			return nil, nil, true, true
		}
	}
	if hi.Sign() == 0 {
		return nil, nil, true, true
	}
	if lo.Sign() == 0 || hi.Cmp(ref.Max) > 0 {
		may = true
	}
	f := ref.U(fixed)
	if gives {
		lo, hi = new(big.Int).Sub(lo, f), new(big.Int).Sub(hi, f)
		if hi.Sign() <= 0 || lo.Cmp(ref.U(out)) >= 0 {
			return nil, nil, true, true
		}
		if lo.Sign() <= 0 || hi.Cmp(ref.U(out)) >= 0 {
			may = true
		}
		return lo, hi, false, may
	}
	return new(big.Int).Add(lo, f), new(big.Int).Add(hi, f), false, may
}

func dir(isBuy bool) string {
	if isBuy {
		return "buy"
	}
	return "sell"
}
func side(isBase bool) string {
	if isBase {
		return "base"
	}
	return "quote"
}

func previews() {
	configs := []config{}
	fees := []int64{0, 1, 25, 100, 5000, 9999}
	fixes := [][2]int64{{0, 0}, {1, 1}, {3, 17}, {500, 20}}
	prices := [][2]string{{"1", "1"}, {"0.00002", "50000"}, {"50000", "0.00002"}, {"0.33333333", "3"}, {"1.5", "0.66666666"}, {"0.00000001", "100000000"}}
	for _, f := range fees {
		for _, x := range fixes {
			configs = append(configs, config{fee: f, fixB: x[0], fixQ: x[1]})
			for _, p := range prices {
				configs = append(configs, config{plug: true, bp: p[0], qp: p[1], fee: f, fixB: x[0], fixQ: x[1]})
			}
		}
	}
	small := []uint64{0, 1, 2, 3, 10, 25, 40}
	big_ := []uint64{1000, 99999, 100000000, 650000000000, 2100000000000000}
	type job struct {
		k      config
		bb, qb uint64
		am     []uint64
	}
	jobs := []job{}
	dense := []uint64{}
	top := uint64(45)
	if c.Thorough() {
		top = 120
		small = append(small, 5, 17, 60, 100, 110)
		big_ = append(big_, 5000, 12345678, 33333333333)
	}
	for a := uint64(0); a <= top; a++ {
		dense = append(dense, a)
	}
	grid := func(bb, qb uint64) []uint64 {
		m := map[uint64]bool{}
		for _, a := range []uint64{0, 1, 2, 499, 500, 501, 10000, 100000, 1 << 40, math.MaxInt64, 1 << 63, math.MaxUint64} {
			m[a] = true
		}
		for _, b := range []uint64{bb, qb} {
			for _, a := range []uint64{b - 2, b - 1, b, b + 1, b / 2, b / 3, b / 10, b / 1000, 2 * b, -b} {
				m[a] = true
			}
		}
		out := []uint64{}
		for a := range m {
			out = append(out, a)
		}
		sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
		return out
	}
	for _, k := range configs {
		for _, bb := range small {
			for _, qb := range small {
				jobs = append(jobs, job{k, bb, qb, dense})
			}
		}
		for _, bb := range big_ {
			for _, qb := range big_ {
				jobs = append(jobs, job{k, bb, qb, grid(bb, qb)})
			}
		}
	}
	c.Par(len(jobs), func(i int) {
		j := jobs[i]
		m := &domain.Market{AccountIndex: 5, BaseAsset: world.Base, QuoteAsset: world.Quote(0)}
		j.k.apply(m)
		n, nv, ne := 0, 0, 0
		for _, isBuy := range []bool{true, false} {
			for _, isBase := range []bool{true, false} {
				for _, a := range j.am {
					n++
					id := fmt.Sprintf("%s, balances %d/%d: %s, %s amount %d", j.k, j.bb, j.qb, dir(isBuy), side(isBase), a)
					sig := func(w string) string {
						return fmt.Sprintf("quote-%s-%v-%s-%s", w, j.k.plug, dir(isBuy), side(isBase))
					}
					var p *domain.PreviewInfo
					var err error
					if pn, st := hx.Catch(func() { p, err = m.Preview(j.bb, j.qb, a, isBase, isBuy) }); pn != nil {
						c.Fail(sig("panic"), fmt.Sprintf("%s: %v\n%s", id, pn, st), id)
						continue
					}
					lo, hi, must, may := expected(j.k, j.bb, j.qb, a, isBase, isBuy)
					if j.bb == 0 || j.qb == 0 {
						may = true
						if !j.k.plug {
							must = true
						}
					}
					if err != nil {
						ne++
						if !must && !may {
							c.Fail(sig("refused"), fmt.Sprintf("%s is refused (%v), expected %v..%v", id, err, lo, hi), id)
						}
						continue
					}
					nv++
					if must {
						c.Fail(sig("not-refused"), fmt.Sprintf("%s is quoted %d where only a refusal is possible", id, p.Amount), id)
						continue
					}
					if g := ref.U(p.Amount); g.Sign() == 0 || g.Cmp(lo) < 0 || g.Cmp(hi) > 0 {
						c.Fail(sig("amount"), fmt.Sprintf("%s is quoted %d, expected %v..%v", id, p.Amount, lo, hi), id)
					}
					want := m.QuoteAsset
					if !isBase {
						want = m.BaseAsset
					}
					if p.Asset != want {
						c.Fail(sig("asset"), fmt.Sprintf("%s is quoted in asset %s", id, p.Asset), id)
					}
					if j.k.plug && (!p.Price.BasePrice.Equal(dec(j.k.bp)) || !p.Price.QuotePrice.Equal(dec(j.k.qp))) {
						c.Fail(sig("price"), fmt.Sprintf("%s shows the prices %v", id, p.Price), id)
					}
					if !j.k.plug {
						for w, r := range map[string][2]uint64{"base": {j.bb, j.qb}, "quote": {j.qb, j.bb}} {
							got := p.Price.BasePrice
							if w == "quote" {
								got = p.Price.QuotePrice
							}
							exact := ref.Rat(ref.U(r[0]), ref.U(r[1]))
							tol := new(big.Rat).Mul(exact, big.NewRat(1, 1000000))
							tol.Add(tol, big.NewRat(2, 100000000))
							d := new(big.Rat).Sub(got.Rat(), exact)
							if d.Abs(d).Cmp(tol) > 0 {
								c.Fail(sig("price"), fmt.Sprintf("%s shows the %s price %v, the reserves say %s", id, w, got, exact.FloatString(9)), id)
							}
						}
					}
				}
			}
		}
		m.Tradable = false
		if p, err := m.Preview(j.bb, j.qb, 10, true, true); err == nil {
			c.Fail("quote-closed", fmt.Sprintf("%s: a closed market quotes %v", j.k, p), nil)
		}
		c.Count("evaluations", n)
		c.Count("quotes", nv)
		c.Count("refusals", ne)
		c.Count("distinct_nontrivial", nv)
	})
}

type setup struct {
	k     config
	base  []uint64
	quote []uint64
	slip  string
	open  bool
}

func sum(v []uint64) (s uint64) {
	for _, x := range v {
		s += x
	}
	return
}

func (s setup) world() *world.World {
	coins := []world.Coin{{Account: domain.FeeAccount, Asset: world.LBTC, Value: 5000}}
	for _, v := range s.base {
		coins = append(coins, world.Coin{Account: world.Account(0), Asset: world.Base, Value: v})
	}
	for _, v := range s.quote {
		coins = append(coins, world.Coin{Account: world.Account(0), Asset: world.Quote(0), Value: v})
	}
	// coins that are not available for quotes: another asset, unconfirmed, another market
	coins = append(coins, world.Coin{Account: world.Account(0), Asset: world.Quote(3), Value: 777}, world.Coin{Account: world.Account(0), Asset: world.Base, Value: 111, Unconf: true},
		world.Coin{Account: world.Account(1), Asset: world.Base, Value: 4444}, world.Coin{Account: world.Account(1), Asset: world.Quote(0), Value: 4444})
	return world.New(world.Opts{Markets: 2, Coins: coins, Slippage: dec(s.slip), Prepare: func(m *domain.Market) {
		s.k.apply(m)
		m.Tradable = s.open
	}})
}

func mulr(a *big.Int, d decimal.Decimal) *big.Rat {
	return new(big.Rat).Mul(new(big.Rat).SetInt(a), d.Rat())
}

// fair tells whether the rate is surely not worse for the market than the
// quote minus the slippage (1), surely worse (-1) or within the rounding (0).
func fair(s setup, isBuy bool, p, r uint64) int {
	bb, qb := sum(s.base), sum(s.quote)
	one := decimal.NewFromInt(1)
	slip := dec(s.slip)
	res := -1
	// what is paid, for the amount received
	baseAmt, quoteAmt := r, p
	if !isBuy {
		baseAmt, quoteAmt = p, r
	}
	for _, isBase := range []bool{true, false} {
		given, other := baseAmt, quoteAmt
		if !isBase {
			given, other = quoteAmt, baseAmt
		}
		lo, hi, must, _ := expected(s.k, bb, qb, given, isBase, isBuy)
		if must {
			continue
		}
		o := new(big.Rat).SetInt(ref.U(other))
		v := -1
		if isBuy == isBase { // the other amount is what the trader pays: at least quote*(1-slip)
			if o.Cmp(mulr(hi, one.Sub(slip))) >= 0 {
				v = 1
			} else if o.Cmp(mulr(lo, one.Sub(slip))) >= 0 {
				v = 0
			}
		} else { // what the trader gets: at most quote*(1+slip)
			if o.Cmp(mulr(lo, one.Add(slip))) <= 0 {
				v = 1
			} else if o.Cmp(mulr(hi, one.Add(slip))) <= 0 {
				v = 0
			}
		}
		if v > res {
			res = v
		}
	}
	return res
}

type req struct {
	isBuy      bool
	p, r       uint64
	ap, ar     string
	market     application.Market
	expectGood bool // exactly the quote
	tag        string
}

func proposals() {
	setups := []setup{}
	for _, k := range []config{{fee: 25}, {fee: 0}, {fee: 500, fixB: 7, fixQ: 300}, {plug: true, bp: "0.02", qp: "50", fee: 25}, {plug: true, bp: "2", qp: "0.5", fee: 100, fixB: 5, fixQ: 9}} {
		for _, slip := range []string{"0.05", "0.001"} {
			setups = append(setups, setup{k, []uint64{60000, 41000}, []uint64{3000000, 2100000}, slip, true})
			if c.Thorough() {
				setups = append(setups, setup{k, []uint64{150, 90, 30}, []uint64{400, 310}, slip, true}, setup{k, []uint64{1}, []uint64{100000000}, slip, true})
			}
		}
		setups = append(setups, setup{k, []uint64{60000, 41000}, []uint64{3000000, 2100000}, "0.05", false})
	}
	amounts := []uint64{1, 2, 7, 100, 1000, 5555, 30000}
	if c.Thorough() {
		amounts = append(amounts, 3, 13, 50, 333, 2222, 9999, 60000, 100999, 101000, 101001)
	}
	mk := application.Market{BaseAsset: world.Base, QuoteAsset: world.Quote(0)}
	type job struct {
		s     setup
		isBuy bool
		i     int
	}
	jobs := []job{}
	for _, s := range setups {
		for _, b := range []bool{true, false} {
			for i := range amounts {
				jobs = append(jobs, job{s, b, i})
			}
		}
	}
	c.Par(len(jobs), func(ji int) {
		j := jobs[ji]
		s := j.s
		tt := application.TradeBuy
		if !j.isBuy {
			tt = application.TradeSell
		}
		A, B := mk.QuoteAsset, mk.BaseAsset // what the trader sends, gets
		if !j.isBuy {
			A, B = B, A
		}
		reqs := []req{}
		q := s.world()
		bb, qb := sum(s.base), sum(s.quote)
		for _, isBase := range []bool{true, false} {
			asset := mk.QuoteAsset
			amt := amounts[j.i] * 50
			if isBase {
				asset, amt = mk.BaseAsset, amounts[j.i]
			}
			pr, err := q.Trade.GetMarketPrice(ctx, mk, tt, amt, asset)
			c.Count("service_quotes", 1)
			lo, hi, must, may := expected(s.k, bb, qb, amt, isBase, j.isBuy)
			if !s.open {
				must = true
			}
			id := fmt.Sprintf("%s %d/%d open %v: GetMarketPrice %s %s %d", s.k, bb, qb, s.open, dir(j.isBuy), side(isBase), amt)
			switch {
			case err != nil && !must && !may:
				c.Fail("price-refused", fmt.Sprintf("%s: %v, expected %v..%v", id, err, lo, hi), id)
			case err == nil && must:
				c.Fail("price-not-refused", fmt.Sprintf("%s: quoted %d", id, pr.Amount), id)
			case err == nil && (ref.U(pr.Amount).Cmp(lo) < 0 || ref.U(pr.Amount).Cmp(hi) > 0):
				c.Fail("price-amount", fmt.Sprintf("%s: quoted %d, expected %v..%v", id, pr.Amount, lo, hi), id)
			case err == nil && (pr.Balance.BaseAmount != bb || pr.Balance.QuoteAmount != qb):
				c.Fail("price-balance", fmt.Sprintf("%s: shows the balance %+v", id, pr.Balance), id)
			case err == nil && (pr.Fee.BasisPoint != s.k.fee || pr.Fee.FixedBaseFee != s.k.fixB || pr.Fee.FixedQuoteFee != s.k.fixQ):
				c.Fail("price-fee", fmt.Sprintf("%s: shows the fee %+v", id, pr.Fee), id)
			}
			if err != nil {
				reqs = append(reqs, req{j.isBuy, amt, amt * 50, A, B, mk, false, "unquoted"}, req{j.isBuy, amt * 50, amt, A, B, mk, false, "unquoted"})
				continue
			}
			baseAmt, quoteAmt := amt, pr.Amount
			if !isBase {
				baseAmt, quoteAmt = pr.Amount, amt
			}
			p, r := quoteAmt, baseAmt
			if !j.isBuy {
				p, r = r, p
			}
			sl, _ := dec(s.slip).Float64()
			edges := func(v uint64) []uint64 {
				l, h := uint64(float64(v)*(1-sl)), uint64(float64(v)*(1+sl))
				o := []uint64{v - 1, v + 1, l, l + 1, h, h + 1, v / 2, v * 2, v / 10, v * 50, 1, math.MaxUint64, 1 << 63}
				if l > 1 {
					o = append(o, l-1)
				}
				return o
			}
			reqs = append(reqs, req{j.isBuy, p, r, A, B, mk, true, "quote"})
			for _, x := range edges(p) {
				reqs = append(reqs, req{j.isBuy, x, r, A, B, mk, false, "paid"})
			}
			for _, x := range edges(r) {
				reqs = append(reqs, req{j.isBuy, p, x, A, B, mk, false, "received"})
			}
			other := world.Quote(3)
			for _, as := range [][2]string{{B, A}, {A, A}, {B, B}, {other, B}, {A, other}, {other, other}, {world.Quote(1), B}, {A, world.Quote(1)}} {
				reqs = append(reqs, req{j.isBuy, p, r, as[0], as[1], mk, false, "assets"})
			}
			reqs = append(reqs, req{j.isBuy, p, r, A, B, application.Market{BaseAsset: world.Base, QuoteAsset: other}, false, "unknown-market"},
				req{!j.isBuy, p, r, A, B, mk, false, "direction"})
		}
		q.Close()
		w := s.world()
		defer func() { w.Close() }()
		n := 0
		for _, rq := range reqs {
			if rq.p == 0 || rq.r == 0 {
				continue // refused by the interface
			}
			n++
			tt := application.TradeBuy
			if !rq.isBuy {
				tt = application.TradeSell
			}
			rr := world.NewRequest(n, rq.ap, rq.p, rq.ar, rq.r)
			id := fmt.Sprintf("%s balances %d/%d slippage %s open %v: propose (%s) %s sends %d %s for %d %s", s.k, bb, qb, s.slip, s.open, rq.tag, dir(rq.isBuy), rq.p, world.Fmt(rq.ap), rq.r, world.Fmt(rq.ar))
			var acc domain.SwapAccept
			var fl domain.SwapFail
			var err error
			if pn, st := hx.Catch(func() { acc, fl, _, err = w.Trade.TradePropose(ctx, rq.market, tt, rr) }); pn != nil {
				c.Fail("propose-panic-"+rq.tag, fmt.Sprintf("%s: %v\n%s", id, pn, st), id)
				w.Close()
				w = s.world()
				continue
			}
			c.Count("evaluations", 1)
			c.Count("proposals", 1)
			right := rq.ap == world.Quote(0) && rq.ar == world.Base
			if !rq.isBuy {
				right = rq.ar == world.Quote(0) && rq.ap == world.Base
			}
			right = right && rq.market == mk && s.open
			v := fair(s, rq.isBuy, rq.p, rq.r)
			locked := 0
			for _, u := range w.Unspents() {
				if u.Locked {
					locked++
				}
			}
			got := "failed"
			if err == nil && acc != nil {
				got = "accepted"
			} else if err == nil && fl != nil {
				got = "rejected"
			}
			c.Outcome(rq.tag + " " + got)
			if acc != nil {
				c.Count("accepted", 1)
				c.Count("distinct_nontrivial", 1)
				switch {
				case err != nil || fl != nil:
					c.Fail("propose-mixed", fmt.Sprintf("%s: accepted together with %v %v", id, fl, err), id)
				case !right:
					c.Fail("propose-terms-"+rq.tag, fmt.Sprintf("%s: accepted", id), id)
				case v < 0:
					c.Fail("propose-rate-"+dir(rq.isBuy), fmt.Sprintf("%s: accepted below the market's terms", id), id)
				case locked == 0:
					c.Fail("propose-unlocked", fmt.Sprintf("%s: accepted with no coin locked", id), id)
				}
				w.Close()
				w = s.world()
				continue
			}
			if locked != 0 {
				c.Fail("propose-locked-"+rq.tag, fmt.Sprintf("%s: not accepted but %d coins are locked", id, locked), id)
				w.Close()
				w = s.world()
			}
			if rq.expectGood && right && rq.r < []uint64{bb, qb}[b2i(!rq.isBuy)] {
				c.Fail("propose-quote", fmt.Sprintf("%s: exactly the quoted terms, but %s (%v)", id, got, err), id)
			}
		}
	})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func main() {
	explore.Bubble(func() {
		c = hx.New("C05", "exploration")
		previews()
		proposals()
		c.Info("rule", "Market.Preview over strategy x price x fee x fixed fee x balances x direction x asset x amount (dense small box and boundary grid); GetMarketPrice and TradePropose over markets x amounts x both edges of the slippage range on either side x foreign, swapped and repeated assets x closed and unknown markets")
		c.Sample("balanced fee 25, balances 101000/5100000: buy, base amount 1000")
		c.Assume("filling of the accepted transaction is replaced by an unblinded equivalent (C07 covers the real one)")
		c.Finish()
	})
}
