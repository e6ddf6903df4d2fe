// C09: the market state machine. Part A searches every sequence of operations
// on the real Market to closure; part B every sequence of operator calls on
// the real operator service over both back ends to closure; part C every
// interleaving of two concurrent operator calls on one market.
//
//mc:instr internal/core/application=LGE internal/core/domain=LE internal/infrastructure/storage/db/inmemory=LSE internal/infrastructure/storage/db/badger=LSE
package main

import (
	"context"
	"fmt"
	"sort"
	"sync"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/verif/explore"
	"github.com/tdex-network/tdex-daemon/verif/hx"
)

var bg = context.Background()

// ref is a market as it should be.
type ref struct {
	funded bool
	quote  string
	open   bool
	plug   bool
	fee    int64
	fb, fq int64
	bp, qp string // prices
}

func (r ref) key() string { return fmt.Sprintf("%+v", r) }

func zero() ref { return ref{fee: 25, bp: "0", qp: "0"} }

func pos(s string) bool { return dec(s).IsPositive() }

func dec(s string) decimal.Decimal {
	d, err := decimal.NewFromString(s)
	if err != nil {
		panic(err)
	}
	return d
}

// op changes the reference and tells whether it is accepted.
type op struct {
	name string
	ref  func(r *ref) bool
	dom  func(m *domain.Market) error
	svc  func(e *env) error
}

func feeOK(f int64) bool { return f >= 0 && f <= 9999 }
func fixedOK(b, q int64) bool {
	return b >= 0 && q >= 0 && (b == 0) == (q == 0)
}

func setFee(f int64) func(r *ref) bool {
	return func(r *ref) bool {
		if !r.funded || r.open || !feeOK(f) {
			return false
		}
		r.fee = f
		return true
	}
}

func setFixed(b, q int64) func(r *ref) bool {
	return func(r *ref) bool {
		if !r.funded || r.open || !fixedOK(b, q) {
			return false
		}
		r.fb, r.fq = b, q
		return true
	}
}

func openRef(r *ref) bool {
	if !r.funded || (r.plug && (!pos(r.bp) || !pos(r.qp))) {
		return false
	}
	r.open = true
	return true
}

func closeRef(r *ref) bool {
	if !r.funded {
		return false
	}
	r.open = false
	return true
}

func strategy(plug bool, needFunded bool) func(r *ref) bool {
	return func(r *ref) bool {
		if r.open || (needFunded && !r.funded) {
			return false
		}
		r.plug = plug
		if plug && r.funded {
			r.bp, r.qp = "0", "0"
		}
		return true
	}
}

func fund(assets ...string) func(r *ref) bool {
	return func(r *ref) bool {
		if r.funded {
			return true // nothing to do
		}
		q := quoteOf(assets)
		if q == "" {
			return false
		}
		r.funded, r.quote = true, q
		return true
	}
}

// quoteOf the assets of a deposit, "" if it is not base and one other asset.
func quoteOf(assets []string) string {
	base, q := false, ""
	for _, a := range assets {
		if a == lbtc {
			base = true
			continue
		}
		if q != "" && q != a {
			return ""
		}
		q = a
	}
	if !base {
		return ""
	}
	return q
}

const (
	lbtc = "5ac9f65c0efcc4775e0baec4ec03abdde22473cd3cf33c0419ca290e0751b225"
)

func outs(assets []string) (l []domain.OutpointWithAsset) {
	for i, a := range assets {
		l = append(l, domain.OutpointWithAsset{Asset: a, Txid: fmt.Sprint("tx", i), Vout: i})
	}
	return
}

func price(r *ref, base bool, v string) bool {
	if !r.funded {
		return false
	}
	if base {
		r.bp = v
	} else {
		r.qp = v
	}
	return true
}

func domOps() []op {
	ops := []op{}
	for _, f := range [][]string{{lbtc, "Q0"}, {"Q0", lbtc, "Q0"}, {"Q2", lbtc}, {"Q0"}, {lbtc}, {lbtc, "Q0", "Q2"}, {"Q0", "Q2"}, {}} {
		f := f
		ops = append(ops, op{name: fmt.Sprintf("fund(%v)", short(f)), ref: fund(f...), dom: func(m *domain.Market) error { return m.FundMarket(outs(f), lbtc) }})
	}
	for _, v := range []int64{-1 << 63, -1, 0, 1, 9999, 10000, 1<<63 - 1} {
		v := v
		ops = append(ops, op{name: fmt.Sprintf("fee(%d)", v), ref: setFee(v), dom: func(m *domain.Market) error { return m.ChangeFeeBasisPoint(v) }})
	}
	for _, v := range [][2]int64{{0, 0}, {1, 0}, {0, 1}, {5, 7}, {-1, 5}, {5, -1}, {-1, -1}, {-3, 0}, {0, -3}} {
		v := v
		ops = append(ops, op{name: fmt.Sprintf("fixed%v", v), ref: setFixed(v[0], v[1]), dom: func(m *domain.Market) error { return m.ChangeFixedFee(v[0], v[1]) }})
	}
	for _, v := range []string{"0", "2"} {
		v := v
		ops = append(ops, op{name: "basePrice(" + v + ")", ref: func(r *ref) bool { return price(r, true, v) }, dom: func(m *domain.Market) error { return m.ChangeBasePrice(dec(v)) }},
			op{name: "quotePrice(" + v + ")", ref: func(r *ref) bool { return price(r, false, v) }, dom: func(m *domain.Market) error { return m.ChangeQuotePrice(dec(v)) }})
	}
	ops = append(ops,
		op{name: "open", ref: openRef, dom: (*domain.Market).MakeTradable},
		op{name: "close", ref: closeRef, dom: (*domain.Market).MakeNotTradable},
		op{name: "pluggable", ref: strategy(true, false), dom: (*domain.Market).MakeStrategyPluggable},
		op{name: "balanced", ref: strategy(false, false), dom: (*domain.Market).MakeStrategyBalanced})
	return ops
}

func short(l []string) (o []string) {
	for _, a := range l {
		if a == lbtc {
			a = "LBTC"
		}
		o = append(o, a)
	}
	return
}

func show(m *domain.Market) ref {
	r := ref{funded: m.IsFunded(), quote: m.QuoteAsset, open: m.IsTradable(), plug: m.IsStrategyPluggable(), fee: m.Fee, fb: m.FixedFee.BaseFee, fq: m.FixedFee.QuoteFee,
		bp: m.Price.BasePrice.String(), qp: m.Price.QuotePrice.String()}
	return r
}

type node struct {
	r    ref
	path []int
}

// search runs visit on every reachable state of the reference, level by level.
func search(c *hx.Check, what string, ops []op, visit func(n node) (next []node)) {
	seen := map[string]bool{zero().key(): true}
	level := []node{{r: zero()}}
	depth := 0
	for len(level) > 0 {
		if c.Expired() || (c.Failed() && depth > 4) {
			c.Cap(fmt.Sprintf("%s: states beyond depth %d", what, depth))
			break
		}
		var mu sync.Mutex
		next := []node{}
		c.Par(len(level), func(i int) {
			if c.Expired() {
				c.Cap(fmt.Sprintf("%s: part of depth %d", what, depth))
				return
			}
			c.Count("states", 1)
			for _, n := range visit(level[i]) {
				mu.Lock()
				if !seen[n.r.key()] {
					seen[n.r.key()] = true
					next = append(next, n)
				}
				mu.Unlock()
			}
		})
		sort.Slice(next, func(i, j int) bool { return next[i].r.key() < next[j].r.key() })
		level = next
		depth++
	}
	c.Info("depth_"+what, depth)
	c.Outcome(fmt.Sprintf("%s: %d states, closed at depth %d", what, len(seen), depth))
}

func names(ops []op, path []int) []string {
	out := []string{}
	for _, p := range path {
		out = append(out, ops[p].name)
	}
	return out
}

func partA(c *hx.Check) {
	ops := domOps()
	search(c, "market", ops, func(n node) (next []node) {
		for o := range ops {
			m, err := domain.NewMarket(domain.MarketAccountStart, 25)
			if err != nil {
				c.Fail("new", "a market with fee 25 could not be made", nil)
				return
			}
			for _, p := range n.path {
				ops[p].dom(m)
			}
			if got := show(m); got != n.r {
				return // reported where it happened first
			}
			before := *m
			want := n.r
			ok := ops[o].ref(&want)
			if !ok {
				want = n.r
			}
			path := append(append([]int{}, n.path...), o)
			p, st := hx.Catch(func() { err = ops[o].dom(m) })
			c.Count("transitions", 1)
			c.Count("traces_validated_against_impl", 1)
			rep := map[string]interface{}{"part": "market", "history": names(ops, path)}
			switch got := show(m); {
			case p != nil:
				c.Fail("market.panic", fmt.Sprintf("market: %v panicked: %v at %s", names(ops, path), p, st), rep)
			case (err == nil) != ok:
				c.Fail("market."+class(ops[o].name), fmt.Sprintf("market: after %v, %s answered %v, should be accepted: %v", names(ops, n.path), ops[o].name, err, ok), rep)
			case got != want:
				c.Fail("market."+class(ops[o].name), fmt.Sprintf("market: after %v, %s (%v) left %+v, should be %+v", names(ops, n.path), ops[o].name, err, got, want), rep)
			case m.AccountIndex != before.AccountIndex || (m.BaseAsset != before.BaseAsset && n.r.funded):
				c.Fail("market.identity", fmt.Sprintf("market: %v changed the account or base asset", names(ops, path)), rep)
			}
			next = append(next, node{want, path})
		}
		return
	})
	for _, f := range []int64{-1, 0, 9999, 10000} {
		_, err := domain.NewMarket(5, f)
		if (err == nil) != feeOK(f) {
			c.Fail("market.new", fmt.Sprintf("a new market with fee %d: %v", f, err), nil)
		}
	}
}

func class(n string) string {
	for i := range n {
		if n[i] == '(' || n[i] == '[' {
			return n[:i]
		}
	}
	return n
}

func main() {
	explore.Main(func() *hx.Check {
		c := hx.New("C09", "model_checking")
		partA(c)
		partB(c)
		c.Assume("prices are the decimals 0, 0.5 and 2; a deposit claim names the quote asset it deposits, except when it would give two markets the same pair")
		return c
	}, races(), func(c *hx.Check) {
		c.Count("transitions", c.Get("choice_points"))
		c.Count("traces_validated_against_impl", c.Get("executions"))
		c.Sample(map[string]interface{}{"history": []string{"fund([LBTC Q0])", "pluggable", "basePrice(2)", "open"}})
		c.Info("rule", "all operation sequences until no new market state appears; all interleavings of the racing calls up to the bound")
		c.Finish()
	})
}
