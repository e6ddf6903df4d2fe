package main

import (
	"encoding/hex"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/verif/explore"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/tdex-network/tdex-daemon/verif/vsync"
	"github.com/tdex-network/tdex-daemon/verif/world"
	"github.com/vulpemventures/go-elements/transaction"
)

// env is a daemon with market 0 to be taken through its states and market 1
// (Q1) funded and open, which nothing may touch, and market 2 (Q4) funded and closed.
type env struct {
	*world.World
	deposits map[string]string // name -> tx id
	outs     map[string]int
}

func q(i int) string {
	switch i {
	case -1:
		return ""
	case -2:
		return "notanasset"
	}
	return world.Quote(i)
}

// deposit transactions: name -> list of "account:asset".
var deposits = map[string][]string{
	"base+Q0":   {"0:B", "0:0"},
	"base+Q2":   {"0:2", "0:B"},
	"base":      {"0:B"},
	"Q0":        {"0:0"},
	"3 assets":  {"0:B", "0:0", "0:2"},
	"base+Q1":   {"0:B", "0:1"},
	"base+Q4":   {"0:B", "0:4"},
	"mixed":     {"0:B", "1:0"},
	"elsewhere": {"x:B", "x:0"},
	"half":      {"0:B", "x:0"},
}

func newEnv(badger bool) *env {
	w := world.New(world.Opts{Badger: badger, Markets: 3, WithOps: true, Fee: 25, Prepare: func(m *domain.Market) {
		if m.AccountIndex == world.Account(0) {
			m.BaseAsset, m.QuoteAsset = "", ""
		} else if m.AccountIndex == world.Account(2) {
			m.QuoteAsset = q(4)
		} else if err := m.MakeTradable(); err != nil {
			panic(err)
		}
	}})
	e := &env{World: w, deposits: map[string]string{}, outs: map[string]int{}}
	for name, l := range deposits {
		t := transaction.NewTx(2)
		h := make([]byte, 32)
		copy(h, name)
		t.AddInput(transaction.NewTxInput(h, 0))
		for _, o := range l {
			p := strings.Split(o, ":")
			sc := append([]byte{0, 20}, make([]byte, 20)...)
			switch p[0] {
			case "0", "1":
				sc, _ = hex.DecodeString(w.Addr[world.Account(int(p[0][0]-'0'))][0].Script)
			}
			asset := lbtc
			if p[1] != "B" {
				asset = world.Quote(int(p[1][0] - '0'))
			}
			t.AddOutput(world.TxOut(asset, 1000, sc))
		}
		hx, err := t.ToHex()
		if err != nil {
			panic(err)
		}
		id := t.TxHash().String()
		w.Explorer.Mem[id] = hx
		e.deposits[name], e.outs[name] = id, len(l)
	}
	return e
}

func (e *env) reset() {
	mr := e.Repo.MarketRepository()
	if err := mr.DeleteMarket(bg, world.Account(0)); err != nil {
		panic(err)
	}
	if _, err := mr.GetOrCreateMarket(bg, &domain.Market{AccountIndex: world.Account(0), Fee: 25}); err != nil {
		panic(err)
	}
}

func (e *env) claim(req int, name string, extra ...application.TxOutpoint) error {
	l := []application.TxOutpoint{}
	for i := 0; i < e.outs[name]; i++ {
		l = append(l, application.TxOutpoint{Hash: e.deposits[name], Index: i})
	}
	return e.Operator.ClaimMarketDeposit(bg, application.Market{BaseAsset: lbtc, QuoteAsset: q(req)}, append(l, extra...))
}

func fee(base string, quote int, f application.Fee) application.MarketWithFee {
	return application.MarketWithFee{Market: application.Market{BaseAsset: base, QuoteAsset: q(quote)}, Fee: f}
}

func svcOps() []op {
	ops := []op{}
	is := func(r *ref, i int) bool { return r.funded && r.quote == q(i) }
	claim := func(label string, req int, name string, extra ...application.TxOutpoint) {
		ops = append(ops, op{name: "claim(" + label + ")", svc: func(e *env) error { return e.claim(req, name, extra...) }, ref: func(r *ref) bool {
			if len(extra) > 0 || name == "" {
				return false
			}
			assets := []string{}
			for _, o := range deposits[name] {
				if o[:2] != "0:" {
					return false
				}
				switch o[2:] {
				case "B":
					assets = append(assets, lbtc)
				default:
					assets = append(assets, world.Quote(int(o[2]-'0')))
				}
			}
			if req == 1 || req == 4 {
				return false // the market of Q1 has other addresses
			}
			if r.funded {
				return r.quote == q(req) // else there is no market to fund
			}
			if quoteOf(assets) == q(1) || quoteOf(assets) == q(4) {
				return false // Q1 is traded already, and Q4 will be
			}
			return fund(assets...)(r)
		}})
	}
	claim("base+Q0", 0, "base+Q0")
	claim("base+Q2", 2, "base+Q2")
	claim("base", 0, "base")
	claim("Q0", 0, "Q0")
	claim("3 assets", 0, "3 assets")
	claim("Q1 as Q2", 2, "base+Q1")
	claim("Q1", 1, "base+Q1")
	claim("Q4 as Q2", 2, "base+Q4")
	claim("Q4", 4, "base+Q4")
	claim("two markets", 0, "mixed")
	claim("elsewhere", 0, "elsewhere")
	claim("half elsewhere", 0, "half")
	claim("no outpoint", 0, "")
	claim("no such output", 0, "base+Q0", application.TxOutpoint{Hash: "", Index: 0})
	ops = append(ops, op{name: "claim(wrong base)", ref: func(*ref) bool { return false }, svc: func(e *env) error {
		return e.Operator.ClaimMarketDeposit(bg, application.Market{BaseAsset: q(0), QuoteAsset: q(2)}, []application.TxOutpoint{{Hash: e.deposits["base+Q2"], Index: 0}, {Hash: e.deposits["base+Q2"], Index: 1}})
	}}, op{name: "claim(index out of range)", ref: func(*ref) bool { return false }, svc: func(e *env) error {
		return e.Operator.ClaimMarketDeposit(bg, application.Market{BaseAsset: lbtc, QuoteAsset: q(0)}, []application.TxOutpoint{{Hash: e.deposits["base+Q0"], Index: 0}, {Hash: e.deposits["base+Q0"], Index: 2}})
	}})
	for _, i := range []int{0, 2, 3, -1, -2} {
		i := i
		ops = append(ops,
			op{name: fmt.Sprintf("open(Q%d)", i), svc: func(e *env) error { return e.Operator.OpenMarket(bg, lbtc, q(i)) }, ref: func(r *ref) bool { return is(r, i) && openRef(r) }},
			op{name: fmt.Sprintf("close(Q%d)", i), svc: func(e *env) error { return e.Operator.CloseMarket(bg, lbtc, q(i)) }, ref: func(r *ref) bool { return is(r, i) && closeRef(r) }},
			op{name: fmt.Sprintf("fee(Q%d,100)", i), svc: func(e *env) error { return e.pct(lbtc, i, 100) }, ref: func(r *ref) bool { return is(r, i) && setFee(100)(r) }},
			op{name: fmt.Sprintf("fixed(Q%d,3,4)", i), svc: func(e *env) error { return e.fix(lbtc, i, 3, 4) }, ref: func(r *ref) bool { return is(r, i) && setFixed(3, 4)(r) }},
			op{name: fmt.Sprintf("price(Q%d,2,0.5)", i), svc: func(e *env) error { return e.price(lbtc, i, "2", "0.5") }, ref: func(r *ref) bool { return is(r, i) && price(r, true, "2") && price(r, false, "0.5") }},
			op{name: fmt.Sprintf("pluggable(Q%d)", i), svc: func(e *env) error { return e.strat(lbtc, i, domain.StrategyTypePluggable) }, ref: func(r *ref) bool { return is(r, i) && strategy(true, true)(r) }},
		)
	}
	no := func(*ref) bool { return false }
	for _, b := range []string{q(0), "", "x"} {
		b := b
		n := "wrong base " + b
		ops = append(ops,
			op{name: "open(" + n + ")", ref: no, svc: func(e *env) error { return e.Operator.OpenMarket(bg, b, q(0)) }},
			op{name: "close(" + n + ")", ref: no, svc: func(e *env) error { return e.Operator.CloseMarket(bg, b, q(0)) }},
			op{name: "fee(" + n + ")", ref: no, svc: func(e *env) error { return e.pct(b, 0, 100) }},
			op{name: "fixed(" + n + ")", ref: no, svc: func(e *env) error { return e.fix(b, 0, 3, 4) }},
			op{name: "price(" + n + ")", ref: no, svc: func(e *env) error { return e.price(b, 0, "2", "0.5") }},
			op{name: "pluggable(" + n + ")", ref: no, svc: func(e *env) error { return e.strat(b, 0, domain.StrategyTypePluggable) }})
	}
	for _, v := range []int64{-1, 0, 9999, 10000} {
		v := v
		ops = append(ops, op{name: fmt.Sprintf("fee(Q0,%d)", v), svc: func(e *env) error { return e.pct(lbtc, 0, v) }, ref: func(r *ref) bool { return is(r, 0) && setFee(v)(r) }})
	}
	for _, v := range [][2]int64{{0, 0}, {1, 0}, {0, 1}, {-1, -1}, {2, -1}} {
		v := v
		ops = append(ops, op{name: fmt.Sprintf("fixed(Q0,%d,%d)", v[0], v[1]), svc: func(e *env) error { return e.fix(lbtc, 0, v[0], v[1]) }, ref: func(r *ref) bool { return is(r, 0) && setFixed(v[0], v[1])(r) }})
	}
	for _, v := range [][2]string{{"0", "2"}, {"2", "0"}, {"0", "0"}, {"-1", "1"}, {"1", "-1"}, {"2099999997690001", "1"}, {"1", "2099999997690001"}} {
		v := v
		ops = append(ops, op{name: fmt.Sprintf("price(Q0,%s,%s)", v[0], v[1]), svc: func(e *env) error { return e.price(lbtc, 0, v[0], v[1]) }, ref: no})
	}
	ops = append(ops,
		op{name: "balanced(Q0)", svc: func(e *env) error { return e.strat(lbtc, 0, domain.StrategyTypeBalanced) }, ref: func(r *ref) bool { return is(r, 0) && strategy(false, true)(r) }},
		op{name: "strategy(Q0,7)", svc: func(e *env) error { return e.strat(lbtc, 0, 7) }, ref: no},
	)
	return ops
}

func (e *env) pct(b string, i int, v int64) error {
	r, err := e.Operator.UpdateMarketPercentageFee(bg, fee(b, i, application.Fee{BasisPoint: v, FixedBaseFee: 77, FixedQuoteFee: 78}))
	if err == nil && (r.BasisPoint != v || r.QuoteAsset != q(i)) {
		return fmt.Errorf("answered %+v", r)
	}
	return err
}
func (e *env) fix(b string, i int, x, y int64) error {
	r, err := e.Operator.UpdateMarketFixedFee(bg, fee(b, i, application.Fee{BasisPoint: 1234, FixedBaseFee: x, FixedQuoteFee: y}))
	if err == nil && (r.FixedBaseFee != x || r.FixedQuoteFee != y || r.QuoteAsset != q(i)) {
		return fmt.Errorf("answered %+v", r)
	}
	return err
}
func (e *env) price(b string, i int, x, y string) error {
	return e.Operator.UpdateMarketPrice(bg, application.MarketWithPrice{Market: application.Market{BaseAsset: b, QuoteAsset: q(i)}, Price: application.Price{BasePrice: dec(x), QuotePrice: dec(y)}})
}
func (e *env) strat(b string, i int, t domain.StrategyType) error {
	return e.Operator.UpdateMarketStrategy(bg, application.MarketStrategy{Market: application.Market{BaseAsset: b, QuoteAsset: q(i)}, Strategy: t})
}

// observe returns market 0 as listed and "" if everything else is as it should be.
func (e *env) observe() (r ref, why string) {
	l, err := e.Operator.ListMarket(bg)
	if err != nil {
		return r, "ListMarket: " + err.Error()
	}
	other, mine, closed := false, false, false
	for _, m := range l {
		switch int(m.AccountIndex) {
		case world.Account(0):
			if mine {
				return r, "the market is listed twice"
			}
			mine = true
			r = ref{funded: m.Market.BaseAsset != "" && m.Market.QuoteAsset != "", quote: m.Market.QuoteAsset, open: m.Tradable, plug: m.StrategyType != 1, fee: m.Fee.BasisPoint,
				fb: m.Fee.FixedBaseFee, fq: m.Fee.FixedQuoteFee, bp: m.Price.BasePrice.String(), qp: m.Price.QuotePrice.String()}
			if r.funded && m.Market.BaseAsset != lbtc {
				return r, "the base asset is " + m.Market.BaseAsset
			}
		case world.Account(1):
			other = m.Market.QuoteAsset == q(1) && m.Market.BaseAsset == lbtc && m.Tradable && m.StrategyType == 1 && m.Fee.BasisPoint == 25 && m.Fee.FixedBaseFee == 0 && m.Fee.FixedQuoteFee == 0 && m.Price.BasePrice.IsZero() && m.Price.QuotePrice.IsZero()
		case world.Account(2):
			closed = m.Market.QuoteAsset == q(4) && m.Market.BaseAsset == lbtc && !m.Tradable && m.StrategyType == 1 && m.Fee.BasisPoint == 25 && m.Fee.FixedBaseFee == 0 && m.Fee.FixedQuoteFee == 0 && m.Price.BasePrice.IsZero() && m.Price.QuotePrice.IsZero()
		default:
			return r, fmt.Sprintf("a market with account %d is listed", m.AccountIndex)
		}
	}
	if !mine || !other || !closed {
		return r, fmt.Sprintf("the listed markets are %+v: the other markets should be untouched", l)
	}
	t, err := e.Trade.GetTradableMarkets(bg)
	if err != nil {
		return r, "GetTradableMarkets: " + err.Error()
	}
	seen := map[string]application.MarketWithFee{}
	for _, m := range t {
		seen[m.QuoteAsset] = m
	}
	if len(seen) != len(t) {
		return r, fmt.Sprintf("a pair is offered twice to traders: %+v", t)
	}
	if _, ok := seen[q(1)]; !ok {
		return r, "the other market is not offered to traders any more"
	}
	delete(seen, q(1))
	m, ok := seen[r.quote]
	if ok != r.open || (ok && (m.BasisPoint != r.fee || m.FixedBaseFee != r.fb || m.FixedQuoteFee != r.fq || m.BaseAsset != lbtc)) {
		return r, fmt.Sprintf("the market is %+v but traders are offered %+v", r, t)
	}
	delete(seen, r.quote)
	if len(seen) > 0 {
		return r, fmt.Sprintf("traders are offered %+v", t)
	}
	return r, ""
}

func partB(c *hx.Check) {
	ops := svcOps()
	c.Info("operator_operations", len(ops))
	envs := [2]sync.Pool{}
	for b := 0; b < 2; b++ {
		b := b
		envs[b].New = func() interface{} { return newEnv(b == 1) }
	}
	backend := []string{"in-memory", "persistent"}
	search(c, "operator", ops, func(n node) (next []node) {
		for b := range backend {
			e := envs[b].Get().(*env)
			// a state is left only by operations that change it; the others share one rebuilt state
			dirty := true
			for o := range ops {
				if dirty {
					e.reset()
					for _, p := range n.path {
						ops[p].svc(e)
					}
					got, why := e.observe()
					if got != n.r || why != "" {
						break // reported where it happened first
					}
				}
				want := n.r
				ok := ops[o].ref(&want)
				if !ok {
					want = n.r
				}
				var err error
				p, st := hx.Catch(func() { err = ops[o].svc(e) })
				c.Count("transitions", 1)
				c.Count("traces_validated_against_impl", 1)
				path := append(append([]int{}, n.path...), o)
				rep := map[string]interface{}{"part": "operator", "backend": backend[b], "history": names(ops, path)}
				sig := "operator." + class(ops[o].name)
				dirty = want != n.r
				if p != nil {
					c.Fail(sig+".panic", fmt.Sprintf("operator, %s: %v panicked: %v at %s", backend[b], names(ops, path), p, st), rep)
					dirty = true
					continue
				}
				got, why := e.observe()
				if (err == nil) != ok || got != want || why != "" {
					dirty = true
					c.Fail(sig, fmt.Sprintf("operator, %s: after %v, %s answered %v (should be accepted: %v) and left %+v, should be %+v; %s", backend[b], names(ops, n.path), ops[o].name, err, ok, got, want, why), rep)
				}
				if b == 0 {
					next = append(next, node{want, path})
				}
			}
			envs[b].Put(e)
		}
		return
	})
}

// races: two calls on one market, which must act as if one came first.
func races() []*explore.Scenario {
	type call struct {
		name string
		svc  func(e *env) error
		ref  func(r *ref) bool
	}
	all := svcOps()
	get := func(n string) call {
		for _, o := range all {
			if o.name == n {
				return call{n, o.svc, o.ref}
			}
		}
		panic(n)
	}
	mk := func(badger bool, tOnly bool, prep []string, calls ...string) *explore.Scenario {
		back, bound := "in-memory", 2
		if badger {
			back, bound = "persistent", 1
		}
		cs := []call{}
		for _, n := range calls {
			cs = append(cs, get(n))
		}
		return &explore.Scenario{
			Name: fmt.Sprintf("%s: %s", back, strings.Join(calls, " || ")), Bound: bound, ThoroughBound: bound + 1, ThoroughOnly: tOnly,
			Quantum: time.Second, Ticks: 2,
			Sched: vsync.Config{Points: []string{"E:internal/infrastructure/storage/db/inmemory", "E:internal/infrastructure/storage/db/badger", "S:internal/infrastructure/storage/db/badger", "L:*"}},
			Setup: func(x *explore.Exec) {
				e := newEnv(badger)
				x.V["e"] = e
				for _, p := range prep {
					if err := get(p).svc(e); err != nil {
						panic(err)
					}
				}
				x.Settle()
				errs := make([]error, len(cs))
				x.V["errs"] = errs
				for i := range cs {
					i := i
					x.Thread(cs[i].name, func() { errs[i] = cs[i].svc(e) })
				}
			},
			Final: func(x *explore.Exec) {
				e := x.V["e"].(*env)
				errs := x.V["errs"].([]error)
				defer e.Close()
				got, why := e.observe()
				if why != "" {
					x.Fail("race.views", "%s", why)
				}
				for _, order := range perms(len(cs)) {
					r := zero()
					for _, p := range prep {
						get(p).ref(&r)
					}
					same := true
					for _, i := range order {
						n := r
						ok := cs[i].ref(&n)
						if ok {
							r = n
						}
						// a claim that finds the market funded meanwhile changes
						// nothing, whatever it answers
						idle := !ok && strings.HasPrefix(cs[i].name, "claim(")
						same = same && (idle || ok == (errs[i] == nil))
					}
					if same && r == got {
						x.Outcome("%v %+v", errs, got)
						return
					}
				}
				x.Fail("race", "%v answered %v and left %+v: no order of the calls does that", calls, errs, got)
			},
		}
	}
	out := []*explore.Scenario{}
	for _, b := range []bool{false, true} {
		f := []string{"claim(base+Q0)"}
		out = append(out,
			mk(b, false, f, "open(Q0)", "fee(Q0,100)"),
			mk(b, false, f, "open(Q0)", "fixed(Q0,3,4)"),
			mk(b, false, f, "open(Q0)", "pluggable(Q0)"),
			mk(b, false, f, "fee(Q0,100)", "fixed(Q0,3,4)"),
			mk(b, true, []string{"claim(base+Q0)", "pluggable(Q0)"}, "open(Q0)", "price(Q0,2,0.5)"),
			mk(b, true, nil, "claim(base+Q0)", "claim(base+Q2)"),
		)
	}
	return out
}

func perms(n int) [][]int {
	if n == 2 {
		return [][]int{{0, 1}, {1, 0}}
	}
	panic(errors.New("two calls only"))
}
