package main

import (
	"context"
	"errors"
	"fmt"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	"github.com/tdex-network/tdex-daemon/verif/hx"
)

type mk struct {
	in, funded, open, plug bool
	price                  int
	fee                    int64
	fixed                  int64
}

type marketState struct{ m [2]mk }

func (s *marketState) Key() string  { return fmt.Sprintf("%+v", s.m) }
func (s *marketState) Clone() State { x := *s; return &x }

var priceOf = []domain.Prices{{}, {BasePrice: decimal.RequireFromString("20000.5"), QuotePrice: decimal.RequireFromString("0.00004999")},
	{BasePrice: decimal.RequireFromString("123456789.00000001"), QuotePrice: decimal.RequireFromString("0.000000008")}}

func acct(i int) int { return domain.MarketAccountStart + i }

func showMarket(m *domain.Market) string {
	if m == nil {
		return "none"
	}
	bp, qp := m.Price.BasePrice.String(), m.Price.QuotePrice.String()
	s := fmt.Sprintf("account %d assets %q/%q fee %d fixed %d/%d open %v pluggable %v price %s/%s usable %v", m.AccountIndex, m.BaseAsset, m.QuoteAsset, m.Fee, m.FixedFee.BaseFee, m.FixedFee.QuoteFee,
		m.Tradable, m.IsStrategyPluggable(), bp, qp, m.IsStrategyPluggable() || m.Strategy.Formula() != nil)
	m.Fee, m.QuoteAsset, m.Tradable, m.Price = 77, "other", !m.Tradable, priceOf[2]
	return s
}

func (s *marketState) show(i int) string {
	x := s.m[i]
	b, q := "", ""
	if x.funded {
		b, q = "B", fmt.Sprint("Q", i)
	}
	p := priceOf[x.price]
	return fmt.Sprintf("account %d assets %q/%q fee %d fixed %d/%d open %v pluggable %v price %s/%s usable true", acct(i), b, q, x.fee, x.fixed, x.fixed*2, x.open, x.plug, p.BasePrice, p.QuotePrice)
}

func showMarkets(l []domain.Market, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	out := []string{}
	for i := range l {
		out = append(out, showMarket(&l[i]))
	}
	return set(out)
}

func markets(c *hx.Check) Table {
	t := Table{Name: "markets", Zero: func() State { return &marketState{} }, Nest: []string{"prices", "main"}}
	op := func(name string, real func(ctx context.Context, r domain.MarketRepository) string, ref func(s *marketState) string) {
		t.Ops = append(t.Ops, Op{name, func(ctx context.Context, r ports.RepoManager) string { return real(ctx, r.MarketRepository()) }, func(s State) string { return ref(s.(*marketState)) }})
	}
	for i := 0; i < 2; i++ {
		i := i
		small := i == 1 && !c.Thorough()
		for _, fee := range []int64{25, 100} {
			fee := fee
			if small && fee == 100 {
				continue
			}
			op(fmt.Sprintf("Create(%d,fee %d)", acct(i), fee), func(ctx context.Context, r domain.MarketRepository) string {
				m, err := r.GetOrCreateMarket(ctx, &domain.Market{AccountIndex: acct(i), Fee: fee})
				if err != nil {
					return "error: " + err.Error()
				}
				return showMarket(m)
			}, func(s *marketState) string {
				if !s.m[i].in {
					s.m[i] = mk{in: true, fee: fee}
				}
				return s.show(i)
			})
		}
		upd := func(name string, real func(m *domain.Market) error, ref func(m *mk) bool) {
			op(fmt.Sprintf("Update(%d,%s)", acct(i), name), func(ctx context.Context, r domain.MarketRepository) string {
				return fail(r.UpdateMarket(ctx, acct(i), func(m *domain.Market) (*domain.Market, error) {
					if m == nil {
						return nil, errors.New("nothing to update")
					}
					if err := real(m); err != nil {
						return nil, err
					}
					return m, nil
				}))
			}, func(s *marketState) string {
				if !s.m[i].in || !ref(&s.m[i]) {
					return "error"
				}
				return "ok"
			})
		}
		upd("fund", func(m *domain.Market) error { m.BaseAsset, m.QuoteAsset = "B", fmt.Sprint("Q", i); return nil }, func(m *mk) bool { m.funded = true; return true })
		if !small {
			upd("fee", func(m *domain.Market) error {
				m.Fee = 125 - m.Fee
				if m.FixedFee.BaseFee == 0 {
					m.FixedFee = domain.FixedFee{BaseFee: 3, QuoteFee: 6}
				} else {
					m.FixedFee = domain.FixedFee{}
				}
				return nil
			}, func(m *mk) bool { m.fee, m.fixed = 125-m.fee, 3-m.fixed; return true })
			upd("pluggable", func(m *domain.Market) error { return m.MakeStrategyPluggable() }, func(m *mk) bool {
				if m.open {
					return false
				}
				m.plug = true
				if m.funded {
					m.price = 0
				}
				return true
			})
			upd("balanced", func(m *domain.Market) error { return m.MakeStrategyBalanced() }, func(m *mk) bool {
				if m.open {
					return false
				}
				m.plug = false
				return true
			})
		}
		upd("price", func(m *domain.Market) error {
			if !m.IsFunded() {
				return errors.New("not funded")
			}
			m.Price = priceOf[1]
			return nil
		}, func(m *mk) bool {
			if !m.funded {
				return false
			}
			m.price = 1
			return true
		})
		upd("change but refuse", func(m *domain.Market) error {
			m.Fee, m.QuoteAsset, m.Tradable, m.Price = 9, "Q7", true, priceOf[2]
			return errors.New("no")
		}, func(m *mk) bool { return false })
		as := fmt.Sprint("Q", i)
		op("Open("+as+")", func(ctx context.Context, r domain.MarketRepository) string { return fail(r.OpenMarket(ctx, as)) }, func(s *marketState) string {
			m := &s.m[i]
			if !m.in || !m.funded || (!m.open && m.plug && m.price == 0) {
				return "error"
			}
			m.open = true
			return "ok"
		})
		op("Close("+as+")", func(ctx context.Context, r domain.MarketRepository) string { return fail(r.CloseMarket(ctx, as)) }, func(s *marketState) string {
			m := &s.m[i]
			if !m.in || !m.funded {
				return "error"
			}
			m.open = false
			return "ok"
		})
		for p := 1; p < 3; p++ {
			p := p
			if small && p == 2 {
				continue
			}
			op(fmt.Sprintf("UpdatePrices(%d,p%d)", acct(i), p), func(ctx context.Context, r domain.MarketRepository) string {
				return fail(r.UpdatePrices(ctx, acct(i), priceOf[p]))
			}, func(s *marketState) string {
				if !s.m[i].in || !s.m[i].funded {
					return "error"
				}
				s.m[i].price = p
				return "ok"
			})
		}
		op(fmt.Sprintf("Delete(%d)", acct(i)), func(ctx context.Context, r domain.MarketRepository) string {
			r.DeleteMarket(ctx, acct(i)) // deleting what is not there may be an error or not
			return "done"
		}, func(s *marketState) string { s.m[i] = mk{}; return "done" })
	}
	op("Create(7,fee 100000)", func(ctx context.Context, r domain.MarketRepository) string {
		_, err := r.GetOrCreateMarket(ctx, &domain.Market{AccountIndex: acct(2), Fee: 100000})
		return fail(err)
	}, func(s *marketState) string { return "error" })
	op("Update(9)", func(ctx context.Context, r domain.MarketRepository) string {
		return fail(r.UpdateMarket(ctx, 9, func(m *domain.Market) (*domain.Market, error) {
			if m == nil {
				return nil, errors.New("nothing to update")
			}
			return m, nil
		}))
	}, func(s *marketState) string { return "error" })
	op("Open(Q9)", func(ctx context.Context, r domain.MarketRepository) string { return fail(r.OpenMarket(ctx, "Q9")) }, func(s *marketState) string { return "error" })
	op("Close(Q9)", func(ctx context.Context, r domain.MarketRepository) string { return fail(r.CloseMarket(ctx, "Q9")) }, func(s *marketState) string { return "error" })
	op("UpdatePrices(9)", func(ctx context.Context, r domain.MarketRepository) string {
		return fail(r.UpdatePrices(ctx, 9, priceOf[1]))
	}, func(s *marketState) string { return "error" })

	q := func(name string, real func(ctx context.Context, r domain.MarketRepository) string, ref func(s *marketState) string) {
		t.Queries = append(t.Queries, Op{name, func(ctx context.Context, r ports.RepoManager) string { return real(ctx, r.MarketRepository()) }, func(s State) string { return ref(s.(*marketState)) }})
	}
	pick := func(s *marketState, f func(x mk) bool) string {
		out := []string{}
		for i := range s.m {
			if s.m[i].in && f(s.m[i]) {
				out = append(out, s.show(i))
			}
		}
		return set(out)
	}
	for i := 0; i < 3; i++ {
		i := i
		q("GetMarketByAccount", func(ctx context.Context, r domain.MarketRepository) string {
			m, err := r.GetMarketByAccount(ctx, acct(i))
			if err != nil {
				return "error: " + err.Error()
			}
			return showMarket(m)
		}, func(s *marketState) string {
			if i > 1 || !s.m[i].in {
				return "none"
			}
			return s.show(i)
		})
		q("GetMarketByAsset", func(ctx context.Context, r domain.MarketRepository) string {
			m, n, err := r.GetMarketByAsset(ctx, fmt.Sprint("Q", i))
			if err != nil {
				return "error: " + err.Error()
			}
			return fmt.Sprint(n, " ", showMarket(m))
		}, func(s *marketState) string {
			if i > 1 || !s.m[i].in || !s.m[i].funded {
				return "-1 none"
			}
			return fmt.Sprint(acct(i), " ", s.show(i))
		})
	}
	q("GetLatestMarket", func(ctx context.Context, r domain.MarketRepository) string {
		m, n, err := r.GetLatestMarket(ctx)
		if err != nil {
			return "error: " + err.Error()
		}
		return fmt.Sprint(n, " ", showMarket(m))
	}, func(s *marketState) string {
		for i := 1; i >= 0; i-- {
			if s.m[i].in {
				return fmt.Sprint(acct(i), " ", s.show(i))
			}
		}
		return fmt.Sprint(acct(0)-1, " none")
	})
	q("GetTradableMarkets", func(ctx context.Context, r domain.MarketRepository) string {
		return showMarkets(r.GetTradableMarkets(ctx))
	},
		func(s *marketState) string { return pick(s, func(x mk) bool { return x.open }) })
	q("GetAllMarkets", func(ctx context.Context, r domain.MarketRepository) string { return showMarkets(r.GetAllMarkets(ctx)) },
		func(s *marketState) string { return pick(s, func(x mk) bool { return true }) })
	t.Queries = append(t.Queries, t.Queries[0], t.Queries[2])
	return t
}
