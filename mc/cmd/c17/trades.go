package main

import (
	"context"
	"errors"
	"fmt"

	"github.com/google/uuid"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/tdex-network/tdex-protobuf/generated/go/swap"
	"google.golang.org/protobuf/proto"
)

// a stored trade of the reference: how far it got, on which market, whether it
// failed, and a mark that the last update left
type tr struct {
	in     bool
	code   int
	failed bool
	market int
	mark   int
}

type tradeState struct{ t [3]tr }

func (s *tradeState) Key() string  { return fmt.Sprintf("%+v", s.t) }
func (s *tradeState) Clone() State { x := *s; return &x }

var nTrades = 2

func acceptMsg(i int) []byte {
	b, _ := proto.Marshal(&swap.SwapAccept{Id: fmt.Sprint("acc", i), RequestId: fmt.Sprint("req", i), Transaction: "tx"})
	return b
}

// want is the full content of the i-th trade.
func (s *tradeState) want(i int) domain.Trade {
	x := s.t[i]
	t := domain.Trade{ID: tid[i], Status: domain.Status{Code: x.code, Failed: x.failed}, SettlementTime: uint64(x.mark)}
	if x.code >= domain.Proposal {
		t.MarketQuoteAsset = fmt.Sprint("Q", x.market)
		t.MarketFee, t.MarketFixedBaseFee, t.MarketFixedQuoteFee = int64(25+i), int64(i), int64(2*i)
		t.TraderPubkey = []byte{byte(i + 1), 9}
		t.SwapRequest = domain.Swap{ID: fmt.Sprint("req", i), Message: []byte{1, byte(i)}, Timestamp: uint64(100 + i)}
		t.PsetBase64 = fmt.Sprint("pset", i)
	}
	if x.code >= domain.Accepted {
		t.SwapAccept = domain.Swap{ID: fmt.Sprint("acc", i), Message: acceptMsg(i), Timestamp: uint64(200 + i)}
		t.ExpiryTime = uint64(1000 + i)
		t.TxID = fmt.Sprint("txid", i)
	}
	if x.code >= domain.Completed {
		t.SwapComplete = domain.Swap{ID: fmt.Sprint("com", i), Message: []byte{3, byte(i)}, Timestamp: uint64(300 + i)}
		t.TxHex = fmt.Sprint("hex", i)
	}
	if x.failed {
		t.SwapFail = domain.Swap{ID: fmt.Sprint("fail", i), Message: []byte{4, byte(i)}, Timestamp: uint64(400 + i)}
	}
	return t
}

func showTrade(t *domain.Trade) string {
	if t == nil {
		return "none"
	}
	c := *t
	// prices hold pointers
	c.MarketPrice = domain.Prices{}
	s := fmt.Sprintf("%+v %s/%s", c, t.MarketPrice.BasePrice, t.MarketPrice.QuotePrice)
	// the caller's
	t.Status, t.MarketQuoteAsset, t.TxID, t.SettlementTime = domain.Status{Code: 77}, "Q9", "other", 99
	return s
}

func (s *tradeState) show(i int) string { t := s.want(i); return showTrade(&t) }

func showTrades(l []*domain.Trade, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	out := []string{}
	same := map[*domain.Trade]bool{}
	for _, t := range l {
		if t != nil && same[t] {
			return "the same record twice"
		}
		same[t] = true
		out = append(out, showTrade(t))
	}
	return set(out)
}

func trades(c *hx.Check) Table {
	if c.Thorough() {
		nTrades = 3
	}
	t := Table{Name: "trades", Zero: func() State { return &tradeState{} }, Nest: []string{"main"}}
	for i := 0; i < nTrades; i++ {
		i := i
		t.Ops = append(t.Ops, Op{fmt.Sprintf("GetOrCreate(%d)", i+1), func(ctx context.Context, r ports.RepoManager) string {
			id := tid[i]
			x, err := r.TradeRepository().GetOrCreateTrade(ctx, &id)
			if err != nil {
				return "error: " + err.Error()
			}
			return showTrade(x)
		}, func(s State) string {
			st := s.(*tradeState)
			if !st.t[i].in {
				st.t[i] = tr{in: true, code: domain.Empty}
			}
			return st.show(i)
		}})
		upd := func(name string, ok bool, f func(x tr) (tr, bool)) {
			t.Ops = append(t.Ops, Op{fmt.Sprintf("Update(%d,%s)", i+1, name), func(ctx context.Context, r ports.RepoManager) string {
				id := tid[i]
				return fail(r.TradeRepository().UpdateTrade(ctx, &id, func(x *domain.Trade) (*domain.Trade, error) {
					if x == nil {
						return nil, errors.New("nothing to update")
					}
					cur := tr{true, x.Status.Code, x.Status.Failed, 0, int(x.SettlementTime)}
					if x.MarketQuoteAsset == "Q1" {
						cur.market = 1
					}
					n, can := f(cur)
					if !can {
						return x, nil
					}
					st := &tradeState{}
					st.t[i] = n
					w := st.want(i)
					if !ok {
						*x = w
						return nil, errors.New("no")
					}
					return &w, nil
				}))
			}, func(s State) string {
				st := s.(*tradeState)
				if !st.t[i].in {
					return "error"
				}
				n, can := f(st.t[i])
				if !can {
					return "ok"
				}
				if !ok {
					return "error"
				}
				st.t[i] = n
				return "ok"
			}})
		}
		for m := 0; m < 2; m++ {
			m := m
			upd(fmt.Sprint("propose on Q", m), true, func(x tr) (tr, bool) {
				return tr{true, domain.Proposal, false, m, x.mark}, x.code == domain.Empty
			})
		}
		step := func(from, to int) func(x tr) (tr, bool) {
			return func(x tr) (tr, bool) {
				return tr{true, to, false, x.market, x.mark}, x.code == from && !x.failed
			}
		}
		upd("accept", true, step(domain.Proposal, domain.Accepted))
		upd("complete", true, step(domain.Accepted, domain.Completed))
		upd("settle", true, step(domain.Completed, domain.Settled))
		upd("fail", true, func(x tr) (tr, bool) {
			return tr{true, x.code, true, x.market, x.mark}, x.code >= domain.Proposal && x.code <= domain.Completed && !x.failed
		})
		upd("expire", true, func(x tr) (tr, bool) {
			return tr{true, domain.Expired, true, x.market, x.mark}, x.code >= domain.Accepted && x.code <= domain.Completed && !x.failed
		})
		upd("mark", true, func(x tr) (tr, bool) { return tr{true, x.code, x.failed, x.market, 1 - x.mark}, true })
		upd("change but refuse", false, func(x tr) (tr, bool) { return tr{true, domain.Settled, false, 1, 5}, true })
	}
	t.Ops = append(t.Ops, Op{"Update(unknown)", func(ctx context.Context, r ports.RepoManager) string {
		id := uuid.MustParse("00000000-0000-0000-0000-0000000000ff")
		return fail(r.TradeRepository().UpdateTrade(ctx, &id, func(x *domain.Trade) (*domain.Trade, error) {
			if x == nil {
				return nil, errors.New("nothing to update")
			}
			return x, nil
		}))
	}, func(s State) string { return "error" }})
	q := func(name string, real func(ctx context.Context, r domain.TradeRepository) string, ref func(s *tradeState) string) {
		t.Queries = append(t.Queries, Op{name, func(ctx context.Context, r ports.RepoManager) string { return real(ctx, r.TradeRepository()) }, func(s State) string { return ref(s.(*tradeState)) }})
	}
	pick := func(s *tradeState, f func(x tr) bool) string {
		out := []string{}
		for i := range s.t {
			if s.t[i].in && f(s.t[i]) {
				out = append(out, s.show(i))
			}
		}
		return set(out)
	}
	q("GetAllTrades", func(ctx context.Context, r domain.TradeRepository) string { return showTrades(r.GetAllTrades(ctx)) },
		func(s *tradeState) string { return pick(s, func(tr) bool { return true }) })
	for m := 0; m < 3; m++ {
		m := m
		as := fmt.Sprint("Q", m)
		q("GetAllTradesByMarket("+as+")", func(ctx context.Context, r domain.TradeRepository) string {
			return showTrades(r.GetAllTradesByMarket(ctx, as))
		}, func(s *tradeState) string {
			return pick(s, func(x tr) bool { return x.code >= domain.Proposal && x.market == m })
		})
		q("GetCompletedTradesByMarket("+as+")", func(ctx context.Context, r domain.TradeRepository) string {
			return showTrades(r.GetCompletedTradesByMarket(ctx, as))
		}, func(s *tradeState) string {
			return pick(s, func(x tr) bool {
				return (x.code == domain.Completed || x.code == domain.Settled) && !x.failed && x.market == m
			})
		})
	}
	for i := 0; i < 3; i++ {
		i := i
		q("GetTradeBySwapAcceptID", func(ctx context.Context, r domain.TradeRepository) string {
			x, err := r.GetTradeBySwapAcceptID(ctx, fmt.Sprint("acc", i))
			if err != nil && x == nil {
				return "none"
			}
			return showTrade(x)
		}, func(s *tradeState) string {
			if s.t[i].in && s.t[i].code >= domain.Accepted {
				return s.show(i)
			}
			return "none"
		})
		q("GetTradeByTxID", func(ctx context.Context, r domain.TradeRepository) string {
			x, err := r.GetTradeByTxID(ctx, fmt.Sprint("txid", i))
			if err != nil && x == nil {
				return "none"
			}
			return showTrade(x)
		}, func(s *tradeState) string {
			if s.t[i].in && s.t[i].code >= domain.Accepted {
				return s.show(i)
			}
			return "none"
		})
	}
	t.Queries = append(t.Queries, t.Queries[0])
	return t
}
