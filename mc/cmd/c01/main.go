// C01: concurrent swaps never commit the same wallet coin. Interleavings of
// proposals (and of what frees coins meanwhile) on the real trade service over
// both back ends, and every storage call failing in turn.
//
//mc:instr internal/core/application=LGE internal/infrastructure/storage/db/inmemory=LSE internal/infrastructure/storage/db/badger=LSE pkg/wallet=M
package main

import (
	"fmt"
	"time"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/verif/explore"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/tdex-network/tdex-daemon/verif/vsync"
	"github.com/tdex-network/tdex-daemon/verif/world"
)

// purse is what the wallet holds: quote coins of the markets and fee coins.
type purse struct {
	name    string
	markets int
	quote   [][]uint64
	fees    []uint64
}

var purses = []purse{
	{"one coin, two fee coins", 1, [][]uint64{{100}}, []uint64{100, 100}},
	{"two coins, one fee coin", 1, [][]uint64{{100, 100}}, []uint64{150}},
	{"two markets, one fee coin", 2, [][]uint64{{100}, {100}}, []uint64{100}},
	{"enough for two", 1, [][]uint64{{100, 150}}, []uint64{100, 120}},
	{"pairs of coins needed", 1, [][]uint64{{60, 60, 60}}, []uint64{60, 60, 60}},
}

func (p purse) opts(badger bool) world.Opts {
	o := world.Opts{Badger: badger, Markets: p.markets, Prepare: world.FlatMarket, Slippage: dec("0.5")}
	for m, vs := range p.quote {
		o.Coins = append(o.Coins, world.Coin{Account: world.Account(m), Asset: world.Base, Value: 5000})
		for _, v := range vs {
			o.Coins = append(o.Coins, world.Coin{Account: world.Account(m), Asset: world.Quote(m), Value: v})
		}
	}
	for _, v := range p.fees {
		o.Coins = append(o.Coins, world.Coin{Account: domain.FeeAccount, Asset: world.LBTC, Value: v})
	}
	return o
}

// judge is the oracle: swaps that must hold their coins, each exclusively, and
// nothing else held.
func judge(w *world.World, live []*world.Swap) string {
	owner := map[domain.UnspentKey]*world.Swap{}
	for _, s := range live {
		if len(s.Coins) < 2 {
			return fmt.Sprintf("swap %d was accepted with %d wallet coins", s.N, len(s.Coins))
		}
		for _, k := range s.Coins {
			if o, ok := owner[k]; ok && o != s {
				return fmt.Sprintf("swaps %d and %d, both accepted, rely on the coin %v", o.N, s.N, w.CoinNames([]domain.UnspentKey{k}))
			}
			owner[k] = s
		}
	}
	ids := map[string]string{}
	for id, t := range w.Trades() {
		if t.SwapAccept.ID != "" {
			ids[t.SwapAccept.ID] = id
		}
	}
	for k, u := range w.Unspents() {
		s, held := owner[k]
		if held && !u.Locked {
			return fmt.Sprintf("coin %v of swap %d is not locked", w.CoinNames([]domain.UnspentKey{k}), s.N)
		}
		if held && ids[s.ID] != "" && u.LockedBy.String() != ids[s.ID] {
			return fmt.Sprintf("coin %v of swap %d is locked for another", w.CoinNames([]domain.UnspentKey{k}), s.N)
		}
		if !held && u.Locked {
			return fmt.Sprintf("coin %v is locked for no swap", w.CoinNames([]domain.UnspentKey{k}))
		}
	}
	return ""
}

// now checks the locks of an acceptance that just returned.
func lockedNow(x *explore.Exec, w *world.World, s *world.Swap) {
	if !s.Accepted {
		return
	}
	us := w.Unspents()
	for _, k := range s.Coins {
		if !us[k].Locked {
			x.Fail("late-lock", "the acceptance of swap %d was returned before its coin %v was locked", s.N, w.CoinNames([]domain.UnspentKey{k}))
		}
	}
}

func scenarios() []*explore.Scenario {
	out := []*explore.Scenario{}
	mk := func(badger bool, p purse, n, bound int, delay, thorough bool, extra string) {
		back := "in-memory"
		pts := []string{"E:internal/infrastructure/storage/db/inmemory", "L:*", "X:*"}
		if badger {
			back = "persistent"
			pts = []string{"E:internal/infrastructure/storage/db/badger", "L:*", "X:*"}
		}
		out = append(out, &explore.Scenario{
			Name: fmt.Sprintf("%s: %d proposals, %s%s, %s", back, n, p.name, extra, map[bool]string{false: "preemptions", true: "delays"}[delay]), Bound: bound, ThoroughBound: bound + 1, ThoroughOnly: thorough, Delay: delay,
			Quantum: time.Second, Ticks: 1,
			Weight: map[bool]float64{false: 5, true: 4}[delay],
			Sched:  vsync.Config{Points: pts},
			Setup: func(x *explore.Exec) {
				o := p.opts(badger)
				o.Gated = true
				w := world.New(o)
				x.V["w"] = w
				ss := make([]*world.Swap, n)
				x.V["ss"] = ss
				if extra != "" {
					s := w.Propose(9, 0)
					x.Settle()
					if !s.Accepted {
						panic("first proposal refused: " + s.Refusal)
					}
					x.V["first"] = s
					x.Thread("reject", func() { w.Reject(s.ID) })
				}
				for i := range ss {
					i := i
					x.Thread(fmt.Sprintf("propose%d", i), func() {
						ss[i] = w.Propose(i+1, i%p.markets)
						lockedNow(x, w, ss[i])
					})
				}
			},
			Final: func(x *explore.Exec) {
				w := x.V["w"].(*world.World)
				defer w.Close()
				live := []*world.Swap{}
				acc := 0
				for _, s := range x.V["ss"].([]*world.Swap) {
					if s != nil && s.Accepted {
						live = append(live, s)
						acc++
					}
				}
				if why := judge(w, live); why != "" {
					x.Fail("shared", "%s", why)
				}
				x.Outcome("%d accepted", acc)
			},
		})
	}
	for _, p := range purses {
		mk(false, p, 2, 1, false, false, "")
		mk(false, p, 2, 2, true, false, "")
		mk(true, p, 2, 1, true, false, "")
		mk(true, p, 2, 1, false, true, "")
	}
	mk(false, purses[3], 3, 1, true, false, "")
	for _, badger := range []bool{false, true} {
		mk(badger, purses[0], 1, 1, badger, false, ", one swap being rejected")
		mk(badger, purses[4], 2, 1, true, false, ", one swap being rejected")
	}
	mk(true, purses[3], 3, 1, true, true, "")
	return out
}

// faults: any storage calls of one proposal fail (as many as the bound), then
// a second proposal is made.
func faults() []*explore.Scenario {
	out := []*explore.Scenario{}
	for _, badger := range []bool{false, true} {
		for _, p := range purses {
			badger, p := badger, p
			back := map[bool]string{false: "in-memory", true: "persistent"}[badger]
			out = append(out, &explore.Scenario{
				Name: fmt.Sprintf("%s: failing storage, %s", back, p.name), Bound: 1, ThoroughBound: 2, Quantum: time.Second, Ticks: 1,
				Setup: func(x *explore.Exec) {
					o := p.opts(badger)
					o.Gated = true
					w := world.New(o)
					x.V["w"] = w
					x.Thread("trader", func() {
						w.Gate.Fault = func(call string) error {
							if x.Choose(call, 2) == 1 {
								x.V["failed"] = fmt.Sprint(x.V["failed"], " ", call)
								return world.ErrFault
							}
							return nil
						}
						a := w.Propose(1, 0)
						w.Gate.Fault = nil
						x.V["ss"] = []*world.Swap{a, w.Propose(2, p.markets-1)}
					})
				},
				Final: func(x *explore.Exec) {
					w := x.V["w"].(*world.World)
					defer w.Close()
					live := []*world.Swap{}
					ss := x.V["ss"].([]*world.Swap)
					for _, s := range ss {
						if s.Accepted {
							live = append(live, s)
						}
					}
					x.Outcome("%v: %v %v", x.V["failed"], ss[0].Accepted, ss[1].Accepted)
					if why := judge(w, live); why != "" {
						x.Fail("fault", "storage calls failing: %v (accepted: %v): %s", x.V["failed"], ss[0].Accepted, why)
						return
					}
					// the trader of an accepted swap can complete it
					for _, s := range live {
						if id, err := w.Complete(s); err != nil || id != s.TxID {
							x.Fail("fault.complete", "storage calls failing: %v: swap %d is accepted but can't be completed: %v", x.V["failed"], s.N, err)
						}
					}
				},
			})
		}
	}
	return out
}

func main() {
	explore.Main(func() *hx.Check {
		c := hx.New("C01", "model_checking")
		return c
	}, append(scenarios(), faults()...), func(c *hx.Check) {
		c.Count("states", c.Get("executions"))
		c.Count("transitions", c.Get("choice_points"))
		c.Count("traces_validated_against_impl", c.Get("executions"))
		c.Info("rule", "all interleavings up to the bound at lock acquisitions, repository calls, (preemption or delay bounding); every storage call of a proposal failing in turn")
		c.Sample("propose1 || propose2 on one market holding one coin of 100 and two fee coins")
		c.Assume("filling of the accepted transaction is replaced by an unblinded equivalent that selects coins with the real selection")
		c.Finish()
	})
}

func dec(s string) decimal.Decimal { d, _ := decimal.NewFromString(s); return d }
