// C04: simultaneous events on one trade. Interleavings of the trader's
// completion and failure messages, the expiry timer and the confirmation of
// the transaction, on the real trade service and listener over both back ends;
// the end has to be that of some order of the same events.
//
//mc:instr internal/core/application=LGE internal/infrastructure/storage/db/inmemory=LSE internal/infrastructure/storage/db/badger=LSE pkg/wallet=M
package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/verif/explore"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/tdex-network/tdex-daemon/verif/vsync"
	"github.com/tdex-network/tdex-daemon/verif/world"
	"github.com/vulpemventures/go-elements/transaction"
)

var bg = context.Background()

// result of a completion: "" not asked, "ok", "no".
type end struct {
	st   byte
	done map[string]bool // completions that succeeded
}

func (e end) String() string {
	ok := []string{}
	for k, v := range e.done {
		if v {
			ok = append(ok, k)
		}
	}
	sort.Strings(ok)
	return fmt.Sprintf("%c%v", e.st, ok)
}

// ends are those of every order of the events. An event named "time" is the
// expiry; a completion whose broadcast fails changes nothing.
func ends(events []string, failing map[string]bool) map[string]end {
	out := map[string]end{}
	var rec func(left []string, e end)
	rec = func(left []string, e end) {
		if len(left) == 0 {
			out[e.String()] = e
			return
		}
		for i, ev := range left {
			n := end{e.st, map[string]bool{}}
			for k, v := range e.done {
				n.done[k] = v
			}
			switch {
			case strings.HasPrefix(ev, "complete"):
				switch {
				case e.st == 'C' || e.st == 'S':
					n.done[ev] = true // already
				case e.st == 'A' && !failing[ev]:
					n.st = 'C'
					n.done[ev] = true
				}
			case strings.HasPrefix(ev, "reject"):
				if e.st == 'A' {
					n.st = 'F'
				}
			case ev == "time":
				if e.st == 'A' {
					n.st = 'X'
				}
			case ev == "confirm":
				n.st = 'S'
			}
			rest := append(append([]string{}, left[:i]...), left[i+1:]...)
			rec(rest, n)
		}
	}
	rec(events, end{'A', map[string]bool{}})
	return out
}

func scenario(badger bool, bound int, tOnly, delay bool, fault bool, early bool, events ...string) *explore.Scenario {
	back := "in-memory"
	if badger {
		back = "persistent"
	}
	name := back + ": " + strings.Join(events, " || ")
	if early {
		name += " || expiry at any time"
	}
	if fault {
		name += ", explorer failing"
	}
	kind := "preemptions"
	if delay {
		kind = "delays"
	}
	return &explore.Scenario{
		Name: name + ", " + kind, Bound: bound, ThoroughBound: bound + 1, ThoroughOnly: tOnly, Delay: delay,
		Weight:  map[bool]float64{true: 3, false: 1}[early],
		Quantum: 70 * time.Second, Ticks: 3, TickAlways: early,
		Sched: vsync.Config{Points: []string{"E:internal/infrastructure/storage/db/inmemory", "E:internal/infrastructure/storage/db/badger", "L:*", "X:*"}},
		Setup: func(x *explore.Exec) {
			w := world.New(world.Opts{Badger: badger, Markets: 1, Prepare: world.FlatMarket, Slippage: decimal.NewFromFloat(0.5), Gated: true, Coins: []world.Coin{
				{Account: world.Account(0), Asset: world.Quote(0), Value: 100},
				{Account: world.Account(0), Asset: world.Base, Value: 5000},
				{Account: domain.FeeAccount, Asset: world.LBTC, Value: 120},
			}})
			w.Listener.StartObservation()
			s := w.Propose(1, 0)
			if !s.Accepted {
				panic("not accepted: " + s.Refusal)
			}
			x.Sleep(115 * time.Second)
			x.V["w"], x.V["s"] = w, s
			errs := map[string]error{}
			failing := map[string]bool{}
			x.V["errs"], x.V["failing"] = errs, failing
			for _, ev := range events {
				ev := ev
				errs[ev] = errors.New("unanswered")
				x.Thread(ev, func() {
					switch {
					case strings.HasPrefix(ev, "complete"):
						id, err := w.Complete(s)
						if err == nil && id != s.TxID {
							x.Fail("txid", "the completion was answered with transaction %q", id)
						}
						errs[ev] = err
					case strings.HasPrefix(ev, "reject"):
						errs[ev] = w.Reject(s.ID)
					case ev == "confirm":
						w.Confirm(s.TxID, s.Raw)
					}
				})
			}
			if fault {
				w.Explorer.Fault = func(call string) error {
					if call == "Broadcast" && x.Choose(call, 2) == 1 {
						failing["complete"] = true
						return errors.New("explorer failure")
					}
					return nil
				}
			}
		},
		Final: func(x *explore.Exec) {
			w, s := x.V["w"].(*world.World), x.V["s"].(*world.Swap)
			defer w.Close()
			errs := x.V["errs"].(map[string]error)
			got := end{'?', map[string]bool{}}
			confirmed := false
			for _, ev := range events {
				if strings.HasPrefix(ev, "complete") {
					got.done[ev] = errs[ev] == nil
				}
				confirmed = confirmed || ev == "confirm"
			}
			ts := w.Trades()
			if len(ts) != 1 {
				x.Fail("trades", "%d trades are stored", len(ts))
				return
			}
			var t *domain.Trade
			for _, t = range ts {
			}
			switch {
			case t.IsSettled():
				got.st = 'S'
			case t.Status.Code == domain.Expired:
				got.st = 'X'
			case t.IsRejected():
				got.st = 'F'
			case t.IsCompleted():
				got.st = 'C'
			case t.IsAccepted():
				got.st = 'A'
			}
			x.Outcome("%s", got)
			allowed := ends(append([]string{"time"}, events...), x.V["failing"].(map[string]bool))
			if _, ok := allowed[got.String()]; !ok {
				x.Fail("end", "the trade ended as %s (status %+v, answers %v): no order of the events does that", got, t.Status, errs)
				return
			}
			sent := len(w.Explorer.Broadcasted()) > 0
			if sent && got.st != 'C' && got.st != 'S' {
				x.Fail("broadcast", "the transaction was broadcast but the trade is %c", got.st)
			}
			if got.st == 'C' && !sent {
				x.Fail("unsent", "the trade is completed but nothing was broadcast")
			}
			us := w.Unspents()
			for _, k := range s.Coins {
				u := us[k]
				n := w.CoinNames([]domain.UnspentKey{k})
				switch got.st {
				case 'C', 'S':
					if !u.Spent {
						x.Fail("coins", "the trade is %c but its coin %v is not spent (locked %v)", got.st, n, u.Locked)
					}
				default:
					if u.Spent || u.Locked {
						x.Fail("coins", "the trade is %c but its coin %v is not available: spent %v locked %v", got.st, n, u.Spent, u.Locked)
					}
				}
			}
			tx, err := transaction.NewTxFromHex(s.Raw)
			if err != nil {
				panic(err)
			}
			for o := 1; o < len(tx.Outputs); o++ {
				u, ok := us[domain.UnspentKey{TxID: s.TxID, VOut: uint32(o)}]
				switch got.st {
				case 'S':
					if !ok || !u.Confirmed {
						x.Fail("outputs", "the trade is settled but its output %d is not a confirmed coin (known %v)", o, ok)
					}
				case 'C':
					if !ok {
						x.Fail("outputs", "the trade is completed but its output %d is no coin of the wallet", o)
					}
				default:
					if ok {
						x.Fail("outputs", "the trade is %c but its output %d is a coin of the wallet", got.st, o)
					}
				}
			}
			n := 0
			for _, m := range w.PubSub.Published() {
				if strings.HasPrefix(m, "TRADE_SETTLED ") {
					n++
				}
			}
			if want := map[bool]int{true: 1, false: 0}[confirmed]; n != want {
				x.Fail("published", "%d settlements were published instead of %d", n, want)
			}
			// it can't change any more
			w.Complete(s)
			w.Reject(s.ID)
			x.Settle()
			for _, t2 := range w.Trades() {
				if t2.Status != t.Status {
					x.Fail("final", "the trade changed from %+v to %+v after it had ended", t.Status, t2.Status)
				}
			}
		},
	}
}

func main() {
	scs := []*explore.Scenario{}
	for _, b := range []bool{false, true} {
		q := 2 // delays
		add := func(fault, early bool, ev ...string) {
			scs = append(scs, scenario(b, q, false, true, fault, early, ev...))
			scs = append(scs, scenario(b, 1, b, false, fault, early, ev...))
		}
		add(false, false, "complete", "reject")
		add(false, true, "complete")
		add(false, true, "reject")
		add(false, true, "confirm")
		add(false, false, "complete", "confirm")
		add(false, false, "reject", "confirm")
		add(false, false, "complete", "complete2")
		add(true, false, "complete", "reject")
		scs = append(scs,
			scenario(b, 1, false, true, false, true, "complete", "reject"),
			scenario(b, 1, false, true, false, false, "complete", "reject", "confirm"),
			scenario(b, 1, b, true, false, true, "complete", "reject", "confirm"))
	}
	explore.Main(func() *hx.Check { return hx.New("C04", "model_checking") }, scs, func(c *hx.Check) {
		c.Count("states", c.Get("executions"))
		c.Count("transitions", c.Get("choice_points"))
		c.Count("traces_validated_against_impl", c.Get("executions"))
		c.Info("rule", "all interleavings up to the bound at lock acquisitions, storage calls and explorer calls; time may pass at any of them where stated")
		c.Sample("complete || reject with the timer going off while the transaction is being broadcast")
		c.Assume("filling of the accepted transaction is replaced by an unblinded equivalent that selects coins with the real selection")
		c.Finish()
	})
}
