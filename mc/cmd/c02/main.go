// C02: how long the coins of a swap stay locked. Every history of proposals,
// completions (also with the explorer failing), failures (also repeated and
// mis-addressed), confirmations, passing time and restarts on the real trade
// service and blockchain listener, searched to closure over both back ends,
// against a reference that says of every coin who holds it.
//
//mc:instr pkg/wallet=M
package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/verif/explore"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/tdex-network/tdex-daemon/verif/world"
	"github.com/vulpemventures/go-elements/transaction"
)

var bg = context.Background()

const (
	expiry   = 120 // of an accepted swap
	grace    = 60  // until the daemon gives up on it
	nSlots   = 3
	stepTime = 50
)

type slot struct {
	s     *world.Swap
	st    byte // N not proposed, R refused, A accepted, C completed, S settled, F failed, X expired
	at    int  // when it was accepted
	due   int  // when it has to be given up at the latest
	coins []domain.UnspentKey
	outs  []domain.UnspentKey
	raw   string
}

// dae is a daemon along with what should be true of it.
type dae struct {
	x      *explore.Exec
	w      *world.World
	now    int
	slots  []*slot
	names  map[domain.UnspentKey]string
	vals   map[domain.UnspentKey]uint64
	assets map[domain.UnspentKey]string
	mkts   int
}

type setup struct {
	name  string
	mkts  int
	quote []uint64
	fees  []uint64
}

var setups = []setup{
	{"one coin for two", 1, []uint64{100}, []uint64{100, 100}},
	{"one fee coin with change", 1, []uint64{100, 100}, []uint64{250}},
	{"two coins, two fee coins", 1, []uint64{100, 100}, []uint64{100, 100}},
	{"two markets share fees", 2, []uint64{100}, []uint64{100, 120}},
	{"pairs of coins", 1, []uint64{60, 60, 60}, []uint64{60, 60, 60}},
}

func newDae(x *explore.Exec, st setup, badger bool) *dae {
	o := world.Opts{Badger: badger, Markets: st.mkts, Prepare: world.FlatMarket, Slippage: decimal.NewFromFloat(0.5), Gated: true, Expiry: expiry * time.Second}
	for m := 0; m < st.mkts; m++ {
		for _, v := range st.quote {
			o.Coins = append(o.Coins, world.Coin{Account: world.Account(m), Asset: world.Quote(m), Value: v})
		}
		o.Coins = append(o.Coins, world.Coin{Account: world.Account(m), Asset: world.Base, Value: 5000})
	}
	for _, v := range st.fees {
		o.Coins = append(o.Coins, world.Coin{Account: domain.FeeAccount, Asset: world.LBTC, Value: v})
	}
	d := &dae{x: x, w: world.New(o), names: map[domain.UnspentKey]string{}, vals: map[domain.UnspentKey]uint64{}, assets: map[domain.UnspentKey]string{}, mkts: st.mkts}
	for k, c := range d.w.Coins {
		d.names[k] = fmt.Sprintf("%s%d-%s", world.Fmt(c.Asset), c.Value, k.TxID[:3])
		if c.Account == domain.FeeAccount {
			d.names[k] = "fee" + d.names[k]
		}
		d.vals[k], d.assets[k] = c.Value, fmt.Sprint(c.Account, c.Asset)
	}
	for i := 0; i < nSlots; i++ {
		d.slots = append(d.slots, &slot{st: 'N'})
	}
	d.w.Listener.StartObservation()
	x.Settle()
	return d
}

// holder of every coin: "" free, "i" of a live swap, "spent", "pending".
func (d *dae) holders() map[domain.UnspentKey]string {
	out := map[domain.UnspentKey]string{}
	for k := range d.w.Coins {
		out[k] = ""
	}
	for _, s := range d.slots {
		switch s.st {
		case 'C':
			for _, k := range s.outs {
				out[k] = "pending"
			}
		case 'S':
			for _, k := range s.outs {
				out[k] = ""
			}
		}
	}
	for i, s := range d.slots {
		for _, k := range s.coins {
			switch s.st {
			case 'A':
				out[k] = fmt.Sprint(i)
			case 'C', 'S':
				out[k] = "spent"
			}
		}
	}
	return out
}

func (d *dae) fail(sig, f string, a ...interface{}) {
	d.x.Fail(sig, "%s (at %ds; swaps %s)", fmt.Sprintf(f, a...), d.now, d.states())
}

func (d *dae) states() string {
	s := ""
	for _, sl := range d.slots {
		s += string(sl.st)
	}
	return s
}

// check compares every coin and trade with the reference.
func (d *dae) check() {
	if len(d.w.Gate.Calls) > 5000 {
		d.fail("loop", "storage called %d times", len(d.w.Gate.Calls))
	}
	want := d.holders()
	got := d.w.Unspents()
	ids := map[string]string{} // trade id -> slot
	status := map[string]*domain.Trade{}
	for id, t := range d.w.Trades() {
		for i, s := range d.slots {
			if s.s != nil && s.s.ID != "" && t.SwapAccept.ID == s.s.ID {
				ids[id] = fmt.Sprint(i)
				status[fmt.Sprint(i)] = t
			}
		}
	}
	keys := []domain.UnspentKey{}
	for k := range want {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return d.names[keys[i]] < d.names[keys[j]] })
	avail := map[domain.UnspentKey]bool{}
	us, err := d.w.Repo.UnspentRepository().GetAvailableUnspents(bg)
	if err != nil {
		d.fail("available", "available coins can't be listed: %v", err)
		return
	}
	for _, u := range us {
		avail[u.Key()] = true
	}
	for _, k := range keys {
		u, ok := got[k]
		n, h := d.names[k], want[k]
		switch {
		case !ok && h != "pending":
			d.fail("lost", "the wallet lost coin %s", n)
		case !ok:
			d.fail("output", "coin %s, paid by a completed swap, is unknown", n)
		case h == "" && u.Spent:
			d.fail("spent", "coin %s is spent for no swap", n)
		case h == "" && u.Locked:
			d.fail("stuck", "coin %s should be available again but is locked by %s", n, ids[u.LockedBy.String()])
		case h == "" && !avail[k]:
			d.fail("unavailable", "coin %s should be available but is not (confirmed %v)", n, u.Confirmed)
		case h == "spent" && !u.Spent:
			d.fail("unspent", "coin %s was spent by a completed swap but counts as unspent", n)
		case h == "pending" && (u.Spent || u.Locked || u.Confirmed):
			d.fail("pending", "coin %s is not confirmed yet but is %v/%v/%v", n, u.Spent, u.Locked, u.Confirmed)
		case h != "" && avail[k]:
			d.fail("released", "coin %s (%s) is available to other swaps", n, h)
		case len(h) == 1 && (!u.Locked || u.LockedBy == nil || ids[u.LockedBy.String()] != h):
			d.fail("notheld", "coin %s of the live swap %s is not locked for it", n, h)
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			d.fail("extra", "the wallet holds an unknown coin %s:%d of %d", k.TxID[:6], k.VOut, got[k].Value)
		}
	}
	for i, s := range d.slots {
		t := status[fmt.Sprint(i)]
		if s.st == 'N' || s.st == 'R' {
			continue
		}
		if t == nil {
			d.fail("trade", "the accepted swap %d is not stored", i)
			continue
		}
		now := byte('?')
		switch {
		case t.IsSettled():
			now = 'S'
		case t.Status.Code == domain.Expired:
			now = 'X'
		case t.IsRejected():
			now = 'F'
		case t.IsCompleted():
			now = 'C'
		case t.IsAccepted():
			now = 'A'
		}
		if now != s.st {
			d.fail("status", "swap %d should be %c but is recorded as %+v", i, s.st, t.Status)
		}
		if live := s.st == 'A' || s.st == 'C'; live && !d.w.Crawler.Observing(s.s.TxID) {
			d.fail("observe", "the transaction of swap %d (%c) is not observed: its settlement will go unnoticed", i, s.st)
		} else if !live && d.w.Crawler.Observing(s.s.TxID) {
			d.fail("observe", "the transaction of swap %d (%c) is still observed", i, s.st)
		}
	}
}

func (d *dae) propose(i int) {
	s := d.slots[i]
	if s.st != 'N' || (i > 0 && d.slots[i-1].st == 'N') {
		d.x.Disabled()
		return
	}
	free := map[string]uint64{}
	m := i % d.mkts
	held := d.holders()
	for k, h := range held {
		if h == "" {
			free[d.assets[k]] += d.vals[k]
		}
	}
	s.s = d.w.Propose(i+1, m)
	q, f := free[fmt.Sprint(world.Account(m), world.Quote(m))], free[fmt.Sprint(domain.FeeAccount, world.LBTC)]
	enough := q > world.Lot && f >= world.FeePaid
	if !s.s.Accepted {
		s.st = 'R'
		if enough {
			d.fail("refused", "swap %d is refused (%s %v) though %d and %d for fees are free", i, s.s.Refusal, s.s.Err, q, f)
		}
		return
	}
	s.st, s.at, s.due = 'A', d.now, d.now+expiry+grace
	us := d.w.Unspents()
	for _, k := range world.Ins(s.s.Tx) {
		if _, ok := us[k]; !ok {
			continue // of the trader
		}
		s.coins = append(s.coins, k)
		if h := held[k]; h != "" {
			d.fail("taken", "swap %d was accepted with coin %s, which is %s", i, d.names[k], h)
		}
	}
	if len(s.coins) < 2 {
		d.fail("nocoins", "swap %d was accepted with %d coins of the wallet", i, len(s.coins))
	}
	t, err := transaction.NewTxFromHex(s.s.Raw)
	if err != nil {
		panic(err)
	}
	for n := 1; n < len(t.Outputs); n++ {
		k := domain.UnspentKey{TxID: t.TxHash().String(), VOut: uint32(n)}
		s.outs = append(s.outs, k)
		d.names[k] = fmt.Sprintf("out%d.%d", i, n)
	}
}

// learn the values of the outputs of a settled swap.
func (d *dae) learn(s *slot) {
	us := d.w.Unspents()
	info := map[string]int{}
	v, err := d.w.Repo.VaultRepository().GetOrCreateVault(bg, nil, "", nil)
	if err != nil {
		panic(err)
	}
	for addr, acc := range v.AccountAndKeyByAddress {
		info[addr] = acc.AccountIndex
	}
	for _, k := range s.outs {
		if u, ok := us[k]; ok {
			d.vals[k], d.assets[k] = u.Value, fmt.Sprint(info[u.Address], u.AssetHash)
		}
	}
}

func (d *dae) complete(i int, fault bool) {
	s := d.slots[i]
	if s.st == 'N' || s.st == 'R' {
		d.x.Disabled()
		return
	}
	if fault {
		d.w.Explorer.Fault = func(call string) error {
			if call == "Broadcast" {
				return errors.New("explorer failure")
			}
			return nil
		}
	}
	before := len(d.w.Explorer.Broadcasted())
	id, err := d.w.Complete(s.s)
	d.w.Explorer.Fault = nil
	d.x.Settle()
	sent := len(d.w.Explorer.Broadcasted()) > before
	switch s.st {
	case 'A':
		late := d.now-s.at >= expiry
		switch {
		case fault && (err == nil || sent):
			d.fail("complete", "completing swap %d succeeded (%v) although it could not be broadcast", i, id)
		case fault:
		case late && (err == nil || sent):
			d.fail("complete", "swap %d was completed after its deadline", i)
		case late:
		case err != nil || id != s.s.TxID || !sent:
			d.fail("complete", "the live swap %d can't be completed: %v", i, err)
		default:
			s.st = 'C'
			d.learn(s)
		}
	case 'C', 'S':
	default:
		if err == nil || sent {
			d.fail("complete", "swap %d was completed after it ended (%c)", i, s.st)
		}
	}
}

func (d *dae) reject(i int, id string, about bool) {
	s := d.slots[i]
	if s.st == 'N' || s.st == 'R' {
		d.x.Disabled()
		return
	}
	d.w.Reject(id)
	d.x.Settle()
	if about && s.st == 'A' {
		s.st = 'F'
	}
}

func (d *dae) confirm(i int) {
	s := d.slots[i]
	if s.st != 'A' && s.st != 'C' && s.st != 'S' {
		d.x.Disabled()
		return
	}
	d.w.Confirm(s.s.TxID, s.s.Raw)
	d.x.Settle()
	s.st = 'S'
	d.learn(s)
}

func (d *dae) sleep(n int) {
	d.x.Sleep(time.Duration(n) * time.Second)
	d.now += n
	ended := map[string]bool{}
	for _, t := range d.w.Trades() {
		if t.Status.Code == domain.Expired {
			ended[t.SwapAccept.ID] = true
		}
	}
	for _, s := range d.slots {
		// between the deadline and the time to give up either is fine
		if s.st == 'A' && (d.now >= s.due || (d.now-s.at >= expiry && ended[s.s.ID])) {
			s.st = 'X'
		}
	}
}

func (d *dae) restart() {
	d.w.Restart()
	d.w.Listener.StartObservation()
	d.x.Sleep(3 * time.Second) // pending observations start in a row
	d.now += 3
	for _, s := range d.slots {
		if s.st == 'A' {
			left := s.at + expiry
			if d.now > left {
				left = d.now
			}
			if left+grace > s.due {
				s.due = left + grace
			}
		}
	}
}

func ops() []string {
	out := []string{}
	for i := 0; i < nSlots; i++ {
		for _, o := range []string{"propose", "complete", "complete-unsent", "fail", "fail-request", "fail-complete", "confirm"} {
			out = append(out, fmt.Sprintf("%s %d", o, i))
		}
	}
	return append(out, fmt.Sprintf("sleep %d", stepTime), fmt.Sprintf("sleep %d", expiry+grace+10), "fail-unknown", "restart")
}

func (d *dae) do(op string) {
	var name string
	var i int
	fmt.Sscan(op, &name, &i)
	switch name {
	case "propose":
		d.propose(i)
	case "complete":
		d.complete(i, false)
	case "complete-unsent":
		d.complete(i, true)
	case "fail":
		id := ""
		if d.slots[i].s != nil {
			id = d.slots[i].s.ID
		}
		d.reject(i, id, true)
	case "fail-request":
		d.reject(i, fmt.Sprintf("req%d", i+1), false)
	case "fail-complete":
		d.reject(i, fmt.Sprintf("com-req%d", i+1), false)
	case "confirm":
		d.confirm(i)
	case "sleep":
		d.sleep(i)
	case "fail-unknown":
		d.w.Reject("nothing")
	case "restart":
		d.restart()
	}
	d.x.Settle()
}

func (d *dae) digest() string {
	b := strings.Builder{}
	names := func(ks []domain.UnspentKey) string {
		o := []string{}
		for _, k := range ks {
			o = append(o, d.names[k])
		}
		sort.Strings(o)
		return strings.Join(o, ",")
	}
	for _, s := range d.slots {
		fmt.Fprintf(&b, "%c[%s]", s.st, names(s.coins))
		if s.st == 'A' {
			fmt.Fprintf(&b, "%d/%d", d.now-s.at, s.due-d.now)
		}
		b.WriteByte(' ')
	}
	us := d.w.Unspents()
	real := []string{}
	for k, u := range us {
		real = append(real, fmt.Sprintf("%s:%v%v%v", d.names[k], u.Spent, u.Locked, u.Confirmed))
	}
	sort.Strings(real)
	return b.String() + strings.Join(real, " ")
}

func main() {
	scs := []*explore.Scenario{}
	names := ops()
	for _, badger := range []bool{false, true} {
		for n, st := range setups {
			badger, st := badger, st
			back := map[bool]string{false: "in-memory", true: "persistent"}[badger]
			depth := 5
			if badger {
				depth = 4
			}
			scs = append(scs, &explore.Scenario{Name: back + ": " + st.name, Ops: names, Bound: depth, ThoroughBound: 9, ThoroughOnly: badger && n > 1,
				Hist: func(x *explore.Exec, path []int) {
					d := newDae(x, st, badger)
					defer d.w.Close()
					for k, p := range path {
						x.Log("%s", names[p])
						d.do(names[p])
						if k == len(path)-1 {
							d.check()
						}
					}
					x.Outcome("%s", d.states())
					x.State(d.digest())
				}})
		}
	}
	explore.Main(func() *hx.Check { return hx.New("C02", "model_checking") }, scs, func(c *hx.Check) {
		c.Count("states", c.Get("distinct_states"))
		c.Count("transitions", c.Get("executions"))
		c.Count("traces_validated_against_impl", c.Get("executions"))
		c.Info("rule", "breadth-first search of all histories of the operations, states identified by swap states, ages and the flags of every coin")
		c.Sample("propose 0, complete-unsent 0, sleep 190, propose 1, fail 0")
		c.Assume("filling of the accepted transaction is replaced by an unblinded equivalent that selects coins with the real selection")
		c.Assume("an explorer that answers a broadcast with an error has not broadcast it; restarts rebuild the services over the same storage")
		c.Finish()
	})
}
