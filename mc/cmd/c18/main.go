// C18: storage transactions. Every program of up to 3 (4) operations inside a
// transaction that ends well, fails or panics, against a twin store on which
// the operations were made one by one; every interleaving, up to a number of
// deviations, of transactions that read and write, against the serial orders;
// and for every step of the histories on disk, every torn write of it.
//
//mc:instr internal/infrastructure/storage/db/badger=LS internal/core/domain=L pkg/wallet=M
package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/dgraph-io/badger/v2"
	"github.com/google/uuid"
	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	dbbadger "github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/badger"
	"github.com/tdex-network/tdex-daemon/verif/explore"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/tdex-network/tdex-daemon/verif/world"
)

var bg = context.Background()

var (
	t1, t2   = uuid.UUID{1}, uuid.UUID{2}
	coins    = twoCoins()
	coinKeys = []domain.UnspentKey{coins[0].Key(), coins[1].Key()}
)

func twoCoins() (out []domain.Unspent) {
	for i := 0; i < 2; i++ {
		out = append(out, domain.Unspent{TxID: strings.Repeat(fmt.Sprintf("%02x", i+1), 32), VOut: uint32(i), Value: uint64(10 + i), AssetHash: world.Base, Confirmed: true, Address: "a"})
	}
	return
}

// op is something a handler does.
type op struct {
	name string
	in   string // main, prices, unspents
	f    func(ctx context.Context, r ports.RepoManager) (string, error)
}

func ops() []op {
	out := []op{}
	add := func(in, name string, f func(ctx context.Context, r ports.RepoManager) (string, error)) {
		out = append(out, op{name, in, f})
	}
	do := func(in, name string, f func(ctx context.Context, r ports.RepoManager) error) {
		add(in, name, func(ctx context.Context, r ports.RepoManager) (string, error) { return "", f(ctx, r) })
	}
	create := func(a int) func(ctx context.Context, r ports.RepoManager) error {
		return func(ctx context.Context, r ports.RepoManager) error {
			_, err := r.MarketRepository().GetOrCreateMarket(ctx, &domain.Market{AccountIndex: a, Fee: 25})
			return err
		}
	}
	do("main", "market 5", create(5))
	do("main", "market 6", create(6))
	do("main", "fee 5", func(ctx context.Context, r ports.RepoManager) error {
		return r.MarketRepository().UpdateMarket(ctx, 5, func(m *domain.Market) (*domain.Market, error) { m.Fee++; return m, nil })
	})
	do("main", "fund 5", func(ctx context.Context, r ports.RepoManager) error {
		return r.MarketRepository().UpdateMarket(ctx, 5, func(m *domain.Market) (*domain.Market, error) {
			m.BaseAsset, m.QuoteAsset = world.Base, world.Quote(0)
			return m, nil
		})
	})
	do("main", "refused update 5", func(ctx context.Context, r ports.RepoManager) error {
		return r.MarketRepository().UpdateMarket(ctx, 5, func(m *domain.Market) (*domain.Market, error) {
			m.Fee = 7
			return nil, errors.New("refused")
		})
	})
	do("main", "open", func(ctx context.Context, r ports.RepoManager) error {
		return r.MarketRepository().OpenMarket(ctx, world.Quote(0))
	})
	do("main", "close", func(ctx context.Context, r ports.RepoManager) error {
		return r.MarketRepository().CloseMarket(ctx, world.Quote(0))
	})
	do("main", "delete 5", func(ctx context.Context, r ports.RepoManager) error {
		return r.MarketRepository().DeleteMarket(ctx, 5)
	})
	add("main", "next market", func(ctx context.Context, r ports.RepoManager) (string, error) {
		_, n, err := r.MarketRepository().GetLatestMarket(ctx)
		if err != nil {
			return "", err
		}
		return fmt.Sprint(n + 1), create(n+1)(ctx, r)
	})
	do("main", "trade 1", func(ctx context.Context, r ports.RepoManager) error {
		_, err := r.TradeRepository().GetOrCreateTrade(ctx, &t1)
		return err
	})
	do("main", "trade 2", func(ctx context.Context, r ports.RepoManager) error {
		_, err := r.TradeRepository().GetOrCreateTrade(ctx, &t2)
		return err
	})
	add("main", "count 1", func(ctx context.Context, r ports.RepoManager) (string, error) {
		s := ""
		return s, r.TradeRepository().UpdateTrade(ctx, &t1, func(t *domain.Trade) (*domain.Trade, error) {
			t.ExpiryTime++
			t.TxID = "tx1"
			return t, nil
		})
	})
	do("main", "refused update of trade 1", func(ctx context.Context, r ports.RepoManager) error {
		return r.TradeRepository().UpdateTrade(ctx, &t1, func(t *domain.Trade) (*domain.Trade, error) {
			t.ExpiryTime = 1000
			return nil, errors.New("refused")
		})
	})
	do("main", "vault", func(ctx context.Context, r ports.RepoManager) error {
		_, err := r.VaultRepository().GetOrCreateVault(ctx, world.Words, world.Pass, world.Net)
		return err
	})
	add("main", "derive", func(ctx context.Context, r ports.RepoManager) (string, error) {
		s := ""
		err := r.VaultRepository().UpdateVault(ctx, func(v *domain.Vault) (*domain.Vault, error) {
			v.InitAccount(5)
			in, err := v.DeriveNextExternalAddressForAccount(5)
			if err == nil {
				s = in.DerivationPath
			}
			return v, err
		})
		return s, err
	})
	lock := func(k int, id uuid.UUID) func(ctx context.Context, r ports.RepoManager) (string, error) {
		return func(ctx context.Context, r ports.RepoManager) (string, error) {
			n, err := r.UnspentRepository().LockUnspents(ctx, coinKeys[k:k+1], id)
			return fmt.Sprint(n), err
		}
	}
	add("main", "lock for 1", lock(0, t1))
	add("main", "lock for 2", lock(0, t2))
	add("main", "unlock", func(ctx context.Context, r ports.RepoManager) (string, error) {
		n, err := r.UnspentRepository().UnlockUnspents(ctx, coinKeys[:1])
		return fmt.Sprint(n), err
	})
	add("main", "read", func(ctx context.Context, r ports.RepoManager) (string, error) { return digest(ctx, r), nil })

	price := func(a int, p int64) func(ctx context.Context, r ports.RepoManager) error {
		return func(ctx context.Context, r ports.RepoManager) error {
			return r.MarketRepository().UpdatePrices(ctx, a, domain.Prices{BasePrice: decimal.New(p, -1), QuotePrice: decimal.New(p+1, 0)})
		}
	}
	do("prices", "price 5", price(5, 3))
	do("prices", "price 5 again", price(5, 4))
	do("prices", "price 6", price(6, 5))
	do("prices", "bad price 5", price(5, -5))
	add("prices", "read prices", func(ctx context.Context, r ports.RepoManager) (string, error) { return digest(ctx, r), nil })

	do("unspents", "add 0", func(ctx context.Context, r ports.RepoManager) error {
		return r.UnspentRepository().AddUnspents(ctx, coins[:1])
	})
	do("unspents", "add both", func(ctx context.Context, r ports.RepoManager) error {
		return r.UnspentRepository().AddUnspents(ctx, coins)
	})
	new := coins[1]
	new.TxID, new.Confirmed = strings.Repeat("77", 32), false
	do("unspents", "add unconfirmed", func(ctx context.Context, r ports.RepoManager) error {
		return r.UnspentRepository().AddUnspents(ctx, []domain.Unspent{new})
	})
	add("unspents", "confirm", func(ctx context.Context, r ports.RepoManager) (string, error) {
		n, err := r.UnspentRepository().ConfirmUnspents(ctx, []domain.UnspentKey{new.Key()})
		return fmt.Sprint(n), err
	})
	add("unspents", "spend 0", func(ctx context.Context, r ports.RepoManager) (string, error) {
		n, err := r.UnspentRepository().SpendUnspents(ctx, coinKeys[:1])
		return fmt.Sprint(n), err
	})
	add("unspents", "spend both", func(ctx context.Context, r ports.RepoManager) (string, error) {
		n, err := r.UnspentRepository().SpendUnspents(ctx, coinKeys)
		return fmt.Sprint(n), err
	})
	add("unspents", "read coins", func(ctx context.Context, r ports.RepoManager) (string, error) { return digest(ctx, r), nil })
	return out
}

var all = ops()

func find(name string) op {
	for _, o := range all {
		if o.name == name {
			return o
		}
	}
	panic(name)
}

// digest renders all that the store holds.
func digest(ctx context.Context, r ports.RepoManager) string {
	out := []string{}
	ms, err := r.MarketRepository().GetAllMarkets(ctx)
	if err != nil {
		out = append(out, "markets: "+err.Error())
	}
	for _, m := range ms {
		out = append(out, fmt.Sprintf("market %d %s fee %d open %v price %s %s", m.AccountIndex, m.QuoteAsset, m.Fee, m.Tradable, m.Price.BasePrice, m.Price.QuotePrice))
	}
	ts, err := r.TradeRepository().GetAllTrades(ctx)
	if err != nil {
		out = append(out, "trades: "+err.Error())
	}
	for _, t := range ts {
		out = append(out, fmt.Sprintf("trade %d count %d %s", t.ID[0], t.ExpiryTime, t.TxID))
	}
	if t, err := r.TradeRepository().GetTradeByTxID(ctx, "tx1"); err == nil && t != nil {
		out = append(out, fmt.Sprintf("by txid %d", t.ID[0]))
	}
	if in, err := r.VaultRepository().GetAllDerivedAddressesInfoForAccount(ctx, 5); err == nil {
		out = append(out, fmt.Sprintf("addresses %d", len(in)))
	} else {
		out = append(out, "vault: "+err.Error())
	}
	for _, u := range r.UnspentRepository().GetAllUnspents(ctx) {
		l := "-"
		if u.LockedBy != nil {
			l = fmt.Sprint(u.LockedBy[0])
		}
		out = append(out, fmt.Sprintf("coin %s %d confirmed %v spent %v locked %s", u.TxID[:2], u.Value, u.Confirmed, u.Spent, l))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func exec(ctx context.Context, r ports.RepoManager, o op) (res string) {
	s, err := o.f(ctx, r)
	if err != nil {
		return s + " error"
	}
	return s
}

// populate makes one of the initial states.
func populate(r ports.RepoManager, kind int) {
	switch kind {
	case 1:
		for _, n := range []string{"market 5", "fund 5", "trade 1", "vault", "add both", "price 5", "price 6"} {
			exec(bg, r, find(n))
		}
	case 2:
		for _, n := range []string{"market 5", "fund 5", "market 6", "open", "trade 1", "trade 2", "count 1", "vault", "derive", "add both", "lock for 1", "price 5", "price 6", "add unconfirmed"} {
			exec(bg, r, find(n))
		}
	}
}

type pair struct {
	r    [2]ports.RepoManager
	used int
}

func open() ports.RepoManager {
	r, err := dbbadger.NewRepoManager("", nil)
	if err != nil {
		panic(err)
	}
	return r
}

func clear(r ports.RepoManager) {
	for _, tx := range []ports.Transaction{r.NewTransaction(), r.NewPricesTransaction(), r.NewUnspentsTransaction()} {
		t := tx.(*badger.Txn)
		it := t.NewIterator(badger.DefaultIteratorOptions)
		keys := [][]byte{}
		for it.Rewind(); it.Valid(); it.Next() {
			keys = append(keys, it.Item().KeyCopy(nil))
		}
		it.Close()
		for _, k := range keys {
			if err := t.Delete(k); err != nil {
				panic(err)
			}
		}
		if err := t.Commit(); err != nil {
			panic(err)
		}
	}
}

func runner(r ports.RepoManager, in string) func(context.Context, bool, func(context.Context) (interface{}, error)) (interface{}, error) {
	switch in {
	case "prices":
		return r.RunPricesTransaction
	case "unspents":
		return r.RunUnspentsTransaction
	}
	return r.RunTransaction
}

var errEnd = errors.New("the handler gives up")

// programs: sequences of operations in a transaction.
func programs(c *hx.Check) {
	max := map[string]int{"main": 2, "prices": 3, "unspents": 3}
	if c.Thorough() {
		max = map[string]int{"main": 3, "prices": 4, "unspents": 4}
	}
	type job struct {
		in   string
		prog []op
	}
	var jobs []job
	for _, in := range []string{"main", "prices", "unspents"} {
		var mine []op
		for _, o := range all {
			if o.in == in {
				mine = append(mine, o)
			}
		}
		last := [][]op{{}}
		for d := 0; d < max[in]; d++ {
			var next [][]op
			for _, l := range last {
				for _, o := range mine {
					p := append(append([]op{}, l...), o)
					next = append(next, p)
					jobs = append(jobs, job{in, p})
				}
			}
			last = next
		}
	}
	pool := make(chan *pair, runtime.NumCPU())
	for i := 0; i < cap(pool); i++ {
		pool <- &pair{}
	}
	stuck := false
	t0 := time.Now()
	defer func() { c.Info("program_seconds", time.Since(t0).Seconds()) }()
	c.Par(len(jobs), func(j int) {
		if c.Expired() || stuck {
			c.Cap("programs in transactions stopped")
			return
		}
		in, prog := jobs[j].in, jobs[j].prog
		for k, o := range prog {
			// the price of a market made again is reset at once, as prices
			// have their own transactions
			if strings.HasPrefix(o.name, "market ") || o.name == "next market" {
				for _, b := range prog[:k] {
					if b.name == "delete 5" {
						return
					}
				}
			}
		}
		p := <-pool
		defer func() { pool <- p }()
		if p.r[0] == nil || p.used > 500 {
			for i, r := range p.r {
				if r != nil {
					r.Close()
				}
				p.r[i] = open()
			}
			p.used = 0
		}
		for kind := 0; kind < 3; kind++ {
			// made one by one, up to the first that fails
			clear(p.r[1])
			populate(p.r[1], kind)
			before := digest(bg, p.r[1])
			var want []string
			good := true
			for _, o := range prog {
				s := exec(bg, p.r[1], o)
				want = append(want, s)
				if strings.HasSuffix(s, "error") {
					good = false
					break
				}
			}
			after := digest(bg, p.r[1])
			for _, end := range []string{"ok", "error", "panic", "read only"} {
				if !good && end != "ok" {
					continue
				}
				names := []string{}
				for _, o := range prog {
					names = append(names, o.name)
				}
				desc := fmt.Sprintf("%s transaction on state %d: %s, ends with %s", in, kind, strings.Join(names, "; "), end)
				clear(p.r[0])
				populate(p.r[0], kind)
				var got []string
				var res interface{}
				var err error
				var pv interface{}
				r := p.r[0]
				p.used++
				done := hx.Within(5*time.Second, func() {
					pv, _ = hx.Catch(func() {
						res, err = runner(r, in)(bg, end == "read only", func(ctx context.Context) (interface{}, error) {
							got = nil
							for _, o := range prog {
								s, e := o.f(ctx, r)
								if e != nil {
									got = append(got, s+" error")
									return nil, e
								}
								got = append(got, s)
							}
							// nothing shows outside before the end
							if d := digest(bg, r); d != before {
								c.Fail("visible", desc+": seen from outside before the end:\n"+d, desc)
							}
							switch end {
							case "error":
								return nil, errEnd
							case "panic":
								panic(errEnd)
							}
							return "result", nil
						})
					})
				})
				if !done {
					stuck = true
					c.Fail("stuck", desc+": does not end", desc)
					return
				}
				c.Count("evaluations", 1)
				wanted := after
				bad := false
				switch {
				case end == "panic":
					wanted, bad = before, pv == nil
				case pv != nil:
					bad = true
				case !good:
					wanted, bad = before, err == nil
				case end == "error":
					wanted, bad = before, err != errEnd
				case end == "read only":
					wanted, bad = before, err != nil || res != "result"
				default:
					bad = err != nil || res != "result"
				}
				if bad {
					c.Fail("answer", fmt.Sprintf("%s: answer %v %v, panic %v", desc, res, err, pv), desc)
				}
				if fmt.Sprint(got) != fmt.Sprint(want) {
					c.Fail("inside", fmt.Sprintf("%s: inside the transaction %q, one by one %q", desc, got, want), desc)
				}
				if d := digest(bg, r); d != wanted {
					c.Fail("atomic", fmt.Sprintf("%s: the store holds\n%s\ninstead of\n%s", desc, d, wanted), desc)
				}
				c.Outcome(fmt.Sprint(good, end, err == nil, wanted == before))
			}
		}
	})
}

func main() {
	world.Stubs().Set(strings.Join(world.Words, " "))
	if os.Getenv("C18_LOAD") != "" {
		loader()
		return
	}
	explore.Main(func() *hx.Check {
		c := hx.New("C18", "fault_enumeration")
		crashes(c)
		programs(c)
		return c
	}, races(), func(c *hx.Check) {
		c.Count("evaluations", c.Get("executions"))
		c.Info("rule", "transactions of up to 2 (3) operations of 19 on the main store, 3 (4) on prices and coins, from three states, ending well, with an error, with a panic or read only; interleavings of two and three transactions at every statement of the store up to 2 delays; every prefix of every write of the histories on disk, with and without the rest zeroed")
		c.Finish()
	})
}
