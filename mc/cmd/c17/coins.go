package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/google/uuid"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	"github.com/tdex-network/tdex-daemon/verif/hx"
)

var tid = []uuid.UUID{uuid.MustParse("00000000-0000-0000-0000-000000000001"), uuid.MustParse("00000000-0000-0000-0000-000000000002"), uuid.MustParse("00000000-0000-0000-0000-000000000003")}

type coin struct {
	in, conf, spent bool
	lock            int // 0 none, else trade
}

type coinState struct{ c [3]coin }

func (s *coinState) Key() string  { return fmt.Sprintf("%+v", s.c) }
func (s *coinState) Clone() State { x := *s; return &x }

// the coins: a and b at address x in two assets, c at y in the first asset; a
// and b are outputs of the same transaction
var coinDef = []domain.Unspent{
	{TxID: "t0", VOut: 0, Value: 7, AssetHash: "L", Address: "x"},
	{TxID: "t0", VOut: 1, Value: 11, AssetHash: "Q", Address: "x"},
	{TxID: "t1", VOut: 0, Value: 13, AssetHash: "L", Address: "y"},
}

func init() {
	for i := range coinDef {
		b := byte(i + 1)
		u := &coinDef[i]
		u.ValueCommitment, u.AssetCommitment = fmt.Sprint("vc", i), fmt.Sprint("ac", i)
		u.ValueBlinder, u.AssetBlinder = []byte{b, 1}, []byte{b, 2}
		u.ScriptPubKey, u.Nonce = []byte{b, 3}, []byte{b, 4}
		u.RangeProof, u.SurjectionProof = []byte{b, 5}, []byte{b, 6}
	}
}

func showCoin(u domain.Unspent) string {
	lock := ""
	if u.Locked {
		lock = " locked"
		if u.LockedBy != nil {
			lock += " by " + u.LockedBy.String()[35:]
		}
	} else if u.LockedBy != nil {
		lock = " not locked but by " + u.LockedBy.String()
	}
	if u.Spent {
		lock = ""
	}
	conf, spent := u.Confirmed, u.Spent
	u.Locked, u.LockedBy, u.Confirmed, u.Spent = false, nil, false, false
	return fmt.Sprintf("%+v conf=%v spent=%v%s", u, conf, spent, lock)
}

func (s *coinState) show(i int) string {
	u := coinDef[i]
	u.Confirmed, u.Spent = s.c[i].conf, s.c[i].spent
	if s.c[i].lock > 0 {
		u.Locked, u.LockedBy = true, &tid[s.c[i].lock-1]
	}
	return showCoin(u)
}

func showCoins(us []domain.Unspent, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	out := []string{}
	for i := range us {
		out = append(out, showCoin(us[i]))
		// what was returned is the caller's
		us[i].Value, us[i].Spent, us[i].Address = 1, true, "z"
	}
	return set(out)
}

func keyOf(i int) domain.UnspentKey {
	if i > 2 {
		return domain.UnspentKey{TxID: "t9", VOut: 0}
	}
	return coinDef[i].Key()
}

func keys(l []int) (out []domain.UnspentKey) {
	for _, i := range l {
		out = append(out, keyOf(i))
	}
	return
}

func ns(l []int) string {
	out := []string{}
	for _, i := range l {
		out = append(out, string("abcu"[i]))
	}
	return strings.Join(out, ",")
}

func coins(c *hx.Check) Table {
	t := Table{Name: "coins", Zero: func() State { return &coinState{} }, Nest: []string{"unspents"}}
	num := func(n int, err error) string {
		if err != nil {
			return "error: " + err.Error()
		}
		return fmt.Sprint(n)
	}
	add := func(name string, l []int, conf bool) {
		t.Ops = append(t.Ops, Op{name, func(ctx context.Context, r ports.RepoManager) string {
			us := []domain.Unspent{}
			for _, i := range l {
				u := coinDef[i]
				u.Confirmed = conf
				us = append(us, u)
			}
			res := fail(r.UnspentRepository().AddUnspents(ctx, us))
			for i := range us {
				us[i].Value = 1 // the caller's
			}
			return res
		}, func(s State) string {
			st := s.(*coinState)
			for _, i := range l {
				if !st.c[i].in {
					st.c[i] = coin{in: true, conf: conf}
				}
			}
			return "ok"
		}})
	}
	for i := 0; i < 3; i++ {
		add(fmt.Sprintf("Add(%s,confirmed)", ns([]int{i})), []int{i}, true)
		if i == 2 && !c.Thorough() {
			continue
		}
		add(fmt.Sprintf("Add(%s,unconfirmed)", ns([]int{i})), []int{i}, false)
	}
	add("Add(a,b,a,unconfirmed)", []int{0, 1, 0}, false)
	lists := [][]int{{0}, {1}, {2}, {0, 1}, {0, 0}, {3, 2}, {}}
	for _, l := range lists {
		l := l
		mark := func(name string, real func(ctx context.Context, r domain.UnspentRepository) (int, error), ref func(c *coin) bool) {
			t.Ops = append(t.Ops, Op{fmt.Sprintf("%s(%s)", name, ns(l)), func(ctx context.Context, r ports.RepoManager) string {
				return num(real(ctx, r.UnspentRepository()))
			}, func(s State) string {
				n := 0
				free := false
				for _, i := range l {
					if i > 2 || !s.(*coinState).c[i].in {
						continue
					}
					was := s.(*coinState).c[i]
					if ref(&s.(*coinState).c[i]) {
						n++
					}
					// locks of spent coins are not observed
					if was.spent && (strings.HasPrefix(name, "Lock") || name == "Unlock") {
						free = true
					}
				}
				if free {
					return "any"
				}
				return fmt.Sprint(n)
			}})
		}
		mark("Spend", func(ctx context.Context, r domain.UnspentRepository) (int, error) {
			return r.SpendUnspents(ctx, keys(l))
		}, func(c *coin) bool {
			was := c.spent
			c.spent, c.lock = true, 0
			return !was
		})
		mark("Confirm", func(ctx context.Context, r domain.UnspentRepository) (int, error) {
			return r.ConfirmUnspents(ctx, keys(l))
		}, func(c *coin) bool {
			was := c.conf
			c.conf = true
			return !was
		})
		if len(l) > 0 && l[0] == 2 && !c.Thorough() {
			continue
		}
		mark("Unlock", func(ctx context.Context, r domain.UnspentRepository) (int, error) {
			return r.UnlockUnspents(ctx, keys(l))
		}, func(c *coin) bool {
			was := c.lock
			c.lock = 0
			return was > 0
		})
		for k := 0; k < 2; k++ {
			k := k
			mark(fmt.Sprint("Lock-t", k+1), func(ctx context.Context, r domain.UnspentRepository) (int, error) {
				return r.LockUnspents(ctx, keys(l), tid[k])
			}, func(c *coin) bool {
				if c.spent || c.lock > 0 {
					return false
				}
				c.lock = k + 1
				return true
			})
		}
	}
	// queries
	q := func(name string, real func(ctx context.Context, r domain.UnspentRepository) string, ref func(s *coinState) string) {
		t.Queries = append(t.Queries, Op{name, func(ctx context.Context, r ports.RepoManager) string { return real(ctx, r.UnspentRepository()) }, func(s State) string { return ref(s.(*coinState)) }})
	}
	pick := func(s *coinState, f func(c coin, u domain.Unspent) bool) string {
		out := []string{}
		for i := range s.c {
			if s.c[i].in && f(s.c[i], coinDef[i]) {
				out = append(out, s.show(i))
			}
		}
		return set(out)
	}
	has := func(l []string, a string) bool {
		for _, x := range l {
			if x == a {
				return true
			}
		}
		return false
	}
	q("GetAllUnspents", func(ctx context.Context, r domain.UnspentRepository) string {
		return showCoins(r.GetAllUnspents(ctx), nil)
	},
		func(s *coinState) string { return pick(s, func(coin, domain.Unspent) bool { return true }) })
	q("GetAvailableUnspents", func(ctx context.Context, r domain.UnspentRepository) string {
		return showCoins(r.GetAvailableUnspents(ctx))
	},
		func(s *coinState) string {
			return pick(s, func(c coin, _ domain.Unspent) bool { return c.conf && !c.spent && c.lock == 0 })
		})
	for _, al := range [][]string{{"x"}, {"y"}, {"y", "x", "x"}, {"z"}, {}} {
		al := al
		n := "(" + strings.Join(al, ",") + ")"
		q("GetAllUnspentsForAddresses"+n, func(ctx context.Context, r domain.UnspentRepository) string {
			return showCoins(r.GetAllUnspentsForAddresses(ctx, al))
		}, func(s *coinState) string {
			return pick(s, func(_ coin, u domain.Unspent) bool { return has(al, u.Address) })
		})
		q("GetUnspentsForAddresses"+n, func(ctx context.Context, r domain.UnspentRepository) string {
			return showCoins(r.GetUnspentsForAddresses(ctx, al))
		}, func(s *coinState) string {
			return pick(s, func(c coin, u domain.Unspent) bool { return has(al, u.Address) && c.conf && !c.spent })
		})
		q("GetAvailableUnspentsForAddresses"+n, func(ctx context.Context, r domain.UnspentRepository) string {
			return showCoins(r.GetAvailableUnspentsForAddresses(ctx, al))
		}, func(s *coinState) string {
			return pick(s, func(c coin, u domain.Unspent) bool { return has(al, u.Address) && c.conf && !c.spent && c.lock == 0 })
		})
		for _, as := range []string{"L", "Q", "N"} {
			as := as
			if !c.Thorough() && (as == "N" || (as == "Q" && len(al) != 3)) {
				continue
			}
			bal := func(s *coinState, unlocked bool) string {
				n := uint64(0)
				for i, c := range s.c {
					if c.in && c.conf && !c.spent && has(al, coinDef[i].Address) && coinDef[i].AssetHash == as && (!unlocked || c.lock == 0) {
						n += coinDef[i].Value
					}
				}
				return fmt.Sprint(n)
			}
			show := func(n uint64, err error) string {
				if err != nil {
					return "error: " + err.Error()
				}
				return fmt.Sprint(n)
			}
			q("GetBalance"+n+as, func(ctx context.Context, r domain.UnspentRepository) string { return show(r.GetBalance(ctx, al, as)) },
				func(s *coinState) string { return bal(s, false) })
			q("GetUnlockedBalance"+n+as, func(ctx context.Context, r domain.UnspentRepository) string {
				return show(r.GetUnlockedBalance(ctx, al, as))
			},
				func(s *coinState) string { return bal(s, true) })
		}
	}
	for i := 0; i < 4; i++ {
		i := i
		q("GetUnspentWithKey("+ns([]int{i})+")", func(ctx context.Context, r domain.UnspentRepository) string {
			u, err := r.GetUnspentWithKey(ctx, keyOf(i))
			if err != nil {
				return "error: " + err.Error()
			}
			if u == nil {
				return "none"
			}
			s := showCoin(*u)
			u.Value, u.Spent = 1, true
			return s
		}, func(s *coinState) string {
			if i > 2 || !s.c[i].in {
				return "none"
			}
			return s.show(i)
		})
	}
	// a second look, so that what the first one returned was really the caller's
	t.Queries = append(t.Queries, t.Queries[0])
	return t
}
