package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	"github.com/tdex-network/tdex-daemon/verif/explore"
)

// body is what a thread does: operations one by one, or a transaction.
type body struct {
	ops  []string
	tx   string // kind of the transaction
	fail bool   // it fails at the end
}

func (b body) name() string {
	s := strings.Join(b.ops, ", ")
	if b.tx != "" {
		s = b.tx + "{" + s + "}"
	}
	if b.fail {
		s += " failing"
	}
	return s
}

func (b body) run(r ports.RepoManager) string {
	var got []string
	do := func(ctx context.Context) error {
		got = nil
		for _, n := range b.ops {
			s, err := find(n).f(ctx, r)
			if err != nil {
				return err
			}
			got = append(got, s)
		}
		if b.fail {
			return errEnd
		}
		return nil
	}
	var err error
	if b.tx == "" {
		err = do(bg)
	} else {
		_, err = runner(r, b.tx)(bg, false, func(ctx context.Context) (interface{}, error) { return nil, do(ctx) })
	}
	if err != nil {
		return "error"
	}
	return fmt.Sprint(got)
}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			out = append(out, append(append(append([]int{}, p[:i]...), n-1), p[i:]...))
		}
	}
	return out
}

// serial gives what the serial orders lead to.
var serialMemo = map[string]map[string]bool{}

func serial(key string, bs []body, kind int) map[string]bool {
	if m := serialMemo[key]; m != nil {
		return m
	}
	m := map[string]bool{}
	for _, p := range perms(len(bs)) {
		r := open()
		populate(r, kind)
		res := make([]string, len(bs))
		for _, i := range p {
			res[i] = bs[i].run(r)
		}
		m[fmt.Sprint(res)+"\n"+digest(bg, r)] = true
		r.Close()
	}
	serialMemo[key] = m
	return m
}

func races() []*explore.Scenario {
	one := func(n ...string) body { return body{ops: n} }
	tx := func(n ...string) body { return body{ops: n, tx: "main"} }
	bad := func(n ...string) body { return body{ops: n, tx: "main", fail: true} }
	pr := func(n ...string) body { return body{ops: n, tx: "prices"} }
	un := func(n ...string) body { return body{ops: n, tx: "unspents"} }
	type pairing struct {
		kind     int
		bs       []body
		thorough bool
	}
	var ps []pairing
	add := func(kind int, bs ...body) { ps = append(ps, pairing{kind, bs, false}) }
	rmw := []body{one("fee 5"), one("count 1"), one("derive"), tx("fee 5"), tx("count 1", "derive"), tx("fee 5", "derive"), one("open"), one("close"), one("lock for 1"), tx("lock for 2"), tx("next market"), bad("fee 5", "derive"), bad("count 1", "next market")}
	for i, a := range rmw {
		for j, b := range rmw {
			if j >= i {
				ps = append(ps, pairing{1, []body{a, b}, !(i == j || shares(a, b))})
			}
		}
	}
	add(2, one("unlock"), one("lock for 2"))
	add(2, one("delete 5"), tx("fee 5", "derive"))
	add(0, tx("vault", "market 5"), tx("vault", "market 5"))
	add(0, tx("trade 1", "count 1"), tx("trade 1", "count 1"))
	add(1, pr("price 5", "price 5 again"), pr("price 5 again", "price 5"))
	add(2, pr("price 5", "price 6"), pr("price 5 again", "read prices"))
	add(2, un("confirm", "spend 0"), un("confirm"))
	add(1, un("spend both"), un("spend 0"))
	add(1, un("add unconfirmed", "confirm"), un("add unconfirmed"))
	add(1, one("spend 0"), one("spend both"))
	add(2, one("confirm"), one("confirm"))
	add(1, tx("fee 5"), tx("fee 5"), tx("fee 5"))
	add(1, one("derive"), one("derive"), one("derive"))
	add(1, one("count 1"), tx("count 1", "derive"), one("derive"))
	add(1, one("lock for 1"), one("lock for 2"), one("unlock"))
	var out []*explore.Scenario
	for _, p := range ps {
		p := p
		names := []string{}
		for _, b := range p.bs {
			names = append(names, b.name())
		}
		name := fmt.Sprintf("state %d: %s", p.kind, strings.Join(names, " | "))
		sc := &explore.Scenario{Name: name, Bound: 1, ThoroughBound: 2, Delay: true, Quantum: time.Second, Ticks: 4, ThoroughOnly: p.thorough,
			Setup: func(x *explore.Exec) {
				r := open()
				populate(r, p.kind)
				x.V["r"] = r
				x.Settle()
				res := make([]string, len(p.bs))
				x.V["res"] = res
				for i := range p.bs {
					i := i
					x.Thread(fmt.Sprint(i), func() { res[i] = p.bs[i].run(r) })
				}
			},
			Final: func(x *explore.Exec) {
				r := x.V["r"].(ports.RepoManager)
				defer r.Close()
				got := fmt.Sprint(x.V["res"].([]string)) + "\n" + digest(bg, r)
				if want := serial(name, p.bs, p.kind); !want[got] {
					x.Fail("serial", "%s: ends as no serial order does: %s", name, got)
				}
				x.Outcome("%s", got)
			}}
		sc.Sched.Points = []string{"S:internal/infrastructure/storage/db/badger", "L:*"}
		out = append(out, sc)
	}
	return out
}

// shares tells whether both touch the same things.
func shares(a, b body) bool {
	for _, x := range a.ops {
		for _, y := range b.ops {
			if thing[x] == thing[y] {
				return true
			}
		}
	}
	return false
}

var thing = map[string]string{"fee 5": "market", "open": "market", "close": "market", "next market": "markets", "count 1": "trade", "derive": "vault", "lock for 1": "lock", "lock for 2": "lock"}
