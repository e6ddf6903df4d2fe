// C25: coin selection, sequentially over every small coin set and target, and
// concurrently over every interleaving of small selections.
//
//mc:instr pkg/explorer=LGSE
package main

import (
	"fmt"
	"sort"
	"time"

	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/verif/explore"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/tdex-network/tdex-daemon/verif/vsync"
	"github.com/vulpemventures/go-elements/transaction"
)

type coin struct {
	id       int
	v        uint64
	asset    string
	conf     bool
	revealed bool
}

func (c coin) Hash() string            { return fmt.Sprintf("%064x", c.id) }
func (c coin) Index() uint32           { return uint32(c.id) }
func (c coin) Value() uint64           { return c.v }
func (c coin) Asset() string           { return c.asset }
func (c coin) ValueCommitment() string { return "" }
func (c coin) AssetCommitment() string { return "" }
func (c coin) ValueBlinder() []byte    { return nil }
func (c coin) AssetBlinder() []byte    { return nil }
func (c coin) Script() []byte          { return nil }
func (c coin) Nonce() []byte           { return nil }
func (c coin) RangeProof() []byte      { return nil }
func (c coin) SurjectionProof() []byte { return nil }
func (c coin) IsConfidential() bool    { return c.conf }
func (c coin) IsConfirmed() bool       { return true }
func (c coin) IsRevealed() bool        { return c.revealed }
func (c coin) Parse() (*transaction.TxInput, *transaction.TxOutput, error) {
	return nil, nil, nil
}

// judge checks one result against the property.
func judge(in []coin, target uint64, asset string, got []explorer.Utxo, change uint64, err error) string {
	total := uint64(0)
	hidden := false
	for _, c := range in {
		if c.conf && !c.revealed {
			hidden = true
			continue
		}
		if c.asset == asset {
			total += c.v
		}
	}
	if hidden {
		if err == nil {
			// tolerated only if nothing hidden is used; checked below
		} else {
			return ""
		}
	}
	if err != nil {
		if total >= target {
			return fmt.Sprintf("refused although the coins hold %d", total)
		}
		return ""
	}
	if total < target {
		return fmt.Sprintf("accepted although the coins hold %d only", total)
	}
	seen := map[int]bool{}
	sum := uint64(0)
	for _, u := range got {
		c, ok := u.(coin)
		if !ok || c.id < 0 || c.id >= len(in) || in[c.id] != c {
			return "a coin that was not given is selected"
		}
		if seen[c.id] {
			return "a coin is selected twice"
		}
		seen[c.id] = true
		if c.asset != asset {
			return "a coin of another asset is selected"
		}
		if c.conf && !c.revealed {
			return "a coin of unknown value is selected"
		}
		sum += c.v
	}
	if sum < target || sum-target != change {
		return fmt.Sprintf("coins of %d and change %d for target %d", sum, change, target)
	}
	return ""
}

func call(in []coin, target uint64, asset string) (string, []explorer.Utxo) {
	us := make([]explorer.Utxo, len(in))
	for i := range in {
		us[i] = in[i]
	}
	got, change, err := explorer.SelectUnspents(us, target, asset)
	for i := range in {
		if us[i].(coin) != in[i] {
			return "the given list of coins is changed", got
		}
	}
	return judge(in, target, asset, got, change, err), got
}

func sequential(c *hx.Check) {
	values := []uint64{1, 2, 3, 7, 10, 11, 50, 1000, 2100000000000000}
	maxN := 4
	if c.Thorough() {
		maxN = 6
	}
	distinct := map[string]bool{}
	kinds := [][2]bool{{false, false}, {true, true}}
	var rec func(in []coin, from int)
	try := func(in []coin) {
		c.Count("states", 1)
		sums := map[uint64]bool{}
		for m := 0; m < 1<<len(in); m++ {
			s := uint64(0)
			for i := range in {
				if m>>i&1 == 1 {
					s += in[i].v
				}
			}
			for _, t := range []uint64{s, s + 1, s - 1, s/10 + 1, s / 10} {
				if t > 0 && t < 1<<62 {
					sums[t] = true
				}
			}
		}
		ts := []uint64{}
		for t := range sums {
			ts = append(ts, t)
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
		for _, t := range ts {
			var why string
			var got []explorer.Utxo
			if p, st := hx.Catch(func() { why, got = call(in, t, "A") }); p != nil {
				why = fmt.Sprintf("panic %v %s", p, st)
			}
			c.Count("transitions", 1)
			if why != "" {
				c.Fail("sequential", fmt.Sprintf("coins %v target %d: %s", in, t, why), map[string]interface{}{"coins": fmt.Sprint(in), "target": t})
			}
			distinct[fmt.Sprint(len(in), len(got), why)] = true
			c.Outcome(fmt.Sprintf("selected %d of %d", len(got), len(in)))
		}
	}
	rec = func(in []coin, from int) {
		try(in)
		// variants: one coin hidden, one or two coins of another asset, at every place
		for i := range in {
			x := append([]coin{}, in...)
			x[i].asset = "B"
			try(x)
			for j := i + 1; j < len(in); j++ {
				y := append([]coin{}, x...)
				y[j].asset = "B"
				try(y)
			}
			x = append([]coin{}, in...)
			x[i].conf, x[i].revealed = true, false
			try(x)
			x[i].asset = "B"
			try(x)
		}
		if len(in) == maxN {
			return
		}
		for vi := from; vi < len(values); vi++ {
			k := kinds[len(in)%2]
			rec(append(append([]coin{}, in...), coin{len(in), values[vi], "A", k[0], k[1]}), vi)
		}
	}
	rec(nil, 0)
	c.Count("traces_validated_against_impl", c.Get("transitions"))
	c.Sample(map[string]interface{}{"coins": "1,2,3,7 of A", "targets": "every subset sum, one more, one less, a tenth of it"})
}

// many checks lists far longer than the exhaustive ones: the answer must be
// right and come at once, whatever the number of coins.
func many(c *hx.Check) {
	shapes := []struct {
		name string
		f    func(i, n int) uint64
	}{
		{"equal", func(i, n int) uint64 { return 5 }},
		{"growing", func(i, n int) uint64 { return uint64(i + 1) }},
		{"falling", func(i, n int) uint64 { return uint64(n - i) }},
		{"two values", func(i, n int) uint64 { return uint64(3 + 4*(i%2)) }},
		{"doubling", func(i, n int) uint64 { return 1 << uint(i%40) }},
		{"one big", func(i, n int) uint64 {
			if i == n/2 {
				return 1000000
			}
			return 7
		}},
		{"even", func(i, n int) uint64 { return uint64(2 + 2*(i%50)) }},
	}
	sizes := []int{16, 20, 24, 28, 40, 100}
	if c.Thorough() {
		sizes = append(sizes, 150, 300)
	}
	for _, n := range sizes {
		for _, sh := range shapes {
			in := []coin{}
			total := uint64(0)
			prefix := []uint64{}
			for i := 0; i < n; i++ {
				asset := "A"
				if i%7 == 6 {
					asset = "B"
				}
				in = append(in, coin{i, sh.f(i, n), asset, i%3 == 0, true})
				if asset == "A" {
					total += in[i].v
				}
				prefix = append(prefix, total)
			}
			c.Count("states", 1)
			ts := map[uint64]bool{1: true, total / 2: true, total/2 + 1: true, total / 3: true, total - 1: true, total: true, total + 1: true, total * 2: true}
			for _, t := range prefix {
				ts[t] = true
				ts[t+1] = true
				ts[t-1] = true
			}
			for t := range ts {
				if t == 0 || t > 1<<62 {
					continue
				}
				var why string
				c.Count("transitions", 1)
				ok := hx.Within(3*time.Second, func() {
					if p, st := hx.Catch(func() { why, _ = call(in, t, "A") }); p != nil {
						why = fmt.Sprintf("panic %v %s", p, st)
					}
				})
				if !ok {
					c.Fail("many-coins", fmt.Sprintf("%d coins (%s), target %d: no answer in 3 s", n, sh.name, t), map[string]interface{}{"coins": n, "shape": sh.name, "target": t})
					c.Finish() // what still runs may take all the memory
				}
				if why != "" {
					c.Fail("many-coins", fmt.Sprintf("%d coins (%s), target %d: %s", n, sh.name, t, why), map[string]interface{}{"coins": n, "shape": sh.name, "target": t})
				}
			}
			c.Outcome(fmt.Sprintf("%d coins %s", n, sh.name))
		}
	}
}

func coins(vs ...uint64) []coin {
	out := []coin{}
	for i, v := range vs {
		out = append(out, coin{i, v, "A", i%2 == 0, true})
	}
	return out
}

type req struct {
	in     []coin
	target uint64
}

func scenario(name string, b, tb int, reqs ...req) *explore.Scenario {
	return &explore.Scenario{
		Name: name, Bound: b, ThoroughBound: tb,
		Sched: vsync.Config{Points: []string{"S:pkg/explorer", "L:*"}},
		Setup: func(x *explore.Exec) {
			res := make([]string, len(reqs))
			x.V["res"] = res
			sel := make([]string, len(reqs))
			x.V["sel"] = sel
			for i := range reqs {
				i := i
				x.Thread(fmt.Sprintf("select%d", i), func() {
					why, got := call(reqs[i].in, reqs[i].target, "A")
					res[i] = why
					for _, g := range got {
						sel[i] += fmt.Sprint(g.Value(), " ")
					}
				})
			}
		},
		Final: func(x *explore.Exec) {
			for i, why := range x.V["res"].([]string) {
				if why != "" {
					x.Fail("selection", "selection %d for target %d while another runs: %s", i, reqs[i].target, why)
				}
			}
			x.Outcome("%v", x.V["sel"])
		},
	}
}

func main() {
	explore.Main(func() *hx.Check {
		c := hx.New("C25", "model_checking")
		c.Assume("amounts stay below 2^62: the chain's total supply of an asset is 2.1e15")
		c.Assume("targets are positive")
		sequential(c)
		many(c)
		return c
	}, []*explore.Scenario{
		scenario("two-small", 2, 3, req{coins(5, 3), 8}, req{coins(7, 2), 9}),
		scenario("two", 2, 2, req{coins(5, 3, 2), 10}, req{coins(400, 300, 200), 900}),
		scenario("three", 2, 2, req{coins(5, 3), 8}, req{coins(7, 2), 9}, req{coins(900, 1), 901}),
	}, func(c *hx.Check) {
		c.Count("traces_validated_against_impl", c.Get("executions"))
		c.Count("transitions", c.Get("choice_points"))
		c.Info("rule", "every coin multiset and target of the alphabet, and longer lists (up to 100 coins, thorough 300) of seven shapes with every prefix sum as target; every interleaving of statements of 2-3 selections up to the deviation bound")
		c.Finish()
	})
}
