// C17: both storage back ends against reference tables. Breadth-first search
// over the states of the reference; from every state reached, every operation
// is executed by the real repositories (the state is rebuilt by replaying its
// shortest history), and its result and every query are compared.
package main

import (
	"context"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/dgraph-io/badger/v2"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	dbbadger "github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/badger"
	"github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/inmemory"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/tdex-network/tdex-daemon/verif/world"
)

var bg = context.Background()

// Op is an operation on one table. Real runs it and renders what it returned;
// Ref changes the reference state and renders what a table would return.
type Op struct {
	Name string
	Real func(ctx context.Context, r ports.RepoManager) string
	Ref  func(s State) string
}

// State is a reference table.
type State interface {
	Key() string
	Clone() State
}

// Table is one of the four.
type Table struct {
	Name    string
	Zero    func() State
	Ops     []Op
	Queries []Op // do not change the state
	Nest    []string
	Max     int // depth of the search, 0: until nothing new
}

func fail(err error) string {
	if err != nil {
		return "error"
	}
	return "ok"
}

// backends: a worker has its own pair.
type pair struct {
	bad  ports.RepoManager
	used int
}

func (p *pair) fresh(which int) ports.RepoManager {
	if which == 0 {
		return inmemory.NewRepoManager()
	}
	p.used++
	if p.bad == nil || p.used > 20000 {
		if p.bad != nil {
			p.bad.Close()
		}
		r, err := dbbadger.NewRepoManager("", nil)
		if err != nil {
			panic(err)
		}
		p.bad, p.used = r, 0
		return r
	}
	for _, tx := range []ports.Transaction{p.bad.NewTransaction(), p.bad.NewPricesTransaction(), p.bad.NewUnspentsTransaction()} {
		t := tx.(*badger.Txn)
		it := t.NewIterator(badger.DefaultIteratorOptions)
		keys := [][]byte{}
		for it.Rewind(); it.Valid(); it.Next() {
			keys = append(keys, it.Item().KeyCopy(nil))
		}
		it.Close()
		for _, k := range keys {
			if err := t.Delete(k); err != nil {
				panic(err)
			}
		}
		if err := t.Commit(); err != nil {
			panic(err)
		}
	}
	return p.bad
}

var backend = []string{"in-memory", "persistent"}

// run an operation plainly or inside nested committed transactions.
func run(op Op, r ports.RepoManager, nest []string) (res string) {
	p, st := hx.Catch(func() {
		f := op.Real
		for _, n := range nest {
			g, n := f, n
			f = func(ctx context.Context, r ports.RepoManager) string {
				runner := r.RunTransaction
				switch n {
				case "unspents":
					runner = r.RunUnspentsTransaction
				case "prices":
					runner = r.RunPricesTransaction
				}
				v, err := runner(ctx, false, func(ctx context.Context) (interface{}, error) { return g(ctx, r), nil })
				if err != nil {
					return "transaction: " + err.Error()
				}
				return v.(string)
			}
		}
		res = f(bg, r)
	})
	if p != nil {
		return fmt.Sprintf("panic: %v at %s", p, st)
	}
	return res
}

type node struct {
	key  string
	path []int
}

func explore(c *hx.Check, t Table) {
	seen := map[string]bool{}
	zero := t.Zero()
	level := []node{{zero.Key(), nil}}
	seen[zero.Key()] = true
	pairs := sync.Pool{New: func() interface{} { return &pair{} }}
	depth := 0
	for len(level) > 0 && (t.Max == 0 || depth < t.Max) {
		if c.Failed() && depth > 3 {
			c.Cap(fmt.Sprintf("%s: states beyond depth %d, after a violation", t.Name, depth))
			break
		}
		if c.Expired() {
			c.Cap(fmt.Sprintf("%s: states beyond depth %d", t.Name, depth))
			break
		}
		depth++
		var mu sync.Mutex
		next := []node{}
		c.Par(len(level), func(i int) {
			if c.Expired() {
				c.Cap(t.Name + ": part of depth " + fmt.Sprint(depth))
				return
			}
			n := level[i]
			p := pairs.Get().(*pair)
			defer pairs.Put(p)
			c.Count("states", 1)
			variants := [][]string{nil}
			if len(t.Nest) > 0 {
				variants = append(variants, t.Nest)
			}
			// the operations that leave the table as it is run one after the
			// other on one instance of the slow back end
			still := []int{}
			for o := range t.Ops {
				s := rebuild(t, n.path)
				t.Ops[o].Ref(s)
				if s.Key() == n.key {
					still = append(still, o)
				}
			}
			batched := map[int]bool{}
			ok := true
			for _, nest := range variants {
				ok = ok && batch(c, t, p, n.path, still, nest)
			}
			if ok {
				for _, o := range still {
					batched[o] = true
				}
			}
			for o := range t.Ops {
				s := rebuild(t, n.path)
				want := t.Ops[o].Ref(s)
				for _, nest := range variants {
					for b := range backend {
						if b == 1 && batched[o] {
							continue
						}
						one(c, t, p, b, n.path, o, nest, want, s)
					}
				}
				c.Count("transitions", 1)
				k := s.Key()
				mu.Lock()
				if !seen[k] {
					seen[k] = true
					next = append(next, node{k, append(append([]int{}, n.path...), o)})
				}
				mu.Unlock()
			}
		})
		sort.Slice(next, func(i, j int) bool { return next[i].key < next[j].key })
		level = next
	}
	c.Info("depth_"+t.Name, depth)
	c.Outcome(fmt.Sprintf("%s: %d states", t.Name, len(seen)))
}

func rebuild(t Table, path []int) State {
	s := t.Zero()
	for _, o := range path {
		t.Ops[o].Ref(s)
	}
	return s
}

func names(t Table, path []int, o int) []string {
	out := []string{}
	for _, x := range path {
		out = append(out, t.Ops[x].Name)
	}
	if o >= 0 {
		out = append(out, t.Ops[o].Name)
	}
	return out
}

// one transition: replay the history, run the operation, compare.
func one(c *hx.Check, t Table, p *pair, b int, path []int, o int, nest []string, want string, s State) {
	r := p.fresh(b)
	for _, x := range path {
		run(t.Ops[x], r, nil)
	}
	got := run(t.Ops[o], r, nest)
	c.Count("traces_validated_against_impl", 1)
	in := ""
	if nest != nil {
		in = " in a transaction"
	}
	if got != want && !(want == "any") {
		c.Fail(fmt.Sprintf("%s.%s.%s", t.Name, backend[b], opClass(t.Ops[o].Name)),
			fmt.Sprintf("%s %s: after %v, %s%s returned\n  %s\na table would return\n  %s", backend[b], t.Name, names(t, path, -1), t.Ops[o].Name, in, got, want), map[string]interface{}{"history": names(t, path, o), "backend": backend[b]})
		return
	}
	for i, q := range t.Queries {
		if nest != nil && !c.Thorough() && i > 0 {
			break
		}
		w := q.Ref(s)
		if w == "any" {
			continue
		}
		g := run(q, r, nil)
		c.Count("queries", 1)
		if g != w {
			c.Fail(fmt.Sprintf("%s.%s.%s.after.%s", t.Name, backend[b], opClass(q.Name), opClass(t.Ops[o].Name)),
				fmt.Sprintf("%s %s: after %v%s, %s returned\n  %s\na table would return\n  %s", backend[b], t.Name, names(t, path, o), in, q.Name, g, w), map[string]interface{}{"history": names(t, path, o), "backend": backend[b]})
			return
		}
	}
}

// batch runs the operations that change nothing one after the other and tells
// whether everything was as it should be (if not, they are run one by one).
func batch(c *hx.Check, t Table, p *pair, path, ops []int, nest []string) bool {
	r := p.fresh(1)
	for _, x := range path {
		run(t.Ops[x], r, nil)
	}
	s := rebuild(t, path)
	for _, o := range ops {
		want := t.Ops[o].Ref(s)
		got := run(t.Ops[o], r, nest)
		c.Count("traces_validated_against_impl", 1)
		if got != want && want != "any" {
			return false
		}
	}
	for i, q := range t.Queries {
		if nest != nil && !c.Thorough() && i > 0 {
			break
		}
		w := q.Ref(s)
		if w == "any" {
			continue
		}
		c.Count("queries", 1)
		if run(q, r, nil) != w {
			return false
		}
	}
	return true
}

func opClass(n string) string {
	if i := strings.IndexByte(n, '('); i > 0 {
		return n[:i]
	}
	return n
}

func set(l []string) string {
	sort.Strings(l)
	return "[" + strings.Join(l, "; ") + "]"
}

func main() {
	c := hx.New("C17", "model_checking")
	domain.MnemonicStoreManager = store
	domain.EncrypterManager = world.Enc{}
	store.Set(strings.Join(world.Words, " "))
	only := os.Getenv("MC_ONLY")
	for _, t := range []Table{coins(c), trades(c), markets(c), vault(c)} {
		if only == "" || only == t.Name {
			explore(c, t)
		}
	}
	_ = runtime.NumCPU
	c.Assume("lists are compared as multisets: their order is not documented")
	c.Assume("whether and by whom a spent coin is marked locked is not observed, nor what look-ups of an empty asset, message id or transaction id return")
	c.Assume("an unknown transaction id may be answered by nothing or by an error")
	c.Assume("no two markets have the same quote asset, no two trades the same accept message or transaction")
	c.Sample(map[string]interface{}{"table": "coins", "history": []string{"Add(a)", "Confirm(a)", "Lock(a,t1)", "Spend(a,a)"}})
	c.Sample(map[string]interface{}{"table": "markets", "history": []string{"Create(5)", "Update(5,fund)", "Open(Q0)", "Delete(5)", "Create(5)"}})
	c.Finish()
}
