// C19: every combination of failing steps of a unit of work with up to four
// participants, alone, shared, nested and run again, on the real UnitOfWork.
package main

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/uow"
	"github.com/tdex-network/tdex-daemon/verif/hx"
)

// part is a participant; those with the same key share one transaction.
type part struct {
	i    int
	kind int // 0: its own context, 1 and 2: one of two shared keys
	// failures, by generation of the transaction
	begin, commit, rollback bool
	w                       *world
}

type keyed struct{ *part }

func (k keyed) ContextKey() interface{} { return k.kind }

type tx struct {
	p         *part
	gen       int
	commits   int
	rollbacks int
}

type world struct {
	log  []string
	txs  []*tx
	gen  int
	once bool // failures only in the first generation
}

func (p *part) Begin() (uow.Tx, error) {
	if p.begin && (!p.w.once || p.w.gen == 0) {
		p.w.log = append(p.w.log, fmt.Sprintf("begin%d!", p.i))
		return nil, fmt.Errorf("begin %d", p.i)
	}
	t := &tx{p: p, gen: p.w.gen}
	p.w.txs = append(p.w.txs, t)
	p.w.log = append(p.w.log, fmt.Sprintf("begin%d", p.i))
	return t, nil
}

func (t *tx) Commit() error {
	t.commits++
	t.p.w.log = append(t.p.w.log, fmt.Sprintf("commit%d", t.p.i))
	if t.p.commit && (!t.p.w.once || t.gen == 0) {
		return fmt.Errorf("commit %d", t.p.i)
	}
	return nil
}

func (t *tx) Rollback() error {
	t.rollbacks++
	t.p.w.log = append(t.p.w.log, fmt.Sprintf("rollback%d", t.p.i))
	if t.p.rollback {
		return fmt.Errorf("rollback %d", t.p.i)
	}
	return nil
}

// works of the unit
const (
	ok = iota
	fails
	panics
	panicsErr
	nWork
)

// nestings: none, or a run of the same unit inside the work, whose own work
// ends as said; its error is handed on or swallowed
var nest = []struct {
	inner   int
	swallow bool
}{{-1, false}, {ok, false}, {fails, false}, {fails, true}, {panics, false}, {panics, true}}

var ctxErr string

func do(w int, name string) error {
	switch w {
	case fails:
		return errors.New(name + " failed")
	case panics:
		panic(name + " panicked")
	case panicsErr:
		panic(errors.New(name + " panicked"))
	}
	return nil
}

type setup struct {
	parts []*part
	work  int
	nest  int
	again int // what is run afterwards on the same unit: -1 nothing, else a work
}

func (s setup) String() string {
	out := []string{}
	for _, p := range s.parts {
		out = append(out, fmt.Sprintf("kind%d begin-fails=%v commit-fails=%v rollback-fails=%v", p.kind, p.begin, p.commit, p.rollback))
	}
	return fmt.Sprintf("%s; work=%d nesting=%v", strings.Join(out, ", "), s.work, nest[s.nest])
}

// judge one generation. fnErr: the work was reached and did not succeed.
func judge(s setup, w *world, gen int, ran bool, workFailed bool, err error, logFrom int) string {
	mine := []*tx{}
	for _, t := range w.txs {
		if t.gen == gen {
			mine = append(mine, t)
		}
	}
	faulty := !w.once || gen == 0
	// which participants have to begin: the first of each shared context
	want := []*part{}
	seen := map[int]bool{}
	beginFails := false
	for _, p := range s.parts {
		if p.kind > 0 && seen[p.kind] {
			continue
		}
		if p.begin && faulty {
			beginFails = true
			break
		}
		seen[p.kind] = true
		want = append(want, p)
	}
	if len(mine) != len(want) {
		return fmt.Sprintf("%d transactions begun, %d participants need one", len(mine), len(want))
	}
	for i := range mine {
		if mine[i].p != want[i] {
			return "a wrong participant began a transaction"
		}
	}
	if beginFails != !ran {
		return fmt.Sprintf("the work ran: %v although beginning failed: %v", ran, beginFails)
	}
	commitFails := -1
	for i, t := range mine {
		if t.p.commit && faulty {
			commitFails = i
			break
		}
	}
	if !beginFails && !workFailed && commitFails < 0 {
		if err != nil {
			return fmt.Sprintf("everything succeeded but %v is returned", err)
		}
		for _, t := range mine {
			if t.commits != 1 || t.rollbacks != 0 {
				return fmt.Sprintf("the work succeeded but participant %d got %d commits and %d rollbacks", t.p.i, t.commits, t.rollbacks)
			}
		}
		return ""
	}
	if err == nil {
		return "a step failed and no error is returned"
	}
	for i, t := range mine {
		done := t.commits
		if beginFails || workFailed {
			if done != 0 {
				return fmt.Sprintf("participant %d is committed although the work failed", t.p.i)
			}
		} else {
			if done > 1 || (i > commitFails && done != 0) || (i <= commitFails && done != 1) {
				return fmt.Sprintf("participant %d got %d commits, the commit of participant %d fails", t.p.i, done, mine[commitFails].p.i)
			}
		}
		if i >= commitFails || beginFails || workFailed {
			if t.rollbacks != 1 {
				return fmt.Sprintf("participant %d was begun, not committed and got %d rollbacks", t.p.i, t.rollbacks)
			}
		} else if t.rollbacks > 1 {
			return fmt.Sprintf("participant %d got %d rollbacks", t.p.i, t.rollbacks)
		}
	}
	return ""
}

func run(c *hx.Check, s setup, once bool) {
	w := &world{once: once}
	reps := []uow.Transactional{}
	for _, p := range s.parts {
		p.w = w
		if p.kind > 0 {
			reps = append(reps, keyed{p})
		} else {
			reps = append(reps, p)
		}
	}
	bad := func(sig, msg string) {
		c.Fail(sig, fmt.Sprintf("%v: %s; calls: %v", s, msg, w.log), map[string]interface{}{"setup": s.String(), "calls": w.log})
	}
	u := uow.NewUnitOfWork(reps...)
	one := func(work, ne int) {
		ran, failed := false, false
		from := len(w.log)
		check := func(x uow.Contextual, where string) {
			ctxs := map[int]*tx{}
			for _, p := range s.parts {
				var key interface{} = p
				if p.kind > 0 {
					key = p.kind
				}
				t, _ := x.Context(key).Value(key).(*tx)
				if t == nil || t.gen != w.gen || t.commits+t.rollbacks != 0 {
					bad("context:"+where, fmt.Sprintf("participant %d sees no open transaction of its own in the %s work", p.i, where))
					return
				}
				if p.kind > 0 {
					if o := ctxs[p.kind]; o != nil && o != t {
						bad("context-shared", "participants of one context see different transactions")
					}
					ctxs[p.kind] = t
				} else if t.p != p {
					bad("context-foreign", "a participant sees the transaction of another")
				}
			}
		}
		var err error
		if p, st := hx.Catch(func() {
			err = u.Run(func(x uow.Contextual) error {
				ran = true
				w.log = append(w.log, "work")
				check(x, "outer")
				var e error
				if n := nest[ne]; n.inner >= 0 {
					before := len(w.log)
					entered := false
					e = u.Run(func(y uow.Contextual) error {
						entered = true
						check(y, "inner")
						return do(n.inner, "inner work")
					})
					if !entered {
						bad("nested-not-run", "the inner work is not run")
					}
					if (e != nil) != (n.inner != ok) {
						bad("nested-error", fmt.Sprintf("the inner run returned %v", e))
					}
					if len(w.log) != before {
						bad("nested-acts", "the inner run opened or ended transactions of its own")
					}
					check(x, "outer after inner")
					if n.swallow {
						e = nil
					}
				}
				if e != nil {
					failed = true
					return e
				}
				failed = work != ok
				return do(work, "work")
			})
		}); p != nil {
			bad("panic", fmt.Sprintf("panic %v %s", p, st))
			return
		}
		if m := judge(s, w, w.gen, ran, failed, err, from); m != "" {
			sig := "run"
			if w.gen > 0 {
				sig = "second-run"
			}
			bad(sig+":"+shape(m), m)
		}
		c.Outcome(fmt.Sprintf("err=%v ran=%v calls=%d", err != nil, ran, len(w.log)-from))
	}
	one(s.work, s.nest)
	if s.again >= 0 {
		w.gen++
		w.log = append(w.log, "| second run |")
		one(s.again, 0)
	}
	c.Count("evaluations", 1)
}

// shape of a message without numbers.
func shape(m string) string {
	return strings.Map(func(r rune) rune {
		if r >= '0' && r <= '9' {
			return '#'
		}
		return r
	}, m)
}

func main() {
	c := hx.New("C19", "fault_enumeration")
	c.Assume("beginning, committing and rolling back return (they do not hang)")
	maxN := 3
	if c.Thorough() {
		maxN = 4
	}
	for n := 0; n <= maxN; n++ {
		kinds := 1
		for i := 0; i < n; i++ {
			kinds *= 3
		}
		total := kinds << (3 * uint(n))
		c.Par(total, func(id int) {
			k, f := id%kinds, id/kinds
			mk := func() []*part {
				ps := make([]*part, n)
				kk, ff := k, f
				for i := range ps {
					ps[i] = &part{i: i, kind: kk % 3, begin: ff&1 != 0, commit: ff&2 != 0, rollback: ff&4 != 0}
					kk /= 3
					ff >>= 3
				}
				return ps
			}
			for work := 0; work < nWork; work++ {
				for ne := range nest {
					for _, again := range []int{-1, ok, fails} {
						for _, once := range []bool{true, false} {
							if !once && again < 0 {
								continue
							}
							run(c, setup{mk(), work, ne, again}, once)
							c.Count("distinct_nontrivial", 1)
						}
					}
				}
			}
		})
	}
	_ = context.Background
	c.Sample(map[string]interface{}{"participants": "own, shared, shared", "failing": "commit of the second, rollback of the first", "work": "panics", "nested": "inner fails, error handed on", "then": "run again"})
	c.Info("rule", "each case is a different combination of participants, failing steps, nesting and second run")
	c.Finish()
}
