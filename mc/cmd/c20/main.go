// C20: the chain watcher. Every history of adding, removing, polling with any
// answer and stopping, up to a depth, against a reference set of watched items;
// long runs of failing and good answers; and every interleaving (bounded) of
// adding, removing, stopping and polling under the controlled scheduler.
//
//mc:instr pkg/crawler=LGSE
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io/ioutil"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	log "github.com/sirupsen/logrus"
	"github.com/tdex-network/tdex-daemon/pkg/crawler"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/verif/explore"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/tdex-network/tdex-daemon/verif/vsync"
)

const interval = time.Second

type utxo struct {
	explorer.Utxo
	id string
}

// item is something that can be watched.
type item struct {
	key     string
	account int // -1: a transaction
	blind   []byte
}

func (it item) obs() crawler.Observable {
	if it.account < 0 {
		return crawler.NewTransactionObservable(it.key)
	}
	return crawler.NewAddressObservable(it.account, it.key, it.blind)
}

var items = []item{{"addrFee", 0, []byte{1, 2}}, {"addrMarket", 5, []byte{3}}, {"tx1", -1, nil}, {"tx2", -1, nil}}

// world is a crawler, a consumer of its events and an explorer that answers as told.
type world struct {
	explorer.Service
	mu     sync.Mutex
	svc    crawler.Service
	answer func(key string) string // good, none, error, nohex
	pace   time.Duration           // an explorer that takes its time
	asked  map[string]int
	began  map[string][]time.Time
	events []string
	byKey  map[string]int
	errs   int
	closed int
	after  int // events after the last one
	ended  bool
	wrong  string
	hex    map[string]bool
	react  func(key string, confirmed bool)
}

func (w *world) ask(key string) string {
	vsync.Point("ask")
	w.mu.Lock()
	w.asked[key]++
	w.began[key] = append(w.began[key], time.Now())
	a := w.answer(key)
	w.mu.Unlock()
	if w.pace > 0 {
		time.Sleep(w.pace)
		vsync.Point("answer")
	}
	return a
}

func (w *world) GetUnspents(addr string, blind [][]byte) ([]explorer.Utxo, error) {
	for _, it := range items {
		if it.key == addr && (len(blind) != 1 || !bytes.Equal(blind[0], it.blind)) {
			w.bad("the coins of %s were asked with keys %x", addr, blind)
		}
	}
	switch w.ask(addr) {
	case "error":
		return nil, errors.New("explorer down")
	case "none":
		return nil, nil
	}
	return []explorer.Utxo{utxo{id: addr + "#1"}, utxo{id: addr + "#2"}}, nil
}

func (w *world) GetTransactionStatus(txid string) (map[string]interface{}, error) {
	switch w.ask(txid) {
	case "error":
		return nil, errors.New("explorer down")
	case "none":
		return map[string]interface{}{"confirmed": false}, nil
	}
	return map[string]interface{}{"confirmed": true, "block_hash": "hash of " + txid, "block_time": float64(1600000000), "block_height": float64(7)}, nil
}

func (w *world) GetTransactionHex(txid string) (string, error) {
	w.mu.Lock()
	a := w.answer(txid)
	w.mu.Unlock()
	if a == "nohex" || a == "error" {
		return "", errors.New("explorer down")
	}
	w.mu.Lock()
	w.hex[txid] = true
	w.mu.Unlock()
	return "hex of " + txid, nil
}

func (w *world) bad(f string, a ...interface{}) {
	w.mu.Lock()
	if w.wrong == "" {
		w.wrong = fmt.Sprintf(f, a...)
	}
	w.mu.Unlock()
}

func newWorld() *world { return limited(1000, 50) }

func limited(rate, burst int) *world {
	w := &world{asked: map[string]int{}, began: map[string][]time.Time{}, byKey: map[string]int{}, hex: map[string]bool{}, answer: func(string) string { return "good" }}
	w.svc = crawler.NewService(crawler.Opts{ExplorerSvc: w, CrawlerInterval: interval, ExplorerLimit: rate, ExplorerTokenBurst: burst, ErrorHandler: func(err error) {
		w.mu.Lock()
		w.errs++
		w.mu.Unlock()
	}})
	return w
}

// start is what the listener does: consume errors and events until told it is over.
func (w *world) start() {
	w.svc.Start()
	w.mu.Lock()
	w.ended = true
	w.mu.Unlock()
}

func (w *world) listen() {
	for {
		vsync.Point("listen")
		e := <-w.svc.GetEventChannel()
		if w.take(e) {
			return
		}
	}
}

// take notes an event; it reports whether it was the last one.
func (w *world) take(e crawler.Event) bool {
	w.mu.Lock()
	if w.closed > 0 {
		w.after++
	}
	w.mu.Unlock()
	switch ev := e.(type) {
	case crawler.CloseEvent:
		w.mu.Lock()
		w.closed++
		w.mu.Unlock()
		return true
	case crawler.AddressEvent:
		s := ev.Address
		for _, u := range ev.Utxos {
			s += " " + u.(utxo).id
		}
		want := crawler.MarketAccountDeposit
		if ev.AccountIndex == 0 {
			want = crawler.FeeAccountDeposit
		}
		ok := ev.EventType == want && ev.Type() == want
		for _, it := range items {
			ok = ok && (it.key != ev.Address || it.account == ev.AccountIndex)
		}
		full := ev.Address + " " + ev.Address + "#1 " + ev.Address + "#2"
		if !ok || s != full && s != ev.Address {
			w.bad("event %+v", ev)
		}
		w.note(ev.Address, len(ev.Utxos) > 0)
	case crawler.TransactionEvent:
		conf := ev.EventType == crawler.TransactionConfirmed
		if !conf && ev.EventType != crawler.TransactionUnConfirmed || ev.Type() != ev.EventType || conf && (ev.BlockHash != "hash of "+ev.TxID || ev.BlockTime != 1600000000) || ev.TxHex != "hex of "+ev.TxID && ev.TxHex != "" {
			w.bad("event %+v", ev)
		}
		w.mu.Lock()
		if ev.TxHex == "" && w.hex[ev.TxID] {
			w.wrong = fmt.Sprintf("the event of %s came without its transaction", ev.TxID)
		}
		w.mu.Unlock()
		w.note(ev.TxID, conf)
	default:
		w.bad("event %T", e)
	}
	return false
}

func (w *world) note(key string, found bool) {
	w.mu.Lock()
	if found {
		w.byKey[key]++
	}
	w.events = append(w.events, fmt.Sprint(key, found))
	w.mu.Unlock()
	if w.react != nil {
		w.react(key, found)
	}
}

// running counts the goroutines of the crawler that are still there.
func running() int {
	b := make([]byte, 1<<22)
	b = b[:runtime.Stack(b, true)]
	n := 0
	for _, g := range strings.Split(string(b), "\n\n") {
		if strings.Contains(g, "pkg/crawler.(*observable") || strings.Contains(g, "pkg/crawler.(*blockchainCrawler)") {
			n++
		}
	}
	return n
}

// histories: every sequence of operations, one after the other.
func histories() *explore.Scenario {
	ops := []string{"stop", "poll good", "poll none", "poll error", "poll nohex", "poll error of addresses"}
	for i := range items[:3] {
		ops = append(ops, fmt.Sprint("add ", i), fmt.Sprint("remove ", i))
	}
	return &explore.Scenario{Name: "histories", Ops: ops, Bound: 5, ThoroughBound: 7, Weight: 2, Hist: func(x *explore.Exec, path []int) {
		base := running()
		w := newWorld()
		go w.start()
		go w.listen()
		x.Settle()
		watched, stopped, runs := map[string]bool{}, false, map[string]string{}
		for _, p := range path {
			op := ops[p]
			x.Log("%s", op)
			before, found, errs := w.counts()
			switch {
			case op == "stop":
				done := make(chan bool, 1)
				go func() { w.svc.Stop(); done <- true }()
				x.Sleep(interval)
				if len(done) == 0 {
					x.Fail("stop-hangs", "stopping did not end")
					return
				}
				stopped, watched = true, map[string]bool{}
			case strings.HasPrefix(op, "poll"):
				a := strings.Fields(op)[1]
				w.mu.Lock()
				w.answer = func(k string) string {
					if strings.HasSuffix(op, "addresses") && !strings.HasPrefix(k, "addr") {
						return "good"
					}
					return a
				}
				w.mu.Unlock()
				x.Sleep(interval)
				now, f, e := w.counts()
				nerr := 0
				for _, it := range items {
					n := 0
					if watched[it.key] {
						n = 1
					}
					if now[it.key]-before[it.key] != n {
						x.Fail("polling", "%s was asked for %d times in one interval, not %d", it.key, now[it.key]-before[it.key], n)
					}
					ans := w.answer(it.key)
					if n == 1 && ans == "error" {
						nerr++
						n = 0
					}
					if ans == "none" {
						n = 0
					}
					if f[it.key]-found[it.key] != n {
						x.Fail("events", "%d events of %s found after answer %q", f[it.key]-found[it.key], it.key, ans)
					}
					if watched[it.key] {
						runs[it.key] += ans[:2]
					}
				}
				if e-errs != nerr {
					x.Fail("errors", "%d of %d errors reported", e-errs, nerr)
				}
			default:
				var i int
				var verb string
				fmt.Sscan(op, &verb, &i)
				it := items[i]
				if verb == "add" {
					w.svc.AddObservable(it.obs())
					if !stopped {
						if !watched[it.key] {
							runs[it.key] = ""
						}
						watched[it.key] = true
					}
				} else {
					w.svc.RemoveObservable(it.obs())
					delete(watched, it.key)
				}
				x.Settle()
			}
			for m := 0; m < 8 && !stopped; m++ {
				var as []string
				want := m > 0
				for i, it := range items[:3] {
					if m>>i&1 == 1 {
						as = append(as, it.key)
						want = want && watched[it.key]
					}
				}
				if got := w.svc.IsObservingAddresses(as); got != want {
					x.Fail("observing", "watching %v: %v, not %v", as, got, want)
				}
			}
			if want := len(watched); running()-base-1 != want && !stopped || stopped && running() != base {
				x.Fail("leftovers", "%d goroutines of the watcher, %d items are watched, stopped %v", running()-base, want, stopped)
			}
		}
		keys := []string{}
		for k := range watched {
			keys = append(keys, k+":"+runs[k]+fmt.Sprint(w.hex[k]))
		}
		sort.Strings(keys)
		x.State(fmt.Sprint(keys, stopped, w.closed))
		x.Outcome("%v %v", keys, stopped)
		w.end(x, stopped, base)
	}}
}

func (w *world) counts() (asked, found map[string]int, errs int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	asked, found = map[string]int{}, map[string]int{}
	for k, v := range w.asked {
		asked[k] = v
	}
	for k, v := range w.byKey {
		found[k] = v
	}
	return asked, found, w.errs
}

// end stops the crawler and looks whether it is still.
func (w *world) end(x *explore.Exec, stopped bool, base int) {
	if !stopped {
		done := make(chan bool, 1)
		go func() { w.svc.Stop(); done <- true }()
		x.Sleep(interval + w.pace)
		if len(done) == 0 {
			x.Fail("stop-hangs", "stopping did not end")
			return
		}
	}
	before, _, _ := w.counts()
	n := len(w.events)
	x.Sleep(5 * interval)
	now, _, _ := w.counts()
	if fmt.Sprint(before) != fmt.Sprint(now) || len(w.events) != n {
		x.Fail("stopped", "a stopped watcher asked %v then %v, %d then %d events", before, now, n, len(w.events))
	}
	if w.closed != 1 || w.after > 0 || !w.ended {
		x.Fail("stopped", "%d last events, %d events after it, error handling ended: %v", w.closed, w.after, w.ended)
	}
	if k := running(); k != base {
		x.Fail("leftovers", "%d goroutines left after stopping", k-base)
	}
	if w.wrong != "" {
		x.Fail("content", "%s", w.wrong)
	}
}

// runs: long runs of good and failing answers on one item.
func runs(it item) *explore.Scenario {
	ops := []string{"good", "error"}
	return &explore.Scenario{Name: "answers of " + it.key, Ops: ops, Bound: 14, ThoroughBound: 24, Hist: func(x *explore.Exec, path []int) {
		base := running()
		w := newWorld()
		go w.start()
		go w.listen()
		w.svc.AddObservable(it.obs())
		x.Settle()
		fails, tripped := 0, false
		for i, p := range path {
			w.mu.Lock()
			w.answer = func(string) string { return ops[p] }
			w.mu.Unlock()
			before, found, errs := w.counts()
			x.Sleep(interval)
			now, f, e := w.counts()
			asked := now[it.key] - before[it.key]
			// a watcher spares an explorer that mostly fails, for a while
			tripped = tripped || i >= 10 && 10*fails >= 6*i
			if asked != 1 && (asked != 0 || !tripped) {
				x.Fail("polling", "asked %d times in an interval after %d errors in %d polls", asked, fails, i)
			}
			if asked == 1 && ops[p] == "good" && f[it.key]-found[it.key] != 1 {
				x.Fail("events", "%d events after a good answer", f[it.key]-found[it.key])
			}
			if ops[p] == "error" && asked == 1 && e-errs != 1 {
				x.Fail("errors", "an error was reported %d times", e-errs)
			}
			if ops[p] == "error" && asked == 1 {
				fails++
			}
		}
		w.mu.Lock()
		w.answer = func(string) string { return "good" }
		w.mu.Unlock()
		before, found, _ := w.counts()
		x.State(fmt.Sprint(len(path), fails, before, found, w.errs))
		x.Sleep(62 * interval)
		x.Outcome("%d of %d", fails, len(path))
		now, f, _ := w.counts()
		if now[it.key] == before[it.key] || f[it.key] == found[it.key] {
			x.Fail("given-up", "not asked again in a minute after %d errors in %d polls", fails, len(path))
		}
		w.end(x, false, base)
	}}
}

type step struct {
	verb string
	it   int
}

// race runs the given threads at once.
func race(bound int, early bool, pace time.Duration, pre int, threads ...[]step) *explore.Scenario {
	name := ""
	for i, t := range threads {
		if i > 0 {
			name += " || "
		}
		for j, s := range t {
			if j > 0 {
				name += "; "
			}
			name += s.verb
			if s.verb == "add" || s.verb == "remove" {
				name += " " + items[s.it].key
			}
		}
	}
	name += fmt.Sprintf(" (%d watched before)", pre)
	if early {
		name += ", polls at any time"
	}
	if pace > 0 {
		name += ", slow explorer"
	}
	return &explore.Scenario{
		Name: name, Bound: bound, ThoroughBound: bound + 1, Quantum: interval / 2, Ticks: 20, TickAlways: early, Early: 4, Delay: true,
		Weight: map[bool]float64{true: 2, false: 1}[strings.Contains(name, "sleep")],
		Sched:  vsync.Config{Points: []string{"S:pkg/crawler", "L:*", "X:*"}},
		Setup: func(x *explore.Exec) {
			x.V["base"] = running()
			w := newWorld()
			w.pace = pace
			x.V["w"] = w
			w.react = func(key string, found bool) {
				// what the listener does with a confirmed transaction
				if found && strings.HasPrefix(key, "tx") {
					w.svc.RemoveObservable(crawler.NewTransactionObservable(key))
				}
			}
			for i := 0; i < pre; i++ {
				w.svc.AddObservable(items[i].obs())
			}
			x.Settle()
			left := len(threads)
			var mu sync.Mutex
			removed := map[string]int{}
			x.V["removed"] = removed
			x.Thread("errors", w.start)
			x.Thread("events", w.listen)
			for i, t := range threads {
				t := t
				x.Thread(fmt.Sprint("t", i), func() {
					for _, s := range t {
						switch s.verb {
						case "add":
							w.svc.AddObservable(items[s.it].obs())
						case "remove":
							w.svc.RemoveObservable(items[s.it].obs())
							mu.Lock()
							removed[items[s.it].key]++
							mu.Unlock()
						case "stop":
							w.svc.Stop()
						case "observing":
							w.svc.IsObservingAddresses([]string{items[s.it].key})
						case "sleep":
							time.Sleep(interval)
						}
					}
					mu.Lock()
					left--
					last := left == 0
					mu.Unlock()
					if last {
						time.Sleep(interval)
						vsync.Point("stop")
						w.svc.Stop() // ends the scenario, whether stopped before or not
					}
				})
			}
		},
		Final: func(x *explore.Exec) {
			w := x.V["w"].(*world)
			w.end(x, true, x.V["base"].(int))
			x.Outcome("%v %v %d", w.asked, w.byKey, w.closed)
		},
	}
}

// removal: once removed, an item is not asked for any more, at most the poll under way ends.
func removal(it int, bound int, pace time.Duration) *explore.Scenario {
	return &explore.Scenario{
		Name: fmt.Sprintf("remove %s while polling, pace %v", items[it].key, pace), Bound: bound, ThoroughBound: bound + 2, Quantum: interval / 2, Ticks: 20, TickAlways: true, Early: 4, Delay: true,
		Sched: vsync.Config{Points: []string{"S:pkg/crawler", "L:*", "X:*"}},
		Setup: func(x *explore.Exec) {
			x.V["base"] = running()
			w := newWorld()
			if pace < 0 { // requests wait for their turn instead
				w = limited(1, 1)
			}
			w.pace = pace
			x.V["w"] = w
			other := (it + 1) % 3
			w.svc.AddObservable(items[it].obs())
			w.svc.AddObservable(items[other].obs())
			x.Settle()
			go w.start()
			go w.listen()
			x.V["other"] = items[other].key
			x.Thread("remove", func() {
				time.Sleep(interval / 2)
				vsync.Point("remove")
				w.svc.RemoveObservable(items[it].obs())
				n := w.asked[items[it].key]
				x.V["n"] = n
				vsync.Point("removed")
				if w.svc.IsObservingAddresses([]string{items[it].key}) || !w.svc.IsObservingAddresses([]string{items[other].key}) {
					x.Fail("observing", "wrong items watched after a removal")
				}
			})
		},
		Final: func(x *explore.Exec) {
			w := x.V["w"].(*world)
			x.Sleep(4 * interval)
			k := items[it].key
			if n := x.V["n"].(int); w.asked[k] > n+1 {
				x.Fail("removed", "%s was asked for %d times after its removal", k, w.asked[k]-n)
			}
			n := w.asked[k]
			o := w.asked[x.V["other"].(string)]
			x.Sleep(4 * interval)
			if w.asked[k] != n {
				x.Fail("removed", "%s is still asked for long after its removal", k)
			}
			if w.asked[x.V["other"].(string)]-o < 2 {
				x.Fail("polling", "the other item is no longer asked for")
			}
			x.Outcome("%d", n)
			w.end(x, false, x.V["base"].(int))
		},
	}
}

// crowd fills the event channel while its consumer is busy, then stops.
func crowd(n int) *explore.Scenario {
	return &explore.Scenario{
		Name: fmt.Sprintf("%d items, stopping with events waiting", n), Bound: 1, ThoroughBound: 2, Quantum: interval, Ticks: 3, Delay: true, MaxPoints: 20000,
		Sched: vsync.Config{Points: []string{"X:*"}},
		Setup: func(x *explore.Exec) {
			x.V["base"] = running()
			w := newWorld()
			x.V["w"] = w
			for i := 0; i < n; i++ {
				w.svc.AddObservable(crawler.NewTransactionObservable(fmt.Sprintf("tx%d", i)))
			}
			w.react = func(key string, found bool) {
				vsync.Point("busy")
				w.svc.RemoveObservable(crawler.NewTransactionObservable(key))
			}
			x.Sleep(interval)
			x.Thread("errors", w.start)
			x.Thread("events", w.listen)
			x.Thread("stop", func() { w.svc.Stop() })
		},
		Final: func(x *explore.Exec) {
			w := x.V["w"].(*world)
			w.end(x, true, x.V["base"].(int))
			x.Outcome("%d events", len(w.events))
		},
	}
}

func main() {
	log.SetOutput(ioutil.Discard)
	scs := []*explore.Scenario{histories(), runs(items[0]), runs(items[2])}
	add := func(i int) step { return step{"add", i} }
	rem := func(i int) step { return step{"remove", i} }
	stop := step{"stop", 0}
	sleep := step{"sleep", 0}
	b := 2
	scs = append(scs,
		race(b, false, 0, 0, []step{add(0)}, []step{stop}),
		race(b, false, 0, 0, []step{add(0), rem(0)}, []step{add(0)}),
		race(b, false, 0, 1, []step{rem(0)}, []step{rem(0)}, []step{stop}),
		race(b, false, 0, 1, []step{rem(0), add(0)}, []step{stop}),
		race(b, false, 0, 2, []step{stop}, []step{stop}),
		race(b, false, 0, 1, []step{sleep, stop}, []step{add(2), sleep, rem(2)}),
		race(b, false, 0, 3, []step{sleep, stop}, []step{sleep, rem(2), {"observing", 0}}),
		race(b, true, 0, 3, []step{stop}, []step{rem(0)}),
		race(b, true, interval*3/2, 3, []step{sleep, stop}, []step{rem(2)}),
		race(b, false, interval*3/2, 3, []step{sleep, stop}, []step{rem(2), stop}),
		removal(0, 2, 0), removal(2, 2, 0), removal(2, 2, interval*3/2), removal(0, 2, -1),
		crowd(3), crowd(130),
	)
	explore.Main(func() *hx.Check { return hx.New("C20", "model_checking") }, scs, func(c *hx.Check) {
		c.Count("traces_validated_against_impl", c.Get("executions"))
		c.Count("transitions", c.Get("choice_points"))
		c.Info("rule", "every history of 12 operations up to depth 5 (7); every run of good and failing answers up to 14 (24); every interleaving of up to 3 calls with polling, errors and events handled, up to the deviation bound, on the real crawler and simulated time")
		c.Assume("whoever receives the events does so until the closing one")
		c.Finish()
	})
}
