// C28: what the interface of the daemon makes of requests. Every request, over
// boundary values of each of its fields and all their combinations, is handed to
// the handlers over services that record what they are asked and give every kind
// of answer, and over a whole daemon.
//
//mc:instr pkg/wallet=M
package main

import (
	"context"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	pbop "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	pbw "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	grpchandler "github.com/tdex-network/tdex-daemon/internal/interfaces/grpc/handler"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/tdex-network/tdex-daemon/verif/onchain"
	"github.com/tdex-network/tdex-daemon/verif/world"
	pbt "github.com/tdex-network/tdex-protobuf/generated/go/trade"
	"github.com/vulpemventures/go-elements/transaction"
	"google.golang.org/protobuf/proto"
)

var (
	c    *hx.Check
	ctx  = context.Background()
	base = world.Base
	boom = errors.New("boom")
)

// handlers of a daemon.
type handlers struct {
	op  pbop.OperatorServer
	wal pbw.WalletServer
	tr  pbt.TradeServer
}

// how a request is formed.
const (
	fine   = iota // must be carried out
	broken        // must be refused
	either        // is refused, or carried out as it says
)

// answer of a service, and what is to be replied.
type answer struct {
	ret  interface{}
	want []proto.Message
}

type probe struct {
	rpc, say string
	form     int
	call     call
	answers  []answer
	// do makes the request and returns all that is replied.
	do func(h handlers) ([]proto.Message, error)
	// slow: not for the whole daemon
	skip bool
}

func (p probe) String() string { return p.rpc + "(" + p.say + ")" }

// wire is what the other side of the connection gets.
func wire(m proto.Message) proto.Message {
	b, err := proto.Marshal(m)
	if err != nil {
		panic(err)
	}
	n := m.ProtoReflect().New().Interface()
	if err := proto.Unmarshal(b, n); err != nil {
		panic(err)
	}
	return n
}

func show(m proto.Message) string {
	s := fmt.Sprint(m)
	s = strings.ReplaceAll(strings.ReplaceAll(s, base, "LBTC"), "  ", " ")
	for i := 0; i < 3; i++ {
		s = strings.ReplaceAll(s, world.Quote(i), fmt.Sprintf("Q%d", i))
	}
	if len(s) > 260 {
		s = s[:260] + "..."
	}
	return s
}

// unary makes the request of a method with a plain reply.
func unary(v interface{}, err error) ([]proto.Message, error) {
	if r := reflect.ValueOf(v); v == nil || r.Kind() == reflect.Ptr && r.IsNil() {
		return nil, err
	}
	return []proto.Message{wire(v.(proto.Message))}, err
}

func fakes(r *rec) handlers {
	return handlers{grpchandler.NewOperatorHandler(operator{rec: r}), grpchandler.NewWalletHandler(walletSvc{rec: r}), grpchandler.NewTraderHandler(trader{rec: r})}
}

// recorded checks a request over recording services.
func recorded(p probe) {
	for i := -1; i < len(p.answers); i++ {
		r := &rec{}
		if i < 0 {
			r.err = boom
		} else {
			r.ret = p.answers[i].ret
		}
		bad := func(sig, f string, a ...interface{}) {
			c.Fail(p.rpc+":"+sig, p.String()+": "+fmt.Sprintf(f, a...), p.String())
		}
		var out []proto.Message
		var err error
		var pn interface{}
		var st string
		if !hx.Within(20*time.Second, func() { pn, st = hx.Catch(func() { out, err = p.do(fakes(r)) }) }) {
			bad("hang", "is never answered")
			return
		}
		c.Count("evaluations", 1)
		if pn != nil {
			bad("crash", "crashes the daemon: %v %s", pn, st)
			return
		}
		if len(r.calls) == 0 {
			if p.form == fine {
				bad("refused", "is refused: %v", err)
			}
			if err == nil {
				bad("silent", "does nothing but reports no error")
			}
			if len(out) > 0 {
				bad("reply", "is refused, but %s is replied", show(out[0]))
			}
			c.Outcome("malformed")
			return
		}
		if len(r.calls) > 1 || !reflect.DeepEqual(r.calls[0], p.call) {
			bad("request", "asks the service %v, not %v", r.calls, p.call)
			return
		}
		c.Count("distinct_nontrivial", 1)
		if i < 0 {
			if err == nil {
				bad("error-lost", "the service fails, but no error is reported")
			}
			if len(out) > 0 {
				bad("reply", "the service fails, but %s is replied", show(out[0]))
			}
			c.Outcome("failed")
			continue
		}
		c.Outcome("served")
		if err != nil {
			bad("error", "the service succeeds, but the request fails: %v", err)
			continue
		}
		want := p.answers[i].want
		if len(out) != len(want) {
			bad("reply", "%d replies, not %d", len(out), len(want))
			continue
		}
		for k := range want {
			if !same(out[k], want[k]) {
				bad("reply", "replies %s, not %s", show(out[k]), show(want[k]))
			}
		}
	}
}

// same up to the precision of prices.
func same(a, b proto.Message) bool {
	if proto.Equal(a, b) {
		return true
	}
	var x, y interface{}
	ja, _ := json.Marshal(a)
	jb, _ := json.Marshal(b)
	json.Unmarshal(ja, &x)
	json.Unmarshal(jb, &y)
	return near("", x, y)
}

func near(key string, a, b interface{}) bool {
	switch x := a.(type) {
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			if !near(k, x[k], y[k]) {
				return false
			}
		}
		return true
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			if !near(key, x[k], y[k]) {
				return false
			}
		}
		return true
	case float64:
		y, ok := b.(float64)
		return ok && (x == y || strings.HasSuffix(strings.ToLower(key), "price") && math.Abs(x-y) <= 2e-7*math.Abs(x))
	}
	return reflect.DeepEqual(a, b)
}

// whole checks a request over a whole daemon.
type whole struct {
	name  string
	d     *onchain.Daemon
	h     handlers
	state string
	made  int
}

func (w *whole) make() {
	w.made++
	w.d = onchain.Start(onchain.Join(
		onchain.Cs(domain.FeeAccount, base, 5000, 6000),
		onchain.Cs(domain.WalletAccount, base, 20000, 30000),
		onchain.Cs(world.Account(0), base, 100000), onchain.Cs(world.Account(0), world.Quote(0), 900000),
		onchain.Cs(world.Account(1), base, 100000), onchain.Cs(world.Account(1), world.Quote(1), 900000),
	), world.Opts{Markets: 2, Addresses: 2, Fee: 25, Prepare: func(m *domain.Market) {
		if m.AccountIndex == world.Account(0) {
			if err := m.MakeTradable(); err != nil {
				panic(err)
			}
		}
	}})
	// what may be claimed
	t := transaction.NewTx(2)
	t.AddInput(transaction.NewTxInput(make([]byte, 32), 0))
	for _, a := range []int{domain.FeeAccount, domain.FeeAccount, world.Account(0)} {
		sc, err := hex.DecodeString(w.d.Addr[a][0].Script)
		if err != nil {
			panic(err)
		}
		t.AddOutput(world.TxOut(base, 1000, sc))
	}
	raw, err := t.ToHex()
	if err != nil {
		panic(err)
	}
	w.d.Explorer.Mem[hash] = raw
	if w.name == "locked" {
		w.d.Mnem.Unset()
	}
	w.h = handlers{grpchandler.NewOperatorHandler(w.d.Operator), grpchandler.NewWalletHandler(w.d.Wallet), grpchandler.NewTraderHandler(w.d.Trade)}
	w.state = w.digest()
}

func (w *whole) digest() string {
	s := []string{}
	for k, u := range w.d.Unspents() {
		s = append(s, fmt.Sprint(k, u.Spent, u.Locked, u.Confirmed, u.Value, u.AssetHash))
	}
	for _, t := range w.d.Trades() {
		if t.Status.Failed && t.Status.Code <= domain.Proposal {
			continue // the record of a proposal that was rejected, made meanwhile
		}
		b, _ := json.Marshal(t)
		s = append(s, string(b))
	}
	ms, err := w.d.Repo.MarketRepository().GetAllMarkets(ctx)
	if err != nil {
		panic(err)
	}
	for _, m := range ms {
		b, _ := json.Marshal(m)
		s = append(s, string(b))
	}
	v, err := w.d.Repo.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
	if err != nil {
		panic(err)
	}
	b, _ := json.Marshal(v)
	s = append(s, string(b))
	s = append(s, w.d.Explorer.Broadcasted()...)
	sort.Strings(s)
	return strings.Join(s, "\n")
}

// diff of two states.
func diff(a, b string) string {
	l := []string{}
	for _, x := range strings.Split(a, "\n") {
		if !strings.Contains(b, x) {
			l = append(l, "- "+x)
		}
	}
	for _, x := range strings.Split(b, "\n") {
		if !strings.Contains(a, x) {
			l = append(l, "+ "+x)
		}
	}
	s := strings.Join(l, "\n")
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func (w *whole) serve(p probe) {
	if w.d == nil {
		w.make()
	}
	bad := func(sig, f string, a ...interface{}) {
		c.Fail(p.rpc+":"+sig, p.String()+" to a daemon whose wallet is "+w.name+": "+fmt.Sprintf(f, a...), p.String())
	}
	var out []proto.Message
	var err error
	var pn interface{}
	var st string
	if !hx.Within(20*time.Second, func() { pn, st = hx.Catch(func() { out, err = p.do(w.h) }) }) {
		bad("hang", "is never answered")
		w.d = nil
		return
	}
	c.Count("evaluations", 1)
	if pn != nil {
		bad("crash", "crashes the daemon: %v %s", pn, st)
		w.d = nil // whatever it held may be held for ever
		return
	}
	if p.form == broken && err == nil && !failed(out) {
		bad("accepted", "is malformed, but it's served: %v", out)
	}
	if err == nil {
		c.Outcome(w.name + ": served")
		c.Count("distinct_nontrivial", 1)
	} else {
		c.Outcome(w.name + ": refused")
		if len(out) > 0 && p.rpc != "InitWallet" {
			bad("reply", "is refused, but %s is replied", show(out[0]))
		}
	}
	if now := w.digest(); now != w.state {
		if err != nil || p.form == broken && !failed(out) {
			bad("effect", "is refused (%v), but something changed: %s", err, diff(w.state, now))
		}
		w.d = nil
	}
	// what a served request changes can be recorded a little later
	if err == nil && !failed(out) && !strings.HasPrefix(p.rpc, "List") && !strings.Contains(p.rpc, "Balance") && !strings.HasPrefix(p.rpc, "Market") {
		w.d = nil
	}
}

// failed tells whether the reply says that the swap failed.
func failed(out []proto.Message) bool {
	for _, m := range out {
		switch r := m.(type) {
		case *pbt.TradeProposeReply:
			return r.GetSwapFail() != nil && r.GetSwapAccept() == nil
		case *pbt.TradeCompleteReply:
			return r.GetSwapFail() != nil && r.GetTxid() == ""
		}
	}
	return false
}

func main() {
	c = hx.New("C28", "exploration")
	ps := probes()
	c.Info("rule", "requests are counted as nontrivial if they reach a service, or are served by the whole daemon")
	per := map[string]int{}
	for _, p := range ps {
		per[p.rpc]++
	}
	if len(ps) < 500 {
		panic("too few requests")
	}
	c.Procs("recording services", len(ps), func(i int) { recorded(ps[i]) })
	states := []string{"unlocked", "locked"}
	ws := map[string]*whole{}
	const chunk = 8
	n := (len(ps) + chunk - 1) / chunk
	c.Procs("whole daemon", n*len(states), func(i int) {
		s := states[i/n]
		if ws[s] == nil {
			ws[s] = &whole{name: s}
		}
		w := ws[s]
		w.d = nil
		for k := i % n * chunk; k < (i%n+1)*chunk && k < len(ps); k++ {
			if !ps[k].skip {
				w.serve(ps[k])
			}
		}
	})
	c.Info("requests", per)
	c.Assume("the handlers are called with what the protobuf encoding of a request decodes to; the transport itself is grpc's")
	c.Finish()
}
