// C26: the operator's tool that splits deposits. Every amount of dense ranges
// through its two splitting functions, and whole runs of the tool, as a process,
// against a daemon and an explorer kept here, with the transaction it broadcasts
// opened output by output.
package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/btcsuite/btcd/btcec"
	pb "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/tdex-network/tdex-daemon/verif/txs"
	"github.com/tdex-network/tdex-daemon/verif/world"
	pbtypes "github.com/tdex-network/tdex-protobuf/generated/go/types"
	"github.com/vulpemventures/go-elements/payment"
	"github.com/vulpemventures/go-elements/transaction"
	"google.golang.org/grpc"
)

var (
	c     *hx.Check
	base  = world.Base
	quote = world.Quote(0)
	third = world.Quote(1)
)

// coin sent to the tool's wallet.
type coin struct {
	asset string
	v     uint64
	conf  bool
}

type test struct {
	market bool
	txs    [][]coin // the deposits: transactions and their outputs
	flag   []int    // given as --txid
	typed  []int    // given at the prompt
	named  bool     // the market is named
	must   bool     // must succeed
}

func (t test) String() string {
	s := []string{"fragmentfee"}
	if t.market {
		s[0] = "fragmentmarket"
	}
	for i, l := range t.txs {
		p := []string{}
		for _, k := range l {
			x := fmt.Sprint(k.v, " ", world.Fmt(k.asset))
			if k.conf {
				x += " blinded"
			}
			p = append(p, x)
		}
		s = append(s, fmt.Sprintf("deposit %d: %s", i, strings.Join(p, " + ")))
	}
	return strings.Join(s, "; ") + fmt.Sprintf("; --txid %v, typed %v", t.flag, t.typed)
}

// env is a daemon and an explorer.
type env struct {
	pb.UnimplementedOperatorServer
	mu        sync.Mutex
	txs       map[string]string // hex by id
	sent      []string
	addresses int
	claimed   []*pb.TxOutpoint
	claims    int
	rpc, web  string
}

const wallet = "ephemeral"

func address(i int) (addr string, script, blind []byte) {
	name := fmt.Sprintf("deposit %d", i)
	blind = txs.Blind(name)
	_, bp := btcec.PrivKeyFromBytes(btcec.S256(), blind)
	addr, err := payment.FromPublicKey(txs.Key(name).PubKey(), world.Net, bp).ConfidentialWitnessPubKeyHash()
	if err != nil {
		panic(err)
	}
	return addr, txs.Script(name), blind
}

func (e *env) take(n int64) (l []string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if n == 0 {
		n = 1
	}
	for i := int64(0); i < n; i++ {
		a, _, _ := address(e.addresses)
		e.addresses++
		l = append(l, a)
	}
	return
}

func (e *env) DepositFeeAccount(_ context.Context, r *pb.DepositFeeAccountRequest) (*pb.DepositFeeAccountReply, error) {
	var l []*pbtypes.AddressWithBlindingKey
	for _, a := range e.take(r.GetNumOfAddresses()) {
		l = append(l, &pbtypes.AddressWithBlindingKey{Address: a})
	}
	return &pb.DepositFeeAccountReply{AddressWithBlindingKey: l}, nil
}

func (e *env) DepositMarket(_ context.Context, r *pb.DepositMarketRequest) (*pb.DepositMarketReply, error) {
	return &pb.DepositMarketReply{Addresses: e.take(r.GetNumOfAddresses())}, nil
}

func (e *env) claim(o []*pb.TxOutpoint) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.claims++
	e.claimed = append(e.claimed, o...)
}

func (e *env) ClaimFeeDeposit(_ context.Context, r *pb.ClaimFeeDepositRequest) (*pb.ClaimFeeDepositReply, error) {
	e.claim(r.GetOutpoints())
	return &pb.ClaimFeeDepositReply{}, nil
}

func (e *env) ClaimMarketDeposit(_ context.Context, r *pb.ClaimMarketDepositRequest) (*pb.ClaimMarketDepositReply, error) {
	e.claim(r.GetOutpoints())
	return &pb.ClaimMarketDepositReply{}, nil
}

func (e *env) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	e.mu.Lock()
	defer e.mu.Unlock()
	p := strings.Split(strings.Trim(r.URL.Path, "/"), "/")
	switch {
	case r.Method == "POST" && len(p) == 1 && p[0] == "tx":
		b, _ := io.ReadAll(r.Body)
		h := strings.TrimSpace(string(b))
		e.sent = append(e.sent, h)
		tx, err := transaction.NewTxFromHex(h)
		if err != nil {
			http.Error(w, "bad transaction", 400)
			return
		}
		e.txs[tx.TxHash().String()] = h
		fmt.Fprint(w, tx.TxHash().String())
	case len(p) == 3 && p[2] == "hex" && e.txs[p[1]] != "":
		fmt.Fprint(w, e.txs[p[1]])
	case len(p) == 3 && p[2] == "status" && e.txs[p[1]] != "":
		fmt.Fprint(w, `{"confirmed":true,"block_height":7}`)
	case strings.HasPrefix(r.URL.Path, "/blocks/tip/height"):
		fmt.Fprint(w, "7")
	default:
		http.Error(w, "not found", 404)
	}
}

var e *env

func serve() {
	if e != nil {
		return
	}
	e = &env{}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := grpc.NewServer()
	pb.RegisterOperatorServer(s, e)
	go s.Serve(l)
	e.rpc, e.web = l.Addr().String(), httptest.NewServer(e).URL
}

var tool = filepath.Join(os.Getenv("MC_SCRATCH"), "tdex")

func run(t test) {
	serve()
	e.mu.Lock()
	e.txs, e.sent, e.addresses, e.claimed, e.claims = map[string]string{}, nil, 0, nil, 0
	script, blind := txs.Script(wallet), txs.Blind(wallet)
	type own struct {
		coin
		spent bool
	}
	coins := map[string]*own{}
	var ids []string
	total := map[string]uint64{}
	for i, l := range t.txs {
		tx := transaction.NewTx(2)
		tx.AddInput(transaction.NewTxInput(bytes.Repeat([]byte{byte(0x50 + i)}, 32), uint32(i)))
		tx.AddOutput(txs.Out(base, 77, txs.Script("someone else")))
		for _, k := range l {
			if k.conf {
				tx.AddOutput(txs.Conf(k.asset, k.v, script, blind))
			} else {
				tx.AddOutput(txs.Out(k.asset, k.v, script))
			}
			total[k.asset] += k.v
		}
		id := tx.TxHash().String()
		for j, k := range l {
			coins[fmt.Sprint(id, ":", j+1)] = &own{coin: k}
		}
		ids = append(ids, id)
		e.txs[id] = txs.Hex(tx)
	}
	e.mu.Unlock()
	dir := hx.Tmp("c26-")
	defer os.RemoveAll(dir)
	name := "fee"
	if t.market {
		name = "market"
	}
	wal, _ := json.Marshal(map[string]string{"privateKey": hex.EncodeToString(txs.Key(wallet).Serialize()), "blindingKey": hex.EncodeToString(blind)})
	st, _ := json.Marshal(map[string]string{"network": "regtest", "explorer_url": e.web, "rpcserver": e.rpc, "no_macaroons": "true", name + "_wallet": string(wal)})
	if err := os.WriteFile(filepath.Join(dir, "state.json"), st, 0o644); err != nil {
		panic(err)
	}
	args := []string{"fragment" + name}
	for _, i := range t.flag {
		args = append(args, "--txid", ids[i])
	}
	if t.named {
		args = append(args, "--base_asset", base, "--quote_asset", quote)
	}
	typed := []string{}
	for _, i := range t.typed {
		typed = append(typed, ids[i])
	}
	cx, stop := context.WithTimeout(context.Background(), 60*time.Second)
	defer stop()
	cmd := exec.CommandContext(cx, tool, args...)
	cmd.Env = append(os.Environ(), "TDEX_OPERATOR_DATADIR="+dir)
	cmd.Stdin = strings.NewReader(strings.Join(typed, " ") + "\n")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	said := out.String()
	if len(said) > 600 {
		said = said[len(said)-600:]
	}
	bad := func(sig, f string, a ...interface{}) {
		c.Fail(sig, t.String()+": "+fmt.Sprintf(f, a...)+"; the tool said: "+said, t.String())
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	c.Count("evaluations", 1)
	after := map[string]string{}
	b, _ := os.ReadFile(filepath.Join(dir, "state.json"))
	json.Unmarshal(b, &after)
	kept := after[name+"_wallet"] != ""
	if cx.Err() != nil {
		bad("hang", "the tool does not end")
		return
	}
	if strings.Contains(out.String(), "panic:") {
		bad("crash", "the tool crashes")
		return
	}
	if len(e.sent) == 0 {
		c.Outcome("refused")
		if err == nil {
			bad("silent", "nothing was sent, but the tool reports success")
		}
		if !kept {
			bad("key-lost", "nothing was sent, but the key of the deposits is removed")
		}
		if t.must {
			bad("refused", "the deposit is refused")
		}
		return
	}
	if len(e.sent) > 1 {
		bad("sent-twice", "%d transactions are sent", len(e.sent))
		return
	}
	tx, perr := transaction.NewTxFromHex(e.sent[0])
	if perr != nil {
		bad("unreadable", "the transaction cannot be read: %v", perr)
		return
	}
	left := map[string]uint64{}
	for _, in := range tx.Inputs {
		h := append([]byte{}, in.Hash...)
		for a, z := 0, len(h)-1; a < z; a, z = a+1, z-1 {
			h[a], h[z] = h[z], h[a]
		}
		k := coins[fmt.Sprint(hex.EncodeToString(h), ":", in.Index)]
		if k == nil || k.spent {
			bad("input", "%x:%d is spent, but is no coin of the deposit, or was already spent", h, in.Index)
			return
		}
		k.spent = true
		left[k.asset] += k.v
	}
	// the asset it takes the market's quote asset for
	picked := quote
	if t.market && !t.named {
		for _, k := range coins {
			if k.spent && k.asset != base {
				picked = k.asset
			}
		}
	}
	for id, k := range coins {
		ours := k.asset == base || t.market && k.asset == picked
		if k.spent && !ours {
			bad("foreign", "coin %s of %d %s is spent, which is no asset of the market", id, k.v, world.Fmt(k.asset))
		}
		if !k.spent && ours {
			bad("coin-lost", "coin %s of %d %s is not spent", id, k.v, world.Fmt(k.asset))
		}
	}
	at := map[string]int{}
	for i := 0; i < e.addresses; i++ {
		_, s, _ := address(i)
		at[hex.EncodeToString(s)] = i
	}
	n, fee, wants := map[string]int{}, uint64(0), []string{}
	for i, o := range tx.Outputs {
		if len(o.Script) == 0 {
			a, v, ok := txs.Open(o, nil)
			if !ok || a != base {
				bad("fee-output", "output %d pays a fee in %s", i, a)
				return
			}
			fee += v
			left[base] -= v
			continue
		}
		x, ok := at[hex.EncodeToString(o.Script)]
		if !ok {
			bad("address", "output %d goes to no address of the daemon, or to one already used", i)
			return
		}
		delete(at, hex.EncodeToString(o.Script))
		_, _, bl := address(x)
		a, v, ok := txs.Open(o, bl)
		if !ok {
			bad("blinding", "output %d cannot be opened by the daemon", i)
			return
		}
		if v == 0 || v > total[a] {
			bad("fragment", "output %d is of %d %s", i, v, world.Fmt(a))
		}
		n[a]++
		left[a] -= v
		wants = append(wants, fmt.Sprint(tx.TxHash().String(), ":", i))
	}
	for a, v := range left {
		if v != 0 {
			bad("balance", "%d %s are deposited, but %d of them go nowhere", total[a], world.Fmt(a), int64(v))
		}
	}
	if fee == 0 {
		bad("no-fee", "no network fee is paid")
	}
	if max := map[bool]int{false: 150, true: 11}[t.market]; n[base] > max || n[picked] > max {
		bad("many", "%v fragments, more than %d", n, max)
	}
	var got []string
	for _, o := range e.claimed {
		got = append(got, fmt.Sprint(o.GetHash(), ":", o.GetIndex()))
	}
	sort.Strings(got)
	sort.Strings(wants)
	if e.claims != 1 || strings.Join(got, " ") != strings.Join(wants, " ") {
		bad("claims", "the outputs %v are claimed, not %v", got, wants)
	}
	if err != nil {
		bad("failed", "the transaction was sent, but the tool reports %v", err)
	}
	c.Count("distinct_nontrivial", 1)
	c.Outcome(fmt.Sprintf("market %v: %d base and %d quote fragments", t.market, n[base], n[picked]))
}

// build the tool, with the function that splits amounts in it if it compiles.
func build() (dense bool) {
	s := os.Getenv("MC_SCRATCH")
	repo := hx.Repo()
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			panic(err)
		}
		os.WriteFile(filepath.Join(s, "tool."+strings.TrimPrefix(f, "go.")), b, 0o644)
	}
	ov := filepath.Join(s, "tool.overlay.json")
	b, _ := json.Marshal(map[string]interface{}{"Replace": map[string]string{filepath.Join(repo, "cmd/tdex/zz_c26.go"): filepath.Join(hx.Verif(), "mc/cmd/c26/inpkg.go.txt")}})
	os.WriteFile(ov, b, 0o644)
	for _, x := range [][]string{{"-overlay", ov}, nil} {
		cmd := exec.Command("go", append(append([]string{"build", "-modfile", filepath.Join(s, "tool.mod")}, x...), "-o", tool, "./cmd/tdex")...)
		cmd.Dir = repo
		if out, err := cmd.CombinedOutput(); err == nil {
			return x != nil
		} else if x == nil {
			fmt.Println("the tool does not build:", string(out))
			os.Exit(3)
		}
	}
	return false
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func main() {
	c = hx.New("C26", "exploration")
	th := c.Thorough()
	if os.Getenv("MC_SHARD") == "" {
		if build() {
			cmd := exec.Command(tool)
			cmd.Env = append(os.Environ(), "C26_DENSE="+c.Tier)
			out, err := cmd.Output()
			var n, multi int
			for _, l := range strings.Split(string(out), "\n") {
				f := strings.SplitN(l, " ", 3)
				switch f[0] {
				case "BAD":
					c.Fail(f[1], f[2], l)
				case "DONE":
					fmt.Sscan(f[1]+" "+f[2], &n, &multi)
				}
			}
			if err != nil || n == 0 {
				c.Fail("split-crash", fmt.Sprintf("splitting amounts crashes: %v", err), string(out))
			}
			c.Count("evaluations", n)
			c.Count("distinct_nontrivial", multi)
			c.Info("amounts split", n)
		} else {
			c.Cap("the splitting functions have other names or signatures: only whole runs of the tool are judged")
		}
	}
	var ts []test
	fee := func(must bool, l ...[]coin) {
		t := test{txs: l, must: must}
		for i := range l {
			if i == 0 {
				t.flag = append(t.flag, i)
			} else {
				t.typed = append(t.typed, i)
			}
		}
		ts = append(ts, t)
	}
	B := func(v uint64) coin { return coin{base, v, false} }
	C := func(v uint64) coin { return coin{base, v, true} }
	Q := func(v uint64) coin { return coin{quote, v, v%2 == 1} }
	for _, v := range []uint64{1, 5, 20, 30, 40, 60, 80, 100, 110, 120, 125, 130, 140, 150, 200, 300, 1000, 4999, 5000, 5001, 9999, 10000, 14999, 15000, 29998, 50000} {
		fee(v >= 5000, []coin{B(v)})
	}
	top := 240
	if th {
		top = 2000
	}
	for v := 90; v < top; v += 1 + 4*b2i(!th) { // one fragment: around the fee
		fee(false, []coin{C(uint64(v))})
	}
	for _, l := range [][][]coin{
		{{B(3000), B(3000)}}, {{B(3000)}, {C(7000)}}, {{C(10000)}}, {{C(4999), C(1)}}, {{B(2500)}, {B(2500)}}, {{B(2500), C(9000)}, {B(40), B(41)}, {C(12345)}},
		{{B(1)}, {B(20000)}}, {{B(7000), Q(900)}},
	} {
		fee(true, l...)
	}
	fee(true, []coin{C(2100000000000000)})
	if th {
		fee(true, []coin{B(751000)})
		for _, v := range []uint64{744999, 745000, 745001, 749999, 750000, 750001, 750100, 754999, 755000, 755001} {
			fee(true, []coin{C(v)})
		}
	}
	mk := func(must bool, l ...[]coin) {
		for _, named := range []bool{false, true} {
			if named && !th && (len(ts)%4 != 0 || !must) {
				continue
			}
			t := test{market: true, txs: l, must: must, named: named}
			for i := range l {
				if i == 0 {
					t.flag = append(t.flag, i)
				} else {
					t.typed = append(t.typed, i)
				}
			}
			ts = append(ts, t)
		}
	}
	bs := []uint64{10, 50, 500, 1000, 3000, 3500, 4000, 4500, 5000, 6000, 49999, 50000, 50001, 1234567, 100000000, 2100000000000000}
	qs := []uint64{0, 1, 2, 3, 4, 7, 10, 33, 49, 50, 51, 99, 101, 50000, 2099999999999999}
	for i, b := range bs {
		for j, q := range qs {
			if !th && !(i == 11 && j%2 == 0) && !(j == 13 && i > 1) && (i+j)%9 != 0 {
				continue
			}
			l := []coin{B(b)}
			if q > 0 {
				l = append(l, Q(q))
			}
			mk(b >= 50000 && q > 0, l)
		}
	}
	top = 10
	if th {
		top = 130
	}
	for v := 1; v < top; v++ {
		mk(true, []coin{C(60000), Q(uint64(v))})
	}
	for _, l := range [][][]coin{{{B(50000)}, {Q(70001)}}, {{C(30000), C(31001)}, {Q(50), Q(51), Q(49)}}, {{Q(500000)}, {B(900), C(80000)}}} {
		mk(true, l...)
	}
	mk(false, []coin{Q(500)})
	mk(false, []coin{B(60000)})
	// coins of a third asset
	T := func(v uint64) coin { return coin{third, v, v%2 == 1} }
	for _, l := range [][][]coin{{{B(50000), Q(70001), T(500)}}, {{T(501)}, {C(60000), Q(80000)}}, {{B(50000), T(70001)}, {T(2), Q(3)}}, {{T(9), T(10), Q(10), C(90000), T(11)}}} {
		mk(true, l...)
		ts = append(ts, test{market: true, txs: l, flag: []int{0}, typed: ts[len(ts)-1].typed, named: !ts[len(ts)-1].named, must: true})
		fee(true, l...)
	}
	ts = append(ts, test{market: true, named: true, txs: [][]coin{{B(50000), T(70001)}}, flag: []int{0}})
	// the same deposit told twice
	for _, m := range []bool{false, true} {
		l := [][]coin{{B(30000), Q(800)}, {B(60000), Q(61)}}
		ts = append(ts,
			test{market: m, must: true, txs: l, flag: []int{0, 1}},
			test{market: m, must: true, txs: l, flag: []int{0, 1}, typed: []int{0, 1}},
			test{market: m, must: true, txs: l, flag: []int{0}, typed: []int{0, 1}},
			test{market: m, must: true, txs: l, flag: []int{0, 1, 0}},
			test{market: m, must: true, txs: l, flag: []int{0}, typed: []int{1, 1}})
	}
	c.Describe = func(i int) string { return ts[i].String() }
	c.Procs("runs", len(ts), func(i int) {
		if c.Expired() {
			c.Cap("budget")
			return
		}
		run(ts[i])
	})
	c.Info("runs of the tool", len(ts))
	for _, i := range []int{17, len(ts) / 2, len(ts) - 1} {
		c.Sample(ts[i].String())
	}
	c.Info("rule", "every amount from 0 to 300000 (thorough: 5000000) and around each power of two and ten up to the supply through both splitting functions; whole runs for every amount around the network fee of one fragment, thresholds of both tools, base x quote amounts, several coins and deposits, deposits with a third asset and deposits told twice; non-trivial: more than one fragment, or a transaction was sent and judged")
	c.Assume("coins of a third asset stay unspent: the tool says that they are lost; amounts are at most 21 million coins")
	c.Finish()
}
