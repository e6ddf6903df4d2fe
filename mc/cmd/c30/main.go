// C30: the operator's command line. The real tool, as a process, against a daemon
// kept here that records what it is asked: every command with boundary values of
// every flag, every answer of the daemon, every way of being connected to it, every
// state of the configuration that a few commands reach, and every point at which
// writing the configuration can end.
package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"os/exec"
	"os/user"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	pb "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	pbw "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	pbtypes "github.com/tdex-network/tdex-protobuf/generated/go/types"
	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"gopkg.in/macaroon.v2"
)

var (
	c    *hx.Check
	tool = filepath.Join(os.Getenv("MC_SCRATCH"), "tdex")
)

const (
	baseAsset  = "5ac9f65c0efcc4775e0baec4ec03abdde22473cd3cf33c0419ca290e0751b225"
	quoteAsset = "a64b14f3de72bc602d0786e6f034720a879a6b9339d59b09ddd49e1783ed227a"
)

// order given to the tool, and the requests that carry it out.
type order struct {
	args   []string
	method string
	want   []proto.Message
	free   bool   // may be refused
	bad    bool   // must be refused
	market bool   // is about the market in the configuration
	shows  string // json, words, id
}

func (o order) String() string { return "tdex " + fmt.Sprintf("%q", o.args) }

func market() *pbtypes.Market { return &pbtypes.Market{BaseAsset: baseAsset, QuoteAsset: quoteAsset} }

// integers as they can be typed, and whether one must be able to.
func signed() (l []string) {
	for _, v := range []int64{0, 1, 2, 25, 9999, -1, math.MaxInt32, math.MaxInt32 + 1, math.MinInt64, math.MaxInt64} {
		l = append(l, fmt.Sprint(v))
	}
	return append(l, "9223372036854775808", "18446744073709551615", "-9223372036854775809", "1.5", "abc", "", " 1", "1,2")
}

func orders() (l []order) {
	one := func(m string, o order) { o.method = m; l = append(l, o) }
	one("GenSeed", order{args: []string{"genseed"}, want: []proto.Message{&pbw.GenSeedRequest{}}, shows: "words"})
	// wallet
	seeds := []string{"abandon abandon about", "one", "a  b", "", strings.Repeat("word ", 23) + "last"}
	for _, p := range []string{"password", "a b", "p\"ä=\\", "", "--x", strings.Repeat("0", 4000)} {
		for _, s := range seeds {
			for _, r := range []string{"", "--restore", "--restore=true", "--restore=false"} {
				o := order{args: []string{"init"}, free: p == "" || s == ""}
				if p != "" {
					o.args = append(o.args, "--password="+p)
				}
				if s != "" {
					o.args = append(o.args, "--seed", s)
				}
				if r != "" {
					o.args = append(o.args, r)
				}
				rs := r == "--restore" || r == "--restore=true"
				for _, w := range [][]string{strings.Split(s, " "), strings.Fields(s), nil} {
					if w == nil && s != "" {
						continue
					}
					o.want = append(o.want, &pbw.InitWalletRequest{WalletPassword: []byte(p), SeedMnemonic: w, Restore: rs})
				}
				if o.free {
					o.want = append(o.want, &pbw.InitWalletRequest{})
				}
				one("InitWallet", o)
			}
		}
		one("UnlockWallet", order{args: []string{"unlock", "--password=" + p}, free: p == "", want: []proto.Message{&pbw.UnlockWalletRequest{WalletPassword: []byte(p)}}})
	}
	one("UnlockWallet", order{args: []string{"unlock"}, free: true, want: []proto.Message{&pbw.UnlockWalletRequest{}}})
	// deposits
	num := func(s string) (int64, bool) { v, err := strconv.ParseInt(s, 0, 64); return v, err == nil }
	for _, s := range append(signed(), "none") {
		v, ok := num(s)
		var a []string
		if s != "none" {
			a = []string{"--num_of_addresses", s}
		} else {
			v, ok = 0, true
		}
		one("DepositFeeAccount", order{args: append([]string{"depositfee"}, a...), bad: !ok, free: v < 0, want: []proto.Message{&pb.DepositFeeAccountRequest{NumOfAddresses: v}}, shows: "json"})
		for _, m := range [][2]string{{"", ""}, {baseAsset, quoteAsset}, {baseAsset, ""}, {"", quoteAsset}, {quoteAsset, baseAsset}} {
			b := append([]string{"depositmarket"}, a...)
			if m[0] != "" {
				b = append(b, "--base_asset", m[0])
			}
			if m[1] != "" {
				b = append(b, "--quote_asset", m[1])
			}
			one("DepositMarket", order{args: b, bad: !ok, free: v < 0 || (m[0] == "") != (m[1] == ""), want: []proto.Message{&pb.DepositMarketRequest{Market: &pbtypes.Market{BaseAsset: m[0], QuoteAsset: m[1]}, NumOfAddresses: v}}, shows: "json"})
		}
	}
	// claims
	h := strings.Repeat("ab", 32)
	for _, x := range []struct {
		s         string
		l         []*pb.TxOutpoint
		free, bad bool
	}{
		{s: `[{"hash":"` + h + `","index":1}]`, l: []*pb.TxOutpoint{{Hash: h, Index: 1}}},
		{s: ` [ {"index": 0, "hash": "` + h + `"} ] `, l: []*pb.TxOutpoint{{Hash: h}}},
		{s: `[{"hash":"` + h + `","index":2147483647},{"hash":"cc","index":7},{"hash":"` + h + `","index":3}]`, l: []*pb.TxOutpoint{{Hash: h, Index: math.MaxInt32}, {Hash: "cc", Index: 7}, {Hash: h, Index: 3}}},
		{s: `[{"hash":"aa","index":1},{"hash":"aa","index":1}]`, l: []*pb.TxOutpoint{{Hash: "aa", Index: 1}, {Hash: "aa", Index: 1}}},
		{s: `[{"hash":"aa","index":-1}]`, l: []*pb.TxOutpoint{{Hash: "aa", Index: -1}}, free: true},
		{s: `[]`, free: true}, {s: `null`, free: true},
		{s: `[{"hash":"aa","index":2147483648}]`, bad: true}, {s: `[{"hash":"aa","index":1.5}]`, bad: true}, {s: `[{"hash":"aa","index":"1"}]`, bad: true}, {s: `[{"hash":7,"index":1}]`, bad: true},
		{s: `[{"hash":"aa","index":1}`, bad: true}, {s: `[{"hash":"aa","index":1}] x`, bad: true}, {s: `{"hash":"aa","index":1}`, bad: true}, {s: `aa:1`, bad: true}, {s: ``, bad: true}, {s: "none", bad: true},
	} {
		a := []string{"--outpoints", x.s}
		if x.s == "none" {
			a = nil
		}
		one("ClaimFeeDeposit", order{args: append([]string{"claimfee"}, a...), free: x.free, bad: x.bad, want: []proto.Message{&pb.ClaimFeeDepositRequest{Outpoints: x.l}}})
		one("ClaimMarketDeposit", order{args: append([]string{"claimmarket"}, a...), free: x.free, bad: x.bad, market: true, want: []proto.Message{&pb.ClaimMarketDepositRequest{Market: market(), Outpoints: x.l}}})
	}
	// lists
	one("ListMarket", order{args: []string{"listmarket"}, want: []proto.Message{&pb.ListMarketRequest{}}, shows: "json"})
	one("ListTrades", order{args: []string{"listtrades"}, want: []proto.Message{&pb.ListTradesRequest{}}, shows: "json"})
	one("ListUtxos", order{args: []string{"listutxos"}, want: []proto.Message{&pb.ListUtxosRequest{}}, shows: "json"})
	one("ReloadUtxos", order{args: []string{"reloadutxos"}, want: []proto.Message{&pb.ReloadUtxosRequest{}}, shows: "json"})
	// markets
	one("OpenMarket", order{args: []string{"open"}, market: true, want: []proto.Message{&pb.OpenMarketRequest{Market: market()}}})
	one("CloseMarket", order{args: []string{"close"}, market: true, want: []proto.Message{&pb.CloseMarketRequest{Market: market()}}})
	for _, s := range append(signed(), "5", "4294967295", "4294967296", "18446744073709551616", "none") {
		v, err := strconv.ParseUint(s, 0, 64)
		a := []string{"dropmarket", "--account_index", s}
		if s == "none" {
			a, v, err = a[:1], 0, nil
		}
		one("DropMarket", order{args: a, bad: err != nil, free: v == 0 || v > math.MaxInt64, want: []proto.Message{&pb.DropMarketRequest{AccountIndex: v}}})
	}
	for _, x := range []struct {
		a []string
		t pb.StrategyType
	}{{nil, pb.StrategyType_BALANCED}, {[]string{"--pluggable"}, pb.StrategyType_PLUGGABLE}, {[]string{"--pluggable=true"}, pb.StrategyType_PLUGGABLE}, {[]string{"--pluggable=false"}, pb.StrategyType_BALANCED}} {
		one("UpdateMarketStrategy", order{args: append([]string{"strategy"}, x.a...), market: true, want: []proto.Message{&pb.UpdateMarketStrategyRequest{Market: market(), StrategyType: x.t}}})
	}
	one("UpdateMarketStrategy", order{args: []string{"strategy", "--pluggable=x"}, market: true, bad: true})
	fl := []string{"1", "0.5", "0.00001", "20000.125", "1e-7", "16777217", "3e38", "4e38", "1e-46", "0", "-1", "nan", "inf", "1,5", "abc", "", "none"}
	for i, p := range fl {
		for j, q := range fl {
			if i > 6 && j > 6 && (i+j)%5 != 0 {
				continue
			}
			o := order{args: []string{"price"}, market: true}
			var f [2]float32
			for k, s := range []string{p, q} {
				if s != "none" {
					o.args = append(o.args, []string{"--base_price", "--quote_price"}[k], s)
				}
				v, err := strconv.ParseFloat(s, 64)
				f[k] = float32(v)
				o.bad = o.bad || err != nil
				o.free = o.free || !(f[k] > 0 && !math.IsInf(float64(f[k]), 0))
			}
			o.want = []proto.Message{&pb.UpdateMarketPriceRequest{Market: market(), Price: &pbtypes.Price{BasePrice: f[0], QuotePrice: f[1]}}}
			one("UpdateMarketPrice", o)
		}
	}
	for _, s := range append(signed(), "none") {
		v, ok := num(s)
		a := []string{"percentagefee", "--basis_point", s}
		if s == "none" {
			a, ok = a[:1], true
		}
		one("UpdateMarketPercentageFee", order{args: a, market: true, bad: !ok, free: v < 0 || v > 9999 || s == "none", want: []proto.Message{&pb.UpdateMarketPercentageFeeRequest{Market: market(), BasisPoint: v}}})
		for i, t := range append(signed(), "none") {
			if i > 5 && s != "1" && s != "none" {
				continue
			}
			w, wok := num(t)
			o := order{args: []string{"fixedfee"}, market: true, bad: !ok}
			if s != "none" {
				o.args = append(o.args, "--base_fee", s)
			} else {
				o.free = true
			}
			if t != "none" {
				o.args = append(o.args, "--quote_fee", t)
				o.bad = o.bad || !wok
			} else {
				o.free = true
			}
			o.free = o.free || v < 0 || w < 0
			o.want = []proto.Message{&pb.UpdateMarketFixedFeeRequest{Market: market(), Fixed: &pbtypes.Fixed{BaseFee: v, QuoteFee: w}}}
			one("UpdateMarketFixedFee", o)
		}
	}
	// webhooks
	acts := []string{"none", "", "settled", "trade_settled", "4", "0"}
	for s := range pb.ActionType_value {
		acts = append(acts, s)
	}
	sort.Strings(acts)
	for _, s := range acts {
		v, ok := pb.ActionType_value[s]
		var a []string
		if s != "none" {
			a = []string{"--action", s}
		}
		one("ListWebhooks", order{args: append([]string{"listwebhooks"}, a...), bad: !ok, want: []proto.Message{&pb.ListWebhooksRequest{Action: pb.ActionType(v)}}, shows: "json"})
		for i, e := range []string{"http://127.0.0.1:1/x?a=b&c=d", "none", "not a url"} {
			for _, k := range []string{"none", "s e c\"ret", strings.Repeat("k", 2000)} {
				o := order{args: append([]string{"addwebhook"}, a...), bad: !ok, free: i > 0, shows: "id"}
				r := &pb.AddWebhookRequest{Action: pb.ActionType(v)}
				if e != "none" {
					o.args, r.Endpoint = append(o.args, "--endpoint", e), e
				}
				if k != "none" {
					o.args, r.Secret = append(o.args, "--secret", k), k
				}
				o.want = []proto.Message{r}
				one("AddWebhook", o)
			}
		}
	}
	for _, s := range []string{"7c8b3e0a-0000-4000-8000-000000000000", "x", "", "none"} {
		o := order{args: []string{"removewebhook", "--id", s}, free: s == "" || s == "none", want: []proto.Message{&pb.RemoveWebhookRequest{Id: s}}}
		if s == "none" {
			o.args, o.want = o.args[:1], []proto.Message{&pb.RemoveWebhookRequest{}}
		}
		one("RemoveWebhook", o)
	}
	one("", order{args: []string{"listmarket", "--no_such_flag"}, bad: true})
	one("", order{args: []string{"open", "--base_asset", baseAsset}, bad: true, market: true})
	return
}

// world a run takes place in.
type world struct {
	name    string
	drop    []string          // keys missing from the configuration
	set     map[string]string // other values
	raw     *string           // the bytes of the file instead
	nofile  bool
	cert    *tls.Certificate // of the daemon
	down    bool
	refuse  bool // nothing may reach the daemon
	refuseW bool // nothing may reach it by commands of the wallet
	mac     string
}

type result struct {
	code      int
	out, errs string
	hang      bool
	signal    syscall.Signal
	reqs      []request
	before    []byte
	after     []byte
	lost      bool
}

var home = func() string {
	u, err := user.Current()
	if err != nil {
		return os.Getenv("HOME")
	}
	return u.HomeDir
}()

func execute(dir string, pre []string, args ...string) (r result) {
	cx, stop := context.WithTimeout(context.Background(), 60*time.Second)
	defer stop()
	l := append(append([]string{}, pre...), tool)
	l = append(l, args...)
	cmd := exec.CommandContext(cx, l[0], l[1:]...)
	cmd.Env = []string{"TDEX_OPERATOR_DATADIR=" + dir, "HOME=" + home, "PATH=" + os.Getenv("PATH"), "C30_DIR=/data/x"}
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	err := cmd.Run()
	r.out, r.errs = out.String(), errs.String()
	r.hang = cx.Err() != nil
	var x *exec.ExitError
	switch {
	case err == nil:
	case errors.As(err, &x):
		r.code = x.ExitCode()
		if ws, ok := x.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			r.signal = ws.Signal()
		}
	default:
		panic(err)
	}
	return
}

func file(dir string) string { return filepath.Join(dir, "state.json") }

func write(dir string, m map[string]string) {
	b, _ := json.Marshal(m)
	if err := os.WriteFile(file(dir), b, 0o644); err != nil {
		panic(err)
	}
}

func run(o order, w world, a answer) (r result) {
	dir := hx.Tmp("c30-")
	defer os.RemoveAll(dir)
	d := start(a, w.cert)
	defer d.srv.Stop()
	addr := d.addr
	if w.down {
		d.srv.Stop()
	}
	m := map[string]string{"network": "regtest", "rpcserver": addr, "no_macaroons": "true", "base_asset": baseAsset, "quote_asset": quoteAsset, "fee_wallet": `{"privateKey":"00"}`}
	for k, v := range w.set {
		m[k] = v
	}
	for _, k := range w.drop {
		delete(m, k)
	}
	switch {
	case w.nofile:
	case w.raw != nil:
		os.WriteFile(file(dir), []byte(strings.ReplaceAll(*w.raw, "ADDR", addr)), 0o644)
	default:
		write(dir, m)
	}
	before, _ := os.ReadFile(file(dir))
	r = execute(dir, nil, o.args...)
	r.before = before
	r.after, _ = os.ReadFile(file(dir))
	_, err := os.Stat(file(dir))
	r.lost = (err != nil) != w.nofile
	d.mu.Lock()
	r.reqs = d.reqs
	d.mu.Unlock()
	return
}

func lastLine(s string) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	return strings.TrimSpace(l[len(l)-1])
}

var (
	linesMu sync.Mutex
	lines   = map[string]string{}
)

// success is what the tool prints last when it carried out the order.
func success(o order) string {
	linesMu.Lock()
	defer linesMu.Unlock()
	k := fmt.Sprint(o.args)
	if s, ok := lines[k]; ok {
		return s
	}
	r := run(o, world{}, answer{})
	s := ""
	if r.code == 0 {
		s = lastLine(r.out)
	}
	lines[k] = s
	return s
}

func judge(o order, w world, a answer) {
	r := run(o, w, a)
	id := fmt.Sprintf("%v; configuration: %s; daemon: %s", o, w.name, a.name)
	bad := func(sig, f string, x ...interface{}) {
		c.Fail(sig, fmt.Sprintf(f, x...)+": "+id+fmt.Sprintf("; exit code %d; it said: %s%s", r.code, r.out, r.errs), id)
	}
	c.Count("evaluations", 1)
	if r.hang {
		bad("hang", "the tool does not end")
		return
	}
	if r.signal != 0 || strings.Contains(r.errs, "goroutine ") || r.code == 2 {
		bad("crash", "the tool crashes")
		return
	}
	if !bytes.Equal(r.before, r.after) || r.lost {
		bad("configuration", "the configuration changed")
	}
	wallet := strings.Contains("InitWallet GenSeed UnlockWallet", o.method) && o.method != ""
	refuse := o.bad || w.refuse || w.refuseW && wallet || o.market && (has(w.drop, "base_asset") || has(w.drop, "quote_asset"))
	switch {
	case len(r.reqs) == 0:
		c.Outcome("refused by the tool")
	case r.code == 0:
		c.Outcome("carried out")
	default:
		c.Outcome("refused by the daemon")
	}
	if len(r.reqs) == 0 {
		if r.code == 0 {
			bad("silent", "nothing was asked, but the tool reports success")
		}
		if strings.TrimSpace(r.out+r.errs) == "" {
			bad("mute", "the order is refused without a word")
		}
		if s := success(o); s != "" && o.shows != "json" && has(strings.Split(r.out, "\n"), s) {
			bad("claims", "the order is refused, but the tool says that it is carried out")
		}
		if !refuse && !o.free && !w.down {
			bad("refused", "the order is refused")
		}
		if !refuse && !w.down {
			c.Count("refused", 1)
		}
		return
	}
	if len(r.reqs) > 1 {
		bad("repeated", "the daemon is asked %d times", len(r.reqs))
		return
	}
	q := r.reqs[0]
	c.Count("distinct_nontrivial", 1)
	if refuse {
		bad("not-refused", "the daemon is asked for %s %v", q.method, q.msg)
		return
	}
	if q.method[strings.LastIndex(q.method, "/")+1:] != o.method {
		bad("method", "the daemon is asked for %s", q.method)
		return
	}
	same := false
	for _, x := range o.want {
		same = same || equal(x, q.msg)
	}
	if !same {
		bad("request", "the daemon is asked for %v, not for %v", q.msg, o.want)
	}
	switch {
	case !q.tls && len(q.macaroons) > 0:
		bad("macaroon-leaked", "the macaroon is sent unencrypted")
	case q.tls && !wallet && (len(q.macaroons) != 1 || q.macaroons[0] != w.mac):
		bad("macaroon", "the macaroons sent are %v, not %v", q.macaroons, w.mac)
	}
	if a.code != codes.OK || a.drop {
		if r.code == 0 {
			bad("failure-hidden", "the daemon fails, but the tool reports success")
		}
		if s := success(o); s != "" && o.shows != "json" && has(strings.Split(r.out, "\n"), s) {
			bad("claims", "the daemon fails, but the tool says that the order is carried out")
		}
		if !a.drop && !strings.Contains(r.out+r.errs, why) {
			bad("reason", "the tool does not say why the daemon refused")
		}
		return
	}
	if r.code != 0 {
		bad("failed", "the daemon carried out the order, but the tool reports a failure")
		return
	}
	reply := proto.Message(nil)
	if len(a.msgs) > 0 {
		reply = a.msgs[0]
	} else {
		reply = make_(method(o.method).Output())
	}
	switch o.shows {
	case "json":
		got := make_(method(o.method).Output())
		if err := protojson.Unmarshal([]byte(r.out), got); err != nil || !proto.Equal(got, reply) {
			show := fmt.Sprint(reply)
			if len(show) > 3000 {
				show = show[:3000]
			}
			bad("shown", "the daemon answers %v (%v)", show, err)
		}
	case "words":
		if s := strings.Join(reply.(*pbw.GenSeedReply).GetSeedMnemonic(), " "); strings.TrimSpace(r.out) != s {
			bad("shown", "the daemon answers %q", s)
		}
	case "id":
		if s := reply.(*pb.AddWebhookReply).GetId(); !strings.Contains(r.out, s) {
			bad("shown", "the daemon answers %q", s)
		}
	default:
		if strings.TrimSpace(r.out+r.errs) == "" {
			bad("mute", "the order is carried out without a word")
		}
	}
}

func has(l []string, s string) bool {
	for _, x := range l {
		if strings.TrimSpace(x) == s {
			return true
		}
	}
	return false
}

func build() {
	s := os.Getenv("MC_SCRATCH")
	repo := hx.Repo()
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			panic(err)
		}
		os.WriteFile(filepath.Join(s, "tool."+strings.TrimPrefix(f, "go.")), b, 0o644)
	}
	cmd := exec.Command("go", "build", "-modfile", filepath.Join(s, "tool.mod"), "-o", tool, "./cmd/tdex")
	cmd.Dir = repo
	if out, err := cmd.CombinedOutput(); err != nil {
		fmt.Println("the tool does not build:", string(out))
		os.Exit(3)
	}
}

func main() {
	if limited() {
		return
	}
	c = hx.New("C30", "exploration")
	th := c.Thorough()
	build()
	describe()
	type job struct {
		f    func()
		name string
	}
	var jobs []job
	os_ := orders()
	add := func(o order, w world, a answer) {
		jobs = append(jobs, job{func() { judge(o, w, a) }, fmt.Sprint(o, "; ", w.name, "; ", a.name)})
	}
	plain := world{name: "complete"}
	seen := map[string]bool{}
	var firsts []order
	for _, o := range os_ {
		add(o, plain, answer{name: "done"})
		if !o.bad && !o.free && !seen[o.args[0]] {
			seen[o.args[0]] = true
			firsts = append(firsts, o)
		}
	}
	c.Info("orders", len(os_))
	// every answer
	for _, o := range firsts {
		out := method(o.method).Output()
		if o.method != "InitWallet" {
			for n := 1; n < 4; n++ {
				add(o, plain, answer{name: fmt.Sprintf("a full reply, %d of each", n), msgs: []proto.Message{full(make_(out), n)}})
			}
			for k := codes.Code(1); k <= codes.Unauthenticated; k++ {
				add(o, plain, answer{name: "error " + k.String(), code: k})
			}
			add(o, plain, answer{name: "the connection is lost", drop: true})
		}
		w := plain
		w.name, w.down = "the daemon is not running", true
		add(o, w, answer{})
		for _, k := range []string{"rpcserver", "base_asset", "quote_asset"} {
			add(o, world{name: "without " + k, drop: []string{k}, refuse: k == "rpcserver"}, answer{name: "done"})
		}
		add(o, world{name: "no file", nofile: true, refuse: true}, answer{name: "done"})
		empty := ""
		add(o, world{name: "empty file", raw: &empty, refuse: true}, answer{name: "done"})
	}
	for _, n := range []int{3000, 30000} {
		for _, o := range firsts {
			if o.shows == "json" && o.method != "ReloadUtxos" {
				if th || n == 3000 || o.method == "ListTrades" {
					add(o, plain, answer{name: fmt.Sprintf("a reply with %d of each", n), msgs: []proto.Message{large(make_(method(o.method).Output()), n)}})
				}
			}
		}
	}
	// the restore of a wallet, message by message
	var init order
	for _, o := range os_ {
		if o.method == "InitWallet" && !o.free {
			init = o
			break
		}
	}
	P, D := pbw.InitWalletReply_PROCESSING, pbw.InitWalletReply_DONE
	kinds := []*pbw.InitWalletReply{{Account: 0, Status: P}, {Account: 0, Status: D}, {Account: 5, Status: P}, {Account: 5, Status: D, Index: 3}, {Status: P, Data: "addresses"}}
	depth := 3
	if th {
		depth = 4
	}
	var seq func(l []proto.Message)
	seq = func(l []proto.Message) {
		n := fmt.Sprint(len(l), " messages ")
		for _, m := range l {
			n += fmt.Sprintf("{%v} ", m)
		}
		add(init, plain, answer{name: n + "then the end", msgs: l})
		for _, k := range []codes.Code{codes.Internal, codes.Unavailable, codes.Canceled} {
			add(init, plain, answer{name: n + "then error " + k.String(), msgs: l, code: k})
		}
		add(init, plain, answer{name: n + "then the connection is lost", msgs: l, drop: true})
		if len(l) < depth {
			for _, k := range kinds {
				seq(append(l[:len(l):len(l)], k))
			}
		}
	}
	seq(nil)
	// every connection
	dir := hx.Tmp("c30-keys-")
	certA, pathA := pair(dir, "daemon", false, "127.0.0.1", "localhost")
	_, pathB := pair(dir, "stranger", false, "127.0.0.1", "localhost")
	certX, pathX := pair(dir, "elsewhere", false, "10.9.8.7", "example.com")
	certE, pathE := pair(dir, "expired", true, "127.0.0.1", "localhost")
	m, err := macaroon.New([]byte("root key"), []byte("id"), "tdexd", macaroon.LatestVersion)
	if err != nil {
		panic(err)
	}
	m.AddFirstPartyCaveat([]byte("ip 127.0.0.1"))
	mb, _ := m.MarshalBinary()
	put := func(n string, b []byte) string {
		p := filepath.Join(dir, n)
		os.WriteFile(p, b, 0o644)
		return p
	}
	mac := put("admin.macaroon", mb)
	macX := hex.EncodeToString(mb)
	junk, none := put("junk", []byte("junk")), put("none", nil)
	gone := filepath.Join(dir, "gone")
	secure := func(name string, cert *tls.Certificate, tlsPath, macPath string, refuse, refuseW bool, extra map[string]string, drop ...string) {
		w := world{name: name, cert: cert, set: map[string]string{"tls_cert_path": tlsPath, "macaroons_path": macPath, "no_macaroons": "false"}, refuse: refuse, refuseW: refuseW, mac: macX, drop: drop}
		for k, v := range extra {
			w.set[k] = v
		}
		for _, o := range firsts {
			x := w
			if strings.Contains("InitWallet GenSeed UnlockWallet", o.method) && !refuseW {
				x.refuse = false
			}
			add(o, x, answer{name: "done"})
		}
	}
	secure("TLS and macaroon", certA, pathA, mac, false, false, nil)
	secure("TLS and macaroon, no_macaroons unset", certA, pathA, mac, false, false, nil, "no_macaroons")
	secure("TLS and macaroon, no_macaroons empty", certA, pathA, mac, false, false, map[string]string{"no_macaroons": ""})
	secure("no_macaroons unclear and the daemon without TLS", nil, pathA, mac, true, true, map[string]string{"no_macaroons": "nope"})
	secure("the certificate of another daemon", certA, pathB, mac, true, true, nil)
	secure("a daemon with another certificate", certX, pathA, mac, true, true, nil)
	secure("a certificate for another host", certX, pathX, mac, true, true, nil)
	secure("an expired certificate", certE, pathE, mac, true, true, nil)
	secure("no certificate", certA, gone, mac, true, true, nil)
	secure("a broken certificate", certA, junk, mac, true, true, nil)
	secure("an empty certificate", certA, none, mac, true, true, nil)
	secure("no path of the certificate", certA, "", mac, true, true, nil)
	secure("the path of the certificate unset", certA, pathA, mac, true, true, nil, "tls_cert_path")
	secure("no macaroon", certA, pathA, gone, true, false, nil)
	secure("a broken macaroon", certA, pathA, junk, true, false, nil)
	secure("an empty macaroon", certA, pathA, none, true, false, nil)
	secure("no path of the macaroon", certA, pathA, "", true, false, nil)
	secure("the path of the macaroon unset", certA, pathA, mac, true, false, nil, "macaroons_path")
	secure("the daemon without TLS", nil, pathA, mac, true, true, nil)
	secure("the daemon with TLS, the tool without", certA, pathA, mac, true, true, map[string]string{"no_macaroons": "true"})
	secure("neither TLS nor macaroon, paths set", nil, pathA, mac, false, false, map[string]string{"no_macaroons": "true"})
	// a damaged configuration
	whole := `{"base_asset":"` + baseAsset + `","fee_wallet":"{\"privateKey\":\"00\"}","no_macaroons":"true","quote_asset":"` + quoteAsset + `","rpcserver":"ADDR"}`
	var damaged []string
	for i := 1; i < len(whole); i++ {
		if th || i%7 == 1 || i > len(whole)-16 || i < 4 {
			damaged = append(damaged, whole[:i])
		}
	}
	damaged = append(damaged, whole+"}", `[]`, `{"rpcserver":"ADDR","no_macaroons":"true","base_asset":7}`, `{"rpcserver":"ADDR","no_macaroons":true}`, "junk")
	for i, s := range damaged {
		s := s
		w := world{name: fmt.Sprintf("damaged: %q", s), raw: &s, refuse: true}
		for j, o := range firsts {
			if i%len(firsts) == j || th && (i+j)%7 == 0 {
				add(o, w, answer{name: "done"})
			}
		}
		for _, o := range []order{{args: []string{"config"}}, {args: []string{"config", "set", "base_asset", "x"}}, {args: []string{"config", "init"}}} {
			o.bad = true
			add(o, w, answer{name: "done"})
		}
	}
	n := len(jobs)
	var long []job
	configs(th, func(name string, f func()) { long = append(long, job{f, name}) })
	faults(th, func(name string, f func()) { long = append(long, job{f, name}) })
	jobs = append(long, jobs...)
	c.Info("runs with a daemon", n)
	c.Info("jobs", len(jobs))
	only := os.Getenv("MC_SCENARIO")
	c.Par(len(jobs), func(i int) {
		if only != "" && !strings.Contains(jobs[i].name, only) {
			return
		}
		if c.Expired() {
			c.Cap("budget")
			return
		}
		jobs[i].f()
	})
	for _, i := range []int{17, n / 2, n - 1, len(jobs) - 1} {
		c.Sample(jobs[i].name)
	}
	c.Info("rule", "every command with boundary values of every flag; for one order of every command every status code, a lost connection, full and large replies, every connection (21 combinations of certificate, macaroon and setting) and configuration; every sequence of restore messages up to the depth with every end; all configurations reached from nothing by sequences of configuration commands; every byte at which a write can fail and every system call before which the tool can be killed; non-trivial: a request reached the daemon, a configuration was reached, or a write was cut")
	c.Assume("extra words after a command are not judged; only one instance of the tool runs at a time")
	c.Finish()
}

// large has n of everything that can be repeated at the top.
func large(m proto.Message, n int) proto.Message {
	full(m, 1)
	r := m.ProtoReflect()
	for i := 0; i < r.Descriptor().Fields().Len(); i++ {
		fd := r.Descriptor().Fields().Get(i)
		if fd.IsList() {
			l := r.Mutable(fd).List()
			for l.Len() < n {
				l.Append(l.Get(0))
			}
		}
	}
	return m
}
