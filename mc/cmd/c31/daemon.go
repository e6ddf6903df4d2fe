package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"crypto/x509"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/btcsuite/btcd/btcec"
	pb "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	pbw "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	pbt "github.com/tdex-network/tdex-protobuf/generated/go/trade"
	"github.com/vulpemventures/go-elements/address"
	"github.com/vulpemventures/go-elements/elementsutil"
	"github.com/vulpemventures/go-elements/transaction"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
)

// chain is an explorer.
type chain struct {
	mu    sync.Mutex
	txs   map[string]*transaction.Transaction
	conf  map[string]bool
	order []string
	spent map[string]bool
	hits  int
	hit   func(n int) bool // called at every request; true: whoever asks is being killed
	srv   *httptest.Server
	gone  chan bool
}

func newChain() *chain {
	e := &chain{txs: map[string]*transaction.Transaction{}, conf: map[string]bool{}, spent: map[string]bool{}, gone: make(chan bool)}
	e.srv = httptest.NewServer(e)
	return e
}

// end the explorer.
func (e *chain) end() {
	close(e.gone)
	e.srv.CloseClientConnections()
	e.srv.Close()
}

func (e *chain) add(tx *transaction.Transaction, conf bool) string {
	e.mu.Lock()
	defer e.mu.Unlock()
	id := tx.TxHash().String()
	if e.txs[id] == nil {
		e.order = append(e.order, id)
	}
	e.txs[id], e.conf[id] = tx, e.conf[id] || conf
	for _, in := range tx.Inputs {
		e.spent[fmt.Sprint(elementsutil.ReverseBytes(in.Hash), in.Index)] = true
	}
	return id
}

func (e *chain) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	e.mu.Lock()
	e.hits++
	n, f := e.hits, e.hit
	e.mu.Unlock()
	if f != nil && f(n) {
		io.Copy(io.Discard, r.Body)
		select {
		case <-r.Context().Done():
		case <-e.gone:
		case <-time.After(100 * time.Millisecond): // whoever asks was not killed
		}
		w.WriteHeader(503)
		return
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	p := strings.Split(strings.Trim(r.URL.Path, "/"), "/")
	switch {
	case r.URL.Path == "/blocks/tip/height":
		fmt.Fprint(w, "7")
	case r.Method == "POST" && r.URL.Path == "/tx":
		b, _ := io.ReadAll(r.Body)
		tx, err := transaction.NewTxFromHex(strings.TrimSpace(string(b)))
		if err != nil {
			http.Error(w, "bad transaction", 400)
			return
		}
		e.mu.Unlock()
		id := e.add(tx, false)
		e.mu.Lock()
		fmt.Fprint(w, id)
	case len(p) == 3 && p[0] == "address":
		script, err := address.ToOutputScript(p[1])
		if err != nil {
			http.Error(w, "bad address", 400)
			return
		}
		utxos, txs := []interface{}{}, []interface{}{}
		for _, id := range e.order {
			tx, mine := e.txs[id], false
			outs := []interface{}{}
			for i, o := range tx.Outputs {
				var v uint64
				m := map[string]interface{}{"scriptpubkey": hex.EncodeToString(o.Script), "txid": id, "vout": i, "status": map[string]bool{"confirmed": e.conf[id]}}
				if o.IsConfidential() {
					m["valuecommitment"], m["assetcommitment"] = hex.EncodeToString(o.Value), hex.EncodeToString(o.Asset)
				} else {
					v, _ = elementsutil.ElementsToSatoshiValue(o.Value)
					m["value"], m["asset"] = v, hex.EncodeToString(elementsutil.ReverseBytes(o.Asset[1:]))
				}
				outs = append(outs, m)
				if bytes.Equal(o.Script, script) {
					mine = true
					if h, _ := hex.DecodeString(id); !e.spent[fmt.Sprint(h, i)] {
						utxos = append(utxos, m)
					}
				}
			}
			if mine {
				ins := []interface{}{}
				for _, in := range tx.Inputs {
					ins = append(ins, map[string]interface{}{"txid": hex.EncodeToString(elementsutil.ReverseBytes(in.Hash)), "vout": in.Index, "sequence": in.Sequence})
				}
				txs = append(txs, map[string]interface{}{"txid": id, "version": tx.Version, "locktime": tx.Locktime, "vin": ins, "vout": outs, "size": 1, "weight": 4, "status": map[string]bool{"confirmed": e.conf[id]}})
			}
		}
		if p[2] == "utxo" {
			json.NewEncoder(w).Encode(utxos)
		} else {
			json.NewEncoder(w).Encode(txs)
		}
	case len(p) == 3 && p[0] == "tx" && e.txs[p[1]] != nil && p[2] == "hex":
		s, _ := e.txs[p[1]].ToHex()
		fmt.Fprint(w, s)
	case len(p) == 3 && p[0] == "tx" && e.txs[p[1]] != nil && p[2] == "status":
		if e.conf[p[1]] {
			fmt.Fprint(w, `{"confirmed":true,"block_height":7,"block_hash":"`+strings.Repeat("0a", 32)+`","block_time":1600000000}`)
		} else {
			fmt.Fprint(w, `{"confirmed":false}`)
		}
	default:
		http.Error(w, "Transaction not found", 404)
	}
}

var bin = filepath.Join(os.Getenv("MC_SCRATCH"), "tdexd")

// build the daemon of the tree, with the libraries it is released with and a cheap
// derivation of keys from passwords.
func build() {
	s := os.Getenv("MC_SCRATCH")
	b, err := os.ReadFile(filepath.Join(s, "go.mod"))
	if err != nil {
		panic(err)
	}
	var mod []string
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.Contains(l, "./cheap/") {
			mod = append(mod, l)
		}
	}
	sum, _ := os.ReadFile(filepath.Join(s, "go.sum"))
	sum2, _ := os.ReadFile(filepath.Join(hx.Repo(), "go.sum"))
	os.WriteFile(filepath.Join(s, "tdexd.mod"), []byte(strings.Join(mod, "\n")), 0o644)
	os.WriteFile(filepath.Join(s, "tdexd.sum"), append(sum, sum2...), 0o644)
	a := []string{"build", "-modfile", filepath.Join(s, "tdexd.mod"), "-trimpath", "-o", bin}
	if _, err := os.Stat(filepath.Join(s, "ov", "overlay.json")); err == nil {
		a = append(a, "-overlay", filepath.Join(s, "ov", "overlay.json"))
	}
	cmd := exec.Command("go", append(a, "github.com/tdex-network/tdex-daemon/cmd/tdexd")...)
	cmd.Dir = filepath.Join(hx.Verif(), "mc")
	if out, err := cmd.CombinedOutput(); err != nil {
		fmt.Println("the daemon does not build:", string(out))
		os.Exit(3)
	}
}

func keyOf(b []byte) (*btcec.PrivateKey, *btcec.PublicKey) {
	return btcec.PrivKeyFromBytes(btcec.S256(), b)
}

var ports struct {
	sync.Mutex
	next int
}

// port that nobody listens at.
func port() int {
	ports.Lock()
	defer ports.Unlock()
	for {
		ports.next++
		if ports.next < 20000 || ports.next > 30000 {
			ports.next = 20000 + os.Getpid()%2000
		}
		if l, err := net.Listen("tcp", fmt.Sprintf(":%d", ports.next)); err == nil {
			l.Close()
			return ports.next
		}
	}
}

// daemon is a running process.
type daemon struct {
	cmd      *exec.Cmd
	log      bytes.Buffer
	mu       sync.Mutex
	done     chan bool
	op, tr   int
	dir      string
	conns    []*grpc.ClientConn
	operator pb.OperatorClient
	wallet   pbw.WalletClient
	trade    pbt.TradeClient
	mac      string
	e        *chain
	n, step  int
	mark     func() // called between the requests of an order
	halt     bool   // panic once deposited
	slow     bool
}

func (d *daemon) Write(b []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.log.Write(b)
}

func (d *daemon) said() string {
	d.mu.Lock()
	defer d.mu.Unlock()
	s := regexp.MustCompile(`(?m)^.*(level=info msg="(All|Replay)|Restor|Starting Daemon).*\n`).ReplaceAllString(d.log.String(), "")
	if i := strings.Index(s, "panic: "); i >= 0 {
		s = s[i:]
	}
	if len(s) > 2500 {
		s = s[:1200] + " ... " + s[len(s)-1200:]
	}
	return s
}

type env map[string]string

func (e env) with(kv ...string) env {
	x := env{}
	for k, v := range e {
		x[k] = v
	}
	for i := 0; i < len(kv); i += 2 {
		x[kv[i]] = kv[i+1]
	}
	return x
}

var wrapper []string // what the process is started through

// launch starts the process.
func launch(dir string, e *chain, v env) *daemon {
	d := &daemon{dir: dir, e: e, done: make(chan bool)}
	m := env{"NETWORK": "regtest", "EXPLORER_ENDPOINT": e.srv.URL, "BASE_ASSET": base, "NO_MACAROONS": "true", "DATA_DIR_PATH": dir,
		"CRAWL_INTERVAL": "100", "CRAWL_LIMIT": "100", "CRAWL_TOKEN": "100", "FEE_ACCOUNT_BALANCE_THRESHOLD": "1000", "LOG_LEVEL": "4"}
	for k, x := range v {
		m[k] = x
	}
	if m["OPERATOR_LISTENING_PORT"] == "" {
		m["OPERATOR_LISTENING_PORT"] = fmt.Sprint(port())
	}
	if m["TRADE_LISTENING_PORT"] == "" {
		m["TRADE_LISTENING_PORT"] = fmt.Sprint(port())
	}
	fmt.Sscan(m["OPERATOR_LISTENING_PORT"], &d.op)
	fmt.Sscan(m["TRADE_LISTENING_PORT"], &d.tr)
	a := append(append([]string{}, wrapper...), bin)
	d.cmd = exec.Command(a[0], a[1:]...)
	d.cmd.Env = []string{"HOME=" + dir, "PATH=" + os.Getenv("PATH"), "TZ=UTC"}
	for k, x := range m {
		d.cmd.Env = append(d.cmd.Env, "TDEX_"+k+"="+x)
	}
	d.cmd.Dir = dir
	d.cmd.Stdout, d.cmd.Stderr = d, d
	d.cmd.WaitDelay = 2 * time.Second
	d.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := d.cmd.Start(); err != nil {
		panic(err)
	}
	go func() { d.cmd.Wait(); close(d.done) }()
	return d
}

func (d *daemon) ended(t time.Duration) bool {
	select {
	case <-d.done:
		return true
	case <-time.After(t):
		return false
	}
}

// up waits until both interfaces accept connections.
func (d *daemon) up() bool {
	for i := 0; i < 3000; i++ {
		n := 0
		for _, p := range []int{d.op, d.tr} {
			if k, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", p)); err == nil {
				k.Close()
				n++
			}
		}
		if n == 2 {
			time.Sleep(20 * time.Millisecond)
			return true
		}
		if d.ended(10 * time.Millisecond) {
			return false
		}
	}
	return false
}

func (d *daemon) dial(p int, pool *x509.CertPool) *grpc.ClientConn {
	o := grpc.WithInsecure()
	if pool != nil {
		o = grpc.WithTransportCredentials(credentials.NewTLS(&tls.Config{RootCAs: pool}))
	}
	k, err := grpc.Dial(fmt.Sprintf("127.0.0.1:%d", p), o)
	if err != nil {
		panic(err)
	}
	d.conns = append(d.conns, k)
	return k
}

func (d *daemon) connect(opPool, trPool *x509.CertPool) {
	k := d.dial(d.op, opPool)
	d.operator, d.wallet = pb.NewOperatorClient(k), pbw.NewWalletClient(k)
	d.trade = pbt.NewTradeClient(d.dial(d.tr, trPool))
}

func (d *daemon) close() {
	for _, k := range d.conns {
		k.Close()
	}
	d.conns = nil
}

// kill ends it at once.
func (d *daemon) kill() {
	d.cmd.Process.Kill()
	<-d.done
	d.close()
}

// stop asks it to end.
var unready int32

func (d *daemon) stop() error {
	d.cmd.Process.Signal(syscall.SIGTERM)
	if !d.ended(40 * time.Second) {
		d.kill()
		return errors.New("it does not end")
	}
	d.close()
	if w, ok := d.cmd.ProcessState.Sys().(syscall.WaitStatus); ok && w.Signaled() && w.Signal() == syscall.SIGTERM && atomic.AddInt32(&unready, 1) <= 3 {
		return nil // it was not listening to signals yet, under load
	}
	if c := d.cmd.ProcessState.ExitCode(); c != 0 {
		return fmt.Errorf("exit code %d", c)
	}
	return nil
}

func (d *daemon) crashed() bool {
	d.mu.Lock()
	defer d.mu.Unlock()
	s := d.log.String()
	return strings.Contains(s, "goroutine ") && (strings.Contains(s, "panic: ") || strings.Contains(s, "fatal error: "))
}

func (d *daemon) ctx() (context.Context, func()) {
	c, f := context.WithTimeout(context.Background(), 60*time.Second)
	if d.mac != "" {
		c = metadata.AppendToOutgoingContext(c, "macaroon", d.mac)
	}
	return c, f
}

func (d *daemon) init(pw string) error {
	c, f := d.ctx()
	defer f()
	st, err := d.wallet.InitWallet(c, &pbw.InitWalletRequest{WalletPassword: []byte(pw), SeedMnemonic: words})
	for err == nil {
		_, err = st.Recv()
	}
	if err == io.EOF {
		err = nil
	}
	return err
}

func (d *daemon) unlock(pw string) error {
	c, f := d.ctx()
	defer f()
	_, err := d.wallet.UnlockWallet(c, &pbw.UnlockWalletRequest{WalletPassword: []byte(pw)})
	return err
}

// unlocked retries while the daemon is still loading its coins.
func (d *daemon) unlocked(pw string) (err error) {
	for i := 0; i < 400; i++ {
		if err = d.unlock(pw); err == nil || status.Code(err) != codes.Unavailable && !strings.Contains(err.Error(), "sync") {
			return
		}
		time.Sleep(50 * time.Millisecond)
	}
	return
}

func copyDir(from, to string) {
	err := filepath.Walk(from, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		r, _ := filepath.Rel(from, p)
		q := filepath.Join(to, r)
		if i.IsDir() {
			return os.MkdirAll(q, 0o755)
		}
		if !i.Mode().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(q, b, i.Mode().Perm())
	})
	if err != nil {
		panic(err)
	}
}

func sorted(l []string) []string { sort.Strings(l); return l }
