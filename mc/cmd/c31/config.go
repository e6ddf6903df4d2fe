package main

import (
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/shopspring/decimal"
	pb "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	pbw "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/tdex-network/tdex-daemon/verif/world"
	pbt "github.com/tdex-network/tdex-protobuf/generated/go/trade"
	pbtypes "github.com/tdex-network/tdex-protobuf/generated/go/types"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

// datadirs to start from: an initialised wallet without and with macaroons.
var plainDir, macDir string

func prepare() {
	for _, mac := range []bool{false, true} {
		dir := hx.Tmp("c31-")
		d := launch(dir, newChain(), env{"NO_MACAROONS": fmt.Sprint(!mac)})
		if !d.up() {
			c.Fail("start", "the daemon does not start: "+d.said(), nil)
			c.Finish()
		}
		d.connect(opPool(dir, mac), nil)
		if err := d.init(pass); err != nil {
			c.Fail("init", "InitWallet: "+err.Error(), nil)
			c.Finish()
		}
		if mac {
			macDir = dir
			waitMacaroons(dir)
		} else {
			plainDir = dir
		}
		d.close()
		if err := d.stop(); err != nil {
			c.Fail("stop", "stop after InitWallet: "+err.Error()+d.said(), nil)
		}
	}
}

func fresh(from string) string {
	dir := hx.Tmp("c31-")
	if from != "" {
		copyDir(from, dir)
	}
	return dir
}

func opPool(dir string, mac bool) *x509.CertPool {
	if !mac {
		return nil
	}
	p := x509.NewCertPool()
	b, _ := os.ReadFile(filepath.Join(dir, "tls", "cert.pem"))
	p.AppendCertsFromPEM(b)
	return p
}

var macNames = []string{"admin", "readonly", "market", "price", "wallet", "webhook"}

func readMac(dir, name string) string {
	b, _ := os.ReadFile(filepath.Join(dir, "macaroons", name+".macaroon"))
	return hex.EncodeToString(b)
}

// waitMacaroons until all are written.
func waitMacaroons(dir string) (missing []string) {
	for i := 0; i < 1000; i++ {
		missing = nil
		for _, m := range macNames {
			if readMac(dir, m) == "" {
				missing = append(missing, m)
			}
		}
		if missing == nil {
			time.Sleep(20 * time.Millisecond)
			return
		}
		time.Sleep(20 * time.Millisecond)
	}
	return
}

// works says what does not work in a daemon on an initialised wallet.
func (d *daemon) works(pw string, macaroons bool) error {
	if !d.up() {
		return fmt.Errorf("does not start: %s", d.said())
	}
	d.connect(opPool(d.dir, macaroons), nil)
	if err := d.unlocked(pw); err != nil {
		return fmt.Errorf("cannot be unlocked: %v; it said: %s", err, d.said())
	}
	if macaroons {
		if m := waitMacaroons(d.dir); m != nil {
			return fmt.Errorf("macaroons are missing: %v; it said: %s", m, d.said())
		}
		d.mac = readMac(d.dir, "admin")
	}
	x, f := d.ctx()
	defer f()
	if _, err := d.operator.ListMarket(x, &pb.ListMarketRequest{}); err != nil {
		return fmt.Errorf("ListMarket: %v; it said: %s", err, d.said())
	}
	return nil
}

// grpcweb makes a request over HTTP/1.
func grpcweb(addr, method string, in proto.Message, out proto.Message, header http.Header, cl *http.Client, scheme string) (int, error) {
	b, _ := proto.Marshal(in)
	f := make([]byte, 5, 5+len(b))
	binary.BigEndian.PutUint32(f[1:], uint32(len(b)))
	r, _ := http.NewRequest("POST", scheme+"://"+addr+method, bytes.NewReader(append(f, b...)))
	r.Header = header.Clone()
	if r.Header == nil {
		r.Header = http.Header{}
	}
	r.Header.Set("content-type", "application/grpc-web+proto")
	r.Header.Set("x-grpc-web", "1")
	w, err := cl.Do(r)
	if err != nil {
		return -1, err
	}
	defer w.Body.Close()
	a, err := io.ReadAll(w.Body)
	if err != nil {
		return -1, err
	}
	code := -1
	fmt.Sscan(w.Header.Get("grpc-status"), &code)
	for len(a) >= 5 {
		n := int(binary.BigEndian.Uint32(a[1:5]))
		if len(a) < 5+n {
			return -1, fmt.Errorf("cut reply %x", a)
		}
		if a[0]&0x80 != 0 {
			for _, l := range strings.Split(string(a[5:5+n]), "\r\n") {
				if strings.HasPrefix(strings.ToLower(l), "grpc-status:") {
					fmt.Sscan(l[len("grpc-status:"):], &code)
				}
			}
		} else if out != nil {
			if err := proto.Unmarshal(a[5:5+n], out); err != nil {
				return -1, err
			}
		}
		a = a[5+n:]
	}
	return code, nil
}

// stops: the daemon is stopped with clients in every state.
func stops(th bool) {
	type state struct {
		name string
		mac  bool
		// up to there: is called with the running daemon before the stop; the
		// returned function says what is wrong after it.
		f func(d *daemon, e *chain) func() error
	}
	raw := func(op bool, tlsToo bool, say string) func(d *daemon, e *chain) func() error {
		return func(d *daemon, e *chain) func() error {
			p := d.tr
			if op {
				p = d.op
			}
			k, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", p))
			if err != nil {
				return func() error { return err }
			}
			if tlsToo {
				t := tls.Client(k, &tls.Config{InsecureSkipVerify: true, NextProtos: []string{"h2"}})
				if err := t.Handshake(); err != nil {
					return func() error { return err }
				}
				t.Write([]byte(say))
			} else {
				k.Write([]byte(say))
			}
			time.Sleep(50 * time.Millisecond)
			return func() error { k.Close(); return nil }
		}
	}
	preface := "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n\x00\x00\x00\x04\x00\x00\x00\x00\x00"
	slow := func(e *chain, at int) { // the next requests of the explorer take a while
		base := e.count()
		e.mu.Lock()
		e.hit = func(n int) bool {
			if n-base == at {
				time.Sleep(1500 * time.Millisecond)
			}
			return false
		}
		e.mu.Unlock()
	}
	var l []state
	l = append(l, state{"no client", false, nil}, state{"no client", true, nil})
	for _, mac := range []bool{false, true} {
		mac := mac
		for _, op := range []bool{false, true} {
			w := map[bool]string{false: "trade", true: "operator"}[op]
			for _, s := range [][2]string{{"says nothing", ""}, {"is in the middle of its request line", "POS"}, {"has said that it speaks HTTP/2", preface}, {"speaks something else", "\x00\x01\x02\x03\r\n\r\n"}, {"is in the middle of a request", "POST /Operator/ListMarket HTTP/1.1\r\nHost: x\r\nContent-Type: application/grpc-web\r\nContent-Length: 5\r\n\r\n\x00"}} {
				if s[0] == "is in the middle of a request" && !th {
					continue // takes a minute
				}
				l = append(l, state{"a client of " + w + " that " + s[0], mac, raw(op, false, s[1])})
				if mac && op {
					l = append(l, state{"a TLS client of " + w + " that " + s[0], mac, raw(op, true, s[1])})
				}
			}
		}
		l = append(l, state{"clients connected that have asked nothing", mac, func(d *daemon, e *chain) func() error {
			d.connect(opPool(d.dir, mac), nil)
			time.Sleep(100 * time.Millisecond)
			return nil
		}}, state{"clients that were answered before", mac, func(d *daemon, e *chain) func() error {
			d.connect(opPool(d.dir, mac), nil)
			x, f := d.ctx()
			defer f()
			d.wallet.GenSeed(x, &pbw.GenSeedRequest{})
			d.trade.Markets(x, &pbt.MarketsRequest{})
			return nil
		}}, state{"an unlocked wallet", mac, func(d *daemon, e *chain) func() error {
			err := d.works(pass, mac)
			return func() error { return err }
		}}, state{"a request being served", mac, func(d *daemon, e *chain) func() error {
			if err := d.works(pass, mac); err != nil {
				return func() error { return err }
			}
			d.fund(1)
			slow(e, 1)
			n := e.count()
			done := make(chan error, 1)
			go func() {
				x, f := d.ctx()
				defer f()
				_, err := d.operator.ReloadUtxos(x, &pb.ReloadUtxosRequest{})
				done <- err
			}()
			e.wait(n + 1)
			return func() error {
				if err := <-done; err != nil {
					return fmt.Errorf("the request was cut: %v", err)
				}
				return nil
			}
		}}, state{"a web client that was answered before", mac, func(d *daemon, e *chain) func() error {
			cl := &http.Client{}
			_, err := grpcweb(fmt.Sprintf("127.0.0.1:%d", d.tr), "/Trade/Markets", &pbt.MarketsRequest{}, nil, nil, cl, "http")
			return func() error { cl.CloseIdleConnections(); return err }
		}}, state{"a web request being served", mac, func(d *daemon, e *chain) func() error {
			if err := d.works(pass, mac); err != nil {
				return func() error { return err }
			}
			d.fund(1)
			slow(e, 1)
			n := e.count()
			done := make(chan error, 1)
			go func() {
				cl, h, s := &http.Client{}, http.Header{}, "http"
				if mac {
					cl.Transport = &http.Transport{TLSClientConfig: &tls.Config{RootCAs: opPool(d.dir, true), NextProtos: []string{"http/1.1"}}}
					s = "https"
					h.Set("macaroon", d.mac)
				}
				code, err := grpcweb(fmt.Sprintf("127.0.0.1:%d", d.op), "/Operator/ReloadUtxos", &pb.ReloadUtxosRequest{}, nil, h, cl, s)
				if err == nil && code != 0 {
					err = fmt.Errorf("status %d", code)
				}
				done <- err
			}()
			e.wait(n + 1)
			return func() error {
				if err := <-done; err != nil {
					return fmt.Errorf("the request was cut: %v", err)
				}
				return nil
			}
		}})
	}
	l = append(l, state{"the restoring of a wallet going on", false, func(d *daemon, e *chain) func() error {
		slow(e, 5)
		d.connect(nil, nil)
		n := e.count()
		x, f := d.ctx()
		st, err := d.wallet.InitWallet(x, &pbw.InitWalletRequest{WalletPassword: []byte(pass), SeedMnemonic: words, Restore: true})
		if err != nil {
			f()
			return func() error { return err }
		}
		e.wait(n + 5)
		return func() error {
			defer f()
			for {
				if _, err := st.Recv(); err == io.EOF {
					return nil
				} else if err != nil {
					return fmt.Errorf("the request was cut: %v", err)
				}
			}
		}
	}})
	for _, s := range l {
		s := s
		add(fmt.Sprintf("stopped with %s, macaroons %v", s.name, s.mac), func(bad func(sig, f string, x ...interface{})) {
			e := newChain()
			from := plainDir
			if s.mac {
				from = macDir
			}
			if strings.Contains(s.name, "restoring") {
				from = ""
			}
			d := launch(fresh(from), e, env{"NO_MACAROONS": fmt.Sprint(!s.mac)})
			defer d.kill()
			if !d.up() {
				bad("start", "does not start: %s", d.said())
				return
			}
			var after func() error
			if s.f != nil {
				after = s.f(d, e)
			}
			if err := d.stop(); err != nil {
				bad("stop", "%v; it said: %s", err, d.said())
				return
			}
			if after != nil {
				if err := after(); err != nil {
					bad("stop", "%v; it said: %s", err, d.said())
				}
			}
			c.Count("distinct_nontrivial", 1)
			c.Outcome("stopped")
			n := launch(d.dir, e, env{"NO_MACAROONS": fmt.Sprint(!s.mac)})
			defer n.kill()
			if err := n.works(pass, s.mac); err != nil {
				bad("restart", "after a restart it %v", err)
			}
		})
	}
}

// pair makes a certificate.
func pair(dir, name string) (key, cert string) {
	k, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "x"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), IPAddresses: []net.IP{net.ParseIP("127.0.0.1")}, IsCA: true, BasicConstraintsValid: true}
	b, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
	if err != nil {
		panic(err)
	}
	key, cert = filepath.Join(dir, name+".key"), filepath.Join(dir, name+".crt")
	os.WriteFile(cert, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: b}), 0o644)
	os.WriteFile(key, pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(k)}), 0o600)
	return
}

// refusals: configurations that are not sound.
func refusals(th bool) {
	keys := hx.Tmp("c31-")
	key, cert := pair(keys, "a")
	_, other := pair(keys, "b")
	junk := filepath.Join(keys, "junk")
	os.WriteFile(junk, []byte("junk"), 0o644)
	type r struct {
		v    env
		prep func(dir string, v env) func()
	}
	var l []r
	one := func(kv ...string) { l = append(l, r{env{}.with(kv...), nil}) }
	for _, f := range []string{"0", "0.0", "0.009", "0.00999", "99.01", "99.5", "100", "1000000", "-1", "-0.25", "abc", "NaN", "Inf", "-Inf", "1e300", "0,25"} {
		one("DEFAULT_FEE", f)
	}
	for _, n := range []string{"foo", "testnet", "mainnet", "Liquid", "REGTEST", "liquid,regtest", "regtest2"} {
		one("NETWORK", n)
	}
	one("SSL_KEY", key)
	one("SSL_CERT", cert)
	for _, k := range [][2]string{{key, other}, {junk, cert}, {key, junk}, {filepath.Join(keys, "none"), cert}, {key, filepath.Join(keys, "none")}, {cert, key}, {junk, junk}} {
		one("SSL_KEY", k[0], "SSL_CERT", k[1])
	}
	for _, x := range []string{"abc", "1.5", "1x", "99999999999999999999"} {
		one("MAX_FAILING_REQUESTS", x)
	}
	for _, x := range []string{"abc", "0.5x", "0,5"} {
		one("FAILING_RATIO", x)
	}
	closed := port()
	for _, x := range []string{fmt.Sprintf("http://127.0.0.1:%d", closed), ":%", "ftp://127.0.0.1", "foo", "http://[::1", "http://127.0.0.1:99999"} {
		one("EXPLORER_ENDPOINT", x)
	}
	for _, x := range []string{"0", "1", "4999", "-1", "-5000", "abc"} {
		one("EXPLORER_REQUEST_TIMEOUT", x)
	}
	for _, x := range []string{"foo", "1.2.3", "1.2.3.4.5", "256.1.1.1", "127.0.0.1/8", "1.1.1.1 foo"} {
		one("OPERATOR_EXTRA_IP", x, "NO_MACAROONS", "false")
	}
	for _, which := range []string{"OPERATOR_LISTENING_PORT", "TRADE_LISTENING_PORT"} {
		which := which
		for _, p := range []string{"70000", "-1"} {
			one(which, p)
		}
		for _, mac := range []string{"true", "false"} {
			l = append(l, r{env{"NO_MACAROONS": mac, which: "taken"}, func(dir string, v env) func() {
				k, err := net.Listen("tcp", ":0")
				if err != nil {
					panic(err)
				}
				v[which] = fmt.Sprint(k.Addr().(*net.TCPAddr).Port)
				return func() { k.Close() }
			}})
		}
	}
	l = append(l, r{env{"TRADE_LISTENING_PORT": "the operator's"}, func(dir string, v env) func() {
		v["OPERATOR_LISTENING_PORT"] = fmt.Sprint(port())
		v["TRADE_LISTENING_PORT"] = v["OPERATOR_LISTENING_PORT"]
		return func() {}
	}})
	for _, s := range []int{404, 500, 503} {
		s := s
		l = append(l, r{env{"EXPLORER_ENDPOINT": fmt.Sprint("answers ", s)}, func(dir string, v env) func() {
			h := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(s) }))
			v["EXPLORER_ENDPOINT"] = h.URL
			return h.Close
		}})
	}
	l = append(l, r{env{"DATA_DIR_PATH": "a file"}, func(dir string, v env) func() {
		v["DATA_DIR_PATH"] = junk
		return func() {}
	}})
	rs, _ := rsa.GenerateKey(rand.Reader, 2048)
	for name, b := range map[string][]byte{
		"junk":       []byte("junk"),
		"empty":      nil,
		"of RSA":     pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(rs)}),
		"of nothing": pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY"}),
	} {
		b := b
		l = append(l, r{env{"NO_MACAROONS": "false", "LOG_LEVEL": "4", "HOME_KEY": name}, func(dir string, v env) func() {
			delete(v, "HOME_KEY")
			os.RemoveAll(filepath.Join(dir, "tls"))
			os.MkdirAll(filepath.Join(dir, "tls"), 0o755)
			os.WriteFile(filepath.Join(dir, "tls", "key.pem"), b, 0o600)
			return func() { os.RemoveAll(filepath.Join(dir, "tls")) }
		}})
	}
	for i, x := range l {
		x := x
		state := []string{plainDir, ""}[i%2]
		mac := x.v["NO_MACAROONS"] == "false"
		if mac && state != "" {
			state = macDir
		}
		add(fmt.Sprintf("started with %v, initialised %v", x.v, state != ""), func(bad func(sig, f string, x ...interface{})) {
			e := newChain()
			defer e.end()
			dir, v := fresh(state), x.v.with()
			undo := func() {}
			if x.prep != nil {
				undo = x.prep(dir, v)
			}
			d := launch(dir, e, v)
			defer d.kill()
			if !d.ended(60 * time.Second) {
				undo()
				bad("accepted", "the daemon runs: %s", d.said())
				return
			}
			undo()
			if d.crashed() {
				bad("crash", "the daemon crashes: %s", d.said())
				return
			}
			if len(d.said()) == 0 {
				bad("silent", "the daemon ends and does not say why")
			}
			c.Count("distinct_nontrivial", 1)
			c.Outcome("refused")
			n := launch(dir, e, env{"NO_MACAROONS": fmt.Sprint(!mac)})
			defer n.kill()
			if !n.up() {
				bad("restart", "does not start soundly afterwards: %s", n.said())
				return
			}
			if state == "" {
				n.connect(opPool(dir, mac), nil)
				if err := n.init(pass); err != nil {
					bad("restart", "afterwards, InitWallet: %v; it said: %s", err, n.said())
					return
				}
				n.close()
			}
			if err := n.works(pass, mac); err != nil {
				bad("restart", "afterwards it %v", err)
			}
		})
	}
	// values that may be refused or not, but do not crash the daemon
	var odd []env
	for k, vs := range map[string][]string{
		"STATS_INTERVAL": {"0", "-1", "abc", "1"}, "CRAWL_INTERVAL": {"0", "-1", "abc", "1"}, "CRAWL_LIMIT": {"0", "-1", "abc", "1"}, "CRAWL_TOKEN": {"0", "-1", "abc", "1"},
		"TRADE_EXPIRY_TIME": {"0", "-1", "abc", "9223372036", "9223372037"}, "PRICE_SLIPPAGE": {"NaN", "Inf", "-Inf", "-1", "abc", "0", "100", "1e300"}, "FEE_ACCOUNT_BALANCE_THRESHOLD": {"0", "-1", "abc", "9223372036854775807"},
		"LOG_LEVEL": {"-1", "0", "5", "6", "7", "abc"}, "MAX_FAILING_REQUESTS": {"0", "-1", "4294967296"}, "FAILING_RATIO": {"NaN", "Inf", "0", "1", "2", "-1"},
		"ENABLE_PROFILER": {"maybe", "true", "1"}, "BASE_ASSET": {"xyz", "00", strings.Repeat("0", 64), strings.Repeat("AB", 32)}, "EXPLORER_REQUEST_TIMEOUT": {"9223372036855", "5000"},
	} {
		for _, x := range vs {
			v := env{k: x}
			if k == "STATS_INTERVAL" {
				v["LOG_LEVEL"], v["ENABLE_PROFILER"] = "5", "true"
			}
			odd = append(odd, v)
		}
	}
	odd = append(odd, env{"LOG_LEVEL": "5", "ENABLE_PROFILER": "true"})
	for _, v := range odd {
		v := v
		add(fmt.Sprintf("run with %v", v), func(bad func(sig, f string, x ...interface{})) {
			e, dir := newChain(), fresh(plainDir)
			defer e.end()
			d := launch(dir, e, v)
			defer d.kill()
			if d.up() && d.works(pass, false) == nil {
				c.Outcome("runs")
				d.fund(1)
				d.newMarket(quote)
				if err := eventuallyFor(1, d.open); err == nil {
					d.buy(true)
					e.confirm()
				}
				time.Sleep(300 * time.Millisecond)
				d.close()
				if !d.crashed() {
					if err := d.stop(); err != nil {
						bad("stop "+fmt.Sprint(v), "%v; it said: %s", err, d.said())
					}
				}
			} else if !d.ended(60 * time.Second) {
				bad("half "+fmt.Sprint(v), "it neither runs nor ends: %s", d.said())
			} else {
				c.Outcome("refused")
			}
			if d.crashed() {
				bad("crash "+fmt.Sprint(v), "the daemon crashes: %s", d.said())
			}
			c.Count("distinct_nontrivial", 1)
			n := launch(dir, e, nil)
			defer n.kill()
			if err := n.works(pass, false); err != nil {
				bad("restart", "afterwards it %v", err)
			}
		})
	}
	add("two daemons in one directory", func(bad func(sig, f string, x ...interface{})) {
		e, dir := newChain(), fresh(plainDir)
		d := launch(dir, e, nil)
		defer d.kill()
		if err := d.works(pass, false); err != nil {
			bad("start", "%v", err)
			return
		}
		n := launch(dir, e, nil)
		defer n.kill()
		if !n.ended(60*time.Second) || n.crashed() {
			bad("accepted", "the second daemon: %s", n.said())
		}
		x, f := d.ctx()
		defer f()
		if _, err := d.operator.DepositMarket(x, &pb.DepositMarketRequest{}); err != nil {
			bad("disturbed", "the first one: %v", err)
		}
		before := d.view(false)
		d.close()
		if err := d.stop(); err != nil {
			bad("stop", "%v: %s", err, d.said())
		}
		d = launch(dir, e, nil)
		defer d.kill()
		if err := d.works(pass, false); err != nil {
			bad("restart", "after a restart it %v", err)
		} else if v := d.same(before, false); v != "" {
			bad("lost", "after a restart:\n%s\ninstead of\n%s", v, before)
		}
		c.Count("distinct_nontrivial", 1)
	})
}

func (d *daemon) market() (*pb.MarketInfo, error) {
	x, f := d.ctx()
	defer f()
	r, err := d.operator.ListMarket(x, &pb.ListMarketRequest{})
	if err != nil {
		return nil, err
	}
	if len(r.GetMarkets()) != 1 {
		return nil, fmt.Errorf("markets %v", r)
	}
	return r.GetMarkets()[0], nil
}

// settings: configurations that are sound, and are kept to.
func settings(th bool) {
	fees := []string{"0.01", "0.02", "0.29", "0.57", "0.58", "1.13", "1.14", "1.15", "2.3", "4.35", "9.95", "16.08", "17.99", "19.99", "25", "33.33", "64.1", "98.99", "99", "99.00", ".25", "2.5e-1", "0.2500", "1.005", "0.015"}
	step := 23
	if th {
		step = 1
	}
	for i := 1; i <= 9900; i += step {
		if !th && i > 1200 {
			step = 499
		}
		fees = append(fees, fmt.Sprintf("%d.%02d", i/100, i%100))
	}
	for i, f := range fees {
		f, next := f, fees[(i+7)%len(fees)]
		add("default fee "+f, func(bad func(sig, f string, x ...interface{})) {
			e, dir := newChain(), fresh(plainDir)
			want := decimal.RequireFromString(f).Mul(decimal.NewFromInt(100)).IntPart()
			d := launch(dir, e, env{"DEFAULT_FEE": f})
			defer func() { d.kill() }()
			if err := d.works(pass, false); err != nil {
				bad("refused", "%v", err)
				return
			}
			x, g := d.ctx()
			defer g()
			if _, err := d.operator.DepositMarket(x, &pb.DepositMarketRequest{}); err != nil {
				bad("refused", "DepositMarket: %v", err)
				return
			}
			m, err := d.market()
			if err != nil {
				bad("refused", "%v", err)
				return
			}
			if m.GetFee().GetBasisPoint() != want {
				bad("fee", "the fee of a new market is %d basis points", m.GetFee().GetBasisPoint())
			}
			c.Count("distinct_nontrivial", 1)
			c.Outcome("fee")
			if i%8 == 0 {
				d.kill()
				d = launch(dir, e, env{"DEFAULT_FEE": next})
				if err := d.works(pass, false); err != nil {
					bad("restart", "%v", err)
					return
				}
				if m, err := d.market(); err != nil || m.GetFee().GetBasisPoint() != want {
					bad("fee", "restarted with default fee %s, the market has %v %v", next, m, err)
				}
			}
		})
	}
	for _, nw := range []string{"regtest", "liquid"} {
		for _, b := range []string{"", world.Quote(3)} {
			for _, mac := range []bool{false, true} {
				nw, b, mac := nw, b, mac
				add(fmt.Sprintf("network %s, base asset %q, macaroons %v", nw, b, mac), func(bad func(sig, f string, x ...interface{})) {
					v := env{"NETWORK": nw, "NO_MACAROONS": fmt.Sprint(!mac)}
					want := base
					if b != "" {
						v["BASE_ASSET"], want = b, b
					} else if nw == "liquid" {
						v["BASE_ASSET"] = "6f0279e9ed041c3d710a9f57d0c02928416460c4b722ae3457a11eec381c526d"
						want = v["BASE_ASSET"]
					}
					d := launch(hx.Tmp("c31-"), newChain(), v)
					defer d.kill()
					if !d.up() {
						bad("refused", "%s", d.said())
						return
					}
					d.connect(opPool(d.dir, mac), nil)
					if err := d.init(pass); err != nil {
						bad("refused", "InitWallet: %v", err)
						return
					}
					d.close()
					if err := d.works(pass, mac); err != nil {
						bad("refused", "%v", err)
						return
					}
					x, f := d.ctx()
					defer f()
					prefix := map[string]string{"regtest": "el1", "liquid": "lq1"}[nw]
					r, err := d.operator.DepositFeeAccount(x, &pb.DepositFeeAccountRequest{NumOfAddresses: 3})
					if err != nil {
						bad("refused", "DepositFeeAccount: %v", err)
						return
					}
					var l []string
					for _, a := range r.GetAddressWithBlindingKey() {
						l = append(l, a.GetAddress())
					}
					m, err := d.operator.DepositMarket(x, &pb.DepositMarketRequest{Market: &pbtypes.Market{BaseAsset: want, QuoteAsset: quote}})
					if err == nil {
						bad("market", "addresses for a market that is not there: %v", m)
					}
					m, err = d.operator.DepositMarket(x, &pb.DepositMarketRequest{NumOfAddresses: 2})
					l = append(l, m.GetAddresses()...)
					w, err2 := d.wallet.WalletAddress(x, &pbw.WalletAddressRequest{})
					l = append(l, w.GetAddress())
					if err != nil || err2 != nil || len(l) != 6 {
						bad("refused", "addresses %v, %v %v", l, err, err2)
					}
					for _, a := range l {
						if !strings.HasPrefix(a, prefix) {
							bad("network", "hands out %s", a)
						}
					}
					// a request about another base asset
					_, err = d.operator.DepositMarket(x, &pb.DepositMarketRequest{Market: &pbtypes.Market{BaseAsset: quote, QuoteAsset: want}})
					if err == nil {
						bad("base", "takes another base asset")
					}
					if b, err := d.trade.Markets(x, &pbt.MarketsRequest{}); err != nil || len(b.GetMarkets()) != 0 {
						bad("market", "Markets: %v %v", b, err)
					}
					c.Count("distinct_nontrivial", 1)
				})
			}
		}
	}
	for _, mac := range []bool{false, true} {
		mac := mac
		add(fmt.Sprintf("interfaces, macaroons %v", mac), func(bad func(sig, f string, x ...interface{})) {
			from := plainDir
			if mac {
				from = macDir
			}
			d := launch(fresh(from), newChain(), env{"NO_MACAROONS": fmt.Sprint(!mac)})
			defer d.kill()
			if err := d.works(pass, mac); err != nil {
				bad("refused", "%v", err)
				return
			}
			x, f := d.ctx()
			defer f()
			tr, op := d.dial(d.tr, nil), d.dial(d.op, opPool(d.dir, mac))
			_, e1 := pb.NewOperatorClient(tr).ListMarket(x, &pb.ListMarketRequest{})
			_, e2 := pbw.NewWalletClient(tr).GenSeed(x, &pbw.GenSeedRequest{})
			_, e3 := pbt.NewTradeClient(op).Markets(x, &pbt.MarketsRequest{})
			for _, err := range []error{e1, e2, e3} {
				if s := status.Code(err); s != codes.Unimplemented && s != codes.PermissionDenied && s != codes.Unauthenticated && s != codes.Unknown {
					bad("interface", "a request on the wrong interface: %v", err)
				}
			}
			if e1 == nil || e2 == nil || e3 == nil {
				bad("interface", "a request on the wrong interface is served: %v %v %v", e1, e2, e3)
			}
			_, e4 := pbt.NewTradeClient(tr).Markets(x, &pbt.MarketsRequest{})
			if e4 != nil {
				bad("interface", "Markets: %v", e4)
			}
			for _, s := range []string{"http", "https"} {
				cl, h := &http.Client{}, http.Header{}
				if s == "https" {
					cl.Transport = &http.Transport{TLSClientConfig: &tls.Config{RootCAs: opPool(d.dir, true), NextProtos: []string{"http/1.1"}}}
				}
				for _, with := range []bool{false, true} {
					if with {
						h.Set("macaroon", d.mac)
					}
					code, err := grpcweb(fmt.Sprintf("127.0.0.1:%d", d.op), "/Operator/ListMarket", &pb.ListMarketRequest{}, nil, h, cl, s)
					if ok := err == nil && code == 0; ok != (mac == (s == "https") && (with || !mac)) {
						bad("web", "ListMarket over %s with macaroon %v: status %d, %v", s, with, code, err)
					}
				}
			}
			var r pbt.MarketsReply
			if code, err := grpcweb(fmt.Sprintf("127.0.0.1:%d", d.tr), "/Trade/Markets", &pbt.MarketsRequest{}, &r, nil, &http.Client{}, "http"); code != 0 || err != nil {
				bad("web", "Markets: status %d, %v", code, err)
			}
			c.Count("distinct_nontrivial", 1)
		})
	}
	add("TLS of the trade interface", func(bad func(sig, f string, x ...interface{})) {
		dir := fresh(plainDir)
		key, cert := pair(dir, "trade")
		d := launch(dir, newChain(), env{"SSL_KEY": key, "SSL_CERT": cert})
		defer d.kill()
		if !d.up() {
			bad("refused", "%s", d.said())
			return
		}
		b, _ := os.ReadFile(cert)
		pool := x509.NewCertPool()
		pool.AppendCertsFromPEM(b)
		d.connect(nil, pool)
		if err := d.unlocked(pass); err != nil {
			bad("refused", "%v", err)
			return
		}
		x, f := d.ctx()
		defer f()
		if _, err := d.trade.Markets(x, &pbt.MarketsRequest{}); err != nil {
			bad("tls", "Markets over TLS: %v", err)
		}
		if _, err := pbt.NewTradeClient(d.dial(d.tr, nil)).Markets(x, &pbt.MarketsRequest{}); err == nil {
			bad("tls", "Markets in clear")
		}
		cl := &http.Client{Transport: &http.Transport{TLSClientConfig: &tls.Config{RootCAs: pool, NextProtos: []string{"http/1.1"}}}}
		if code, err := grpcweb(fmt.Sprintf("127.0.0.1:%d", d.tr), "/Trade/Markets", &pbt.MarketsRequest{}, nil, nil, cl, "https"); code != 0 || err != nil {
			bad("tls", "Markets over https: status %d, %v", code, err)
		}
		if code, err := grpcweb(fmt.Sprintf("127.0.0.1:%d", d.tr), "/Trade/Markets", &pbt.MarketsRequest{}, nil, nil, &http.Client{}, "http"); err == nil && code == 0 {
			bad("tls", "Markets in clear over http")
		}
		c.Count("distinct_nontrivial", 1)
	})
	for _, ips := range []string{"", "10.1.2.3", "10.1.2.3 2001:db8::1", "127.0.0.1"} {
		for _, doms := range []string{"", "example.com", "a.onion b.example.com"} {
			ips, doms := ips, doms
			add(fmt.Sprintf("certificate for %q and %q", ips, doms), func(bad func(sig, f string, x ...interface{})) {
				v := env{"NO_MACAROONS": "false", "OPERATOR_EXTRA_IP": ips, "OPERATOR_EXTRA_DOMAIN": doms}
				dir := hx.Tmp("c31-")
				d := launch(dir, newChain(), v)
				defer func() { d.kill() }()
				if !d.up() {
					bad("refused", "%s", d.said())
					return
				}
				b, _ := os.ReadFile(filepath.Join(dir, "tls", "cert.pem"))
				p, _ := pem.Decode(b)
				if p == nil {
					bad("certificate", "no certificate")
					return
				}
				ct, err := x509.ParseCertificate(p.Bytes)
				if err != nil {
					bad("certificate", "%v", err)
					return
				}
				for _, h := range append(append(strings.Fields(ips), strings.Fields(doms)...), "127.0.0.1", "::1", "localhost") {
					if err := ct.VerifyHostname(h); err != nil {
						bad("certificate", "%v", err)
					}
				}
				for _, h := range []string{"10.9.9.9", "other.com"} {
					if err := ct.VerifyHostname(h); err == nil {
						bad("certificate", "is good for %s", h)
					}
				}
				d.connect(opPool(dir, true), nil)
				if err := d.init(pass); err != nil {
					bad("refused", "InitWallet: %v", err)
					return
				}
				d.close()
				if err := d.works(pass, true); err != nil {
					bad("refused", "%v", err)
					return
				}
				for f, m := range map[string]os.FileMode{"tls/key.pem": 0o600, "macaroons/admin.macaroon": 0o600} {
					if i, err := os.Stat(filepath.Join(dir, f)); err != nil || i.Mode().Perm() != m {
						bad("mode", "%s: %v %v", f, i, err)
					}
				}
				old := map[string]string{}
				for _, m := range macNames {
					old[m] = readMac(dir, m)
				}
				d.kill()
				// another daemon with another idea of the names does not invalidate what was handed out
				d = launch(dir, newChain(), v.with("OPERATOR_EXTRA_DOMAIN", "new.example.com"))
				if err := d.works(pass, true); err != nil {
					bad("restart", "%v", err)
					return
				}
				if a, _ := os.ReadFile(filepath.Join(dir, "tls", "cert.pem")); !bytes.Equal(a, b) {
					bad("certificate", "is another one after a restart")
				}
				for _, m := range macNames {
					if readMac(dir, m) != old[m] {
						bad("macaroon", "%s is another one after a restart", m)
					}
				}
				c.Count("distinct_nontrivial", 1)
			})
		}
	}
	add("timeout of webhooks", func(bad func(sig, f string, x ...interface{})) {
		cut := make(chan time.Duration, 8)
		h := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			t := time.Now()
			io.Copy(io.Discard, r.Body)
			select {
			case <-r.Context().Done():
				cut <- time.Since(t)
			case <-time.After(40 * time.Second):
				cut <- -1
			}
		}))
		e := newChain()
		d := launch(fresh(plainDir), e, env{"EXPLORER_REQUEST_TIMEOUT": "5000"})
		defer d.kill()
		if err := d.works(pass, false); err != nil {
			bad("refused", "%v", err)
			return
		}
		x, f := d.ctx()
		defer f()
		if _, err := d.operator.AddWebhook(x, &pb.AddWebhookRequest{Endpoint: h.URL, Action: pb.ActionType_ALL_ACTIONS}); err != nil {
			bad("refused", "AddWebhook: %v", err)
			return
		}
		if err := d.trading(); err != nil {
			bad("refused", "%v", err)
			return
		}
		if err := d.buy(true); err != nil {
			bad("refused", "trade: %v", err)
			return
		}
		e.confirm()
		if w := <-cut; w < 0 {
			bad("timeout", "a webhook that does not answer is waited for without end though the timeout is 5 s")
		}
		c.Count("distinct_nontrivial", 1)
	})
}
