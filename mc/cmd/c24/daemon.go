package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/hex"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	pboperator "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	pbwallet "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/interfaces"
	grpcinterface "github.com/tdex-network/tdex-daemon/internal/interfaces/grpc"
	"github.com/tdex-network/tdex-daemon/pkg/macaroons"
	"github.com/tdex-network/tdex-daemon/verif/explore"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/tdex-network/tdex-daemon/verif/world"
	pbtrade "github.com/tdex-network/tdex-protobuf/generated/go/trade"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"gopkg.in/macaroon-bakery.v2/bakery"
	macaroon "gopkg.in/macaroon.v2"
)

// What each credential is for, request by request: a = admin, r = readonly,
// m = market, p = price, w = wallet, h = webhook, * = anybody.
var rights = map[string]string{
	"/Wallet/GenSeed": "*", "/Wallet/InitWallet": "*", "/Wallet/UnlockWallet": "*", "/Wallet/ChangePassword": "*",
	"/Wallet/WalletAddress": "aw", "/Wallet/SendToMany": "aw", "/Wallet/WalletBalance": "arw",
	"/Operator/DepositMarket": "am", "/Operator/ListDepositMarket": "arm", "/Operator/DepositFeeAccount": "am", "/Operator/BalanceFeeAccount": "arm",
	"/Operator/ClaimMarketDeposit": "am", "/Operator/ClaimFeeDeposit": "am", "/Operator/OpenMarket": "am", "/Operator/CloseMarket": "am",
	"/Operator/DropMarket": "am", "/Operator/ListMarket": "arm", "/Operator/UpdateMarketPercentageFee": "am", "/Operator/UpdateMarketFixedFee": "am",
	"/Operator/UpdateMarketStrategy": "am", "/Operator/UpdateMarketPrice": "amp",
	"/Operator/WithdrawMarket": "a", "/Operator/ListTrades": "ar", "/Operator/ReportMarketFee": "ar", "/Operator/ReloadUtxos": "a", "/Operator/ListUtxos": "ar",
	"/Operator/AddWebhook": "ah", "/Operator/RemoveWebhook": "ah", "/Operator/ListWebhooks": "arh",
}

var creds = map[byte]string{'a': "admin.macaroon", 'r': "readonly.macaroon", 'm': "market.macaroon", 'p': "price.macaroon", 'w': "wallet.macaroon", 'h': "webhook.macaroon"}

var tradeMethods = []string{"/Trade/Markets", "/Trade/Balances", "/Trade/MarketPrice", "/Trade/TradePropose", "/Trade/TradeComplete"}

// methods that the operator server has.
var methods = func() (out []string) {
	s := grpc.NewServer()
	pboperator.RegisterOperatorServer(s, pboperator.UnimplementedOperatorServer{})
	pbwallet.RegisterWalletServer(s, pbwallet.UnimplementedWalletServer{})
	for name, i := range s.GetServiceInfo() {
		for _, m := range i.Methods {
			out = append(out, "/"+name+"/"+m.Name)
		}
	}
	sort.Strings(out)
	return
}()

var _ = pbtrade.RegisterTradeServer

// server is a daemon's gRPC side.
type server struct {
	dir     string
	op, tr  string // addresses
	svc     interfaces.Service
	conn    *grpc.ClientConn
	trConn  *grpc.ClientConn
	rec     *calls
	wallet  application.WalletService
	oper    application.OperatorService
	ch      chan application.PassphraseMsg // to the macaroon service
	noMac   bool
	started bool
}

var port = 20000

func addresses() (string, string) {
	pid := os.Getpid()
	port += 2
	if port > 60000 {
		port = 20002
	}
	ip := fmt.Sprintf("127.%d.%d.1", 1+pid>>8%250, pid&255)
	return fmt.Sprintf("%s:%d", ip, port), fmt.Sprintf("%s:%d", ip, port+1)
}

func newServer(dir string) *server {
	c := &calls{n: map[string]int{}, ch: make(chan application.PassphraseMsg, 1)}
	return &server{dir: dir, rec: c, wallet: wallet{c}, oper: operator{c}, ch: c.ch}
}

func (s *server) start() (err error) {
	s.op, s.tr = addresses()
	p, st := hx.Catch(func() {
		s.svc, err = grpcinterface.NewService(grpcinterface.ServiceOpts{NoMacaroons: s.noMac, Datadir: s.dir, DBLocation: "db", TLSLocation: "tls", MacaroonsLocation: "macaroons",
			WalletSvc: s.wallet, OperatorSvc: s.oper, TradeSvc: trade{s.rec}})
		if err == nil {
			err = s.svc.Start(s.op, s.tr, "", "")
		}
	})
	if p != nil {
		return fmt.Errorf("panic: %v %s", p, st)
	}
	if err != nil {
		return err
	}
	s.started = true
	sec := grpc.WithTransportCredentials(credentials.NewTLS(&tls.Config{InsecureSkipVerify: true}))
	if s.noMac {
		sec = grpc.WithInsecure()
	}
	if s.conn, err = grpc.Dial(s.op, sec, grpc.WithContextDialer(func(c context.Context, a string) (net.Conn, error) {
		d := net.Dialer{LocalAddr: &net.TCPAddr{IP: net.ParseIP(s.ip())}}
		return d.DialContext(c, "tcp", a)
	})); err != nil {
		panic(err)
	}
	if s.trConn, err = grpc.Dial(s.tr, grpc.WithInsecure()); err != nil {
		panic(err)
	}
	return nil
}

func (s *server) ip() string { return s.op[:strings.Index(s.op, ":")] }

func (s *server) stop() {
	if s.started {
		s.conn.Close()
		s.trConn.Close()
		s.svc.Stop()
		close(s.ch)
	}
	s.started = false
}

type raw struct{}

func (raw) Marshal(v interface{}) ([]byte, error) { return *v.(*[]byte), nil }
func (raw) Unmarshal(b []byte, v interface{}) error {
	*v.(*[]byte) = append([]byte{}, b...)
	return nil
}
func (raw) Name() string   { return "proto" }
func (raw) String() string { return "proto" }

// call a method with an empty request.
func call(conn *grpc.ClientConn, method string, macs ...string) error {
	c, cancel := context.WithTimeout(ctx, 20*time.Second)
	defer cancel()
	for _, m := range macs {
		c = metadata.AppendToOutgoingContext(c, "macaroon", m)
	}
	st, err := conn.NewStream(c, &grpc.StreamDesc{ServerStreams: true}, method, grpc.ForceCodec(raw{}))
	if err != nil {
		return err
	}
	req, res := []byte{}, []byte{}
	if err := st.SendMsg(&req); err != nil && err != io.EOF {
		return err
	}
	st.CloseSend()
	for {
		if err := st.RecvMsg(&res); err != nil {
			if err == io.EOF {
				return nil
			}
			return err
		}
	}
}

// served tells whether the request got through to its handler.
func served(err error) bool {
	return err == nil || status.Code(err) == codes.InvalidArgument || strings.Contains(err.Error(), "SERVED")
}

// web calls a method over grpc-web.
func (s *server) web(method string, macs ...string) bool {
	req, err := http.NewRequest("POST", "https://"+s.op+method, bytes.NewReader(make([]byte, 5)))
	if err != nil {
		panic(err)
	}
	req.Header.Set("content-type", "application/grpc-web+proto")
	for _, m := range macs {
		req.Header.Add("macaroon", m)
	}
	t := &http.Transport{TLSClientConfig: &tls.Config{InsecureSkipVerify: true}, DisableKeepAlives: true}
	before := s.rec.total()
	res, err := (&http.Client{Transport: t, Timeout: 20 * time.Second}).Do(req)
	if err != nil {
		panic(err)
	}
	b, _ := io.ReadAll(res.Body)
	res.Body.Close()
	all := string(b) + fmt.Sprint(res.Header)
	return s.rec.total() > before || strings.Contains(all, "SERVED") || strings.Contains(strings.ToLower(all), "grpc-status: 3") || strings.Contains(all, "Grpc-Status:[3]")
}

// macs reads the credentials' files.
func (s *server) macs() map[byte]string {
	out := map[byte]string{}
	for k, f := range creds {
		b, err := os.ReadFile(filepath.Join(s.dir, "macaroons", f))
		if err == nil {
			out[k] = hex.EncodeToString(b)
		}
	}
	return out
}

// await waits until f holds.
func await(what string, f func() bool) {
	end := time.Now().Add(20 * time.Second)
	for !f() {
		if time.Now().After(end) {
			panic("it never happens that " + what)
		}
		time.Sleep(time.Millisecond)
	}
}

// initialised starts a server and sets the password.
func initialised(dir string) *server {
	s := newServer(dir)
	if err := s.start(); err != nil {
		panic(err)
	}
	s.ch <- application.PassphraseMsg{Method: application.InitWallet, CurrentPwd: passes[0]}
	await("all six credentials are baked", func() bool { return len(s.macs()) == 6 })
	return s
}

func decode(h string) *macaroon.Macaroon {
	b, err := hex.DecodeString(h)
	if err != nil {
		panic(err)
	}
	m := &macaroon.Macaroon{}
	if err := m.UnmarshalBinary(b); err != nil {
		panic(err)
	}
	return m
}

func encode(m *macaroon.Macaroon) string {
	b, err := m.MarshalBinary()
	if err != nil {
		panic(err)
	}
	return hex.EncodeToString(b)
}

func caveat(h string, cs ...string) string {
	m := decode(h)
	for _, c := range cs {
		if err := m.AddFirstPartyCaveat([]byte(c)); err != nil {
			panic(err)
		}
	}
	return encode(m)
}

func flip(h string, at int) string {
	b, _ := hex.DecodeString(h)
	b[at] ^= 1
	return hex.EncodeToString(b)
}

// alterations of a credential; the result tells how many rights it keeps: all
// or none.
type alteration struct {
	name string
	keep bool
	f    func(s *server, h string) []string
}

var alterations = func() (out []alteration) {
	add := func(name string, keep bool, f func(s *server, h string) []string) {
		out = append(out, alteration{name, keep, f})
	}
	one := func(name string, keep bool, f func(s *server, h string) string) {
		add(name, keep, func(s *server, h string) []string { return []string{f(s, h)} })
	}
	one("as issued", true, func(s *server, h string) string { return h })
	one("upper case", true, func(s *server, h string) string { return strings.ToUpper(h) })
	add("none", false, func(*server, string) []string { return nil })
	add("twice", false, func(s *server, h string) []string { return []string{h, h} })
	add("with an empty one", false, func(s *server, h string) []string { return []string{h, ""} })
	one("empty", false, func(*server, string) string { return "" })
	one("not hex", false, func(s *server, h string) string { return "x" + h[1:] })
	one("odd", false, func(s *server, h string) string { return h[1:] })
	one("one byte short", false, func(s *server, h string) string { return h[:len(h)-2] })
	one("half", false, func(s *server, h string) string { return h[:len(h)/4*2] })
	future := time.Now().UTC().Add(24 * time.Hour).Format(time.RFC3339Nano)
	past := time.Now().UTC().Add(-time.Hour).Format(time.RFC3339Nano)
	cav := func(name string, keep bool, cs ...string) {
		one(name, keep, func(s *server, h string) string {
			var l []string
			for _, c := range cs {
				l = append(l, strings.ReplaceAll(c, "IP", s.ip()))
			}
			return caveat(h, l...)
		})
	}
	cav("valid until tomorrow", true, "time-before "+future)
	cav("expired", false, "time-before "+past)
	cav("valid until tomorrow and expired", false, "time-before "+future, "time-before "+past)
	cav("expired and valid until tomorrow", false, "time-before "+past, "time-before "+future)
	cav("no time", false, "time-before never")
	cav("for this address", true, "ipaddr IP")
	cav("for another address", false, "ipaddr 10.0.0.1")
	cav("for this and another address", false, "ipaddr IP", "ipaddr 10.0.0.1")
	cav("for another and this address", false, "ipaddr 10.0.0.1", "ipaddr IP")
	cav("for no address", false, "ipaddr x")
	cav("for this address until tomorrow", true, "ipaddr IP", "time-before "+future)
	cav("for this address, expired", false, "ipaddr IP", "time-before "+past)
	cav("unknown caveat", false, "something else")
	cav("error caveat", false, "error no")
	cav("nothing allowed", false, "allow ")
	cav("all denied", false, "deny ")
	one("caveat removed", false, func(s *server, h string) string {
		m := decode(caveat(h, "ipaddr 10.0.0.1"))
		w := decode(h)
		// the signature of the restricted one on the content of the issued one
		b, _ := w.MarshalBinary()
		r, _ := m.MarshalBinary()
		copy(b[len(b)-32:], r[len(r)-32:])
		return hex.EncodeToString(b)
	})
	one("caveat changed", false, func(s *server, h string) string {
		b, _ := hex.DecodeString(caveat(h, "ipaddr 10.0.0.1"))
		return hex.EncodeToString(bytes.Replace(b, []byte("10.0.0.1"), []byte("127.0.0.1")[:8], 1))
	})
	one("another daemon's", false, func(s *server, h string) string {
		return bake(make([]byte, 32), "0", grpcinterface.Macaroons["admin.macaroon"]...)
	})
	one("another daemon's with an unknown key", false, func(s *server, h string) string {
		return bake([]byte("key"), "7", grpcinterface.Macaroons["admin.macaroon"]...)
	})
	one("another daemon's with the encryption key", false, func(s *server, h string) string {
		return bake([]byte{}, "enckey", grpcinterface.Macaroons["admin.macaroon"]...)
	})
	one("more rights, same signature", false, func(s *server, h string) string {
		admin, _ := hex.DecodeString(bake(make([]byte, 32), "0", grpcinterface.Macaroons["admin.macaroon"]...))
		own, _ := hex.DecodeString(h)
		copy(admin[len(admin)-32:], own[len(own)-32:])
		return hex.EncodeToString(admin)
	})
	return
}()

// expect compares one request with what the credential is for.
func (s *server) expect(x *explore.Exec, method, label string, kind byte, valid bool, macs []string, web bool) {
	who, known := rights[method]
	want := who == "*" || valid && strings.IndexByte(who, kind) >= 0
	if !known && valid {
		return // a request that this list doesn't have, with a credential
	}
	before := s.rec.total()
	var ok bool
	var err error
	if web {
		ok = s.web(method, macs...)
	} else {
		err = call(s.conn, method, macs...)
		ok = served(err)
	}
	ok = ok || s.rec.total() > before
	x.Count("requests", 1)
	if ok != want {
		x.Fail("auth", "%s with %s %s (grpc-web %v): served %v, not %v (%v)", method, creds[kind], label, web, ok, want, err)
	}
}

const kinds = "armpwh"

func products() *explore.Scenario {
	var ops []string
	for _, a := range alterations {
		ops = append(ops, a.name)
	}
	ops = append(ops, "one bit off", "rights by uri", "the trade interface", "no authentication", "grpc-web")
	return &explore.Scenario{Name: "requests", Ops: ops, Bound: 1, ThoroughBound: 1, Weight: 6, Real: true, Hist: func(x *explore.Exec, path []int) {
		if len(path) == 0 {
			x.State("")
			return
		}
		dir := tmp()
		defer os.RemoveAll(dir)
		what := ops[path[0]]
		x.State(what)
		if what == "no authentication" {
			s := newServer(dir)
			s.noMac = true
			if err := s.start(); err != nil {
				x.Fail("start", "%v", err)
				return
			}
			defer s.stop()
			for _, m := range methods {
				x.Count("requests", 1)
				if err := call(s.conn, m); !served(err) {
					x.Fail("auth", "%s without authentication: %v", m, err)
				}
			}
			return
		}
		s := initialised(dir)
		defer func() { s.stop() }()
		macs := s.macs()
		switch what {
		case "one bit off":
			n := 1
			if os.Getenv("VERIF_TIER") != "thorough" {
				n = 7
			}
			for _, k := range []byte(kinds) {
				b, _ := hex.DecodeString(macs[k])
				for at := 0; at < len(b); at += n {
					s.expectAltered(x, b, at, k)
				}
			}
		case "rights by uri":
			// baked by the daemon's own store for a few requests, with a key that
			// is deleted later
			s.stop()
			own := func(f func(*macaroons.Service)) {
				st, err := macaroons.NewService(filepath.Join(dir, "db"), "tdexd", file, false)
				if err != nil {
					panic(err)
				}
				defer st.Close()
				p := []byte(passes[0])
				if err := st.CreateUnlock(&p); err != nil {
					panic(err)
				}
				f(st)
			}
			again := func() *server {
				s := newServer(dir)
				if err := s.start(); err != nil {
					panic(err)
				}
				s.ch <- application.PassphraseMsg{Method: application.UnlockWallet, CurrentPwd: passes[0]}
				await("the credentials are valid", func() bool { return served(call(s.conn, "/Operator/ListMarket", macs['a'])) })
				return s
			}
			byURI := map[string]string{}
			own(func(st *macaroons.Service) {
				for _, m := range methods {
					mc, err := st.NewMacaroon(ctx, []byte("7"), bakery.Op{Entity: "uri", Action: m})
					if err != nil {
						panic(err)
					}
					b, _ := mc.M().MarshalBinary()
					byURI[m] = hex.EncodeToString(b)
				}
			})
			s = again()
			for _, m := range methods {
				for _, o := range methods {
					x.Count("requests", 1)
					if ok := served(call(s.conn, o, byURI[m])); ok != (m == o || rights[o] == "*") {
						x.Fail("auth", "%s with a credential for %s: served %v", o, m, ok)
					}
				}
			}
			s.stop()
			own(func(st *macaroons.Service) {
				if _, err := st.DeleteMacaroonID(ctx, []byte("7")); err != nil {
					panic(err)
				}
			})
			s = again()
			for _, m := range methods {
				x.Count("requests", 1)
				if ok := served(call(s.conn, m, byURI[m])); ok != (rights[m] == "*") {
					x.Fail("auth", "%s with a credential for it whose key was deleted: served %v", m, ok)
				}
			}
		case "the trade interface":
			for _, m := range tradeMethods {
				x.Count("requests", 1)
				if err := call(s.trConn, m); !served(err) {
					x.Fail("auth", "%s needs a credential: %v", m, err)
				}
			}
			for _, m := range methods {
				x.Count("requests", 2)
				before := s.rec.total()
				if err := call(s.trConn, m); served(err) || s.rec.total() > before {
					x.Fail("auth", "%s is served on the trade interface", m)
				}
				call(s.trConn, m, macs['p'])
				if s.rec.total() > before {
					x.Fail("auth", "%s is served on the trade interface", m)
				}
			}
		case "grpc-web":
			for _, m := range methods {
				if m == "/Wallet/InitWallet" {
					continue
				}
				s.expect(x, m, "missing", 'a', false, nil, true)
				for _, k := range []byte(kinds) {
					s.expect(x, m, "", k, true, []string{macs[k]}, true)
				}
			}
		default:
			a := alterations[path[0]]
			for _, k := range []byte(kinds) {
				v := a.f(s, macs[k])
				for _, m := range methods {
					s.expect(x, m, a.name, k, a.keep, v, false)
				}
			}
		}
		x.Outcome("%s", what)
	}}
}

// expectAltered changes one bit of a credential. The location hint isn't signed.
func (s *server) expectAltered(x *explore.Exec, b []byte, at int, k byte) {
	if i := bytes.Index(b, []byte("tdexd")); at >= i && at < i+5 {
		return
	}
	h := flip(hex.EncodeToString(b), at)
	for _, m := range []string{"/Operator/ListMarket", "/Operator/UpdateMarketPrice", "/Operator/WithdrawMarket", "/Wallet/SendToMany", "/Operator/AddWebhook"} {
		s.expect(x, m, fmt.Sprintf("with bit 0 of byte %d flipped", at), k, false, []string{h}, false)
	}
}

// starts: the server in every state of its files.
func starts() *explore.Scenario {
	var ops []string
	for _, db := range []string{"good", "none", "garbage", "empty", "directory", "in place of the folder"} {
		for _, dir := range []string{"good", "none", "file"} {
			for _, t := range []string{"good", "none", "garbage", "key only", "file"} {
				if db == "good" || dir == "good" && t == "good" {
					ops = append(ops, db+","+dir+","+t)
				}
			}
		}
	}
	for set := 0; set < 1<<6; set++ {
		ops = append(ops, fmt.Sprintf("macaroons %06b", set))
	}
	return &explore.Scenario{Name: "starts", Ops: ops, Bound: 1, ThoroughBound: 1, Weight: 4, Real: true, Hist: func(x *explore.Exec, path []int) {
		if len(path) == 0 {
			x.State("")
			return
		}
		what := ops[path[0]]
		x.State(what)
		dir := tmp()
		defer os.RemoveAll(dir)
		s := initialised(dir)
		macs := s.macs()
		s.stop()
		db, mac, tl := filepath.Join(dir, "db"), filepath.Join(dir, "macaroons"), filepath.Join(dir, "tls")
		garbage := bytes.Repeat([]byte("garbage "), 4096)
		write := func(p string, b []byte) {
			if err := os.WriteFile(p, b, 0o600); err != nil {
				panic(err)
			}
		}
		goodDB := true
		if strings.HasPrefix(what, "macaroons ") {
			for i, k := range []byte(kinds) {
				if what[len("macaroons ")+i] == '0' {
					os.Remove(filepath.Join(mac, creds[k]))
					delete(macs, k)
				}
			}
		} else {
			f := strings.Split(what, ",")
			path := filepath.Join(db, file)
			goodDB = f[0] == "good"
			switch f[0] {
			case "none":
				os.Remove(path)
			case "garbage":
				write(path, garbage)
			case "empty":
				write(path, nil)
			case "directory":
				os.Remove(path)
				os.Mkdir(path, 0o755)
			case "in place of the folder":
				os.RemoveAll(db)
				write(db, garbage)
			}
			switch f[1] {
			case "none":
				os.RemoveAll(mac)
				macs = nil
			case "file":
				os.RemoveAll(mac)
				write(mac, garbage)
				macs = nil
			}
			switch f[2] {
			case "none":
				os.RemoveAll(tl)
			case "garbage":
				write(filepath.Join(tl, "key.pem"), garbage)
			case "key only":
				os.Remove(filepath.Join(tl, "cert.pem"))
			case "file":
				os.RemoveAll(tl)
				write(tl, garbage)
			}
		}
		s = newServer(dir)
		err := s.start()
		if err != nil && strings.HasPrefix(err.Error(), "panic") {
			x.Fail("start", "%s: %v", what, err)
		}
		if err != nil && what == "good,good,good" {
			x.Fail("start", "%s: %v", what, err)
		}
		if err != nil {
			x.Outcome("refuses to start")
			return
		}
		defer s.stop()
		check := func(when string, valid map[byte]string) {
			for _, m := range methods {
				s.expect(x, m, "missing "+when, 'a', false, nil, false)
				for _, k := range []byte(kinds) {
					if h := macs[k]; h != "" {
						s.expect(x, m, when, k, valid[k] != "", []string{h}, false)
					}
				}
			}
		}
		check("before unlocking", nil)
		s.ch <- application.PassphraseMsg{Method: application.UnlockWallet, CurrentPwd: passes[1]}
		s.ch <- application.PassphraseMsg{Method: application.UnlockWallet, CurrentPwd: passes[1]}
		s.ch <- application.PassphraseMsg{Method: application.UnlockWallet, CurrentPwd: passes[1]}
		if !goodDB {
			check("with new keys", nil)
			x.Outcome("new keys")
			return
		}
		check("after a wrong password", nil)
		s.ch <- application.PassphraseMsg{Method: application.UnlockWallet, CurrentPwd: passes[0]}
		some := byte(0)
		for k := range macs {
			if some == 0 || k < some {
				some = k
			}
		}
		if some != 0 {
			m := map[byte]string{'a': "/Operator/ListMarket", 'r': "/Operator/ListMarket", 'm': "/Operator/ListMarket", 'p': "/Operator/UpdateMarketPrice", 'w': "/Wallet/WalletBalance", 'h': "/Operator/ListWebhooks"}[some]
			await("a credential that was issued is taken after unlocking", func() bool { return served(call(s.conn, m, macs[some])) })
		} else {
			await("credentials are baked", func() bool { return len(s.macs()) > 0 || strings.Contains(what, ",file,") })
		}
		check("after unlocking", macs)
		x.Outcome("starts with %d credentials", len(macs))
	}}
}

// histories of the daemon with its real wallet, credential store.
func lifecycle() *explore.Scenario {
	ops := strings.Split("init p,crash init p,unlock p,unlock q,change p q,change q p,change p p,restart,crash change p q", ",")
	return &explore.Scenario{Name: "daemon", Ops: ops, Bound: 6, ThoroughBound: 9, Weight: 10, Real: true, Hist: func(x *explore.Exec, path []int) {
		dir := tmp()
		defer os.RemoveAll(dir)
		os.MkdirAll(filepath.Join(dir, "db"), 0o755)
		w := world.New(world.Opts{NoVault: true, WithOps: true})
		defer w.Close()
		var s *server
		dead := new(atomic.Bool)
		var quiet chan bool
		boot := func() {
			s = newServer(dir)
			dead = new(atomic.Bool)
			from, to, d := w.Wallet.PassphraseChan(), s.ch, dead
			idle := make(chan bool)
			quiet = idle
			go func() {
				defer close(idle)
				for m := range from {
					if !d.Load() {
						to <- m
					}
				}
			}()
			if err := s.start(); err != nil {
				x.Fail("start", "%v", err)
				panic(err)
			}
		}
		halt := func() {
			close(w.Wallet.PassphraseChan())
			<-quiet
			s.stop()
			w.Mnem.Unset()
		}
		boot()
		defer func() { halt() }()
		pwd, unlocked, torn := "", false, false
		touched := false // a password was given since the start
		var macs map[byte]string
		initWallet := func(p string) bool {
			if pwd != "" {
				return false
			}
			res, errs := make(chan *application.InitWalletReply), make(chan error)
			go w.Wallet.InitWallet(ctx, world.Words, arg(p), false, res, errs)
			for range res {
			}
			for e := range errs {
				x.Fail("init", "%v", e)
			}
			pwd, touched = arg(p), true
			return true
		}
		for k, p := range path {
			o := parse(ops[p])[0]
			last := k == len(path)-1
			x.Log("%s", o)
			ok := true
			switch o[0] {
			case "init":
				if !initWallet(o[1]) {
					x.Disabled()
					return
				}
				await("all six credentials are baked", func() bool { macs = s.macs(); return len(macs) == 6 })
				await("they are taken", func() bool { return served(call(s.conn, "/Operator/ListMarket", macs['a'])) })
			case "unlock":
				err := w.Wallet.UnlockWallet(ctx, arg(o[1]))
				ok = pwd != "" && (unlocked || arg(o[1]) == pwd)
				if (err == nil) != ok {
					x.Fail("unlock", "%s: %v", o, err)
				}
				if ok {
					unlocked, touched = true, true
				}
			case "change", "crash":
				a := o[1:]
				if o[0] == "crash" {
					dead.Store(true)
					a = o[2:]
				}
				if a[0] == "p" && len(a) == 1 {
					if !initWallet("p") {
						x.Disabled()
						return
					}
					break
				}
				err := w.Wallet.ChangePassword(ctx, arg(a[0]), arg(a[1]))
				ok = pwd != "" && !unlocked && arg(a[0]) == pwd
				if (err == nil) != ok {
					x.Fail("change", "%s: %v", o, err)
				}
				if o[0] == "crash" && !ok {
					x.Disabled()
					return
				}
				if ok {
					pwd, touched = arg(a[1]), true
				}
				if o[0] == "crash" {
					torn = torn || a[0] != a[1]
				} else if ok {
					// the credential store is changed in the background, one
					// message after the other
					for i := 0; i < 5; i++ {
						w.Wallet.PassphraseChan() <- application.PassphraseMsg{Method: application.ChangePassphrase, CurrentPwd: "not it", NewPwd: "neither"}
					}
				}
			}
			if o[0] == "restart" || o[0] == "crash" {
				halt()
				w.Restart()
				boot()
				unlocked, touched = false, false
			}
			if !last && !(unlocked && ok) {
				continue
			}
			if unlocked {
				// every issued credential becomes valid
				if len(macs) == 0 {
					await("all six credentials are baked", func() bool { macs = s.macs(); return len(macs) == 6 })
				}
				good := func() bool { return served(call(s.conn, "/Operator/ListMarket", macs['a'])) }
				end := time.Now().Add(10 * time.Second)
				if torn {
					end = time.Now().Add(300 * time.Millisecond)
				}
				for !good() && time.Now().Before(end) {
					time.Sleep(time.Millisecond)
				}
				if !good() {
					key := "unlocked"
					if torn {
						key = "crash-between-password-changes"
					}
					x.Fail(key, "%s: the credentials are refused though the wallet is unlocked", o)
					x.State("refused")
					return
				}
			}
			if last {
				for _, m := range methods {
					if rights[m] == "*" {
						continue
					}
					s.expectReal(x, m, "missing", nil)
					for _, k := range []byte(kinds) {
						h := macs[k]
						if h == "" {
							continue
						}
						if unlocked || !touched {
							want := touched && strings.IndexByte(rights[m], k) >= 0
							err := call(s.conn, m, h)
							x.Count("requests", 1)
							if rights[m] != "" && served(err) != want {
								x.Fail("auth", "%s: %s with %s: %v", o, m, creds[k], err)
							}
						}
					}
				}
			}
		}
		x.State(fmt.Sprint(pwd, unlocked, touched, torn))
		x.Outcome("password %v unlocked %v", pwd != "", unlocked)
	}}
}

func (s *server) expectReal(x *explore.Exec, m, label string, macs []string) {
	x.Count("requests", 1)
	if err := call(s.conn, m, macs...); served(err) {
		x.Fail("auth", "%s with a credential %s: %v", m, label, err)
	}
}

func daemon() []*explore.Scenario {
	return []*explore.Scenario{products(), starts(), lifecycle()}
}
