// C27: the explorer client. Every call against a scripted explorer that plays
// small populations of coins and transactions, with a fault of every kind at
// every request (pairs of faults in the thorough tier), judged against a
// reference reading of the very answers that were served.
//
//mc:instr pkg/transactionutil=U
package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
	"github.com/tdex-network/tdex-daemon/verif/explore"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	confidential "github.com/tdex-network/tdex-daemon/verif/memoconf"
	"github.com/tdex-network/tdex-daemon/verif/txs"
	"github.com/vulpemventures/go-elements/elementsutil"
	"github.com/vulpemventures/go-elements/transaction"
)

// ---- the chain the explorer knows ----

type coin struct {
	addr      string
	conf      bool
	key       string // blinding key ("" = that of the address)
	false     bool   // says it's of another asset than it is
	v         uint64
	asset     int
	confirmed bool
}

type population [][]coin // transactions and their outputs

var populations = map[string]population{
	"none":     {},
	"explicit": {{{addr: "a", v: 1000, confirmed: true}}},
	"conf":     {{{addr: "a", conf: true, v: 5000, confirmed: true}}},
	"mixed": {
		{{addr: "a", conf: true, v: 2100000000000000, asset: 0, confirmed: true}, {addr: "b", conf: true, v: 1, asset: 1, confirmed: true}},
		{{addr: "x", v: 7, asset: 1}, {addr: "a", v: 9007199254740993, asset: 1}},
		{{addr: "b", v: 12, asset: 0, confirmed: true}},
	},
	"same tx":   {{{addr: "a", conf: true, v: 40}, {addr: "a", conf: true, v: 40}, {addr: "a", v: 40}}},
	"other key": {{{addr: "a", conf: true, v: 11, confirmed: true}}, {{addr: "a", conf: true, key: "b", v: 12}}},
	"false":     {{{addr: "a", conf: true, v: 11, confirmed: true}}, {{addr: "a", conf: true, false: true, v: 12, confirmed: true}}},
}

func blindOf(k coin) []byte {
	if k.key != "" {
		return txs.Blind(k.key)
	}
	return txs.Blind(k.addr)
}

type chain struct {
	txs   []*transaction.Transaction
	hex   []string
	id    []string
	conf  []bool
	coins []population
	pop   population
}

var chains = map[string]*chain{}

func chainOf(name string) *chain {
	if ch := chains[name]; ch != nil {
		return ch
	}
	ch := &chain{pop: populations[name]}
	for i, outs := range ch.pop {
		ins := []txs.In{{Hash: byte(0x40 + i), Index: uint32(i)}}
		var os []*transaction.TxOutput
		confirmed := false
		for _, k := range outs {
			if k.false {
				os = append(os, txs.False(txs.Asset(k.asset), txs.Asset(k.asset+1), k.v, txs.Script(k.addr), blindOf(k)))
			} else if k.conf {
				os = append(os, txs.Conf(txs.Asset(k.asset), k.v, txs.Script(k.addr), blindOf(k)))
			} else {
				os = append(os, txs.Out(txs.Asset(k.asset), k.v, txs.Script(k.addr)))
			}
			confirmed = confirmed || k.confirmed
		}
		os = append(os, txs.Fee(txs.Asset(0), 300))
		tx := txs.Pset(ins, os).UnsignedTx
		ch.txs = append(ch.txs, tx)
		ch.hex = append(ch.hex, txs.Hex(tx))
		ch.id = append(ch.id, tx.TxHash().String())
		ch.conf = append(ch.conf, confirmed)
	}
	chains[name] = ch
	return ch
}

// ---- the explorer ----

// answer is what a request is answered with.
type answer struct {
	status int
	body   string
	err    error // transport failure
	hang   int   // 1: before the header, 2: within the body
	cut    bool  // the connection breaks within the body
}

func (a *answer) bad() bool { return a.err != nil || a.hang > 0 || a.cut || a.status != 200 }

type server struct {
	ch    *chain
	given map[string]*answer // by request
	asked map[string]int
	sent  string
}

// honest is the right answer to a request.
func (s *server) honest(key string) *answer {
	ok := func(b string) *answer { return &answer{status: 200, body: b} }
	js := func(v interface{}) *answer { b, _ := json.Marshal(v); return ok(string(b)) }
	p := strings.Split(strings.TrimPrefix(key, "GET "), "/")
	if key == "GET blocks/tip/height" {
		return ok("1234")
	}
	if key == "POST tx" {
		return ok(strings.Repeat("ab", 32))
	}
	if p[0] == "address" && p[2] == "utxo" {
		list := []map[string]interface{}{}
		for i, outs := range s.ch.pop {
			for n, k := range outs {
				if k.addr != p[1] {
					continue
				}
				o := s.ch.txs[i].Outputs[n]
				m := map[string]interface{}{"txid": s.ch.id[i], "vout": n, "status": map[string]interface{}{"confirmed": s.ch.conf[i]}}
				if k.conf {
					m["valuecommitment"], m["assetcommitment"] = hex.EncodeToString(o.Value), hex.EncodeToString(o.Asset)
					m["noncecommitment"] = hex.EncodeToString(o.Nonce)
				} else {
					m["value"], m["asset"] = k.v, txs.Asset(k.asset)
				}
				list = append(list, m)
			}
		}
		return js(list)
	}
	if p[0] == "address" && p[2] == "txs" {
		list := []map[string]interface{}{}
		for i, outs := range s.ch.pop {
			in := false
			vout := []map[string]interface{}{}
			for n, k := range outs {
				in = in || k.addr == p[1]
				o := s.ch.txs[i].Outputs[n]
				m := map[string]interface{}{"scriptpubkey": hex.EncodeToString(o.Script), "scriptpubkey_type": "v0_p2wpkh"}
				if k.conf {
					m["valuecommitment"], m["assetcommitment"] = hex.EncodeToString(o.Value), hex.EncodeToString(o.Asset)
				} else {
					m["value"], m["asset"] = k.v, txs.Asset(k.asset)
				}
				vout = append(vout, m)
			}
			vout = append(vout, map[string]interface{}{"scriptpubkey": "", "scriptpubkey_type": "fee", "value": 300, "asset": txs.Asset(0)})
			if !in {
				continue
			}
			ti := s.ch.txs[i].Inputs[0]
			list = append(list, map[string]interface{}{
				"txid": s.ch.id[i], "version": 2, "locktime": 0, "size": 1000 + i, "weight": 3000 + i, "fee": 300,
				"vin": []map[string]interface{}{{"txid": hex.EncodeToString(elementsutil.ReverseBytes(ti.Hash)), "vout": ti.Index,
					"scriptsig": "", "witness": []string{"00ff"}, "is_coinbase": false, "sequence": ti.Sequence, "is_pegin": false}},
				"vout": vout, "status": map[string]interface{}{"confirmed": s.ch.conf[i]},
			})
		}
		return js(list)
	}
	if p[0] == "tx" {
		for i, id := range s.ch.id {
			if id != p[1] {
				continue
			}
			if p[2] == "hex" {
				return ok(s.ch.hex[i])
			}
			m := map[string]interface{}{"confirmed": s.ch.conf[i]}
			if s.ch.conf[i] {
				m["block_height"], m["block_hash"], m["block_time"] = 77, strings.Repeat("cd", 32), 1600000000
			}
			return js(m)
		}
	}
	return &answer{status: 404, body: "Transaction not found"}
}

type body struct {
	r   io.Reader
	ctx context.Context
	end int // 1: unexpected end, 2: hangs
}

func (b *body) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF && b.end == 1 {
		err = io.ErrUnexpectedEOF
	}
	if err == io.EOF && b.end == 2 {
		<-b.ctx.Done()
		err = b.ctx.Err()
	}
	return n, err
}
func (b *body) Close() error { return nil }

func (s *server) RoundTrip(r *http.Request) (*http.Response, error) {
	key := r.Method + " " + strings.TrimPrefix(r.URL.Path, "/")
	if r.Body != nil {
		b, _ := io.ReadAll(r.Body)
		r.Body.Close()
		if r.Method == "POST" {
			s.sent = string(b)
		}
	}
	lock <- 0
	a := s.given[key]
	if a == nil {
		a = s.honest(key)
		s.given[key] = a
	}
	s.asked[key]++
	<-lock
	if a.err != nil {
		return nil, a.err
	}
	if a.hang == 1 {
		<-r.Context().Done()
		return nil, r.Context().Err()
	}
	b := &body{r: strings.NewReader(a.body), ctx: r.Context()}
	if a.cut {
		b.r, b.end = strings.NewReader(a.body[:len(a.body)/2]), 1
	}
	if a.hang == 2 {
		b.r, b.end = strings.NewReader(a.body[:len(a.body)/2]), 2
	}
	return &http.Response{StatusCode: a.status, Status: strconv.Itoa(a.status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: b, Request: r, ContentLength: -1}, nil
}

var lock = make(chan int, 1)

// ---- faults ----

type fault struct {
	name string
	do   func(s *server, a *answer)
}

func setBody(name, b string) fault {
	return fault{name, func(_ *server, a *answer) { a.body = b }}
}

// edit changes a JSON list of objects.
func edit(name string, f func(l []map[string]interface{}) interface{}) fault {
	return fault{name, func(_ *server, a *answer) {
		var l []map[string]interface{}
		d := json.NewDecoder(strings.NewReader(a.body))
		d.UseNumber()
		if d.Decode(&l) != nil || len(l) == 0 {
			return
		}
		b, _ := json.Marshal(f(l))
		a.body = string(b)
	}}
}

// each changes the last element.
func each(name, field string, v interface{}) fault {
	return edit(fmt.Sprintf("%s: %s=%v", name, field, v), func(l []map[string]interface{}) interface{} {
		m := l[len(l)-1]
		if v == "absent" {
			delete(m, field)
		} else {
			m[field] = v
		}
		return l
	})
}

// any replaces one element with v.
func elem(v interface{}) fault {
	return edit(fmt.Sprintf("element: %v", v), func(l []map[string]interface{}) interface{} {
		out := []interface{}{}
		for _, m := range l {
			out = append(out, m)
		}
		out[len(out)-1] = v
		return out
	})
}

func common() []fault {
	st := func(code int, b string) fault {
		return fault{fmt.Sprintf("status %d", code), func(_ *server, a *answer) { a.status, a.body = code, b }}
	}
	return []fault{
		{"transport error", func(_ *server, a *answer) { a.err = errors.New("connection reset by peer") }},
		{"hangs before the header", func(_ *server, a *answer) { a.hang = 1 }},
		{"hangs within the body", func(_ *server, a *answer) { a.hang = 2 }},
		{"cut short", func(_ *server, a *answer) { a.cut = true }},
		st(404, "Transaction not found"), st(500, "100% broken: %s %d"), st(429, ""), st(204, ""), st(302, "[]"),
		{"half of the body", func(_ *server, a *answer) { a.body = a.body[:len(a.body)/2] }},
		{"trailing garbage", func(_ *server, a *answer) { a.body += "x" }},
		setBody("empty", ""), setBody("null", "null"), setBody("object", "{}"), setBody("list", "[]"), setBody("html", "<html></html>"),
		setBody("string", `"a"`), setBody("number", "17"), setBody("negative", "-1"), setBody("true", "true"), setBody("nested", "[[]]"),
		setBody("list of null", "[null]"), setBody("list of {}", "[{}]"),
	}
}

func listing() []fault {
	fs := []fault{elem(nil), elem(5), elem("x"), elem([]int{})}
	for _, f := range []string{"txid", "vout", "value", "asset", "valuecommitment", "assetcommitment", "status"} {
		for _, v := range []interface{}{nil, 5, -1, 1.5, "x", "zz", "", map[string]int{}, []int{}, true, "absent"} {
			fs = append(fs, each("wrong", f, v))
		}
	}
	for _, v := range []interface{}{0, 1, 2, 3, 4, 5, 255, 1 << 20, 1<<31 - 1, uint32(1<<32 - 1), uint64(1 << 32), uint64(1 << 63)} {
		fs = append(fs, each("index", "vout", v))
	}
	for _, f := range []string{"valuecommitment", "assetcommitment"} {
		for _, v := range []string{"00", "08", strings.Repeat("08", 33), strings.Repeat("ff", 33), "09" + strings.Repeat("11", 32), "0a" + strings.Repeat("22", 32), strings.Repeat("09", 4000), "0"} {
			fs = append(fs, each("commitment", f, v))
		}
	}
	fs = append(fs,
		each("unknown", "txid", strings.Repeat("77", 32)), each("odd", "txid", "abc"), each("path", "txid", "../x"), each("query", "txid", "a?b=c#d e"),
		edit("twice", func(l []map[string]interface{}) interface{} { return append(l, l[0]) }),
		edit("one less", func(l []map[string]interface{}) interface{} { return l[1:] }),
		edit("both kinds", func(l []map[string]interface{}) interface{} {
			for _, m := range l {
				m["value"], m["asset"] = 77, txs.Asset(3)
				m["valuecommitment"], m["assetcommitment"] = "09"+strings.Repeat("11", 32), "0a"+strings.Repeat("22", 32)
			}
			return l
		}),
	)
	return fs
}

func hexes(n int, thorough bool) []fault {
	fs := []fault{
		setBody("not hex", "zz"), setBody("odd", "abc"), setBody("zeros", strings.Repeat("00", 64)), setBody("ones", strings.Repeat("ff", 64)), setBody("a byte", "02"),
		{"another transaction", func(s *server, a *answer) {
			p := txs.Pset([]txs.In{{Hash: 1}}, []*transaction.TxOutput{txs.Fee(txs.Asset(0), 1)})
			a.body = txs.Hex(p.UnsignedTx)
		}},
		{"another explicit transaction", func(s *server, a *answer) {
			var os []*transaction.TxOutput
			for i := 0; i < 4; i++ {
				os = append(os, txs.Out(txs.Asset(2), uint64(i+1), txs.Script("y")))
			}
			a.body = txs.Hex(txs.Pset([]txs.In{{Hash: 1}}, os).UnsignedTx)
		}},
		{"no outputs", func(s *server, a *answer) { a.body = "0200000000" + "00" + "00" + "00000000" }},
		{"capital letters", func(s *server, a *answer) { a.body = strings.ToUpper(a.body) }},
		{"with a newline", func(s *server, a *answer) { a.body += "\n" }},
	}
	if n == 0 {
		return fs
	}
	var cuts []int
	step := n / 24
	if thorough {
		step = 1
	}
	if step == 0 {
		step = 1
	}
	for i := 0; i < n; i++ {
		// the fields of the beginning, where the counts and sizes are, in full
		if i < 120 || i%step == 0 {
			cuts = append(cuts, i)
		}
	}
	for _, i := range cuts {
		i := i
		fs = append(fs, fault{fmt.Sprintf("cut after %d bytes", i), func(_ *server, a *answer) {
			if 2*i < len(a.body) {
				a.body = a.body[:2*i]
			}
		}})
		for _, v := range []byte{0x00, 0x01, 0xfd, 0xfe, 0xff} {
			v := v
			fs = append(fs, fault{fmt.Sprintf("byte %d is %02x", i, v), func(_ *server, a *answer) {
				b, err := hex.DecodeString(a.body)
				if err == nil && i < len(b) {
					b[i] = v
					a.body = hex.EncodeToString(b)
				}
			}})
		}
	}
	return fs
}

func statuses() []fault {
	return []fault{setBody("confirmed string", `{"confirmed":"true"}`), setBody("confirmed number", `{"confirmed":1}`), setBody("confirmed null", `{"confirmed":null}`),
		setBody("confirmed false", `{"confirmed":false}`), setBody("confirmed true", `{"confirmed":true}`), setBody("wrong fields", `{"confirmed":true,"block_hash":5,"block_time":"x"}`)}
}

func txlist() []fault {
	fs := []fault{elem(nil), elem(5), elem("x"), elem([]int{}), elem(map[string]int{})}
	for _, f := range []string{"txid", "version", "locktime", "size", "weight", "vin", "vout", "status"} {
		for _, v := range []interface{}{nil, 5, -1, 1.5, "x", map[string]int{}, []interface{}{}, []interface{}{nil}, []interface{}{5}, []interface{}{map[string]int{}}, true, "absent"} {
			fs = append(fs, each("wrong", f, v))
		}
	}
	for _, list := range []string{"vin", "vout"} {
		for _, f := range []string{"txid", "vout", "scriptsig", "witness", "sequence", "is_pegin", "asset", "value", "scriptpubkey", "assetcommitment", "valuecommitment"} {
			for _, v := range []interface{}{nil, 5, -1, "zz", []int{}, []int{1}, true, "absent"} {
				list, f, v := list, f, v
				fs = append(fs, edit(fmt.Sprintf("%s of %s is %v", f, list, v), func(l []map[string]interface{}) interface{} {
					if e, ok := l[0][list].([]interface{}); ok && len(e) > 0 {
						m := e[0].(map[string]interface{})
						if v == "absent" {
							delete(m, f)
						} else {
							m[f] = v
						}
					}
					return l
				}))
			}
		}
	}
	return fs
}

func heights() []fault {
	return []fault{setBody("0", "0"), setBody("blank", " 12"), setBody("newline", "12\n"), setBody("hex", "0x10"), setBody("big", "99999999999999999999"), setBody("float", "1.5")}
}

func faultsOf(s *server, key string, full, thorough bool) []fault {
	fs := common()
	switch {
	case strings.HasSuffix(key, "/utxo"):
		fs = append(fs, listing()...)
	case strings.HasSuffix(key, "/hex"):
		n := len(s.honest(key).body) / 2
		if !full {
			n = 0
		}
		fs = append(fs, hexes(n, thorough)...)
	case strings.HasSuffix(key, "/status"):
		fs = append(fs, statuses()...)
	case strings.HasSuffix(key, "/txs"):
		fs = append(fs, txlist()...)
	case strings.HasSuffix(key, "/height"):
		fs = append(fs, heights()...)
	}
	return fs
}

// ---- the reference reading of the answers ----

// maybe: an error is as good as the answer.
type verdict struct {
	mustFail, mayFail bool
	value             string
}

func parseTx(h string) (tx *transaction.Transaction) {
	hx.Catch(func() {
		t, err := transaction.NewTxFromHex(h)
		if err == nil {
			tx = t
		}
	})
	return
}

func (s *server) get(key string) *answer {
	if a := s.given[key]; a != nil {
		return a
	}
	return s.honest(key)
}

func (s *server) confirmed(txid string) bool {
	a := s.get("GET tx/" + txid + "/status")
	if a.bad() {
		return false
	}
	var m map[string]interface{}
	if json.Unmarshal([]byte(a.body), &m) != nil {
		return false
	}
	b, _ := m["confirmed"].(bool)
	return b
}

type entry struct {
	Txid            *string
	Vout            *uint32
	Value           *uint64
	Asset           *string
	Valuecommitment *string
	Assetcommitment *string
	Status          *struct{ Confirmed bool }
}

func (s *server) coins(addr string, keys [][]byte) (v verdict, list []string) {
	a := s.get("GET address/" + addr + "/utxo")
	if a.bad() {
		v.mustFail = true
		return
	}
	var es []*entry
	if json.Unmarshal([]byte(a.body), &es) != nil {
		v.mustFail = true
		return
	}
	if es == nil { // null
		v.mayFail = true
	}
	for _, e := range es {
		if e == nil {
			v.mayFail = true
			e = &entry{}
		}
		str := func(p *string) string {
			if p == nil {
				return ""
			}
			return *p
		}
		vc, ac := str(e.Valuecommitment), str(e.Assetcommitment)
		val, vout := uint64(0), uint32(0)
		if e.Value != nil {
			val = *e.Value
		}
		if e.Vout != nil {
			vout = *e.Vout
		}
		if e.Txid == nil || e.Vout == nil || e.Status == nil || (vc == "") != (ac == "") || vc == "" && (e.Value == nil || e.Asset == nil) {
			v.mayFail = true
		}
		h := s.get("GET tx/" + str(e.Txid) + "/hex")
		if h.bad() {
			v.mustFail = true
			continue
		}
		tx := parseTx(h.body)
		if tx == nil || int64(vout) >= int64(len(tx.Outputs)) {
			v.mustFail = true
			continue
		}
		if tx.TxHash().String() != str(e.Txid) {
			v.mayFail = true
		}
		o := tx.Outputs[vout]
		conf := vc != "" && ac != ""
		asset := str(e.Asset)
		var vb, ab, nonce, rp, sp []byte
		if conf {
			nonce, rp, sp = o.Nonce, o.RangeProof, o.SurjectionProof
			if hex.EncodeToString(o.Asset) != ac || hex.EncodeToString(o.Value) != vc {
				v.mayFail = true // the listing and the transaction do not agree
			}
			vcb, err1 := hex.DecodeString(vc)
			acb, err2 := hex.DecodeString(ac)
			if err1 != nil || err2 != nil {
				v.mayFail = true
			}
			if len(keys) > 0 {
				done := false
				q := &transaction.TxOutput{Asset: acb, Value: vcb, Script: o.Script, Nonce: o.Nonce, RangeProof: o.RangeProof, SurjectionProof: o.SurjectionProof}
				for _, k := range keys {
					if done || !q.IsConfidential() || len(acb) != 33 || len(vcb) != 33 {
						break
					}
					hx.Catch(func() {
						r, err := confidential.UnblindOutputWithKey(q, k)
						if err == nil && r != nil {
							if c, err := confidential.AssetCommitment(r.Asset, r.AssetBlindingFactor); err != nil || !bytes.Equal(c, acb) {
								return
							}
							asset, val = hex.EncodeToString(elementsutil.ReverseBytes(r.Asset)), r.Value
							vb, ab = r.ValueBlindingFactor, r.AssetBlindingFactor
							done = true
						}
					})
				}
				if !done {
					v.mustFail = true
					continue
				}
			}
		} else if o.IsConfidential() || e.Value == nil || !bytes.Equal(o.Value, txs.Value(val)) {
			v.mayFail = true // the listing and the transaction do not agree
		}
		list = append(list, fmt.Sprintf("%s:%d %d %s (%s %s) script %x nonce %x proofs %d %d blinders %x %x conf=%v", str(e.Txid), vout, val, asset, vc, ac, o.Script, nonce, len(rp), len(sp), vb, ab, s.confirmed(str(e.Txid))))
	}
	return
}

func coinStr(u explorer.Utxo) string {
	return fmt.Sprintf("%s:%d %d %s (%s %s) script %x nonce %x proofs %d %d blinders %x %x conf=%v", u.Hash(), u.Index(), u.Value(), u.Asset(), u.ValueCommitment(), u.AssetCommitment(),
		u.Script(), u.Nonce(), len(u.RangeProof()), len(u.SurjectionProof()), u.ValueBlinder(), u.AssetBlinder(), u.IsConfirmed())
}

func coinsStr(us []explorer.Utxo) string {
	var l []string
	for _, u := range us {
		l = append(l, coinStr(u))
	}
	return join(l)
}

func join(l []string) string { sort.Strings(l); return strings.Join(l, "\n") }

func txStr(t explorer.Transaction) string {
	var l []string
	for _, i := range t.Inputs() {
		l = append(l, fmt.Sprintf("in %x:%d seq %d", i.Hash, i.Index, i.Sequence))
	}
	for _, o := range t.Outputs() {
		l = append(l, fmt.Sprintf("out %x %x %x", o.Asset, o.Value, o.Script))
	}
	return fmt.Sprintf("%s v%d l%d s%d w%d %v\n%s", t.Hash(), t.Version(), t.Locktime(), t.Size(), t.Weight(), t.Confirmed(), strings.Join(l, "\n"))
}

// ---- calls ----

type call struct {
	name string
	full bool // with every malformed encoding of the transactions
	// keys of the requests an undisturbed call makes
	reqs func(ch *chain) []string
	run  func(svc explorer.Service, ch *chain) (string, error)
	want func(s *server) verdict
}

func addrReqs(addrs ...string) func(ch *chain) []string {
	return func(ch *chain) (r []string) {
		for _, a := range addrs {
			r = append(r, "GET address/"+a+"/utxo")
		}
		for i, outs := range ch.pop {
			for _, k := range outs {
				if strings.Contains(strings.Join(addrs, " "), k.addr) {
					r = append(r, "GET tx/"+ch.id[i]+"/status", "GET tx/"+ch.id[i]+"/hex")
					break
				}
			}
		}
		return
	}
}

func first(ch *chain) string {
	if len(ch.id) == 0 {
		return strings.Repeat("66", 32)
	}
	return ch.id[0]
}

func keysOf(ks string) (r [][]byte) {
	for _, k := range strings.Fields(ks) {
		r = append(r, txs.Blind(k))
	}
	return
}

func coinsCall(addrs, keys string) call {
	return call{
		fmt.Sprintf("coins of [%s] with keys [%s]", addrs, keys), false,
		addrReqs(strings.Fields(addrs)...),
		func(svc explorer.Service, ch *chain) (string, error) {
			us, err := svc.GetUnspentsForAddresses(strings.Fields(addrs), keysOf(keys))
			return coinsStr(us), err
		},
		func(s *server) (v verdict) {
			var l []string
			for _, a := range strings.Fields(addrs) {
				w, m := s.coins(a, keysOf(keys))
				v.mustFail = v.mustFail || w.mustFail
				v.mayFail = v.mayFail || w.mayFail
				l = append(l, m...)
			}
			v.value = join(l)
			return
		},
	}
}

var calls = []call{
	{"unspents of a", false, addrReqs("a"),
		func(svc explorer.Service, ch *chain) (string, error) {
			us, err := svc.GetUnspents("a", [][]byte{txs.Blind("a")})
			return coinsStr(us), err
		},
		func(s *server) verdict { v, l := s.coins("a", [][]byte{txs.Blind("a")}); v.value = join(l); return v }},
	coinsCall("a", ""),
	coinsCall("a", "b a"),
	coinsCall("a b", "a b"),
	coinsCall("a b c", "b a"),
	coinsCall("", ""),
	{"transaction", true, func(ch *chain) []string {
		return []string{"GET tx/" + first(ch) + "/hex", "GET tx/" + first(ch) + "/status"}
	},
		func(svc explorer.Service, ch *chain) (string, error) {
			t, err := svc.GetTransaction(first(ch))
			if err != nil {
				return "", err
			}
			return txStr(t), nil
		},
		func(s *server) (v verdict) {
			h, st := s.get("GET tx/"+first(s.ch)+"/hex"), s.get("GET tx/"+first(s.ch)+"/status")
			var m map[string]interface{}
			tx := parseTx(h.body)
			if h.bad() || st.bad() || tx == nil || json.Unmarshal([]byte(st.body), &m) != nil {
				v.mustFail = true
				return
			}
			v.mayFail = tx.TxHash().String() != first(s.ch)
			if _, ok := m["confirmed"].(bool); !ok {
				v.mayFail = true
			}
			var l []string
			for _, i := range tx.Inputs {
				l = append(l, fmt.Sprintf("in %x:%d seq %d", i.Hash, i.Index, i.Sequence))
			}
			for _, o := range tx.Outputs {
				l = append(l, fmt.Sprintf("out %x %x %x", o.Asset, o.Value, o.Script))
			}
			if p, _ := hx.Catch(func() {
				v.value = fmt.Sprintf("%s v%d l%d s%d w%d %v\n%s", tx.TxHash().String(), int(tx.Version), int(tx.Locktime), tx.VirtualSize(), tx.Weight(), s.confirmed(first(s.ch)), strings.Join(l, "\n"))
			}); p != nil {
				v.mustFail = true
			}
			return
		}},
	{"hex", false, func(ch *chain) []string { return []string{"GET tx/" + first(ch) + "/hex"} },
		func(svc explorer.Service, ch *chain) (string, error) { return svc.GetTransactionHex(first(ch)) },
		func(s *server) (v verdict) {
			a := s.get("GET tx/" + first(s.ch) + "/hex")
			v.mustFail, v.value = a.bad(), a.body
			t := parseTx(a.body)
			v.mayFail = t == nil || t.TxHash().String() != first(s.ch)
			return
		}},
	{"confirmed", false, func(ch *chain) []string { return []string{"GET tx/" + first(ch) + "/status"} },
		func(svc explorer.Service, ch *chain) (string, error) {
			b, err := svc.IsTransactionConfirmed(first(ch))
			return fmt.Sprint(b), err
		},
		func(s *server) (v verdict) {
			a := s.get("GET tx/" + first(s.ch) + "/status")
			var m map[string]interface{}
			if a.bad() || json.Unmarshal([]byte(a.body), &m) != nil {
				v.mustFail = true
			}
			if _, ok := m["confirmed"].(bool); !ok {
				v.mayFail = true
			}
			v.value = fmt.Sprint(s.confirmed(first(s.ch)))
			return
		}},
	{"status", false, func(ch *chain) []string { return []string{"GET tx/" + first(ch) + "/status"} },
		func(svc explorer.Service, ch *chain) (string, error) {
			m, err := svc.GetTransactionStatus(first(ch))
			return fmt.Sprint(m), err
		},
		func(s *server) (v verdict) {
			a := s.get("GET tx/" + first(s.ch) + "/status")
			var m map[string]interface{}
			if a.bad() || json.Unmarshal([]byte(a.body), &m) != nil {
				v.mustFail = true
			}
			if _, ok := m["confirmed"].(bool); !ok {
				v.mayFail = true
			}
			v.value = fmt.Sprint(m)
			return
		}},
	{"transactions of a", false, func(ch *chain) []string { return []string{"GET address/a/txs"} },
		func(svc explorer.Service, ch *chain) (string, error) {
			ts, err := svc.GetTransactionsForAddress("a", txs.Blind("a"))
			var l []string
			for _, t := range ts {
				l = append(l, txStr(t))
			}
			return join(l), err
		},
		func(s *server) (v verdict) { return s.history("a") }},
	{"broadcast", false, func(ch *chain) []string { return []string{"POST tx"} },
		func(svc explorer.Service, ch *chain) (string, error) { return svc.BroadcastTransaction("0123abcd") },
		func(s *server) (v verdict) {
			a := s.get("POST tx")
			v.mustFail, v.value = a.bad(), a.body
			v.mayFail = len(a.body) != 64
			return
		}},
	{"height", false, func(ch *chain) []string { return []string{"GET blocks/tip/height"} },
		func(svc explorer.Service, ch *chain) (string, error) {
			n, err := svc.GetBlockHeight()
			return fmt.Sprint(n), err
		},
		func(s *server) (v verdict) { return s.height() }},
	{"start", false, func(ch *chain) []string { return []string{"GET blocks/tip/height"} }, nil,
		func(s *server) (v verdict) { v = s.height(); v.value = "up"; return }},
}

func (s *server) height() (v verdict) {
	a := s.get("GET blocks/tip/height")
	n, err := strconv.Atoi(a.body)
	if a.bad() || err != nil {
		v.mustFail = true
	}
	v.mayFail = n < 0
	v.value = fmt.Sprint(n)
	return
}

// history reads the answer with the transactions of an address.
func (s *server) history(addr string) (v verdict) {
	a := s.get("GET address/" + addr + "/txs")
	if a.bad() {
		v.mustFail = true
		return
	}
	var es []interface{}
	d := json.NewDecoder(strings.NewReader(a.body))
	d.UseNumber()
	if d.Decode(&es) != nil {
		v.mustFail = true
		return
	}
	if rest, _ := io.ReadAll(d.Buffered()); len(bytes.TrimSpace(rest)) > 0 {
		v.mustFail = true
		return
	}
	var l []string
	weird := es == nil
	for _, e := range es {
		m, ok := e.(map[string]interface{})
		if !ok {
			if e != nil {
				v.mustFail = true
			}
			weird = true
			continue
		}
		num := func(x interface{}, field string) int64 {
			k, _ := x.(map[string]interface{})
			n, ok := k[field].(json.Number)
			if !ok {
				weird = true
				return 0
			}
			i, err := n.Int64()
			if err != nil || i < 0 {
				weird = true
			}
			return i
		}
		str := func(x interface{}, field string) string {
			k, _ := x.(map[string]interface{})
			r, ok := k[field].(string)
			if !ok {
				weird = true
			}
			return r
		}
		raw := func(h string) []byte {
			b, err := hex.DecodeString(h)
			if err != nil {
				weird = true
			}
			return b
		}
		var parts []string
		ins, ok := m["vin"].([]interface{})
		weird = weird || !ok
		for _, i := range ins {
			k, _ := i.(map[string]interface{})
			if w, is := k["witness"].([]interface{}); !is {
				weird = true
			} else {
				for _, x := range w {
					if _, is := x.(string); !is {
						weird = true
					}
				}
			}
			if _, is := k["is_pegin"].(bool); !is {
				weird = true
			}
			raw(str(i, "scriptsig"))
			parts = append(parts, fmt.Sprintf("in %x:%d seq %d", elementsutil.ReverseBytes(raw(str(i, "txid"))), num(i, "vout"), num(i, "sequence")))
		}
		outs, ok := m["vout"].([]interface{})
		weird = weird || !ok
		for _, o := range outs {
			k, _ := o.(map[string]interface{})
			var as, val []byte
			if x, is := k["asset"]; is {
				b := raw(str(o, "asset"))
				if x == nil || len(b) != 32 {
					weird = true
				}
				as = append([]byte{1}, elementsutil.ReverseBytes(b)...)
			} else {
				as = raw(str(o, "assetcommitment"))
			}
			if x, is := k["value"]; is {
				if x == nil {
					weird = true
				}
				val = txs.Value(uint64(num(o, "value")))
			} else {
				val = raw(str(o, "valuecommitment"))
			}
			parts = append(parts, fmt.Sprintf("out %x %x %x", as, val, raw(str(o, "scriptpubkey"))))
			// a field of the other kind that is there although it should not be
			if _, is := k["value"]; is != (k["asset"] != nil) {
				weird = true
			}
			for _, f := range []string{"assetcommitment", "valuecommitment"} {
				if _, is := k[f]; is && k["asset"] != nil {
					weird = true
				}
			}
		}
		st, ok := m["status"].(map[string]interface{})
		b, ok2 := st["confirmed"].(bool)
		weird = weird || !ok || !ok2
		l = append(l, fmt.Sprintf("%s v%d l%d s%d w%d %v\n%s", str(e, "txid"), num(e, "version"), num(e, "locktime"), num(e, "size"), num(e, "weight"), b, strings.Join(parts, "\n")))
	}
	if weird {
		// an odd answer: an error, or at least none of the transactions dropped
		v.mayFail = true
		v.value = fmt.Sprintf("#%d", len(es))
		return
	}
	v.value = join(l)
	return
}

// ---- goroutines left behind ----

var seen = map[string]bool{}

func leaked() string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	out := ""
	for _, g := range strings.Split(string(buf), "\n\n") {
		id := strings.SplitN(g, " [", 2)[0]
		if seen[id] || !strings.Contains(g, "/pkg/explorer") && !strings.Contains(g, "/pkg/transactionutil") {
			continue
		}
		seen[id] = true
		out = g
	}
	return out
}

type pair struct {
	k   call
	pop string
}

func scenario(name string, pairs []pair, thorough bool) *explore.Scenario {
	type st struct {
		s    *server
		got  string
		err  error
		name string
		took time.Duration
		k    call
	}
	return &explore.Scenario{
		Name: name, Bound: 1, ThoroughBound: 2, Quantum: time.Second, Ticks: 40,
		Setup: func(x *explore.Exec) {
			v := &st{s: &server{given: map[string]*answer{}, asked: map[string]int{}}}
			x.V["st"] = v
			leaked()
			http.DefaultTransport = v.s
			x.Thread("call", func() {
				pr := pairs[x.Pick("call and population", len(pairs))]
				k, ch := pr.k, chainOf(pr.pop)
				v.k, v.s.ch = k, ch
				var svc explorer.Service
				if k.run != nil {
					if svc, v.err = esplora.NewService("http://explorer", 5000); v.err != nil {
						return
					}
					v.s.given, v.s.asked = map[string]*answer{}, map[string]int{}
				}
				v.name = "population " + pr.pop + "; "
				for _, r := range k.reqs(ch) {
					fs := faultsOf(v.s, r, k.full || pr.pop == "conf" && k.name == "unspents of a" || pr.pop == "explicit" && thorough, thorough)
					n := x.Choose(r, len(fs)+1)
					if n == 0 {
						continue
					}
					a := v.s.honest(r)
					fs[n-1].do(v.s, a)
					v.s.given[r] = a
					v.name += r + ": " + fs[n-1].name + "; "
				}
				x.Log("faults: %s", v.name)
				t0 := time.Now()
				if k.run == nil {
					svc, v.err = esplora.NewService("http://explorer", 5000)
					if v.err == nil {
						v.got = "up"
					}
				} else {
					v.got, v.err = k.run(svc, ch)
				}
				v.took = time.Since(t0)
			})
		},
		Final: func(x *explore.Exec) {
			v := x.V["st"].(*st)
			k, what := v.k, v.name
			want := k.want(v.s)
			answers := func() string {
				var l []string
				for key, a := range v.s.given {
					b := a.body
					if len(b) > 300 {
						b = b[:300] + "..."
					}
					l = append(l, fmt.Sprintf("%s -> %d %q err=%v hang=%d cut=%v", key, a.status, b, a.err, a.hang, a.cut))
				}
				return join(l)
			}
			switch {
			case v.err != nil && !want.mustFail && !want.mayFail:
				x.Fail("refused", "%s (%s): fails with %q although the answers are good\n%s", k.name, what, v.err, answers())
			case v.err == nil && want.mustFail:
				x.Fail("accepted", "%s (%s): no error; returned\n%s\nanswers\n%s", k.name, what, v.got, answers())
			case v.err == nil && strings.HasPrefix(want.value, "#"):
			case v.err == nil && v.got != want.value:
				x.Fail("wrong", "%s (%s): returned\n%s\nbut the answers say\n%s\nanswers\n%s", k.name, what, v.got, want.value, answers())
			}
			if v.took > 20*time.Second {
				x.Fail("slow", "%s (%s): took %s", k.name, what, v.took)
			}
			if k.name == "broadcast" {
				if v.s.asked["POST tx"] != 1 {
					x.Fail("broadcast-again", "%s: the transaction was sent %d times", what, v.s.asked["POST tx"])
				}
				if v.s.sent != "0123abcd" {
					x.Fail("broadcast-other", "%s: sent %q", what, v.s.sent)
				}
			}
			x.Settle()
			if g := leaked(); g != "" {
				x.Fail("goroutine-left", "%s (%s): a goroutine is left behind\n%s", k.name, what, g)
			}
			o := "error"
			if v.err == nil {
				o = fmt.Sprintf("ok %d", len(v.got))
			}
			x.Count("requests answered", len(v.s.asked))
			x.Outcome("%s %s", k.name, o)
		},
	}
}

func main() {
	var scs []*explore.Scenario
	thorough := hx.New("C27", "model_checking").Thorough()
	pops := []string{}
	for p := range populations {
		pops = append(pops, p)
	}
	sort.Strings(pops)
	groups := map[string][]pair{}
	for _, k := range calls {
		for _, p := range pops {
			g := "coins"
			switch k.name {
			case "transaction", "hex", "confirmed", "status", "broadcast", "height", "start":
				g = "transactions"
				if p != "conf" && p != "explicit" && p != "none" {
					continue
				}
			case "transactions of a":
				g = "history"
			}
			if (k.name == "broadcast" || k.name == "height" || k.name == "start") && p != "none" {
				continue
			}
			groups[g] = append(groups[g], pair{k, p})
		}
	}
	for _, g := range []string{"coins", "transactions", "history"} {
		scs = append(scs, scenario(g, groups[g], thorough))
	}
	scs[0].Weight = 4
	explore.Main(func() *hx.Check {
		c := hx.New("C27", "model_checking")
		return c
	}, scs, func(c *hx.Check) {
		c.Info("rule", "one fault of every kind at every request of every call, for every population (pairs of faults in the thorough tier)")
		c.Assume("the explorer is played by the transport of the HTTP client; the client and everything above it are the real code")
		c.Finish()
	})
}
