// C08: swap messages. Every small transaction against every small request for
// the validation; every combination of psets, keys and fields for the messages,
// judged by what the transactions really contain.
//
//mc:instr pkg/transactionutil=U
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"os"
	"strings"
	"sync"

	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/pkg/swap"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/tdex-network/tdex-daemon/verif/txs"
	pb "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
	"google.golang.org/protobuf/proto"
)

var c *hx.Check

var P, R, X = txs.Asset(0), txs.Asset(1), txs.Asset(2)

const aP, aR = 100, 50

// piece is an input or an output of a transaction.
type piece struct {
	asset string
	v     uint64
	conf  bool
	key   string // "", "missing", "wrong", "false" (is of another asset than it says)
}

func (p piece) String() string {
	n := map[string]string{P: "P", R: "R", X: "X"}[p.asset]
	s := fmt.Sprintf("%d%s", p.v, n)
	if p.conf {
		s += "c"
	}
	return s + strings.TrimSuffix(":"+p.key, ":")
}

func name(kind string, i int) string { return fmt.Sprintf("%s %d", kind, i) }

func (p piece) out(kind string, i int) *transaction.TxOutput {
	if p.conf && p.key == "false" {
		return txs.False(p.asset, X, p.v, txs.Script(name(kind, i)), txs.Blind(name(kind, i)))
	}
	if p.conf {
		return txs.Conf(p.asset, p.v, txs.Script(name(kind, i)), txs.Blind(name(kind, i)))
	}
	return txs.Out(p.asset, p.v, txs.Script(name(kind, i)))
}

func keys(kind string, ps []piece) map[string][]byte {
	m := map[string][]byte{}
	for i, p := range ps {
		switch p.key {
		case "missing":
		case "wrong":
			m[txs.ScriptHex(name(kind, i))] = txs.Blind("somebody else")
		default:
			m[txs.ScriptHex(name(kind, i))] = txs.Blind(name(kind, i))
		}
	}
	return m
}

func assemble(ins, outs []piece) *pset.Pset {
	ti := []txs.In{}
	for i, p := range ins {
		ti = append(ti, txs.In{Hash: byte(i + 1), Index: uint32(i), Prev: p.out("in", i)})
	}
	to := []*transaction.TxOutput{}
	for i, p := range outs {
		to = append(to, p.out("out", i))
	}
	return txs.Pset(ti, append(to, txs.Fee(X, 1)))
}

// is tells the asset that it commits to.
func (p piece) is() string {
	if p.key == "false" {
		return X
	}
	return p.asset
}

func sum(ps []piece, asset string) (n uint64) {
	for _, p := range ps {
		if p.is() == asset {
			n += p.v
		}
	}
	return
}

func has(ps []piece, asset string, v uint64) bool {
	for _, p := range ps {
		if p.is() == asset && p.v == v {
			return true
		}
	}
	return false
}

func opaque(ps []piece) bool {
	for _, p := range ps {
		if p.conf && p.key != "" {
			return true
		}
	}
	return false
}

func validate(ins, outs []piece) {
	b64 := txs.B64(assemble(ins, outs))
	var err error
	if p, st := hx.Catch(func() {
		err = swap.ValidateCompletePset(swap.ValidateCompletePsetOpts{PsetBase64: b64, InputBlindingKeys: keys("in", ins), OutputBlindingKeys: keys("out", outs),
			SwapRequest: &pb.SwapRequest{Id: "r", AssetP: P, AmountP: aP, AssetR: R, AmountR: aR}})
	}); p != nil {
		c.Fail("validate-panic", fmt.Sprintf("inputs %v outputs %v: %v %s", ins, outs, p, st), nil)
		return
	}
	c.Count("evaluations", 1)
	good := sum(ins, P) >= aP && sum(ins, R) >= aR && has(outs, P, aP) && has(outs, R, aR)
	if good {
		c.Count("distinct_nontrivial", 1)
	}
	if err == nil && !good {
		c.Fail("validate-accepts", fmt.Sprintf("%d P for %d R: inputs %v outputs %v were found to match", aP, aR, ins, outs), nil)
	}
	if err != nil && good && !opaque(ins) && !opaque(outs) {
		c.Fail("validate-refuses", fmt.Sprintf("%d P for %d R: inputs %v outputs %v: %v", aP, aR, ins, outs, err), nil)
	}
	c.Outcome(fmt.Sprint(good, err))
}

func combos(alpha []piece, max int, f func([]piece)) {
	var rec func(ps []piece)
	rec = func(ps []piece) {
		f(ps)
		if len(ps) < max {
			for _, a := range alpha {
				rec(append(append([]piece{}, ps...), a))
			}
		}
	}
	rec(nil)
}

func validation() {
	pIns := []piece{{P, 99, false, ""}, {P, 100, false, ""}, {P, 101, true, ""}, {P, 60, false, ""}, {P, 40, true, ""}, {P, 100, true, "missing"}, {P, 100, true, "wrong"}, {P, 100, true, "false"}, {X, 500, false, ""}}
	rIns := []piece{{R, 49, false, ""}, {R, 50, true, ""}, {R, 30, false, ""}, {R, 20, true, ""}, {R, 50, true, "missing"}, {R, 50, true, "false"}, {X, 500, true, ""}}
	goodIns := [][]piece{{{P, 100, false, ""}, {R, 50, false, ""}}, {{R, 60, true, ""}, {P, 130, true, ""}}}
	goodOuts := [][]piece{{{R, 50, false, ""}, {P, 100, false, ""}}, {{P, 100, true, ""}, {R, 50, true, ""}, {P, 1, true, ""}}}
	outs := []piece{{P, 100, false, ""}, {P, 100, true, ""}, {P, 99, false, ""}, {P, 101, true, ""}, {R, 50, false, ""}, {R, 50, true, ""}, {R, 49, true, ""}, {R, 51, false, ""}, {X, 100, false, ""}, {X, 50, true, ""}, {R, 50, true, "missing"}, {P, 100, true, "wrong"}, {P, 50, false, ""}, {R, 100, false, ""}, {P, 100, true, "false"}, {R, 50, true, "false"}}
	var lists [][2][]piece
	nIn, nOut := 3, 3
	if !c.Thorough() {
		nOut = 2
	}
	combos(append(pIns, rIns...), nIn, func(ps []piece) {
		if len(ps) > 2 && !c.Thorough() && (ps[0].asset == X || ps[1].asset == X) {
			return
		}
		lists = append(lists, [2][]piece{ps, goodOuts[len(ps)%2]})
	})
	combos(outs, nOut, func(ps []piece) {
		for _, in := range goodIns {
			lists = append(lists, [2][]piece{in, ps})
		}
	})
	combos([]piece{outs[0], outs[1], outs[4], outs[5], outs[10], outs[11], outs[14], outs[15]}, 3, func(ps []piece) {
		lists = append(lists, [2][]piece{goodIns[1], ps})
	})
	c.Par(len(lists), func(i int) { validate(lists[i][0], lists[i][1]) })
	c.Sample(fmt.Sprint(lists[len(lists)/2]))
	c.Count("transactions", len(lists))
}

// ---- messages

// shape is how an input states what it spends.
var shapes = []string{"witness", "legacy", "legacy-beyond", "none"}

// requestTx makes a pset with inputs of the shapes and n outputs.
func requestTx(ins []string, n int) (*pset.Pset, []string, []string, bool) {
	ti, is, ok := []txs.In{}, []string{}, true
	for i, s := range ins {
		sc := name("in", i)
		is = append(is, txs.ScriptHex(sc))
		in := txs.In{Hash: byte(i + 1), Index: uint32(i)}
		prev := transaction.NewTx(2)
		prev.AddInput(transaction.NewTxInput(bytes.Repeat([]byte{9}, 32), uint32(i)))
		for k := 0; k <= i; k++ {
			prev.AddOutput(txs.Out(P, uint64(100+k), txs.Script(sc)))
		}
		switch s {
		case "witness":
			in.Prev = txs.Out(P, 100, txs.Script(sc))
		case "legacy":
			in.Non = prev
		case "legacy-beyond":
			in.Non = prev
			in.Index = uint32(i + 1)
			ok = false
		case "none":
			ok = false
		}
		ti = append(ti, in)
	}
	to, os := []*transaction.TxOutput{}, []string{}
	for i := 0; i < n; i++ {
		to = append(to, txs.Out(R, 50, txs.Script(name("out", i))))
		os = append(os, txs.ScriptHex(name("out", i)))
	}
	to = append(to, txs.Fee(X, 1))
	return txs.Pset(ti, to), is, os, ok
}

// keySets: none, all, all and more, every one left out, empty.
func keySets(scripts []string, tag byte) []map[string][]byte {
	all := func(skip int) map[string][]byte {
		m := map[string][]byte{}
		for i, s := range scripts {
			if i != skip {
				m[s] = bytes.Repeat([]byte{tag + byte(i)}, 32)
			}
		}
		return m
	}
	out := []map[string][]byte{nil, all(-1)}
	more := all(-1)
	more["00"] = []byte{1}
	out = append(out, more)
	for i := range scripts {
		out = append(out, all(i))
	}
	return append(out, map[string][]byte{})
}

func covers(m map[string][]byte, scripts []string) bool {
	if m == nil {
		return true
	}
	for _, s := range scripts {
		if _, ok := m[s]; !ok {
			return false
		}
	}
	return true
}

func sameKeys(a, b map[string][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || !bytes.Equal(v, w) {
			return false
		}
	}
	return true
}

var (
	idMu sync.Mutex
	ids  = map[string]bool{}
)

// fresh checks a generated identifier.
func fresh(id string) {
	idMu.Lock()
	defer idMu.Unlock()
	if len(id) < 8 || ids[id] {
		c.Fail("id", fmt.Sprintf("the identifier %q is too short or not new", id), id)
	}
	ids[id] = true
}

func requests() {
	var cases [][]string
	var rec func(s []string)
	rec = func(s []string) {
		if len(s) > 0 {
			cases = append(cases, s)
		}
		if len(s) < 3 {
			for _, k := range shapes {
				rec(append(append([]string{}, s...), k))
			}
		}
	}
	rec(nil)
	parser := domain.SwapParserManager
	c.Par(len(cases), func(i int) {
		for n := 0; n <= 2; n++ {
			p, is, os, ok := requestTx(cases[i], n)
			b64 := txs.B64(p)
			for _, ik := range keySets(is, 1) {
				for _, ok2 := range keySets(os, 0x51) {
					want := ok && covers(ik, is) && covers(ok2, os)
					what := fmt.Sprintf("inputs %v, %d outputs, keys for %d and %d", cases[i], n, len(ik), len(ok2))
					var msg []byte
					var err error
					if pn, st := hx.Catch(func() {
						msg, err = swap.Request(swap.RequestOpts{Id: "the id", AssetToSend: P, AmountToSend: 100, AssetToReceive: R, AmountToReceive: 50, PsetBase64: b64, InputBlindingKeys: ik, OutputBlindingKeys: ok2})
					}); pn != nil {
						c.Fail("request-panic", fmt.Sprintf("%s: %v %s", what, pn, st), cases[i])
						return
					}
					c.Count("evaluations", 1)
					if (err == nil) != want {
						c.Fail("request", fmt.Sprintf("request with %s: %v", what, err), cases[i])
						continue
					}
					if err == nil {
						c.Count("distinct_nontrivial", 1)
						checkRequest(msg, "the id", P, 100, R, 50, b64, ik, ok2, parser)
					}
					// the answer is subject to the same conditions
					var id string
					pn, st := hx.Catch(func() {
						id, msg, err = swap.Accept(swap.AcceptOpts{Message: requestMsg("req 7"), PsetBase64: b64, InputBlindingKeys: ik, OutputBlindingKeys: ok2})
					})
					if pn != nil {
						c.Fail("accept-panic", fmt.Sprintf("%s: %v %s", what, pn, st), cases[i])
						return
					}
					c.Count("evaluations", 1)
					if (err == nil) != want {
						c.Fail("accept", fmt.Sprintf("accept with %s: %v", what, err), cases[i])
					} else if err == nil {
						checkAccept(id, msg, "req 7", b64, ik, ok2)
					}
				}
			}
		}
	})
	// all values of the other fields
	p, is, os, _ := requestTx([]string{"witness"}, 1)
	b64 := txs.B64(p)
	ik, okk := keySets(is, 1)[1], keySets(os, 0x51)[1]
	amounts := []uint64{0, 1, 127, 128, 1 << 32, 1<<63 - 1, 1 << 63, ^uint64(0)}
	texts := []string{"", "x", "identifier", "ünïcode", strings.Repeat("long", 5000)}
	for _, id := range texts {
		for _, a := range []string{"", P, "not an asset"} {
			for _, b := range []string{"", R} {
				for _, x := range amounts {
					for _, y := range amounts {
						msg, err := swap.Request(swap.RequestOpts{Id: id, AssetToSend: a, AmountToSend: x, AssetToReceive: b, AmountToReceive: y, PsetBase64: b64, InputBlindingKeys: ik, OutputBlindingKeys: okk})
						c.Count("evaluations", 1)
						if err != nil {
							c.Fail("request-fields", fmt.Sprintf("%q %q %d %q %d: %v", id, a, x, b, y, err), nil)
							continue
						}
						checkRequest(msg, id, a, x, b, y, b64, ik, okk, parser)
					}
				}
			}
		}
	}
	// what is no pset
	for i := 0; i < len(b64); i++ {
		for _, s := range []string{b64[:i], b64[i+1:], b64[:i] + "*" + b64[i+1:]} {
			var e1, e2, e3 error
			pn, st := hx.Catch(func() {
				_, e1 = swap.Request(swap.RequestOpts{PsetBase64: s})
				_, _, e2 = swap.Accept(swap.AcceptOpts{Message: requestMsg("r"), PsetBase64: s})
				e3 = swap.ValidateCompletePset(swap.ValidateCompletePsetOpts{PsetBase64: s, SwapRequest: &pb.SwapRequest{}})
			})
			c.Count("evaluations", 3)
			if pn != nil {
				c.Fail("garbage-panic", fmt.Sprintf("pset cut or spoilt at %d: %v %s", i, pn, st), s)
			}
			if e1 == nil || e2 == nil || e3 == nil {
				c.Fail("garbage", fmt.Sprintf("a pset cut or spoilt at %d was taken: %v %v %v", i, e1, e2, e3), s)
			}
		}
	}
	// what is no request
	good := requestMsg("r")
	for i := 1; i < len(good); i++ {
		_, _, err := swap.Accept(swap.AcceptOpts{Message: good[:i], PsetBase64: b64})
		c.Count("evaluations", 1)
		if e := proto.Unmarshal(good[:i], &pb.SwapRequest{}); (e == nil) != (err == nil) {
			c.Fail("accept-garbage", fmt.Sprintf("accepting a request cut at %d: %v", i, err), i)
		}
	}
	// validation of inputs that do not say what they spend
	for _, s := range cases {
		p, _, _, _ := requestTx(s, 1)
		b64 := txs.B64(p)
		if pn, st := hx.Catch(func() {
			swap.ValidateCompletePset(swap.ValidateCompletePsetOpts{PsetBase64: b64, SwapRequest: &pb.SwapRequest{AssetP: P, AmountP: 1, AssetR: R, AmountR: 1}})
		}); pn != nil {
			c.Fail("validate-panic", fmt.Sprintf("inputs %v: %v %s", s, pn, st), s)
		}
		c.Count("evaluations", 1)
	}
}

func requestMsg(id string) []byte {
	b, err := proto.Marshal(&pb.SwapRequest{Id: id, AssetP: P, AmountP: aP, AssetR: R, AmountR: aR})
	if err != nil {
		panic(err)
	}
	return b
}

func checkRequest(msg []byte, id, a string, x uint64, b string, y uint64, tx string, ik, okk map[string][]byte, parser domain.SwapParser) {
	r, err := parser.DeserializeRequest(msg)
	if err != nil {
		c.Fail("request-reads", err.Error(), nil)
		return
	}
	if id == "" {
		fresh(r.GetId())
	} else if r.GetId() != id {
		c.Fail("request-id", fmt.Sprintf("id %q became %q", id, r.GetId()), id)
	}
	if r.GetAssetP() != a || r.GetAmountP() != x || r.GetAssetR() != b || r.GetAmountR() != y {
		c.Fail("request-terms", fmt.Sprintf("%d %q for %d %q became %d %q for %d %q", x, a, y, b, r.GetAmountP(), r.GetAssetP(), r.GetAmountR(), r.GetAssetR()), nil)
	}
	if r.GetTransaction() != tx {
		c.Fail("request-tx", "the transaction changed", nil)
	}
	if !sameKeys(r.GetInputBlindingKey(), ik) {
		c.Fail("request-inkeys", fmt.Sprintf("the blinding keys of the inputs changed: %d became %d", len(ik), len(r.GetInputBlindingKey())), nil)
	}
	switch {
	case sameKeys(r.GetOutputBlindingKey(), okk):
	case sameKeys(r.GetOutputBlindingKey(), ik):
		c.Fail("request-outkeys-are-inkeys", "the blinding keys of the outputs were replaced by those of the inputs", nil)
	default:
		c.Fail("request-outkeys", fmt.Sprintf("the blinding keys of the outputs changed: %d became %d", len(okk), len(r.GetOutputBlindingKey())), nil)
	}
}

func checkAccept(id string, msg []byte, req, tx string, ik, okk map[string][]byte) {
	a, err := domain.SwapParserManager.DeserializeAccept(msg)
	if err != nil {
		c.Fail("accept-reads", err.Error(), nil)
		return
	}
	fresh(id)
	if a.GetId() != id || a.GetRequestId() != req || a.GetTransaction() != tx {
		c.Fail("accept-fields", fmt.Sprintf("accept %q of %q reads %q of %q", id, req, a.GetId(), a.GetRequestId()), nil)
	}
	if !sameKeys(a.GetInputBlindingKey(), ik) || !sameKeys(a.GetOutputBlindingKey(), okk) {
		c.Fail("accept-keys", "the blinding keys changed", nil)
	}
}

// ---- completion

func completions() {
	ins := []piece{{P, 120, true, ""}, {R, 60, false, ""}, {X, 5, true, ""}}
	outs := []piece{{R, 50, true, ""}, {P, 100, false, ""}, {R, 10, false, ""}, {P, 20, true, ""}}
	accepted := assemble(ins, outs)
	acc := txs.B64(accepted)
	accID, accMsg, err := swap.Accept(swap.AcceptOpts{Message: requestMsg("r9"), PsetBase64: acc})
	if err != nil {
		c.Fail("accept", err.Error(), nil)
		return
	}
	type cand struct {
		what string
		tx   string
		ok   bool // must be taken
	}
	var cs []cand
	add := func(what string, tx string, ok bool) { cs = append(cs, cand{what, tx, ok}) }
	sign := func(p *pset.Pset, set int) *pset.Pset {
		for i := range p.Inputs {
			if set>>i&1 == 1 {
				txs.Sign(p, i, name("in", i))
			}
		}
		return p
	}
	for set := 0; set < 8; set++ {
		add(fmt.Sprintf("inputs %03b signed", set), txs.B64(sign(txs.Parse(acc), set)), set == 7)
	}
	full := sign(txs.Parse(acc), 7)
	add("final transaction", txs.Hex(txs.Final(full)), true)
	add("final transaction in capitals", strings.ToUpper(txs.Hex(txs.Final(full))), true)
	// one signature spoilt
	for i := 0; i < 3; i++ {
		q := txs.Parse(txs.B64(full))
		sg := q.Inputs[i].PartialSigs[0].Signature
		sg[len(sg)-5] ^= 1
		add(fmt.Sprintf("signature %d spoilt", i), txs.B64(q), false)
		q = txs.Parse(txs.B64(full))
		q.Inputs[i].PartialSigs[0], q.Inputs[(i+1)%3].PartialSigs[0] = q.Inputs[(i+1)%3].PartialSigs[0], q.Inputs[i].PartialSigs[0]
		add(fmt.Sprintf("signatures %d and %d swapped", i, (i+1)%3), txs.B64(q), false)
	}
	// another transaction, completely signed
	other := func(what string, f func(ins *[]piece, outs *[]piece)) {
		i2, o2 := append([]piece{}, ins...), append([]piece{}, outs...)
		f(&i2, &o2)
		p := assemble(i2, o2)
		q := sign(txs.Parse(txs.B64(p)), 1<<len(i2)-1)
		add(what+" (pset)", txs.B64(q), false)
		add(what+" (final)", txs.Hex(txs.Final(q)), false)
	}
	other("only the trader's input and output", func(i, o *[]piece) { *i = (*i)[:1]; *o = (*o)[:1] })
	other("an output left out", func(i, o *[]piece) { *o = (*o)[:3] })
	other("an output more", func(i, o *[]piece) { *o = append(*o, piece{P, 1, false, ""}) })
	other("an input left out", func(i, o *[]piece) { *i = (*i)[:2] })
	for k := range outs {
		other(fmt.Sprintf("output %d worth more", k), func(i, o *[]piece) { (*o)[k].v++ })
		other(fmt.Sprintf("output %d of another asset", k), func(i, o *[]piece) { (*o)[k].asset = X })
		other(fmt.Sprintf("outputs %d and %d swapped", k, (k+1)%4), func(i, o *[]piece) { (*o)[k], (*o)[(k+1)%4] = (*o)[(k+1)%4], (*o)[k] })
	}
	alter := func(what string, f func(p *pset.Pset)) {
		q := txs.Parse(acc)
		f(q)
		q = sign(txs.Parse(txs.B64(q)), 7)
		add(what+" (pset)", txs.B64(q), false)
		add(what+" (final)", txs.Hex(txs.Final(q)), false)
	}
	alter("another script", func(p *pset.Pset) { p.UnsignedTx.Outputs[1].Script = txs.Script("thief") })
	alter("another outpoint", func(p *pset.Pset) { p.UnsignedTx.Inputs[1].Index = 7 })
	alter("another transaction spent", func(p *pset.Pset) { p.UnsignedTx.Inputs[1].Hash[3] ^= 1 })
	alter("another sequence", func(p *pset.Pset) { p.UnsignedTx.Inputs[0].Sequence = 5 })
	alter("another lock time", func(p *pset.Pset) { p.UnsignedTx.Locktime = 77 })
	alter("another version", func(p *pset.Pset) { p.UnsignedTx.Version = 1 })
	for _, s := range []string{"", "00", "zz", "not base64 !", hex.EncodeToString([]byte("hello")), acc[:len(acc)/2], txs.Hex(txs.Final(full))[:200]} {
		add(fmt.Sprintf("garbage %.12q", s), s, false)
	}
	for _, cd := range cs {
		var id string
		var msg []byte
		var err error
		if pn, st := hx.Catch(func() { id, msg, err = swap.Complete(swap.CompleteOpts{Message: accMsg, Transaction: cd.tx}) }); pn != nil {
			c.Fail("complete-panic", fmt.Sprintf("%s: %v %s", cd.what, pn, st), cd.what)
			continue
		}
		c.Count("evaluations", 1)
		c.Count("distinct_nontrivial", 1)
		if (err == nil) != cd.ok {
			c.Fail("complete-"+strings.Map(func(r rune) rune {
				if r >= '0' && r <= '9' {
					return '#'
				}
				return r
			}, strings.SplitN(cd.what, " (", 2)[0]), fmt.Sprintf("completing with %s: %v", cd.what, err), cd.what)
			continue
		}
		if err == nil {
			m, e := domain.SwapParserManager.DeserializeComplete(msg)
			if e != nil || m.GetId() != id || m.GetAcceptId() != accID || m.GetTransaction() != cd.tx {
				c.Fail("complete-fields", fmt.Sprintf("completing with %s: %v", cd.what, e), cd.what)
			}
			fresh(id)
		}
		// the whole life of a trade with the real messages
		life(acc, cd.what, cd.tx, cd.ok)
	}
	for i := 1; i < len(accMsg); i += 7 {
		_, _, err := swap.Complete(swap.CompleteOpts{Message: accMsg[:i], Transaction: cs[7].tx})
		c.Count("evaluations", 1)
		if err == nil {
			c.Fail("complete-garbage", fmt.Sprintf("an accept message cut at %d was completed", i), i)
		}
	}
}

// life drives a trade from proposal to completion.
func life(acc, what, tx string, ok bool) {
	t := domain.NewTrade()
	req := &pb.SwapRequest{Id: "req", AssetP: P, AmountP: aP, AssetR: R, AmountR: aR, Transaction: acc}
	if done, err := t.Propose(req, R, 25, 0, 0, []byte("trader")); err != nil || !done {
		c.Fail("life-propose", fmt.Sprint(done, err), nil)
		return
	}
	if done, err := t.Accept(acc, nil, nil, 100); err != nil || !done {
		c.Fail("life-accept", fmt.Sprint(done, err), nil)
		return
	}
	accID := t.SwapAccept.ID
	res, err := t.Complete(tx)
	c.Count("evaluations", 1)
	if err != nil {
		c.Fail("life-complete", err.Error(), what)
		return
	}
	if res.OK != ok {
		c.Fail("life-complete", fmt.Sprintf("completing a trade with %s: %v", what, res.OK), what)
		return
	}
	if ok {
		f, e := transaction.NewTxFromHex(t.TxHex)
		if e != nil || f.TxHash().String() != t.TxID || res.TxHex != t.TxHex || res.TxID != t.TxID {
			c.Fail("life-txid", fmt.Sprintf("a trade completed with %s has id %s and another transaction (%v)", what, t.TxID, e), what)
		}
		return
	}
	fm := t.SwapFailMessage()
	if fm == nil || fm.GetMessageId() != accID || fm.GetFailureCode() != uint32(swap.ErrCodeFailedToComplete) {
		c.Fail("life-fail", fmt.Sprintf("completing with %s failed with message %+v", what, fm), what)
	}
}

func fails() {
	for code := -1; code <= 4; code++ {
		for _, id := range []string{"", "m", strings.Repeat("i", 300)} {
			for _, text := range []string{"", "why", "ünï"} {
				fid, msg, err := swap.Fail(swap.FailOpts{MessageID: id, ErrCode: swap.ErrCode(code), ErrMessage: text})
				c.Count("evaluations", 1)
				if err != nil {
					c.Fail("fail", err.Error(), nil)
					continue
				}
				fresh(fid)
				f, err := domain.SwapParserManager.DeserializeFail(msg)
				if err != nil || f.GetId() != fid || f.GetMessageId() != id || f.GetFailureCode() != uint32(code) || !strings.Contains(f.GetFailureMessage(), text) {
					c.Fail("fail", fmt.Sprintf("failure %d of %q (%q) reads %+v, %v", code, id, text, f, err), nil)
				}
				did, dmsg := domain.SwapParserManager.SerializeFail(id, code, text)
				g, err := domain.SwapParserManager.DeserializeFail(dmsg)
				if err != nil || g.GetId() != did || g.GetMessageId() != id || g.GetFailureCode() != uint32(code) {
					c.Fail("fail", fmt.Sprintf("failure %d of %q reads %+v, %v", code, id, g, err), nil)
				}
			}
		}
	}
}

// refused proposals carry the code and the id of the request.
func refusals() {
	for _, shape := range []string{"none", "legacy-beyond"} {
		p, _, _, _ := requestTx([]string{shape}, 1)
		t := domain.NewTrade()
		var done bool
		var err error
		if pn, st := hx.Catch(func() {
			done, err = t.Propose(&pb.SwapRequest{Id: "bad", AssetP: P, AmountP: aP, AssetR: R, AmountR: aR, Transaction: txs.B64(p)}, R, 25, 0, 0, []byte("x"))
		}); pn != nil {
			c.Fail("propose-panic", fmt.Sprintf("a proposal with %s inputs: %v %s", shape, pn, st), shape)
			continue
		}
		c.Count("evaluations", 1)
		f := t.SwapFailMessage()
		if done || err != nil || f == nil || f.GetMessageId() != "bad" || f.GetFailureCode() != uint32(swap.ErrCodeInvalidSwapRequest) {
			c.Fail("propose-refusal", fmt.Sprintf("a proposal with %s inputs: %v %v %+v", shape, done, err, f), shape)
		}
	}
}

// corrupt feeds every message with one byte replaced: it must be refused or
// taken, never crash.
func corrupt() {
	ins := []piece{{P, 120, true, ""}, {R, 60, false, ""}}
	outs := []piece{{R, 50, true, ""}, {P, 100, false, ""}}
	p := assemble(ins, outs)
	acc := txs.B64(p)
	_, accMsg, err := swap.Accept(swap.AcceptOpts{Message: requestMsg("r9"), PsetBase64: acc})
	if err != nil {
		c.Fail("accept", err.Error(), nil)
		return
	}
	signed := txs.Parse(acc)
	for i := range signed.Inputs {
		txs.Sign(signed, i, name("in", i))
	}
	legacy, lin, lout, _ := requestTx([]string{"legacy", "both"}, 2)
	lk := map[string][]byte{}
	for _, x := range append(append([]string{}, lin...), lout...) {
		lk[x] = txs.Blind("any")
	}
	finalHex := txs.Hex(txs.Final(signed))
	var proofs [][]byte
	for _, o := range append(append([]*transaction.TxOutput{}, p.UnsignedTx.Outputs...), p.Inputs[0].WitnessUtxo) {
		proofs = append(proofs, o.RangeProof, o.SurjectionProof)
	}
	type target struct {
		what string
		raw  []byte
		f    func(raw []byte)
	}
	enc := base64.StdEncoding.EncodeToString
	validate := func(raw []byte, ik, okk map[string][]byte) {
		s := enc(raw)
		swap.Request(swap.RequestOpts{PsetBase64: s, InputBlindingKeys: ik, OutputBlindingKeys: okk})
		swap.ValidateCompletePset(swap.ValidateCompletePsetOpts{PsetBase64: s, InputBlindingKeys: ik, OutputBlindingKeys: okk,
			SwapRequest: &pb.SwapRequest{Id: "r", AssetP: P, AmountP: aP, AssetR: R, AmountR: aR}})
		t := domain.NewTrade()
		t.Propose(&pb.SwapRequest{Id: "bad", AssetP: P, AmountP: aP, AssetR: R, AmountR: aR, Transaction: s, InputBlindingKey: ik, OutputBlindingKey: okk}, R, 25, 0, 0, []byte("x"))
	}
	dec := func(p *pset.Pset) []byte { b, _ := base64.StdEncoding.DecodeString(txs.B64(p)); return b }
	ts := []target{
		{"proposal", dec(p), func(raw []byte) { validate(raw, keys("in", ins), keys("out", outs)) }},
		{"proposal that spends other kinds of outputs", dec(legacy), func(raw []byte) { validate(raw, lk, lk) }},
		{"signed transaction", dec(signed), func(raw []byte) {
			s := enc(raw)
			if _, _, err := swap.Complete(swap.CompleteOpts{Message: accMsg, Transaction: s}); err == nil {
				domain.PsetParserManager.GetTxHex(s)
				domain.PsetParserManager.GetTxID(s)
			}
		}},
		{"final transaction", func() []byte { b, _ := hex.DecodeString(finalHex); return b }(), func(raw []byte) {
			swap.Complete(swap.CompleteOpts{Message: accMsg, Transaction: hex.EncodeToString(raw)})
		}},
		{"accept message", accMsg, func(raw []byte) { swap.Complete(swap.CompleteOpts{Message: raw, Transaction: finalHex}) }},
		{"request message", requestMsg("r"), func(raw []byte) { swap.Accept(swap.AcceptOpts{Message: raw, PsetBase64: acc}) }},
	}
	type job struct {
		t   *target
		pos int
		cut bool
	}
	var jobs []job
	for i := range ts {
		t := &ts[i]
		dull := map[int]bool{}
		for _, pr := range proofs {
			for off := 0; len(pr) > 64; {
				k := bytes.Index(t.raw[off:], pr)
				if k < 0 {
					break
				}
				for j := 12; j < len(pr)-12; j++ {
					dull[off+k+j] = true
				}
				off += k + len(pr)
			}
		}
		if t.what == "accept message" {
			for j := 300; j < len(t.raw)-300; j++ {
				dull[j] = true
			}
		}
		for j := range t.raw {
			if !dull[j] {
				jobs = append(jobs, job{t, j, false})
			}
			if !dull[j] || j%16 == 0 {
				jobs = append(jobs, job{t, j, true})
			}
		}
	}
	c.Par(len(jobs), func(i int) {
		j := jobs[i]
		var raws [][]byte
		if j.cut {
			raws = [][]byte{j.t.raw[:j.pos]}
		} else {
			for _, v := range []byte{0, 1, 2, 0x20, 0xfc, 0xfd, j.t.raw[j.pos] ^ 1, j.t.raw[j.pos] + 1} {
				b := append([]byte{}, j.t.raw...)
				b[j.pos] = v
				raws = append(raws, b)
			}
		}
		for k, raw := range raws {
			c.Count("evaluations", 1)
			if pn, st := hx.Catch(func() { j.t.f(raw) }); pn != nil {
				c.Fail("corrupt-"+strings.ReplaceAll(j.t.what, " ", "-"), fmt.Sprintf("byte %d (cut %v, variant %d) of the %s: %v %s", j.pos, j.cut, k, j.t.what, pn, st), j.pos)
			}
		}
	})
	// blinding keys that are none
	for _, k := range [][]byte{nil, {}, {1}, bytes.Repeat([]byte{0}, 32), bytes.Repeat([]byte{0xff}, 32), bytes.Repeat([]byte{1}, 31), bytes.Repeat([]byte{1}, 33), bytes.Repeat([]byte{1}, 5000)} {
		ik, okk := keys("in", ins), keys("out", outs)
		for n := range ik {
			ik[n] = k
			for m := range okk {
				c.Count("evaluations", 1)
				if pn, st := hx.Catch(func() { validate(dec(p), ik, okk) }); pn != nil {
					c.Fail("corrupt-key", fmt.Sprintf("blinding key %x: %v %s", k, pn, st), nil)
				}
				okk[m] = k
			}
		}
	}
	// confidential outputs with a field left out or replaced
	odd := [][]byte{nil, {}, {0}, {1}, bytes.Repeat([]byte{8}, 33), bytes.Repeat([]byte{2}, 33), bytes.Repeat([]byte{1}, 9), bytes.Repeat([]byte{0xff}, 60)}
	for f := 0; f < 5; f++ {
		for g := f; g < 5; g++ {
			for _, v := range odd {
				for _, w := range odd {
					for place := 0; place < 2; place++ {
						q := txs.Parse(acc)
						o := q.UnsignedTx.Outputs[0]
						if place == 1 {
							o = q.Inputs[0].WitnessUtxo
						}
						fs := []*[]byte{&o.Nonce, &o.Asset, &o.Value, &o.RangeProof, &o.SurjectionProof}
						*fs[f] = v
						*fs[g] = w
						var b []byte
						if pn, _ := hx.Catch(func() { b = dec(q) }); pn != nil {
							continue
						}
						c.Count("evaluations", 1)
						if pn, st := hx.Catch(func() { validate(b, keys("in", ins), keys("out", outs)) }); pn != nil {
							c.Fail("corrupt-output", fmt.Sprintf("an output (of the inputs: %d) with fields %d and %d replaced by %x and %x: %v %s", place, f, g, v, w, pn, st), nil)
						}
					}
				}
			}
		}
	}
}

func main() {
	c = hx.New("C08", "exploration")
	if os.Getenv("MC_SCENARIO") == "corrupt" {
		corrupt()
		c.Finish()
	}
	corrupt()
	validation()
	requests()
	completions()
	fails()
	refusals()
	c.Info("rule", "every list of up to 3 inputs over 14 kinds and of up to 2 (thorough 3) outputs over 14 kinds (assets, values at and around the amounts, explicit or really blinded, key given, missing or wrong); every list of up to 3 inputs that state what they spend or not, with every key set; every cut of the messages; every one-field change of the completing transaction and every subset of signatures")
	c.Assume("the signatures and blinding of the libraries are right")
	c.Finish()
}
