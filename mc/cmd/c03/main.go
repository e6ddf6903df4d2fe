// C03: every sequence of trade operations up to a depth, on the real Trade,
// each step judged by a reference model of the life cycle.
package main

import (
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"time"

	"github.com/google/uuid"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/verif/explore"
	"github.com/tdex-network/tdex-daemon/verif/hx"
)

// parser is a swap parser with predictable messages; an argument that contains
// "bad" is refused.
type parser struct{}

type swreq struct {
	id, ap, ar, tx string
	p, r           uint64
}

func (s swreq) GetId() string                           { return s.id }
func (s swreq) GetAssetP() string                       { return s.ap }
func (s swreq) GetAmountP() uint64                      { return s.p }
func (s swreq) GetAssetR() string                       { return s.ar }
func (s swreq) GetAmountR() uint64                      { return s.r }
func (s swreq) GetTransaction() string                  { return s.tx }
func (s swreq) GetInputBlindingKey() map[string][]byte  { return nil }
func (s swreq) GetOutputBlindingKey() map[string][]byte { return nil }

type msg struct {
	kind, id, ref, tx, text string
	code                    int
}

func (m msg) GetId() string             { return m.id }
func (m msg) GetRequestId() string      { return m.ref }
func (m msg) GetAcceptId() string       { return m.ref }
func (m msg) GetMessageId() string      { return m.ref }
func (m msg) GetTransaction() string    { return m.tx }
func (m msg) GetFailureCode() uint32    { return uint32(m.code) }
func (m msg) GetFailureMessage() string { return m.text }
func (m msg) GetInputBlindingKey() map[string][]byte {
	return nil
}
func (m msg) GetOutputBlindingKey() map[string][]byte { return nil }

func (m msg) bytes() []byte {
	return []byte(fmt.Sprintf("%s|%s|%s|%s|%s|%d", m.kind, m.id, m.ref, m.tx, m.text, m.code))
}
func parse(kind string, b []byte) (msg, error) {
	f := strings.Split(string(b), "|")
	if len(f) != 6 || f[0] != kind {
		return msg{}, errors.New("malformed")
	}
	m := msg{kind: f[0], id: f[1], ref: f[2], tx: f[3], text: f[4]}
	fmt.Sscan(f[5], &m.code)
	return m, nil
}

func (parser) SerializeRequest(r domain.SwapRequest) ([]byte, *domain.SwapError) {
	if strings.Contains(r.GetTransaction(), "bad") {
		return nil, &domain.SwapError{Err: errors.New("invalid request"), Code: 1}
	}
	return msg{kind: "req", id: r.GetId(), tx: r.GetTransaction()}.bytes(), nil
}
func (parser) SerializeAccept(a domain.AcceptArgs) (string, []byte, *domain.SwapError) {
	q, err := parse("req", a.RequestMessage)
	if err != nil || strings.Contains(a.Transaction, "bad") {
		return "", nil, &domain.SwapError{Err: errors.New("invalid accept"), Code: 2}
	}
	m := msg{kind: "acc", id: "acc-" + a.Transaction, ref: q.id, tx: a.Transaction}
	return m.id, m.bytes(), nil
}
func (parser) SerializeComplete(acc []byte, tx string) (string, []byte, *domain.SwapError) {
	q, err := parse("acc", acc)
	if err != nil || strings.Contains(tx, "bad") {
		return "", nil, &domain.SwapError{Err: errors.New("invalid complete"), Code: 3}
	}
	m := msg{kind: "com", id: "com-" + tx, ref: q.id, tx: tx}
	return m.id, m.bytes(), nil
}
func (parser) SerializeFail(id string, code int, text string) (string, []byte) {
	m := msg{kind: "fail", id: fmt.Sprintf("fail-%s-%d", id, code), ref: id, text: text, code: code}
	return m.id, m.bytes()
}
func (parser) DeserializeRequest(b []byte) (domain.SwapRequest, error) {
	m, err := parse("req", b)
	if err != nil {
		return nil, err
	}
	return swreq{id: m.id, tx: m.tx}, nil
}
func (parser) DeserializeAccept(b []byte) (domain.SwapAccept, error) {
	m, err := parse("acc", b)
	if err != nil {
		return nil, err
	}
	return m, nil
}
func (parser) DeserializeComplete(b []byte) (domain.SwapComplete, error) {
	m, err := parse("com", b)
	if err != nil {
		return nil, err
	}
	return m, nil
}
func (parser) DeserializeFail(b []byte) (domain.SwapFail, error) {
	m, err := parse("fail", b)
	if err != nil {
		return nil, err
	}
	return m, nil
}

type psets struct{}

func (psets) GetTxID(p string) (string, error)  { return "txid-" + p, nil }
func (psets) GetTxHex(p string) (string, error) { return hex.EncodeToString([]byte("hex" + p)), nil }

const (
	base  = "base"
	quote = "quote"
)

type op struct {
	name string
	kind string
	req  swreq
	tx   string
	exp  uint64
	t    uint64
	id   string
	code int
	d    uint64
}

func ops() []op {
	return []op{
		{name: "propose(r1)", kind: "propose", req: swreq{"r1", base, quote, "psetA", 30, 7000}},
		{name: "propose(r2)", kind: "propose", req: swreq{"r2", quote, base, "psetB", 1, 3}},
		{name: "propose(bad)", kind: "propose", req: swreq{"r3", base, quote, "bad", 2, 2}},
		{name: "accept(p1)", kind: "accept", tx: "accA", exp: 100},
		{name: "accept(p2)", kind: "accept", tx: "accB", exp: 200},
		{name: "accept(bad)", kind: "accept", tx: "bad", exp: 100},
		{name: "complete(pset)", kind: "complete", tx: "comPset"},
		{name: "complete(hex)", kind: "complete", tx: "c0ffee"},
		{name: "complete(bad)", kind: "complete", tx: "bad"},
		{name: "settle(5)", kind: "settle", t: 5},
		{name: "settle(9)", kind: "settle", t: 9},
		{name: "fail(x,4)", kind: "fail", id: "x", code: 4},
		{name: "fail(y,5)", kind: "fail", id: "y", code: 5},
		{name: "expire", kind: "expire"},
		{name: "tick(99)", kind: "tick", d: 99},
		{name: "tick(1)", kind: "tick", d: 1},
		{name: "tick(200)", kind: "tick", d: 200},
	}
}

func now() uint64 { return uint64(time.Now().Unix()) }

func clone(t *domain.Trade) *domain.Trade {
	c := *t
	cp := func(b []byte) []byte {
		if b == nil {
			return nil
		}
		return append([]byte{}, b...)
	}
	c.TraderPubkey = cp(t.TraderPubkey)
	for _, s := range []*domain.Swap{&c.SwapRequest, &c.SwapAccept, &c.SwapComplete, &c.SwapFail} {
		s.Message = cp(s.Message)
	}
	return &c
}

// shift lets d seconds pass by moving every recorded time back (time itself is frozen).
func shift(t *domain.Trade, d uint64) {
	for _, p := range []*uint64{&t.ExpiryTime, &t.SwapRequest.Timestamp, &t.SwapAccept.Timestamp, &t.SwapComplete.Timestamp} {
		if *p > 0 {
			*p -= d
		}
	}
}

func key(t *domain.Trade) string {
	return fmt.Sprintf("%v|%v|%v|%v|%v|%s|%s|%s|%v|%v|%v|%v|%v", t.Status, t.MarketQuoteAsset, t.MarketFee, t.MarketFixedBaseFee, t.MarketFixedQuoteFee,
		t.PsetBase64, t.TxID, t.TxHex, int64(t.ExpiryTime)-int64(now()), t.SettlementTime, t.SwapRequest, t.SwapAccept, t.SwapComplete) + fmt.Sprint(t.SwapFail)
}

func trunc8(a, b uint64) string {
	r := new(big.Int).Mul(new(big.Int).SetUint64(a), big.NewInt(100000000))
	r.Div(r, new(big.Int).SetUint64(b))
	return r.String()
}

// apply runs the operation on the real trade; ok/err as returned.
func apply(t *domain.Trade, o op) (ok bool, res *domain.CompleteResult, err error, pan string) {
	p, st := hx.Catch(func() {
		switch o.kind {
		case "propose":
			ok, err = t.Propose(o.req, quote, 25, 11, 13, []byte("pub"))
		case "accept":
			ok, err = t.Accept(o.tx, nil, nil, o.exp)
		case "complete":
			res, err = t.Complete(o.tx)
			ok = res != nil && res.OK
		case "settle":
			ok, err = t.Settle(o.t)
		case "fail":
			t.Fail(o.id, o.code, "why")
			ok = true
		case "expire":
			ok, err = t.Expire()
		case "tick":
			shift(t, o.d)
			ok = true
		}
	})
	if p != nil {
		pan = fmt.Sprintf("%v %s", p, st)
	}
	return
}

// judge compares the step with the reference life cycle; "" if legal.
func judge(b, a *domain.Trade, o op, ok bool, res *domain.CompleteResult, err error) string {
	same := func(ignore ...string) string {
		vb, va := reflect.ValueOf(*b), reflect.ValueOf(*a)
	f:
		for i := 0; i < vb.NumField(); i++ {
			n := vb.Type().Field(i).Name
			for _, g := range ignore {
				if g == n {
					continue f
				}
			}
			x, y := vb.Field(i).Interface(), va.Field(i).Interface()
			if fmt.Sprintf("%v", x) != fmt.Sprintf("%v", y) {
				return fmt.Sprintf("field %s changed from %v to %v", n, x, y)
			}
		}
		return ""
	}
	want := func(c bool, s string) string {
		if !c {
			return s
		}
		return ""
	}
	first := func(ss ...string) string {
		for _, s := range ss {
			if s != "" {
				return s
			}
		}
		return ""
	}
	code, failed := b.Status.Code, b.Status.Failed
	n := now()
	past := b.ExpiryTime > 0 && n >= b.ExpiryTime
	failMsg := func(ref string, c int) string {
		m, e := parse("fail", a.SwapFail.Message)
		return want(e == nil && m.ref == ref && m.code == c && m.id == a.SwapFail.ID, fmt.Sprintf("the failure is recorded as %+v, not for %s code %d", m, ref, c))
	}
	switch o.kind {
	case "propose":
		if code >= domain.Proposal {
			return first(want(ok && err == nil, "repeated proposal not reported as done"), same())
		}
		if strings.Contains(o.req.tx, "bad") {
			return first(want(!ok, "malformed proposal accepted"), want(a.Status == domain.ProposalRejectedStatus, fmt.Sprintf("status %v after a malformed proposal", a.Status)),
				failMsg(o.req.id, 1), same("Status", "SwapFail", "TraderPubkey", "MarketQuoteAsset", "SwapRequest", "PsetBase64", "MarketPrice", "MarketFee", "MarketFixedBaseFee", "MarketFixedQuoteFee"))
		}
		m, e := parse("req", a.SwapRequest.Message)
		pr, rp := trunc8(o.req.p, o.req.r), trunc8(o.req.r, o.req.p)
		wb, wq := pr, rp
		if o.req.ap == quote {
			wb, wq = rp, pr
		}
		return first(want(ok && err == nil, "valid proposal refused"), want(a.Status == domain.ProposalStatus, fmt.Sprintf("status %v after a proposal", a.Status)),
			want(e == nil && m.id == o.req.id && a.SwapRequest.ID == o.req.id && a.SwapRequest.Timestamp == n, "the proposal is not recorded as given"),
			want(a.PsetBase64 == o.req.tx && a.MarketQuoteAsset == quote && string(a.TraderPubkey) == "pub", "transaction, market or trader not recorded as given"),
			want(a.MarketFee == 25 && a.MarketFixedBaseFee == 11 && a.MarketFixedQuoteFee == 13, "market terms not recorded as given"),
			want(a.MarketPrice.BasePrice.Shift(8).String() == wb && a.MarketPrice.QuotePrice.Shift(8).String() == wq, fmt.Sprintf("recorded price %v", a.MarketPrice)),
			same("Status", "TraderPubkey", "MarketQuoteAsset", "SwapRequest", "PsetBase64", "MarketPrice", "MarketFee", "MarketFixedBaseFee", "MarketFixedQuoteFee"))
	case "accept":
		if code >= domain.Accepted {
			return first(want(ok && err == nil, "repeated acceptance not reported as done"), same())
		}
		if code != domain.Proposal || failed {
			return first(want(!ok && err != nil, "acceptance out of order not refused"), same())
		}
		if o.tx == "bad" {
			return first(want(!ok, "malformed acceptance accepted"), want(a.Status == domain.ProposalRejectedStatus, fmt.Sprintf("status %v after a malformed acceptance", a.Status)),
				failMsg(b.SwapRequest.ID, 2), same("Status", "SwapFail"))
		}
		m, e := parse("acc", a.SwapAccept.Message)
		return first(want(ok && err == nil, "valid acceptance refused"), want(a.Status == domain.AcceptedStatus, fmt.Sprintf("status %v after an acceptance", a.Status)),
			want(e == nil && m.ref == b.SwapRequest.ID && m.tx == o.tx && a.SwapAccept.ID == m.id && a.SwapAccept.Timestamp == n, "the acceptance is not recorded as given"),
			want(a.ExpiryTime == n+o.exp, fmt.Sprintf("expiry %d after %d+%d", a.ExpiryTime, n, o.exp)),
			want(a.PsetBase64 == o.tx && a.TxID == "txid-"+o.tx, "transaction of the acceptance not recorded"),
			same("Status", "SwapAccept", "ExpiryTime", "PsetBase64", "TxID"))
	case "complete":
		if code >= domain.Completed && !b.SwapComplete.IsZero() || code == domain.Settled {
			return first(want(ok && err == nil && res.TxHex == b.TxHex && res.TxID == b.TxID, "repeated completion not reported as done"), same())
		}
		if code != domain.Accepted {
			return first(want(!ok && err != nil, "completion out of order not refused"), same())
		}
		if past || failed {
			// marking the trade as failed is the one effect a late completion may have
			return first(want(!ok && err != nil, "completion of a failed or expired trade not refused"),
				want(a.Status == b.Status || past && a.Status == domain.FailedToCompleteStatus, fmt.Sprintf("status %v", a.Status)), same("Status"))
		}
		if o.tx == "bad" {
			return first(want(!ok, "malformed completion accepted"), want(a.Status == domain.FailedToCompleteStatus, fmt.Sprintf("status %v after a malformed completion", a.Status)),
				failMsg(b.SwapAccept.ID, 3), same("Status", "SwapFail"))
		}
		m, e := parse("com", a.SwapComplete.Message)
		wp, wh := b.PsetBase64, o.tx
		if o.tx == "comPset" {
			wp = o.tx
			wh, _ = psets{}.GetTxHex(o.tx)
		}
		return first(want(ok && err == nil && res.TxHex == wh && res.TxID == b.TxID, fmt.Sprintf("valid completion answered %+v %v", res, err)),
			want(a.Status == domain.CompletedStatus, fmt.Sprintf("status %v after a completion", a.Status)),
			want(e == nil && m.ref == b.SwapAccept.ID && m.tx == o.tx && a.SwapComplete.ID == m.id && a.SwapComplete.Timestamp == n, "the completion is not recorded as given"),
			want(a.TxHex == wh && a.PsetBase64 == wp, "transaction of the completion not recorded"),
			same("Status", "SwapComplete", "TxHex", "PsetBase64"))
	case "settle":
		if code == domain.Settled {
			return first(want(ok && err == nil, "repeated settlement not reported as done"), same())
		}
		if code < domain.Accepted {
			return first(want(!ok && err != nil, "settlement out of order not refused"), same())
		}
		// the chain has the last word: failed and expired trades whose transaction confirmed are settled
		return first(want(ok && err == nil, "settlement refused"), want(a.Status == domain.SettledStatus, fmt.Sprintf("status %v after a settlement", a.Status)),
			want(a.SettlementTime == o.t && a.ExpiryTime == 0, "settlement time not recorded"),
			same("Status", "SettlementTime", "ExpiryTime"))
	case "fail":
		if failed || code == domain.Settled {
			return same()
		}
		return first(want(a.Status == domain.Status{Code: code, Failed: true}, fmt.Sprintf("status %v after a failure", a.Status)),
			failMsg(o.id, o.code), same("Status", "SwapFail"))
	case "expire":
		if code == domain.Expired {
			return first(want(ok && err == nil, "repeated expiry not reported as done"), same())
		}
		if !past {
			return first(want(!ok && err != nil, "expiry before its time not refused"), same())
		}
		return first(want(ok && err == nil, "expiry refused"), want(a.Status == domain.ExpiredStatus, fmt.Sprintf("status %v after expiry", a.Status)), same("Status"))
	}
	return ""
}

// predicates checks what can be read from a trade in one state.
func predicates(t *domain.Trade) string {
	c, f := t.Status.Code, t.Status.Failed
	past := t.ExpiryTime > 0 && now() >= t.ExpiryTime
	for _, p := range []struct {
		n        string
		got, exp bool
	}{
		{"IsEmpty", t.IsEmpty(), c == domain.Empty && !f},
		{"IsProposal", t.IsProposal(), c == domain.Proposal},
		{"IsAccepted", t.IsAccepted(), c == domain.Accepted},
		{"IsCompleted", t.IsCompleted(), c == domain.Completed},
		{"IsSettled", t.IsSettled(), c == domain.Settled},
		{"IsRejected", t.IsRejected(), f},
		{"IsExpired", t.IsExpired(), c == domain.Expired || past},
	} {
		if p.got != p.exp {
			return fmt.Sprintf("%s is %v in status %v", p.n, p.got, t.Status)
		}
	}
	if m := t.SwapRequestMessage(); len(t.SwapRequest.Message) > 0 && (m == nil || m.GetId() != t.SwapRequest.ID) {
		return "the swap request cannot be read back"
	}
	if m := t.SwapAcceptMessage(); len(t.SwapAccept.Message) > 0 && (m == nil || m.GetId() != t.SwapAccept.ID) {
		return "the swap accept cannot be read back"
	}
	if c == domain.Completed {
		if m := t.SwapCompleteMessage(); m == nil || m.GetId() != t.SwapComplete.ID {
			return "the swap complete cannot be read back"
		}
	}
	if f && len(t.SwapFail.Message) > 0 {
		if m := t.SwapFailMessage(); m == nil || m.GetId() != t.SwapFail.ID {
			return "the swap failure cannot be read back"
		}
	}
	for _, id := range []string{t.SwapRequest.ID, t.SwapAccept.ID, t.SwapComplete.ID} {
		if id != "" && !t.ContainsSwap(id) {
			return "swap " + id + " is not recognised as part of the trade"
		}
	}
	if t.ContainsSwap("unknown") {
		return "an unknown swap is recognised as part of the trade"
	}
	return ""
}

func main() {
	explore.Bubble(func() {
		c := hx.New("C03", "model_checking")
		domain.SwapParserManager = parser{}
		domain.PsetParserManager = psets{}
		time.Sleep(time.Hour) // any fixed time
		depth := 8
		if c.Thorough() {
			depth = 14
		}
		all := ops()
		type node struct {
			t    *domain.Trade
			hist []string
		}
		start := domain.NewTrade()
		start.ID = uuid.UUID{1}
		seen := map[string]bool{key(start): true}
		frontier := []node{{start, nil}}
		c.Count("states", 1)
		if s := predicates(start); s != "" {
			c.Fail("predicates", s, "a new trade")
		}
		statuses := map[domain.Status]bool{}
		for d := 0; d < depth && len(frontier) > 0; d++ {
			next := []node{}
			for _, nd := range frontier {
				statuses[nd.t.Status] = true
				for _, o := range all {
					if o.kind == "fail" && nd.t.IsEmpty() {
						continue // nothing to fail yet
					}
					before := clone(nd.t)
					after := clone(nd.t)
					ok, res, err, pan := apply(after, o)
					hist := append(append([]string{}, nd.hist...), o.name)
					c.Count("transitions", 1)
					why := pan
					if why == "" {
						why = judge(before, after, o, ok, res, err)
					}
					if why == "" {
						why = predicates(after)
					}
					c.Outcome(fmt.Sprintf("%v --%s--> %v", before.Status, o.kind, after.Status))
					if why != "" {
						c.Fail(fmt.Sprintf("%v-%s", before.Status, o.name), fmt.Sprintf("%s: %s (%v -> %v)", strings.Join(hist, ", "), why, before.Status, after.Status), hist)
						continue
					}
					if k := key(after); !seen[k] {
						seen[k] = true
						c.Count("states", 1)
						next = append(next, node{after, hist})
					}
				}
			}
			c.Info("depth_completed", d+1)
			frontier = next
		}
		if len(frontier) > 0 {
			c.Info("open_states_at_bound", len(frontier))
		}
		c.Info("statuses_reached", len(statuses))
		c.Info("rule", "breadth-first over all sequences of 17 operations on the real Trade with a predictable swap parser; every step compared with the reference life cycle")
		c.Count("traces_validated_against_impl", c.Get("transitions"))
		c.Sample([]string{"propose(r1)", "accept(p1)", "tick(99)", "complete(hex)", "expire"})
		c.Assume("time is frozen within an operation; seconds pass between operations")
		c.Finish()
	})
}
