package world

import (
	"errors"
	"fmt"
	"strings"

	"github.com/tdex-network/tdex-daemon/internal/core/domain"
)

// Msg is a swap message in the plain encoding of Parser.
type Msg struct {
	Kind, ID, Ref, Tx, Text string
	Code                    int
}

func (m Msg) GetId() string             { return m.ID }
func (m Msg) GetRequestId() string      { return m.Ref }
func (m Msg) GetAcceptId() string       { return m.Ref }
func (m Msg) GetMessageId() string      { return m.Ref }
func (m Msg) GetTransaction() string    { return m.Tx }
func (m Msg) GetFailureCode() uint32    { return uint32(m.Code) }
func (m Msg) GetFailureMessage() string { return m.Text }
func (m Msg) GetInputBlindingKey() map[string][]byte {
	return nil
}
func (m Msg) GetOutputBlindingKey() map[string][]byte { return nil }

func (m Msg) bytes() []byte {
	return []byte(fmt.Sprintf("%s|%s|%s|%s|%s|%d", m.Kind, m.ID, m.Ref, m.Tx, m.Text, m.Code))
}

func parseMsg(kind string, b []byte) (Msg, error) {
	f := strings.Split(string(b), "|")
	if len(f) != 6 || f[0] != kind {
		return Msg{}, errors.New("malformed")
	}
	m := Msg{Kind: f[0], ID: f[1], Ref: f[2], Tx: f[3], Text: f[4]}
	fmt.Sscan(f[5], &m.Code)
	return m, nil
}

// Parser is a swap parser with plain predictable messages; an empty transaction is refused.
type Parser struct{}

func (Parser) SerializeRequest(r domain.SwapRequest) ([]byte, *domain.SwapError) {
	if r.GetTransaction() == "" {
		return nil, &domain.SwapError{Err: errors.New("invalid request"), Code: 1}
	}
	return []byte(fmt.Sprintf("req|%s|%s|%d|%s|%d|%s", r.GetId(), r.GetAssetP(), r.GetAmountP(), r.GetAssetR(), r.GetAmountR(), r.GetTransaction())), nil
}
func (Parser) DeserializeRequest(b []byte) (domain.SwapRequest, error) {
	f := strings.Split(string(b), "|")
	if len(f) != 7 || f[0] != "req" {
		return nil, errors.New("malformed")
	}
	r := Request{ID: f[1], AP: f[2], AR: f[4], Tx: f[6]}
	fmt.Sscan(f[3], &r.P)
	fmt.Sscan(f[5], &r.R)
	return r, nil
}
func (p Parser) SerializeAccept(a domain.AcceptArgs) (string, []byte, *domain.SwapError) {
	q, err := p.DeserializeRequest(a.RequestMessage)
	if err != nil || a.Transaction == "" {
		return "", nil, &domain.SwapError{Err: errors.New("invalid accept"), Code: 2}
	}
	m := Msg{Kind: "acc", ID: "acc-" + q.GetId(), Ref: q.GetId(), Tx: a.Transaction}
	return m.ID, m.bytes(), nil
}
func (Parser) SerializeComplete(acc []byte, tx string) (string, []byte, *domain.SwapError) {
	q, err := parseMsg("acc", acc)
	if err != nil || tx == "" {
		return "", nil, &domain.SwapError{Err: errors.New("invalid complete"), Code: 3}
	}
	m := Msg{Kind: "com", ID: "com-" + q.Ref, Ref: q.ID, Tx: tx}
	return m.ID, m.bytes(), nil
}
func (Parser) SerializeFail(id string, code int, text string) (string, []byte) {
	m := Msg{Kind: "fail", ID: fmt.Sprintf("fail-%s-%d", id, code), Ref: id, Text: text, Code: code}
	return m.ID, m.bytes()
}
func (Parser) DeserializeAccept(b []byte) (domain.SwapAccept, error) {
	m, err := parseMsg("acc", b)
	if err != nil {
		return nil, err
	}
	return m, nil
}
func (Parser) DeserializeComplete(b []byte) (domain.SwapComplete, error) {
	m, err := parseMsg("com", b)
	if err != nil {
		return nil, err
	}
	return m, nil
}
func (Parser) DeserializeFail(b []byte) (domain.SwapFail, error) {
	m, err := parseMsg("fail", b)
	if err != nil {
		return nil, err
	}
	return m, nil
}
