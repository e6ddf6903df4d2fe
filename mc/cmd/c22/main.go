// C22: webhooks. Every history, up to a depth, of subscriptions, removals,
// events, restarts, locking and failures of the store and of the endpoints, on
// the real service against a reference registry; and every interleaving, up to
// a number of delays, of concurrent subscriptions, removals and events.
//
//mc:instr internal/infrastructure/pubsub/webhook=LGS pkg/circuitbreaker=L internal/core/application=LGS internal/core/domain=M pkg/wallet=M pkg/securestore/bolt=LK internal/infrastructure/storage/db/inmemory=L
package main

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/dgrijalva/jwt-go"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	webhookpubsub "github.com/tdex-network/tdex-daemon/internal/infrastructure/pubsub/webhook"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
	"github.com/tdex-network/tdex-daemon/verif/explore"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/tdex-network/tdex-daemon/verif/vsync"
)

// store is a secure store that can fail.
type store struct {
	mu      sync.Mutex
	locked  bool
	pwd     string
	b       map[string]map[string][]byte
	failing map[string]int // how many calls of this kind succeed before one fails
	fired   bool
}

var errStore = errors.New("the store fails")

func newStore() *store { return &store{locked: true, b: map[string]map[string][]byte{}} }

func (s *store) call(what string) error {
	vsync.Point("X:store " + what)
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.locked {
		return errors.New("locked")
	}
	if n, ok := s.failing[what]; ok {
		s.failing[what] = n - 1
		if n == 0 {
			delete(s.failing, what)
			s.fired = true
			return errStore
		}
	}
	return nil
}

func (s *store) Lock()                                { s.mu.Lock(); s.locked = true; s.mu.Unlock() }
func (s *store) Close() error                         { return nil }
func (s *store) IsLocked() bool                       { s.mu.Lock(); defer s.mu.Unlock(); return s.locked }
func (s *store) ChangePassword(oldPw, n []byte) error { return nil }
func (s *store) CreateUnlock(p *[]byte) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.pwd != "" && s.pwd != string(*p) {
		return errors.New("bad password")
	}
	s.pwd, s.locked = string(*p), false
	return nil
}
func (s *store) CreateBucket(k []byte) error {
	if err := s.call("create"); err != nil {
		return err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.b[string(k)] == nil {
		s.b[string(k)] = map[string][]byte{}
	}
	return nil
}
func (s *store) AddToBucket(b, k, v []byte) error {
	if err := s.call("add"); err != nil {
		return err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.b[string(b)] == nil {
		return errors.New("no bucket")
	}
	if len(k) == 0 || len(v) == 0 {
		return errors.New("missing data")
	}
	s.b[string(b)][string(k)] = append([]byte{}, v...)
	return nil
}
func (s *store) GetFromBucket(b, k []byte) ([]byte, error) {
	if err := s.call("get"); err != nil {
		return nil, err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	v, ok := s.b[string(b)][string(k)]
	if !ok {
		return nil, nil
	}
	return append([]byte{}, v...), nil
}
func (s *store) GetAllFromBucket(b []byte) (map[string][]byte, error) {
	if err := s.call("get"); err != nil {
		return nil, err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	out := map[string][]byte{}
	for k, v := range s.b[string(b)] {
		out[k] = append([]byte{}, v...)
	}
	return out, nil
}
func (s *store) ListBuckets() ([][]byte, error) { return nil, s.call("get") }
func (s *store) RemoveFromBucket(b, k []byte) error {
	if err := s.call("remove"); err != nil {
		return err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	delete(s.b[string(b)], string(k))
	return nil
}
func (s *store) RemoveBucket(b []byte) error { return s.call("remove") }

// web plays all the endpoints.
type web struct {
	mu   sync.Mutex
	mode map[string]string // by endpoint: "" is good
	got  []string
}

func (w *web) RoundTrip(r *http.Request) (*http.Response, error) {
	url := r.URL.String()
	vsync.Point("X:request " + url)
	body := ""
	if r.Body != nil {
		b, _ := io.ReadAll(r.Body)
		r.Body.Close()
		body = string(b)
	}
	w.mu.Lock()
	w.got = append(w.got, strings.Join([]string{r.Method, url, who(r.Header.Get("Authorization")), r.Header.Get("Content-Type"), body}, " "))
	m := w.mode[url]
	w.mu.Unlock()
	code := 200
	switch m {
	case "error":
		return nil, errors.New("connection refused")
	case "500":
		code = 500
	case "hang":
		<-r.Context().Done()
		return nil, r.Context().Err()
	}
	return &http.Response{StatusCode: code, Header: http.Header{}, Body: io.NopCloser(strings.NewReader("%s%!ok")), Request: r}, nil
}

var secrets = []string{"first secret", "another"}

// who tells which secret signed the token.
func who(h string) string {
	if h == "" {
		return "open"
	}
	if !strings.HasPrefix(h, "Bearer ") {
		return "bad"
	}
	for i, s := range secrets {
		t, err := jwt.Parse(h[7:], func(t *jwt.Token) (interface{}, error) {
			if t.Method != jwt.SigningMethodHS256 {
				return nil, errors.New("method")
			}
			return []byte(s), nil
		})
		if err == nil && t.Valid {
			return fmt.Sprint("secret", i)
		}
	}
	return "bad"
}

type hook struct {
	id, topic, url, secret string
}

// call is the request it must receive.
func (h hook) call(msg string) string {
	return strings.Join([]string{"POST", h.url, h.sec(), "application/json", msg}, " ")
}

func (h hook) sec() string {
	for i, s := range secrets {
		if h.secret == s {
			return fmt.Sprint("secret", i)
		}
	}
	return "open"
}

var topics = []string{"TRADE_SETTLED", "ACCOUNT_LOW_BALANCE", "ACCOUNT_WITHDRAW", "*"}

type env struct {
	x     *explore.Exec
	st    *store
	web   *web
	svc   ports.SecurePubSub
	ref   []hook // added and not removed
	all   []hook // ever added
	n     int
	tired map[string]bool // endpoints that failed much
}

const pass = "pass"

func newEnv(x *explore.Exec) *env {
	e := &env{x: x, st: newStore(), web: &web{mode: map[string]string{}}, tired: map[string]bool{}}
	e.start()
	if err := e.svc.Store().Init(pass); err != nil {
		panic(err)
	}
	if err := e.svc.Store().Unlock(pass); err != nil {
		panic(err)
	}
	return e
}

func (e *env) start() {
	c := esplora.NewHTTPClient(5 * time.Second)
	c.Transport = e.web
	svc, err := webhookpubsub.NewWebhookPubSubService(e.st, c)
	if err != nil {
		panic(err)
	}
	e.svc = svc
}

func (e *env) subscribe(topic, url, secret string) (hook, error) {
	id, err := e.svc.Subscribe(topic, url, secret)
	return hook{id, topic, url, secret}, err
}

func (e *env) forget(id string) {
	for i, h := range e.ref {
		if h.id == id {
			e.ref = append(append([]hook{}, e.ref[:i]...), e.ref[i+1:]...)
			return
		}
	}
}

// listed compares the registry.
func (e *env) listed() {
	for _, t := range topics {
		var want, got []string
		for _, h := range e.ref {
			if h.topic == t || h.topic == "*" && t != "*" {
				want = append(want, fmt.Sprint(h.id, h.url, h.topic, h.secret != ""))
			}
		}
		for _, s := range e.svc.ListSubscriptionsForTopic(t) {
			got = append(got, fmt.Sprint(s.Id(), s.NotifyAt(), s.Topic().Label(), s.IsSecured()))
		}
		sort.Strings(want)
		sort.Strings(got)
		if fmt.Sprint(want) != fmt.Sprint(got) {
			e.x.Fail("listed", "%s: listed %v, not %v", t, got, want)
		}
	}
}

func (e *env) publish(topic string) {
	e.n++
	msg := fmt.Sprintf(`{"n":%d,"text":"%%d ÿ"}`, e.n)
	e.web.mu.Lock()
	e.web.got = nil
	e.web.mu.Unlock()
	err := e.svc.Publish(topic, msg)
	e.web.mu.Lock()
	got := append([]string{}, e.web.got...)
	e.web.mu.Unlock()
	var want []string
	allGood := true
	left := map[string]int{}
	for _, g := range got {
		left[g]++
	}
	for _, h := range e.ref {
		if h.topic != topic && (h.topic != "*" || topic == "*") {
			continue
		}
		c := h.call(msg)
		if m := e.web.mode[h.url]; m != "" {
			allGood = false
		}
		left[c]--
		if e.tired[h.url] && left[c] < 0 {
			// it may be spared, for a while
			allGood = false
			continue
		}
		want = append(want, c)
	}
	sort.Strings(want)
	sort.Strings(got)
	if fmt.Sprint(want) != fmt.Sprint(got) {
		e.x.Fail("called", "%s: called %q, not %q", topic, got, want)
	}
	if allGood && err != nil {
		e.x.Fail("publish", "%s: %v though every endpoint answered", topic, err)
	}
}

var urls = []string{"http://a.example/x?y=1", "https://b.example:8080/", "http://c.example/hook"}

func ops() []string {
	out := []string{
		"sub TRADE_SETTLED 0 -", "sub TRADE_SETTLED 1 0", "sub ACCOUNT_LOW_BALANCE 0 1", "sub * 2 0", "sub ACCOUNT_WITHDRAW 0 -",
		"bad topic", "bad endpoint", "bad arguments", "unsub unknown", "pub unknown",
		"restart", "lock", "again after a minute",
	}
	for i := 0; i < 3; i++ {
		out = append(out, fmt.Sprint("unsub ", i), fmt.Sprint("fault unsub ", i, " get 0"), fmt.Sprint("fault unsub ", i, " get 1"), fmt.Sprint("fault unsub ", i, " remove 0"), fmt.Sprint("fault unsub ", i, " remove 1"), fmt.Sprint("fault unsub ", i, " add 0"))
	}
	for _, f := range []string{"add 0", "add 1", "get 0", "get 1"} {
		out = append(out, "fault sub TRADE_SETTLED 1 - "+f)
	}
	for _, t := range topics {
		out = append(out, "pub "+t)
	}
	out = append(out, "many TRADE_SETTLED", "endpoint 0 500", "endpoint 0 error", "endpoint 1 hang", "endpoint 2 error", "endpoint 2 good", "endpoint 0 good")
	return out
}

func (e *env) do(op string) bool {
	f := strings.Fields(op)
	fault := f[0] == "fault"
	if fault {
		f = f[1:]
		n := int(f[len(f)-1][0] - '0')
		e.st.failing = map[string]int{f[len(f)-2]: n}
		e.st.fired = false
	}
	defer func() { e.st.failing = nil }()
	sec := func(s string) string {
		if s == "-" {
			return ""
		}
		return secrets[s[0]-'0']
	}
	switch f[0] {
	case "sub":
		if len(e.all) >= 4 {
			return false
		}
		h, err := e.subscribe(f[1], urls[f[2][0]-'0'], sec(f[3]))
		if fault && !e.st.fired {
			return false
		}
		if (err != nil) != fault {
			// with a failure of the store that does not matter it may be added
			if err == nil && h.id != "" && fault {
				e.all, e.ref = append(e.all, h), append(e.ref, h)
				return true
			}
			e.x.Fail("subscribe", "%s: %v", op, err)
		}
		if err == nil {
			for _, o := range e.all {
				if o.id == h.id {
					e.x.Fail("id", "%s: the id was given before", op)
				}
			}
			e.all, e.ref = append(e.all, h), append(e.ref, h)
		}
	case "bad":
		var errs []error
		try := func(topic string, args ...interface{}) {
			id, err := e.svc.Subscribe(topic, args...)
			if err == nil {
				errs = append(errs, fmt.Errorf("%q accepted for %s %v", id, topic, args))
			}
		}
		switch f[1] {
		case "topic":
			try("NOTHING", urls[0], "")
			try("", urls[0], "")
			try("UNKNOWN", urls[0], "")
		case "endpoint":
			try(topics[0], "", "")
			try(topics[0], "no url", "x")
			try(topics[0], "://", "x")
		default:
			try(topics[0])
			try(topics[0], urls[0])
			try(topics[0], 1, "x")
			try(topics[0], urls[0], 2)
			try(topics[0], urls[0], "a", "b")
		}
		if errs != nil {
			e.x.Fail("accepted", "%v", errs)
		}
	case "unsub":
		id := "0e0e0e0e-0000-0000-0000-000000000000"
		if f[1] != "unknown" {
			i := int(f[1][0] - '0')
			if i >= len(e.all) {
				return false
			}
			id = e.all[i].id
		}
		err := e.svc.Unsubscribe("", id)
		if fault && !e.st.fired {
			return false
		}
		if fault && err != nil {
			// it can be repeated
			e.st.failing = nil
			if err := e.svc.Unsubscribe("", id); err != nil {
				e.x.Fail("unsubscribe", "%s: repeated: %v", op, err)
			}
		} else if err != nil {
			e.x.Fail("unsubscribe", "%s: %v", op, err)
		}
		e.forget(id)
	case "pub":
		if f[1] == "unknown" {
			for _, t := range []string{"NOTHING", "", "UNKNOWN"} {
				if err := e.svc.Publish(t, "x"); err == nil {
					e.x.Fail("publish", "an event of kind %q was published", t)
				}
			}
			return true
		}
		e.publish(f[1])
	case "many":
		bad := false
		for _, h := range e.ref {
			if m := e.web.mode[h.url]; (h.topic == f[1] || h.topic == "*") && m != "" {
				bad = true
			}
		}
		if !bad {
			return false
		}
		for i := 0; i < 12; i++ {
			e.publish(f[1])
			if i == 3 {
				// from here on, those that always failed may be spared
				for _, h := range e.ref {
					if m := e.web.mode[h.url]; (h.topic == f[1] || h.topic == "*") && m != "" {
						e.tired[h.url] = true
					}
				}
			}
		}
	case "again":
		e.x.Sleep(61 * time.Second)
		// a healthy endpoint that was spared gets its chance
		for u := range e.tired {
			if e.web.mode[u] != "" {
				return true
			}
		}
		e.tired = map[string]bool{}
		for _, t := range topics {
			e.publish(t)
		}
	case "endpoint":
		u := urls[f[1][0]-'0']
		m := f[2]
		if m == "good" {
			m = ""
		}
		if e.web.mode[u] == m {
			return false
		}
		e.web.mode[u] = m
	case "restart":
		e.st.Lock()
		e.start()
		if err := e.svc.Store().Unlock(pass); err != nil {
			panic(err)
		}
		e.tired = map[string]bool{}
	case "lock":
		e.svc.Store().Lock()
		if !e.svc.Store().IsLocked() {
			e.x.Fail("lock", "not locked")
		}
		if id, err := e.svc.Subscribe(topics[0], urls[0], ""); err == nil {
			e.x.Fail("locked", "hook %s added to a locked store", id)
		}
		for _, h := range e.ref {
			if err := e.svc.Unsubscribe("", h.id); err == nil {
				e.x.Fail("locked", "hook removed from a locked store")
			}
		}
		if err := e.svc.Store().Unlock(pass); err != nil {
			panic(err)
		}
	}
	return true
}

func (e *env) digest() string {
	var in []string
	for _, h := range e.ref {
		in = append(in, fmt.Sprint(h.topic, h.url, h.sec()))
	}
	for i, h := range e.all {
		gone := true
		for _, r := range e.ref {
			gone = gone && r.id != h.id
		}
		in = append(in, fmt.Sprint(i, gone))
	}
	for u := range e.tired {
		in = append(in, "tired "+u)
	}
	for u, m := range e.web.mode {
		in = append(in, u+m)
	}
	sort.Strings(in[len(e.ref)+len(e.all):])
	return strings.Join(in, " ")
}

func histories() *explore.Scenario {
	all := ops()
	return &explore.Scenario{Name: "histories", Ops: all, Bound: 4, ThoroughBound: 6, Weight: 2, Hist: func(x *explore.Exec, path []int) {
		e := newEnv(x)
		for k, p := range path {
			x.Log("%s", all[p])
			if !e.do(all[p]) {
				if k != len(path)-1 {
					panic("not repeatable: " + all[p])
				}
				x.Disabled()
				return
			}
		}
		e.listed()
		x.State(e.digest())
		for _, t := range topics {
			e.publish(t)
		}
		e.listed()
		x.Outcome("%d hooks, %d tired", len(e.ref), len(e.tired))
	}}
}

type act struct {
	verb  string // sub, unsub, pub
	topic string
	url   int
	i     int // of the hooks there are
}

func (a act) String() string {
	switch a.verb {
	case "sub":
		return fmt.Sprintf("sub %s %d", a.topic, a.url)
	case "unsub":
		return fmt.Sprintf("unsub %d", a.i)
	}
	return "pub " + a.topic
}

// race: before there are hooks of the topic on endpoints 0, 1, and one of all.
func race(acts ...[]act) *explore.Scenario {
	names := []string{}
	for _, as := range acts {
		names = append(names, strings.Trim(fmt.Sprint(as), "[]"))
	}
	return &explore.Scenario{Name: strings.Join(names, " || "), Bound: 2, ThoroughBound: 3, Delay: true, Quantum: time.Second, Ticks: 8,
		Sched: vsync.Config{Points: []string{"S:internal/infrastructure/pubsub/webhook", "L:*", "X:*"}},
		Setup: func(x *explore.Exec) {
			e := newEnv(x)
			for _, a := range []act{{"sub", topics[0], 0, 0}, {"sub", topics[0], 1, 0}, {"sub", "*", 2, 0}} {
				h, err := e.subscribe(a.topic, urls[a.url], "")
				if err != nil {
					panic(err)
				}
				e.all, e.ref = append(e.all, h), append(e.ref, h)
			}
			x.V["e"] = e
			x.Settle()
			var mu sync.Mutex
			for i, as := range acts {
				as := as
				x.Thread(fmt.Sprint(i), func() {
					for _, a := range as {
						switch a.verb {
						case "sub":
							h, err := e.subscribe(a.topic, fmt.Sprintf("http://new%d.example/", a.url), "")
							if err != nil {
								x.Fail("subscribe", "%v", err)
							}
							mu.Lock()
							e.ref = append(e.ref, h)
							mu.Unlock()
						case "unsub":
							if err := e.svc.Unsubscribe("", e.all[a.i].id); err != nil {
								x.Fail("unsubscribe", "%v", err)
							}
							mu.Lock()
							e.forget(e.all[a.i].id)
							mu.Unlock()
						case "pub":
							if err := e.svc.Publish(a.topic, "m"); err != nil {
								x.Fail("publish", "%v", err)
							}
						}
					}
				})
			}
		},
		Final: func(x *explore.Exec) {
			e := x.V["e"].(*env)
			e.listed()
			// every event called those there all the time once, others at most
			// once
			pubs := 0
			removed := map[string]bool{}
			for _, as := range acts {
				for _, a := range as {
					if a.verb == "pub" {
						pubs++
					}
					if a.verb == "unsub" {
						removed[urls[a.i]] = true
					}
				}
			}
			if pubs > 0 {
				n := map[string]int{}
				e.web.mu.Lock()
				for _, g := range e.web.got {
					n[strings.Fields(g)[1]]++
				}
				e.web.mu.Unlock()
				for u, k := range n {
					if k > pubs {
						x.Fail("called", "%s called %d times for %d events", u, k, pubs)
					}
				}
				for _, u := range urls {
					if !removed[u] && n[u] != pubs {
						x.Fail("called", "%s called %d times for %d events", u, n[u], pubs)
					}
				}
				x.Outcome("%v", n)
			}
			x.Outcome("%d hooks", len(e.ref))
			e.web.got = nil
			for _, t := range topics {
				e.publish(t)
			}
		}}
}

func main() {
	sub := func(t string, u int) []act { return []act{{"sub", t, u, 0}} }
	un := func(i int) []act { return []act{{"unsub", "", 0, i}} }
	pub := func(t string) []act { return []act{{"pub", t, 0, 0}} }
	T, L := topics[0], topics[1]
	scs := []*explore.Scenario{histories(),
		race(sub(T, 0), sub(T, 1)), race(sub(T, 0), sub("*", 1)), race(sub(L, 0), sub(L, 1)),
		race(sub(T, 0), un(0)), race(un(0), un(1)), race(un(0), un(0)), race(un(1), un(1)), race(un(0), un(2)), race(un(2), un(2)),
		race(pub(T), sub(T, 0)), race(pub(T), un(0)), race(pub(T), pub(T)), race(pub(T), un(2)),
		race(append(sub(T, 0), un(0)...), append(sub(T, 1), un(1)...)),
		race(sub(T, 0), sub(T, 1), un(0)), race(un(0), un(1), pub(T)), race(un(0), un(0), sub(T, 0)),
	}
	// the workers share a directory
	root := os.Getenv("C22_ROOT")
	if root == "" {
		var err error
		if root, err = os.MkdirTemp("/dev/shm", "c22-"); err != nil {
			root = hx.Tmp("c22")
		}
		os.Setenv("C22_ROOT", root)
	}
	scs = append(scs, lifeRaces()...)
	explore.Main(func() *hx.Check { return hx.New("C22", "model_checking") }, scs, func(c *hx.Check) {
		os.RemoveAll(root)
		c.Count("traces_validated_against_impl", c.Get("executions"))
		c.Count("transitions", c.Get("choice_points"))
		c.Count("states", c.Get("distinct_states"))
		c.Finish()
	})
}
