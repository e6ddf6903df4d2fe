package main

import (
	"context"
	"fmt"
	"os"
	"strings"
	"sync/atomic"
	"time"

	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	webhookpubsub "github.com/tdex-network/tdex-daemon/internal/infrastructure/pubsub/webhook"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
	boltsecurestore "github.com/tdex-network/tdex-daemon/pkg/securestore/bolt"
	"github.com/tdex-network/tdex-daemon/verif/explore"
	"github.com/tdex-network/tdex-daemon/verif/vsync"
	"github.com/tdex-network/tdex-daemon/verif/world"
)

// The real wallet, operator and webhook services over a real store: whenever
// the wallet is unlocked webhooks work.

var ctx = context.Background()

var passwords = map[string]string{"p": "the first password", "q": "a second, other password"}

type life struct {
	x    *explore.Exec
	w    *world.World
	web  *web
	dir  string
	refs map[string]string // id -> endpoint
	n    int
}

var dirs atomic.Int64

func newLife(x *explore.Exec) *life {
	l := &life{x: x, web: &web{mode: map[string]string{}}, refs: map[string]string{}}
	l.dir = fmt.Sprintf("%s/%d-%d", os.Getenv("C22_ROOT"), os.Getpid(), dirs.Add(1))
	if err := os.MkdirAll(l.dir, 0o755); err != nil {
		panic(err)
	}
	l.w = world.New(world.Opts{NoVault: true, WithOps: true, Hooks: func() ports.SecurePubSub {
		st, err := boltsecurestore.NewSecureStorage(l.dir, "pubsub.db")
		if err != nil {
			panic(err)
		}
		c := esplora.NewHTTPClient(5 * time.Second)
		c.Transport = l.web
		p, err := webhookpubsub.NewWebhookPubSubService(st, c)
		if err != nil {
			panic(err)
		}
		return p
	}})
	l.drain()
	return l
}

func (l *life) drain() {
	ch := l.w.Wallet.PassphraseChan()
	go func() {
		for range ch {
		}
	}()
}

func (l *life) down() {
	close(l.w.Wallet.PassphraseChan())
	l.w.Listener.StopObservation()
	l.w.Listener.PubSubService().Store().Close()
	l.w.Mnem.Unset()
}

func (l *life) restart() {
	l.down()
	l.w.Restart()
	l.drain()
}

func (l *life) drop() {
	l.down()
	l.w.Close()
	os.RemoveAll(l.dir)
}

func (l *life) init(p string) error {
	res, errs := make(chan *application.InitWalletReply, 10), make(chan error, 10)
	l.w.Wallet.InitWallet(ctx, world.Words, passwords[p], false, res, errs)
	return <-errs
}

// do runs one request.
func (l *life) do(o string) error {
	f := strings.Fields(o)
	switch f[0] {
	case "init":
		return l.init(f[1])
	case "unlock":
		return l.w.Wallet.UnlockWallet(ctx, passwords[f[1]])
	case "change":
		return l.w.Wallet.ChangePassword(ctx, passwords[f[1]], passwords[f[2]])
	case "add":
		l.n++
		url := fmt.Sprintf("http://%d.example/", l.n)
		id, err := l.w.Operator.AddWebhook(ctx, application.Webhook{ActionType: 0, Endpoint: url, Secret: secrets[0]})
		if err == nil {
			l.refs[id] = url
		}
		return err
	case "remove":
		for id := range l.refs {
			if err := l.w.Operator.RemoveWebhook(ctx, id); err != nil {
				return err
			}
			delete(l.refs, id)
			break
		}
		return nil
	}
	panic(o)
}

// works checks that every webhook is there, is called, and that one can be added.
func (l *life) works(when string) {
	for i := 0; i < 2; i++ {
		hooks, err := l.w.Operator.ListWebhooks(ctx, 0)
		if err != nil {
			l.x.Fail("webhook", "%s: can't list the webhooks though the wallet is unlocked: %v", when, err)
		}
		got := map[string]string{}
		for _, h := range hooks {
			got[h.Id] = h.Endpoint
		}
		if fmt.Sprint(got) != fmt.Sprint(l.refs) {
			l.x.Fail("webhook", "%s: webhooks %v, not %v", when, got, l.refs)
		}
		l.web.mu.Lock()
		l.web.got = nil
		l.web.mu.Unlock()
		ps := l.w.Listener.PubSubService()
		if err := ps.Publish(ps.TopicsByCode()[0].Label(), "{}"); err != nil {
			l.x.Fail("webhook", "%s: %v", when, err)
		}
		l.web.mu.Lock()
		n := len(l.web.got)
		for _, g := range l.web.got {
			if !strings.Contains(g, " secret0 ") {
				l.x.Fail("webhook", "%s: called %s", when, g)
			}
		}
		l.web.mu.Unlock()
		if n != len(l.refs) {
			l.x.Fail("webhook", "%s: %d endpoints of %d are called", when, n, len(l.refs))
		}
		if i == 0 {
			if err := l.do("add"); err != nil {
				l.x.Fail("webhook", "%s: can't add a webhook though the wallet is unlocked: %v", when, err)
			}
		}
	}
}

func lifecycle() *explore.Scenario {
	ops := strings.Split("init p,unlock p,unlock q,change p q,change q p,change p p,restart,add,remove", ",")
	return &explore.Scenario{Name: "daemon", Ops: ops, Bound: 6, ThoroughBound: 8, Weight: 2, Hist: func(x *explore.Exec, path []int) {
		l := newLife(x)
		defer l.drop()
		pwd, unlocked := "", false
		for k, p := range path {
			o := ops[p]
			f := strings.Fields(o)
			x.Log("%s", o)
			switch f[0] {
			case "restart":
				l.restart()
				unlocked = false
			case "add", "remove":
				if !unlocked || f[0] == "add" && len(l.refs) > 1 || f[0] == "remove" && len(l.refs) == 0 {
					x.Disabled()
					return
				}
				if err := l.do(o); err != nil {
					x.Fail("webhook", "%s: %v though the wallet is unlocked", o, err)
				}
			default:
				err := l.do(o)
				ok := false
				switch f[0] {
				case "init":
					ok = err == nil // what a second one answers is none of this property
					if pwd == "" {
						ok = true
						pwd = f[1]
					}
				case "unlock":
					ok = pwd != "" && (unlocked || f[1] == pwd)
					unlocked = ok && pwd != "" || unlocked
				case "change":
					ok = pwd == f[1] && !unlocked
					if ok {
						pwd = f[2]
					}
				}
				if (err == nil) != ok {
					x.Fail("result", "%s: %v", o, err)
				}
			}
			if k == len(path)-1 && unlocked {
				n := len(l.refs)
				l.works(o)
				x.State(fmt.Sprint(pwd, unlocked, n))
			} else if k == len(path)-1 {
				x.State(fmt.Sprint(pwd, unlocked, len(l.refs)))
			}
		}
		if len(path) == 0 {
			x.State("")
		}
		x.Outcome("password %v unlocked %v", pwd != "", unlocked)
	}}
}

// lifeRace runs requests of the wallet at once. Whatever comes of it, webhooks
// work when the wallet has been unlocked, now and after a restart.
func lifeRace(before string, threads ...string) *explore.Scenario {
	return &explore.Scenario{Name: "daemon " + before + " then " + strings.Join(threads, " || "), Bound: 2, ThoroughBound: 3, Delay: true, Quantum: time.Second, Ticks: 2,
		Sched: vsync.Config{Points: []string{"S:internal/core/application/wallet_service", "S:internal/infrastructure/pubsub/webhook/store", "L:*"}},
		Setup: func(x *explore.Exec) {
			l := newLife(x)
			x.V["l"] = l
			for _, o := range strings.Split(before, ",") {
				switch o {
				case "":
				case "restart":
					l.restart()
				default:
					if err := l.do(o); err != nil {
						panic(o + ": " + err.Error())
					}
				}
			}
			for _, t := range threads {
				t := t
				x.Thread(t, func() {
					for _, o := range strings.Split(t, ",") {
						l.do(o)
					}
				})
			}
		},
		Final: func(x *explore.Exec) {
			l := x.V["l"].(*life)
			defer l.drop()
			out := ""
			for i := 0; i < 2; i++ {
				var with []string
				for _, p := range []string{"p", "q"} {
					if l.do("unlock "+p) == nil {
						with = append(with, p)
						break
					}
				}
				if len(with) == 0 {
					x.Fail("password", "no password unlocks the wallet")
					return
				}
				out += with[0]
				l.works("then")
				l.restart()
			}
			x.Outcome("%s", out)
		}}
}

func lifeRaces() []*explore.Scenario {
	const set = "init p,unlock p,add,restart"
	return []*explore.Scenario{lifecycle(),
		lifeRace("", "init p", "unlock p"), lifeRace("", "init p", "init q"), lifeRace("", "init p", "unlock p", "change p q"),
		lifeRace(set, "unlock p", "unlock p"), lifeRace(set, "unlock p", "change p q"), lifeRace(set, "change p q", "change p q"), lifeRace(set, "change p q,unlock q", "unlock p"),
		lifeRace(set, "unlock p", "init q"),
	}
}
