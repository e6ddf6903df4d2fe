package main

import (
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"strings"
	"sync"

	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/tdex-network/tdex-daemon/verif/world"
	"github.com/vulpemventures/go-elements/network"
)

var store = &world.Store{}

// the reference remembers how many addresses of each branch were derived
type vaultState struct {
	in     bool
	acct   [2]bool
	n      [2][2]int
	phrase int
}

func (s *vaultState) Key() string  { return fmt.Sprintf("%+v", *s) }
func (s *vaultState) Clone() State { x := *s; return &x }

var vAcct = []int{0, 5}

// Info of every address, by path, derived once from an independent vault.
var (
	infoMu sync.Mutex
	infos  = map[string]domain.AddressInfo{}
)

func infoOf(a, ch, i int) domain.AddressInfo {
	infoMu.Lock()
	defer infoMu.Unlock()
	k := fmt.Sprintf("%d'/%d/%d", vAcct[a], ch, i)
	if x, ok := infos[k]; ok {
		return x
	}
	v, err := domain.NewVault(world.Words, world.Pass, world.Net)
	if err != nil {
		panic(err)
	}
	for j := 0; j < 6; j++ {
		f := v.DeriveNextExternalAddressForAccount
		if ch == 1 {
			f = v.DeriveNextInternalAddressForAccount
		}
		in, err := f(vAcct[a])
		if err != nil {
			panic(err)
		}
		infos[in.DerivationPath] = *in
	}
	return infos[k]
}

func showInfo(i domain.AddressInfo) string {
	return fmt.Sprintf("%d %s %s %s %s", i.AccountIndex, i.Address, hex.EncodeToString(i.BlindingKey), i.DerivationPath, i.Script)
}

func showInfos(l domain.AddressesInfo, err error) string {
	if err != nil {
		return "error"
	}
	out := []string{}
	for i := range l {
		out = append(out, showInfo(l[i]))
		l[i].Address = "z"
	}
	return set(out)
}

func (s *vaultState) list(a int, internal bool) string {
	if !s.in || !s.acct[a] {
		return "error"
	}
	out := []string{}
	for ch := 0; ch < 2; ch++ {
		if ch == 1 && !internal {
			break
		}
		for i := 0; i < s.n[a][ch]; i++ {
			out = append(out, showInfo(infoOf(a, ch, i)))
		}
	}
	return set(out)
}

func (s *vaultState) account(a int) string {
	if !s.in || !s.acct[a] {
		return "error"
	}
	paths := []string{}
	for ch := 0; ch < 2; ch++ {
		for i := 0; i < s.n[a][ch]; i++ {
			in := infoOf(a, ch, i)
			paths = append(paths, in.Script+"="+in.DerivationPath)
		}
	}
	return fmt.Sprintf("%d %d/%d %s", vAcct[a], s.n[a][0], s.n[a][1], set(paths))
}

func showAccount(a *domain.Account, err error) string {
	if err != nil || a == nil {
		return "error"
	}
	paths := []string{}
	for s, p := range a.DerivationPathByScript {
		paths = append(paths, s+"="+p)
	}
	out := fmt.Sprintf("%d %d/%d %s", a.AccountIndex, a.LastExternalIndex, a.LastInternalIndex, set(paths))
	// the caller's
	a.LastExternalIndex = 9
	for s := range a.DerivationPathByScript {
		a.DerivationPathByScript[s] = "z"
	}
	return out
}

func vault(c *hx.Check) Table {
	max := []int{2, 1}
	if c.Thorough() {
		max = []int{3, 3}
	}
	t := Table{Name: "vault", Zero: func() State { return &vaultState{} }, Nest: []string{"main"}}
	show := func(v *domain.Vault) string {
		if v == nil {
			return "none"
		}
		out := []string{fmt.Sprintf("enc %s net %s %x", v.EncryptedMnemonic, v.Network.Name, v.PassphraseHash)}
		for i, a := range v.Accounts {
			out = append(out, fmt.Sprintf("%d: %s", i, showAccount(a, nil)))
			a.LastInternalIndex = 8
		}
		for a, k := range v.AccountAndKeyByAddress {
			out = append(out, fmt.Sprintf("%s %d %x", a, k.AccountIndex, k.BlindingKey))
		}
		v.Accounts[77] = &domain.Account{AccountIndex: 77}
		for a := range v.AccountAndKeyByAddress {
			delete(v.AccountAndKeyByAddress, a)
		}
		v.EncryptedMnemonic = "z"
		for i := range v.PassphraseHash {
			v.PassphraseHash[i] = 0
		}
		return set(out)
	}
	full := func(s *vaultState) string {
		v, err := domain.NewVault(world.Words, world.Pass, world.Net)
		if err != nil {
			panic(err)
		}
		out := []string{}
		enc, _ := world.Enc{}.Encrypt(strings.Join(world.Words, " "), world.Pass)
		if s.phrase == 1 {
			enc = "changed"
		}
		out = append(out, fmt.Sprintf("enc %s net %s %x", enc, world.Net.Name, v.PassphraseHash))
		for a := range vAcct {
			if s.acct[a] {
				out = append(out, fmt.Sprintf("%d: %s", vAcct[a], s.account(a)))
			}
			for ch := 0; ch < 2; ch++ {
				for i := 0; i < s.n[a][ch]; i++ {
					in := infoOf(a, ch, i)
					out = append(out, fmt.Sprintf("%s %d %x", in.Address, vAcct[a], in.BlindingKey))
				}
			}
		}
		return set(out)
	}
	op := func(name string, real func(ctx context.Context, r domain.VaultRepository) string, ref func(s *vaultState) string) {
		t.Ops = append(t.Ops, Op{name, func(ctx context.Context, r ports.RepoManager) string { return real(ctx, r.VaultRepository()) }, func(s State) string { return ref(s.(*vaultState)) }})
	}
	get := func(words []string, pass string, net *network.Network) func(ctx context.Context, r domain.VaultRepository) string {
		return func(ctx context.Context, r domain.VaultRepository) string {
			v, err := r.GetOrCreateVault(ctx, words, pass, net)
			if err != nil {
				return "error"
			}
			return show(v)
		}
	}
	op("GetOrCreate(words)", get(world.Words, world.Pass, world.Net), func(s *vaultState) string { s.in = true; return full(s) })
	for _, bad := range []struct {
		n string
		f func(ctx context.Context, r domain.VaultRepository) string
	}{{"no words", get(nil, "", nil)}, {"bad words", get([]string{"a", "b"}, "p", world.Net)}} {
		op("GetOrCreate("+bad.n+")", bad.f, func(s *vaultState) string {
			if !s.in {
				return "error"
			}
			return full(s)
		})
	}
	upd := func(name string, real func(v *domain.Vault) error, ref func(s *vaultState) bool) {
		op("Update("+name+")", func(ctx context.Context, r domain.VaultRepository) string {
			var kept *domain.Vault
			res := fail(r.UpdateVault(ctx, func(v *domain.Vault) (*domain.Vault, error) {
				if err := real(v); err != nil {
					return nil, err
				}
				kept = v
				return v, nil
			}))
			if kept != nil {
				show(kept) // spoils it
			}
			return res
		}, func(s *vaultState) string {
			if !s.in || !ref(s) {
				return "error"
			}
			return "ok"
		})
	}
	for a := range vAcct {
		a := a
		upd(fmt.Sprintf("init account %d", vAcct[a]), func(v *domain.Vault) error { v.InitAccount(vAcct[a]); return nil }, func(s *vaultState) bool { s.acct[a] = true; return true })
		for ch := 0; ch < 2; ch++ {
			ch := ch
			upd(fmt.Sprintf("derive %d/%d", vAcct[a], ch), func(v *domain.Vault) error {
				if acc, err := v.AccountByIndex(vAcct[a]); err == nil {
					if (ch == 0 && acc.LastExternalIndex >= max[a]) || (ch == 1 && acc.LastInternalIndex >= max[a]) {
						return nil
					}
				}
				f := v.DeriveNextExternalAddressForAccount
				if ch == 1 {
					f = v.DeriveNextInternalAddressForAccount
				}
				_, err := f(vAcct[a])
				return err
			}, func(s *vaultState) bool {
				s.acct[a] = true
				if s.n[a][ch] < max[a] {
					s.n[a][ch]++
				}
				return true
			})
		}
	}
	upd("secret", func(v *domain.Vault) error { v.EncryptedMnemonic = "changed"; return nil }, func(s *vaultState) bool { s.phrase = 1; return true })
	upd("change but refuse", func(v *domain.Vault) error {
		v.DeriveNextExternalAddressForAccount(5)
		v.InitAccount(9)
		v.EncryptedMnemonic = "bad"
		for i := range v.PassphraseHash {
			v.PassphraseHash[i] = 1
		}
		return errors.New("no")
	}, func(s *vaultState) bool { return false })

	q := func(name string, real func(ctx context.Context, r domain.VaultRepository) string, ref func(s *vaultState) string) {
		t.Queries = append(t.Queries, Op{name, func(ctx context.Context, r ports.RepoManager) string { return real(ctx, r.VaultRepository()) }, func(s State) string { return ref(s.(*vaultState)) }})
	}
	for a := range vAcct {
		a := a
		q("GetAccountByIndex", func(ctx context.Context, r domain.VaultRepository) string {
			return showAccount(r.GetAccountByIndex(ctx, vAcct[a]))
		}, func(s *vaultState) string { return s.account(a) })
		q("GetAllDerivedAddressesInfoForAccount", func(ctx context.Context, r domain.VaultRepository) string {
			return showInfos(r.GetAllDerivedAddressesInfoForAccount(ctx, vAcct[a]))
		}, func(s *vaultState) string { return s.list(a, true) })
		q("GetAllDerivedExternalAddressesInfoForAccount", func(ctx context.Context, r domain.VaultRepository) string {
			return showInfos(r.GetAllDerivedExternalAddressesInfoForAccount(ctx, vAcct[a]))
		}, func(s *vaultState) string { return s.list(a, false) })
		for ch := 0; ch < 2; ch++ {
			for i := 0; i < max[a]; i++ {
				a, ch, i := a, ch, i
				q("GetAccountByAddress", func(ctx context.Context, r domain.VaultRepository) string {
					acc, n, err := r.GetAccountByAddress(ctx, infoOf(a, ch, i).Address)
					if err != nil {
						return "error"
					}
					return fmt.Sprint(n, " ", showAccount(acc, err))
				}, func(s *vaultState) string {
					if !s.in || i >= s.n[a][ch] {
						return "error"
					}
					return fmt.Sprint(vAcct[a], " ", s.account(a))
				})
			}
		}
		for _, pl := range [][][2]int{{{0, 0}}, {{1, 0}}, {{0, 0}, {1, 0}}, {{0, 1}, {0, 0}, {0, 0}}, {}} {
			a, pl := a, pl
			q("GetDerivationPathByScript", func(ctx context.Context, r domain.VaultRepository) string {
				l := []string{}
				for _, p := range pl {
					l = append(l, infoOf(a, p[0], p[1]).Script)
				}
				m, err := r.GetDerivationPathByScript(ctx, vAcct[a], l)
				if err != nil {
					return "error"
				}
				out := []string{}
				for s, p := range m {
					out = append(out, s+"="+p)
				}
				return set(out)
			}, func(s *vaultState) string {
				if !s.in || !s.acct[a] {
					return "error"
				}
				out := map[string]bool{}
				for _, p := range pl {
					if p[1] >= s.n[a][p[0]] {
						return "error"
					}
					in := infoOf(a, p[0], p[1])
					out[in.Script+"="+in.DerivationPath] = true
				}
				l := []string{}
				for k := range out {
					l = append(l, k)
				}
				return set(l)
			})
		}
	}
	q("GetAccountByIndex(7)", func(ctx context.Context, r domain.VaultRepository) string {
		return showAccount(r.GetAccountByIndex(ctx, 7))
	}, func(s *vaultState) string { return "error" })
	q("whole", get(nil, "", nil), func(s *vaultState) string {
		if !s.in {
			return "error"
		}
		return full(s)
	})
	t.Queries = append(t.Queries, t.Queries[len(t.Queries)-1])
	return t
}
