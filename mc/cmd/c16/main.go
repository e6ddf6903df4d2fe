// C16: derivation paths, keys, encryption and signing. Every string of a small
// alphabet and every path over boundary indexes, keys against an own BIP32 and
// SLIP77, every alteration and truncation of ciphertexts, every small set of
// inputs signed or not.
//
//mc:instr pkg/wallet=MK
package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
	"unicode"

	"github.com/btcsuite/btcd/btcec"
	"github.com/btcsuite/btcd/txscript"
	"github.com/btcsuite/btcutil"
	"github.com/btcsuite/btcutil/hdkeychain"
	"github.com/tdex-network/tdex-daemon/pkg/wallet"
	cheap "github.com/tdex-network/tdex-daemon/verif/cheap/scrypt"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	"github.com/vulpemventures/go-bip39"
	"github.com/vulpemventures/go-elements/address"
	"github.com/vulpemventures/go-elements/network"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
)

var c *hx.Check

const hard = uint32(0x80000000)

// ---- paths

// elem is the reference for one element: the index, whether it is valid, and
// whether it is written in the usual way (decimal or hexadecimal digits).
func elem(s string) (v uint32, ok, usual bool) {
	s = strings.TrimFunc(s, unicode.IsSpace)
	base := uint32(0)
	if strings.HasSuffix(s, "'") {
		base = hard
		s = strings.TrimFunc(s[:len(s)-1], unicode.IsSpace)
	}
	usual = s != ""
	digits := s
	radix := 10
	if strings.HasPrefix(s, "0x") {
		digits, radix = s[2:], 16
	} else if len(s) > 1 && s[0] == '0' {
		for _, r := range s {
			if r != '0' { // 00..0 is 0 in any reading
				usual = false
			}
		}
	}
	if digits == "" {
		return 0, false, true
	}
	for _, r := range digits {
		in := r >= '0' && r <= '9' || radix == 16 && (r >= 'a' && r <= 'f' || r >= 'A' && r <= 'F')
		if !in {
			// octal, binary, signs and underscores are left to the parser, as
			// long as it is not silently read as something else
			n, good := new(big.Int).SetString(s, 0)
			if good && n.Sign() >= 0 && n.Cmp(big.NewInt(int64(0xffffffff-base))) <= 0 {
				return base + uint32(n.Uint64()), true, false
			}
			return 0, false, true
		}
	}
	n, good := new(big.Int).SetString(digits, radix)
	if !usual {
		n, good = new(big.Int).SetString(s, 0)
	}
	if !good || n.Cmp(big.NewInt(int64(0xffffffff-base))) > 0 {
		return 0, false, true
	}
	return base + uint32(n.Uint64()), true, usual
}

func refPath(s string) (out []uint32, ok, usual bool) {
	es := strings.Split(s, "/")
	if len(es) < 2 {
		return nil, false, true
	}
	for _, e := range es {
		if e == "" {
			return nil, false, true
		}
	}
	if strings.TrimSpace(es[0]) == "m" {
		es = es[1:]
	}
	usual = true
	for _, e := range es {
		v, good, us := elem(e)
		usual = usual && us
		if !good {
			return nil, false, true
		}
		out = append(out, v)
	}
	return out, true, usual
}

func printed(p []uint32) string {
	s := "m"
	for _, v := range p {
		if v >= hard {
			s += fmt.Sprintf("/%d'", v-hard)
		} else {
			s += fmt.Sprintf("/%d", v)
		}
	}
	return s
}

func same(a wallet.DerivationPath, b []uint32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func parse(s string) {
	want, ok, usual := refPath(s)
	var got wallet.DerivationPath
	var err error
	if p, st := hx.Catch(func() { got, err = wallet.ParseDerivationPath(s) }); p != nil {
		c.Fail("path-panic", fmt.Sprintf("ParseDerivationPath(%q): %v %s", s, p, st), s)
		return
	}
	c.Count("evaluations", 1)
	switch {
	case err != nil && !ok, err != nil && !usual:
		if len(got) != 0 && err != nil {
			c.Fail("path-both", fmt.Sprintf("ParseDerivationPath(%q) = %v and an error", s, got), s)
		}
		return
	case err != nil:
		c.Fail("path-refused", fmt.Sprintf("ParseDerivationPath(%q): %v, expected %v", s, err, want), s)
	case !ok:
		c.Fail("path-accepted", fmt.Sprintf("ParseDerivationPath(%q) = %v although malformed", s, got), s)
	case !same(got, want):
		c.Fail("path-value", fmt.Sprintf("ParseDerivationPath(%q) = %v, expected %v", s, got, want), s)
	default:
		if got.String() != printed(want) {
			c.Fail("path-print", fmt.Sprintf("%v is printed %q, not %q", want, got.String(), printed(want)), s)
		}
		c.Count("distinct_nontrivial", 1)
	}
}

func paths() {
	alpha := []string{"m", "/", "'", "0", "1", "9", "x", "-", " ", "8"}
	n := 6
	if c.Thorough() {
		n = 7
	}
	c.Par(len(alpha)*len(alpha)+1, func(k int) {
		if k == len(alpha)*len(alpha) {
			for _, s := range append(append([]string{}, alpha...), "") {
				parse(s)
			}
			return
		}
		var rec func(s string, d int)
		rec = func(s string, d int) {
			parse(s)
			if d < n {
				for _, a := range alpha {
					rec(s+a, d+1)
				}
			}
		}
		rec(alpha[k/len(alpha)]+alpha[k%len(alpha)], 2)
	})
	// boundary elements in every position
	el := []string{"0", "1", "0x0", "0xff", "0xFF", "2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "18446744073709551616", "18446744073709551617", "340282366920938463463374607431768211457", "-1", "+1", "0x7fffffff", "0x80000000", "0xffffffff", "0x100000000",
		"0'", "44'", "84'", "2147483647'", "2147483648'", "4294967295'", "0x7fffffff'", "0x80000000'", "0x80000001'", "-0'", "-1'", "'", "''", "0''", "'0", "1 '", " 1' ", "1' '", "1h", "1H", "0b1", "0o7", "010", "1_0", "1.0", "1e3", "m", " m ", "M", "", " ", "\t0\n"}
	c.Par(len(el), func(i int) {
		for _, b := range el {
			parse(el[i] + "/" + b)
			for _, d := range el {
				parse(el[i] + "/" + b + "/" + d)
				parse("m/" + el[i] + "/" + b + "/" + d)
			}
		}
	})
	// printing and parsing again
	vals := []uint32{0, 1, 9, 10, 44, 84, hard - 1, hard, hard + 1, hard + 84, ^uint32(0) - 1, ^uint32(0)}
	var rec func(p []uint32)
	rec = func(p []uint32) {
		c.Count("evaluations", 1)
		s := wallet.DerivationPath(p).String()
		if len(p) == 0 {
			if s != "" {
				c.Fail("path-print", fmt.Sprintf("the empty path is printed %q", s), s)
			}
		} else {
			if s != printed(p) {
				c.Fail("path-print", fmt.Sprintf("%v is printed %q", p, s), s)
			}
			q, err := wallet.ParseDerivationPath(s)
			if err != nil || !same(q, p) {
				c.Fail("path-inverse", fmt.Sprintf("%v printed as %q is parsed as %v, %v", p, s, q, err), s)
			}
		}
		if len(p) < 4 {
			for _, v := range vals {
				rec(append(append([]uint32{}, p...), v))
			}
		}
	}
	rec(nil)
	c.Sample("m/2147483648'/0")
}

// ---- keys

type node struct {
	k  *big.Int
	cc []byte
}

func master(seed []byte) node {
	h := hmac.New(sha512.New, []byte("Bitcoin seed"))
	h.Write(seed)
	s := h.Sum(nil)
	return node{new(big.Int).SetBytes(s[:32]), s[32:]}
}

func ser(k *big.Int) []byte { return k.FillBytes(make([]byte, 32)) }

func pub(k *big.Int) []byte {
	_, p := btcec.PrivKeyFromBytes(btcec.S256(), ser(k))
	return p.SerializeCompressed()
}

func (n node) child(i uint32) node {
	h := hmac.New(sha512.New, n.cc)
	if i >= hard {
		h.Write([]byte{0})
		h.Write(ser(n.k))
	} else {
		h.Write(pub(n.k))
	}
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, i)
	h.Write(b)
	s := h.Sum(nil)
	k := new(big.Int).SetBytes(s[:32])
	k.Add(k, n.k)
	k.Mod(k, btcec.S256().N)
	return node{k, s[32:]}
}

func slip77Master(seed []byte) []byte {
	h := hmac.New(sha512.New, []byte("Symmetric key seed"))
	h.Write(seed)
	s := h.Sum(nil)
	h = hmac.New(sha512.New, s[:32])
	h.Write(append([]byte{0}, []byte("SLIP-0077")...))
	return h.Sum(nil)[32:]
}

func blindKey(master, script []byte) []byte {
	h := hmac.New(sha256.New, master)
	h.Write(script)
	return h.Sum(nil)
}

var mnemonics = []string{
	"abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about",
	"quarter multiply swarm depth slice security flight glad arrow express worth legend wasp mobile anchor dinner mutual six sure wear section delay initial thank",
	"okay door hammer betray reason zero fiction rigid vivid scorpion thunder crucial focus riot cancel wear autumn rely kangaroo rug raven mystery ability stem",
}

func words(s string) []string { return strings.Split(s, " ") }

func open(sign, blind string) *wallet.Wallet {
	o := wallet.NewWalletFromMnemonicOpts{SigningMnemonic: words(sign)}
	if blind != "" {
		o.BlindingMnemonic = words(blind)
	}
	w, err := wallet.NewWalletFromMnemonic(o)
	if err != nil {
		c.Fail("wallet", fmt.Sprintf("wallet of %q, %q: %v", sign, blind, err), nil)
		c.Finish()
	}
	return w
}

func keys() {
	// the reference itself: the vector of BIP84
	n := master(bip39.NewSeed(mnemonics[0], ""))
	for _, i := range []uint32{hard + 84, hard, hard, 0, 0} {
		n = n.child(i)
	}
	if hex.EncodeToString(pub(n.k)) != "0330d54fd0dd420a6e5f8d3624f5f3482cae350f79d5f0753bf5beef9c2d91af3c" {
		panic("the reference derivation is wrong")
	}
	acc := []uint32{0, 1, 2, 5, 6, 1000, hard - 1}
	br := []uint32{0, 1, 2}
	idx := []uint32{0, 1, 2, 3, 7, 20, 100, 255, 256, 65536, hard - 1, hard, hard + 1}
	if c.Thorough() {
		for i := uint32(4); i < 120; i++ {
			idx = append(idx, i)
		}
	}
	nets := []*network.Network{&network.Regtest, &network.Liquid}
	type pair struct{ s, b string }
	pairs := []pair{}
	for _, s := range mnemonics {
		for _, b := range append([]string{""}, mnemonics...) {
			pairs = append(pairs, pair{s, b})
		}
	}
	c.Par(len(pairs), func(i int) {
		p := pairs[i]
		w := open(p.s, p.b)
		root := master(bip39.NewSeed(p.s, "")).child(hard + 84).child(hard)
		bs := p.b
		if bs == "" {
			bs = p.s
		}
		bm := slip77Master(bip39.NewSeed(bs, ""))
		used := map[string]string{}
		for _, a := range acc {
			for _, b := range br {
				for _, x := range idx {
					dp := []uint32{hard + a, b, x}
					name := strings.TrimPrefix(printed(dp), "m/")
					k := root.child(hard + a).child(b).child(x)
					h := btcutil.Hash160(pub(k.k))
					script := append([]byte{0, 20}, h...)
					prv, pb, err := w.DeriveSigningKeyPair(wallet.DeriveSigningKeyPairOpts{DerivationPath: name})
					if err != nil || !bytes.Equal(prv.Serialize(), ser(k.k)) || !bytes.Equal(pb.SerializeCompressed(), pub(k.k)) {
						c.Fail("key", fmt.Sprintf("the keys of %s are wrong (%v)", name, err), name)
						continue
					}
					bk, bp, err := w.DeriveBlindingKeyPair(wallet.DeriveBlindingKeyPairOpts{Script: script})
					want := blindKey(bm, script)
					if err != nil || !bytes.Equal(bk.Serialize(), want) || !bytes.Equal(bp.SerializeCompressed(), pub(new(big.Int).SetBytes(want))) {
						c.Fail("blinding-key", fmt.Sprintf("the blinding keys of %s are wrong (%v)", name, err), name)
						continue
					}
					for _, net := range nets {
						ad, sc, err := w.DeriveConfidentialAddress(wallet.DeriveConfidentialAddressOpts{DerivationPath: name, Network: net})
						if err != nil || !bytes.Equal(sc, script) {
							c.Fail("address", fmt.Sprintf("the script of %s is %x, expected %x (%v)", name, sc, script, err), name)
							continue
						}
						d, err := address.FromBlech32(ad)
						if err != nil || d.Prefix != net.Blech32 || d.Version != 0 || !bytes.Equal(d.Program, h) || !bytes.Equal(d.PublicKey, bp.SerializeCompressed()) {
							c.Fail("address", fmt.Sprintf("the address of %s is %s (%v)", name, ad, err), name)
						}
						if o, ok := used[ad]; ok {
							c.Fail("address-twice", fmt.Sprintf("%s and %s have the same address", o, name), name)
						}
						used[ad] = name
					}
					c.Count("evaluations", 4)
					c.Count("distinct_nontrivial", 1)
				}
			}
		}
	})
	// paths that are no address paths
	w := open(mnemonics[1], "")
	vals := []uint32{0, 5, hard, hard + 5}
	var rec func(p []uint32)
	rec = func(p []uint32) {
		if len(p) > 0 {
			good := len(p) == 3 && p[0] >= hard
			for _, name := range []string{printed(p), strings.TrimPrefix(printed(p), "m/")} {
				if len(p) == 1 && !strings.HasPrefix(name, "m") {
					continue
				}
				_, _, e1 := w.DeriveSigningKeyPair(wallet.DeriveSigningKeyPairOpts{DerivationPath: name})
				_, _, e2 := w.DeriveConfidentialAddress(wallet.DeriveConfidentialAddressOpts{DerivationPath: name, Network: &network.Regtest})
				c.Count("evaluations", 2)
				if (e1 == nil) != good || (e2 == nil) != good {
					c.Fail("path-form", fmt.Sprintf("path %s: keys %v, address %v", name, e1, e2), name)
				}
			}
		}
		if len(p) < 4 {
			for _, v := range vals {
				rec(append(append([]uint32{}, p...), v))
			}
		}
	}
	rec(nil)
	for _, bad := range []string{"", "m", "0'", "0'/0/", "a'/0/0", "0'/0/4294967296"} {
		_, _, e1 := w.DeriveSigningKeyPair(wallet.DeriveSigningKeyPairOpts{DerivationPath: bad})
		_, _, e2 := w.DeriveConfidentialAddress(wallet.DeriveConfidentialAddressOpts{DerivationPath: bad, Network: &network.Regtest})
		if e1 == nil || e2 == nil {
			c.Fail("path-form", fmt.Sprintf("path %q: keys %v, address %v", bad, e1, e2), bad)
		}
	}
	if _, _, err := w.DeriveConfidentialAddress(wallet.DeriveConfidentialAddressOpts{DerivationPath: "0'/0/0"}); err == nil {
		c.Fail("no-network", "an address without a network", nil)
	}
	if _, _, err := w.DeriveBlindingKeyPair(wallet.DeriveBlindingKeyPairOpts{}); err == nil {
		c.Fail("no-script", "a blinding key without a script", nil)
	}
	// a wallet without a mnemonic has no keys
	for _, m := range [][]string{nil, {}, words(mnemonics[0])[:11], append(words(mnemonics[0])[:11:11], "bogus"), append(words(mnemonics[0]), "abandon")} {
		if _, err := wallet.NewWalletFromMnemonic(wallet.NewWalletFromMnemonicOpts{SigningMnemonic: m}); err == nil {
			c.Fail("mnemonic", fmt.Sprintf("a wallet of %q", m), m)
		}
		if len(m) > 0 {
			if _, err := wallet.NewWalletFromMnemonic(wallet.NewWalletFromMnemonicOpts{SigningMnemonic: words(mnemonics[0]), BlindingMnemonic: m}); err == nil {
				c.Fail("mnemonic", fmt.Sprintf("a wallet blinding with %q", m), m)
			}
		}
	}
	empty := &wallet.Wallet{}
	if _, _, err := empty.DeriveSigningKeyPair(wallet.DeriveSigningKeyPairOpts{DerivationPath: "0'/0/0"}); err == nil {
		c.Fail("empty", "an empty wallet has keys", nil)
	}
	// new wallets
	seen := map[string]bool{}
	for size := -64; size <= 512; size++ {
		m, err := wallet.NewMnemonic(wallet.NewMnemonicOpts{EntropySize: size})
		c.Count("evaluations", 1)
		ok := size == 0 || size >= 128 && size <= 256 && size%32 == 0
		if (err == nil) != ok {
			c.Fail("entropy", fmt.Sprintf("a mnemonic of %d bits: %v", size, err), size)
			continue
		}
		if ok {
			n := size
			if n == 0 {
				n = 128
			}
			s := strings.Join(m, " ")
			if _, e := bip39.EntropyFromMnemonic(s); e != nil || len(m) != (n+n/32)/11 {
				c.Fail("entropy", fmt.Sprintf("a mnemonic of %d bits has %d words (%v)", size, len(m), e), size)
			}
			if seen[s] {
				c.Fail("entropy", "a mnemonic came twice", size)
			}
			seen[s] = true
		}
	}
	for _, extra := range []bool{false, true} {
		a, err := wallet.NewWallet(wallet.NewWalletOpts{ExtraMnemonic: extra})
		if err != nil {
			c.Fail("new-wallet", err.Error(), nil)
			continue
		}
		sm, e1 := a.SigningMnemonic()
		bm, e2 := a.BlindingMnemonic()
		if e1 != nil || e2 != nil || (strings.Join(sm, " ") == strings.Join(bm, " ")) == extra {
			c.Fail("new-wallet", fmt.Sprintf("mnemonics of a new wallet: %v %v", e1, e2), extra)
			continue
		}
		b := open(strings.Join(sm, " "), strings.Join(bm, " "))
		for _, p := range []string{"0'/0/0", "5'/1/7"} {
			x, _, e1 := a.DeriveConfidentialAddress(wallet.DeriveConfidentialAddressOpts{DerivationPath: p, Network: &network.Regtest})
			y, _, e2 := b.DeriveConfidentialAddress(wallet.DeriveConfidentialAddressOpts{DerivationPath: p, Network: &network.Regtest})
			if x != y || e1 != nil || e2 != nil {
				c.Fail("new-wallet", "a new wallet differs from the one restored from its mnemonics", extra)
			}
		}
	}
}

// ---- encryption

// old are ciphertexts written by earlier versions.
var old = map[string][2]string{
	"nWb77VCKQGPAz9tBWGEOM34slUOfA3VqSb2XtnqKXd3ExPAKD7hm0MrVRjGZV+fDM/0hnV3IPO9rrkGKF4XXnzF2vluQ9LwphF1uXKNtzdLZgDhfeiY46KlLJPCTcpdfVdII0yTOfgyndYCw+gLdpCyR7Jyf1x86c7vG1DWebW/C9+QqZ46ScPx1BjmOZs9Ka84a47vjBy8G": {"password", mnemonics[0]},
}

func decrypt(ct, pass string) (s string, err error) {
	p, st := hx.Catch(func() { s, err = wallet.Decrypt(wallet.DecryptOpts{CypherText: ct, Passphrase: pass}) })
	c.Count("evaluations", 1)
	if p != nil {
		c.Fail("decrypt-panic", fmt.Sprintf("decrypting %q: %v %s", ct, p, st), ct)
		err = fmt.Errorf("panic")
	}
	return
}

func encryption() {
	texts := []string{"x", "secret", mnemonics[0], strings.Repeat("long ", 400), "\x00", "\x00\xff\n", strings.Repeat("a", 15), strings.Repeat("a", 16), strings.Repeat("a", 17)}
	passes := []string{"p", "pass", "Pass", "password", "a much longer passphrase than one would ever like to type by hand, yes", "\xff\xfe", " pass", "pass ", strings.Repeat("k", 63), strings.Repeat("k", 64), "12345678", "123456789"}
	wrong := func(p string) []string {
		out := []string{p + "x", "x" + p, p + " ", p + p, strings.ToUpper(p) + "!", "other"}
		for i := range p {
			b := []byte(p)
			b[i] ^= 1
			out = append(out, string(b))
			b[i] ^= 0x21
			out = append(out, string(b), p[:i]+p[i+1:])
		}
		return out
	}
	for ti, t := range texts {
		for pi, p := range passes {
			if ti > 0 && pi > 2 && !c.Thorough() {
				continue
			}
			ct, err := wallet.Encrypt(wallet.EncryptOpts{PlainText: t, Passphrase: p})
			if err != nil {
				c.Fail("encrypt", fmt.Sprintf("encrypting %q under %q: %v", t, p, err), nil)
				continue
			}
			ct2, _ := wallet.Encrypt(wallet.EncryptOpts{PlainText: t, Passphrase: p})
			if ct == ct2 {
				c.Fail("encrypt-same", "two encryptions are identical", nil)
			}
			raw, err := base64.StdEncoding.DecodeString(ct)
			if err != nil || len(t) > 3 && (bytes.Contains(raw, []byte(t)) || strings.Contains(ct, t)) {
				c.Fail("encrypt-clear", "the ciphertext contains the text", ct)
			}
			if s, err := decrypt(ct, p); err != nil || s != t {
				c.Fail("round-trip", fmt.Sprintf("text %q under %q came back as %q, %v", t, p, s, err), nil)
			}
			for _, q := range wrong(p) {
				if q == p {
					continue
				}
				c.Count("distinct_nontrivial", 1)
				if s, err := decrypt(ct, q); err == nil {
					c.Fail("wrong-pass", fmt.Sprintf("text %q encrypted under %q was opened with %q: %q", t, p, q, s), nil)
				}
			}
			if ti > 3 || pi > 0 && !c.Thorough() {
				continue
			}
			refuse := func(what string, b []byte) {
				c.Count("distinct_nontrivial", 1)
				if bytes.Equal(b, raw) {
					return
				}
				if s, err := decrypt(base64.StdEncoding.EncodeToString(b), p); err == nil {
					c.Fail("altered", fmt.Sprintf("a ciphertext of %d bytes with %s was accepted: %q", len(raw), what, s), nil)
				}
			}
			for i := range raw {
				bits := 8
				if len(raw) > 300 && !c.Thorough() {
					bits = 1
				}
				for k := 0; k < bits; k++ {
					b := append([]byte{}, raw...)
					b[i] ^= 1 << k
					refuse(fmt.Sprintf("bit %d of byte %d flipped", k, i), b)
				}
				refuse(fmt.Sprintf("the last bytes cut from %d", i), raw[:i])
				refuse(fmt.Sprintf("the first %d bytes cut", i+1), raw[i+1:])
				refuse(fmt.Sprintf("byte %d removed", i), append(append([]byte{}, raw[:i]...), raw[i+1:]...))
				refuse(fmt.Sprintf("byte %d doubled", i), append(append([]byte{}, raw[:i+1]...), raw[i:]...))
				if i > 0 {
					b := append([]byte{}, raw...)
					b[i], b[i-1] = b[i-1], b[i]
					refuse(fmt.Sprintf("bytes %d and %d swapped", i-1, i), b)
				}
			}
			for i := 0; i < len(ct); i++ { // the text form
				decrypt(ct[:i], p)
				decrypt(ct[i+1:], p)
				decrypt(ct[:i]+"*"+ct[i+1:], p)
			}
		}
	}
	for n := 0; n < 120; n++ { // anything short
		for _, f := range []byte{0, 0xff} {
			if s, err := decrypt(base64.StdEncoding.EncodeToString(bytes.Repeat([]byte{f}, n)), "p"); err == nil {
				c.Fail("altered", fmt.Sprintf("%d bytes of %x were decrypted to %q", n, f, s), n)
			}
		}
	}
	for _, o := range []wallet.EncryptOpts{{PlainText: "", Passphrase: "x"}, {PlainText: "x", Passphrase: ""}} {
		if _, err := wallet.Encrypt(o); err == nil {
			c.Fail("encrypt-empty", fmt.Sprintf("%+v", o), nil)
		}
	}
	if _, err := decrypt("!!!", "x"); err == nil {
		c.Fail("altered", "what is not base64 was decrypted", nil)
	}
	// the true work factor, and what is already stored by existing daemons
	cheap.Real.Store(true)
	for ct, v := range old {
		if s, err := decrypt(ct, v[0]); err != nil || s != v[1] {
			c.Fail("compatible", fmt.Sprintf("a stored ciphertext can't be opened: %v", err), ct)
		}
		if _, err := decrypt(ct, v[0]+"x"); err == nil {
			c.Fail("wrong-pass", "a stored ciphertext was opened with another passphrase", ct)
		}
	}
	cheap.Real.Store(false)
}

// ---- signing

var asset, _ = hex.DecodeString("01" + strings.Repeat("25", 32))

// build makes a pset spending the scripts (nil: no witness utxo).
func build(scripts [][]byte, conf []bool, version uint32) *pset.Pset {
	ins := []*transaction.TxInput{}
	for i := range scripts {
		h := bytes.Repeat([]byte{byte(i + 1)}, 32)
		ins = append(ins, transaction.NewTxInput(h, uint32(i)))
	}
	val := func(v uint64) []byte {
		b := make([]byte, 9)
		b[0] = 1
		binary.BigEndian.PutUint64(b[1:], v)
		return b
	}
	outs := []*transaction.TxOutput{transaction.NewTxOutput(asset, val(1000), append([]byte{0, 20}, bytes.Repeat([]byte{7}, 20)...)), transaction.NewTxOutput(asset, val(10), []byte{})}
	p, err := pset.New(ins, outs, int32(version), 0)
	if err != nil {
		panic(err)
	}
	u, _ := pset.NewUpdater(p)
	for i, s := range scripts {
		if s == nil {
			continue
		}
		o := transaction.NewTxOutput(asset, val(uint64(1000+i)), s)
		if conf[i] {
			_, pk := btcec.PrivKeyFromBytes(btcec.S256(), bytes.Repeat([]byte{byte(i + 3)}, 32))
			o.Value = append([]byte{8}, pk.SerializeCompressed()[1:]...)
			o.Asset = append([]byte{10}, pk.SerializeCompressed()[1:]...)
		}
		if err := u.AddInWitnessUtxo(o, i); err != nil {
			panic(err)
		}
	}
	return p
}

// signers says, for every input, whether it carries exactly one good
// signature of its own script's key ("ok"), none ("") or something wrong.
func signers(b64 string, n int) ([]string, error) {
	p, err := pset.NewPsetFromBase64(b64)
	if err != nil {
		return nil, err
	}
	out := make([]string, n)
	for i, in := range p.Inputs {
		if len(in.PartialSigs) == 0 {
			continue
		}
		if len(in.PartialSigs) > 1 {
			out[i] = "many"
			continue
		}
		ps := in.PartialSigs[0]
		pk, err := btcec.ParsePubKey(ps.PubKey, btcec.S256())
		if err != nil || len(ps.Signature) < 9 {
			out[i] = "malformed"
			continue
		}
		sg, err := btcec.ParseDERSignature(ps.Signature[:len(ps.Signature)-1], btcec.S256())
		if err != nil {
			out[i] = "malformed"
			continue
		}
		ht := txscript.SigHashType(ps.Signature[len(ps.Signature)-1])
		prog := btcutil.Hash160(ps.PubKey)
		if !bytes.Equal(append([]byte{0, 20}, prog...), in.WitnessUtxo.Script) {
			out[i] = "foreign key"
			continue
		}
		code := append(append([]byte{0x76, 0xa9, 20}, prog...), 0x88, 0xac)
		h := p.UnsignedTx.HashForWitnessV0(i, code, in.WitnessUtxo.Value, ht)
		switch {
		case ht != txscript.SigHashAll:
			out[i] = fmt.Sprintf("sighash %d", ht)
		case !sg.Verify(h[:], pk):
			out[i] = "wrong"
		default:
			out[i] = "ok"
		}
	}
	return out, nil
}

func signing() {
	w := open(mnemonics[1], mnemonics[2])
	other := open(mnemonics[0], "")
	names := []string{"0'/0/0", "0'/0/1", "5'/1/3", "1'/0/0"}
	script := func(w *wallet.Wallet, p string) []byte {
		_, s, err := w.DeriveConfidentialAddress(wallet.DeriveConfidentialAddressOpts{DerivationPath: p, Network: &network.Regtest})
		if err != nil {
			panic(err)
		}
		return s
	}
	all := map[string]string{}
	scripts := map[string][]byte{}
	for _, n := range names {
		scripts[n] = script(w, n)
		all[hex.EncodeToString(scripts[n])] = n
	}
	foreign := script(other, "0'/0/0")
	max := 3
	if c.Thorough() {
		max = 4
	}
	var rec func(ins []string)
	rec = func(ins []string) {
		if len(ins) > 0 {
			for conf := 0; conf < 1<<len(ins); conf++ {
				ss, cf := [][]byte{}, []bool{}
				for i, n := range ins {
					switch n {
					case "foreign":
						ss = append(ss, foreign)
					case "none":
						ss = append(ss, nil)
					default:
						ss = append(ss, scripts[n])
					}
					cf = append(cf, conf>>i&1 == 1)
				}
				p := build(ss, cf, 2)
				b64, err := p.ToBase64()
				if err != nil {
					panic(err)
				}
				signOne(w, ins, b64, p, all)
				if conf == 0 {
					signEach(w, ins, b64, p)
				}
			}
		}
		if len(ins) < max {
			for _, n := range append(append([]string{}, names[:3]...), "foreign", "none") {
				rec(append(append([]string{}, ins...), n))
			}
		}
	}
	rec(nil)
	c.Sample([]string{"0'/0/0", "foreign", "none"})
}

func unchanged(b64 string, p *pset.Pset) string {
	q, err := pset.NewPsetFromBase64(b64)
	if err != nil {
		return err.Error()
	}
	a, _ := p.UnsignedTx.Serialize()
	b, _ := q.UnsignedTx.Serialize()
	if !bytes.Equal(a, b) {
		return "the transaction changed"
	}
	for i := range p.Inputs {
		x, y := p.Inputs[i].WitnessUtxo, q.Inputs[i].WitnessUtxo
		if (x == nil) != (y == nil) || x != nil && (!bytes.Equal(x.Script, y.Script) || !bytes.Equal(x.Value, y.Value) || !bytes.Equal(x.Asset, y.Asset)) {
			return fmt.Sprintf("the spent output %d changed", i)
		}
	}
	return ""
}

// signOne: SignTransaction with every subset of the paths.
func signOne(w *wallet.Wallet, ins []string, b64 string, p *pset.Pset, all map[string]string) {
	keys := []string{}
	for s := range all {
		keys = append(keys, s)
	}
	for sub := 0; sub < 1<<len(keys); sub++ {
		m := map[string]string{}
		has := map[string]bool{}
		for i, k := range keys {
			if sub>>i&1 == 1 {
				m[k] = all[k]
				has[all[k]] = true
			}
		}
		want := true
		for _, n := range ins {
			want = want && has[n]
		}
		var out string
		var err error
		if pn, st := hx.Catch(func() {
			out, err = w.SignTransaction(wallet.SignTransactionOpts{PsetBase64: b64, DerivationPathMap: m})
		}); pn != nil {
			c.Fail("sign-panic", fmt.Sprintf("signing inputs %v: %v %s", ins, pn, st), ins)
			return
		}
		c.Count("evaluations", 1)
		if (err == nil) != want {
			c.Fail("sign-all", fmt.Sprintf("inputs %v signed with the paths of %v: %v", ins, has, err), ins)
			continue
		}
		if err != nil {
			continue
		}
		c.Count("distinct_nontrivial", 1)
		got, err := signers(out, len(ins))
		if err != nil {
			c.Fail("sign-all", err.Error(), ins)
			continue
		}
		for i, g := range got {
			if g != "ok" {
				c.Fail("sign-all", fmt.Sprintf("input %d of %v is signed: %q", i, ins, g), ins)
			}
		}
		if s := unchanged(out, p); s != "" {
			c.Fail("sign-changes", s, ins)
		}
	}
}

// signEach: every input on its own, in every order of two, with good and
// wrong paths.
func signEach(w *wallet.Wallet, ins []string, b64 string, p *pset.Pset) {
	try := func(b string, i int, path string) (out string, err error, ok bool) {
		pn, st := hx.Catch(func() {
			out, err = w.SignInput(wallet.SignInputOpts{PsetBase64: b, InIndex: uint32(i), DerivationPath: path})
		})
		c.Count("evaluations", 1)
		if pn != nil {
			c.Fail("sign-panic", fmt.Sprintf("signing input %d of %v with %s: %v %s", i, ins, path, pn, st), ins)
		}
		return out, err, pn == nil
	}
	own := func(i int) bool { return i < len(ins) && ins[i] != "foreign" && ins[i] != "none" }
	for i := 0; i <= len(ins); i++ {
		path := "0'/0/0"
		if own(i) {
			path = ins[i]
		}
		out, err, ok := try(b64, i, path)
		if !ok {
			continue
		}
		if own(i) != (err == nil) && !(i < len(ins) && ins[i] == "foreign") {
			c.Fail("sign-input", fmt.Sprintf("input %d of %v: %v", i, ins, err), ins)
			continue
		}
		if err != nil {
			continue
		}
		got, e := signers(out, len(ins))
		for j, g := range got {
			if e != nil || j == i && own(i) && g != "ok" || j != i && g != "" {
				c.Fail("sign-input", fmt.Sprintf("after signing input %d of %v, input %d is %q %v", i, ins, j, g, e), ins)
			}
			if j == i && !own(i) && g == "ok" {
				c.Fail("sign-input", fmt.Sprintf("a signature for the foreign input %d of %v verifies", i, ins), ins)
			}
		}
		if s := unchanged(out, p); s != "" {
			c.Fail("sign-changes", s, ins)
		}
		for k := range ins {
			if k == i || !own(k) || !own(i) {
				continue
			}
			out2, err, _ := try(out, k, ins[k])
			if err != nil {
				c.Fail("sign-input", fmt.Sprintf("input %d of %v, after %d: %v", k, ins, i, err), ins)
				continue
			}
			got, _ := signers(out2, len(ins))
			for j, g := range got {
				if (j == i || j == k) != (g == "ok") || j != i && j != k && g != "" {
					c.Fail("sign-input", fmt.Sprintf("after signing inputs %d and %d of %v, input %d is %q", i, k, ins, j, g), ins)
				}
			}
		}
	}
	for _, bad := range []string{"", "0/0/0", "0'/0", "m", "0'/0/0/0", "x"} {
		if _, err, ok := try(b64, 0, bad); ok && err == nil {
			c.Fail("sign-path", fmt.Sprintf("signed with path %q", bad), bad)
		}
	}
}

func main() {
	c = hx.New("C16", "exploration")
	_ = hdkeychain.HardenedKeyStart
	paths()
	keys()
	encryption()
	signing()
	c.Info("rule", "all strings over a 10-letter alphabet up to 6 (thorough 7) letters plus 47 boundary elements in every position; all accounts x branches x boundary indexes x mnemonic pairs against an own BIP32/SLIP77; every bit flip, cut, removal, doubling and swap of ciphertexts, every one-byte change of passphrases; all input sets up to 3 (4) of own, foreign and unknown inputs, blinded or not, with every subset of paths")
	c.Assume("the work factor of scrypt is lowered (except for the stored ciphertexts)")
	c.Finish()
}
