// Package memo39 is go-bip39 with the (slow, pure) seed derivation remembered.
package memo39

import (
	"sync"

	bip39 "github.com/vulpemventures/go-bip39"
)

var (
	mu   sync.Mutex
	seen = map[[2]string][]byte{}
)

// NewSeed is a pure function of its arguments.
func NewSeed(m, p string) []byte {
	mu.Lock()
	s := seen[[2]string{m, p}]
	mu.Unlock()
	if s == nil {
		s = bip39.NewSeed(m, p)
		mu.Lock()
		if len(seen) > 1<<16 {
			seen = map[[2]string][]byte{}
		}
		seen[[2]string{m, p}] = s
		mu.Unlock()
	}
	return append([]byte{}, s...)
}

var (
	NewEntropy               = bip39.NewEntropy
	NewMnemonic              = bip39.NewMnemonic
	IsMnemonicValid          = bip39.IsMnemonicValid
	EntropyFromMnemonic      = bip39.EntropyFromMnemonic
	MnemonicToByteArray      = bip39.MnemonicToByteArray
	NewSeedWithErrorChecking = bip39.NewSeedWithErrorChecking
	GetWordList              = bip39.GetWordList
	SetWordList              = bip39.SetWordList
)
