// Package scrypt is golang.org/x/crypto/scrypt with a tiny work factor and its
// results remembered, so that checks can afford many passphrases. Real turns
// the true derivation on.
package scrypt

import (
	"crypto/sha256"
	"fmt"
	"sync"
	"sync/atomic"

	"golang.org/x/crypto/scrypt"
)

// Real switches to the true work factor.
var Real atomic.Bool

var (
	mu   sync.Mutex
	seen = map[[32]byte][]byte{}
)

// Key derives a key. The stated work factor enters the salt, so that
// different factors give different keys, as they should.
func Key(password, salt []byte, N, r, p, keyLen int) ([]byte, error) {
	if Real.Load() {
		return scrypt.Key(password, salt, N, r, p, keyLen)
	}
	if N <= 1 || N&(N-1) != 0 {
		return scrypt.Key(password, salt, N, r, p, keyLen)
	}
	h := sha256.Sum256([]byte(fmt.Sprintf("%x|%x|%d|%d|%d|%d", password, salt, N, r, p, keyLen)))
	mu.Lock()
	k := seen[h]
	mu.Unlock()
	if k == nil {
		k2, err := scrypt.Key(password, append([]byte(fmt.Sprintf("%d,%d,%d|", N, r, p)), salt...), 2, 1, 1, keyLen)
		if err != nil {
			return nil, err
		}
		mu.Lock()
		if len(seen) > 1<<16 {
			seen = map[[32]byte][]byte{}
		}
		seen[h], k = k2, k2
		mu.Unlock()
	}
	return append([]byte{}, k...), nil
}
