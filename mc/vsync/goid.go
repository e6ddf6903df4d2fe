package vsync

import (
	"runtime"
	"unsafe"
)

func getg() uintptr

// goidOff is the offset of the goroutine id in the runtime's g, found at start
// by comparing with what runtime.Stack prints; 0 means not found.
var goidOff uintptr

func init() {
	const words = 64
	var cand [words]int
	const rounds = 8
	for r := 0; r < rounds; r++ {
		done := make(chan struct{})
		go func() {
			defer close(done)
			id := slowGoid()
			g := getg()
			for i := 0; i < words; i++ {
				if *(*uint64)(unsafe.Pointer(g + uintptr(i*8))) == id {
					cand[i]++
				}
			}
		}()
		<-done
	}
	for i, n := range cand {
		if n == rounds {
			goidOff = uintptr(i * 8)
			return
		}
	}
}

// Goid of the calling goroutine.
func Goid() uint64 {
	if goidOff != 0 {
		return *(*uint64)(unsafe.Pointer(getg() + goidOff))
	}
	return slowGoid()
}

func slowGoid() uint64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	var id uint64
	for _, c := range b[len("goroutine "):n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + uint64(c-'0')
	}
	return id
}
