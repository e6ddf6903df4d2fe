// Package vsync is linked into the code under test by the overlay that
// /verif/mc/instr generates: it replaces package sync (Mutex, RWMutex and Once
// become visible to the controlled scheduler, the rest is aliased), receives
// the inserted scheduling points (Y), and starts goroutines (Go).
//
// Outside a controlled execution everything behaves as package sync does.
// Inside one (see sched.go) exactly one registered goroutine runs between two
// scheduling points, and the scheduler decides which.
package vsync

import (
	"sync"
)

type (
	WaitGroup = sync.WaitGroup
	Map       = sync.Map
	Pool      = sync.Pool
	Cond      = sync.Cond
	Locker    = sync.Locker
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// RWMutex with writer preference, like sync.RWMutex. The zero value is usable.
type RWMutex struct {
	mu       sync.Mutex
	cond     *sync.Cond
	readers  int
	writer   bool
	waitingW int
}

func (m *RWMutex) c() *sync.Cond {
	if m.cond == nil {
		m.cond = sync.NewCond(&m.mu)
	}
	return m.cond
}

func (m *RWMutex) canW() bool { return !m.writer && m.readers == 0 }
func (m *RWMutex) canR() bool { return !m.writer && m.waitingW == 0 }

func (m *RWMutex) Lock() {
	s := cur()
	th := s.lockPoint("Lock")
	if th != nil {
		m.mu.Lock()
		if !m.canW() {
			m.waitingW++
			for !m.canW() {
				m.mu.Unlock()
				if !s.parkBlocked(th, func() bool { m.mu.Lock(); defer m.mu.Unlock(); return m.canW() }) {
					m.mu.Lock()
					m.waitingW--
					m.mu.Unlock()
					exit()
				}
				m.mu.Lock()
			}
			m.waitingW--
		}
		m.writer = true
		m.mu.Unlock()
		return
	}
	m.mu.Lock()
	m.waitingW++
	for !m.canW() {
		m.c().Wait()
	}
	m.waitingW--
	m.writer = true
	m.mu.Unlock()
}

func (m *RWMutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.canW() {
		m.writer = true
		return true
	}
	return false
}

func (m *RWMutex) Unlock() {
	m.mu.Lock()
	if !m.writer {
		m.mu.Unlock()
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.c().Broadcast()
	m.mu.Unlock()
}

func (m *RWMutex) RLock() {
	s := cur()
	th := s.lockPoint("RLock")
	if th != nil {
		m.mu.Lock()
		for !m.canR() {
			m.mu.Unlock()
			if !s.parkBlocked(th, func() bool { m.mu.Lock(); defer m.mu.Unlock(); return m.canR() }) {
				exit()
			}
			m.mu.Lock()
		}
		m.readers++
		m.mu.Unlock()
		return
	}
	m.mu.Lock()
	for !m.canR() {
		m.c().Wait()
	}
	m.readers++
	m.mu.Unlock()
}

func (m *RWMutex) TryRLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.canR() {
		m.readers++
		return true
	}
	return false
}

func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	if m.readers <= 0 {
		m.mu.Unlock()
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.c().Broadcast()
	m.mu.Unlock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker as in package sync.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Mutex as in package sync.
type Mutex struct{ rw RWMutex }

func (m *Mutex) Lock()         { m.rw.Lock() }
func (m *Mutex) TryLock() bool { return m.rw.TryLock() }
func (m *Mutex) Unlock()       { m.rw.Unlock() }

// Once as in package sync (a second caller waits for the first).
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
