package vsync

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
)

// Point classes. A class that is not enabled in Config costs nothing.
const (
	ClassStmt  = 'S' // inserted before statements
	ClassEntry = 'E' // inserted at the entry of exported methods
	ClassLock  = 'L' // before acquiring a lock
	ClassGo    = 'G' // start of a goroutine
	ClassUser  = 'X' // explicit points of the harness fakes
)

// Config says which points are scheduling points in an execution.
type Config struct {
	// Points lists "C:pkg" or "C:*", C a class letter, pkg the last element(s)
	// of the import path as given by the instrumenter.
	Points []string
	// MaxPoints aborts runaway executions.
	MaxPoints int
}

type thread struct {
	id      string
	goid    uint64
	wake    chan bool
	parked  bool
	blocked func() bool // non-nil: parked on a lock, enabled iff it returns true
	nchild  int
	done    bool
	label   string
	main    bool
	adopted bool
}

// Sched is one controlled execution.
type Sched struct {
	mu      sync.Mutex
	cfg     Config
	on      map[string]bool
	all     map[byte]bool
	threads map[uint64]*thread
	list    []*thread
	nroot   int
	nauto   int
	last    *thread
	abort   bool
	Panics  []string
	Trace   []string
	tracing bool
	npoints int
	free    bool
	root    uint64
	nbg     int
	// Decide is asked at a point when every other thread is at rest, so that
	// the common case (go on) needs no switch to the scheduler goroutine.
	// It returns the choice; a choice other than 0 is kept for TakePending.
	Decide  func(ids, labels []string, lastFirst bool) int
	pending *Pending
}

var current atomic.Pointer[Sched]

func cur() *Sched { return current.Load() }

// NewSched makes s the active execution.
func NewSched(cfg Config) *Sched {
	s := &Sched{cfg: cfg, on: map[string]bool{}, all: map[byte]bool{}, threads: map[uint64]*thread{}}
	for _, p := range cfg.Points {
		if strings.HasSuffix(p, ":*") {
			s.all[p[0]] = true
		} else {
			s.on[p] = true
		}
	}
	s.tracing = os.Getenv("MC_TRACE") != ""
	s.free = true
	s.root = Goid()
	current.Store(s)
	return s
}

// Control ends the free (set-up) phase: from now on goroutines stop at points.
func (s *Sched) Control() { s.mu.Lock(); s.free = false; s.mu.Unlock() }

func (s *Sched) isFree() bool { s.mu.Lock(); defer s.mu.Unlock(); return s.free }

// Off makes the code under test run freely again (goroutines that are parked stay parked).
func (s *Sched) Off() { current.CompareAndSwap(s, nil) }

func exit() { runtime.Goexit() }

func (s *Sched) lookup() *thread {
	g := Goid()
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.threads[g]
}

func (s *Sched) isPoint(class byte, pkg string) bool {
	return s.all[class] || s.on[string(class)+":"+pkg]
}

// Pending is a decision made by a thread for the scheduler goroutine.
type Pending struct {
	IDs, Labels []string
	Choice      int
}

// TakePending returns the decision made inside a thread, if any.
func (s *Sched) TakePending() *Pending {
	s.mu.Lock()
	defer s.mu.Unlock()
	p := s.pending
	s.pending = nil
	return p
}

// inline tries to decide without stopping th; it reports whether th goes on.
// Called and returning with s.mu held, th.parked set.
func (s *Sched) inline(th *thread) bool {
	if s.Decide == nil || s.last != th || s.pending != nil {
		return false
	}
	for _, o := range s.list {
		if !o.parked && !(o.done && !o.adopted) {
			return false
		}
	}
	s.mu.Unlock()
	ids, labels, lastFirst := s.Enabled()
	if !lastFirst {
		s.mu.Lock()
		return false
	}
	c := s.Decide(ids, labels, lastFirst)
	s.mu.Lock()
	if c == 0 {
		s.npoints++
		th.parked = false
		return true
	}
	s.pending = &Pending{ids, labels, c}
	return false
}

// park stops the calling thread until the scheduler releases it.
func (s *Sched) park(th *thread, label string, blocked func() bool) bool {
	s.mu.Lock()
	if s.abort {
		s.mu.Unlock()
		return false
	}
	th.label = label
	th.blocked = blocked
	th.parked = true
	if s.inline(th) {
		s.mu.Unlock()
		return true
	}
	s.mu.Unlock()
	return <-th.wake
}

func (s *Sched) parkBlocked(th *thread, enabled func() bool) bool {
	return s.park(th, "blocked:"+th.label, enabled)
}

// lockPoint returns the calling thread if the lock operation is under control of the scheduler.
func (s *Sched) lockPoint(op string) *thread {
	if s == nil {
		return nil
	}
	if s.isFree() {
		return nil
	}
	th := s.lookup()
	if th == nil {
		return nil
	}
	th.label = op
	if s.all[ClassLock] {
		if !s.park(th, op, nil) {
			exit()
		}
	}
	return th
}

// Y is the inserted scheduling point.
func Y(class byte, pkg, site string) {
	s := cur()
	if s == nil || !s.isPoint(class, pkg) || s.isFree() || Goid() == s.root {
		return
	}
	th := s.lookup()
	if th == nil {
		// not started through Go: adopt it
		s.mu.Lock()
		if s.abort {
			s.mu.Unlock()
			return
		}
		s.nauto++
		th = s.newThread(fmt.Sprintf("auto%d:%s", s.nauto, site), Goid())
		s.mu.Unlock()
		// an adopted goroutine never reports its end; treat it as such from the start
		th.done, th.adopted = true, true
	}
	if !s.park(th, site, nil) {
		exit()
	}
}

// Point is an explicit scheduling point of a harness fake.
func Point(label string) { Y(ClassUser, "h", label) }

// Aborted tells fakes and loops that the execution is being torn down.
func Aborted() bool {
	s := cur()
	return s != nil && s.abort
}

func (s *Sched) newThread(id string, goid uint64) *thread {
	th := &thread{id: id, goid: goid, wake: make(chan bool, 1)}
	s.threads[goid] = th
	s.list = append(s.list, th)
	return th
}

// Go starts f as a goroutine of the code under test.
func Go(site string, f func()) {
	s := cur()
	if s == nil {
		go f()
		return
	}
	parent := s.lookup()
	s.mu.Lock()
	var id string
	if parent != nil {
		parent.nchild++
		id = fmt.Sprintf("%s.%d", parent.id, parent.nchild)
	} else {
		s.nbg++
		id = fmt.Sprintf("bg%d", s.nbg)
	}
	s.mu.Unlock()
	s.spawn(id, site, false, f)
}

// Spawn registers a thread of the harness. It is parked at once.
func (s *Sched) Spawn(name string, f func()) {
	s.mu.Lock()
	s.nroot++
	id := fmt.Sprintf("%d-%s", s.nroot, name)
	s.mu.Unlock()
	s.spawn(id, name, true, f)
}

func (s *Sched) spawn(id, site string, main bool, f func()) {
	ready := make(chan struct{})
	go func() {
		s.mu.Lock()
		th := s.newThread(id, Goid())
		th.main = main
		s.mu.Unlock()
		close(ready)
		defer func() {
			if r := recover(); r != nil {
				buf := make([]byte, 6000)
				n := runtime.Stack(buf, false)
				s.mu.Lock()
				s.Panics = append(s.Panics, fmt.Sprintf("panic in %s: %v\n%s", id, r, trimStack(string(buf[:n]))))
				s.mu.Unlock()
			}
			s.mu.Lock()
			th.done = true
			th.parked = false
			s.mu.Unlock()
		}()
		if main || !s.isFree() {
			if !s.park(th, "start:"+site, nil) {
				return
			}
		}
		f()
	}()
	<-ready
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	out := []string{}
	for i, l := range lines {
		if strings.Contains(l, "tdex-daemon/") && !strings.Contains(l, "vsync") && i+1 < len(lines) {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, " <- ")
}

// Enabled returns the parked, enabled threads in canonical order (the thread
// that ran last first, then by id) and whether the last thread is among them.
func (s *Sched) Enabled() (ids []string, labels []string, lastFirst bool) {
	s.mu.Lock()
	cand := []*thread{}
	for _, th := range s.list {
		if th.parked {
			cand = append(cand, th)
		}
	}
	last := s.last
	s.mu.Unlock()
	en := []*thread{}
	for _, th := range cand {
		if th.blocked == nil || th.blocked() {
			en = append(en, th)
		}
	}
	sort.Slice(en, func(i, j int) bool { return en[i].id < en[j].id })
	for i, th := range en {
		if th == last {
			lastFirst = true
			copy(en[1:i+1], en[:i])
			en[0] = th
			break
		}
	}
	for _, th := range en {
		ids = append(ids, th.id)
		labels = append(labels, th.label)
	}
	return
}

// Release lets the thread run to its next point.
func (s *Sched) Release(id string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, th := range s.list {
		if th.id == id && th.parked {
			th.parked = false
			s.last = th
			s.npoints++
			if s.tracing {
				s.Trace = append(s.Trace, id+" @ "+th.label)
			}
			th.wake <- true
			return
		}
	}
	panic("release of a thread that is not parked: " + id)
}

// Status: harness threads not finished, other threads not finished, threads parked.
func (s *Sched) Status() (mains, others, parked int, waiting []string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, th := range s.list {
		if th.parked {
			parked++
		}
		if th.done && !th.parked {
			continue
		}
		if th.main {
			mains++
		} else {
			others++
		}
		waiting = append(waiting, th.id+"@"+th.label)
	}
	return
}

// Abort ends every parked thread.
func (s *Sched) Abort() {
	s.mu.Lock()
	s.abort = true
	ths := append([]*thread{}, s.list...)
	for _, th := range ths {
		if th.parked {
			th.parked = false
			th.wake <- false
		}
	}
	s.mu.Unlock()
}

// NPoints is the number of releases so far.
func (s *Sched) NPoints() int { s.mu.Lock(); defer s.mu.Unlock(); return s.npoints }
