// Package vsync replaces package sync in the build of the library that the C22
// check explores (by a build overlay; /repo never sees it).  At most one
// controlled thread runs at any time; every acquisition of a lock is a point at
// which the explorer decides who continues.  All bookkeeping is in functions the
// race detector does not instrument, using plain words only, so hand-offs between
// threads create no happens-before edges; the edges of the locks themselves are
// declared to the detector explicitly.
package vsync

import (
	"runtime"
	"sync"
	"unsafe"
)

// Unchanged parts of package sync.
type (
	Map       = sync.Map
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
	Locker    = sync.Locker
	Cond      = sync.Cond
)

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// MaxThreads is the number of controlled threads.
const MaxThreads = 4

// What a parked thread is waiting for.
const (
	Idle = iota
	WantLock
	WantRLock
	Exited
)

type thread struct {
	kind int
	l    *RWMutex
}

var (
	on    bool
	turn  int // index of the thread that may run; -1: the explorer
	cur   int
	abort bool
	th    [MaxThreads]thread
	bad   string
	step  int
	join  [8]byte
	// every lock used in this run
	locks  [16]*RWMutex
	nlocks int
)

// RWMutex has the semantics of sync.RWMutex: a blocked writer blocks new readers.
type RWMutex struct {
	writer  int // holder+1
	readers int
	pending int // announced writer+1
	known   bool
	wa, ra  [8]byte
}

//go:norace
func (l *RWMutex) note() {
	if !l.known && nlocks < len(locks) {
		l.known = true
		locks[nlocks] = l
		nlocks++
	}
}

//go:norace
func fail(s string) {
	if bad == "" {
		bad = s
	}
}

// point parks the running thread until the explorer has performed its acquisition.
//
//go:norace
func point(l *RWMutex, kind int) {
	if abort {
		runtime.Goexit()
	}
	l.note()
	if !on {
		switch {
		case l.writer != 0 || kind == WantLock && l.readers != 0:
			panic("vsync: the lock was left held")
		case kind == WantLock:
			l.writer = 1
		default:
			l.readers++
		}
		return
	}
	me := cur
	th[me].l, th[me].kind = l, kind
	turn = -1
	wait(me)
	if abort {
		runtime.Goexit()
	}
}

//go:norace
func wait(me int) {
	for turn != me {
		runtime.Gosched()
	}
}

// Lock is sync.RWMutex.Lock.
//
//go:norace
func (l *RWMutex) Lock() {
	point(l, WantLock)
	raceAcquire(unsafe.Pointer(&l.wa))
	raceAcquire(unsafe.Pointer(&l.ra))
}

// RLock is sync.RWMutex.RLock.
//
//go:norace
func (l *RWMutex) RLock() {
	point(l, WantRLock)
	raceAcquire(unsafe.Pointer(&l.wa))
}

// Unlock is sync.RWMutex.Unlock.
//
//go:norace
func (l *RWMutex) Unlock() {
	if abort {
		return
	}
	if l.writer == 0 {
		fail("Unlock of an unlocked mutex")
		return
	}
	raceRelease(unsafe.Pointer(&l.wa))
	l.writer = 0
}

// RUnlock is sync.RWMutex.RUnlock.
//
//go:norace
func (l *RWMutex) RUnlock() {
	if abort {
		return
	}
	if l.readers == 0 {
		fail("RUnlock of an unlocked mutex")
		return
	}
	raceReleaseMerge(unsafe.Pointer(&l.ra))
	l.readers--
}

// TryLock is sync.RWMutex.TryLock.
//
//go:norace
func (l *RWMutex) TryLock() bool {
	l.note()
	if l.writer != 0 || l.readers != 0 {
		return false
	}
	l.writer = cur + 1
	raceAcquire(unsafe.Pointer(&l.wa))
	raceAcquire(unsafe.Pointer(&l.ra))
	return true
}

// TryRLock is sync.RWMutex.TryRLock.
//
//go:norace
func (l *RWMutex) TryRLock() bool {
	l.note()
	if l.writer != 0 || l.pending != 0 {
		return false
	}
	l.readers++
	raceAcquire(unsafe.Pointer(&l.wa))
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is sync.RWMutex.RLocker.
func (l *RWMutex) RLocker() Locker { return (*rlocker)(l) }

// Mutex is sync.Mutex.
type Mutex struct{ m RWMutex }

// Lock is sync.Mutex.Lock.
func (m *Mutex) Lock() { m.m.Lock() }

// Unlock is sync.Mutex.Unlock.
func (m *Mutex) Unlock() { m.m.Unlock() }

// TryLock is sync.Mutex.TryLock.
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do is sync.Once.Do.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// --- the explorer's side ----------------------------------------------------

// Start begins a controlled run.
//
//go:norace
func Start() {
	on, abort, bad, step, turn = true, false, "", 0, -1
	for i := range th {
		th[i] = thread{}
	}
	for i := 0; i < nlocks; i++ {
		locks[i] = nil
	}
	nlocks = 0
}

// Stop ends it and returns what went wrong in the lock operations.
//
//go:norace
func Stop() string {
	on, abort = false, false
	for i := 0; i < nlocks && bad == ""; i++ {
		if locks[i].writer != 0 || locks[i].readers != 0 {
			bad = "a lock is still held after all operations have returned"
		}
		locks[i].writer, locks[i].readers, locks[i].pending = 0, 0, 0
	}
	raceAcquire(unsafe.Pointer(&join))
	return bad
}

// Enter is called first by thread me.
//
//go:norace
func Enter(me int) { wait(me) }

// Exit is called last by thread me.
//
//go:norace
func Exit(me int) {
	raceReleaseMerge(unsafe.Pointer(&join))
	th[me].kind = Exited
	turn = -1
}

// Run lets thread me run until it parks or exits.
//
//go:norace
func Run(me int) {
	cur = me
	turn = me
	for turn != -1 {
		runtime.Gosched()
	}
}

// Step is the number of transitions so far.
//
//go:norace
func Step() int { return step }

// Done reports whether thread me has exited.
//
//go:norace
func Done(me int) bool { return th[me].kind == Exited }

// Enabled reports whether thread me has a transition: 0 none, 1 acquire, 2 announce.
//
//go:norace
func Enabled(me int) int {
	t := &th[me]
	switch t.kind {
	case WantLock:
		if t.l.writer == 0 && t.l.readers == 0 && (t.l.pending == 0 || t.l.pending == me+1) {
			return 1
		}
		if t.l.writer == 0 && t.l.pending == 0 {
			return 2
		}
	case WantRLock:
		if t.l.writer == 0 && t.l.pending == 0 {
			return 1
		}
	}
	return 0
}

// Take performs the transition of thread me.
//
//go:norace
func Take(me int) {
	t := &th[me]
	step++
	if Enabled(me) == 2 {
		t.l.pending = me + 1
		return
	}
	if t.kind == WantLock {
		t.l.writer, t.l.pending = me+1, 0
	} else {
		t.l.readers++
	}
	t.kind = Idle
	Run(me)
}

// Abort ends the parked thread me.
//
//go:norace
func Abort(me int) {
	abort = true
	Run(me)
}
