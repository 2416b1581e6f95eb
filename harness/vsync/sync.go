package vsync

import (
	"sync"
	"unsafe"
)

// What is not scheduled is that of package sync.
type (
	Locker = sync.Locker
	Pool   = sync.Pool
	Map    = sync.Map
)

// Mutex is a sync.Mutex.
type Mutex struct {
	locked bool
	real   sync.Mutex
	tok    byte
}

func (m *Mutex) ready() bool { return !m.locked }

// Lock locks.
func (m *Mutex) Lock() {
	raceOff()
	x, g := self()
	if g == nil {
		raceOn()
		m.real.Lock()
		return
	}
	x.yield(g, false)
	x.sync(g)
	x.block(g, m)
	m.locked = true
	x.log(g, "mlock", unsafe.Pointer(m), 0)
	x.mu.Unlock()
	raceOn()
	raceAcquire(unsafe.Pointer(&m.tok))
}

// TryLock tries to lock.
func (m *Mutex) TryLock() bool {
	raceOff()
	x, g := self()
	if g == nil {
		raceOn()
		return m.real.TryLock()
	}
	x.yield(g, false)
	ok := !m.locked
	m.locked = true
	x.log(g, "other", unsafe.Pointer(m), 0)
	x.mu.Unlock()
	raceOn()
	if ok {
		raceAcquire(unsafe.Pointer(&m.tok))
	}
	return ok
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	raceOff()
	x, g := self()
	if g == nil {
		raceOn()
		m.real.Unlock()
		return
	}
	x.yield(g, false)
	if !m.locked {
		x.mu.Unlock()
		raceOn()
		panic("sync: unlock of unlocked mutex")
	}
	raceOn()
	raceRelease(unsafe.Pointer(&m.tok))
	raceOff()
	m.locked = false
	x.log(g, "munlock", unsafe.Pointer(m), 0)
	x.mu.Unlock()
	raceOn()
}

// RWMutex is a sync.RWMutex: a waiting writer keeps new readers out.
type RWMutex struct {
	readers int // that hold the lock
	waiting []*rwait
	writer  *rwait // the writer that has announced itself
	real    sync.RWMutex
	rtok    byte
	wtok    byte
}

type rwait struct {
	m       *RWMutex
	write   bool
	granted bool
}

func (w *rwait) ready() bool {
	if !w.write {
		return w.granted
	}
	if w.m.writer == nil {
		return true // may announce itself
	}
	return w.m.writer == w && w.m.readers == 0
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	raceOff()
	x, g := self()
	if g == nil {
		raceOn()
		m.real.Lock()
		return
	}
	x.yield(g, false)
	x.sync(g)
	w := &rwait{m: m, write: true}
	x.block(g, w)
	m.writer = w
	x.log(g, "announce", unsafe.Pointer(m), 0)
	x.sync(g)
	x.block(g, w)
	x.log(g, "lock", unsafe.Pointer(m), 0)
	x.mu.Unlock()
	raceOn()
	raceAcquire(unsafe.Pointer(&m.rtok))
	raceAcquire(unsafe.Pointer(&m.wtok))
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	raceOff()
	x, g := self()
	if g == nil {
		raceOn()
		return m.real.TryLock()
	}
	x.yield(g, false)
	ok := m.writer == nil && m.readers == 0
	x.log(g, "other", unsafe.Pointer(m), 0)
	if ok {
		m.writer = &rwait{m: m, write: true}
	}
	x.mu.Unlock()
	raceOn()
	if ok {
		raceAcquire(unsafe.Pointer(&m.rtok))
		raceAcquire(unsafe.Pointer(&m.wtok))
	}
	return ok
}

// Unlock undoes Lock.
func (m *RWMutex) Unlock() {
	raceOff()
	x, g := self()
	if g == nil {
		raceOn()
		m.real.Unlock()
		return
	}
	x.yield(g, false)
	if m.writer == nil || m.readers != 0 {
		x.mu.Unlock()
		raceOn()
		panic("sync: Unlock of unlocked RWMutex")
	}
	raceOn()
	raceRelease(unsafe.Pointer(&m.wtok))
	raceOff()
	m.writer = nil
	x.log(g, "unlock", unsafe.Pointer(m), 0)
	for _, w := range m.waiting {
		w.granted = true
		m.readers++
	}
	m.waiting = nil
	x.mu.Unlock()
	raceOn()
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	raceOff()
	x, g := self()
	if g == nil {
		raceOn()
		m.real.RLock()
		return
	}
	x.yield(g, false)
	x.sync(g)
	x.log(g, "rlock", unsafe.Pointer(m), 0)
	if m.writer == nil {
		m.readers++
	} else {
		w := &rwait{m: m}
		m.waiting = append(m.waiting, w)
		x.block(g, w)
	}
	x.mu.Unlock()
	raceOn()
	raceAcquire(unsafe.Pointer(&m.wtok))
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	raceOff()
	x, g := self()
	if g == nil {
		raceOn()
		return m.real.TryRLock()
	}
	x.yield(g, false)
	ok := m.writer == nil
	x.log(g, "other", unsafe.Pointer(m), 0)
	if ok {
		m.readers++
	}
	x.mu.Unlock()
	raceOn()
	if ok {
		raceAcquire(unsafe.Pointer(&m.wtok))
	}
	return ok
}

// RUnlock undoes RLock.
func (m *RWMutex) RUnlock() {
	raceOff()
	x, g := self()
	if g == nil {
		raceOn()
		m.real.RUnlock()
		return
	}
	x.yield(g, false)
	if m.readers == 0 {
		x.mu.Unlock()
		raceOn()
		panic("sync: RUnlock of unlocked RWMutex")
	}
	raceOn()
	raceRelease(unsafe.Pointer(&m.rtok))
	raceOff()
	m.readers--
	x.log(g, "runlock", unsafe.Pointer(m), 0)
	x.mu.Unlock()
	raceOn()
}

// RLocker returns a Locker of RLock and RUnlock.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup is a sync.WaitGroup.
type WaitGroup struct {
	n    int
	real sync.WaitGroup
	tok  byte
}

func (w *WaitGroup) ready() bool { return w.n == 0 }

// Add adds.
func (w *WaitGroup) Add(n int) {
	raceOff()
	x, g := self()
	if g == nil {
		raceOn()
		w.real.Add(n)
		return
	}
	x.yield(g, false)
	raceOn()
	if n < 0 {
		raceRelease(unsafe.Pointer(&w.tok))
	}
	raceOff()
	w.n += n
	x.log(g, "add", unsafe.Pointer(w), n)
	bad := w.n < 0
	x.mu.Unlock()
	raceOn()
	if bad {
		panic("sync: negative WaitGroup counter")
	}
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Go starts a goroutine that is waited for.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Wait waits.
func (w *WaitGroup) Wait() {
	raceOff()
	x, g := self()
	if g == nil {
		raceOn()
		w.real.Wait()
		return
	}
	x.yield(g, false)
	x.sync(g)
	x.block(g, w)
	x.log(g, "wait", unsafe.Pointer(w), 0)
	x.mu.Unlock()
	raceOn()
	raceAcquire(unsafe.Pointer(&w.tok))
}

// Once is a sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f if it is the first call.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.set()
		f()
	}
}

func (o *Once) set() { o.done = true }

// OnceFunc is that of package sync.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is that of package sync.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// Cond is a sync.Cond.
type Cond struct {
	L       Locker
	waiting []*cwait
	tok     byte
}

type cwait struct{ granted bool }

func (w *cwait) ready() bool { return w.granted }

// NewCond returns a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits.
func (c *Cond) Wait() {
	w := &cwait{}
	c.waiting = append(c.waiting, w)
	c.L.Unlock()
	raceOff()
	x, g := self()
	if g == nil {
		panic("harness: unscheduled Cond")
	}
	x.log(g, "other", unsafe.Pointer(c), 0)
	x.block(g, w)
	x.mu.Unlock()
	raceOn()
	c.L.Lock()
}

// Signal wakes one.
func (c *Cond) Signal() {
	Yield()
	if len(c.waiting) > 0 {
		c.waiting[0].granted = true
		c.waiting = c.waiting[1:]
	}
}

// Broadcast wakes all.
func (c *Cond) Broadcast() {
	Yield()
	for _, w := range c.waiting {
		w.granted = true
	}
	c.waiting = nil
}
