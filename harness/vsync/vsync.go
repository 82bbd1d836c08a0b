// Package vsync stands in for package sync in the code under test, so that a
// schedule can decide who gets a lock next. Without a schedule (Gate == nil) it
// behaves as package sync does.
package vsync

import (
	"sync"
	"sync/atomic"
)

// The parts of package sync that need no schedule.
type (
	Once      = sync.Once
	WaitGroup = sync.WaitGroup
	Map       = sync.Map
	Pool      = sync.Pool
	Cond      = sync.Cond
	Locker    = sync.Locker
)

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }

// OnceValues is sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) { return sync.OnceValues(f) }

// Gate is called where a schedule may switch to another goroutine. The caller
// may go on once ready() holds.
var Gate func(ready func() bool)

func gate(ready func() bool) {
	if g := Gate; g != nil {
		g(ready)
	}
}

func always() bool { return true }

// Mutex is a mutex.
type Mutex struct {
	mu   sync.Mutex
	held int32
}

// Lock locks.
func (m *Mutex) Lock() {
	gate(func() bool { return atomic.LoadInt32(&m.held) == 0 })
	m.mu.Lock()
	atomic.StoreInt32(&m.held, 1)
}

// TryLock tries to lock.
func (m *Mutex) TryLock() bool {
	gate(always)
	if m.mu.TryLock() {
		atomic.StoreInt32(&m.held, 1)
		return true
	}
	return false
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	atomic.StoreInt32(&m.held, 0)
	m.mu.Unlock()
	gate(always)
}

// RWMutex is a reader/writer mutex.
type RWMutex struct {
	mu                       sync.RWMutex
	writer, waiting, readers int32
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	gate(always)
	atomic.AddInt32(&m.waiting, 1)
	gate(func() bool { return atomic.LoadInt32(&m.writer) == 0 && atomic.LoadInt32(&m.readers) == 0 })
	m.mu.Lock()
	atomic.AddInt32(&m.waiting, -1)
	atomic.StoreInt32(&m.writer, 1)
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	gate(always)
	if m.mu.TryLock() {
		atomic.StoreInt32(&m.writer, 1)
		return true
	}
	return false
}

// Unlock unlocks.
func (m *RWMutex) Unlock() {
	atomic.StoreInt32(&m.writer, 0)
	m.mu.Unlock()
	gate(always)
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	gate(func() bool { return atomic.LoadInt32(&m.writer) == 0 && atomic.LoadInt32(&m.waiting) == 0 })
	m.mu.RLock()
	atomic.AddInt32(&m.readers, 1)
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	gate(always)
	if m.mu.TryRLock() {
		atomic.AddInt32(&m.readers, 1)
		return true
	}
	return false
}

// RUnlock unlocks.
func (m *RWMutex) RUnlock() {
	atomic.AddInt32(&m.readers, -1)
	m.mu.RUnlock()
	gate(always)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is the reading side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }
