// Package sync (simsync) replaces the standard sync package inside the
// instrumented library: every lock is a scheduling decision of the simulator.
// The real primitives are still taken (always uncontended), so that under
// -race the detector sees exactly the ordering the code under test asks for.
package sync

import (
	stdsync "sync"

	"xbnfsim/simrt"
)

// Locker is sync.Locker.
type Locker = stdsync.Locker

// Mutex is a simulated mutex.
type Mutex struct {
	locked bool
	real   stdsync.Mutex
}

//go:norace
func (m *Mutex) acquire() bool {
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

//go:norace
func (m *Mutex) release() bool {
	if !m.locked {
		return false
	}
	m.locked = false
	return true
}

// Lock locks.
func (m *Mutex) Lock() {
	simrt.Yield()
	for !m.acquire() {
		simrt.Block(m)
	}
	m.real.Lock()
}

// TryLock tries to lock.
func (m *Mutex) TryLock() bool {
	simrt.Yield()
	if !m.acquire() {
		return false
	}
	m.real.Lock()
	return true
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	simrt.Yield()
	m.check()
	m.real.Unlock()
	m.release()
	simrt.Wake(m)
}

//go:norace
func (m *Mutex) check() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
}

// RWMutex is a simulated reader/writer lock; as in the real one, a waiting
// writer holds back new readers.
type RWMutex struct {
	writer  bool
	readers int
	waiting int
	real    stdsync.RWMutex
}

//go:norace
func (m *RWMutex) acquireW() bool {
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

//go:norace
func (m *RWMutex) acquireR() bool {
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	return true
}

//go:norace
func (m *RWMutex) wait(d int) { m.waiting += d }

// Lock locks for writing.
func (m *RWMutex) Lock() {
	simrt.Yield()
	if !m.acquireW() {
		m.wait(1)
		func() {
			defer m.wait(-1)
			for !m.acquireW() {
				simrt.Block(m)
			}
		}()
	}
	m.real.Lock()
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	if !m.acquireW() {
		return false
	}
	m.real.Lock()
	return true
}

//go:norace
func (m *RWMutex) checkW() {
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
}

//go:norace
func (m *RWMutex) dropW() { m.writer = false }

// Unlock unlocks.
func (m *RWMutex) Unlock() {
	simrt.Yield()
	m.checkW()
	m.real.Unlock()
	m.dropW()
	simrt.Wake(m)
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	simrt.Yield()
	for !m.acquireR() {
		simrt.Block(m)
	}
	m.real.RLock()
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	if !m.acquireR() {
		return false
	}
	m.real.RLock()
	return true
}

//go:norace
func (m *RWMutex) dropR() {
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
}

// RUnlock unlocks.
func (m *RWMutex) RUnlock() {
	simrt.Yield()
	m.dropR()
	m.real.RUnlock()
	simrt.Wake(m)
}

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup is a simulated wait group.
type WaitGroup struct {
	n    int
	real stdsync.Mutex
}

//go:norace
func (w *WaitGroup) add(d int) int {
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	return w.n
}

// Add adds.
func (w *WaitGroup) Add(d int) {
	simrt.Yield()
	w.real.Lock()
	z := w.add(d)
	w.real.Unlock()
	if z == 0 {
		simrt.Wake(w)
	}
}

// Done decrements.
func (w *WaitGroup) Done() { w.Add(-1) }

// Go runs f in a new task.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Wait waits.
func (w *WaitGroup) Wait() {
	simrt.Yield()
	for w.add(0) > 0 {
		simrt.Block(w)
	}
	w.real.Lock()
	w.real.Unlock() //nolint
}

// Once is a simulated once.
type Once struct {
	done bool
	m    Mutex
}

// Do runs f once.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

// Pool keeps what was put and always hands it out again (worst case reuse).
type Pool struct {
	New   func() any
	m     Mutex
	items []any
}

// Get takes an item.
func (p *Pool) Get() any {
	p.m.Lock()
	var x any
	if n := len(p.items); n > 0 {
		x = p.items[n-1]
		p.items = p.items[:n-1]
	}
	p.m.Unlock()
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}

// Put returns an item.
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.items = append(p.items, x)
	p.m.Unlock()
}

// Map is a simulated sync.Map.
type Map struct {
	m  Mutex
	kv map[any]any
}

// Load loads.
func (s *Map) Load(k any) (any, bool) {
	s.m.Lock()
	defer s.m.Unlock()
	v, ok := s.kv[k]
	return v, ok
}

// Store stores.
func (s *Map) Store(k, v any) { s.Swap(k, v) }

// Swap swaps.
func (s *Map) Swap(k, v any) (any, bool) {
	s.m.Lock()
	defer s.m.Unlock()
	if s.kv == nil {
		s.kv = map[any]any{}
	}
	old, ok := s.kv[k]
	s.kv[k] = v
	return old, ok
}

// LoadOrStore loads or stores.
func (s *Map) LoadOrStore(k, v any) (any, bool) {
	s.m.Lock()
	defer s.m.Unlock()
	if old, ok := s.kv[k]; ok {
		return old, true
	}
	if s.kv == nil {
		s.kv = map[any]any{}
	}
	s.kv[k] = v
	return v, false
}

// LoadAndDelete loads and deletes.
func (s *Map) LoadAndDelete(k any) (any, bool) {
	s.m.Lock()
	defer s.m.Unlock()
	old, ok := s.kv[k]
	delete(s.kv, k)
	return old, ok
}

// CompareAndSwap compares and swaps.
func (s *Map) CompareAndSwap(k, old, v any) bool {
	s.m.Lock()
	defer s.m.Unlock()
	if cur, ok := s.kv[k]; !ok || cur != old {
		return false
	}
	s.kv[k] = v
	return true
}

// CompareAndDelete compares and deletes.
func (s *Map) CompareAndDelete(k, old any) bool {
	s.m.Lock()
	defer s.m.Unlock()
	if cur, ok := s.kv[k]; !ok || cur != old {
		return false
	}
	delete(s.kv, k)
	return true
}

// Delete deletes.
func (s *Map) Delete(k any) { s.LoadAndDelete(k) }

// Clear clears.
func (s *Map) Clear() {
	s.m.Lock()
	s.kv = nil
	s.m.Unlock()
}

// Range ranges in simulator-chosen order.
func (s *Map) Range(f func(k, v any) bool) {
	s.m.Lock()
	cp := make(map[any]any, len(s.kv))
	for k, v := range s.kv {
		cp[k] = v
	}
	s.m.Unlock()
	for it := simrt.MapIter(cp); it.Next(); {
		if !f(it.K, it.V) {
			return
		}
	}
}

// Cond is a simulated condition variable.
type Cond struct {
	L    Locker
	next int
	wait []*int
}

// NewCond creates a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits.
func (c *Cond) Wait() {
	tok := new(int)
	c.wait = append(c.wait, tok)
	c.L.Unlock()
	for *tok == 0 {
		simrt.Block(tok)
	}
	c.L.Lock()
}

// Signal wakes one.
func (c *Cond) Signal() {
	if len(c.wait) > 0 {
		tok := c.wait[0]
		c.wait = c.wait[1:]
		*tok = 1
		simrt.Wake(tok)
	}
}

// Broadcast wakes all.
func (c *Cond) Broadcast() {
	for len(c.wait) > 0 {
		c.Signal()
	}
}
