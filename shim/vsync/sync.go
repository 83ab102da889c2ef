// Package vsync replaces package sync in instrumented code.
package vsync

import (
	"verif.local/mc/shim/vrt"
)

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Mutex is a controlled mutual exclusion lock.
type Mutex struct{ locked bool }

// Lock acquires the lock.
func (m *Mutex) Lock() {
	vrt.BlockUntil("lock", m, func() bool { return !m.locked })
	m.locked = true
	vrt.SetState(m, 1)
}

// TryLock tries to acquire the lock.
func (m *Mutex) TryLock() bool {
	vrt.Point("trylock", m)
	if m.locked {
		return false
	}
	m.locked = true
	vrt.SetState(m, 1)
	return true
}

// Unlock releases the lock.
func (m *Mutex) Unlock() {
	if !m.locked {
		if vrt.Aborting() {
			return
		}
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	vrt.SetState(m, 0)
}

// RWMutex is a controlled reader/writer lock in which a waiting writer blocks
// new readers, as in package sync.
type RWMutex struct {
	w       bool
	readers int
	waiting int
}

func (m *RWMutex) note() {
	vrt.SetState(m, b2u(m.w)|uint64(m.readers)<<1|uint64(m.waiting)<<32)
}

// Lock acquires the write lock.
func (m *RWMutex) Lock() {
	vrt.Point("wlock", m)
	m.waiting++
	m.note()
	vrt.BlockUntil("wlock", m, func() bool { return !m.w && m.readers == 0 })
	m.waiting--
	m.w = true
	m.note()
}

// TryLock tries to acquire the write lock.
func (m *RWMutex) TryLock() bool {
	vrt.Point("trywlock", m)
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	m.note()
	return true
}

// Unlock releases the write lock.
func (m *RWMutex) Unlock() {
	if !m.w {
		if vrt.Aborting() {
			return
		}
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.note()
}

// RLock acquires a read lock.
func (m *RWMutex) RLock() {
	vrt.BlockUntil("rlock", m, func() bool { return !m.w && m.waiting == 0 })
	m.readers++
	m.note()
}

// TryRLock tries to acquire a read lock.
func (m *RWMutex) TryRLock() bool {
	vrt.Point("tryrlock", m)
	if m.w || m.waiting > 0 {
		return false
	}
	m.readers++
	m.note()
	return true
}

// RUnlock releases a read lock.
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		if vrt.Aborting() {
			return
		}
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.note()
}

// RLocker returns a Locker for the read lock.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (l rlocker) Lock()   { l.m.RLock() }
func (l rlocker) Unlock() { l.m.RUnlock() }

// Once runs a function once.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f if it was not called before.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// WaitGroup is a controlled sync.WaitGroup.
type WaitGroup struct{ n int }

// Add adds delta to the counter.
func (w *WaitGroup) Add(delta int) {
	vrt.Point("wg.add", w)
	w.n += delta
	if w.n < 0 && !vrt.Aborting() {
		panic("sync: negative WaitGroup counter")
	}
	vrt.SetState(w, uint64(w.n))
}

// Done decrements the counter.
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait blocks until the counter is zero.
func (w *WaitGroup) Wait() { vrt.BlockUntil("wg.wait", w, func() bool { return w.n == 0 }) }

// Go runs f in a new goroutine and adds it to the group.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vrt.GoNamed("wg.Go", func() { defer w.Done(); f() })
}

// Cond is a controlled condition variable.
type Cond struct {
	L       Locker
	waiters []*bool
}

// NewCond returns a new condition variable.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a signal.
func (c *Cond) Wait() {
	w := new(bool)
	c.waiters = append(c.waiters, w)
	c.L.Unlock()
	vrt.BlockUntil("cond.wait", c, func() bool { return *w })
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	vrt.Point("cond.signal", c)
	if len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	vrt.Point("cond.broadcast", c)
	for _, w := range c.waiters {
		*w = true
	}
	c.waiters = nil
}

// Pool always returns the most recently stored value.
type Pool struct {
	New   func() any
	items []any
}

// Get returns a stored or a new value.
func (p *Pool) Get() any {
	vrt.Point("pool.get", p)
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put stores a value.
func (p *Pool) Put(v any) {
	vrt.Point("pool.put", p)
	if v != nil {
		p.items = append(p.items, v)
	}
}

// Map is a controlled sync.Map iterating in insertion order.
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) set(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	vrt.SetState(m, uint64(len(m.m)))
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i := range m.keys {
			if m.keys[i] == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
		vrt.SetState(m, uint64(len(m.m)))
	}
}

// Load is sync.Map.Load.
func (m *Map) Load(k any) (any, bool) {
	vrt.Point("map.load", m)
	v, ok := m.m[k]
	return v, ok
}

// Store is sync.Map.Store.
func (m *Map) Store(k, v any) {
	vrt.Point("map.store", m)
	m.set(k, v)
}

// LoadOrStore is sync.Map.LoadOrStore.
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	vrt.Point("map.loadorstore", m)
	if old, ok := m.m[k]; ok {
		return old, true
	}
	m.set(k, v)
	return v, false
}

// LoadAndDelete is sync.Map.LoadAndDelete.
func (m *Map) LoadAndDelete(k any) (any, bool) {
	vrt.Point("map.loadanddelete", m)
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

// Delete is sync.Map.Delete.
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

// Swap is sync.Map.Swap.
func (m *Map) Swap(k, v any) (any, bool) {
	vrt.Point("map.swap", m)
	old, ok := m.m[k]
	m.set(k, v)
	return old, ok
}

// CompareAndSwap is sync.Map.CompareAndSwap.
func (m *Map) CompareAndSwap(k, old, v any) bool {
	vrt.Point("map.cas", m)
	if cur, ok := m.m[k]; ok && cur == old {
		m.set(k, v)
		return true
	}
	return false
}

// CompareAndDelete is sync.Map.CompareAndDelete.
func (m *Map) CompareAndDelete(k, old any) bool {
	vrt.Point("map.cad", m)
	if cur, ok := m.m[k]; ok && cur == old {
		m.del(k)
		return true
	}
	return false
}

// Range is sync.Map.Range.
func (m *Map) Range(f func(k, v any) bool) {
	vrt.Point("map.range", m)
	for _, k := range append([]any(nil), m.keys...) {
		v, ok := m.m[k]
		if ok && !f(k, v) {
			return
		}
	}
}

// Clear is sync.Map.Clear.
func (m *Map) Clear() {
	vrt.Point("map.clear", m)
	m.m, m.keys = nil, nil
	vrt.SetState(m, 0)
}
