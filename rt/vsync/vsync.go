// Package vsync replaces package sync in instrumented code: the same API, with
// blocking decided by the controlled scheduler.
//
// Exactly one controlled goroutine runs at a time, so the state below needs no
// protection. In the race build the happens-before edges of package sync are
// reported explicitly.
package vsync

import (
	"fmt"
	"runtime"
	"sync"
	"unsafe"

	"github.com/yields/ant/zverif/vsched"
)

// Locker is sync.Locker.
type Locker = sync.Locker

func block(label string, kind int32, addr *int32, free func() bool) {
	vsched.Point(label, kind, addr)
	if free() {
		return
	}
	if vsched.Aborting() {
		runtime.Goexit()
	}
	// Only possible outside of control: nobody can ever release it.
	panic("verif: " + label + " would block forever outside of a controlled goroutine")
}

// Mutex is sync.Mutex.
type Mutex struct{ st int32 }

// Lock locks m.
//
//go:norace
func (m *Mutex) Lock() {
	block("lock", vsched.KZero, &m.st, func() bool { return m.st == 0 })
	m.st = 1
	vsched.Acquire(unsafe.Pointer(m))
}

// TryLock tries to lock m.
//
//go:norace
func (m *Mutex) TryLock() bool {
	vsched.P("trylock")
	if m.st != 0 {
		return false
	}
	m.st = 1
	vsched.Acquire(unsafe.Pointer(m))
	return true
}

// Unlock unlocks m.
//
//go:norace
func (m *Mutex) Unlock() {
	if m.st == 0 {
		if vsched.Aborting() {
			return
		}
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	vsched.Release(unsafe.Pointer(m))
	m.st = 0
}

// RWMutex is sync.RWMutex. As there, a waiting writer keeps new readers out.
type RWMutex struct {
	w       int32 // a writer holds or waits for the lock
	gate    int32 // readers are kept out
	readers int32
	held    int32
	rd      int32 // address for reader releases
}

// Lock locks for writing.
//
//go:norace
func (m *RWMutex) Lock() {
	block("wlock", vsched.KZero, &m.w, func() bool { return m.w == 0 })
	m.w, m.gate = 1, 1
	if m.readers != 0 {
		block("wlock-readers", vsched.KZero, &m.readers, func() bool { return m.readers == 0 })
	}
	m.held = 1
	vsched.Acquire(unsafe.Pointer(m))
	vsched.Acquire(unsafe.Pointer(&m.rd))
}

// TryLock tries to lock for writing.
//
//go:norace
func (m *RWMutex) TryLock() bool {
	vsched.P("trylock")
	if m.w != 0 || m.readers != 0 {
		return false
	}
	m.w, m.gate, m.held = 1, 1, 1
	vsched.Acquire(unsafe.Pointer(m))
	vsched.Acquire(unsafe.Pointer(&m.rd))
	return true
}

// Unlock unlocks for writing.
//
//go:norace
func (m *RWMutex) Unlock() {
	if m.held == 0 {
		if vsched.Aborting() {
			return
		}
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	vsched.Release(unsafe.Pointer(m))
	m.w, m.gate, m.held = 0, 0, 0
}

// RLock locks for reading.
//
//go:norace
func (m *RWMutex) RLock() {
	block("rlock", vsched.KZero, &m.gate, func() bool { return m.gate == 0 })
	m.readers++
	vsched.Acquire(unsafe.Pointer(m))
}

// TryRLock tries to lock for reading.
//
//go:norace
func (m *RWMutex) TryRLock() bool {
	vsched.P("tryrlock")
	if m.gate != 0 {
		return false
	}
	m.readers++
	vsched.Acquire(unsafe.Pointer(m))
	return true
}

// RUnlock undoes a single RLock.
//
//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		if vsched.Aborting() {
			return
		}
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	vsched.Release(unsafe.Pointer(&m.rd))
	m.readers--
}

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Cond is sync.Cond.
type Cond struct {
	L       Locker
	waiters []*int32
}

// NewCond returns a new Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits.
//
//go:norace
func (c *Cond) Wait() {
	t := new(int32)
	c.waiters = append(c.waiters, t)
	c.L.Unlock()
	block("condwait", vsched.KNonZero, t, func() bool { return *t != 0 })
	vsched.Acquire(unsafe.Pointer(c))
	c.L.Lock()
}

// Signal wakes one goroutine.
//
//go:norace
func (c *Cond) Signal() {
	vsched.P("signal")
	vsched.Release(unsafe.Pointer(c))
	if len(c.waiters) > 0 {
		*c.waiters[0] = 1
		c.waiters = c.waiters[1:]
	}
}

// Broadcast wakes all goroutines.
//
//go:norace
func (c *Cond) Broadcast() {
	vsched.P("broadcast")
	vsched.Release(unsafe.Pointer(c))
	for _, t := range c.waiters {
		*t = 1
	}
	c.waiters = nil
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n       int32
	waiters []*int32
}

// Add adds delta.
//
//go:norace
func (wg *WaitGroup) Add(delta int) {
	vsched.P("wg.add")
	if delta < 0 {
		vsched.Release(unsafe.Pointer(wg))
	}
	wg.n += int32(delta)
	if wg.n < 0 {
		if vsched.Aborting() {
			wg.n = 0
			return
		}
		panic("sync: negative WaitGroup counter")
	}
	if len(wg.waiters) > 0 && delta > 0 && wg.n == int32(delta) {
		panic("sync: WaitGroup misuse: Add called concurrently with Wait")
	}
	if wg.n == 0 {
		for _, t := range wg.waiters {
			*t = 1
		}
		wg.waiters = nil
	}
}

// Done decrements the counter.
func (wg *WaitGroup) Done() { wg.Add(-1) }

// Wait blocks until the counter is zero.
//
//go:norace
func (wg *WaitGroup) Wait() {
	vsched.P("wg.wait")
	if wg.n != 0 {
		t := new(int32)
		wg.waiters = append(wg.waiters, t)
		block("wg.wait", vsched.KNonZero, t, func() bool { return *t != 0 })
		if wg.n != 0 || len(wg.waiters) != 0 {
			panic("sync: WaitGroup is reused before previous Wait has returned")
		}
	}
	vsched.Acquire(unsafe.Pointer(wg))
}

// Go calls f in a new goroutine.
func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	vsched.Go(func() {
		defer wg.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct{ st int32 }

// Do calls f once.
//
//go:norace
func (o *Once) Do(f func()) {
	block("once", vsched.KNotOne, &o.st, func() bool { return o.st != 1 })
	if o.st == 2 {
		vsched.Acquire(unsafe.Pointer(o))
		return
	}
	o.st = 1
	defer o.done()
	f()
}

//go:norace
func (o *Once) done() {
	vsched.Release(unsafe.Pointer(o))
	o.st = 2
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	get := OnceValue(func() struct{} { f(); return struct{}{} })
	return func() { get() }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	get := OnceValues(func() (T, struct{}) { return f(), struct{}{} })
	return func() T { v, _ := get(); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var once Once
	var valid bool
	var p any
	var r1 T1
	var r2 T2
	return func() (T1, T2) {
		once.Do(func() {
			defer func() {
				p = recover()
				if !valid {
					panic(p)
				}
			}()
			r1, r2 = f()
			valid = true
		})
		if !valid {
			panic(p)
		}
		return r1, r2
	}
}

// Map is sync.Map.
type Map struct{ m sync.Map }

// Load is sync.Map.Load.
func (m *Map) Load(key any) (any, bool) { vsched.P("map.load"); return m.m.Load(key) }

// Store is sync.Map.Store.
func (m *Map) Store(key, value any) { vsched.P("map.store"); m.m.Store(key, value) }

// LoadOrStore is sync.Map.LoadOrStore.
func (m *Map) LoadOrStore(key, value any) (any, bool) {
	vsched.P("map.loadorstore")
	return m.m.LoadOrStore(key, value)
}

// LoadAndDelete is sync.Map.LoadAndDelete.
func (m *Map) LoadAndDelete(key any) (any, bool) {
	vsched.P("map.loadanddelete")
	return m.m.LoadAndDelete(key)
}

// Delete is sync.Map.Delete.
func (m *Map) Delete(key any) { vsched.P("map.delete"); m.m.Delete(key) }

// Swap is sync.Map.Swap.
func (m *Map) Swap(key, value any) (any, bool) { vsched.P("map.swap"); return m.m.Swap(key, value) }

// CompareAndSwap is sync.Map.CompareAndSwap.
func (m *Map) CompareAndSwap(key, old, new any) bool {
	vsched.P("map.cas")
	return m.m.CompareAndSwap(key, old, new)
}

// CompareAndDelete is sync.Map.CompareAndDelete.
func (m *Map) CompareAndDelete(key, old any) bool {
	vsched.P("map.cad")
	return m.m.CompareAndDelete(key, old)
}

// Clear is sync.Map.Clear.
func (m *Map) Clear() { vsched.P("map.clear"); m.m.Clear() }

// Range is sync.Map.Range, in a deterministic order.
func (m *Map) Range(f func(key, value any) bool) {
	vsched.P("map.range")
	type kv struct {
		s    string
		k, v any
	}
	var all []kv
	m.m.Range(func(k, v any) bool { all = append(all, kv{fmt.Sprint(k), k, v}); return true })
	for i := range all {
		for j := i; j > 0 && all[j].s < all[j-1].s; j-- {
			all[j], all[j-1] = all[j-1], all[j]
		}
	}
	for _, e := range all {
		if !f(e.k, e.v) {
			return
		}
	}
}

// Pool is sync.Pool: a deterministic stack which never drops items.
type Pool struct {
	New   func() any
	items []any
}

// Get takes an item.
//
//go:norace
func (p *Pool) Get() any {
	vsched.P("pool.get")
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		vsched.Acquire(unsafe.Pointer(p))
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put adds an item.
//
//go:norace
func (p *Pool) Put(v any) {
	vsched.P("pool.put")
	if v == nil {
		return
	}
	vsched.Release(unsafe.Pointer(p))
	p.items = append(p.items, v)
}
