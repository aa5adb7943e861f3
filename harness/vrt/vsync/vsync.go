// Package vsync replaces sync in instrumented packages.
package vsync

import (
	"sync"

	"ckubemc/vrt"
)

type Locker = sync.Locker
type Pool = sync.Pool

// RWMutex is a sync.RWMutex whose operations are scheduling points.
type RWMutex struct {
	mu sync.RWMutex
	st vrt.LockState
}

func (m *RWMutex) Lock()    { vrt.WLock(&m.st); m.mu.Lock() }
func (m *RWMutex) Unlock()  { m.mu.Unlock(); vrt.WUnlock(&m.st) }
func (m *RWMutex) RLock()   { vrt.RLock(&m.st); m.mu.RLock() }
func (m *RWMutex) RUnlock() { m.mu.RUnlock(); vrt.RUnlock(&m.st) }
func (m *RWMutex) TryLock() bool {
	return vrt.TryWLock(&m.st) && m.mu.TryLock()
}
func (m *RWMutex) TryRLock() bool {
	return vrt.TryRLock(&m.st) && m.mu.TryRLock()
}
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Mutex is a sync.Mutex whose operations are scheduling points.
type Mutex struct {
	mu sync.Mutex
	st vrt.LockState
}

func (m *Mutex) Lock()         { vrt.WLock(&m.st); m.mu.Lock() }
func (m *Mutex) Unlock()       { m.mu.Unlock(); vrt.WUnlock(&m.st) }
func (m *Mutex) TryLock() bool { return vrt.TryWLock(&m.st) && m.mu.TryLock() }

// Once is a sync.Once whose waiting is under control.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// WaitGroup is a sync.WaitGroup whose waiting is under control.
type WaitGroup struct {
	wg sync.WaitGroup
	st vrt.LockState
}

func (w *WaitGroup) Add(n int) { vrt.AddCount(&w.st, int32(n)); w.wg.Add(n) }
func (w *WaitGroup) Done()     { w.wg.Done(); vrt.AddCount(&w.st, -1) }
func (w *WaitGroup) Wait()     { vrt.Join(&w.st); w.wg.Wait() }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vrt.Go(func() { defer w.Done(); f() })
}

// Cond is a sync.Cond under control: waiters are woken by every signal, as spurious wakeups allow.
type Cond struct {
	L  Locker
	st vrt.LockState
	mu sync.Mutex
	q  []*WaitGroup
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	w := &WaitGroup{}
	w.Add(1)
	c.mu.Lock()
	c.q = append(c.q, w)
	c.mu.Unlock()
	c.L.Unlock()
	w.Wait()
	c.L.Lock()
}

func (c *Cond) Signal() {
	c.mu.Lock()
	var w *WaitGroup
	if len(c.q) > 0 {
		w, c.q = c.q[0], c.q[1:]
	}
	c.mu.Unlock()
	if w != nil {
		w.Done()
	}
}

func (c *Cond) Broadcast() {
	c.mu.Lock()
	q := c.q
	c.q = nil
	c.mu.Unlock()
	for _, w := range q {
		w.Done()
	}
}

// Map is a sync.Map whose operations are scheduling points.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { vrt.Point(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { vrt.Point(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { vrt.Point(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { vrt.Point(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { vrt.Point(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { vrt.Point(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { vrt.Point(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { vrt.Point(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Clear()                           { vrt.Point(); m.m.Clear() }
func (m *Map) Range(f func(k, v any) bool) {
	vrt.Point()
	vals := map[any]any{}
	m.m.Range(func(k, v any) bool { vals[k] = v; return true })
	for _, e := range vrt.Entries(vals) {
		vrt.Point()
		if v, ok := m.m.Load(e.K); ok && !f(e.K, v) {
			return
		}
	}
}
