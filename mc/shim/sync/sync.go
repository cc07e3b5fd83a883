// Package sync is the standard sync with scheduling points.
package sync

import (
	std "sync"

	"verifmc/sched"
)

type Locker = std.Locker

type Mutex struct {
	mu  std.Mutex
	res sched.Res
}

// fix gives up what a run that ended in a deadlock still holds.
//
//go:norace
func (m *Mutex) fix() {
	if sched.Stale(&m.res) {
		m.mu = std.Mutex{}
	}
}

//go:norace
func (m *RWMutex) fix() {
	if sched.Stale(&m.res) {
		m.mu = std.RWMutex{}
	}
}

func (m *Mutex) Lock() {
	m.fix()
	sched.Lock(&m.res, "Lock")
	m.mu.Lock()
}

func (m *Mutex) TryLock() bool {
	m.fix()
	if managed, ok := sched.TryLock(&m.res, "TryLock"); managed && !ok {
		return false
	}
	return m.mu.TryLock()
}

func (m *Mutex) Unlock() {
	m.mu.Unlock()
	sched.Unlock(&m.res, "Unlock")
}

type RWMutex struct {
	mu  std.RWMutex
	res sched.Res
}

func (m *RWMutex) Lock() {
	m.fix()
	sched.Lock(&m.res, "Lock")
	m.mu.Lock()
}

func (m *RWMutex) TryLock() bool {
	m.fix()
	if managed, ok := sched.TryLock(&m.res, "TryLock"); managed && !ok {
		return false
	}
	return m.mu.TryLock()
}

func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	sched.Unlock(&m.res, "Unlock")
}

func (m *RWMutex) RLock() {
	m.fix()
	sched.RLock(&m.res, "RLock")
	m.mu.RLock()
}

func (m *RWMutex) TryRLock() bool {
	m.fix()
	if sched.Managed() {
		sched.Point("TryRLock")
		if !m.mu.TryRLock() {
			return false
		}
		sched.RLock(&m.res, "TryRLock")
		return true
	}
	return m.mu.TryRLock()
}

func (m *RWMutex) RUnlock() {
	m.mu.RUnlock()
	sched.RUnlock(&m.res, "RUnlock")
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is the standard algorithm: a flag read first, then a mutex.
type Once struct {
	once std.Once
	m    Mutex
}

func (o *Once) Do(f func()) {
	if !sched.Managed() {
		o.once.Do(f)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	o.once.Do(f)
}

func OnceFunc(f func()) func() {
	var o Once
	var valid bool
	var p any
	return func() {
		o.Do(func() {
			defer func() {
				p = recover()
				if !valid {
					panic(p)
				}
			}()
			f()
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	g := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { g(); return r1, r2 }
}

type WaitGroup struct {
	wg  std.WaitGroup
	res sched.Res
}

func (w *WaitGroup) Add(n int) {
	w.wg.Add(n)
	sched.AddCount(&w.res, n)
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	sched.WaitZero(&w.res)
	w.wg.Wait()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sched.Go(func() {
		defer w.Done()
		f()
	})
}

type Cond struct {
	L   Locker
	c   *std.Cond
	mu  std.Mutex
	res sched.Res
	n   int
}

func NewCond(l Locker) *Cond { return &Cond{L: l, c: std.NewCond(l)} }

func (c *Cond) Wait() {
	if !sched.Managed() {
		c.c.Wait()
		return
	}
	c.mu.Lock()
	c.n++
	c.mu.Unlock()
	c.L.Unlock()
	sched.AwaitSignal(&c.res)
	c.L.Lock()
}

func (c *Cond) Signal() {
	if sched.Managed() {
		c.mu.Lock()
		n := 0
		if c.n > 0 {
			c.n--
			n = 1
		}
		c.mu.Unlock()
		sched.Signal(&c.res, n)
		return
	}
	c.c.Signal()
}

func (c *Cond) Broadcast() {
	if sched.Managed() {
		c.mu.Lock()
		n := c.n
		c.n = 0
		c.mu.Unlock()
		sched.Signal(&c.res, n)
		return
	}
	c.c.Broadcast()
}

// Map is the standard one with a point before each operation.
type Map struct{ m std.Map }

func (m *Map) Load(k any) (any, bool)           { sched.Point("Map"); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { sched.Point("Map"); m.m.Store(k, v) }
func (m *Map) Clear()                           { sched.Point("Map"); m.m.Clear() }
func (m *Map) LoadOrStore(k, v any) (any, bool) { sched.Point("Map"); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { sched.Point("Map"); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { sched.Point("Map"); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { sched.Point("Map"); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	sched.Point("Map")
	return m.m.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o any) bool { sched.Point("Map"); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)    { sched.Point("Map"); m.m.Range(f) }
