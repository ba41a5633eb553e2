// Package sync is package sync with scheduling points (see shim/sched).
package sync

import (
	"sync"
	"sync/atomic"

	"github.com/gkampitakis/go-snaps/zzshim/sched"
)

type (
	Locker = sync.Locker
	Pool   = sync.Pool
	Cond   = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	if sched.Point("lock") {
		if !m.mu.TryLock() {
			sched.Diverge("locked mutex")
		}
		return
	}
	m.mu.Lock()
}

func (m *Mutex) TryLock() bool { sched.Point("trylock"); return m.mu.TryLock() }
func (m *Mutex) Unlock()       { m.mu.Unlock() }

type RWMutex struct{ mu sync.RWMutex }

func (m *RWMutex) Lock() {
	if sched.Point("lock") {
		if !m.mu.TryLock() {
			sched.Diverge("locked mutex")
		}
		return
	}
	m.mu.Lock()
}

func (m *RWMutex) RLock() {
	if sched.Point("rlock") {
		if !m.mu.TryRLock() {
			sched.Diverge("locked mutex")
		}
		return
	}
	m.mu.RLock()
}

func (m *RWMutex) TryLock() bool  { sched.Point("trylock"); return m.mu.TryLock() }
func (m *RWMutex) TryRLock() bool { sched.Point("trylock"); return m.mu.TryRLock() }
func (m *RWMutex) Unlock()        { m.mu.Unlock() }
func (m *RWMutex) RUnlock()       { m.mu.RUnlock() }

type rlocker RWMutex

func (m *rlocker) Lock()   { (*RWMutex)(m).RLock() }
func (m *rlocker) Unlock() { (*RWMutex)(m).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	done atomic.Bool
	mu   sync.Mutex
}

func (o *Once) Do(f func()) {
	follow := sched.Point("once")
	if o.done.Load() {
		return
	}
	if !o.mu.TryLock() {
		if !follow {
			o.mu.Lock()
		} else if sched.Point("block"); !o.mu.TryLock() {
			sched.Diverge("running once")
		}
	}
	defer o.mu.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var r T
	return func() T {
		o.Do(func() { r = f() })
		return r
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var r T
	var s U
	return func() (T, U) {
		o.Do(func() { r, s = f() })
		return r, s
	}
}

type WaitGroup struct {
	wg sync.WaitGroup
	n  atomic.Int64
}

func (w *WaitGroup) Add(n int) { w.n.Add(int64(n)); w.wg.Add(n) }
func (w *WaitGroup) Done()     { w.n.Add(-1); w.wg.Done() }
func (w *WaitGroup) Wait() {
	if w.n.Load() > 0 {
		sched.Point("block")
	}
	w.wg.Wait()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sched.Go(f, w.Done)
}

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool) { sched.Point("syncmap"); return m.m.Load(k) }
func (m *Map) Store(k, v any)         { sched.Point("syncmap"); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	sched.Point("syncmap")
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) { sched.Point("syncmap"); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                    { sched.Point("syncmap"); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)       { sched.Point("syncmap"); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool { sched.Point("syncmap"); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool {
	sched.Point("syncmap")
	return m.m.CompareAndDelete(k, o)
}
func (m *Map) Range(f func(k, v any) bool) { sched.Point("syncmap"); m.m.Range(f) }
func (m *Map) Clear()                      { sched.Point("syncmap"); m.m.Clear() }
