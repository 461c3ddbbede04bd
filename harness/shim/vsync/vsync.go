// Package vsync mirrors package sync on top of the controlled scheduler.
package vsync

import (
	"sync"
	"sync/atomic"

	"verif.local/h/vsched"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
	Pool   = sync.Pool
)

// Mutex mirrors sync.Mutex.
type Mutex struct {
	mu   sync.Mutex
	held atomic.Bool
}

func (m *Mutex) Lock() {
	vsched.Yield()
	if vsched.Active() {
		for !m.mu.TryLock() {
			if !vsched.Active() {
				m.mu.Lock()
				break
			}
			vsched.BlockUntil("Mutex.Lock", func() bool { return !m.held.Load() })
		}
	} else {
		m.mu.Lock()
	}
	m.held.Store(true)
}

func (m *Mutex) TryLock() bool {
	vsched.Yield()
	if m.mu.TryLock() {
		m.held.Store(true)
		return true
	}
	return false
}

func (m *Mutex) Unlock() {
	vsched.Yield()
	m.held.Store(false)
	m.mu.Unlock()
	vsched.Yield()
}

// RWMutex mirrors sync.RWMutex.
type RWMutex struct {
	mu      sync.RWMutex
	writer  atomic.Bool
	readers atomic.Int32
}

func (m *RWMutex) Lock() {
	vsched.Yield()
	if vsched.Active() {
		for !m.mu.TryLock() {
			if !vsched.Active() {
				m.mu.Lock()
				break
			}
			vsched.BlockUntil("RWMutex.Lock", func() bool { return !m.writer.Load() && m.readers.Load() == 0 })
		}
	} else {
		m.mu.Lock()
	}
	m.writer.Store(true)
}

func (m *RWMutex) TryLock() bool {
	vsched.Yield()
	if m.mu.TryLock() {
		m.writer.Store(true)
		return true
	}
	return false
}

func (m *RWMutex) Unlock() {
	vsched.Yield()
	m.writer.Store(false)
	m.mu.Unlock()
	vsched.Yield()
}

func (m *RWMutex) RLock() {
	vsched.Yield()
	if vsched.Active() {
		for !m.mu.TryRLock() {
			if !vsched.Active() {
				m.mu.RLock()
				break
			}
			vsched.BlockUntil("RWMutex.RLock", func() bool { return !m.writer.Load() })
		}
	} else {
		m.mu.RLock()
	}
	m.readers.Add(1)
}

func (m *RWMutex) TryRLock() bool {
	vsched.Yield()
	if m.mu.TryRLock() {
		m.readers.Add(1)
		return true
	}
	return false
}

func (m *RWMutex) RUnlock() {
	vsched.Yield()
	m.readers.Add(-1)
	m.mu.RUnlock()
	vsched.Yield()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once mirrors sync.Once.
type Once struct {
	done atomic.Bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	vsched.Yield()
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	var p any
	ok := false
	g := func() {
		defer func() {
			p = recover()
			if !ok {
				panic(p)
			}
		}()
		f()
		ok = true
	}
	return func() {
		o.Do(g)
		if !ok {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	g := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { g(); return r1, r2 }
}

// WaitGroup mirrors sync.WaitGroup.
type WaitGroup struct {
	wg sync.WaitGroup
	n  atomic.Int64
}

func (w *WaitGroup) Add(d int) { vsched.Yield(); w.n.Add(int64(d)); w.wg.Add(d) }
func (w *WaitGroup) Done()     { vsched.Yield(); w.n.Add(-1); w.wg.Done() }
func (w *WaitGroup) Wait() {
	vsched.Yield()
	if vsched.Active() {
		vsched.BlockUntil("WaitGroup.Wait", func() bool { return w.n.Load() <= 0 })
	}
	w.wg.Wait()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() { defer w.Done(); f() })
}

// Cond mirrors sync.Cond.
type Cond struct {
	L    Locker
	once sync.Once
	c    *sync.Cond
	gen  atomic.Uint64
	wake atomic.Int64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) real() *sync.Cond {
	c.once.Do(func() { c.c = sync.NewCond(c.L) })
	return c.c
}

func (c *Cond) Wait() {
	if !vsched.Active() {
		c.real().Wait()
		return
	}
	g := c.gen.Load()
	c.L.Unlock()
	vsched.BlockUntil("Cond.Wait", func() bool {
		if c.gen.Load() != g {
			return true
		}
		if c.wake.Load() > 0 {
			return true
		}
		return false
	})
	if c.gen.Load() == g && c.wake.Load() > 0 {
		c.wake.Add(-1)
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	vsched.Yield()
	if !vsched.Active() {
		c.real().Signal()
		return
	}
	c.wake.Add(1)
}

func (c *Cond) Broadcast() {
	vsched.Yield()
	if !vsched.Active() {
		c.real().Broadcast()
		return
	}
	c.wake.Store(0)
	c.gen.Add(1)
}
