// Package simsync stands in for package sync in instrumented code. The primitives behave like the real ones and
// give the race detector the same happens-before edges, but waiting is handed to the simulator's scheduler.
package simsync

import (
	"sync"
	"sync/atomic"

	"verif.local/sim/simrt"
)

// Locker is sync.Locker
type Locker = sync.Locker

// Map is sync.Map; it never blocks
type Map = sync.Map

// Mutex is a mutual exclusion lock
type Mutex struct{ mu sync.Mutex }

// Lock locks m
func (m *Mutex) Lock() {
	simrt.IO()
	for !m.mu.TryLock() {
		simrt.Block()
	}
}

// TryLock tries to lock m
func (m *Mutex) TryLock() bool {
	simrt.IO()
	return m.mu.TryLock()
}

// Unlock unlocks m
func (m *Mutex) Unlock() {
	m.mu.Unlock()
	simrt.Notify()
	simrt.IO()
}

// RWMutex is a reader/writer lock
type RWMutex struct{ mu sync.RWMutex }

// Lock locks rw for writing
func (rw *RWMutex) Lock() {
	simrt.IO()
	for !rw.mu.TryLock() {
		simrt.Block()
	}
}

// TryLock tries to lock rw for writing
func (rw *RWMutex) TryLock() bool { simrt.IO(); return rw.mu.TryLock() }

// Unlock unlocks rw for writing
func (rw *RWMutex) Unlock() {
	rw.mu.Unlock()
	simrt.Notify()
	simrt.IO()
}

// RLock locks rw for reading
func (rw *RWMutex) RLock() {
	simrt.IO()
	for !rw.mu.TryRLock() {
		simrt.Block()
	}
}

// TryRLock tries to lock rw for reading
func (rw *RWMutex) TryRLock() bool { simrt.IO(); return rw.mu.TryRLock() }

// RUnlock undoes a single RLock
func (rw *RWMutex) RUnlock() {
	rw.mu.RUnlock()
	simrt.Notify()
	simrt.IO()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for the read side
func (rw *RWMutex) RLocker() Locker { return (*rlocker)(rw) }

// Once performs an action exactly once
type Once struct {
	done atomic.Uint32
	m    Mutex
}

// Do calls f if and only if Do is being called for the first time
func (o *Once) Do(f func()) {
	simrt.IO()
	if o.done.Load() == 0 {
		o.slow(f)
	}
}

func (o *Once) slow(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done.Load() == 0 {
		defer o.done.Store(1)
		f()
	}
}

// OnceFunc returns a function that invokes f only once
func OnceFunc(f func()) func() {
	var o Once
	var ok bool
	var p interface{}
	g := func() {
		defer func() {
			p = recover()
			if !ok {
				panic(p)
			}
		}()
		f()
		f = nil
		ok = true
	}
	return func() {
		o.Do(g)
		if !ok {
			panic(p)
		}
	}
}

// WaitGroup waits for a collection of goroutines
type WaitGroup struct {
	wg sync.WaitGroup
	n  atomic.Int64
}

// Add adds delta
func (w *WaitGroup) Add(delta int) {
	w.wg.Add(delta)
	if w.n.Add(int64(delta)) == 0 {
		simrt.Notify()
	}
	simrt.IO()
}

// Done decrements the counter
func (w *WaitGroup) Done() { w.Add(-1) }

// Go calls f in a new goroutine
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Wait blocks until the counter is zero
func (w *WaitGroup) Wait() {
	simrt.IO()
	for w.n.Load() > 0 {
		simrt.Block()
	}
	w.wg.Wait()
}

// Cond is a condition variable
type Cond struct {
	L   Locker
	gen atomic.Uint64
	sig atomic.Int64
}

// NewCond returns a new Cond with Locker l
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for Signal or Broadcast
func (c *Cond) Wait() {
	g := c.gen.Load()
	c.L.Unlock()
	for c.gen.Load() == g {
		if s := c.sig.Load(); s > 0 && c.sig.CompareAndSwap(s, s-1) {
			break
		}
		simrt.Block()
	}
	c.L.Lock()
}

// Signal wakes one waiter
func (c *Cond) Signal() { c.sig.Store(1); simrt.Notify(); simrt.IO() }

// Broadcast wakes all waiters
func (c *Cond) Broadcast() { c.gen.Add(1); c.sig.Store(0); simrt.Notify(); simrt.IO() }

// Pool is a deterministic last-in first-out pool: what is put is what is got next, by whichever task asks.
type Pool struct {
	New func() interface{}

	mu    sync.Mutex
	items []interface{}
}

// Get takes an item
func (p *Pool) Get() interface{} {
	simrt.IO()
	p.mu.Lock()
	var x interface{}
	if n := len(p.items); n > 0 {
		x = p.items[n-1]
		p.items = p.items[:n-1]
	}
	p.mu.Unlock()
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}

// Put returns an item
func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
	simrt.IO()
}
