// Package mcsync replaces package sync in instrumented code.
package mcsync

import (
	"sync"

	"vmc/mc"
	"vmc/mcmap"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex replaces sync.Mutex.
type Mutex struct {
	epoch uint64
	held  bool
	real  sync.Mutex
}

func (m *Mutex) fix() {
	if m.epoch != mc.Epoch {
		m.epoch, m.held = mc.Epoch, false
		m.real = sync.Mutex{}
	}
}

// Lock locks.
func (m *Mutex) Lock() {
	if !mc.Active() {
		m.real.Lock()
		return
	}
	if mc.Aborting() {
		return
	}
	m.fix()
	mc.Block("Mutex.Lock", func() bool { return !m.held })
	m.held = true
	m.real.Lock()
}

// TryLock tries to lock.
func (m *Mutex) TryLock() bool {
	if !mc.Active() {
		return m.real.TryLock()
	}
	if mc.Aborting() {
		return false
	}
	m.fix()
	mc.Point("Mutex.TryLock")
	if m.held {
		return false
	}
	m.held = true
	m.real.Lock()
	return true
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	if !mc.Active() {
		m.real.Unlock()
		return
	}
	if mc.Aborting() {
		return
	}
	m.fix()
	if !m.held {
		mc.Fatal("sync: unlock of unlocked mutex")
	}
	m.held = false
	m.real.Unlock()
}

// RWMutex replaces sync.RWMutex: writers that wait keep new readers out.
type RWMutex struct {
	epoch   uint64
	writer  bool
	readers int
	waiting int
	real    sync.RWMutex
}

func (m *RWMutex) fix() {
	if m.epoch != mc.Epoch {
		m.epoch, m.writer, m.readers, m.waiting = mc.Epoch, false, 0, 0
		m.real = sync.RWMutex{}
	}
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	if !mc.Active() {
		m.real.Lock()
		return
	}
	if mc.Aborting() {
		return
	}
	m.fix()
	mc.Point("RWMutex.Lock")
	if m.writer || m.readers > 0 {
		m.waiting++
		mc.Block("RWMutex.Lock (waiting)", func() bool { return !m.writer && m.readers == 0 })
		m.waiting--
	}
	m.writer = true
	m.real.Lock()
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	if !mc.Active() {
		return m.real.TryLock()
	}
	if mc.Aborting() {
		return false
	}
	m.fix()
	mc.Point("RWMutex.TryLock")
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	m.real.Lock()
	return true
}

// Unlock unlocks.
func (m *RWMutex) Unlock() {
	if !mc.Active() {
		m.real.Unlock()
		return
	}
	if mc.Aborting() {
		return
	}
	m.fix()
	if !m.writer {
		mc.Fatal("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.real.Unlock()
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	if !mc.Active() {
		m.real.RLock()
		return
	}
	if mc.Aborting() {
		return
	}
	m.fix()
	mc.Block("RWMutex.RLock", func() bool { return !m.writer && m.waiting == 0 })
	m.readers++
	m.real.RLock()
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	if !mc.Active() {
		return m.real.TryRLock()
	}
	if mc.Aborting() {
		return false
	}
	m.fix()
	mc.Point("RWMutex.TryRLock")
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	m.real.RLock()
	return true
}

// RUnlock unlocks.
func (m *RWMutex) RUnlock() {
	if !mc.Active() {
		m.real.RUnlock()
		return
	}
	if mc.Aborting() {
		return
	}
	m.fix()
	if m.readers == 0 {
		mc.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.real.RUnlock()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker returns the read side.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	epoch uint64
	n     int
	real  sync.WaitGroup
}

func (w *WaitGroup) fix() {
	if w.epoch != mc.Epoch {
		w.epoch, w.n = mc.Epoch, 0
		w.real = sync.WaitGroup{}
	}
}

// Add adds.
func (w *WaitGroup) Add(d int) {
	if !mc.Active() {
		w.real.Add(d)
		return
	}
	if mc.Aborting() {
		return
	}
	w.fix()
	mc.Point("WaitGroup.Add")
	w.n += d
	w.real.Add(d)
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Go runs f in a counted thread.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	mc.Go(func() { defer w.Done(); f() })
}

// Wait waits.
func (w *WaitGroup) Wait() {
	if !mc.Active() {
		w.real.Wait()
		return
	}
	if mc.Aborting() {
		return
	}
	w.fix()
	mc.Block("WaitGroup.Wait", func() bool { return w.n <= 0 })
	w.real.Wait()
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do runs f once.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// Pool replaces sync.Pool: what was put last is got first, and nothing is dropped during an execution.
type Pool struct {
	New   func() any
	epoch uint64
	items []*pooled
	real  sync.Pool
}

type pooled struct {
	v  any
	mu sync.Mutex // orders the use before Put before the use after Get
}

// Put adds x to the pool.
func (p *Pool) Put(x any) {
	if x == nil || mc.Aborting() {
		return
	}
	if !mc.Active() {
		p.real.Put(x)
		return
	}
	if p.epoch != mc.Epoch {
		p.epoch, p.items = mc.Epoch, nil
	}
	i := &pooled{v: x}
	i.mu.Lock()
	i.mu.Unlock()
	p.items = append(p.items, i)
	mc.Point("Pool.Put")
}

// Get takes an item.
func (p *Pool) Get() any {
	if mc.Active() && !mc.Aborting() {
		mc.Point("Pool.Get")
		if n := len(p.items); n > 0 && p.epoch == mc.Epoch {
			i := p.items[n-1]
			p.items = p.items[:n-1]
			i.mu.Lock()
			i.mu.Unlock()
			return i.v
		}
	} else if x := p.real.Get(); x != nil {
		return x
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

// Map is a scheduled sync.Map.
type Map = mcmap.Map

// Cond replaces sync.Cond.
type Cond struct {
	L       Locker
	tickets []*bool
}

// NewCond builds a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits.
func (c *Cond) Wait() {
	if mc.Aborting() {
		return
	}
	s := new(bool)
	c.tickets = append(c.tickets, s)
	c.L.Unlock()
	mc.Block("Cond.Wait", func() bool { return *s })
	c.L.Lock()
}

// Signal wakes one.
func (c *Cond) Signal() {
	mc.Point("Cond.Signal")
	if len(c.tickets) > 0 {
		*c.tickets[0] = true
		c.tickets = c.tickets[1:]
	}
}

// Broadcast wakes all.
func (c *Cond) Broadcast() {
	mc.Point("Cond.Broadcast")
	for _, s := range c.tickets {
		*s = true
	}
	c.tickets = nil
}
