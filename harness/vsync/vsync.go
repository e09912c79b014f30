//go:build go1.23

// Package vsync has the types of package sync with the same semantics, but
// waiting is done under the controlled scheduler. Releasing operations are no
// scheduling points of their own: a switch before them is equivalent to one
// after them.
package vsync

import (
	"sync"
	"unsafe"

	"strip.verif/vsched"
)

type Locker = sync.Locker

type ticket struct{ granted bool }

//go:norace
func (t *ticket) Ready() bool { return t.granted }

type Mutex struct {
	locked bool
	sync   int
}

//go:norace
func (m *Mutex) Ready() bool { return !m.locked }

//go:norace
func (m *Mutex) Lock() {
	vsched.Wait(m, "Mutex.Lock")
	m.locked = true
	vsched.RaceAcquire(unsafe.Pointer(&m.sync))
}

//go:norace
func (m *Mutex) TryLock() bool {
	vsched.Point("Mutex.TryLock")
	if m.locked {
		return false
	}
	m.locked = true
	vsched.RaceAcquire(unsafe.Pointer(&m.sync))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	vsched.RaceReleaseMerge(unsafe.Pointer(&m.sync))
	m.locked = false
}

// RWMutex: a waiting writer holds up new readers; readers that waited for a
// writer get the lock before the next writer.
type RWMutex struct {
	writing bool // a writer holds the lock or waits for readers to leave
	held    bool
	readers int
	waiting []*ticket
	sync    int
}

type rwNoWriter struct{ m *RWMutex }
type rwNoReader struct{ m *RWMutex }

//go:norace
func (w rwNoWriter) Ready() bool { return !w.m.writing }

//go:norace
func (w rwNoReader) Ready() bool { return w.m.readers == 0 }

//go:norace
func (m *RWMutex) Lock() {
	vsched.Wait(rwNoWriter{m}, "RWMutex.Lock")
	m.writing = true
	if m.readers > 0 {
		vsched.Wait(rwNoReader{m}, "RWMutex.Lock (readers)")
	}
	m.held = true
	vsched.RaceAcquire(unsafe.Pointer(&m.sync))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	vsched.Point("RWMutex.TryLock")
	if m.writing || m.readers > 0 {
		return false
	}
	m.writing, m.held = true, true
	vsched.RaceAcquire(unsafe.Pointer(&m.sync))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.held {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	vsched.RaceReleaseMerge(unsafe.Pointer(&m.sync))
	m.writing, m.held = false, false
	for _, t := range m.waiting {
		t.granted = true
		m.readers++
	}
	m.waiting = nil
}

//go:norace
func (m *RWMutex) RLock() {
	vsched.Point("RWMutex.RLock")
	if m.writing {
		t := &ticket{}
		m.waiting = append(m.waiting, t)
		vsched.Wait(t, "RWMutex.RLock")
	} else {
		m.readers++
	}
	vsched.RaceAcquire(unsafe.Pointer(&m.sync))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	vsched.Point("RWMutex.TryRLock")
	if m.writing {
		return false
	}
	m.readers++
	vsched.RaceAcquire(unsafe.Pointer(&m.sync))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	vsched.RaceReleaseMerge(unsafe.Pointer(&m.sync))
	m.readers--
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct {
	n       int
	waiters []*ticket
	sync    int
}

//go:norace
func (g *WaitGroup) Add(delta int) {
	vsched.Point("WaitGroup.Add")
	if delta < 0 {
		vsched.RaceReleaseMerge(unsafe.Pointer(&g.sync))
	}
	g.n += delta
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if len(g.waiters) > 0 && delta > 0 && g.n == delta {
		panic("sync: WaitGroup misuse: Add called concurrently with Wait")
	}
	if g.n == 0 {
		for _, t := range g.waiters {
			t.granted = true
		}
		g.waiters = nil
	}
}

func (g *WaitGroup) Done() { g.Add(-1) }

//go:norace
func (g *WaitGroup) Wait() {
	vsched.Point("WaitGroup.Wait")
	if g.n > 0 {
		t := &ticket{}
		g.waiters = append(g.waiters, t)
		vsched.Wait(t, "WaitGroup.Wait")
		if g.n != 0 || len(g.waiters) > 0 {
			panic("sync: WaitGroup is reused before previous Wait has returned")
		}
	}
	vsched.RaceAcquire(unsafe.Pointer(&g.sync))
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	vsched.Go(func() {
		defer g.Done()
		f()
	})
}

type Once struct {
	done bool
	m    Mutex
}

//go:norace
func (o *Once) isDone() bool { return o.done }

//go:norace
func (o *Once) setDone() { o.done = true }

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.setDone()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type Cond struct {
	L       Locker
	waiters []*ticket
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	t := &ticket{}
	c.add(t)
	c.L.Unlock()
	vsched.Wait(t, "Cond.Wait")
	c.L.Lock()
}

//go:norace
func (c *Cond) add(t *ticket) { c.waiters = append(c.waiters, t) }

//go:norace
func (c *Cond) Signal() {
	if len(c.waiters) > 0 {
		c.waiters[0].granted = true
		c.waiters = append([]*ticket(nil), c.waiters[1:]...)
	}
}

//go:norace
func (c *Cond) Broadcast() {
	for _, t := range c.waiters {
		t.granted = true
	}
	c.waiters = nil
}

// Pool hands out what was put last.
type Pool struct {
	New   func() any
	items []any
	sync  int
}

func (p *Pool) Get() any {
	vsched.Point("Pool.Get")
	if v, ok := p.take(); ok {
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) take() (any, bool) {
	n := len(p.items)
	if n == 0 {
		return nil, false
	}
	vsched.RaceAcquire(unsafe.Pointer(&p.sync))
	v := p.items[n-1]
	p.items[n-1] = nil
	p.items = p.items[:n-1]
	return v, true
}

//go:norace
func (p *Pool) Put(v any) {
	vsched.Point("Pool.Put")
	if v == nil {
		return
	}
	vsched.RaceReleaseMerge(unsafe.Pointer(&p.sync))
	p.items = append(p.items, v)
}

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { vsched.Point("Map"); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { vsched.Point("Map"); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { vsched.Point("Map"); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { vsched.Point("Map"); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { vsched.Point("Map"); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { vsched.Point("Map"); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	vsched.Point("Map")
	return m.m.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o any) bool { vsched.Point("Map"); return m.m.CompareAndDelete(k, o) }
func (m *Map) Clear()                         { vsched.Point("Map"); m.m.Clear() }
func (m *Map) Range(f func(k, v any) bool) {
	vsched.Point("Map")
	m.m.Range(f)
}
