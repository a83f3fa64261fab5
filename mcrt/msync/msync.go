// Package msync has the API of package sync on the controlled scheduler.
package msync

import (
	"sync"
	"unsafe"

	"verif/mcrt"
)

// Locker is sync.Locker.
type Locker = sync.Locker

const (
	opLock = iota
	opRLock
	opWait
)

// Mutex is sync.Mutex.
type Mutex struct {
	held bool
	sync byte
}

//go:norace
func (m *Mutex) Ready(int) bool { return !m.held }

//go:norace
func (m *Mutex) Lock() {
	if mcrt.Aborting() {
		return
	}
	mcrt.Point(m, opLock, "Mutex.Lock")
	m.held = true
	mcrt.RaceAcquire(unsafe.Pointer(&m.sync))
}

//go:norace
func (m *Mutex) TryLock() bool {
	if mcrt.Aborting() {
		return true
	}
	mcrt.Point(nil, 0, "Mutex.TryLock")
	if m.held {
		return false
	}
	m.held = true
	mcrt.RaceAcquire(unsafe.Pointer(&m.sync))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if mcrt.Aborting() {
		return
	}
	if !m.held {
		fatal("sync: unlock of unlocked mutex")
	}
	mcrt.RaceRelease(unsafe.Pointer(&m.sync))
	m.held = false
}

//go:norace
func fatal(s string) { panic("fatal error: " + s) }

// RWMutex is sync.RWMutex.
type RWMutex struct {
	w       bool
	pending int
	readers int
	rsem    byte
	wsem    byte
}

//go:norace
func (m *RWMutex) Ready(op int) bool {
	if op == opRLock {
		return !m.w && m.pending == 0
	}
	return !m.w && m.readers == 0
}

//go:norace
func (m *RWMutex) Lock() {
	if mcrt.Aborting() {
		return
	}
	mcrt.Point(nil, 0, "RWMutex.Lock")
	m.pending++
	mcrt.Point(m, opLock, "RWMutex.Lock")
	m.pending--
	m.w = true
	mcrt.RaceAcquire(unsafe.Pointer(&m.rsem))
	mcrt.RaceAcquire(unsafe.Pointer(&m.wsem))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if mcrt.Aborting() {
		return true
	}
	mcrt.Point(nil, 0, "RWMutex.TryLock")
	if m.w || m.readers > 0 || m.pending > 0 {
		return false
	}
	m.w = true
	mcrt.RaceAcquire(unsafe.Pointer(&m.rsem))
	mcrt.RaceAcquire(unsafe.Pointer(&m.wsem))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if mcrt.Aborting() {
		return
	}
	if !m.w {
		fatal("sync: Unlock of unlocked RWMutex")
	}
	mcrt.RaceRelease(unsafe.Pointer(&m.rsem))
	m.w = false
}

//go:norace
func (m *RWMutex) RLock() {
	if mcrt.Aborting() {
		return
	}
	mcrt.Point(m, opRLock, "RWMutex.RLock")
	m.readers++
	mcrt.RaceAcquire(unsafe.Pointer(&m.rsem))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if mcrt.Aborting() {
		return true
	}
	mcrt.Point(nil, 0, "RWMutex.TryRLock")
	if m.w || m.pending > 0 {
		return false
	}
	m.readers++
	mcrt.RaceAcquire(unsafe.Pointer(&m.rsem))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if mcrt.Aborting() {
		return
	}
	if m.readers == 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
	}
	mcrt.RaceReleaseMerge(unsafe.Pointer(&m.wsem))
	m.readers--
}

// RLocker is sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n    int
	sync byte
}

//go:norace
func (w *WaitGroup) Ready(int) bool { return w.n == 0 }

//go:norace
func (w *WaitGroup) Add(d int) {
	if mcrt.Aborting() {
		return
	}
	mcrt.Point(nil, 0, "WaitGroup.Add")
	if d < 0 {
		mcrt.RaceReleaseMerge(unsafe.Pointer(&w.sync))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

//go:norace
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	if mcrt.Aborting() {
		return
	}
	mcrt.Point(w, opWait, "WaitGroup.Wait")
	mcrt.RaceAcquire(unsafe.Pointer(&w.sync))
}

// Go is sync.WaitGroup.Go.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	mcrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc (without re-panicking).
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

type poolItem struct {
	v    any
	next *poolItem
	sync byte
}

// Pool is sync.Pool: any item that was put and not yet handed out may be
// handed out; which one is a choice of the environment (default: the last one,
// or the first one when so configured).
type Pool struct {
	New  func() any
	head *poolItem
	n    int
	gen  int
}

// fresh forgets what earlier executions left.
//
//go:norace
func (p *Pool) fresh() {
	if g := mcrt.Gen(); p.gen != g {
		p.gen, p.head, p.n = g, nil, 0
	}
}

//go:norace
func (p *Pool) Put(v any) {
	if v == nil || mcrt.Aborting() {
		return
	}
	mcrt.Point(nil, 0, "Pool.Put")
	p.fresh()
	it := &poolItem{v: v, next: p.head}
	p.head = it
	p.n++
	mcrt.RaceReleaseMerge(unsafe.Pointer(&it.sync))
}

//go:norace
func (p *Pool) take() (any, bool) {
	mcrt.Point(nil, 0, "Pool.Get")
	p.fresh()
	if p.n == 0 {
		return nil, false
	}
	// alternatives: the last item, the first one, a new one
	alt := p.n
	if alt > 2 {
		alt = 2
	}
	k := mcrt.Decide(alt + 1)
	if k == alt {
		return nil, false
	}
	if mcrt.PoolFIFO() {
		k = alt - 1 - k
	}
	q := &p.head
	if k == 1 {
		for (*q).next != nil {
			q = &(*q).next
		}
	}
	it := *q
	*q = it.next
	p.n--
	mcrt.RaceAcquire(unsafe.Pointer(&it.sync))
	return it.v, true
}

func (p *Pool) Get() any {
	if !mcrt.Aborting() {
		if v, ok := p.take(); ok {
			return v
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Cond is sync.Cond.
type Cond struct {
	L       Locker
	waiters []*condWaiter
}

type condWaiter struct {
	ok   bool
	sync byte
}

func (w *condWaiter) Ready(int) bool { return w.ok }

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	if mcrt.Aborting() {
		return
	}
	w := &condWaiter{}
	c.waiters = append(c.waiters, w)
	c.L.Unlock()
	mcrt.Point(w, opWait, "Cond.Wait")
	mcrt.RaceAcquire(unsafe.Pointer(&w.sync))
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if mcrt.Aborting() {
		return
	}
	mcrt.Point(nil, 0, "Cond.Signal")
	if len(c.waiters) > 0 {
		w := c.waiters[0]
		c.waiters = c.waiters[1:]
		w.ok = true
		mcrt.RaceRelease(unsafe.Pointer(&w.sync))
	}
}

//go:norace
func (c *Cond) Broadcast() {
	if mcrt.Aborting() {
		return
	}
	mcrt.Point(nil, 0, "Cond.Broadcast")
	for _, w := range c.waiters {
		w.ok = true
		mcrt.RaceRelease(unsafe.Pointer(&w.sync))
	}
	c.waiters = nil
}

// Map is sync.Map with a scheduling point before every operation.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool) { mcrt.Yield(); return m.m.Load(k) }
func (m *Map) Store(k, v any)         { mcrt.Yield(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	mcrt.Yield()
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) { mcrt.Yield(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                    { mcrt.Yield(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)       { mcrt.Yield(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool { mcrt.Yield(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool  { mcrt.Yield(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)     { mcrt.Yield(); m.m.Range(f) }
func (m *Map) Clear()                          { mcrt.Yield(); m.m.Clear() }
