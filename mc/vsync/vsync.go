// Package vsync stands in for package sync in the packages under test (their import of "sync" is redirected here by
// a build overlay). Outside of a schedule exploration there is a single goroutine, so taking a lock that is held is
// a self-deadlock: it panics with Deadlock instead of hanging. During an exploration the locks belong to the
// scheduler of package vsched.
package vsync

import (
	"runtime"
	"sync"
	"unsafe"

	"verifmc/vsched"
)

// The parts of package sync that need no control.
type (
	Map    = sync.Map
	Locker = sync.Locker
)

// mu guards everything here outside of an exploration, where goroutines that the code under test started really run
// side by side.
var mu sync.Mutex

// until makes a step outside of an exploration as soon as try can. It gives up when there is nobody left who could
// change that.
//
//go:norace
func until(what string, try func() bool) {
	for {
		some := vsched.Others()
		mu.Lock()
		ok := try()
		mu.Unlock()
		if ok {
			return
		}
		if !some {
			panic(Deadlock{what})
		}
		runtime.Gosched()
	}
}

// alone makes a step outside of an exploration.
//
//go:norace
func alone() func() {
	if vsched.Active() {
		return func() {}
	}
	mu.Lock()
	return mu.Unlock
}

// Pool is a pool without chance: last in, first out, and empty at the start of every execution.
type Pool struct {
	New   func() any
	items []any
	epoch int
}

//go:norace
func (p *Pool) fresh() {
	if e := vsched.Epoch(); e != p.epoch {
		p.items, p.epoch = nil, e
	}
}

// Put adds x.
//
//go:norace
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	defer alone()()
	p.fresh()
	if vsched.Active() {
		vsched.ReleaseMerge(unsafe.Pointer(p))
	}
	p.items = append(p.items, x)
}

// Get takes an item or makes one.
//
//go:norace
func (p *Pool) Get() any {
	if x := p.take(); x != nil {
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) take() any {
	defer alone()()
	p.fresh()
	n := len(p.items)
	if n == 0 {
		return nil
	}
	x := p.items[n-1]
	p.items = p.items[:n-1]
	if vsched.Active() {
		vsched.Acquire(unsafe.Pointer(p))
	}
	return x
}

// Deadlock is the panic value of a lock operation that can never complete.
type Deadlock struct{ What string }

func (d Deadlock) Error() string { return "deadlock: " + d.What }

// Mutex is a mutual exclusion lock.
type Mutex struct {
	held bool
}

//go:norace
func (m *Mutex) CanRun() bool { return !m.held }

// Lock locks m.
//
//go:norace
func (m *Mutex) Lock() {
	if vsched.Aborted() {
		return
	}
	if vsched.Active() {
		vsched.S()
		vsched.Wait(m)
		m.held = true
		vsched.Acquire(unsafe.Pointer(m))
		vsched.H()
		return
	}
	mu.Lock()
	if !m.held {
		m.held = true
		mu.Unlock()
		return
	}
	mu.Unlock()
	until("Lock of a mutex that is already held", func() bool {
		if m.held {
			return false
		}
		m.held = true
		return true
	})
}

// TryLock tries to lock m.
//
//go:norace
func (m *Mutex) TryLock() bool {
	if vsched.Aborted() {
		return true
	}
	if vsched.Active() {
		vsched.P()
		vsched.S()
	}
	defer alone()()
	if m.held {
		return false
	}
	m.held = true
	if vsched.Active() {
		vsched.Acquire(unsafe.Pointer(m))
	}
	return true
}

// Unlock unlocks m.
//
//go:norace
func (m *Mutex) Unlock() {
	if vsched.Aborted() {
		return
	}
	if !vsched.Active() {
		mu.Lock()
		was := m.held
		m.held = false
		mu.Unlock()
		if !was {
			panic(Deadlock{"Unlock of a mutex that is not held"})
		}
		return
	}
	if !m.held {
		panic(Deadlock{"Unlock of a mutex that is not held"})
	}
	vsched.Release(unsafe.Pointer(m))
	m.held = false
	vsched.S()
}

// RWMutex is a reader/writer lock.
type RWMutex struct {
	w bool
	r int
}

type rwait struct{ m *RWMutex }

//go:norace
func (x rwait) CanRun() bool { return !x.m.w }

type wwait struct{ m *RWMutex }

//go:norace
func (x wwait) CanRun() bool { return !x.m.w && x.m.r == 0 }

// Lock locks m for writing.
//
//go:norace
func (m *RWMutex) Lock() {
	if vsched.Aborted() {
		return
	}
	if vsched.Active() {
		vsched.S()
		vsched.Wait(wwait{m})
		m.w = true
		vsched.Acquire(unsafe.Pointer(&m.w))
		vsched.Acquire(unsafe.Pointer(&m.r))
		vsched.H()
		return
	}
	until("Lock of a read-write mutex that is already held", func() bool {
		if m.w || m.r > 0 {
			return false
		}
		m.w = true
		return true
	})
}

// TryLock tries to lock m for writing.
//
//go:norace
func (m *RWMutex) TryLock() bool {
	if vsched.Aborted() {
		return true
	}
	if vsched.Active() {
		vsched.P()
		vsched.S()
	}
	defer alone()()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	if vsched.Active() {
		vsched.Acquire(unsafe.Pointer(&m.w))
		vsched.Acquire(unsafe.Pointer(&m.r))
	}
	return true
}

// Unlock unlocks m for writing.
//
//go:norace
func (m *RWMutex) Unlock() {
	if vsched.Aborted() {
		return
	}
	defer alone()()
	if !m.w {
		panic(Deadlock{"Unlock of a read-write mutex that is not held"})
	}
	if vsched.Active() {
		vsched.Release(unsafe.Pointer(&m.w))
		vsched.Release(unsafe.Pointer(&m.r))
	}
	m.w = false
	vsched.S()
}

// RLock locks m for reading.
//
//go:norace
func (m *RWMutex) RLock() {
	if vsched.Aborted() {
		return
	}
	if vsched.Active() {
		vsched.S()
		vsched.Wait(rwait{m})
		m.r++
		vsched.Acquire(unsafe.Pointer(&m.w))
		vsched.H()
		return
	}
	until("RLock of a read-write mutex that is held for writing", func() bool {
		if m.w {
			return false
		}
		m.r++
		return true
	})
}

// TryRLock tries to lock m for reading.
//
//go:norace
func (m *RWMutex) TryRLock() bool {
	if vsched.Aborted() {
		return true
	}
	if vsched.Active() {
		vsched.P()
		vsched.S()
	}
	defer alone()()
	if m.w {
		return false
	}
	m.r++
	if vsched.Active() {
		vsched.Acquire(unsafe.Pointer(&m.w))
	}
	return true
}

// RUnlock unlocks m for reading.
//
//go:norace
func (m *RWMutex) RUnlock() {
	if vsched.Aborted() {
		return
	}
	defer alone()()
	if m.r <= 0 {
		panic(Deadlock{"RUnlock of a read-write mutex that is not held"})
	}
	if vsched.Active() {
		vsched.ReleaseMerge(unsafe.Pointer(&m.r))
	}
	m.r--
	vsched.S()
}

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (l rlocker) Lock()   { l.m.RLock() }
func (l rlocker) Unlock() { l.m.RUnlock() }

// Once runs a function once.
type Once struct {
	m    Mutex
	done bool
}

// Do runs f on the first call.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var w U
	return func() (T, U) {
		o.Do(func() { v, w = f() })
		return v, w
	}
}

// WaitGroup waits for a counter to reach zero.
type WaitGroup struct{ n int }

//go:norace
func (g *WaitGroup) CanRun() bool { return g.n == 0 }

// Add adds to the counter.
//
//go:norace
func (g *WaitGroup) Add(d int) {
	if vsched.Active() {
		vsched.ReleaseMerge(unsafe.Pointer(g))
	}
	defer alone()()
	g.n += d
	vsched.S()
}

// Go runs f in a goroutine that the group waits for.
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	vsched.Go(func() {
		defer g.Done()
		f()
	})
}

// Done decrements the counter.
//
//go:norace
func (g *WaitGroup) Done() { g.Add(-1) }

// Wait waits for the counter to be zero.
//
//go:norace
func (g *WaitGroup) Wait() {
	if vsched.Aborted() {
		return
	}
	if vsched.Active() {
		vsched.S()
		vsched.Wait(g)
		vsched.Acquire(unsafe.Pointer(g))
		return
	}
	until("Wait on a wait group that nothing else can finish", func() bool { return g.n == 0 })
}

// Cond is a condition variable.
type Cond struct {
	L   Locker
	gen int
	q   []*cwait
}

type cwait struct{ ready bool }

//go:norace
func (c *cwait) CanRun() bool { return c.ready }

// NewCond returns a condition variable.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a signal.
//
//go:norace
func (c *Cond) Wait() {
	if vsched.Aborted() {
		return
	}
	w := &cwait{}
	if !vsched.Active() {
		mu.Lock()
		c.q = append(c.q, w)
		mu.Unlock()
		c.L.Unlock()
		until("Wait on a condition that nothing else can signal", func() bool { return w.ready })
		c.L.Lock()
		return
	}
	c.q = append(c.q, w)
	c.L.Unlock()
	vsched.Wait(w)
	vsched.Acquire(unsafe.Pointer(c))
	c.L.Lock()
}

// Signal wakes one waiter.
//
//go:norace
func (c *Cond) Signal() {
	defer alone()()
	vsched.ReleaseMerge(unsafe.Pointer(c))
	if len(c.q) > 0 {
		c.q[0].ready = true
		c.q = c.q[1:]
	}
}

// Broadcast wakes all waiters.
//
//go:norace
func (c *Cond) Broadcast() {
	defer alone()()
	vsched.ReleaseMerge(unsafe.Pointer(c))
	for _, w := range c.q {
		w.ready = true
	}
	c.q = nil
}
