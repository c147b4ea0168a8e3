// Package simsync has the API of sync, on top of the simulator.
package simsync

import (
	"sync"

	"vsim/simrt"
)

type Locker = sync.Locker

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	simrt.YS()
	for !m.mu.TryLock() {
		simrt.Block()
	}
	simrt.Went()
}
func (m *Mutex) TryLock() bool { simrt.YS(); return m.mu.TryLock() }
func (m *Mutex) Unlock()       { m.mu.Unlock(); simrt.YS() }

// RWMutex keeps new readers out while a writer waits, as sync.RWMutex does.
type RWMutex struct {
	mu      sync.RWMutex
	writers counter
}

func (m *RWMutex) Lock() {
	simrt.YS()
	if !m.mu.TryLock() {
		m.writers.add(1)
		simrt.Block()
		for !m.mu.TryLock() {
			simrt.Block()
		}
		m.writers.add(-1)
	}
	simrt.Went()
}
func (m *RWMutex) RLock() {
	simrt.YS()
	for m.writers.get() > 0 || !m.mu.TryRLock() {
		simrt.Block()
	}
	simrt.Went()
}
func (m *RWMutex) TryLock() bool  { simrt.YS(); return m.mu.TryLock() }
func (m *RWMutex) TryRLock() bool { simrt.YS(); return m.writers.get() == 0 && m.mu.TryRLock() }
func (m *RWMutex) Unlock()        { m.mu.Unlock(); simrt.YS() }
func (m *RWMutex) RUnlock()       { m.mu.RUnlock(); simrt.YS() }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	mu   Mutex
	done doneFlag
}

// Do blocks concurrent callers until the first call has returned, as sync.Once does.
func (o *Once) Do(f func()) {
	simrt.YS()
	if o.done.get() {
		return
	}
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.done.get() {
		defer o.done.set()
		f()
	}
}

type doneFlag struct {
	mu sync.Mutex
	v  bool
}

func (d *doneFlag) get() bool { d.mu.Lock(); v := d.v; d.mu.Unlock(); return v }
func (d *doneFlag) set()      { d.mu.Lock(); d.v = true; d.mu.Unlock() }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

type WaitGroup struct {
	wg sync.WaitGroup
	n  counter
}

type counter struct{ n int }

//go:norace
func (c *counter) add(d int) { c.n += d }

//go:norace
func (c *counter) get() int { return c.n }

func (w *WaitGroup) Add(d int) { simrt.YS(); w.n.add(d); w.wg.Add(d) }
func (w *WaitGroup) Done()     { w.Add(-1) }
func (w *WaitGroup) Wait() {
	simrt.YS()
	for w.n.get() > 0 {
		simrt.Block()
	}
	w.wg.Wait()
	simrt.Went()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

type Cond struct {
	L       Locker
	waiting []*waiter
}
type waiter struct {
	woken bool
	mu    sync.Mutex
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) enqueue() *waiter {
	w := &waiter{}
	c.waiting = append(c.waiting, w)
	return w
}

//go:norace
func (w *waiter) isWoken() bool { return w.woken }

func (c *Cond) Wait() {
	w := c.enqueue()
	c.L.Unlock()
	for !w.isWoken() {
		simrt.Block()
	}
	w.mu.Lock()
	w.mu.Unlock()
	c.L.Lock()
}

//go:norace
func (c *Cond) pop() *waiter {
	if len(c.waiting) == 0 {
		return nil
	}
	w := c.waiting[0]
	c.waiting = c.waiting[1:]
	return w
}

//go:norace
func (w *waiter) wake() { w.woken = true }

func (c *Cond) Signal() {
	simrt.YS()
	if w := c.pop(); w != nil {
		w.mu.Lock()
		w.mu.Unlock()
		w.wake()
	}
}

func (c *Cond) Broadcast() {
	simrt.YS()
	for w := c.pop(); w != nil; w = c.pop() {
		w.mu.Lock()
		w.mu.Unlock()
		w.wake()
	}
}

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { simrt.YS(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { simrt.YS(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { simrt.YS(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { simrt.YS(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { simrt.YS(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { simrt.YS(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { simrt.YS(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { simrt.YS(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)      { simrt.YS(); m.m.Range(f) }
func (m *Map) Clear()                           { simrt.YS(); m.m.Range(func(k, v any) bool { m.m.Delete(k); return true }) }

// Pool is a sync.Pool whose choice between reuse and a new item is drawn from
// the run's environment stream. Only the reuse of an item orders its users.
type Pool struct {
	New   func() any
	items [64]poolItem
	n     int
	epoch uint32
}

type poolItem struct {
	v  any
	mu *sync.Mutex
}

// The mutexes that order users of pooled items exist from the start: a fresh one
// would itself be reported as unordered.
var (
	poolMus [4096]sync.Mutex
	poolN   uint
)

//go:norace
func itemMu() *sync.Mutex {
	poolN++
	return &poolMus[poolN%uint(len(poolMus))]
}

// fresh empties the pool at the start of a run, so that a run does not depend on
// the ones before it.
//
//go:norace
func (p *Pool) fresh() {
	if e := simrt.Epoch(); e != p.epoch {
		p.epoch = e
		p.items = [64]poolItem{}
		p.n = 0
	}
}

//go:norace
func (p *Pool) put(x any, mu *sync.Mutex) {
	p.fresh()
	if p.n < len(p.items) {
		p.items[p.n] = poolItem{x, mu}
		p.n++
	}
}

//go:norace
func (p *Pool) take() (any, *sync.Mutex) {
	p.fresh()
	if p.n == 0 {
		return nil, nil
	}
	i := 0
	if simrt.Active() {
		r := simrt.Env()
		if r%8 == 0 {
			return nil, nil // buggify: as if the collector had emptied the pool
		}
		i = int((r >> 8) % uint64(p.n))
		if r%3 != 0 {
			i = p.n - 1
		}
	} else {
		i = p.n - 1
	}
	it := p.items[i]
	p.n--
	p.items[i] = p.items[p.n]
	p.items[p.n] = poolItem{}
	return it.v, it.mu
}

func (p *Pool) Get() any {
	simrt.YS()
	v, mu := p.take()
	if mu != nil {
		mu.Lock()
		mu.Unlock()
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	mu := itemMu()
	mu.Lock()
	mu.Unlock()
	p.put(x, mu)
	simrt.YS()
}
