//go:build go1.21

// Package sync replaces the standard package in the rewritten code.
package sync

import "github.com/rom1mouret/ml-essentials/zzverif/sched"

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is sync.Mutex.
type Mutex struct{ m sched.Mu }

func (m *Mutex) Lock()         { m.m.Lock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

// RWMutex is sync.RWMutex.
type RWMutex struct{ m sched.Mu }

func (m *RWMutex) Lock()          { m.m.Lock() }
func (m *RWMutex) Unlock()        { m.m.Unlock() }
func (m *RWMutex) TryLock() bool  { return m.m.TryLock() }
func (m *RWMutex) RLock()         { m.m.RLock() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock() }
func (m *RWMutex) TryRLock() bool { return m.m.TryRLock() }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker is RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct{ w sched.WG }

func (w *WaitGroup) Add(n int) { w.w.Add(n) }
func (w *WaitGroup) Done()     { w.w.Add(-1) }
func (w *WaitGroup) Wait()     { w.w.Wait() }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sched.Go("WaitGroup.Go", func() {
		defer w.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct{ o sched.OnceC }

func (o *Once) Do(f func()) { o.o.Do(f) }

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// Cond is sync.Cond.
type Cond struct {
	L Locker
	c sched.CondC
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait()        { c.c.Wait(c.L.Unlock, c.L.Lock) }
func (c *Cond) Signal()      { c.c.Signal() }
func (c *Cond) Broadcast()   { c.c.Broadcast() }

// Pool is sync.Pool.
type Pool struct {
	New   func() interface{}
	m     sched.Mu
	items []interface{}
}

func (p *Pool) Get() interface{} {
	p.m.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.items = append(p.items, x)
	p.m.Unlock()
}

// Map is sync.Map.
type Map struct {
	m sched.Mu
	d map[interface{}]interface{}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	v, ok := m.d[k]
	return v, ok
}

func (m *Map) Store(k, v interface{}) {
	m.m.Lock()
	defer m.m.Unlock()
	if m.d == nil {
		m.d = make(map[interface{}]interface{})
	}
	m.d[k] = v
}

func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if old, ok := m.d[k]; ok {
		return old, true
	}
	if m.d == nil {
		m.d = make(map[interface{}]interface{})
	}
	m.d[k] = v
	return v, false
}

func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	v, ok := m.d[k]
	delete(m.d, k)
	return v, ok
}

func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }

func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	old, ok := m.d[k]
	if m.d == nil {
		m.d = make(map[interface{}]interface{})
	}
	m.d[k] = v
	return old, ok
}

func (m *Map) Range(f func(k, v interface{}) bool) {
	m.m.Lock()
	it, k, v := sched.Iter(m.d)
	m.m.Unlock()
	for it.Next(&k, &v) {
		if !f(k, v) {
			return
		}
	}
}
