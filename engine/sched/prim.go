//go:build go1.21

package sched

// Non-generic implementations behind the sync and sync/atomic shims.

// Mu is a mutex / rwmutex core.
type Mu struct {
	o       object
	writer  bool
	readers int
	rvW     byte
	rvR     byte
	r       *run
}

// fresh forgets the state left by an earlier (aborted) execution.
func (m *Mu) fresh() {
	if m.r != cur {
		m.r = cur
		m.writer = false
		m.readers = 0
	}
}

func (m *Mu) Lock() {
	m.fresh()
	point(op{obj: &m.o, what: "Lock", enabled: func() bool { return !m.writer && m.readers == 0 }})
	m.writer = true
	raceAcquire(&m.rvW)
	raceAcquire(&m.rvR)
}

func (m *Mu) TryLock() bool {
	m.fresh()
	point(op{obj: &m.o, what: "TryLock"})
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	raceAcquire(&m.rvW)
	raceAcquire(&m.rvR)
	return true
}

func (m *Mu) Unlock() {
	if cur != nil && cur.aborting {
		m.writer = false
		return
	}
	point(op{obj: &m.o, what: "Unlock"})
	if !m.writer {
		panic("sync: unlock of unlocked mutex")
	}
	raceRelease(&m.rvW)
	m.writer = false
}

func (m *Mu) RLock() {
	m.fresh()
	point(op{obj: &m.o, what: "RLock", enabled: func() bool { return !m.writer }})
	m.readers++
	raceAcquire(&m.rvW)
}

func (m *Mu) TryRLock() bool {
	m.fresh()
	point(op{obj: &m.o, what: "TryRLock"})
	if m.writer {
		return false
	}
	m.readers++
	raceAcquire(&m.rvW)
	return true
}

func (m *Mu) RUnlock() {
	if cur != nil && cur.aborting {
		m.readers--
		return
	}
	point(op{obj: &m.o, what: "RUnlock"})
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	raceReleaseMerge(&m.rvR)
	m.readers--
}

// WG is a wait group core.
type WG struct {
	o  object
	n  int
	rv byte
	r  *run
}

func (w *WG) fresh() {
	if w.r != cur {
		w.r = cur
		w.n = 0
	}
}

func (w *WG) Add(d int) {
	w.fresh()
	if cur != nil && cur.aborting {
		return
	}
	point(op{obj: &w.o, commut: true, what: "WaitGroup.Add"})
	if d < 0 {
		raceReleaseMerge(&w.rv)
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WG) Wait() {
	w.fresh()
	point(op{obj: &w.o, what: "WaitGroup.Wait", enabled: func() bool { return w.n <= 0 }})
	raceAcquire(&w.rv)
}

// OnceC is a once core.
type OnceC struct {
	m    Mu
	done bool
	rv   byte
}

func (o *OnceC) Do(f func()) {
	point(op{obj: &o.m.o, what: "Once.Do"})
	if o.done {
		raceAcquire(&o.rv)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			raceRelease(&o.rv)
			o.done = true
		}()
		f()
	}
}

// CondC is a condition variable core.
type CondC struct {
	o       object
	next    int
	granted int
	rv      byte
}

func (c *CondC) Wait(unlock, lock func()) {
	point(op{obj: &c.o, what: "Cond.Wait"})
	t := c.next
	c.next++
	unlock()
	point(op{obj: &c.o, what: "Cond.Wait(blocked)", enabled: func() bool { return t < c.granted }})
	raceAcquire(&c.rv)
	lock()
}

func (c *CondC) Signal() {
	point(op{obj: &c.o, what: "Cond.Signal"})
	raceReleaseMerge(&c.rv)
	if c.granted < c.next {
		c.granted++
	}
}

func (c *CondC) Broadcast() {
	point(op{obj: &c.o, what: "Cond.Broadcast"})
	raceReleaseMerge(&c.rv)
	c.granted = c.next
}

// At is an atomic cell's ordering object.
type At struct {
	o  object
	rv byte
}

// Op is called before each atomic access.
func (a *At) Op(what string) {
	point(op{obj: &a.o, what: what})
	raceAcquire(&a.rv)
	raceReleaseMerge(&a.rv)
}

// AtomicPoint orders accesses made through plain addresses (atomic.AddInt64(&x)).
// All of them share one object: conservative for scheduling. The race edges are
// those of the address, which the caller's real atomic operation provides.
func AtomicPoint(what string) {
	if cur == nil {
		return
	}
	point(op{obj: &atomicObj, what: what})
}

var atomicObj object
