//go:build go1.21

package sched

// Channels of the rewritten code. The non-generic core lives here so that it is
// compiled without race instrumentation; Chan[T] is a thin generic wrapper.

type slot struct {
	val interface{}
	rv  byte // race sync variable of the slot
}

type core struct {
	object
	slots  []slot
	n      int // buffered
	head   int
	closed bool
	rvC    byte // close
	rvU    byte // unbuffered rendezvous
	rvV    byte
}

// a selOp is a channel operation (one case, or a select)
type selOp struct {
	cases  []selCase
	chosen int
	val    interface{}
	ok     bool
	def    bool // has a default case
}

type selCase struct {
	c    *core
	send bool
	val  interface{}
}

func newCore(n int) *core {
	if n < 0 {
		panic("makechan: size out of range")
	}
	c := &core{}
	c.name = "chan"
	c.slots = make([]slot, n)
	return c
}

// partner finds a parked goroutine that can rendezvous with case k.
func partner(r *run, self *g, k *selCase) (*g, int) {
	for i := 0; i < r.n; i++ {
		x := r.gs[i]
		if x == self || x.done || !x.parked || x.delivered || x.op.sel == nil {
			continue
		}
		for j := range x.op.sel.cases {
			o := &x.op.sel.cases[j]
			if o.c == k.c && o.send != k.send {
				return x, j
			}
		}
	}
	return nil, 0
}

func caseReady(r *run, self *g, k *selCase) bool {
	c := k.c
	if c == nil {
		return false
	}
	if c.closed {
		return true
	}
	if len(c.slots) == 0 {
		if r == nil {
			return false
		}
		x, _ := partner(r, self, k)
		return x != nil
	}
	if k.send {
		return c.n < len(c.slots)
	}
	return c.n > 0
}

// perform executes case k for self; it is ready.
func perform(r *run, self *g, s *selOp, i int) {
	k := &s.cases[i]
	c := k.c
	s.chosen = i
	if k.send {
		if c.closed {
			panic("send on closed channel")
		}
		if len(c.slots) == 0 {
			x, j := partner(r, self, k)
			raceAcquire(&c.rvU) // released by the receiver when it parked
			deliver(x, j, k.val, true)
			return
		}
		p := c.head + c.n
		if p >= len(c.slots) {
			p -= len(c.slots)
		}
		sl := &c.slots[p]
		raceAcquire(&sl.rv)
		raceRelease(&sl.rv)
		sl.val = k.val
		c.n++
		return
	}
	if len(c.slots) == 0 && !c.closed {
		x, j := partner(r, self, k)
		s.val = x.op.sel.cases[j].val
		s.ok = true
		raceAcquire(&c.rvV) // released by the sender when it parked
		deliver(x, j, nil, true)
		return
	}
	if c.n > 0 {
		sl := &c.slots[c.head]
		raceAcquire(&sl.rv)
		raceRelease(&sl.rv)
		s.val = sl.val
		s.ok = true
		sl.val = nil
		c.head++
		if c.head == len(c.slots) {
			c.head = 0
		}
		c.n--
		return
	}
	// closed and empty
	raceAcquire(&c.rvC)
	s.val = nil
	s.ok = false
}

func deliver(x *g, j int, v interface{}, ok bool) {
	s := x.op.sel
	s.chosen = j
	if !s.cases[j].send {
		s.val = v
		s.ok = ok
	}
	x.delivered = true
}

// run one channel operation or select
func doSelect(s *selOp, what string) {
	r := cur
	if r == nil || Native {
		for i := range s.cases {
			if caseReady(nil, nil, &s.cases[i]) {
				perform(nil, nil, s, i)
				return
			}
		}
		if s.def {
			s.chosen = -1
			return
		}
		panic("sched: blocking channel operation outside of a run")
	}
	self := r.cur
	var obj *object
	if len(s.cases) == 1 && s.cases[0].c != nil {
		obj = &s.cases[0].c.object
	} else {
		obj = &anyObject // dependent with everything
	}
	// publish for an unbuffered partner
	for i := range s.cases {
		k := &s.cases[i]
		if k.c != nil && len(k.c.slots) == 0 {
			if k.send {
				raceReleaseMerge(&k.c.rvV)
			} else {
				raceReleaseMerge(&k.c.rvU)
			}
		}
	}
	o := op{obj: obj, what: what, sel: s}
	if !s.def {
		o.enabled = func() bool {
			for i := range s.cases {
				if caseReady(r, self, &s.cases[i]) {
					return true
				}
			}
			return false
		}
	}
	point(o)
	if self.delivered {
		self.delivered = false
		self.op.sel = nil
		k := &s.cases[s.chosen]
		if k.send {
			raceAcquire(&k.c.rvU)
		} else {
			raceAcquire(&k.c.rvV)
		}
		return
	}
	self.op.sel = nil
	var rdy [16]int
	n := 0
	for i := range s.cases {
		if n < len(rdy) && caseReady(r, self, &s.cases[i]) {
			rdy[n] = i
			n++
		}
	}
	if n == 0 {
		s.chosen = -1 // default
		return
	}
	perform(r, self, s, rdy[Choose(KSelect, n)])
}

var anyObject = object{name: "any"}

func (c *core) send(v interface{}) {
	s := &selOp{cases: []selCase{{c: c, send: true, val: v}}}
	doSelect(s, "chan send")
}

func (c *core) recv() (interface{}, bool) {
	s := &selOp{cases: []selCase{{c: c}}}
	doSelect(s, "chan receive")
	return s.val, s.ok
}

func (c *core) close() {
	if c == nil {
		panic("close of nil channel")
	}
	point(op{obj: &c.object, what: "close"})
	if c.closed {
		panic("close of closed channel")
	}
	raceRelease(&c.rvC)
	c.closed = true
	// wake unbuffered/buffered waiters: they become enabled by themselves
}

func (c *core) length() int {
	if c == nil {
		return 0
	}
	point(op{obj: &c.object, what: "len(chan)"})
	return c.n
}

// Chan replaces chan T.
type Chan[T any] struct{ c core }

// MakeChan replaces make(chan T, n).
func MakeChan[T any](n int) *Chan[T] {
	return &Chan[T]{c: *newCore(n)}
}

func (c *Chan[T]) core() *core {
	if c == nil {
		return nil
	}
	return &c.c
}

// Send replaces c <- v.
func (c *Chan[T]) Send(v T) { c.core().send(v) }

// Recv replaces <-c.
func (c *Chan[T]) Recv() T {
	v, _ := c.Recv2()
	return v
}

// Recv2 replaces v, ok := <-c.
func (c *Chan[T]) Recv2() (T, bool) {
	v, ok := c.core().recv()
	var zero T
	if !ok || v == nil {
		return zero, ok
	}
	return v.(T), ok
}

// Close replaces close(c).
func (c *Chan[T]) Close() { c.core().close() }

// Len replaces len(c).
func (c *Chan[T]) Len() int { return c.core().length() }

// Cap replaces cap(c).
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return len(c.c.slots)
}

// Sel is one select statement in progress.
type Sel struct {
	s selOp
}

// NewSel starts a select.
func NewSel(def bool) *Sel { return &Sel{s: selOp{def: def}} }

// SelRecv adds a receive case.
func (c *Chan[T]) SelRecv(s *Sel) { s.add(selCase{c: c.core()}) }

// SelSend adds a send case.
func (c *Chan[T]) SelSend(s *Sel, v T) { s.add(selCase{c: c.core(), send: true, val: v}) }

func (s *Sel) add(k selCase) { s.s.cases = append(s.s.cases, k) }

// Do performs the select and returns the index of the case (-1: default).
func (s *Sel) Do() int {
	doSelect(&s.s, "select")
	return s.s.chosen
}

// Got is the value received by the chosen case of the select.
func (c *Chan[T]) Got(s *Sel) T {
	v, _ := c.Got2(s)
	return v
}

// Got2 is Got, comma ok.
func (c *Chan[T]) Got2(s *Sel) (T, bool) {
	var zero T
	if !s.s.ok || s.s.val == nil {
		return zero, s.s.ok
	}
	return s.s.val.(T), s.s.ok
}

// RangeChan starts "for v := range c".
func RangeChan[T any](c *Chan[T]) (T, bool, *Chan[T]) {
	v, ok := c.Recv2()
	return v, ok, c
}
