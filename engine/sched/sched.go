//go:build go1.21

// Package sched is a controlled scheduler for the rewritten code under test.
// Exactly one managed goroutine runs at a time; every synchronisation operation
// is a scheduling point and every scheduling, map-order, random or fault
// decision goes through choose(), so that an explorer can enumerate them.
//
// Constraints of this package: it is compiled without race instrumentation
// even in -race builds, and it must not use append, copy-on-grow or maps on
// data touched by several managed goroutines (the runtime would report those).
package sched

import (
	"fmt"
	"runtime/debug"
	"strings"
)

const maxG = 120
const maxChoices = 1 << 14

// Kinds of choices.
const (
	KSched = iota
	KSelect
	KMap
	KRand
	KFault
	KData
	nKinds
)

var kindNames = [nKinds]string{"sched", "select", "map", "rand", "fault", "data"}

// op is what a parked goroutine wants to do next.
type op struct {
	obj     *object      // object concerned (nil: independent of everything)
	commut  bool         // commutes with other commut ops on the same object
	enabled func() bool  // nil: always enabled
	what    string
	sel     *selOp // channel operation
}

type object struct{ name string }

type g struct {
	id     int
	wake   chan struct{}
	op     op
	parked bool // waiting at a scheduling point
	done   bool
	spawned   bool // has started another goroutine
	delivered bool // a rendezvous partner completed our channel operation
}

// Stuck describes a goroutine that could not finish.
type Stuck struct {
	ID   int
	What string
}

// Result of one execution.
type Result struct {
	Panic       interface{} // panic of the body (nil if none)
	PanicStack  string
	WorkerPanic interface{} // panic of another goroutine
	WorkerStack string
	Deadlock    []Stuck // body blocked for ever
	Leaked      []Stuck // body returned, these goroutines never end
	Steps       int
	Goroutines  int
	Pruned      bool // redundant execution (sleep set)
	Overflow    bool // step horizon reached
	Nondet      string
}

// Err summarises an abnormal end ("" if the execution ended normally).
func (r *Result) Err() string {
	switch {
	case r.Nondet != "":
		return "replay diverged: " + r.Nondet
	case r.WorkerPanic != nil:
		return fmt.Sprintf("worker goroutine panicked: %v\n%s", r.WorkerPanic, r.WorkerStack)
	case r.Panic != nil:
		return fmt.Sprintf("panic: %v\n%s", r.Panic, r.PanicStack)
	case len(r.Deadlock) > 0:
		return fmt.Sprintf("deadlock: %v", r.Deadlock)
	case len(r.Leaked) > 0:
		return fmt.Sprintf("goroutine leak: %v", r.Leaked)
	case r.Overflow:
		return "does not terminate within the step horizon"
	}
	return ""
}

type abortT struct{}

type run struct {
	gs       [maxG]*g
	n        int
	cur      *g
	aborting bool
	mainDone bool
	ended    chan struct{}
	ex       *Explorer
	res      *Result
	steps    int
	maxSteps int
	sleep    uint64
	liveN    int
	peak     int
	leafN    int // live goroutines that have not started any other, except for the first one
	leafPeak int
}

var cur *run

// Native is set when the code under test could not be rewritten.
var Native bool

// --- run-scoped settings -------------------------------------------------

var nCPU = 8

// SetNumCPU sets what runtime.NumCPU() returns to the code under test.
func SetNumCPU(n int) { nCPU = n }

// NumCPU replaces runtime.NumCPU.
func NumCPU() int { return nCPU }

// GOMAXPROCS replaces runtime.GOMAXPROCS.
func GOMAXPROCS(n int) int { return nCPU }

// Gosched replaces runtime.Gosched.
func Gosched() { Yield("gosched") }

// --- execution -----------------------------------------------------------

// Run executes body under the scheduler, taking default choices.
func Run(body func()) *Result { return runWith(nil, body, 1<<20) }

func runWith(ex *Explorer, body func(), maxSteps int) *Result {
	if cur != nil {
		panic("sched: nested run")
	}
	res := &Result{}
	r := &run{ended: make(chan struct{}, 1), ex: ex, res: res, maxSteps: maxSteps}
	g0 := &g{id: 0, wake: make(chan struct{}, 1)}
	r.gs[0] = g0
	r.n = 1
	r.liveN = 1
	r.cur = g0
	cur = r
	resetRand()
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(abortT); !ok {
					if !r.aborting {
						res.Panic = e
						res.PanicStack = trimStack(debug.Stack())
						r.aborting = true
					}
				}
			}
		}()
		body()
	}()
	// the body is over: let the others finish
	g0.done = true
	r.mainDone = true
	r.liveN--
	if r.liveN > 0 {
		raceDisable()
		if r.aborting {
			r.abortNext()
		} else {
			r.pickAndWake(g0)
		}
		<-r.ended
		raceEnable()
	}
	raceAcquire(&endRV)
	res.Steps = r.steps
	res.Goroutines = r.n
	cur = nil
	return res
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.HasPrefix(l, "\t") && !strings.Contains(l, "zzverif/sched") && !strings.Contains(l, "/src/runtime/") {
			l = strings.TrimSpace(l)
			if i := strings.LastIndex(l, " +0x"); i >= 0 {
				l = l[:i]
			}
			if i := strings.Index(l, "/src/"); i >= 0 {
				l = l[i+5:]
			}
			out = append(out, l)
			if len(out) >= 6 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

// Go replaces the go statement.
func Go(what string, f func()) {
	r := cur
	if r == nil || Native {
		go f()
		return
	}
	if r.aborting {
		panic(abortT{})
	}
	id := r.n
	if id >= maxG {
		// take the place of one that is over
		for id = 1; id < maxG && !r.gs[id].done; id++ {
		}
		if id == maxG {
			panic("sched: too many goroutines")
		}
	} else {
		r.n++
	}
	ng := &g{id: id, wake: make(chan struct{}, 1), parked: true}
	ng.op = op{what: "start"}
	r.gs[id] = ng
	r.liveN++
	r.leafN++
	if r.cur.id != 0 && !r.cur.spawned {
		r.cur.spawned = true
		r.leafN--
	}
	if r.leafN > r.leafPeak {
		r.leafPeak = r.leafN
	}
	if r.liveN > r.peak {
		r.peak = r.liveN
	}
	go func() {
		raceDisable()
		<-ng.wake
		raceEnable()
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(abortT); !ok && !r.aborting {
						r.res.WorkerPanic = e
						r.res.WorkerStack = trimStack(debug.Stack())
						r.aborting = true
					}
				}
			}()
			if r.aborting {
				return
			}
			f()
		}()
		raceReleaseMerge(&endRV)
		raceDisable()
		r.exit(ng)
		raceEnable()
	}()
}

// endRV orders what the goroutines of an execution did before the next one.
var endRV byte

// exit ends a managed goroutine that holds the token.
func (r *run) exit(self *g) {
	self.done = true
	r.liveN--
	if !self.spawned {
		r.leafN--
	}
	if r.liveN == 0 {
		r.ended <- struct{}{}
		return
	}
	if r.aborting {
		r.abortNext()
		return
	}
	r.pickAndWake(self)
}

// abortNext wakes some parked goroutine so that it unwinds.
func (r *run) abortNext() {
	for i := 0; i < r.n; i++ {
		x := r.gs[i]
		if !x.done && x.parked {
			x.parked = false
			r.cur = x
			x.wake <- struct{}{}
			return
		}
	}
	// nothing parked: only the finished body remains
	if r.liveN == 0 || r.mainDone {
		r.ended <- struct{}{}
	}
}

func (x *g) ready() bool {
	if x.done || !x.parked {
		return false
	}
	if x.delivered {
		return true
	}
	return x.op.enabled == nil || x.op.enabled()
}

// pickAndWake chooses the next goroutine and wakes it up. self has ended.
func (r *run) pickAndWake(self *g) {
	next := r.pick(self)
	if next == nil {
		r.stuck()
		r.abortNext()
		return
	}
	next.parked = false
	r.cur = next
	next.wake <- struct{}{}
}

func (r *run) stuck() {
	if r.aborting {
		return
	}
	var list []Stuck
	for i := 0; i < r.n; i++ {
		if x := r.gs[i]; !x.done {
			list = append(list, Stuck{x.id, x.op.what})
		}
	}
	if r.mainDone {
		r.res.Leaked = list
	} else {
		r.res.Deadlock = list
	}
	r.aborting = true
}

// pick returns the next goroutine to run, or nil (no enabled one, or pruned).
func (r *run) pick(self *g) *g {
	var en [maxG]*g
	n := 0
	curEnabled := false
	if !self.done && self.ready() {
		en[0] = self
		n = 1
		curEnabled = true
	}
	for i := 0; i < r.n; i++ {
		x := r.gs[i]
		if x != self && x.ready() {
			en[n] = x
			n++
		}
	}
	if n == 0 {
		return nil
	}
	var chosen *g
	if r.ex == nil {
		chosen = en[0]
	} else {
		chosen = r.ex.schedChoice(r, en[:n], curEnabled)
		if chosen == nil {
			r.aborting = true
			return nil
		}
	}
	return chosen
}

// point is a scheduling point: the current goroutine wants to perform o.
// On return the operation may be performed (it is enabled).
func point(o op) {
	r := cur
	if r == nil || Native {
		if o.enabled != nil && !o.enabled() {
			panic("sched: blocking operation outside of a run: " + o.what)
		}
		return
	}
	if r.aborting {
		panic(abortT{})
	}
	self := r.cur
	r.steps++
	if r.steps > r.maxSteps {
		r.res.Overflow = true
		r.aborting = true
		panic(abortT{})
	}
	self.op = o
	self.parked = true
	self.delivered = false
	next := r.pick(self)
	if next == self {
		self.parked = false
		return
	}
	raceDisable()
	if next == nil {
		if !r.aborting {
			r.stuck()
		}
		self.parked = false
		raceEnable()
		panic(abortT{})
	}
	next.parked = false
	r.cur = next
	next.wake <- struct{}{}
	<-self.wake
	raceEnable()
	if r.aborting {
		panic(abortT{})
	}
}

// Yield is a pure scheduling point (used by harness readers and writers).
func Yield(what string) {
	if cur == nil || Native {
		return
	}
	point(op{what: what})
}

// Settle lets the other goroutines run until they are over or stuck.
func Settle() {
	r := cur
	if r == nil || Native {
		return
	}
	self := r.cur
	point(op{what: "settle", enabled: func() bool {
		for i := 0; i < r.n; i++ {
			if x := r.gs[i]; x != self && x.ready() {
				return false
			}
		}
		return true
	}})
}

// YieldObj is a scheduling point on an object identified by the caller.
func YieldObj(o *Obj, what string) {
	if cur == nil || Native {
		return
	}
	point(op{obj: &o.o, what: what})
}

// Obj is a harness-level object.
type Obj struct{ o object }

// Active tells whether we are within a controlled execution.
func Active() bool { return cur != nil && !Native }

// NumGoroutine is the number of live managed goroutines.
func NumGoroutine() int {
	if cur == nil {
		return 1
	}
	return cur.liveN
}

// PeakReset restarts the count of Peak.
func PeakReset() {
	if cur != nil {
		cur.peak = cur.liveN
		cur.leafPeak = cur.leafN
	}
}

// Peak is the highest number of managed goroutines alive at the same time.
func Peak() int {
	if cur == nil {
		return 1
	}
	return cur.peak
}

// LeafPeak is the highest number of managed goroutines alive at the same time that
// had not started any other (the first goroutine is not counted).
func LeafPeak() int {
	if cur == nil {
		return 0
	}
	return cur.leafPeak
}

// Choose returns a value in [0, n): a free choice of the given kind.
func Choose(kind, n int) int {
	if n <= 1 {
		return 0
	}
	r := cur
	if r == nil || r.ex == nil || Native {
		return 0
	}
	if r.aborting {
		return 0
	}
	return r.ex.dataChoice(r, kind, n)
}


// IsAbort tells whether a recovered value is the scheduler unwinding.
func IsAbort(e interface{}) bool {
	_, ok := e.(abortT)
	return ok
}
