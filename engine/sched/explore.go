//go:build go1.21

package sched

import (
	"fmt"
	"time"
)

// Explorer enumerates the executions of a body.
type Explorer struct {
	// Bounds. Bound[k] is the number of non-default choices of kind k allowed
	// in one execution; -1 means unlimited. For KSched only preemptions count
	// (choosing another goroutine although the current one is enabled).
	Bound [nKinds]int
	// Sleep enables sleep sets (only sound with Bound[KSched] = -1).
	Sleep bool
	// Delay makes every choice of another goroutine than the first enabled one
	// count for Bound[KSched], not only preemptions.
	Delay bool
	// Deadline stops the exploration (Complete=false); zero: none.
	Deadline time.Time
	MaxSteps int
	// Only this shard of the executions at the first choice with >1 options...
	MaxExec int

	Execs    int // completed (not pruned) executions
	Pruned   int
	Trans    int // steps executed
	Points   int // choice points created
	MaxDepth int
	Complete bool

	stack [maxChoices]entry
	top   int // entries in use
	pos   int // replay position in the current execution
	div   string
	over  bool
}

type entry struct {
	kind    int8
	curEn   bool // KSched: option 0 is the running goroutine
	n       int16
	idx     int16
	used    [nKinds]int16 // consumed before this entry
	sleep   uint64        // sleep set on entry
	done    uint64        // gs explored from here
	ids     [maxG]int8
}

// NewExplorer returns an explorer with the given preemption bound (-1: all).
func NewExplorer(preempt int) *Explorer {
	e := &Explorer{MaxSteps: 20000}
	e.Bound[KSched] = preempt
	e.Bound[KSelect] = -1
	e.Bound[KFault] = -1
	e.Bound[KData] = -1
	e.Sleep = preempt < 0
	return e
}

// Explore runs body once per execution and calls check after each. It stops
// when check returns false.
func (e *Explorer) Explore(body func(), check func(res *Result) bool) {
	e.top = 0
	for {
		if !e.Deadline.IsZero() && e.Execs%16 == 0 && time.Now().After(e.Deadline) {
			return
		}
		if e.MaxExec > 0 && e.Execs+e.Pruned >= e.MaxExec {
			return
		}
		e.pos = 0
		e.div = ""
		e.over = false
		res := runWith(e, body, e.MaxSteps)
		e.Trans += res.Steps
		res.Nondet = e.div
		if e.over {
			res.Overflow = true
		}
		if e.pos < e.top && res.Nondet == "" && res.Err() == "" && !res.Pruned {
			// fewer choices than on the previous execution of the same prefix
			res.Nondet = fmt.Sprintf("%d choices replayed, %d recorded", e.pos, e.top)
		}
		if e.pos < e.top {
			e.top = e.pos
		}
		if res.Pruned {
			e.Pruned++
		} else {
			e.Execs++
			if e.top > e.MaxDepth {
				e.MaxDepth = e.top
			}
			if !check(res) {
				return
			}
		}
		if !e.backtrack() {
			e.Complete = true
			return
		}
	}
}

// Choices describes the current execution's decisions (non-default ones).
func (e *Explorer) Choices() []string {
	var out []string
	for i := 0; i < e.pos && i < e.top; i++ {
		en := &e.stack[i]
		if en.idx != 0 {
			if en.kind == KSched {
				out = append(out, fmt.Sprintf("#%d sched->g%d", i, en.ids[en.idx]))
			} else {
				out = append(out, fmt.Sprintf("#%d %s=%d/%d", i, kindNames[en.kind], en.idx, en.n))
			}
		}
	}
	return out
}

func (e *Explorer) cost(en *entry, idx int16) int {
	if idx == 0 {
		return 0
	}
	if en.kind == KSched && !en.curEn && !e.Delay {
		return 0
	}
	return 1
}

func (e *Explorer) allowed(en *entry, idx int16) bool {
	k := en.kind
	if e.Bound[k] >= 0 && int(en.used[k])+e.cost(en, idx) > e.Bound[k] {
		return false
	}
	if k == KSched && e.Sleep {
		bit := uint64(1) << uint(en.ids[idx])
		if (en.sleep|en.done)&bit != 0 {
			return false
		}
	}
	return true
}

func (e *Explorer) backtrack() bool {
	for e.top > 0 {
		en := &e.stack[e.top-1]
		if en.kind == KSched && en.idx >= 0 {
			en.done |= 1 << uint(en.ids[en.idx])
		}
		for i := en.idx + 1; i < en.n; i++ {
			if e.allowed(en, i) {
				en.idx = i
				return true
			}
		}
		e.top--
	}
	return false
}

func (e *Explorer) push(kind int8, n int) *entry {
	if e.top >= maxChoices {
		e.over = true
		return nil
	}
	en := &e.stack[e.top]
	en.kind = kind
	en.n = int16(n)
	en.idx = 0
	en.done = 0
	en.curEn = false
	en.sleep = 0
	if e.top == 0 {
		for k := 0; k < nKinds; k++ {
			en.used[k] = 0
		}
	} else {
		p := &e.stack[e.top-1]
		for k := 0; k < nKinds; k++ {
			en.used[k] = p.used[k]
		}
		if e.cost(p, p.idx) > 0 {
			en.used[p.kind]++
		}
	}
	e.top++
	e.Points++
	return en
}

func (e *Explorer) dataChoice(r *run, kind, n int) int {
	if n > 30000 {
		n = 30000
	}
	if e.Bound[kind] == 0 {
		return 0
	}
	if e.pos < e.top {
		en := &e.stack[e.pos]
		if int(en.kind) != kind || int(en.n) != n {
			e.div = fmt.Sprintf("choice %d: %s/%d instead of %s/%d", e.pos, kindNames[kind], n, kindNames[en.kind], en.n)
			e.top = e.pos
		} else {
			e.pos++
			return int(en.idx)
		}
	}
	en := e.push(int8(kind), n)
	if en == nil {
		return 0
	}
	e.pos++
	return 0
}

func dependent(a, b *op) bool {
	if a.obj == nil || b.obj == nil {
		return false
	}
	if a.obj == &anyObject || b.obj == &anyObject {
		return true
	}
	if a.obj != b.obj {
		return false
	}
	return !(a.commut && b.commut)
}

func (e *Explorer) filterSleep(r *run, mask uint64, chosen *g) uint64 {
	if mask == 0 {
		return 0
	}
	var out uint64
	for i := 0; i < r.n; i++ {
		if mask&(1<<uint(i)) != 0 && r.gs[i] != chosen && !dependent(&r.gs[i].op, &chosen.op) {
			out |= 1 << uint(i)
		}
	}
	return out
}

// schedChoice picks one of the enabled goroutines; nil means: prune.
func (e *Explorer) schedChoice(r *run, en []*g, curEnabled bool) *g {
	if len(en) == 1 {
		if e.Sleep {
			if r.sleep&(1<<uint(en[0].id)) != 0 {
				r.res.Pruned = true
				return nil
			}
			r.sleep = e.filterSleep(r, r.sleep, en[0])
		}
		return en[0]
	}
	var ent *entry
	if e.pos < e.top {
		ent = &e.stack[e.pos]
		same := ent.kind == KSched && int(ent.n) == len(en)
		if same {
			for i := range en {
				if int(ent.ids[i]) != en[i].id {
					same = false
				}
			}
		}
		if !same {
			e.div = fmt.Sprintf("choice %d: different enabled goroutines", e.pos)
			e.top = e.pos
			ent = nil
		}
	}
	if ent == nil {
		ent = e.push(KSched, len(en))
		if ent == nil {
			return en[0]
		}
		ent.curEn = curEnabled
		ent.sleep = r.sleep
		for i := range en {
			ent.ids[i] = int8(en[i].id)
		}
		// first allowed option
		found := false
		for i := int16(0); i < ent.n; i++ {
			if e.allowed(ent, i) {
				ent.idx = i
				found = true
				break
			}
		}
		if !found {
			if e.Sleep {
				e.top--
				r.res.Pruned = true
				return nil
			}
			ent.idx = 0
		}
	}
	e.pos++
	chosen := en[ent.idx]
	if e.Sleep {
		r.sleep = e.filterSleep(r, ent.sleep|ent.done, chosen)
	}
	return chosen
}
