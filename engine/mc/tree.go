//go:build go1.21

package main

import (
	"fmt"
	"strings"
	"sync/atomic"

	"github.com/rom1mouret/ml-essentials/zzverif/sched"
)

// op is one operation of a history: it acts on the code and on the model.
type op struct {
	name string
	do   func()
}

type root struct {
	name string
	init func(w *world)
}

type treeOpt struct {
	depth   int
	noProbe bool
	// dedupe: histories that lead to the same memory and model are continued
	// from one of them only
	dedupe bool
	// extra is checked at every node after the comparison with the model
	extra func(w *world)
}

// Tree executes every history of at most depth operations from every root and
// compares all live dataframes with the model after each of them; at each node
// it then writes through every column of every dataframe and compares again.
func (c *Ctx) Tree(unit string, roots []root, opt treeOpt, gen func(w *world, depth int) []op) {
	c.Unit(unit)
	for _, r := range roots {
		r := r
		// node runs one history; it returns the names of the enabled operations
		loud := false
		visited := map[[2]uint64]int8{}
		node := func(path []int, quiet bool) (names []string, trail string, msg string) {
			var done []string
			known := false
			muted = !quiet && !loud
			defer func() { muted = false }()
			w := newWorld()
			res := sched.Run(func() {
				r.init(w)
				for _, k := range path {
					ops := gen(w, len(done))
					if k >= len(ops) {
						panic("harness: the history cannot be replayed")
					}
					done = append(done, ops[k].name)
					ops[k].do()
				}
				if opt.dedupe && !quiet && !loud {
					key := w.stateKey()
					left := int8(opt.depth - len(path))
					if d, ok := visited[key]; ok && d >= left {
						known = true
						return
					}
					if len(visited) < 6000000 {
						visited[key] = left
					}
				}
				if quiet || len(path) < opt.depth {
					for _, o := range gen(w, len(path)) {
						names = append(names, o.name)
					}
				}
				if quiet {
					return
				}
				last := "building"
				if len(done) > 0 {
					last = done[len(done)-1]
				}
				w.checkAll(last)
				if opt.extra != nil {
					opt.extra(w)
				}
				c.stateH(hash64(r.name + w.key()))
				if !opt.noProbe {
					w.probe()
				}
			})
			trail = strings.Join(done, "; ")
			if muted {
				trail = "new"
				if known {
					trail = "known"
				}
			}
			if loud || quiet {
				return names, trail, resultMsg(res)
			}
			if known {
				atomic.AddInt64(&progress, 1)
				c.rep.Pruned++
				c.rep.Transitions++
			} else {
				atomic.AddInt64(&progress, 1)
				c.rep.Traces++
				c.rep.Transitions++
				if opt.dedupe {
					c.rep.Units[unit+" (distinct states)"]++
				} else {
					c.rep.Units[unit]++
				}
			}
			return names, trail, resultMsg(res)
		}
		// report runs a failing history again, with the names of its operations
		report := func(path []int, cas, msg string) {
			loud = true
			_, trail, m := node(path, false)
			loud = false
			if m != "" {
				msg = m
			}
			c.violation(unit+" "+r.name+": "+trail, cas, msg, nil)
		}
		show := func(path []int) {
			if c.sampling() {
				loud = true
				_, trail, _ := node(path, false)
				loud = false
				c.sample(r.name + ": " + trail)
			}
		}
		var rec func(path []int, cas string) bool
		rec = func(path []int, cas string) bool {
			if c.expired() {
				return false
			}
			names, _, msg := node(path, false)
			if msg != "" {
				report(path, cas, msg)
				return false
			}
			if len(names) == 0 {
				return true
			}
			show(path)
			for k := range names {
				if !rec(append(path[:len(path):len(path)], k), cas) {
					return false
				}
			}
			return true
		}
		deepest := 0
		// bfs explores the states reachable after the path, shortest histories first
		bfs := func(path []int, cas string) {
			queue := [][]byte{nil}
			full := append([]int(nil), path...)
			for at := 0; at < len(queue); at++ {
				if c.expired() {
					return
				}
				full = full[:len(path)]
				for _, k := range queue[at] {
					full = append(full, int(k))
				}
				prefix := queue[at]
				queue[at] = nil
				names, trail, msg := node(full, false)
				if msg != "" {
					report(full, cas, msg)
					return
				}
				if trail == "new" && len(full) > deepest {
					deepest = len(full)
				}
				if len(names) > 0 {
					show(full)
				}
				for k := range names {
					queue = append(queue, append(prefix[:len(prefix):len(prefix)], byte(k)))
				}
			}
		}
		single := func(path []int, cas string) {
			if !c.want(cas) || c.expired() {
				return
			}
			c.enter(cas)
			_, _, msg := node(path, false)
			if msg != "" {
				report(path, cas, msg)
				return
			}
			show(path)
		}
		single(nil, r.name)
		if opt.depth == 0 {
			continue
		}
		ops0, _, _ := node(nil, true)
		for i, n0 := range ops0 {
			id0 := r.name + "/" + n0
			single([]int{i}, id0)
			if opt.depth == 1 {
				continue
			}
			ops1, _, _ := node([]int{i}, true)
			for j, n1 := range ops1 {
				id1 := id0 + "/" + n1
				if !c.want(id1) || c.expired() {
					continue
				}
				c.enter(id1)
				if opt.dedupe {
					bfs([]int{i, j}, id1)
				} else {
					rec([]int{i, j}, id1)
				}
			}
		}
		if opt.dedupe && c.only == "" && !c.stop {
			if deepest < opt.depth {
				c.note(fmt.Sprintf("%s, %s: all reachable states (no new one after more than %d operations)", unit, r.name, deepest))
			} else {
				c.note(fmt.Sprintf("%s, %s: all states reachable by %d operations", unit, r.name, opt.depth))
			}
		}
	}
}
