//go:build go1.21

package main

import (
	"fmt"
	"strings"
	"testing"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/zzverif/sched"
)

func init() {
	props["C04"] = propDef{run: runC04}
	props["C05"] = propDef{run: runC05}
	props["C06"] = propDef{run: runC06}
	props["C07"] = propDef{run: runC07}
	props["C08"] = propDef{run: runC08}
	props["C26"] = propDef{run: runC26}
}

// pick returns the frames operations are generated for: the first and the last k.
func (w *world) pick(k int) []*frame {
	if len(w.frames) <= k+1 {
		return w.frames
	}
	return append([]*frame{w.frames[0]}, w.frames[len(w.frames)-k:]...)
}

func (f *frame) has(cols ...string) bool {
	for _, c := range cols {
		if f.cols[c] == nil {
			return false
		}
	}
	return true
}

// derivations that select rows, one of each internal form.
func (w *world) someRows(f *frame) []op {
	n := len(f.rows)
	l := []op{w.opView(f), w.opReverse(f)}
	if n > 0 {
		l = append(l, w.opIndex(f, append(append([]int{}, n-1, 0), seq(n)...)))
		l = append(l, w.opSlice(f, n/2, -1))
		l = append(l, w.opMask(f, maskMenu(n)[0]))
	}
	if n > 2 {
		l = append(l, w.opIndex(f, inner(n)))
	}
	return l
}

// inner: the first and last rows are where they would be if nothing had moved.
func inner(n int) []int {
	l := seq(n)
	switch {
	case n == 3:
		l[1] = 0
	case n > 3:
		l[1], l[2] = 2, 1
	}
	return l
}

// sharing derivations that are not about rows.
func (w *world) someCols(f *frame) []op {
	l := []op{w.opShallow(f)}
	ns := f.names()
	if len(ns) > 1 {
		l = append(l, w.opColumnView(f, ns[1:]...))
		l = append(l, w.opColumnView(f, ns[0]))
	}
	return l
}

func (w *world) joins(k int, kinds ...int) []op {
	var l []op
	fs := w.pick(k)
	for i, f := range fs {
		for j, g := range fs {
			if i != j && sharesNoName([]*frame{f, g}) && len(f.rows) == len(g.rows) {
				for _, kind := range kinds {
					l = append(l, w.opColConcat(kind, f, g))
				}
			}
		}
	}
	return l
}

// ---- C04 -------------------------------------------------------------------------

func (w *world) writes(f *frame, all bool) []op {
	var l []op
	n := len(f.rows)
	for i, name := range f.names() {
		c := f.cols[name]
		if n > 0 {
			l = append(l, w.opSet(f, name, (i+n-1)%n))
		}
		if n > 0 && (all || i%2 == 0) {
			l = append(l, w.opOverwrite(f, name, 0))
			if all && c.kind == kF {
				l = append(l, w.opOverwrite(f, name, 1))
			}
		}
	}
	return l
}

func twoRoots(n int, a, b string) root {
	return root{fmt.Sprintf("rows=%d[%s]+[%s]", n, a, b), func(w *world) {
		w.build(n, specs(a))
		w.build(n, specs(b))
	}}
}

func runC04(c *Ctx) {
	depth := 3
	if c.thorough {
		depth = 4
	}
	one := []root{rootOf(3, allTypes), rootOf(12, "f1:f"), rootOf(23, "s1:s i1:i"), rootOf(5, "b1:b o1:o s1:s")}
	c.Tree("derivations", one, treeOpt{depth: depth}, func(w *world, d int) []op {
		var l []op
		for _, f := range w.pick(2) {
			l = append(l, w.someRows(f)...)
			l = append(l, w.someCols(f)...)
		}
		return l
	})
	c.Tree("column concatenation", []root{twoRoots(3, "id:d f1:f", "s1:s b1:b"), twoRoots(12, "i1:i", "o1:o")}, treeOpt{depth: depth}, func(w *world, d int) []op {
		var l []op
		for _, f := range w.pick(3) {
			l = append(l, w.someRows(f)...)
			l = append(l, w.opShallow(f))
		}
		return append(l, w.joins(4, ccView)...)
	})
	c.Tree("writes between derivations", []root{rootOf(3, "f1:f s1:s"), rootOf(11, "i1:i"), rootOf(4, "b1:b o1:o")}, treeOpt{depth: depth}, func(w *world, d int) []op {
		var l []op
		for _, f := range w.pick(2) {
			l = append(l, w.someRows(f)...)
			l = append(l, w.someCols(f)...)
			l = append(l, w.writes(f, true)...)
		}
		return l
	})
	// restructuring keeps the sharing of the untouched columns
	c.Tree("sharing after restructuring", []root{rootOf(3, "f1:f s1:s i1:i"), rootOf(12, "i1:i b1:b")}, treeOpt{depth: depth}, func(w *world, d int) []op {
		var l []op
		for _, f := range w.pick(2) {
			l = append(l, w.opView(f), w.opReverse(f), w.opSlice(f, len(f.rows)/2, -1))
			l = append(l, w.someCols(f)...)
			if f.restructurable() && f.deriv {
				ns := f.names()
				if len(ns) > 0 {
					l = append(l, w.opRename(f, ns[0], "ren"))
					if len(ns) > 1 {
						l = append(l, w.opDrop(f, ns[len(ns)-1]))
					}
				}
				if !f.has("new") {
					l = append(l, w.opAlloc(f, 'f', "new"))
				}
			}
		}
		return l
	})
	c.scale("sharing", 40, 4000, (*world).everySharing)
	c.chains("long chains", 12, chainSharing(), nil)
	c.sharing(3, 20)
	c.sharing(4, 20)
}

// ---- C05 -------------------------------------------------------------------------

func runC05(c *Ctx) {
	depth := 3
	if c.thorough {
		depth = 4
	}
	gen := func(wide bool) func(w *world, d int) []op {
		return func(w *world, d int) []op {
			var l []op
			for _, f := range w.pick(2) {
				n := len(f.rows)
				ns := f.names()
				l = append(l, w.opView(f), w.opReverse(f))
				if n > 1 {
					l = append(l, w.opIndex(f, []int{n - 1, 0, n - 1}), w.opSlice(f, n/2, -1))
				}
				l = append(l, w.someCols(f)...)
				l = append(l, w.opCopy(f), w.opDetached(f))
				for i, name := range ns {
					if wide || i < 2 {
						l = append(l, w.opDetached(f, name))
					}
				}
				if len(ns) > 2 {
					l = append(l, w.opDetached(f, ns[0], ns[2]))
				}
				if f.deriv && f.derived == 0 {
					l = append(l, w.opUnshare(f))
					if len(ns) > 0 {
						l = append(l, w.opUnshare(f, ns[0]))
					}
					if len(ns) > 1 {
						l = append(l, w.opUnshare(f, ns[1]))
					}
				}
				if f.restructurable() && f.deriv && len(ns) > 0 {
					l = append(l, w.opRename(f, ns[len(ns)-1], "ren"))
					if !f.has("new") {
						l = append(l, w.opAlloc(f, 's', "new"))
					}
				}
			}
			return l
		}
	}
	c.Tree("all types", []root{rootOf(3, allTypes)}, treeOpt{depth: depth}, gen(true))
	c.Tree("few columns", []root{rootOf(3, "f1:f s1:s"), rootOf(12, "i1:i"), rootOf(23, "b1:b o1:o")}, treeOpt{depth: depth}, gen(false))
	c.Tree("with concatenations", []root{twoRoots(3, "f1:f", "s1:s b1:b")}, treeOpt{depth: depth}, func(w *world, d int) []op {
		var l []op
		for _, f := range w.pick(3) {
			l = append(l, w.opReverse(f), w.opDetached(f), w.opCopy(f), w.opShallow(f))
			if f.has("s1") {
				l = append(l, w.opDetached(f, "s1"))
			}
			if f.has("f1") {
				l = append(l, w.opDetached(f, "f1"))
			}
			if f.deriv && f.derived == 0 {
				l = append(l, w.opUnshare(f))
			}
		}
		l = append(l, w.joins(3, ccView, ccCopy)...)
		fs := w.frames
		l = append(l, w.opRowConcat(fs[len(fs)-1], fs[len(fs)-1]))
		return l
	})
	c.scale("ownership", 40, 4000, (*world).everySharing)
	c.chains("long chains", 12, chainSharing(), nil)
	c.ownership(3, 20)
	c.ownership(4, 20)
}

// grow gives operations that derive new dataframes while there are fewer than max.
func (w *world) grow(max int, gen func(f *frame) []op) []op {
	if len(w.frames) >= max {
		return nil
	}
	var l []op
	for _, f := range w.frames {
		l = append(l, gen(f)...)
	}
	return l
}

// ownership: every way of obtaining up to max dataframes from one another,
// with all the restructurings and detachments in between.
func (c *Ctx) ownership(max, depth int) {
	c.Tree(fmt.Sprintf("ownership, %d dataframes", max), []root{rootOf(1, "i1:i"), rootOf(2, "f1:f s1:s")}, treeOpt{depth: depth, dedupe: true}, func(w *world, d int) []op {
		l := w.grow(max, func(f *frame) []op {
			l := []op{w.opView(f), w.opShallow(f), w.opDetached(f)}
			if f.has("i1") {
				l = append(l, w.opColumnView(f, "i1"), w.opDetached(f, "i1"))
			}
			if f.has("s1") {
				l = append(l, w.opColumnView(f, "s1"), w.opDetached(f, "s1"))
			}
			return l
		})
		for _, f := range w.frames {
			if !f.deriv {
				continue
			}
			if f.derived == 0 {
				l = append(l, w.opUnshare(f))
				if f.has("s1") {
					l = append(l, w.opUnshare(f, "s1"))
				}
			}
			if f.restructurable() {
				if !f.has("new") {
					l = append(l, w.opAlloc(f, 'i', "new"))
				} else {
					l = append(l, w.opDrop(f, "new"))
				}
			}
		}
		return l
	})
}

// sharing: every way of obtaining up to max dataframes by sharing columns.
func (c *Ctx) sharing(max, depth int) {
	c.Tree(fmt.Sprintf("sharing, %d dataframes", max), []root{rootOf(2, "i1:i s1:s"), rootOf(11, "f1:f"), rootOf(1, "b1:b o1:o")}, treeOpt{depth: depth, dedupe: true}, func(w *world, d int) []op {
		l := w.grow(max, func(f *frame) []op {
			n := len(f.rows)
			l := []op{w.opView(f), w.opShallow(f)}
			if n > 0 {
				l = append(l, w.opReverse(f), w.opSlice(f, 0, n-boolInt(n > 1)), w.opIndex(f, []int{n - 1, 0, n - 1}))
			}
			for i, name := range f.names() {
				if i < 2 && len(f.cols) > 1 {
					l = append(l, w.opColumnView(f, name))
				}
			}
			return l
		})
		for _, f := range w.frames {
			if !f.deriv || !f.restructurable() {
				continue
			}
			ns := f.names()
			if len(ns) > 0 {
				if !f.has("ren") {
					l = append(l, w.opRename(f, ns[0], "ren"))
				}
				l = append(l, w.opDrop(f, ns[len(ns)-1]))
			}
		}
		return l
	})
}

// structure: every structure that up to max dataframes can take.
func (c *Ctx) structure(unit string, max, depth int, extra func(w *world)) {
	roots := []root{rootOf(1, "s1:s"), rootOf(11, "i1:i"), rootOf(2, "f1:f"), rootOf(1, "b1:b s1:s")}
	gen := func(w *world, d int) []op {
		l := w.grow(max, func(f *frame) []op {
			l := []op{w.opView(f), w.opShallow(f), w.opReverse(f), w.opCopy(f)}
			if n := len(f.rows); n > 1 {
				l = append(l, w.opSlice(f, 0, n-1))
			}
			l = append(l, w.hashes(f)...)
			return l
		})
		for _, f := range w.frames {
			if !f.restructurable() {
				continue
			}
			ns := f.names()
			for i, name := range ns {
				if i > 1 {
					break
				}
				l = append(l, w.opDrop(f, name))
				if name != "x" {
					l = append(l, w.opRename(f, name, "x"))
				}
				if k := f.cols[name].kind; k == kI || k == kB {
					l = append(l, w.opToFloats(f, name))
				}
			}
			if !f.has("x") {
				l = append(l, w.opAlloc(f, 's', "x"))
			} else if f.cols["x"].kind != kF {
				l = append(l, w.opAlloc(f, 'f', "x"))
			}
		}
		return l
	}
	unit = fmt.Sprintf("%s, %d dataframes", unit, max)
	if max > 2 && !c.thorough {
		c.Tree(unit, roots[:1], treeOpt{depth: depth, dedupe: true, extra: extra}, gen)
		roots = roots[1:]
		depth = 5
	}
	c.Tree(unit, roots, treeOpt{depth: depth, dedupe: true, extra: extra}, gen)
}

// assemblies: every way of cutting dataframes and putting them together again.
func (c *Ctx) assemblies(max, depth int) {
	c.Tree(fmt.Sprintf("cutting and assembling, %d dataframes", max), []root{twoRoots(2, "i1:i", "s1:s"), twoRoots(2, "f1:f s1:s", "b1:b"), rootOf(2, "i1:i o1:o")}, treeOpt{depth: depth, dedupe: true}, func(w *world, d int) []op {
		l := w.grow(max, func(f *frame) []op {
			l := []op{w.opReverse(f), w.opShallow(f)}
			if len(f.rows) > 1 {
				l = append(l, w.opSlice(f, 0, 1), w.opSlice(f, 1, -1))
			}
			if ns := f.names(); len(ns) > 1 {
				l = append(l, w.opColumnView(f, ns[0]), w.opColumnView(f, ns[1:]...))
			}
			for _, g := range w.frames {
				if sameColumns([]*frame{f, g}) && f.enc == g.enc && len(f.rows)+len(g.rows) < 5 {
					l = append(l, w.opRowConcat(f, g))
				}
				if f != g && sharesNoName([]*frame{f, g}) && len(f.rows) == len(g.rows) {
					l = append(l, w.opColConcat(ccView, f, g), w.opColConcat(ccCopy, f, g), w.opColConcat(ccSmart, f, g))
				}
			}
			return l
		})
		for _, f := range w.frames {
			if f.deriv && f.restructurable() {
				if ns := f.names(); len(ns) > 1 {
					l = append(l, w.opDrop(f, ns[0]))
				}
			}
		}
		return l
	})
}

// compact: a deep copy has storage for its rows only, in every column.
func compact(w *world) {
	texts := false // in object columns: the consistency check does not take those
	for _, f := range w.frames {
		for _, c := range f.cols {
			if c.kind == kO && !c.str {
				for _, x := range c.cells {
					if _, ok := x.v.(string); ok {
						texts = true
					}
				}
			}
		}
	}
	for _, f := range w.pick(1) {
		g := f.df.Copy()
		for _, df := range []*dataframe.DataFrame{f.df, g} {
			if ok, failed := reported(func(t *testing.T) bool { return df.CheckConsistency(t) }); !texts && (!ok || failed) {
				failf("the storage of %s or of its copy is not consistent\n  %s", f.name, strings.Join(w.log, "\n  "))
			}
		}
		if n := g.NumAllocatedRows(); n != len(f.rows) {
			failf("a copy of %s stores %d rows, expected %d\n  %s", f.name, n, len(f.rows), strings.Join(w.log, "\n  "))
		}
		var h *dataframe.DataFrame
		if mustPanic(func() { h = g.ToDataFrame() }) {
			failf("the columns of a copy of %s have different sizes\n  %s", f.name, strings.Join(w.log, "\n  "))
		}
		if n := h.NumRows(); n != len(f.rows) || h.NumColumns() != len(f.cols) {
			failf("a copy of %s stores %d rows and %d columns, expected %d and %d\n  %s", f.name, n, h.NumColumns(), len(f.rows), len(f.cols), strings.Join(w.log, "\n  "))
		}
	}
}

// ---- C06, C07 ----------------------------------------------------------------------

// opOverwriteAs overwrites (or creates) column name with values of a type.
func (w *world) opOverwriteAs(f *frame, typ byte, name string, mode int) op {
	c := f.cols[name]
	kind := byte(kO)
	if typ != 's' && typ != 'o' {
		kind = typ
	}
	if c == nil || c.kind != kind {
		return w.opOverwriteNew(f, typ, name, mode)
	}
	return w.opOverwrite(f, name, mode)
}

var fibso = []byte("fibso")

// restructurings of f. Names are taken from f and from two new ones.
func (w *world) restructurings(f *frame, wide bool) []op {
	if !f.restructurable() {
		return nil
	}
	var l []op
	ns := f.names()
	n := len(f.rows)
	if wide {
		for _, t := range fibso {
			l = append(l, w.opAlloc(f, t, "new"))
			l = append(l, w.opOverwriteAs(f, t, "new2", 0))
		}
	} else {
		l = append(l, w.opAlloc(f, fibso[len(ns)%5], "new"), w.opOverwriteAs(f, fibso[(len(ns)+2)%5], "new2", 0))
	}
	for i, name := range ns {
		if !wide && i > 2 {
			break
		}
		l = append(l, w.opDrop(f, name), w.opRename(f, name, "ren"))
		l = append(l, w.opRename(f, name, ns[(i+1)%len(ns)]))
		cur := f.cols[name]
		if wide {
			for _, t := range fibso {
				l = append(l, w.opAlloc(f, t, name))
				if n > 0 || cur.kind != kO {
					l = append(l, w.opOverwriteAs(f, t, name, 0))
				}
			}
		} else {
			l = append(l, w.opAlloc(f, fibso[(i+len(ns))%5], name))
		}
		if cur.kind == kI || cur.kind == kB {
			l = append(l, w.opToFloats(f, name))
		}
	}
	if len(ns) > 1 {
		l = append(l, w.opDrop(f, ns[0], ns[len(ns)-1]))
	}
	if len(ns) > 0 {
		l = append(l, w.opDrop(f, ns...))
	}
	var ii []string
	for _, name := range ns {
		if f.cols[name].kind == kI {
			ii = append(ii, name)
		}
	}
	if len(ii) > 1 {
		l = append(l, w.opToFloats(f, ii...))
	}
	return l
}

func (w *world) hashes(f *frame) []op {
	var l []op
	sc := f.strCols()
	for _, s := range sc {
		l = append(l, w.opHash(f, s))
	}
	if len(sc) > 1 {
		l = append(l, w.opHash(f, sc...))
	}
	return l
}

func runC06(c *Ctx) {
	depth := 3
	// every derivation, then every restructuring of it, then another one
	c.Tree("one derivation, all restructurings", []root{rootOf(3, allTypes), rootOf(12, "id:d s1:s b1:b"), rootOf(23, "f1:f s1:s s2:s"), rootOf(0, allTypes)},
		treeOpt{depth: depth}, func(w *world, d int) []op {
			f := w.last()
			switch d {
			case 0:
				l := w.rowMenu(f, false)
				l = append(l, w.someCols(f)...)
				l = append(l, w.opCopy(f), w.opDetached(f), w.opDetached(f, f.names()[0]), w.opSplitView(f, 1+len(f.rows)/3), w.opSplitN(f, 2), w.opTrainTest(f, 0.5))
				l = append(l, w.hashes(f)...)
				if f.idOK("id") && len(f.rows) > 0 {
					l = append(l, w.opSorted(f, "id", "id"), w.opTop(f, "id", len(f.rows), true, false, "id"), w.opTop(f, "id", 2, false, true, "id"))
				}
				return l
			case 1:
				return w.restructurings(f, true)
			}
			return w.restructurings(f, false)
		})
	depth = 3
	if c.thorough {
		depth = 4
	}
	c.Tree("mixed histories", []root{rootOf(3, "f1:f s1:s i1:i"), rootOf(12, "b1:b s1:s")}, treeOpt{depth: depth}, func(w *world, d int) []op {
		var l []op
		for _, f := range w.pick(2) {
			l = append(l, w.opView(f), w.opReverse(f), w.opSlice(f, len(f.rows)/2, -1), w.opShallow(f))
			ns := f.names()
			if len(ns) > 1 {
				l = append(l, w.opColumnView(f, ns[1:]...))
			}
			l = append(l, w.hashes(f)...)
			if f.deriv {
				l = append(l, w.restructurings(f, false)...)
			}
		}
		return l
	})
	c.Tree("intermediate views", []root{rootOf(4, "f1:f s1:s"), rootOf(14, "i1:i")}, treeOpt{depth: depth + 1}, func(w *world, d int) []op {
		var l []op
		for _, f := range w.frames {
			if d < 2 {
				l = append(l, w.opView(f), w.opSlice(f, 1, -1), w.opReverse(f))
			}
			if f.deriv && f.restructurable() {
				ns := f.names()
				if len(ns) > 0 {
					l = append(l, w.opDrop(f, ns[0]), w.opAlloc(f, 's', ns[len(ns)-1]), w.opRename(f, ns[0], "zz"))
				}
			}
		}
		return l
	})
	c.scale("structure", 30, 3000, (*world).everyStructure)
	c.chains("long chains", 12, chainStructure(), nil)
	c.structure("all structures", 3, 20, nil)
}

func runC07(c *Ctx) {
	depth := 3
	if c.thorough {
		depth = 4
	}
	c.Tree("one dataframe", []root{rootOf(2, "a:f b:s"), rootOf(2, "a:i b:b"), rootOf(3, "a:o"), emptyRoot(3), emptyRoot(0), rootOf(0, "a:s b:i")}, treeOpt{depth: depth, extra: compact}, func(w *world, d int) []op {
		f := w.last()
		l := w.restructurings(f, len(f.cols) < 3)
		l = append(l, w.opReverse(f))
		if n := len(f.rows); n > 0 {
			l = append(l, w.opSlice(f, 0, n-1))
		}
		return l
	})
	c.Tree("on views", []root{rootOf(3, "a:f b:s c:b"), rootOf(12, "a:i b:o"), emptyRoot(2), rootOf(47, "a:i b:f"), rootOf(25, "a:b")}, treeOpt{depth: depth, extra: compact}, func(w *world, d int) []op {
		f := w.last()
		l := []op{w.opView(f), w.opReverse(f), w.opSlice(f, len(f.rows)/2, -1), w.opSlice(f, 0, len(f.rows)/2), w.opDetached(f), w.opShallow(f), w.opCopy(f)}
		ns := f.names()
		if len(ns) > 0 {
			l = append(l, w.opColumnView(f, ns[0]), w.opDetached(f, ns[0]))
		}
		l = append(l, w.hashes(f)...)
		l = append(l, w.restructurings(f, false)...)
		return l
	})
	c.Tree("concatenations", []root{twoRoots(2, "a:f b:s", "c:b")}, treeOpt{depth: depth, extra: compact}, func(w *world, d int) []op {
		var l []op
		for _, f := range w.pick(2) {
			l = append(l, w.restructurings(f, false)...)
			l = append(l, w.opReverse(f))
		}
		l = append(l, w.joins(3, ccView, ccCopy, ccSmart)...)
		f := w.last()
		l = append(l, w.opRowConcat(f, f))
		return l
	})
	// several columns per call, names that meet
	c.Unit("multi-column calls")
	for n := 0; n <= 3; n++ {
		for view := 0; view < 3; view++ {
			n, view := n, view
			c.Case(fmt.Sprintf("n=%d view=%d", n, view), func() {
				w := newWorld()
				f := w.build(n, specs("a:i b:i c:b d:b e:s g:f"))
				switch view {
				case 1:
					w.opReverse(f).do()
				case 2:
					w.opShallow(f).do()
				}
				g := w.last()
				df := g.df
				df.AllocInts("x", "y", "a")
				g.restructure()
				for _, k := range []string{"x", "y", "a"} {
					g.alloc('i', k)
				}
				w.checkAll("AllocInts(x,y,a)")
				df.AllocFloats("b", "z")
				g.alloc('f', "b")
				g.alloc('f', "z")
				w.checkAll("AllocFloats(b,z)")
				df.AllocBools("e", "b2")
				g.alloc('b', "e")
				g.alloc('b', "b2")
				w.checkAll("AllocBools(e,b2)")
				df.AllocStrings("c", "s2")
				g.alloc('s', "c")
				g.alloc('s', "s2")
				w.checkAll("AllocStrings(c,s2)")
				df.AllocObjects("c", "o2")
				g.alloc('o', "c")
				g.alloc('o', "o2")
				w.checkAll("AllocObjects(c,o2)")
				df.AllocInts()
				df.Drop()
				w.checkAll("AllocInts() Drop()")
				w.probe()
			})
		}
	}
	c.scaleOpt("structure", 30, 3000, treeOpt{extra: compact}, (*world).everyStructure)
	c.chains("long chains", 12, chainStructure(), compact)
	c.structure("all structures", 2, 20, compact)
	c.structure("all structures", 3, 20, compact)
}

// ---- C08 ---------------------------------------------------------------------------

type selOp struct {
	name string
	do   func(w *world, f *frame)
}

func rowSelections() []selOp {
	return []selOp{
		{"as is", func(w *world, f *frame) {}},
		{"view", func(w *world, f *frame) { w.opView(f).do() }},
		{"reversed", func(w *world, f *frame) { w.opReverse(f).do() }},
		{"slice", func(w *world, f *frame) { w.opSlice(f, 1, -1).do() }},
		{"head", func(w *world, f *frame) { w.opSlice(f, 0, len(f.rows)-1).do() }},
		{"repeated", func(w *world, f *frame) { w.opIndex(f, append([]int{0}, seq(len(f.rows)-1)...)).do() }},
		{"larger", func(w *world, f *frame) { w.opIndex(f, append([]int{0}, seq(len(f.rows))...)).do() }},
		{"identity index", func(w *world, f *frame) { w.opIndex(f, seq(len(f.rows))).do() }},
		{"empty", func(w *world, f *frame) { w.opIndex(f, nil).do() }},
		{"copy", func(w *world, f *frame) { w.opReverse(f).do(); w.opCopy(w.last()).do() }},
		{"nested", func(w *world, f *frame) { w.opReverse(f).do(); w.opSlice(w.last(), 1, -1).do() }},
		{"shallow", func(w *world, f *frame) { w.opShallow(f).do() }},
		{"inner rows moved", func(w *world, f *frame) { w.opIndex(f, inner(len(f.rows))).do() }},
		{"inner rows repeated", func(w *world, f *frame) {
			l := seq(len(f.rows))
			if len(l) > 3 {
				l = l[1:]
				l[1] = l[0]
			}
			w.opIndex(f, l).do()
		}},
		{"index prefix", func(w *world, f *frame) { w.opIndex(f, seq(len(f.rows)-1)).do() }},
	}
}

func (w *world) afterConcat() {
	w.checkAll("concatenating")
	w.probe()
	f := w.last()
	if f.restructurable() && f.derived == 0 {
		names := f.names()
		w.opAlloc(f, 'i', "fresh").do()
		w.opOverwriteAs(f, 's', "fresh2", 0).do()
		if len(names) > 0 {
			w.opRename(f, names[0], "ren").do()
			w.opDrop(f, names[len(names)-1]).do()
		}
		w.opReverse(f).do()
		w.opCopy(w.last()).do()
		w.checkAll("restructuring the concatenation")
		w.probe()
	}
}

func runC08(c *Ctx) {
	sel := rowSelections()
	c.Unit("column concatenation of pairs")
	for _, spec := range [][2]string{{"id:d f1:f s1:s", "b1:b o1:o s2:s"}, {"s1:s", "f2:f"}, {"f1:f i1:i", "f1:s"}, {"i1:i b1:b", "b1:b"}, {"f1:f", "s1:s"}} {
		for _, rows := range [][2]int{{3, 3}, {3, 4}, {4, 3}, {2, 3}, {1, 1}, {12, 12}, {12, 13}} {
			for _, a := range sel {
				for _, b := range sel {
					for kind := 0; kind < 3; kind++ {
						spec, rows, a, b, kind := spec, rows, a, b, kind
						c.Case(fmt.Sprintf("%v rows=%v %s/%s %s", spec, rows, a.name, b.name, ccNames[kind]), func() {
							w := newWorld()
							f := w.build(rows[0], specs(spec[0]))
							a.do(w, f)
							x := w.last()
							g := w.build(rows[1], specs(spec[1]))
							b.do(w, g)
							y := w.last()
							n := len(w.frames)
							w.opColConcat(kind, x, y).do()
							if len(w.frames) > n || rows[0] < 4 {
								w.afterConcat()
							}
						})
					}
				}
			}
		}
	}
	c.Unit("columns of one dataframe put together again")
	for _, a := range sel {
		for _, b := range sel {
			for kind := 0; kind < 3; kind++ {
				a, b, kind := a, b, kind
				c.Case(fmt.Sprintf("%s/%s %s", a.name, b.name, ccNames[kind]), func() {
					w := newWorld()
					f := w.build(4, specs(allTypes))
					w.opColumnView(f, "f1", "s1").do()
					a.do(w, w.last())
					x := w.last()
					b.do(w, f)
					w.opColumnView(w.last(), "b1", "o1", "id").do()
					y := w.last()
					w.opColConcat(kind, x, y).do()
					w.afterConcat()
				})
			}
		}
	}
	c.Unit("three and more parts")
	for kind := 0; kind < 3; kind++ {
		for t := 0; t < 27; t++ {
			kind, t := kind, t
			three := []selOp{sel[0], sel[2], sel[7]}
			c.Case(fmt.Sprintf("%s %d", ccNames[kind], t), func() {
				w := newWorld()
				var fs []*frame
				x := t
				for _, sp := range []string{"a:s", "b:f c:s", "d:i"} {
					f := w.build(3, specs(sp))
					three[x%3].do(w, f)
					fs = append(fs, w.last())
					x /= 3
				}
				w.opColConcat(kind, fs...).do()
				w.afterConcat()
				w.opColConcat(kind, fs[0]).do()
				w.opColConcat(kind, fs[2], fs[0], fs[1]).do()
				w.checkAll("concatenating")
			})
		}
	}
	// every pair of index lists: only congruent ones may be paired
	c.Unit("all pairs of index lists")
	size := 8
	if c.thorough {
		size = 12
	}
	for l := 1; l <= 2; l++ {
		tuples(size, l, func(t []int) {
			a := append([]int{}, t...)
			c.Case(fmt.Sprintf("%v with all", a), func() {
				tuples(size, l, func(t []int) {
					w := newWorld()
					f := w.build(size, specs("a:d"))
					g := w.build(size, specs("b:d"))
					w.opIndex(f, a).do()
					x := w.last()
					w.opIndex(g, t).do()
					y := w.last()
					w.opColConcat(ccView, x, y).do()
					w.opColConcat(ccSmart, x, y).do()
					w.last().diffOrFail()
				})
			})
		})
	}
	if c.thorough {
		tuples(5, 3, func(t []int) {
			a := append([]int{}, t...)
			c.Case(fmt.Sprintf("%v with all", a), func() {
				tuples(5, 3, func(t []int) {
					w := newWorld()
					f := w.build(5, specs("a:d"))
					g := w.build(5, specs("b:d"))
					w.opIndex(f, a).do()
					x := w.last()
					w.opIndex(g, t).do()
					w.opColConcat(ccView, x, w.last()).do()
					w.opColConcat(ccSmart, x, w.frames[3]).do()
				})
			})
		})
	}
	c.Unit("row concatenation")
	for _, spec := range [][2]string{{allTypes, allTypes}, {"f1:f s1:s", "s1:s f1:f"}, {"f1:f", "f1:f i1:i"}, {"f1:f i1:i", "f1:f"}, {"f1:f", "f1:i"}, {"i1:i", "i1:f"},
		{"s1:s", "s1:b"}, {"b1:b", "b1:b s1:s"}, {"b1:b o1:o", "b1:b"}, {"a:f", "b:f"}, {"a:f b:i", "a:i b:f"}, {"a:s b:i", "a:s b:i c:b"}, {"", ""}, {"", "a:f"}, {"a:i", ""}} {
		for _, rows := range [][2]int{{3, 3}, {3, 2}, {2, 4}, {1, 1}, {12, 2}} {
			for _, a := range sel {
				for _, b := range sel {
					spec, rows, a, b := spec, rows, a, b
					if (spec[0] == "" || spec[1] == "") && (a.name != "as is" || b.name != "as is") {
						continue
					}
					c.Case(fmt.Sprintf("[%s]/[%s] rows=%v %s/%s", spec[0], spec[1], rows, a.name, b.name), func() {
						w := newWorld()
						mk := func(n int, s string) *frame {
							if s == "" {
								emptyRoot(n).init(w)
								return w.last()
							}
							return w.build(n, specs(s))
						}
						f := mk(rows[0], spec[0])
						a.do(w, f)
						x := w.last()
						g := mk(rows[1], spec[1])
						b.do(w, g)
						y := w.last()
						k := len(w.frames)
						w.opRowConcat(x, y).do()
						if len(w.frames) > k {
							w.afterConcat()
							w.opRowConcat(y, x, y).do()
							w.checkAll("concatenating three")
							w.probe()
						} else {
							w.checkAll("failing")
						}
					})
				}
			}
		}
	}
	// every row count: the same rows, others, none
	cat := func(w *world, d int) []op {
		f := w.last()
		n := len(f.rows)
		ns := f.names()
		pair := func(name string, da, db func() op, kind int) op {
			return op{name, func() {
				da().do()
				a := w.last()
				db().do()
				b := w.last()
				switch {
				case kind < 3 && len(ns) > 1:
					w.opColumnView(a, ns[:1+len(ns)/2]...).do()
					a = w.last()
					w.opColumnView(b, ns[1+len(ns)/2:]...).do()
					if len(ns) == 2 {
						w.opColumnView(b, ns[1]).do()
						w.opColumnView(a, ns[0]).do()
						a, b = w.last(), w.frames[len(w.frames)-2]
					}
					w.opColConcat(kind, a, w.last()).do()
				case kind == 3:
					w.opRowConcat(a, b).do()
				case kind == 4:
					w.opRowConcat(b, a, f).do()
				}
			}}
		}
		forms := map[string]func() op{
			"view":    func() op { return w.opView(f) },
			"reverse": func() op { return w.opReverse(f) },
			"tail":    func() op { return w.opSlice(f, n/2, -1) },
			"rotated": func() op { return w.opIndex(f, append(seq(n)[n-n/2:], seq(n)[:n-n/2]...)) },
			"copy":    func() op { return w.opCopy(f) },
			"none":    func() op { return w.opIndex(f, nil) },
		}
		var l []op
		for _, p := range [][2]string{{"view", "view"}, {"reverse", "reverse"}, {"reverse", "view"}, {"rotated", "rotated"}, {"tail", "tail"}, {"copy", "reverse"}, {"tail", "copy"}, {"none", "view"}, {"view", "none"}, {"rotated", "copy"}} {
			for kind := 0; kind < 5; kind++ {
				l = append(l, pair(fmt.Sprintf("%s and %s %d", p[0], p[1], kind), forms[p[0]], forms[p[1]], kind))
			}
		}
		return l
	}
	c.scale("concatenations", 30, 3000, cat)
	c.Unit("one argument")
	for _, a := range sel {
		a := a
		c.Case(a.name, func() {
			w := newWorld()
			f := w.build(3, specs(allTypes))
			a.do(w, f)
			w.opRowConcat(w.last()).do()
			w.afterConcat()
		})
	}
	depth := 3
	if c.thorough {
		depth = 4
	}
	c.Tree("histories", []root{twoRoots(3, "a:f b:s", "c:i d:o"), twoRoots(12, "a:b", "c:s")}, treeOpt{depth: depth}, func(w *world, d int) []op {
		var l []op
		fs := w.pick(3)
		for _, f := range fs {
			l = append(l, w.opReverse(f), w.opSlice(f, 1, -1), w.opCopy(f))
			if len(f.rows) > 0 {
				l = append(l, w.opIndex(f, seq(len(f.rows)-1)))
			}
		}
		for i, f := range fs {
			for j, g := range fs {
				if i == j {
					continue
				}
				for kind := 0; kind < 3; kind++ {
					l = append(l, w.opColConcat(kind, f, g))
				}
				l = append(l, w.opRowConcat(f, g))
			}
		}
		return l
	})
	c.assemblies(4, 20)
	c.assemblies(5, 20)
}

func (f *frame) diffOrFail() {
	if m := f.diff(); m != "" {
		failf("%s", m)
	}
}

// ---- C26 ---------------------------------------------------------------------------

// mask requests a mask, selects rows with it, then reuses buffers.
func (w *world) opMasking(f *frame, zero bool, pattern int) op {
	n := spf("%s.masking(zero=%v,pattern=%d)", f.name, zero, pattern)
	return op{n, func() {
		var m []bool
		if zero {
			m = f.df.ZeroMask()
		} else {
			m = f.df.EmptyMask()
		}
		check(len(m) == len(f.rows), "%s: the mask has %d elements, the dataframe %d rows", n, len(m), len(f.rows))
		var pos []int
		for i := range m {
			if zero && m[i] {
				failf("%s: element %d of the zero mask is true", n, i)
			}
			b := false
			switch pattern {
			case 0:
				b = i%2 == 0
			case 1:
				b = i%3 != 0
			case 2:
				b = true
			}
			m[i] = b
			if b {
				pos = append(pos, i)
			}
		}
		if f.safe {
			m2 := f.df.EmptyMask()
			m3 := f.df.ZeroMask()
			check(len(m2) == len(m) && len(m3) == len(m), "%s: masks of %d and %d elements", n, len(m2), len(m3))
			for i := range m2 {
				m2[i] = i%2 == 1
				m3[i] = !m2[i]
			}
			k := 0
			for i, b := range m {
				if b {
					if k >= len(pos) || pos[k] != i {
						failf("%s: thread-safe masks are not independent", n)
					}
					k++
				}
			}
			check(k == len(pos), "%s: thread-safe masks are not independent", n)
		}
		v := f.df.MaskView(m)
		for i := range m { // reuse the buffer
			m[i] = !m[i]
		}
		w.add(w.derive(f, pos, v), n)
	}}
}

func (w *world) opSafe(f *frame, on bool) op {
	n := spf("%s.ThreadSafeMasking(%v)", f.name, on)
	return op{n, func() {
		w.logf("%s", n)
		check(f.df.ThreadSafeMasking(on) == f.df, "ThreadSafeMasking returns another dataframe")
		f.safe = on
	}}
}

// opOwnMask selects rows with a slice that the caller made and keeps.
func (w *world) opOwnMask(f *frame, pattern, spare int) op {
	n := spf("%s.MaskView(own mask %d, %d to spare)", f.name, pattern, spare)
	return op{n, func() {
		m := make([]bool, len(f.rows), len(f.rows)+spare)
		var pos []int
		for i := range m {
			m[i] = i%2 == pattern%2 || pattern == 2
			if m[i] {
				pos = append(pos, i)
			}
		}
		w.add(w.derive(f, pos, f.df.MaskView(m)), n)
		w.ownMasks = append(w.ownMasks, ownMask{m[:cap(m)], append([]bool(nil), m[:cap(m)]...)})
	}}
}

type ownMask struct{ m, want []bool }

func (w *world) checkOwnMasks() {
	for _, o := range w.ownMasks {
		for i, b := range o.m {
			check(b == o.want[i], "element %d of a mask slice made by the caller changed\n  %s", i, strings.Join(w.log, "\n  "))
		}
	}
}

// checkMasks requests masks from all the dataframes and reuses them.
func (w *world) checkMasks() {
	type held struct {
		f *frame
		m []bool
	}
	var safe []held
	defer w.checkOwnMasks()
	for _, f := range w.frames {
		for k := 0; k < 2; k++ {
			m := f.df.EmptyMask()
			check(len(m) == len(f.rows), "%s: EmptyMask has %d elements, the dataframe %d rows", f.name, len(m), len(f.rows))
			for i := range m {
				m[i] = true
			}
			z := f.df.ZeroMask()
			check(len(z) == len(f.rows), "%s: ZeroMask has %d elements, the dataframe %d rows", f.name, len(z), len(f.rows))
			for i, b := range z {
				check(!b, "%s: element %d of ZeroMask is true", f.name, i)
			}
			if f.safe {
				for i := range z {
					z[i] = i%2 == k
				}
				safe = append(safe, held{f, z})
			}
		}
	}
	for k, h := range safe {
		for i, b := range h.m {
			check(b == (i%2 == k%2), "%s: a thread-safe mask changed when other masks were requested", h.f.name)
		}
	}
}

func runC26(c *Ctx) {
	depth := 3
	if c.thorough {
		depth = 4
	}
	gen := func(safe bool) func(w *world, d int) []op {
		return func(w *world, d int) []op {
			var l []op
			for _, f := range w.pick(1) {
				n := len(f.rows)
				for p := 0; p < 3; p++ {
					l = append(l, w.opMasking(f, p != 1, p))
				}
				l = append(l, w.opMasking(f, true, 3), w.opOwnMask(f, 0, 0), w.opOwnMask(f, 2, 2))
				l = append(l, w.opReverse(f), w.opSlice(f, n/2, -1), w.opShallow(f))
				if n > 0 {
					l = append(l, w.opIndex(f, append(seq(n), seq(n)...)), w.opIndex(f, append(append(seq(n), 0, 0, 0), seq(n)...)), w.opIndex(f, []int{0}))
				}
				if len(f.cols) > 1 {
					l = append(l, w.opColumnView(f, "id"))
				}
				l = append(l, w.opCopy(f))
				if f.idOK("id") && n > 0 {
					l = append(l, shuffled(1, w.opSample(f, n/2, "id")), w.opSorted(f, "id", "id"), w.opTop(f, "id", n/2, false, false, "id"))
				}
				if !f.safe {
					l = append(l, w.opSafe(f, true))
				} else if safe {
					l = append(l, w.opSafe(f, false))
				}
			}
			return l
		}
	}
	opt := treeOpt{depth: depth, noProbe: true, extra: func(w *world) {
		w.checkMasks()
		w.checkAll("requesting masks")
		w.checkMasks()
	}}
	c.Tree("masks", []root{rootOf(3, "id:d s1:s"), rootOf(12, "id:d"), rootOf(0, "id:d"), emptyRoot(2), rootOf(1, "id:d f1:f")}, opt, gen(false))
	c.Tree("thread-safe masks", []root{
		{"safe rows=3", func(w *world) { w.opSafe(w.build(3, specs("id:d s1:s")), true).do() }},
		{"safe rows=12", func(w *world) { w.opSafe(w.build(12, specs("id:d")), true).do() }},
	}, opt, gen(true))
	c.Tree("masks of concatenations", []root{twoRoots(3, "a:f", "b:s c:d"), twoRoots(0, "a:f", "b:s")}, opt, func(w *world, d int) []op {
		var l []op
		for _, f := range w.pick(2) {
			l = append(l, w.opReverse(f), w.opMasking(f, true, 1))
			if len(f.rows) > 0 {
				l = append(l, w.opIndex(f, append(seq(len(f.rows)), 0, 0)))
			}
		}
		l = append(l, w.joins(3, ccView, ccCopy)...)
		f := w.last()
		l = append(l, w.opRowConcat(f, f))
		return l
	})
	c.Tree("masks, 4 dataframes", []root{rootOf(2, "a:i"), rootOf(1, "id:d s1:s"), rootOf(0, "a:b")}, treeOpt{depth: 20, dedupe: true, noProbe: true, extra: opt.extra}, func(w *world, d int) []op {
		l := w.grow(4, func(f *frame) []op {
			n := len(f.rows)
			l := []op{w.opMasking(f, true, 0), w.opMasking(f, false, 2), w.opOwnMask(f, 1, 1), w.opReverse(f), w.opShallow(f), w.opCopy(f)}
			if n > 0 {
				l = append(l, w.opSlice(f, 0, 1), w.opIndex(f, append(append(seq(n), 0), seq(n)...)))
			}
			return l
		})
		for _, f := range w.frames {
			l = append(l, w.opSafe(f, !f.safe))
		}
		return l
	})
	c.scaleOpt("masks", 66, 5000, opt, func(w *world, d int) []op {
		f := w.last()
		n := len(f.rows)
		l := []op{w.opMasking(f, true, 0), w.opMasking(f, false, 1), w.opMasking(f, true, 3), w.opOwnMask(f, 2, 2)}
		l = append(l, w.opReverse(f), w.opSlice(f, n/2, -1), w.opShallow(f))
		if n > 0 {
			l = append(l, w.opIndex(f, append(seq(n), seq(n)...)))
		}
		return append(l, w.opSafe(f, !f.safe))
	})
	c.Unit("every mask size")
	for n := 0; n <= 20; n++ {
		for m := 0; m <= 3*n+1; m += 1 {
			n, m := n, m
			if n == 0 && m > 0 {
				continue
			}
			c.Case(fmt.Sprintf("IndexView of %d rows on %d rows", m, n), func() {
				w := newWorld()
				f := w.build(n, specs("id:d"))
				pos := make([]int, m)
				for i := range pos {
					pos[i] = (i * 3) % n
				}
				w.opIndex(f, pos).do()
				v := w.last()
				w.opMasking(v, true, 1).do()
				w.opMasking(v, false, 0).do()
				w.checkMasks()
				w.opIndex(v, append(seq(m), seq(m)...)).do()
				w.checkMasks()
				w.checkAll("masking")
			})
		}
	}
	_ = sched.KRand
	_ = dataframe.AnyObject
}
