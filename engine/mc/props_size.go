//go:build go1.21

package main

import (
	"fmt"
	"math"
)

// Larger and unusual dataframes for the properties about views, storage and
// structure: every row count up to a bound and around powers of two, every
// column count up to a bound, unusual values, and long chains of operations.

// rowCounts lists every row count up to dense, then the surroundings of round
// numbers up to max.
func rowCounts(dense, max int) []int {
	var l []int
	for n := 0; n <= dense; n++ {
		l = append(l, n)
	}
	add := func(n int) {
		if n <= max && n > l[len(l)-1] {
			l = append(l, n)
		}
	}
	for _, n := range []int{64, 100, 128, 200, 250, 256, 300, 400, 500, 512, 600, 750, 1000, 1024, 1500, 2000, 2048, 2500, 3000, 4000, 4096, 5000, 8000, 8192, 10000, 16384, 20000, 32768, 50000, 65536, 100000} {
		for d := -1; d <= 1; d++ {
			add(n + d)
		}
	}
	return l
}

const oddTypes = "id:d F:F I:I S:S O:O b:b"

// scale: the operations of gen on dataframes of many row and column counts.
func (c *Ctx) scale(what string, dense, max int, gen func(w *world, d int) []op) {
	c.scaleOpt(what, dense, max, treeOpt{}, gen)
}

func (c *Ctx) scaleOpt(what string, dense, max int, opt treeOpt, gen func(w *world, d int) []op) {
	if c.thorough {
		dense, max = 2*dense+60, 2*max
	}
	var roots []root
	spec := []string{allTypes, "id:d", "f1:f s1:s", "b1:b", "o1:o i1:i", "s1:s"}
	for i, n := range rowCounts(dense, max) {
		if n > 300 {
			roots = append(roots, rootOf(n, "id:d f1:f s1:s"))
			continue
		}
		roots = append(roots, rootOf(n, allTypes))
		if k := i % len(spec); k > 0 {
			roots = append(roots, rootOf(n, spec[k]))
		}
	}
	opt.depth = 1
	c.Tree(what+" of every row count", roots, opt, gen)
	roots = nil
	for k := 1; k <= 24; k++ {
		for _, n := range []int{2, 13} {
			roots = append(roots, wideRoot(n, k))
		}
	}
	for _, k := range []int{31, 32, 33, 50, 63, 64, 65, 100, 128, 129, 256, 257} {
		roots = append(roots, wideRoot(2, k))
	}
	c.Tree(what+" of every column count", roots, opt, gen)
	opt.depth = 2
	c.Tree(what+" of unusual values", []root{rootOf(12, oddTypes), rootOf(30, oddTypes)}, opt, gen)
	c.Tree(what+" twice", []root{rootOf(13, "id:d s1:s"), rootOf(47, "id:d f1:f"), rootOf(130, "id:d"), rootOf(1030, "id:d b1:b")}, opt, gen)
}

func wideRoot(n, k int) root {
	return root{fmt.Sprintf("rows=%d columns=%d", n, k), func(w *world) { w.build(n, manySpecs(k)) }}
}

// ends returns the first, second, middle and last of the names.
func ends(ns []string) []string {
	if len(ns) < 5 {
		return ns
	}
	return []string{ns[0], ns[1], ns[len(ns)/2], ns[len(ns)-1]}
}

// everyRows: the operations that select rows, on the last dataframe.
func (w *world) everyRows(d int) []op {
	f := w.last()
	l := w.rowMenu(f, true)
	n := len(f.rows)
	if n > 0 {
		l = append(l, w.opSplitView(f, 1+n/3), w.opSplitN(f, 3), w.opTrainTest(f, 0.25))
		if f.idOK("id") {
			l = append(l, w.opSorted(f, "id", "id"), w.opTop(f, "id", 1+n/2, true, true, "id"), w.opTop(f, "id", 1+n/2, false, false, "id"))
		}
	}
	return l
}

// everySharing: the operations that share columns, the writes through them and
// the operations that give columns of their own.
func (w *world) everySharing(d int) []op {
	f := w.last()
	n := len(f.rows)
	ns := f.names()
	l := append(w.someRows(f), w.opShallow(f), w.opCopy(f), w.opDetached(f))
	if n > 0 {
		l = append(l, w.opSlice(f, 0, n-1), w.opIndex(f, seq(n)[:n-1]))
	}
	for _, name := range ends(ns) {
		l = append(l, w.opColumnView(f, name), w.opDetached(f, name))
		if n > 0 {
			l = append(l, w.opSet(f, name, n-1), w.opSet(f, name, 0), w.opOverwrite(f, name, 0))
			if f.cols[name].kind == kF {
				l = append(l, w.opOverwrite(f, name, 1))
			}
		}
		if f.deriv && f.derived == 0 {
			l = append(l, w.opUnshare(f, name))
		}
	}
	if len(ns) > 2 {
		l = append(l, w.opColumnView(f, ns[1:]...), w.opDetached(f, ns[:len(ns)-1]...))
	}
	if f.deriv && f.derived == 0 {
		l = append(l, w.opUnshare(f))
	}
	if len(ns) > 1 {
		// cut and put together again
		cut := func(kind int) op {
			return op{fmt.Sprintf("cutting %s and %s", f.name, ccNames[kind]), func() {
				w.opColumnView(f, ns[:len(ns)/2]...).do()
				a := w.last()
				w.opColumnView(f, ns[len(ns)/2:]...).do()
				w.opColConcat(kind, a, w.last()).do()
			}}
		}
		l = append(l, cut(ccView), cut(ccCopy), cut(ccSmart))
	}
	return append(l, w.opRowConcat(f), w.opRowConcat(f, f))
}

// everyStructure: the operations that change the columns.
func (w *world) everyStructure(d int) []op {
	f := w.last()
	n := len(f.rows)
	ns := f.names()
	l := []op{w.opView(f), w.opReverse(f), w.opShallow(f), w.opCopy(f), w.opDetached(f), w.opSlice(f, n/2, -1)}
	if len(ns) > 1 {
		l = append(l, w.opColumnView(f, ns[1:]...))
	}
	if !f.restructurable() {
		return l
	}
	for _, t := range fibso {
		l = append(l, w.opAlloc(f, t, "new"), w.opOverwriteAs(f, t, "new2", 0))
	}
	for i, name := range ends(ns) {
		l = append(l, w.opDrop(f, name), w.opRename(f, name, "ren"), w.opRename(f, name, ns[(i+1)%len(ns)]), w.opAlloc(f, fibso[(i+len(ns))%5], name))
		if k := f.cols[name].kind; k == kI || k == kB {
			l = append(l, w.opToFloats(f, name))
		}
	}
	if len(ns) > 1 {
		l = append(l, w.opDrop(f, ns[1:]...), w.opDrop(f, ns[:len(ns)-1]...), w.opDrop(f, ns...))
	}
	for _, k := range []byte{kI, kB} {
		if ns := f.ofKind(k); len(ns) > 1 {
			l = append(l, w.opToFloats(f, ns...))
		}
	}
	return append(l, w.hashes(f)...)
}

// chains: three operations over and over again, each on the last result.
func (c *Ctx) chains(unit string, steps int, menu []selOp, extra func(w *world)) {
	c.Unit(unit)
	for i := range menu {
		for j := range menu {
			for k := range menu {
				if i == j && j != k || (!c.thorough && (i+j+k)%2 == 1) {
					continue
				}
				for _, n := range []int{3, 14} {
					i, j, k, n := i, j, k, n
					c.Case(fmt.Sprintf("rows=%d: %s, %s, %s", n, menu[i].name, menu[j].name, menu[k].name), func() {
						w := newWorld()
						w.build(n, specs("id:d f1:f s1:s"))
						for s := 0; s < steps; s++ {
							o := menu[[]int{i, j, k}[s%3]]
							o.do(w, w.last())
							w.checkAll(o.name)
						}
						if extra != nil {
							extra(w)
						}
						w.probe()
					})
				}
			}
		}
	}
}

func chainRows() []selOp {
	return []selOp{
		{"view", func(w *world, f *frame) { w.opView(f).do() }},
		{"reverse", func(w *world, f *frame) { w.opReverse(f).do() }},
		{"head", func(w *world, f *frame) { w.opSlice(f, 0, len(f.rows)-boolInt(len(f.rows) > 1)).do() }},
		{"tail", func(w *world, f *frame) { w.opSlice(f, boolInt(len(f.rows) > 1), -1).do() }},
		{"rotate", func(w *world, f *frame) { w.opIndex(f, append(seq(len(f.rows))[1:], 0)).do() }},
		{"grow", func(w *world, f *frame) {
			n := len(f.rows)
			if n > 40 {
				n = 1
			}
			w.opIndex(f, append(seq(n), n-1, 0)).do()
		}},
		{"mask", func(w *world, f *frame) {
			m := make([]bool, len(f.rows))
			for i := range m {
				m[i] = i == 0 || i%4 != 1
			}
			w.opMask(f, m).do()
		}},
		{"reset", func(w *world, f *frame) { w.opReset(f).do() }},
		{"sort", func(w *world, f *frame) { w.opSorted(f, "id", "id").do() }},
		{"top", func(w *world, f *frame) {
			w.opTop(f, "id", len(f.rows)-boolInt(len(f.rows) > 1), false, true, "id").do()
		}},
		{"shuffle", func(w *world, f *frame) { shuffled(2, w.opShuffle(f, "id")).do() }},
		{"sample", func(w *world, f *frame) { shuffled(1, w.opSample(f, len(f.rows)-boolInt(len(f.rows) > 1), "id")).do() }},
		{"second part", func(w *world, f *frame) {
			if len(f.rows) > 1 {
				w.opSplitView(f, 1+len(f.rows)/2).do()
			}
		}},
	}
}

func chainSharing() []selOp {
	l := chainRows()
	return append([]selOp{l[0], l[1], l[2], l[5]},
		selOp{"shallow copy", func(w *world, f *frame) { w.opShallow(f).do() }},
		selOp{"column view", func(w *world, f *frame) { w.opColumnView(f, f.names()...).do() }},
		selOp{"copy", func(w *world, f *frame) { w.opCopy(f).do() }},
		selOp{"detached view", func(w *world, f *frame) { w.opDetached(f).do() }},
		selOp{"detached string", func(w *world, f *frame) { w.opDetached(f, "s1").do() }},
		selOp{"detached float", func(w *world, f *frame) { w.opDetached(f, "f1").do() }},
		selOp{"unshare", func(w *world, f *frame) {
			if f.derived == 0 {
				w.opUnshare(f, "id").do()
			}
		}},
		selOp{"write", func(w *world, f *frame) {
			w.opOverwrite(f, "f1", 0).do()
			w.opSet(f, "s1", len(f.rows)-1).do()
		}})
}

func chainStructure() []selOp {
	l := chainRows()
	return append([]selOp{l[0], l[1], l[2]},
		selOp{"shallow copy", func(w *world, f *frame) { w.opShallow(f).do() }},
		selOp{"copy", func(w *world, f *frame) { w.opCopy(f).do() }},
		selOp{"hash", func(w *world, f *frame) {
			if s := f.strCols(); len(s) > 0 {
				w.opHash(f, s[0]).do()
			}
		}},
		selOp{"drop", func(w *world, f *frame) {
			if ns := f.names(); len(ns) > 0 && f.restructurable() {
				w.opDrop(f, ns[0]).do()
			}
		}},
		selOp{"allocate strings", func(w *world, f *frame) {
			if f.restructurable() {
				w.opAlloc(f, 's', "s1").do()
			}
		}},
		selOp{"allocate objects", func(w *world, f *frame) {
			if f.restructurable() {
				w.opAlloc(f, 'o', "s1").do()
			}
		}},
		selOp{"allocate ints", func(w *world, f *frame) {
			if f.restructurable() {
				w.opAlloc(f, 'i', "new").do()
			}
		}},
		selOp{"rename", func(w *world, f *frame) {
			if ns := f.names(); len(ns) > 0 && f.restructurable() {
				w.opRename(f, ns[len(ns)-1], "moved").do()
			}
		}},
		selOp{"overwrite", func(w *world, f *frame) {
			if f.restructurable() {
				w.opOverwriteAs(f, 'b', "f1", 0).do()
			}
		}},
		selOp{"to floats", func(w *world, f *frame) {
			if is := f.ofKind(kI); len(is) > 0 && f.restructurable() {
				w.opToFloats(f, is...).do()
			}
		}})
}

// unusual values
var (
	oddFloats = []float64{0, math.Copysign(0, -1), math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 53, 1<<53 + 2, -1.5, 0.1, 1e-300}
	oddInts   = []int{0, -1, math.MaxInt64, math.MinInt64, math.MaxInt32 + 1, math.MinInt32 - 1, 1<<53 + 1, -(1<<53 + 1), 1, 255, 256}
	oddTexts  = []interface{}{"", nil, "é", "a,b", "\"q\"", "NaN", " ", "\x00", "line\nbreak", "a", "A", "日本", nil, "0"}
	oddObjs   = []interface{}{nil, 5, "text", 2.5, true, (*obj)(nil), struct{ a int }{3}, "", uint8(3), float32(0.5)}
)
