//go:build go1.21

package main

import (
	"fmt"
	"math"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/zzverif/sched"
)

const allTypes = "id:d f1:f i1:i b1:b s1:s o1:o"

func rootOf(n int, spec string) root {
	return root{fmt.Sprintf("rows=%d[%s]", n, spec), func(w *world) { w.build(n, specs(spec)) }}
}

// emptyRoot has rows but no columns.
func emptyRoot(n int) root {
	return root{fmt.Sprintf("EmptyDataFrame(%d)", n), func(w *world) {
		f := &frame{df: dataframe.EmptyDataFrame(n, 2), cols: map[string]*col{}}
		f.rows = w.newRows(n)
		w.add(f, "EmptyDataFrame(%d)", n)
	}}
}

func (w *world) last() *frame { return w.frames[len(w.frames)-1] }

func shuffled(mode int, o op) op {
	do := o.do
	o.name = fmt.Sprintf("%s[order %d]", o.name, mode)
	o.do = func() {
		sched.ShuffleMode = mode
		defer func() { sched.ShuffleMode = 0 }()
		do()
	}
	return o
}

func indexMenu(n int, more bool) [][]int {
	var l [][]int
	rev := make([]int, n)
	for i := range rev {
		rev[i] = n - 1 - i
	}
	l = append(l, []int{})
	if n > 0 {
		l = append(l, append(append([]int{}, rev...), 0, n-1)) // larger than the parent
		l = append(l, []int{n - 1, 0, n - 1})
		odd := []int{}
		for i := 1; i < n; i += 2 {
			odd = append(odd, i)
		}
		if more {
			l = append(l, odd, append(seq(n)[1:], 0), seq(n))
		}
	}
	return l
}

func maskMenu(n int) [][]bool {
	a := make([]bool, n)
	b := make([]bool, n)
	c := make([]bool, n)
	for i := range a {
		a[i] = i%2 == 0
		b[i] = i > 0
	}
	return [][]bool{a, b, c}
}

func sliceMenu(n int) [][2]int {
	l := [][2]int{{0, -1}, {-1, 0}, {0, n / 2}, {n / 2, -1}}
	if n > 1 {
		l = append(l, [2]int{1, n - 1}, [2]int{n - 1, 1}, [2]int{n, 0}, [2]int{-2, -1})
	}
	if n > 10 {
		l = append(l, [2]int{1, n}, [2]int{0, n - 1})
	}
	return l
}

func (w *world) rowMenu(f *frame, more bool) []op {
	n := len(f.rows)
	var l []op
	l = append(l, w.opView(f), w.opReverse(f), w.opReset(f))
	for _, s := range sliceMenu(n) {
		l = append(l, w.opSlice(f, s[0], s[1]))
	}
	for _, ix := range indexMenu(n, more) {
		l = append(l, w.opIndex(f, ix))
	}
	for _, m := range maskMenu(n) {
		l = append(l, w.opMask(f, m))
	}
	if f.idOK("id") {
		l = append(l, shuffled(1, w.opShuffle(f, "id")))
		if n > 2 {
			l = append(l, shuffled(2, w.opShuffle(f, "id")))
		}
		l = append(l, shuffled(1, w.opSample(f, n/2, "id")))
		if more && n > 0 {
			l = append(l, shuffled(2, w.opSample(f, n, "id")), shuffled(2, w.opSample(f, 1, "id")))
		}
	}
	return l
}

func init() {
	props["C01"] = propDef{run: runC01}
	props["C02"] = propDef{run: runC02}
	props["C03"] = propDef{run: runC03}
}

func runC01(c *Ctx) {
	roots := []root{rootOf(3, allTypes), rootOf(12, "id:d"), rootOf(25, "id:d s1:s"), rootOf(0, allTypes), emptyRoot(3), rootOf(1, "id:d b1:b"), rootOf(7, "id:d f1:f")}
	depth := 3
	if c.thorough {
		depth = 4
	}
	c.Tree("view chains", roots, treeOpt{depth: depth}, func(w *world, d int) []op {
		f := w.last()
		l := w.rowMenu(f, d == 0)
		if d > 0 && len(f.cols) > 2 {
			l = append(l, w.opColumnView(f, "id", "f1", "s1"), w.opShallow(f), w.opCopy(f))
		}
		return l
	})
	c.scale("views", 66, 10000, (*world).everyRows)
	c.chains("long chains", 12, chainRows(), nil)
	// every slice bound, every mask, every short index list
	c.Unit("all slices")
	bound := 6
	for _, cols := range []string{"id:d", allTypes} {
		for n := 0; n <= bound; n++ {
			for from := -n - 1; from <= n; from++ {
				for to := -n - 1; to <= n; to++ {
					for base := 0; base < 3; base++ {
						n, from, to, cols, base := n, from, to, cols, base
						c.Case(fmt.Sprintf("[%s] n=%d base=%d SliceView(%d,%d)", cols, n, base, from, to), func() {
							w := newWorld()
							f := w.build(n, specs(cols))
							if base == 1 {
								w.opReverse(f).do()
							} else if base == 2 {
								w.opIndex(f, append(append([]int{}, seq(n)...), seq(n)...)[:n]).do()
							}
							w.opSlice(w.last(), from, to).do()
							w.checkAll("slicing")
							w.probe()
						})
					}
				}
			}
		}
	}
	for _, n := range []int{9, 10, 11, 12, 13, 20, 21, 22, 61, 62, 128, 129, 300, 1000} {
		for _, cols := range []string{"id:d", "id:d f1:f", allTypes} {
			for _, b := range [][2]int{{0, n}, {0, n - 1}, {1, n}, {n - 1, n}, {n / 2, n}, {0, n / 2}, {n, 0}, {n - 1, 1}, {n / 2, 0}, {-1, n / 2}, {-1, 0}, {-2, -2}, {-n, -1}, {-n - 1, -1}, {n / 3, n/3 + 10}, {n / 3, n/3 + 11}, {0, 10}, {0, 11}, {0, 60}, {0, 61}} {
				if b[0] > n || b[1] > n || b[0] < -n-1 || b[1] < -n-1 {
					continue
				}
				n, b, cols := n, b, cols
				c.Case(fmt.Sprintf("[%s] n=%d SliceView(%d,%d)", cols, n, b[0], b[1]), func() {
					w := newWorld()
					f := w.build(n, specs(cols))
					w.opSlice(f, b[0], b[1]).do()
					w.opSlice(w.last(), 0, -1).do()
					w.opReverse(w.last()).do()
					w.checkAll("slicing")
					w.probe()
				})
			}
		}
	}
	c.Unit("all index lists")
	for n := 1; n <= 3; n++ {
		for l := 0; l <= 4; l++ {
			total := 1
			for i := 0; i < l; i++ {
				total *= n
			}
			for k := 0; k < total; k++ {
				pos := make([]int, l)
				x := k
				for i := range pos {
					pos[i] = x % n
					x /= n
				}
				n := n
				c.Case(fmt.Sprintf("n=%d IndexView(%s)", n, ints(pos)), func() {
					w := newWorld()
					f := w.build(n, specs(allTypes))
					w.opIndex(f, pos).do()
					r := w.last()
					w.opReverse(r).do()
					if len(pos) > 0 {
						w.opIndex(r, []int{len(pos) - 1, 0, len(pos) - 1}).do()
						w.opReset(r).do()
					}
					w.checkAll("indexing")
					w.probe()
				})
			}
		}
	}
	c.Unit("all masks")
	for n := 0; n <= 6; n++ {
		for k := 0; k < 1<<uint(n); k++ {
			mask := make([]bool, n)
			for i := range mask {
				mask[i] = k>>uint(i)&1 == 1
			}
			n := n
			c.Case(fmt.Sprintf("n=%d mask=%b", n, k), func() {
				w := newWorld()
				f := w.build(n, specs("id:d s1:s"))
				w.opMask(f, mask).do()
				w.opReverse(f).do()
				w.opMask(w.last(), mask).do()
				w.checkAll("masking")
				w.probe()
			})
		}
	}
	// every permutation the generator can produce
	maxN := 5
	if c.thorough {
		maxN = 6
	}
	c.Unit("all shuffles")
	for n := 0; n <= maxN; n++ {
		n := n
		for _, cols := range []string{"id:d", allTypes} {
			c.Schedules(fmt.Sprintf("n=%d [%s] ShuffleView", n, cols), func(e *sched.Explorer) { e.Bound[sched.KRand] = -1 }, func() {
				w := newWorld()
				f := w.build(n, specs(cols))
				w.opShuffle(f, "id").do()
				w.opReset(w.last()).do()
				w.checkAll("shuffling")
				if n <= 4 {
					w.probe()
				}
			})
			for k := 0; k <= n; k++ {
				k := k
				if k > 0 && k < n-1 && n > 4 {
					continue
				}
				c.Schedules(fmt.Sprintf("n=%d [%s] SampleView(%d)", n, cols, k), func(e *sched.Explorer) { e.Bound[sched.KRand] = -1 }, func() {
					w := newWorld()
					f := w.build(n, specs(cols))
					w.opReverse(f).do()
					w.opSample(w.last(), k, "id").do()
					w.checkAll("sampling")
					if n <= 4 {
						w.probe()
					}
				})
			}
		}
	}
	c.Unit("views of many rows")
	for _, n := range []int{100, 128, 257, 1000, 4097} {
		for mode := 0; mode <= 2; mode++ {
			n, mode := n, mode
			c.Case(fmt.Sprintf("n=%d order=%d", n, mode), func() {
				w := newWorld()
				f := w.build(n, specs("id:d f1:f s1:s"))
				shuffled(mode, w.opShuffle(f, "id")).do()
				w.opSlice(w.last(), n/4, n/2).do()
				w.opReverse(w.last()).do()
				w.opReset(w.last()).do()
				shuffled(mode, w.opSample(f, n/3, "id")).do()
				m := make([]bool, n)
				for i := range m {
					m[i] = i%3 != 1
				}
				w.opMask(f, m).do()
				w.opIndex(w.last(), append(seq(n/3), seq(n/3)...)).do()
				w.checkAll("views")
			})
		}
	}
}

// ---- C02 -----------------------------------------------------------------------

func c02bases(n int) []struct {
	name string
	op   func(w *world, f *frame)
} {
	return []struct {
		name string
		op   func(w *world, f *frame)
	}{
		{"root", func(w *world, f *frame) {}},
		{"reversed", func(w *world, f *frame) { w.opReverse(f).do() }},
		{"slice", func(w *world, f *frame) { w.opSlice(f, n/4, -1).do() }},
		{"repeated", func(w *world, f *frame) { w.opIndex(f, append(seq(n), seq(n)...)).do() }},
		{"view", func(w *world, f *frame) { w.opView(f).do() }},
	}
}

// restructureParts gives each part its own columns and checks the others.
func (w *world) restructureParts(from int) {
	for i := from; i < len(w.frames); i++ {
		f := w.frames[i]
		if !f.restructurable() {
			continue
		}
		k := i - from
		w.opOverwriteNew(f, 'f', fmt.Sprintf("new%d", k), 0).do()
		w.opAlloc(f, 's', fmt.Sprintf("str%d", k)).do()
		names := f.names()
		w.opRename(f, names[k%len(names)], "moved").do()
		names = f.names()
		w.opDrop(f, names[(k+1)%len(names)]).do()
		w.checkAll("restructuring " + f.name)
	}
	w.probe()
}

func runC02(c *Ctx) {
	maxN := 14
	if c.thorough {
		maxN = 30
	}
	for _, cols := range []string{"id:d", "id:d s1:s", allTypes} {
		for n := 0; n <= maxN; n++ {
			for _, b := range c02bases(n) {
				n, b, cols := n, b, cols
				prep := func() (*world, *frame, int) {
					w := newWorld()
					f := w.build(n, specs(cols))
					b.op(w, f)
					return w, w.last(), len(w.frames)
				}
				c.Unit("batch splits")
				for k := 1; k <= n+2; k++ {
					k := k
					c.Case(fmt.Sprintf("[%s] n=%d %s SplitView(%d)", cols, n, b.name, k), func() {
						w, f, at := prep()
						w.opSplitView(f, k).do()
						w.checkAll("splitting")
						if len(w.frames) < 12 {
							w.probe()
							w.restructureParts(at)
						}
					})
				}
				c.Unit("n-way splits")
				c.Case(fmt.Sprintf("[%s] n=%d %s SplitNView(0)", cols, n, b.name), func() {
					_, f, _ := prep()
					check(len(f.df.SplitNView(0)) == 0, "SplitNView(0) returns parts")
				})
				for k := 1; k <= n+3; k++ {
					k := k
					c.Case(fmt.Sprintf("[%s] n=%d %s SplitNView(%d)", cols, n, b.name, k), func() {
						w, f, at := prep()
						w.opSplitN(f, k).do()
						w.checkAll("splitting")
						if len(w.frames) < 12 {
							w.probe()
							w.restructureParts(at)
						}
					})
				}
				c.Unit("train/test splits")
				for _, r := range []float64{0, 0.1, 0.25, 1.0 / 3, 0.5, 2.0 / 3, 0.75, 0.9, 0.999, 1} {
					r := r
					c.Case(fmt.Sprintf("[%s] n=%d %s train/test %v", cols, n, b.name, r), func() {
						w, f, at := prep()
						w.opTrainTest(f, r).do()
						w.checkAll("splitting")
						w.probe()
						w.restructureParts(at)
					})
				}
			}
		}
	}
	c.scale("splits", 66, 5000, func(w *world, d int) []op {
		f := w.last()
		n := len(f.rows)
		l := []op{w.opReverse(f), w.opSlice(f, n/3, -1), w.opTrainTest(f, 0.1), w.opTrainTest(f, 0.5), w.opTrainTest(f, 0.8), w.opSplitN(f, 1), w.opSplitN(f, 2), w.opSplitN(f, 3), w.opSplitN(f, 8)}
		if n > 0 {
			l = append(l, w.opIndex(f, append(seq(n), 0)), w.opSplitView(f, n), w.opSplitView(f, 1+n/2), w.opSplitView(f, 1+n/5))
			if n > 1 {
				l = append(l, w.opSplitView(f, n-1))
			}
			if n < 300 {
				l = append(l, w.opSplitView(f, 16), w.opSplitView(f, 32))
			}
		}
		return l
	})
	c.Unit("large splits")
	for _, n := range []int{40, 121, 122, 128, 500, 1000, 4096} {
		for _, k := range []int{1, 2, 3, 7, 10, 11, 12, 13, 60, 61, 64, n / 2, n - 1, n, n + 1} {
			for _, cols := range []string{"id:d", allTypes} {
				for kind := 0; kind < 2; kind++ {
					n, k, cols, kind := n, k, cols, kind
					if n > 200 && (k < 7 && kind == 0 || k > n/2 && kind == 1) {
						continue
					}
					c.Case(fmt.Sprintf("[%s] n=%d k=%d kind=%d", cols, n, k, kind), func() {
						w := newWorld()
						f := w.build(n, specs(cols))
						if kind == 0 {
							w.opSplitView(f, k).do()
						} else {
							w.opSplitN(f, k).do()
						}
						w.checkAll("splitting")
						if len(w.frames) < 8 {
							w.probe()
							w.restructureParts(1)
						}
					})
				}
			}
		}
	}
	// split, use, and split again
	depth := 3
	c.Tree("nested splits", []root{rootOf(5, allTypes), rootOf(13, "id:d"), rootOf(4, "id:d s1:s f1:f")}, treeOpt{depth: depth}, func(w *world, d int) []op {
		var l []op
		fs := w.frames
		if len(fs) > 4 {
			fs = append(append([]*frame{}, fs[0]), fs[len(fs)-3:]...)
		}
		for i, f := range fs {
			if d > 0 && i == 0 && len(fs) > 1 {
				continue
			}
			n := len(f.rows)
			l = append(l, w.opSplitView(f, 1+n/2), w.opSplitN(f, 2), w.opTrainTest(f, 0.4))
			if f.restructurable() {
				if f.cols["nb"] == nil {
					l = append(l, w.opOverwriteNew(f, 'b', "nb", 0))
				}
				if f.cols["id"] != nil {
					l = append(l, w.opRename(f, "id", "other"), w.opDrop(f, "id"))
				}
			}
			l = append(l, w.opReverse(f))
			if c.thorough {
				l = append(l, w.opSplitView(f, 1), w.opSplitN(f, 3))
			}
		}
		return l
	})
}

// ---- C03 -----------------------------------------------------------------------

// valueFrame builds a frame with an id column and a column x of the values.
func (w *world) valueFrame(vals []interface{}, extra string) *frame {
	n := len(vals)
	b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
	f := &frame{cols: map[string]*col{}}
	id := &col{kind: kI}
	x := &col{}
	ids := make([]int, n)
	f.rows = w.newRows(n)
	for i := range ids {
		ids[i] = 1000 - i
		id.cells = append(id.cells, &cell{ids[i]})
		x.cells = append(x.cells, &cell{vals[i]})
	}
	b.SetInts("id", ids)
	f.cols["id"] = id
	f.cols["x"] = x
	kind := byte(kF)
	if n > 0 {
		switch vals[0].(type) {
		case int:
			kind = kI
		case bool:
			kind = kB
		}
	}
	x.kind = kind
	switch kind {
	case kF:
		l := make([]float64, n)
		for i := range l {
			l[i] = vals[i].(float64)
		}
		b.SetFloats("x", l)
	case kI:
		l := make([]int, n)
		for i := range l {
			l[i] = vals[i].(int)
		}
		b.SetInts("x", l)
	case kB:
		l := make([]bool, n)
		for i := range l {
			l[i] = vals[i].(bool)
		}
		b.SetBools("x", l)
	}
	f.df = b.ToDataFrame()
	return w.add(f, "values %v", vals)
}

var sortAlphabets = []struct {
	name string
	vals []interface{}
}{
	{"float", []interface{}{math.NaN(), math.Inf(-1), -1.5, 0.0, 2.0, math.Inf(1)}},
	{"int", []interface{}{math.MinInt64, -1, 0, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MaxInt64 - 1}},
	{"bool", []interface{}{false, true}},
	{"tiny float", []interface{}{math.Copysign(0, -1), 5e-324, 1e-300, -1e-300, 1 + 2.220446049250313e-16, 1.0}},
}

func tuples(k, l int, f func(t []int)) {
	t := make([]int, l)
	for {
		f(t)
		i := 0
		for i < l {
			t[i]++
			if t[i] < k {
				break
			}
			t[i] = 0
			i++
		}
		if i == l {
			return
		}
	}
}

func runC03(c *Ctx) {
	maxLen := 4
	if c.thorough {
		maxLen = 5
	}
	sortCase := func(id string, vals []interface{}, probe bool) {
		c.Case(id, func() {
			w := newWorld()
			f := w.valueFrame(vals, "")
			w.opSorted(f, "x", "id").do()
			s := w.last()
			w.opReverse(s).do()
			hasNaN := false
			for _, v := range vals {
				hasNaN = hasNaN || missingVal(v)
			}
			w.opIndex(f, append(append([]int{}, seq(len(vals))...), seq(len(vals))...)).do()
			rep := w.last()
			w.opSorted(rep, "x", "id").do()
			if len(vals) > 1 {
				w.opSlice(s, 1, -1).do()
				w.opReverse(w.last()).do()
				w.opSorted(w.last(), "x", "id").do()
			}
			if !hasNaN {
				l := len(vals)
				ks := []int{0, 1, 2, l - 1, l, l + 1}
				if l > 8 {
					ks = append(ks, l/2, 12, 13)
				}
				seen := map[int]bool{}
				for _, k := range ks {
					if k < 0 || seen[k] {
						continue
					}
					seen[k] = true
					for m := 0; m < 4; m++ {
						w.opTop(f, "x", k, m&1 == 0, m&2 == 0, "id").do()
					}
				}
				w.opReverse(f).do()
				w.opTop(w.last(), "x", (l+1)/2, false, true, "id").do()
				w.opTop(rep, "x", l, true, true, "id").do()
			}
			w.checkAll("sorting")
			if probe {
				// the results can be restructured
				for i := 1; i < len(w.frames); i++ {
					g := w.frames[i]
					if g.restructurable() && g.derived == 0 {
						w.opAlloc(g, 'f', "n").do()
						w.opDrop(g, "x").do()
						w.opRename(g, "id", "id2").do()
					}
				}
				w.checkAll("restructuring the results")
				w.probe()
			}
		})
	}
	c.Unit("all short columns")
	for _, a := range sortAlphabets {
		ml := maxLen
		if len(a.vals) == 2 {
			ml = maxLen + 3
		}
		for l := 0; l <= ml; l++ {
			a := a
			tuples(len(a.vals), l, func(t []int) {
				vals := make([]interface{}, l)
				for i, k := range t {
					vals[i] = a.vals[k]
				}
				sortCase(fmt.Sprintf("%s %v", a.name, vals), vals, l <= 3)
			})
		}
	}
	// longer columns: arrangements of distinct and repeated values around the
	// thresholds of sorting algorithms
	c.Unit("long columns")
	lengths := []int{100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 2049, 4097, 5000}
	for n := 5; n <= 70; n++ {
		lengths = append(lengths, n)
	}
	for _, n := range lengths {
		for arr := 0; arr < 8; arr++ {
			for _, a := range sortAlphabets {
				for dist := 0; dist < 2; dist++ {
					vals := make([]interface{}, n)
					for i := range vals {
						var k int
						switch arr {
						case 0:
							k = i
						case 1:
							k = n - i
						case 2:
							k = i * 7919 % n
						case 3:
							k = i * i % n
						case 4:
							k = (i + n/2) % n
						case 5:
							k = n/2 - i
							if k < 0 {
								k = -k
							}
						case 6:
							k = i % 2 * n
						case 7:
							k = i * 31 % 17
						}
						if dist == 0 {
							vals[i] = a.vals[k%len(a.vals)]
						} else {
							switch a.vals[0].(type) {
							case float64:
								vals[i] = float64(k) * 0.5
								if arr%2 == 1 && k%9 == 4 {
									vals[i] = math.NaN()
								}
							case int:
								vals[i] = 1<<60 + k
							case bool:
								vals[i] = k%3 == 0
							}
						}
					}
					sortCase(fmt.Sprintf("%s n=%d arrangement=%d distinct=%d", a.name, n, arr, dist), vals, false)
				}
			}
		}
	}
	c.scale("sorts", 40, 4000, func(w *world, d int) []op {
		f := w.last()
		n := len(f.rows)
		l := []op{w.opReverse(f)}
		if !f.idOK("id") {
			return l
		}
		for _, by := range ends(f.names()) {
			if f.cols[by].kind != kO {
				l = append(l, w.opSorted(f, by, "id"))
			}
		}
		return append(l, w.opTop(f, "id", 1, true, false, "id"), w.opTop(f, "id", n/2, true, true, "id"), w.opTop(f, "id", n/2, false, false, "id"), w.opTop(f, "id", n, false, true, "id"), w.opTop(f, "id", n-n/4, true, false, "id"))
	})
	c.Tree("sorting in view chains", []root{rootOf(4, allTypes), rootOf(13, "id:d f1:f")}, treeOpt{depth: 3}, func(w *world, d int) []op {
		f := w.last()
		n := len(f.rows)
		l := []op{w.opReverse(f), w.opSlice(f, n/3, -1), w.opIndex(f, indexMenu(n, false)[0])}
		if n > 0 {
			l = append(l, w.opIndex(f, indexMenu(n, false)[1]))
		}
		for _, by := range []string{"f1", "i1", "b1", "id"} {
			if f.cols[by] == nil || !f.idOK("id") {
				continue
			}
			l = append(l, w.opSorted(f, by, "id"))
			if by != "f1" {
				l = append(l, w.opTop(f, by, n/2, true, true, "id"), w.opTop(f, by, n, true, false, "id"), w.opTop(f, by, n/2+1, false, false, "id"))
			}
		}
		if f.restructurable() && len(w.frames) > 1 && f.cols["id"] != nil {
			l = append(l, w.opDrop(f, "id"), w.opAlloc(f, 'i', "fresh"))
		}
		return l
	})
}
