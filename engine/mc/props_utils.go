//go:build go1.21

package main

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"github.com/rom1mouret/ml-essentials/utils"
	"github.com/rom1mouret/ml-essentials/zzverif/sched"
)

func init() {
	props["C30"] = propDef{run: runC30}
	props["C31"] = propDef{run: runC31}
	props["C32"] = propDef{run: runC32}
	props["C33"] = propDef{run: runC33}
	props["C40"] = propDef{run: runC40}
}

// ---- C30: dividing work ---------------------------------------------------------------

var jobSets = [][]string{{}, {"a"}, {""}, {"a", "b"}, {"", "a"}, {"a", "b", "c"}, {"c", "", "a", "b"}, {"e", "d", "c", "b", "a"}}

type jobError struct{ key string }

func (e *jobError) Error() string { return e.key }

// queue runs a queue with a number of workers; the body of an execution. The
// bits of fail tell which jobs fail.
func queue(keys []string, max, workers int, results bool, fail int) {
	failing := map[string]error{}
	for i, k := range keys {
		if fail>>uint(i)&1 == 1 {
			failing[k] = &jobError{k}
		}
	}
	mine := append([]string(nil), keys...)
	q := utils.CreateStringQueue(mine, max)
	check(sameList(mine, keys), "creating a queue changed the list of jobs from %q to %q", keys, mine)
	check(q.NumJobs == len(keys), "NumJobs is %d for %d jobs", q.NumJobs, len(keys))
	check(q.Workers >= 1 && q.Workers <= max, "%d workers, at most %d are allowed", q.Workers, max)
	check(len(keys) == 0 || q.Workers <= len(keys), "%d workers for %d jobs", q.Workers, len(keys))
	n := workers
	if n == 0 {
		n = q.Workers
	}
	// one slot per worker and job: nothing is shared
	got := make([][]string, n)
	count := make([]int, n)
	started := make([]bool, n)
	for k := range got {
		got[k] = make([]string, len(keys)+1)
	}
	for k := 0; k < n; k++ {
		k := k
		sched.Go("worker", func() {
			started[k] = true
			for key, more := q.Next(); more; key, more = q.Next() {
				if count[k] > len(keys) {
					failf("a worker got more jobs than there are")
				}
				got[k][count[k]] = key
				count[k]++
				q.Notify(utils.ProcessedJob{Key: key, Error: failing[key], Result: k*100 + count[k] - 1})
			}
		})
	}
	if results {
		res := q.Results()
		check(len(res) == len(keys), "%d results for %d jobs", len(res), len(keys))
		seen := map[int]bool{}
		for _, r := range res {
			id, ok := r.Result.(int)
			check(ok, "a result without content for %q", r.Key)
			check(!seen[id], "the result of %q is given twice", r.Key)
			seen[id] = true
			check(r.Error == failing[r.Key], "the error of %q is %v instead of %v", r.Key, r.Error, failing[r.Key])
			check(got[id/100][id%100] == r.Key, "a result of %q is given for %q", got[id/100][id%100], r.Key)
		}
	} else {
		q.Wait()
	}
	var all []string
	for k := range got {
		all = append(all, got[k][:count[k]]...)
	}
	check(sameList(sortedCopy(all), sortedCopy(keys)), "the workers were given %q, the jobs are %q", all, keys)
}

func runC30(c *Ctx) {
	sched.SetNumCPU(8)
	c.Unit("queue, all interleavings")
	for _, keys := range jobSets {
		for max := 1; max <= 4; max++ {
			for workers := 0; workers <= 3; workers++ {
				for variant := 0; variant < 6; variant++ {
					// no failure, one, all
					results, fail := variant&1 == 1, []int{0, 1, 31}[variant/2]
					if fail != 0 && len(keys) == 0 || fail == 31 && len(keys) == 1 {
						continue
					}
					keys, max, workers := keys, max, workers
					n := workers
					if n == 0 {
						n = max
						if len(keys) < n {
							n = len(keys)
						}
					}
					if !c.thorough && (n > 3 || len(keys) > 4 && n > 2) {
						continue
					}
					cap := 20000
					if c.thorough {
						cap = 400000
					}
					c.Deepen(fmt.Sprintf("jobs %q max %d workers %d results %v failing %b", keys, max, workers, results, fail), interleavings(1, 5), cap, nil, func() {
						queue(keys, max, workers, results, fail)
					})
				}
			}
		}
	}
	c.Unit("queue, all shuffles of the jobs")
	for _, keys := range jobSets {
		for max := 1; max <= len(keys); max++ {
			keys, max := keys, max
			c.Schedules(fmt.Sprintf("jobs %q max %d", keys, max), func(e *sched.Explorer) {
				e.Bound[sched.KSched] = 0
				e.Bound[sched.KRand] = -1
			}, func() {
				queue(keys, max, 0, true, 2)
			})
		}
	}
	c.Unit("queue, every number of jobs and workers")
	for k := 0; k <= 40; k++ {
		for max := 1; max <= 12; max++ {
			for v := 0; v < 4; v++ {
				k, max, v := k, max, v
				c.Case(fmt.Sprintf("%d jobs, at most %d workers, %d", k, max, v), func() {
					keys := []string{}
					for i := 0; i < k; i++ {
						keys = append(keys, fmt.Sprint("job", i))
					}
					sched.ShuffleMode = (k + max) % 3
					defer func() { sched.ShuffleMode = 0 }()
					queue(keys, max, 0, v&1 == 1, []int{0, 1<<uint(k/2%30) | 2}[v>>1])
				})
			}
		}
	}
	c.Unit("groups")
	maxN := 70
	if c.thorough {
		maxN = 300
	}
	for _, n := range append(seq(maxN+1), 255, 256, 257, 511, 512, 513, 1000, 1024, 1025) {
		for g := 1; g <= n+3; g++ {
			if n > maxN && !(g < 70 || g > n-5 || g%64 < 2 || g == n/2 || g == n/2+1) {
				continue
			}
			n, g := n, g
			c.Case(fmt.Sprintf("%d elements %d groups", n, g), func() {
				groups := func(ix *utils.GroupIndexer) {
					want := g
					if n < g {
						want = n
					}
					check(ix.NGroups == want, "%d groups of %d elements: NGroups is %d, expected %d", g, n, ix.NGroups, want)
					at, k, size := 0, 0, -1
					for ix.HasNext() {
						i, from, to := ix.Next()
						check(k <= n, "more groups than elements")
						check(i == k, "group number %d is announced as %d", k, i)
						check(from == at && to > from && to <= n, "group %d is [%d, %d), expected to start from %d", i, from, to, at)
						check(i < ix.NGroups, "group number %d of %d", i, ix.NGroups)
						if size < 0 {
							size = to - from
						}
						check(to-from == size || to == n && to-from < size, "group %d has %d elements instead of %d", i, to-from, size)
						at = to
						k++
					}
					check(at == n, "the groups cover %d of %d elements", at, n)
				}
				ix := utils.CreateGroupIndexer(n, g)
				groups(&ix)
				// the same indexer again, for other elements
				ix.Initialize(n, g)
				groups(&ix)
				if n > 1 {
					ix.Initialize(n-1, g)
					ix.Next()
					ix.Initialize(n, g)
					groups(&ix)
				}
				l := make([]string, n)
				for i := range l {
					l[i] = fmt.Sprint("s", i)
				}
				parts := utils.SplitStringSlice(l, g)
				want := g
				if n < g {
					want = n
				}
				check(len(parts) == want, "SplitStringSlice(%d strings, %d) has %d parts, expected %d", n, g, len(parts), want)
				var all []string
				for _, p := range parts {
					all = append(all, p...)
				}
				check(sameList(all, l), "SplitStringSlice(%d strings, %d) gives %v", n, g, parts)
			})
		}
	}
	c.Case("no group", func() {
		check(utils.SplitStringSlice([]string{"a"}, 0) == nil, "SplitStringSlice into 0 parts")
		check(mustPanic(func() { utils.CreateGroupIndexer(3, -1) }), "a negative number of groups is accepted")
	})
	c.Unit("sets of strings")
	universe := []string{"a", "", "b", "c"}
	for l := 0; l <= 4; l++ {
		tuples(len(universe), l, func(t []int) {
			list := make([]string, l)
			id := ""
			for i, k := range t {
				list[i] = universe[k]
				id += fmt.Sprintf("%q", universe[k])
			}
			c.Case("strings "+id, func() {
				want := map[string]bool{}
				first := map[string]int{}
				for i, s := range list {
					if !want[s] {
						first[s] = i
					}
					want[s] = true
				}
				set := utils.ToStringSet(list)
				check(len(set) == len(want), "ToStringSet(%q) = %v", list, set)
				for s := range want {
					check(set[s], "ToStringSet(%q) = %v", list, set)
				}
				keys := utils.StringSetKeys(set)
				check(sameList(sortedCopy(keys), sortedKeys(want)), "StringSetKeys(%v) = %q", set, keys)
				for _, s := range append([]string{"zz"}, universe...) {
					i, ok := first[s]
					if !ok {
						i = -1
					}
					check(utils.IndexOfString(s, list) == i, "IndexOfString(%q, %q) = %d, expected %d", s, list, utils.IndexOfString(s, list), i)
				}
			})
		})
	}
}

// ---- C31: headers ---------------------------------------------------------------------

var hdrNames = []string{"a", "b", ""}

func setOf(mask int) map[string]bool {
	m := map[string]bool{}
	for i, n := range hdrNames {
		if mask>>uint(i)&1 == 1 {
			m[n] = true
		}
	}
	return m
}

func list(m map[string]bool) []string {
	l := sortedKeys(m)
	if l == nil {
		return []string{}
	}
	return l
}

// headerIs compares every way of reading a header with a set.
func headerIs(what string, h dataframe.ColumnHeader, want map[string]bool) {
	l := h.NameList()
	check(sameList(sortedCopy(l), list(want)), "%s: the header is %q, expected %q", what, sortedCopy(l), list(want))
	check(h.Num() == len(want), "%s: Num() = %d for %q", what, h.Num(), list(want))
	set := h.NameSet()
	check(len(set) == len(want), "%s: NameSet() = %v, expected %q", what, set, list(want))
	for n := range want {
		check(set[n], "%s: NameSet() = %v, expected %q", what, set, list(want))
	}
	for i := range l {
		l[i] = "altered"
	}
	check(sameList(sortedCopy(h.NameList()), list(want)), "%s: altering NameList() altered the header: %q", what, h.NameList())
}

func without(a, b map[string]bool) map[string]bool {
	m := map[string]bool{}
	for n := range a {
		if !b[n] {
			m[n] = true
		}
	}
	return m
}

func union(l ...map[string]bool) map[string]bool {
	m := map[string]bool{}
	for _, a := range l {
		for n := range a {
			m[n] = true
		}
	}
	return m
}

func runC31(c *Ctx) {
	c.Unit("set algebra")
	full := 1 << uint(len(hdrNames))
	// mask -1 is the zero value
	header := func(mask int) (dataframe.ColumnHeader, map[string]bool) {
		if mask < 0 {
			return dataframe.ColumnHeader{}, map[string]bool{}
		}
		s := setOf(mask)
		return dataframe.Columns(list(s)...), s
	}
	third := []int{-1, 0, 3, 6}
	if c.thorough {
		third = []int{-1, 0, 1, 2, 3, 4, 5, 6, 7}
	}
	for a := -1; a < full; a++ {
		for b := -1; b < full; b++ {
			for _, d := range third {
				for o := 0; o < 4; o++ {
					a, b, d, o := a, b, d, o
					c.Case(fmt.Sprintf("%d op %d %d then %d", a, o, b, d), func() {
						ha, sa := header(a)
						hb, sb := header(b)
						hd, sd := header(d)
						copyA := ha.Copy()
						headerIs("Columns()", ha, sa)
						var r dataframe.ColumnHeader
						var want map[string]bool
						name := ""
						switch o {
						case 0:
							name, want = "And", union(sa, sb, sd)
							r = ha.And(hb, hd)
						case 1:
							name, want = "Except", without(sa, union(sb, sd))
							r = ha.Except(append(list(sb), list(sd)...)...)
						case 2:
							name, want = "ExceptHeader", without(sa, union(sb, sd))
							r = ha.ExceptHeader(hb, hd)
						case 3:
							name, want = "Copy", sa
							r = ha.Copy()
						}
						headerIs(name, r, want)
						headerIs("argument of "+name, hb, sb)
						headerIs("argument of "+name, hd, sd)
						headerIs("copy made before "+name, copyA, sa)
						// changing the result later does not change the arguments
						next := r.And(dataframe.Columns("later"))
						headerIs("And", next, union(want, map[string]bool{"later": true}))
						headerIs("argument of "+name+", after the result is changed", hb, sb)
						headerIs("argument of "+name+", after the result is changed", hd, sd)
						headerIs("copy made before "+name, copyA, sa)
						if o == 3 {
							headerIs("copied header, after the copy is changed", ha, sa)
						}
						next = next.Except(list(want)...)
						headerIs("Except", next, map[string]bool{"later": true})
						headerIs("argument of "+name+", after the result is changed", hb, sb)
						headerIs("argument of "+name+", after the result is changed", hd, sd)
						headerIs("copy made before "+name, copyA, sa)
						if o == 3 {
							headerIs("copied header, after the copy is changed", ha, sa)
						}
					})
				}
			}
		}
	}
	// the headers of a dataframe are the caller's
	vandalize := func(w *world, f *frame) {
		hs := func() []dataframe.ColumnHeader {
			return []dataframe.ColumnHeader{f.df.IntHeader(), f.df.FloatHeader(), f.df.BoolHeader(), f.df.ObjectHeader(), f.df.StringHeader(), f.df.Header()}
		}
		for k := 0; k < 4; k++ {
			for i, h := range hs() {
				before := h.Copy()
				switch k {
				case 0:
					h.And(dataframe.Columns("x", "y"))
				case 1:
					h.Except(h.NameList()...)
				case 2:
					h.ExceptHeader(f.df.Header())
				case 3:
					h.And(hs()...)
				}
				w.checkAll(fmt.Sprintf("altering the header %d of %s (%d)", i, f.name, k))
				headerIs("copy of a header", before, union(before.NameSet()))
			}
		}
	}
	c.Unit("many names")
	for _, k := range columnCounts(40, 257) {
		for d := 0; d <= k; d++ {
			if k > 40 && d > 2 && d < k-2 && d%32 > 1 {
				continue
			}
			k, d := k, d
			c.Case(fmt.Sprintf("%d names, %d of them apart", k, d), func() {
				var a, b []string
				for i := 0; i < k; i++ {
					a = append(a, fmt.Sprint("n", i))
					b = append(b, fmt.Sprint("n", i+d))
				}
				sa, sb := union(utils.ToStringSet(a)), union(utils.ToStringSet(b))
				hb := dataframe.Columns(b...)
				headerIs("And", dataframe.Columns(a...).And(hb), union(sa, sb))
				headerIs("argument of And", hb, sb)
				headerIs("Except", dataframe.Columns(a...).Except(b...), without(sa, sb))
				headerIs("ExceptHeader", dataframe.Columns(a...).ExceptHeader(hb), without(sa, sb))
				headerIs("argument of ExceptHeader", hb, sb)
				ha := dataframe.Columns(a...)
				cp := ha.Copy()
				ha.Except(a[k/2:]...)
				headerIs("Copy", cp, sa)
				w := newWorld()
				f := w.build(2, manySpecs(k))
				vandalize(w, f)
				for i := 0; i < k; i += 1 + k/4 {
					w.opColumnView(f, f.names()[i:]...).do()
					vandalize(w, w.last())
				}
			})
		}
	}
	roots := []root{rootOf(2, allTypes), rootOf(1, "f1:f"), rootOf(1, "s1:s"), rootOf(0, "i1:i s1:s"), rootOf(3, "o1:o s1:s"), emptyRoot(2)}
	depth := 2
	if c.thorough {
		depth = 3
	}
	c.Tree("headers of dataframes", roots, treeOpt{depth: depth, noProbe: true, extra: func(w *world) {
		for _, f := range w.frames {
			vandalize(w, f)
		}
	}}, func(w *world, d int) []op {
		var l []op
		for _, f := range w.pick(1) {
			l = append(l, w.opView(f), w.opReverse(f), w.opShallow(f), w.opCopy(f), w.opDetached(f))
			if len(f.cols) > 1 {
				l = append(l, w.opColumnView(f, f.names()[1:]...))
			}
			if f.has("s1") && f.cols["s1"].str {
				l = append(l, w.opHash(f, "s1"))
			}
			if sameColumns([]*frame{f, f}) {
				l = append(l, w.opRowConcat(f, f))
			}
			if f.restructurable() {
				ns := f.names()
				if len(ns) > 0 {
					l = append(l, w.opDrop(f, ns[len(ns)-1]), w.opRename(f, ns[0], "ren"))
				}
				l = append(l, w.opAlloc(f, 's', "new"))
			}
		}
		return l
	})
	c.Unit("overlap of columns")
	kinds := "fibso"
	for i := 0; i < 5; i++ {
		for j := 0; j < 5; j++ {
			for n := 1; n <= 3; n++ {
				for clash := 0; clash < 4; clash++ {
					i, j, n, clash := i, j, n, clash
					c.Case(fmt.Sprintf("%c %c %d dataframes clash %d", kinds[i], kinds[j], n, clash), func() {
						w := newWorld()
						var dfs []*dataframe.DataFrame
						var fs []*frame
						for k := 0; k < n; k++ {
							a, b := fmt.Sprint("a", k), fmt.Sprint("b", k)
							if clash == 1 && k == n-1 {
								b = "a0"
							}
							if clash == 2 && k == 1 {
								a = "b0"
							}
							if clash == 3 && k == 2 {
								a = "b1"
							}
							if a == b {
								b = "c"
							}
							f := w.build(2, []colSpec{{a, kinds[i]}, {b, kinds[j]}})
							if k == 1 {
								w.opReverse(f).do()
								f = w.last()
							}
							fs = append(fs, f)
							dfs = append(dfs, f.df)
						}
						err := dataframe.CheckNoColumnOverlap(dfs)
						check((err == nil) == sharesNoName(fs), "CheckNoColumnOverlap says %v for %s", err, names(fs))
						w.checkAll("CheckNoColumnOverlap")
					})
				}
			}
		}
	}
}

// ---- C32: debugging and verbosity --------------------------------------------------------

func runC32(c *Ctx) {
	sched.SetNumCPU(3)
	silent := func(w *world, what string, f func()) {
		var buf bytes.Buffer
		log.SetOutput(&buf)
		defer log.SetOutput(io.Discard)
		f()
		check(buf.Len() == 0, "%s logs without being asked to: %s", what, buf.String())
	}
	debugged := func(r root, on bool) root {
		name := r.name + " debug"
		if !on {
			name = r.name + " no debug"
		}
		return root{name, func(w *world) {
			r.init(w)
			for _, f := range w.frames {
				check(f.df.Debug(true) == f.df, "Debug() returns another dataframe")
				if !on {
					check(f.df.Debug(false) == f.df, "Debug() returns another dataframe")
				}
			}
		}}
	}
	roots := []root{rootOf(3, allTypes), rootOf(12, "f1:f"), rootOf(2, "s1:s i1:i"), rootOf(0, "f1:f s1:s"), emptyRoot(2), twoRoots(2, "i1:i", "s1:s")}
	gen := func(w *world, d int) []op {
		var l []op
		for _, f := range w.pick(1) {
			n := len(f.rows)
			l = append(l, w.someRows(f)...)
			l = append(l, w.someCols(f)...)
			l = append(l, w.opCopy(f), w.opDetached(f), w.opReset(f), w.opSplitView(f, 2), w.opSplitN(f, 2), w.opTrainTest(f, 0.5))
			l = append(l, w.hashes(f)...)
			if f.deriv && f.derived == 0 {
				l = append(l, w.opUnshare(f))
			}
			if n > 0 {
				l = append(l, w.writes(f, true)...)
			}
			if n > 0 && f.has("f1", "id") && f.cols["f1"].kind == kF && f.idOK("id") {
				l = append(l, w.opSorted(f, "f1", "id"))
			}
			if sameColumns([]*frame{f, f}) {
				l = append(l, w.opRowConcat(f, f))
			}
			if f.restructurable() {
				l = append(l, w.restructurings(f, false)...)
			}
		}
		return append(l, w.joins(2, ccView, ccCopy, ccSmart)...)
	}
	var on, off []root
	for _, r := range roots {
		on = append(on, debugged(r, true))
		off = append(off, debugged(r, false))
	}
	depth := 2
	if c.thorough {
		depth = 3
	}
	reads := func(w *world) {
		for _, f := range w.pick(1) {
			var cols []string
			for _, n := range f.names() {
				if f.cols[n].kind != kO {
					cols = append(cols, n)
				}
			}
			if len(f.rows) > 0 && len(cols) > 0 {
				f.dense(dataframe.NewDense64Batching(cols), cols)
				f.iterate(dataframe.NewFloat32Iterator(f.df, cols), cols, -1)
			}
			f.vectors()
		}
	}
	c.Tree("debugging mode", on, treeOpt{depth: depth, extra: reads}, gen)
	c.Tree("without debugging mode", off, treeOpt{depth: 1, extra: func(w *world) {
		silent(w, "reading", func() { reads(w) })
		silent(w, "a derivation", func() {
			for _, f := range w.pick(1) {
				f.df.Copy()
				f.df.ShallowCopy()
				f.df.DetachedView()
				f.df.SliceView(0, len(f.rows))
				f.df.Encode(nil)
			}
		})
	}}, gen)
	var large []root
	for i, n := range rowCounts(40, 1025) {
		spec := []string{allTypes, "id:d", "f1:f s1:s", "s1:s", "b1:b"}[i%5]
		large = append(large, debugged(rootOf(n, spec), i%2 == 0), debugged(rootOf(n, "id:d f1:f"), i%2 == 1))
	}
	for _, k := range columnCounts(20, 65) {
		large = append(large, debugged(wideRoot(3, k), k%2 == 0))
	}
	c.Tree("debugging mode, every row and column count", large, treeOpt{depth: 1, extra: func(w *world) { reads(w) }}, (*world).everySharing)
	// verbose training
	c.Unit("verbose training")
	for _, debug := range []bool{false, true} {
		for k := 0; k < 3; k++ {
			for _, low := range []bool{false, true} {
				for fi, form := range []selOp{plainForm(), reverseForm()} {
					debug, k, low, form := debug, k, low, form
					c.Case(fmt.Sprintf("regression debug %v features %d low memory %v form %d", debug, k, low, fi), func() {
						run := func(verbose bool) string {
							w := newWorld()
							t := []tcol{{"target", 'f', floatVals(1, 0, 2, 5, 3)}, {"s", 's', []interface{}{"u"}}}
							for j := 0; j <= k; j++ {
								t = append(t, tcol{fmt.Sprint("f", j), 'f', floatVals([]float64{1, 4, 2.5, -3, 0, 7, 7, 1}[j:]...)})
							}
							f := w.table(5, t...)
							f.df.Debug(debug)
							form.do(w, f)
							df := w.last().df
							reg := algorithms.NewLinearRegressor()
							sched.ResetRand()
							err := reg.Fit(df, "target", algorithms.LinRegTrainParams{Epochs: 3, LR: 0.01, BatchSize: 2, Momentum: 0.5, WeightDecay: 0.1, LowMemory: low, Verbose: verbose})
							ws := map[string]string{}
							for i, f := range reg.Features {
								ws[f] = digestVal(reg.Weights[i])
							}
							w.checkAll("training")
							p, err2 := reg.Predict(df, "pred")
							return errStr(err) + errStr(err2) + joinMap(ws) + digests(p, df)
						}
						quiet := ""
						if debug {
							quiet = run(false)
						} else {
							silent(nil, "training", func() { quiet = run(false) })
						}
						loud := run(true)
						check(quiet == loud, "training gives\n%s\nand in verbose mode\n%s", quiet, loud)
					})
				}
			}
		}
		for oi, o := range autoOpts() {
			for fi, form := range []selOp{plainForm(), reverseForm()} {
				for mask := 0; mask < 8; mask++ {
					debug, o, form, mask := debug, o, form, mask
					c.Case(fmt.Sprintf("preprocessing debug %v options %d columns %d form %d", debug, oi, mask, fi), func() {
						run := func(verbose bool) string {
							w := newWorld()
							t := append([]tcol{{"b", 'b', []interface{}{true, false}}}, pickCols(mask, []tcol{{"f", 'f', []interface{}{1.5, nan(), 4.0}}, {"i", 'i', intVals(1, 2, 1)}, {"s", 's', []interface{}{"u", "v", nil}}})...)
							f := w.table(4, t...)
							f.df.Debug(debug)
							form.do(w, f)
							df := w.last().df
							o := o
							o.Verbose = verbose
							a := preprocessing.NewAutoPreprocessor(o)
							r := a.FitTransform(df)
							hot := func() []string {
								if a.IntToBool == nil {
									return nil
								}
								return a.IntToBool.NewColumns
							}
							d := digestEncoded(r, hot())
							err := a.Fit(df)
							r, err2 := a.TransformView(df)
							w.checkAll("preprocessing")
							return d + errStr(err) + errStr(err2) + digestEncoded(r, hot())
						}
						quiet := ""
						if debug {
							quiet = run(false)
						} else {
							silent(nil, "preprocessing", func() { quiet = run(false) })
						}
						loud := run(true)
						check(quiet == loud, "preprocessing gives\n%s\nand in verbose mode\n%s", quiet, loud)
					})
				}
			}
		}
	}
}

// ---- C33: CPU limits ---------------------------------------------------------------------

func cpuLimit(asked, machine int) int {
	if asked <= 0 || asked >= machine {
		return machine
	}
	return asked
}

func runC33(c *Ctx) {
	c.Unit("limits")
	for machine := 1; machine <= 6; machine++ {
		for asked := -2; asked <= 8; asked++ {
			machine, asked := machine, asked
			c.Case(fmt.Sprintf("%d CPUs, limit %d", machine, asked), func() {
				sched.SetNumCPU(machine)
				want := cpuLimit(asked, machine)
				is := func(what string, got int) {
					check(got == want, "%s: the CPU limit is %d instead of %d (limit set to %d with %d CPUs)", what, got, want, asked, machine)
				}
				raw := dataframe.NewRawData()
				check(raw.ActualMaxCPU() == machine, "NewRawData(): the CPU limit is %d with %d CPUs", raw.ActualMaxCPU(), machine)
				raw.SetMaxCPU(asked)
				is("RawData", raw.ActualMaxCPU())
				is("RawData.ToDataFrame()", raw.ToDataFrame().ActualMaxCPU())
				b := dataframe.DataBuilder{RawData: raw}
				is("DataBuilder", b.AddInts("a", 1, 2).AddFloats("f", 1, 2).AddStrings("s", "u", "v").ToDataFrame().ActualMaxCPU())
				is("EmptyDataFrame", dataframe.EmptyDataFrame(2, asked).ActualMaxCPU())
				is("MergeRawDataRows", dataframe.MergeRawDataRows([]*dataframe.RawData{raw, raw}).ActualMaxCPU())
				is("MergeRawDataColumns", dataframe.MergeRawDataColumns([]*dataframe.RawData{raw}).ActualMaxCPU())
				read, err := dataframe.FromCSV(strings.NewReader("a,b\n1,x\n"), dataframe.CSVReadingSpec{MaxCPU: asked})
				check(err == nil, "error: %v", err)
				is("FromCSV", read.ActualMaxCPU())
				d := c.tmpDir()
				for i := 0; i < 4; i++ {
					os.WriteFile(filepath.Join(d, fmt.Sprintf("f%d.csv", i)), []byte("a,b\n1,x\n"), 0o600)
					read, err = dataframe.FromCSVFilePattern(filepath.Join(d, "f*.csv"), dataframe.CSVReadingSpec{MaxCPU: asked})
					check(err == nil, "error: %v", err)
					is(fmt.Sprintf("FromCSVFilePattern, %d files", i+1), read.ActualMaxCPU())
				}
				rmDir(c, d)
			})
		}
	}
	limits := func(machine, asked int, r root) root {
		return root{fmt.Sprintf("%s, %d CPUs, limit %d", r.name, machine, asked), func(w *world) {
			sched.SetNumCPU(machine)
			r.init(w)
			for _, f := range w.frames {
				f.df.SetMaxCPU(asked)
			}
		}}
	}
	depth := 2
	if c.thorough {
		depth = 3
	}
	for _, m := range [][2]int{{4, 2}, {1, 3}, {3, -1}, {5, 1}} {
		m := m
		var roots []root
		for _, r := range []root{rootOf(3, allTypes), rootOf(12, "f1:f"), rootOf(2, "s1:s"), emptyRoot(2), twoRoots(2, "i1:i", "s1:s")} {
			roots = append(roots, limits(m[0], m[1], r))
		}
		c.Tree(fmt.Sprintf("inherited limits, %d of %d CPUs", m[1], m[0]), roots, treeOpt{depth: depth, noProbe: true, extra: func(w *world) {
			want := cpuLimit(m[1], m[0])
			for _, f := range w.frames {
				check(f.df.ActualMaxCPU() == want, "the CPU limit of %s is %d instead of %d\n  %s", f.name, f.df.ActualMaxCPU(), want, strings.Join(w.log, "\n  "))
			}
			// setting the limit of one does not change the others
			other := want%m[0] + 1
			last := w.last()
			last.df.SetMaxCPU(other)
			for _, f := range w.frames {
				x := want
				if f == last {
					x = other
				}
				check(f.df.ActualMaxCPU() == x, "after the limit of %s is set to %d, the CPU limit of %s is %d instead of %d\n  %s", last.name, other, f.name, f.df.ActualMaxCPU(), x, strings.Join(w.log, "\n  "))
			}
		}}, func(w *world, d int) []op {
			var l []op
			for _, f := range w.pick(1) {
				l = append(l, w.someRows(f)...)
				l = append(l, w.someCols(f)...)
				l = append(l, w.opCopy(f), w.opDetached(f), w.opReset(f), w.opSplitView(f, 2), w.opSplitN(f, 3), w.opTrainTest(f, 0.5))
				l = append(l, w.hashes(f)...)
				if f.deriv && f.derived == 0 {
					l = append(l, w.opUnshare(f))
				}
				if sameColumns([]*frame{f, f}) {
					l = append(l, w.opRowConcat(f, f))
				}
				if f.restructurable() {
					l = append(l, w.restructurings(f, false)...)
				}
			}
			return append(l, w.joins(2, ccView, ccCopy, ccSmart)...)
		})
	}
	// the number of workers
	c.Unit("number of workers")
	var wg sched.WG
	// settle lets the workers that have nothing to do any more come to an end
	settle := func(what string) {
		for i := 0; sched.NumGoroutine() > 1; i++ {
			check(i < 100, "%s: %d goroutines do not end", what, sched.NumGoroutine()-1)
			wg.Add(1)
			sched.Go("settle", func() { wg.Add(-1) })
			wg.Wait()
		}
		sched.PeakReset()
	}
	// work is an operation that distributes work among workers
	type work struct {
		what string
		of   byte // type of the columns
		// most is how many workers there may be
		most func(cpu int) int
		// set prepares the operation
		set func(d *dataframe.DataFrame, names []string, cols, cpu int) func()
	}
	limit := func(cpu int) int { return cpu }
	onFloats := func(what string, set func(d *dataframe.DataFrame) func()) work {
		return work{what, 'f', limit, func(d *dataframe.DataFrame, _ []string, _, _ int) func() { return set(d) }}
	}
	text := func(cols int) string {
		head := ""
		for j := 0; j < cols; j++ {
			head += fmt.Sprintf("c%d,", j)
		}
		return head + "last\n" + strings.Repeat("1,", cols) + "x\n"
	}
	works := []work{
		{"HashStringsView", 's', limit, func(d *dataframe.DataFrame, names []string, _, _ int) func() {
			return func() { d.HashStringsView(names...) }
		}},
		onFloats("FloatImputer.Fit", func(d *dataframe.DataFrame) func() {
			im := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{})
			return func() { im.Fit(d) }
		}),
		onFloats("FloatImputer.TransformInplace", func(d *dataframe.DataFrame) func() {
			im := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{})
			im.Fit(d)
			return func() { im.TransformInplace(d) }
		}),
		{"OneHotEncoder.Fit", 'i', limit, func(d *dataframe.DataFrame, _ []string, _, _ int) func() {
			oh := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: preprocessing.SeparateCategory, UnknownPolicy: preprocessing.SeparateCategory})
			return func() { oh.Fit(d) }
		}},
		{"OneHotEncoder.TransformView", 'i', limit, func(d *dataframe.DataFrame, _ []string, _, _ int) func() {
			oh := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: preprocessing.SeparateCategory, UnknownPolicy: preprocessing.SeparateCategory})
			oh.Fit(d)
			return func() { oh.TransformView(d) }
		}},
		{"FromCSV", 'f', limit, func(_ *dataframe.DataFrame, _ []string, cols, cpu int) func() {
			return func() {
				_, err := dataframe.FromCSV(strings.NewReader(text(cols)), dataframe.CSVReadingSpec{MaxCPU: cpu})
				check(err == nil, "error: %v", err)
			}
		}},
		// those that read files wait for those that parse columns
		{"FromCSVFilePattern", 'f', func(cpu int) int { return 2 * cpu }, func(_ *dataframe.DataFrame, _ []string, cols, cpu int) func() {
			d := c.tmpDir()
			for i := 0; i < cols; i++ {
				os.WriteFile(filepath.Join(d, fmt.Sprintf("f%d.csv", i)), []byte(text(cols)), 0o600)
			}
			return func() {
				defer rmDir(c, d)
				_, err := dataframe.FromCSVFilePattern(filepath.Join(d, "f*.csv"), dataframe.CSVReadingSpec{MaxCPU: cpu})
				check(err == nil, "error: %v", err)
			}
		}},
	}
	works = append(works, work{"ToCSVDir", 'f', limit, func(d *dataframe.DataFrame, _ []string, _, cpu int) func() {
		dir := c.tmpDir()
		return func() {
			defer rmDir(c, dir)
			paths, err := d.ToCSVDir(dataframe.CSVWritingSpec{MinRowsPerFile: 1}, filepath.Join(dir, "out"))
			check(err == nil, "error: %v", err)
			check(len(paths) <= cpu, "%d files, the limit is %d", len(paths), cpu)
		}
	}})
	for i, o := range scalerOpts() {
		o := o
		works = append(works, onFloats(fmt.Sprint("Scaler.Fit ", i), func(d *dataframe.DataFrame) func() {
			s := preprocessing.NewScaler(o)
			return func() { s.Fit(d) }
		}), onFloats(fmt.Sprint("Scaler.TransformInplace ", i), func(d *dataframe.DataFrame) func() {
			s := preprocessing.NewScaler(o)
			s.Fit(d)
			return func() { s.TransformInplace(d) }
		}), onFloats(fmt.Sprint("Scaler.InverseTransformInplace ", i), func(d *dataframe.DataFrame) func() {
			s := preprocessing.NewScaler(o)
			s.Fit(d)
			return func() { s.InverseTransformInplace(d) }
		}))
	}
	counts := seq(7)
	counts = append(counts, 9, 12, 16, 17, 25, 33)
	for _, k := range works {
		for _, cols := range counts {
			for cpu := 1; cpu <= 9; cpu++ {
				if cpu > 4 && cols < 7 || k.what == "FromCSVFilePattern" && cols > 12 {
					continue
				}
				for fi, form := range []selOp{plainForm(), reverseForm()} {
					k, cols, cpu, form := k, cols, cpu, form
					c.Case(fmt.Sprintf("%s of %d columns, limit %d, form %d", k.what, cols, cpu, fi), func() {
						sched.SetNumCPU(12)
						wg = sched.WG{}
						w := newWorld()
						t := []tcol{{"idf", 'b', []interface{}{true}}}
						var names []string
						vals := map[byte][]interface{}{'s': {"u", "v", nil}, 'f': floatVals(1, 2.5, 4), 'i': intVals(1, 2, 1)}[k.of]
						for j := 0; j < cols; j++ {
							names = append(names, fmt.Sprint("c", j))
							t = append(t, tcol{names[j], k.of, vals})
						}
						f := w.table(4, t...)
						f.df.SetMaxCPU(cpu)
						form.do(w, f)
						do := k.set(w.last().df, names, cols, cpu)
						settle("before")
						do()
						// room for one goroutine that would coordinate the others
						if n := sched.Peak() - 1; n > k.most(cpu)+1 {
							failf("%d workers at the same time, the limit is %d", n, cpu)
						}
						if n := sched.LeafPeak(); n > cpu+1 {
							failf("%d workers at the same time, the limit is %d", n, cpu)
						}
						settle("after")
					})
				}
			}
		}
	}
	c.Unit("number of workers for files")
	maxFiles, maxCols := 9, 9
	if c.thorough {
		maxFiles, maxCols = 14, 14
	}
	for files := 0; files <= maxFiles; files++ {
		for cols := 0; cols <= maxCols; cols++ {
			for cpu := 1; cpu <= 12; cpu++ {
				for bad := -1; bad < files; bad += 1 + files/2 {
					files, cols, cpu, bad := files, cols, cpu, bad
					c.Case(fmt.Sprintf("%d files of %d columns, limit %d, bad file %d", files, cols+1, cpu, bad), func() {
						sched.SetNumCPU(12)
						wg = sched.WG{}
						d := c.tmpDir()
						defer rmDir(c, d)
						for i := 0; i < files; i++ {
							t := text(cols)
							if i == bad {
								t += "1,\"\n"
							}
							os.WriteFile(filepath.Join(d, fmt.Sprintf("f%d.csv", i)), []byte(t), 0o600)
						}
						settle("before")
						_, err := dataframe.FromCSVFilePattern(filepath.Join(d, "f*.csv"), dataframe.CSVReadingSpec{MaxCPU: cpu})
						check((err != nil) == (bad >= 0), "bad file %d, error %v", bad, err)
						if n := sched.LeafPeak(); n > cpu+1 {
							failf("%d workers at the same time, the limit is %d", n, cpu)
						}
						if n := sched.Peak() - 1; n > 2*cpu+1 {
							failf("%d workers for columns and files at the same time, the limit is %d", n, cpu)
						}
						settle("after")
					})
				}
			}
		}
	}
}
