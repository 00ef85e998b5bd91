//go:build go1.21

package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/rom1mouret/ml-essentials/dataframe"
)

// Operations on the code and on the model at once.

// muted: the operations of a history are executed without rendering them.
var muted bool

func spf(format string, a ...interface{}) string {
	if muted {
		return ""
	}
	return fmt.Sprintf(format, a...)
}

type commas []int

func (l commas) String() string { return ints(l) }

type commaList []string

func (l commaList) String() string { return strings.Join(l, ",") }

func ints(l []int) string {
	if len(l) > 60 {
		s := fmt.Sprint(l)
		return fmt.Sprintf("%s...%d items:%x", ints(l[:10]), len(l), hash64(s))
	}
	return strings.ReplaceAll(fmt.Sprint(l), " ", ",")
}

func (w *world) opView(f *frame) op {
	n := spf("%s.View()", f.name)
	return op{n, func() { w.add(w.derive(f, seq(len(f.rows)), f.df.View()), n) }}
}

func (w *world) opIndex(f *frame, pos []int) op {
	n := spf("%s.IndexView(%v)", f.name, commas(pos))
	return op{n, func() {
		arg := append([]int(nil), pos...)
		r := w.add(w.derive(f, pos, f.df.IndexView(arg)), n)
		for i := range arg { // the caller may reuse its slice
			arg[i] = 0
		}
		_ = r
	}}
}

// slicePos is what SliceView(from, to) selects.
func slicePos(n, from, to int) []int {
	if from < 0 {
		from += n + 1
	}
	if to < 0 {
		to += n + 1
	}
	var pos []int
	if from <= to {
		for i := from; i < to; i++ {
			pos = append(pos, i)
		}
	} else {
		for i := from - 1; i >= to; i-- {
			pos = append(pos, i)
		}
	}
	return pos
}

func (w *world) opSlice(f *frame, from, to int) op {
	n := spf("%s.SliceView(%d,%d)", f.name, from, to)
	return op{n, func() { w.add(w.derive(f, slicePos(len(f.rows), from, to), f.df.SliceView(from, to)), n) }}
}

func (w *world) opMask(f *frame, mask []bool) op {
	s := ""
	var pos []int
	for i, b := range mask {
		if b {
			s += "1"
			pos = append(pos, i)
		} else {
			s += "0"
		}
	}
	n := spf("%s.MaskView(%s)", f.name, s)
	return op{n, func() {
		m := append([]bool(nil), mask...)
		v := f.df.MaskView(m)
		for i := range m {
			m[i] = !m[i]
		}
		w.add(w.derive(f, pos, v), n)
	}}
}

func (w *world) opReverse(f *frame) op {
	n := spf("%s.ReverseView()", f.name)
	return op{n, func() {
		l := len(f.rows)
		pos := make([]int, l)
		for i := range pos {
			pos[i] = l - 1 - i
		}
		w.add(w.derive(f, pos, f.df.ReverseView()), n)
	}}
}

func (w *world) opReset(f *frame) op {
	n := spf("%s.ResetIndexView()", f.name)
	return op{n, func() {
		pos := seq(len(f.rows))
		sort.SliceStable(pos, func(a, b int) bool { return f.rows[pos[a]] < f.rows[pos[b]] })
		w.add(w.derive(f, pos, f.df.ResetIndexView()), n)
	}}
}

// positions finds which rows of f the rows of df are, with the help of the
// unique values of the int column id.
func positions(f *frame, df *dataframe.DataFrame, id string) []int {
	c := f.cols[id]
	byVal := map[int][]int{}
	for i, x := range c.cells {
		v := x.v.(int)
		byVal[v] = append(byVal[v], i)
	}
	a := df.Ints(id)
	pos := make([]int, df.NumRows())
	used := map[int]int{}
	for i := range pos {
		v := a.Get(i)
		l := byVal[v]
		if len(l) == 0 {
			failf("row %d of the result has %s=%d, which no row of %s has", i, id, v, f.name)
		}
		k := used[v]
		used[v]++
		if k >= len(l) {
			failf("row with %s=%d appears %d times in the result, %d times in %s", id, v, k+1, len(l), f.name)
		}
		pos[i] = l[k]
	}
	return pos
}

// idOK tells whether the column id identifies the rows of f.
func (f *frame) idOK(id string) bool {
	c := f.cols[id]
	if c == nil || c.kind != kI {
		return false
	}
	by := map[int]*cell{}
	for _, x := range c.cells {
		v := x.v.(int)
		if y, ok := by[v]; ok && y != x {
			return false
		}
		by[v] = x
	}
	return true
}

// opPerm runs a view that reorders or samples rows.
func (w *world) opPerm(f *frame, what, id string, rows int, view func() *dataframe.DataFrame, verify func(r *frame)) op {
	n := spf("%s.%s", f.name, what)
	return op{n, func() {
		df := view()
		check(df != nil, "%s returns nil", n)
		if df.NumRows() != rows {
			failf("%s has %d rows, expected %d", n, df.NumRows(), rows)
		}
		r := w.derive(f, positions(f, df, id), df)
		if verify != nil {
			verify(r)
		}
		w.add(r, n)
	}}
}

func (w *world) opShuffle(f *frame, id string) op {
	return w.opPerm(f, "ShuffleView()", id, len(f.rows), func() *dataframe.DataFrame { return f.df.ShuffleView() }, nil)
}

func (w *world) opSample(f *frame, k int, id string) op {
	return w.opPerm(f, fmt.Sprintf("SampleView(%d)", k), id, k, func() *dataframe.DataFrame { return f.df.SampleView(k, false) }, nil)
}

func lessVal(a, b interface{}) bool {
	switch x := a.(type) {
	case float64:
		return x < b.(float64)
	case int:
		return x < b.(int)
	case bool:
		return !x && b.(bool)
	}
	panic("harness: not sortable")
}

func missingVal(a interface{}) bool {
	x, ok := a.(float64)
	return ok && x != x
}

func ascending(r *frame, by string) {
	var last interface{}
	for i, x := range r.cols[by].cells {
		if missingVal(x.v) {
			continue
		}
		if last != nil && lessVal(x.v, last) {
			failf("sorted view is not ascending at row %d: %s after %s (column %s)", i, show(x.v), show(last), cellsStr(r.cols[by]))
		}
		last = x.v
	}
}

func (w *world) opSorted(f *frame, by, id string) op {
	return w.opPerm(f, fmt.Sprintf("SortedView(%s)", by), id, len(f.rows),
		func() *dataframe.DataFrame { return f.df.SortedView(by) },
		func(r *frame) { ascending(r, by) })
}

func (w *world) opTop(f *frame, by string, k int, asc, sorted bool, id string) op {
	m := k
	if m > len(f.rows) {
		m = len(f.rows)
	}
	return w.opPerm(f, fmt.Sprintf("TopView(%s,%d,%v,%v)", by, k, asc, sorted), id, m,
		func() *dataframe.DataFrame { return f.df.TopView(by, k, asc, sorted) },
		func(r *frame) {
			var vals []interface{}
			for _, x := range f.cols[by].cells {
				vals = append(vals, x.v)
			}
			sort.SliceStable(vals, func(i, j int) bool {
				if asc {
					return lessVal(vals[i], vals[j])
				}
				return lessVal(vals[j], vals[i])
			})
			got := make([]interface{}, 0, m)
			for _, x := range r.cols[by].cells {
				got = append(got, x.v)
			}
			if !sorted {
				sort.SliceStable(got, func(i, j int) bool {
					if asc {
						return lessVal(got[i], got[j])
					}
					return lessVal(got[j], got[i])
				})
			}
			for i := range got {
				if lessVal(got[i], vals[i]) || lessVal(vals[i], got[i]) {
					failf("top view has %v, expected %v", got, vals[:m])
				}
			}
		})
}

func (w *world) opColumnView(f *frame, cols ...string) op {
	n := spf("%s.ColumnView(%s)", f.name, commaList(cols))
	return op{n, func() {
		r := w.derive(f, seq(len(f.rows)), f.df.ColumnView(cols...))
		if len(cols) > 0 {
			r.restructure()
			keep := map[string]bool{}
			for _, x := range cols {
				keep[x] = true
			}
			for k := range r.cols {
				if !keep[k] {
					delete(r.cols, k)
				}
			}
		}
		w.add(r, n)
	}}
}

func (w *world) opShallow(f *frame) op {
	n := spf("%s.ShallowCopy()", f.name)
	return op{n, func() {
		r := w.derive(f, seq(len(f.rows)), f.df.ShallowCopy())
		r.restructure()
		w.add(r, n)
	}}
}

func (w *world) copyModel(f *frame, df *dataframe.DataFrame) *frame {
	r := w.derive(f, seq(len(f.rows)), df)
	r.restructure()
	r.rows = w.newRows(len(r.rows))
	for _, c := range r.cols {
		for i, x := range c.cells {
			c.cells[i] = &cell{v: x.v}
		}
	}
	return r
}

func (w *world) opCopy(f *frame) op {
	n := spf("%s.Copy()", f.name)
	return op{n, func() { w.add(w.copyModel(f, f.df.Copy()), n) }}
}

// detach gives the named columns (all if none) of the model new cells.
func (f *frame) detach(cols []string) {
	if len(cols) == 0 {
		cols = f.names()
	}
	for _, n := range cols {
		c := f.cols[n]
		if c == nil {
			continue
		}
		by := map[*cell]*cell{}
		for i, x := range c.cells {
			y := by[x]
			if y == nil {
				y = &cell{v: x.v}
				by[x] = y
			}
			c.cells[i] = y
		}
	}
}

func (w *world) opDetached(f *frame, cols ...string) op {
	n := spf("%s.DetachedView(%s)", f.name, commaList(cols))
	return op{n, func() {
		r := w.derive(f, seq(len(f.rows)), f.df.DetachedView(cols...))
		r.detach(cols)
		w.add(r, n)
	}}
}

// opUnshare detaches in place. Only for frames nothing was derived from.
func (w *world) opUnshare(f *frame, cols ...string) op {
	n := spf("%s.Unshare(%s)", f.name, commaList(cols))
	return op{n, func() {
		w.logf("%s", n)
		f.df.Unshare(cols...)
		f.detach(cols)
	}}
}

// ---- structural operations (only on frames whose maps nobody borrows) ---------

func (w *world) opAlloc(f *frame, typ byte, name string) op {
	n := spf("%s.Alloc(%c,%s)", f.name, typ, name)
	return op{n, func() {
		w.logf("%s", n)
		f.alloc(typ, name)
		switch typ {
		case 'f':
			f.df.AllocFloats(name)
		case 'i':
			f.df.AllocInts(name)
		case 'b':
			f.df.AllocBools(name)
		case 's':
			f.df.AllocStrings(name)
		case 'o':
			f.df.AllocObjects(name)
		}
	}}
}

func (f *frame) alloc(typ byte, name string) *col {
	f.restructure()
	c := &col{}
	switch typ {
	case 'f':
		c.kind = kF
		c.cells = f.newCells(0.0)
	case 'i':
		c.kind = kI
		c.cells = f.newCells(0)
	case 'b':
		c.kind = kB
		c.cells = f.newCells(false)
	case 's', 'o':
		c.kind = kO
		c.str = typ == 's'
		c.cells = f.newCells(nil)
	}
	f.cols[name] = c
	return c
}

// opOverwriteNew overwrites a column that does not exist.
func (w *world) opOverwriteNew(f *frame, typ byte, name string, mode int) op {
	n := spf("%s.OverwriteNew(%c,%s,%d)", f.name, typ, name, mode)
	return op{n, func() {
		w.logf("%s", n)
		c := f.alloc(typ, name)
		w.writeCol(f, name, c, w.freshVals(c), mode)
	}}
}

// opOverwrite overwrites an existing column.
func (w *world) opOverwrite(f *frame, name string, mode int) op {
	n := spf("%s.Overwrite(%s,%d)", f.name, name, mode)
	return op{n, func() {
		w.logf("%s", n)
		w.overwrite(f, name, f.cols[name], mode)
	}}
}

func (w *world) opSet(f *frame, name string, row int) op {
	n := spf("%s[%s].Set(%d)", f.name, name, row)
	return op{n, func() {
		w.logf("%s", n)
		c := f.cols[name]
		v := w.freshVal(c.kind, c.str)
		if c.kind == kB {
			v = !c.cells[row].v.(bool)
		}
		c.cells[row].v = v
		switch c.kind {
		case kF:
			f.df.Floats(name).Set(row, v.(float64))
		case kI:
			f.df.Ints(name).Set(row, v.(int))
		case kB:
			f.df.Bools(name).Set(row, v.(bool))
		default:
			if c.str {
				f.df.Strings(name).Set(row, v.(string))
			} else {
				f.df.Objects(name).Set(row, v)
			}
		}
	}}
}

func (w *world) opRename(f *frame, from, to string) op {
	n := spf("%s.Rename(%s,%s)", f.name, from, to)
	return op{n, func() {
		w.logf("%s", n)
		f.restructure()
		f.df.Rename(from, to)
		c := f.cols[from]
		delete(f.cols, from)
		f.cols[to] = c
	}}
}

func (w *world) opDrop(f *frame, cols ...string) op {
	n := spf("%s.Drop(%s)", f.name, commaList(cols))
	return op{n, func() {
		w.logf("%s", n)
		f.restructure()
		f.df.Drop(cols...)
		for _, x := range cols {
			delete(f.cols, x)
		}
	}}
}

// opToFloats converts int or bool columns.
func (w *world) opToFloats(f *frame, cols ...string) op {
	n := spf("%s.ToFloats(%s)", f.name, commaList(cols))
	return op{n, func() {
		w.logf("%s", n)
		f.restructure()
		if f.cols[cols[0]].kind == kI {
			f.df.IntToFloats(cols...)
		} else {
			f.df.BoolToFloats(cols...)
		}
		for _, name := range cols {
			old := f.cols[name]
			nc := &col{kind: kF, cells: f.newCells(nil)}
			for i, x := range old.cells {
				v := 0.0
				switch y := x.v.(type) {
				case int:
					v = float64(y)
				case bool:
					if y {
						v = 1
					}
				}
				nc.cells[i].v = v
			}
			f.cols[name] = nc
		}
	}}
}

// hashes seen in this process: equal strings have equal codes everywhere.
var hashOf = map[string]int{}
var stringOf = map[int]string{}

func hashModel(s string, got int) {
	check(got >= 0, "hash of %q is negative: %d", s, got)
	if h, ok := hashOf[s]; ok {
		check(h == got, "hash of %q is %d, was %d before", s, got, h)
		return
	}
	if t, ok := stringOf[got]; ok {
		failf("%q and %q have the same hash %d", s, t, got)
	}
	hashOf[s] = got
	stringOf[got] = s
}

func (w *world) opHash(f *frame, cols ...string) op {
	n := spf("%s.HashStringsView(%s)", f.name, commaList(cols))
	return op{n, func() {
		df := f.df.HashStringsView(cols...)
		r := w.derive(f, seq(len(f.rows)), df)
		if len(cols) > 0 {
			r.restructure()
		}
		for _, name := range cols {
			old := r.cols[name]
			nc := &col{kind: kI, cells: r.newCells(nil)}
			a := df.Ints(name)
			check(a.Size() == len(r.rows), "%s: hashed column has %d rows", n, a.Size())
			for i, x := range old.cells {
				got := a.Get(i)
				if s, ok := x.v.(string); ok {
					hashModel(s, got)
				} else {
					check(got == -1, "%s: code of %s is %d, expected -1", n, show(x.v), got)
				}
				nc.cells[i].v = got
			}
			r.cols[name] = nc
		}
		w.add(r, n)
	}}
}

// ---- concatenations ---------------------------------------------------------

func sharesNoName(fs []*frame) bool {
	seen := map[string]bool{}
	for _, f := range fs {
		for k := range f.cols {
			if seen[k] {
				return false
			}
			seen[k] = true
		}
	}
	return true
}

func sameRowCount(fs []*frame) bool {
	for _, f := range fs[1:] {
		if len(f.rows) != len(fs[0].rows) {
			return false
		}
	}
	return true
}

func names(fs []*frame) string {
	var l []string
	for _, f := range fs {
		l = append(l, f.name)
	}
	return strings.Join(l, ",")
}

func dfsOf(fs []*frame) []*dataframe.DataFrame {
	var l []*dataframe.DataFrame
	for _, f := range fs {
		l = append(l, f.df)
	}
	return l
}

// plain: all the rows of the storages in their order.
func (w *world) plain(fs []*frame) bool {
	for _, f := range fs {
		if f.df.AreIndicesAltered() {
			return false
		}
	}
	return true
}

const (
	ccView = iota
	ccCopy
	ccSmart
)

var ccNames = []string{"ColumnConcatView", "ColumnCopyConcat", "ColumnSmartConcat"}

// opColConcat concatenates columns. What the smart form shares is not
// determined, so writes through its result are not modelled: the result is
// compared and not kept.
func (w *world) opColConcat(kind int, fs ...*frame) op {
	n := spf("%s(%s)", ccNames[kind], names(fs))
	return op{n, func() {
		var df *dataframe.DataFrame
		var err error
		switch kind {
		case ccView:
			df, err = dataframe.ColumnConcatView(dfsOf(fs)...)
		case ccCopy:
			df, err = dataframe.ColumnCopyConcat(dfsOf(fs)...)
		case ccSmart:
			df, err = dataframe.ColumnSmartConcat(dfsOf(fs)...)
		}
		ok := sharesNoName(fs) && sameRowCount(fs)
		if err != nil {
			w.logf("%s: %v", n, err)
			if ok && (kind != ccView || w.plain(fs)) {
				failf("%s fails: %v", n, err)
			}
			return
		}
		if !ok {
			failf("%s succeeds (rows match: %v, no overlap: %v)", n, sameRowCount(fs), sharesNoName(fs))
		}
		r := &frame{df: df, cols: map[string]*col{}, deriv: true, enc: fs[0].enc, rows: append([]int(nil), fs[0].rows...)}
		for _, f := range fs {
			f.derived++
			for k, c := range f.cols {
				r.cols[k] = &col{kind: c.kind, str: c.str, cells: append([]*cell(nil), c.cells...)}
			}
		}
		switch kind {
		case ccView:
			w.add(r, n)
		default:
			r.rows = w.newRows(len(r.rows))
			for _, c := range r.cols {
				for i, x := range c.cells {
					c.cells[i] = &cell{v: x.v}
				}
			}
			if kind == ccSmart {
				r.name = "smart"
				if m := r.diff(); m != "" {
					failf("%s: %s", n, m)
				}
				w.logf("%s", n)
				return
			}
			w.add(r, n)
		}
	}}
}

func sameColumns(fs []*frame) bool {
	for _, f := range fs[1:] {
		if !sameList(f.names(), fs[0].names()) {
			return false
		}
		for k, c := range f.cols {
			if fs[0].cols[k].kind != c.kind || fs[0].cols[k].str != c.str {
				return false
			}
		}
	}
	return true
}

func (w *world) opRowConcat(fs ...*frame) op {
	n := spf("RowConcat(%s)", names(fs))
	return op{n, func() {
		df, err := dataframe.RowConcat(dfsOf(fs)...)
		if err != nil {
			w.logf("%s: %v", n, err)
			if sameColumns(fs) {
				failf("%s fails: %v", n, err)
			}
			return
		}
		if !sameColumns(fs) {
			// string marking is not part of the column types
			same := true
			for _, f := range fs[1:] {
				same = same && sameList(f.names(), fs[0].names())
				if same {
					for k, c := range f.cols {
						same = same && fs[0].cols[k].kind == c.kind
					}
				}
			}
			if !same {
				failf("%s succeeds although the columns differ", n)
			}
			w.logf("%s", n)
			return
		}
		r := &frame{df: df, cols: map[string]*col{}, deriv: true, enc: fs[0].enc}
		for k, c := range fs[0].cols {
			r.cols[k] = &col{kind: c.kind, str: c.str}
		}
		total := 0
		for _, f := range fs {
			total += len(f.rows)
		}
		r.rows = w.newRows(total)
		for _, f := range fs {
			for i := range f.rows {
				for k, c := range f.cols {
					r.cols[k].cells = append(r.cols[k].cells, &cell{v: c.cells[i].v})
				}
			}
		}
		w.add(r, n)
	}}
}

// opSplit splits a frame with the given call and keeps all the parts.
func (w *world) opSplit(f *frame, what string, sizes []int, exactSizes bool, split func() []*dataframe.DataFrame) op {
	n := spf("%s.%s", f.name, what)
	return op{n, func() {
		parts := split()
		if exactSizes {
			got := []int{}
			for _, p := range parts {
				got = append(got, p.NumRows())
			}
			if fmt.Sprint(got) != fmt.Sprint(sizes) {
				failf("%s gives parts of %v rows, expected %v", n, got, sizes)
			}
		} else if len(parts) != len(sizes) {
			failf("%s gives %d parts, expected %d", n, len(parts), len(sizes))
		}
		at := 0
		for i, p := range parts {
			k := p.NumRows()
			if at+k > len(f.rows) {
				failf("%s: part %d goes beyond the end", n, i)
			}
			pos := make([]int, k)
			for j := range pos {
				pos[j] = at + j
			}
			at += k
			w.add(w.derive(f, pos, p), "%s part %d", n, i)
		}
		if at != len(f.rows) {
			failf("%s: the parts have %d rows in total, expected %d", n, at, len(f.rows))
		}
	}}
}

func splitSizes(n, batch int) []int {
	var l []int
	for n > batch {
		l = append(l, batch)
		n -= batch
	}
	return append(l, n)
}

func (w *world) opSplitView(f *frame, batch int) op {
	return w.opSplit(f, fmt.Sprintf("SplitView(%d)", batch), splitSizes(len(f.rows), batch), true,
		func() []*dataframe.DataFrame { return f.df.SplitView(batch) })
}

func (w *world) opSplitN(f *frame, k int) op {
	return w.opSplit(f, fmt.Sprintf("SplitNView(%d)", k), make([]int, k), false,
		func() []*dataframe.DataFrame { return f.df.SplitNView(k) })
}

func (w *world) opTrainTest(f *frame, ratio float64) op {
	n := len(f.rows)
	t := int(float64(n) * ratio)
	return w.opSplit(f, fmt.Sprintf("SplitTrainTestViews(%v)", ratio), []int{n - t, t}, true,
		func() []*dataframe.DataFrame {
			a, b := f.df.SplitTrainTestViews(ratio)
			return []*dataframe.DataFrame{a, b}
		})
}
