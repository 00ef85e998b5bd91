//go:build go1.21

package main

import (
	"encoding/csv"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"github.com/rom1mouret/ml-essentials/zzverif/sched"
)

func init() {
	props["C37"] = propDef{run: runC37}
}

// ---- C37 ---------------------------------------------------------------------------

// rowwise is something that turns rows into rows.
type rowwise struct {
	name  string
	rows  func(df *dataframe.DataFrame) (*dataframe.DataFrame, error)
	text  func(df *dataframe.DataFrame) (header string, rows map[int]string) // instead of rows
	state interface{}                                                        // serialized before and after
	order bool                                                               // the order of the rows is kept
}

// The rows that are put together: one of a kind seen in training, one with
// everything missing, one never seen, and mixtures.
var rowKinds = []tcol{
	{"x", 'f', floatVals(2, math.NaN(), 1e6, -3.5, 4, 0)},
	{"y", 'f', floatVals(-1, 7, math.NaN(), 5, 0.25, 1e-9)},
	{"c", 'i', intVals(3, -1, 99, 7, 3, 0)},
	{"e", 'i', intVals(3, 7, 3, -1, 77, 5)},
	{"s", 's', []interface{}{"u", nil, "never", "v", "v", ""}},
	{"b", 'b', []interface{}{true, false, true, false, false, true}},
	{"o", 'o', []interface{}{nil, &obj{1}, &obj{2}, nil, &obj{3}, &obj{1}}},
}

// rowTable: row i is of kind kinds[i].
func (w *world) rowTable(kinds []int) *frame {
	cols := []tcol{{"id", 'd', intVals(0)}}
	for _, t := range rowKinds {
		u := tcol{t.name, t.typ, nil}
		for _, k := range kinds {
			u.vals = append(u.vals, t.vals[k])
		}
		cols = append(cols, u)
	}
	return w.table(len(kinds), cols...)
}

func (w *world) trainingTable() *frame {
	return w.table(6, tcol{"x", 'f', floatVals(2, -3.5, math.NaN(), 4, 4, 11)}, tcol{"y", 'f', floatVals(-1, 5, 0.25, 5, 8, 8)}, tcol{"c", 'i', intVals(3, 7, 3, 7, 0, 3)},
		tcol{"e", 'i', intVals(5, 7, -1, 7, 3, 7)}, tcol{"s", 's', []interface{}{"u", "v", "v", nil, "u", "u"}}, tcol{"b", 'b', []interface{}{true, false}}, tcol{"o", 'o', []interface{}{nil, &obj{9}}})
}

// fittedOnes trains one of everything.
func (c *Ctx) fittedOnes() []rowwise {
	var l []rowwise
	w := newWorld()
	tr := w.trainingTable()
	must := func(err error) { sched.Settle(); check(err == nil, "training fails: %v", err) }
	floats := tr.df.ColumnView("x", "y")
	detached := func(cols []string, do func(df *dataframe.DataFrame) error) func(df *dataframe.DataFrame) (*dataframe.DataFrame, error) {
		return func(df *dataframe.DataFrame) (*dataframe.DataFrame, error) {
			v := df.DetachedView(cols...)
			return v, do(v)
		}
	}
	for i, opt := range scalerOpts() {
		s := preprocessing.NewScaler(opt)
		must(s.Fit(floats))
		l = append(l, rowwise{name: spf("scaler %d", i), state: s, order: true, rows: detached([]string{"x", "y"}, s.TransformInplace)})
		l = append(l, rowwise{name: spf("inverse of scaler %d", i), state: s, order: true, rows: detached([]string{"x", "y"}, s.InverseTransformInplace)})
	}
	for i, p := range []preprocessing.ImputingPolicy{0, 1, 2} {
		q := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: p})
		must(q.Fit(floats))
		l = append(l, rowwise{name: spf("imputer %d", i), state: q, order: true, rows: detached([]string{"x", "y"}, q.TransformInplace)})
	}
	freqs := map[string]map[int]int{"c": {3: 3, 7: 2, 0: 1}, "e": {5: 1, 7: 3, 3: 1, -1: 1}}
	for _, m := range policies {
		for _, u := range policies {
			for k := 0; k < 2; k++ {
				opt := preprocessing.OneHotOptions{MissingPolicy: m, UnknownPolicy: u, KeepUsedColumns: k == 1}
				if ohUnspecified(opt, freqs) {
					continue
				}
				e := preprocessing.NewOneHotEncoder(opt)
				must(e.Fit(tr.df.ColumnView("c", "e")))
				l = append(l, rowwise{name: spf("one-hot encoder %d %d %d", m, u, k), state: e, order: true, rows: e.TransformView})
				if k == 1 {
					d := &preprocessing.OneHotEncoder{}
					roundTrip(e, d)
					l = append(l, rowwise{name: spf("deserialized one-hot encoder %d %d", m, u), state: d, order: true, rows: d.TransformView})
				}
			}
		}
	}
	h := preprocessing.NewHashEncoder(preprocessing.HashEncoderOptions{})
	must(h.Fit(tr.df))
	l = append(l, rowwise{name: "hash encoder", state: h, order: true, rows: h.TransformView})
	for i, opt := range autoOpts() {
		for k := 0; k < 2; k++ {
			opt := opt
			opt.Exclude = []string{"id", "e"}
			from := tr.df
			if k == 1 {
				// no strings: the integers are the categories
				from = tr.df.ColumnView("x", "y", "c", "e", "b", "o")
			}
			a := preprocessing.NewAutoPreprocessor(opt)
			must(a.Fit(from))
			l = append(l, rowwise{name: spf("preprocessor %d %d", i, k), state: a, order: true, rows: a.TransformView})
			if opt.Imputing && k == 0 {
				hot := append([]string{}, a.IntToBool.NewColumns...)
				weights := map[string]float64{"x": 2, "y": -0.5, "b": 3}
				for j, n := range hot {
					weights[n] = float64(j) + 0.5
				}
				reg := regressor(newWorld(), weights, -2, 5)
				l = append(l, rowwise{name: spf("preprocessor %d and prediction", i), state: []interface{}{a, reg}, rows: func(df *dataframe.DataFrame) (*dataframe.DataFrame, error) {
					v, err := a.TransformView(df)
					if err != nil {
						return v, err
					}
					return reg.Predict(v, "result")
				}})
			}
		}
	}
	for i, ws := range []map[string]float64{{"y": 2, "b": -1}, {"x": 0.5, "y": 1e3, "c": -3, "e": 0.1, "b": 7}, {"c": 1}} {
		reg := regressor(newWorld(), ws, 3, 9)
		l = append(l, rowwise{name: spf("prediction %d", i), state: reg, rows: func(df *dataframe.DataFrame) (*dataframe.DataFrame, error) { return reg.Predict(df, "result") }})
		l = append(l, rowwise{name: spf("prediction %d into a used column", i), state: reg, rows: func(df *dataframe.DataFrame) (*dataframe.DataFrame, error) { return reg.Predict(df, "y") }})
	}
	plain := func(name string, rows func(df *dataframe.DataFrame) *dataframe.DataFrame) {
		l = append(l, rowwise{name: name, order: true, rows: func(df *dataframe.DataFrame) (*dataframe.DataFrame, error) { return rows(df), nil }})
	}
	plain("hashing", func(df *dataframe.DataFrame) *dataframe.DataFrame { return df.HashStringsView("s") })
	plain("integers as floats", func(df *dataframe.DataFrame) *dataframe.DataFrame {
		v := df.View()
		v.IntToFloats("c", "e")
		return v
	})
	plain("booleans as floats", func(df *dataframe.DataFrame) *dataframe.DataFrame {
		v := df.View()
		v.BoolToFloats("b")
		return v
	})
	plain("copying", func(df *dataframe.DataFrame) *dataframe.DataFrame { return df.Copy() })
	plain("detaching", func(df *dataframe.DataFrame) *dataframe.DataFrame { return df.DetachedView("x", "s", "b") })
	for _, marker := range []string{"", "NA"} {
		marker := marker
		for k := 1; k <= 2; k++ {
			k := k
			l = append(l, rowwise{name: spf("writing with marker %q to %d writers", marker, k), text: func(df *dataframe.DataFrame) (string, map[int]string) {
				bufs, ws := csvWriters(k)
				spec := dataframe.CSVWritingSpec{StringMissingMarker: marker}
				if k == 1 {
					check(df.To1CSV(ws[0], spec) == nil, "writing fails")
				} else {
					check(df.ToCSVs(ws, spec) == nil, "writing fails")
				}
				head, out := "", map[int]string{}
				for _, b := range bufs {
					h := csvById(b.String(), out)
					if h != "" {
						head = h
					}
				}
				return head, out
			}})
		}
	}
	for _, batch := range []int{1, 2, 3, 7, 64} {
		batch := batch
		cols := []string{"id", "x", "b", "e", "y"}
		l = append(l, rowwise{name: spf("matrices of %d rows", batch), text: func(df *dataframe.DataFrame) (string, map[int]string) {
			out := map[int]string{}
			b := dataframe.NewDense64Batching(cols)
			for _, part := range df.SplitView(batch) {
				if part.NumRows() == 0 {
					continue
				}
				m := b.DenseMatrix(part)
				r, k := m.Dims()
				for i := 0; i < r; i++ {
					t := ""
					for j := 1; j < k; j++ {
						t += digestVal(m.At(i, j)) + " "
					}
					addText(out, int(m.At(i, 0)), t)
				}
			}
			return spf("%q", cols), out
		}})
	}
	l = append(l, rowwise{name: "iterating", text: func(df *dataframe.DataFrame) (string, map[int]string) {
		out := map[int]string{}
		cols := []string{"id", "y", "c", "b", "x"}
		it := dataframe.NewFloat32Iterator(df, cols)
		for row, _, _ := it.NextRow(); row != nil; row, _, _ = it.NextRow() {
			t := ""
			for _, v := range row[1:] {
				t += digestVal(float64(v)) + " "
			}
			addText(out, int(row[0]), t)
		}
		return spf("%q", cols), out
	}})
	return l
}

func addText(out map[int]string, id int, t string) {
	if o, ok := out[id]; ok && o != t {
		failf("row %d gives both %s and %s", id, o, t)
	}
	out[id] = t
}

// csvById reads rows by their column "id"; the columns are brought in order.
func csvById(text string, out map[int]string) string {
	recs, err := csv.NewReader(strings.NewReader(text)).ReadAll()
	check(err == nil, "the CSV cannot be read: %v", err)
	if len(recs) == 0 {
		return ""
	}
	h := recs[0]
	ord := seq(len(h))
	sort.SliceStable(ord, func(i, j int) bool { return h[ord[i]] < h[ord[j]] })
	for _, r := range recs[1:] {
		id, t := 0, ""
		for _, i := range ord {
			if h[i] == "id" {
				fmt.Sscan(r[i], &id)
			} else {
				t += spf("%q ", r[i])
			}
		}
		addText(out, id, t)
	}
	return spf("%q", sortedCopy(h))
}

// byRow renders the result: header, texts by id, ids in order.
func (p *rowwise) byRow(df *dataframe.DataFrame) (head string, rows map[int]string, order []int, err error) {
	if p.text != nil {
		head, rows = p.text(df)
		return head, rows, nil, nil
	}
	res, err := p.rows(df)
	if err != nil {
		return "", nil, nil, err
	}
	check(res.NumRows() == df.NumRows(), "%s: %d rows become %d", p.name, df.NumRows(), res.NumRows())
	var names []string
	kind := map[string]byte{}
	for k, l := range map[byte][]string{kF: res.FloatHeader().NameList(), kI: res.IntHeader().NameList(), kB: res.BoolHeader().NameList(), kO: res.ObjectHeader().NameList()} {
		for _, n := range l {
			kind[n] = k
			names = append(names, n)
		}
	}
	sort.Strings(names)
	head = spf("strings %q", sortedCopy(res.StringHeader().NameList()))
	for _, n := range names {
		head += spf(" %q %d", n, kind[n])
	}
	rows = map[int]string{}
	ids := res.Ints("id")
	for i := 0; i < res.NumRows(); i++ {
		var b strings.Builder
		for _, n := range names {
			if n == "id" {
				continue
			}
			var v interface{}
			switch kind[n] {
			case kF:
				v = res.Floats(n).Get(i)
			case kI:
				v = res.Ints(n).Get(i)
			case kB:
				v = res.Bools(n).Get(i)
			default:
				v = res.Objects(n).Get(i)
			}
			b.WriteString(digestVal(v) + " ")
		}
		if old, ok := rows[ids.Get(i)]; ok && !alike(old, b.String()) {
			failf("%s: the same row gives %s and %s", p.name, old, b.String())
		}
		rows[ids.Get(i)] = b.String()
		order = append(order, ids.Get(i))
	}
	return
}

// alone: what every kind of row becomes by itself.
type alone struct {
	head string
	text []string
	fail []bool
}

func (p *rowwise) alone() *alone {
	a := &alone{}
	for k := range rowKinds[0].vals {
		f := newWorld().rowTable([]int{k})
		head, rows, _, err := p.byRow(f.df)
		sched.Settle()
		if head != "" {
			if a.head != "" && a.head != head {
				failf("%s: the columns depend on the row: %s or %s", p.name, a.head, head)
			}
			a.head = head
		}
		a.fail = append(a.fail, err != nil)
		a.text = append(a.text, rows[100])
	}
	return a
}

// whole checks that df, the row with id 100+i being of kind kinds[i], becomes the rows
// that its rows become.
func (p *rowwise) whole(a *alone, df *dataframe.DataFrame, kinds []int, what string) {
	head, rows, order, err := p.byRow(df)
	sched.Settle()
	bad := false
	var ids []int
	in := df.Ints("id")
	seen := map[int]bool{}
	for i := 0; i < in.Size(); i++ {
		id := in.Get(i)
		ids = append(ids, id)
		seen[id] = true
		bad = bad || a.fail[kinds[id-100]]
	}
	if bad != (err != nil) {
		failf("%s on %s: error %v; one of its rows by itself fails: %v", p.name, what, err, bad)
	}
	if err != nil {
		return
	}
	if head != a.head && (len(ids) > 0 || p.text == nil) && a.head != "" {
		failf("%s on %s: the columns are %s, and %s on single rows", p.name, what, head, a.head)
	}
	if len(rows) != len(seen) {
		failf("%s on %s: %d rows instead of %d", p.name, what, len(rows), len(seen))
	}
	for id := range seen {
		k := kinds[id-100]
		if t, ok := rows[id]; !ok || !alike(t, a.text[k]) {
			failf("%s on %s: row %d becomes\n  %s\nand by itself\n  %s", p.name, what, id-100, t, a.text[k])
		}
	}
	if p.text != nil {
		return
	}
	if p.order {
		if !sameInts(order, ids) {
			failf("%s on %s: the rows are in the order %v, expected %v", p.name, what, order, ids)
		}
	} else {
		x, y := append([]int{}, order...), append([]int{}, ids...)
		sort.Ints(x)
		sort.Ints(y)
		if !sameInts(x, y) {
			failf("%s on %s: the rows %v instead of %v", p.name, what, x, y)
		}
	}
}

func (p *rowwise) snapshot() string {
	if p.state == nil {
		return ""
	}
	b, err := json.Marshal(p.state)
	check(err == nil, "serializing fails: %v", err)
	return string(b)
}

func (p *rowwise) unchanged(before string) {
	after := p.snapshot()
	if before != after && !jsonEqual([]byte(before), []byte(after)) {
		failf("%s was changed by using it:\n  %s\n  %s", p.name, near1(before, after), near1(after, before))
	}
}

func runC37(c *Ctx) {
	sched.SetNumCPU(4)
	num := 120 // more than there are
	kinds := len(rowKinds[0].vals)
	maxLen := 4
	if c.thorough {
		maxLen = 6
	}
	used := func(pi int) (*rowwise, *alone, string) {
		l := c.fittedOnes()
		check(len(l) <= num, "harness: %d components", len(l))
		if pi >= len(l) {
			return nil, nil, ""
		}
		p := &l[pi]
		before := p.snapshot()
		return p, p.alone(), before
	}
	c.Unit("every sequence of rows")
	for pi := 0; pi < num; pi++ {
		for first := 0; first < kinds; first++ {
			pi, first := pi, first
			c.Case(spf("component %d from row kind %d", pi, first), func() {
				p, a, before := used(pi)
				if p == nil {
					return
				}
				for l := 0; l <= maxLen-1; l++ {
					tuples(kinds, l, func(t []int) {
						ks := append([]int{first}, t...)
						w := newWorld()
						f := w.rowTable(ks)
						f.df.SetMaxCPU(1 + l%3)
						p.whole(a, f.df, ks, spf("rows of the kinds %v", ks))
						c.rep.Transitions++
						if l == 2 {
							w.checkAll(p.name)
						}
					})
				}
				p.unchanged(before)
			})
		}
	}
	c.Unit("every view")
	forms := viewForms()
	sizes := []int{0, 1, 2, 5, 12, 40}
	if c.thorough {
		sizes = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 17, 40, 65, 130}
	}
	for pi := 0; pi < num; pi++ {
		for _, n := range sizes {
			pi, n := pi, n
			c.Case(spf("component %d views of %d rows", pi, n), func() {
				p, a, before := used(pi)
				if p == nil {
					return
				}
				for fi, form := range forms {
					for gi, then := range forms {
						if !c.thorough && (fi+gi)%3 != 0 {
							continue
						}
						w := newWorld()
						ks := make([]int, n)
						for i := range ks {
							ks[i] = (i*i + i/3 + fi) % kinds
							if a.fail[ks[i]] && gi%2 == 0 {
								ks[i] = 0
							}
						}
						f := w.rowTable(ks)
						form.do(w, f)
						p.whole(a, w.last().df, ks, spf("%d rows %s", n, form.name))
						then.do(w, w.last())
						p.whole(a, w.last().df, ks, spf("%d rows %s %s", n, form.name, then.name))
						w.checkAll(p.name)
						c.rep.Transitions += 2
					}
				}
				p.unchanged(before)
			})
		}
	}
	c.Unit("every number of rows and every way to cut them")
	dense, max := 40, 301
	if c.thorough {
		dense, max = 140, 2049
	}
	for pi := 0; pi < num; pi++ {
		for _, n := range rowCounts(dense, max) {
			pi, n := pi, n
			id := ""
			if c.only != "" || c.counter%c.of == c.shard {
				id = spf("component %d on %d rows", pi, n)
			}
			c.Case(id, func() {
				p, a, before := used(pi)
				if p == nil {
					return
				}
				var ok []int
				for k := range a.text {
					if !a.fail[k] {
						ok = append(ok, k)
					}
				}
				if len(ok) == 0 {
					return
				}
				w := newWorld()
				ks := make([]int, n)
				for i := range ks {
					ks[i] = ok[(i*7+i/5)%len(ok)]
				}
				f := w.rowTable(ks)
				for cpu := 1; cpu <= 4; cpu += 1 + n/100 {
					f.df.SetMaxCPU(cpu)
					p.whole(a, f.df, ks, spf("%d rows, %d CPUs", n, cpu))
				}
				for at := 0; at <= n; at += 1 + n/6 {
					p.whole(a, f.df.SliceView(0, at), ks, spf("the first %d of %d rows", at, n))
					p.whole(a, f.df.SliceView(at, n), ks, spf("%d rows from %d", n, at))
					r := f.df.SliceView(at, n).ReverseView()
					p.whole(a, r, ks, spf("%d rows from %d, reversed", n, at))
					c.rep.Transitions += 3
				}
				// a single row that is out of the ordinary, wherever it is
				if n > 0 {
					for k := range a.text {
						step := 1 + n/5
						if n > 64 {
							step = n // the last row only
						}
						for at := n - 1; at >= 0; at -= step {
							one := make([]int, n)
							for i := range one {
								one[i] = ok[0]
							}
							one[at] = k
							g := newWorld().rowTable(one)
							p.whole(a, g.df, one, spf("%d equal rows but for row %d", n, at))
							c.rep.Transitions++
						}
					}
				}
				p.unchanged(before)
			})
		}
	}
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
