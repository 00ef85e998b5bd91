//go:build go1.21

package main

import (
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"github.com/rom1mouret/ml-essentials/zzverif/sched"
)

func init() {
	props["C35"] = propDef{run: runC35}
	props["C36"] = propDef{run: runC36}
}

// ---- C35 ---------------------------------------------------------------------------

// twin builds a dataframe afresh from what can be read from another one.
func twin(df *dataframe.DataFrame) *dataframe.DataFrame {
	b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
	n := df.NumRows()
	for _, name := range sortedCopy(df.FloatHeader().NameList()) {
		a := df.Floats(name)
		l := make([]float64, n)
		for i := range l {
			l[i] = a.Get(i)
		}
		b.SetFloats(name, l)
	}
	for _, name := range sortedCopy(df.IntHeader().NameList()) {
		a := df.Ints(name)
		l := make([]int, n)
		for i := range l {
			l[i] = a.Get(i)
		}
		b.SetInts(name, l)
	}
	for _, name := range sortedCopy(df.BoolHeader().NameList()) {
		a := df.Bools(name)
		l := make([]bool, n)
		for i := range l {
			l[i] = a.Get(i)
		}
		b.SetBools(name, l)
	}
	for _, name := range sortedCopy(df.ObjectHeader().NameList()) {
		a := df.Objects(name)
		l := make([]interface{}, n)
		for i := range l {
			l[i] = a.Get(i)
		}
		b.SetObjects(name, l)
	}
	for _, name := range sortedCopy(df.StringHeader().NameList()) {
		b.MarkAsString(name)
	}
	r := b.ToDataFrame()
	r.SetMaxCPU(2)
	return r
}

// alike compares two digests, numbers being allowed to differ by a rounding error.
func alike(a, b string) bool {
	if a == b {
		return true
	}
	x, y := strings.Fields(a), strings.Fields(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] == y[i] {
			continue
		}
		f, e1 := strconv.ParseFloat(strings.TrimRight(x[i], ";,|"), 64)
		g, e2 := strconv.ParseFloat(strings.TrimRight(y[i], ";,|"), 64)
		if e1 != nil || e2 != nil || math.IsInf(f, 0) || math.IsInf(g, 0) || !(math.Abs(f-g) <= 1e-9*(1+math.Abs(f))) {
			return false
		}
	}
	return true
}

// records lists the rows of a dataframe as texts.
func records(df *dataframe.DataFrame) []string {
	if df == nil {
		return nil
	}
	var names []string
	kind := map[string]byte{}
	for k, l := range map[byte][]string{kF: df.FloatHeader().NameList(), kI: df.IntHeader().NameList(), kB: df.BoolHeader().NameList(), kO: df.ObjectHeader().NameList()} {
		for _, n := range l {
			kind[n] = k
			names = append(names, n)
		}
	}
	sort.Strings(names)
	rows := make([]string, df.NumRows())
	for i := range rows {
		var b strings.Builder
		for _, n := range names {
			var v interface{}
			switch kind[n] {
			case kF:
				v = df.Floats(n).Get(i)
			case kI:
				v = df.Ints(n).Get(i)
			case kB:
				v = df.Bools(n).Get(i)
			default:
				v = df.Objects(n).Get(i)
			}
			b.WriteString(n + "=" + digestVal(v) + ",")
		}
		rows[i] = b.String()
	}
	return rows
}

type subject struct {
	floats, ints, bools, objects, strs, names []string
	n                                         int
}

func about(df *dataframe.DataFrame) *subject {
	s := &subject{n: df.NumRows()}
	s.floats = sortedCopy(df.FloatHeader().NameList())
	s.ints = sortedCopy(df.IntHeader().NameList())
	s.bools = sortedCopy(df.BoolHeader().NameList())
	s.objects = sortedCopy(df.ObjectHeader().NameList())
	s.strs = sortedCopy(df.StringHeader().NameList())
	s.names = sortedCopy(df.Header().NameList())
	return s
}

func (s *subject) numbers() []string {
	return append(append(append([]string{}, s.floats...), s.ints...), s.bools...)
}

func (s *subject) has(l []string, n string) bool {
	for _, x := range l {
		if x == n {
			return true
		}
	}
	return false
}

// sameOps lists operations whose result depends on what is visible only.
func (c *Ctx) sameOps(s *subject, print bool) []reader {
	var l []reader
	add := func(name string, run func(df *dataframe.DataFrame) string) { l = append(l, reader{name, run, false}) }
	n := s.n
	add("cells and headers", func(df *dataframe.DataFrame) string {
		h := df.Header()
		return digest(df) + strconv.Itoa(df.NumColumns()) + strconv.Itoa(h.Num()) + strings.Join(sortedCopy(df.StringHeader().NameList()), ",") + strings.Join(sortedCopy(h.NameList()), ",")
	})
	add("rows", func(df *dataframe.DataFrame) string {
		rot := seq(n)
		if n > 0 {
			rot = append(append(rot[n/2:], rot[:n/2]...), 0, n-1)
		}
		m := make([]bool, n)
		for i := range m {
			m[i] = i%2 == 0
		}
		return digests(df.View(), df.ReverseView(), df.SliceView(n/3, n), df.SliceView(0, n/2), df.IndexView(rot), df.MaskView(m), df.MaskView(df.ZeroMask()))
	})
	add("parts", func(df *dataframe.DataFrame) string {
		a, b := df.SplitTrainTestViews(0.5)
		l := append(df.SplitView(2), df.SplitNView(3)...)
		l = append(l, df.SplitNView(2)...)
		return digests(append(l, a, b)...)
	})
	add("copies", func(df *dataframe.DataFrame) string {
		u := df.View()
		u.Unshare(s.names...)
		return digests(df.Copy(), df.ShallowCopy(), df.DetachedView(), df.DetachedView(s.names...), u)
	})
	add("restructured copies", func(df *dataframe.DataFrame) string {
		v, u, t := df.View(), df.View(), df.Copy()
		if len(s.names) > 0 {
			v.Drop(s.names[0])
			u.Rename(s.names[len(s.names)-1], "renamed")
		}
		t.AllocFloats("fresh f")
		t.AllocStrings("fresh s")
		k := df.Copy()
		k.OverwriteInts("fresh i", seq(n))
		var w *dataframe.DataFrame
		if len(s.names) > 0 {
			w = df.ColumnView(s.names[:1]...)
		}
		return digests(v, u, t, k, w)
	})
	keys := s.numbers()
	if len(keys) > 6 {
		keys = append(append(ends(s.floats), ends(s.ints)...), ends(s.bools)...)
	}
	for _, by := range keys {
		by := by
		add("sorting by "+by, func(df *dataframe.DataFrame) string {
			v := df.SortedView(by)
			out := digest(v)
			for k := 0; k <= n; k += 1 + n/2 {
				for mode := 0; mode < 4; mode++ {
					out += " | " + digest(df.TopView(by, k, mode&1 == 1, mode&2 == 2))
				}
			}
			return out
		})
	}
	add("row concatenation", func(df *dataframe.DataFrame) string {
		r, err := dataframe.RowConcat(df, df.ReverseView(), df)
		q, err2 := dataframe.RowConcat(df.SliceView(0, n/2), df.SliceView(n/2, n))
		p, err3 := dataframe.RowConcat(df)
		return errStr(err) + errStr(err2) + errStr(err3) + digests(r, q, p)
	})
	if len(s.names) > 1 {
		add("column concatenation", func(df *dataframe.DataFrame) string {
			k := len(s.names) / 2
			a, b := df.ColumnView(s.names[:k]...), df.ColumnView(s.names[k:]...)
			r1, err := dataframe.ColumnSmartConcat(a, b)
			r2, err2 := dataframe.ColumnCopyConcat(b, a)
			r3, err3 := dataframe.ColumnConcatView(a, b)
			o := twin(b.ReverseView())
			r4, err4 := dataframe.ColumnSmartConcat(a, o)
			r5, err5 := dataframe.ColumnCopyConcat(o, a)
			return errStr(err) + errStr(err2) + errStr(err3) + errStr(err4) + errStr(err5) + digests(r1, r2, r3, r4, r5)
		})
	}
	if len(s.strs) > 0 {
		add("hashing", func(df *dataframe.DataFrame) string {
			return digests(df.HashStringsView(s.strs...), df.HashStringsView(s.strs[0]))
		})
		for _, name := range s.strs {
			name := name
			add("labels of "+name, func(df *dataframe.DataFrame) string {
				codes, m := df.LabelToInt(name)
				out := ""
				for _, k := range codes {
					out += " " + strconv.Itoa(k)
				}
				mm := map[string]string{}
				for k, v := range m {
					mm[k] = strconv.Itoa(v)
				}
				return out + joinMap(mm)
			})
		}
	}
	if nums := s.numbers(); len(nums) > 0 && n > 0 {
		add("numbers", func(df *dataframe.DataFrame) string {
			var b strings.Builder
			it := dataframe.NewFloat32Iterator(df, nums)
			for row, _, _ := it.NextRow(); row != nil; row, _, _ = it.NextRow() {
				for _, v := range row {
					b.WriteString(digestVal(float64(v)) + " ")
				}
			}
			bat := dataframe.NewDense64Batching(nums)
			for _, part := range append(df.SplitView(2), df) {
				m := bat.DenseMatrix(part)
				r, k := m.Dims()
				for i := 0; i < r; i++ {
					for j := 0; j < k; j++ {
						b.WriteString(digestVal(m.At(i, j)) + " ")
					}
				}
			}
			for _, name := range s.floats {
				v, u := df.Floats(name).VecDense(), df.Floats(name).VecDenseCopy()
				for i := 0; i < n; i++ {
					b.WriteString(digestVal(v.AtVec(i)) + " " + digestVal(u.AtVec(i)) + " ")
				}
			}
			return b.String()
		})
	}
	add("cells as interfaces", func(df *dataframe.DataFrame) string {
		var b strings.Builder
		for _, name := range s.names {
			for _, v := range df.CopyValuesToInterfaces(name) {
				b.WriteString(digestVal(v) + " ")
			}
		}
		return b.String()
	})
	if n > 0 {
		add("conversions", func(df *dataframe.DataFrame) string {
			v, u := df.View(), df.View()
			v.IntToFloats(s.ints...)
			u.BoolToFloats(s.bools...)
			return digests(v, u)
		})
	}
	add("CSV", func(df *dataframe.DataFrame) string {
		var b strings.Builder
		v := df.View()
		v.Drop(df.ObjectHeader().ExceptHeader(df.StringHeader()).NameList()...)
		if v.NumColumns() == 0 {
			return ""
		}
		err := v.To1CSV(&b, dataframe.CSVWritingSpec{MaintainOrder: true})
		bufs := []*strings.Builder{{}, {}}
		err2 := v.ToCSVs([]io.Writer{bufs[0], bufs[1]}, dataframe.CSVWritingSpec{MaintainOrder: true})
		return errStr(err) + errStr(err2) + csvDigest(b.String()) + csvDigest(bufs[0].String()) + csvDigest(bufs[1].String())
	})
	if print {
		add("printing", func(df *dataframe.DataFrame) string {
			v := df.View()
			v.Drop(df.ObjectHeader().ExceptHeader(df.StringHeader()).NameList()...)
			return strings.Join(sortedCopy(strings.Split(c.capture(func() { v.PrintHead(3, "%.4f") }), "\n")), "\n")
		})
	}
	// components
	if len(s.floats) > 0 && n > 0 {
		for i, o := range []preprocessing.ScalerOptions{{Centering: true, Scaling: true}, {MinMax: true}, {}} {
			o := o
			add(fmt.Sprintf("scaler %d", i), func(df *dataframe.DataFrame) string {
				p := preprocessing.NewScaler(o)
				err := p.Fit(df)
				return errStr(err) + sepMap(p.Shift) + sepMap(p.Scale)
			})
		}
		for p := 0; p < 3; p++ {
			p := []preprocessing.ImputingPolicy{preprocessing.Mean, preprocessing.Zero, preprocessing.One}[p]
			add(fmt.Sprintf("imputer %d", p), func(df *dataframe.DataFrame) string {
				q := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: p})
				err := q.Fit(df)
				return errStr(err) + sepMap(q.Fallback)
			})
		}
	}
	if len(s.ints) > 0 && n > 0 {
		for _, keep := range []bool{false, true} {
			keep := keep
			add(fmt.Sprintf("one-hot encoder %v", keep), func(df *dataframe.DataFrame) string {
				e := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: preprocessing.SeparateCategory, UnknownPolicy: preprocessing.SeparateCategory, KeepUsedColumns: keep})
				err := e.Fit(df)
				r, err2 := e.TransformView(df)
				return errStr(err) + errStr(err2) + digestEncoded(r, e.NewColumns)
			})
		}
		add("trained one-hot encoder", func(df *dataframe.DataFrame) string {
			e := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: preprocessing.SeparateCategory, UnknownPolicy: preprocessing.SeparateCategory})
			err := e.Fit(twin(df.SliceView(0, (n+1)/2)))
			r, err2 := e.TransformView(df)
			return errStr(err) + errStr(err2) + digestEncoded(r, e.NewColumns)
		})
	}
	if len(s.strs) > 0 {
		add("hash encoder", func(df *dataframe.DataFrame) string {
			e := preprocessing.NewHashEncoder(preprocessing.HashEncoderOptions{})
			err := e.Fit(df)
			r, err2 := e.TransformView(df)
			return errStr(err) + errStr(err2) + digest(r)
		})
	}
	if nums := append(append([]string{}, s.floats...), s.bools...); len(nums) > 0 && n > 0 {
		weights := map[string]float64{}
		for i, name := range nums {
			weights[name] = float64(i)*0.5 - 1
		}
		var reg *algorithms.LinearRegressor
		add("predictions", func(df *dataframe.DataFrame) string {
			if reg == nil {
				reg = regressor(nil, weights, 2, 6)
			}
			r, err := reg.Predict(df, "the result")
			// in any order of the rows
			rows := records(r)
			for i, row := range rows {
				rows[i] = strings.ReplaceAll(row, "the result=", "the result= ")
			}
			return errStr(err) + strings.Join(sortedCopy(rows), " ")
		})
	}
	return l
}

func sepMap(m map[string]float64) string {
	var l []string
	for k, v := range m {
		l = append(l, strconv.Quote(k)+" "+digestVal(v))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// csvDigest brings the columns of a CSV text without quotes in order.
func csvDigest(text string) string {
	lines := strings.Split(text, "\n")
	h := strings.Split(lines[0], ",")
	ord := seq(len(h))
	sort.SliceStable(ord, func(i, j int) bool { return h[ord[i]] < h[ord[j]] })
	var b strings.Builder
	for _, l := range lines {
		cells := strings.Split(l, ",")
		if len(cells) != len(h) {
			b.WriteString(l + "\n")
			continue
		}
		for _, i := range ord {
			b.WriteString(cells[i] + " , ")
		}
		b.WriteByte('\n')
	}
	return b.String()
}

// writesOps lists operations that write to a dataframe; they are applied in a row.
func (c *Ctx) writeOps(s *subject) []reader {
	var l []reader
	add := func(name string, run func(df *dataframe.DataFrame) string) { l = append(l, reader{name, run, false}) }
	n := s.n
	if n == 0 {
		return nil
	}
	add("imputing", func(df *dataframe.DataFrame) string {
		q := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: preprocessing.Zero})
		return errStr(q.Fit(df)) + errStr(q.TransformInplace(df)) + sepDigest(df)
	})
	if len(s.floats) > 0 {
		add("scaling", func(df *dataframe.DataFrame) string {
			q := preprocessing.NewScaler(preprocessing.ScalerOptions{MinMax: true})
			return errStr(q.Fit(df)) + errStr(q.TransformInplace(df)) + sepDigest(df)
		})
		add("setting cells", func(df *dataframe.DataFrame) string {
			for i, name := range s.floats {
				df.Floats(name).Set(n-1, float64(i)+0.5)
			}
			return sepDigest(df)
		})
		add("preprocessing", func(df *dataframe.DataFrame) string {
			a := preprocessing.NewAutoPreprocessor(preprocessing.AutoPreprocOptions{Imputing: true, Scaling: true})
			r := a.FitTransform(df)
			var hot []string
			if a.IntToBool != nil {
				hot = a.IntToBool.NewColumns
			}
			// the encoded columns are compared without their names
			m := digestCols(r)
			var enc []string
			for _, h := range hot {
				enc = append(enc, m[h])
				delete(m, h)
			}
			sort.Strings(enc)
			return joinMap(m) + " ; " + strings.Join(enc, " ; ") + " ; " + sepDigest(df)
		})
	}
	add("overwriting", func(df *dataframe.DataFrame) string {
		for i, name := range s.ints {
			vals := seq(n)
			vals[0] = i
			df.OverwriteInts(name, vals)
		}
		for _, name := range s.strs {
			df.OverwriteStrings(name, strings.Split(strings.Repeat("z,", n), ",")[:n])
		}
		return sepDigest(df)
	})
	return l
}

func sepDigest(df *dataframe.DataFrame) string { return digest(df) }

func guarded(r reader, df *dataframe.DataFrame) (out string) {
	if mustPanic(func() { out = r.run(df) }) {
		return "panics"
	}
	return out
}

// repeated: two visible cells of the dataframe are stored in the same place.
func (f *frame) repeated() bool {
	seen := map[int]bool{}
	for _, r := range f.rows {
		if seen[r] {
			return true
		}
		seen[r] = true
	}
	cells := map[*cell]bool{}
	for _, c := range f.cols {
		if len(c.cells) > 0 {
			if cells[c.cells[0]] {
				return true
			}
			for _, x := range c.cells {
				cells[x] = true
			}
		}
	}
	return false
}

// metamorphic applies every operation to frame f and to a dataframe built afresh.
func (c *Ctx) metamorphic(w *world, f *frame, write, print bool) {
	if len(f.cols) == 0 {
		return
	}
	t := twin(f.df)
	compare := func(r reader) {
		a, b := guarded(r, f.df), guarded(r, t)
		if !alike(a, b) {
			failf("%s: %s gives\n  %s\nbut on a dataframe built afresh with the same content\n  %s\n  %s", f.name, r.name, near1(a, b), near1(b, a), strings.Join(w.log, "\n  "))
		}
	}
	s := about(f.df)
	for _, r := range c.sameOps(s, print) {
		compare(r)
		c.rep.Transitions++
	}
	if a, b := digest(f.df), digest(t); a != b {
		failf("%s was changed by operations that do not write: %s instead of %s\n  %s", f.name, near1(a, b), near1(b, a), strings.Join(w.log, "\n  "))
	}
	if write && !f.repeated() {
		for _, r := range c.writeOps(s) {
			compare(r)
			c.rep.Transitions++
		}
		for _, r := range c.sameOps(s, false)[:4] {
			compare(r)
			c.rep.Transitions++
		}
	}
}

// near1 shows a where it first differs from b.
func near1(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from, to := i-80, i+120
	if from < 0 {
		from = 0
	}
	if to > len(a) {
		to = len(a)
	}
	return "..." + a[from:to]
}

func runC35(c *Ctx) {
	sched.SetNumCPU(2)
	every := func(write bool) func(w *world) {
		return func(w *world) {
			fs := w.pick(1)
			for i := len(fs) - 1; i >= 0; i-- {
				c.metamorphic(w, fs[i], write && i == len(fs)-1, len(w.frames) < 3)
			}
		}
	}
	gen := func(w *world, d int) []op {
		var l []op
		for _, f := range w.pick(1) {
			n := len(f.rows)
			l = append(l, w.someRows(f)...)
			l = append(l, w.someCols(f)...)
			l = append(l, w.opCopy(f), w.opDetached(f), w.opReset(f))
			l = append(l, w.hashes(f)...)
			if f.deriv && f.derived == 0 {
				l = append(l, w.opUnshare(f))
			}
			if n > 0 && d == 1 {
				l = append(l, w.writes(f, false)...)
			}
			if sameColumns([]*frame{f, f}) && n < 9 {
				l = append(l, w.opRowConcat(f, f))
			}
			if f.restructurable() {
				l = append(l, w.restructurings(f, false)...)
			}
		}
		return append(l, w.joins(2, ccView, ccCopy, ccSmart)...)
	}
	depth := 2
	if c.thorough {
		depth = 3
	}
	roots := []root{rootOf(4, allTypes), rootOf(12, "f1:f i1:i"), rootOf(3, "s1:s i1:i"), rootOf(1, "f1:f b1:b s1:s"), rootOf(0, "f1:f s1:s"), twoRoots(3, "f1:f i1:i", "s1:s b1:b")}
	c.Tree("histories, then every operation", roots, treeOpt{depth: depth, noProbe: true, extra: every(true)}, gen)
	narrow := func(w *world, d int) []op {
		f := w.last()
		n := len(f.rows)
		l := []op{w.opReverse(f), w.opShallow(f), w.opCopy(f), w.opDetached(f)}
		if n > 1 {
			l = append(l, w.opSlice(f, 1, -1), w.opIndex(f, append(seq(n), 0)), w.opIndex(f, inner(n)))
		}
		if ns := f.names(); len(ns) > 1 {
			l = append(l, w.opColumnView(f, ns[1:]...))
			if f.restructurable() {
				l = append(l, w.opDrop(f, ns[0]), w.opRename(f, ns[0], "zz"), w.opAlloc(f, 'f', ns[0]))
			}
		}
		l = append(l, w.hashes(f)...)
		return l
	}
	c.Tree("longer histories of the last dataframe, then every operation", []root{rootOf(4, "f1:f i1:i s1:s"), rootOf(3, "b1:b f1:f")}, treeOpt{depth: depth + 1, noProbe: true, extra: func(w *world) {
		f := w.last()
		c.metamorphic(w, f, true, false)
	}}, narrow)
	dense, max := 24, 257
	if c.thorough {
		dense, max = 70, 1025
	}
	c.scaleOpt("every row count, then every operation", dense, max, treeOpt{depth: 1, noProbe: true, extra: every(true)}, (*world).everySharing)
	var wide []root
	for _, k := range columnCounts(12, 33) {
		wide = append(wide, wideRoot(5, k))
	}
	c.Tree("every column count, then every operation", wide, treeOpt{depth: 1, noProbe: true, extra: every(true)}, narrow)
}

// ---- C36 ---------------------------------------------------------------------------

// request is one that must be refused.
type request struct {
	name    string
	refused func() bool
}

// badNames: names that are none of the columns, some of them close to one.
func (f *frame) badNames() []string {
	var l []string
	cand := []string{"nope", ""}
	if ns := f.names(); len(ns) > 0 {
		cand = append(cand, ns[0]+" ", strings.ToUpper(ns[len(ns)-1]), ns[0][:len(ns[0])-1])
	}
	// columns that other dataframes have
	for _, n := range []string{"f1", "i1", "b1", "s1", "o1", "new", "ren"} {
		cand = append(cand, n)
	}
	seen := map[string]bool{}
	for _, n := range cand {
		if f.cols[n] == nil && !seen[n] {
			seen[n] = true
			l = append(l, n)
		}
	}
	return l
}

func (c *Ctx) badRequests(w *world, f *frame) []request {
	var l []request
	df := f.df
	n := len(f.rows)
	pan := func(name string, g func()) {
		l = append(l, request{name, func() bool { return mustPanic(g) }})
	}
	fails := func(name string, g func() error) {
		l = append(l, request{name, func() bool { return g() != nil }})
	}
	access := func(name string, has map[byte]bool) {
		if !has['f'] {
			pan(spf("Floats(%q)", name), func() { df.Floats(name) })
		}
		if !has['i'] {
			pan(spf("Ints(%q)", name), func() { df.Ints(name) })
		}
		if !has['b'] {
			pan(spf("Bools(%q)", name), func() { df.Bools(name) })
		}
		if !has['o'] {
			pan(spf("Objects(%q)", name), func() { df.Objects(name) })
		}
		if !has['s'] {
			pan(spf("Strings(%q)", name), func() { df.Strings(name) })
			pan(spf("LabelToInt(%q)", name), func() { df.LabelToInt(name) })
		}
		if !has['f'] && !has['i'] && !has['b'] {
			pan(spf("SortedView(%q)", name), func() { df.SortedView(name) })
			for _, k := range []int{0, 1, n, n + 1} {
				k := k
				for mode := 0; mode < 4; mode++ {
					mode := mode
					pan(spf("TopView(%q,%d,%v,%v)", name, k, mode&1 == 1, mode&2 == 2), func() { df.TopView(name, k, mode&1 == 1, mode&2 == 2) })
				}
			}
			if n > 0 {
				pan(spf("DenseMatrix of %q", name), func() { dataframe.NewDense64Batching([]string{name}).DenseMatrix(df) })
			}
		}
	}
	for _, name := range f.names() {
		k := f.cols[name]
		access(name, map[byte]bool{k.kind: true, 's': k.kind == kO && k.str})
		if k.kind != kO {
			for mode := 0; mode < 4; mode++ {
				mode := mode
				name := name
				pan(spf("TopView(%q,-1,%v,%v)", name, mode&1 == 1, mode&2 == 2), func() { df.TopView(name, -1, mode&1 == 1, mode&2 == 2) })
			}
		}
	}
	for _, name := range f.badNames() {
		name := name
		access(name, nil)
		pan(spf("CopyValuesToInterfaces(%q)", name), func() { df.CopyValuesToInterfaces(name) })
		if f.restructurable() {
			pan(spf("Rename(%q)", name), func() { df.Rename(name, "renamed") })
		}
		pan(spf("View().Rename(%q)", name), func() { df.View().Rename(name, "renamed") })
	}
	for _, k := range []int{1, 2, 100} {
		k := k
		pan(spf("SampleView(n+%d)", k), func() { df.SampleView(n+k, false) })
	}
	for _, k := range []int{0, 1, n} {
		k := k
		if k <= n {
			pan(spf("SampleView(%d, replacement)", k), func() { df.SampleView(k, true) })
		}
	}
	for _, k := range []int{0, -1, -2, -n - 1, math.MinInt64} {
		k := k
		pan(spf("SplitView(%d)", k), func() { df.SplitView(k) })
		if k < 0 {
			pan(spf("SplitNView(%d)", k), func() { df.SplitNView(k) })
		}
	}
	for _, r := range []float64{-1e-9, -1, 1.0000001, 2, math.Inf(1), math.Inf(-1)} {
		r := r
		pan(spf("SplitTrainTestViews(%v)", r), func() { df.SplitTrainTestViews(r) })
	}
	fails("RowConcat()", func() error { _, err := dataframe.RowConcat(); return err })
	fails("ColumnConcatView()", func() error { _, err := dataframe.ColumnConcatView(); return err })
	fails("ColumnCopyConcat()", func() error { _, err := dataframe.ColumnCopyConcat(); return err })
	fails("ColumnSmartConcat()", func() error { _, err := dataframe.ColumnSmartConcat(); return err })
	columns := func(name string, dfs ...*dataframe.DataFrame) {
		fails("ColumnConcatView"+name, func() error { _, err := dataframe.ColumnConcatView(dfs...); return err })
		fails("ColumnCopyConcat"+name, func() error { _, err := dataframe.ColumnCopyConcat(dfs...); return err })
		fails("ColumnSmartConcat"+name, func() error { _, err := dataframe.ColumnSmartConcat(dfs...); return err })
	}
	if len(f.cols) > 0 {
		columns(spf("(%s,%s)", f.name, f.name), df, df)
		columns(spf("(%s,%s.ReverseView())", f.name, f.name), df, df.ReverseView())
		fails("CheckNoColumnOverlap", func() error { return dataframe.CheckNoColumnOverlap([]*dataframe.DataFrame{df, df.View()}) })
		if n > 0 {
			h := df.SliceView(1, n)
			for i, name := range f.names() {
				h.Rename(name, fmt.Sprint("other ", i))
			}
			columns(spf("(%s, fewer rows)", f.name), df, h)
			columns(spf("(fewer rows, %s)", f.name), h, df)
		}
		for _, name := range f.names() {
			v := df.View()
			v.Drop(name)
			u := df.View()
			u.Rename(name, "renamed")
			t := df.View()
			switch f.cols[name].kind {
			case kF:
				t.AllocInts(name)
			case kI:
				t.AllocBools(name)
			case kB:
				t.AllocFloats(name)
			default:
				t.AllocFloats(name)
			}
			for k, o := range []*dataframe.DataFrame{v, u, t} {
				o := o
				what := []string{"without", "renaming", "retyping"}[k]
				fails(spf("RowConcat(%s, %s %s)", f.name, what, name), func() error { _, err := dataframe.RowConcat(df, o); return err })
				fails(spf("RowConcat(%s %s, %s)", what, name, f.name), func() error { _, err := dataframe.RowConcat(o, df); return err })
				fails(spf("RowConcat(%s, %s, %s %s)", f.name, f.name, what, name), func() error { _, err := dataframe.RowConcat(df, df, o); return err })
			}
		}
	}
	for _, g := range w.pick(2) {
		g := g
		if g == f {
			continue
		}
		same := len(f.cols) == len(g.cols)
		for _, name := range f.names() {
			if g.cols[name] == nil || g.cols[name].kind != f.cols[name].kind {
				same = false
			}
		}
		if !same {
			fails(spf("RowConcat(%s,%s)", f.name, g.name), func() error { _, err := dataframe.RowConcat(df, g.df); return err })
		}
		if len(f.rows) != len(g.rows) || !sharesNoName([]*frame{f, g}) {
			columns(spf("(%s,%s)", f.name, g.name), df, g.df)
		}
		if len(f.rows) != len(g.rows) {
			for _, a := range f.ofKind(kF) {
				for _, b := range g.ofKind(kF) {
					a, b := a, b
					pan(spf("MSE(%s.%s,%s.%s)", f.name, a, g.name, b), func() { algorithms.MSE(df.Floats(a), g.df.Floats(b)) })
					pan(spf("MAE(%s.%s,%s.%s)", f.name, a, g.name, b), func() { algorithms.MAE(df.Floats(a), g.df.Floats(b)) })
				}
			}
		}
	}
	return l
}

func (c *Ctx) refusals(w *world, fs []*frame) {
	for _, f := range fs {
		for _, r := range c.badRequests(w, f) {
			c.rep.Transitions++
			if !r.refused() {
				failf("%s: %s is not refused\n  %s", f.name, r.name, strings.Join(w.log, "\n  "))
			}
		}
	}
	w.checkAll("refused requests")
}

func runC36(c *Ctx) {
	sched.SetNumCPU(2)
	gen := func(w *world, d int) []op {
		var l []op
		for _, f := range w.pick(1) {
			n := len(f.rows)
			l = append(l, w.someRows(f)...)
			l = append(l, w.someCols(f)...)
			l = append(l, w.opCopy(f), w.opDetached(f), w.opReset(f))
			l = append(l, w.hashes(f)...)
			if f.deriv && f.derived == 0 {
				l = append(l, w.opUnshare(f))
			}
			if sameColumns([]*frame{f, f}) && n < 9 {
				l = append(l, w.opRowConcat(f, f))
			}
			if f.restructurable() {
				l = append(l, w.restructurings(f, false)...)
			}
		}
		return append(l, w.joins(2, ccView, ccCopy, ccSmart)...)
	}
	depth := 2
	if c.thorough {
		depth = 3
	}
	refuse := func(w *world) {
		fs := w.pick(1)
		c.refusals(w, fs)
	}
	roots := []root{rootOf(4, allTypes), rootOf(12, "f1:f i1:i"), rootOf(3, "s1:s i1:i"), rootOf(1, "f1:f b1:b s1:s"), rootOf(0, "f1:f s1:s"), twoRoots(3, "f1:f i1:i", "s1:s b1:b")}
	c.Tree("histories, then every request", roots, treeOpt{depth: depth, extra: refuse}, gen)
	c.scaleOpt("every row count, then every request", 24, 257, treeOpt{depth: 1, extra: refuse}, (*world).everySharing)
	c.Unit("builders")
	// columns of different sizes
	lens := []int{0, 1, 2, 5}
	for a := 0; a < 5; a++ {
		for b := 0; b < 5; b++ {
			for _, x := range lens {
				for _, y := range lens {
					for form := 0; form < 3; form++ {
						a, b, x, y, form := a, b, x, y, form
						c.Case(fmt.Sprintf("%c%d %c%d form %d", fibso[a], x, fibso[b], y, form), func() {
							bd := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
							put := func(name string, t byte, n int) {
								switch t {
								case 'f':
									bd.SetFloats(name, make([]float64, n))
								case 'i':
									bd.SetInts(name, make([]int, n))
								case 'b':
									bd.SetBools(name, make([]bool, n))
								default:
									bd.SetObjects(name, make([]interface{}, n))
									if t == 's' {
										bd.MarkAsString(name)
									}
								}
							}
							put("x", fibso[a], x)
							put("y", fibso[b], y)
							var df *dataframe.DataFrame
							refused := mustPanic(func() {
								switch form {
								case 0:
									df = bd.ToDataFrame()
								case 1:
									df = bd.RawData.ToDataFrame()
								default:
									raw := dataframe.MergeRawDataColumns([]*dataframe.RawData{bd.RawData})
									df = raw.ToDataFrame()
								}
							})
							if refused != (x != y) {
								failf("columns of %d and %d rows: refused=%v", x, y, refused)
							}
							if !refused {
								check(df.NumRows() == x && df.NumColumns() == 2, "%d rows and %d columns", df.NumRows(), df.NumColumns())
							}
							// repairing the column makes it acceptable
							put("y", fibso[b], x)
							check(bd.ToDataFrame().NumRows() == x, "the repaired data has not %d rows", x)
						})
					}
				}
			}
		}
	}
}
