//go:build go1.21

package main

import (
	"errors"
	"fmt"
	"io"
	"math/bits"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"github.com/rom1mouret/ml-essentials/zzverif/sched"
)

func init() {
	props["C14"] = propDef{run: runC14}
	props["C15"] = propDef{run: runC15, race: true}
	props["C16"] = propDef{run: runC16, race: true}
}

// ---- digests -----------------------------------------------------------------------
// They run within goroutines whose ordering is under test, so they stay away
// from anything that synchronizes (such as fmt's pool).

func digestVal(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case string:
		return strconv.Quote(x)
	case int:
		return strconv.Itoa(x)
	case bool:
		return strconv.FormatBool(x)
	case float64:
		return strconv.FormatFloat(x, 'g', -1, 64)
	case *obj:
		if x == nil {
			return "no obj"
		}
		return "obj" + strconv.Itoa(x.N)
	}
	return "?"
}

// digestCols renders every column: kind, name, values in row order.
func digestCols(df *dataframe.DataFrame) map[string]string {
	m := map[string]string{}
	str := map[string]bool{}
	for _, n := range df.StringHeader().NameList() {
		str[n] = true
	}
	put := func(n string, kind string, size int, get func(i int) interface{}) {
		var b strings.Builder
		b.WriteString(kind)
		for i := 0; i < size; i++ {
			b.WriteByte(' ')
			b.WriteString(digestVal(get(i)))
		}
		if _, ok := m[n]; ok {
			b.WriteString(" TWICE")
		}
		m[n] = b.String()
	}
	for _, n := range df.IntHeader().NameList() {
		a := df.Ints(n)
		put(n, "int", a.Size(), func(i int) interface{} { return a.Get(i) })
	}
	for _, n := range df.FloatHeader().NameList() {
		a := df.Floats(n)
		put(n, "float", a.Size(), func(i int) interface{} { return a.Get(i) })
	}
	for _, n := range df.BoolHeader().NameList() {
		a := df.Bools(n)
		put(n, "bool", a.Size(), func(i int) interface{} { return a.Get(i) })
	}
	for _, n := range df.ObjectHeader().NameList() {
		a := df.Objects(n)
		k := "object"
		if str[n] {
			k = "string"
		}
		put(n, k, a.Size(), func(i int) interface{} { return a.Get(i) })
	}
	return m
}

func joinMap(m map[string]string) string {
	var l []string
	for k, v := range m {
		l = append(l, strconv.Quote(k)+"="+v)
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

func digest(df *dataframe.DataFrame) string {
	if df == nil {
		return "no dataframe"
	}
	return strconv.Itoa(df.NumRows()) + " rows: " + joinMap(digestCols(df))
}

func digests(dfs ...*dataframe.DataFrame) string {
	var l []string
	for _, d := range dfs {
		l = append(l, digest(d))
	}
	return strings.Join(l, " || ")
}

// digestEncoded renders the result of a one-hot encoding regardless of how the
// new columns of a category are numbered and of the order of the rows.
func digestEncoded(df *dataframe.DataFrame, newCols []string) string {
	if df == nil {
		return "no dataframe"
	}
	m := digestCols(df)
	var hot []string
	for _, n := range newCols {
		base := n
		if i := strings.LastIndex(n, "_"); i >= 0 {
			base = n[:i]
		}
		hot = append(hot, base+":"+m[n])
		delete(m, n)
	}
	sort.Strings(hot)
	return joinMap(m) + " hot: " + strings.Join(hot, ", ")
}

func digestRaw(raw *dataframe.RawData) string {
	if raw == nil {
		return "no data"
	}
	return digest(raw.ToDataFrame())
}

func floatMap(m map[string]float64) string {
	s := map[string]string{}
	for k, v := range m {
		s[k] = digestVal(v)
	}
	return joinMap(s)
}

func errStr(err error) string {
	if err == nil {
		return "ok"
	}
	return "error"
}

// ---- the operations that use worker goroutines ----------------------------------------

type parOp struct {
	name string
	jobs int
	// prepare, then run once per execution. The returned text describes all that
	// the caller can observe.
	run func(w *world, cpu int, form selOp) string
	// the result legitimately depends on the order of maps
	anyOrder bool
	formless bool
}

var nameSets = [][]string{{"a", "b", "c", "d"}, {"", "x y", "é\n", "\"q"}}

type failingWriter struct{ after int }

func (f *failingWriter) Write(p []byte) (int, error) {
	if f.after -= len(p); f.after < 0 {
		return 0, errors.New("disk full")
	}
	return len(p), nil
}

func (c *Ctx) parOps(k int, names []string) []parOp {
	var l []parOp
	cols := names[:k]
	rows := 3
	strCols := func(extra bool) []tcol {
		var t []tcol
		for j, n := range cols {
			vals := []interface{}{"u", nil, "v", "u"}
			t = append(t, tcol{n, 's', vals[j%2:]})
		}
		if extra {
			t = append(t, tcol{"id", 'd', intVals(0)}, tcol{"f", 'f', floatVals(0.5, 2)})
		}
		return t
	}
	floatCols := func() []tcol {
		t := []tcol{{"id", 'd', intVals(0)}, {"s", 's', []interface{}{"u"}}}
		for j, n := range cols {
			t = append(t, tcol{n, 'f', floatVals([]float64{1, 4, 2.5, -3, 0}[j:]...)})
		}
		return t
	}
	gappy := func() []tcol {
		t := floatCols()
		for j := range t {
			if t[j].typ == 'f' {
				v := append([]interface{}{}, t[j].vals...)
				v[j%2] = nan()
				t[j].vals = v
			}
		}
		return t
	}
	// the category 7 is the most frequent one
	intCols := func(unknown int) []tcol {
		t := []tcol{{"idf", 'f', floatVals(0, 1, 2, 3, 4, 5, 6)}, {"f", 'f', floatVals(2, 1)}}
		for j, n := range cols {
			v := intVals(7, 7, 7, 5, -1)
			if unknown>>uint(j)&1 == 1 {
				v = intVals(7, 7, 99, 7, 5)
			}
			t = append(t, tcol{n, 'i', v})
		}
		return t
	}
	in := func(w *world, n, cpu int, form selOp, t []tcol) *dataframe.DataFrame {
		f := w.table(n, t...)
		f.df.SetMaxCPU(cpu)
		form.do(w, f)
		return w.last().df
	}
	add := func(name string, anyOrder bool, run func(w *world, cpu int, form selOp) string) {
		l = append(l, parOp{name: name, jobs: k, run: run, anyOrder: anyOrder})
	}
	add("hashing strings", false, func(w *world, cpu int, form selOp) string {
		df := in(w, rows, cpu, form, strCols(true))
		return digests(df.HashStringsView(cols...), df)
	})
	if k > 0 {
		add("hashing all the columns", false, func(w *world, cpu int, form selOp) string {
			df := in(w, rows, cpu, selOp{"", func(w *world, f *frame) {}}, strCols(false))
			return digests(df.HashStringsView(cols...), df)
		})
	}
	add("hash encoder", false, func(w *world, cpu int, form selOp) string {
		df := in(w, rows, cpu, form, strCols(true))
		h := preprocessing.NewHashEncoder(preprocessing.HashEncoderOptions{})
		e1 := h.Fit(df)
		r, e2 := h.TransformView(df)
		return errStr(e1) + errStr(e2) + digests(r, df)
	})
	for oi, o := range []preprocessing.ScalerOptions{{Centering: true, Scaling: true}, {MinMax: true}, {Scaling: true}, {Centering: true}, {}} {
		o := o
		add(fmt.Sprintf("scaler %d", oi), false, func(w *world, cpu int, form selOp) string {
			df := in(w, rows, cpu, form, floatCols())
			s := preprocessing.NewScaler(o)
			e1 := s.Fit(df)
			d := floatMap(s.Shift) + floatMap(s.Scale)
			e2 := s.TransformInplace(df)
			d += digest(df)
			e3 := s.InverseTransformInplace(df)
			return d + errStr(e1) + errStr(e2) + errStr(e3) + digest(df)
		})
	}
	for p := 0; p < 3; p++ {
		p := p
		add(fmt.Sprintf("imputer %d", p), false, func(w *world, cpu int, form selOp) string {
			df := in(w, rows, cpu, form, gappy())
			s := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: []preprocessing.ImputingPolicy{preprocessing.Mean, preprocessing.Zero, preprocessing.One}[p]})
			e1 := s.Fit(df)
			d := floatMap(s.Fallback)
			e2 := s.TransformInplace(df)
			return d + errStr(e1) + errStr(e2) + digest(df)
		})
	}
	for pi, p := range [][2]preprocessing.CategoryPolicy{{preprocessing.ReturnError, preprocessing.ReturnError}, {preprocessing.SeparateCategory, preprocessing.SeparateCategory},
		{preprocessing.SeparateCategoryIfSeen, preprocessing.SharedSeparateCategory}, {preprocessing.ImputeWithMostFrequent, preprocessing.ImputeWithMostFrequent}} {
		for unknown := 0; unknown < 1<<uint(k); unknown++ {
			if unknown > 1 && unknown < 1<<uint(k)-1 && pi > 0 {
				continue
			}
			for keep := 0; keep < 2; keep++ {
				if keep == 1 && (pi != 1 || unknown > 0) {
					continue
				}
				p, unknown, keep := p, unknown, keep
				add(fmt.Sprintf("one-hot policies %d unknown %b keep %d", pi, unknown, keep), false, func(w *world, cpu int, form selOp) string {
					df := in(w, 5, cpu, form, intCols(0))
					e := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: p[0], UnknownPolicy: p[1], KeepUsedColumns: keep == 1})
					e1 := e.Fit(df)
					te := in(w, 4, cpu, form, intCols(unknown))
					r, e2 := e.TransformView(te)
					res := errStr(e1) + errStr(e2) + digestEncoded(r, e.NewColumns) + digests(df, te)
					r, e2 = e.TransformView(df)
					return res + errStr(e2) + digestEncoded(r, e.NewColumns)
				})
			}
		}
	}
	for oi, o := range autoOpts() {
		o := o
		add(fmt.Sprintf("auto preprocessor %d", oi), false, func(w *world, cpu int, form selOp) string {
			t := gappy()
			t[1].vals = []interface{}{"u", "u", "u", "v"}
			df := in(w, 4, cpu, form, t)
			a := preprocessing.NewAutoPreprocessor(o)
			r1 := a.FitTransform(df)
			var hot []string
			if a.IntToBool != nil {
				hot = a.IntToBool.NewColumns
			}
			d := digestEncoded(r1, hot)
			b := preprocessing.NewAutoPreprocessor(o)
			e1 := b.Fit(df)
			r2, e2 := b.TransformView(df)
			if b.IntToBool != nil {
				hot = b.IntToBool.NewColumns
			}
			return d + errStr(e1) + errStr(e2) + digestEncoded(r2, hot) + digest(df)
		})
	}
	if k > 0 {
		add("regressor", true, func(w *world, cpu int, form selOp) string {
			t := append(floatCols(), tcol{"target", 'f', floatVals(1, 0, 2, 5)}, tcol{"bool", 'b', []interface{}{true, false}})
			df := in(w, 4, cpu, form, t)
			reg := algorithms.NewLinearRegressor()
			sched.ResetRand()
			e1 := reg.Fit(df, "target", algorithms.LinRegTrainParams{Epochs: 2, LR: 0.01, BatchSize: 3, Momentum: 0.5, WeightDecay: 0.1})
			ws := map[string]string{}
			for i, f := range reg.Features {
				ws[f] = digestVal(reg.Weights[i])
			}
			r, e2 := reg.Predict(df, "pred")
			return errStr(e1) + errStr(e2) + joinMap(ws) + digests(r, df)
		})
	}
	// CSV reading
	csvText := func(from, n int) string {
		var b strings.Builder
		for j, nm := range append(append([]string{}, cols...), "last") {
			if j > 0 {
				b.WriteByte(',')
			}
			b.WriteString(quoteCSV(nm))
		}
		b.WriteByte('\n')
		for i := from; i < from+n; i++ {
			for j := range cols {
				b.WriteString([]string{strconv.Itoa(i*10 + 3), "t" + strconv.Itoa(i), strconv.FormatBool(i%2 == 0), strconv.Itoa(i) + ".5"}[j%4])
				b.WriteByte(',')
			}
			b.WriteString("z\n")
		}
		return b.String()
	}
	csv := func(name string, cut func(s string) string, spec dataframe.CSVReadingSpec) {
		l = append(l, parOp{name: name, jobs: k, formless: true, run: func(w *world, cpu int, form selOp) string {
			spec.MaxCPU = cpu
			raw, err := dataframe.FromCSV(strings.NewReader(cut(csvText(0, rows))), spec)
			return errStr(err) + digestRaw(raw)
		}})
	}
	same := func(s string) string { return s }
	csv("reading CSV", same, dataframe.CSVReadingSpec{MissingValues: []string{"t1", "3"}})
	csv("reading CSV without the last column", same, dataframe.CSVReadingSpec{Exclude: []string{"last"}})
	csv("reading CSV without any column", same, dataframe.CSVReadingSpec{Exclude: append([]string{"last"}, cols...)})
	csv("reading CSV without rows", func(s string) string { return csvText(0, 0) }, dataframe.CSVReadingSpec{})
	csv("reading ragged CSV", func(s string) string { return s + "1\n" }, dataframe.CSVReadingSpec{})
	csv("reading an empty file", func(s string) string { return "" }, dataframe.CSVReadingSpec{})
	// several files
	for bad := -1; bad < k; bad++ {
		for _, missingCol := range []bool{false, true} {
			if missingCol && (bad < 1) {
				continue
			}
			bad, missingCol := bad, missingCol
			dir := ""
			l = append(l, parOp{name: fmt.Sprintf("reading files, bad %d %v", bad, missingCol), jobs: k, formless: true, run: func(w *world, cpu int, form selOp) string {
				if dir == "" {
					dir = c.tmpDir()
					for i := 0; i < k; i++ {
						text := fmt.Sprintf("x,y\n%d.5,s%d\n%d.25,u\n", i, i, i)
						if i == bad && !missingCol {
							text += "1,2,3\n"
						}
						if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("p%d.csv", i)), []byte(text), 0o600); err != nil {
							panic("harness: " + err.Error())
						}
					}
				}
				spec := dataframe.CSVReadingSpec{MaxCPU: cpu}
				path := filepath.Join(dir, "p*.csv")
				raw, err := dataframe.FromCSVFilePattern(path, spec)
				if raw == nil {
					return errStr(err) + " nothing"
				}
				// the order of the rows is free
				df := raw.ToDataFrame()
				x, y := df.Floats("x"), df.Strings("y")
				var rs []string
				for i := 0; i < x.Size(); i++ {
					rs = append(rs, digestVal(x.Get(i))+y.Get(i))
				}
				sort.Strings(rs)
				return errStr(err) + strings.Join(rs, " ")
			}})
		}
	}
	// CSV writing
	if k > 0 {
		for bad := -1; bad < k; bad++ {
			bad := bad
			add(fmt.Sprintf("writing CSV, bad %d", bad), false, func(w *world, cpu int, form selOp) string {
				df := in(w, 5, cpu, form, []tcol{{"id", 'd', intVals(0)}, {"s", 's', []interface{}{"a", nil}}, {"f", 'f', floatVals(1, 2.5)}})
				bufs := make([]*strings.Builder, k)
				ws := make([]io.Writer, k)
				for i := range ws {
					bufs[i] = &strings.Builder{}
					ws[i] = bufs[i]
					if i == bad {
						ws[i] = &failingWriter{}
					}
				}
				err := df.ToCSVs(ws, dataframe.CSVWritingSpec{MaintainOrder: true})
				d := errStr(err)
				for i := range bufs {
					// the order of the columns is free
					var sorted []string
					for _, line := range strings.Split(bufs[i].String(), "\n") {
						fs := strings.Split(line, ",")
						sort.Strings(fs)
						sorted = append(sorted, strings.Join(fs, ","))
					}
					d += "|" + strings.Join(sorted, "/")
				}
				return d + digest(df)
			})
		}
		dir := ""
		add("writing CSV files", false, func(w *world, cpu int, form selOp) string {
			if dir == "" {
				dir = c.tmpDir()
			}
			df := in(w, 4, cpu, form, []tcol{{"id", 'd', intVals(0)}})
			paths, err := df.ToCSVDir(dataframe.CSVWritingSpec{MinRowsPerFile: 4 / k}, filepath.Join(dir, "w"))
			d := errStr(err)
			var got []string
			for _, p := range paths {
				b, err := os.ReadFile(p)
				if err != nil {
					d += "unreadable"
				}
				got = append(got, strings.Split(strings.TrimSpace(string(b)), "\n")[1:]...)
			}
			sort.Strings(got)
			return d + strings.Join(got, " ") + digest(df)
		})
		for bad := 0; bad < k; bad++ {
			bad := bad
			add(fmt.Sprintf("writing CSV files, bad %d", bad), false, func(w *world, cpu int, form selOp) string {
				if dir == "" {
					dir = c.tmpDir()
				}
				df := in(w, 4, cpu, form, []tcol{{"id", 'd', intVals(0)}})
				var paths []string
				for i := 0; i < k; i++ {
					p := filepath.Join(dir, fmt.Sprintf("o%d.csv", i))
					if i == bad {
						p = filepath.Join(dir, "nowhere", "o.csv")
					}
					paths = append(paths, p)
				}
				return errStr(df.ToCSVFiles(dataframe.CSVWritingSpec{}, paths...)) + digest(df)
			})
		}
	}
	return l
}

func nan() float64 { z := 0.0; return z / z }

func plainForm() selOp { return selOp{"as is", func(w *world, f *frame) {}} }

func reverseForm() selOp {
	return selOp{"reversed", func(w *world, f *frame) { w.opReverse(f).do() }}
}

// levelsFor chooses how far the interleavings are explored.
func (c *Ctx) levelsFor(workers int) ([]Level, int) {
	if workers <= 1 {
		return []Level{{"all interleavings", func(e *sched.Explorer) { e.Bound[sched.KSched] = -1 }}}, 0
	}
	if c.thorough {
		return interleavings(1, 5), 60000
	}
	return interleavings(1, 5), c.quickCap
}

func runC14(c *Ctx) {
	c.quickCap = 1500
	sched.SetNumCPU(4)
	maxK := 3
	if c.thorough {
		maxK = 4
	}
	c.Unit("every operation, interleavings")
	for ni, names := range nameSets {
		for k := 0; k <= maxK; k++ {
			for _, p := range c.parOps(k, names) {
				for cpu := 1; cpu <= 3; cpu++ {
					for fi, form := range []selOp{plainForm(), reverseForm()} {
						if fi == 1 && (p.formless || ni == 1) || cpu > k+1 {
							continue
						}
						p, cpu, form := p, cpu, form
						workers := cpu
						if k < cpu {
							workers = k
						}
						levels, max := c.levelsFor(workers)
						c.Deepen(fmt.Sprintf("%s, names %d, %d jobs, cpu %d, %s", p.name, ni, k, cpu, form.name), levels, max, nil, func() {
							p.run(newWorld(), cpu, form)
						})
					}
				}
			}
		}
	}
	c.Unit("every operation, CPU settings")
	for k := 0; k <= 4; k++ {
		for ni, names := range nameSets {
			for _, p := range c.parOps(k, names) {
				for _, ncpu := range []int{1, 2, 3, 4, 8, 64} {
					for cpu := -1; cpu <= 9; cpu++ {
						p, cpu, ncpu := p, cpu, ncpu
						id := ""
						if c.only != "" || c.counter%c.of == c.shard {
							id = fmt.Sprintf("settings %s names %d, %d jobs, %d cpu of %d", p.name, ni, k, cpu, ncpu)
						}
						c.Case(id, func() {
							sched.SetNumCPU(ncpu)
							defer sched.SetNumCPU(4)
							p.run(newWorld(), cpu, plainForm())
						})
					}
				}
			}
		}
	}
	c.Unit("many files and columns")
	dir := ""
	for files := 1; files <= 20; files++ {
		for cpu := 1; cpu <= 20; cpu++ {
			files, cpu := files, cpu
			c.Case(fmt.Sprintf("%d files %d cpu", files, cpu), func() {
				sched.SetNumCPU(32)
				defer sched.SetNumCPU(4)
				if dir == "" {
					dir = c.tmpDir()
					for i := 0; i < 20; i++ {
						for j := i; j < 20; j++ {
							if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("s%d-%d.csv", j+1, i)), []byte("a,b,c\n1.5,x,true\n"), 0o600); err != nil {
								panic("harness: " + err.Error())
							}
						}
					}
				}
				raw, err := dataframe.FromCSVFilePattern(filepath.Join(dir, fmt.Sprintf("s%d-*.csv", files)), dataframe.CSVReadingSpec{MaxCPU: cpu})
				check(err == nil, "reading fails: %v", err)
				check(raw.ToDataFrame().NumRows() == files, "%d rows", raw.ToDataFrame().NumRows())
			})
		}
	}
	for n := 0; n <= 40; n++ {
		for _, cpu := range []int{1, 2, 5, 16, 31} {
			n, cpu := n, cpu
			many := func(what string, run func(df *dataframe.DataFrame, names []string)) {
				c.Case(fmt.Sprintf("%s: %d columns %d cpu", what, n, cpu), func() {
					sched.SetNumCPU(32)
					defer sched.SetNumCPU(4)
					w := newWorld()
					ts := []tcol{{"id", 'd', intVals(0)}}
					var names []string
					for j := 0; j < n; j++ {
						ts = append(ts, tcol{fmt.Sprintf("s%d", j), 's', []interface{}{"u", nil}})
						ts = append(ts, tcol{fmt.Sprintf("f%d", j), 'f', floatVals(1, float64(j))})
						ts = append(ts, tcol{fmt.Sprintf("i%d", j), 'i', intVals(1, 2, 1)})
						names = append(names, fmt.Sprintf("s%d", j))
					}
					f := w.table(3, ts...)
					f.df.SetMaxCPU(cpu)
					run(f.df, names)
				})
			}
			many("hash", func(df *dataframe.DataFrame, names []string) { df.HashStringsView(names...) })
			many("scaler", func(df *dataframe.DataFrame, names []string) {
				s := preprocessing.NewScaler(preprocessing.ScalerOptions{Centering: true, Scaling: true})
				s.Fit(df)
				s.TransformInplace(df)
			})
			many("imputer", func(df *dataframe.DataFrame, names []string) {
				i := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{})
				i.Fit(df)
				i.TransformInplace(df)
			})
			many("one-hot", func(df *dataframe.DataFrame, names []string) {
				o := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{})
				o.Fit(df)
				o.TransformView(df)
			})
			if n < 20 {
				many("auto", func(df *dataframe.DataFrame, names []string) {
					p := preprocessing.NewAutoPreprocessor(preprocessing.AutoPreprocOptions{Imputing: true, Scaling: true})
					p.FitTransform(df)
				})
			}
		}
	}
}

func runC15(c *Ctx) {
	c.quickCap = 400
	sched.SetNumCPU(4)
	maxK := 3
	expect := map[string]string{}
	reference := func(key string, run func() string) string {
		if d, ok := expect[key]; ok {
			return d
		}
		d := ""
		if res := sched.Run(func() { d = run() }); resultMsg(res) != "" {
			d = "fails: " + resultMsg(res)
		}
		expect[key] = d
		return d
	}
	same := func(got, want string) {
		if got != want {
			failf("the outcome depends on the schedule or the CPU limit:\n  %s\ninstead of\n  %s", got, want)
		}
	}
	c.Unit("every operation, interleavings")
	for ni, names := range nameSets {
		for k := 1; k <= maxK; k++ {
			for _, p := range c.parOps(k, names) {
				for cpu := 1; cpu <= 3; cpu++ {
					for fi, form := range []selOp{plainForm(), reverseForm()} {
						if fi == 1 && (p.formless || ni == 1) || cpu > k+1 || ni == 1 && k != 2 {
							continue
						}
						p, cpu, form := p, cpu, form
						workers := cpu
						if k < cpu {
							workers = k
						}
						key := fmt.Sprintf("%s, names %d, %d jobs, %s", p.name, ni, k, form.name)
						id := fmt.Sprintf("%s, cpu %d", key, cpu)
						want := ""
						levels, max := c.levelsFor(workers)
						c.Deepen(id, levels, max, func(e *sched.Explorer) {
							want = reference(key, func() string { return p.run(newWorld(), 1, form) })
						}, func() {
							same(p.run(newWorld(), cpu, form), want)
						})
					}
				}
			}
		}
	}
	c.Unit("every operation, orders of the maps")
	for k := 1; k <= maxK; k++ {
		for _, p := range c.parOps(k, nameSets[0]) {
			if p.anyOrder {
				continue
			}
			for cpu := 1; cpu <= 2; cpu++ {
				p, cpu := p, cpu
				key := fmt.Sprintf("%s, names 0, %d jobs, as is", p.name, k)
				want := ""
				orders := func(n int, name string) Level {
					return Level{name, func(e *sched.Explorer) {
						e.Delay = true
						e.Bound[sched.KSched] = 0
						e.Bound[sched.KSelect] = 0
						e.Bound[sched.KMap] = n
						e.Bound[sched.KRand] = n - 1
					}}
				}
				max := 300
				if c.thorough {
					max = 30000
				}
				c.Deepen(fmt.Sprintf("map orders %s, cpu %d", key, cpu), []Level{orders(1, "1 change of order"), orders(2, "2 changes of order"), orders(3, "3 changes of order")}, max, func(e *sched.Explorer) {
					want = reference(key, func() string { return p.run(newWorld(), 1, plainForm()) })
				}, func() {
					same(p.run(newWorld(), cpu, plainForm()), want)
				})
			}
		}
	}
	c.Unit("every operation, CPU limits")
	for k := 0; k <= 4; k++ {
		for _, p := range c.parOps(k, nameSets[0]) {
			for cpu := -1; cpu <= 6; cpu++ {
				for fi, form := range []selOp{plainForm(), reverseForm()} {
					if fi == 1 && p.formless {
						continue
					}
					p, cpu, form := p, cpu, form
					c.Case(fmt.Sprintf("limits %s, %d jobs, cpu %d, %s", p.name, k, cpu, form.name), func() {
						// the outcome with one worker comes first
						a := p.run(newWorld(), 1, form)
						same(p.run(newWorld(), cpu, form), a)
					})
				}
			}
		}
	}
}

// ---- C16 ---------------------------------------------------------------------------

type reader struct {
	name string
	run  func(df *dataframe.DataFrame) string
	mask bool // needs thread-safe masking
}

// fitted components, trained on the dataframe before the readers start
type fitted struct {
	scaler  *preprocessing.Scaler
	minmax  *preprocessing.Scaler
	imputer *preprocessing.FloatImputer
	hot     *preprocessing.OneHotEncoder
	keep    *preprocessing.OneHotEncoder
	strict  *preprocessing.OneHotEncoder
	hash    *preprocessing.HashEncoder
	auto    *preprocessing.AutoPreprocessor
	reg     *algorithms.LinearRegressor
}

func (ft *fitted) train(df *dataframe.DataFrame) {
	ft.scaler = preprocessing.NewScaler(preprocessing.ScalerOptions{Centering: true, Scaling: true})
	ft.scaler.Fit(df)
	ft.minmax = preprocessing.NewScaler(preprocessing.ScalerOptions{MinMax: true})
	ft.minmax.Fit(df.ColumnView("x"))
	ft.imputer = preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{})
	ft.imputer.Fit(df)
	ft.hot = preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: preprocessing.SeparateCategoryIfSeen, UnknownPolicy: preprocessing.SharedSeparateCategory})
	ft.hot.Fit(df.ColumnView("k", "l"))
	ft.keep = preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: preprocessing.SeparateCategory, UnknownPolicy: preprocessing.SeparateCategory, KeepUsedColumns: true})
	ft.keep.Fit(df.ColumnView("k"))
	ft.strict = preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: preprocessing.ReturnError, UnknownPolicy: preprocessing.ReturnError})
	ft.strict.Fit(df.ColumnView("l"))
	ft.hash = preprocessing.NewHashEncoder(preprocessing.HashEncoderOptions{})
	ft.hash.Fit(df)
	ft.auto = preprocessing.NewAutoPreprocessor(preprocessing.AutoPreprocOptions{Imputing: true, Scaling: true, Exclude: []string{"y"}})
	if err := ft.auto.Fit(df); err != nil {
		failf("fitting fails: %v", err)
	}
	sched.ResetRand()
	ft.reg = algorithms.NewLinearRegressor()
	ft.reg.Fit(df, "y", algorithms.LinRegTrainParams{Epochs: 1, LR: 0.01, BatchSize: 4})
}

func sortRows(s string) string {
	l := strings.Fields(s)
	sort.Strings(l)
	return strings.Join(l, " ")
}

// readers lists operations that do not write to the dataframe.
func readers(ft *fitted) []reader {
	var l []reader
	add := func(name string, run func(df *dataframe.DataFrame) string) { l = append(l, reader{name, run, false}) }
	addMask := func(name string, run func(df *dataframe.DataFrame) string) { l = append(l, reader{name, run, true}) }
	grow := func(n int) []int {
		r := seq(n)
		for i := 0; i < n; i++ {
			r = append(r, n-1-i)
		}
		return append(r, 0)
	}
	add("cells", digest)
	add("row views", func(df *dataframe.DataFrame) string {
		n := df.NumRows()
		return digests(df.View(), df.ReverseView(), df.SliceView(1, n), df.SliceView(-1, 0), df.IndexView([]int{n - 1, 0}), df.ResetIndexView())
	})
	add("growing index view", func(df *dataframe.DataFrame) string {
		n := df.NumRows()
		u := df.IndexView(append(seq(n), seq(n)[:boolInt(n > 0)]...))
		v := df.IndexView(grow(n))
		return digests(u, v, v.IndexView(grow(v.NumRows())))
	})
	add("sorted views", func(df *dataframe.DataFrame) string {
		return digests(df.SortedView("x"), df.SortedView("k"), df.SortedView("b"), df.TopView("y", 2, false, true), df.TopView("k", 1, true, true))
	})
	add("splits", func(df *dataframe.DataFrame) string {
		a, b := df.SplitTrainTestViews(0.5)
		return digests(append(append(df.SplitView(2), df.SplitNView(3)...), a, b)...)
	})
	add("shuffles", func(df *dataframe.DataFrame) string {
		a, b := df.ShuffleView(), df.SampleView(df.NumRows()/2, false)
		return strconv.Itoa(a.NumRows()) + strconv.Itoa(b.NumRows()) + sortRows(digestCols(a)["id"])
	})
	add("column views", func(df *dataframe.DataFrame) string {
		v := df.ColumnView("x", "s")
		u := df.ColumnView("k", "o", "b")
		return digests(v, u, v.ReverseView())
	})
	add("restructured views", func(df *dataframe.DataFrame) string {
		v := df.View()
		v.Drop("x", "s")
		u := df.View()
		u.Rename("k", "renamed")
		u.Rename("t", "text")
		t := df.ReverseView()
		t.AllocFloats("fresh", "k")
		t.AllocStrings("sfresh")
		s := df.View()
		s.OverwriteInts("ints", make([]int, df.NumRows()))
		s.OverwriteFloats64("floats", make([]float64, df.NumRows()))
		c := df.ColumnView("k", "x")
		c.Drop("x")
		c.AllocInts("y")
		return digests(v, u, t, s, c)
	})
	add("detached views", func(df *dataframe.DataFrame) string {
		v := df.DetachedView("x", "k")
		u := df.DetachedView()
		if df.NumRows() > 0 {
			v.Floats("x").Set(0, 77)
			v.Ints("k").Set(0, 77)
			u.Floats("y").Set(0, 78)
			u.Bools("b").Set(0, !u.Bools("b").Get(0))
		}
		u.OverwriteStrings("s", strings.Split(strings.Repeat("w,", df.NumRows()), ",")[:df.NumRows()])
		return digests(v, u)
	})
	add("copies", func(df *dataframe.DataFrame) string {
		v := df.Copy()
		if v.NumRows() > 0 {
			v.Floats("x").Set(0, 55)
		}
		v.OverwriteInts("k", make([]int, v.NumRows()))
		u := df.ShallowCopy()
		u.Drop("o")
		u.AllocBools("fresh")
		return digests(v, u)
	})
	add("hashed views", func(df *dataframe.DataFrame) string {
		return digests(df.HashStringsView("s", "t"), df.HashStringsView("t"))
	})
	add("headers", func(df *dataframe.DataFrame) string {
		h := df.Header().Except("x", "nope")
		g := df.FloatHeader().And(df.IntHeader(), df.BoolHeader()).Except("k")
		e := df.ObjectHeader().ExceptHeader(df.StringHeader())
		s := df.StringHeader().And(df.ObjectHeader())
		return strings.Join(sortedCopy(append(append(append(h.NameList(), g.NameList()...), e.NameList()...), s.NameList()...)), ",") +
			strconv.Itoa(df.NumColumns()) + strconv.Itoa(df.NumRows()) + strconv.Itoa(df.NumAllocatedRows())
	})
	add("row iteration", func(df *dataframe.DataFrame) string {
		it := dataframe.NewFloat32Iterator(df, []string{"x", "k", "b"})
		var b strings.Builder
		for row, _, _ := it.NextRow(); row != nil; row, _, _ = it.NextRow() {
			for _, v := range row {
				b.WriteString(digestVal(float64(v)) + " ")
			}
		}
		it2 := dataframe.NewFloat32Iterator(df, []string{"y", "b"})
		for row, _, _ := it2.NextRow(); row != nil; row, _, _ = it2.NextRow() {
			for _, v := range row {
				b.WriteString(digestVal(float64(v)) + " ")
			}
		}
		return b.String()
	})
	add("matrices", func(df *dataframe.DataFrame) string {
		bat := dataframe.NewDense64Batching([]string{"x", "k", "b", "y"})
		var b strings.Builder
		for _, part := range df.SplitView(3) {
			m := bat.DenseMatrix(part)
			r, n := m.Dims()
			for i := 0; i < r; i++ {
				for j := 0; j < n; j++ {
					b.WriteString(digestVal(m.At(i, j)) + " ")
				}
			}
		}
		v := df.Floats("x").VecDense()
		u := df.Floats("y").VecDenseCopy()
		if u.Len() > 0 {
			u.SetVec(0, 3)
		}
		for i := 0; i < v.Len(); i++ {
			b.WriteString(digestVal(v.AtVec(i)) + " " + digestVal(u.AtVec(i)) + " ")
		}
		return b.String()
	})
	add("converted cells", func(df *dataframe.DataFrame) string {
		var b strings.Builder
		for _, n := range []string{"x", "k", "b", "s", "o"} {
			for _, v := range df.CopyValuesToInterfaces(n) {
				b.WriteString(digestVal(v) + " ")
			}
		}
		v := df.View()
		v.IntToFloats("k", "l")
		u := df.DetachedView("b")
		u.BoolToFloats("b")
		return b.String() + digests(v, u)
	})
	add("CSV", func(df *dataframe.DataFrame) string {
		var b strings.Builder
		v := df.View()
		v.Drop("o")
		err := v.To1CSV(&b, dataframe.CSVWritingSpec{})
		bufs := []*strings.Builder{{}, {}}
		err2 := v.ToCSVs([]io.Writer{bufs[0], bufs[1]}, dataframe.CSVWritingSpec{MaintainOrder: true})
		return errStr(err) + errStr(err2) + b.String() + bufs[0].String() + bufs[1].String()
	})
	add("column concatenation", func(df *dataframe.DataFrame) string {
		a := df.ColumnView("x", "s")
		b := df.ColumnView("k", "o")
		r1, err := dataframe.ColumnSmartConcat(a, b)
		r2, err2 := dataframe.ColumnCopyConcat(b, a)
		if r2 != nil {
			r2.OverwriteFloats64("x", make([]float64, r2.NumRows()))
		}
		return errStr(err) + errStr(err2) + digests(r1, r2)
	})
	add("row concatenation", func(df *dataframe.DataFrame) string {
		r, err := dataframe.RowConcat(df, df.ReverseView())
		return errStr(err) + digest(r)
	})
	addMask("masks", func(df *dataframe.DataFrame) string {
		m := df.ZeroMask()
		z := ""
		for _, b := range m {
			z += digestVal(b)
		}
		for i := range m {
			m[i] = i%2 == 0
		}
		v := df.MaskView(m)
		e := v.EmptyMask()
		for i := range e {
			e[i] = i == 0
		}
		return z + digests(v, v.MaskView(e))
	})
	addMask("masks of views", func(df *dataframe.DataFrame) string {
		v := df.IndexView(grow(df.NumRows()))
		m := v.EmptyMask()
		for i := range m {
			m[i] = i%3 != 0
		}
		u := df.ShallowCopy()
		k := u.ZeroMask()
		for i := range k {
			k[i] = i > 0
		}
		c := df.ReverseView().ColumnView("x", "k")
		n := c.ZeroMask()
		for i := range n {
			n[i] = i < 2
		}
		h := df.HashStringsView("s")
		p := h.EmptyMask()
		for i := range p {
			p[i] = true
		}
		return digests(v.MaskView(m), u.MaskView(k), c.MaskView(n), h.MaskView(p))
	})
	add("scalers", func(df *dataframe.DataFrame) string {
		v := df.DetachedView(ft.scaler.TransformedColumns()...)
		e1 := ft.scaler.TransformInplace(v)
		d := digest(v)
		e2 := ft.scaler.InverseTransformInplace(v)
		u := df.DetachedView("x")
		e3 := ft.minmax.TransformInplace(u)
		return d + errStr(e1) + errStr(e2) + errStr(e3) + digests(v, u)
	})
	add("imputer", func(df *dataframe.DataFrame) string {
		v := df.DetachedView(ft.imputer.TransformedColumns()...)
		e1 := ft.imputer.TransformInplace(v)
		return errStr(e1) + digest(v)
	})
	add("one-hot encoders", func(df *dataframe.DataFrame) string {
		a, e1 := ft.hot.TransformView(df)
		b, e2 := ft.keep.TransformView(df)
		c, e3 := ft.strict.TransformView(df)
		return errStr(e1) + errStr(e2) + errStr(e3) + digests(a, b, c)
	})
	add("hash encoder", func(df *dataframe.DataFrame) string {
		a, e1 := ft.hash.TransformView(df)
		return errStr(e1) + digest(a)
	})
	add("auto preprocessor", func(df *dataframe.DataFrame) string {
		a, e1 := ft.auto.TransformView(df)
		return errStr(e1) + digest(a) + strings.Join(sortedCopy(ft.auto.TransformedColumns()), ",")
	})
	add("predictions", func(df *dataframe.DataFrame) string {
		a, e1 := ft.reg.Predict(df, "pred")
		b, e2 := ft.reg.Predict(df, "y")
		return errStr(e1) + errStr(e2) + digests(a, b)
	})
	add("fitting", func(df *dataframe.DataFrame) string {
		s := preprocessing.NewScaler(preprocessing.ScalerOptions{Centering: true, Scaling: true})
		s.Fit(df)
		i := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{})
		i.Fit(df)
		o := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{})
		o.Fit(df)
		return floatMap(s.Shift) + floatMap(s.Scale) + floatMap(i.Fallback) + strings.Join(sortedCopy(o.NewColumns), ",")
	})
	add("auto fitting", func(df *dataframe.DataFrame) string {
		p := preprocessing.NewAutoPreprocessor(preprocessing.AutoPreprocOptions{Imputing: true, Scaling: true})
		return digest(p.FitTransform(df))
	})
	add("training", func(df *dataframe.DataFrame) string {
		r := algorithms.NewLinearRegressor()
		e := r.Fit(df, "y", algorithms.LinRegTrainParams{Epochs: 1, LR: 0.01, BatchSize: 3, LowMemory: true})
		return errStr(e) + strings.Join(sortedCopy(r.Features), ",") + floatMap(r.TargetScaler.Shift)
	})
	add("metrics", func(df *dataframe.DataFrame) string {
		return digestVal(algorithms.MAE(df.Floats("x"), df.Floats("y")))
	})
	return l
}

// typeReaders lists operations that do not write to the dataframe, whatever its
// columns are.
func typeReaders() []reader {
	var l []reader
	add := func(name string, run func(df *dataframe.DataFrame) string) { l = append(l, reader{name, run, false}) }
	add("sizes", func(df *dataframe.DataFrame) string {
		return fmt.Sprint(df.NumRows(), df.NumAllocatedRows(), df.NumColumns(), df.Header().Num(), df.AreIndicesAltered())
	})
	add("cells", digest)
	add("views", func(df *dataframe.DataFrame) string {
		n := df.NumRows()
		return digests(df.View(), df.ReverseView(), df.SliceView(1, n), df.IndexView([]int{n - 1, 0, 0}), df.ResetIndexView())
	})
	add("copies", func(df *dataframe.DataFrame) string {
		return digests(df.Copy(), df.ShallowCopy(), df.DetachedView(df.Header().NameList()...), df.DetachedView())
	})
	add("columns", func(df *dataframe.DataFrame) string {
		names := sortedCopy(df.Header().NameList())
		v := df.ColumnView(names[:1]...)
		u := df.View()
		u.Drop(names[0])
		u.AllocInts("new")
		return digests(v, u)
	})
	add("parts", func(df *dataframe.DataFrame) string {
		a, b := df.SplitTrainTestViews(0.5)
		return digests(append(append(df.SplitView(2), df.SplitNView(2)...), a, b)...)
	})
	add("shuffles", func(df *dataframe.DataFrame) string {
		return strconv.Itoa(df.ShuffleView().NumRows()) + strconv.Itoa(df.SampleView(2, false).NumRows())
	})
	add("masks", func(df *dataframe.DataFrame) string {
		m := make([]bool, df.NumRows())
		m[1] = true
		return digest(df.MaskView(m))
	})
	add("numbers", func(df *dataframe.DataFrame) string {
		names := sortedCopy(df.FloatHeader().And(df.IntHeader(), df.BoolHeader()).NameList())
		if len(names) == 0 {
			return ""
		}
		var b strings.Builder
		it := dataframe.NewFloat32Iterator(df, names)
		for row, _, _ := it.NextRow(); row != nil; row, _, _ = it.NextRow() {
			for _, v := range row {
				b.WriteString(digestVal(float64(v)) + " ")
			}
		}
		m := dataframe.NewDense64Batching(names).DenseMatrix(df)
		for i, n := 0, df.NumRows(); i < n; i++ {
			for j := range names {
				b.WriteString(digestVal(m.At(i, j)) + " ")
			}
		}
		return b.String()
	})
	add("rows", func(df *dataframe.DataFrame) string {
		r, err := dataframe.RowConcat(df, df.ReverseView())
		return errStr(err) + digest(r)
	})
	add("hashes", func(df *dataframe.DataFrame) string {
		return digest(df.HashStringsView(df.StringHeader().NameList()...))
	})
	add("CSV", func(df *dataframe.DataFrame) string {
		var b strings.Builder
		v := df.View()
		v.Drop(df.ObjectHeader().ExceptHeader(df.StringHeader()).NameList()...)
		err := v.To1CSV(&b, dataframe.CSVWritingSpec{MaintainOrder: true})
		return errStr(err) + b.String()
	})
	add("fitting", func(df *dataframe.DataFrame) string {
		s := preprocessing.NewScaler(preprocessing.ScalerOptions{Centering: true, Scaling: true})
		s.Fit(df)
		h := preprocessing.NewHashEncoder(preprocessing.HashEncoderOptions{})
		v, err := h.TransformView(df)
		return floatMap(s.Shift) + floatMap(s.Scale) + errStr(err) + digest(v)
	})
	return l
}

func runC16(c *Ctx) {
	sched.SetNumCPU(4)
	forms := append([]selOp{plainForm()}, viewForms()...)
	forms = append(forms,
		selOp{"grown", func(w *world, f *frame) {
			n := len(f.rows)
			w.opIndex(f, append(seq(n), 0)).do()
			w.opIndex(w.last(), append(seq(n+1), 0)).do()
		}},
		selOp{"shallow copy", func(w *world, f *frame) { w.opShallow(f).do() }},
		selOp{"copy", func(w *world, f *frame) { w.opReverse(f).do(); w.opCopy(w.last()).do() }},
		selOp{"restructured", func(w *world, f *frame) {
			w.opView(f).do()
			w.opDrop(w.last(), "o2").do()
			w.opAlloc(w.last(), 'f', "added").do()
		}})
	ft := &fitted{}
	rs := readers(ft)
	build := func(form selOp, cpu int, safe bool) *dataframe.DataFrame {
		w := newWorld()
		f := w.table(4, tcol{"id", 'd', intVals(0)}, tcol{"x", 'f', floatVals(1, 4, -2, 0.5)}, tcol{"y", 'f', floatVals(3, 3, 8)}, tcol{"k", 'i', intVals(7, -1, 7, 3)},
			tcol{"l", 'i', intVals(1, 2, 2)}, tcol{"b", 'b', []interface{}{true, false, false}}, tcol{"s", 's', []interface{}{"u", nil, "v"}}, tcol{"t", 's', []interface{}{"p", "q"}},
			tcol{"o", 'o', []interface{}{nil, &obj{3}}}, tcol{"o2", 'o', []interface{}{&obj{4}}})
		f.df.SetMaxCPU(cpu)
		f.df.ThreadSafeMasking(safe)
		form.do(w, f)
		ft.train(f.df)
		return w.last().df
	}
	expect := map[string]string{}
	reference := func(form selOp, r reader) string {
		key := form.name + "|" + r.name
		if d, ok := expect[key]; ok {
			return d
		}
		d := ""
		res := sched.Run(func() {
			df := build(form, 1, true)
			d = r.run(df)
		})
		if m := resultMsg(res); m != "" {
			d = "fails: " + m
		}
		expect[key] = d
		return d
	}
	together := func(form selOp, cpu int, list ...reader) {
		safe := false
		for _, r := range list {
			if want := expect[form.name+"|"+r.name]; strings.HasPrefix(want, "fails: ") {
				// some of them make no sense without rows
				check(form.name == "empty", "%s %s", r.name, want)
				return
			}
			safe = safe || r.mask
		}
		df := build(form, cpu, safe)
		before := digest(df)
		got := make([]string, len(list))
		var wg sched.WG
		wg.Add(len(list))
		for i := range list {
			i := i
			sched.Go("reader", func() {
				defer wg.Add(-1)
				got[i] = list[i].run(df)
			})
		}
		wg.Wait()
		for i, r := range list {
			if want := expect[form.name+"|"+r.name]; got[i] != want {
				failf("%s gives\n  %s\ninstead of\n  %s", r.name, got[i], want)
			}
		}
		check(digest(df) == before, "the dataframe was modified: %s instead of %s", digest(df), before)
	}
	c.Unit("pairs of readers")
	for fi, form := range forms {
		for i := range rs {
			for j := i; j < len(rs); j++ {
				fi, form, a, b := fi, form, rs[i], rs[j]
				id := ""
				if c.only != "" || c.counter%c.of == c.shard {
					id = fmt.Sprintf("%s: %s with %s", form.name, a.name, b.name)
				}
				max, last := 40, 4
				if fi == 0 && i == j {
					max = 1000
				} else if fi > 0 && i != j {
					last = 0
				}
				if c.thorough {
					max, last = 1000, 4
				}
				c.Deepen(id, interleavings(0, last), max, func(e *sched.Explorer) {
					reference(form, a)
					reference(form, b)
				}, func() {
					together(form, 1+fi%2, a, b)
				})
			}
		}
	}
	c.Unit("pairs of readers of columns of few types")
	trs := typeReaders()
	for types := 1; types < 32; types++ {
		for _, form := range forms {
			switch form.name {
			case "empty", "grown", "restructured":
				continue
			}
			if n := bits.OnesCount(uint(types)); n > 1 && !c.thorough && form.name != forms[0].name {
				continue
			}
			make1 := func(cpu int) *dataframe.DataFrame {
				w := newWorld()
				var cols []tcol
				for k, t := range []tcol{{"f", 'f', floatVals(1, 4, -2)}, {"i", 'i', intVals(7, -1, 7)}, {"b", 'b', []interface{}{true, false, false}},
					{"s", 's', []interface{}{"u", nil, "v"}}, {"o", 'o', []interface{}{nil, &obj{3}}}} {
					if types>>uint(k)&1 == 1 {
						cols = append(cols, t)
					}
				}
				f := w.table(3, cols...)
				f.df.SetMaxCPU(cpu)
				form.do(w, f)
				return w.last().df
			}
			for i := range trs {
				for j := i; j < len(trs); j++ {
					types, form, a, b := types, form, trs[i], trs[j]
					id := ""
					if c.only != "" || c.counter%c.of == c.shard {
						id = fmt.Sprintf("types %b %s: %s with %s", types, form.name, a.name, b.name)
					}
					want := map[string]string{}
					c.Schedules(id, func(e *sched.Explorer) {
						interleavings(0, 0)[0].Conf(e)
						for _, r := range []reader{a, b} {
							r := r
							res := sched.Run(func() { want[r.name] = r.run(make1(1)) })
							if m := resultMsg(res); m != "" {
								want[r.name] = "fails: " + m
							}
						}
					}, func() {
						df := make1(2)
						for _, w := range want {
							if strings.HasPrefix(w, "fails: ") {
								// too few rows for it
								check(df.NumRows() < 3, "%s", w)
								return
							}
						}
						before := digest(df)
						list := []reader{a, b}
						got := make([]string, 2)
						var wg sched.WG
						wg.Add(2)
						for k := range list {
							k := k
							sched.Go("reader", func() {
								defer wg.Add(-1)
								got[k] = list[k].run(df)
							})
						}
						wg.Wait()
						for k, r := range list {
							check(got[k] == want[r.name], "%s gives\n  %s\ninstead of\n  %s", r.name, got[k], want[r.name])
						}
						check(digest(df) == before, "the dataframe was modified")
					})
				}
			}
		}
	}
	if c.thorough {
		c.Unit("three readers")
		for i := range rs {
			for j := i; j < len(rs); j++ {
				for k := j; k < len(rs); k += 3 {
					form, a, b, d := forms[(i+j+k)%len(forms)], rs[i], rs[j], rs[k]
					id := ""
					if c.only != "" || c.counter%c.of == c.shard {
						id = fmt.Sprintf("%s: %s with %s with %s", form.name, a.name, b.name, d.name)
					}
					c.Schedules(id, func(e *sched.Explorer) {
						e.Bound[sched.KSched] = 0
						e.Bound[sched.KSelect] = 0
						e.Delay = true
						reference(form, a)
						reference(form, b)
						reference(form, d)
					}, func() {
						together(form, 1, a, b, d)
					})
				}
			}
		}
	}
}
