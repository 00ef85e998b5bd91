//go:build go1.21

package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"github.com/rom1mouret/ml-essentials/zzverif/sched"
)

func init() {
	props["C19"] = propDef{run: runC19}
	props["C20"] = propDef{run: runC20}
}

// tcol is a column of a table: type as in colSpec plus its values.
type tcol struct {
	name string
	typ  byte
	vals []interface{}
}

// table builds a frame from explicit values.
func (w *world) table(n int, cols ...tcol) *frame {
	b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
	f := &frame{cols: map[string]*col{}, rows: w.newRows(n)}
	for _, t := range cols {
		c := &col{kind: t.typ}
		switch t.typ {
		case 's':
			c.kind, c.str = kO, true
		case 'd':
			c.kind = kI
		}
		var fs []float64
		var is []int
		var bs []bool
		var os []interface{}
		for i := 0; i < n; i++ {
			v := t.vals[i%len(t.vals)]
			if t.typ == 'd' {
				v = 100 + i
			}
			c.cells = append(c.cells, &cell{v})
			switch c.kind {
			case kF:
				fs = append(fs, v.(float64))
			case kI:
				is = append(is, v.(int))
			case kB:
				bs = append(bs, v.(bool))
			default:
				os = append(os, v)
			}
		}
		switch c.kind {
		case kF:
			b.SetFloats(t.name, fs)
		case kI:
			b.SetInts(t.name, is)
		case kB:
			b.SetBools(t.name, bs)
		default:
			b.SetObjects(t.name, os)
			if c.str {
				b.MarkAsString(t.name)
			}
		}
		f.cols[t.name] = c
	}
	f.df = b.ToDataFrame()
	return w.add(f, "table(%d rows, %v)", n, cols)
}

func floatVals(l ...float64) []interface{} {
	out := make([]interface{}, len(l))
	for i, v := range l {
		out[i] = v
	}
	return out
}

func intVals(l ...int) []interface{} {
	out := make([]interface{}, len(l))
	for i, v := range l {
		out[i] = v
	}
	return out
}

// stat is what a column of numbers looks like to the preprocessors.
type stat struct {
	n                   int
	mean, std, min, max float64
	constant            bool
}

func statOf(c *col) stat {
	s := stat{min: math.Inf(1), max: math.Inf(-1)}
	var vals []float64
	for _, x := range c.cells {
		v := x.v.(float64)
		if v == v {
			vals = append(vals, v)
			s.min = math.Min(s.min, v)
			s.max = math.Max(s.max, v)
		}
	}
	s.n = len(vals)
	s.constant = s.min == s.max
	if s.n == 0 {
		return s
	}
	// the mean relative to the first value, for precision
	for _, v := range vals {
		s.mean += (v - vals[0]) / float64(s.n)
	}
	s.mean += vals[0]
	for _, v := range vals {
		s.std += (v - s.mean) * (v - s.mean) / float64(s.n)
	}
	s.std = math.Sqrt(s.std)
	return s
}

func (s stat) magnitude() float64 {
	if s.n == 0 {
		return 1
	}
	return 1 + math.Max(math.Abs(s.min), math.Abs(s.max))
}

func near(a, b, scale float64) bool {
	if a != a || b != b {
		return a != a && b != b
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return a == b
	}
	return math.Abs(a-b) <= 1e-8*(scale+math.Abs(b))
}

// inplace checks that the columns of f hold fn of their model values, each
// visible cell once, then takes the actual values over into the model.
func (w *world) inplace(f *frame, cols []string, what string, fn func(col string, v float64) (want, tol float64)) {
	for _, n := range cols {
		c := f.cols[n]
		a := f.df.Floats(n)
		check(a.Size() == len(c.cells), "%s: %s has %d rows, expected %d", what, n, a.Size(), len(c.cells))
		done := map[*cell]bool{}
		old := cellsStr(c)
		for i, x := range c.cells {
			if done[x] {
				continue
			}
			done[x] = true
			want, tol := fn(n, x.v.(float64))
			got := a.Get(i)
			if tol == anyValue {
			} else if tol < 0 { // not specified
				check(got == got && !math.IsInf(got, 0), "%s: %s[%d] = %v", what, n, i, got)
			} else if !near(got, want, tol) {
				failf("%s: %s[%s][%d] = %v, expected %v (was %s)\n  %s", what, f.name, n, i, got, want, old, strings.Join(w.log, "\n  "))
			}
			x.v = got
		}
	}
	w.checkAll(what)
}

// anyValue: nothing is specified, not even that it is a number.
const anyValue = -100

// fitImputer fits on f and returns the reference.
func (w *world) fitImputer(f *frame, p preprocessing.ImputingPolicy) (*preprocessing.FloatImputer, func(col string, v float64) (float64, float64)) {
	imp := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: p})
	check(imp.Fit(f.df) == nil, "fitting fails")
	w.logf("imputer(%d).Fit(%s)", p, f.name)
	w.checkAll("fitting an imputer")
	if got := sortedCopy(imp.TransformedColumns()); !sameList(got, f.ofKind(kF)) {
		failf("the imputer transforms %q, expected %q", got, f.ofKind(kF))
	}
	stats := map[string]stat{}
	for _, n := range f.ofKind(kF) {
		stats[n] = statOf(f.cols[n])
	}
	return imp, func(col string, v float64) (float64, float64) {
		if v == v {
			return v, 0
		}
		switch p {
		case preprocessing.Zero:
			return 0, 0
		case preprocessing.One:
			return 1, 0
		}
		return stats[col].mean, stats[col].magnitude()
	}
}

type scalerRef struct {
	opt   preprocessing.ScalerOptions
	stats map[string]stat
}

func (w *world) fitScaler(f *frame, opt preprocessing.ScalerOptions) (*preprocessing.Scaler, *scalerRef) {
	s := preprocessing.NewScaler(opt)
	check(s.Fit(f.df) == nil, "fitting fails")
	w.logf("scaler(%+v).Fit(%s)", opt, f.name)
	w.checkAll("fitting a scaler")
	want := f.ofKind(kF)
	if !opt.MinMax && !opt.Centering && !opt.Scaling {
		want = nil
	}
	if got := sortedCopy(s.TransformedColumns()); !sameList(got, want) {
		failf("the scaler transforms %q, expected %q", got, want)
	}
	r := &scalerRef{opt: opt, stats: map[string]stat{}}
	for _, n := range f.ofKind(kF) {
		r.stats[n] = statOf(f.cols[n])
	}
	return s, r
}

func (r *scalerRef) apply(col string, v float64) (float64, float64) {
	s := r.stats[col]
	if v != v {
		return v, 0
	}
	if s.n == 0 {
		return v, anyValue
	}
	if r.opt.MinMax {
		if s.constant {
			if v == s.min {
				// somewhere on [0, 1]; see training()
				return v, -1
			}
			return v, -1
		}
		return (v - s.min) / (s.max - s.min), 1e-3 * s.magnitude() / (s.max - s.min)
	}
	div := s.std
	if !r.opt.Scaling {
		div = 1
	}
	x := v
	if r.opt.Centering {
		x -= s.mean
	}
	if r.opt.Scaling && s.constant {
		if r.opt.Centering && v == s.mean {
			return 0, 1
		}
		return v, -1
	}
	return x / div, (s.magnitude() + math.Abs(v)) / div
}

// training checks the distribution of the scaled training data.
func (r *scalerRef) training(f *frame) {
	for n, s := range r.stats {
		t := statOf(f.cols[n])
		if s.n == 0 {
			continue
		}
		tol := s.magnitude() / math.Max(s.std, 1e-12)
		if s.constant || !r.opt.Scaling {
			tol = s.magnitude()
		}
		switch {
		case r.opt.MinMax:
			check(t.min >= -1e-12 && t.max <= 1+1e-12, "min-max scaling yields [%v, %v]", t.min, t.max)
			if !s.constant {
				check(near(t.min, 0, 1) && near(t.max, 1, 1), "min-max scaling yields [%v, %v]", t.min, t.max)
			}
		default:
			if r.opt.Centering {
				check(near(t.mean, 0, tol), "centering yields mean %v", t.mean)
			}
			if r.opt.Scaling && !s.constant {
				check(near(t.std, 1, tol), "scaling yields standard deviation %v", t.std)
			}
		}
	}
}

func scalerOpts() []preprocessing.ScalerOptions {
	var l []preprocessing.ScalerOptions
	for b := 0; b < 8; b++ {
		l = append(l, preprocessing.ScalerOptions{MinMax: b&1 != 0, Centering: b&2 != 0, Scaling: b&4 != 0})
	}
	return l
}

// scale runs a whole scaler life on training data tr and other data te (nil:
// none): fit, transform, inverse.
func (w *world) scale(tr, te *frame, opt preprocessing.ScalerOptions) {
	s, ref := w.fitScaler(tr, opt)
	cols := tr.ofKind(kF)
	run := func(f *frame, what string) {
		before := map[*cell]float64{}
		for _, n := range cols {
			for _, x := range f.cols[n].cells {
				before[x] = x.v.(float64)
			}
		}
		w.logf("TransformInplace(%s)", f.name)
		check(s.TransformInplace(f.df) == nil, "transforming fails")
		w.inplace(f, cols, what, ref.apply)
		if f == tr {
			ref.training(f)
		}
		w.logf("InverseTransformInplace(%s)", f.name)
		check(s.InverseTransformInplace(f.df) == nil, "inverse transforming fails")
		for _, n := range cols {
			a := f.df.Floats(n)
			for i, x := range f.cols[n].cells {
				old := before[x]
				got := a.Get(i)
				if ref.stats[n].n == 0 && old == old {
					x.v = got
					continue
				}
				if !near(got, old, ref.stats[n].magnitude()) {
					failf("inverse scaling yields %v instead of %v (%s row %d)\n  %s", got, old, n, i, strings.Join(w.log, "\n  "))
				}
				x.v = got
			}
		}
		w.checkAll("inverse scaling")
	}
	if te != nil {
		run(te, "scaling other data")
	}
	run(tr, "scaling the training data")
}

func (w *world) impute(tr, te *frame, p preprocessing.ImputingPolicy) {
	imp, fn := w.fitImputer(tr, p)
	for _, f := range []*frame{te, tr} {
		if f == nil {
			continue
		}
		w.logf("TransformInplace(%s)", f.name)
		check(imp.TransformInplace(f.df) == nil, "imputing fails")
		w.inplace(f, tr.ofKind(kF), "imputing", fn)
	}
}

func hasValue(l []interface{}) bool {
	for _, v := range l {
		if x := v.(float64); x == x {
			return true
		}
	}
	return false
}

func runC19(c *Ctx) {
	sched.SetNumCPU(4)
	alpha := []float64{math.NaN(), 0, 1, -2.5, 0.1, 1e6, 1e6 + 1}
	ml := 3
	if c.thorough {
		ml = 4
	}
	subs := []selOp{
		{"as is", func(w *world, f *frame) {}},
		{"reversed", func(w *world, f *frame) { w.opReverse(f).do() }},
		{"repeated", func(w *world, f *frame) { w.opIndex(f, append(seq(len(f.rows)), 0)).do() }},
		{"tail", func(w *world, f *frame) { w.opSlice(f, 1, -1).do() }},
	}
	other := floatVals(3, math.NaN(), -7.25, 0.1)
	c.Unit("every small column")
	for l := 1; l <= ml; l++ {
		tuples(len(alpha), l, func(t []int) {
			vals := make([]interface{}, l)
			rot := make([]interface{}, l)
			for i, k := range t {
				vals[i] = alpha[k]
				rot[i] = alpha[(k+1+t[0])%len(alpha)]
			}
			for oi := 0; oi < 11; oi++ {
				for si, sub := range subs {
					if l == 4 && si != (t[0]+t[1]+oi)%4 {
						continue
					}
					oi, sub, vals, rot := oi, sub, vals, rot
					id := ""
					if c.only != "" || c.counter%c.of == c.shard {
						id = fmt.Sprintf("%v opt=%d %s", vals, oi, sub.name)
					}
					c.Case(id, func() {
						w := newWorld()
						f := w.table(l, tcol{"x", 'f', vals}, tcol{"y", 'f', rot}, tcol{"k", 'i', intVals(4, -1)}, tcol{"t", 's', []interface{}{"a", nil}})
						f.df.SetMaxCPU(1 + oi%3)
						sub.do(w, f)
						tr := w.last()
						if oi >= 8 {
							if oi == 8 {
								for _, n := range tr.ofKind(kF) {
									if statOf(tr.cols[n]).n == 0 {
										return // mean of nothing
									}
								}
							}
							te := w.table(4, tcol{"y", 'f', other}, tcol{"x", 'f', other[1:]}, tcol{"z", 'f', other})
							w.impute(tr, te, preprocessing.ImputingPolicy(oi-8))
							return
						}
						te := w.table(4, tcol{"y", 'f', other}, tcol{"x", 'f', other[1:]}, tcol{"z", 'f', other})
						w.scale(tr, te, scalerOpts()[oi])
					})
				}
			}
		})
	}
	// every view form for training and for transforming
	forms := viewForms()
	sizes := []int{1, 2, 5, 8}
	if c.thorough {
		sizes = []int{1, 2, 3, 4, 5, 8, 13, 130, 300}
	}
	c.Unit("every pair of views")
	for _, n := range sizes {
		for ai, a := range forms {
			for bi, b := range forms {
				for oi := 0; oi < 11; oi++ {
					n, a, b, oi := n, a, b, oi
					if n > 5 && (ai+bi+oi)%4 != 0 {
						continue
					}
					c.Case(fmt.Sprintf("n=%d fit %s, transform %s, opt=%d", n, a.name, b.name, oi), func() {
						w := newWorld()
						f := w.build(n, specs("id:d x:f y:f z:f s:s b:b"))
						a.do(w, f)
						tr := w.last()
						if len(tr.rows) == 0 {
							return // nothing to train on
						}
						for _, x := range tr.ofKind(kF) {
							if statOf(tr.cols[x]).n == 0 {
								return
							}
						}
						// only two of the columns
						w.opColumnView(tr, "x", "z").do()
						cv := w.last()
						b.do(w, f)
						te := w.last()
						if oi >= 8 {
							imp, fn := w.fitImputer(cv, preprocessing.ImputingPolicy(oi-8))
							check(imp.TransformInplace(te.df) == nil, "imputing fails")
							w.inplace(te, []string{"x", "z"}, "imputing", fn)
						} else {
							s, ref := w.fitScaler(cv, scalerOpts()[oi])
							check(s.TransformInplace(te.df) == nil, "scaling fails")
							w.inplace(te, []string{"x", "z"}, "scaling", ref.apply)
							check(s.InverseTransformInplace(te.df) == nil, "scaling fails")
							w.inplace(te, []string{"x", "z"}, "inverse scaling", func(n string, v float64) (float64, float64) {
								if v != v {
									return v, 0 // must stay missing
								}
								return v, -1
							})
						}
						w.probe()
					})
				}
			}
		}
	}
	c.Unit("numbers of columns and CPUs")
	for k := 0; k <= 12; k++ {
		for cpu := -1; cpu <= 5; cpu++ {
			for oi := 0; oi < 11; oi++ {
				k, cpu, oi := k, cpu, oi
				c.Case(fmt.Sprintf("%d columns cpu=%d opt=%d", k, cpu, oi), func() {
					w := newWorld()
					cs := []tcol{{"id", 'd', intVals(0)}}
					for j := 0; j < k; j++ {
						name := fmt.Sprintf("c%d", j)
						if j == 3 {
							name = ""
						}
						cs = append(cs, tcol{name, 'f', floatVals(float64(j), math.NaN(), float64(j*j)+0.5, -1, float64(3*j))})
					}
					f := w.table(5, cs...)
					f.df.SetMaxCPU(cpu)
					if oi >= 8 {
						w.impute(f, nil, preprocessing.ImputingPolicy(oi-8))
					} else {
						w.scale(f, nil, scalerOpts()[oi])
					}
				})
			}
		}
	}
	prepSizes(c)
	c.Unit("constants and near constants")
	for n := 1; n <= 12; n++ {
		for vi, v := range []float64{0, 0.1, -0.3, 1.0 / 3, 1e6 + 0.1, -1e-7, 123456.789} {
			for oi := 0; oi < 11; oi++ {
				for gap := 0; gap < 3; gap++ {
					n, v, oi, gap := n, v, oi, gap
					c.Case(fmt.Sprintf("constant %d n=%d opt=%d gap=%d", vi, n, oi, gap), func() {
						w := newWorld()
						x := make([]interface{}, n)
						for i := range x {
							x[i] = v
							if gap == 1 && i == n/2 && n > 1 {
								x[i] = math.NaN()
							}
							if gap == 2 && i == n/2 {
								x[i] = v + math.Abs(v)/1000
							}
						}
						f := w.table(n, tcol{"x", 'f', x})
						te := w.table(3, tcol{"x", 'f', floatVals(v, math.NaN(), 1)})
						if oi >= 8 {
							w.impute(f, te, preprocessing.ImputingPolicy(oi-8))
						} else {
							w.scale(f, te, scalerOpts()[oi])
						}
					})
				}
			}
		}
	}
	c.Unit("fitting again")
	for oi := 0; oi < 8; oi++ {
		oi := oi
		c.Case(fmt.Sprintf("refit opt=%d", oi), func() {
			w := newWorld()
			a := w.table(3, tcol{"x", 'f', floatVals(1, 2, 4)}, tcol{"old", 'f', floatVals(5, 6, 7)})
			b := w.table(3, tcol{"x", 'f', floatVals(10, 20, 60)})
			s := preprocessing.NewScaler(scalerOpts()[oi])
			s.Fit(a.df)
			s.Fit(b.df)
			_, ref := w.fitScaler(b, scalerOpts()[oi])
			check(s.TransformInplace(b.df) == nil, "scaling fails")
			w.inplace(b, []string{"x"}, "scaling after a second fit", ref.apply)
			imp := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{})
			imp.Fit(a.df)
			imp.Fit(b.df)
			m := w.table(2, tcol{"x", 'f', floatVals(math.NaN(), 1)})
			_, fn := w.fitImputer(b, preprocessing.Mean)
			check(imp.TransformInplace(m.df) == nil, "imputing fails")
			w.inplace(m, []string{"x"}, "imputing after a second fit", fn)
		})
	}
}

// ---- C20 ---------------------------------------------------------------------------

var policies = []preprocessing.CategoryPolicy{preprocessing.SeparateCategoryIfSeen, preprocessing.SharedSeparateCategory, preprocessing.SeparateCategory, preprocessing.ImputeWithMostFrequent, preprocessing.ReturnError}

// ohRef is the reference encoder.
type ohRef struct {
	enc   *preprocessing.OneHotEncoder
	opt   preprocessing.OneHotOptions
	cols  []string
	freqs map[string]map[int]int
	// observed assignments
	column map[string]map[int]string
	newc   map[string]string // new column -> categorical column
}

const (
	toCategory = iota
	toOwn
	toFrequent
	toError
	toShared
)

// unspecified tells whether the documentation leaves the behaviour open.
func ohUnspecified(opt preprocessing.OneHotOptions, freqs map[string]map[int]int) bool {
	m, u := opt.MissingPolicy, opt.UnknownPolicy
	if m == preprocessing.SharedSeparateCategory && u == preprocessing.ReturnError || u == preprocessing.SharedSeparateCategory && m == preprocessing.ReturnError {
		return true
	}
	for _, f := range freqs {
		_, miss := f[-1]
		cats := len(f)
		if miss {
			cats--
		}
		if cats > 0 {
			continue
		}
		need := m == preprocessing.ImputeWithMostFrequent || u == preprocessing.ImputeWithMostFrequent
		ifSeen := m == preprocessing.SeparateCategoryIfSeen || m == preprocessing.SharedSeparateCategory
		if need || ifSeen && !miss {
			return true // no category to fall back to
		}
	}
	return false
}

func (w *world) fitOneHot(f *frame, opt preprocessing.OneHotOptions) *ohRef {
	r := &ohRef{opt: opt, cols: f.ofKind(kI), freqs: map[string]map[int]int{}, column: map[string]map[int]string{}, newc: map[string]string{}}
	for _, n := range r.cols {
		m := map[int]int{}
		for _, x := range f.cols[n].cells {
			m[x.v.(int)]++
		}
		r.freqs[n] = m
		r.column[n] = map[int]string{}
	}
	if ohUnspecified(opt, r.freqs) {
		return nil
	}
	r.enc = preprocessing.NewOneHotEncoder(opt)
	w.logf("onehot(%+v).Fit(%s)", opt, f.name)
	check(r.enc.Fit(f.df) == nil, "fitting fails")
	w.checkAll("fitting a one-hot encoder")
	if got := sortedCopy(r.enc.TransformedColumns()); !sameList(got, r.cols) {
		failf("the encoder transforms %q, expected %q", got, r.cols)
	}
	check(distinct(r.enc.NewColumns), "new columns %q", r.enc.NewColumns)
	r.owners()
	return r
}

// owners finds the categorical column of every new column.
func (r *ohRef) owners() {
	for _, n := range r.cols {
		set := func(nc string) {
			if nc == "" {
				return
			}
			if o, ok := r.newc[nc]; ok && o != n {
				failf("column %q belongs to %q and %q", nc, o, n)
			}
			r.newc[nc] = n
		}
		for _, nc := range r.enc.Categories[n] {
			set(nc)
		}
		for _, nc := range r.enc.Fallback[n] {
			set(nc)
		}
	}
	check(len(r.newc) == len(r.enc.NewColumns), "new columns %q, owners %q", r.enc.NewColumns, r.newc)
}

// policy of a missing (unk=false) or unknown value in column n.
func (r *ohRef) policy(n string, unk bool) int {
	m, u := r.opt.MissingPolicy, r.opt.UnknownPolicy
	_, seen := r.freqs[n][-1]
	if m == preprocessing.SharedSeparateCategory && u != m {
		if u == preprocessing.SeparateCategoryIfSeen || u == preprocessing.SeparateCategory {
			// the shared category, whether separate or imputed
			return toShared
		}
		m, u = u, m
	}
	if m == preprocessing.SharedSeparateCategory || u == preprocessing.SharedSeparateCategory && unk {
		return toShared
	}
	p := m
	if unk {
		p = u
		if p == preprocessing.SeparateCategoryIfSeen {
			p = preprocessing.SeparateCategory
		}
	}
	switch p {
	case preprocessing.SeparateCategoryIfSeen:
		if seen {
			return toOwn
		}
		return toFrequent
	case preprocessing.SeparateCategory:
		return toOwn
	case preprocessing.ImputeWithMostFrequent:
		return toFrequent
	}
	return toError
}

const unknownKey = math.MinInt64

// assign records which new column a value goes to and checks it.
func (r *ohRef) assign(n string, v int, to string) {
	m := r.column[n]
	_, known := r.freqs[n][v]
	key := v
	if v != -1 && !known {
		key = unknownKey
	}
	if old, ok := m[key]; ok {
		check(old == to, "value %d of %s goes to %q and to %q", v, n, old, to)
		return
	}
	check(r.newc[to] == n, "value %d of %s goes to %q, a column of %q", v, n, to, r.newc[to])
	m[key] = to
	maxf := 0
	for k, f := range r.freqs[n] {
		if k != -1 && f > maxf {
			maxf = f
		}
	}
	// distinct categories, distinct columns
	for k1, c1 := range m {
		for k2, c2 := range m {
			if k1 < k2 && c1 == c2 && k1 != unknownKey && k1 != -1 && k2 != -1 {
				failf("categories %d and %d of %s both go to %q", k1, k2, n, c1)
			}
		}
	}
	for _, unk := range []bool{false, true} {
		k := -1
		if unk {
			k = unknownKey
		}
		c, ok := m[k]
		if !ok {
			continue
		}
		switch r.policy(n, unk) {
		case toOwn:
			for k2, c2 := range m {
				if k2 != k && c2 == c && !(k2 == unknownKey && r.policy(n, true) == toShared) && !(k2 == -1 && r.policy(n, false) == toShared) {
					failf("the separate column %q of the missing (%v) or unknown (%v) values of %s is also the one of %d", c, !unk, unk, n, k2)
				}
			}
		case toFrequent:
			// the column of a most frequent category, when it is known
			good, all := false, true
			for cat, f := range r.freqs[n] {
				if cat == -1 || f != maxf {
					continue
				}
				if c2, ok := m[cat]; !ok {
					all = false
				} else if c2 == c {
					good = true
				}
			}
			if all && !good {
				failf("missing (%v) or unknown (%v) values of %s go to %q, not to a most frequent category", !unk, unk, n, c)
			}
			for cat, c2 := range m {
				if c2 == c && cat != -1 && cat != unknownKey && r.freqs[n][cat] != maxf {
					failf("missing (%v) or unknown (%v) values of %s go to %d, seen %d times instead of %d", !unk, unk, n, cat, r.freqs[n][cat], maxf)
				}
			}
		case toShared:
			if a, ok := m[-1]; ok {
				if b, ok := m[unknownKey]; ok {
					check(a == b, "missing values of %s go to %q and unknown ones to %q instead of sharing a column", n, a, b)
				}
			}
		}
	}
}

// errorExpected tells whether transforming f must fail.
func (r *ohRef) errorExpected(f *frame) bool {
	for _, n := range r.cols {
		for _, x := range f.cols[n].cells {
			v := x.v.(int)
			_, known := r.freqs[n][v]
			if v == -1 && r.policy(n, false) == toError || v != -1 && !known && r.policy(n, true) == toError {
				return true
			}
		}
	}
	return false
}

// transform runs the encoder on f and adds the resulting frame to the world.
func (w *world) oneHot(f *frame, r *ohRef) *frame {
	res, err := r.enc.TransformView(f.df)
	w.logf("onehot.TransformView(%s)", f.name)
	if r.errorExpected(f) {
		check(err != nil, "no error for a missing or unknown category")
		w.checkAll("a failed one-hot encoding")
		return nil
	}
	check(err == nil, "one-hot encoding fails: %v", err)
	check(res != nil && res != f.df, "the result is the input dataframe")
	g := w.derive(f, seq(len(f.rows)), res)
	g.restructure()
	if !r.opt.KeepUsedColumns {
		for _, n := range r.cols {
			delete(g.cols, n)
		}
	}
	vals := map[string]dataframe.BoolAccess{}
	for _, nc := range r.enc.NewColumns {
		vals[nc] = res.Bools(nc)
		check(vals[nc].Size() == len(f.rows), "new column %q has %d rows, expected %d", nc, vals[nc].Size(), len(f.rows))
		g.cols[nc] = &col{kind: kB, cells: g.newCells(nil)}
	}
	for i := range f.rows {
		hot := map[string]string{}
		for nc, a := range vals {
			v := a.Get(i)
			g.cols[nc].cells[i].v = v
			if v {
				n := r.newc[nc]
				if hot[n] != "" {
					failf("row %d has both %q and %q for %s", i, hot[n], nc, n)
				}
				hot[n] = nc
			}
		}
		for _, n := range r.cols {
			v := f.cols[n].cells[i].v.(int)
			check(hot[n] != "", "row %d of %s (%d) has no true column among %q", i, n, v, r.enc.NewColumns)
			r.assign(n, v, hot[n])
		}
	}
	w.add(g, "one-hot view of %s", f.name)
	w.checkAll("one-hot encoding")
	return g
}

func runC20(c *Ctx) {
	sched.SetNumCPU(4)
	trainAlpha := []int{-1, 3, 7}
	testAlpha := []int{-1, 3, 7, 9}
	trainLen, testLen := 3, 2
	if c.thorough {
		trainLen, testLen = 4, 3
	}
	var opts []preprocessing.OneHotOptions
	for _, m := range policies {
		for _, u := range policies {
			for k := 0; k < 2; k++ {
				opts = append(opts, preprocessing.OneHotOptions{MissingPolicy: m, UnknownPolicy: u, KeepUsedColumns: k == 1})
			}
		}
	}
	c.Unit("every training and test column")
	for tl := 0; tl <= trainLen; tl++ {
		tuples(len(trainAlpha), tl, func(t []int) {
			for oi := range opts {
				oi := oi
				t := append([]int{}, t...)
				id := ""
				if c.only != "" || c.counter%c.of == c.shard {
					id = fmt.Sprintf("train %v opt %d", t, oi)
				}
				c.Case(id, func() {
					w := newWorld()
					v := make([]interface{}, 0)
					for _, k := range t {
						v = append(v, trainAlpha[k])
					}
					tr := w.table(tl, tcol{"c", 'i', v})
					r := w.fitOneHot(tr, opts[oi])
					if r == nil {
						return
					}
					tests := 0
					for l := 0; l <= testLen; l++ {
						tuples(len(testAlpha), l, func(u []int) {
							v := make([]interface{}, 0)
							for _, k := range u {
								v = append(v, testAlpha[k])
							}
							w2 := newWorld()
							f := w2.table(l, tcol{"c", 'i', v}, tcol{"x", 'f', floatVals(1, math.NaN())}, tcol{"b", 'b', []interface{}{true, false}})
							w2.oneHot(f, r)
							tests++
							if tests%7 == 0 {
								w2.probe()
							}
						})
					}
				})
			}
		})
	}
	// two columns that influence each other if something is shared
	c.Unit("two columns")
	for l := 1; l <= 2; l++ {
		tuples(3, 2*l, func(t []int) {
			for oi := range opts {
				oi, t := oi, append([]int{}, t...)
				id := ""
				if c.only != "" || c.counter%c.of == c.shard {
					id = fmt.Sprintf("two columns %v opt %d", t, oi)
				}
				c.Case(id, func() {
					w := newWorld()
					var a, b []interface{}
					for i := 0; i < l; i++ {
						a = append(a, trainAlpha[t[i]])
						b = append(b, trainAlpha[t[l+i]])
					}
					tr := w.table(l, tcol{"c", 'i', a}, tcol{"cc", 'i', b}, tcol{"x", 'f', floatVals(3, 4)})
					tr.df.SetMaxCPU(1 + oi%3)
					r := w.fitOneHot(tr, opts[oi])
					if r == nil {
						return
					}
					tuples(len(testAlpha), 2, func(u []int) {
						f := w.table(2, tcol{"c", 'i', intVals(testAlpha[u[0]], 3)}, tcol{"cc", 'i', intVals(7, testAlpha[u[1]])}, tcol{"s", 's', []interface{}{"c", nil}})
						f.df.SetMaxCPU(1 + u[0]%2)
						w.oneHot(f, r)
						w.frames = w.frames[:1]
					})
					w.oneHot(tr, r)
				})
			}
		})
	}
	forms := viewForms()
	c.Unit("views")
	for _, n := range []int{0, 1, 3, 6} {
		for ai, a := range forms {
			for bi, b := range forms {
				for oi := range opts {
					if (ai*5+bi+oi)%6 != 0 && !c.thorough {
						continue
					}
					n, a, b, oi := n, a, b, oi
					c.Case(fmt.Sprintf("n=%d fit %s transform %s opt=%d", n, a.name, b.name, oi), func() {
						w := newWorld()
						f := w.table(n, tcol{"id", 'd', intVals(0)}, tcol{"c", 'i', intVals(5, -1, 5, 6, 8)}, tcol{"d", 'i', intVals(2, 1)}, tcol{"x", 'f', floatVals(1, 2, 3)})
						a.do(w, f)
						tr := w.last()
						w.opColumnView(tr, "c", "d").do()
						r := w.fitOneHot(w.last(), opts[oi])
						if r == nil {
							return
						}
						b.do(w, f)
						g := w.oneHot(w.last(), r)
						if g != nil {
							w.probe()
							if g.restructurable() {
								w.opDrop(g, "x").do()
								w.checkAll("dropping a column of the result")
							}
						}
					})
				}
			}
		}
	}
	c.Unit("many categories")
	for _, n := range []int{1, 2, 3, 5, 10, 11, 12, 40} {
		for oi := range opts {
			n, oi := n, oi
			c.Case(fmt.Sprintf("%d categories opt=%d", n, oi), func() {
				w := newWorld()
				var a, b []interface{}
				for i := 0; i < n; i++ {
					a = append(a, i*i)
					b = append(b, i%4-1)
				}
				f := w.table(n, tcol{"c", 'i', a}, tcol{"d", 'i', b}, tcol{"", 'i', b})
				r := w.fitOneHot(f, opts[oi])
				if r == nil {
					return
				}
				w.oneHot(f, r)
				w.opReverse(f).do()
				w.oneHot(w.last(), r)
				sort.Slice(a, func(i, j int) bool { return a[i].(int)%3 < a[j].(int)%3 })
				w.oneHot(w.table(n, tcol{"c", 'i', a}, tcol{"d", 'i', intVals(-1, 0, 99)}, tcol{"", 'i', intVals(-1, 5)}), r)
			})
		}
	}
	oneHotSizes(c, opts)
	c.Unit("fitting again")
	for oi := range opts {
		oi := oi
		c.Case(fmt.Sprintf("refit opt=%d", oi), func() {
			w := newWorld()
			a := w.table(3, tcol{"c", 'i', intVals(1, 1, -1)}, tcol{"old", 'i', intVals(1, 2, 3)})
			b := w.table(3, tcol{"c", 'i', intVals(4, 5, 4)})
			r := w.fitOneHot(b, opts[oi])
			if r == nil || w.fitOneHot(a, opts[oi]) == nil {
				return
			}
			e := preprocessing.NewOneHotEncoder(opts[oi])
			check(e.Fit(a.df) == nil && e.Fit(b.df) == nil, "fitting fails")
			r.enc = e
			r.newc = map[string]string{}
			r.owners()
			w.oneHot(w.table(4, tcol{"c", 'i', intVals(-1, 4, 1, 5)}), r)
			w.oneHot(b, r)
		})
	}
	c.Unit("every order of the maps")
	for oi := 0; oi < len(opts); oi += 2 {
		oi := oi
		c.Schedules(fmt.Sprintf("map orders opt=%d", oi), func(e *sched.Explorer) {
			e.Bound[sched.KSched] = 0
			e.Bound[sched.KMap] = 1
			if c.thorough {
				e.Bound[sched.KMap] = 2
			}
		}, func() {
			w := newWorld()
			f := w.table(5, tcol{"c", 'i', intVals(5, -1, 5, 6, 8)}, tcol{"d", 'i', intVals(2, 1)})
			f.df.SetMaxCPU(1)
			r := w.fitOneHot(f, opts[oi])
			if r == nil {
				return
			}
			w.oneHot(f, r)
			w.oneHot(w.table(2, tcol{"c", 'i', intVals(6, 1)}, tcol{"d", 'i', intVals(-1, 2)}), r)
		})
	}
}
