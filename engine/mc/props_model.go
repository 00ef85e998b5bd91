//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"github.com/rom1mouret/ml-essentials/zzverif/sched"
)

func init() {
	props["C21"] = propDef{run: runC21}
	props["C22"] = propDef{run: runC22}
	props["C23"] = propDef{run: runC23}
	props["C24"] = propDef{run: runC24}
	props["C25"] = propDef{run: runC25}
}

// ---- C22 ---------------------------------------------------------------------------

// autoRef is the reference automatic preprocessor.
type autoRef struct {
	p      *preprocessing.AutoPreprocessor
	opt    preprocessing.AutoPreprocOptions
	floats []string
	cats   []string
	stats  map[string]stat
	oh     *ohRef
	codes  map[string]int
}

func (r *autoRef) code(v interface{}) int {
	switch x := v.(type) {
	case int:
		return x
	case string:
		if _, ok := r.codes[x]; !ok {
			r.codes[x] = 100 + len(r.codes)
		}
		return r.codes[x]
	}
	return -1
}

func except(l, excl []string) []string {
	var out []string
	for _, x := range l {
		keep := true
		for _, y := range excl {
			keep = keep && x != y
		}
		if keep {
			out = append(out, x)
		}
	}
	return out
}

// newAuto is the reference for training on f; nil when the behaviour is not
// specified.
func newAuto(f *frame, opt preprocessing.AutoPreprocOptions) *autoRef {
	r := &autoRef{opt: opt, stats: map[string]stat{}, codes: map[string]int{}}
	if opt.Imputing || opt.Scaling {
		r.floats = except(f.ofKind(kF), opt.Exclude)
	}
	for _, n := range r.floats {
		r.stats[n] = statOf(f.cols[n])
		if r.stats[n].n == 0 {
			return nil
		}
	}
	r.cats = except(f.strCols(), opt.Exclude)
	if len(f.strCols()) > 0 && len(r.cats) == 0 && len(except(f.ofKind(kI), opt.Exclude)) > 0 {
		return nil // whether integers then become categories is not said
	}
	if len(f.strCols()) == 0 {
		r.cats = except(f.ofKind(kI), opt.Exclude)
	}
	r.oh = &ohRef{opt: preprocessing.OneHotOptions{MissingPolicy: preprocessing.SeparateCategoryIfSeen, UnknownPolicy: preprocessing.SharedSeparateCategory},
		cols: r.cats, freqs: map[string]map[int]int{}, column: map[string]map[int]string{}, newc: map[string]string{}}
	for _, n := range r.cats {
		m := map[int]int{}
		for _, x := range f.cols[n].cells {
			m[r.code(x.v)]++
		}
		r.oh.freqs[n] = m
		r.oh.column[n] = map[int]string{}
	}
	if ohUnspecified(r.oh.opt, r.oh.freqs) {
		return nil
	}
	r.p = preprocessing.NewAutoPreprocessor(opt)
	return r
}

// trained checks what can be asked from a fitted preprocessor.
func (r *autoRef) trained() {
	want := sortedCopy(append(append([]string{}, r.floats...), r.cats...))
	if got := sortedCopy(r.p.TransformedColumns()); !sameList(got, want) {
		failf("the transformed columns are reported to be %q, expected %q", got, want)
	}
	if len(r.cats) > 0 {
		check(r.p.IntToBool != nil, "no category encoder")
		r.oh.enc = r.p.IntToBool
		r.oh.newc = map[string]string{}
		r.oh.owners()
	}
}

// result checks res against the transformation of f and adds it to the world.
func (w *world) autoResult(r *autoRef, f *frame, res *dataframe.DataFrame, what string) *frame {
	check(res != nil && res != f.df, "%s returns its input", what)
	g := w.derive(f, seq(len(f.rows)), res)
	g.restructure()
	for _, n := range r.floats {
		old := f.cols[n]
		nc := &col{kind: kF, cells: g.newCells(nil)}
		a := res.Floats(n)
		check(a.Size() == len(f.rows), "%s: column %q has %d rows", what, n, a.Size())
		s := r.stats[n]
		for i, x := range old.cells {
			v := x.v.(float64)
			if v != v && r.opt.Imputing {
				v = s.mean
			}
			got := a.Get(i)
			if v == v && r.opt.Scaling {
				if s.constant {
					if v == s.mean {
						check(near(got, 0, 1), "%s: %s[%d] = %v, expected 0", what, n, i, got)
					}
				} else {
					check(near(got, (v-s.mean)/s.std, s.magnitude()/s.std), "%s: %s[%d] = %v, expected %v", what, n, i, got, (v-s.mean)/s.std)
				}
			} else {
				check(near(got, v, s.magnitude()), "%s: %s[%d] = %v, expected %v", what, n, i, got, v)
			}
			nc.cells[i].v = got
		}
		g.cols[n] = nc
	}
	if len(r.cats) > 0 {
		for _, n := range r.cats {
			delete(g.cols, n)
		}
		hots := make([]map[string]string, len(f.rows))
		for i := range hots {
			hots[i] = map[string]string{}
		}
		for _, nc := range r.oh.enc.NewColumns {
			a := res.Bools(nc)
			check(a.Size() == len(f.rows), "%s: new column %q has %d rows", what, nc, a.Size())
			c := &col{kind: kB, cells: g.newCells(nil)}
			for i := range f.rows {
				v := a.Get(i)
				c.cells[i].v = v
				if v {
					n := r.oh.newc[nc]
					check(hots[i][n] == "", "row %d has both %q and %q", i, hots[i][n], nc)
					hots[i][n] = nc
				}
			}
			g.cols[nc] = c
		}
		for i := range f.rows {
			for _, n := range r.cats {
				check(hots[i][n] != "", "%s: row %d has no category for %q", what, i, n)
				r.oh.assign(n, r.code(f.cols[n].cells[i].v), hots[i][n])
			}
		}
	}
	w.add(g, "%s of %s", what, f.name)
	w.checkAll(what)
	return g
}

func (w *world) autoTransform(r *autoRef, f *frame) *frame {
	res, err := r.p.TransformView(f.df)
	check(err == nil, "TransformView fails: %v", err)
	return w.autoResult(r, f, res, "TransformView")
}

// sameFrames compares two models column by column.
func sameFrames(a, b *frame, what string) {
	if !sameList(a.names(), b.names()) {
		failf("%s: columns %q and %q", what, a.names(), b.names())
	}
	for n, c := range a.cols {
		d := b.cols[n]
		check(c.kind == d.kind && c.str == d.str && len(c.cells) == len(d.cells), "%s: column %q has another type or length", what, n)
		for i := range c.cells {
			x, y := c.cells[i].v, d.cells[i].v
			if fx, ok := x.(float64); ok && near(fx, y.(float64), 1e-3) {
				continue
			}
			check(sameVal(x, y), "%s: %s[%d] is %s and %s", what, n, i, show(x), show(y))
		}
	}
}

var autoCols = []tcol{
	{"x", 'f', floatVals(1, math.NaN(), 3.5, -2, 1e4)},
	{"s", 's', []interface{}{"a", nil, "b", "a", "c"}},
	{"k", 'i', intVals(3, -1, 3, 8)},
	{"b", 'b', []interface{}{true, false, true}},
	{"y", 'f', floatVals(0.1, 0.1, 7)},
	{"t", 's', []interface{}{"a", "z"}},
	{"o", 'o', []interface{}{nil, &obj{7}}},
}

var autoOther = []tcol{
	{"x", 'f', floatVals(math.NaN(), 5)},
	{"s", 's', []interface{}{"b", "new", nil, "a"}},
	{"k", 'i', intVals(8, 99, -1, 3, 5)},
	{"b", 'b', []interface{}{false}},
	{"y", 'f', floatVals(2, math.NaN(), 0.1)},
	{"t", 's', []interface{}{nil, "z", "a", "new"}},
	{"o", 'o', []interface{}{&obj{1}, nil}},
}

func autoOpts() []preprocessing.AutoPreprocOptions {
	return []preprocessing.AutoPreprocOptions{{}, {Imputing: true}, {Scaling: true}, {Imputing: true, Scaling: true}}
}

func pickCols(mask int, all []tcol) (l []tcol) {
	for i, t := range all {
		if mask>>uint(i)&1 == 1 {
			l = append(l, t)
		}
	}
	return
}

func runC22(c *Ctx) {
	sched.SetNumCPU(4)
	opts := autoOpts()
	life := func(w *world, tr *frame, others []*frame, opt preprocessing.AutoPreprocOptions, probe bool) bool {
		r := newAuto(tr, opt)
		if r == nil {
			return false
		}
		// fit-and-transform
		res := r.p.FitTransform(tr.df)
		w.logf("FitTransform(%s) %+v", tr.name, opt)
		r.trained()
		a := w.autoResult(r, tr, res, "FitTransform")
		b := w.autoTransform(r, tr)
		sameFrames(a, b, "FitTransform and TransformView")
		// fit, then transform
		r2 := newAuto(tr, opt)
		check(r2.p.Fit(tr.df) == nil, "Fit fails")
		w.logf("Fit(%s)", tr.name)
		r2.trained()
		w.checkAll("Fit")
		d := w.autoTransform(r2, tr)
		if len(a.cols) != len(d.cols) {
			failf("FitTransform yields columns %q and Fit+TransformView %q", a.names(), d.names())
		}
		for _, f := range others {
			w.autoTransform(r2, f)
			w.autoTransform(r, f)
		}
		if probe {
			w.probe()
			for _, g := range []*frame{a, b, d} {
				w.opAlloc(g, 'f', "fresh").do()
				if n := g.names(); len(n) > 1 {
					w.opDrop(g, n[0]).do()
				}
				w.checkAll("restructuring the result")
			}
		}
		return true
	}
	nc := 7
	c.Unit("every mix of columns and exclusions")
	for mask := 1; mask < 1<<uint(nc); mask++ {
		cols := pickCols(mask, autoCols)
		for excl := 0; excl < 1<<uint(len(cols)); excl++ {
			for oi := range opts {
				for _, n := range []int{1, 2, 5} {
					if !c.thorough && n == 2 && (mask+excl+oi)%3 != 0 {
						continue
					}
					mask, cols, excl, n, opt := mask, cols, excl, n, opts[oi]
					id := ""
					if c.only != "" || c.counter%c.of == c.shard {
						id = fmt.Sprintf("cols %b excl %b opt %d n=%d", mask, excl, oi, n)
					}
					c.Case(id, func() {
						w := newWorld()
						for i, t := range cols {
							if excl>>uint(i)&1 == 1 {
								opt.Exclude = append(opt.Exclude, t.name)
							}
						}
						opt.Verbose = excl%2 == 1
						if n == 2 {
							opt.Exclude = append(opt.Exclude, "nowhere")
						}
						tr := w.table(n, cols...)
						tr.df.SetMaxCPU(1 + excl%3)
						other := w.table(4, pickCols(mask, autoOther)...)
						life(w, tr, []*frame{other}, opt, n == 5)
					})
				}
			}
		}
	}
	forms := viewForms()
	c.Unit("views")
	for _, n := range []int{1, 2, 5} {
		for ai, a := range forms {
			for bi, b := range forms {
				for oi := range opts {
					if n != 5 && (ai+bi+oi)%3 != 0 && !c.thorough {
						continue
					}
					n, a, b, oi := n, a, b, oi
					c.Case(fmt.Sprintf("n=%d fit %s, transform %s, opt %d", n, a.name, b.name, oi), func() {
						w := newWorld()
						f := w.table(n, append([]tcol{{"id", 'd', intVals(0)}}, autoCols...)...)
						opt := opts[oi]
						opt.Exclude = []string{"t", "id"}
						if (ai+bi)%2 == 1 {
							opt.Exclude = []string{"y"}
						}
						a.do(w, f)
						tr := w.last()
						if len(tr.rows) == 0 {
							return
						}
						b.do(w, f)
						te := w.last()
						w.table(3, append([]tcol{{"id", 'd', intVals(0)}}, autoOther...)...)
						life(w, tr, []*frame{te, w.last()}, opt, false)
					})
				}
			}
		}
	}
	c.Unit("fitting again")
	for m1 := 1; m1 < 32; m1++ {
		for m2 := 1; m2 < 32; m2++ {
			m1, m2 := m1, m2
			c.Case(fmt.Sprintf("fit on %b then on %b", m1, m2), func() {
				w := newWorld()
				opt := opts[(m1+m2)%4]
				a := w.table(3, pickCols(m1, autoCols)...)
				b := w.table(5, pickCols(m2, autoCols)...)
				ra, rb := newAuto(a, opt), newAuto(b, opt)
				if ra == nil || rb == nil {
					return
				}
				check(rb.p.Fit(a.df) == nil, "Fit fails")
				if m1%2 == 0 {
					check(rb.p.Fit(b.df) == nil, "Fit fails")
					rb.trained()
				} else {
					res := rb.p.FitTransform(b.df)
					rb.trained()
					w.autoResult(rb, b, res, "FitTransform")
				}
				w.autoTransform(rb, b)
				w.autoTransform(rb, w.table(4, pickCols(m2, autoOther)...))
			})
		}
	}
	autoSizes(c, life)
	c.Unit("every small training column")
	fl := []float64{math.NaN(), 0, 2, -0.5}
	st := []interface{}{nil, "a", "b"}
	for l := 1; l <= 3; l++ {
		tuples(12, l, func(t []int) {
			for oi := range opts {
				t, opt, l := append([]int{}, t...), opts[oi], l
				id := ""
				if c.only != "" || c.counter%c.of == c.shard {
					id = fmt.Sprintf("training %v opt %d", t, oi)
				}
				c.Case(id, func() {
					w := newWorld()
					var x, s, k []interface{}
					for _, i := range t {
						x = append(x, fl[i%4])
						s = append(s, st[i/4])
						k = append(k, i/4-1)
					}
					tr := w.table(l, tcol{"x", 'f', x}, tcol{"s", 's', s})
					ti := w.table(l, tcol{"x", 'f', x}, tcol{"k", 'i', k})
					o := w.table(4, tcol{"x", 'f', floatVals(math.NaN(), 2, 7)}, tcol{"s", 's', []interface{}{nil, "a", "b", "c"}}, tcol{"k", 'i', intVals(-1, 0, 1, 9)})
					life(w, tr, []*frame{o}, opt, false)
					life(w, ti, []*frame{o}, opt, false)
				})
			}
		})
	}
	c.Unit("every order of the maps")
	for mask := 1; mask < 128; mask++ {
		for oi := range opts {
			if (mask+oi)%5 != 0 && !c.thorough {
				continue
			}
			mask, oi := mask, oi
			c.Schedules(fmt.Sprintf("map orders cols %b opt %d", mask, oi), func(e *sched.Explorer) {
				e.Bound[sched.KSched] = 0
				e.Bound[sched.KMap] = 1
			}, func() {
				w := newWorld()
				tr := w.table(3, pickCols(mask, autoCols)...)
				tr.df.SetMaxCPU(1)
				life(w, tr, nil, opts[oi], false)
			})
		}
	}
}

// ---- C21 ---------------------------------------------------------------------------

// adopt adds the result of a transformation of f to the world, with the values
// found in the new columns. same lists the columns that must be shared.
func (w *world) adopt(f *frame, res *dataframe.DataFrame, gone []string, what string) *frame {
	check(res != nil && res != f.df, "%s returns its input", what)
	g := w.derive(f, seq(len(f.rows)), res)
	g.restructure()
	for _, n := range gone {
		delete(g.cols, n)
	}
	take := func(names []string, kind byte) {
		str := map[string]bool{}
		for _, n := range res.StringHeader().NameList() {
			str[n] = true
		}
		for _, n := range names {
			if g.cols[n] != nil {
				continue
			}
			c := &col{kind: kind, str: str[n], cells: g.newCells(nil)}
			vals := res.CopyValuesToInterfaces(n)
			check(len(vals) == len(g.rows), "%s: column %q has %d rows", what, n, len(vals))
			for i := range vals {
				c.cells[i].v = vals[i]
			}
			g.cols[n] = c
		}
	}
	take(res.FloatHeader().NameList(), kF)
	take(res.IntHeader().NameList(), kI)
	take(res.BoolHeader().NameList(), kB)
	take(res.ObjectHeader().NameList(), kO)
	w.add(g, "%s of %s", what, f.name)
	return g
}

// captureCells takes the values of some columns over from the code.
func (f *frame) captureCells(cols []string) {
	for _, n := range cols {
		a := f.df.Floats(n)
		for i, x := range f.cols[n].cells {
			x.v = a.Get(i)
		}
	}
}

func hasFloats(f *frame) bool {
	for _, n := range f.ofKind(kF) {
		if statOf(f.cols[n]).n == 0 {
			return false
		}
	}
	return len(f.ofKind(kF)) > 0 && len(f.rows) > 0
}

// components lists the operations of the preprocessors and models fitted on tr
// and applied to f.
func (w *world) components(tr, f *frame) []op {
	var l []op
	add := func(what string, do func()) {
		n := fmt.Sprintf("%s fitted on %s applied to %s", what, tr.name, f.name)
		l = append(l, op{n, func() { w.logf("%s", n); do(); w.checkAll(n) }})
	}
	subset := func(cols []string) bool { return f.has(cols...) }
	floats := tr.ofKind(kF)
	if hasFloats(tr) && subset(floats) {
		for _, o := range []preprocessing.ScalerOptions{{Centering: true, Scaling: true}, {MinMax: true}} {
			o := o
			add("scaler", func() {
				s := preprocessing.NewScaler(o)
				s.Fit(tr.df)
				w.checkAll("fitting a scaler")
				check(s.TransformInplace(f.df) == nil, "scaling fails")
				f.captureCells(floats)
				w.checkAll("scaling")
				check(s.InverseTransformInplace(f.df) == nil, "inverse scaling fails")
				f.captureCells(floats)
			})
		}
		add("imputer", func() {
			s := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{})
			s.Fit(tr.df)
			w.checkAll("fitting an imputer")
			check(s.TransformInplace(f.df) == nil, "imputing fails")
			f.captureCells(floats)
		})
	}
	strs := tr.strCols()
	isStr := map[string]bool{}
	for _, n := range f.strCols() {
		isStr[n] = true
	}
	ok := true
	for _, n := range strs {
		ok = ok && isStr[n]
	}
	if ok {
		add("hash encoder", func() {
			h := preprocessing.NewHashEncoder(preprocessing.HashEncoderOptions{})
			h.Fit(tr.df)
			w.checkAll("fitting a hash encoder")
			res, err := h.TransformView(f.df)
			check(err == nil, "hashing fails")
			w.adopt(f, res, strs, "hashing")
		})
	}
	ints := tr.ofKind(kI)
	if len(ints) > 0 && len(tr.rows) > 0 && subset(ints) && sameKinds(f, ints, kI) {
		for k := 0; k < 2; k++ {
			k := k
			add(fmt.Sprintf("one-hot encoder (keep=%d)", k), func() {
				e := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{KeepUsedColumns: k == 1, MissingPolicy: preprocessing.SeparateCategory, UnknownPolicy: preprocessing.SeparateCategory})
				e.Fit(tr.df)
				w.checkAll("fitting a one-hot encoder")
				res, err := e.TransformView(f.df)
				check(err == nil, "encoding fails")
				var gone []string
				if k == 0 {
					gone = ints
				}
				for _, n := range e.NewColumns {
					if f.cols[n] != nil {
						return // generated names that are taken: not specified
					}
				}
				w.adopt(f, res, gone, "one-hot encoding")
			})
		}
		add("failing one-hot encoder", func() {
			e := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: preprocessing.ReturnError, UnknownPolicy: preprocessing.ReturnError})
			e.Fit(tr.df)
			res, err := e.TransformView(f.df)
			for _, n := range e.NewColumns {
				if f.cols[n] != nil {
					return
				}
			}
			if err == nil {
				w.adopt(f, res, ints, "one-hot encoding")
			}
		})
	}
	excl := append(append([]string{}, ints...), strs...)
	if hasFloats(tr) && subset(floats) {
		add("auto preprocessor without categories", func() {
			p := preprocessing.NewAutoPreprocessor(preprocessing.AutoPreprocOptions{Imputing: true, Scaling: true, Exclude: excl})
			check(p.Fit(tr.df) == nil, "fitting fails")
			w.checkAll("fitting an auto preprocessor")
			res, err := p.TransformView(f.df)
			check(err == nil, "transforming fails")
			w.adopt(f, res, floats, "auto preprocessing")
		})
	}
	if hasFloats(tr) && tr == f && len(strs) > 0 {
		add("fitting and transforming", func() {
			p := preprocessing.NewAutoPreprocessor(preprocessing.AutoPreprocOptions{Imputing: true, Scaling: true, Exclude: ints})
			res := p.FitTransform(tr.df)
			w.adopt(f, res, append(append([]string{}, floats...), strs...), "FitTransform")
		})
	}
	if len(strs) > 0 && ok && len(tr.rows) > 0 {
		add("auto preprocessor for strings", func() {
			p := preprocessing.NewAutoPreprocessor(preprocessing.AutoPreprocOptions{Exclude: ints})
			check(p.Fit(tr.df) == nil, "fitting fails")
			w.checkAll("fitting an auto preprocessor")
			res, err := p.TransformView(f.df)
			check(err == nil, "transforming fails")
			w.adopt(f, res, strs, "auto preprocessing")
		})
	}
	if len(floats) > 1 && len(tr.rows) > 0 && subset(floats) && subset(tr.ofKind(kB)) && sameKinds(f, tr.ofKind(kB), kB) {
		add("linear regressor", func() {
			reg := algorithms.NewLinearRegressor()
			check(reg.Fit(tr.df, floats[0], algorithms.LinRegTrainParams{Epochs: 1, LR: 0.01, BatchSize: 2, LowMemory: len(w.frames)%2 == 0}) == nil, "fitting fails")
			w.checkAll("training")
			for _, name := range []string{"pred", floats[0]} {
				res, err := reg.Predict(f.df, name)
				check(err == nil, "predicting fails")
				w.checkAll("predicting into " + name)
				w.adoptRows(f, res, name)
			}
		})
	}
	return l
}

func sameKinds(f *frame, cols []string, kind byte) bool {
	for _, n := range cols {
		if f.cols[n] == nil || f.cols[n].kind != kind {
			return false
		}
	}
	return true
}

// adoptRows adds a prediction, whose rows may come in another order; the row
// identity is read from the column id.
func (w *world) adoptRows(f *frame, res *dataframe.DataFrame, name string) *frame {
	check(res != nil && res != f.df, "the prediction is the input")
	if !f.idOK("id") {
		return nil
	}
	pos := positions(f, res, "id")
	check(len(pos) == len(f.rows), "the prediction has %d rows, expected %d", len(pos), len(f.rows))
	g := w.derive(f, pos, res)
	g.restructure()
	c := &col{kind: kF, cells: g.newCells(nil)}
	a := res.Floats(name)
	for i, x := range c.cells {
		x.v = a.Get(i)
	}
	g.cols[name] = c
	return w.add(g, "prediction of %s", f.name)
}

func runC21(c *Ctx) {
	sched.SetNumCPU(4)
	spec := "id:d x:f s:s b:b y:f"
	depth := 2
	if c.thorough {
		depth = 3
	}
	gen := func(w *world, d int) []op {
		var l []op
		for _, f := range w.pick(2) {
			if d == 0 || d == 1 {
				if d == 0 || f == w.last() {
					l = append(l, w.someRows(f)...)
					l = append(l, w.opShallow(f), w.opCopy(f), w.opDetached(f, "x"), w.opDetached(f))
					l = append(l, w.opColumnView(f, "x", "id", "y"))
				}
			}
			if d > 0 {
				l = append(l, w.components(w.frames[0], f)...)
				if f != w.frames[0] {
					l = append(l, w.components(f, f)...)
					l = append(l, w.components(f, w.frames[0])...)
				}
			}
		}
		return l
	}
	c.Tree("derive, then fit and apply", []root{rootOf(4, spec), rootOf(1, spec), emptyRoot(0)}, treeOpt{depth: depth}, func(w *world, d int) []op {
		if len(w.frames[0].cols) == 0 {
			return nil
		}
		return gen(w, d)
	})
	c.Tree("apply, then derive and apply", []root{rootOf(3, "id:d x:f s:s y:f")}, treeOpt{depth: depth}, func(w *world, d int) []op {
		f := w.last()
		l := w.components(f, f)
		if f != w.frames[0] {
			l = append(l, w.components(w.frames[0], w.frames[0])...)
		}
		if d > 0 {
			l = append(l, w.someRows(f)...)
		}
		return l
	})
	componentSizes(c)
	forms := viewForms()
	c.Unit("automatic preprocessor, every option and mix of columns")
	opts := autoOpts()
	for mask := 1; mask < 128; mask++ {
		cols := pickCols(mask, autoCols)
		for excl := 0; excl < 1<<uint(len(cols)); excl++ {
			for oi := range opts {
				mask, cols, excl, oi := mask, cols, excl, oi
				id := ""
				if c.only != "" || c.counter%c.of == c.shard {
					id = fmt.Sprintf("cols %b excl %b opt %d", mask, excl, oi)
				}
				c.Case(id, func() {
					w := newWorld()
					opt := opts[oi]
					for i, t := range cols {
						if excl>>uint(i)&1 == 1 {
							opt.Exclude = append(opt.Exclude, t.name)
						}
					}
					tr := w.table(5, cols...)
					r := newAuto(tr, opt)
					if r == nil {
						return
					}
					w.opReverse(tr).do()
					other := w.table(4, pickCols(mask, autoOther)...)
					w.opIndex(other, []int{3, 1, 1}).do()
					w.checkAll("building")
					check(r.p.Fit(tr.df) == nil, "fitting fails")
					w.checkAll("fitting")
					for i, n := 0, len(w.frames); i < n; i++ {
						f := w.frames[i]
						res, err := r.p.TransformView(f.df)
						w.checkAll("transforming " + f.name)
						if err != nil {
							continue
						}
						changed := r.p.TransformedColumns()
						for _, name := range res.Header().NameList() {
							if f.cols[name] == nil {
								changed = append(changed, name)
							}
						}
						w.adopt(f, res, changed, "auto preprocessing")
					}
					q := preprocessing.NewAutoPreprocessor(opt)
					res := q.FitTransform(w.frames[0].df)
					w.checkAll("fitting and transforming")
					if res != nil {
						check(res != w.frames[0].df, "the result is the input dataframe")
					}
					w.probe()
				})
			}
		}
	}
	c.Unit("every form")
	for _, n := range []int{1, 2, 4, 9} {
		for ai, a := range forms {
			for bi, b := range forms {
				for k := 0; k < 12; k++ {
					n, a, b, k := n, a, b, k
					if n > 4 && (ai+bi+k)%3 != 0 && !c.thorough {
						continue
					}
					c.Case(fmt.Sprintf("n=%d %s then %s component %d", n, a.name, b.name, k), func() {
						w := newWorld()
						f := w.build(n, specs(spec+" k:i o:o"))
						a.do(w, f)
						tr := w.last()
						b.do(w, f)
						te := w.last()
						l := w.components(tr, te)
						if k < len(l) {
							l[k].do()
							w.probe()
						}
					})
				}
			}
		}
	}
}

// ---- C23 ---------------------------------------------------------------------------

// roundTrip serializes a component and reads it into out.
func roundTrip(in, out interface{}) {
	b, err := json.Marshal(in)
	check(err == nil, "serializing fails: %v", err)
	check(json.Unmarshal(b, out) == nil, "deserializing fails")
	// a second generation is the same as the first
	b2, err := json.Marshal(out)
	check(err == nil && jsonEqual(b, b2), "serializing again yields %s instead of %s", b2, b)
}

func jsonEqual(a, b []byte) bool {
	var x, y interface{}
	if json.Unmarshal(a, &x) != nil || json.Unmarshal(b, &y) != nil {
		return false
	}
	return fmt.Sprint(x) == fmt.Sprint(y)
}

// sameContent compares two dataframes exactly.
func sameContent(a, b *dataframe.DataFrame, what string) {
	if !sameList(sortedCopy(a.Header().NameList()), sortedCopy(b.Header().NameList())) {
		failf("%s: columns %q and %q", what, sortedCopy(a.Header().NameList()), sortedCopy(b.Header().NameList()))
	}
	check(a.NumRows() == b.NumRows(), "%s: %d and %d rows", what, a.NumRows(), b.NumRows())
	for _, n := range a.Header().NameList() {
		x, y := a.CopyValuesToInterfaces(n), b.CopyValuesToInterfaces(n)
		for i := range x {
			check(sameVal(x[i], y[i]), "%s: %s[%d] is %s and %s after deserialization", what, n, i, show(x[i]), show(y[i]))
		}
	}
}

func inplaceBoth(a, b func(df *dataframe.DataFrame) error, f *frame, what string) {
	x, y := f.df.Copy(), f.df.Copy()
	ea, eb := a(x), b(y)
	check((ea == nil) == (eb == nil), "%s: errors %v and %v", what, ea, eb)
	sameContent(x, y, what)
}

func viewBoth(a, b func(df *dataframe.DataFrame) (*dataframe.DataFrame, error), f *frame, what string) {
	x, ea := a(f.df)
	y, eb := b(f.df)
	check((ea == nil) == (eb == nil), "%s: errors %v and %v", what, ea, eb)
	if ea == nil {
		sameContent(x, y, what)
	}
}

func runC23(c *Ctx) {
	sched.SetNumCPU(4)
	alpha := []float64{math.NaN(), 0, 1.0 / 3, -2.5, 1e-300, 1e15 + 0.5}
	ml := 3
	if c.thorough {
		ml = 4
	}
	c.Unit("scalers and imputers")
	for l := 1; l <= ml; l++ {
		tuples(len(alpha), l, func(t []int) {
			for oi := 0; oi < 11; oi++ {
				t, oi := append([]int{}, t...), oi
				id := ""
				if c.only != "" || c.counter%c.of == c.shard {
					id = fmt.Sprintf("%v opt=%d", t, oi)
				}
				c.Case(id, func() {
					w := newWorld()
					var x, y []interface{}
					for _, k := range t {
						x = append(x, alpha[k])
						y = append(y, alpha[(k+2)%len(alpha)])
					}
					if !hasValue(x) || !hasValue(y) {
						return
					}
					tr := w.table(l, tcol{"x", 'f', x}, tcol{"a \"quoted\" é name", 'f', y}, tcol{"", 'f', y})
					te := w.table(4, tcol{"x", 'f', floatVals(1, math.NaN(), -3)}, tcol{"a \"quoted\" é name", 'f', floatVals(0.1, 7)}, tcol{"", 'f', floatVals(0.3)}, tcol{"z", 'f', floatVals(0.1)})
					if oi >= 8 {
						a := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: preprocessing.ImputingPolicy(oi - 8)})
						a.Fit(tr.df)
						b := &preprocessing.FloatImputer{}
						roundTrip(a, b)
						inplaceBoth(a.TransformInplace, b.TransformInplace, te, "imputing")
						inplaceBoth(a.TransformInplace, b.TransformInplace, tr, "imputing")
						check(sameList(sortedCopy(a.TransformedColumns()), sortedCopy(b.TransformedColumns())), "transformed columns differ")
						return
					}
					a := preprocessing.NewScaler(scalerOpts()[oi])
					a.Fit(tr.df)
					b := &preprocessing.Scaler{}
					roundTrip(a, b)
					inplaceBoth(a.TransformInplace, b.TransformInplace, te, "scaling")
					inplaceBoth(a.TransformInplace, b.TransformInplace, tr, "scaling")
					inplaceBoth(a.InverseTransformInplace, b.InverseTransformInplace, te, "inverse scaling")
					check(sameList(sortedCopy(a.TransformedColumns()), sortedCopy(b.TransformedColumns())), "transformed columns differ")
				})
			}
		})
	}
	c.Unit("encoders")
	for m := range policies {
		for u := range policies {
			for keep := 0; keep < 2; keep++ {
				for l := 1; l <= 3; l++ {
					tuples(3, l, func(t []int) {
						opt := preprocessing.OneHotOptions{MissingPolicy: policies[m], UnknownPolicy: policies[u], KeepUsedColumns: keep == 1}
						t = append([]int{}, t...)
						l := l
						c.Case(fmt.Sprintf("one-hot %d %d %d %v", m, u, keep, t), func() {
							w := newWorld()
							var v []interface{}
							for _, k := range t {
								v = append(v, []int{-1, 3, math.MaxInt64}[k])
							}
							tr := w.table(l, tcol{"c", 'i', v}, tcol{"é", 'i', intVals(1<<60, 5, 5)})
							r := w.fitOneHot(tr, opt)
							if r == nil {
								return
							}
							b := &preprocessing.OneHotEncoder{}
							roundTrip(r.enc, b)
							check(sameList(sortedCopy(r.enc.TransformedColumns()), sortedCopy(b.TransformedColumns())), "transformed columns differ")
							viewBoth(r.enc.TransformView, b.TransformView, tr, "encoding")
							for _, x := range []int{-1, 3, 9, math.MaxInt64} {
								viewBoth(r.enc.TransformView, b.TransformView, w.table(2, tcol{"c", 'i', intVals(x, 3)}, tcol{"é", 'i', intVals(5, x)}), "encoding")
							}
							// the deserialized encoder can do the whole job too
							r.enc = b
							r.column = map[string]map[int]string{"c": {}, "é": {}}
							w.oneHot(tr, r)
							w.oneHot(w.table(3, tcol{"c", 'i', intVals(-1, 9, 3)}, tcol{"é", 'i', intVals(5)}), r)
						})
					})
				}
			}
		}
	}
	c.Unit("auto preprocessors")
	opts := autoOpts()
	for mask := 0; mask < 128; mask++ {
		cols := pickCols(mask, autoCols)
		for excl := 0; excl < 1<<uint(len(cols)); excl++ {
			for oi := range opts {
				if (excl+oi)%2 == 1 && !c.thorough {
					continue
				}
				mask, cols, excl, oi := mask, cols, excl, oi
				id := ""
				if c.only != "" || c.counter%c.of == c.shard {
					id = fmt.Sprintf("auto cols %b excl %b opt %d", mask, excl, oi)
				}
				c.Case(id, func() {
					w := newWorld()
					opt := opts[oi]
					for i, t := range cols {
						if excl>>uint(i)&1 == 1 {
							opt.Exclude = append(opt.Exclude, t.name)
						}
					}
					tr := w.table(5, cols...)
					r := newAuto(tr, opt)
					if r == nil {
						return
					}
					check(r.p.Fit(tr.df) == nil, "fitting fails")
					b := &preprocessing.AutoPreprocessor{}
					roundTrip(r.p, b)
					check(sameList(sortedCopy(r.p.TransformedColumns()), sortedCopy(b.TransformedColumns())), "transformed columns differ: %q %q", r.p.TransformedColumns(), b.TransformedColumns())
					for _, f := range []*frame{tr, w.table(4, pickCols(mask, autoOther)...)} {
						viewBoth(r.p.TransformView, b.TransformView, f, "auto preprocessing")
					}
				})
			}
		}
	}
	serialSizes(c)
	c.Unit("hash encoders")
	for mask := 0; mask < 128; mask++ {
		mask := mask
		c.Case(fmt.Sprintf("hash cols %b", mask), func() {
			w := newWorld()
			tr := w.table(5, pickCols(mask, autoCols)...)
			a := preprocessing.NewHashEncoder(preprocessing.HashEncoderOptions{})
			a.Fit(tr.df)
			b := &preprocessing.HashEncoder{}
			roundTrip(a, b)
			check(sameList(sortedCopy(a.TransformedColumns()), sortedCopy(b.TransformedColumns())), "transformed columns differ")
			for _, f := range []*frame{tr, w.table(4, pickCols(mask, autoOther)...), w.table(2, autoOther...)} {
				viewBoth(a.TransformView, b.TransformView, f, "hashing")
			}
		})
	}
	c.Unit("regressors")
	for k := 1; k <= 3; k++ {
		for n := 1; n <= 5; n++ {
			for p := 0; p < 8; p++ {
				for ti, target := range []string{"y", "f0", "_target", "", "b"} {
					k, n, p, ti, target := k, n, p, ti, target
					if target == "b" {
						continue
					}
					c.Case(fmt.Sprintf("regressor %d features n=%d params %d target %d", k, n, p, ti), func() {
						w := newWorld()
						cs := []tcol{{"id", 'd', intVals(0)}, {target, 'f', floatVals(5, -1, 0.1, 7)}, {"b", 'b', []interface{}{true, false, false}}}
						for j := 0; j < k; j++ {
							if n := fmt.Sprintf("f%d", j+1); n != target {
								cs = append(cs, tcol{n, 'f', floatVals(float64(j)+0.1, 2, -3.3, float64(n[1]), 0)})
							}
						}
						tr := w.table(n, cs...)
						a := algorithms.NewLinearRegressor()
						a.Fit(tr.df, target, algorithms.LinRegTrainParams{Epochs: 1 + p%2, LR: 0.01, BatchSize: 1 + p%3, LowMemory: p&1 == 1, Momentum: float64(p&2) / 4, WeightDecay: float64(p&4) / 40})
						b := &algorithms.LinearRegressor{}
						roundTrip(a, b)
						for _, f := range []*frame{tr, w.table(7, cs...)} {
							for _, res := range []string{"pred", target} {
								viewBoth(func(df *dataframe.DataFrame) (*dataframe.DataFrame, error) { return a.Predict(df, res) },
									func(df *dataframe.DataFrame) (*dataframe.DataFrame, error) { return b.Predict(df, res) }, f, "predicting")
							}
						}
					})
				}
			}
		}
	}
}

// ---- C24 ---------------------------------------------------------------------------

// regressor returns a model with the given weights whose target has mean and
// deviation as given by two training rows.
func regressor(w *world, weights map[string]float64, lo, hi float64) *algorithms.LinearRegressor {
	var names []string
	for n := range weights {
		names = append(names, n)
	}
	sort.Strings(names)
	target := "the target of training"
	cs := []tcol{{target, 'f', floatVals(lo, hi)}}
	for i, n := range names {
		cs = append(cs, tcol{n, 'f', floatVals(float64(i), 2)})
	}
	w0 := newWorld()
	tr := w0.table(2, cs...)
	reg := algorithms.NewLinearRegressor()
	check(reg.Fit(tr.df, target, algorithms.LinRegTrainParams{Epochs: 1, LR: 1e-9, BatchSize: 2}) == nil, "training fails")
	if !sameList(sortedCopy(reg.Features), names) {
		failf("the features are %q, expected %q", reg.Features, names)
	}
	check(len(reg.Weights) == len(names), "%d weights for %d features", len(reg.Weights), len(names))
	for i, n := range reg.Features {
		reg.Weights[i] = weights[n]
	}
	return reg
}

func (f *frame) expected(i int, weights map[string]float64, lo, hi float64) (float64, float64) {
	sum, mag := 0.0, 1.0
	for n, x := range weights {
		v := asFloat(f.cols[n].cells[i].v)
		sum += x * v
		mag += math.Abs(x * v)
	}
	mean, std := (lo+hi)/2, math.Abs(hi-lo)/2
	if lo == hi {
		// the deviation of a constant target is not specified
		return sum, -1
	}
	return sum*std + mean, mag*std + math.Abs(mean)
}

// predict checks a prediction of reg on f stored in column name.
func (w *world) predict(f *frame, reg *algorithms.LinearRegressor, weights map[string]float64, lo, hi float64, name string) *frame {
	res, err := reg.Predict(f.df, name)
	w.logf("Predict(%s, %q)", f.name, name)
	check(err == nil && res != nil, "predicting fails: %v", err)
	check(res != f.df, "the prediction is the input dataframe")
	w.checkAll("predicting")
	pos := positions(f, res, "id")
	check(len(pos) == len(f.rows) && res.NumRows() == len(f.rows), "%d rows, expected %d", res.NumRows(), len(f.rows))
	g := w.derive(f, pos, res)
	g.restructure()
	nc := &col{kind: kF, cells: g.newCells(nil)}
	a := res.Floats(name)
	check(a.Size() == len(pos), "%d predictions, expected %d", a.Size(), len(pos))
	for i, p := range pos {
		want, tol := f.expected(p, weights, lo, hi)
		got := a.Get(i)
		if tol >= 0 && !near(got, want, tol) {
			failf("prediction %d is %v, expected %v\n  %s", i, got, want, strings.Join(w.log, "\n  "))
		}
		nc.cells[i].v = got
	}
	g.cols[name] = nc
	w.add(g, "prediction of %s in %q", f.name, name)
	w.checkAll("predicting")
	return g
}

func runC24(c *Ctx) {
	sched.SetNumCPU(4)
	forms := viewForms()
	names := []string{"pred", "x", "b", "k", "s", "_target", "", "y"}
	weightSets := []map[string]float64{
		{"x": 2}, {"x": 0.5, "z": -3}, {"b": 4, "x": -1}, {"_target": 2, "x": 1}, {"x": 0, "z": 1e6, "b": -0.25, "y": 7},
	}
	scales := [][2]float64{{-1, 1}, {10, 16}, {3, -2}, {5, 5}}
	build := func(w *world, n int) *frame {
		return w.table(n, tcol{"id", 'd', intVals(0)}, tcol{"x", 'f', floatVals(1, -2, 0.5, 7, 0, 3, 11)}, tcol{"z", 'f', floatVals(100, 0, 33)}, tcol{"b", 'b', []interface{}{true, false}},
			tcol{"k", 'i', intVals(5, -1, 2)}, tcol{"s", 's', []interface{}{"u", nil}}, tcol{"_target", 'f', floatVals(-7, 8, 13, 4, 0.25)}, tcol{"y", 'f', floatVals(9, 1)})
	}
	c.Unit("views, names and weights")
	sizes := []int{0, 1, 2, 5, 9}
	if c.thorough {
		sizes = append(sizes, 3, 4, 33, 64, 257)
	}
	for _, n := range sizes {
		for fi, form := range forms {
			for ni, name := range names {
				for wi, ws := range weightSets {
					for si, sc := range scales {
						if (fi+ni+wi+si)%3 != 0 && !c.thorough && n != 2 {
							continue
						}
						n, form, name, ws, sc := n, form, name, ws, sc
						id := ""
						if c.only != "" || c.counter%c.of == c.shard {
							id = fmt.Sprintf("n=%d %s into %q weights %d scale %d", n, form.name, name, wi, si)
						}
						c.Case(id, func() {
							w := newWorld()
							reg := regressor(w, ws, sc[0], sc[1])
							f := build(w, n)
							form.do(w, f)
							g := w.predict(w.last(), reg, ws, sc[0], sc[1], name)
							if si == 0 {
								w.probe()
							}
							// a second prediction from the result
							if g.idOK("id") && wi == 1 && name != "x" && name != "z" {
								w.predict(g, reg, ws, sc[0], sc[1], "again")
							}
						})
					}
				}
			}
		}
	}
	c.Unit("predictions of deserialized models")
	for wi, ws := range weightSets {
		for si, sc := range scales {
			ws, sc := ws, sc
			c.Case(fmt.Sprintf("deserialized weights %d scale %d", wi, si), func() {
				w := newWorld()
				reg := regressor(w, ws, sc[0], sc[1])
				b := &algorithms.LinearRegressor{}
				roundTrip(reg, b)
				f := build(w, 5)
				w.opReverse(f).do()
				w.predict(w.last(), b, ws, sc[0], sc[1], "pred")
			})
		}
	}
	// internal batches hold 4194304/weights rows, at least 32: many weights make
	// them small
	c.Unit("row counts across the internal batches")
	wide := map[string]float64{}
	for j := 0; j < 2100; j++ { // 1997 rows per batch
		wide[fmt.Sprintf("w%d", j)] = float64(j%7) - 3
	}
	rows := []int{1997, 1998, 2003}
	if c.thorough {
		rows = append(rows, 3993, 3994, 3995, 6000)
	}
	for _, n := range rows {
		for form := 0; form < 2; form++ {
			n, form := n, form
			c.Case(fmt.Sprintf("wide n=%d form=%d", n, form), func() {
				w := newWorld()
				reg := regressor(w, wide, -1, 1)
				cs := []tcol{{"id", 'd', intVals(0)}}
				var each []interface{} // tells the rows from one another
				for i := 0; i < n; i++ {
					each = append(each, float64(i)+0.5)
				}
				cs = append(cs, tcol{"w0", 'f', each})
				for j := 1; j < 2100; j++ {
					cs = append(cs, tcol{fmt.Sprintf("w%d", j), 'f', floatVals(float64(j%11), float64(j%5), 1)})
				}
				f := w.table(n, cs...)
				if form == 1 {
					w.opReverse(f).do()
				}
				w.predict(w.last(), reg, wide, -1, 1, "pred")
			})
		}
	}
	predictSizes(c)
	c.Unit("every small table")
	vals := []float64{0, 1, -2, 0.5}
	tl := 4
	if c.thorough {
		tl = 6
	}
	tuples(len(vals), tl, func(t []int) {
		t = append([]int{}, t...)
		id := ""
		if c.only != "" || c.counter%c.of == c.shard {
			id = fmt.Sprintf("table %v", t)
		}
		c.Case(id, func() {
			w := newWorld()
			ws := map[string]float64{"x": vals[t[0]] + 1, "z": 3}
			reg := regressor(w, ws, 0, 4)
			var x, z []interface{}
			for i := 0; i < tl; i += 2 {
				x = append(x, vals[t[i]])
				z = append(z, vals[t[i+1]])
			}
			f := w.table(tl/2, tcol{"id", 'd', intVals(0)}, tcol{"x", 'f', x}, tcol{"z", 'f', z})
			w.predict(f, reg, ws, 0, 4, "pred")
			w.opReverse(f).do()
			w.predict(w.last(), reg, ws, 0, 4, "x")
		})
	})
}

// ---- C25 ---------------------------------------------------------------------------

type regData struct {
	names []string
	x     [][]float64 // row, feature
	y     []float64   // scaled
}

func regTable(f *frame, target string) *regData {
	d := &regData{}
	for _, n := range f.names() {
		if k := f.cols[n].kind; n != target && (k == kF || k == kB) {
			d.names = append(d.names, n)
		}
	}
	s := statOf(f.cols[target])
	for i := range f.rows {
		var row []float64
		for _, n := range d.names {
			row = append(row, asFloat(f.cols[n].cells[i].v))
		}
		d.x = append(d.x, row)
		y := f.cols[target].cells[i].v.(float64) - s.mean
		if !s.constant {
			y /= s.std
		}
		d.y = append(d.y, y)
	}
	return d
}

// step is one batch.
func (d *regData) step(w, prev []float64, rows []int, p algorithms.LinRegTrainParams) {
	grad := make([]float64, len(w))
	for _, i := range rows {
		diff := -d.y[i]
		for j := range w {
			diff += d.x[i][j] * w[j]
		}
		for j := range w {
			grad[j] += diff * d.x[i][j]
		}
	}
	for j := range w {
		grad[j] += p.Momentum * prev[j]
		prev[j] = grad[j]
		w[j] -= p.LR * grad[j]
		w[j] *= 1 - p.WeightDecay
	}
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append([]int{}, p[:i]...)
			q = append(q, n-1)
			out = append(out, append(q, p[i:]...))
		}
	}
	return out
}

// outcomes returns every final weight vector over all the row orders.
func (d *regData) outcomes(w0 []float64, p algorithms.LinRegTrainParams) [][]float64 {
	perms := permutations(len(d.y))
	if p.BatchSize >= len(d.y) {
		perms = perms[:1]
	}
	var out [][]float64
	var rec func(w, prev []float64, epoch int)
	rec = func(w, prev []float64, epoch int) {
		if epoch == p.Epochs {
			out = append(out, w)
			return
		}
		for _, perm := range perms {
			w2, p2 := append([]float64{}, w...), append([]float64{}, prev...)
			for i := 0; i < len(perm); i += p.BatchSize {
				end := i + p.BatchSize
				if end > len(perm) {
					end = len(perm)
				}
				d.step(w2, p2, perm[i:end], p)
			}
			rec(w2, p2, epoch+1)
		}
	}
	rec(w0, make([]float64, len(w0)), 0)
	return out
}

// initial returns the random weights training on f starts from, by name.
func initial(f *frame, target string) map[string]float64 {
	sched.ResetRand()
	reg := algorithms.NewLinearRegressor()
	check(reg.Fit(f.df, target, algorithms.LinRegTrainParams{Epochs: 1, LR: 1e-300, BatchSize: len(f.rows)}) == nil, "training fails")
	m := map[string]float64{}
	for i, n := range reg.Features {
		m[n] = reg.Weights[i]
	}
	sched.ResetRand()
	return m
}

// train trains on f and compares with the reference.
func (w *world) train(f *frame, target string, p algorithms.LinRegTrainParams, w0 map[string]float64) *algorithms.LinearRegressor {
	d := regTable(f, target)
	reg := algorithms.NewLinearRegressor()
	sched.ResetRand()
	check(reg.Fit(f.df, target, p) == nil, "training fails")
	w.logf("Fit(%s, %q, %+v)", f.name, target, p)
	w.checkAll("training")
	if !sameList(sortedCopy(reg.Features), d.names) {
		failf("the features are %q, expected %q", sortedCopy(reg.Features), d.names)
	}
	check(len(reg.Weights) == len(d.names), "%d weights", len(reg.Weights))
	got := make([]float64, len(d.names))
	start := make([]float64, len(d.names))
	for j, n := range d.names {
		for i, m := range reg.Features {
			if m == n {
				got[j] = reg.Weights[i]
			}
		}
		start[j] = w0[n]
	}
	if sched.Native {
		return reg // the initial weights are not known
	}
	outs := d.outcomes(start, p)
	best := math.Inf(1)
	var closest []float64
	for _, o := range outs {
		e := 0.0
		for j := range o {
			e = math.Max(e, math.Abs(o[j]-got[j])/(1+math.Abs(o[j])))
		}
		if e < best || closest == nil {
			best = e
			closest = o
		}
	}
	if !(best < 1e-7) {
		failf("training ends with the weights %v for %q; the closest of the %d possible outcomes is %v (from %v)\n  %s", got, d.names, len(outs), closest, start, strings.Join(w.log, "\n  "))
	}
	return reg
}

func runC25(c *Ctx) {
	sched.SetNumCPU(4)
	tables := []func(w *world, n int) (*frame, string){
		func(w *world, n int) (*frame, string) {
			return w.table(n, tcol{"x", 'f', floatVals(1, 2, -1, 0.5)}, tcol{"y", 'f', floatVals(3, -1, 2, 7)}), "y"
		},
		func(w *world, n int) (*frame, string) {
			return w.table(n, tcol{"id", 'd', intVals(0)}, tcol{"x", 'f', floatVals(1, 2, -1, 0.5)}, tcol{"b", 'b', []interface{}{true, false, false}}, tcol{"price", 'f', floatVals(30, -1, 2, 7)},
				tcol{"s", 's', []interface{}{"u", nil}}, tcol{"z", 'f', floatVals(0, 3)}), "price"
		},
		func(w *world, n int) (*frame, string) {
			return w.table(n, tcol{"_target", 'f', floatVals(1, 2, -1, 0.5)}, tcol{"y", 'f', floatVals(3, -1, 2, 7)}), "y"
		},
		func(w *world, n int) (*frame, string) {
			return w.table(n, tcol{"x", 'f', floatVals(1, 2, -1, 0.5)}, tcol{"_target", 'f', floatVals(3, -1, 2, 7)}), "_target"
		},
		func(w *world, n int) (*frame, string) {
			return w.table(n, tcol{"x", 'b', []interface{}{true, false, true}}, tcol{"", 'f', floatVals(4)}), ""
		},
	}
	type hp struct {
		epochs, batch  int
		lr, mom, decay float64
		low, verbose   bool
	}
	var hps []hp
	for _, e := range []int{1, 2} {
		for _, b := range []int{1, 2, 3, 10} {
			for _, m := range []float64{0, 0.5} {
				for _, d := range []float64{0, 0.125} {
					for low := 0; low < 2; low++ {
						hps = append(hps, hp{e, b, 0.05, m, d, low == 1, len(hps)%3 == 1})
					}
				}
			}
		}
	}
	hps = append(hps, hp{5, 10, 0.01, 0.9, 0.01, false, false}, hp{7, 10, 0.1, 0.1, 0.3, true, true}, hp{3, 4, 1e-3, 0, 0, true, false})
	params := func(h hp) algorithms.LinRegTrainParams {
		return algorithms.LinRegTrainParams{Epochs: h.epochs, LR: h.lr, BatchSize: h.batch, WeightDecay: h.decay, Momentum: h.mom, LowMemory: h.low, Verbose: h.verbose}
	}
	forms := viewForms()
	c.Unit("tables, hyper-parameters and views")
	for ti, mk := range tables {
		for n := 1; n <= 4; n++ {
			for hi, h := range hps {
				for mode := 0; mode < 3; mode++ {
					for fi := -1; fi < len(forms); fi++ {
						if fi >= 0 && (fi+hi+mode+n)%5 != 0 && !c.thorough {
							continue
						}
						mk, n, h, mode, fi := mk, n, h, mode, fi
						if n == 4 && h.epochs == 2 && h.batch < 4 && (hi+mode+ti)%4 != 0 {
							continue
						}
						id := ""
						if c.only != "" || c.counter%c.of == c.shard {
							id = fmt.Sprintf("table %d n=%d params %d shuffle %d form %d", ti, n, hi, mode, fi)
						}
						c.Case(id, func() {
							sched.ShuffleMode = 0
							w := newWorld()
							f, target := mk(w, n)
							if fi >= 0 {
								forms[fi].do(w, f)
							}
							tr := w.last()
							if len(tr.rows) == 0 || len(tr.rows) > 4 || tr.cols[target] == nil {
								return
							}
							if len(tr.rows) == 4 && h.epochs == 2 && h.batch < 4 && fi >= 0 {
								return
							}
							w0 := initial(tr, target)
							w.checkAll("training")
							sched.ShuffleMode = mode
							defer func() { sched.ShuffleMode = 0 }()
							w.train(tr, target, params(h), w0)
						})
					}
				}
			}
		}
	}
	c.Unit("every shuffle")
	for ti, mk := range tables {
		for n := 2; n <= 4; n++ {
			for hi, h := range hps {
				if n == 4 && (h.epochs > 1 || h.batch > 3 || h.batch < 2) || h.epochs > 2 || n == 3 && h.epochs > 1 && hi%4 != 0 && !c.thorough {
					continue
				}
				mk, n, h := mk, n, h
				var w0 map[string]float64
				c.Schedules(fmt.Sprintf("shuffles table %d n=%d params %d", ti, n, hi), func(e *sched.Explorer) {
					e.Bound[sched.KSched] = 0
					e.Bound[sched.KRand] = -1
					sched.Run(func() {
						w := newWorld()
						f, target := mk(w, n)
						w0 = initial(f, target)
					})
				}, func() {
					w := newWorld()
					f, target := mk(w, n)
					w.train(f, target, params(h), w0)
				})
			}
		}
	}
	c.Unit("order and memory do not matter with one batch")
	for n := 1; n <= 5; n++ {
		for hi, h := range []hp{{3, 5, 0.05, 0, 0, false, false}, {2, 9, 0.01, 0.5, 0.1, true, false}, {1, 5, 0.2, 0, 0.5, true, true}} {
			for _, perm := range permutations(n) {
				n, h, perm := n, h, perm
				c.Case(fmt.Sprintf("order %v params %d", perm, hi), func() {
					w := newWorld()
					f, target := tables[1](w, n)
					w0 := initial(f, target)
					a := w.train(f, target, params(h), w0)
					w.opIndex(f, perm).do()
					sched.ResetRand()
					h.low = !h.low
					b := w.train(w.last(), target, params(h), w0)
					for i, x := range a.Features {
						for j, y := range b.Features {
							if x == y && !sched.Native {
								check(near(a.Weights[i], b.Weights[j], 1), "weight of %q: %v and %v", x, a.Weights[i], b.Weights[j])
							}
						}
					}
				})
			}
		}
	}
	trainSizes(c)
	c.Unit("defaults")
	for mask := 0; mask < 8; mask++ {
		for n := 1; n <= 4; n++ {
			for low := 0; low < 2; low++ {
				mask, n, low := mask, n, low
				c.Case(fmt.Sprintf("zeros %b n=%d low=%d", mask, n, low), func() {
					p := algorithms.LinRegTrainParams{Epochs: 2, LR: 0.01, BatchSize: 2, LowMemory: low == 1}
					if mask&1 == 1 {
						p.Epochs = 0
					}
					if mask&2 == 2 {
						p.LR = 0
					}
					if mask&4 == 4 {
						p.BatchSize = 0
					}
					w := newWorld()
					f, target := tables[0](w, n)
					w0 := initial(f, target)
					reg := algorithms.NewLinearRegressor()
					check(reg.Fit(f.df, target, p) == nil, "training fails")
					w.checkAll("training")
					check(len(reg.Weights) == 1, "%d weights", len(reg.Weights))
					v := reg.Weights[0]
					check(v == v && !math.IsInf(v, 0), "weight %v", v)
					if n > 1 && !sched.Native {
						check(v != w0["x"], "nothing was learnt with the default values")
					}
				})
			}
		}
	}
}
