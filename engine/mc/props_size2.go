//go:build go1.21

package main

import (
	"fmt"
	"math"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"github.com/rom1mouret/ml-essentials/zzverif/sched"
)

// Sizes for the preprocessors.

// columnCounts lists numbers of columns up to max.
func columnCounts(dense, max int) []int {
	var l []int
	for k := 1; k <= dense; k++ {
		l = append(l, k)
	}
	for _, k := range []int{16, 31, 32, 33, 48, 63, 64, 65, 96, 100, 127, 128, 129, 255, 256, 257} {
		if k > dense && k <= max {
			l = append(l, k)
		}
	}
	return l
}

// numbers yields n values, every third one missing; the first is not.
func numbers(n, k int) []interface{} {
	l := make([]interface{}, n)
	for i := range l {
		switch {
		case (i+k)%3 == 2 && i > 0:
			l[i] = math.NaN()
		default:
			l[i] = float64((i*i*7+i*k)%97)/4 - float64(k)
		}
	}
	return l
}

func prepSizes(c *Ctx) {
	dense, max := 70, 5001
	if c.thorough {
		dense, max = 300, 33000
	}
	ways := []selOp{
		{"as is", func(w *world, f *frame) {}},
		{"reversed", func(w *world, f *frame) { w.opReverse(f).do() }},
		{"with repeated rows", func(w *world, f *frame) { w.opIndex(f, append(seq(len(f.rows)), 0, len(f.rows)-1)).do() }},
		{"without the first row", func(w *world, f *frame) { w.opSlice(f, 1, -1).do() }},
		{"rotated", func(w *world, f *frame) { w.opIndex(f, append(seq(len(f.rows))[1:], 0)).do() }},
	}
	c.Unit("every row count")
	for ni, n := range rowCounts(dense, max) {
		for oi := 0; oi < 11; oi++ {
			for wi, way := range ways {
				if n == 0 || (n > 12 && (ni+oi)%len(ways) != wi) {
					continue
				}
				n, oi, way := n, oi, way
				c.Case(fmt.Sprintf("n=%d %s opt=%d", n, way.name, oi), func() {
					w := newWorld()
					f := w.table(n, tcol{"x", 'f', numbers(n, 0)}, tcol{"i", 'i', intVals(3, -1)}, tcol{"y", 'f', numbers(n, 5)})
					f.df.SetMaxCPU(1 + (n+oi)%4)
					way.do(w, f)
					tr := w.last()
					for _, x := range tr.ofKind(kF) {
						if statOf(tr.cols[x]).n == 0 {
							return
						}
					}
					m := 1 + (n*7)%11
					if n > 12 {
						m = n + n/2
					}
					te := w.table(m, tcol{"y", 'f', numbers(m, 3)}, tcol{"x", 'f', numbers(m, 8)})
					if oi >= 8 {
						w.impute(tr, te, preprocessing.ImputingPolicy(oi-8))
					} else {
						w.scale(tr, te, scalerOpts()[oi])
					}
				})
			}
		}
	}
	c.Unit("every number of columns")
	top := 129
	if c.thorough {
		top = 257
	}
	for _, k := range columnCounts(40, top) {
		for oi := 0; oi < 11; oi++ {
			for _, cpu := range []int{1, 2, 3, 4} {
				k, oi, cpu := k, oi, cpu
				c.Case(fmt.Sprintf("%d columns cpu=%d opt=%d", k, cpu, oi), func() {
					w := newWorld()
					var cs []tcol
					for j := 0; j < k; j++ {
						cs = append(cs, tcol{fmt.Sprintf("c%d", j), 'f', numbers(7, j)})
						if j%5 == 2 {
							cs = append(cs, tcol{fmt.Sprintf("i%d", j), 'i', intVals(j, -1)})
						}
					}
					f := w.table(7, cs...)
					f.df.SetMaxCPU(cpu)
					if cpu == 2 {
						w.opReverse(f).do()
						f = w.last()
					}
					if oi >= 8 {
						w.impute(f, nil, preprocessing.ImputingPolicy(oi-8))
					} else {
						w.scale(f, nil, scalerOpts()[oi])
					}
				})
			}
		}
	}
	c.Unit("every number of missing values")
	for n := 1; n <= 40; n++ {
		for m := 0; m < n; m++ {
			for end := 0; end < 2; end++ {
				n, m, end := n, m, end
				c.Case(fmt.Sprintf("n=%d %d missing end=%d", n, m, end), func() {
					vals := make([]interface{}, n)
					for i := range vals {
						vals[i] = float64((i*13)%17) - 4.5
						if end == 0 && i < m || end == 1 && i >= n-m {
							vals[i] = math.NaN()
						}
					}
					for oi := 0; oi < 11; oi++ {
						w := newWorld()
						f := w.table(n, tcol{"x", 'f', vals})
						if oi >= 8 {
							w.impute(f, nil, preprocessing.ImputingPolicy(oi-8))
						} else {
							w.scale(f, nil, scalerOpts()[oi])
						}
					}
				})
			}
		}
	}
}

func oneHotSizes(c *Ctx, opts []preprocessing.OneHotOptions) {
	dense, max := 40, 2049
	if c.thorough {
		dense, max = 130, 17000
	}
	c.Unit("every row count")
	for ni, n := range rowCounts(dense, max) {
		for oi := range opts {
			if n > 20 && (ni+oi)%5 != 0 {
				continue
			}
			n, oi := n, oi
			c.Case(fmt.Sprintf("n=%d opt=%d", n, oi), func() {
				w := newWorld()
				f := w.table(n, tcol{"c", 'i', intVals(5, 8, 5, -1, 6, 5, 8)}, tcol{"x", 'f', floatVals(1)}, tcol{"d", 'i', intVals(2, 1, 2)})
				f.df.SetMaxCPU(1 + (n+oi)%4)
				if n%3 == 1 {
					w.opReverse(f).do()
					f = w.last()
				}
				r := w.fitOneHot(f, opts[oi])
				if r == nil {
					return
				}
				w.oneHot(f, r)
				if len(f.rows) > 1 {
					w.opSlice(f, 1, -1).do()
					w.oneHot(w.last(), r)
				}
				w.oneHot(w.table(n/2+1, tcol{"d", 'i', intVals(2, 1, 2)}, tcol{"c", 'i', intVals(8, 6, 5)}), r)
				w.oneHot(w.table(n+3, tcol{"d", 'i', intVals(2, 7, -1)}, tcol{"c", 'i', intVals(8, -1, 6, 11, 5, 12)}), r)
			})
		}
	}
	c.Unit("every number of categories")
	for _, k := range columnCounts(66, 257) {
		for oi := range opts {
			if k > 12 && (k+oi)%5 != 0 {
				continue
			}
			k, oi := k, oi
			c.Case(fmt.Sprintf("%d categories opt=%d", k, oi), func() {
				w := newWorld()
				var v []interface{}
				for i := 0; i < k; i++ {
					v = append(v, (i*37)%k)
				}
				v = append(v, k-1)
				miss := append([]interface{}{}, v...)
				miss = append(miss, -1)
				f := w.table(len(miss), tcol{"c", 'i', miss}, tcol{"d", 'i', append(v, 0)})
				r := w.fitOneHot(f, opts[oi])
				if r == nil {
					return
				}
				w.oneHot(f, r)
				w.oneHot(w.table(4, tcol{"c", 'i', intVals(0, -1, k, k-1)}, tcol{"d", 'i', intVals(k-1, 0)}), r)
				w.oneHot(w.table(2, tcol{"c", 'i', intVals(0, k-1)}, tcol{"d", 'i', intVals(k+5, -1)}), r)
			})
		}
	}
	c.Unit("every number of columns")
	for _, k := range columnCounts(40, 129) {
		for oi := range opts {
			if (k+oi)%5 != 0 {
				continue
			}
			for cpu := 1; cpu <= 4; cpu++ {
				k, oi, cpu := k, oi, cpu
				c.Case(fmt.Sprintf("%d columns opt=%d cpu=%d", k, oi, cpu), func() {
					w := newWorld()
					var cs, ts []tcol
					for j := 0; j < k; j++ {
						name := fmt.Sprintf("c%d", j)
						cs = append(cs, tcol{name, 'i', intVals(j, j+1, j, -1)})
						ts = append(ts, tcol{name, 'i', intVals(j+1, j)})
						if j%4 == 1 {
							cs = append(cs, tcol{fmt.Sprintf("x%d", j), 'f', floatVals(1, 2)})
						}
					}
					f := w.table(5, cs...)
					f.df.SetMaxCPU(cpu)
					r := w.fitOneHot(f, opts[oi])
					if r == nil {
						return
					}
					w.oneHot(f, r)
					w.oneHot(w.table(2, ts...), r)
				})
			}
		}
	}
}

// manyCols: k groups of columns of every kind for the automatic preprocessor.
func manyCols(k, shift int) []tcol {
	var cs []tcol
	for j := 0; j < k; j++ {
		v := []interface{}{fmt.Sprintf("v%d", j), nil, "same", "v"}
		if shift > 0 {
			v = append(v, "new")
		}
		cs = append(cs, tcol{fmt.Sprintf("x%d", j), 'f', numbers(7, j+shift)}, tcol{fmt.Sprintf("s%d", j), 's', v})
		if j%3 == 1 {
			cs = append(cs, tcol{fmt.Sprintf("k%d", j), 'i', intVals(j, -1)})
		}
	}
	return cs
}

func autoSizes(c *Ctx, life func(w *world, tr *frame, others []*frame, opt preprocessing.AutoPreprocOptions, probe bool) bool) {
	dense, max := 40, 2049
	if c.thorough {
		dense, max = 130, 17000
	}
	opts := autoOpts()
	c.Unit("every row count")
	for ni, n := range rowCounts(dense, max) {
		for oi := range opts {
			if n == 0 || n > 20 && (ni+oi)%2 == 0 {
				continue
			}
			n, opt := n, opts[oi]
			c.Case(fmt.Sprintf("n=%d opt %d", n, oi), func() {
				w := newWorld()
				tr := w.table(n, autoCols...)
				tr.df.SetMaxCPU(1 + n%4)
				if n%3 == 2 {
					w.opReverse(tr).do()
					tr = w.last()
				}
				opt.Verbose = n%2 == 1
				if n%5 == 1 {
					opt.Exclude = []string{"t"}
				}
				life(w, tr, []*frame{w.table(n/2+1, autoOther...), w.table(n+3, autoOther...)}, opt, n < 10)
			})
		}
	}
	c.Unit("every number of columns")
	for _, k := range columnCounts(24, 65) {
		for oi := range opts {
			for cpu := 1; cpu <= 4; cpu++ {
				if k > 8 && (k+oi+cpu)%3 != 0 {
					continue
				}
				k, opt, cpu := k, opts[oi], cpu
				c.Case(fmt.Sprintf("%d columns of each kind opt %d cpu=%d", k, oi, cpu), func() {
					w := newWorld()
					tr := w.table(7, manyCols(k, 0)...)
					tr.df.SetMaxCPU(cpu)
					for j := 1; j < k; j += 4 {
						opt.Exclude = append(opt.Exclude, fmt.Sprintf("x%d", j), fmt.Sprintf("s%d", j-1))
					}
					life(w, tr, []*frame{w.table(5, manyCols(k, 1)...)}, opt, false)
				})
			}
		}
	}
	c.Unit("every number of distinct strings")
	for _, k := range columnCounts(40, 257) {
		for oi := range opts {
			k, oi := k, oi
			c.Case(fmt.Sprintf("%d strings opt %d", k, oi), func() {
				w := newWorld()
				var v []interface{}
				for i := 0; i < k; i++ {
					v = append(v, fmt.Sprintf("%d", i*i))
				}
				if k%2 == 0 {
					v = append(v, nil)
				}
				cols := []tcol{{"s", 's', v}, {"x", 'f', floatVals(1, 5)}}
				tr := w.table(len(v)+1, cols...)
				life(w, tr, []*frame{w.table(3, tcol{"x", 'f', floatVals(2)}, tcol{"s", 's', []interface{}{"0", nil, "other"}})}, opts[oi], false)
			})
		}
	}
}

func componentSizes(c *Ctx) {
	gen := func(w *world, d int) []op {
		f := w.frames[0]
		if len(f.cols) == 0 {
			return nil
		}
		l := w.components(f, f)
		if len(w.frames) > 1 {
			l = append(l, w.components(w.frames[1], f)...)
			l = append(l, w.components(f, w.frames[1])...)
		}
		return l
	}
	spec := "id:d x:f s:s b:b y:f k:i"
	dense, max := 40, 1025
	if c.thorough {
		dense, max = 130, 8193
	}
	var roots []root
	for _, n := range rowCounts(dense, max) {
		n := n
		roots = append(roots, rootOf(n, spec))
		if n > 1 && n < 66 {
			roots = append(roots, root{fmt.Sprintf("rows=%d and its reverse", n), func(w *world) { w.opReverse(w.build(n, specs(spec))).do() }})
		}
	}
	c.Tree("every row count", roots, treeOpt{depth: 1}, gen)
	roots = nil
	for _, k := range columnCounts(20, 65) {
		k := k
		roots = append(roots, wideRoot(5, k), root{fmt.Sprintf("columns=%d and its reverse", k), func(w *world) { w.opReverse(w.build(5, manySpecs(k))).do() }})
	}
	c.Tree("every column count", roots, treeOpt{depth: 1}, gen)
}

func serialSizes(c *Ctx) {
	c.Unit("every number of columns")
	for _, k := range columnCounts(33, 129) {
		for oi := 0; oi < 11; oi++ {
			k, oi := k, oi
			c.Case(fmt.Sprintf("%d columns opt=%d", k, oi), func() {
				w := newWorld()
				var cs, ts, is, us []tcol
				for j := 0; j < k; j++ {
					cs = append(cs, tcol{fmt.Sprintf("c%d", j), 'f', numbers(5, j)})
					ts = append(ts, tcol{fmt.Sprintf("c%d", j), 'f', numbers(3, j+1)})
					is = append(is, tcol{fmt.Sprintf("c%d", j), 'i', intVals(j, -1, j+1, 7)})
					us = append(us, tcol{fmt.Sprintf("c%d", j), 'i', intVals(j, -1, 100+j, 7)})
				}
				tr, te := w.table(5, cs...), w.table(3, ts...)
				tr.df.SetMaxCPU(1 + (k+oi)%4)
				if oi >= 8 {
					a := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: preprocessing.ImputingPolicy(oi - 8)})
					a.Fit(tr.df)
					b := &preprocessing.FloatImputer{}
					roundTrip(a, b)
					inplaceBoth(a.TransformInplace, b.TransformInplace, te, "imputing")
					inplaceBoth(a.TransformInplace, b.TransformInplace, tr, "imputing")
				} else {
					a := preprocessing.NewScaler(scalerOpts()[oi])
					a.Fit(tr.df)
					b := &preprocessing.Scaler{}
					roundTrip(a, b)
					inplaceBoth(a.TransformInplace, b.TransformInplace, te, "scaling")
					inplaceBoth(a.TransformInplace, b.TransformInplace, tr, "scaling")
					inplaceBoth(a.InverseTransformInplace, b.InverseTransformInplace, te, "inverse scaling")
				}
				e := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: policies[oi%4], UnknownPolicy: policies[(oi/2)%4], KeepUsedColumns: oi%2 == 1})
				ti := w.table(4, is...)
				e.Fit(ti.df)
				b := &preprocessing.OneHotEncoder{}
				roundTrip(e, b)
				viewBoth(e.TransformView, b.TransformView, ti, "encoding")
				viewBoth(e.TransformView, b.TransformView, w.table(4, us...), "encoding")
			})
		}
	}
	c.Unit("every number of categories")
	for _, k := range columnCounts(40, 257) {
		for oi := 0; oi < 4; oi++ {
			k, oi := k, oi
			c.Case(fmt.Sprintf("%d categories opt=%d", k, oi), func() {
				w := newWorld()
				var v, s []interface{}
				for i := 0; i < k; i++ {
					v = append(v, i*i*1000003)
					s = append(s, fmt.Sprintf("%d é", i))
				}
				v, s = append(v, 0, -1), append(s, "0 é", nil)
				e := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: policies[oi], UnknownPolicy: policies[(oi+k)%4]})
				ti := w.table(k+2, tcol{"c", 'i', v})
				e.Fit(ti.df)
				b := &preprocessing.OneHotEncoder{}
				roundTrip(e, b)
				viewBoth(e.TransformView, b.TransformView, ti, "encoding")
				viewBoth(e.TransformView, b.TransformView, w.table(2, tcol{"c", 'i', intVals(5, -1)}), "encoding")
				p := preprocessing.NewAutoPreprocessor(autoOpts()[oi])
				ts := w.table(k+2, tcol{"s", 's', s}, tcol{"x", 'f', floatVals(1, 2, math.NaN())})
				check(p.Fit(ts.df) == nil, "fitting fails")
				q := &preprocessing.AutoPreprocessor{}
				roundTrip(p, q)
				viewBoth(p.TransformView, q.TransformView, ts, "auto preprocessing")
				viewBoth(p.TransformView, q.TransformView, w.table(3, tcol{"s", 's', []interface{}{"0 é", nil, "new"}}, tcol{"x", 'f', floatVals(math.NaN(), 5)}), "auto preprocessing")
			})
		}
	}
	c.Unit("every number of features")
	for _, k := range columnCounts(40, 257) {
		for t := 0; t < 2; t++ {
			k, t := k, t
			c.Case(fmt.Sprintf("%d features %d", k, t), func() {
				w := newWorld()
				cs := []tcol{{"id", 'd', intVals(0)}, {"y", 'f', floatVals(5, -1, 0.1, 7)}}
				for j := 0; j < k; j++ {
					cs = append(cs, tcol{fmt.Sprintf("f%d", j), 'f', floatVals(float64(j)+0.1, 2, -3.3, float64(j%7))})
				}
				tr := w.table(5, cs...)
				a := algorithms.NewLinearRegressor()
				check(a.Fit(tr.df, "y", algorithms.LinRegTrainParams{Epochs: 1, LR: 0.0001, BatchSize: 2 + t, LowMemory: t == 1}) == nil, "training fails")
				b := &algorithms.LinearRegressor{}
				roundTrip(a, b)
				viewBoth(func(df *dataframe.DataFrame) (*dataframe.DataFrame, error) { return a.Predict(df, "pred") },
					func(df *dataframe.DataFrame) (*dataframe.DataFrame, error) { return b.Predict(df, "pred") }, tr, "predicting")
			})
		}
	}
}

func predictSizes(c *Ctx) {
	dense, max := 150, 20001
	if c.thorough {
		dense, max = 700, 100001
	}
	c.Unit("every row count")
	ws := map[string]float64{"x": 2, "b": -3, "z": 0.5}
	for ni, n := range rowCounts(dense, max) {
		for form := 0; form < 4; form++ {
			if n > 200 && ni%4 != form {
				continue
			}
			n, form := n, form
			c.Case(fmt.Sprintf("n=%d form %d", n, form), func() {
				w := newWorld()
				reg := regressor(w, ws, -1, 5)
				var x []interface{}
				for i := 0; i < n; i++ {
					x = append(x, float64(i)+0.25)
				}
				if n == 0 {
					x = floatVals(1)
				}
				f := w.table(n, tcol{"id", 'd', intVals(0)}, tcol{"x", 'f', x}, tcol{"z", 'f', floatVals(1, -7, 4)}, tcol{"b", 'b', []interface{}{true, false}}, tcol{"s", 's', []interface{}{"t"}})
				switch {
				case form == 1:
					w.opReverse(f).do()
				case form == 2 && n > 1:
					w.opSlice(f, 1, -1).do()
				case form == 3 && n > 0:
					w.opIndex(f, append(seq(n)[n/2:], 0)).do()
				}
				name := []string{"pred", "x", "id2", "b"}[(n+form)%4]
				w.predict(w.last(), reg, ws, -1, 5, name)
			})
		}
	}
	c.Unit("every number of features")
	for _, k := range columnCounts(70, 257) {
		for _, n := range []int{1, 3, 35} {
			k, n := k, n
			c.Case(fmt.Sprintf("%d features n=%d", k, n), func() {
				w := newWorld()
				ws := map[string]float64{}
				cs := []tcol{{"id", 'd', intVals(0)}}
				for j := 0; j < k; j++ {
					name := fmt.Sprintf("c%d", j)
					ws[name] = float64(j*j%17) - 6.5
					if j%3 == 2 {
						cs = append(cs, tcol{name, 'b', []interface{}{true, false, j%2 == 0}})
					} else {
						cs = append(cs, tcol{name, 'f', floatVals(float64(j), -1, float64(j%5), 0.5)})
					}
					if j%4 == 0 {
						cs = append(cs, tcol{fmt.Sprintf("o%d", j), 'f', floatVals(1e9)})
					}
				}
				reg := regressor(w, ws, 2, 8)
				f := w.table(n, cs...)
				w.opReverse(f).do()
				g := w.predict(w.last(), reg, ws, 2, 8, "pred")
				w.predict(g, reg, ws, 2, 8, "again")
			})
		}
	}
}

// trainSizes: long tables whose training does not depend on the order of the
// rows.
func trainSizes(c *Ctx) {
	train := func(w *world, f *frame, p algorithms.LinRegTrainParams) {
		w0 := initial(f, "y")
		d := regTable(f, "y")
		sched.ResetRand()
		reg := algorithms.NewLinearRegressor()
		check(reg.Fit(f.df, "y", p) == nil, "training fails")
		w.logf("Fit(%s, %+v)", f.name, p)
		w.checkAll("training")
		if sched.Native {
			return
		}
		want, prev := make([]float64, len(d.names)), make([]float64, len(d.names))
		for j, n := range d.names {
			want[j] = w0[n]
		}
		for e := 0; e < p.Epochs; e++ {
			for i := 0; i < len(d.y); i += p.BatchSize {
				end := i + p.BatchSize
				if end > len(d.y) {
					end = len(d.y)
				}
				d.step(want, prev, seq(end)[i:], p)
			}
		}
		for i, n := range reg.Features {
			for j, m := range d.names {
				if n == m && !near(reg.Weights[i], want[j], 10) {
					failf("the weight of %s is %v, expected %v (%d rows, %+v)", n, reg.Weights[i], want[j], len(d.y), p)
				}
			}
		}
	}
	dense, max := 33, 600
	if c.thorough {
		dense, max = 130, 4097
	}
	c.Unit("one batch, every row count")
	for ni, n := range rowCounts(2*dense, 2*max) {
		for k := 0; k < 4; k++ {
			if n == 0 || n > 150 && ni%4 != k {
				continue
			}
			n, k := n, k
			c.Case(fmt.Sprintf("n=%d %d", n, k), func() {
				w := newWorld()
				var y []interface{}
				for i := 0; i < n; i++ {
					y = append(y, float64(i*i%31))
				}
				f := w.table(n, tcol{"y", 'f', y}, tcol{"x", 'f', floatVals(1, -2, 0.5)}, tcol{"b", 'b', []interface{}{true, false}}, tcol{"z", 'f', floatVals(3, 0, 0, -1)}, tcol{"o", 'o', []interface{}{nil}})
				if k%2 == 1 {
					w.opReverse(f).do()
				}
				train(w, w.last(), algorithms.LinRegTrainParams{Epochs: 1 + k, LR: 0.1 / float64(1+5*n), BatchSize: n + k%3, Momentum: float64(k%2) / 2, WeightDecay: float64(k/2) / 8, LowMemory: (n+k)%2 == 0})
			})
		}
	}
	c.Unit("equal rows, every row count and batch size")
	for _, n := range rowCounts(dense, max) {
		for b := 1; b <= n+1; b++ {
			if n == 0 || n > dense && b%(n/8) > 2 {
				continue
			}
			n, b := n, b
			id := ""
			if c.only != "" || c.counter%c.of == c.shard {
				id = fmt.Sprintf("n=%d batches of %d", n, b)
			}
			c.Case(id, func() {
				w := newWorld()
				f := w.table(n, tcol{"x", 'f', floatVals(0.5)}, tcol{"y", 'f', floatVals(3)}, tcol{"b", 'b', []interface{}{true}})
				train(w, f, algorithms.LinRegTrainParams{Epochs: 2 + n%2, LR: 0.1 / float64(b), BatchSize: b, Momentum: float64(b%3) / 4, WeightDecay: float64(n%3) / 100, LowMemory: (n+b)%2 == 0, Verbose: b%5 == 2})
			})
		}
	}
	c.Unit("one feature per row, every row count and batch size")
	top := 24
	if c.thorough {
		top = 48
	}
	for _, n := range append(seq(top + 1)[1:], 63, 64, 65) {
		for b := 1; b <= n+1; b++ {
			if n > top && b%8 > 1 {
				continue
			}
			n, b := n, b
			c.Case(fmt.Sprintf("n=%d batches of %d", n, b), func() {
				// each row changes a weight of its own
				w := newWorld()
				var y []interface{}
				for i := 0; i < n; i++ {
					y = append(y, float64(i*i%19)-3)
				}
				cs := []tcol{{"y", 'f', y}}
				for j := 0; j < n; j++ {
					v := make([]interface{}, n)
					for i := range v {
						if j%3 == 1 {
							v[i] = i == j
						} else if v[i] = 0.0; i == j {
							v[i] = 1 + float64(j)/8
						}
					}
					typ := byte('f')
					if j%3 == 1 {
						typ = 'b'
					}
					cs = append(cs, tcol{fmt.Sprintf("c%d", j), typ, v})
				}
				f := w.table(n, cs...)
				if b%2 == 1 {
					w.opReverse(f).do()
				}
				train(w, w.last(), algorithms.LinRegTrainParams{Epochs: 1 + (n+b)%4, LR: 0.03, BatchSize: b, LowMemory: b%3 == 0})
			})
		}
	}
}
