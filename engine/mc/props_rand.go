package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/zzverif/sched"
)

func init() {
	props["C34"] = propDef{run: runC34}
}

// distribution explores every outcome of the random choices made by body, which
// returns an outcome, and compares the exact probability of each outcome with
// the wanted ones. It says nothing about code whose random values cannot be
// enumerated.
func (c *Ctx) distribution(id string, want map[string]float64, body func() (outcome string, drawn bool)) {
	if !c.want(id) || c.expired() {
		return
	}
	c.rep.Traces++
	c.state(c.unit + "|" + id)
	got := map[string]float64{}
	choices, drawn := 0, false
	e := c.explore(id, func(e *sched.Explorer) {
		e.Bound[sched.KRand] = -1
		e.Bound[sched.KSched] = 0
	}, func() {
		o, d := body()
		if _, ok := want[o]; !ok {
			failf("the outcome is %s", o)
		}
		got[o] += sched.RandWeight
		if sched.RandChoices > choices {
			choices = sched.RandChoices
		}
		drawn = drawn || d
	})
	if len(c.rep.Violations) > 0 {
		return
	}
	if !e.Complete {
		c.rep.Complete = false
		c.rep.Incomplete = append(c.rep.Incomplete, c.unit+" "+id)
		return
	}
	c.rep.Units[c.unit+": outcomes"] += len(got)
	if choices == 0 {
		if drawn {
			c.note("random values are not enumerable: " + c.unit)
			return
		}
		// no use of the random source: is it another source?
		first := ""
		for k := 0; k < 6; k++ {
			o := ""
			sched.Run(func() { o, _ = body() })
			if k > 0 && o != first {
				c.note("another source of random values: " + c.unit)
				return
			}
			first = o
		}
	}
	c.exec(id, func() {
		keys := make([]string, 0, len(want))
		for o := range want {
			keys = append(keys, o)
		}
		sort.Strings(keys)
		for _, o := range keys {
			if math.Abs(got[o]-want[o]) > 1e-9 {
				failf("the probability of the outcome %s is %.6f, expected %.6f", o, got[o], want[o])
			}
		}
	})
}

func (f *frame) order(v *dataframe.DataFrame) string {
	var sb strings.Builder
	a := v.Ints("id")
	for i := 0; i < a.Size(); i++ {
		fmt.Fprintf(&sb, "%d ", a.Get(i))
	}
	return sb.String()
}

// randForms are dataframes of n distinct rows.
func randForms(n int) []selOp {
	return []selOp{
		{"plain", func(w *world, f *frame) {}},
		{"view", func(w *world, f *frame) { w.opView(f).do() }},
		{"reversed", func(w *world, f *frame) { w.opReverse(f).do() }},
		{"slice of reversed", func(w *world, f *frame) {
			w.opReverse(f).do()
			w.opSlice(w.last(), 0, len(f.rows)-boolInt(len(f.rows) > 2)).do()
		}},
		{"slice", func(w *world, f *frame) { w.opSlice(f, boolInt(len(f.rows) > 2), -1).do() }},
		{"copy", func(w *world, f *frame) { w.opCopy(f).do() }},
	}
}

func runC34(c *Ctx) {
	if sched.Native {
		c.note("random values are not enumerable in code that is not rewritten")
		c.Unit("not rewritten")
		c.Case("none", func() {})
		return
	}
	maxN := 6
	if c.thorough {
		maxN = 8
	}
	build := func(n int, form selOp) *frame {
		w := newWorld()
		f := w.build(n, specs("id:d f1:f s1:s"))
		form.do(w, f)
		return w.last()
	}
	ids := func(f *frame) []string {
		return strings.Fields(f.order(f.df))
	}
	c.Unit("every outcome of a shuffle")
	for n := 0; n <= maxN; n++ {
		for _, form := range randForms(n) {
			n, form := n, form
			v := build(n, form)
			l := ids(v)
			want := map[string]float64{}
			perms := permutations(len(l))
			for _, p := range perms {
				o := ""
				for _, i := range p {
					o += l[i] + " "
				}
				want[o] = 1 / float64(len(perms))
			}
			c.distribution(fmt.Sprintf("n=%d %s", n, form.name), want, func() (string, bool) {
				f := build(n, form)
				before := f.order(f.df)
				draws := sched.RandDraws
				o := f.order(f.df.ShuffleView())
				check(f.order(f.df) == before, "shuffling changes its input")
				return o, sched.RandDraws > draws
			})
		}
	}
	c.Unit("every outcome of a sample")
	for n := 0; n <= maxN; n++ {
		for _, form := range randForms(n) {
			l := ids(build(n, form))
			for k := 0; k <= len(l); k++ {
				n, k, form := n, k, form
				// every arrangement of k rows is as likely
				want := map[string]float64{}
				perms := permutations(len(l))
				for _, p := range perms {
					o := ""
					for _, i := range p[:k] {
						o += l[i] + " "
					}
					want[o] += 1 / float64(len(perms))
				}
				c.distribution(fmt.Sprintf("n=%d k=%d %s", n, k, form.name), want, func() (string, bool) {
					f := build(n, form)
					draws := sched.RandDraws
					v := f.df.SampleView(k, false)
					drawn := sched.RandDraws > draws
					return f.order(v), drawn
				})
			}
		}
	}
	c.Unit("every order of the training rows")
	trainOrders(c)
	c.Unit("same seed")
	sizes := []int{0, 1, 2, 3, 7, 20, 64, 65, 128, 257, 1000}
	for _, n := range sizes {
		for _, form := range randForms(n) {
			for mode := 0; mode < 3; mode++ {
				n, form, mode := n, form, mode
				c.Case(fmt.Sprintf("n=%d %s, source %d", n, form.name, mode), func() {
					sched.SeededSources = true
					sched.ShuffleMode = 2
					defer func() { sched.SeededSources = false; sched.ShuffleMode = 0 }()
					f := build(n, form)
					run := func() string {
						sched.ResetRand()
						sched.SeedRand(int64(mode))
						o := f.order(f.df.ShuffleView()) + "|" + f.order(f.df.SampleView(len(f.rows)/2, false)) + "|" + f.order(f.df.ShuffleView().ShuffleView())
						return o
					}
					first := run()
					for k := 0; k < 3; k++ {
						if o := run(); o != first {
							failf("from the same seed, the rows come once in order %.80s and once in order %.80s", first, o)
						}
					}
				})
			}
		}
	}
	c.Unit("same seed, any map order")
	for _, n := range []int{2, 5, 12} {
		for _, form := range randForms(n) {
			n, form := n, form
			first := ""
			c.Schedules(fmt.Sprintf("n=%d %s", n, form.name), func(e *sched.Explorer) { e.Bound[sched.KMap] = 1 }, func() {
				f := build(n, form)
				sched.ShuffleMode = 2
				defer func() { sched.ShuffleMode = 0 }()
				sched.ResetRand()
				o := f.order(f.df.ShuffleView()) + "|" + f.order(f.df.SampleView(len(f.rows)/2, false))
				if first == "" {
					first = o
				}
				check(o == first, "from the same seed, the rows come once in order %s and once in order %s", first, o)
			})
		}
	}
}

// trainOrders checks that every order of the rows is as likely in every epoch
// of a training with batches of one row.
func trainOrders(c *Ctx) {
	type conf struct {
		n, epochs, batch int
		low              bool
		momentum, decay  float64
	}
	var confs []conf
	for _, low := range []bool{false, true} {
		for n := 2; n <= 4; n++ {
			for epochs := 1; epochs <= 3; epochs++ {
				for batch := 1; batch < n; batch++ {
					cells := 1
					for k := 0; k < epochs; k++ {
						cells *= len(permutations(n))
					}
					if cells > 14000 && !c.thorough || cells > 400000 {
						continue
					}
					confs = append(confs, conf{n, epochs, batch, low, 0, 0})
					if epochs == 2 {
						confs = append(confs, conf{n, epochs, batch, low, 0.5, 0.1})
					}
				}
			}
		}
	}
	for _, form := range []int{0, 1} {
		for _, k := range confs {
			k, form := k, form
			id := fmt.Sprintf("form=%d %+v", form, k)
			if !(c.only != "" || c.counter%c.of == c.shard) {
				c.want(id)
				continue
			}
			p := algorithms.LinRegTrainParams{Epochs: k.epochs, LR: 0.1, BatchSize: k.batch, LowMemory: k.low, Momentum: k.momentum, WeightDecay: k.decay}
			build := func() *frame {
				w := newWorld()
				f := w.table(k.n, tcol{"x", 'f', floatVals(1, -2, 0.5, 3)}, tcol{"y", 'f', floatVals(2, 1, -1, 0.25)})
				if form == 1 {
					w.opReverse(f).do()
				}
				return w.last()
			}
			fit := func(f *frame, p algorithms.LinRegTrainParams) (float64, int, int) {
				sched.ResetRand()
				reg := algorithms.NewLinearRegressor()
				check(reg.Fit(f.df, "y", p) == nil, "training fails")
				check(len(reg.Weights) == 1, "%d weights", len(reg.Weights))
				return reg.Weights[0], sched.RandDraws, sched.RandChoices
			}
			var refs []float64
			draws := [2]int{}
			sched.Run(func() {
				f := build()
				w0 := initial(f, "y")
				for _, o := range regTable(f, "y").outcomes([]float64{w0["x"]}, p) {
					refs = append(refs, o[0])
				}
				for e := range draws {
					q := p
					q.Epochs = e + 1
					_, draws[e], _ = fit(f, q)
				}
			})
			moving := draws[0] != draws[1] // random values are drawn in each epoch
			key := func(w float64) string {
				for i, r := range refs {
					if math.Abs(r-w) <= 1e-9*(1+math.Abs(r)) {
						return fmt.Sprintf("weight #%d (%.6g)", i, r)
					}
				}
				return fmt.Sprintf("weight %.12g", w)
			}
			want := map[string]float64{}
			for _, r := range refs {
				want[key(r)] += 1 / float64(len(refs))
			}
			c.distribution(id, want, func() (string, bool) {
				w, _, _ := fit(build(), p)
				return key(w), moving
			})
		}
	}
}
