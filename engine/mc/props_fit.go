//go:build go1.21

package main

import (
	"math"
	"sort"
	"strings"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"github.com/rom1mouret/ml-essentials/zzverif/sched"
)

func init() {
	props["C38"] = propDef{run: runC38}
}

// ---- C38 ---------------------------------------------------------------------------

// learner trains on a dataframe and tells what was learnt about each column.
type learner struct {
	name string
	// of tells whether it learns something about that kind of column (strings: 's')
	of    func(typ byte) bool
	learn func(df *dataframe.DataFrame) map[string]string
	skip  func(df *dataframe.DataFrame) bool // the outcome is not specified
}

// constantOf tells whether the values of a column that are not missing are all equal.
func constantOf(df *dataframe.DataFrame, col string) bool {
	a := df.Floats(col)
	min, max := math.Inf(1), math.Inf(-1)
	for i := 0; i < a.Size(); i++ {
		if v := a.Get(i); v == v {
			min, max = math.Min(min, v), math.Max(max, v)
		}
	}
	return min >= max
}

func scalerDigest(s *preprocessing.Scaler, df *dataframe.DataFrame, minmax bool, m map[string]string) {
	put := func(col, what string, v float64) {
		if !minmax && what == "scale" && constantOf(df, col) {
			// how a constant column is scaled is not specified
			m[col] += " scaled"
			return
		}
		m[col] += " " + what + " " + digestVal(v)
	}
	for _, col := range floatKeys(s.Shift) {
		put(col, "shift", s.Shift[col])
	}
	for _, col := range floatKeys(s.Scale) {
		put(col, "scale", s.Scale[col])
	}
}

func floatKeys(m map[string]float64) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func frequencies(n int, code func(i int) int) (freqs map[int]int, top map[int]bool) {
	freqs = map[int]int{}
	for i := 0; i < n; i++ {
		freqs[code(i)]++
	}
	best := 0
	for k, f := range freqs {
		if k != -1 && f > best {
			best = f
		}
	}
	top = map[int]bool{}
	for k, f := range freqs {
		if k != -1 && f == best {
			top[k] = true
		}
	}
	return
}

// hotDigest tells what a one-hot encoder knows about each column, whatever the names of
// the new columns; codes gives the categories as they were seen in training.
func hotDigest(e *preprocessing.OneHotEncoder, codes func(col string) (int, func(i int) int), m map[string]string) {
	for _, col := range e.CategoricalColumns {
		n, code := codes(col)
		_, top := frequencies(n, code)
		owner := map[string]int{}
		var cats []int
		for k, nc := range e.Categories[col] {
			cats = append(cats, k)
			owner[nc] = k
		}
		sort.Ints(cats)
		d := spf(" categories %v", cats)
		for _, nc := range e.Fallback[col] {
			k, ok := owner[nc]
			switch {
			case nc == "":
				d += " none"
			case ok && top[k]:
				d += " most frequent"
			case ok:
				d += spf(" category %d", k)
			default:
				d += " separate"
			}
		}
		if len(e.Fallback[col]) == 2 {
			d += spf(" same %v", e.Fallback[col][0] == e.Fallback[col][1])
		}
		m[col] += d
	}
}

func intCodes(df *dataframe.DataFrame) func(col string) (int, func(i int) int) {
	return func(col string) (int, func(i int) int) {
		a := df.Ints(col)
		return a.Size(), a.Get
	}
}

func freqsOf(df *dataframe.DataFrame) map[string]map[int]int {
	m := map[string]map[int]int{}
	for _, col := range df.IntHeader().NameList() {
		m[col], _ = frequencies(df.NumRows(), df.Ints(col).Get)
	}
	return m
}

func (c *Ctx) learners() []learner {
	var l []learner
	is := func(types string) func(typ byte) bool {
		return func(typ byte) bool { return strings.IndexByte(types, typ) >= 0 }
	}
	must := func(err error) {
		sched.Settle()
		check(err == nil, "training fails: %v", err)
	}
	for i, opt := range scalerOpts() {
		opt := opt
		l = append(l, learner{name: spf("scaler %d", i), of: is("f"), learn: func(df *dataframe.DataFrame) map[string]string {
			s := preprocessing.NewScaler(opt)
			must(s.Fit(df))
			m := map[string]string{}
			scalerDigest(s, df, opt.MinMax, m)
			return m
		}})
	}
	for _, p := range []preprocessing.ImputingPolicy{0, 1, 2} {
		p := p
		l = append(l, learner{name: spf("imputer %d", p), of: is("f"), learn: func(df *dataframe.DataFrame) map[string]string {
			s := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: p})
			must(s.Fit(df))
			m := map[string]string{}
			for k, v := range s.Fallback {
				m[k] = digestVal(v)
			}
			return m
		}})
	}
	for _, mp := range policies {
		for _, up := range policies {
			opt := preprocessing.OneHotOptions{MissingPolicy: mp, UnknownPolicy: up}
			if ohUnspecified(opt, nil) {
				continue
			}
			l = append(l, learner{name: spf("one-hot encoder %d %d", mp, up), of: is("i"), learn: func(df *dataframe.DataFrame) map[string]string {
				e := preprocessing.NewOneHotEncoder(opt)
				must(e.Fit(df))
				m := map[string]string{}
				hotDigest(e, intCodes(df), m)
				return m
			}, skip: func(df *dataframe.DataFrame) bool { return ohUnspecified(opt, freqsOf(df)) }})
		}
	}
	l = append(l, learner{name: "hash encoder", of: is("s"), learn: func(df *dataframe.DataFrame) map[string]string {
		e := preprocessing.NewHashEncoder(preprocessing.HashEncoderOptions{})
		must(e.Fit(df))
		m := map[string]string{}
		for _, n := range e.TransformedColumns() {
			m[n] += " hashed"
		}
		return m
	}})
	for i, opt := range autoOpts() {
		for how := 0; how < 2; how++ {
			opt, how := opt, how
			of := "s"
			if opt.Imputing || opt.Scaling {
				of = "fs"
			}
			ohopt := preprocessing.OneHotOptions{MissingPolicy: preprocessing.SeparateCategoryIfSeen, UnknownPolicy: preprocessing.SharedSeparateCategory}
			hashed := func(df *dataframe.DataFrame) *dataframe.DataFrame {
				ns := df.StringHeader().NameList()
				if len(ns) == 0 {
					return df
				}
				defer sched.Settle()
				return df.HashStringsView(ns...)
			}
			l = append(l, learner{name: spf("preprocessor %d %d", i, how), of: is(of), learn: func(df *dataframe.DataFrame) map[string]string {
				a := preprocessing.NewAutoPreprocessor(opt)
				if how == 0 {
					must(a.Fit(df))
				} else {
					a.FitTransform(df)
					sched.Settle()
				}
				m := map[string]string{}
				if a.Imputer != nil {
					for k, v := range a.Imputer.Fallback {
						m[k] += " imputed with " + digestVal(v)
					}
				}
				if a.Scaler != nil {
					scalerDigest(a.Scaler, df, false, m)
				}
				if a.IntToBool != nil {
					hotDigest(a.IntToBool, intCodes(hashed(df)), m)
				}
				return m
			}, skip: func(df *dataframe.DataFrame) bool {
				if ns := df.StringHeader().NameList(); len(ns) == 0 || ohUnspecified(ohopt, freqsOf(hashed(df.ColumnView(ns...)))) {
					return true // the integers would be the categories
				}
				for _, n := range df.FloatHeader().NameList() {
					s, a := 0, df.Floats(n)
					for i := 0; i < a.Size(); i++ {
						if v := a.Get(i); v == v {
							s++
						}
					}
					if s == 0 {
						return true
					}
				}
				return false
			}})
		}
	}
	return l
}

// fitCols are the columns of the tables, by kind of row.
var fitCols = []tcol{
	{"x", 'f', floatVals(2, math.NaN(), 1e6, -3.5, 4)},
	{"y", 'f', floatVals(-1, 7, math.NaN(), 5, 1e-9)},
	{"z", 'f', floatVals(0, 0, 0, 3, 0)},
	{"c", 'i', intVals(3, -1, 99, 3, 0)},
	{"e", 'i', intVals(5, 3, 5, -1, 5)},
	{"s", 's', []interface{}{"u", nil, "w", "u", "v"}},
	{"t", 's', []interface{}{"a", "a", "u", nil, ""}},
	{"b", 'b', []interface{}{true, false, true, false, false}},
	{"o", 'o', []interface{}{nil, &obj{1}, &obj{2}, nil, &obj{3}}},
}

// fitTable makes a table of the columns in mask, of the given kinds of rows and names.
func (w *world) fitTable(kinds []int, mask int, names map[string]string) *frame {
	var cols []tcol
	for i, t := range fitCols {
		if mask>>uint(i)&1 == 0 {
			continue
		}
		u := tcol{t.name, t.typ, nil}
		if n, ok := names[t.name]; ok {
			u.name = n
		}
		for _, k := range kinds {
			u.vals = append(u.vals, t.vals[k])
		}
		cols = append(cols, u)
	}
	return w.table(len(kinds), cols...)
}

// fitNames are consistent ways to rename columns.
var fitNames = []map[string]string{
	nil,
	{"x": "y", "y": "z", "z": "x", "c": "e", "e": "c", "s": "t", "t": "s"},
	{"x": "", "c": "é ü", "s": "x", "t": "_target"},
	{"c": "", "x": "C", "y": "c", "s": "a,b\n\"", "e": "%d%s"},
	{"s": "", "x": "Id", "c": "id", "e": "ID"},
	{"x": "_x", "y": "0", "z": "-z", "c": "_c", "e": "1", "s": "_s", "t": ".t"},
	{"x": "x\t", "y": "*", "z": "__", "c": "#c", "e": "c ", "s": "S", "t": "s"},
}

// about tells what p learns about the columns, by original name.
func (p *learner) about(df *dataframe.DataFrame, mask int, names map[string]string, what string) map[string]string {
	m := p.learn(df)
	out := map[string]string{}
	for i, t := range fitCols {
		if mask>>uint(i)&1 == 0 {
			continue
		}
		n := t.name
		if r, ok := names[n]; ok {
			n = r
		}
		d, ok := m[n]
		if ok {
			delete(m, n)
			out[t.name] = d
		}
		if !ok && p.of(t.typ) && p.learnsSomething() {
			failf("%s on %s: nothing was learnt about column %q", p.name, what, n)
		}
		if ok && !p.of(t.typ) {
			failf("%s on %s: something was learnt about column %q: %s", p.name, what, n, d)
		}
	}
	for n := range m {
		failf("%s on %s: something was learnt about %q, which is not a column", p.name, what, n)
	}
	return out
}

// learnsSomething: scalers that neither center nor scale learn nothing.
func (p *learner) learnsSomething() bool {
	for i, o := range scalerOpts() {
		if p.name == spf("scaler %d", i) {
			return o.MinMax || o.Centering || o.Scaling
		}
	}
	return true
}

func (p *learner) compare(want, got map[string]string, what string) {
	for n, d := range got {
		if e, ok := want[n]; ok && !alike(d, e) {
			failf("%s on %s learns about column %q\n  %s\nand on that column alone\n  %s", p.name, what, n, d, e)
		}
	}
}

func runC38(c *Ctx) {
	sched.SetNumCPU(4)
	const most = 60
	kinds := len(fitCols[0].vals)
	full := 1<<uint(len(fitCols)) - 1
	maxLen := 4
	if c.thorough {
		maxLen = 5
	}
	get := func(pi int) *learner {
		l := c.learners()
		check(len(l) <= most, "harness: %d components", len(l))
		if pi >= len(l) {
			return nil
		}
		return &l[pi]
	}
	isAuto := func(p *learner) bool { return strings.HasPrefix(p.name, "preproc") }
	// reference: what is learnt from each column alone, the rows being in order
	reference := func(p *learner, ks []int) (map[string]string, bool) {
		ref := map[string]string{}
		for i, t := range fitCols {
			if !p.of(t.typ) {
				continue
			}
			mask := 1 << uint(i)
			if isAuto(p) {
				// (without strings the integers would be the categories)
				mask |= 1 << 6
			}
			f := newWorld().fitTable(ks, mask, nil)
			if p.skip != nil && p.skip(f.df) {
				return nil, false
			}
			f.df.SetMaxCPU(1)
			for n, d := range p.about(f.df, mask, nil, spf("rows %v of column %s", ks, t.name)) {
				if n == t.name {
					ref[n] = d
				}
			}
		}
		return ref, true
	}
	one := func(p *learner, ks []int, deep bool) {
		ref, ok := reference(p, ks)
		if !ok {
			return
		}
		n := len(ks)
		try := func(what string, ks []int, mask int, names map[string]string, cpu int, view func(df *dataframe.DataFrame) *dataframe.DataFrame) {
			w := newWorld()
			f := w.fitTable(ks, mask, names)
			df := f.df
			if view != nil {
				df = view(df)
			}
			df.SetMaxCPU(cpu)
			if p.skip != nil && p.skip(df) {
				return
			}
			what = spf("rows %v %s", ks, what)
			p.compare(ref, p.about(df, mask, names, what), what)
			c.rep.Transitions++
			if deep {
				w.checkAll(p.name)
			}
		}
		// subsets of the columns
		for mask := 1; mask <= full; mask++ {
			if !deep && mask != full && mask&(mask-1) != 0 && (mask*7+n)%13 != 0 {
				continue
			}
			if deep || mask == full {
				try(spf("of the columns %b", mask), ks, mask, nil, 1+mask%3, nil)
			}
		}
		for i, names := range fitNames {
			try(spf("with the names %d", i), ks, full, names, 1+(i+n)%4, nil)
		}
		// orders of the rows
		if n <= 4 {
			for i, perm := range permutations(n) {
				q := make([]int, n)
				for j, at := range perm {
					q[j] = ks[at]
				}
				if i%2 == 0 || deep {
					try(spf("in the order %v", perm), q, full, nil, 2, nil)
				}
				if i%3 == 0 || deep {
					try(spf("viewed in the order %v", perm), ks, full, nil, 2, func(df *dataframe.DataFrame) *dataframe.DataFrame { return df.IndexView(perm) })
				}
			}
		}
		// the whole table repeated
		for k := 2; k <= 3; k++ {
			k := k
			var q, idx []int
			for i := 0; i < k; i++ {
				q = append(q, ks...)
				idx = append(idx, seq(n)...)
			}
			try(spf("repeated %d times", k), q, full, fitNames[k], k, nil)
			if n > 0 {
				try(spf("viewed %d times", k), ks, full, nil, k, func(df *dataframe.DataFrame) *dataframe.DataFrame { return df.IndexView(idx) })
			}
		}
		// rows that are not seen
		if n > 0 {
			var more []int
			for i, k := range ks {
				more = append(more, k, (k+1+i)%kinds)
			}
			try("every other row of a larger table", more, full, nil, 3, func(df *dataframe.DataFrame) *dataframe.DataFrame {
				m := df.EmptyMask()
				for i := range m {
					m[i] = i%2 == 0
				}
				return df.MaskView(m)
			})
			try("the start of a larger table", append(append([]int{}, ks...), seq(kinds)...), full, nil, 3, func(df *dataframe.DataFrame) *dataframe.DataFrame { return df.SliceView(0, n) })
		}
	}
	c.Unit("every sequence of rows")
	for pi := 0; pi < most; pi++ {
		for l := 1; l <= maxLen; l++ {
			for first := 0; first < kinds; first++ {
				pi, l, first := pi, l, first
				id := ""
				if c.only != "" || c.counter%c.of == c.shard {
					id = spf("component %d, %d rows from kind %d", pi, l, first)
				}
				c.Case(id, func() {
					p := get(pi)
					if p == nil {
						return
					}
					num := 0
					tuples(kinds, l-1, func(t []int) {
						num++
						one(p, append([]int{first}, t...), num%60 == 1)
					})
				})
			}
		}
	}
	c.Unit("every number of rows")
	dense, max := 24, 301
	if c.thorough {
		dense, max = 80, 2049
	}
	for pi := 0; pi < most; pi++ {
		for _, n := range rowCounts(dense, max) {
			if n == 0 {
				continue
			}
			pi, n := pi, n
			id := ""
			if c.only != "" || c.counter%c.of == c.shard {
				id = spf("component %d, %d rows", pi, n)
			}
			c.Case(id, func() {
				p := get(pi)
				if p == nil {
					return
				}
				for shift := 0; shift < kinds; shift += 2 {
					ks := make([]int, n)
					for i := range ks {
						ks[i] = (i*3 + i/7 + shift) % kinds
					}
					one(p, ks, false)
					// all alike but for one
					for i := range ks {
						ks[i] = shift
					}
					ks[n-1-shift*(n-1)/4] = (shift + 1) % kinds
					one(p, ks, false)
				}
			})
		}
	}
}
