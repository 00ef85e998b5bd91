//go:build go1.21

package main

import (
	"bytes"
	"strings"
	"unicode/utf8"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"github.com/rom1mouret/ml-essentials/zzverif/sched"
)

func init() {
	props["C39"] = propDef{run: runC39}
}

// ---- C39 ---------------------------------------------------------------------------

// nameParts make the names; every concatenation of up to two of them is a name.
var nameParts = []string{"_", "-", "0", "1", "a", "A", " ", ",", "\"", "\n", ".", "/", "%", "#", "\\", "\t", "é", "日", "\x00", "\xff", ":", "=", "'", "*", "[", "?", "+", ";", "|", "{"}

// nameFamilies are names that are easily mistaken for one another or for something else.
func nameFamilies() [][]string {
	long := strings.Repeat("long name ", 120)
	return [][]string{
		{"id", "Id", "ID", "iD", "id ", " id", "id\t", "id\n", "i d"},
		{"a", "b", "a,b", "a b", "a\x00b", "ab", "b,a", "\"a\",\"b\"", "a\nb"},
		{"", " ", "  ", "\t", "\n", "\x00", ".", "_", "-"},
		{"x", "x1", "x_1", "x-1", "x.1", "x 1", "X1", "x1_", "1x"},
		{"target", "_target", "__target", "target_", "_", "prediction", "result", "label", "y"},
		{"nil", "null", "NaN", "nan", "Inf", "true", "false", "<nil>", "<missing>"},
		{"0", "1", "-1", "1.0", "01", "1e0", "+1", "0x1", "00"},
		{"%", "%%", "%s", "%d", "%v", "%!s(MISSING)", "%5.3f", "%[1]s", "%q"},
		{long + "a", long + "b", long + "A", long, "long name ", long[1:], long + long, "ong name ", long + " "},
		{"é", "e\u0301", "É", "e", "E\u0301", "è", "ê", "\u00e9\u0301", "\xe9"},
		{"K", "\u212a", "k", "s", "\u017f", "S", "ss", "ß", "\u1e9e"},
		{"c_x", "c_0", "c_missing_", "c_unk_", "c_onehot_", "_onehot", "_missing", "_unk", "onehot0"},
		{"missing", "unk", "unknown", "other", "index", "indices", "weights", "bias", "intercept"},
		{"float", "int", "bool", "object", "string", "float64", "time.Time", "interface{}", "*"},
		{"../x", "/x", "C:\\x", "x.csv", "*.csv", "~", "$x", "`x`", "${x}"},
		{"a=1", "a=1,b=2", "{\"a\":1}", "[a]", "(a)", "a:b", "a;b", "a|b", "a/b"},
		{"<b>", "&amp;", "&", "<", ">", "\u2028", "\\u0041", "A", "\\n"},
		{"column", "column 1", "column 10", "column 2", "column 11", "column 9", "column 09", "column 1.", "column1"},
	}
}

// nameGroups lists groups of nine different names.
func (c *Ctx) nameGroups() [][]string {
	l := nameFamilies()
	var all []string
	all = append(all, nameParts...)
	for _, a := range nameParts {
		for _, b := range nameParts {
			all = append(all, a+b)
		}
	}
	if c.thorough {
		for i, a := range nameParts {
			for j, b := range nameParts {
				for k := range nameParts {
					if (i+j+k)%3 == 0 {
						all = append(all, a+b+nameParts[k])
					}
				}
			}
		}
	}
	for i := 0; i+9 <= len(all); i += 9 {
		l = append(l, all[i:i+9])
	}
	// neighbours in another order: the names that end alike
	for i := 0; i < 9; i++ {
		var g []string
		for j := i; j < len(all) && j < 900; j += 30 {
			g = append(g, all[j])
			if len(g) == 9 {
				l = append(l, g)
				g = nil
			}
		}
	}
	return l
}

const nameTypes = "dfibsofis"

func rotated(g []string, by int) []string {
	return append(append([]string{}, g[by%len(g):]...), g[:by%len(g)]...)
}

// paired arranges nine names so that every two of them are in turn the names of
// two columns of the same type (36 arrangements).
func paired(g []string) [][]string {
	var l [][]string
	for round := 0; round < 9; round++ {
		var pairs [][2]string
		for k := 1; k <= 4; k++ {
			pairs = append(pairs, [2]string{g[(round+k)%9], g[(round+9-k)%9]})
		}
		for r := 0; r < 4; r++ {
			i, f, s, rest := pairs[r], pairs[(r+1)%4], pairs[(r+2)%4], pairs[(r+3)%4]
			// nameTypes: d f i b s o f i s
			l = append(l, []string{g[round], f[0], i[0], rest[0], s[0], rest[1], f[1], i[1], s[1]})
		}
	}
	return l
}

func (w *world) named(n int, g []string) *frame {
	var cs []colSpec
	for i, t := range nameTypes {
		cs = append(cs, colSpec{g[i], byte(t)})
	}
	return w.build(n, cs)
}

// namedOps: every operation that takes names, besides some that do not.
func (w *world) namedOps(g, fresh []string) []op {
	f := w.last()
	id := g[0]
	n := len(f.rows)
	l := []op{w.opView(f), w.opReverse(f), w.opShallow(f), w.opCopy(f), w.opDetached(f), w.opSlice(f, 1, -1)}
	l = append(l, w.opSorted(f, id, id), w.opTop(f, id, 1+n/2, true, true, id), w.opTop(f, id, 1+n/2, false, false, id))
	l = append(l, shuffled(2, w.opShuffle(f, id)), shuffled(1, w.opSample(f, n-1, id)))
	for i, name := range g {
		next := g[(i+1)%len(g)]
		l = append(l, w.opColumnView(f, name), w.opColumnView(f, name, next), w.opDetached(f, name), w.opDetached(f, next, name))
		l = append(l, w.opSet(f, name, i%n), w.opOverwrite(f, name, 0))
		if f.deriv && f.derived == 0 {
			l = append(l, w.opUnshare(f, name))
		}
		if k := f.cols[name].kind; k != kO {
			l = append(l, w.opSorted(f, name, id))
			if k != kF {
				l = append(l, w.opTop(f, name, n/2, i%2 == 0, i%3 == 0, id))
			}
		}
		if f.restructurable() {
			to := fresh[i%len(fresh)]
			l = append(l, w.opDrop(f, name), w.opDrop(f, next, name), w.opRename(f, name, next), w.opAlloc(f, fibso[i%5], name), w.opOverwriteAs(f, fibso[(i+1)%5], name, 0))
			if f.cols[to] == nil {
				l = append(l, w.opRename(f, name, to), w.opAlloc(f, fibso[i%5], to), w.opOverwriteAs(f, fibso[(i+2)%5], to, 0))
			}
			if k := f.cols[name].kind; k == kI || k == kB {
				l = append(l, w.opToFloats(f, name))
			}
		}
	}
	if f.restructurable() {
		l = append(l, w.opToFloats(f, f.ofKind(kI)...))
	}
	cut := func(kind, at int) op {
		return op{spf("cutting %s and %s", f.name, ccNames[kind]), func() {
			w.opColumnView(f, g[:at]...).do()
			a := w.last()
			w.opColumnView(f, g[at:]...).do()
			w.opColConcat(kind, a, w.last()).do()
		}}
	}
	l = append(l, cut(ccView, 4), cut(ccCopy, 3), cut(ccSmart, 5), w.opRowConcat(f, f))
	return append(l, w.hashes(f)...)
}

// namedHeaders: what can be asked about the columns.
func (f *frame) namedHeaders(fresh []string) {
	h := f.df.Header()
	all := f.names()
	if got := sortedCopy(h.NameList()); !sameList(got, all) {
		failf("the columns are %q, expected %q", got, all)
	}
	for _, n := range append(append([]string{}, fresh...), all...) {
		if h.NameSet()[n] != (f.cols[n] != nil) {
			failf("%q is reported to be a column: %v", n, h.NameSet()[n])
		}
		want := except(all, []string{n})
		if got := sortedCopy(f.df.Header().Except(n).NameList()); !sameList(got, want) {
			failf("the columns except %q are %q, expected %q", n, got, want)
		}
	}
}

// namedTables are a training table and another one, on the same columns.
func (w *world) namedTables(g []string) (tr, te *frame) {
	vals := map[byte][]interface{}{'d': intVals(0), 'b': {true, false, true}, 'o': {nil, &obj{7}}}
	cols := func(shift int) []tcol {
		var l []tcol
		for i, t := range nameTypes {
			v := vals[byte(t)]
			switch t {
			case 'f':
				v = [][]interface{}{floatVals(1, 7, -4, 0.5, 2), floatVals(3, -1, 3, 8, 5)}[(i+shift)%2]
			case 'i':
				v = [][]interface{}{intVals(3, 1, 3, 8, 3), intVals(8, 3, 8, 1)}[(i+shift)%2]
			case 's':
				v = [][]interface{}{{"a", nil, "b", "a", "a"}, {"b", "b", "a"}}[(i+shift)%2]
			}
			l = append(l, tcol{g[i], byte(t), v})
		}
		return l
	}
	return w.table(5, cols(0)...), w.table(4, cols(1)...)
}

func (c *Ctx) namedPrep(g []string, part int) {
	w := newWorld()
	sub := func(f *frame, types string) *frame {
		var cols []string
		for i, t := range nameTypes {
			if strings.IndexRune(types, t) >= 0 {
				cols = append(cols, g[i])
			}
		}
		w.opColumnView(f, cols...).do()
		r := w.last()
		w.opCopy(r).do()
		return w.last()
	}
	tr, te := w.namedTables(g)
	utf := true
	for _, n := range g {
		utf = utf && utf8.ValidString(n)
	}
	valid := func(fitted, empty interface{}, run func(p interface{})) {
		run(fitted)
		if utf {
			roundTrip(fitted, empty)
			run(empty)
		}
	}
	switch part {
	case 0:
		for _, opt := range scalerOpts() {
			w.scale(sub(tr, "fs"), sub(te, "fis"), opt)
		}
		for p := 0; p < 3; p++ {
			w.impute(sub(tr, "fs"), sub(te, "fis"), preprocessing.ImputingPolicy(p))
		}
	case 1:
		for i, m := range policies {
			for j, u := range policies {
				opt := preprocessing.OneHotOptions{MissingPolicy: m, UnknownPolicy: u, KeepUsedColumns: (i+j)%2 == 0}
				f := sub(tr, "ifs")
				if r := w.fitOneHot(f, opt); r != nil {
					w.oneHot(f, r)
					w.oneHot(sub(te, "ifs"), r)
					if utf {
						e := &preprocessing.OneHotEncoder{}
						roundTrip(r.enc, e)
						r.enc = e
						w.oneHot(sub(te, "ifs"), r)
					}
				}
				sched.Settle()
			}
		}
	case 2:
		for i, opt := range autoOpts() {
			for k, excl := range [][]string{nil, {g[1]}, {g[4], g[2]}, {g[0], g[7], g[6]}, {"not a column of it"}} {
				opt.Exclude = excl
				f := sub(tr, "fisbo")
				if (i+k)%3 == 2 {
					f = sub(tr, "fib")
				}
				r := newAuto(f, opt)
				if r == nil {
					continue
				}
				check(r.p.Fit(f.df) == nil, "fitting fails")
				r.trained()
				w.autoTransform(r, f)
				if len(f.strCols()) > 0 {
					w.autoTransform(r, sub(te, "fisbod"))
				}
				sched.Settle()
			}
		}
	case 3:
		for i, o := range w.components(tr, te) {
			o.do()
			if i%4 == 3 {
				sched.Settle()
			}
		}
	case 4:
		f := te
		weights := map[string]float64{g[1]: 2, g[3]: -3, g[6]: 0.25, g[2]: 1}
		valid(regressor(w, weights, -2, 6), algorithms.NewLinearRegressor(), func(p interface{}) {
			reg := p.(*algorithms.LinearRegressor)
			for _, out := range []string{"a new column", g[1], g[4], g[5], g[3]} {
				w.namedPredict(f, g[0], reg, weights, -2, 6, out)
				sched.Settle()
			}
		})
		for _, target := range []string{g[1], g[6]} {
			d := sub(tr, "fbs")
			w.train(d, target, algorithms.LinRegTrainParams{Epochs: 2, LR: 0.01, BatchSize: 5}, initial(d, target))
			sched.Settle()
		}
	}
}

// namedPredict is predict for a dataframe whose rows are identified by column id.
func (w *world) namedPredict(f *frame, id string, reg *algorithms.LinearRegressor, weights map[string]float64, lo, hi float64, out string) {
	res, err := reg.Predict(f.df, out)
	check(err == nil && res != nil && res != f.df, "predicting fails: %v", err)
	w.checkAll("predicting")
	pos := positions(f, res, id)
	check(len(pos) == len(f.rows) && res.NumRows() == len(f.rows), "%d rows, expected %d", res.NumRows(), len(f.rows))
	a := res.Floats(out)
	for i, p := range pos {
		want, tol := f.expected(p, weights, lo, hi)
		check(near(a.Get(i), want, tol), "prediction %d into %q is %v, expected %v", i, out, a.Get(i), want)
	}
	want := append(except(f.names(), []string{out}), out)
	if got := sortedCopy(res.Header().NameList()); !sameList(got, sortedCopy(want)) {
		failf("predicting into %q: columns %q, expected %q", out, got, want)
	}
}

// namedCSV reads and writes columns of these names.
func (c *Ctx) namedCSV(g []string) {
	w := newWorld()
	quote := func(s string) string { return `"` + strings.ReplaceAll(s, `"`, `""`) + `"` }
	cells := []string{"1", "x", "0.5", "", "true", "7", "NA", "-1.5", "a b"}
	var head, r1, r2 []string
	for i, n := range g {
		head = append(head, quote(n))
		r1 = append(r1, quote(cells[i]))
		r2 = append(r2, quote(cells[(i*4+i/3)%9]))
	}
	body := strings.Join(r1, ",") + "\n" + strings.Join(r2, ",") + "\n"
	text := strings.Join(head, ",") + "\n" + body
	for i := 0; i < len(g); i++ {
		for k, o := range []csvOpt{
			{cpu: 1 + i%3},
			{exclude: []string{g[i]}, missing: []string{g[(i+1)%9], "NA"}},
			{exclude: []string{g[i], "not a column", g[(i+2)%9]}, intF: true},
			{header: g, exclude: []string{g[i]}, missing: []string{""}},
		} {
			if k == 0 && i > 2 {
				continue
			}
			o.cpu = 1 + (i+k)%3
			t := text
			if o.header != nil {
				t = body
			}
			if f := c.readCase(w, t, o, i%3); f != nil {
				f.diffOrFail()
			}
			sched.Settle()
		}
	}
	f := w.named(6, g)
	w.opReverse(f).do()
	for i, v := range []*frame{f, w.last()} {
		for k, o := range []csvWopt{{order: true}, {comma: ';'}, {marker: g[(i+3)%9], crlf: true, order: true}} {
			if strings.ContainsAny(o.marker, "\n\r") || o.crlf && strings.Contains(strings.Join(g, ""), "\n") {
				o.crlf = false
			}
			var buf bytes.Buffer
			check(v.df.To1CSV(&buf, o.spec()) == nil, "To1CSV fails")
			cols := v.writable()
			sameRows(v.parseCSV(buf.String(), cols, o), v.modelRows(cols, o.marker), o.order, "To1CSV")
			raw, err := dataframe.FromCSV(&buf, dataframe.CSVReadingSpec{MissingValues: []string{o.marker}, Comma: o.comma, MaxCPU: 1 + k})
			check(err == nil, "reading back fails: %v", err)
			if o.marker == "" {
				v.backAgain(raw, cols, o, o.order)
			}
			sched.Settle()
		}
	}
	w.checkAll("reading and writing")
}

func runC39(c *Ctx) {
	sched.SetNumCPU(4)
	// families in every arrangement that matters, the others as they come
	var groups [][]string
	few := map[int]bool{}
	for gi, g := range c.nameGroups() {
		if gi < len(nameFamilies()) {
			for k, p := range paired(g) {
				few[len(groups)] = k%4 == gi%4 && (k/4)%3 == 0
				groups = append(groups, p)
			}
			continue
		}
		for rot := 0; rot < 9; rot++ {
			if rot == 0 || rot == 4 || c.thorough {
				few[len(groups)] = rot == 0
				groups = append(groups, rotated(g, rot))
			}
		}
	}
	other := func(gi int) []string { return groups[(gi+40)%len(groups)] }
	each := func(unit string, body func(g, fresh []string)) {
		c.Unit(unit)
		for gi := range groups {
			gi := gi
			id := ""
			if c.only != "" || c.counter%c.of == c.shard {
				id = spf("%d: names %q", gi, groups[gi])
			}
			c.Case(id, func() { body(groups[gi], other(gi)) })
		}
	}
	var roots, deep []root
	for gi, g := range groups {
		gi, g := gi, g
		r := root{spf("names %q", g), func(w *world) {
			w.labels, w.fresh = g, other(gi)
			w.named(7, g)
			w.opReverse(w.last()).do()
		}}
		if few[gi] || c.thorough {
			roots = append(roots, r)
		}
		if gi < 36*len(nameFamilies()) && few[gi] && (gi%36 < 4 || c.thorough) {
			deep = append(deep, r)
		}
	}
	c.Tree("every operation", roots, treeOpt{depth: 1}, func(w *world, d int) []op {
		return w.namedOps(w.labels, w.fresh)
	})
	c.Tree("two operations", deep, treeOpt{depth: 2}, func(w *world, d int) []op {
		if d == 1 {
			return w.laterNamedOps(w.last().names(), w.fresh)
		}
		return w.namedOps(w.labels, w.fresh)
	})
	each("reading", func(g, fresh []string) {
		w := newWorld()
		f := w.named(7, g)
		w.opReverse(f).do()
		for _, v := range w.frames {
			v.diffOrFail()
			v.vectors()
			v.namedHeaders(fresh)
			for _, cols := range [][]string{{g[0], g[1], g[3], g[7]}, {g[6], g[2], g[1]}, {g[3]}} {
				v.iterate(dataframe.NewFloat32Iterator(v.df, cols), cols, -1)
				v.dense(dataframe.NewDense64Batching(cols), cols)
			}
			w.label(v, g[4])
			w.label(v, g[8])
			if !strings.ContainsAny(strings.Join(g, ""), " \n\t:'") {
				c.checkHead(v, 3, "%.1f")
				c.checkRecords(v, 2, "", nil)
				c.checkRecords(v, 3, "%g", map[string]string{g[1]: "other", g[4]: "%d"})
				c.checkSummary(v)
			}
		}
		w.checkAll("reading")
	})
	each("CSV", func(g, fresh []string) { c.namedCSV(g) })
	for part, what := range []string{"scaling and imputing", "one-hot encoding", "automatic preprocessing", "every component", "regression"} {
		part := part
		each(what, func(g, fresh []string) { c.namedPrep(g, part) })
	}
}

// laterNamedOps: fewer operations, on the columns that are left.
func (w *world) laterNamedOps(g, fresh []string) []op {
	f := w.last()
	l := []op{w.opReverse(f), w.opCopy(f), w.opShallow(f)}
	for i, name := range g {
		next := g[(i+1)%len(g)]
		l = append(l, w.opDetached(f, name))
		if len(f.rows) > 0 {
			l = append(l, w.opOverwrite(f, name, 0))
		}
		if next != name {
			l = append(l, w.opColumnView(f, name, next))
		}
		if f.restructurable() {
			l = append(l, w.opDrop(f, name), w.opAlloc(f, fibso[i%5], name))
			if next != name {
				l = append(l, w.opRename(f, name, next))
			}
			if to := fresh[i%len(fresh)]; f.cols[to] == nil {
				l = append(l, w.opRename(f, name, to))
			}
		}
	}
	return append(l, w.hashes(f)...)
}
