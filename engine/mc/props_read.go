//go:build go1.21

package main

import (
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/zzverif/sched"
	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/encoding/unicode"
)

func init() {
	props["C09"] = propDef{run: runC09}
	props["C17"] = propDef{run: runC17}
	props["C18"] = propDef{run: runC18}
	props["C27"] = propDef{run: runC27}
	props["C28"] = propDef{run: runC28}
	props["C29"] = propDef{run: runC29}
}

// viewForms lists one chain of views for each internal form of a dataframe.
func viewForms() []selOp {
	l := rowSelections()
	for i := range l {
		do := l[i].do
		l[i].do = func(w *world, f *frame) {
			if len(f.rows) == 0 {
				w.opView(f).do()
				return
			}
			do(w, f)
		}
	}
	l = append(l,
		selOp{"doubled", func(w *world, f *frame) { w.opIndex(f, append(seq(len(f.rows)), seq(len(f.rows))...)).do() }},
		selOp{"shuffled", func(w *world, f *frame) {
			if f.idOK("id") {
				shuffled(2, w.opShuffle(f, "id")).do()
			}
		}},
		selOp{"sliced twice", func(w *world, f *frame) {
			w.opSlice(f, len(f.rows)/3, -1).do()
			w.opSlice(w.last(), 0, len(w.last().rows)/2).do()
		}},
		selOp{"slice of shuffled", func(w *world, f *frame) {
			w.opReverse(f).do()
			w.opSlice(w.last(), len(f.rows)/4, len(f.rows)/4*3).do()
		}},
		selOp{"reset", func(w *world, f *frame) { w.opReverse(f).do(); w.opReset(w.last()).do() }},
		selOp{"column view", func(w *world, f *frame) { w.opReverse(f).do(); w.opColumnView(w.last(), f.names()...).do() }},
		selOp{"detached", func(w *world, f *frame) { w.opReverse(f).do(); w.opDetached(w.last(), f.names()[0]).do() }},
	)
	return l
}

// ---- C09 ---------------------------------------------------------------------------

func asFloat(v interface{}) float64 {
	switch x := v.(type) {
	case float64:
		return x
	case int:
		return float64(x)
	case bool:
		if x {
			return 1
		}
		return 0
	}
	panic("harness: not a number")
}

func (f *frame) iterate(ite *dataframe.Float32Iterator, cols []string, stopAt int) {
	if !sameList(ite.Columns(), cols) {
		failf("the iterator has columns %v, expected %v", ite.Columns(), cols)
	}
	inner := dataframe.DataFrameInternals{DF: f.df}.GetIndices()
	for k := range f.rows {
		if k == stopAt {
			return
		}
		row, at, in := ite.NextRow()
		if row == nil {
			failf("%s: the iterator ends after %d rows of %d", f.name, k, len(f.rows))
		}
		if at != k || in != inner[k] {
			failf("%s: row %d is delivered with positions %d and %d (expected %d, %d)", f.name, k, at, in, k, inner[k])
		}
		check(len(row) == len(cols), "%s: row of %d elements for %d columns", f.name, len(row), len(cols))
		for j, c := range cols {
			want := float32(asFloat(f.cols[c].cells[k].v))
			if row[j] != want && !(row[j] != row[j] && want != want) {
				failf("%s: the iterator delivers %v for column %s of row %d, expected %v", f.name, row[j], c, k, want)
			}
			row[j] = -77 // must not reach the dataframe
		}
	}
	for k := 0; k < 2; k++ {
		row, at, _ := ite.NextRow()
		if row != nil || at != len(f.rows) {
			failf("%s: the iterator does not end after %d rows", f.name, len(f.rows))
		}
	}
}

func (f *frame) dense(bat *dataframe.Dense64Batching, cols []string) {
	m := bat.DenseMatrix(f.df)
	r, k := m.Dims()
	if len(f.rows) == 0 {
		check(r == 0, "%s: matrix of %d rows for no rows", f.name, r)
		return
	}
	if r != len(f.rows) || k != len(cols) {
		failf("%s: matrix of %dx%d for %d rows and %d columns", f.name, r, k, len(f.rows), len(cols))
	}
	for i := range f.rows {
		for j, c := range cols {
			want := asFloat(f.cols[c].cells[i].v)
			if got := m.At(i, j); !sameVal(got, want) {
				failf("%s: the matrix has %v for column %s of row %d, expected %v", f.name, got, c, i, want)
			}
		}
	}
	if d, ok := m.(interface{ Set(i, j int, v float64) }); ok {
		d.Set(0, 0, -99)
	}
	if d, ok := m.T().(interface{ Set(i, j int, v float64) }); ok {
		for i := range f.rows {
			for j := range cols {
				d.Set(j, i, -99)
			}
		}
	}
}

func (f *frame) vectors() {
	for _, name := range f.ofKind(kF) {
		a := f.df.Floats(name)
		check(a.Size() == len(f.rows), "%s[%s]: size %d", f.name, name, a.Size())
		for pass := 0; pass < 2; pass++ {
			v := a.VecDense()
			if pass == 1 {
				v = a.VecDenseCopy()
			}
			check(v.Len() == len(f.rows), "%s[%s]: vector of %d elements for %d rows", f.name, name, v.Len(), len(f.rows))
			for i, x := range f.cols[name].cells {
				if !sameVal(v.AtVec(i), x.v) {
					failf("%s[%s]: vector element %d is %v, expected %v", f.name, name, i, v.AtVec(i), x.v)
				}
				if pass == 1 {
					v.SetVec(i, -88)
				}
			}
		}
	}
	dfi := dataframe.DataFrameInternals{DF: f.df}
	inner := dfi.GetIndices()
	check(len(inner) == len(f.rows), "%s: %d inner indices for %d rows", f.name, len(inner), len(f.rows))
	if !f.df.AreIndicesAltered() {
		for i, j := range inner {
			if i != j {
				failf("%s: the indices are %v but not reported as altered", f.name, inner)
			}
		}
	}
	for _, name := range f.names() {
		// the raw data, at the inner indices
		floats, ints, bools, objects := dfi.FloatData(name), dfi.IntData(name), dfi.BoolData(name), dfi.ObjectData(name)
		for i, x := range f.cols[name].cells {
			var got interface{}
			j := inner[i]
			switch {
			case f.cols[name].kind == kF && j < len(floats):
				got = floats[j]
			case f.cols[name].kind == kI && j < len(ints):
				got = ints[j]
			case f.cols[name].kind == kB && j < len(bools):
				got = bools[j]
			case f.cols[name].kind == kO && j < len(objects):
				got = objects[j]
			default:
				failf("%s[%s]: no raw data at index %d", f.name, name, j)
			}
			if !sameVal(got, x.v) {
				failf("%s[%s]: the raw data of row %d is %s, expected %s", f.name, name, i, show(got), show(x.v))
			}
		}
		vals := f.df.CopyValuesToInterfaces(name)
		check(len(vals) == len(f.rows), "%s[%s]: %d interfaces for %d rows", f.name, name, len(vals), len(f.rows))
		for i, x := range f.cols[name].cells {
			if !sameVal(vals[i], x.v) {
				failf("%s[%s]: interface copy of row %d is %s, expected %s", f.name, name, i, show(vals[i]), show(x.v))
			}
			vals[i] = "scribble"
		}
	}
	for _, name := range f.ofKind(kI) {
		a := f.df.Ints(name)
		for i := range f.rows {
			check(a.SharedIndex(i) == inner[i], "%s[%s]: SharedIndex(%d) is %d, expected %d", f.name, name, i, a.SharedIndex(i), inner[i])
		}
	}
}

func runC09(c *Ctx) {
	forms := viewForms()
	spec := "id:d f1:f i1:i b1:b f2:f s1:s o1:o"
	colSets := [][]string{{"id", "f1", "i1", "b1", "f2"}, {"b1", "f2", "id"}, {"f1"}, {"i1", "f1"}, {"b1"}}
	sizes := []int{0, 1, 2, 5, 12, 23, 64, 127, 128, 129, 255, 256, 257, 300, 384, 385, 1000}
	c.Unit("all read paths, every form and size")
	for _, n := range sizes {
		for _, a := range forms {
			n, a := n, a
			c.Case(fmt.Sprintf("n=%d %s", n, a.name), func() {
				w := newWorld()
				f := w.build(n, specs(spec))
				a.do(w, f)
				v := w.last()
				v.diffOrFail()
				v.vectors()
				for _, cols := range colSets {
					v.iterate(dataframe.NewFloat32Iterator(v.df, cols), cols, -1)
					v.dense(dataframe.NewDense64Batching(cols), cols)
				}
				w.opCopy(v).do()
				w.checkAll("reading")
				w.last().vectors()
				g := w.last()
				g.dense(dataframe.NewDense64Batching(colSets[0]), colSets[0])
				g.iterate(dataframe.NewFloat32Iterator(g.df, colSets[0]), colSets[0], -1)
				w.checkAll("reading")
			})
		}
	}
	readAll := func(w *world, cols []string) {
		for _, f := range w.frames {
			f.vectors()
			f.iterate(dataframe.NewFloat32Iterator(f.df, cols), cols, -1)
			f.dense(dataframe.NewDense64Batching(cols), cols)
		}
		w.checkAll("reading")
	}
	c.Unit("every row count")
	for _, n := range rowCounts(400, 10000) {
		n := n
		c.Case(fmt.Sprintf("n=%d", n), func() {
			w := newWorld()
			f := w.build(n, specs("id:d f1:f b1:b"))
			w.opReverse(f).do()
			w.opSlice(f, n/3, n-n/4).do()
			if n > 0 {
				w.opIndex(f, append(seq(n), 0, n-1)).do()
			}
			readAll(w, []string{"b1", "id", "f1"})
		})
	}
	c.Unit("every column count")
	for k := 1; k <= 70; k++ {
		for _, n := range []int{1, 3, 129} {
			for order := 0; order < 3; order++ {
				k, n, order := k, n, order
				c.Case(fmt.Sprintf("columns=%d rows=%d order=%d", k, n, order), func() {
					w := newWorld()
					f := w.build(n, manySpecs(k))
					w.opReverse(f).do()
					var cols []string
					for _, name := range f.names() {
						if f.cols[name].kind != kO {
							cols = append(cols, name)
						}
					}
					for i := range cols {
						switch order {
						case 1:
							if j := len(cols) - 1 - i; i < j {
								cols[i], cols[j] = cols[j], cols[i]
							}
						case 2:
							j := i * 7 % len(cols)
							cols[i], cols[j] = cols[j], cols[i]
						}
					}
					readAll(w, cols)
				})
			}
		}
	}
	c.Unit("unusual values")
	for n := 1; n <= 40; n++ {
		n := n
		c.Case(fmt.Sprintf("n=%d", n), func() {
			w := newWorld()
			f := w.build(n, specs(oddTypes))
			w.opReverse(f).do()
			w.opCopy(w.last()).do()
			readAll(w, []string{"F", "I", "b", "id"})
			readAll(w, []string{"I"})
			readAll(w, []string{"b", "F"})
		})
	}
	// one batching object and one iterator for a sequence of dataframes
	c.Unit("reuse over sequences of sizes")
	pool := []int{0, 1, 2, 3, 5, 9, 40, 130}
	ln := 3
	if c.thorough {
		ln = 4
		pool = append(pool, 4)
	}
	for l := 2; l <= ln; l++ {
		for ci, cols := range colSets {
			for alt := 0; alt < 2; alt++ {
				cols, alt, ci := cols, alt, ci
				tuples(len(pool), l, func(t []int) {
					t = append([]int{}, t...)
					var ns []int
					for _, k := range t {
						ns = append(ns, pool[k])
					}
					c.Case(fmt.Sprintf("batching sizes=%v cols=%v form=%d", ns, cols, alt), func() {
						w := newWorld()
						bat := dataframe.NewDense64Batching(cols)
						for k, n := range ns {
							f := w.build(n, specs(spec))
							if (k+alt)%2 == 1 {
								w.opReverse(f).do()
							}
							w.last().dense(bat, cols)
						}
						w.checkAll("batching")
					})
					_ = ci
				})
			}
		}
	}
	c.Unit("iterator reset")
	ip := []int{0, 1, 3, 127, 128, 129, 200, 256, 300}
	for _, cols := range colSets[:3] {
		for _, n1 := range ip {
			for _, n2 := range ip {
				for _, stop := range []int{0, 1, 2, 64, 127, 128, 129, 200, -1} {
					for chk := 0; chk < 2; chk++ {
						n1, n2, stop, cols, chk := n1, n2, stop, cols, chk
						if stop > n1 {
							continue
						}
						c.Case(fmt.Sprintf("%d rows, reset after %d, %d rows, %v check=%d", n1, stop, n2, cols, chk), func() {
							w := newWorld()
							f := w.build(n1, specs(spec))
							g := w.build(n2, specs(spec))
							w.opReverse(g).do()
							ite := dataframe.NewFloat32Iterator(f.df, cols)
							f.iterate(ite, cols, stop)
							ite.Reset(w.last().df, chk == 1)
							w.last().iterate(ite, cols, -1)
							ite.Reset(f.df, true)
							f.iterate(ite, cols, -1)
							w.checkAll("iterating")
						})
					}
				}
			}
		}
	}
	c.Tree("reading in view chains", []root{rootOf(3, spec), rootOf(0, spec), rootOf(40, "id:d f1:f i1:i b1:b f2:f")}, treeOpt{depth: 3, noProbe: true, extra: func(w *world) {
		f := w.last()
		f.vectors()
		for _, cols := range colSets[:2] {
			if f.has(cols...) {
				f.iterate(dataframe.NewFloat32Iterator(f.df, cols), cols, -1)
				f.dense(dataframe.NewDense64Batching(cols), cols)
			}
		}
		w.checkAll("reading")
	}}, func(w *world, d int) []op {
		f := w.last()
		n := len(f.rows)
		l := w.someRows(f)
		l = append(l, w.opShallow(f), w.opCopy(f), w.opDetached(f, "f1"), w.opSlice(f, 0, n/2), w.opSlice(f, n, 0), w.opReset(f))
		if f.restructurable() && f.deriv {
			l = append(l, w.opAlloc(f, 'f', "f2"), w.opToFloats(f, "i1"), w.opToFloats(f, "b1"))
			if f.cols["i1"].kind != kI {
				l = l[:len(l)-2]
			} else if f.cols["b1"].kind != kB {
				l = l[:len(l)-1]
			}
		}
		if n > 0 {
			l = append(l, w.opOverwrite(f, "f1", 0), w.opSet(f, "f1", n-1), w.opSet(f, "id", 0))
		}
		return l
	})
}

// ---- C17 ---------------------------------------------------------------------------

type enc struct {
	name string
	e    encoding.Encoding
}

var encodings = []enc{
	{"utf8", nil},
	{"latin1", charmap.ISO8859_1},
	{"windows1252", charmap.Windows1252},
	{"shiftjis", japanese.ShiftJIS},
	{"utf16", unicode.UTF16(unicode.BigEndian, unicode.UseBOM)},
	{"utf16le", unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM)},
	{"iso2022jp", japanese.ISO2022JP},
}

// conv converts a string between encodings.
func conv(s string, from, to encoding.Encoding) (string, bool) {
	var err error
	if from != nil {
		s, err = from.NewDecoder().String(s)
		if err != nil {
			return "", false
		}
	}
	if to != nil {
		s, err = to.NewEncoder().String(s)
		if err != nil {
			return "", false
		}
	}
	return s, true
}

// encFrame builds a frame with two string columns of the texts, in enc e.
func (w *world) encFrame(texts []interface{}, e encoding.Encoding) *frame {
	n := len(texts)
	b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
	f := &frame{cols: map[string]*col{}, rows: w.newRows(n)}
	mk := func(name string, str bool, val func(i int) interface{}) {
		c := &col{kind: kO, str: str}
		vals := make([]interface{}, n)
		for i := range vals {
			vals[i] = val(i)
			c.cells = append(c.cells, &cell{vals[i]})
		}
		b.SetObjects(name, vals)
		if str {
			b.MarkAsString(name)
		}
		f.cols[name] = c
	}
	in := func(v interface{}) interface{} {
		if s, ok := v.(string); ok {
			r, ok := conv(s, nil, e)
			if !ok {
				panic("harness: text does not fit the encoding")
			}
			return r
		}
		return v
	}
	mk("s1", true, func(i int) interface{} { return in(texts[i]) })
	mk("s2", true, func(i int) interface{} { return in(texts[n-1-i]) })
	mk("obj", false, func(i int) interface{} { return "é" }) // not marked: left alone
	ids := make([]int, n)
	c := &col{kind: kI}
	for i := range ids {
		ids[i] = i * 3
		c.cells = append(c.cells, &cell{ids[i]})
	}
	b.SetInts("id", ids)
	f.cols["id"] = c
	b.TextEncoding(e)
	f.df = b.ToDataFrame()
	w.add(f, "strings %q", texts)
	return f
}

// encode converts the strings of f in the code and in the model.
func (w *world) encode(f *frame, from, to enc) bool {
	w.logf("%s.Encode(%s) from %s", f.name, to.name, from.name)
	err := f.df.Encode(to.e)
	conved := map[*cell]string{}
	ok := true
	for _, n := range f.strCols() {
		for _, x := range f.cols[n].cells {
			if s, is := x.v.(string); is {
				r, good := conv(s, from.e, to.e)
				if !good {
					ok = false
				}
				conved[x] = r
			}
		}
	}
	if from.e == to.e {
		ok = true
		conved = nil
	}
	if ok && err != nil {
		failf("%s.Encode(%s) from %s fails: %v\n  %s", f.name, to.name, from.name, err, strings.Join(w.log, "\n  "))
	}
	if !ok && err == nil {
		failf("%s.Encode(%s) from %s succeeds although a string cannot be converted\n  %s", f.name, to.name, from.name, strings.Join(w.log, "\n  "))
	}
	if ok {
		for x, s := range conved {
			x.v = s
		}
	}
	w.checkAll("encoding")
	return ok
}

// opEncode converts f from the encoding it is declared with.
func (w *world) opEncode(f *frame, to enc) op {
	return op{spf("%s.Encode(%s)", f.name, to.name), func() {
		from := encodings[0]
		for _, e := range encodings {
			if e.name == f.enc {
				from = e
			}
		}
		if w.encode(f, from, to) {
			f.enc = to.name
		}
	}}
}

// encodeTrees: histories of dataframes that are converted, restructured and joined,
// whatever they share.
func (c *Ctx) encodeTrees() {
	some, last := []enc{encodings[0], encodings[1], encodings[5]}, 2
	if c.thorough {
		some, last = append(some, encodings[3]), 3
	}
	var roots []root
	for _, texts := range [][]interface{}{{"é", nil, "ab"}, {"ab", "한", "ü", nil}, {}, {"x"}} {
		texts := texts
		roots = append(roots, root{spf("strings %q", texts), func(w *world) { w.encFrame(texts, nil) }})
	}
	roots = append(roots, root{"latin1 and utf16", func(w *world) {
		a := w.encFrame([]interface{}{"é", nil, "ab"}, encodings[1].e)
		a.enc = encodings[1].name
		b := w.encFrame([]interface{}{"é", "z", "ab"}, encodings[5].e)
		b.enc = encodings[5].name
	}})
	gen := func(w *world, d int) []op {
		var l []op
		fs := w.pick(last)
		for _, f := range fs {
			n := len(f.rows)
			for _, e := range some {
				l = append(l, w.opEncode(f, e))
			}
			l = append(l, w.opCopy(f), w.opShallow(f))
			if n > 0 {
				l = append(l, w.opReverse(f), w.opIndex(f, append(seq(n), 0, n-1)), w.opSlice(f, 1, -1))
			}
			if ns := f.strCols(); len(ns) > 0 {
				l = append(l, w.opColumnView(f, ns[0]), w.opDetached(f, ns[0]))
				if f.restructurable() {
					l = append(l, w.opRename(f, ns[len(ns)-1], "ren"+spf("%d", len(w.frames))), w.opAlloc(f, 's', ns[0]))
				}
			}
			for _, g := range fs {
				if f.enc == g.enc && sameColumns([]*frame{f, g}) && len(f.rows)+len(g.rows) < 9 {
					l = append(l, w.opRowConcat(f, g))
				}
				if f != g && f.enc == g.enc && sharesNoName([]*frame{f, g}) && len(f.rows) == len(g.rows) {
					l = append(l, w.opColConcat(ccView, f, g), w.opColConcat(ccCopy, f, g))
				}
			}
		}
		return l
	}
	c.Tree("histories with conversions", roots, treeOpt{depth: 4, noProbe: true}, gen)
}

func runC17(c *Ctx) {
	common := []interface{}{"", "abc", nil, "x,y", "zz"}
	latin := []interface{}{"é", "ABC", nil, "Ärger", "£5"}
	jp := []interface{}{"日本", "a", nil, "ﾃｽﾄ"}
	mixed := []interface{}{"plain", "é", nil, "日本", "€"}
	fits := func(texts []interface{}, e encoding.Encoding) bool {
		for _, t := range texts {
			if s, ok := t.(string); ok {
				if _, ok := conv(s, nil, e); !ok {
					return false
				}
			}
		}
		return true
	}
	forms := append(viewForms(), selOp{"view of doubled", func(w *world, f *frame) {
		w.opIndex(f, append(seq(len(f.rows)), seq(len(f.rows))...)).do()
		w.opReverse(w.last()).do()
	}})
	c.Unit("conversions on every form")
	for ti, texts := range [][]interface{}{common, latin, jp, mixed, {}, {"é"}, {nil, nil}} {
		for _, from := range encodings {
			if !fits(texts, from.e) {
				continue
			}
			for _, to := range encodings {
				for _, form := range forms {
					texts, from, to, form := texts, from, to, form
					c.Case(fmt.Sprintf("texts=%d %s->%s %s", ti, from.name, to.name, form.name), func() {
						if len(texts) < 2 && form.name != "as is" && form.name != "doubled" {
							return
						}
						w := newWorld()
						f := w.encFrame(texts, from.e)
						form.do(w, f)
						v := w.last()
						var before []interface{}
						for _, x := range v.cols["s1"].cells {
							before = append(before, x.v)
						}
						_, fitting := conv("a", from.e, to.e)
						_ = fitting
						w.encode(v, from, to)
						cur := to
						if len(v.rows) > 0 && !fits(texts, to.e) {
							// either a failure, or the rows that do not fit are not visible
							if !sameVal(v.df.Objects("s1").Get(0), v.cols["s1"].cells[0].v) {
								failf("unexpected value")
							}
							cur = from
							for i, x := range v.cols["s1"].cells {
								if !sameVal(x.v, before[i]) {
									cur = to
								}
							}
							if cur.name == from.name {
								// nothing visible tells: ask for the original again
								if err := v.df.Encode(from.e); err != nil {
									failf("converting back fails: %v", err)
								}
								w.checkAll("encoding back")
								return
							}
						}
						w.encode(v, cur, from)
						for i, x := range v.cols["s1"].cells {
							if !sameVal(x.v, before[i]) {
								failf("converting back gives %s, expected %s", show(x.v), show(before[i]))
							}
						}
					})
				}
			}
		}
	}
	c.encodeTrees()
	// every placement of a string that cannot be converted
	c.Unit("unconvertible string at every place")
	for n := 1; n <= 5; n++ {
		for bad := 0; bad < 2*n; bad++ {
			for _, to := range []enc{encodings[1], encodings[3]} {
				for _, from := range []enc{encodings[0], encodings[4], encodings[5]} {
					for form := 0; form < 3; form++ {
						n, bad, to, from, form := n, bad, to, from, form
						c.Schedules(fmt.Sprintf("n=%d bad=%d %s->%s form=%d", n, bad, from.name, to.name, form), func(e *sched.Explorer) { e.Bound[sched.KMap] = 1 }, func() {
							w := newWorld()
							texts := make([]interface{}, n)
							for i := range texts {
								texts[i] = fmt.Sprintf("t%d", i)
								if to.name == "latin1" && i%2 == 0 {
									texts[i] = "é"
								}
							}
							f := w.encFrame(texts, from.e)
							s, _ := conv("한", nil, from.e)
							name := "s1"
							if bad >= n {
								name = "s2"
							}
							f.cols[name].cells[bad%n].v = s
							f.df.Objects(name).Set(bad%n, s)
							switch form {
							case 1:
								w.opReverse(f).do()
							case 2:
								w.opIndex(f, append(seq(n), seq(n)...)).do()
							}
							w.encode(w.last(), from, to)
							w.encode(w.last(), from, encodings[0])
						})
					}
				}
			}
		}
	}
	c.Unit("every row count")
	for _, n := range rowCounts(80, 5000) {
		for bad := 0; bad < 4; bad++ {
			for form := 0; form < 3; form++ {
				if n == 0 && bad > 0 || n > 1100 && form > 1 {
					continue
				}
				n, bad, form := n, bad, form
				c.Case(fmt.Sprintf("n=%d bad=%d form=%d", n, bad, form), func() {
					w := newWorld()
					texts := make([]interface{}, n)
					for i := range texts {
						switch i % 5 {
						case 0:
							texts[i] = "é"
						case 1:
							texts[i] = nil
						default:
							texts[i] = fmt.Sprintf("t%d", i)
						}
					}
					if bad > 0 {
						texts[[]int{0, 0, n / 2, n - 1}[bad]] = "한"
					}
					f := w.encFrame(texts, nil)
					switch form {
					case 1:
						w.opReverse(f).do()
					case 2:
						w.opIndex(f, append(seq(n), seq(n)...)).do()
					}
					v := w.last()
					w.encode(v, encodings[0], encodings[1])
					if bad == 0 {
						w.encode(v, encodings[1], encodings[0])
					}
					w.encode(v, encodings[0], encodings[0])
				})
			}
		}
	}
	c.Unit("every number of string columns")
	for k := 1; k <= 40; k++ {
		for bad := -1; bad < k; bad++ {
			k, bad := k, bad
			c.Case(fmt.Sprintf("columns=%d bad=%d", k, bad), func() {
				w := newWorld()
				var cols []tcol
				for i := 0; i < k; i++ {
					t := []interface{}{"é", fmt.Sprintf("c%d", i), nil}
					if i == bad {
						t[1] = "한"
					}
					cols = append(cols, tcol{fmt.Sprintf("s%d", i), 's', t})
				}
				f := w.table(3, cols...)
				w.encode(f, encodings[0], encodings[1])
				if bad < 0 {
					w.encode(f, encodings[1], encodings[2])
				}
			})
		}
	}
	c.Unit("the declared encoding follows the data")
	type deriv struct {
		name string
		do   func(w *world, f *frame)
	}
	derivs := []deriv{
		{"none", func(w *world, f *frame) {}},
		{"Copy", func(w *world, f *frame) { w.opCopy(f).do() }},
		{"ShallowCopy", func(w *world, f *frame) { w.opShallow(f).do() }},
		{"View", func(w *world, f *frame) { w.opView(f).do() }},
		{"ColumnView", func(w *world, f *frame) { w.opColumnView(f, "s1", "id").do() }},
		{"DetachedView", func(w *world, f *frame) { w.opDetached(f).do() }},
		{"reversed", func(w *world, f *frame) { w.opReverse(f).do() }},
		{"slice", func(w *world, f *frame) { w.opSlice(f, 1, -1).do() }},
		{"hash", func(w *world, f *frame) { w.opHash(f, "s2").do() }},
		{"RowConcat", func(w *world, f *frame) { w.opRowConcat(f, f).do() }},
		{"renamed", func(w *world, f *frame) {
			w.opView(f).do()
			w.opRename(w.last(), w.last().strCols()[0], "s9").do()
			w.opAlloc(w.last(), 'f', "z").do()
		}},
		{"ColumnConcatView", func(w *world, f *frame) {
			w.opColumnView(f, f.strCols()[0]).do()
			a := w.last()
			w.opColumnView(f, "id").do()
			w.opColConcat(ccView, a, w.last()).do()
		}},
		{"ColumnCopyConcat", func(w *world, f *frame) {
			w.opColumnView(f, f.strCols()[0]).do()
			a := w.last()
			w.opColumnView(f, "id").do()
			w.opColConcat(ccCopy, a, w.last()).do()
		}},
	}
	for _, from := range encodings {
		for _, to := range encodings[:3] {
			for _, d1 := range derivs {
				for _, d2 := range derivs {
					from, to, d1, d2 := from, to, d1, d2
					if d1.name == "ColumnView" && d2.name == "hash" || d1.name == "renamed" && d2.name == "hash" || d1.name == "ColumnConcatView" && d2.name == "hash" || d1.name == "ColumnCopyConcat" && d2.name == "hash" ||
						d1.name == "hash" && d2.name == "hash" || d2.name == "ColumnView" && (d1.name == "renamed" || strings.HasPrefix(d1.name, "ColumnC")) {
						continue
					}
					c.Case(fmt.Sprintf("%s->%s %s/%s", from.name, to.name, d1.name, d2.name), func() {
						w := newWorld()
						f := w.encFrame([]interface{}{"é", nil, "abc", "ü"}[:4-boolInt(from.name == "shiftjis" || from.name == "iso2022jp")], nil)
						if from.name == "shiftjis" || from.name == "iso2022jp" {
							w = newWorld()
							f = w.encFrame([]interface{}{"日本", nil, "a"}, from.e)
						} else {
							w = newWorld()
							f = w.encFrame([]interface{}{"é", nil, "abc", "ü"}, from.e)
						}
						d1.do(w, f)
						d2.do(w, w.last())
						v := w.last()
						w.encode(v, from, to)
					})
				}
			}
		}
	}
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ---- C18 ---------------------------------------------------------------------------

func runC18(c *Ctx) {
	alphabet := []interface{}{nil, "", "a", "b", "aa", "ab", "ba", "A", "é", "日本", "\x00", "\xff", "a\x00", "0", "-1", "nil", "missing", strings.Repeat("x", 300)}
	// every string of length <= 2 (3 in the thorough tier) over a small alphabet
	c.Unit("distinct strings")
	c.Case("short strings", func() {
		var texts []interface{}
		letters := []byte("abcxyz019 -_\x00\xff\x80A")
		l := 2
		if c.thorough {
			l = 3
		}
		for k := 0; k <= l; k++ {
			tuples(len(letters), k, func(t []int) {
				b := make([]byte, k)
				for i := range t {
					b[i] = letters[t[i]]
				}
				texts = append(texts, string(b))
			})
		}
		for i := 0; i < 3000; i++ {
			texts = append(texts, fmt.Sprintf("category-%d", i), fmt.Sprint(i*7919))
		}
		seen := map[interface{}]bool{}
		var uniq []interface{}
		for _, t := range texts {
			if !seen[t] {
				seen[t] = true
				uniq = append(uniq, t)
			}
		}
		w := newWorld()
		f := w.encFrame(uniq, nil)
		w.opHash(f, "s1").do()
		w.opHash(f, "s2", "s1").do()
	})
	// the codes do not depend on the process
	for _, s := range []string{"", "a", "hello"} {
		h := -1
		sched.Run(func() {
			w := newWorld()
			f := w.encFrame([]interface{}{s}, nil)
			h = f.df.HashStringsView("s1").Ints("s1").Get(0)
		})
		c.constant("hash of "+fmt.Sprintf("%q", s), fmt.Sprint(h))
	}
	forms := viewForms()
	c.Unit("every form, number of columns and CPUs")
	for n := 0; n <= 14; n++ {
		for _, form := range forms {
			for cpu := 1; cpu <= 4; cpu++ {
				n, form, cpu := n, form, cpu
				c.Case(fmt.Sprintf("n=%d %s cpu=%d", n, form.name, cpu), func() {
					w := newWorld()
					sched.SetNumCPU(4)
					texts := make([]interface{}, n)
					for i := range texts {
						texts[i] = alphabet[(i*5+n)%len(alphabet)]
					}
					f := w.encFrame(texts, nil)
					f.df.SetMaxCPU(cpu)
					form.do(w, f)
					v := w.last()
					w.opHash(v, "s1").do()
					w.opHash(v, "s1", "s2").do()
					w.opHash(w.frames[len(w.frames)-2], "s2").do()
					h := w.last()
					w.opHash(v).do()
					w.checkAll("hashing")
					// codes also follow later views and restructuring
					w.opReverse(h).do()
					w.checkAll("hashing")
					w.probe()
					// the input keeps its columns when the result changes
					if h.restructurable() {
						w.opDrop(h, "s1").do()
						w.opRename(h, "id", "other").do()
					}
					w.checkAll("restructuring the hashed view")
				})
			}
		}
	}
	c.Unit("every row count")
	for _, n := range rowCounts(80, 10000) {
		for cpu := 1; cpu <= 3; cpu += 2 {
			n, cpu := n, cpu
			c.Case(fmt.Sprintf("n=%d cpu=%d", n, cpu), func() {
				w := newWorld()
				sched.SetNumCPU(4)
				texts := make([]interface{}, n)
				for i := range texts {
					texts[i] = fmt.Sprintf("text %d", i*i%(1+n/3))
					if i%7 == 3 {
						texts[i] = alphabet[(i*5+n)%len(alphabet)]
					}
				}
				f := w.encFrame(texts, nil)
				f.df.SetMaxCPU(cpu)
				w.opHash(f, "s1").do()
				w.opReverse(f).do()
				w.opHash(w.last(), "s1", "s2").do()
				w.label(f, "s1")
				w.opSlice(f, n/2, -1).do()
				w.opHash(w.last(), "s2").do()
				w.label(w.frames[len(w.frames)-2], "s2")
				w.checkAll("hashing")
			})
		}
	}
	c.Unit("every number of string columns")
	for k := 1; k <= 40; k++ {
		for cpu := 1; cpu <= 4; cpu++ {
			k, cpu := k, cpu
			c.Case(fmt.Sprintf("columns=%d cpu=%d", k, cpu), func() {
				w := newWorld()
				sched.SetNumCPU(4)
				var cols []tcol
				for i := 0; i < k; i++ {
					cols = append(cols, tcol{fmt.Sprintf("s%d", i), 's', []interface{}{fmt.Sprintf("v%d", i), nil, "", "same"}})
				}
				f := w.table(4, cols...)
				f.df.SetMaxCPU(cpu)
				w.opHash(f, f.names()...).do()
				w.opHash(f, f.names()[k/2:]...).do()
				w.opHash(f, f.names()[:1]...).do()
				w.checkAll("hashing")
			})
		}
	}
	c.Unit("every length of strings")
	for l := 0; l <= 300; l++ {
		l := l
		c.Case(fmt.Sprintf("length=%d", l), func() {
			w := newWorld()
			s := strings.Repeat("ab", l/2) + strings.Repeat("c", l%2)
			texts := []interface{}{s, s + "x", "x" + s, nil, strings.Repeat(s, 10)}
			if l > 0 {
				texts = append(texts, s[:l-1]+"z", "z"+s[1:])
			}
			if l == 0 {
				texts = texts[:4]
			}
			f := w.encFrame(texts, nil)
			w.opHash(f, "s1", "s2").do()
			w.label(f, "s1")
			w.checkAll("hashing")
		})
	}
	c.Unit("non-string values")
	c.Case("objects in a string column", func() {
		b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
		b.AddObjects("s", "a", 12, nil, &obj{3}, "a", 1.5, true).MarkAsString("s")
		df := b.ToDataFrame()
		h := df.HashStringsView("s").Ints("s")
		for i := 0; i < 7; i++ {
			if i == 0 || i == 4 {
				hashModel("a", h.Get(i))
			} else {
				check(h.Get(i) == -1, "code of non-string %d is %d", i, h.Get(i))
			}
		}
	})
	c.Unit("hash of unmarked object columns")
	c.Case("unmarked", func() {
		b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
		b.AddObjects("s", "a", nil, "b")
		h := b.ToDataFrame().HashStringsView("s").Ints("s")
		hashModel("a", h.Get(0))
		hashModel("b", h.Get(2))
		check(h.Get(1) == -1, "missing")
	})
	// labels
	c.Unit("all short label columns")
	lab := []interface{}{nil, "", "b", "a", "a "}
	ml := 5
	if c.thorough {
		ml = 6
	}
	for l := 0; l <= ml; l++ {
		tuples(len(lab), l, func(t []int) {
			texts := make([]interface{}, l)
			for i, k := range t {
				texts[i] = lab[k]
			}
			c.Case(fmt.Sprintf("labels %q", texts), func() {
				w := newWorld()
				f := w.encFrame(texts, nil)
				w.label(f, "s1")
				w.opReverse(f).do()
				w.label(w.last(), "s1")
				w.label(w.last(), "s2")
				if l > 0 {
					w.opIndex(f, append(seq(l), seq(l)...)).do()
					w.label(w.last(), "s2")
					w.opSlice(f, 1, -1).do()
					w.label(w.last(), "s1")
				}
				w.checkAll("labelling")
			})
		})
	}
	c.Unit("labels on every form")
	for n := 0; n <= 30; n++ {
		for _, form := range forms {
			n, form := n, form
			c.Case(fmt.Sprintf("n=%d %s", n, form.name), func() {
				w := newWorld()
				texts := make([]interface{}, n)
				for i := range texts {
					texts[i] = alphabet[(i*i+n)%len(alphabet)]
				}
				f := w.encFrame(texts, nil)
				form.do(w, f)
				w.label(w.last(), "s1")
				w.label(w.last(), "s2")
				w.checkAll("labelling")
			})
		}
	}
}

func (w *world) label(f *frame, name string) {
	codes, mapping := f.df.LabelToInt(name)
	check(len(codes) == len(f.rows), "%d labels for %d rows", len(codes), len(f.rows))
	want := map[string]int{}
	for i, x := range f.cols[name].cells {
		e := -1
		if s, ok := x.v.(string); ok {
			if _, ok := want[s]; !ok {
				want[s] = len(want)
			}
			e = want[s]
		}
		if codes[i] != e {
			failf("label of row %d (%s) is %d, expected %d", i, show(x.v), codes[i], e)
		}
	}
	if len(mapping) != len(want) {
		failf("mapping %v, expected %v", mapping, want)
	}
	for s, k := range want {
		if g, ok := mapping[s]; !ok || g != k {
			failf("mapping %v, expected %v", mapping, want)
		}
	}
}

// ---- C27 ---------------------------------------------------------------------------

// capture runs f and returns what it printed.
func (c *Ctx) capture(f func()) string {
	d := filepath.Join(c.scratch, "stdout")
	out, err := os.OpenFile(d, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o600)
	if err != nil {
		panic("harness: " + err.Error())
	}
	old := os.Stdout
	os.Stdout = out
	func() {
		defer func() { os.Stdout = old }()
		f()
	}()
	out.Seek(0, 0)
	b, _ := io.ReadAll(out)
	out.Close()
	return string(b)
}

func printed(c *col, x *cell, format string) (string, bool) {
	switch v := x.v.(type) {
	case float64:
		return " " + fmt.Sprintf(format, v), true
	case int:
		return fmt.Sprintf(" %d", v), true
	case bool:
		if v {
			return " 1", true
		}
		return " 0", true
	case nil:
		return " <missing>", true
	case string:
		if c.str {
			return " '" + v + "'", true
		}
	}
	return "", false // an object: its rendering is not specified
}

func (c *Ctx) checkHead(f *frame, n int, format string) {
	var ret *dataframe.DataFrame
	text := c.capture(func() { ret = f.df.PrintHead(n, format) })
	check(ret == f.df, "PrintHead does not return the dataframe")
	if format == "" {
		format = "%.3f"
	}
	if n < 0 || n > len(f.rows) {
		n = len(f.rows)
	}
	rest := text
	seen := map[string]bool{}
	for rest != "" {
		// the columns come in some order, one line each
		var name string
		for _, k := range f.names() {
			if !seen[k] && strings.HasPrefix(rest, k+":") && len(k) >= len(name) {
				name = k
			}
		}
		if name == "" {
			failf("PrintHead(%d) of %s: no column matches %q in %q", n, f.name, rest, text)
		}
		seen[name] = true
		rest = rest[len(name)+1:]
		cc := f.cols[name]
		for i := 0; i < n; i++ {
			want, ok := printed(cc, cc.cells[i], format)
			if !ok {
				want = " "
				k := 1
				for k < len(rest) && rest[k] != ' ' && rest[k] != '\n' {
					k++
				}
				if k > len(rest) || strings.HasPrefix(rest, " <missing>") {
					failf("PrintHead: object %d of %s is printed as missing in %q", i, name, text)
				}
				want = rest[:k]
				// objects made of several words
				for strings.HasPrefix(rest[k:], " ") && i == n-1 {
					k++
					for k < len(rest) && rest[k] != ' ' && rest[k] != '\n' {
						k++
					}
					want = rest[:k]
				}
			}
			if !strings.HasPrefix(rest, want) {
				failf("PrintHead(%d): row %d of column %s: %q expected at %q in %q", n, i, name, want, rest, text)
			}
			rest = rest[len(want):]
		}
		if !strings.HasPrefix(rest, "\n") {
			failf("PrintHead(%d): more than %d values for column %s at %q in %q", n, n, name, rest, text)
		}
		rest = rest[1:]
	}
	check(len(seen) == len(f.cols), "PrintHead(%d) of %s prints %d columns of %d: %q", n, f.name, len(seen), len(f.cols), text)
}

func (c *Ctx) checkRecords(f *frame, n int, format string, short map[string]string) {
	var ret *dataframe.DataFrame
	text := c.capture(func() { ret = f.df.PrintRecords(n, format, short) })
	check(ret == f.df, "PrintRecords does not return the dataframe")
	if format == "" {
		format = "%.3f"
	}
	if n < 0 || n > len(f.rows) {
		n = len(f.rows)
	}
	inner := dataframe.DataFrameInternals{DF: f.df}.GetIndices()
	rest := text
	for i := 0; i < n; i++ {
		// [row:inner]
		k := strings.Index(rest, "]")
		var a, b int
		if k < 0 || rest[0] != '[' {
			failf("PrintRecords(%d): no record %d at %q in %q", n, i, rest, text)
		}
		if _, err := fmt.Sscanf(strings.Replace(rest[1:k], ":", " ", 1), "%d %d", &a, &b); err != nil || a != i || b != inner[i] {
			failf("PrintRecords(%d): record %d is labelled %q (expected %d, %d)", n, i, rest[:k+1], i, inner[i])
		}
		rest = rest[k+1:]
		seen := map[string]bool{}
		for !strings.HasPrefix(rest, "\n") {
			name, shown := "", ""
			for _, col := range f.names() {
				s := col
				if t, ok := short[col]; ok {
					s = t
				}
				if !seen[col] && strings.HasPrefix(rest, " "+s+":") && (name == "" || len(s) > len(shown)) {
					name, shown = col, s
				}
			}
			if name == "" {
				failf("PrintRecords(%d): record %d: no column matches %q in %q", n, i, rest, text)
			}
			seen[name] = true
			rest = rest[len(shown)+2:]
			cc := f.cols[name]
			want, ok := printed(cc, cc.cells[i], format)
			if !ok {
				if strings.HasPrefix(rest, " <missing>") {
					failf("PrintRecords: object %d of %s is printed as missing", i, name)
				}
				// up to the next column name or the end of the line
				k := strings.Index(rest, "\n")
				for _, col := range f.names() {
					s := col
					if t, ok := short[col]; ok {
						s = t
					}
					if j := strings.Index(rest, " "+s+":"); !seen[col] && j >= 0 && j < k {
						k = j
					}
				}
				if k < 1 {
					failf("PrintRecords: object %d of %s is not printed", i, name)
				}
				want = rest[:k]
			}
			if !strings.HasPrefix(rest, want) {
				failf("PrintRecords(%d): record %d, column %s: %q expected at %q in %q", n, i, name, want, rest, text)
			}
			rest = rest[len(want):]
		}
		rest = rest[1:]
		check(len(seen) == len(f.cols), "PrintRecords(%d): record %d has %d columns of %d: %q", n, i, len(seen), len(f.cols), text)
	}
	if rest != "" {
		failf("PrintRecords(%d): more than %d records: %q", n, n, rest)
	}
}

func (c *Ctx) checkSummary(f *frame) {
	var ret *dataframe.DataFrame
	text := c.capture(func() { ret = f.df.PrintSummary() })
	check(ret == f.df, "PrintSummary does not return the dataframe")
	var plain []string
	for _, k := range f.ofKind(kO) {
		if !f.cols[k].str {
			plain = append(plain, k)
		}
	}
	for _, x := range []struct {
		what string
		cols []string
	}{{"float", f.ofKind(kF)}, {"int", f.ofKind(kI)}, {"bool", f.ofKind(kB)}, {"string", f.strCols()}, {"object", plain}} {
		line := ""
		count := 0
		for _, l := range strings.Split(text, "\n") {
			if strings.HasPrefix(l, x.what+" ") {
				line = strings.TrimSpace(l[len(x.what):])
				count++
			}
		}
		check(count <= 1, "PrintSummary has several %s lines: %q", x.what, text)
		if len(x.cols) == 0 {
			if line != "" && line != "[]" {
				failf("PrintSummary lists %s columns %s, expected none: %q", x.what, line, text)
			}
			continue
		}
		if line != fmt.Sprint(x.cols) {
			failf("PrintSummary lists %s columns %s, expected %s: %q", x.what, line, x.cols, text)
		}
	}
	rows := ""
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, "rows ") {
			rows = strings.TrimSpace(l[4:])
		}
	}
	check(rows == fmt.Sprint(len(f.rows)), "PrintSummary prints %q rows, expected %d: %q", rows, len(f.rows), text)
}

func runC27(c *Ctx) {
	forms := viewForms()
	rootSpecs := []string{allTypes, "pct%d:f a%sb:i 100%%:s %v%!:b", "f:f fl:f flo:f float:f", "a_b:s c.d:o", "id:d"}
	c.Unit("heads, records and summaries")
	for _, spec := range rootSpecs {
		for _, n := range []int{0, 1, 3, 11, 12, 30} {
			for _, form := range forms {
				for _, k := range []int{0, 1, 2, 5, 10, 11, n - 1, n, n + 1, -1, -5} {
					spec, n, form, k := spec, n, form, k
					c.Case(fmt.Sprintf("[%s] n=%d %s k=%d", spec, n, form.name, k), func() {
						w := newWorld()
						f := w.build(n, specs(spec))
						form.do(w, f)
						v := w.last()
						c.checkHead(v, k, "")
						c.checkHead(v, k, "%.1f")
						c.checkHead(v, k, "%g")
						c.checkRecords(v, k, "", nil)
						c.checkRecords(v, k, "%.5f", map[string]string{})
						c.checkRecords(v, k, "", v.df.GoodShortNames(1))
						c.checkRecords(v, k, "%e", map[string]string{v.names()[0]: "q%s"})
						c.checkSummary(v)
						w.checkAll("printing")
					})
				}
			}
		}
	}
	c.Unit("every row count")
	for n := 0; n <= 130; n++ {
		n := n
		c.Case(fmt.Sprintf("n=%d", n), func() {
			w := newWorld()
			f := w.build(n, specs("id:d s1:s f1:f"))
			w.opReverse(f).do()
			for _, k := range []int{n - 1, n, n + 1, n / 2, 7, -1} {
				c.checkRecords(w.last(), k, "", nil)
				c.checkHead(f, k, "")
			}
			c.checkSummary(w.last())
			w.checkAll("printing")
		})
	}
	c.Unit("every column count")
	for k := 1; k <= 40; k++ {
		k := k
		c.Case(fmt.Sprintf("columns=%d", k), func() {
			w := newWorld()
			f := w.build(3, manySpecs(k))
			w.opReverse(f).do()
			c.checkRecords(w.last(), 3, "", nil)
			c.checkRecords(f, 2, "%g", f.df.GoodShortNames(1))
			c.checkHead(w.last(), 2, "")
			c.checkSummary(f)
			w.checkAll("printing")
		})
	}
	c.Unit("unusual values")
	for n := 1; n <= 30; n++ {
		n := n
		c.Case(fmt.Sprintf("n=%d", n), func() {
			w := newWorld()
			f := w.build(n, specs("id:d F:F I:I b:b"))
			w.opReverse(f).do()
			c.checkRecords(w.last(), n, "", nil)
			c.checkRecords(f, n-1, "%g", nil)
			c.checkHead(w.last(), n, "")
			c.checkSummary(f)
			w.checkAll("printing")
		})
	}
	c.Unit("larger dataframes")
	for _, n := range []int{99, 100, 101, 999, 1000, 1001, 10001} {
		for _, k := range []int{9, 10, 11, 99, 100, 101, 1000, -1} {
			n, k := n, k
			c.Case(fmt.Sprintf("n=%d k=%d", n, k), func() {
				w := newWorld()
				f := w.build(n, specs("id:d s1:s"))
				c.checkRecords(f, k, "", nil)
				w.opReverse(f).do()
				c.checkRecords(w.last(), k, "", nil)
				c.checkHead(w.last(), k, "")
				c.checkSummary(w.last())
			})
		}
	}
	c.Tree("summaries after histories", []root{rootOf(3, "f1:f s1:s o1:o"), rootOf(2, "i1:i b1:b"), emptyRoot(2)}, treeOpt{depth: 3, noProbe: true, extra: func(w *world) {
		for _, f := range w.frames {
			c.checkSummary(f)
			c.checkHead(f, 2, "")
		}
	}}, func(w *world, d int) []op {
		var l []op
		f := w.last()
		l = append(l, w.opView(f), w.opReverse(f), w.opShallow(f), w.opCopy(f))
		l = append(l, w.restructurings(f, false)...)
		return append(l, w.hashes(f)...)
	})
	c.Unit("what texts look like")
	texts := []interface{}{"", " ", "  ", "<missing>", "<NOT-UTF8>", "nil", "null", "NA", "%d", "%!s(string=x)", "100%", "'", "''", "x'", "'x'",
		"\"", "\"x\"", "a\tb", "a b ", " a", ":", "x:", "a:b", "[0:0]", "\\", "\x00", "\x00a", "é", "日本", "\xff", "0", "1", "true", "@ERROR@",
		"a text of more than thirty-two characters", strings.Repeat("z", 300), nil}
	for i := range texts {
		for j := range texts {
			i, j := i, j
			c.Case(fmt.Sprintf("%q, %q", texts[i], texts[j]), func() {
				w := newWorld()
				f := w.table(4, tcol{"s", 's', []interface{}{texts[i], texts[j]}}, tcol{"t", 's', []interface{}{texts[j], nil, texts[i]}}, tcol{"n", 'i', []interface{}{0, 1}})
				w.opReverse(f).do()
				for _, v := range []*frame{f, w.last()} {
					for _, k := range []int{1, 2, -1} {
						c.checkHead(v, k, "")
						c.checkRecords(v, k, "", nil)
					}
					c.checkSummary(v)
				}
				w.checkAll("printing")
			})
		}
	}
	c.Unit("what numbers look like")
	reals := []interface{}{0.0, math.Copysign(0, -1), 0.5, -0.5, 0.0004, -0.0004, 0.0005, 0.9996, 1e21, -1e21, 1e-9, 5e-324, math.MaxFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 1.0, 2.0, 1e6, 123456789.125}
	whole := []interface{}{0, -1, 1, 10, math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 1, 1000000, -1000000}
	for i := range reals {
		for j := range reals {
			i, j := i, j
			c.Case(fmt.Sprint(reals[i], " ", reals[j]), func() {
				w := newWorld()
				f := w.table(3, tcol{"f", 'f', []interface{}{reals[i], reals[j]}}, tcol{"n", 'i', []interface{}{whole[i%len(whole)], whole[j%len(whole)]}}, tcol{"b", 'b', []interface{}{i%2 == 0, j%2 == 0}})
				w.opReverse(f).do()
				for _, v := range []*frame{f, w.last()} {
					for _, format := range []string{"", "%.1f", "%g", "%e", "%v", "%8.2f", "%-8.2fend", "<%f>", "%+.3f"} {
						c.checkHead(v, -1, format)
						c.checkRecords(v, 2, format, nil)
					}
				}
				w.checkAll("printing")
			})
		}
	}
	// short names: every set of up to four names over a small alphabet
	c.Unit("short names")
	pool := []string{"a", "ab", "abc", "abcd", "abce", "abcde", "abd", "b", "abcdf", "bcd"}
	for set := 1; set < 1<<uint(len(pool)); set++ {
		var ns []string
		for i, p := range pool {
			if set>>uint(i)&1 == 1 {
				ns = append(ns, p)
			}
		}
		if len(ns) > 4 {
			continue
		}
		bound := 2
		if c.thorough {
			bound = -1
		}
		for _, min := range []int{0, 1, 2, 3, 4} {
			min := min
			c.Schedules(fmt.Sprintf("%v min=%d", ns, min), func(e *sched.Explorer) { e.Bound[sched.KMap] = bound }, func() {
				b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
				for i, p := range ns {
					switch i % 4 {
					case 0:
						b.AddFloats(p, 1)
					case 1:
						b.AddInts(p, 1)
					case 2:
						b.AddBools(p, true)
					case 3:
						b.AddStrings(p, "x")
					}
				}
				df := b.ToDataFrame()
				short := df.GoodShortNames(min)
				m := min
				if m <= 0 {
					m = 3
				}
				shown := map[string]string{}
				for _, p := range ns {
					s, ok := short[p]
					if !ok {
						s = p
					} else {
						check(strings.HasPrefix(p, s), "short name %q is not a prefix of %q", s, p)
						check(len(s) >= m, "short name %q is shorter than %d", s, m)
					}
					if q, dup := shown[s]; dup {
						failf("%q is the name of %q and of %q (short names %v)", s, p, q, short)
					}
					shown[s] = p
				}
				for p := range short {
					check(df.Header().NameSet()[p], "short name for unknown column %q", p)
				}
			})
		}
	}
}

// ---- C28 ---------------------------------------------------------------------------

type bstep struct {
	name string
	do   func(b dataframe.DataBuilder, m map[string]*col, k int) dataframe.DataBuilder
}

func builderSteps() []bstep {
	var l []bstep
	get := func(m map[string]*col, name string, kind byte) *col {
		c := m[name]
		if c == nil || c.kind != kind {
			c = &col{kind: kind}
			m[name] = c
		}
		return c
	}
	for _, cn := range []string{"a", "b"} {
		cn := cn
		for n := 0; n <= 2; n++ {
			n := n
			vals := func(kind byte, k int) []interface{} {
				var v []interface{}
				for i := 0; i < n; i++ {
					switch kind {
					case kF:
						v = append(v, float64(k*10+i)+0.5)
					case kI:
						v = append(v, k*10+i)
					case kB:
						v = append(v, (k+i)%2 == 0)
					case 's':
						v = append(v, fmt.Sprintf("t%d", k*10+i))
					case kO:
						v = append(v, []interface{}{nil, "str", &obj{k}}[(k+i)%3])
					}
				}
				return v
			}
			add := func(c *col, v []interface{}, set bool) {
				if set {
					c.cells = nil
				}
				for _, x := range v {
					c.cells = append(c.cells, &cell{x})
				}
			}
			l = append(l,
				bstep{fmt.Sprintf("AddFloats(%s,%d)", cn, n), func(b dataframe.DataBuilder, m map[string]*col, k int) dataframe.DataBuilder {
					v := vals(kF, k)
					var a []float64
					for _, x := range v {
						a = append(a, x.(float64))
					}
					add(get(m, cn+"f", kF), v, false)
					return b.AddFloats(cn+"f", a...)
				}},
				bstep{fmt.Sprintf("AddInts(%s,%d)", cn, n), func(b dataframe.DataBuilder, m map[string]*col, k int) dataframe.DataBuilder {
					v := vals(kI, k)
					var a []int
					for _, x := range v {
						a = append(a, x.(int))
					}
					add(get(m, cn+"i", kI), v, false)
					return b.AddInts(cn+"i", a...)
				}},
				bstep{fmt.Sprintf("AddBools(%s,%d)", cn, n), func(b dataframe.DataBuilder, m map[string]*col, k int) dataframe.DataBuilder {
					v := vals(kB, k)
					var a []bool
					for _, x := range v {
						a = append(a, x.(bool))
					}
					add(get(m, cn+"b", kB), v, false)
					return b.AddBools(cn+"b", a...)
				}},
				bstep{fmt.Sprintf("AddStrings(%s,%d)", cn, n), func(b dataframe.DataBuilder, m map[string]*col, k int) dataframe.DataBuilder {
					v := vals('s', k)
					var a []string
					for _, x := range v {
						a = append(a, x.(string))
					}
					cc := get(m, cn+"s", kO)
					cc.str = true
					add(cc, v, false)
					return b.AddStrings(cn+"s", a...)
				}},
				bstep{fmt.Sprintf("AddObjects(%s,%d)", cn, n), func(b dataframe.DataBuilder, m map[string]*col, k int) dataframe.DataBuilder {
					v := vals(kO, k)
					add(get(m, cn+"o", kO), v, false)
					return b.AddObjects(cn+"o", v...)
				}},
				bstep{fmt.Sprintf("SetFloats(%s,%d)", cn, n), func(b dataframe.DataBuilder, m map[string]*col, k int) dataframe.DataBuilder {
					v := vals(kF, k+3)
					a := make([]float64, 0)
					for _, x := range v {
						a = append(a, x.(float64))
					}
					add(get(m, cn+"f", kF), v, true)
					return b.SetFloats(cn+"f", a)
				}},
				bstep{fmt.Sprintf("SetInts(%s,%d)", cn, n), func(b dataframe.DataBuilder, m map[string]*col, k int) dataframe.DataBuilder {
					v := vals(kI, k+3)
					a := make([]int, 0)
					for _, x := range v {
						a = append(a, x.(int))
					}
					add(get(m, cn+"i", kI), v, true)
					return b.SetInts(cn+"i", a)
				}},
				bstep{fmt.Sprintf("SetBools(%s,%d)", cn, n), func(b dataframe.DataBuilder, m map[string]*col, k int) dataframe.DataBuilder {
					v := vals(kB, k+3)
					a := make([]bool, 0)
					for _, x := range v {
						a = append(a, x.(bool))
					}
					add(get(m, cn+"b", kB), v, true)
					return b.SetBools(cn+"b", a)
				}},
				bstep{fmt.Sprintf("SetObjects(%s,%d)+mark", cn, n), func(b dataframe.DataBuilder, m map[string]*col, k int) dataframe.DataBuilder {
					v := vals('s', k+3)
					cc := get(m, cn+"s", kO)
					cc.str = true
					add(cc, v, true)
					return b.SetObjects(cn+"s", append([]interface{}{}, v...)).MarkAsString(cn + "s")
				}},
			)
		}
	}
	return l
}

func runC28(c *Ctx) {
	steps := builderSteps()
	c.Unit("all builder programs")
	depth := 3
	if c.thorough {
		depth = 4
	}
	for l := 0; l <= depth; l++ {
		tuples(len(steps), l, func(t []int) {
			if c.stop {
				return
			}
			if l == 4 && t[0] > t[1] {
				return
			}
			id := ""
			if c.only != "" || c.counter%c.of == c.shard {
				for _, k := range t {
					id += steps[k].name + ";"
				}
			}
			t2 := t
			c.Case(id, func() {
				b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
				m := map[string]*col{}
				for k, s := range t2 {
					b = steps[s].do(b, m, k)
				}
				n := -1
				same := true
				for _, x := range m {
					if n >= 0 && len(x.cells) != n {
						same = false
					}
					n = len(x.cells)
				}
				var df *dataframe.DataFrame
				p := mustPanic(func() { df = b.ToDataFrame() })
				if !same {
					check(p, "columns of different lengths are accepted")
					return
				}
				check(!p, "ToDataFrame panics although the lengths are the same")
				f := &frame{name: "df", df: df, cols: m}
				if n > 0 {
					f.rows = seq(n)
				}
				f.diffOrFail()
			})
		})
	}
	c.Unit("every row count")
	for _, n := range rowCounts(140, 10000) {
		for bad := -1; bad < 5; bad++ {
			n, bad := n, bad
			c.Case(fmt.Sprintf("n=%d, column %d is longer", n, bad), func() {
				b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
				f := &frame{name: "df", cols: map[string]*col{}, rows: seq(n)}
				for k, kind := range []byte{kF, kI, kB, kO, kO} {
					m := n + boolInt(k == bad)
					cc := &col{kind: kind, str: k == 4}
					var fs []float64
					var is []int
					var bs []bool
					var os []interface{}
					var ss []string
					for i := 0; i < m; i++ {
						var v interface{}
						switch k {
						case 0:
							fs = append(fs, oddFloats[i%len(oddFloats)])
							v = fs[i]
						case 1:
							is = append(is, oddInts[i%len(oddInts)])
							v = is[i]
						case 2:
							bs = append(bs, i%3 == 0)
							v = bs[i]
						case 3:
							os = append(os, oddObjs[i%len(oddObjs)])
							v = os[i]
						case 4:
							ss = append(ss, fmt.Sprint("s", i))
							v = ss[i]
						}
						cc.cells = append(cc.cells, &cell{v})
					}
					half := m / 2
					switch k {
					case 0:
						b = b.AddFloats("f", fs[:half]...).AddFloats("f", fs[half:]...)
					case 1:
						b = b.AddInts("i", is[:half]...).AddInts("i", is[half:]...)
					case 2:
						b = b.AddBools("b", bs[:half]...).AddBools("b", bs[half:]...)
					case 3:
						b = b.AddObjects("o", os[:half]...).AddObjects("o", os[half:]...)
					case 4:
						b = b.AddStrings("s", ss[:half]...).AddStrings("s", ss[half:]...)
					}
					f.cols[[]string{"f", "i", "b", "o", "s"}[k]] = cc
				}
				var df *dataframe.DataFrame
				p := mustPanic(func() { df = b.ToDataFrame() })
				check(p == (bad >= 0), "one column has another size: %v, refused: %v", bad >= 0, p)
				if !p {
					f.df = df
					f.diffOrFail()
				}
			})
		}
	}
	c.Unit("merging rows of many dataframes")
	for parts := 1; parts <= 40; parts++ {
		for size := 0; size < 4; size++ {
			parts, size := parts, size
			c.Case(fmt.Sprintf("parts=%d sizes=%d", parts, size), func() {
				w := newWorld()
				var raws []*dataframe.RawData
				want := &frame{name: "merged", cols: map[string]*col{}}
				for p := 0; p < parts; p++ {
					n := []int{1, p % 3, p, (parts - p) * 10}[size]
					f := w.build(n, specs("a:F b:I c:b d:S e:O"))
					r := dataframe.NewRawData()
					r.TransferRawDataFrom(&f.df.RawData)
					raws = append(raws, r)
					for name, x := range f.cols {
						y := want.cols[name]
						if y == nil {
							y = &col{kind: x.kind, str: x.str}
							want.cols[name] = y
						}
						for _, cl := range x.cells {
							y.cells = append(y.cells, &cell{cl.v})
						}
					}
					want.rows = append(want.rows, w.newRows(n)...)
				}
				want.df = dataframe.MergeRawDataRows(raws).ToDataFrame()
				want.diffOrFail()
				w.add(want, "MergeRawDataRows")
				if parts < 8 {
					w.probe()
				}
			})
		}
	}
	c.Unit("merging rows")
	specsList := []string{"a:f b:i c:b d:s e:o", "d:s", "a:f", "e:o b:i"}
	for _, spec := range specsList {
		for parts := 1; parts <= 3; parts++ {
			tuples(4, parts, func(t []int) {
				t = append([]int{}, t...)
				for ei, e := range []encoding.Encoding{nil, charmap.ISO8859_1} {
					for cpu := 1; cpu <= 3; cpu++ {
						e, cpu := e, cpu
						c.Case(fmt.Sprintf("[%s] sizes=%v enc=%d cpu=%d", spec, t, ei, cpu), func() {
							sched.SetNumCPU(4)
							w := newWorld()
							var raws []*dataframe.RawData
							want := &frame{name: "merged", cols: map[string]*col{}}
							for _, n := range t {
								f := w.build(n, specs(spec))
								// the data is shared with the dataframe
								r := dataframe.NewRawData()
								r.TransferRawDataFrom(&f.df.RawData)
								dataframe.DataBuilder{RawData: r}.TextEncoding(e)
								r.SetMaxCPU(cpu)
								raws = append(raws, r)
								for name, x := range f.cols {
									y := want.cols[name]
									if y == nil {
										y = &col{kind: x.kind, str: x.str}
										want.cols[name] = y
									}
									for _, cl := range x.cells {
										y.cells = append(y.cells, &cell{cl.v})
									}
								}
								want.rows = append(want.rows, w.newRows(n)...)
							}
							m := dataframe.MergeRawDataRows(raws)
							check(m.ActualMaxCPU() == cpu, "the merged data has CPU limit %d, expected %d", m.ActualMaxCPU(), cpu)
							want.df = m.ToDataFrame()
							check(want.df.ActualMaxCPU() == cpu, "the merged dataframe has CPU limit %d, expected %d", want.df.ActualMaxCPU(), cpu)
							want.diffOrFail()
							w.add(want, "MergeRawDataRows")
							w.checkAll("merging")
							w.probe()
							checkDeclared(want, e)
						})
					}
				}
			})
		}
	}
	c.Unit("merging columns")
	parts := []string{"a:f b:s", "c:i", "d:s e:o", "f:b", "c2:s"}
	for mask := 1; mask < 1<<uint(len(parts)); mask++ {
		for n := 0; n <= 2; n++ {
			for ei, e := range []encoding.Encoding{nil, charmap.ISO8859_1} {
				mask, n, e := mask, n, e
				c.Case(fmt.Sprintf("parts=%b n=%d enc=%d", mask, n, ei), func() {
					sched.SetNumCPU(4)
					w := newWorld()
					var raws []*dataframe.RawData
					want := &frame{name: "merged", cols: map[string]*col{}, rows: w.newRows(n)}
					for i, p := range parts {
						if mask>>uint(i)&1 == 0 {
							continue
						}
						f := w.build(n, specs(p))
						r := dataframe.NewRawData()
						r.TransferRawDataFrom(&f.df.RawData)
						dataframe.DataBuilder{RawData: r}.TextEncoding(e)
						r.SetMaxCPU(2)
						raws = append(raws, r)
						for name, x := range f.cols {
							want.cols[name] = &col{kind: x.kind, str: x.str, cells: append([]*cell(nil), x.cells...)}
						}
					}
					m := dataframe.MergeRawDataColumns(raws)
					check(m.ActualMaxCPU() == 2, "the merged data has CPU limit %d, expected 2", m.ActualMaxCPU())
					check(m.NumColumns() == len(want.cols), "the merged data has %d columns, expected %d", m.NumColumns(), len(want.cols))
					want.df = m.ToDataFrame()
					want.diffOrFail()
					w.add(want, "MergeRawDataColumns")
					w.checkAll("merging")
					w.probe()
					checkDeclared(want, e)
				})
			}
		}
	}
	c.Unit("headers")
	names := []string{"a", "b", "c", ""}
	sets := func(mask int) (dataframe.ColumnHeader, map[string]bool) {
		m := map[string]bool{}
		var l []string
		for i, n := range names {
			if mask>>uint(i)&1 == 1 {
				m[n] = true
				l = append(l, n)
			}
		}
		if mask == 0 {
			return dataframe.ColumnHeader{}, m
		}
		return dataframe.Columns(l...), m
	}
	same := func(what string, h dataframe.ColumnHeader, m map[string]bool) {
		l := sortedCopy(h.NameList())
		if !sameList(l, sortedKeys(m)) || h.Num() != len(m) || len(h.NameSet()) != len(m) {
			failf("%s is %q (%d), expected %q", what, l, h.Num(), sortedKeys(m))
		}
		for _, x := range sortedKeys(m) {
			check(h.NameSet()[x], "%s: %q is missing from the set", what, x)
		}
	}
	N := 1 << uint(len(names))
	for a := 0; a < N; a++ {
		for b := 0; b < N; b++ {
			for d := 0; d < N; d++ {
				a, b, d := a, b, d
				c.Case(fmt.Sprintf("headers %b %b %b", a, b, d), func() {
					union := func(ms ...map[string]bool) map[string]bool {
						r := map[string]bool{}
						for _, m := range ms {
							for k := range m {
								r[k] = true
							}
						}
						return r
					}
					minus := func(m map[string]bool, ms ...map[string]bool) map[string]bool {
						r := union(m)
						for _, x := range ms {
							for k := range x {
								delete(r, k)
							}
						}
						return r
					}
					ha, ma := sets(a)
					hb, mb := sets(b)
					hd, md := sets(d)
					same("Copy", ha.Copy(), ma)
					cp := ha.Copy()
					same("And", cp.And(hb, hd), union(ma, mb, md))
					same("the copied header", ha, ma)
					cp = ha.Copy()
					same("ExceptHeader", cp.ExceptHeader(hb, hd), minus(ma, mb, md))
					same("the copied header", ha, ma)
					cp = ha.Copy()
					same("Except", cp.Except(sortedKeys(mb)...), minus(ma, mb))
					same("And+Except", ha.Copy().And(hd).Except(sortedKeys(mb)...), minus(union(ma, md), mb))
					same("argument", hb, mb)
					same("argument", hd, md)
					same("unchanged", ha, ma)
				})
			}
		}
	}
	c.Unit("dataframe headers are copies")
	c.Case("copies", func() {
		w := newWorld()
		f := w.build(2, specs(allTypes))
		df := f.df
		for _, h := range []dataframe.ColumnHeader{df.IntHeader(), df.FloatHeader(), df.BoolHeader(), df.ObjectHeader(), df.StringHeader(), df.Header()} {
			h.And(dataframe.Columns("zz"))
			h.Except("id", "f1", "i1", "b1", "s1", "o1")
			w.checkAll("altering a header")
		}
	})
}

// checkDeclared checks that the dataframe knows the encoding of its strings.
func checkDeclared(f *frame, e encoding.Encoding) {
	cols := f.strCols()
	if len(cols) == 0 || len(f.rows) == 0 {
		return
	}
	text, _ := conv("é", nil, e)
	f.df.Objects(cols[0]).Set(0, text)
	err := f.df.Encode(nil)
	check(err == nil, "Encode(nil) fails: %v", err)
	got := f.df.Objects(cols[0]).Get(0)
	check(got == "é", "the encoding of the dataframe is lost: %q", got)
}

// ---- C29 ---------------------------------------------------------------------------

func runC29(c *Ctx) {
	vals := []float64{0, 1, -2.5, 1e9, math.Inf(1), math.NaN()}
	metric := func(p, q []float64) (float64, float64) {
		a, b := 0.0, 0.0
		for i := range p {
			d := p[i] - q[i]
			a += d * d
			b += math.Abs(d)
		}
		return a / float64(len(p)), b / float64(len(p))
	}
	near := func(a, b float64) bool {
		if a == b || a != a && b != b {
			return true
		}
		if math.IsInf(a, 0) || math.IsInf(b, 0) {
			return false
		}
		return math.Abs(a-b) <= 1e-300+1e-9*math.Max(math.Abs(a), math.Abs(b))
	}
	forms := viewForms()
	read := func(f *frame, name string) []float64 {
		var l []float64
		for _, x := range f.cols[name].cells {
			l = append(l, x.v.(float64))
		}
		return l
	}
	both := func(w *world, f, g *frame, a, b string) {
		for k := 0; k < 2; k++ {
			x, y := f.df.Floats(a), g.df.Floats(b)
			if len(f.rows) != len(g.rows) {
				check(mustPanic(func() { algorithms.MSE(x, y) }), "MSE accepts %d and %d rows", len(f.rows), len(g.rows))
				check(mustPanic(func() { algorithms.MAE(x, y) }), "MAE accepts %d and %d rows", len(f.rows), len(g.rows))
			} else if len(f.rows) > 0 {
				s, m := metric(read(f, a), read(g, b))
				if got := algorithms.MSE(x, y); !near(got, s) {
					failf("MSE is %v, expected %v\n  %s", got, s, strings.Join(w.log, "\n  "))
				}
				if got := algorithms.MAE(x, y); !near(got, m) {
					failf("MAE is %v, expected %v\n  %s", got, m, strings.Join(w.log, "\n  "))
				}
			}
			f, g, a, b = g, f, b, a
		}
		w.checkAll("computing a metric")
	}
	c.Unit("all short pairs")
	for l := 1; l <= 3; l++ {
		tuples(len(vals), 2*l, func(t []int) {
			if l == 3 && !c.thorough && t[0] > 3 {
				return
			}
			t = append([]int{}, t...)
			c.Case(fmt.Sprint(t), func() {
				w := newWorld()
				var p, q []interface{}
				for i := 0; i < l; i++ {
					p = append(p, vals[t[i]])
					q = append(q, vals[t[l+i]])
				}
				both(w, w.valueFrame(p, ""), w.valueFrame(q, ""), "x", "x")
			})
		})
	}
	c.Unit("all short pairs of unusual values")
	odd := []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1e9, 1e9 + 1, 1e-9, 1e150, -1e150, 1e-150, 1e200, 5e-324, math.Inf(1), math.Inf(-1), math.NaN(), 3, 1 << 53}
	odd = append(odd, math.MaxFloat64, -math.MaxFloat64)
	for l := 1; l <= 2; l++ {
		if l == 2 {
			odd = odd[:len(odd)-2] // whether an intermediate sum overflows is not specified
		}
		tuples(len(odd), 2*l, func(t []int) {
			t = append([]int{}, t...)
			c.Case(fmt.Sprint(t), func() {
				w := newWorld()
				var p, q []interface{}
				for i := 0; i < l; i++ {
					p = append(p, odd[t[i]])
					q = append(q, odd[t[l+i]])
				}
				both(w, w.valueFrame(p, ""), w.valueFrame(q, ""), "x", "x")
			})
		})
	}
	c.Unit("every row count")
	for _, n := range rowCounts(300, 20000) {
		for form := 0; form < 3; form++ {
			n, form := n, form
			if n == 0 {
				continue
			}
			c.Case(fmt.Sprintf("n=%d form=%d", n, form), func() {
				w := newWorld()
				p, q := make([]interface{}, n), make([]interface{}, n)
				for i := range p {
					p[i] = float64(i*i%17)/4 - 2
					q[i] = float64(i*7%23) / 8
				}
				f, g := w.valueFrame(p, ""), w.valueFrame(q, "")
				if form > 0 {
					w.opReverse(f).do()
					f = w.last()
				}
				if form > 1 {
					w.opIndex(g, append(seq(n)[n/2:], seq(n)[:n/2]...)).do()
					g = w.last()
				}
				both(w, f, g, "x", "x")
				w.opSlice(g, 0, n-1).do()
				both(w, f, w.last(), "x", "x")
			})
		}
	}
	c.Unit("every pair of forms")
	for _, n := range []int{1, 2, 3, 5, 12, 25, 200} {
		for _, fa := range forms {
			for _, fb := range forms {
				for m := n; m <= n+1; m++ {
					for same := 0; same < 2; same++ {
						n, fa, fb, m, same := n, fa, fb, m, same
						if m != n && same == 1 {
							continue
						}
						c.Case(fmt.Sprintf("n=%d/%d %s/%s same=%d", n, m, fa.name, fb.name, same), func() {
							w := newWorld()
							f := w.build(n, specs("id:d a:f b:f"))
							for i := range f.rows { // no missing values
								f.cols["a"].cells[i].v = float64(i*i%7) - 1.5
								f.df.Floats("a").Set(i, float64(i*i%7)-1.5)
								f.cols["b"].cells[i].v = float64(i%5) * 2.25
								f.df.Floats("b").Set(i, float64(i%5)*2.25)
							}
							g := f
							if same == 0 {
								g = w.build(m, specs("id:d b:f a:f"))
								for i := range g.rows {
									g.cols["b"].cells[i].v = float64(i*3%11) / 4
									g.df.Floats("b").Set(i, float64(i*3%11)/4)
								}
							}
							w.opView(f).do()
							fa.do(w, w.last())
							x := w.last()
							w.opView(g).do()
							fb.do(w, w.last())
							both(w, x, w.last(), "a", "b")
						})
					}
				}
			}
		}
	}
	_ = sort.Strings
}
