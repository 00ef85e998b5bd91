//go:build go1.21

package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/rom1mouret/ml-essentials/dataframe"
)

// ---- reference model ---------------------------------------------------------
//
// A dataframe is a list of row identities and, per column, one cell pointer per
// row. Two dataframes share a cell iff they hold the same pointer.

type cell struct{ v interface{} }

const (
	kF = 'f'
	kI = 'i'
	kB = 'b'
	kO = 'o'
)

type col struct {
	kind  byte
	str   bool
	cells []*cell
}

type frame struct {
	name    string
	df      *dataframe.DataFrame
	rows    []int
	cols    map[string]*col
	parent  *frame // frame whose column maps this one may borrow
	kids    int    // live frames that may borrow our maps
	from    []*frame
	derived int  // frames obtained from this one in any way
	deriv   bool // obtained from another one
	enc     string
	safe    bool // thread-safe masking
}

type world struct {
	frames  []*frame
	inner   []int // position of each row in its storage
	nextVal int
	log     []string
	// mask slices that belong to the caller
	ownMasks []ownMask
	// the names of the columns of the root and names for new columns (C39)
	labels, fresh []string
}

func newWorld() *world { return &world{nextVal: 1000} }

func (w *world) logf(f string, a ...interface{}) {
	if !muted {
		w.log = append(w.log, fmt.Sprintf(f, a...))
	}
}

var frameNames = []string{"df0", "df1", "df2", "df3", "df4", "df5", "df6", "df7", "df8", "df9"}

// newRows returns the identities of the rows of a new storage.
func (w *world) newRows(n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = len(w.inner)
		w.inner = append(w.inner, i)
	}
	return l
}

// obj is a value for non-string object columns.
type obj struct{ N int }

func (w *world) freshVal(kind byte, str bool) interface{} {
	w.nextVal++
	switch kind {
	case kF:
		return float64(w.nextVal) + 0.25
	case kI:
		return w.nextVal
	case kB:
		return w.nextVal%2 == 0
	}
	if str {
		return fmt.Sprintf("s%d", w.nextVal)
	}
	return &obj{w.nextVal}
}

func (f *frame) names() []string {
	l := make([]string, 0, len(f.cols))
	for k := range f.cols {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (f *frame) ofKind(kind byte) []string {
	var l []string
	for k, c := range f.cols {
		if c.kind == kind {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return l
}

func (f *frame) strCols() []string {
	var l []string
	for k, c := range f.cols {
		if c.kind == kO && c.str {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return l
}

// colSpec describes a column to create: kind 'f','i','b','s' (string) or 'o'.
type colSpec struct {
	name string
	typ  byte
}

func specs(s string) []colSpec {
	var out []colSpec
	for _, f := range strings.Fields(s) {
		p := strings.SplitN(f, ":", 2)
		out = append(out, colSpec{p[0], p[1][0]})
	}
	return out
}

func manySpecs(n int) []colSpec {
	var out []colSpec
	types := "fibso"
	for i := 0; i < n; i++ {
		t := types[i%len(types)]
		out = append(out, colSpec{fmt.Sprintf("%c%d", t, i), t})
	}
	return out
}

// build creates a frame with n rows with the given columns, plus the model.
func (w *world) build(n int, cs []colSpec) *frame {
	b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
	f := &frame{cols: map[string]*col{}}
	f.rows = w.newRows(n)
	for ci, c := range cs {
		mc := &col{kind: c.typ, cells: make([]*cell, n)}
		for i := range mc.cells {
			mc.cells[i] = &cell{}
		}
		switch c.typ {
		case 'f':
			vals := make([]float64, n)
			for i := range vals {
				vals[i] = float64((i*7+ci*3)%11) + float64(i)/16
				if (i+ci)%5 == 3 {
					vals[i] = math.NaN()
				}
				mc.cells[i].v = vals[i]
			}
			b.AddFloats(c.name, vals...)
			if n == 0 {
				b.SetFloats(c.name, vals)
			}
		case 'i':
			vals := make([]int, n)
			for i := range vals {
				vals[i] = (i*5 + ci) % 7
				if (i+ci)%6 == 4 {
					vals[i] = -1
				}
				mc.cells[i].v = vals[i]
			}
			b.SetInts(c.name, vals)
		case 'b':
			vals := make([]bool, n)
			for i := range vals {
				vals[i] = (i+ci)%3 == 0
				mc.cells[i].v = vals[i]
			}
			b.SetBools(c.name, vals)
		case 's':
			mc.kind = kO
			mc.str = true
			vals := make([]interface{}, n)
			for i := range vals {
				if (i+ci)%4 == 2 {
					vals[i] = nil
				} else {
					vals[i] = fmt.Sprintf("%s%d", c.name, i%9)
				}
				mc.cells[i].v = vals[i]
			}
			b.SetObjects(c.name, vals).MarkAsString(c.name)
		case 'o':
			mc.kind = kO
			vals := make([]interface{}, n)
			for i := range vals {
				if i%4 != 1 {
					vals[i] = &obj{i}
				}
				mc.cells[i].v = vals[i]
			}
			b.SetObjects(c.name, vals)
		case 'F', 'I', 'S', 'O': // unusual values
			mc.kind = c.typ | 0x20
			vals := make([]interface{}, n)
			for i := range vals {
				k := i + ci
				switch c.typ {
				case 'F':
					vals[i] = oddFloats[k%len(oddFloats)]
				case 'I':
					vals[i] = oddInts[k%len(oddInts)]
				case 'S':
					vals[i] = oddTexts[k%len(oddTexts)]
				case 'O':
					vals[i] = oddObjs[k%len(oddObjs)]
				}
				mc.cells[i].v = vals[i]
			}
			switch c.typ {
			case 'F':
				l := make([]float64, n)
				for i := range l {
					l[i] = vals[i].(float64)
				}
				b.SetFloats(c.name, l)
			case 'I':
				l := make([]int, n)
				for i := range l {
					l[i] = vals[i].(int)
				}
				b.SetInts(c.name, l)
			case 'S':
				mc.kind = kO
				mc.str = true
				b.SetObjects(c.name, vals).MarkAsString(c.name)
			default:
				b.SetObjects(c.name, vals)
			}
		case 'd': // row identity, an int column
			mc.kind = kI
			vals := make([]int, n)
			for i := range vals {
				vals[i] = 100 + i
				mc.cells[i].v = vals[i]
			}
			b.SetInts(c.name, vals)
		}
		f.cols[c.name] = mc
	}
	f.df = b.ToDataFrame()
	w.add(f, "build(%d rows, %d cols)", n, len(cs))
	return f
}

func (w *world) add(f *frame, format string, a ...interface{}) *frame {
	if n := len(w.frames); n < len(frameNames) {
		f.name = frameNames[n]
	} else {
		f.name = fmt.Sprintf("df%d", n)
	}
	w.frames = append(w.frames, f)
	if !muted {
		w.logf("%s := %s", f.name, fmt.Sprintf(format, a...))
	}
	return f
}

// derive returns the model of a view of f made of the rows at the positions.
func (w *world) derive(f *frame, pos []int, df *dataframe.DataFrame) *frame {
	r := &frame{df: df, cols: map[string]*col{}, parent: f, deriv: true, enc: f.enc, safe: f.safe}
	f.kids++
	f.derived++
	r.rows = make([]int, len(pos))
	for i, p := range pos {
		r.rows[i] = f.rows[p]
	}
	for k, c := range f.cols {
		nc := &col{kind: c.kind, str: c.str, cells: make([]*cell, len(pos))}
		for i, p := range pos {
			nc.cells[i] = c.cells[p]
		}
		r.cols[k] = nc
	}
	return r
}

func seq(n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = i
	}
	return l
}

// newCells makes one cell per distinct row identity.
func (f *frame) newCells(zero interface{}) []*cell {
	by := map[int]*cell{}
	out := make([]*cell, len(f.rows))
	for i, r := range f.rows {
		c := by[r]
		if c == nil {
			c = &cell{v: zero}
			by[r] = c
		}
		out[i] = c
	}
	return out
}

// restructure marks that f now has its own column maps.
func (f *frame) restructure() {
	if f.parent != nil {
		f.parent.kids--
		f.parent = nil
	}
}

// restructurable: no live dataframe borrows the maps of f.
func (f *frame) restructurable() bool { return f.kids == 0 }

// ---- comparison ----------------------------------------------------------------

func sameVal(a, b interface{}) bool {
	if x, ok := a.(float64); ok {
		y, ok := b.(float64)
		return ok && (math.Float64bits(x) == math.Float64bits(y) || x != x && y != y)
	}
	return a == b
}

func sameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sortedCopy(l []string) []string {
	c := append([]string(nil), l...)
	sort.Strings(c)
	return c
}

func show(v interface{}) string {
	if s, ok := v.(string); ok {
		return fmt.Sprintf("%q", s)
	}
	if o, ok := v.(*obj); ok && o != nil {
		return fmt.Sprintf("obj%d", o.N)
	}
	return fmt.Sprint(v)
}

// diff compares the dataframe with the model ("" if equal).
func (f *frame) diff() string {
	df := f.df
	if df == nil {
		return "nil dataframe"
	}
	if n := df.NumRows(); n != len(f.rows) {
		return fmt.Sprintf("%s has %d rows, expected %d", f.name, n, len(f.rows))
	}
	if n := df.NumColumns(); n != len(f.cols) {
		return fmt.Sprintf("%s has %d columns (%v), expected %d %v", f.name, n, sortedCopy(df.Header().NameList()), len(f.cols), f.names())
	}
	hdr := func(what string, got []string, want []string) string {
		g := sortedCopy(got)
		if !sameList(g, want) {
			return fmt.Sprintf("%s: %s columns %q, expected %q", f.name, what, g, want)
		}
		return ""
	}
	if m := hdr("float", df.FloatHeader().NameList(), f.ofKind(kF)); m != "" {
		return m
	}
	if m := hdr("int", df.IntHeader().NameList(), f.ofKind(kI)); m != "" {
		return m
	}
	if m := hdr("bool", df.BoolHeader().NameList(), f.ofKind(kB)); m != "" {
		return m
	}
	if m := hdr("object", df.ObjectHeader().NameList(), f.ofKind(kO)); m != "" {
		return m
	}
	if m := hdr("string", df.StringHeader().NameList(), f.strCols()); m != "" {
		return m
	}
	if m := hdr("all", df.Header().NameList(), f.names()); m != "" {
		return m
	}
	for name, c := range f.cols {
		if m := f.diffCol(name, c); m != "" {
			return m
		}
	}
	return ""
}

func (f *frame) diffCol(name string, c *col) string {
	bad := func(i int, got interface{}) string {
		return fmt.Sprintf("%s[%s][%d] = %s, expected %s (column: %s, expected %s)", f.name, name, i, show(got), show(c.cells[i].v), colStr(f.df, name, c), cellsStr(c))
	}
	switch c.kind {
	case kF:
		a := f.df.Floats(name)
		if a.Size() != len(c.cells) {
			return fmt.Sprintf("%s[%s] has %d rows, expected %d", f.name, name, a.Size(), len(c.cells))
		}
		for i, x := range c.cells {
			if v := a.Get(i); !sameVal(v, x.v) {
				return bad(i, v)
			}
		}
	case kI:
		a := f.df.Ints(name)
		if a.Size() != len(c.cells) {
			return fmt.Sprintf("%s[%s] has %d rows, expected %d", f.name, name, a.Size(), len(c.cells))
		}
		for i, x := range c.cells {
			if v := a.Get(i); v != x.v {
				return bad(i, v)
			}
		}
	case kB:
		a := f.df.Bools(name)
		if a.Size() != len(c.cells) {
			return fmt.Sprintf("%s[%s] has %d rows, expected %d", f.name, name, a.Size(), len(c.cells))
		}
		for i, x := range c.cells {
			if v := a.Get(i); v != x.v {
				return bad(i, v)
			}
		}
	case kO:
		a := f.df.Objects(name)
		if a.Size() != len(c.cells) {
			return fmt.Sprintf("%s[%s] has %d rows, expected %d", f.name, name, a.Size(), len(c.cells))
		}
		for i, x := range c.cells {
			if v := a.Get(i); v != x.v {
				return bad(i, v)
			}
		}
		if c.str {
			s := f.df.Strings(name)
			for i, x := range c.cells {
				if x.v != nil {
					if v := s.Get(i); v != x.v {
						return bad(i, v)
					}
				}
			}
		}
	}
	return ""
}

func colStr(df *dataframe.DataFrame, name string, c *col) string {
	vals := df.CopyValuesToInterfaces(name)
	var s []string
	for i, v := range vals {
		if i > 12 {
			s = append(s, "...")
			break
		}
		s = append(s, show(v))
	}
	return "[" + strings.Join(s, " ") + "]"
}

func cellsStr(c *col) string {
	var s []string
	for i, v := range c.cells {
		if i > 12 {
			s = append(s, "...")
			break
		}
		s = append(s, show(v.v))
	}
	return "[" + strings.Join(s, " ") + "]"
}

// checkAll compares every live dataframe with the model.
func (w *world) checkAll(after string) {
	for _, f := range w.frames {
		if m := f.diff(); m != "" {
			failf("%s after %s\n  %s", m, after, strings.Join(w.log, "\n  "))
		}
	}
}

// probe writes fresh values through every column of every dataframe and checks
// after each dataframe's writes that exactly the sharing cells changed.
func (w *world) probe() {
	for fi, f := range w.frames {
		if len(f.rows) == 0 {
			continue
		}
		for ci, name := range f.names() {
			w.overwrite(f, name, f.cols[name], (fi+ci)%3)
		}
		w.checkAll("writing through all the columns of " + f.name)
	}
}

// overwrite writes fresh values through column name of f. mode 0, 1: whole
// column overwrite; 2: cell by cell.
func (w *world) overwrite(f *frame, name string, c *col, mode int) {
	w.writeCol(f, name, c, w.freshVals(c), mode)
}

// freshVals returns new values, the same one where a row is repeated.
func (w *world) freshVals(c *col) []interface{} {
	by := map[*cell]interface{}{}
	vals := make([]interface{}, len(c.cells))
	for i, x := range c.cells {
		v, ok := by[x]
		if !ok {
			v = w.freshVal(c.kind, c.str)
			if c.kind == kB {
				b, _ := x.v.(bool)
				v = !b
			}
			by[x] = v
		}
		vals[i] = v
	}
	return vals
}

func (w *world) writeCol(f *frame, name string, c *col, vals []interface{}, mode int) {
	n := len(vals)
	df := f.df
	switch c.kind {
	case kF:
		v := make([]float64, n)
		for i := range v {
			v[i] = vals[i].(float64)
		}
		switch mode {
		case 0:
			df.OverwriteFloats64(name, v)
		case 1:
			v32 := make([]float32, n)
			for i := range v {
				v32[i] = float32(v[i])
				vals[i] = float64(v32[i])
			}
			df.OverwriteFloats32(name, v32)
		default:
			a := df.Floats(name)
			for i := range v {
				a.Set(i, v[i])
			}
		}
	case kI:
		v := make([]int, n)
		for i := range v {
			v[i] = vals[i].(int)
		}
		if mode < 2 {
			df.OverwriteInts(name, v)
		} else {
			a := df.Ints(name)
			for i := range v {
				a.Set(i, v[i])
			}
		}
	case kB:
		v := make([]bool, n)
		for i := range v {
			v[i] = vals[i].(bool)
		}
		if mode < 2 {
			df.OverwriteBools(name, v)
		} else {
			a := df.Bools(name)
			for i := range v {
				a.Set(i, v[i])
			}
		}
	case kO:
		allStr := c.str
		for _, x := range vals {
			if _, ok := x.(string); !ok {
				allStr = false
			}
		}
		switch {
		case mode == 0 && allStr:
			v := make([]string, n)
			for i := range v {
				v[i] = vals[i].(string)
			}
			df.OverwriteStrings(name, v)
		case mode < 2 || n == 0:
			ot := dataframe.AnyObject
			if c.str {
				ot = dataframe.StringObject
			}
			df.OverwriteObjects(name, append([]interface{}(nil), vals...), ot)
		case allStr:
			a := df.Strings(name)
			for i := range vals {
				a.Set(i, vals[i].(string))
			}
		default:
			a := df.Objects(name)
			for i := range vals {
				a.Set(i, vals[i])
			}
		}
	}
	for i := range vals {
		c.cells[i].v = vals[i]
	}
}

// key renders the abstract state (structure, values and sharing).
func (w *world) key() string {
	var sb strings.Builder
	ids := map[*cell]int{}
	for _, f := range w.frames {
		sb.WriteByte('|')
		for _, r := range f.rows {
			fmt.Fprintf(&sb, "%d,", r)
		}
		for _, n := range f.names() {
			c := f.cols[n]
			fmt.Fprintf(&sb, ";%s%c%v:", n, c.kind, c.str)
			for _, x := range c.cells {
				id, ok := ids[x]
				if !ok {
					id = len(ids)
					ids[x] = id
				}
				fmt.Fprintf(&sb, "%d,", id)
			}
		}
	}
	return sb.String()
}
