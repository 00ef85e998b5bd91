//go:build go1.21

package main

import (
	"bytes"
	"encoding/csv"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/zzverif/sched"
	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
)

func init() {
	props["C10"] = propDef{run: runC10}
	props["C11"] = propDef{run: runC11}
	props["C12"] = propDef{run: runC12}
	props["C13"] = propDef{run: runC13}
}

// ---- reference reader ---------------------------------------------------------

type csvOpt struct {
	intF, boolF, binF bool
	missing           []string
	exclude           []string
	header            []string
	comma, comment    rune
	lazy, trim        bool
	cpu               int
	enc               encoding.Encoding
}

func (o csvOpt) spec() dataframe.CSVReadingSpec {
	return dataframe.CSVReadingSpec{MaxCPU: o.cpu, Header: o.header, Exclude: o.exclude, MissingValues: o.missing,
		IntAsFloat: o.intF, BoolAsFloat: o.boolF, BinaryAsFloat: o.binF, Encoding: o.enc,
		Comma: o.comma, Comment: o.comment, LazyQuotes: o.lazy, TrimLeadingSpace: o.trim}
}

func (o csvOpt) String() string {
	return fmt.Sprintf("int%d bool%d bin%d missing=%q", boolInt(o.intF), boolInt(o.boolF), boolInt(o.binF), o.missing)
}

// records is what encoding/csv delivers.
func (o csvOpt) records(text string) (header []string, recs [][]string, err error) {
	r := csv.NewReader(strings.NewReader(text))
	if o.comma != 0 {
		r.Comma = o.comma
	}
	r.Comment = o.comment
	r.LazyQuotes = o.lazy
	r.TrimLeadingSpace = o.trim
	recs, err = r.ReadAll()
	if err != nil {
		return
	}
	if len(o.header) > 0 {
		header = o.header
	} else if len(recs) == 0 {
		err = io.EOF
	} else {
		header = recs[0]
		recs = recs[1:]
	}
	return
}

// column is the documented type and values of a column.
func (o csvOpt) column(vals []string) *col {
	miss := map[string]bool{}
	for _, m := range o.missing {
		miss[m] = true
	}
	all := func(f func(s string) bool, missingToo bool) bool {
		for _, v := range vals {
			if missingToo && miss[v] {
				continue
			}
			if !f(v) {
				return false
			}
		}
		return true
	}
	binary := all(func(s string) bool { return s == "0" || s == "1" }, false)
	boolean := all(func(s string) bool { _, err := strconv.ParseBool(s); return err == nil }, false)
	c := &col{}
	set := func(kind byte, f func(s string) interface{}, missing interface{}) *col {
		c.kind = kind
		for _, v := range vals {
			if miss[v] && !boolean {
				c.cells = append(c.cells, &cell{missing})
			} else {
				c.cells = append(c.cells, &cell{f(v)})
			}
		}
		return c
	}
	switch {
	case binary && o.binF || boolean && o.boolF:
		return set(kF, func(s string) interface{} {
			b, _ := strconv.ParseBool(s)
			return float64(boolInt(b))
		}, nil)
	case boolean:
		return set(kB, func(s string) interface{} { b, _ := strconv.ParseBool(s); return b }, nil)
	case all(func(s string) bool { _, err := strconv.ParseInt(s, 10, 64); return err == nil }, true):
		if o.intF {
			return set(kF, func(s string) interface{} { f, _ := strconv.ParseFloat(s, 64); return f }, math.NaN())
		}
		return set(kI, func(s string) interface{} { i, _ := strconv.ParseInt(s, 10, 64); return int(i) }, -1)
	case all(func(s string) bool { _, err := strconv.ParseFloat(s, 64); return err == nil }, true):
		return set(kF, func(s string) interface{} { f, _ := strconv.ParseFloat(s, 64); return f }, math.NaN())
	}
	c.str = true
	return set(kO, func(s string) interface{} { return s }, nil)
}

// expect is the model of reading the records.
func (o csvOpt) expect(w *world, header []string, recs [][]string) *frame {
	f := &frame{name: "read", cols: map[string]*col{}, rows: w.newRows(len(recs))}
	excl := map[string]bool{}
	for _, x := range o.exclude {
		excl[x] = true
	}
	for k, h := range header {
		if excl[h] {
			continue
		}
		vals := make([]string, len(recs))
		for i := range recs {
			vals[i] = recs[i][k]
		}
		f.cols[h] = o.column(vals)
	}
	return f
}

func distinct(l []string) bool {
	m := map[string]bool{}
	for _, s := range l {
		if m[s] {
			return false
		}
		m[s] = true
	}
	return true
}

// compareRead compares what was read with the model.
func compareRead(raw *dataframe.RawData, want *frame, o csvOpt) *frame {
	check(raw != nil, "no data and no error")
	want.df = raw.ToDataFrame()
	if len(want.rows) == 0 {
		// the type of a column without values is not specified
		check(want.df.NumRows() == 0, "%d rows read instead of none", want.df.NumRows())
		if got := sortedCopy(want.df.Header().NameList()); !sameList(got, want.names()) {
			failf("columns %q, expected %q", got, want.names())
		}
		return want
	}
	if len(want.cols) > 0 {
		want.diffOrFail()
	}
	return want
}

// chunks delivers text by pieces of at most n bytes; eof tells whether EOF
// comes with the last piece.
type chunks struct {
	text string
	n    int
	eof  bool
	obj  sched.Obj
	fail int // error after that many bytes (-1: never)
	done int
}

var errInjected = errors.New("injected failure")

func (r *chunks) Read(p []byte) (int, error) {
	n := len(p)
	if r.n > 0 && n > r.n {
		n = r.n
	}
	if n > len(r.text) {
		n = len(r.text)
	}
	if r.fail >= 0 && r.done+n > r.fail {
		n = r.fail - r.done
	}
	copy(p, r.text[:n])
	r.text = r.text[n:]
	r.done += n
	if r.fail >= 0 && r.done >= r.fail {
		return n, errInjected
	}
	if len(r.text) == 0 && (r.eof || n == 0) {
		return n, io.EOF
	}
	return n, nil
}

func chunked(text string, mode int) io.Reader {
	switch mode % 5 {
	case 0:
		return strings.NewReader(text)
	case 1:
		return &chunks{text: text, n: 1, fail: -1}
	case 2:
		return &chunks{text: text, n: 3, eof: true, fail: -1}
	case 3:
		return &chunks{text: text, n: 0, eof: true, fail: -1}
	}
	return &chunks{text: text, n: 7, fail: -1}
}

func (c *Ctx) readCase(w *world, text string, o csvOpt, mode int) *frame {
	header, recs, err := o.records(text)
	raw, rerr := dataframe.FromCSV(chunked(text, mode), o.spec())
	if err != nil {
		check(rerr != nil, "no error for the malformed text %q", text)
		return nil
	}
	check(rerr == nil, "reading %q fails: %v", text, rerr)
	return compareRead(raw, o.expect(w, header, recs), o)
}

func quoteCSV(s string) string {
	if s == "" || strings.ContainsAny(s, ",;\t\"\n ") {
		return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
	}
	return s
}

// ---- C10 ---------------------------------------------------------------------------

var cellTexts = []string{"0", "1", "true", "F", "2", "-1", "1.5", "x", "", "NA",
	"TRUE", "false", "+3", "007", "-0", "1e3", "NaN", "inf", "0x10", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1_0", "1e999", " 1", "é", "a b", `q"q`, "True", "tRUE", "nan", ".5", "5.", "0.1", "4.9e-324"}

func csvOpts() []csvOpt {
	var l []csvOpt
	for b := 0; b < 8; b++ {
		for _, m := range [][]string{nil, {""}, {"NA", ""}, {"x"}} {
			l = append(l, csvOpt{intF: b&1 != 0, boolF: b&2 != 0, binF: b&4 != 0, missing: m})
		}
	}
	return l
}

func runC10(c *Ctx) {
	sched.SetNumCPU(4)
	opts := csvOpts()
	// every column of up to three (four) cells, alone and next to another one
	base := 10
	ml := 3
	if c.thorough {
		base, ml = 12, 4
	}
	c.Unit("every column of common cells")
	for l := 1; l <= ml; l++ {
		tuples(base, l, func(t []int) {
			for oi := range opts {
				if l == 4 && oi%3 != (t[0]+t[1])%3 {
					continue
				}
				o := opts[oi]
				t2 := t
				id := ""
				if c.only != "" || c.counter%c.of == c.shard {
					id = fmt.Sprintf("cells %v opt %d", t, oi)
				}
				c.Case(id, func() {
					var sb strings.Builder
					sb.WriteString("a,b\n")
					for i, k := range t2 {
						sb.WriteString(quoteCSV(cellTexts[k]) + "," + quoteCSV(cellTexts[t2[(i+1)%l]]) + "\n")
					}
					w := newWorld()
					o.cpu = 1 + t2[0]%2
					c.readCase(w, sb.String(), o, t2[0])
				})
			}
		})
	}
	c.Unit("every pair of cells")
	for i := range cellTexts {
		for j := range cellTexts {
			for oi := range opts {
				i, j, o := i, j, opts[oi]
				c.Case(fmt.Sprintf("pair %d %d opt %d", i, j, oi), func() {
					w := newWorld()
					a, b := quoteCSV(cellTexts[i]), quoteCSV(cellTexts[j])
					c.readCase(w, "col,id\n"+a+",7\n"+b+",8\n", o, i)
					o.header = []string{"h"}
					c.readCase(w, a+"\n"+b+"\n", o, j)
				})
			}
		}
	}
	// other columns and CPU limits change nothing
	c.Unit("mixes of columns")
	colMenu := [][]string{{"0", "1", "0"}, {"true", "F", "1"}, {"3", "", "-4"}, {"1.5", "", "2"}, {"x", "", "NA"}, {"", "", ""}, {"0", "", "1"}, {"NA", "x", "x"}}
	names := []string{"a", "b", "c", "", "B"}
	for k := 1; k <= 3; k++ {
		tuples(len(colMenu), k, func(t []int) {
			for _, oi := range []int{0, 1, 2, 5, 10, 31} {
				for cpu := -1; cpu <= 4; cpu++ {
					if k == 3 && (cpu == -1 || cpu == 4) {
						continue
					}
					t, o, cpu := t, opts[oi], cpu
					id := ""
					if c.only != "" || c.counter%c.of == c.shard {
						id = fmt.Sprintf("cols %v opt %d cpu %d", t, oi, cpu)
					}
					c.Case(id, func() {
						o.cpu = cpu
						var sb strings.Builder
						for j := range t {
							if j > 0 {
								sb.WriteString(",")
							}
							sb.WriteString(quoteCSV(names[(j+t[0])%len(names)]))
						}
						sb.WriteString("\n")
						for i := 0; i < 3; i++ {
							for j, x := range t {
								if j > 0 {
									sb.WriteString(",")
								}
								sb.WriteString(quoteCSV(colMenu[x][i]))
							}
							sb.WriteString("\n")
						}
						w := newWorld()
						f := c.readCase(w, sb.String(), o, t[0])
						want := cpu
						if cpu <= 0 || cpu > 4 {
							want = 4
						}
						check(f.df.ActualMaxCPU() == want, "the CPU limit of the dataframe is %d, expected %d", f.df.ActualMaxCPU(), want)
						w.add(f, "FromCSV")
						w.probe()
					})
				}
			}
		})
	}
	c.Unit("every order of the map of columns and of the queue")
	for cpu := 1; cpu <= 3; cpu++ {
		for _, oi := range []int{0, 1, 7} {
			cpu, o := cpu, opts[oi]
			c.Schedules(fmt.Sprintf("orders cpu=%d opt=%d", cpu, oi), func(e *sched.Explorer) {
				e.Bound[sched.KSched] = 0
				e.Bound[sched.KMap] = 2
				e.Bound[sched.KRand] = -1
			}, func() {
				sched.SetNumCPU(4)
				o.cpu = cpu
				w := newWorld()
				c.readCase(w, "a,b,c\n0,,x\n1,2,\n0,3,1.5\n", o, 0)
			})
		}
	}
	c.Unit("every interleaving of the workers")
	for k := 1; k <= 3; k++ {
		for cpu := 1; cpu <= 3; cpu++ {
			for _, oi := range []int{0, 1, 14} {
				k, cpu, o := k, cpu, opts[oi]
				if k == 3 && cpu == 3 && oi == 14 && !c.thorough {
					continue
				}
				c.Schedules(fmt.Sprintf("%d columns cpu=%d opt=%d", k, cpu, oi), func(e *sched.Explorer) {
					if k == 3 && cpu == 3 && !c.thorough {
						e.Bound[sched.KSched] = 2
					}
				}, func() {
					o.cpu = cpu
					w := newWorld()
					text := []string{"a\n0\n\"\"\n", "a,b\n0,x\n,2\n", "a,b,c\n0,x,1.5\n,2,NA\n"}[k-1]
					c.readCase(w, text, o, 0)
				})
			}
		}
	}
	// quoting, separators, comments, headers: every short text
	c.Unit("every short text")
	letters := []byte("a,\"\n 1#\r")
	tl := 5
	if c.thorough {
		tl = 6
	}
	variants := []csvOpt{{}, {header: []string{"h"}}, {lazy: true}, {trim: true}, {comma: ' '}, {comment: '#'}, {lazy: true, trim: true, comment: 'a', header: []string{"h"}}}
	for l := 0; l <= tl; l++ {
		tuples(len(letters), l, func(t []int) {
			for vi, o := range variants {
				if l == tl && vi != 0 && (l == 6 || vi > 3) {
					continue
				}
				t, o, vi := t, o, vi
				id := ""
				if c.only != "" || c.counter%c.of == c.shard {
					id = fmt.Sprintf("text %v variant %d", t, vi)
				}
				c.Case(id, func() {
					b := make([]byte, l)
					for i, k := range t {
						b[i] = letters[k]
					}
					text := string(b)
					header, recs, err := o.records(text)
					if err == nil {
						if !distinct(header) || len(o.header) > 0 && len(recs) > 0 && len(recs[0]) != len(header) {
							return // not specified
						}
					}
					o.cpu = 1
					c.readCase(newWorld(), text, o, l)
				})
			}
		})
	}
	c.Unit("chunks")
	long := strings.Repeat("é\"x", 1500)
	for mode := 0; mode < 5; mode++ {
		for _, rows := range []int{0, 1, 2, 100, 1000, 3000} {
			mode, rows := mode, rows
			c.Case(fmt.Sprintf("chunks mode=%d rows=%d", mode, rows), func() {
				var sb strings.Builder
				sb.WriteString("id,\"va\nl\",txt\n")
				for i := 0; i < rows; i++ {
					s := fmt.Sprintf("line %d\n", i)
					if i == 7 {
						s = long
					}
					fmt.Fprintf(&sb, "%d,%g,%s\n", i, float64(i)/7, quoteCSV(s))
				}
				c.readCase(newWorld(), sb.String(), csvOpt{}, mode)
			})
		}
	}
	readSizes(c, opts)
	c.Unit("exclusions, headers and encodings")
	all := []string{"a", "b", "c"}
	for mask := 0; mask < 16; mask++ {
		for _, hdr := range [][]string{nil, all, {"c", "a", "b"}, {"x", "b", ""}} {
			for ei, e := range []encoding.Encoding{nil, charmap.ISO8859_1} {
				mask, hdr, e := mask, hdr, e
				c.Case(fmt.Sprintf("exclude %b header %q enc %d", mask, hdr, ei), func() {
					o := csvOpt{header: hdr, enc: e, cpu: 2, missing: []string{"NA"}}
					for i, n := range []string{"a", "b", "c", "zz"} {
						if mask>>uint(i)&1 == 1 {
							o.exclude = append(o.exclude, n)
						}
					}
					text := "1,NA,txt\n2.5,7,\n3,8,NA\n"
					if hdr == nil {
						text = "a,b,c\n" + text
					}
					w := newWorld()
					f := c.readCase(w, text, o, mask)
					if len(f.cols) > 0 {
						checkDeclared(f, e)
					}
				})
			}
		}
	}
	c.Unit("every exclusion")
	for n := 1; n <= 5; n++ {
		names := []string{"a", "b", "c", "d", "e"}[:n]
		var fields []string
		for i := range names {
			fields = append(fields, []string{"1", "txt", "true", "2.5", "40"}[i])
		}
		row := strings.Join(fields, ",") + "\n"
		for mask := 0; mask < 1<<uint(n); mask++ {
			for hdr := 0; hdr < 2; hdr++ {
				n, mask, hdr := n, mask, hdr
				c.Case(fmt.Sprintf("%d columns exclude %b header %d", n, mask, hdr), func() {
					o := csvOpt{cpu: 1 + hdr}
					// in an order that is not the order of the columns
					for i := n - 1; i >= 0; i-- {
						if mask>>uint(i)&1 == 1 {
							o.exclude = append(o.exclude, names[i])
						}
					}
					text := row + strings.Replace(row, "1", "11", 1)
					if hdr == 1 {
						o.header = names
					} else {
						text = strings.Join(names, ",") + "\n" + text
					}
					c.readCase(newWorld(), text, o, mask)
				})
			}
		}
	}
}

// ---- C11 ---------------------------------------------------------------------------

type csvWopt struct {
	comma  rune
	crlf   bool
	order  bool
	marker string
	minRow int
}

func (o csvWopt) spec() dataframe.CSVWritingSpec {
	return dataframe.CSVWritingSpec{StringMissingMarker: o.marker, MaintainOrder: o.order, Comma: o.comma, UseCRLF: o.crlf, MinRowsPerFile: o.minRow}
}

// written returns the model rows as tuples over the sorted writable columns.
func (f *frame) writable() []string {
	var l []string
	for _, n := range f.names() {
		if c := f.cols[n]; c.kind != kO || c.str {
			l = append(l, n)
		}
	}
	return l
}

func canonical(v interface{}, marker string) string {
	switch x := v.(type) {
	case nil:
		return "s" + marker
	case string:
		return "s" + x
	case bool:
		return fmt.Sprint("b", x)
	case int:
		return fmt.Sprint("i", x)
	case float64:
		if x != x {
			return "fNaN"
		}
		return "f" + strconv.FormatUint(math.Float64bits(x), 16)
	}
	panic("harness: cannot be written")
}

func (f *frame) modelRows(cols []string, marker string) []string {
	out := make([]string, len(f.rows))
	for i := range out {
		var sb strings.Builder
		for _, n := range cols {
			s := canonical(f.cols[n].cells[i].v, marker)
			fmt.Fprintf(&sb, "%d:%s|", len(s), s)
		}
		out[i] = sb.String()
	}
	return out
}

// parseCSV checks that text is a well-formed CSV with the columns of f and
// returns its rows in the form of modelRows.
func (f *frame) parseCSV(text string, cols []string, o csvWopt) []string {
	r := csv.NewReader(strings.NewReader(text))
	if o.comma != 0 {
		r.Comma = o.comma
	}
	recs, err := r.ReadAll()
	if err != nil || len(recs) == 0 {
		failf("the output is not a CSV with a header: %v in %q", err, clip(text))
	}
	if o.crlf {
		check(strings.Count(text, "\n") == strings.Count(text, "\r\n"), "a line does not end with CRLF in %q", clip(text))
	} else {
		check(!strings.Contains(text, "\r"), "a CR in %q", clip(text))
	}
	check(strings.HasSuffix(text, "\n"), "the last line is not complete in %q", clip(text))
	if got := sortedCopy(recs[0]); !sameList(got, cols) {
		failf("the header is %q, expected %q", recs[0], cols)
	}
	pos := map[string]int{}
	for i, h := range recs[0] {
		pos[h] = i
	}
	var out []string
	for _, rec := range recs[1:] {
		var sb strings.Builder
		for _, n := range cols {
			c := f.cols[n]
			t := rec[pos[n]]
			var v interface{}
			var err error
			switch c.kind {
			case kF:
				v, err = strconv.ParseFloat(t, 64)
			case kI:
				v, err = strconv.Atoi(t)
			case kB:
				v, err = strconv.ParseBool(t)
			default:
				v = t
			}
			if err != nil {
				failf("cell %q of column %s: %v", t, n, err)
			}
			s := canonical(v, "")
			fmt.Fprintf(&sb, "%d:%s|", len(s), s)
		}
		out = append(out, sb.String())
	}
	return out
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

func sameRows(got, want []string, ordered bool, what string) {
	if !ordered {
		got = sortedCopy(got)
		want = sortedCopy(want)
	}
	if len(got) != len(want) {
		failf("%s: %d rows, expected %d", what, len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			failf("%s: row %d is %s, expected %s", what, i, clip(got[i]), clip(want[i]))
		}
	}
}

// backAgain compares the values read from text with the rows written. Rows are
// compared by value: a column of floats may be read as a column of integers.
func (f *frame) backAgain(raw *dataframe.RawData, cols []string, o csvWopt, ordered bool) {
	check(raw != nil, "nothing was read back")
	df := raw.ToDataFrame()
	if len(f.rows) == 0 {
		check(df.NumRows() == 0, "%d rows read back instead of none", df.NumRows())
		return
	}
	if got := sortedCopy(df.Header().NameList()); !sameList(got, cols) {
		failf("columns %q read back, expected %q", got, cols)
	}
	num := func(v interface{}) string {
		switch x := v.(type) {
		case bool:
			return fmt.Sprint(boolInt(x))
		case int:
			return fmt.Sprint(x)
		case float64:
			if x == math.Trunc(x) && math.Abs(x) < 1e15 {
				return fmt.Sprint(int(x))
			}
			return strconv.FormatFloat(x, 'g', -1, 64)
		case nil:
			return "nil"
		case string:
			return "s" + x
		}
		return "?"
	}
	n := df.NumRows()
	got := make([]string, n)
	want := make([]string, len(f.rows))
	for _, name := range cols {
		if c := f.cols[name]; c.kind == kO {
			// a column of missing values or of numbers is not read as strings
			plain := false
			for _, x := range c.cells {
				s, ok := x.v.(string)
				_, e1 := strconv.ParseFloat(s, 64)
				_, e2 := strconv.ParseBool(s)
				plain = plain || ok && s != o.marker && e1 != nil && e2 != nil
			}
			if !plain {
				continue
			}
		}
		vals := df.CopyValuesToInterfaces(name)
		c := f.cols[name]
		for i := range got {
			v := vals[i]
			if x, ok := v.(int); ok && c.kind == kF {
				v = float64(x) // written from a float
			}
			got[i] += num(v) + "|"
		}
		for i, x := range c.cells {
			v := x.v
			if c.kind == kO && v == o.marker {
				v = nil
			}
			want[i] += num(v) + "|"
		}
	}
	sameRows(got, want, ordered, "reading back")
}

// csvFrame builds a frame whose columns keep their types when written.
func (w *world) csvFrame(n int, texts []string) *frame {
	b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
	f := &frame{cols: map[string]*col{}, rows: w.newRows(n)}
	fl := []float64{0.5, -1.25, math.NaN(), 1e308, 5e-324, math.Inf(-1), 1.0 / 3, -0.0, 123456789.125}
	in := []int{-1, math.MaxInt64, 3, math.MinInt64, 0, 1 << 53, 1<<53 + 1}
	var fs []float64
	var is, ids []int
	var bs []bool
	var ss, os []interface{}
	mk := func(kind byte) *col {
		c := &col{kind: kind, cells: make([]*cell, n)}
		for i := range c.cells {
			c.cells[i] = &cell{}
		}
		return c
	}
	cf, ci, cd, cb, cs, co := mk(kF), mk(kI), mk(kI), mk(kB), mk(kO), mk(kO)
	cs.str = true
	for i := 0; i < n; i++ {
		fs = append(fs, fl[(i*i+i/3)%len(fl)])
		is = append(is, in[(i+i/7)%len(in)])
		ids = append(ids, 1000+i)
		bs = append(bs, i%3 == 1)
		var s interface{}
		if i%4 != 3 {
			s = texts[(i+i/5)%len(texts)]
		}
		ss = append(ss, s)
		os = append(os, &obj{i})
		cf.cells[i].v = fs[i]
		ci.cells[i].v = is[i]
		cd.cells[i].v = ids[i]
		cb.cells[i].v = bs[i]
		cs.cells[i].v = s
		co.cells[i].v = os[i]
	}
	b.SetFloats("fl,1", fs).SetInts("i", is).SetInts("id", ids).SetBools("b\"", bs).SetObjects("s", ss).MarkAsString("s").SetObjects("o", os)
	f.cols["fl,1"], f.cols["i"], f.cols["id"], f.cols["b\""], f.cols["s"], f.cols["o"] = cf, ci, cd, cb, cs, co
	f.df = b.ToDataFrame()
	return w.add(f, "csvFrame(%d rows)", n)
}

var csvTexts = []string{"plain", "", "a,b", "q\"q", "two\nlines", " lead", "trail ", "é日本", "\\.", "tab\tbed", ";", "'", "NA", "true", "1", "#x"}

func runC11(c *Ctx) {
	forms := viewForms()
	wopts := []csvWopt{{}, {order: true}, {comma: ';', order: true}, {comma: '\t', crlf: true}, {crlf: true, order: true, marker: "NA"}, {marker: "<missing>"}, {comma: '|', marker: ","}}
	write := func(w *world, v *frame, o csvWopt) {
		var buf bytes.Buffer
		err := v.df.To1CSV(&buf, o.spec())
		check(err == nil, "To1CSV fails: %v", err)
		cols := v.writable()
		rows := v.parseCSV(buf.String(), cols, o)
		sameRows(rows, v.modelRows(cols, o.marker), o.order, "To1CSV")
		raw, err := dataframe.FromCSV(&buf, dataframe.CSVReadingSpec{MissingValues: []string{o.marker}, Comma: o.comma, MaxCPU: 1})
		check(err == nil, "reading back fails: %v", err)
		v.backAgain(raw, cols, o, o.order)
		w.checkAll("writing a CSV")
	}
	sizes := []int{0, 1, 2, 3, 5, 12, 30, 255, 256, 257, 511, 512, 513, 600}
	if c.thorough {
		sizes = append(sizes, 4, 13, 31, 128, 254, 258, 768, 769, 1024, 1025, 2000)
	}
	c.Unit("every form and option")
	for _, n := range sizes {
		for _, form := range forms {
			for oi, o := range wopts {
				n, form, o := n, form, o
				c.Case(fmt.Sprintf("n=%d %s opt=%d", n, form.name, oi), func() {
					w := newWorld()
					f := w.csvFrame(n, csvTexts)
					form.do(w, f)
					v := w.last()
					write(w, v, o)
					w.probe()
				})
			}
		}
	}
	c.Unit("every row count")
	top := 300
	if c.thorough {
		top = 1100
	}
	for n := 0; n <= top; n++ {
		for k := 0; k < 3; k++ {
			n, k := n, k
			c.Case(fmt.Sprintf("count=%d %d", n, k), func() {
				w := newWorld()
				f := w.build(n, specs("id:d a:f"))
				if k > 0 {
					w.opReverse(f).do()
				}
				write(w, w.last(), csvWopt{order: k == 1})
			})
		}
	}
	writeSizes(c, write)
	c.Unit("every short string")
	letters := []rune("a,\"\n ;'\\.é\t#")
	l := 2
	if c.thorough {
		l = 3
	}
	var all []string
	for k := 0; k <= l; k++ {
		tuples(len(letters), k, func(t []int) {
			var s []rune
			for _, x := range t {
				s = append(s, letters[x])
			}
			all = append(all, string(s))
		})
	}
	for i := 0; i < len(all); i += 5 {
		end := i + 5
		if end > len(all) {
			end = len(all)
		}
		batch := all[i:end]
		for oi, o := range wopts {
			o := o
			c.Case(fmt.Sprintf("strings %d opt=%d", i, oi), func() {
				w := newWorld()
				f := w.csvFrame(2*len(batch)+1, batch)
				write(w, f, o)
				w.opReverse(f).do()
				write(w, w.last(), o)
			})
		}
	}
	c.Unit("missing strings and index orders")
	for n := 1; n <= 4; n++ {
		tuples(n, n, func(t []int) {
			t = append([]int{}, t...)
			for oi, o := range wopts[:2] {
				o := o
				c.Case(fmt.Sprintf("index %v opt=%d", t, oi), func() {
					w := newWorld()
					f := w.csvFrame(n, []string{"x"})
					w.opIndex(f, t).do()
					write(w, w.last(), o)
					w.opSlice(w.last(), 1, -1).do()
					write(w, w.last(), o)
				})
			}
		})
	}
	c.Unit("one column of each type")
	for _, spec := range []string{"a:f", "a:i", "a:b", "id:d", "s:s id:d", "a:f b:f c:f", "o:o a:f", "a:i o:o"} {
		for n := 0; n <= 5; n++ {
			for oi, o := range wopts {
				spec, n, o := spec, n, o
				c.Case(fmt.Sprintf("[%s] n=%d opt=%d", spec, n, oi), func() {
					w := newWorld()
					f := w.build(n, specs(spec))
					write(w, f, o)
				})
			}
		}
	}
	c.Tree("written after any history", []root{rootOf(3, "id:d s1:s f1:f")}, treeOpt{depth: 3, noProbe: true, extra: func(w *world) {
		for _, f := range w.frames {
			if len(f.writable()) > 0 && f.has("id") {
				write(w, f, csvWopt{order: len(w.frames)%2 == 0, marker: "NA"})
			}
		}
	}}, func(w *world, d int) []op {
		f := w.last()
		l := []op{w.opView(f), w.opReverse(f), w.opShallow(f), w.opCopy(f), w.opReset(f)}
		if len(f.rows) > 0 {
			l = append(l, w.opIndex(f, []int{0, 0}), w.opSlice(f, 1, -1))
		}
		if len(f.rows) > 1 {
			l = append(l, w.opSlice(f, 2, 0))
		}
		l = append(l, w.restructurings(f, false)...)
		return append(l, w.hashes(f)...)
	})
}

// ---- C12 ---------------------------------------------------------------------------

// sink is a writer whose calls are scheduling points.
type sink struct {
	bytes.Buffer
	obj sched.Obj
	// faults
	failAt  int // bytes accepted before failing (-1: never fails)
	short   bool
	failed  bool
	failCnt *int
}

func (s *sink) Write(p []byte) (int, error) {
	sched.YieldObj(&s.obj, "write")
	if s.failAt >= 0 && s.Len()+len(p) > s.failAt {
		n := s.failAt - s.Len()
		s.Buffer.Write(p[:n])
		s.failed = true
		if s.failCnt != nil {
			*s.failCnt++
		}
		if s.short {
			return n, nil
		}
		return n, errInjected
	}
	return s.Buffer.Write(p)
}

func csvWriters(n int) ([]*sink, []io.Writer) {
	sinks := make([]*sink, n)
	ws := make([]io.Writer, n)
	for i := range ws {
		sinks[i] = &sink{failAt: -1}
		ws[i] = sinks[i]
	}
	return sinks, ws
}

func runC12(c *Ctx) {
	forms := viewForms()
	wopts := []csvWopt{{}, {order: true}, {comma: ';', crlf: true, marker: "NA"}}
	parts := func(v *frame, texts []string, o csvWopt, what string) {
		cols := v.writable()
		var rows []string
		for _, t := range texts {
			rows = append(rows, v.parseCSV(t, cols, o)...)
		}
		sameRows(rows, v.modelRows(cols, o.marker), false, what)
	}
	toWriters := func(w *world, v *frame, k int, o csvWopt) {
		sinks, ws := csvWriters(k)
		err := v.df.ToCSVs(ws, o.spec())
		check(err == nil, "ToCSVs fails: %v", err)
		var texts []string
		for _, s := range sinks {
			texts = append(texts, s.String())
		}
		parts(v, texts, o, "ToCSVs")
		w.checkAll("ToCSVs")
	}
	c.Unit("several writers")
	for _, n := range []int{0, 1, 2, 3, 4, 5, 7, 12, 30, 257, 600} {
		for _, form := range forms {
			for k := 1; k <= 6; k++ {
				for oi, o := range wopts {
					n, form, k, o := n, form, k, o
					if n > 30 && (k == 4 || k == 5 || oi == 2) {
						continue
					}
					c.Case(fmt.Sprintf("writers n=%d %s k=%d opt=%d", n, form.name, k, oi), func() {
						w := newWorld()
						f := w.csvFrame(n, csvTexts)
						form.do(w, f)
						toWriters(w, w.last(), k, o)
					})
				}
			}
		}
	}
	c.Unit("every number of writers")
	for k := 1; k <= 40; k++ {
		for _, n := range append(seq(14), k-1, k, k+1, 2*k-1, 2*k+1, 100, 513) {
			k, n := k, n
			if n < 0 || n > 40 && k%3 > 0 {
				continue
			}
			c.Case(fmt.Sprintf("writers n=%d k=%d", n, k), func() {
				w := newWorld()
				f := w.csvFrame(n, csvTexts)
				if k%2 == 1 {
					w.opReverse(f).do()
				}
				toWriters(w, w.last(), k, wopts[(n+k)%3])
			})
		}
	}
	c.Unit("every interleaving of the writers")
	for n := 0; n <= 4; n++ {
		for k := 1; k <= 3; k++ {
			for fi, form := range []selOp{forms[0], forms[2], forms[len(forms)-7]} {
				n, k, form := n, k, form
				if k == 3 && fi == 2 && !c.thorough {
					continue
				}
				c.Schedules(fmt.Sprintf("interleavings n=%d k=%d %s", n, k, form.name), func(e *sched.Explorer) {}, func() {
					w := newWorld()
					f := w.csvFrame(n, csvTexts)
					form.do(w, f)
					toWriters(w, w.last(), k, csvWopt{order: fi == 1})
				})
			}
		}
	}
	// files
	listDir := func(d string) []string {
		es, err := os.ReadDir(d)
		if err != nil {
			panic("harness: " + err.Error())
		}
		var l []string
		for _, e := range es {
			l = append(l, filepath.Join(d, e.Name()))
		}
		sort.Strings(l)
		return l
	}
	readAll := func(paths []string) []string {
		var l []string
		for _, p := range paths {
			b, err := os.ReadFile(p)
			if err != nil {
				failf("a file of the list cannot be read: %v", err)
			}
			l = append(l, string(b))
		}
		return l
	}
	readBack := func(v *frame, glob string, o csvWopt, cpu int) {
		raw, err := dataframe.FromCSVFilePattern(glob, dataframe.CSVReadingSpec{MissingValues: []string{o.marker}, Comma: o.comma, MaxCPU: cpu})
		check(err == nil, "reading %s fails: %v", filepath.Base(glob), err)
		v.backAgain(raw, v.writable(), o, false)
		want := cpu
		if cpu <= 0 || cpu > sched.NumCPU() {
			want = sched.NumCPU()
		}
		check(raw.ActualMaxCPU() == want, "the CPU limit of the data read from files is %d, expected %d", raw.ActualMaxCPU(), want)
	}
	// values such that all the parts have the same column types
	stable := func(w *world, n int) *frame {
		b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
		f := &frame{cols: map[string]*col{}, rows: w.newRows(n)}
		cd, cf, cs, cb := &col{kind: kI}, &col{kind: kF}, &col{kind: kO, str: true}, &col{kind: kB}
		ids, fs, ss, bs := []int{}, []float64{}, []interface{}{}, []bool{}
		for i := 0; i < n; i++ {
			ids = append(ids, 100+i)
			fs = append(fs, float64(i)+0.5)
			ss = append(ss, fmt.Sprintf("t%d", i%5))
			bs = append(bs, i%2 == 0)
			cd.cells = append(cd.cells, &cell{ids[i]})
			cf.cells = append(cf.cells, &cell{fs[i]})
			cs.cells = append(cs.cells, &cell{ss[i]})
			cb.cells = append(cb.cells, &cell{bs[i]})
		}
		b.SetInts("id", ids).SetFloats("f", fs).SetObjects("s", ss).MarkAsString("s").SetBools("b", bs)
		f.cols["id"], f.cols["f"], f.cols["s"], f.cols["b"] = cd, cf, cs, cb
		f.df = b.ToDataFrame()
		return w.add(f, "stable(%d rows)", n)
	}
	c.Unit("files")
	for _, n := range []int{0, 1, 2, 3, 5, 12, 40} {
		for k := 1; k <= 5; k++ {
			for _, fi := range []int{0, 2, 4, 8, len(forms) - 3} {
				for cpu := -1; cpu <= 8; cpu++ {
					if cpu > 4 && cpu < 8 || cpu == 0 {
						continue
					}
					n, k, form, cpu := n, k, forms[fi%len(forms)], cpu
					c.Case(fmt.Sprintf("files n=%d k=%d %s cpu=%d", n, k, form.name, cpu), func() {
						sched.SetNumCPU(8)
						defer sched.SetNumCPU(4)
						d := c.tmpDir()
						defer rmDir(c, d)
						w := newWorld()
						f := stable(w, n)
						form.do(w, f)
						v := w.last()
						var paths []string
						for i := 0; i < k; i++ {
							paths = append(paths, filepath.Join(d, fmt.Sprintf("part-%d.csv", i)))
						}
						o := csvWopt{order: n%2 == 0}
						err := v.df.ToCSVFiles(o.spec(), paths...)
						check(err == nil, "ToCSVFiles fails: %v", err)
						check(sameList(listDir(d), paths), "files %v, expected %v", listDir(d), paths)
						parts(v, readAll(paths), o, "ToCSVFiles")
						os.Mkdir(filepath.Join(d, "part-dir.csv"), 0o755) // not a file
						readBack(v, filepath.Join(d, "part-*.csv"), o, cpu)
						w.checkAll("writing files")
					})
				}
			}
		}
	}
	c.Unit("directories")
	for _, n := range []int{0, 1, 2, 3, 4, 7, 8, 9, 12, 25, 120} {
		for _, minRows := range []int{0, 1, 2, 4, 5, 100} {
			for _, cpu := range []int{1, 2, 3, 4, 8, 12, 110} {
				for _, fi := range []int{0, 2, len(forms) - 3} {
					n, minRows, cpu, form := n, minRows, cpu, forms[fi]
					if cpu == 110 && n < 100 {
						continue
					}
					c.Case(fmt.Sprintf("dir n=%d min=%d cpu=%d %s", n, minRows, cpu, form.name), func() {
						sched.SetNumCPU(cpu)
						if cpu > 40 {
							return
						}
						defer sched.SetNumCPU(4)
						d := c.tmpDir()
						defer rmDir(c, d)
						w := newWorld()
						f := stable(w, n)
						f.df.SetMaxCPU(cpu)
						form.do(w, f)
						v := w.last()
						o := csvWopt{minRow: minRows, order: n%2 == 1}
						paths, err := v.df.ToCSVDir(o.spec(), filepath.Join(d, "out"))
						check(err == nil, "ToCSVDir fails: %v", err)
						check(len(paths) > 0, "ToCSVDir lists no files")
						if !sameList(listDir(d), sortedCopy(paths)) {
							failf("ToCSVDir lists %v and writes %v", paths, listDir(d))
						}
						parts(v, readAll(paths), o, "ToCSVDir")
						readBack(v, filepath.Join(d, "out*.csv"), o, 2)
						w.checkAll("writing a directory")
					})
				}
			}
		}
	}
	c.Unit("every interleaving of the file readers")
	for k := 2; k <= 3; k++ {
		for cpu := 1; cpu <= 6; cpu++ {
			for ncol := 1; ncol <= 2; ncol++ {
				k, cpu, ncol := k, cpu, ncol
				c.Schedules(fmt.Sprintf("reading %d files of %d columns cpu=%d", k, ncol, cpu), func(e *sched.Explorer) {
					// all the interleavings are too many: up to so many delays
					e.Delay = true
					e.Bound[sched.KSched] = 2
					e.Bound[sched.KSelect] = 1
					if c.thorough {
						e.Bound[sched.KSched] = 3
						e.Bound[sched.KSelect] = 2
					}
				}, func() {
					sched.SetNumCPU(6)
					defer sched.SetNumCPU(4)
					d := c.tmpDir()
					defer rmDir(c, d)
					want := &frame{cols: map[string]*col{"a": {kind: kI}}}
					if ncol == 2 {
						want.cols["s"] = &col{kind: kO, str: true}
					}
					for i := 0; i < k; i++ {
						text := "a\n"
						if ncol == 2 {
							text = "a,s\n"
						}
						for j := 0; j < 2; j++ {
							want.rows = append(want.rows, i)
							text += fmt.Sprint(10*i + j + 2)
							want.cols["a"].cells = append(want.cols["a"].cells, &cell{10*i + j + 2})
							if ncol == 2 {
								text += fmt.Sprintf(",x%d%d", i, j)
								want.cols["s"].cells = append(want.cols["s"].cells, &cell{fmt.Sprintf("x%d%d", i, j)})
							}
							text += "\n"
						}
						if err := os.WriteFile(filepath.Join(d, fmt.Sprintf("f%d.csv", i)), []byte(text), 0o600); err != nil {
							panic("harness: " + err.Error())
						}
					}
					raw, err := dataframe.FromCSVFilePattern(filepath.Join(d, "f*.csv"), dataframe.CSVReadingSpec{MaxCPU: cpu, Encoding: charmap.ISO8859_1})
					check(err == nil, "reading fails: %v", err)
					df := raw.ToDataFrame()
					check(df.StringHeader().Num() == ncol-1, "string columns %v", df.StringHeader().NameList())
					want.backAgain(raw, want.names(), csvWopt{}, false)
					check(raw.ActualMaxCPU() == cpu, "the CPU limit is %d, expected %d", raw.ActualMaxCPU(), cpu)
					if ncol == 2 {
						g := &frame{df: df, cols: want.cols, rows: want.rows}
						checkDeclared(g, charmap.ISO8859_1)
					}
				})
			}
		}
	}
	c.Unit("sets of files")
	for k := 0; k <= 34; k++ {
		for cpu := -1; cpu <= 9; cpu++ {
			for size := 0; size <= 3; size++ {
				k, cpu, size := k, cpu, size
				if k > 9 && (k+cpu+size)%5 != 0 {
					continue
				}
				if size == 3 && k > 9 {
					size = 70
				}
				c.Case(fmt.Sprintf("%d files cpu=%d size=%d", k, cpu, size), func() {
					sched.SetNumCPU(8)
					defer sched.SetNumCPU(4)
					d := c.tmpDir()
					defer rmDir(c, d)
					want := &frame{cols: map[string]*col{"a": {kind: kI}, "s": {kind: kO, str: true}, "f": {kind: kF}, "b": {kind: kB}}}
					for i := 0; i < k; i++ {
						text := "a,s,f,b\n"
						for j := 0; j < size+i%2; j++ {
							want.rows = append(want.rows, i)
							a, s, x, b := 10*i+j+2, fmt.Sprintf("s%d", i*j), float64(i)+float64(j)/8+0.03, (i+j)%2 == 0
							text += fmt.Sprintf("%d,%s,%v,%v\n", a, s, x, b)
							for n, v := range map[string]interface{}{"a": a, "s": s, "f": x, "b": b} {
								want.cols[n].cells = append(want.cols[n].cells, &cell{v})
							}
						}
						if err := os.WriteFile(filepath.Join(d, fmt.Sprintf("f%d.csv", i)), []byte(text), 0o600); err != nil {
							panic("harness: " + err.Error())
						}
					}
					raw, err := dataframe.FromCSVFilePattern(filepath.Join(d, "f*.csv"), dataframe.CSVReadingSpec{MaxCPU: cpu})
					check(err == nil, "reading fails: %v", err)
					if len(listDir(d)) == 0 {
						check(raw == nil, "data without any file")
						return
					}
					want.backAgain(raw, want.names(), csvWopt{}, false)
					if len(want.rows) > 0 {
						df := raw.ToDataFrame()
						g := &frame{df: df, cols: want.cols, rows: want.rows}
						for _, h := range []struct {
							got  []string
							want []string
						}{{df.IntHeader().NameList(), g.ofKind(kI)}, {df.FloatHeader().NameList(), g.ofKind(kF)}, {df.BoolHeader().NameList(), g.ofKind(kB)}, {df.StringHeader().NameList(), g.strCols()}} {
							if !sameList(sortedCopy(h.got), h.want) {
								failf("columns %q, expected %q", h.got, h.want)
							}
						}
					}
				})
			}
		}
	}
}

// ---- C13 ---------------------------------------------------------------------------

func runC13(c *Ctx) {
	forms := viewForms()
	c.Unit("a write fails at every byte")
	for _, n := range []int{0, 1, 2, 3, 20, 257} {
		for _, fi := range []int{0, 2} {
			n, fi := n, fi
			// size of the complete output
			size := 0
			sched.Run(func() {
				w := newWorld()
				f := w.csvFrame(n, csvTexts)
				forms[fi].do(w, f)
				var buf bytes.Buffer
				w.last().df.To1CSV(&buf, csvWopt{order: true}.spec())
				size = buf.Len()
			})
			step := 1
			if size > 2000 && !c.thorough {
				step = 37
			}
			for at := -1; at <= size; at++ {
				if at > 300 && at < size-300 && at%4096 != 0 && at%4096 != 4095 && at%step != 0 {
					continue
				}
				for short := 0; short < 2; short++ {
					for order := 0; order < 2; order++ {
						at, short, order := at, short, order
						c.Case(fmt.Sprintf("1 writer n=%d form=%d at=%d short=%d order=%d", n, fi, at, short, order), func() {
							w := newWorld()
							f := w.csvFrame(n, csvTexts)
							forms[fi].do(w, f)
							s := &sink{failAt: at, short: short == 1}
							err := w.last().df.To1CSV(s, csvWopt{order: order == 1}.spec())
							if s.failed {
								check(err != nil, "a write failed after %d bytes and no error is returned", at)
							} else {
								check(err == nil, "nothing failed and the error is %v", err)
							}
							w.checkAll("writing")
						})
					}
				}
			}
		}
	}
	c.Unit("one of several writers fails")
	for _, n := range []int{0, 1, 2, 3, 7} {
		for k := 1; k <= 3; k++ {
			for bad := 0; bad < k; bad++ {
				for _, at := range []int{0, 1, 10, 20, 21, 22, 30, 60, 100} {
					n, k, bad, at := n, k, bad, at
					c.Schedules(fmt.Sprintf("%d writers n=%d bad=%d at=%d", k, n, bad, at), func(e *sched.Explorer) {
						if k == 3 && !c.thorough {
							e.Bound[sched.KSched] = 2
						}
					}, func() {
						w := newWorld()
						f := w.csvFrame(n, csvTexts)
						sinks, ws := csvWriters(k)
						sinks[bad].failAt = at
						sinks[bad].short = at%2 == 1
						err := f.df.ToCSVs(ws, csvWopt{order: true}.spec())
						if sinks[bad].failed {
							check(err != nil, "writer %d failed and no error is returned", bad)
						} else {
							check(err == nil, "nothing failed and the error is %v", err)
						}
					})
				}
			}
		}
	}
	c.Unit("any subset of the writers fails")
	for k := 2; k <= 4; k++ {
		for mask := 0; mask < 1<<uint(k); mask++ {
			for _, n := range []int{0, 3, 9, 300} {
				k, mask, n := k, mask, n
				c.Case(fmt.Sprintf("%d writers n=%d mask=%b", k, n, mask), func() {
					w := newWorld()
					f := w.csvFrame(n, csvTexts)
					sinks, ws := csvWriters(k)
					for i := range sinks {
						if mask>>uint(i)&1 == 1 {
							sinks[i].failAt = 3
						}
					}
					err := f.df.ToCSVs(ws, csvWopt{}.spec())
					check((err != nil) == (mask != 0), "failing writers %b, error %v", mask, err)
				})
			}
		}
	}
	c.Unit("files that cannot be created or written")
	full := ""
	if f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0); err == nil {
		f.Close()
		full = "/dev/full"
	}
	for k := 1; k <= 3; k++ {
		tuples(3, k, func(t []int) {
			t = append([]int{}, t...)
			for _, n := range []int{0, 1, 2, 5, 300} {
				n := n
				c.Case(fmt.Sprintf("files n=%d faults=%v", n, t), func() {
					d := c.tmpDir()
					defer rmDir(c, d)
					w := newWorld()
					f := w.csvFrame(n, csvTexts)
					var paths []string
					bad := false
					for i, x := range t {
						p := filepath.Join(d, fmt.Sprintf("f%d.csv", i))
						switch x {
						case 1:
							p = filepath.Join(d, "nowhere", "f.csv")
							bad = true
						case 2:
							if full == "" {
								return
							}
							if err := os.Symlink(full, p); err != nil {
								panic("harness: " + err.Error())
							}
							bad = true
						}
						paths = append(paths, p)
					}
					err := f.df.ToCSVFiles(csvWopt{order: n%2 == 0}.spec(), paths...)
					if bad {
						check(err != nil, "a file cannot be written and no error is returned")
					} else {
						check(err == nil, "nothing failed and the error is %v", err)
					}
				})
			}
		})
	}
	c.Unit("directories that cannot be written")
	for _, n := range []int{0, 1, 5} {
		for fault := 0; fault < 3; fault++ {
			n, fault := n, fault
			c.Case(fmt.Sprintf("dir n=%d fault=%d", n, fault), func() {
				sched.SetNumCPU(4)
				d := c.tmpDir()
				defer rmDir(c, d)
				w := newWorld()
				f := w.csvFrame(n, csvTexts)
				prefix := filepath.Join(d, "p")
				switch fault {
				case 1:
					prefix = filepath.Join(d, "nowhere", "p")
				case 2:
					if full == "" {
						return
					}
					paths, err := f.df.ToCSVDir(csvWopt{minRow: 2}.spec(), prefix)
					check(err == nil, "ToCSVDir fails: %v", err)
					last := paths[len(paths)-1]
					os.Remove(last)
					os.Symlink(full, last)
				}
				_, err := f.df.ToCSVDir(csvWopt{minRow: 2}.spec(), prefix)
				check((err != nil) == (fault > 0), "fault %d, error %v", fault, err)
			})
		}
	}
	// reading
	c.Unit("a read fails at every byte")
	texts := []string{"a,b\n1,x\n2,y\n", "a\n\n", "a,b\r\n\"q\"\"\n\",2\r\n", "", "a", "a,b\n1,2", strings.Repeat("long line of text,123\n", 40)}
	for ti, text := range texts {
		for at := 0; at <= len(text); at++ {
			for _, chunk := range []int{0, 1, 2} {
				for hdr := 0; hdr < 2; hdr++ {
					text, at, chunk, hdr := text, at, chunk, hdr
					c.Case(fmt.Sprintf("text=%d at=%d chunk=%d hdr=%d", ti, at, chunk, hdr), func() {
						o := csvOpt{cpu: 2}
						if hdr == 1 {
							o.header = []string{"h1", "h2"}[:1+boolInt(strings.Contains(text, ","))]
						}
						raw, err := dataframe.FromCSV(&chunks{text: text, n: chunk, fail: at}, o.spec())
						check(err != nil, "the source failed after %d bytes of %q and no error is returned (data: %v)", at, text, raw != nil)
						// the same without failure
						_, _, want := o.records(text)
						_, err = dataframe.FromCSV(&chunks{text: text, n: chunk, fail: -1}, o.spec())
						check((err != nil) == (want != nil), "error %v, expected %v", err, want)
					})
				}
			}
		}
	}
	c.Unit("malformed records")
	for i, text := range []string{"a,b\n1\n", "a,b\n1,2,3\n", "a,b\n1,2\n3\n4,5\n", "a,b\n\"1,2\n", "a,b\n1\"x,2\n", "a\n1\n2,3\n", "a,b\n1,2\n\"x\" y,3\n"} {
		for cpu := 1; cpu <= 3; cpu++ {
			text, cpu := text, cpu
			c.Case(fmt.Sprintf("malformed %d cpu=%d", i, cpu), func() {
				raw, err := dataframe.FromCSV(strings.NewReader(text), csvOpt{cpu: cpu}.spec())
				check(err != nil, "no error for %q (data: %v)", text, raw != nil)
			})
		}
	}
	errorSizes(c)
	c.Case("header longer than the records", func() {
		raw, err := dataframe.FromCSV(strings.NewReader("1,2\n3,4\n"), csvOpt{header: []string{"a", "b", "c"}}.spec())
		check(err != nil, "no error for records shorter than the header (data: %v)", raw != nil)
	})
	c.Unit("files of a set that cannot be read")
	for k := 1; k <= 3; k++ {
		tuples(5, k, func(t []int) {
			t = append([]int{}, t...)
			for cpu := 1; cpu <= 4; cpu++ {
				if k == 3 && cpu == 3 {
					continue
				}
				cpu := cpu
				c.Schedules(fmt.Sprintf("%v cpu=%d", t, cpu), func(e *sched.Explorer) {
					e.Bound[sched.KSched] = []int{-1, -1, 2, 0}[k]
					if k == 3 && c.thorough {
						e.Bound[sched.KSched] = 1
					}
				}, func() {
					sched.SetNumCPU(4)
					d := c.tmpDir()
					defer rmDir(c, d)
					bad := false
					for i, x := range t {
						p := filepath.Join(d, fmt.Sprintf("f%d.csv", i))
						text := fmt.Sprintf("a\n%d\n", i+2)
						switch x {
						case 1:
							text = "a\n1\n2,3\n"
							bad = true
						case 2:
							text = ""
							bad = true
						case 3: // dangling link
							os.Symlink(filepath.Join(d, "gone"), p)
							bad = true
							continue
						case 4:
							text = "a\n\"1\n"
							bad = true
						}
						if err := os.WriteFile(p, []byte(text), 0o600); err != nil {
							panic("harness: " + err.Error())
						}
					}
					raw, err := dataframe.FromCSVFilePattern(filepath.Join(d, "f*.csv"), csvOpt{cpu: cpu}.spec())
					if bad {
						check(err != nil, "a file of the set cannot be read and no error is returned (data: %v)", raw != nil)
					} else {
						check(err == nil, "nothing failed and the error is %v", err)
						check(raw.NumAllocatedRows() == k, "%d rows, expected %d", raw.NumAllocatedRows(), k)
					}
				})
			}
		})
	}
	c.Unit("opening and reading fail")
	for k := 1; k <= 3; k++ {
		for cpu := 1; cpu <= 3; cpu++ {
			k, cpu := k, cpu
			c.Schedules(fmt.Sprintf("open faults k=%d cpu=%d", k, cpu), func(e *sched.Explorer) {
				e.Bound[sched.KSched] = 1
				if k == 3 && !c.thorough {
					e.Bound[sched.KSched] = 0
				}
				if k < 3 && c.thorough {
					e.Bound[sched.KSched] = 2
				}
			}, func() {
				sched.SetNumCPU(4)
				d := c.tmpDir()
				defer rmDir(c, d)
				for i := 0; i < k; i++ {
					os.WriteFile(filepath.Join(d, fmt.Sprintf("f%d.csv", i)), []byte(fmt.Sprintf("a\n%d\n", i)), 0o600)
				}
				sched.FileFaults = true
				sched.FaultsFired = 0
				defer func() { sched.FileFaults = false }()
				var raw *dataframe.RawData
				var err error
				if k == 1 && cpu == 1 {
					raw, err = dataframe.FromCSVFile(filepath.Join(d, "f0.csv"), csvOpt{cpu: cpu}.spec())
				} else {
					raw, err = dataframe.FromCSVFilePattern(filepath.Join(d, "f*.csv"), csvOpt{cpu: cpu}.spec())
				}
				sched.FileFaults = false
				if sched.FaultsFired > 0 {
					check(err != nil, "a file could not be read and no error is returned (data: %v)", raw != nil)
				} else {
					check(err == nil, "nothing failed and the error is %v", err)
				}
			})
			c.Schedules(fmt.Sprintf("create faults k=%d n=%d", k, cpu-1), func(e *sched.Explorer) {
				e.Bound[sched.KSched] = 1
			}, func() {
				d := c.tmpDir()
				defer rmDir(c, d)
				w := newWorld()
				f := w.csvFrame(cpu-1, csvTexts)
				var paths []string
				for i := 0; i < k; i++ {
					paths = append(paths, filepath.Join(d, fmt.Sprintf("f%d.csv", i)))
				}
				sched.FileFaults = true
				sched.FaultsFired = 0
				defer func() { sched.FileFaults = false }()
				err := f.df.ToCSVFiles(csvWopt{}.spec(), paths...)
				sched.FileFaults = false
				if sched.FaultsFired > 0 {
					check(err != nil, "a file could not be written and no error is returned")
				} else {
					check(err == nil, "nothing failed and the error is %v", err)
				}
			})
		}
	}
	c.Unit("missing files")
	c.Case("missing", func() {
		d := c.tmpDir()
		defer rmDir(c, d)
		_, err := dataframe.FromCSVFile(filepath.Join(d, "none.csv"), csvOpt{}.spec())
		check(err != nil, "no error for a missing file")
		_, err = dataframe.FromCSVFile(d, csvOpt{}.spec())
		check(err != nil, "no error for a directory")
		_, err = dataframe.FromCSVFilePattern(filepath.Join(d, "[.csv"), csvOpt{}.spec())
		check(err != nil, "no error for a malformed pattern")
	})
}
