//go:build go1.21

package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/zzverif/sched"
)

// Sizes for reading and writing CSV.

func csvText(rows [][]string) string {
	var sb strings.Builder
	for _, r := range rows {
		for j, s := range r {
			if j > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(quoteCSV(s))
		}
		sb.WriteByte('\n')
	}
	return sb.String()
}

func readSizes(c *Ctx, opts []csvOpt) {
	// a column of equal cells but for one
	plain := []string{"0", "7", "true", "1.5", "x", "", "NA"}
	odd := []string{"1", "12", "F", "2.25", "y", "", "NA", "9223372036854775808", " 3"}
	dense := 20
	lens := []int{33, 65, 100, 101, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1001, 1024, 1025}
	if c.thorough {
		dense = 45
		lens = append(lens, 2048, 2049, 4096, 4097, 5000, 10000, 10001)
	}
	c.Unit("one other cell at every row")
	for _, n := range append(seq(dense + 1)[2:], lens...) {
		for at := 0; at < n; at++ {
			if n > dense && !(at < 2 || at > n-3 || at == n/2 || at%128 == 127 && n < 600 || at%100 == 99 && n > 600 || at == 512 || at == 1000) {
				continue
			}
			n, at := n, at
			for pi := range plain {
				pi := pi
				if n > dense && (at+pi)%3 > 0 {
					continue
				}
				id := ""
				if c.only != "" || c.counter%c.of == c.shard {
					id = fmt.Sprintf("%d rows of %q, another in row %d", n, plain[pi], at)
				}
				c.Case(id, func() {
					for oi := range odd {
						var rows [][]string
						for i := 0; i < n; i++ {
							v := plain[pi]
							if i == at {
								v = odd[oi]
							}
							rows = append(rows, []string{v, fmt.Sprint(i)})
						}
						o := opts[(oi+at+n+pi)%len(opts)]
						if oi%2 == 0 {
							o.missing = []string{"", "NA"}
						}
						o.cpu = 1 + at%3
						c.readCase(newWorld(), "a,id\n"+csvText(rows), o, at)
					}
				})
			}
		}
	}
	c.Unit("every number of columns")
	cells := []string{"0", "7", "true", "1.5", "x", "", "NA", "y\nz", "1"}
	for _, k := range columnCounts(40, 257) {
		for oi := range opts {
			for cpu := 1; cpu <= 4; cpu++ {
				k, o, cpu := k, opts[oi], cpu
				if (k+oi+cpu)%4 != 0 {
					continue
				}
				c.Case(fmt.Sprintf("%d columns opt %d cpu %d", k, oi, cpu), func() {
					rows := make([][]string, 5)
					for j := 0; j < k; j++ {
						rows[0] = append(rows[0], fmt.Sprintf("col %d", (j*7)%k*1000+j))
						if j%5 == 2 && k > 4 {
							o.exclude = append(o.exclude, rows[0][j])
						}
						for i := 1; i < len(rows); i++ {
							rows[i] = append(rows[i], cells[(j+i/(1+j%3))%len(cells)])
						}
					}
					o.cpu = cpu
					if oi%3 == 1 {
						o.header = rows[0]
						rows = rows[1:]
					}
					c.readCase(newWorld(), csvText(rows), o, k)
				})
			}
		}
	}
	c.Unit("long cells")
	for _, l := range []int{100, 1000, 4090, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 65535, 65536, 65537, 131073} {
		for mode := 0; mode < 5; mode++ {
			l, mode := l, mode
			if mode == 1 && l > 70000 {
				continue
			}
			c.Case(fmt.Sprintf("cells of %d bytes mode %d", l, mode), func() {
				rows := [][]string{{"a", "b"}, {"1", strings.Repeat("x", l)}, {"2", "y"}, {"3", strings.Repeat("\"", l/2)}, {"4", ""}}
				c.readCase(newWorld(), csvText(rows), csvOpt{cpu: 2}, mode)
			})
		}
	}
}

func writeSizes(c *Ctx, write func(w *world, v *frame, o csvWopt)) {
	c.Unit("every number of columns")
	for _, k := range columnCounts(40, 257) {
		for n := 0; n < 4; n++ {
			for _, o := range []csvWopt{{order: true}, {comma: ';', crlf: true, marker: "NA"}} {
				k, n, o := k, n, o
				c.Case(fmt.Sprintf("%d columns %d rows order %v", k, n, o.order), func() {
					w := newWorld()
					f := w.build(n, manySpecs(k))
					if k%2 == 1 {
						w.opReverse(f).do()
					}
					if len(w.last().writable()) > 0 {
						write(w, w.last(), o)
					}
				})
			}
		}
	}
	c.Unit("long strings")
	for _, l := range []int{100, 1000, 4090, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537} {
		l := l
		c.Case(fmt.Sprintf("strings of %d bytes", l), func() {
			w := newWorld()
			write(w, w.csvFrame(5, []string{strings.Repeat("x", l), strings.Repeat("\"", l), "short", strings.Repeat("a,\n", l/3)}), csvWopt{order: true})
		})
	}
	c.Unit("row counts around round numbers")
	for _, n := range rowCounts(0, 5001) {
		for k := 0; k < 2; k++ {
			n, k := n, k
			if n < 250 {
				continue
			}
			c.Case(fmt.Sprintf("n=%d %d", n, k), func() {
				w := newWorld()
				f := w.csvFrame(n, csvTexts)
				if k > 0 {
					w.opIndex(f, append(seq(n)[n/3:], 0, 1, 2)).do()
				}
				write(w, w.last(), csvWopt{order: k == 0})
			})
		}
	}
}

func errorSizes(c *Ctx) {
	c.Unit("a malformed record at every row")
	bad := []string{"1\n", "1,2,3\n", "\"1\"x,2\n", "\"open,2\n", "\n1\n"}
	for _, n := range append(seq(40)[1:], 64, 100, 128, 255, 256, 257, 511, 512, 513, 600, 1000, 1024, 1025) {
		for at := 0; at < n; at++ {
			if n > 40 && !(at < 2 || at > n-3 || at == n/2 || at%128 > 126) {
				continue
			}
			for k := range bad {
				n, at, k := n, at, k
				c.Case(fmt.Sprintf("%d rows, row %d malformed %d", n, at, k), func() {
					var sb strings.Builder
					sb.WriteString("a,b\n")
					for i := 0; i < n; i++ {
						if i == at {
							sb.WriteString(bad[k])
						} else {
							fmt.Fprintf(&sb, "%d,x\n", i)
						}
					}
					for cpu := 1; cpu <= 2; cpu++ {
						raw, err := dataframe.FromCSV(strings.NewReader(sb.String()), csvOpt{cpu: cpu}.spec())
						check(err != nil, "no error for a malformed record (data: %v)", raw != nil)
					}
				})
			}
		}
	}
	c.Unit("one bad file among many")
	texts := []string{"a\n1\n2,3\n", "", "a\n\"1\n"}
	for k := 1; k <= 20; k++ {
		for bad := 0; bad <= k; bad++ {
			for _, cpu := range []int{1, 2, 3, 5, 8} {
				k, bad, cpu := k, bad, cpu
				if k > 8 && (bad+cpu)%3 > 0 {
					continue
				}
				c.Case(fmt.Sprintf("%d files, file %d bad, cpu=%d", k, bad, cpu), func() {
					sched.SetNumCPU(8)
					defer sched.SetNumCPU(4)
					d := c.tmpDir()
					defer rmDir(c, d)
					for i := 0; i < k; i++ {
						text := fmt.Sprintf("a\n%d\n", i+2)
						p := filepath.Join(d, fmt.Sprintf("f%02d.csv", i))
						if i == bad {
							if (k+cpu)%4 == 3 {
								os.Symlink(filepath.Join(d, "gone"), p)
								continue
							}
							text = texts[(k+cpu)%4]
						}
						if err := os.WriteFile(p, []byte(text), 0o600); err != nil {
							panic("harness: " + err.Error())
						}
					}
					raw, err := dataframe.FromCSVFilePattern(filepath.Join(d, "f*.csv"), csvOpt{cpu: cpu}.spec())
					if bad < k {
						check(err != nil, "a file of the set cannot be read and no error is returned (data: %v)", raw != nil)
					} else {
						check(err == nil, "nothing failed and the error is %v", err)
						check(raw.NumAllocatedRows() == k, "%d rows, expected %d", raw.NumAllocatedRows(), k)
					}
				})
			}
		}
	}
	c.Unit("one bad writer among many")
	for k := 1; k <= 20; k++ {
		for bad := 0; bad <= k; bad++ {
			for _, n := range []int{0, 1, 5, k, 3 * k, 300} {
				k, bad, n := k, bad, n
				c.Case(fmt.Sprintf("%d writers, writer %d bad, n=%d", k, bad, n), func() {
					w := newWorld()
					f := w.csvFrame(n, csvTexts)
					sinks, ws := csvWriters(k)
					if bad < k {
						sinks[bad].failAt = 7
						sinks[bad].short = n%2 == 1
					}
					err := f.df.ToCSVs(ws, csvWopt{order: bad%2 == 0}.spec())
					failed := false
					for _, s := range sinks {
						failed = failed || s.failed
					}
					check((err != nil) == failed, "writer failed: %v, error %v", failed, err)
				})
			}
		}
	}
	c.Unit("writes fail late")
	for _, n := range []int{200, 256, 257, 512, 513, 700, 1025, 2000} {
		for part := 0; part <= 40; part++ {
			n, part := n, part
			c.Case(fmt.Sprintf("n=%d part %d", n, part), func() {
				w := newWorld()
				f := w.csvFrame(n, csvTexts)
				var buf bytes.Buffer
				f.df.To1CSV(&buf, csvWopt{order: true}.spec())
				size := buf.Len()
				for d := -2; d <= 2; d++ {
					at := size*part/40 + d
					if at < 0 || at > size {
						continue
					}
					for short := 0; short < 2; short++ {
						s := &sink{failAt: at, short: short == 1}
						err := f.df.To1CSV(s, csvWopt{order: true}.spec())
						check((err != nil) == s.failed, "failure after %d of %d bytes: %v, error %v", at, size, s.failed, err)
						check(s.failed || s.Len() == size, "%d of %d bytes are written", s.Len(), size)
					}
				}
			})
		}
	}
}
