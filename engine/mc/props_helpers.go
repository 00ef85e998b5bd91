//go:build go1.21

package main

import (
	"fmt"
	"math"
	"testing"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/utils"
)

// ---- C40: the helper functions -------------------------------------------------------

// reported tells whether an assertion reports a failure to the test it is given.
func reported(f func(t *testing.T) bool) (ok, failed bool) {
	t := new(testing.T)
	defer func() {
		// a test that is not run by package testing cannot always take messages
		if recover() != nil {
			ok, failed = false, true
		}
	}()
	ok = f(t)
	return ok, t.Failed()
}

func asserts(what string, want bool, f func(t *testing.T) bool) {
	ok, failed := reported(f)
	check(ok != failed, "%s returns %v, failure reported: %v", what, ok, failed)
	check(ok == want, "%s: %v, expected %v", what, ok, want)
}

func runC40(c *Ctx) {
	c.Unit("ranges")
	for _, from := range []int{-7, -1, 0, 1, 5, 1000, math.MinInt32, math.MaxInt32} {
		for interval := 1; interval <= 12; interval++ {
			for _, n := range rowCounts(60, 300) {
				from, interval, n := from, interval, n
				if c.only == "" && c.counter%c.of != c.shard {
					c.counter++
					continue
				}
				c.Case(fmt.Sprintf("from=%d length=%d interval=%d", from, n, interval), func() {
					got := utils.MakeRange(from, from+n, interval)
					k := 0
					for x := from; x < from+n; x += interval {
						check(k < len(got), "the range from %d to %d by %d has %d elements", from, from+n, interval, len(got))
						check(got[k] == x, "element %d of the range from %d to %d by %d is %d, expected %d", k, from, from+n, interval, got[k], x)
						k++
					}
					check(len(got) == k, "the range from %d to %d by %d has %d elements, expected %d", from, from+n, interval, len(got), k)
				})
			}
		}
	}

	floats := []float64{math.NaN(), math.Inf(-1), -1, math.Copysign(0, -1), 0, 1e-300, 2, math.Inf(1)}
	argSort := func(vals []float64, readonly bool) {
		mine := append([]float64(nil), vals...)
		got := utils.FloatArgSort(mine, readonly)
		if readonly {
			for i := range mine {
				check(math.Float64bits(mine[i]) == math.Float64bits(vals[i]) || mine[i] != mine[i] && vals[i] != vals[i], "sorting changed value %d from %v to %v", i, vals[i], mine[i])
			}
		}
		check(len(got) == len(vals), "%d indices for %d values", len(got), len(vals))
		seen := make([]bool, len(vals))
		last := math.Inf(-1)
		for k, i := range got {
			check(i >= 0 && i < len(vals) && !seen[i], "index %d is %d, out of range or repeated", k, i)
			seen[i] = true
			v := vals[i]
			if v != v {
				v = math.Inf(1)
			}
			check(v >= last, "value %v comes after %v", vals[i], last)
			last = v
		}
	}
	c.Unit("sorting floats")
	max := 4
	if c.thorough {
		max = 6
	}
	for l := 0; l <= max; l++ {
		tuples(len(floats), l, func(t []int) {
			t = append([]int{}, t...)
			c.Case(fmt.Sprintf("values %v", t), func() {
				vals := make([]float64, l)
				for i, k := range t {
					vals[i] = floats[k]
				}
				argSort(vals, true)
				argSort(vals, false)
			})
		})
	}
	for _, n := range rowCounts(150, 5000) {
		n := n
		c.Case(fmt.Sprintf("n=%d", n), func() {
			for step := 1; step <= 7; step++ {
				vals := make([]float64, n)
				for i := range vals {
					vals[i] = float64(i * step % 11)
					if i%13 == step {
						vals[i] = math.NaN()
					}
				}
				argSort(vals, true)
				argSort(vals, false)
			}
		})
	}

	c.Unit("sets of strings")
	pool := []string{"", "a", "A", "a ", "b", "\x00", "é"}
	max = 4
	if c.thorough {
		max = 5
	}
	for l := 0; l <= max; l++ {
		tuples(len(pool), l, func(t []int) {
			t = append([]int{}, t...)
			c.Case(fmt.Sprintf("strings %v", t), func() {
				list := make([]string, l)
				want := map[string]bool{}
				for i, k := range t {
					list[i] = pool[k]
					want[pool[k]] = true
				}
				mine := append([]string(nil), list...)
				set := utils.ToStringSet(mine)
				check(sameList(mine, list), "making a set changed %q to %q", list, mine)
				check(len(set) == len(want), "the set of %q has %d elements", list, len(set))
				for k := range want {
					check(set[k], "%q is missing from the set of %q", k, list)
				}
				keys := utils.StringSetKeys(set)
				check(len(keys) == len(want), "keys of the set of %q: %q", list, keys)
				seen := map[string]bool{}
				for _, k := range keys {
					check(want[k] && !seen[k], "keys of the set of %q: %q", list, keys)
					seen[k] = true
				}
				check(len(set) == len(want), "listing the keys changed the set")
				for _, p := range pool {
					first := -1
					for i := range list {
						if list[i] == p {
							first = i
							break
						}
					}
					check(utils.IndexOfString(p, mine) == first, "%q is at %d in %q, expected %d", p, utils.IndexOfString(p, mine), list, first)
				}
				check(sameList(mine, list), "looking for a string changed %q to %q", list, mine)
			})
		})
	}

	c.Unit("hashing integers")
	// the same code for equal slices, whatever they are part of
	for l := 0; l <= 4; l++ {
		tuples(5, l, func(t []int) {
			t = append([]int{}, t...)
			c.Case(fmt.Sprintf("integers %v", t), func() {
				vals := []int{math.MinInt64, -1, 0, 1, math.MaxInt64}
				list := make([]int, l)
				for i, k := range t {
					list[i] = vals[k]
				}
				other := append(append([]int{9, 8}, list...), 7, 6)[2 : l+2]
				check(utils.HashIntSlice(list) == utils.HashIntSlice(other), "two codes for %v", list)
				for i, k := range t {
					check(list[i] == vals[k] && other[i] == vals[k], "hashing changed %v", list)
				}
			})
		})
	}

	c.Unit("consistency of raw data")
	// columns that are absent or have 0 to 2 values
	contents := [][]interface{}{{nil, 3}, {nil, "x"}, {"x", nil}, {"", "y"}, {3, "x"}}
	tuples(4, 5, func(t []int) {
		t = append([]int{}, t...)
		for content := range contents {
			for mark := 0; mark < 4; mark++ {
				content, mark := content, mark
				if t[0] < 2 && content > 0 {
					continue // same values
				}
				c.Case(fmt.Sprintf("lengths %v content %d mark %d", t, content, mark), func() {
					b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
					length, want := -1, true
					for i, n := range t {
						n--
						if n < 0 {
							continue
						}
						if length < 0 {
							length = n
						}
						want = want && n == length
						switch i {
						case 0:
							b.SetObjects("o", contents[content][:n])
						case 1:
							b.SetFloats("f", make([]float64, n))
						case 2:
							b.SetInts("i", make([]int, n))
						case 3:
							b.SetBools("b", make([]bool, n))
						case 4:
							b.SetObjects("s", make([]interface{}, n))
						}
					}
					switch mark {
					case 1:
						b.MarkAsString("o")
						want = want && t[0] > 0
					case 2:
						b.MarkAsString("f")
						want = false
					case 3:
						b.MarkAsString("s")
						want = want && t[4] > 0
					}
					if mark != 1 && t[0] > 0 {
						for _, v := range contents[content][:t[0]-1] {
							if _, text := v.(string); text {
								want = false
							}
						}
					}
					asserts("CheckConsistency", want, func(t *testing.T) bool { return b.RawData.CheckConsistency(t) })
				})
			}
		}
	})

	c.Unit("assertions")
	for i := range pool {
		for j := range pool {
			a, b, same := pool[i], pool[j], i == j
			c.Case(fmt.Sprintf("%q %q", a, b), func() {
				asserts("AssertStringEquals", same, func(t *testing.T) bool { return utils.AssertStringEquals("x", a, b, t) })
				asserts("AssertStringNotEquals", !same, func(t *testing.T) bool { return utils.AssertStringNotEquals("x", a, b, t) })
			})
		}
	}
	ints := []int{math.MinInt64, -1, 0, 1, 2, math.MaxInt64}
	for i := range ints {
		for j := range ints {
			a, b, same := ints[i], ints[j], i == j
			c.Case(fmt.Sprintf("%d %d", a, b), func() {
				asserts("AssertIntEquals", same, func(t *testing.T) bool { return utils.AssertIntEquals("x", a, b, t) })
				asserts("AssertIntNotEquals", !same, func(t *testing.T) bool { return utils.AssertIntNotEquals("x", a, b, t) })
			})
		}
	}
	// about 0.01 apart at most; exactly how much is not specified
	reals := []float64{math.NaN(), math.Inf(-1), -2, -1, 0, 0.005, 0.05, 1, 1e18, math.Inf(1)}
	close := func(a, b float64) bool {
		return a == b || a != a && b != b || math.Abs(a-b) <= 0.01
	}
	for i := range reals {
		for j := range reals {
			a, b := reals[i], reals[j]
			c.Case(fmt.Sprintf("%v %v", a, b), func() {
				asserts(fmt.Sprintf("AssertFloatEquals(%v, %v)", a, b), close(a, b), func(t *testing.T) bool { return utils.AssertFloatEquals("x", a, b, t) })
			})
		}
	}
	for _, v := range []bool{false, true} {
		v := v
		c.Case(fmt.Sprint(v), func() {
			asserts("AssertTrue", v, func(t *testing.T) bool { return utils.AssertTrue("x", v, t) })
			asserts("AssertFalse", !v, func(t *testing.T) bool { return utils.AssertFalse("x", v, t) })
			asserts("AssertNoError", v, func(t *testing.T) bool {
				if v {
					return utils.AssertNoError(nil, t)
				}
				return utils.AssertNoError(fmt.Errorf("x"), t)
			})
		})
	}
	// pairs of lists that are equal or differ in one place or in length
	for l := 1; l <= 3; l++ {
		for m := 1; m <= 3; m++ {
			tuples(4, l+m, func(t []int) {
				t = append([]int{}, t...)
				c.Case(fmt.Sprintf("lists %v of %d and %d", t, l, m), func() {
					same, nearby, permuted := l == m, l == m, l == m
					var si, sj []string
					var ii, ij []int
					var fi, fj []float64
					var bi, bj []bool
					bools := l == m
					vals := []float64{0, 0.005, 1, math.NaN()}
					for i, k := range t {
						if i < l {
							si, ii, fi, bi = append(si, pool[k]), append(ii, k), append(fi, vals[k]), append(bi, k&1 == 1)
						} else {
							sj, ij, fj, bj = append(sj, pool[k]), append(ij, k), append(fj, vals[k]), append(bj, k&1 == 1)
						}
					}
					for i := 0; i < l && i < m; i++ {
						same = same && t[i] == t[l+i]
						nearby = nearby && close(fi[i], fj[i])
						bools = bools && bi[i] == bj[i]
					}
					asserts("AssertStringSliceEquals", same, func(t *testing.T) bool { return utils.AssertStringSliceEquals("x", si, sj, true, t) })
					// whether repetitions count is not specified
					repeated := false
					x, y := utils.ToStringSet(si), utils.ToStringSet(sj)
					if len(x) != l || len(y) != m {
						repeated = true
					}
					for k := range x {
						permuted = permuted && y[k]
					}
					if !repeated {
						asserts("AssertStringSliceEquals in any order", permuted, func(t *testing.T) bool { return utils.AssertStringSliceEquals("x", si, sj, false, t) })
					}
					asserts("AssertIntSliceEquals", same, func(t *testing.T) bool { return utils.AssertIntSliceEquals("x", ii, ij, t) })
					asserts("AssertIntSliceNotEquals", !same, func(t *testing.T) bool { return utils.AssertIntSliceNotEquals("x", ii, ij, t) })
					asserts(fmt.Sprintf("AssertFloatSliceEquals(%v, %v)", fi, fj), nearby, func(t *testing.T) bool { return utils.AssertFloatSliceEquals("x", fi, fj, t) })
					asserts("AssertBoolSliceEquals", bools, func(t *testing.T) bool { return utils.AssertBoolSliceEquals("x", bi, bj, t) })
				})
			})
		}
	}
}
